package main

import (
	"fmt"
	"sort"
)

// Result is what one property check produced.
type Result struct {
	Prop        string
	Rule        string // the rule applied, in words
	Obligations int
	Discharged  int
	Viol        map[string]*Violation
	Fns         map[string]bool
	Sites       map[string]bool
	Counts      map[string]int
	Samples     []string
	States      int
	Steps       int
	Paths       int
	Assume      []string
	Err         error
	obl         map[string]bool // obligation -> still fine
}

func NewResult(prop, rule string) *Result {
	return &Result{Prop: prop, Rule: rule, Viol: map[string]*Violation{}, Fns: map[string]bool{}, Sites: map[string]bool{},
		Counts: map[string]int{}, obl: map[string]bool{}}
}

// Oblige records one proof obligation (identified by a stable name) and
// whether it held on the path on which it was just met.
func (r *Result) Oblige(key string, ok bool) {
	if v, seen := r.obl[key]; seen {
		r.obl[key] = v && ok
		return
	}
	r.obl[key] = ok
}

func (r *Result) Bad(key, pos, format string, a ...any) {
	k := key + "@" + pos
	if _, ok := r.Viol[k]; ok {
		return
	}
	r.Viol[k] = &Violation{Prop: r.Prop, Key: key, Pos: pos, Msg: fmt.Sprintf(format, a...)}
}

// Check is Oblige plus a violation with the trace of st when it fails.
func (r *Result) Check(ok bool, st *State, key, pos, format string, a ...any) bool {
	r.Oblige(key+" at "+pos, ok)
	if !ok {
		k := key + "@" + pos
		if _, dup := r.Viol[k]; !dup {
			v := &Violation{Prop: r.Prop, Key: key, Pos: pos, Msg: fmt.Sprintf(format, a...)}
			if st != nil {
				v.Trace = st.Trace()
			}
			r.Viol[k] = v
		}
	}
	return ok
}

// Absorb adds the statistics of an engine run.
func (r *Result) Absorb(x *Exec) {
	r.States += x.States
	r.Steps += x.Steps
	r.Paths += x.Paths + x.Aborts
	for f := range x.Fns {
		r.Fns[f] = true
	}
	for s := range x.Sites {
		r.Sites[s] = true
	}
	for k, v := range x.Viol {
		r.Viol[k] = v
	}
	if x.Err != nil && r.Err == nil {
		r.Err = x.Err
	}
}

func (r *Result) finish() {
	r.Obligations, r.Discharged = 0, 0
	for _, ok := range r.obl {
		r.Obligations++
		if ok {
			r.Discharged++
		}
	}
}

func (r *Result) sorted() []*Violation {
	var v []*Violation
	for _, x := range r.Viol {
		v = append(v, x)
	}
	sort.Slice(v, func(i, j int) bool {
		if v[i].Key != v[j].Key {
			return v[i].Key < v[j].Key
		}
		return v[i].Pos < v[j].Pos
	})
	return v
}

type checkFn func(p *Program, tier string) *Result

var checks = map[string]checkFn{}

// NeedAtLeast fails when the analysis met fewer instances than required, so
// that a rule never passes because it found nothing to look at.
func (r *Result) NeedAtLeast(n int, what string) {
	ok := r.Counts[what] >= n
	r.Oblige("instances: "+what, ok)
	if !ok {
		r.Bad("missing: "+what, "-", "expected at least %d instance(s) of: %s; found %d", n, what, r.Counts[what])
	}
}
