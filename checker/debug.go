package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// Dump prints a state (debugging aid).
func (x *Exec) Dump(s *State) {
	for i, f := range s.frames {
		fmt.Printf("F%d %s #%d kind %c\n", i, fname(f.fn), f.block.Index, f.kind)
		var l []string
		for v, t := range f.env {
			l = append(l, fmt.Sprintf("   %s = [%d] %s", v.Name(), t.ID, t))
		}
		sort.Strings(l)
		for _, e := range l {
			fmt.Println(e)
		}
		for _, d := range f.defers {
			fmt.Println("   defer", d.ci.Name, argStr(d.ci.Args))
		}
	}
	var l []string
	for a, v := range s.heap {
		l = append(l, fmt.Sprintf(" H [%d]%s = [%d]%s", a.ID, a, v.ID, v))
	}
	for a, v := range s.havoc {
		l = append(l, fmt.Sprintf(" V %s = %s", a, v))
	}
	for a, v := range s.facts {
		l = append(l, fmt.Sprintf(" P [%d]%s = %v", a.ID, a, v))
	}
	for a, v := range s.chans {
		e := fmt.Sprintf(" C %s must=%v closed=%v", a, v.must, v.closed)
		for _, t := range v.vals {
			e += fmt.Sprintf(" [%d]%s", t.ID, t)
		}
		l = append(l, e)
	}
	for a, v := range s.contrib {
		e := fmt.Sprintf(" A %s:", a)
		for _, t := range v {
			e += fmt.Sprintf(" %v [%d]%s", t.spread, t.t.ID, t.t)
		}
		l = append(l, e)
	}
	for k, m := range s.marks {
		l = append(l, " M "+k+" "+argStr(m.T))
	}
	sort.Strings(l)
	for _, e := range l {
		fmt.Println(e)
	}
}

type profiler struct {
	n   map[string]int
	ids map[string]map[string]int // location -> component -> count
}

var prof *profiler

func init() {
	if os.Getenv("PROF") != "" {
		prof = &profiler{n: map[string]int{}, ids: map[string]map[string]int{}}
	}
}

func (p *profiler) add(x *Exec, s *State) {
	loc := x.where(s)
	p.n[loc]++
	m := p.ids[loc]
	if m == nil {
		m = map[string]int{}
		p.ids[loc] = m
	}
	for i, f := range s.frames {
		for v, t := range f.env {
			m[fmt.Sprintf("F%d %s=%s [%d]", i, v.Name(), t, t.ID)]++
		}
	}
	for a, v := range s.heap {
		m[fmt.Sprintf("H %s=%s [%d=%d]", a, v, a.ID, v.ID)]++
	}
	for a, v := range s.facts {
		m[fmt.Sprintf("P %s=%v", a, v)]++
	}
	for a, v := range s.chans {
		e := fmt.Sprintf("C %s must=%v closed=%v", a, v.must, v.closed)
		for _, t := range v.vals {
			e += fmt.Sprintf(" [%d]%s", t.ID, t)
		}
		m[e]++
	}
	for a, v := range s.contrib {
		e := fmt.Sprintf("A %s[%d]:", a, a.ID)
		for _, t := range v {
			e += fmt.Sprintf(" %v [%d]%s", t.spread, t.t.ID, t.t)
		}
		m[e]++
	}
	for k := range s.marks {
		m["M "+k]++
	}
	for _, f := range s.frames {
		for b, sn := range f.snaps {
			_ = sn
			m[fmt.Sprintf("S%d", b)]++
		}
	}
}

func (p *profiler) print() {
	var ls []string
	for l := range p.n {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return p.n[ls[i]] > p.n[ls[j]] })
	for i, l := range ls {
		if i >= 25 {
			break
		}
		fmt.Println(p.n[l], l)
		if i == 0 || strings.Contains(l, os.Getenv("PROF")) {
			var cs []string
			for c, n := range p.ids[l] {
				if n < p.n[l] {
					cs = append(cs, fmt.Sprintf("   %5d %s", n, c))
				}
			}
			sort.Strings(cs)
			for j, c := range cs {
				if j > 80 {
					break
				}
				fmt.Println(c)
			}
		}
	}
}

func dump(p *Program, name string) {
	fn := p.Fn(name)
	if fn == nil {
		fmt.Println("no such function")
		os.Exit(2)
	}
	if os.Getenv("SSA") != "" {
		fn.WriteTo(os.Stdout)
		return
	}
	x := NewExec(p, "dump", &Rule{
		PureFn: pureTypes,
		OpaqueFn: func(n string) bool {
			for _, o := range strings.Fields(os.Getenv("OPAQUE")) {
				if strings.Contains(n, o) {
					return true
				}
			}
			return false
		},
		OnCall: func(x *Exec, st *State, ci *CallInfo) {
			if os.Getenv("V") != "" {
				fmt.Printf("%s %s inl=%v (%s)\n", ci.Pos, ci.Name, ci.Inl, argStr(ci.Args))
			}
		},
		OnReturn: func(x *Exec, st *State, res []*Term) {
			fmt.Printf("RETURN %s\n", argStr(res))
			if os.Getenv("T") != "" {
				for _, l := range st.Trace() {
					fmt.Println("   ", l)
				}
			}
		},
		OnAbort: func(x *Exec, st *State, ci *CallInfo) { fmt.Printf("ABORT %s %s\n", ci.Pos, ci.Name) },
	})
	x.Run(fn)
	if prof != nil {
		prof.print()
	}
	fmt.Println("states", x.States, "steps", x.Steps, "paths", x.Paths, "aborts", x.Aborts, "err", x.Err)
}
