package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A static call graph of the module: for each function the callees it names
// (directly, as a goroutine, deferred, as a closure, or as a function value)
// and the names of every function outside the module and of every interface
// method it may call.
type graph struct {
	p      *Program
	callee map[*ssa.Function][]*ssa.Function
	leaf   map[*ssa.Function]map[string]bool
	trans  map[*ssa.Function]map[string]bool
	reach  map[*ssa.Function]map[*ssa.Function]bool
}

func (p *Program) Graph() *graph {
	if p.graph != nil {
		return p.graph
	}
	g := &graph{p: p, callee: map[*ssa.Function][]*ssa.Function{}, leaf: map[*ssa.Function]map[string]bool{},
		trans: map[*ssa.Function]map[string]bool{}, reach: map[*ssa.Function]map[*ssa.Function]bool{}}
	for _, f := range p.Funcs {
		l := map[string]bool{}
		g.leaf[f] = l
		seen := map[*ssa.Function]bool{}
		add := func(c *ssa.Function) {
			if c.Synthetic != "" && c.Blocks == nil || !moduleFn(c) {
				l[fname(c)] = true
				return
			}
			if !seen[c] {
				seen[c] = true
				g.callee[f] = append(g.callee[f], c)
			}
		}
		var ops []*ssa.Value
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						l["("+shortName(types.TypeString(cc.Value.Type(), nil))+")."+cc.Method.Name()] = true
					} else if b, ok := cc.Value.(*ssa.Builtin); ok {
						l["builtin."+b.Name()] = true
					}
				}
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					if fn, ok := (*o).(*ssa.Function); ok {
						add(fn)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	p.graph = g
	return g
}

// Reach is the set of module functions reachable from f (f included).
func (g *graph) Reach(f *ssa.Function) map[*ssa.Function]bool {
	if r, ok := g.reach[f]; ok {
		return r
	}
	r := map[*ssa.Function]bool{f: true}
	st := []*ssa.Function{f}
	for len(st) > 0 {
		c := st[len(st)-1]
		st = st[:len(st)-1]
		for _, d := range g.callee[c] {
			if !r[d] {
				r[d] = true
				st = append(st, d)
			}
		}
	}
	g.reach[f] = r
	return r
}

// ReachAvoiding is the set of module functions reachable from f without
// passing through avoid.
func (g *graph) ReachAvoiding(f, avoid *ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	st := []*ssa.Function{f}
	for len(st) > 0 {
		c := st[len(st)-1]
		st = st[:len(st)-1]
		if c == avoid || r[c] {
			continue
		}
		r[c] = true
		st = append(st, g.callee[c]...)
	}
	return r
}

// Trans is the set of outside callees that f may reach.
func (g *graph) Trans(f *ssa.Function) map[string]bool {
	if t, ok := g.trans[f]; ok {
		return t
	}
	t := map[string]bool{}
	for c := range g.Reach(f) {
		for n := range g.leaf[c] {
			t[n] = true
		}
	}
	g.trans[f] = t
	return t
}

func (g *graph) has(f *ssa.Function, pats ...string) bool {
	t := g.Trans(f)
	for _, p := range pats {
		ok := false
		for n := range t {
			for _, alt := range strings.Split(p, "|") {
				if n == alt || strings.HasSuffix(n, alt) && strings.HasPrefix(alt, ")") {
					ok = true
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// Minimal returns the functions below root (root included; nil: the whole
// module) that may reach a call of every given kind while no callee of theirs
// does. Each pattern is a list of alternatives separated by "|".
func (p *Program) Minimal(root *ssa.Function, pats ...string) []*ssa.Function {
	g := p.Graph()
	var r []*ssa.Function
	cand := p.Funcs
	if root != nil {
		cand = nil
		for f := range g.Reach(root) {
			cand = append(cand, f)
		}
	}
	for _, f := range cand {
		if f.Synthetic != "" && f.Parent() == nil {
			continue
		}
		if !g.has(f, pats...) {
			continue
		}
		min := true
		for _, c := range g.callee[f] {
			if c != f && !g.Reach(c)[f] && g.has(c, pats...) {
				min = false
			}
		}
		if min {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// Callers returns the module functions that call (or mention) f directly.
func (g *graph) Callers(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for c, ds := range g.callee {
		for _, d := range ds {
			if d == f {
				r = append(r, c)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// mayWriteParam tells whether f may write the memory its i-th parameter points
// to directly (not memory reached through further pointers).
func (p *Program) mayWriteParam(f *ssa.Function, i int) bool {
	type k struct {
		f *ssa.Function
		i int
	}
	busy := map[k]bool{}
	var rec func(f *ssa.Function, i int) bool
	rec = func(f *ssa.Function, i int) bool {
		if f == nil || f.Blocks == nil || i >= len(f.Params) {
			return true
		}
		if busy[k{f, i}] {
			return false
		}
		busy[k{f, i}] = true
		seen := map[ssa.Value]bool{}
		work := []ssa.Value{f.Params[i]}
		for len(work) > 0 {
			v := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[v] {
				continue
			}
			seen[v] = true
			if v.Referrers() == nil {
				return true
			}
			for _, u := range *v.Referrers() {
				switch u := u.(type) {
				case *ssa.Store:
					return true
				case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Phi, *ssa.ChangeType:
					work = append(work, u.(ssa.Value))
				case *ssa.UnOp, *ssa.BinOp, *ssa.If, *ssa.DebugRef:
				case *ssa.Call:
					if u.Call.IsInvoke() {
						return true
					}
					c, _ := u.Call.Value.(*ssa.Function)
					if c == nil || !moduleFn(c) {
						return true
					}
					for j, a := range u.Call.Args {
						if a == v && rec(c, j) {
							return true
						}
					}
				default:
					return true
				}
			}
		}
		return false
	}
	return rec(f, i)
}

// takesError tells whether f is given an error: a helper that only passes a
// verdict on still decides what its caller knows.
func takesError(f *ssa.Function) bool {
	if f == nil || f.Blocks == nil {
		return false
	}
	for _, q := range f.Params {
		if types.TypeString(q.Type(), nil) == "error" {
			return true
		}
	}
	return false
}
