package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What goroutines write to memory that they share with others (part of C18).
// A flow-insensitive effect analysis: for each function the writes to memory
// that it did not make itself, in terms of its parameters, of the variables it
// captures, and of global variables, and through its callees.

// origin: where the memory that a value refers to comes from. deep: it is not
// that memory itself but other memory that is reached from it.
type origin struct {
	kind string // "param", "free", "global", "local"
	idx  int
	name string
	deep int // loads in between: none, one, or any number
	loc  ssa.Value
}

type effect struct {
	o    origin
	what string // the place written: a type and field, or the kind of element
	own  bool   // a field of a structure with a mutex
	in   ssa.Instruction
	okBy string // why the write is harmless, if it is
}

func (e effect) key() string {
	return fmt.Sprintf("%s/%d/%s/%s/%v/%s", e.o.kind, e.o.idx, fmt.Sprint(e.o.name, e.o.deep), e.what, e.own, e.okBy)
}

type effects struct {
	p      *Program
	owners map[*types.Named]bool
	memo   map[*ssa.Function]map[string]effect
	rets   map[*ssa.Function]map[origin]bool
	impls  map[string][]*ssa.Function
	busy   bool
}

func newEffects(p *Program, owners map[*types.Named]bool) *effects {
	e := &effects{p: p, owners: owners, memo: map[*ssa.Function]map[string]effect{}, rets: map[*ssa.Function]map[origin]bool{}, impls: map[string][]*ssa.Function{}}
	for ch := true; ch; {
		ch = false
		for _, f := range p.Funcs {
			if e.step(f) {
				ch = true
			}
		}
	}
	return e
}

// targets are the functions of the module that a call may run.
func (e *effects) targets(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		if moduleFn(f) && f.Blocks != nil {
			return []*ssa.Function{f}
		}
		return nil
	}
	if !c.IsInvoke() {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			return []*ssa.Function{mc.Fn.(*ssa.Function)}
		}
		return nil
	}
	k := types.TypeString(c.Value.Type(), nil) + "." + c.Method.Name()
	if r, ok := e.impls[k]; ok {
		return r
	}
	var r []*ssa.Function
	it, _ := c.Value.Type().Underlying().(*types.Interface)
	for _, f := range e.p.Funcs {
		if f.Name() != c.Method.Name() || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		if it != nil && types.Implements(f.Signature.Recv().Type(), it) {
			r = append(r, f)
		}
	}
	e.impls[k] = r
	return r
}

// origins of the memory that v refers to.
func (e *effects) origins(v ssa.Value, seen map[ssa.Value]bool) map[origin]bool {
	r := map[origin]bool{}
	add := func(m map[origin]bool) {
		for o := range m {
			r[o] = true
		}
	}
	if v == nil || seen[v] {
		return r
	}
	seen[v] = true
	defer delete(seen, v)
	switch u := v.(type) {
	case *ssa.Parameter:
		for i, q := range u.Parent().Params {
			if q == u {
				r[origin{kind: "param", idx: i, name: u.Name()}] = true
			}
		}
	case *ssa.FreeVar:
		for i, q := range u.Parent().FreeVars {
			if q == u {
				r[origin{kind: "free", idx: i, name: u.Name()}] = true
			}
		}
	case *ssa.Global:
		r[origin{kind: "global", name: shortName(u.String())}] = true
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		r[origin{kind: "local", loc: v}] = true
	case *ssa.FieldAddr:
		add(e.origins(u.X, seen))
	case *ssa.Field:
		add(e.origins(u.X, seen))
	case *ssa.IndexAddr:
		add(e.origins(u.X, seen))
	case *ssa.Index:
		add(e.origins(u.X, seen))
	case *ssa.Lookup:
		add(e.loaded(e.origins(u.X, seen), seen))
	case *ssa.Slice:
		add(e.origins(u.X, seen))
	case *ssa.UnOp:
		if u.Op == token.MUL {
			add(e.loaded(e.origins(u.X, seen), seen))
		}
	case *ssa.ChangeType:
		add(e.origins(u.X, seen))
	case *ssa.ChangeInterface:
		add(e.origins(u.X, seen))
	case *ssa.MakeInterface:
		add(e.origins(u.X, seen))
	case *ssa.TypeAssert:
		add(e.origins(u.X, seen))
	case *ssa.Phi:
		for _, x := range u.Edges {
			add(e.origins(x, seen))
		}
	case *ssa.Extract:
		add(e.origins(u.Tuple, seen))
	case *ssa.Next:
		if rg, ok := u.Iter.(*ssa.Range); ok {
			add(e.loaded(e.origins(rg.X, seen), seen))
		}
	case *ssa.Call:
		if b, ok := u.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				add(e.origins(u.Call.Args[0], seen))
			}
			break
		}
		for _, f := range e.targets(&u.Call) {
			for o := range e.rets[f] {
				add(e.back(o, &u.Call, f, seen))
			}
		}
	}
	return r
}

// loaded: the memory that values read from the given memory refer to.
func (e *effects) loaded(m map[origin]bool, seen map[ssa.Value]bool) map[origin]bool {
	r := map[origin]bool{}
	for o := range m {
		if o.kind != "local" {
			if o.deep < 2 {
				o.deep++
			}
			r[o] = true
			continue
		}
		for _, x := range storedBelow(o.loc, 0) {
			if !refers(x.Type()) {
				continue
			}
			for o2 := range e.origins(x, seen) {
				r[o2] = true
			}
		}
	}
	return r
}

// reached: all memory that can be reached from the given memory.
func (e *effects) reached(m map[origin]bool, seen map[ssa.Value]bool) map[origin]bool {
	r := map[origin]bool{}
	for i := 0; i < 6; i++ {
		m = e.loaded(m, seen)
		n := len(r)
		for o := range m {
			r[o] = true
		}
		if len(r) == n {
			break
		}
	}
	return r
}

// refers: values of the type can refer to other memory.
func refers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return refers(u.Elem())
	case *types.Chan, *types.Signature:
		return false
	}
	return true
}

// storedBelow are the values stored to a local variable or its parts.
func storedBelow(v ssa.Value, depth int) []ssa.Value {
	var r []ssa.Value
	if v.Referrers() == nil || depth > 4 {
		return nil
	}
	for _, ref := range *v.Referrers() {
		switch u := ref.(type) {
		case *ssa.Store:
			if u.Addr == v {
				r = append(r, u.Val)
			}
		case *ssa.FieldAddr:
			r = append(r, storedBelow(u, depth+1)...)
		case *ssa.IndexAddr:
			r = append(r, storedBelow(u, depth+1)...)
		case *ssa.Slice:
			r = append(r, storedBelow(u, depth+1)...)
		case *ssa.MapUpdate:
			if u.Map == v {
				r = append(r, u.Value, u.Key)
			}
		}
	}
	return r
}

// back maps an origin of a callee to origins of the caller.
func (e *effects) back(o origin, c *ssa.CallCommon, f *ssa.Function, seen map[ssa.Value]bool) map[origin]bool {
	var v ssa.Value
	switch o.kind {
	case "param":
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, args...)
		}
		if o.idx < len(args) {
			v = args[o.idx]
		}
	case "free":
		if mc, ok := c.Value.(*ssa.MakeClosure); ok && mc.Fn == f && o.idx < len(mc.Bindings) {
			v = mc.Bindings[o.idx]
		}
	case "global":
		return map[origin]bool{o: true}
	}
	return e.from(v, o.deep, seen)
}

func (e *effects) from(v ssa.Value, deep int, seen map[ssa.Value]bool) map[origin]bool {
	if v == nil {
		return nil
	}
	m := e.origins(v, seen)
	switch deep {
	case 0:
	case 1:
		m = e.loaded(m, seen)
	default:
		m = e.reached(m, seen)
	}
	return m
}

// lockedAt: a lock is taken in the same function on every path to in, and not
// released in between in the same block.
func lockedAt(in ssa.Instruction) bool {
	for _, b := range in.Parent().Blocks {
		if !b.Dominates(in.Block()) {
			continue
		}
		held := false
		for _, j := range b.Instrs {
			if j == in {
				break
			}
			if c, ok := j.(ssa.CallInstruction); ok {
				if _, isD := j.(*ssa.Defer); isD {
					continue
				}
				if cal := c.Common().StaticCallee(); cal != nil {
					switch lockOps[fname(cal)] {
					case "w":
						held = true
					case "-w":
						held = false
					}
				}
			}
		}
		if held {
			return true
		}
	}
	return false
}

func (e *effects) step(f *ssa.Function) bool {
	m := e.memo[f]
	if m == nil {
		m = map[string]effect{}
		e.memo[f] = m
		e.rets[f] = map[origin]bool{}
	}
	ch := false
	put := func(ef effect) {
		if _, ok := m[ef.key()]; !ok {
			m[ef.key()] = ef
			ch = true
		}
	}
	write := func(addr ssa.Value, what string, own bool, okBy string, in ssa.Instruction) {
		if lockedAt(in) {
			okBy = "lock"
		}
		for o := range e.origins(addr, map[ssa.Value]bool{}) {
			if o.kind == "local" {
				continue
			}
			put(effect{o, what, own, in, okBy})
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch u := in.(type) {
			case *ssa.Store:
				what, own, okBy := "a variable", false, ""
				switch a := u.Addr.(type) {
				case *ssa.FieldAddr:
					n := namedStruct(a.X.Type())
					if n != nil {
						what = "the field " + n.Underlying().(*types.Struct).Field(a.Field).Name() + " of a " + shownType(n)
						own = e.owners[n]
					} else {
						what = "a field"
					}
				case *ssa.IndexAddr:
					what = "an element of a list"
					if o, _, _ := ssaHit(e.owners, a); o != nil {
						own = true
					}
					if perGoroutine(a.Index) {
						okBy = "index"
					}
				case *ssa.Alloc:
					continue
				}
				write(u.Addr, what, own, okBy, in)
			case *ssa.MapUpdate:
				o, _, _ := ssaHit(e.owners, u.Map)
				write(u.Map, "a map", o != nil, "", in)
			case ssa.CallInstruction:
				c := u.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "copy", "clear":
						o, _, _ := ssaHit(e.owners, c.Args[0])
						write(c.Args[0], "a map or list ("+bi.Name()+")", o != nil, "", in)
					}
					continue
				}
				locked := lockedAt(in)
				for _, t := range e.targets(c) {
					for _, ef := range e.memo[t] {
						okBy := ef.okBy
						if locked {
							okBy = "lock"
						}
						for o := range e.back(ef.o, c, t, map[ssa.Value]bool{}) {
							if o.kind == "local" {
								continue
							}
							put(effect{o, ef.what, ef.own, ef.in, okBy})
						}
					}
				}
			case *ssa.MakeClosure:
				// functions that are called later by others
				t := u.Fn.(*ssa.Function)
				onlyGo := true
				for _, ref := range *u.Referrers() {
					if gi, ok := ref.(*ssa.Go); !ok || gi.Call.Value != u {
						onlyGo = false
					}
				}
				if onlyGo {
					continue // judged by itself
				}
				for _, ef := range e.memo[t] {
					switch ef.o.kind {
					case "free":
						if ef.o.idx < len(u.Bindings) {
							for o := range e.from(u.Bindings[ef.o.idx], ef.o.deep, map[ssa.Value]bool{}) {
								if o.kind == "local" {
									continue
								}
								put(effect{o, ef.what, ef.own, ef.in, ef.okBy})
							}
						}
					case "global":
						put(ef)
					}
				}
			case *ssa.Return:
				for _, v := range u.Results {
					if !refers(v.Type()) {
						continue
					}
					for o := range e.origins(v, map[ssa.Value]bool{}) {
						if o.kind != "local" && !e.rets[f][o] {
							e.rets[f][o] = true
							ch = true
						}
					}
				}
			}
		}
	}
	return ch
}

// perGoroutine: an index that the goroutine was given as its own: a parameter
// or a captured variable that is not changed.
func perGoroutine(v ssa.Value) bool {
	switch u := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.UnOp:
		fv, ok := u.X.(*ssa.FreeVar)
		if !ok || u.Op != token.MUL {
			return false
		}
		for _, ref := range *fv.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == fv {
				return false
			}
		}
		return true
	case *ssa.FreeVar:
		return true
	case *ssa.Convert:
		return perGoroutine(u.X)
	}
	return false
}

// joins: the instruction waits for something that other goroutines do.
func joins(in ssa.Instruction) bool {
	switch u := in.(type) {
	case *ssa.UnOp:
		return u.Op == token.ARROW
	case *ssa.Select:
		return u.Blocking
	case *ssa.Range, *ssa.Next:
		return false
	case ssa.CallInstruction:
		if cal := u.Common().StaticCallee(); cal != nil {
			return strings.HasSuffix(fname(cal), ".Wait")
		}
	}
	return false
}

func after(a, b ssa.Instruction) bool {
	// b can be executed after a
	if a.Block() == b.Block() {
		for _, j := range a.Block().Instrs {
			if j == a {
				return true
			}
			if j == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(c *ssa.BasicBlock) bool
	rec = func(c *ssa.BasicBlock) bool {
		for _, s := range c.Succs {
			if s == b.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if rec(s) {
					return true
				}
			}
		}
		return false
	}
	return rec(a.Block())
}

// ownVariable: the goroutine started by gi is the only one of its kind, and
// what it is given as v is used by its creator before, or after it has waited.
func ownVariable(gi *ssa.Go, v ssa.Value) bool {
	f := gi.Parent()
	al, ok := v.(*ssa.Alloc)
	if !ok {
		switch v.(type) {
		case *ssa.MakeMap, *ssa.MakeSlice:
		default:
			return false
		}
	}
	if after(gi, gi) {
		// one of many: what it is given must be made for it
		vi, ok := v.(ssa.Instruction)
		if !ok || al != nil && !al.Heap || !sameLoops(vi, gi) {
			return false
		}
	}
	if v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		if u == ssa.Instruction(gi) {
			continue
		}
		if mc, ok := u.(*ssa.MakeClosure); ok {
			only := true
			for _, ref := range *mc.Referrers() {
				if ref != ssa.Instruction(gi) {
					only = false
				}
			}
			if only {
				continue
			}
		}
		if !after(gi, u) || u.Parent() != f {
			continue
		}
		waited := false
		for _, b := range f.Blocks {
			for _, j := range b.Instrs {
				if joins(j) && after(gi, j) && (b != u.Block() && b.Dominates(u.Block()) || b == u.Block() && before(j, u)) {
					waited = true
				}
			}
		}
		if !waited && !(after(u, gi) && before(u, gi) && sameLoops(u, gi)) {
			return false
		}
	}
	return true
}

// ownContent: what can be reached from the local variable v was made for it.
func (e *effects) ownContent(gi *ssa.Go, v ssa.Value) bool {
	for o := range e.from(v, 2, map[ssa.Value]bool{}) {
		if o.kind != "local" {
			return false
		}
		if ownVariable(gi, o.loc) {
			continue
		}
		for _, u := range *o.loc.Referrers() {
			if s, ok := u.(*ssa.Store); !ok || s.Addr != v {
				return false
			}
		}
	}
	return true
}

func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, j := range a.Block().Instrs {
		if j == a {
			return true
		}
		if j == b {
			return false
		}
	}
	return false
}

// sameLoops: a is executed once for each time that b is.
func sameLoops(a, b ssa.Instruction) bool {
	// every cycle through b's block passes a's block
	if !before(a, b) {
		return false
	}
	if a.Block() == b.Block() {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{a.Block(): true}
	var rec func(c *ssa.BasicBlock) bool
	rec = func(c *ssa.BasicBlock) bool {
		for _, s := range c.Succs {
			if s == b.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if rec(s) {
					return true
				}
			}
		}
		return false
	}
	return !rec(b.Block())
}

// effectRule: functions that run concurrently with their creators write to
// memory that they were given only under a lock.
func effectRule(p *Program, r *Result, bodies []*ssa.Function, owners map[*types.Named]bool) {
	e := newEffects(p, owners)
	sites := goSites(p, func(*ssa.Function) bool { return true })
	sort.Slice(bodies, func(i, j int) bool { return fname(bodies[i]) < fname(bodies[j]) })
	for _, b := range bodies {
		r.Counts["goroutines"]++
		n := 0
		for _, ef := range e.memo[b] {
			if ef.own || ef.okBy != "" {
				r.Counts["locked or separate writes of goroutines"]++
				continue
			}
			if ef.o.kind != "global" {
				ok, started := true, false
				for _, s := range sites {
					if s.fn != b {
						continue
					}
					started = true
					var v ssa.Value
					switch ef.o.kind {
					case "param":
						args := s.in.Call.Args
						if s.in.Call.IsInvoke() {
							args = append([]ssa.Value{s.in.Call.Value}, args...)
						}
						if ef.o.idx < len(args) {
							v = args[ef.o.idx]
						}
					case "free":
						if mc, isC := s.in.Call.Value.(*ssa.MakeClosure); isC && ef.o.idx < len(mc.Bindings) {
							v = mc.Bindings[ef.o.idx]
						}
					}
					if v == nil || !ownVariable(s.in, v) || ef.o.deep > 0 && !e.ownContent(s.in, v) {
						ok = false
					}
				}
				if ok && started {
					r.Counts["locked or separate writes of goroutines"]++
					continue
				}
			}
			n++
			pos := p.PosStr(ef.in.Pos())
			r.Bad("shared-write:"+fname(b)+":"+ef.what, pos, "the goroutine %s writes %s that it shares with others (%s %s) without holding a lock", fname(b), ef.what, ef.o.kind, ef.o.name)
		}
		r.Oblige("goroutine "+fname(b), n == 0)
	}
}
