package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Mutual exclusion: C18.

func init() { checks["C18"] = checkC18 }

var lockOps = map[string]string{
	"(*sync.Mutex).Lock": "w", "(*sync.RWMutex).Lock": "w", "(*sync.RWMutex).RLock": "r",
	"(*sync.Mutex).Unlock": "-w", "(*sync.RWMutex).Unlock": "-w", "(*sync.RWMutex).RUnlock": "-r",
}

func isMutex(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return isNamed(t, "sync.Mutex") || isNamed(t, "sync.RWMutex")
}

// namedStruct is the named struct type that t is or points to.
func namedStruct(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	return n
}

// lockOwner is the struct that holds the mutex that v is or points to.
func lockOwner(v ssa.Value) *types.Named {
	for {
		switch u := v.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return nil
			}
			v = u.X
			continue
		case *ssa.FieldAddr:
			if n := namedStruct(u.X.Type()); n != nil && !isMutex(n) {
				return n
			}
			v = u.X
			continue
		case *ssa.Field:
			return namedStruct(u.X.Type())
		}
		return nil
	}
}

type access struct {
	owner  *types.Named
	field  string
	write  bool
	held   string // "", "r" or "w"
	fresh  bool
	fn     *ssa.Function // where it is
	method bool
	in     ssa.Instruction
	pos    string
	trace  []string
}

func outermost(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func methodOf(f *ssa.Function) *types.Named {
	f = outermost(f)
	if r := f.Signature.Recv(); r != nil {
		return namedStruct(r.Type())
	}
	return nil
}

// asyncHooks are the functions of the module that net/http calls from
// goroutines of its own.
func asyncHooks(p *Program) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isPtrTo(fa.X.Type(), "net/http/httptrace.ClientTrace") {
					continue
				}
				v := st.Val
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				}
				switch u := v.(type) {
				case *ssa.MakeClosure:
					if fn, ok := u.Fn.(*ssa.Function); ok {
						r = append(r, unwrap(fn))
					}
				case *ssa.Function:
					r = append(r, unwrap(u))
				}
			}
		}
	}
	return r
}

func checkC18(p *Program, tier string) *Result {
	r := NewResult("C18", "for every structure with a mutex: the fields that are written after construction and used under the mutex are, together with the maps and lists in them, used on every path only while the mutex is held (exclusively for writing), in every method whoever calls it and in every other function of a program in which goroutines use the structure; every lock that is taken is released on every path to the end of the function that took it; no lock is taken or released twice on a path; the order in which locks are taken has no cycle. Functions that run as goroutines or as hooks of the HTTP transport write to memory that they share with others only while a mutex of it is held")
	g := p.Graph()
	owners := map[*types.Named]bool{}
	touch := map[*ssa.Function]map[*types.Named]bool{}
	locks := map[*ssa.Function]map[*types.Named]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if cal := c.Common().StaticCallee(); cal != nil && lockOps[fname(cal)] != "" {
						if o := lockOwner(c.Common().Args[0]); o != nil {
							owners[o] = true
							if locks[f] == nil {
								locks[f] = map[*types.Named]bool{}
							}
							locks[f][o] = true
						}
					}
				}
			}
		}
	}
	var pkgs []*ssa.Package
	for _, pk := range p.Prog.AllPackages() {
		if strings.HasPrefix(pk.Pkg.Path(), modulePath) {
			pkgs = append(pkgs, pk)
		}
	}
	for _, pk := range pkgs {
		for _, m := range pk.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			n := namedStruct(t.Type())
			if n == nil {
				continue
			}
			s := n.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if isMutex(s.Field(i).Type()) {
					owners[n] = true
				}
			}
		}
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var o *types.Named
				switch u := in.(type) {
				case *ssa.FieldAddr:
					o = namedStruct(u.X.Type())
				case *ssa.Field:
					o = namedStruct(u.X.Type())
				}
				if o != nil && owners[o] {
					if touch[f] == nil {
						touch[f] = map[*types.Named]bool{}
					}
					touch[f][o] = true
				}
			}
		}
	}
	isTouch := func(f *ssa.Function) bool { return touch[f] != nil || locks[f] != nil }
	relevant := map[string]bool{}
	for _, f := range p.Funcs {
		if isTouch(f) {
			relevant[fname(f)] = true
			continue
		}
		for h := range g.Reach(f) {
			if isTouch(h) {
				relevant[fname(f)] = true
				break
			}
		}
	}
	started := map[*ssa.Function]bool{}
	var bodies []*ssa.Function
	for _, s := range goSites(p, func(*ssa.Function) bool { return true }) {
		if s.fn != nil && !started[s.fn] {
			started[s.fn] = true
			bodies = append(bodies, s.fn)
		}
	}
	hooks := map[*ssa.Function]bool{}
	for _, h := range asyncHooks(p) {
		hooks[h] = true
		r.Counts["transport hooks"]++
		if !started[h] {
			started[h] = true
			bodies = append(bodies, h)
		}
	}
	// uses is the set of structures that f or what it calls uses
	usesMemo := map[*ssa.Function]map[*types.Named]bool{}
	uses := func(f *ssa.Function) map[*types.Named]bool {
		if m, ok := usesMemo[f]; ok {
			return m
		}
		m := map[*types.Named]bool{}
		usesMemo[f] = m
		for o := range touch[f] {
			m[o] = true
		}
		for c := range g.Reach(f) {
			for o := range touch[c] {
				m[o] = true
			}
		}
		return m
	}
	// starts: executing in may start a goroutine that uses o
	starts := func(in ssa.Instruction, o *types.Named) bool {
		if gi, ok := in.(*ssa.Go); ok {
			b := goBody(gi)
			return b == nil || uses(b)[o]
		}
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		var cs []*ssa.Function
		if cal := c.Common().StaticCallee(); cal != nil {
			cs = append(cs, cal)
		} else if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok {
			cs = append(cs, mc.Fn.(*ssa.Function))
		}
		for _, a := range c.Common().Args {
			if mc, ok := a.(*ssa.MakeClosure); ok {
				cs = append(cs, mc.Fn.(*ssa.Function))
			}
		}
		for _, cal := range cs {
			for h := range g.Reach(cal) {
				if !moduleFn(h) {
					continue
				}
				for _, b := range h.Blocks {
					for _, in := range b.Instrs {
						if gi, ok := in.(*ssa.Go); ok {
							if gb := goBody(gi); gb == nil || uses(gb)[o] {
								return true
							}
						}
					}
				}
			}
			for h := range g.Reach(cal) {
				if hooks[h] && uses(h)[o] {
					return true
				}
			}
		}
		return false
	}
	// shared: when in is executed goroutines that use o may have been started
	var shared func(in ssa.Instruction, o *types.Named, seen map[ssa.Instruction]bool) bool
	shared = func(in ssa.Instruction, o *types.Named, seen map[ssa.Instruction]bool) bool {
		if seen[in] {
			return false
		}
		seen[in] = true
		f := in.Parent()
		if started[f] {
			return true
		}
		// instructions that may be executed before it
		blk := map[*ssa.BasicBlock]bool{}
		var back func(b *ssa.BasicBlock)
		back = func(b *ssa.BasicBlock) {
			for _, q := range b.Preds {
				if !blk[q] {
					blk[q] = true
					back(q)
				}
			}
		}
		back(in.Block())
		for _, j := range in.Block().Instrs {
			if j == in {
				break
			}
			if starts(j, o) {
				return true
			}
		}
		for b := range blk {
			for _, j := range b.Instrs {
				if j != in && starts(j, o) {
					return true
				}
			}
		}
		// its callers
		for _, c := range g.Callers(f) {
			for _, b := range c.Blocks {
				for _, j := range b.Instrs {
					hit := false
					if ci, ok := j.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
						hit = true
					}
					if mc, ok := j.(*ssa.MakeClosure); ok && mc.Fn == f {
						hit = true
					}
					if hit && shared(j, o, seen) {
						return true
					}
				}
			}
		}
		return false
	}
	ls := &lockScan{p: p, r: r, owners: owners, relevant: relevant, seen: map[ssa.Instruction]bool{}, order: map[string]map[string]string{}, ctx: map[*ssa.Function][][]Mark{}}
	// roots
	var fs []*ssa.Function
	for f := range touch {
		fs = append(fs, f)
	}
	for _, f := range p.Funcs {
		if touch[f] != nil {
			continue
		}
		o := methodOf(f)
		if locks[f] != nil || o != nil && owners[o] && f.Parent() == nil {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	var later []*ssa.Function
	// partOf is the structure of which a plain function is a part: only the
	// methods of the structure call it
	var partOf func(f *ssa.Function, depth int) *types.Named
	partOf = func(f *ssa.Function, depth int) *types.Named {
		if f.Signature.Recv() != nil || f.Parent() != nil || started[f] || depth > 4 || f.Object() == nil || f.Object().Exported() {
			return nil
		}
		var o *types.Named
		cs := g.Callers(f)
		for _, c := range cs {
			c = outermost(c)
			co := methodOf(c)
			if co == nil || !owners[co] {
				co = partOf(c, depth+1)
			}
			if co == nil || o != nil && co != o || c.Synthetic != "" {
				return nil
			}
			o = co
		}
		for t := range touch[f] {
			if t != o {
				return nil
			}
		}
		return o
	}
	for _, f := range fs {
		o := methodOf(f)
		if o == nil || !owners[o] {
			o = nil
		}
		if o == nil && partOf(f, 0) != nil {
			later = append(later, f)
			continue
		}
		if f.Parent() != nil && !started[f] {
			later = append(later, f)
			continue
		}
		root := started[f] || o == nil
		cs := g.Callers(f)
		if len(cs) == 0 {
			root = true
		}
		for _, c := range cs {
			if methodOf(c) != o && (o == nil || partOf(outermost(c), 0) != o) || outermost(c).Synthetic != "" {
				root = true
			}
		}
		if !root {
			later = append(later, f)
			continue
		}
		ls.run(f, o != nil || locks[f] != nil)
	}
	for _, f := range later {
		// functions that were not analysed as part of their callers
		miss := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && owners[namedStruct(fa.X.Type())] && !ls.seen[in] {
					miss = true
				}
			}
		}
		if miss {
			ls.run(f, true)
		}
	}
	// judge
	type key struct {
		o *types.Named
		f string
	}
	written, held := map[key]bool{}, map[key]bool{}
	for _, a := range ls.acc {
		k := key{a.owner, a.field}
		if a.write && !a.fresh {
			written[k] = true
		}
		if a.held != "" {
			held[k] = true
		}
	}
	guarded := func(k key) bool {
		if !held[k] {
			return false
		}
		if !moduleType(k.o) {
			if s, ok := k.o.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == k.f {
						_, isMap := s.Field(i).Type().Underlying().(*types.Map)
						return isMap
					}
				}
			}
			return false
		}
		return written[k]
	}
	n := map[*types.Named]int{}
	for k := range held {
		if guarded(k) {
			r.Counts["guarded fields"]++
			if moduleType(k.o) {
				n[k.o]++
			}
		}
	}
	for o := range owners {
		if !moduleType(o) || n[o] > 0 {
			continue
		}
		for k := range written {
			if k.o == o && shownType(o) != "" {
				r.Bad("unused-lock:"+shownType(o), p.PosStr(o.Obj().Pos()), "the field %s of %s is written by its methods, but its mutex is never held for any of its fields", k.f, shownType(o))
			}
		}
	}
	r.Counts["structures with guarded data"] = len(n)
	for _, a := range ls.acc {
		k := key{a.owner, a.field}
		if a.fresh || !guarded(k) {
			if a.field != "*" {
				continue
			}
			if a.fresh || n[a.owner] == 0 {
				continue
			}
		}
		if !a.method && !shared(a.in, a.owner, map[ssa.Instruction]bool{}) {
			r.Counts["uses before goroutines are started"]++
			continue
		}
		r.Counts["uses of guarded data"]++
		ok := a.held == "w" || a.held == "r" && !a.write
		r.Oblige(fmt.Sprintf("%s.%s at %s", shownType(a.owner), a.field, a.pos), ok)
		if !ok {
			what := "read"
			if a.write {
				what = "written"
			}
			how := "without holding the mutex"
			if a.held == "r" {
				how = "while the mutex is held for reading only"
			}
			f := "the field " + a.field
			if a.field == "*" {
				f = "the whole"
			}
			kk := "unlocked:" + shownType(a.owner) + "." + a.field + ":" + fname(outermost(a.fn))
			r.Viol[kk+"@"+a.pos] = &Violation{Prop: r.Prop, Key: kk, Pos: a.pos, Msg: fmt.Sprintf("%s of a %s is %s %s", f, shownType(a.owner), what, how), Trace: a.trace}
		}
	}
	// lock order
	for a, bs := range ls.order {
		for b, pos := range bs {
			if pos2, ok := ls.order[b][a]; ok && a <= b {
				r.Bad("lock-order:"+a+"/"+b, pos, "the locks of %s and %s are taken in different orders (also at %s)", a, b, pos2)
			}
			r.Counts["nested locks"]++
		}
	}
	// goroutines
	effectRule(p, r, bodies, owners)
	r.NeedAtLeast(6, "structures with guarded data")
	r.NeedAtLeast(20, "uses of guarded data")
	r.NeedAtLeast(8, "goroutines")
	return r
}

func moduleType(n *types.Named) bool {
	return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modulePath)
}

func shownType(n *types.Named) string { return shortName(types.TypeString(n, nil)) }

type lockScan struct {
	p        *Program
	r        *Result
	owners   map[*types.Named]bool
	relevant map[string]bool
	acc      []access
	seen     map[ssa.Instruction]bool
	order    map[string]map[string]string
	ctx      map[*ssa.Function][][]Mark // locks held where closures are handed over
}

// fieldHit: the address or value t is (part of the content of) a field of an owner.
func fieldHit(owners map[*types.Named]bool, t *Term) (o *types.Named, field string, base *Term) {
	for t != nil {
		switch {
		case t.Op == "fieldaddr":
			if n := namedStruct(t.Args[0].Typ); n != nil && owners[n] {
				return n, fieldName(t.Key), t.Args[0]
			}
			return nil, "", nil
		case t.Op == "deref", t.Op == "indexaddr", t.Op == "old", t.Op == "conv",
			t.Op == "pure" && (t.Key == "lookup" || t.Key == "slice"):
			t = t.Args[0]
		default:
			return nil, "", nil
		}
	}
	return nil, "", nil
}

// ssaHit is the same for the expression of a value.
func ssaHit(owners map[*types.Named]bool, v ssa.Value) (o *types.Named, field string, fa *ssa.FieldAddr) {
	for v != nil {
		switch u := v.(type) {
		case *ssa.FieldAddr:
			if n := namedStruct(u.X.Type()); n != nil && owners[n] {
				return n, n.Underlying().(*types.Struct).Field(u.Field).Name(), u
			}
			return nil, "", nil
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return nil, "", nil
			}
			v = u.X
		case *ssa.IndexAddr:
			v = u.X
		case *ssa.Lookup:
			v = u.X
		case *ssa.Slice:
			v = u.X
		default:
			return nil, "", nil
		}
	}
	return nil, "", nil
}

func (ls *lockScan) lockRule(root *ssa.Function, deep bool) *Rule {
	rule := &Rule{PureFn: pureTypes, NoContrib: true, NoChanVals: true, WidenAt: 1}
	rule.OpaqueFn = func(n string) bool { return !deep || !ls.relevant[n] }
	rule.GoMode = func(ci *CallInfo) int { return GoSkip }
	return rule
}

// run explores one function with none of its locks held.
func (ls *lockScan) run(root *ssa.Function, deep bool) {
	r := ls.r
	r.Counts["functions explored"]++
	rule := ls.lockRule(root, deep)
	heldMode := func(st *State, o *types.Named) string {
		for _, m := range st.Marks("lk:" + shownType(o)) {
			s, _ := strConst(m.T[0])
			return s
		}
		return ""
	}
	record := func(x *Exec, st *State, o *types.Named, field string, base *Term, write bool, in ssa.Instruction, pos string) {
		if s, ok := o.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == field && isMutex(s.Field(i).Type()) {
					return
				}
			}
		}
		fn := st.top().fn
		fresh := base != nil && (base.Op == "alloc" || base.Op == "zero" || base.Op == "agg")
		ls.acc = append(ls.acc, access{owner: o, field: field, write: write, held: heldMode(st, o), fresh: fresh, fn: fn, method: methodOf(root) != nil && ls.owners[methodOf(root)] || methodOf(fn) == o, in: in, pos: pos, trace: st.Trace()})
	}
	hit := func(x *Exec, st *State, t *Term, v ssa.Value, write bool, in ssa.Instruction) {
		pos := x.pos(in)
		if o, f, fa := ssaHit(ls.owners, v); o != nil {
			ls.seen[fa] = true
			base := x.val(st, st.top(), fa.X)
			record(x, st, o, f, base, write, in, pos)
			return
		}
		if o, f, base := fieldHit(ls.owners, t); o != nil {
			record(x, st, o, f, base, write, in, pos)
		}
	}
	rule.OnLoad = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
		var v ssa.Value
		switch u := in.(type) {
		case *ssa.UnOp:
			v = u.X
		case *ssa.Lookup:
			v = u.X
		}
		hit(x, st, addr, v, false, in)
	}
	rule.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
		var v ssa.Value
		if s, ok := in.(*ssa.Store); ok {
			v = s.Addr
		}
		hit(x, st, addr, v, true, in)
	}
	rule.OnUpdate = func(x *Exec, st *State, m, k, val *Term, in ssa.Instruction) {
		var v ssa.Value
		if u, ok := in.(*ssa.MapUpdate); ok {
			v = u.Map
		}
		hit(x, st, m, v, true, in)
	}
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		if n, ok := in.(*ssa.Next); ok {
			if rg, ok := n.Iter.(*ssa.Range); ok {
				hit(x, st, coll, rg.X, false, in)
			}
		}
	}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		if op := lockOps[ci.Name]; op != "" {
			ls.lockOp(x, st, ci, op)
			return
		}
		for _, a := range ci.Args {
			if a = strip(a); a != nil && a.Op == "closure" && x.fnOf[a] != nil && !ci.Inl {
				var ms []Mark
				for _, m := range st.marks {
					if strings.HasPrefix(m.Kind, "lk:") {
						ms = append(ms, m)
					}
				}
				ls.ctx[x.fnOf[a]] = append(ls.ctx[x.fnOf[a]], ms)
			}
		}
		switch ci.Name {
		case "builtin.delete", "builtin.copy", "builtin.clear":
			if c, ok := ci.Instr.(ssa.CallInstruction); ok && len(c.Common().Args) > 0 {
				hit(x, st, ci.Arg(0), c.Common().Args[0], true, ci.Instr)
			}
			return
		case "builtin.append", "builtin.len", "builtin.cap", "go":
			return
		}
		if ci.Inl || ci.Fn != nil && moduleFn(ci.Fn) {
			return
		}
		if strings.HasPrefix(ci.Name, "(*sync.") || strings.HasPrefix(ci.Name, "sync.") {
			return
		}
		// handed to code that is not analysed
		for _, a := range ci.Args {
			a = strip(a)
			if a == nil {
				continue
			}
			if a.Op == "fieldaddr" {
				if o, f, base := fieldHit(ls.owners, a); o != nil {
					record(x, st, o, f, base, true, ci.Instr, ci.Pos)
				}
				continue
			}
			if a.Typ != nil {
				if pt, ok := a.Typ.(*types.Pointer); ok {
					if n := namedStruct(pt); n != nil && ls.owners[n] && moduleType(n) {
						record(x, st, n, "*", a, false, ci.Instr, ci.Pos)
					}
				}
			}
		}
	}
	// a closure that is called by other code runs with the locks that are
	// held wherever it is handed over
	entry := ls.ctx[root]
	rule.Init = func(x *Exec, st *State, params []*Term) {
		if len(entry) == 0 {
			return
		}
		for _, m := range entry[0] {
			all := true
			for _, e := range entry[1:] {
				in := false
				for _, m2 := range e {
					if m2.Kind == m.Kind && m2.T[0].Key == m.T[0].Key {
						in = true
					}
				}
				all = all && in
			}
			if all {
				st.AddMark(m.Kind, m.Pos, x.tt.mk("const", m.T[0].Key, 0, types.Typ[types.String]))
			}
		}
	}
	inherited := len(entry) > 0
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		if inherited {
			return
		}
		for _, m := range st.marks {
			if strings.HasPrefix(m.Kind, "lk:") {
				r.Check(false, st, "not-released:"+m.Kind[3:], m.Pos, "the lock of %s that is taken here may be held forever: %s can return without releasing it", m.Kind[3:], fname(root))
			}
		}
	}
	x := NewExec(ls.p, r.Prop, rule)
	x.Run(root)
	r.Absorb(x)
}

// lockOp keeps track of the locks that are held.
func (ls *lockScan) lockOp(x *Exec, st *State, ci *CallInfo, op string) {
	r := ls.r
	name := "a local mutex"
	if c, ok := ci.Instr.(ssa.CallInstruction); ok && len(c.Common().Args) > 0 {
		if o := lockOwner(c.Common().Args[0]); o != nil {
			name = shownType(o)
		}
	}
	if c, ok := ci.Instr.(ssa.CallInstruction); ok && len(c.Common().Args) > 0 {
		v := c.Common().Args[0]
		if u, ok := v.(*ssa.UnOp); ok {
			v = u.X
		}
		if fa, ok := v.(*ssa.FieldAddr); ok {
			ls.seen[fa] = true
		}
	}
	if name == "a local mutex" {
		a := strip(ci.Arg(0))
		for a != nil && a.Op == "deref" {
			a = a.Args[0]
		}
		if a != nil && a.Op == "fieldaddr" {
			if n := namedStruct(a.Args[0].Typ); n != nil {
				name = shownType(n)
			}
		} else if a != nil {
			name = "mutex " + a.String()
		}
	}
	k := "lk:" + name
	cur := ""
	for _, m := range st.Marks(k) {
		cur, _ = strConst(m.T[0])
	}
	switch op {
	case "w", "r":
		r.Counts["locks taken"]++
		r.Check(cur == "", st, "lock-twice:"+name, ci.Pos, "the lock of %s is taken although this path already holds it", name)
		for _, m := range st.marks {
			if strings.HasPrefix(m.Kind, "lk:") && m.Kind != k {
				if ls.order[m.Kind[3:]] == nil {
					ls.order[m.Kind[3:]] = map[string]string{}
				}
				ls.order[m.Kind[3:]][name] = ci.Pos
			}
		}
		st.AddMark(k, ci.Pos, x.tt.mk("const", `"`+op+`"`, 0, types.Typ[types.String]))
	default:
		r.Check(cur == op[1:], st, "unlock-unheld:"+name, ci.Pos, "the lock of %s is released on a path that does not hold it in this mode", name)
		st.DelMarks(k, nil)
	}
}

// ---- what goroutines write ------------------------------------------------------
