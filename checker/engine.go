package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CallInfo describes one call event (opaque, pure or inlined).
type CallInfo struct {
	Name   string // canonical short name of the callee
	Fn     *ssa.Function
	Args   []*Term // receiver first
	Res    *Term   // result term (tuple term for several results)
	Instr  ssa.Instruction
	Ctx    *Ctx
	Pos    string
	Common *ssa.CallCommon
	Sig    *types.Signature
	Mode   byte // 'c' call, 'd' deferred, 'g' go
	FnTerm *Term
	clos   *Term
	Inl    bool
}

func (ci *CallInfo) key() string {
	var sb strings.Builder
	sb.WriteString(ci.Name)
	for _, a := range ci.Args {
		if a == nil {
			sb.WriteString(",-")
		} else {
			fmt.Fprintf(&sb, ",%d", a.ID)
		}
	}
	if ci.clos != nil {
		fmt.Fprintf(&sb, "/%d", ci.clos.ID)
	}
	return sb.String()
}

// Arg returns argument i (receiver first) without interface wrapping.
func (ci *CallInfo) Arg(i int) *Term {
	if i < len(ci.Args) {
		return strip(ci.Args[i])
	}
	return nil
}

const (
	GoInline = iota
	GoSkip
	GoBoth
)

type Rule struct {
	WidenAt  int                    // visits of a loop after which changing values become unknown
	NoWrite  func(name string) bool // calls that do not write what their arguments point to
	OpaqueFn func(name string) bool
	PureFn   func(name string) bool
	GoMode   func(ci *CallInfo) int
	KeepFact func(st *State, t *Term) bool

	OnCall   func(x *Exec, st *State, ci *CallInfo)
	OnRet    func(x *Exec, st *State, ci *CallInfo, res *Term)
	OnStore  func(x *Exec, st *State, addr, val *Term, in ssa.Instruction)
	OnLoad   func(x *Exec, st *State, addr, val *Term, in ssa.Instruction)
	OnSend   func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, inSelect bool)
	OnRecv   func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, inSelect bool)
	OnAppend func(x *Exec, st *State, res, base *Term, elems []*Term, spread bool, in ssa.Instruction)
	OnUpdate func(x *Exec, st *State, m, k, v *Term, in ssa.Instruction)
	OnReturn func(x *Exec, st *State, res []*Term)
	OnAbort  func(x *Exec, st *State, ci *CallInfo)
	OnSelect func(x *Exec, st *State, sel *ssa.Select, chans []*Term)
	// OnClosed: a receive reported that the channel is closed and empty
	OnClosed func(x *Exec, st *State, ch *Term, in ssa.Instruction)
	// OnLoopHead: the head of a loop is entered, for the first time or again
	OnLoopHead func(x *Exec, st *State, b *ssa.BasicBlock)
	OnBlock    func(x *Exec, st *State, b *ssa.BasicBlock)
	OnBranch   func(x *Exec, st *State, in *ssa.If, cond *Term, taken bool)
	// OnIter: one more element of coll is about to be processed (more), or the
	// loop over coll has ended.
	OnIter func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction)
	Init   func(x *Exec, st *State, params []*Term)
	// OnWiden: from here on the value old is called by its new name.
	OnWiden func(x *Exec, st *State, old, nt *Term)

	MaxStates int
	// Abstract may replace a stored value by a coarser one.
	Abstract   func(x *Exec, st *State, addr, val *Term, in *ssa.Store) *Term
	NoChanVals bool                   // what channels contain does not matter
	NoContrib  bool                   // what lists contain does not matter
	ExactInts  bool                   // do not widen integer loop variables at once
	CountFacts bool                   // keep comparisons that involve loop counters
	RunOnce    func(name string) bool // higher-order callee that runs its closure exactly once
}

type Violation struct {
	Prop  string
	Key   string // rule + construct, independent of line numbers
	Pos   string
	Msg   string
	Trace []string
}

type Exec struct {
	readsCtxErr bool // the code explored asks contexts for their error
	P           *Program
	tt          *termTable
	R           *Rule
	Prop        string
	ctxs        map[string]*Ctx
	nctx        int
	vnum        map[ssa.Value]int
	inum        map[ssa.Instruction]int
	fnOf        map[*Term]*ssa.Function
	live        map[*ssa.Function]*liveness
	loops       map[*ssa.Function]map[*ssa.BasicBlock]bool

	work      []*State
	visited   map[string]bool
	States    int
	Steps     int
	Paths     int
	Aborts    int
	Viol      map[string]*Violation
	Fns       map[string]bool // functions analysed
	Calls     map[string]int  // call events seen by name
	Sites     map[string]bool // distinct call sites analysed
	Err       error
	killed    bool
	contribAt map[string][]contribItem
	cur       *State
	curIn     ssa.Instruction
	root      *ssa.Function
	Params    []*Term
	Counts    map[string]int
	Samples   []string
}

func NewExec(p *Program, prop string, r *Rule) *Exec {
	return &Exec{P: p, tt: newTermTable(), R: r, Prop: prop, ctxs: map[string]*Ctx{}, vnum: map[ssa.Value]int{},
		inum: map[ssa.Instruction]int{}, fnOf: map[*Term]*ssa.Function{}, live: map[*ssa.Function]*liveness{},
		loops:   map[*ssa.Function]map[*ssa.BasicBlock]bool{},
		visited: map[string]bool{}, Viol: map[string]*Violation{}, Fns: map[string]bool{}, Calls: map[string]int{},
		Sites: map[string]bool{}, Counts: map[string]int{}, contribAt: map[string][]contribItem{}}
}

func (x *Exec) Count(k string) { x.Counts[k]++ }

func (x *Exec) valNum(v ssa.Value) int {
	n, ok := x.vnum[v]
	if !ok {
		n = len(x.vnum) + 1
		x.vnum[v] = n
	}
	return n
}

func (x *Exec) instrNum(in ssa.Instruction) int {
	n, ok := x.inum[in]
	if !ok {
		n = len(x.inum) + 1
		x.inum[in] = n
	}
	return n
}

func (x *Exec) ctx(parent *Ctx, call ssa.Instruction, fn *ssa.Function, goes bool) *Ctx {
	pid := 0
	d := 0
	if parent != nil {
		pid, d = parent.id, parent.depth+1
		goes = goes || parent.goes
	}
	cn := 0
	if call != nil {
		cn = x.instrNum(call)
	}
	k := fmt.Sprintf("%d:%d:%p:%v", pid, cn, fn, goes)
	if c, ok := x.ctxs[k]; ok {
		return c
	}
	x.nctx++
	c := &Ctx{id: x.nctx, parent: parent, call: call, fn: fn, depth: d, goes: goes}
	x.ctxs[k] = c
	return c
}

func (x *Exec) Report(st *State, key, pos, format string, a ...any) {
	k := key + "@" + pos
	if _, ok := x.Viol[k]; ok {
		return
	}
	v := &Violation{Prop: x.Prop, Key: key, Pos: pos, Msg: fmt.Sprintf(format, a...)}
	if st != nil {
		v.Trace = st.Trace()
	}
	x.Viol[k] = v
}

func (x *Exec) Kill() { x.killed = true }

// ---- running ----------------------------------------------------------------

// Run explores every path of fn from symbolic parameters.
func (x *Exec) Run(fn *ssa.Function) {
	if x.Err != nil {
		return
	}
	x.root = fn
	x.readsCtxErr = x.P.Graph().Trans(fn)["(context.Context).Err"]
	x.visited = map[string]bool{}
	x.contribAt = map[string][]contribItem{}
	start := x.States
	st := &State{heap: map[*Term]*Term{}, havoc: map[*Term]*Term{}, facts: map[*Term]bool{}, chans: map[*Term]*chanState{},
		contrib: map[*Term][]contribItem{}, marks: map[string]Mark{}}
	f := &Frame{fn: fn, ctx: x.ctx(nil, nil, fn, false), env: map[ssa.Value]*Term{}, kind: 'c'}
	x.Params = nil
	for _, p := range fn.Params {
		t := x.tt.mk("param", p.Name(), 0, p.Type())
		f.env[p] = t
		x.Params = append(x.Params, t)
	}
	for i, fv := range fn.FreeVars {
		f.env[fv] = x.tt.mk("param", fmt.Sprintf("free%d:%s", i, fv.Name()), 0, fv.Type())
	}
	st.frames = []*Frame{f}
	x.Fns[fname(fn)] = true
	if x.R.Init != nil {
		x.R.Init(x, st, x.Params)
	}
	x.enter(st, fn.Blocks[0])
	max := x.R.MaxStates
	if max == 0 {
		max = 150000
	}
	x.work = append(x.work, st)
	for len(x.work) > 0 {
		if x.Err != nil {
			x.work = nil
			return
		}
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.States++
		if x.States-start > max {
			x.Err = fmt.Errorf("state limit %d reached in %s at %s", max, fname(fn), x.where(s))
			x.work = nil
			return
		}
		x.run(s)
	}
}

func (x *Exec) where(s *State) string {
	if len(s.frames) == 0 {
		return "?"
	}
	var r []string
	for _, f := range s.frames {
		r = append(r, fmt.Sprintf("%s#%d", fname(f.fn), f.block.Index))
	}
	return strings.Join(r, " > ")
}

// push queues a state (a fork).
func (x *Exec) push(s *State) { x.work = append(x.work, s) }

func (x *Exec) run(s *State) {
	for {
		if len(s.frames) == 0 {
			return
		}
		f := s.top()
		if f.idx == 0 {
			x.canon(s)
			k := s.key(x)
			if x.visited[k] {
				return
			}
			x.visited[k] = true
			if prof != nil {
				prof.add(x, s)
			}
			if x.R.OnBlock != nil {
				x.R.OnBlock(x, s, f.block)
			}
		}
		in := f.block.Instrs[f.idx]
		f.idx++
		x.Steps++
		x.killed = false
		x.cur, x.curIn = s, in
		if !x.step(s, f, in) || x.killed {
			return
		}
	}
}

// enter moves the top frame to block b (phis evaluated) at index of the first
// non-phi instruction, which run() sees as idx 0 of "key" purposes.
func (x *Exec) enter(s *State, b *ssa.BasicBlock) {
	f := s.top()
	prev := f.block
	f.prev = prev
	pi := -1
	if prev != nil {
		for i, p := range b.Preds {
			if p == prev {
				pi = i
				break
			}
		}
	}
	type as struct {
		v *ssa.Phi
		t *Term
	}
	var asg []as
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if pi < 0 {
			continue
		}
		asg = append(asg, as{phi, x.val(s, f, phi.Edges[pi])})
	}
	header := x.loopHeaders(f.fn)[b]
	f.block = b
	f.idx = 0
	if header {
		// the terms in asg must survive renames: put them into the environment first
		for _, a := range asg {
			f.env[a.v] = a.t
		}
		x.widen(s, f, b)
		if x.R.OnLoopHead != nil {
			x.R.OnLoopHead(x, s, b)
		}
		return
	}
	if f.snaps != nil {
		// leaving or (re)entering: snapshots of loops not containing b are dropped
		for bi := range f.snaps {
			if !x.inLoop(f.fn, bi, b) {
				delete(f.snaps, bi)
			}
		}
	}
	for _, a := range asg {
		f.env[a.v] = a.t
	}
}

func isNumericOrString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsNumeric|types.IsString) != 0
}

// widen handles the entry of a loop header.
func (x *Exec) widen(s *State, f *Frame, b *ssa.BasicBlock) {
	if f.snaps == nil {
		f.snaps = map[int]*snap{}
	}
	for bi := range f.snaps {
		if bi != b.Index && !x.inLoop(f.fn, bi, b) {
			delete(f.snaps, bi)
		}
	}
	sn := f.snaps[b.Index]
	n := 0
	if sn != nil {
		n = sn.n
	}
	for i, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		t := f.env[phi]
		if t == nil {
			continue
		}
		num := isNumericOrString(phi.Type())
		w := false
		if bt, ok := phi.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && !x.R.ExactInts {
			// loop counters: any value
			for k, p := range b.Preds {
				if b.Dominates(p) && phi.Edges[k] != phi {
					w = true
				}
			}
		} else if sn != nil && sn.env[phi] != t {
			if num && n >= 1 || n >= x.widenAt() && !isConstBool(t) {
				w = true
			}
		}
		if w && (phi.Comment == "rangeindex" && x.shortRange(f, b, t) || x.shortCount(s, f, b, phi, t)) {
			w = false
		}
		if w {
			site := x.tt.site(fmt.Sprintf("phi:%d:%d:%d", f.ctx.id, b.Index, i))
			x.renameSite(s, site)
			nt := x.tt.mk("phi", fmt.Sprintf("%s.%s", fname(f.fn), phi.Comment), site, phi.Type())
			old := f.env[phi]
			f.env[phi] = nt
			if x.R.OnWiden != nil {
				x.R.OnWiden(x, s, old, nt)
			}
		}
	}
	if sn != nil && n >= 1 {
		x.widenCells(s, f, sn.heap, n, fmt.Sprintf("%d:%d", f.ctx.id, b.Index))
	}
	if n >= 2 {
		x.joinContrib(s, fmt.Sprintf("%d:%d", f.ctx.id, b.Index))
	}
	ns := &snap{n: n + 1, env: map[ssa.Value]*Term{}, heap: map[*Term]*Term{}}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ns.env[phi] = f.env[phi]
	}
	for k, v := range s.heap {
		ns.heap[k] = v
	}
	f.snaps[b.Index] = ns
	if n > 400 {
		if os.Getenv("DBG") != "" {
			x.Dump(s)
		}
		x.Err = fmt.Errorf("loop does not converge: %s block %d", fname(f.fn), b.Index)
	}
}

// shortRange: the loop runs over a literal with few elements, so that it is
// followed element by element.
func (x *Exec) shortRange(f *Frame, b *ssa.BasicBlock, t *Term) bool {
	if n, ok := t.IntConst(); !ok || n > 8 {
		return false
	}
	for _, in := range b.Instrs {
		c, ok := in.(*ssa.BinOp)
		if !ok || c.Op != token.LSS {
			continue
		}
		y := f.env[c.Y]
		if k, isc := c.Y.(*ssa.Const); isc && k.Value != nil {
			n := k.Int64()
			return n <= 8
		}
		if y != nil {
			n, ok := y.IntConst()
			return ok && n <= 8
		}
	}
	return false
}

// shortCount: a loop that counts through a list of a few known elements.
func (x *Exec) shortCount(s *State, f *Frame, b *ssa.BasicBlock, phi *ssa.Phi, t *Term) bool {
	if n, ok := t.IntConst(); !ok || n > 8 || n < 0 {
		return false
	}
	for _, in := range b.Instrs {
		c, ok := in.(*ssa.BinOp)
		if !ok {
			continue
		}
		l := c.Y
		if c.Y == phi && (c.Op == token.GTR || c.Op == token.NEQ) {
			l = c.X
		} else if c.X != phi || c.Op != token.LSS && c.Op != token.NEQ {
			continue
		}
		call, ok := l.(*ssa.Call)
		if !ok {
			continue
		}
		if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
			continue
		}
		a := x.val(s, f, call.Call.Args[0])
		if a == nil {
			continue
		}
		n, ok := x.lenOf(a).IntConst()
		return ok && n <= 8
	}
	return false
}

func (x *Exec) widenAt() int {
	if x.R.WidenAt > 0 {
		return x.R.WidenAt
	}
	return 6
}

// isConstBool: a truth value; there are only two of them.
func isConstBool(t *Term) bool {
	return t != nil && (t.Op == "true" || t.Op == "false")
}

// joinContrib replaces what the lists may contain by the union over all visits
// of the loop (an over-approximation of a may-set).
func (x *Exec) joinContrib(s *State, where string) {
	for l, items := range s.contrib {
		k := fmt.Sprintf("%s:%d", where, l.ID)
		u := mergeContrib(x.contribAt[k], items)
		x.contribAt[k] = u
		s.contrib[l] = u
	}
}

// widenCells replaces memory cells that keep changing between two visits.
func (x *Exec) widenCells(s *State, f *Frame, before map[*Term]*Term, n int, where string) {
	var as []*Term
	for a, v := range s.heap {
		ov, had := before[a]
		if had && ov != v {
			as = append(as, a)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	for _, a := range as {
		v, ok := s.heap[a]
		if !ok {
			continue
		}
		num := v.Typ != nil && isNumericOrString(v.Typ)
		if num && n >= 2 || n >= x.widenAt() && !isConstBool(v) {
			site := x.tt.site(fmt.Sprintf("cellphi:%s:%d", where, a.ID))
			x.renameSite(s, site)
			old := s.heap[a]
			nt := x.tt.mk("phi", "cell", site, v.Typ)
			s.heap[a] = nt
			if x.R.OnWiden != nil {
				x.R.OnWiden(x, s, old, nt)
			}
		}
	}
}

func (x *Exec) loopHeaders(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	if m, ok := x.loops[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				m[b] = true
			}
		}
	}
	x.loops[fn] = m
	return m
}

var loopCache = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

func (x *Exec) inLoop(fn *ssa.Function, header int, b *ssa.BasicBlock) bool {
	h := fn.Blocks[header]
	m, ok := loopCache[h]
	if !ok {
		m = map[*ssa.BasicBlock]bool{h: true}
		var st []*ssa.BasicBlock
		for _, p := range h.Preds {
			if h.Dominates(p) {
				st = append(st, p)
			}
		}
		for len(st) > 0 {
			c := st[len(st)-1]
			st = st[:len(st)-1]
			if m[c] {
				continue
			}
			m[c] = true
			st = append(st, c.Preds...)
		}
		loopCache[h] = m
	}
	return m[b]
}

// ---- liveness ---------------------------------------------------------------

type liveness struct {
	in  []map[ssa.Value]bool // live at block start, after phis
	out []map[ssa.Value]bool
}

func isLocalVal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (x *Exec) liveness(fn *ssa.Function) *liveness {
	if l, ok := x.live[fn]; ok {
		return l
	}
	n := len(fn.Blocks)
	l := &liveness{in: make([]map[ssa.Value]bool, n), out: make([]map[ssa.Value]bool, n)}
	for i := range l.in {
		l.in[i] = map[ssa.Value]bool{}
		l.out[i] = map[ssa.Value]bool{}
	}
	ch := true
	var ops []*ssa.Value
	for ch {
		ch = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			out := l.out[bi]
			for _, sc := range b.Succs {
				for v := range l.in[sc.Index] {
					if !out[v] {
						out[v] = true
						ch = true
					}
				}
				for _, in := range sc.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range sc.Preds {
						if p == b && isLocalVal(phi.Edges[k]) && !out[phi.Edges[k]] {
							out[phi.Edges[k]] = true
							ch = true
						}
					}
				}
			}
			cur := map[ssa.Value]bool{}
			for v := range out {
				cur[v] = true
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if _, ok := in.(*ssa.Phi); ok {
					break
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					if *o != nil && isLocalVal(*o) {
						cur[*o] = true
					}
				}
			}
			for v := range cur {
				if !l.in[bi][v] {
					l.in[bi][v] = true
					ch = true
				}
			}
			// phis of this block are defined here: not live-in from preds
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				_ = phi
			}
		}
		// phi definitions must not propagate to predecessors
	}
	x.live[fn] = l
	return l
}

// liveAfter computes the values live after instruction index idx of block b.
func (x *Exec) liveAfter(f *Frame) map[ssa.Value]bool {
	l := x.liveness(f.fn)
	if f.idx == 0 {
		return l.in[f.block.Index]
	}
	cur := map[ssa.Value]bool{}
	for v := range l.out[f.block.Index] {
		cur[v] = true
	}
	var ops []*ssa.Value
	for i := len(f.block.Instrs) - 1; i >= f.idx; i-- {
		in := f.block.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			delete(cur, v)
		}
		ops = in.Operands(ops[:0])
		for _, o := range ops {
			if *o != nil && isLocalVal(*o) {
				cur[*o] = true
			}
		}
	}
	return cur
}

// canon prunes dead environment entries, unreachable cells and facts about
// values that are no longer referenced.
func (x *Exec) canon(s *State) {
	f := s.top()
	lv := x.liveAfter(f)
	for v := range f.env {
		if !lv[v] {
			delete(f.env, v)
		}
	}
	live := map[*Term]bool{}
	var stack []*Term
	addT := func(t *Term) {
		if t == nil {
			return
		}
		for u := range t.Subs() {
			if !live[u] {
				live[u] = true
				stack = append(stack, u)
			}
		}
	}
	for _, fr := range s.frames {
		for _, t := range fr.env {
			addT(t)
		}
		for _, d := range fr.defers {
			for _, a := range d.ci.Args {
				addT(a)
			}
			addT(d.ci.clos)
			addT(d.ci.FnTerm)
		}
		if fr.hof != nil {
			for _, t := range fr.hof.closures {
				addT(t)
			}
			for _, t := range fr.hof.results {
				addT(t)
			}
			for _, t := range fr.hof.call.Args {
				addT(t)
			}
			addT(fr.hof.call.Res)
		}
	}
	always := func(a *Term) bool {
		for a.Op == "fieldaddr" || a.Op == "indexaddr" || a.Op == "deref" {
			a = a.Args[0]
		}
		return a.Op == "global" || a.Op == "param"
	}
	for a, v := range s.heap {
		if always(a) {
			addT(a)
			addT(v)
		}
	}
	for c := range s.chans {
		if always(c) {
			addT(c)
		}
	}
	done := map[*Term]bool{}
	for ch := true; ch; {
		ch = false
		stack = stack[:0]
		for a, v := range s.heap {
			if done[a] {
				continue
			}
			if live[addrRoot(a)] || live[a] {
				done[a] = true
				ch = true
				addT(v)
			}
		}
		for c, cs := range s.chans {
			if !done[c] && live[c] {
				done[c] = true
				ch = true
				for _, v := range cs.vals {
					addT(v)
				}
			}
		}
	}
	strict := map[*Term]bool{}
	for t := range live {
		strict[t] = true
	}
	for ch := true; ch; {
		ch = false
		for l, items := range s.contrib {
			if !done[l] && live[l] {
				done[l] = true
				ch = true
				for _, it := range items {
					addT(it.t)
				}
			}
		}
		for a, v := range s.heap {
			if !done[a] && (live[addrRoot(a)] || live[a]) {
				done[a] = true
				ch = true
				addT(v)
			}
		}
	}
	live2 := live
	live = strict
	_ = live2
	for a := range s.heap {
		if !done[a] {
			delete(s.heap, a)
		}
	}
	for c := range s.chans {
		if !done[c] {
			delete(s.chans, c)
		}
	}
	marked := map[*Term]bool{}
	for _, m := range s.marks {
		for _, t := range m.T {
			if t == nil {
				continue
			}
			for u := range t.Subs() {
				marked[u] = true
			}
		}
	}
	for l := range s.contrib {
		if !done[l] && !marked[l] {
			delete(s.contrib, l)
		}
	}
	for p := range s.facts {
		keep := false
		if (p.Op == "lt" || p.Op == "eq") && !marked[p] && (p.hasOld() || !x.R.CountFacts && p.hasPhi()) {
			if x.R.KeepFact == nil || !x.R.KeepFact(s, p) {
				delete(s.facts, p)
			}
			continue
		}
		for _, a := range p.Args {
			if a == nil {
				continue
			}
			if a.Op == "const" {
				continue
			}
			b := a
			for b.Op == "iface" || b.Op == "conv" {
				b = b.Args[0]
			}
			if live[a] || live[b] || marked[a] || marked[b] {
				keep = true
			}
			if b.Op == "ext" && marked[b.Args[0]] {
				keep = true
			}
			if b.Op == "pure" && b.Key == "len" && marked[b.Args[0]] {
				keep = true
			}
		}
		if p.Op == "ext" && (marked[p.Args[0]] || live[p]) {
			keep = true
		}
		if live[p] || marked[p] {
			keep = true
		}
		if !keep && x.R.KeepFact != nil && x.R.KeepFact(s, p) {
			keep = true
		}
		if !keep {
			delete(s.facts, p)
		}
	}
}

func addrRoot(a *Term) *Term {
	for a.Op == "fieldaddr" || a.Op == "indexaddr" {
		a = a.Args[0]
	}
	return a
}

// ---- renaming ---------------------------------------------------------------

func (x *Exec) renameSite(s *State, site int) {
	memo := map[*Term]*Term{}
	rn := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		r := x.tt.rename(t, site, memo)
		if r != t {
			if fn, ok := x.fnOf[t]; ok {
				x.fnOf[r] = fn
			}
		}
		return r
	}
	for _, f := range s.frames {
		for v, t := range f.env {
			if t.hasFresh(site) {
				f.env[v] = rn(t)
			}
		}
		for i := range f.defers {
			f.defers[i].ci = x.renCI(f.defers[i].ci, rn)
		}
		if f.hof != nil {
			f.hof.call = x.renCI(f.hof.call, rn)
			for i, t := range f.hof.closures {
				if r := rn(t); r != t {
					f.hof.closures = append([]*Term(nil), f.hof.closures...)
					f.hof.closures[i] = r
				}
			}
			for i, t := range f.hof.results {
				f.hof.results[i] = rn(t)
			}
		}
		if f.ci != nil {
			f.ci = x.renCI(f.ci, rn)
		}
		for bi, sn := range f.snaps {
			need := false
			for _, t := range sn.env {
				if t != nil && t.hasFresh(site) {
					need = true
				}
			}
			for a, t := range sn.heap {
				if a.hasFresh(site) || t.hasFresh(site) {
					need = true
				}
			}
			if need {
				ns := &snap{n: sn.n, env: map[ssa.Value]*Term{}, heap: map[*Term]*Term{}}
				for v, t := range sn.env {
					ns.env[v] = rn(t)
				}
				for a, t := range sn.heap {
					ns.heap[rn(a)] = rn(t)
				}
				f.snaps[bi] = ns
			}
		}
	}
	// heap
	var changed [][2]*Term
	for a, v := range s.heap {
		if a.hasFresh(site) || v.hasFresh(site) {
			changed = append(changed, [2]*Term{a, v})
		}
	}
	sort.Slice(changed, func(i, j int) bool { return changed[i][0].ID < changed[j][0].ID })
	for _, c := range changed {
		delete(s.heap, c[0])
	}
	for _, c := range changed {
		na, nv := rn(c[0]), rn(c[1])
		if ov, ok := s.heap[na]; ok && ov != nv {
			nv = x.join(ov, nv)
		}
		s.heap[na] = nv
	}
	changed = changed[:0]
	for a, v := range s.havoc {
		if a.hasFresh(site) || v.hasFresh(site) {
			changed = append(changed, [2]*Term{a, v})
		}
	}
	for _, c := range changed {
		delete(s.havoc, c[0])
	}
	for _, c := range changed {
		s.havoc[rn(c[0])] = rn(c[1])
	}
	// facts
	var fs []*Term
	for p := range s.facts {
		if p.hasFresh(site) {
			fs = append(fs, p)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
	type pf struct {
		t *Term
		v bool
	}
	var nf []pf
	for _, p := range fs {
		nf = append(nf, pf{rn(p), s.facts[p]})
		delete(s.facts, p)
	}
	for _, p := range nf {
		if v, ok := s.facts[p.t]; ok && v != p.v {
			delete(s.facts, p.t)
		} else {
			s.facts[p.t] = p.v
		}
	}
	// channels
	var cs []*Term
	for c, st := range s.chans {
		n := c.hasFresh(site)
		for _, v := range st.vals {
			n = n || v.hasFresh(site)
		}
		if n {
			cs = append(cs, c)
		}
	}
	for _, c := range cs {
		st := s.chans[c]
		delete(s.chans, c)
		nc := rn(c)
		for i, v := range st.vals {
			st.vals[i] = rn(v)
		}
		st.vals = dedupTerms(st.vals)
		for i, v := range st.pend {
			st.pend[i] = rn(v)
		}
		st.pend = dedupTerms(st.pend)
		if o, ok := s.chans[nc]; ok {
			o.vals = dedupTerms(append(o.vals, st.vals...))
			o.must = o.must && st.must
			o.pend = dedupTerms(append(o.pend, st.pend...))
			o.closed = o.closed && st.closed
		} else {
			s.chans[nc] = st
		}
	}
	// contributions
	var ls []*Term
	for l, items := range s.contrib {
		n := l.hasFresh(site)
		for _, it := range items {
			n = n || it.t.hasFresh(site)
		}
		if n {
			ls = append(ls, l)
		}
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].ID < ls[j].ID })
	for _, l := range ls {
		items := s.contrib[l]
		delete(s.contrib, l)
		ni := make([]contribItem, 0, len(items))
		for _, it := range items {
			ni = append(ni, contribItem{it.spread, rn(it.t)})
		}
		nl := rn(l)
		s.contrib[nl] = mergeContrib(s.contrib[nl], ni)
	}
	// marks
	var ms []string
	for k, m := range s.marks {
		for _, t := range m.T {
			if t != nil && t.hasFresh(site) {
				ms = append(ms, k)
				break
			}
		}
	}
	var nm []Mark
	for _, k := range ms {
		m := s.marks[k]
		delete(s.marks, k)
		ts := make([]*Term, len(m.T))
		for i, t := range m.T {
			ts[i] = rn(t)
		}
		nm = append(nm, Mark{m.Kind, ts, m.Pos})
	}
	for _, m := range nm {
		s.marks[m.key()] = m
	}
}

func (x *Exec) renCI(ci *CallInfo, rn func(*Term) *Term) *CallInfo {
	if ci == nil {
		return nil
	}
	n := *ci
	n.Args = make([]*Term, len(ci.Args))
	for i, a := range ci.Args {
		n.Args[i] = rn(a)
	}
	n.Res = rn(ci.Res)
	n.clos = rn(ci.clos)
	n.FnTerm = rn(ci.FnTerm)
	return &n
}

func dedupTerms(ts []*Term) []*Term {
	m := map[*Term]bool{}
	var r []*Term
	for _, t := range ts {
		if !m[t] {
			m[t] = true
			r = append(r, t)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

func mergeContrib(a, b []contribItem) []contribItem {
	m := map[contribItem]bool{}
	var r []contribItem
	for _, l := range [][]contribItem{a, b} {
		for _, it := range l {
			if !m[it] {
				m[it] = true
				r = append(r, it)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].t.ID != r[j].t.ID {
			return r[i].t.ID < r[j].t.ID
		}
		return !r[i].spread && r[j].spread
	})
	return r
}

func (x *Exec) join(a, b *Term) *Term {
	if a == b {
		return a
	}
	var args []*Term
	for _, t := range []*Term{a, b} {
		if t.Op == "join" {
			args = append(args, t.Args...)
		} else {
			args = append(args, t)
		}
	}
	args = dedupTerms(args)
	if len(args) > 5 {
		return x.tt.mk("join", "many", 0, a.Typ)
	}
	return x.tt.mk("join", "", 0, a.Typ, args...)
}

// ---- values -----------------------------------------------------------------

func (x *Exec) val(s *State, f *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return x.tt.zero(v.Type())
		}
		return x.tt.constant(v.Value, v.Type())
	case *ssa.Global:
		n := shortName(v.String())
		return x.tt.mk("global", n, 0, v.Type())
	case *ssa.Function:
		t := x.tt.mk("func", fname(v), 0, v.Type())
		x.fnOf[t] = v
		return t
	case *ssa.Builtin:
		return x.tt.mk("func", "builtin."+v.Name(), 0, v.Type())
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	// Value never computed on this path (cannot happen in well-formed SSA).
	return x.tt.mk("undef", fmt.Sprint(x.valNum(v)), 0, v.Type())
}

func (x *Exec) siteOf(f *Frame, in ssa.Instruction, sub string) int {
	return x.tt.site(fmt.Sprintf("%d:%d:%s", f.ctx.id, x.instrNum(in), sub))
}

// newSite renames the previous instance of the site and returns its number.
func (x *Exec) newSite(s *State, f *Frame, in ssa.Instruction, sub string) int {
	site := x.siteOf(f, in, sub)
	x.renameSite(s, site)
	return site
}

func (x *Exec) pos(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		if c, ok := in.(ssa.CallInstruction); ok {
			p = c.Common().Pos()
		}
	}
	if !p.IsValid() && in.Block() != nil {
		for _, o := range in.Block().Instrs {
			if o.Pos().IsValid() {
				p = o.Pos()
				break
			}
		}
	}
	return x.P.PosStr(p)
}

func fieldKey(t types.Type, i int) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return fmt.Sprintf("%d:?", i)
	}
	return fmt.Sprintf("%d:%s", i, st.Field(i).Name())
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// load reads the cell at addr.
func (x *Exec) load(s *State, addr *Term, typ types.Type) *Term {
	if v, ok := s.heap[addr]; ok {
		return v
	}
	if x.tt.explode(typ) {
		// Is any field known?
		st := typ.Underlying().(*types.Struct)
		root := addrRoot(addr)
		known := root.Op == "alloc"
		if !known {
			for a := range s.heap {
				if a.Op == "fieldaddr" && a.Args[0] == addr {
					known = true
					break
				}
			}
		}
		if known {
			args := make([]*Term, st.NumFields())
			for i := range args {
				args[i] = x.load(s, x.tt.fieldAddr(addr, fieldKey(typ, i), nil), st.Field(i).Type())
			}
			return x.tt.mk("agg", typeKey(typ), 0, typ, args...)
		}
		return x.tt.mk("deref", "", 0, typ, addr)
	}
	if addr.Op == "fieldaddr" {
		if b, ok := s.heap[addr.Args[0]]; ok {
			return x.tt.field(b, addr.Key, typ)
		}
	}
	if st, ok := typ.Underlying().(*types.Struct); ok && st.NumFields() <= 40 && !x.tt.explode(typ) {
		// a library's struct that was filled in field by field
		for a := range s.heap {
			if a.Op != "fieldaddr" || a.Args[0] != addr {
				continue
			}
			args := make([]*Term, st.NumFields())
			for i := range args {
				args[i] = x.load(s, x.tt.fieldAddr(addr, fieldKey(typ, i), nil), st.Field(i).Type())
			}
			return x.tt.mk("agg", typeKey(typ), 0, typ, args...)
		}
	}
	if addr.Op == "indexaddr" {
		if b, ok := s.heap[addr.Args[0]]; ok && b.Op != "zero" {
			return x.tt.mk("pure", "index", 0, typ, b, addr.Args[1])
		}
	}
	// out-parameter contents
	for a := addr; ; a = a.Args[0] {
		if o, ok := s.havoc[a]; ok {
			if a == addr {
				return o
			}
			return x.tt.mk("deref", "", 0, typ, x.rebase(addr, a, o))
		}
		if a.Op != "fieldaddr" && a.Op != "indexaddr" {
			break
		}
	}
	r := addrRoot(addr)
	if r.Op == "alloc" || r.Op == "old" && r.Args[0].Op == "alloc" {
		// an element at an unknown position of something that was written to
		for a := addr; a.Op == "fieldaddr" || a.Op == "indexaddr"; a = a.Args[0] {
			if a.Op != "indexaddr" || a.Args[1].Op == "const" {
				continue
			}
			if len(s.contrib[a.Args[0]]) > 0 {
				return x.tt.mk("deref", "", 0, typ, addr)
			}
			for k := range s.heap {
				if k != addr && underAddr(k, a.Args[0]) {
					return x.tt.mk("deref", "", 0, typ, addr)
				}
			}
		}
		return x.tt.zero(typ)
	}
	return x.tt.mk("deref", "", 0, typ, addr)
}

func (x *Exec) rebase(addr, from, to *Term) *Term {
	if addr == from {
		return to
	}
	args := append([]*Term{x.rebase(addr.Args[0], from, to)}, addr.Args[1:]...)
	return x.tt.mk(addr.Op, addr.Key, 0, addr.Typ, args...)
}

func (x *Exec) clearBelow(s *State, addr *Term) {
	for a := range s.heap {
		if a != addr && underAddr(a, addr) {
			delete(s.heap, a)
		}
	}
	for a := range s.havoc {
		if underAddr(a, addr) {
			delete(s.havoc, a)
		}
	}
}

func underAddr(a, base *Term) bool {
	for {
		if a == base {
			return true
		}
		if a.Op != "fieldaddr" && a.Op != "indexaddr" {
			return false
		}
		a = a.Args[0]
	}
}

func (x *Exec) store(s *State, addr, val *Term, typ types.Type) {
	x.clearBelow(s, addr)
	if x.tt.explode(typ) {
		delete(s.heap, addr)
		st := typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			k := fieldKey(typ, i)
			x.store(s, x.tt.fieldAddr(addr, k, nil), x.tt.field(val, k, st.Field(i).Type()), st.Field(i).Type())
		}
		return
	}
	s.heap[addr] = val
	if addr.Op == "fieldaddr" {
		// a whole-value cell of the parent no longer matches this field
		if b, ok := s.heap[addr.Args[0]]; ok && b.Typ != nil {
			if st, ok := b.Typ.Underlying().(*types.Struct); ok {
				delete(s.heap, addr.Args[0])
				if st.NumFields() <= 40 {
					for i := 0; i < st.NumFields(); i++ {
						k := fieldKey(b.Typ, i)
						if fa := x.tt.fieldAddr(addr.Args[0], k, nil); fa != addr {
							if _, have := s.heap[fa]; !have {
								s.heap[fa] = x.tt.field(b, k, st.Field(i).Type())
							}
						}
					}
				}
			}
		}
	}
	if addr.Op == "indexaddr" {
		base := addr.Args[0]
		if base.Op == "pure" && base.Key == "slice" {
			base = base.Args[0]
		}
		if !x.R.NoContrib {
			s.contrib[base] = mergeContrib(s.contrib[base], []contribItem{{false, val}})
		}
		if addr.Args[1].Op != "const" {
			delete(s.heap, addr)
		}
	}
}

func (x *Exec) tuple(ts ...*Term) *Term { return x.tt.mk("tuple", "", 0, nil, ts...) }

func (x *Exec) ext(t *Term, i int, typ types.Type) *Term {
	if t.Op == "tuple" {
		return t.Args[i]
	}
	if t.Op == "old" && t.Args[0].Op == "tuple" {
		return t.Args[0].Args[i]
	}
	return x.tt.mk("ext", fmt.Sprint(i), 0, typ, t)
}

// ---- truth ------------------------------------------------------------------

func (x *Exec) not(t *Term) *Term {
	switch t.Op {
	case "not":
		return t.Args[0]
	case "true":
		return x.tt.boolT(false)
	case "false":
		return x.tt.boolT(true)
	}
	return x.tt.mk("not", "", 0, types.Typ[types.Bool], t)
}

func (x *Exec) isNilTerm(t *Term) *Term {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	return x.tt.mk("isnil", "", 0, types.Typ[types.Bool], t)
}

func (x *Exec) nonNil(s *State, t *Term) bool {
	switch t.Op {
	case "alloc", "closure", "func", "iface", "list", "make", "fieldaddr", "indexaddr", "agg", "const", "senterr":
		return true
	case "conv", "old":
		return x.nonNil(s, t.Args[0])
	case "pure":
		switch t.Key {
		case "fmt.Errorf", "errors.New", "errors.Join":
			return true
		case "slice":
			return x.nonNil(s, t.Args[0])
		}
	case "deref":
		a := t.Args[0]
		if a.Op == "global" && t.Typ != nil && isErrorType(t.Typ) {
			return true
		}
	}
	return false
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// Truth evaluates a boolean term on the path.
func (x *Exec) Truth(s *State, t *Term) (bool, bool) {
	switch t.Op {
	case "true":
		return true, true
	case "false":
		return false, true
	case "not":
		v, k := x.Truth(s, t.Args[0])
		return !v, k
	case "conv", "iface":
		return x.Truth(s, t.Args[0])
	}
	if v, ok := s.facts[t]; ok {
		return v, true
	}
	switch t.Op {
	case "isnil":
		u := t.Args[0]
		if u.Op == "nil" {
			return true, true
		}
		if x.nonNil(s, u) {
			return false, true
		}
	case "same":
		a, b := t.Args[0], t.Args[1]
		if a == b {
			return true, true
		}
		if a.Op == "const" && b.Op == "const" {
			return a.Key == b.Key, true
		}
		// exclusivity against another constant
		for p, v := range s.facts {
			if p.Op == "same" && v {
				for i := 0; i < 2; i++ {
					for j := 0; j < 2; j++ {
						if p.Args[i] == t.Args[j] && distinctConst(p.Args[1-i], t.Args[1-j]) {
							return false, true
						}
					}
				}
			}
		}
	case "eq", "lt":
		lo, hi, nes := x.interval(s, t)
		_, k := decodeLin(t)
		if t.Op == "eq" {
			if lo != nil && hi != nil && *lo == *hi && *lo == -k {
				return true, true
			}
			if lo != nil && *lo > -k || hi != nil && *hi < -k {
				return false, true
			}
			for _, n := range nes {
				if n == -k {
					return false, true
				}
			}
		} else {
			// S + k < 0  <=> S < -k
			if hi != nil && *hi < -k {
				return true, true
			}
			if lo != nil && *lo >= -k {
				return false, true
			}
		}
	}
	return false, false
}

func distinctConst(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.Op == "const" && b.Op == "const" {
		return a.Key != b.Key
	}
	isSent := func(t *Term) bool { return t.Op == "deref" && t.Args[0].Op == "global" }
	return isSent(a) && isSent(b)
}

// interval derives bounds of the linear sum of predicate t from the facts.
func (x *Exec) interval(s *State, t *Term) (lo, hi *int64, nes []int64) {
	coefs := strings.SplitN(t.Key, ";", 2)[0]
	setLo := func(v int64) {
		if lo == nil || v > *lo {
			lo = &v
		}
	}
	setHi := func(v int64) {
		if hi == nil || v < *hi {
			hi = &v
		}
	}
	for p, v := range s.facts {
		if (p.Op != "eq" && p.Op != "lt") || len(p.Args) != len(t.Args) || strings.SplitN(p.Key, ";", 2)[0] != coefs {
			continue
		}
		same := true
		for i := range p.Args {
			if p.Args[i] != t.Args[i] {
				same = false
			}
		}
		if !same {
			continue
		}
		_, k := decodeLin(p)
		switch {
		case p.Op == "eq" && v:
			setLo(-k)
			setHi(-k)
		case p.Op == "eq":
			nes = append(nes, -k)
		case v:
			setHi(-k - 1)
		default:
			setLo(-k)
		}
	}
	// len() is never negative
	if len(t.Args) == 1 && strings.HasPrefix(coefs, "1") && t.Args[0].Op == "pure" && t.Args[0].Key == "len" {
		z := int64(0)
		if lo == nil || *lo < 0 {
			lo = &z
		}
		if l := t.Args[0].Args[0]; l.Op == "list" && x.listNonEmpty(s, l) {
			setLo(1)
		}
		for ne := true; ne && lo != nil; {
			ne = false
			for _, n := range nes {
				if n == *lo {
					v := *lo + 1
					lo = &v
					ne = true
				}
			}
		}
	}
	return
}

func (x *Exec) listNonEmpty(s *State, l *Term) bool {
	for _, it := range s.contrib[l] {
		if !it.spread {
			return true
		}
	}
	return false
}

// Assume records that t has the given truth value; false if contradictory.
func (x *Exec) Assume(s *State, t *Term, v bool) bool {
	for t.Op == "not" || t.Op == "conv" || t.Op == "iface" {
		if t.Op == "not" {
			v = !v
		}
		t = t.Args[0]
	}
	if k, known := x.Truth(s, t); known {
		return k == v
	}
	s.facts[t] = v
	// consequences
	switch t.Op {
	case "same":
		if v {
			for i := 0; i < 2; i++ {
				o := t.Args[1-i]
				if o.Op == "deref" && o.Args[0].Op == "global" && o.Typ != nil && isErrorType(o.Typ) {
					if !x.Assume(s, x.isNilTerm(t.Args[i]), false) {
						return false
					}
				}
			}
		}
	case "pure":
		if v {
			switch t.Key {
			case "errors.Is", "errors.As", "os.IsNotExist", "os.IsExist", "os.IsTimeout":
				if len(t.Args) > 0 {
					if !x.Assume(s, x.isNilTerm(t.Args[0]), false) {
						return false
					}
				}
			}
		}
	}
	return true
}

// NilFact tells whether term t is known nil / known non-nil.
func (x *Exec) KnownNil(s *State, t *Term) bool {
	if t == nil {
		return false
	}
	v, k := x.Truth(s, x.isNilTerm(t))
	return k && v
}
func (x *Exec) KnownNonNil(s *State, t *Term) bool {
	if t == nil {
		return false
	}
	v, k := x.Truth(s, x.isNilTerm(t))
	return k && !v
}

// ErrOf returns the error result of a call result term (given its signature).
func (x *Exec) ErrOf(ci *CallInfo, res *Term) *Term {
	if ci.Sig == nil || res == nil {
		return nil
	}
	r := ci.Sig.Results()
	if r.Len() == 0 {
		return nil
	}
	i := r.Len() - 1
	if !isErrorType(r.At(i).Type()) {
		return nil
	}
	if r.Len() == 1 {
		return res
	}
	return x.ext(res, i, r.At(i).Type())
}

// ResultOf returns result i of the call.
func (x *Exec) ResultOf(ci *CallInfo, res *Term, i int) *Term {
	if ci.Sig == nil || ci.Sig.Results().Len() <= i {
		return nil
	}
	if ci.Sig.Results().Len() == 1 {
		return res
	}
	return x.ext(res, i, ci.Sig.Results().At(i).Type())
}

// compare builds the predicate term of a comparison.
func (x *Exec) compare(op token.Token, a, b *Term, typ types.Type) *Term {
	numeric := false
	if bt, ok := typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
		numeric = true
	}
	switch op {
	case token.EQL, token.NEQ:
		var p *Term
		neg := op == token.NEQ
		if numeric {
			l := &lin{}
			x.tt.linOf(a, 1, l)
			x.tt.linOf(b, -1, l)
			q, n := x.tt.linTerm("eq", l)
			p = q
			neg = neg != n
		} else if isNilT(a) || isNilT(b) {
			o := a
			if isNilT(a) {
				o = b
			}
			if isNilT(o) {
				p = x.tt.boolT(true)
			} else {
				p = x.isNilTerm(o)
			}
		} else if bt, ok := typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
			switch {
			case a.Op == "true":
				p = b
			case b.Op == "true":
				p = a
			case a.Op == "false":
				p = x.not(b)
			case b.Op == "false":
				p = x.not(a)
			case a == b:
				p = x.tt.boolT(true)
			}
		} else if bt, ok := typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			// comparison with "" is a comparison of the length with 0
			if a.Op == "const" && a.Key == `""` || b.Op == "const" && b.Key == `""` {
				o := a
				if a.Op == "const" && a.Key == `""` {
					o = b
				}
				l := &lin{}
				x.tt.linOf(x.lenOf(o), 1, l)
				q, n := x.tt.linTerm("eq", l)
				p = q
				neg = neg != n
			}
		}
		if p == nil {
			if a.ID > b.ID {
				a, b = b, a
			}
			p = x.tt.mk("same", "", 0, types.Typ[types.Bool], a, b)
		}
		if neg {
			return x.not(p)
		}
		return p
	}
	if numeric {
		l := &lin{}
		neg := false
		switch op {
		case token.LSS: // a-b<0
			x.tt.linOf(a, 1, l)
			x.tt.linOf(b, -1, l)
		case token.GTR: // b-a<0
			x.tt.linOf(b, 1, l)
			x.tt.linOf(a, -1, l)
		case token.LEQ: // !(b-a<0)
			x.tt.linOf(b, 1, l)
			x.tt.linOf(a, -1, l)
			neg = true
		case token.GEQ: // !(a-b<0)
			x.tt.linOf(a, 1, l)
			x.tt.linOf(b, -1, l)
			neg = true
		}
		p, n := x.tt.linTerm("lt", l)
		if n != neg {
			return x.not(p)
		}
		return p
	}
	switch op {
	case token.GTR:
		return x.tt.mk("pure", "less", 0, types.Typ[types.Bool], b, a)
	case token.LEQ:
		return x.not(x.tt.mk("pure", "less", 0, types.Typ[types.Bool], b, a))
	case token.GEQ:
		return x.not(x.tt.mk("pure", "less", 0, types.Typ[types.Bool], a, b))
	}
	return x.tt.mk("pure", "less", 0, types.Typ[types.Bool], a, b)
}

func (x *Exec) lenOf(t *Term) *Term {
	u := t
	for u.Op == "conv" {
		u = u.Args[0]
	}
	if u.Op == "const" && u.Typ != nil {
		if v := constant.MakeFromLiteral(u.Key, token.STRING, 0); v != nil && v.Kind() == constant.String {
			return x.tt.intc(int64(len(constant.StringVal(v))))
		}
	}
	if u.Op == "nil" {
		return x.tt.intc(0)
	}
	if u.Op == "vararg" {
		return x.tt.intc(int64(len(u.Args)))
	}
	if isEmptySlice(u) {
		return x.tt.intc(0)
	}
	if u.Op == "make" && u.Key == "slice" && len(u.Args) == 1 {
		return u.Args[0]
	}
	if u.Op == "pure" && u.Key == "slice" && u.Args[1] == nil && u.Args[2] == nil && u.Args[0].Op == "alloc" && u.Args[0].Typ != nil {
		if arr, ok := deref(u.Args[0].Typ).Underlying().(*types.Array); ok {
			return x.tt.intc(arr.Len())
		}
	}
	return x.tt.mk("pure", "len", 0, types.Typ[types.Int], u)
}

func (x *Exec) binop(op token.Token, a, b *Term, typ, rtyp types.Type) *Term {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return x.compare(op, a, b, typ)
	}
	if m, ok := a.IntConst(); ok {
		if n, ok := b.IntConst(); ok {
			var r int64
			good := true
			switch op {
			case token.ADD:
				r = m + n
			case token.SUB:
				r = m - n
			case token.MUL:
				r = m * n
			case token.SHL:
				if n >= 0 && n < 62 && m < 1<<20 && m > -(1<<20) {
					r = m << uint(n)
				} else {
					good = false
				}
			case token.OR:
				r = m | n
				good = m >= 0 && n >= 0
			case token.AND:
				r = m & n
				good = m >= 0 && n >= 0
			case token.AND_NOT:
				r = m &^ n
				good = m >= 0 && n >= 0
			case token.QUO:
				if n != 0 {
					r = m / n
				} else {
					good = false
				}
			default:
				good = false
			}
			if good {
				return x.tt.mk("const", fmt.Sprint(r), 0, rtyp)
			}
		}
	}
	if op == token.ADD || op == token.SUB {
		if n, ok := b.IntConst(); ok && n == 0 {
			return a
		}
	}
	if a.Op == "const" && b.Op == "const" && op == token.ADD && strings.HasPrefix(a.Key, `"`) && strings.HasPrefix(b.Key, `"`) {
		va, vb := constant.MakeFromLiteral(a.Key, token.STRING, 0), constant.MakeFromLiteral(b.Key, token.STRING, 0)
		if va.Kind() == constant.String && vb.Kind() == constant.String {
			return x.tt.constant(constant.MakeString(constant.StringVal(va)+constant.StringVal(vb)), rtyp)
		}
	}
	return x.tt.mk("binop", op.String(), 0, rtyp, a, b)
}

// ---- instruction transfer -----------------------------------------------------

// step executes one instruction; it returns false if the state ended or was
// replaced by queued states.
func (x *Exec) step(s *State, f *Frame, in ssa.Instruction) bool {
	tt := x.tt
	switch in := in.(type) {
	case *ssa.DebugRef, *ssa.Phi:
		return true
	case *ssa.Alloc:
		site := x.newSite(s, f, in, "")
		t := tt.mk("alloc", in.Comment, site, in.Type())
		t.Pos = x.pos(in)
		// a fresh cell: forget what an earlier instance left behind
		x.clearBelow(s, t)
		delete(s.heap, t)
		f.env[in] = t
	case *ssa.BinOp:
		f.env[in] = x.binop(in.Op, x.val(s, f, in.X), x.val(s, f, in.Y), in.X.Type(), in.Type())
	case *ssa.UnOp:
		a := x.val(s, f, in.X)
		switch in.Op {
		case token.NOT:
			f.env[in] = x.not(a)
		case token.MUL:
			v := x.load(s, a, in.Type())
			f.env[in] = v
			if x.R.OnLoad != nil {
				x.R.OnLoad(x, s, a, v, in)
			}
		case token.ARROW:
			return x.recv(s, f, in, a, in.CommaOk)
		default:
			if n, ok := a.IntConst(); ok && in.Op == token.SUB {
				f.env[in] = tt.mk("const", fmt.Sprint(-n), 0, in.Type())
			} else {
				f.env[in] = tt.mk("pure", "unop"+in.Op.String(), 0, in.Type(), a)
			}
		}
	case *ssa.Store:
		a, v := x.val(s, f, in.Addr), x.val(s, f, in.Val)
		if x.R.OnStore != nil {
			x.R.OnStore(x, s, a, v, in)
		}
		if x.R.Abstract != nil {
			if n := x.R.Abstract(x, s, a, v, in); n != nil {
				v = n
			}
		}
		x.store(s, a, v, in.Val.Type())
	case *ssa.FieldAddr:
		b := x.val(s, f, in.X)
		f.env[in] = tt.fieldAddr(b, fieldKey(deref(in.X.Type()), in.Field), in.Type())
	case *ssa.Field:
		f.env[in] = tt.field(x.val(s, f, in.X), fieldKey(in.X.Type(), in.Field), in.Type())
	case *ssa.IndexAddr:
		f.env[in] = x.indexAddr(x.val(s, f, in.X), x.val(s, f, in.Index), in.Type())
	case *ssa.Index:
		f.env[in] = tt.mk("pure", "index", 0, in.Type(), x.val(s, f, in.X), x.val(s, f, in.Index))
	case *ssa.Lookup:
		m, k := x.val(s, f, in.X), x.val(s, f, in.Index)
		var et types.Type = in.Type()
		if in.CommaOk {
			et = nil
		}
		f.env[in] = tt.mk("pure", "lookup", 0, et, m, k)
		if x.R.OnLoad != nil {
			x.R.OnLoad(x, s, m, nil, in)
		}
	case *ssa.Slice:
		f.env[in] = x.slice(s, f, in)
	case *ssa.MakeInterface:
		f.env[in] = tt.mk("iface", typeKey(in.X.Type()), 0, in.X.Type(), x.val(s, f, in.X))
	case *ssa.ChangeInterface:
		f.env[in] = x.val(s, f, in.X)
	case *ssa.ChangeType:
		f.env[in] = x.conv(x.val(s, f, in.X), in.Type())
	case *ssa.Convert:
		f.env[in] = x.conv(x.val(s, f, in.X), in.Type())
	case *ssa.MultiConvert:
		f.env[in] = x.conv(x.val(s, f, in.X), in.Type())
	case *ssa.SliceToArrayPointer:
		f.env[in] = tt.mk("pure", "slice2arr", 0, in.Type(), x.val(s, f, in.X))
	case *ssa.MakeSlice:
		site := x.newSite(s, f, in, "")
		var ls []*Term
		if c, ok := in.Len.(*ssa.Const); ok && c.Int64() == 0 {
			ls = []*Term{tt.intc(0)}
		}
		t := tt.mk("make", "slice", site, in.Type(), ls...)
		delete(s.contrib, t)
		t.Pos = x.pos(in)
		f.env[in] = t
	case *ssa.MakeMap:
		site := x.newSite(s, f, in, "")
		t := tt.mk("make", "map", site, in.Type())
		delete(s.contrib, t)
		t.Pos = x.pos(in)
		f.env[in] = t
	case *ssa.MakeChan:
		site := x.newSite(s, f, in, "")
		t := tt.mk("make", "chan", site, in.Type())
		t.Pos = x.pos(in)
		s.chans[t] = &chanState{}
		f.env[in] = t
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, x.val(s, f, b))
		}
		fn := in.Fn.(*ssa.Function)
		t := tt.mk("closure", fname(fn), 0, in.Type(), bs...)
		x.fnOf[t] = fn
		f.env[in] = t
	case *ssa.MapUpdate:
		m, k, v := x.val(s, f, in.Map), x.val(s, f, in.Key), x.val(s, f, in.Value)
		if x.R.OnUpdate != nil {
			x.R.OnUpdate(x, s, m, k, v, in)
		}
		if !x.R.NoContrib {
			s.contrib[m] = mergeContrib(s.contrib[m], []contribItem{{false, tt.mk("kv", "", 0, nil, k, v)}})
		}
	case *ssa.Range:
		f.env[in] = tt.mk("pure", "range", 0, nil, x.val(s, f, in.X))
	case *ssa.Next:
		it := x.val(s, f, in.Iter)
		site := x.newSite(s, f, in, "")
		it = x.val(s, f, in.Iter)
		base := it
		if it.Op == "pure" && it.Key == "range" {
			base = it.Args[0]
		}
		t := tt.mk("next", "", site, in.Type(), base)
		t.Pos = x.pos(in)
		f.env[in] = t
	case *ssa.TypeAssert:
		a := x.val(s, f, in.X)
		if a.Op == "iface" && types.Identical(a.Typ, in.AssertedType) {
			if in.CommaOk {
				f.env[in] = x.tuple(a.Args[0], tt.boolT(true))
			} else {
				f.env[in] = a.Args[0]
			}
		} else {
			f.env[in] = tt.mk("pure", "assert:"+typeKey(in.AssertedType), 0, in.Type(), a)
		}
	case *ssa.Extract:
		f.env[in] = x.ext(x.val(s, f, in.Tuple), in.Index, in.Type())
	case *ssa.Send:
		ch, v := x.val(s, f, in.Chan), x.val(s, f, in.X)
		if e := strip(ch).chanElem(); e != nil && isErrorType(e) {
			if _, known := x.Truth(s, x.isNilTerm(v)); !known {
				n := s.clone()
				if x.Assume(n, x.isNilTerm(v), true) {
					x.send(n, ch, v, in, false)
					if !x.killed {
						x.push(n)
					}
					x.killed = false
				}
				x.Assume(s, x.isNilTerm(v), false)
			}
		}
		x.send(s, ch, v, in, false)
		if x.killed {
			return false
		}
	case *ssa.Select:
		return x.sel(s, f, in)
	case *ssa.Jump:
		x.enter(s, f.block.Succs[0])
	case *ssa.If:
		return x.branch(s, f, in)
	case *ssa.Return:
		var rs []*Term
		for _, r := range in.Results {
			rs = append(rs, x.val(s, f, r))
		}
		return x.ret(s, rs, in)
	case *ssa.RunDefers:
		return x.runDefers(s, f, in)
	case *ssa.Panic:
		ci := &CallInfo{Name: "panic", Args: []*Term{x.val(s, f, in.X)}, Instr: in, Ctx: f.ctx, Pos: x.pos(in), Mode: 'c'}
		x.abort(s, ci)
		return false
	case *ssa.Call:
		return x.call(s, f, in, &in.Call, 'c')
	case *ssa.Defer:
		ci := x.callInfo(s, f, in, &in.Call, 'd')
		f.defers = append(f.defers, deferred{ci, in})
	case *ssa.Go:
		ci := x.callInfo(s, f, in, &in.Call, 'g')
		x.Calls["go"]++
		mode := GoInline
		if x.R.GoMode != nil {
			mode = x.R.GoMode(ci)
		}
		if x.R.OnCall != nil {
			g := *ci
			g.Name = "go"
			x.R.OnCall(x, s, &g)
			if x.killed {
				return false
			}
		}
		if mode == GoSkip {
			return true
		}
		if mode == GoBoth {
			x.push(s.clone())
		}
		return x.doCall(s, f, ci)
	default:
		x.Err = fmt.Errorf("unsupported instruction %T in %s", in, fname(f.fn))
		return false
	}
	return true
}

func (x *Exec) conv(a *Term, t types.Type) *Term {
	if a.Op == "const" || a.Op == "nil" || a.Op == "true" || a.Op == "false" {
		if bt, ok := t.Underlying().(*types.Basic); ok && a.Op == "const" {
			if bt.Info()&types.IsNumeric != 0 && !strings.HasPrefix(a.Key, `"`) || bt.Info()&types.IsString != 0 && strings.HasPrefix(a.Key, `"`) {
				return x.tt.mk("const", a.Key, 0, t)
			}
		} else if a.Op != "const" {
			return a
		}
	}
	if a.Op == "conv" {
		if a.Key == typeKey(t) {
			return a
		}
		if inner := a.Args[0]; inner.Typ != nil && types.Identical(inner.Typ, t) {
			return inner
		}
	}
	if a.Typ != nil && types.Identical(a.Typ, t) {
		return a
	}
	return x.tt.mk("conv", typeKey(t), 0, t, a)
}

func (x *Exec) indexAddr(base, idx *Term, typ types.Type) *Term {
	if base.Op == "pure" && base.Key == "slice" && base.Args[1] == nil {
		base = base.Args[0]
	}
	return x.tt.mk("indexaddr", "", 0, typ, base, idx)
}

func (x *Exec) slice(s *State, f *Frame, in *ssa.Slice) *Term {
	b := x.val(s, f, in.X)
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = x.val(s, f, in.Low)
		if n, ok := lo.IntConst(); ok && n == 0 {
			lo = nil
		}
	}
	if in.High != nil {
		hi = x.val(s, f, in.High)
	}
	if in.Max != nil {
		mx = x.val(s, f, in.Max)
	}
	if lo == nil && hi == nil && mx == nil {
		if _, isPtr := in.X.Type().Underlying().(*types.Pointer); !isPtr {
			return b
		}
	}
	if lo == nil && mx == nil && hi != nil && hi == x.lenOf(b) && isSliceTerm(b) {
		return b
	}
	if lo == nil && mx == nil && isEmptySlice(b) {
		if n, ok := hi.IntConst(); ok && n == 0 {
			return b
		}
	}
	return x.tt.mk("pure", "slice", 0, in.Type(), b, lo, hi, mx)
}

// isEmptySlice: q[:0]
func isEmptySlice(t *Term) bool {
	if t.Op != "pure" || t.Key != "slice" || t.Args[1] != nil || t.Args[2] == nil {
		return false
	}
	n, ok := t.Args[2].IntConst()
	return ok && n == 0
}

// vararg expands the compiler-made argument array of a variadic call.
func (x *Exec) vararg(s *State, t *Term) *Term {
	if t.Op != "pure" || t.Key != "slice" || t.Args[1] != nil || t.Args[2] != nil {
		return t
	}
	a := t.Args[0]
	if a.Op != "alloc" || a.Typ == nil {
		return t
	}
	arr, ok := deref(a.Typ).Underlying().(*types.Array)
	if !ok || arr.Len() > 32 {
		return t
	}
	var es []*Term
	for i := int64(0); i < arr.Len(); i++ {
		es = append(es, x.load(s, x.tt.mk("indexaddr", "", 0, nil, a, x.tt.intc(i)), arr.Elem()))
	}
	return x.tt.mk("vararg", "", 0, t.Typ, es...)
}

func (x *Exec) send(s *State, ch, v *Term, in ssa.Instruction, inSel bool) {
	c := strip(ch)
	if x.R.OnSend != nil {
		x.R.OnSend(x, s, c, v, in, inSel)
	}
	cs := s.chans[c]
	if cs == nil {
		cs = &chanState{}
		s.chans[c] = cs
	}
	// the identity of an error is not tracked through a channel, its presence is
	isErr := false
	if elem := c.chanElem(); elem != nil && isErrorType(elem) {
		isErr = true
		if x.KnownNonNil(s, v) {
			v = x.tt.mk("senterr", "", 0, elem)
		} else if x.KnownNil(s, v) {
			v = x.tt.nilT()
		}
	}
	if x.R.NoChanVals {
		v = x.tt.mk("pure", "sent", 0, nil)
	}
	cs.vals = dedupTerms(append(append([]*Term(nil), cs.vals...), v))
	if isErr {
		cs.pend = dedupTerms(append(append([]*Term(nil), cs.pend...), v))
	}
	cs.must = true
}

// took notes that v was received from the channel.
func (cs *chanState) took(v *Term) {
	var np []*Term
	for _, p := range cs.pend {
		if p != v {
			np = append(np, p)
		}
	}
	cs.pend = np
	cs.must = len(np) > 0
}

func (x *Exec) recvVals(s *State, f *Frame, in ssa.Instruction, ch *Term, elem types.Type, sub string) []*Term {
	c := strip(ch)
	cs := s.chans[c]
	if cs != nil && len(cs.vals) > 0 && len(cs.vals) <= 6 && !x.R.NoChanVals {
		return append([]*Term(nil), cs.vals...)
	}
	return nil
}

func (x *Exec) recv(s *State, f *Frame, in *ssa.UnOp, ch *Term, commaOk bool) bool {
	elem := ch.elemType(in.X.Type())
	c := strip(ch)
	vals := x.recvVals(s, f, in, ch, elem, "")
	must, closed := false, false
	if cs := s.chans[c]; cs != nil {
		must, closed = cs.must, cs.closed
	}
	set := func(st *State, v, ok *Term, took bool) *State {
		fr := st.top()
		if commaOk {
			fr.env[in] = x.tuple(v, ok)
		} else {
			fr.env[in] = v
		}
		if took {
			if cs := st.chans[c]; cs != nil {
				n := *cs
				n.took(v)
				st.chans[c] = &n
			}
			x.cancelled(st, c, in)
			if x.R.OnRecv != nil {
				x.R.OnRecv(x, st, c, v, in, false)
			}
		}
		if !took && x.R.OnClosed != nil {
			x.R.OnClosed(x, st, c, in)
		}
		if commaOk && x.R.OnIter != nil && x.inAnyLoop(f.fn, in.Block()) {
			x.R.OnIter(x, st, c, v, took, in)
		}
		return st
	}
	var outs []*State
	// closed and drained
	if commaOk && !must {
		outs = append(outs, set(s.clone(), x.tt.zero(elem), x.tt.boolT(false), false))
	}
	if len(vals) > 0 {
		for _, v := range vals {
			outs = append(outs, set(s.clone(), v, x.tt.boolT(true), true))
		}
	} else if !(closed && !must) || !commaOk {
		n := s.clone()
		site := x.newSite(n, n.top(), in, "recv")
		v := x.tt.mk("recv", "", site, elem, c)
		v.Pos = x.pos(in)
		outs = append(outs, set(n, v, x.tt.boolT(true), true))
	}
	for i := len(outs) - 1; i >= 0; i-- {
		x.push(outs[i])
	}
	return false
}

func (t *Term) chanElem() types.Type {
	if t.Typ == nil {
		return nil
	}
	if c, ok := t.Typ.Underlying().(*types.Chan); ok {
		return c.Elem()
	}
	return nil
}

func (t *Term) elemType(ct types.Type) types.Type {
	if c, ok := ct.Underlying().(*types.Chan); ok {
		return c.Elem()
	}
	return nil
}

func (x *Exec) sel(s *State, f *Frame, in *ssa.Select) bool {
	var chs []*Term
	for _, c := range in.States {
		chs = append(chs, strip(x.val(s, f, c.Chan)))
	}
	if x.R.OnSelect != nil {
		x.R.OnSelect(x, s, in, chs)
		if x.killed {
			return false
		}
	}
	var outs []*State
	nrecv := 0
	for _, c := range in.States {
		if c.Dir == types.RecvOnly {
			nrecv++
		}
	}
	mk := func(st *State, idx int, ok bool, ri int, v *Term) {
		args := []*Term{x.tt.intc(int64(idx)), x.tt.boolT(ok)}
		k := 0
		for _, c := range in.States {
			if c.Dir != types.RecvOnly {
				continue
			}
			e := c.Chan.Type().Underlying().(*types.Chan).Elem()
			if k == ri && v != nil {
				args = append(args, v)
			} else {
				args = append(args, x.tt.zero(e))
			}
			k++
		}
		st.top().env[in] = x.tuple(args...)
	}
	ri := 0
	for i, c := range in.States {
		if chs[i].Op == "nil" {
			if c.Dir == types.RecvOnly {
				ri++
			}
			continue
		}
		n := s.clone()
		if c.Dir == types.SendOnly {
			n.note("%s: select sends on %s", x.pos(in), chs[i])
			x.send(n, chs[i], x.val(n, n.top(), c.Send), in, true)
			mk(n, i, false, -1, nil)
			if !x.killed {
				outs = append(outs, n)
			}
			x.killed = false
			continue
		}
		e := c.Chan.Type().Underlying().(*types.Chan).Elem()
		n.note("%s: select receives from %s", x.pos(in), chs[i])
		site := x.newSite(n, n.top(), in, fmt.Sprint("r", i))
		ch := strip(x.val(n, n.top(), c.Chan))
		v := x.tt.mk("recv", "", site, e, ch)
		v.Pos = x.pos(in)
		// received value
		n2 := n.clone()
		mk(n2, i, true, ri, v)
		if cs := n2.chans[ch]; cs != nil {
			c2 := *cs
			c2.took(v)
			n2.chans[ch] = &c2
		}
		x.cancelled(n2, ch, in)
		if x.R.OnRecv != nil {
			x.R.OnRecv(x, n2, ch, v, in, true)
		}
		outs = append(outs, n2)
		// closed channel
		n3 := n.clone()
		mk(n3, i, false, -1, nil)
		used := false
		for _, r := range *in.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok && ex.Index == 1 {
				used = true
			}
		}
		if used {
			if x.R.OnClosed != nil {
				x.R.OnClosed(x, n3, ch, in)
			}
			outs = append(outs, n3)
		}
		ri++
	}
	if !in.Blocking {
		n := s.clone()
		mk(n, -1, false, -1, nil)
		outs = append(outs, n)
	}
	for i := len(outs) - 1; i >= 0; i-- {
		x.push(outs[i])
	}
	return false
}

func (x *Exec) branch(s *State, f *Frame, in *ssa.If) bool {
	c := x.val(s, f, in.Cond)
	if v, known := x.Truth(s, c); known {
		if !x.branched(s, f, in, c, v) {
			return false
		}
		if v {
			x.enter(s, f.block.Succs[0])
		} else {
			x.enter(s, f.block.Succs[1])
		}
		return true
	}
	n := s.clone()
	p := x.pos(in)
	if x.Assume(n, c, false) {
		n.note("%s: %s is false", p, c)
		if x.branched(n, n.top(), in, c, false) {
			x.enter(n, n.top().block.Succs[1])
			x.push(n)
		}
	}
	if x.Assume(s, c, true) {
		s.note("%s: %s is true", p, c)
		if !x.branched(s, f, in, c, true) {
			return false
		}
		x.enter(s, f.block.Succs[0])
		return true
	}
	return false
}

// branched runs the hooks of a decided branch; false ends the state.
func (x *Exec) branched(s *State, f *Frame, in *ssa.If, c *Term, v bool) bool {
	x.killed = false
	if x.R.OnBranch != nil {
		x.R.OnBranch(x, s, in, c, v)
	}
	li := x.loopBranch(f.fn, in)
	if li == nil {
		return !x.killed
	}
	leaves := !li[in.Block().Succs[1]] && !v || !li[in.Block().Succs[0]] && v
	// A counted loop that receives from a channel takes everything that was sent.
	if leaves && x.hasPlainRecv(li) {
		for _, cs := range s.chans {
			if len(cs.pend) > 0 && !cs.closed {
				return false
			}
		}
	}
	if x.R.OnIter != nil {
		t := strip(c)
		for t.Op == "not" {
			t = t.Args[0]
		}
		switch {
		case t.Op == "lt" || t.Op == "eq":
			if sizeLimit(in.Cond) {
				break
			}
			for _, a := range t.Args {
				if a.Op == "pure" && a.Key == "len" {
					x.R.OnIter(x, s, a.Args[0], nil, !leaves, in)
				}
			}
		case t.Op == "ext" && t.Args[0].Op == "next":
			x.R.OnIter(x, s, t.Args[0].Args[0], t.Args[0], !leaves, in)
		}
	}
	return !x.killed
}

// sizeLimit: the condition compares with a constant other than 0 and 1; that
// is not how the elements of a list are counted.
func sizeLimit(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, o := range []ssa.Value{b.X, b.Y} {
		if c, ok := o.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			if n, exact := constant.Int64Val(c.Value); !exact || n < 0 || n > 1 {
				return true
			}
		}
	}
	return false
}

var loopBrCache = map[*ssa.If]map[*ssa.BasicBlock]bool{}

// loopBranch returns the blocks of the innermost loop that the branch can leave.
func (x *Exec) loopBranch(fn *ssa.Function, in *ssa.If) map[*ssa.BasicBlock]bool {
	if m, ok := loopBrCache[in]; ok {
		return m
	}
	var best map[*ssa.BasicBlock]bool
	b := in.Block()
	for h := range x.loopHeaders(fn) {
		if !x.inLoop(fn, h.Index, b) {
			continue
		}
		m := loopCache[h]
		if m[b.Succs[0]] && m[b.Succs[1]] {
			continue
		}
		if best == nil || len(m) < len(best) {
			best = m
		}
	}
	loopBrCache[in] = best
	return best
}

func (x *Exec) inAnyLoop(fn *ssa.Function, b *ssa.BasicBlock) bool {
	for h := range x.loopHeaders(fn) {
		if x.inLoop(fn, h.Index, b) {
			return true
		}
	}
	return false
}

func (x *Exec) hasPlainRecv(m map[*ssa.BasicBlock]bool) bool {
	for b := range m {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW && !u.CommaOk {
				return true
			}
		}
	}
	return false
}

// anyOf is a new name for the current content of a cell of which only a class
// is to be remembered.
func (x *Exec) anyOf(st *State, class string, addr *Term, typ types.Type) *Term {
	site := x.tt.site(fmt.Sprintf("cls:%s:%d", class, addr.ID))
	x.renameSite(st, site)
	return x.tt.mk("phi", "cls:"+class, site, typ)
}

// ofClass: the term is such a name.
func (t *Term) ofClass(class string) bool {
	for t.Op == "old" || t.Op == "conv" {
		t = t.Args[0]
	}
	return t.Op == "phi" && t.Key == "cls:"+class
}

// cancelled notes that a context is known to be cancelled, so that its error
// is known to be non-nil from here on.
func (x *Exec) cancelled(st *State, ch *Term, in ssa.Instruction) {
	if x.readsCtxErr && isCtxDone(ch) {
		st.AddMark("ctxdone", x.pos(in), ch)
	}
}
