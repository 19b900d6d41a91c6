package main

import (
	"crypto/sha256"
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Ctx struct {
	id     int
	parent *Ctx
	call   ssa.Instruction
	fn     *ssa.Function
	depth  int
	goes   bool // inside a goroutine body
}

type deferred struct {
	ci  *CallInfo
	pos ssa.Instruction
}

type hofState struct {
	call     *CallInfo
	closures []*Term
	results  []*Term // results of closure invocations
	instr    ssa.Instruction
	once     bool
	started  bool
	stop     bool
	rangefn  bool
	n        int
	heap     map[*Term]*Term // cells before the previous invocation
}

type Frame struct {
	fn     *ssa.Function
	ctx    *Ctx
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]*Term
	defers []deferred
	kind   byte // 'c' call, 'd' deferred call, 'g' goroutine, 'h' closure of a higher-order call
	hof    *hofState
	ci     *CallInfo
	snaps  map[int]*snap
}

type snap struct {
	n    int
	env  map[ssa.Value]*Term
	heap map[*Term]*Term
}

type Mark struct {
	Kind string
	T    []*Term
	Pos  string
}

func (m Mark) key() string {
	var sb strings.Builder
	sb.WriteString(m.Kind)
	for _, t := range m.T {
		if t == nil {
			sb.WriteString(":-")
		} else {
			fmt.Fprintf(&sb, ":%d", t.ID)
		}
	}
	return sb.String()
}

type chanState struct {
	vals   []*Term
	must   bool // at least one value has been sent and not been received yet
	closed bool
	pend   []*Term // error channels: values that have not been received yet
}

type contribItem struct {
	spread bool
	t      *Term
}

type traceNode struct {
	up   *traceNode
	text string
}

type State struct {
	frames  []*Frame
	heap    map[*Term]*Term
	havoc   map[*Term]*Term // base address -> out term
	facts   map[*Term]bool
	chans   map[*Term]*chanState
	contrib map[*Term][]contribItem
	marks   map[string]Mark
	trace   *traceNode
	tn      int
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{
		frames:  make([]*Frame, len(st.frames)),
		heap:    make(map[*Term]*Term, len(st.heap)),
		havoc:   make(map[*Term]*Term, len(st.havoc)),
		facts:   make(map[*Term]bool, len(st.facts)),
		chans:   make(map[*Term]*chanState, len(st.chans)),
		contrib: make(map[*Term][]contribItem, len(st.contrib)),
		marks:   make(map[string]Mark, len(st.marks)),
		trace:   st.trace, tn: st.tn,
	}
	for i, f := range st.frames {
		n.frames[i] = f.clone()
	}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.havoc {
		n.havoc[k] = v
	}
	for k, v := range st.facts {
		n.facts[k] = v
	}
	for k, v := range st.chans {
		c := *v
		c.vals = append([]*Term(nil), v.vals...)
		c.pend = append([]*Term(nil), v.pend...)
		n.chans[k] = &c
	}
	for k, v := range st.contrib {
		n.contrib[k] = v
	}
	for k, v := range st.marks {
		n.marks[k] = v
	}
	return n
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	if f.hof != nil {
		h := *f.hof
		h.results = append([]*Term(nil), h.results...)
		n.hof = &h
	}
	if f.snaps != nil {
		n.snaps = make(map[int]*snap, len(f.snaps))
		for k, v := range f.snaps {
			n.snaps[k] = v
		}
	}
	return &n
}

func (st *State) note(format string, a ...any) {
	st.tn++
	st.trace = &traceNode{st.trace, fmt.Sprintf(format, a...)}
}

func (st *State) Trace() []string {
	var r []string
	for n := st.trace; n != nil; n = n.up {
		if len(r) == 200 {
			r = append(r, fmt.Sprintf("... (%d earlier steps)", st.tn-200))
			break
		}
		r = append(r, n.text)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---- marks (typestate) ----------------------------------------------------

func (st *State) AddMark(kind, pos string, ts ...*Term) {
	m := Mark{Kind: kind, T: ts, Pos: pos}
	k := m.key()
	if _, ok := st.marks[k]; !ok {
		st.marks[k] = m
	}
}
func (st *State) HasMark(kind string) bool {
	for _, m := range st.marks {
		if m.Kind == kind {
			return true
		}
	}
	return false
}
func (st *State) Marks(kind string) []Mark {
	var r []Mark
	for _, m := range st.marks {
		if m.Kind == kind {
			r = append(r, m)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].key() < r[j].key() })
	return r
}
func (st *State) DelMarks(kind string, p func(Mark) bool) {
	for k, m := range st.marks {
		if m.Kind == kind && (p == nil || p(m)) {
			delete(st.marks, k)
		}
	}
}

// ---- canonical key ----------------------------------------------------------

func (st *State) key(x *Exec) string {
	var lines []string
	for i, f := range st.frames {
		var sb strings.Builder
		fmt.Fprintf(&sb, "F%d:%d:%d:%d:%c", i, f.ctx.id, f.block.Index, f.idx, f.kind)
		if f.hof != nil {
			fmt.Fprintf(&sb, ":H%v%v", f.hof.started, f.hof.stop)
			for _, r := range f.hof.results {
				fmt.Fprintf(&sb, ",%d", r.ID)
			}
		}
		for _, d := range f.defers {
			fmt.Fprintf(&sb, ":D%s", d.ci.key())
		}
		var es []string
		for v, t := range f.env {
			es = append(es, fmt.Sprintf("%d=%d", x.valNum(v), t.ID))
		}
		sort.Strings(es)
		sb.WriteString(strings.Join(es, " "))
		var ss []string
		for b, s := range f.snaps {
			n := s.n
			if n > 3 {
				n = 3
			}
			ss = append(ss, fmt.Sprintf("S%d:%d", b, n))
		}
		sort.Strings(ss)
		// snapshots only matter for widening; their count is not part of the key
		lines = append(lines, sb.String())
	}
	n0 := len(lines)
	for a, v := range st.heap {
		lines = append(lines, fmt.Sprintf("h%d=%d", a.ID, v.ID))
	}
	for a, v := range st.havoc {
		lines = append(lines, fmt.Sprintf("v%d=%d", a.ID, v.ID))
	}
	for a, v := range st.facts {
		lines = append(lines, fmt.Sprintf("f%d=%v", a.ID, v))
	}
	for a, c := range st.chans {
		s := fmt.Sprintf("c%d=%v%v", a.ID, c.must, c.closed)
		for _, v := range c.vals {
			s += fmt.Sprintf(",%d", v.ID)
		}
		for _, v := range c.pend {
			s += fmt.Sprintf(";%d", v.ID)
		}
		lines = append(lines, s)
	}
	for a, c := range st.contrib {
		s := fmt.Sprintf("a%d=", a.ID)
		for _, v := range c {
			s += fmt.Sprintf(",%v%d", v.spread, v.t.ID)
		}
		lines = append(lines, s)
	}
	for k := range st.marks {
		lines = append(lines, "m"+k)
	}
	sort.Strings(lines[n0:])
	h := sha256.Sum256([]byte(strings.Join(lines, "\n")))
	return string(h[:16])
}
