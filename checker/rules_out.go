package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C24"] = checkC24
}

// advisoryFlags are the options that name files which are reports about a run
// and no part of its output. (The epoch file, the other exception below, is
// governed by C06: it may stay behind as long as the cache has not advanced.)
var advisoryFlags = map[string]bool{"auditpath": true}

// flagGlobals finds the global variables that hold the given command-line
// options.
func flagGlobals(p *Program, names map[string]bool) map[string]bool {
	r := map[string]bool{}
	for f := range p.allInits() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				c, ok := st.Val.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || len(c.Call.Args) == 0 {
					continue
				}
				if fname(c.Call.StaticCallee()) != "flag.String" {
					continue
				}
				if k, ok := c.Call.Args[0].(*ssa.Const); ok && names[strings.Trim(k.Value.ExactString(), `"`)] {
					r[shortName(g.String())] = true
				}
			}
		}
	}
	return r
}

func (p *Program) allInits() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Pkg != nil {
			if i := f.Pkg.Func("init"); i != nil {
				r[i] = true
			}
		}
	}
	return r
}

func isOneShotWrite(n string) bool {
	switch n {
	case "os.WriteFile", "io/ioutil.WriteFile", renameioPkg + ".WriteFile":
		return true
	}
	return false
}

func createsFile(g *graph, f *ssa.Function) bool {
	for n := range g.leaf[f] {
		if isCreate(n) || isOneShotWrite(n) {
			return true
		}
	}
	return false
}

// returnsWriter: one of the results can be written to, so that what happens to
// it is up to the caller.
func returnsWriter(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		for _, t := range []types.Type{rs.At(i).Type(), types.NewPointer(rs.At(i).Type())} {
			o, _, _ := types.LookupFieldOrMethod(t, true, nil, "Write")
			if _, ok := o.(*types.Func); ok {
				return true
			}
			o, _, _ = types.LookupFieldOrMethod(t, true, nil, "Encode")
			if _, ok := o.(*types.Func); ok {
				return true
			}
		}
	}
	return false
}

func writable(t types.Type, depth int) bool {
	for _, t := range []types.Type{t, types.NewPointer(t)} {
		for _, n := range []string{"Write", "Encode", "Flush"} {
			o, _, _ := types.LookupFieldOrMethod(t, true, nil, n)
			if _, ok := o.(*types.Func); ok {
				return true
			}
		}
	}
	if depth == 0 {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if writable(s.Field(i).Type(), depth-1) {
				return true
			}
		}
	}
	f, ok := t.Underlying().(*types.Pointer)
	return ok && writable(f.Elem(), depth-1)
}

// takesWriter: something that can be written to is passed in.
func takesWriter(f *ssa.Function) bool {
	for _, q := range f.Params {
		if isNamed(q.Type(), "context.CancelFunc") || writable(q.Type(), 2) {
			return true
		}
	}
	for _, q := range f.FreeVars {
		t := q.Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if isNamed(t, "context.CancelFunc") || writable(t, 2) {
			return true
		}
	}
	return false
}

func onlyString(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() == 1 && isStringType(rs.At(0).Type()) && len(f.Blocks) <= 4
}

// outputFns are the functions whose success means that an output file was
// written: those that create one, and those that call such a function.
func outputFns(p *Program) map[*ssa.Function]bool {
	g := p.Graph()
	out := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if !out[f] && !strings.HasPrefix(pkgPathOf(f), "downloader") {
			out[f] = true
			work = append(work, f)
		}
	}
	for _, f := range p.Funcs {
		if f.Synthetic == "" || f.Parent() != nil {
			if createsFile(g, f) {
				add(f)
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range g.Callers(f) {
			add(c)
		}
		if f.Parent() != nil {
			add(f.Parent())
		}
	}
	return out
}

func goStarted(p *Program) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, s := range goSites(p, func(*ssa.Function) bool { return true }) {
		if s.fn != nil {
			r[s.fn] = true
		}
	}
	return r
}

func isSerialList(t *Term) bool {
	if t == nil || t.Typ == nil {
		return false
	}
	s, ok := t.Typ.Underlying().(*types.Slice)
	return ok && (isNamed(s.Elem(), "types.Serial") || isNamed(s.Elem(), "types.SerialAndReason"))
}

func checkC24(p *Program, tier string) *Result {
	r := NewResult("C24", "a function that creates an output file, or calls one that does, returns success (or ends without having cancelled the program, handed the error on, or ended the program with a failure status) only if every write, encode and flush of that file, and every such call, is known to have succeeded and no data is left in a buffer; every serial of a list that is written line by line is written")
	g := p.Graph()
	out := outputFns(p)
	gone := goStarted(p)
	advisory := flagGlobals(p, advisoryFlags)
	reports := map[string]bool{} // called by name: success means that the output is complete
	byName := map[string]*ssa.Function{}
	for _, f := range p.Funcs {
		byName[fname(f)] = f
	}
	var roots []*ssa.Function
	for _, f := range sortedFns(out) {
		if f.Synthetic != "" && f.Parent() == nil {
			continue
		}
		if !returnsWriter(f) && lastIsError(f) {
			reports[fname(f)] = true
			roots = append(roots, f)
			continue
		}
		if gone[f] || len(g.Callers(f)) == 0 && !returnsWriter(f) {
			roots = append(roots, f)
		}
	}
	relevant := map[string]bool{}
	for _, f := range p.Funcs {
		if strings.HasPrefix(pkgPathOf(f), "downloader") || strings.HasPrefix(pkgPathOf(f), "engine") {
			continue
		}
		if out[f] || returnsWriter(f) || takesWriter(f) || g.has(f, "context.WithCancel") || onlyString(f) || takesError(f) || f.Parent() != nil {
			relevant[fname(f)] = true
		}
	}
	for _, root := range roots {
		outRoot(p, r, root, relevant, reports, byName, advisory, gone)
	}
	r.Counts["functions whose success means complete output"] = len(reports)
	r.NeedAtLeast(4, "functions whose success means complete output")
	r.NeedAtLeast(4, "output files created")
	return r
}

func outRoot(p *Program, r *Result, root *ssa.Function, relevant, reports map[string]bool, byName map[string]*ssa.Function, advisory map[string]bool, gone map[*ssa.Function]bool) {
	fl := &files{wide: true}
	wloops := map[string]bool{}
	var late []func()
	rule := &Rule{PureFn: pureTypes, NoContrib: true, NoChanVals: true, WidenAt: 3}
	rule.GoMode = func(*CallInfo) int { return GoSkip }
	rule.OpaqueFn = func(n string) bool {
		if n == fname(root) {
			return false
		}
		return reports[n] || !relevant[n]
	}
	rule.OnBlock = func(x *Exec, st *State, _ *ssa.BasicBlock) { pruneChk(x, st) }
	endIter := func(x *Exec, st *State, lk *Term, in ssa.Instruction) {
		for _, m := range st.Marks("witer") {
			if m.T[1] == lk {
				coll := m.T[0]
				st.DelMarks("witer", func(o Mark) bool { return o.T[1] == lk })
				st.AddMark("skipped", x.pos(in), coll, lk)
			}
		}
	}
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		if !isSerialList(coll) {
			return
		}
		lk := loopKey(x, in)
		endIter(x, st, lk, in)
		if more {
			st.AddMark("witer", x.pos(in), coll, lk)
			st.AddMark("began", x.pos(in), coll, lk)
		} else {
			st.DelMarks("began", func(o Mark) bool { return o.T[1] == lk })
		}
	}
	wrote := func(x *Exec, st *State, args []*Term) {
		for _, m := range st.Marks("witer") {
			for _, a := range args {
				if a != nil && a.HasSub(func(u *Term) bool {
					return u.Op == "indexaddr" && u.Args[0] == m.T[0] || u.Op == "next" && u.Args[0] == m.T[0]
				}) {
					wloops[m.T[1].Key] = true
					mm := m
					st.DelMarks("witer", func(o Mark) bool { return o.key() == mm.key() })
					break
				}
			}
		}
	}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		if isWriter(ci.Name) && len(ci.Args) > 1 && fileIn(st, ci.Arg(0)) != nil {
			wrote(x, st, ci.Args[1:])
		}
		if ci.Instr != nil {
			if _, ok := ci.Instr.(*ssa.Go); ok {
				return
			}
		}
		if isCancel(ci) {
			st.AddMark("stopped", ci.Pos)
		}
	}
	rule.OnRecv = func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, inSel bool) {
		if isCtxDone(ch) {
			st.AddMark("ctxdone", x.pos(in), ch)
			st.AddMark("stopped", x.pos(in))
		}
	}
	again := func(st *State, pos string, grp *Term) {
		st.DelMarks("chk", func(m Mark) bool { return m.Pos == pos && m.T[0] == grp })
		st.DelMarks("bad", func(m Mark) bool { return m.Pos == pos && m.T[0] == grp })
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		ctxErr(x, st, ci, res)
		if ci.Inl {
			return
		}
		if reports[ci.Name] || isOneShotWrite(ci.Name) {
			r.Counts["calls that produce output"]++
			if isOneShotWrite(ci.Name) {
				r.Counts["output files created"]++
			}
			grp := x.tt.mk("const", "callee:"+ci.Name, 0, nil)
			again(st, ci.Pos, grp)
			e := x.ErrOf(ci, res)
			if e == nil {
				r.Check(false, st, "ignored-result", ci.Pos, "the error of %s is dropped", shortCallee(ci.Name))
				return
			}
			addChk(x, st, grp, e, ci.Pos, "call of "+shortCallee(ci.Name))
			return
		}
		if isCreate(ci.Name) {
			// the same file anew: what went wrong with it before does not matter
			t := x.ResultOf(ci, res, 0)
			path := ci.Arg(0)
			if ci.Name == renameioPkg+".TempFile" {
				path = ci.Arg(1)
			}
			if path != nil && path.HasSub(func(u *Term) bool {
				return u.Op == "global" && advisory[u.Key] || u.Op == "const" && strings.Trim(u.Key, "\"") == "epoch"
			}) {
				return
			}
			for _, k := range []string{"chk", "bad", "dirty", "file"} {
				st.DelMarks(k, func(m Mark) bool { return m.T[0] == t || k == "dirty" && m.T[1] == t })
			}
			fl.onRet(x, st, ci, res)
			if fileIn(st, t) != nil {
				r.Counts["output files created"]++
				grp := x.tt.mk("const", "create", 0, nil)
				again(st, ci.Pos, grp)
				addChk(x, st, grp, x.ErrOf(ci, res), ci.Pos, "opening of the file")
			}
			return
		}
		if isReplace(ci.Name) {
			if f := fileIn(st, ci.Arg(0)); f != nil {
				addChk(x, st, f, x.ErrOf(ci, res), ci.Pos, "replacement of the file")
			}
		}
		fl.onRet(x, st, ci, res)
	}
	// the error is handed to another goroutine
	handed := func(x *Exec, st *State, v *Term) {
		if v == nil {
			return
		}
		drop := func(m Mark) bool {
			e := m.T[1]
			return v == e || v.Contains(e)
		}
		st.DelMarks("chk", drop)
	}
	rule.OnSend = func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, inSel bool) { handed(x, st, val) }
	rule.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
		if gone[root] && !addr.HasSub(func(u *Term) bool { return u.Op == "alloc" }) {
			handed(x, st, val)
		}
	}
	judge := func(x *Exec, st *State, where string, pos string) {
		pruneChk(x, st)
		for _, lk := range st.Marks("witer") { // left in the middle of an iteration
			st.AddMark("skipped", lk.Pos, lk.T...)
		}
		r.Counts["ends judged"]++
		var why []string
		for _, k := range []string{"chk", "bad"} {
			for _, m := range st.Marks(k) {
				why = append(why, "the error of the "+whatOf(m)+" at "+m.Pos+" is not known to be nil")
			}
		}
		for _, m := range st.Marks("dirty") {
			why = append(why, "buffered data written at "+m.Pos+" has not been flushed")
		}
		sort.Strings(why)
		if len(why) > 0 {
			r.Check(false, st, "incomplete-output", pos, "%s %s although %s", fname(root), where, why[0])
		} else {
			r.Check(true, st, "incomplete-output", pos, "")
		}
		seen := map[string]bool{}
		for _, k := range []string{"skipped", "began"} {
			for _, m := range st.Marks(k) {
				key, mp, tr := m.T[1].Key, m.Pos, st.Trace()
				if seen[key] {
					continue
				}
				seen[key] = true
				late = append(late, func() {
					if wloops[key] {
						r.Oblige("serial-not-written at "+mp, false)
						r.Viol["serial-not-written@"+mp] = &Violation{Prop: r.Prop, Key: "serial-not-written", Pos: mp, Msg: fmt.Sprintf("%s %s although a serial of the list may not have been written", fname(root), where), Trace: tr}
					}
				})
			}
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		pos := p.PosStr(root.Pos())
		if !lastIsError(root) {
			if len(st.Marks("stopped")) > 0 {
				return
			}
			judge(x, st, "ends", pos)
			return
		}
		if !mayMeanSuccess(x, st, res) {
			return
		}
		e := res[len(res)-1]
		s2 := st.clone()
		if !x.KnownNil(s2, e) {
			x.Assume(s2, x.isNilTerm(e), true)
			if e.Op == "call" && e.Key == "errors.Join" {
				s2.DelMarks("chk", func(m Mark) bool { return reachTerms(x, s2, e)[m.T[1]] })
			}
		}
		judge(x, s2, "returns success", pos)
	}
	rule.OnAbort = func(x *Exec, st *State, ci *CallInfo) {
		if exitZero(ci) {
			judge(x, st, "ends the program with status 0", ci.Pos)
		}
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(root)
	r.Absorb(x)
	for _, f := range late {
		f()
	}
	for range wloops {
		r.Counts["loops that write serials"]++
	}
}

// isCancel: a call of a context's cancel function.
func isCancel(ci *CallInfo) bool {
	if ci.Instr == nil {
		return false
	}
	c, ok := ci.Instr.(ssa.CallInstruction)
	if !ok || c.Common().IsInvoke() {
		return false
	}
	t := c.Common().Value.Type()
	return isNamed(t, "context.CancelFunc") || isNamed(t, "context.CancelCauseFunc")
}
