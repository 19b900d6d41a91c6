package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C25"] = checkC25
}

const (
	knownPkg   = "cmd/aggregate-known"
	fnListing  = "(*storage.CertDatabase).GetIssuerAndDatesFromStorage"
	fnCtLogs   = "(*storage.CertDatabase).GetCTLogsFromStorage"
	fnReadBin  = "(*storage.CertDatabase).ReadSerialsFromStorage"
	fnListChan = "(*storage.CertDatabase).GetIssuerAndDatesFromChannel"
	fnInProg   = "(*rootprogram.MozIssuers).IsIssuerInProgram"
	fnInsert   = "(*rootprogram.MozIssuers).InsertIssuer"
)

// relay follows the elements of a list, possibly through lists that are
// collected from it, to the operation that they are meant for.
type relay struct {
	name    string
	r       *Result
	source  func(x *Exec, st *State, coll *Term) bool
	excused func(x *Exec, st *State, coll *Term) bool
	opened  func(x *Exec, st *State, coll *Term, lk *Term)
	msg     string
	carries map[string]bool // loops that hand elements on
	sinks   map[string]bool // loops that hand them to the operation itself
	late    []func()
}

func (l *relay) relevant(x *Exec, st *State, coll *Term) bool {
	if l.source(x, st, coll) {
		return true
	}
	its := flatContrib(st, coll)
	if len(its) == 0 {
		return false
	}
	for _, it := range its {
		ok := false
		for _, m := range st.Marks("rlist:" + l.name) {
			ok = ok || elemIn(it.t, m.T[0])
		}
		if !ok {
			return false
		}
	}
	return true
}

func (l *relay) onIter(x *Exec, st *State, coll *Term, more bool, in ssa.Instruction) {
	if coll == nil {
		return
	}
	if !l.relevant(x, st, coll) {
		return
	}
	lk := loopKey(x, in)
	for _, m := range st.Marks("ropen:" + l.name) {
		if m.T[1] == lk {
			if !l.excused(x, st, m.T[0]) {
				l.judge(st, lk.Key, "skipped:"+l.name, m.Pos, l.msg)
			}
		}
	}
	st.DelMarks("ropen:"+l.name, func(m Mark) bool { return m.T[1] == lk })
	st.AddMark("rlist:"+l.name, "", coll)
	if more {
		st.AddMark("ropen:"+l.name, x.pos(in), coll, lk)
		if l.opened != nil {
			l.opened(x, st, coll, lk)
		}
	} else {
		src := x.tt.boolT(l.source(x, st, coll))
		st.AddMark("rdone:"+l.name, x.pos(in), lk, src)
	}
}

// judge reports an element that was left out, if its loop hands any on.
func (l *relay) judge(st *State, lk, key, pos, msg string) {
	tr := st.Trace()
	l.late = append(l.late, func() {
		if l.carries[lk] {
			l.r.Oblige(key+" at "+pos, false)
			l.r.Viol[key+"@"+pos] = &Violation{Prop: l.r.Prop, Key: key, Pos: pos, Msg: msg, Trace: tr}
		}
	})
}

// carried: v was handed on; it returns the lists whose current element it is.
func (l *relay) carried(st *State, v *Term, sink bool) []*Term {
	var r []*Term
	for _, m := range st.Marks("ropen:" + l.name) {
		if !curElem(v, m.T[0]) {
			continue
		}
		r = append(r, m.T[0])
		l.carries[m.T[1].Key] = true
		if sink {
			l.sinks[m.T[1].Key] = true
		} else {
			st.AddMark("rsome:"+l.name, "")
		}
		mm := m
		st.DelMarks("ropen:"+l.name, func(o Mark) bool { return o.key() == mm.key() })
	}
	return r
}

// complete demands that on this path every element of the source was
// considered and that the loop that hands them to the operation ended.
func (l *relay) complete(st *State, key, pos, msg string) {
	tr := st.Trace()
	src, some := false, st.HasMark("rsome:"+l.name)
	var lks, srcs []string
	for _, m := range st.Marks("rdone:" + l.name) {
		lks = append(lks, m.T[0].Key)
		if m.T[1].Op == "true" {
			src = true
			srcs = append(srcs, m.T[0].Key)
		}
	}
	l.late = append(l.late, func() {
		ok := false
		for _, k := range srcs {
			// nothing was collected, so there is nothing to hand on
			ok = ok || l.carries[k] && !l.sinks[k] && !some
		}
		for _, k := range lks {
			ok = ok || l.sinks[k]
		}
		l.r.Oblige(key, ok && src)
		if !ok || !src {
			l.r.Viol[key+"@"+pos] = &Violation{Prop: l.r.Prop, Key: key, Pos: pos, Msg: msg, Trace: tr}
		}
	})
}

func (l *relay) finish() {
	for _, f := range l.late {
		f()
	}
}

// partOf is the value of the field of v (or of what it points to) with the
// given type.
func partsOf(x *Exec, st *State, v *Term, is func(types.Type) bool) []*Term {
	v = strip(v)
	if v == nil || v.Typ == nil {
		return nil
	}
	t := v.Typ
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
		v = x.load(st, v, t)
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []*Term
	for i := 0; i < s.NumFields(); i++ {
		if is(s.Field(i).Type()) {
			r = append(r, whole(x.tt.field(v, fieldKey(t, i), s.Field(i).Type())))
		}
	}
	return r
}

// pointed is the value t points to, or t itself.
func pointed(x *Exec, st *State, t *Term) *Term {
	t = strip(t)
	if t != nil && (t.Op == "fieldaddr" || t.Op == "indexaddr" || t.Op == "alloc") {
		if typ := pointee(t); typ != nil {
			return whole(x.load(st, t, typ))
		}
	}
	return whole(t)
}

func isIssuerType(t types.Type) bool { return isNamed(t, "types.Issuer") }
func isDatesType(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), "types.ExpDate")
}

// unitType: a struct, or a pointer to one, with an issuer and expiry dates.
func unitType(t types.Type) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	iss, dates := false, false
	for i := 0; i < s.NumFields(); i++ {
		iss = iss || isIssuerType(s.Field(i).Type())
		dates = dates || isDatesType(s.Field(i).Type())
	}
	return iss && dates
}

func unitChan(t types.Type) bool {
	if t == nil {
		return false
	}
	c, ok := t.Underlying().(*types.Chan)
	return ok && unitType(c.Elem())
}

// touchesUnits: the function sends or receives work units.
func touchesUnits(f *ssa.Function) (send, recv bool) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Send:
				send = send || unitChan(v.Chan.Type())
			case *ssa.UnOp:
				recv = recv || v.Op.String() == "<-" && unitChan(v.X.Type())
			case *ssa.Select:
				for _, s := range v.States {
					if unitChan(s.Chan.Type()) {
						if s.Send != nil {
							send = true
						} else {
							recv = true
						}
					}
				}
			}
		}
	}
	return
}

func checkC25(p *Program, tier string) *Result {
	r := NewResult("C25", "in aggregate-known, storage is read, and workers are started, only after the commit is known to have succeeded and while the commit lock is held; the coverage copy holds what GetCTLogsFromStorage returned; every listed issuer that is enrolled, and no other, is handed to the workers with its own dates; each date of a unit is written with the serials that ReadSerialsFromStorage returned for it and its issuer, to the issuer's file, unless it is known to have expired; whatever a worker leaves undone cancels the context, and then the program does not end with status 0; the listing of storage reports every issuer directory and bin file, and only listed issuers count as enrolled")
	knownProgram(p, r)
	listingRule(p, r)
	groupingRule(p, r)
	enrolledRule(p, r)
	r.NeedAtLeast(1, "zero exits judged")
	r.NeedAtLeast(2, "storage reads before the workers")
	r.NeedAtLeast(1, "units handed to workers")
	r.NeedAtLeast(1, "bins read")
	r.NeedAtLeast(1, "bins written")
	expiryDates(p, r)
	return r
}

func knownProgram(p *Program, r *Result) {
	g := p.Graph()
	root := mainOf(p, knownPkg)
	if root == nil {
		r.Bad("missing: main", knownPkg, "no main function in %s", knownPkg)
		return
	}
	inPkg := func(f *ssa.Function) bool { return pkgPathOf(f) == knownPkg }
	byName := map[string]*ssa.Function{}
	for _, f := range p.Funcs {
		byName[fname(f)] = f
	}
	knownFlag := flagGlobals(p, map[string]bool{"knownpath": true})
	logsFlag := flagGlobals(p, map[string]bool{"ctlogspath": true})
	isWorker := func(f *ssa.Function) bool { return f != nil && g.Reach(f)[p.Fn(fnReadBin)] }
	isProducer := func(f *ssa.Function) bool {
		if f == nil {
			return false
		}
		for h := range g.Reach(f) {
			if inPkg(h) {
				if s, _ := touchesUnits(h); s {
					return true
				}
			}
		}
		s, _ := touchesUnits(f)
		return s
	}
	fl := &files{}
	fl.keep = func(x *Exec, st *State, t *Term) bool {
		return callTerm(strip(t), fnCtLogs) || t.Op == "ext" && callTerm(t.Args[0], fnCtLogs)
	}
	issuers := &relay{name: "issuers", r: r, carries: map[string]bool{}, sinks: map[string]bool{},
		msg: "an issuer of storage that may be enrolled is left out of the known lists"}
	issuers.source = func(x *Exec, st *State, coll *Term) bool {
		return coll.Op == "ext" && coll.Key == "0" && callTerm(coll.Args[0], fnListing) || coll.Op == "old" && coll.Args[0].Op == "ext" && callTerm(coll.Args[0].Args[0], fnListing)
	}
	enrolled := func(x *Exec, st *State, coll *Term) (yes, no bool) {
		for _, m := range st.Marks("inprog") {
			if curElem(m.T[0], coll) {
				if v, k := x.Truth(st, m.T[1]); k {
					yes, no = yes || v, no || !v
				}
			}
		}
		return
	}
	issuers.excused = func(x *Exec, st *State, coll *Term) bool {
		_, no := enrolled(x, st, coll)
		return no
	}
	issuers.opened = func(x *Exec, st *State, coll, lk *Term) {
		st.DelMarks("inprog", func(m Mark) bool { return elemIn(m.T[0], coll) })
	}
	dates := &relay{name: "dates", r: r, carries: map[string]bool{}, sinks: map[string]bool{},
		msg: "the serials of an expiry date that is not known to have passed are left out of the known list"}
	stopped := func(st *State) bool { return st.HasMark("cancelled") || st.HasMark("ctxstop") }
	unit := func(st *State) *Term {
		for _, m := range st.Marks("unit") {
			return m.T[0]
		}
		return nil
	}
	dates.source = func(x *Exec, st *State, coll *Term) bool {
		u := unit(st)
		if u == nil || coll.Typ == nil || !isDatesType(coll.Typ) {
			return false
		}
		for _, d := range partsOf(x, st, u, isDatesType) {
			if d == coll {
				return true
			}
		}
		return false
	}
	dates.excused = func(x *Exec, st *State, coll *Term) bool {
		if stopped(st) {
			return true
		}
		for _, m := range st.Marks("expired") {
			if curElem(m.T[0], coll) {
				return true
			}
		}
		return false
	}
	dates.opened = func(x *Exec, st *State, coll, lk *Term) {
		st.DelMarks("expired", nil)
		st.DelMarks("read", nil)
		st.DelMarks("wrote", nil)
	}
	sentTo := map[string]bool{}
	var recvFrom []func()

	rule := &Rule{PureFn: pureTypes, NoChanVals: true, WidenAt: 3}
	inGo := func(st *State) bool {
		for _, f := range st.frames {
			if f.kind == 'g' {
				return true
			}
		}
		return false
	}
	rule.GoMode = func(ci *CallInfo) int {
		if gi, ok := ci.Instr.(*ssa.Go); ok {
			if b := goBody(gi); b != nil && (isWorker(b) || isProducer(b)) {
				return GoInline
			}
		}
		return GoSkip
	}
	rule.OpaqueFn = func(n string) bool {
		f := byName[n]
		if f == nil {
			return true
		}
		return !inPkg(f) && !(f.Parent() != nil && inPkg(f.Parent()))
	}
	settle := func(x *Exec, st *State) {
		for _, m := range st.Marks("commit") {
			if x.KnownNil(st, m.T[0]) {
				st.AddMark("committed", m.Pos)
			}
		}
		for _, m := range st.Marks("ctxerr") {
			if x.KnownNonNil(st, m.T[1]) {
				st.AddMark("ctxbad", m.Pos, m.T[0])
				if inGo(st) {
					st.AddMark("ctxstop", m.Pos, m.T[0])
				}
			}
		}
		st.DelMarks("ctxerr", func(m Mark) bool { return x.KnownNil(st, m.T[1]) || x.KnownNonNil(st, m.T[1]) })
		for _, m := range st.Marks("ctlogs") {
			if x.KnownNil(st, m.T[0]) {
				st.AddMark("logsread", m.Pos)
			}
		}
		// writes whose success is known
		for _, m := range st.Marks("wrote") {
			if x.KnownNil(st, m.T[1]) {
				dates.carried(st, m.T[0], true)
				mm := m
				st.DelMarks("wrote", func(o Mark) bool { return o.key() == mm.key() })
			}
		}
	}
	rule.OnBlock = func(x *Exec, st *State, _ *ssa.BasicBlock) { settle(x, st); pruneChk(x, st) }
	rule.OnLoad = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
		if addr.Op == "deref" && len(addr.Args) == 1 && addr.Args[0].Op == "fieldaddr" && strings.HasSuffix(addr.Args[0].Key, ":NumThreads") {
			x.Assume(st, x.compare(token.GEQ, val, x.tt.intc(1), types.Typ[types.Int]), true)
		}
	}
	rule.OnBranch = func(x *Exec, st *State, in *ssa.If, cond *Term, taken bool) {
		for f, v := range st.facts {
			if v && f.Op == "pure" && strings.HasSuffix(f.Key, "ExpDate).IsExpiredAt") && len(f.Args) == 2 {
				t := strip(f.Args[1])
				for t.Op == "old" || t.Op == "pure" && strings.HasSuffix(t.Key, "Time).UTC") {
					t = strip(t.Args[0])
				}
				if callTerm(t, "time.Now") {
					st.AddMark("expired", x.pos(in), f.Args[0])
				}
			}
		}
	}
	// the end of a unit of work
	endUnit := func(x *Exec, st *State, pos string) {
		settle(x, st)
		u := unit(st)
		if u == nil {
			return
		}
		if !stopped(st) {
			dates.complete(st, "unit-unfinished", pos, "a worker leaves a unit before all its dates are done and without cancelling the program")
		}
		st.DelMarks("unit", nil)
		for _, k := range []string{"rdone:dates", "ropen:dates", "rlist:dates", "rsome:dates", "expired", "read", "wrote"} {
			st.DelMarks(k, nil)
		}
		for _, k := range []string{"file", "dirty", "chk", "bad"} {
			st.DelMarks(k, func(m Mark) bool {
				for _, t := range m.T {
					if t.Contains(u) {
						return true
					}
				}
				return false
			})
		}
	}
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		settle(x, st)
		if coll != nil && unitChan(coll.Typ) {
			return // OnRecv
		}
		issuers.onIter(x, st, coll, more, in)
		dates.onIter(x, st, coll, more, in)
	}
	rule.OnRecv = func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, inSel bool) {
		if isCtxDone(ch) {
			st.AddMark("ctxdone", x.pos(in), ch)
			if inGo(st) {
				st.AddMark("ctxstop", x.pos(in), ch)
			}
			return
		}
		if val == nil || !unitType(val.Typ) {
			return
		}
		endUnit(x, st, x.pos(in))
		st.AddMark("unit", x.pos(in), val)
		k := ch.String()
		pos := x.pos(in)
		recvFrom = append(recvFrom, func() {
			if len(sentTo) > 0 && !sentTo[k] {
				r.Bad("other-channel", pos, "the worker takes its units from a channel that no unit is sent to")
			}
		})
	}
	rule.OnClosed = func(x *Exec, st *State, ch *Term, in ssa.Instruction) {
		if ch != nil && unitChan(ch.Typ) {
			endUnit(x, st, x.pos(in))
			st.AddMark("drained", x.pos(in))
		}
	}
	hand := func(x *Exec, st *State, v *Term, pos string, sink bool) {
		if v.Typ != nil {
			if pt, ok := v.Typ.Underlying().(*types.Pointer); ok {
				v = x.load(st, strip(v), pt.Elem())
			}
		}
		colls := issuers.carried(st, v, sink)
		for _, c := range colls {
			yes, _ := enrolled(x, st, c)
			if !sink {
				if !yes {
					st.AddMark("unfiltered", pos)
				}
				continue
			}
			r.Counts["units handed to workers"]++
			r.Check(yes || !issuers.source(x, st, c) && !st.HasMark("unfiltered"), st, "not-enrolled", pos, "an issuer that is not known to be enrolled is handed to the workers")
			is, ds := partsOf(x, st, v, isIssuerType), partsOf(x, st, v, isDatesType)
			good := len(is) > 0 && len(ds) > 0
			for _, t := range append(append([]*Term(nil), is...), ds...) {
				good = good && curElem(t, c)
			}
			r.Check(good, st, "unit-mixed", pos, "the issuer and the dates of a unit are not those of one element of the listing")
		}
	}
	rule.OnSend = func(x *Exec, st *State, ch, v *Term, in ssa.Instruction, inSel bool) {
		if !unitChan(ch.Typ) {
			return
		}
		sentTo[ch.String()] = true
		hand(x, st, v, x.pos(in), true)
	}
	rule.OnAppend = func(x *Exec, st *State, res, base *Term, elems []*Term, spread bool, in ssa.Instruction) {
		if spread {
			return
		}
		for _, e := range elems {
			if unitType(e.Typ) {
				hand(x, st, e, x.pos(in), false)
			}
			dates.carried(st, e, false)
		}
	}
	read := func(x *Exec, st *State, ci *CallInfo, what string) {
		settle(x, st)
		r.Check(st.HasMark("committed"), st, "read-before-commit", ci.Pos, "%s although the commit is not known to have succeeded", what)
		r.Check(!st.HasMark("released"), st, "read-after-release", ci.Pos, "%s after the commit lock was released", what)
	}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		if gi, ok := ci.Instr.(*ssa.Go); ok && ci.Name == "go" {
			if b := goBody(gi); b != nil && isWorker(b) {
				read(x, st, ci, "a worker is started")
				st.AddMark("running", ci.Pos)
				st.DelMarks("drained", nil)
			}
			return
		}
		switch {
		case ci.Name == "(*sync.WaitGroup).Wait":
			st.DelMarks("running", nil)
		case strings.HasSuffix(ci.Name, ".ReleaseCommitLock"):
			for _, m := range st.Marks("running") {
				r.Check(false, st, "released-early", ci.Pos, "the commit lock is released while the worker started at %s may still read storage", m.Pos)
			}
			st.AddMark("released", ci.Pos)
		case ci.Name == fnListing || ci.Name == fnCtLogs:
			r.Counts["storage reads before the workers"]++
			read(x, st, ci, "storage is read")
		case ci.Name == fnReadBin:
			r.Counts["bins read"]++
			read(x, st, ci, "a bin is read")
		case isCancel(ci) && ci.Mode != 'd' && inGo(st), isCancel(ci) && inGo(st):
			st.AddMark("cancelled", ci.Pos, ci.FnTerm)
		}
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		ctxErr(x, st, ci, res)
		if ci.Inl && ci.Mode == 'g' {
			if gi, ok := ci.Instr.(*ssa.Go); ok && isWorker(goBody(gi)) {
				endUnit(x, st, ci.Pos)
				if !stopped(st) && !st.HasMark("drained") {
					st.AddMark("lost", ci.Pos)
				}
			}
			return
		}
		if ci.Inl {
			return
		}
		fl.onRet(x, st, ci, res)
		switch {
		case ci.Name == "(context.Context).Err" || ci.Name == "context.Cause":
			for _, m := range st.Marks("cancelled") {
				c := ci.Arg(0)
				if m.T[0].Op == "ext" && c != nil && c.Contains(m.T[0].Args[0]) {
					x.Assume(st, x.isNilTerm(res), false)
				}
			}
			for _, m := range st.Marks("ctxbad") {
				if m.T[0] == ci.Arg(0) {
					x.Assume(st, x.isNilTerm(res), false)
				}
			}
			if !x.KnownNonNil(st, res) {
				st.AddMark("ctxerr", ci.Pos, ci.Arg(0), res)
			}
		case ci.Name == fnCommit:
			st.AddMark("commit", ci.Pos, x.ErrOf(ci, res))
		case ci.Name == fnCtLogs:
			st.AddMark("ctlogs", ci.Pos, x.ErrOf(ci, res))
		case ci.Name == "os.WriteFile":
			path, d := ci.Arg(0), ci.Arg(1)
			if path != nil && d != nil && path.HasSub(func(t *Term) bool { return t.Op == "global" && logsFlag[t.Key] }) && hasCall(d, fnCtLogs) {
				st.AddMark("logsout", ci.Pos)
			}
		case ci.Name == fnInProg:
			st.AddMark("inprog", ci.Pos, whole(ci.Arg(1)), res)
		case strings.HasPrefix(ci.Name, "(*rootprogram.MozIssuers).Get") && strings.HasSuffix(ci.Name, "ForIssuer"):
			if e := x.ErrOf(ci, res); e != nil {
				st.AddMark("inprog", ci.Pos, whole(ci.Arg(1)), x.isNilTerm(e))
			}
		case ci.Name == fnReadBin:
			u := unit(st)
			if !r.Check(u != nil, st, "read-outside", ci.Pos, "a bin is read outside a unit of work") {
				return
			}
			st.AddMark("read", ci.Pos, whole(ci.Arg(1)), whole(ci.Arg(2)), x.ResultOf(ci, res, 0), x.ErrOf(ci, res))
		case ci.Name == fnWriteKnown:
			u := unit(st)
			if u == nil {
				return
			}
			r.Counts["bins written"]++
			exp, iss, set := whole(ci.Arg(1)), whole(ci.Arg(2)), ci.Arg(3)
			owner := false
			for _, i := range partsOf(x, st, u, isIssuerType) {
				owner = owner || i == iss
			}
			r.Check(owner, st, "wrong-issuer", ci.Pos, "the known list of a unit is written for another issuer")
			ok := false
			for _, m := range st.Marks("read") {
				ok = ok || m.T[0] == exp && m.T[1] == iss && m.T[2] == set && x.KnownNil(st, m.T[3])
			}
			r.Check(ok, st, "wrong-serials", ci.Pos, "what is written is not what was read, without error, from storage for this date and issuer")
			f := fileIn(st, ci.Arg(0))
			var path *Term
			if f != nil {
				path = filePath(st, f)
			}
			good := false
			if path != nil {
				b := baseName(path)
				good = path.HasSub(func(t *Term) bool { return t.Op == "global" && knownFlag[t.Key] }) && b.Op == "pure" && strings.HasSuffix(b.Key, "Issuer).ID") && len(b.Args) == 1 && pointed(x, st, b.Args[0]) == iss
			}
			r.Check(good, st, "wrong-file", ci.Pos, "the known list is not written to the issuer's file below -knownpath")
			if e := x.ErrOf(ci, res); e != nil {
				st.AddMark("wrote", ci.Pos, exp, e)
			}
		}
	}
	judge := func(x *Exec, st *State, pos string) {
		settle(x, st)
		r.Counts["zero exits judged"]++
		for _, k := range []string{"cancelled", "ctxstop", "lost"} {
			for _, m := range st.Marks(k) {
				r.Check(false, st, "failure-not-reported", m.Pos, "aggregate-known can end with status 0 although a worker stopped here before its work was done")
			}
		}
		issuers.complete(st, "issuers-unfinished", pos, "aggregate-known can end with status 0 before every issuer of storage was handed to the workers")
		ok := false
		for _, d := range st.Marks("data") {
			path := filePath(st, d.T[0])
			if path != nil && path.HasSub(func(t *Term) bool { return t.Op == "global" && logsFlag[t.Key] }) {
				ok = true
			}
		}
		r.Check((ok || st.HasMark("logsout")) && st.HasMark("logsread"), st, "no-coverage-copy", pos, "aggregate-known can end with status 0 without having written the coverage data of storage to -ctlogspath")
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) { judge(x, st, p.PosStr(root.Pos())) }
	rule.OnAbort = func(x *Exec, st *State, ci *CallInfo) {
		if exitZero(ci) {
			judge(x, st, ci.Pos)
		}
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(root)
	issuers.finish()
	dates.finish()
	for _, f := range recvFrom {
		f()
	}
	r.Absorb(x)
}

// listingRule: every issuer directory and bin file of storage is listed.
func listingRule(p *Program, r *Result) {
	root := p.Fn(fnListing)
	if root == nil {
		r.Bad("missing: "+fnListing, "go/storage", "%s not found", fnListing)
		return
	}
	isList := func(t *Term) bool {
		for t.Op == "old" {
			t = t.Args[0]
		}
		return t.Op == "ext" && t.Key == "0" && callTerm(t.Args[0], "os.ReadDir")
	}
	named := func(t *Term) bool { // below an entry of a directory
		for t.Op == "old" {
			t = t.Args[0]
		}
		return len(t.Args) > 0 && t.Args[0].HasSub(func(u *Term) bool { return strings.HasSuffix(u.Key, "DirEntry).Name") })
	}
	fact := func(st *State, coll *Term, suffix string) (yes, no bool) {
		for _, m := range st.Marks("entry:" + suffix) {
			if curElem(m.T[0], coll) {
				if m.T[1].Op == "true" {
					yes = true
				} else {
					no = true
				}
			}
		}
		return
	}
	dirs := &relay{name: "dirs", r: r, carries: map[string]bool{}, sinks: map[string]bool{}, msg: "an issuer directory of storage is left out of the listing"}
	filesR := &relay{name: "files", r: r, carries: map[string]bool{}, sinks: map[string]bool{}, msg: "a bin file of storage is left out of the listing"}
	dirs.source = func(x *Exec, st *State, t *Term) bool { return isList(t) && !named(t) }
	filesR.source = func(x *Exec, st *State, t *Term) bool { return isList(t) && named(t) }
	clear := func(x *Exec, st *State, coll, lk *Term) {
		for _, k := range []string{"entry:IsDir", "entry:HasPrefix"} {
			st.DelMarks(k, func(m Mark) bool { return elemIn(m.T[0], coll) })
		}
	}
	dirs.opened, filesR.opened = clear, clear
	dirs.excused = func(x *Exec, st *State, coll *Term) bool {
		_, a := fact(st, coll, "IsDir")
		_, b := fact(st, coll, "HasPrefix")
		return a || b
	}
	filesR.excused = func(x *Exec, st *State, coll *Term) bool {
		a, _ := fact(st, coll, "IsDir")
		_, b := fact(st, coll, "HasPrefix")
		return a || b
	}
	rule := &Rule{PureFn: pureTypes, NoChanVals: true}
	rule.OpaqueFn = func(n string) bool { return n == fnListChan }
	rule.OnBranch = func(x *Exec, st *State, in *ssa.If, cond *Term, taken bool) {
		for f, v := range st.facts {
			if f.Op != "pure" && f.Op != "call" || len(f.Args) == 0 {
				continue
			}
			if strings.HasSuffix(f.Key, "DirEntry).IsDir") {
				st.AddMark("entry:IsDir", x.pos(in), f.Args[0], x.tt.boolT(v))
			}
			if strings.HasPrefix(f.Key, "strings.HasPrefix") {
				st.AddMark("entry:HasPrefix", x.pos(in), f.Args[0], x.tt.boolT(v))
			}
		}
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if !ci.Inl && ci.Name == "os.ReadDir" {
			st.AddMark("rderr", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res))
		}
	}
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		if coll == nil || !isList(coll) {
			return
		}
		ok := false
		for _, m := range st.Marks("rderr") {
			ok = ok || m.T[0] == coll && x.KnownNil(st, m.T[1])
		}
		r.Check(ok, st, "listing-error-ignored", x.pos(in), "the entries of a directory are used although listing it may have failed")
		filesR.onIter(x, st, coll, more, in)
		dirs.onIter(x, st, coll, more, in)
		if !more && filesR.source(x, st, coll) {
			// the directory has been listed to its end
			c := coll
			for c.Op == "old" {
				c = c.Args[0]
			}
			dirs.carried(st, c.Args[0], true)
			st.DelMarks("rderr", func(m Mark) bool { return m.T[0] == coll })
		}
	}
	rule.OnSend = func(x *Exec, st *State, ch, v *Term, in ssa.Instruction, inSel bool) {
		for range filesR.carried(st, v, true) {
			r.Counts["names listed"]++
		}
		if inSel {
			st.AddMark("maybe", x.pos(in))
		}
	}
	rule.OnAppend = func(x *Exec, st *State, res, base *Term, elems []*Term, spread bool, in ssa.Instruction) {
		for _, e := range elems {
			for range filesR.carried(st, e, true) {
				r.Counts["names listed"]++
			}
		}
	}
	end := func(x *Exec, st *State, pos string) {
		dirs.complete(st, "listing-unfinished", pos, "the listing of storage can end before every issuer directory was read")
	}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		if ci.Name == fnListChan {
			end(x, st, ci.Pos)
		}
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(root)
	dirs.finish()
	filesR.finish()
	r.Absorb(x)
	r.NeedAtLeast(1, "names listed")
}

// groupingRule: every name that is received ends up in the returned list.
func groupingRule(p *Program, r *Result) {
	root := p.Fn(fnListChan)
	if root == nil {
		r.Bad("missing: "+fnListChan, "go/storage", "%s not found", fnListChan)
		return
	}
	table := &relay{name: "table", r: r, carries: map[string]bool{}, sinks: map[string]bool{}, msg: "an issuer that was found is left out of the returned list",
		excused: func(*Exec, *State, *Term) bool { return false }}
	table.source = func(x *Exec, st *State, t *Term) bool {
		for _, m := range st.Marks("table") {
			if m.T[0] == t {
				return true
			}
		}
		return false
	}
	rule := &Rule{PureFn: pureTypes, NoChanVals: true}
	again, partial := map[*Term]string{}, map[*Term]bool{}
	endEntry := func(x *Exec, st *State) {
		for _, m := range st.Marks("entry") {
			skip := st.HasMark("kept") || st.HasMark("unparsable")
			for _, a := range st.Marks("again") {
				// a name that was taken before
				if wholeKey(m.T[0], a.T[0], a.T[1]) && outerMap(a.T[0]).Op == "make" {
					skip = true
					again[outerMap(a.T[0])] = m.Pos
				}
			}
			r.Check(skip, st, "entry-dropped", m.Pos, "a listed bin is dropped although its date could be parsed")
			r.Counts["entries grouped"]++
		}
		for _, k := range []string{"entry", "kept", "unparsable", "dateerr", "applist", "fresh", "again"} {
			st.DelMarks(k, nil)
		}
	}
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		if coll == nil {
			return
		}
		table.onIter(x, st, coll, more, in)
		if c := coll.chanElem(); c != nil && isStringType(c) {
			if more {
				st.AddMark("entry", x.pos(in), elem)
			}
		}
	}
	rule.OnRecv = func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, inSel bool) { endEntry(x, st) }
	rule.OnClosed = func(x *Exec, st *State, ch *Term, in ssa.Instruction) {
		endEntry(x, st)
		st.AddMark("drained", x.pos(in))
	}
	rule.OnBlock = func(x *Exec, st *State, _ *ssa.BasicBlock) {
		for _, m := range st.Marks("dateerr") {
			if x.KnownNonNil(st, m.T[0]) {
				st.AddMark("unparsable", m.Pos)
			}
		}
	}
	rule.OnBranch = func(x *Exec, st *State, in *ssa.If, cond *Term, taken bool) {
		for f, tv := range st.facts {
			if f.Op == "ext" && f.Key == "1" && isLookup(f.Args[0]) && !tv {
				st.AddMark("fresh", x.pos(in), f.Args[0].Args[0], f.Args[0].Args[1])
			}
			if m, k := heldKey(f, tv); m != nil {
				st.AddMark("again", x.pos(in), m, k)
			}
		}
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if ci.Name == "types.NewExpDate" {
			st.AddMark("dateerr", ci.Pos, x.ErrOf(ci, res))
		}
	}
	rule.OnAppend = func(x *Exec, st *State, res, base *Term, elems []*Term, spread bool, in ssa.Instruction) {
		for _, e := range elems {
			for range table.carried(st, e, true) {
				st.AddMark("outlist", x.pos(in))
			}
			if isNamed(e.Typ, "types.ExpDate") {
				for _, m := range st.Marks("entry") {
					if e.Contains(m.T[0]) {
						st.AddMark("applist", x.pos(in), res, base)
					}
				}
			}
		}
	}
	rule.OnUpdate = func(x *Exec, st *State, m, k, v *Term, in ssa.Instruction) {
		own := false
		for _, en := range st.Marks("entry") {
			own = own || wholeKey(en.T[0], m, k)
		}
		if !own {
			partial[outerMap(m)] = true
		}
		fresh := false
		for _, f := range st.Marks("fresh") {
			fresh = fresh || f.T[0] == m && f.T[1] == k
		}
		if isNamed(v.Typ, "types.IssuerDate") {
			held := false
			for _, a := range st.Marks("applist") {
				held = held || v.Contains(a.T[0])
			}
			r.Check(held || fresh, st, "dates-replaced", x.pos(in), "the dates listed for an issuer so far are replaced")
		}
		for _, en := range st.Marks("entry") {
			for _, a := range st.Marks("applist") {
				if !v.Contains(a.T[0]) {
					continue
				}
				own := k.HasSub(func(u *Term) bool { return u == en.T[0] }) && k.Op == "pure" && strings.HasSuffix(k.Key, "Issuer).ID")
				r.Check(own, st, "wrong-issuer-key", x.pos(in), "a bin is listed under something else than the identifier of its issuer")
				b := a.T[1]
				prev := b.HasSub(func(u *Term) bool { return isLookup(u) && u.Args[0] == m && u.Args[1] == k })
				r.Check(prev || fresh, st, "dates-replaced", x.pos(in), "the dates listed for an issuer so far are replaced")
				st.AddMark("kept", x.pos(in))
				st.AddMark("table", x.pos(in), m)
			}
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		if !mayMeanSuccess(x, st, res) {
			return
		}
		r.Counts["successful listings"]++
		r.Check(st.HasMark("drained"), st, "listing-cut-short", p.PosStr(root.Pos()), "the listing can succeed before all names were taken")
		if len(st.Marks("table")) > 0 {
			table.complete(st, "grouping-unfinished", p.PosStr(root.Pos()), "the listing can succeed although not every issuer found was put into the returned list")
		}
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(root)
	table.finish()
	r.Absorb(x)
	for m, pos := range again {
		if partial[m] {
			r.Bad("entry-dropped", pos, "a listed bin is dropped because of a table that does not only hold the names taken before")
		}
	}
	r.NeedAtLeast(1, "entries grouped")
	r.NeedAtLeast(1, "successful listings")
}

// heldKey: the map and key of a lookup that is known to have found (true) something.
func heldKey(f *Term, tv bool) (*Term, *Term) {
	l := f
	if f.Op == "ext" && f.Key == "1" {
		l = f.Args[0]
	} else if !isBoolType(f.Typ) {
		return nil, nil
	}
	if !tv || !isLookup(l) {
		return nil, nil
	}
	return l.Args[0], l.Args[1]
}

// outerMap: the map that a nested map was taken from.
func outerMap(m *Term) *Term {
	for isLookup(m) || m.Op == "ext" && isLookup(m.Args[0]) {
		if m.Op == "ext" {
			m = m.Args[0]
		}
		m = m.Args[0]
	}
	return m
}

// wholeKey: looking k up in m tells the names of bins apart: the key is the
// name itself or has both of its variable parts.
func wholeKey(entry, m, k *Term) bool {
	if k == entry || k.Op == "agg" && len(k.Args) == 1 && k.Args[0] == entry {
		return true
	}
	parts := map[string]bool{}
	for _, t := range []*Term{m, k} {
		t.HasSub(func(u *Term) bool {
			if u.Op == "indexaddr" || u.Op == "index" {
				if len(u.Args) > 1 && u.Args[1].Op == "const" && u.Contains(entry) {
					parts[u.Args[1].Key] = true
				}
			}
			return false
		})
	}
	return parts["1"] && parts["2"]
}

// distinctBins: of the bins that are listed for the movers, none is listed
// twice; two movers of one bin would overwrite each other's file.
func distinctBins(p *Program, r *Result) {
	root := p.Fn(fnListChan)
	if root == nil {
		r.Bad("missing: "+fnListChan, "go/storage", "%s not found", fnListChan)
		return
	}
	for f := range p.Graph().Reach(root) {
		if strings.HasPrefix(f.String(), "slices.Compact") {
			// sorted and compacted
			return
		}
	}
	rule := &Rule{PureFn: pureTypes, NoChanVals: true}
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		if coll == nil {
			return
		}
		if c := coll.chanElem(); c != nil && isStringType(c) {
			for _, k := range []string{"entry", "absent", "noted", "listed"} {
				st.DelMarks(k, nil)
			}
			if more {
				st.AddMark("entry", x.pos(in), elem)
			}
		}
	}
	end := func(x *Exec, st *State) {
		for _, m := range st.Marks("listed") {
			ok := false
			for _, a := range st.Marks("absent") {
				ok = ok || len(a.T) == 1
				for _, n := range st.Marks("noted") {
					ok = ok || len(a.T) == 2 && n.T[0] == a.T[0] && n.T[1] == a.T[1]
				}
			}
			r.Check(ok, st, "bin-listed-twice", m.Pos, "a bin is put on the list without its name being known to be new, so that two movers can rewrite its file at once")
			r.Counts["bins listed"]++
		}
		for _, k := range []string{"entry", "absent", "noted", "listed"} {
			st.DelMarks(k, nil)
		}
	}
	rule.OnRecv = func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, inSel bool) { end(x, st) }
	rule.OnClosed = func(x *Exec, st *State, ch *Term, in ssa.Instruction) { end(x, st) }
	rule.OnBranch = func(x *Exec, st *State, in *ssa.If, cond *Term, taken bool) {
		for f, tv := range st.facts {
			for _, en := range st.Marks("entry") {
				if m, k := heldKey(f, !tv); m != nil && wholeKey(en.T[0], m, k) {
					st.AddMark("absent", x.pos(in), m, k)
				}
				if !tv && strings.Contains(f.Key, "slices.Contains") && len(f.Args) == 2 && f.Args[1].Contains(en.T[0]) {
					st.AddMark("absent", x.pos(in), en.T[0])
				}
			}
		}
	}
	rule.OnUpdate = func(x *Exec, st *State, m, k, v *Term, in ssa.Instruction) {
		st.AddMark("noted", x.pos(in), m, k)
	}
	rule.OnAppend = func(x *Exec, st *State, res, base *Term, elems []*Term, spread bool, in ssa.Instruction) {
		for _, e := range elems {
			if !isNamed(e.Typ, "types.ExpDate") {
				continue
			}
			for _, m := range st.Marks("entry") {
				if e.Contains(m.T[0]) {
					st.AddMark("listed", x.pos(in))
				}
			}
		}
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(root)
	r.Absorb(x)
}

// enrolledRule: an issuer counts as enrolled exactly if the table of issuers
// has it, and the table holds every issuer of the enrolled list.
func enrolledRule(p *Program, r *Result) {
	root := p.Fn(fnInProg)
	if root == nil {
		r.Bad("missing: "+fnInProg, "go/rootprogram", "%s not found", fnInProg)
		return
	}
	hit := func(x *Exec, st *State, t *Term) bool { // the "found" result of a lookup of the issuer's ID
		return t.Op == "ext" && t.Key == "1" && isLookup(t.Args[0]) && len(x.Params) > 1 &&
			t.Args[0].Args[0].HasSub(func(u *Term) bool {
				return (u.Op == "fieldaddr" || u.Op == "field") && strings.HasSuffix(u.Key, ":issuerMap")
			}) &&
			t.Args[0].Args[1].Op == "pure" && strings.HasSuffix(t.Args[0].Args[1].Key, "Issuer).ID") && pointed(x, st, t.Args[0].Args[1].Args[0]) == whole(x.Params[1])
	}
	rule := &Rule{PureFn: pureTypes}
	rule.OnBranch = func(x *Exec, st *State, in *ssa.If, cond *Term, taken bool) {
		for f, v := range st.facts {
			if hit(x, st, f) {
				st.AddMark("member", x.pos(in), x.tt.boolT(v))
			}
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		if len(res) != 1 {
			return
		}
		r.Counts["membership answers"]++
		t := strip(res[0])
		good := hit(x, st, t)
		for _, m := range st.Marks("member") {
			if w, k := x.Truth(st, t); k && w == (m.T[0].Op == "true") {
				good = true
			}
		}
		r.Check(good, st, "membership", p.PosStr(root.Pos()), "IsIssuerInProgram answers something else than whether the issuer's identifier is in the table")
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(root)
	r.Absorb(x)
	r.NeedAtLeast(1, "membership answers")

	root = p.Fn(fnLoadEnr)
	if root == nil {
		r.Bad("missing: "+fnLoadEnr, "go/rootprogram", "%s not found", fnLoadEnr)
		return
	}
	l := &relay{name: "enrolled", r: r, carries: map[string]bool{}, sinks: map[string]bool{}, msg: "an issuer of the enrolled list is left out",
		excused: func(*Exec, *State, *Term) bool { return false }}
	l.source = func(x *Exec, st *State, t *Term) bool {
		if t.Typ == nil {
			return false
		}
		s, ok := t.Typ.Underlying().(*types.Slice)
		return ok && (isNamed(s.Elem(), "rootprogram.EnrolledIssuer") || isPtrTo(s.Elem(), "rootprogram.EnrolledIssuer"))
	}
	rule = &Rule{PureFn: pureTypes}
	rule.OpaqueFn = func(n string) bool { return n == fnInsert || strings.HasPrefix(n, "rootprogram.") }
	const grp = "load"
	rule.OnBlock = func(x *Exec, st *State, _ *ssa.BasicBlock) { pruneChk(x, st) }
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		l.onIter(x, st, coll, more, in)
	}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		if ci.Name == fnInsert {
			pruneChk(x, st)
			for range l.carried(st, ci.Arg(1), true) {
				r.Counts["enrolled issuers inserted"]++
			}
		}
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if ci.Inl {
			return
		}
		switch {
		case ci.Name == "encoding/json.Unmarshal" || strings.HasSuffix(ci.Name, "json.Decoder).Decode"):
			addChk(x, st, x.tt.mk("const", grp, 0, nil), x.ErrOf(ci, res), ci.Pos, "parsing of the enrolled list")
			st.AddMark("parsed", ci.Pos)
		case strings.HasPrefix(ci.Name, "rootprogram.") && x.ErrOf(ci, res) != nil, strings.HasSuffix(ci.Name, ".ReadFile") || ci.Name == "os.Open":
			addChk(x, st, x.tt.mk("const", grp, 0, nil), x.ErrOf(ci, res), ci.Pos, shortCallee(ci.Name))
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		pruneChk(x, st)
		if !mayMeanSuccess(x, st, res) {
			return
		}
		for _, k := range []string{"chk", "bad"} {
			for _, m := range st.Marks(k) {
				r.Check(false, st, "load-error-ignored", m.Pos, "loading the enrolled issuers can succeed although the %s may have failed", whatOf(m))
			}
		}
		r.Check(st.HasMark("parsed"), st, "not-parsed", p.PosStr(root.Pos()), "loading the enrolled issuers can succeed without having parsed the list")
		l.complete(st, "load-unfinished", p.PosStr(root.Pos()), "loading the enrolled issuers can succeed before every listed issuer was inserted")
	}
	x = NewExec(p, r.Prop, rule)
	x.Run(root)
	l.finish()
	r.Absorb(x)
	r.NeedAtLeast(1, "enrolled issuers inserted")
}
