package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about how far a log counts as covered: C12, C13, C14.

func init() {
	checks["C12"] = checkC12
	checks["C13"] = checkC13
	checks["C14"] = checkC14
}

const (
	fnProof   = ".GetSTHConsistency"
	fnEntries = "sunlight.Client).Entries"
	fnRawLeaf = ".RawLogEntryFromLeaf"
)

// logRoots are the outermost functions that download from a log with the given
// client call and hand over a log state.
func logRoots(p *Program, m *fetchMsg, call string) []*ssa.Function {
	cand := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if !inFetch(f) || f.Synthetic != "" || f.Parent() != nil || !takesLogState(f) {
			continue
		}
		down, send := false, false
		for g := range syncReach(f) {
			send = send || m.hasSend(g)
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && strings.Contains(calleeName(c.Common()), call) {
						down = true
					}
				}
			}
		}
		if down && send {
			cand[f] = true
		}
	}
	var r []*ssa.Function
	for _, f := range sortedFns(cand) {
		top := true
		for g := range cand {
			if g != f && syncReach(g)[f] {
				top = false
			}
		}
		if top {
			r = append(r, f)
		}
	}
	return r
}

// takesLogState: a parameter is (a pointer to) a structure with a log state.
func takesLogState(f *ssa.Function) bool {
	for _, q := range f.Params {
		st, ok := deref(q.Type()).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if strings.HasSuffix(types.TypeString(deref(st.Field(i).Type()), pkgShort), ctState) {
				return true
			}
		}
	}
	return false
}

func pkgShort(p *types.Package) string { return shortName(p.Path()) }

// choosers return one of their parameters (minimum, maximum).
func isChooser(f *ssa.Function) bool {
	if len(f.Params) < 2 || f.Signature.Results().Len() != 1 || len(f.Blocks) == 0 {
		return false
	}
	var fromParam func(v ssa.Value, d int) bool
	fromParam = func(v ssa.Value, d int) bool {
		switch v := v.(type) {
		case *ssa.Parameter:
			return true
		case *ssa.Phi:
			for _, e := range v.Edges {
				if d > 5 || !fromParam(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if bi, ok := v.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "min" || bi.Name() == "max") {
				for _, a := range v.Call.Args {
					if !fromParam(a, d+1) {
						return false
					}
				}
				return true
			}
			if g := v.Call.StaticCallee(); g != nil && g != f && moduleFn(g) && len(g.Blocks) > 0 && isChooser(g) {
				for _, a := range v.Call.Args {
					if !fromParam(a, d+1) {
						return false
					}
				}
				return true
			}
		}
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Return:
				n++
				if !fromParam(in.Results[0], 0) {
					return false
				}
			case *ssa.Store, *ssa.Go, *ssa.Defer, *ssa.Send:
				return false
			}
		}
	}
	return n > 0
}

// logShapes are the types and functions of the subtree verification.
type logShapes struct {
	sub, ver           *types.Named // subtree; verifier that contains one
	first, last, root  int
	subI, countI       int
	consume, claim     *ssa.Function
	proofFn            map[*ssa.Function]bool // returns the subtrees of a proof
	firstK, lastK      string
	subK, countK, rooK string
}

func findShapes(p *Program) *logShapes {
	s := &logShapes{first: -1, last: -1, root: -1, subI: -1, countI: -1, proofFn: map[*ssa.Function]bool{}}
	named := []*types.Named{}
	for _, f := range p.Funcs {
		if !inFetch(f) || f.Pkg == nil {
			continue
		}
		sc := f.Pkg.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if nt, ok := tn.Type().(*types.Named); ok {
					named = append(named, nt)
				}
			}
		}
		break
	}
	for _, nt := range named {
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		fi, la, ro := -1, -1, -1
		for i := 0; i < st.NumFields(); i++ {
			l := strings.ToLower(st.Field(i).Name())
			ty := types.TypeString(st.Field(i).Type().Underlying(), nil)
			switch {
			case ty == "uint64" && strings.Contains(l, "first"):
				fi = i
			case ty == "uint64" && strings.Contains(l, "last"):
				la = i
			case ty == "[]byte" && (strings.Contains(l, "root") || strings.Contains(l, "hash")):
				ro = i
			}
		}
		if fi >= 0 && la >= 0 && ro >= 0 {
			s.sub, s.first, s.last, s.root = nt, fi, la, ro
			s.firstK, s.lastK, s.rooK = fieldKey(nt, fi), fieldKey(nt, la), fieldKey(nt, ro)
		}
	}
	if s.sub == nil {
		return nil
	}
	for _, nt := range named {
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		si, ci := -1, -1
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(deref(st.Field(i).Type()), s.sub) {
				si = i
			} else if types.TypeString(st.Field(i).Type().Underlying(), nil) == "uint64" {
				ci = i
			}
		}
		if si >= 0 && ci >= 0 {
			s.ver, s.subI, s.countI = nt, si, ci
			s.subK, s.countK = fieldKey(nt, si), fieldKey(nt, ci)
		}
	}
	if s.ver == nil {
		return nil
	}
	for _, f := range p.Funcs {
		if !inFetch(f) || f.Synthetic != "" {
			continue
		}
		// the widest of several
		wide := func(old *ssa.Function) *ssa.Function {
			if old != nil && p.Graph().Reach(old)[f] {
				return old
			}
			return f
		}
		if len(f.Params) > 0 && f.Parent() == nil && types.Identical(deref(f.Params[0].Type()), s.ver) {
			ps, rs := f.Params[1:], f.Signature.Results()
			if len(ps) == 1 && types.TypeString(ps[0].Type(), nil) == "[]byte" {
				s.consume = wide(s.consume)
			}
			if len(ps) == 0 && rs.Len() == 1 && (isErrorType(rs.At(0).Type())) {
				s.claim = wide(s.claim)
			}
		}
		if rs := f.Signature.Results(); rs.Len() > 0 && f.Parent() == nil {
			if sl, ok := rs.At(0).Type().Underlying().(*types.Slice); ok && types.Identical(deref(sl.Elem()), s.sub) {
				s.proofFn[f] = true
			}
		}
	}
	for f := range s.proofFn {
		for h := range s.proofFn {
			if h != f && p.Graph().Reach(h)[f] {
				delete(s.proofFn, f)
			}
		}
	}
	return s
}

const ctState = "types.CTLogState"

func stateField(t *Term) string {
	// the field of a log state that an address denotes
	if t.Op != "fieldaddr" {
		return ""
	}
	return ""
}

// stateKeys returns the keys of the fields of the log state.
func stateKeys(p *Program) (map[string]string, *types.Named) {
	for _, f := range p.Funcs {
		if f.Pkg == nil || shortName(f.Pkg.Pkg.Path()) != "types" {
			continue
		}
		tn, ok := f.Pkg.Pkg.Scope().Lookup("CTLogState").(*types.TypeName)
		if !ok {
			return nil, nil
		}
		nt := tn.Type().(*types.Named)
		st := nt.Underlying().(*types.Struct)
		r := map[string]string{}
		for i := 0; i < st.NumFields(); i++ {
			r[st.Field(i).Name()] = fieldKey(nt, i)
		}
		return r, nt
	}
	return nil, nil
}

type logRule struct {
	p      *Program
	r      *Result
	m      *fetchMsg
	sh     *logShapes
	keys   map[string]string
	stT    *types.Named
	prop   string
	tiled  bool
	hand   map[string]*ssa.Function
	chooze map[string]bool
}

func (l *logRule) fieldType(name string) types.Type {
	st := l.stT.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return types.Typ[types.Uint64]
}

func (l *logRule) check(prop string, ok bool, st *State, key, pos, format string, a ...any) {
	if l.prop == prop {
		l.r.Check(ok, st, key, pos, format, a...)
	}
}

// isState tells whether the type is a pointer to the log state or the state.
func (l *logRule) stateAddr(addr *Term, name string) bool {
	return addr.Op == "fieldaddr" && addr.Key == l.keys[name] && l.baseIsState(addr.Args[0])
}

func (l *logRule) baseIsState(b *Term) bool {
	return b.Typ != nil && types.Identical(deref(b.Typ), l.stT)
}

// handedOver: the hander's results are known to mean success.
func handedOver(x *Exec, st *State, rs []*Term) bool {
	for _, t := range rs {
		if t.Typ != nil && isErrorType(t.Typ) {
			if !x.KnownNil(st, t) {
				return false
			}
		} else if t.Typ != nil && isBoolType(t.Typ) {
			if v, k := x.Truth(st, t); !k || !v {
				return false
			}
		}
	}
	return len(rs) > 0
}

func handFailed(x *Exec, st *State, rs []*Term) bool {
	for _, t := range rs {
		if t.Typ != nil && isErrorType(t.Typ) {
			if x.KnownNonNil(st, t) {
				return true
			}
		}
	}
	return false
}

func resultTerms(x *Exec, f *ssa.Function, ci *CallInfo, res *Term) []*Term {
	n := f.Signature.Results().Len()
	if n == 1 {
		return []*Term{res}
	}
	var r []*Term
	for i := 0; i < n; i++ {
		r = append(r, x.ResultOf(ci, res, i))
	}
	return r
}

func runLogRule(p *Program, r *Result, prop string, tiled bool) {
	m := findMsg(p)
	if m == nil {
		r.Bad("missing: message type", "-", "no message type with certificate and log state found in %s", fetchPkg)
		return
	}
	l := &logRule{p: p, r: r, m: m, prop: prop, tiled: tiled, hand: map[string]*ssa.Function{}, chooze: map[string]bool{}}
	l.keys, l.stT = stateKeys(p)
	if l.keys == nil || l.keys["MaxEntry"] == "" || l.keys["MinEntry"] == "" || l.keys["MaxTimestamp"] == "" {
		r.Bad("missing: log state", "-", "the log state type was not found")
		return
	}
	l.sh = findShapes(p)
	if !tiled && (l.sh == nil || l.sh.consume == nil || l.sh.claim == nil || len(l.sh.proofFn) == 0) {
		r.Bad("missing: verifier", "-", "the verifier of downloaded ranges was not found")
		return
	}
	call := fnProof
	if tiled {
		call = fnEntries
	}
	hs := handers(p, m)
	for _, h := range hs {
		top := true
		for _, g := range hs {
			if g != h && syncReach(g)[h] {
				top = false
			}
		}
		if top {
			l.hand[fname(h)] = h
		}
	}
	for _, f := range p.Funcs {
		if inFetch(f) && isChooser(f) {
			l.chooze[fname(f)] = true
		}
	}
	roots := logRoots(p, m, call)
	r.Counts["log workers"] += len(roots)
	for _, f := range roots {
		l.explore(f)
	}
}

// relevant functions are analysed in place.
func (l *logRule) relevant() map[string]bool {
	rel := map[string]bool{}
	own := map[*ssa.Function]bool{}
	for _, f := range l.p.Funcs {
		if !inFetch(f) {
			continue
		}
		hit := l.m.hasSend(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						t := deref(fa.X.Type())
						if types.Identical(t, l.stT) || l.sh != nil && (types.Identical(t, l.sh.ver) || types.Identical(t, l.sh.sub)) {
							hit = true
						}
					}
				case ssa.CallInstruction:
					n := calleeName(in.Common())
					if strings.Contains(n, fnProof) || strings.Contains(n, fnEntries) || strings.Contains(n, fnRawLeaf) {
						hit = true
					}
				}
			}
		}
		if hit {
			own[f] = true
		}
	}
	for _, f := range l.p.Funcs {
		if !inFetch(f) {
			continue
		}
		for g := range syncReach(f) {
			if own[g] {
				rel[fname(f)] = true
			}
		}
	}
	return rel
}

func (l *logRule) explore(root *ssa.Function) {
	p, r, m := l.p, l.r, l.m
	prop, tiled := l.prop, l.tiled
	rel := l.relevant()
	consume, claim := "", ""
	if l.sh != nil && l.sh.consume != nil {
		consume = fname(l.sh.consume)
	}
	if l.sh != nil && l.sh.claim != nil {
		claim = fname(l.sh.claim)
	}
	proofs := map[string]bool{}
	if l.sh != nil {
		for f := range l.sh.proofFn {
			proofs[fname(f)] = true
		}
	}
	rule := &Rule{PureFn: pureTypes, NoContrib: true, NoChanVals: true, MaxStates: 400000}
	rule.OpaqueFn = func(n string) bool {
		return l.hand[n] != nil || l.chooze[n] || n == consume || n == claim || proofs[n] || !rel[n]
	}
	interesting := func(t *Term) bool {
		return t.HasSub(func(u *Term) bool {
			if u.Op != "fieldaddr" && u.Op != "field" {
				return false
			}
			switch u.Key {
			case l.keys["MaxEntry"], l.keys["MinEntry"], l.keys["LastUpdateTime"]:
				return true
			}
			switch fieldName(u.Key) {
			case "WorkOrder":
				return true
			}
			return false
		})
	}
	rule.KeepFact = func(st *State, t *Term) bool {
		if !t.hasOld() {
			return interesting(t)
		}
		// how the range just verified relates to the one before
		if t.Op == "eq" {
			for _, c := range st.Marks("claim") {
				for _, a := range t.Args {
					if !a.hasOld() && (a == c.T[0] || a == c.T[1]) {
						return true
					}
				}
			}
		}
		return false
	}

	// sources of timestamps and indices are tracked with marks:
	//   tsok(v)    v is the timestamp of a processed entry, or already recorded
	//   tssth(v)   v is derived from the timestamp of a tree head
	//   idx(v)     v is the index of a processed entry, all before it processed
	base := func(t *Term) *Term {
		for t != nil && t.Op == "conv" {
			t = t.Args[0]
		}
		return t
	}
	isSth := func(t *Term) bool {
		return t.HasSub(func(u *Term) bool {
			return (u.Op == "fieldaddr" || u.Op == "field") && (fieldName(u.Key) == "Timestamp" && hasFieldNamed(u, "STH") || fieldName(u.Key) == "SthTimestamp" || fieldName(u.Key) == "Timestamp" && isSTHType(u))
		})
	}
	recorded := func(t *Term, name string) bool {
		t = base(t)
		if t.Op == "deref" && t.Args[0].Op == "fieldaddr" && t.Args[0].Key == l.keys[name] {
			return true
		}
		return t.Op == "field" && t.Key == l.keys[name]
	}
	// class of a timestamp: "ok", "sth" or "" (unknown)
	tsClass := func(x *Exec, st *State, t *Term) string {
		t = base(t)
		if n, ok := t.IntConst(); ok && n == 0 {
			return "ok"
		}
		if t.Op == "zero" || t.ofClass("ok") || recorded(t, "MaxTimestamp") || recorded(t, "MinTimestamp") || st.HasMark2("tsok", t) {
			return "ok"
		}
		if st.HasMark2("tssth", t) || t.ofClass("sth") || isSth(t) {
			return "sth"
		}
		return ""
	}
	idxOK := func(x *Exec, st *State, t *Term) bool {
		t = base(t)
		return recorded(t, "MaxEntry") || t.ofClass("idx") || st.HasMark2("idx", t)
	}
	// settle: which entries handed over are known to be processed by now
	settle := func(x *Exec, st *State) {
		for _, a := range st.Marks("hand") { // entry, results...
			if !handedOver(x, st, a.T[1:]) {
				continue
			}
			st.DelMarks("hand", func(k Mark) bool { return k.key() == a.key() })
			st.AddMark("handed", a.Pos, a.T[0])
			if tiled {
				st.AddMark("covered", "")
			}
			for _, c := range st.Marks("cur") { // entry, index
				if strip(c.T[0]) == strip(a.T[0]) {
					st.AddMark("curdone", a.Pos, c.T[0])
					if !st.HasMark("gap") {
						st.AddMark("idx", a.Pos, base(c.T[1]))
					}
				}
			}
		}
	}
	tsOfEntry := func(x *Exec, st *State, t *Term) bool {
		t = base(t)
		u := t
		if u.Op == "deref" {
			u = u.Args[0]
		}
		if u.Op != "fieldaddr" && u.Op != "field" || fieldName(u.Key) != "Timestamp" {
			return false
		}
		for _, h := range append(st.Marks("handed"), st.Marks("tskeep")...) {
			if t.Contains(strip(h.T[0])) && (!st.HasMark("gap")) {
				return true
			}
		}
		return false
	}
	classify := func(x *Exec, st *State, t *Term) string {
		settle(x, st)
		c := tsClass(x, st, t)
		if c == "" && tsOfEntry(x, st, t) {
			return "ok"
		}
		return c
	}
	note := func(x *Exec, st *State, t *Term, pos string) { // remember the class of a value
		t = base(t)
		switch classify(x, st, t) {
		case "ok":
			if _, c := t.IntConst(); !c {
				st.AddMark("tsok", pos, t)
			}
		case "sth":
			st.AddMark("tssth", pos, t)
		}
	}
	// stored values are replaced by their class
	rule.Abstract = func(x *Exec, st *State, addr, val *Term, in *ssa.Store) *Term {
		bt, ok := in.Val.Type().Underlying().(*types.Basic)
		if !ok || bt.Info()&types.IsInteger == 0 {
			return nil
		}
		if _, c := val.IntConst(); c {
			return nil
		}
		field := ""
		if addr.Op == "fieldaddr" && l.baseIsState(addr.Args[0]) {
			field = addr.Key
		} else if addr.Op != "alloc" {
			return nil
		}
		ts := field == l.keys["MaxTimestamp"] || field == l.keys["MinTimestamp"]
		ix := field == l.keys["MaxEntry"] || field == l.keys["MinEntry"]
		switch {
		case ts && prop != "C14":
			return x.anyOf(st, "any", addr, in.Val.Type())
		case ix && prop == "C14" && !recorded(val, fieldName(field)):
			return x.anyOf(st, "any", addr, in.Val.Type())
		case recorded(val, "MaxEntry") || recorded(val, "MaxTimestamp") || recorded(val, "MinTimestamp"):
			return nil
		}
		if !ix {
			switch classify(x, st, val) {
			case "ok":
				return x.anyOf(st, "ok", addr, in.Val.Type())
			case "sth":
				return x.anyOf(st, "sth", addr, in.Val.Type())
			}
		}
		if tiled && idxOK(x, st, val) {
			return x.anyOf(st, "idx", addr, in.Val.Type())
		}
		if tiled && !ix && l.startOK(x, st, val, idxOK) {
			return x.anyOf(st, "next", addr, in.Val.Type())
		}
		return nil
	}
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		if coll == nil || !hasCallPart(coll, fnEntries) {
			return
		}
		settle(x, st)
		for _, c := range st.Marks("cur") {
			if !st.HasMark2("curdone", c.T[0]) {
				st.DelMarks("gap", nil)
				st.AddMark("gap", "")
			}
		}
		st.DelMarks("cur", nil)
		st.DelMarks("curdone", nil)
		st.DelMarks("hand", nil)
		if !more || elem == nil || elem.Op != "tuple" && elem.Op != "agg" && len(elem.Args) < 2 {
			return
		}
		r.Counts["entries read"]++
		st.AddMark("cur", x.pos(in), elem.Args[1], elem.Args[0])
	}
	rule.OnWiden = func(x *Exec, st *State, old, nt *Term) {
		if old == nil || nt == nil {
			return
		}
		o := base(old)
		n := base(nt)
		switch classify(x, st, o) {
		case "ok":
			st.AddMark("tsok", "", n)
		case "sth":
			st.AddMark("tssth", "", n)
		}
		if idxOK(x, st, o) {
			st.AddMark("idx", "", n)
		}
	}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		if ci.Inl {
			return
		}
		if strings.Contains(ci.Name, fnEntries) && l.tiled {
			r.Counts["downloads"]++
			settle(x, st)
			start := ci.Arg(3)
			l.check("C13", start != nil && l.startOK(x, st, start, idxOK), st, "starts-late", ci.Pos, "the entries read do not start right after the last covered or processed entry (start = %s)", start)
		}
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if ci.Inl {
			return
		}
		switch {
		case l.hand[ci.Name] != nil:
			h := l.hand[ci.Name]
			r.Counts["entries handed over"]++
			e := ci.Arg(entryParam(h))
			st.AddMark("anyhand", "")
			st.AddMark("hand", ci.Pos, append([]*Term{strip(e)}, resultTerms(x, h, ci, res)...)...)
			for _, t := range resultTerms(x, h, ci, res) {
				if l.tiled && t.Typ != nil && isErrorType(t.Typ) {
					st.AddMark("handerr", ci.Pos, t)
				}
			}
		case l.chooze[ci.Name] || ci.Name == "builtin.min" || ci.Name == "builtin.max":
			settle(x, st)
			all, idx, sth := true, true, false
			for _, a := range ci.Args {
				switch classify(x, st, a) {
				case "ok":
				case "sth":
					sth = true
				default:
					all = false
				}
				idx = idx && idxOK(x, st, a)
			}
			if all && res != nil {
				if sth {
					st.AddMark("tssth", ci.Pos, base(res))
				} else {
					st.AddMark("tsok", ci.Pos, base(res))
				}
			}
			if idx && res != nil {
				st.AddMark("idx", ci.Pos, base(res))
			}
		case ci.Name == consume:
			r.Counts["hashed entries"]++
			settle(x, st)
			leaf := ci.Arg(1)
			ok := false
			for _, h := range st.Marks("handed") {
				if sameLeaf(h.T[0], leaf) {
					ok = true
					st.DelMarks("handed", func(k Mark) bool { return k.key() == h.key() })
					st.DelMarks("tskeep", nil)
					st.AddMark("tskeep", h.Pos, h.T[0])
				}
			}
			l.check("C12", ok, st, "hashed-before-stored", ci.Pos, "an entry is hashed for verification that was not handed to the database thread successfully before")
		case ci.Name == claim:
			r.Counts["verifications"]++
			v := strip(ci.Arg(0))
			s := x.tt.fieldAddr(v, l.sh.subK, types.NewPointer(l.sh.sub))
			u64 := types.Typ[types.Uint64]
			fi := x.load(st, x.tt.fieldAddr(s, l.sh.firstK, nil), u64)
			la := x.load(st, x.tt.fieldAddr(s, l.sh.lastK, nil), u64)
			st.DelMarks("claim", nil)
			st.AddMark("claim", ci.Pos, base(la), base(fi), x.ErrOf(ci, res))
		case strings.HasSuffix(ci.Name, "time.Time).IsZero") && res != nil && ci.Arg(0) != nil && hasCall(ci.Arg(0), "time.Now"):
			x.Assume(st, res, false)
		}
	}
	rule.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
		pos := x.pos(in)
		if addr.Op == "fieldaddr" && l.sh != nil && !l.tiled {
			b := addr.Args[0]
			if b.Typ != nil && types.Identical(deref(b.Typ), l.sh.ver) {
				switch addr.Key {
				case l.sh.subK:
					r.Counts["verifiers"]++
					l.check("C12", l.fromProof(val, proofs), st, "subtree-not-from-proof", pos, "the range to verify is not taken from the log's consistency proof between the sizes asked for (%s)", val)
				case l.sh.countK:
					if n, ok := val.IntConst(); !ok || n != 0 {
						l.check("C12", false, st, "count-altered", pos, "the number of hashed entries is changed outside of %s", consume)
					}
				}
			}
			if b.Typ != nil && types.Identical(deref(b.Typ), l.sh.sub) && addrRoot(addr).Op != "alloc" {
				l.check("C12", false, st, "subtree-altered", pos, "the range to verify is altered after it was taken from the proof")
			}
		}
		if addr.Op != "fieldaddr" {
			note(x, st, val, pos)
			return
		}
		if !l.baseIsState(addr.Args[0]) {
			note(x, st, val, pos)
			return
		}
		if x.copyOfState(st, addr, val, in, l) {
			return
		}
		settle(x, st)
		switch addr.Key {
		case l.keys["MaxTimestamp"], l.keys["MinTimestamp"]:
			isMax := addr.Key == l.keys["MaxTimestamp"]
			r.Counts["recorded timestamps"]++
			c := classify(x, st, val)
			if c == "sth" && isMax {
				why := l.caughtUp(x, st, addr.Args[0], val)
				l.check("C14", why == "", st, "tree-head-timestamp", pos, "the tree head's timestamp is recorded as covered although %s", why)
				r.Counts["recorded tree head timestamps"]++
				return
			}
			if c == "sth" { // as a lower bound it cannot widen what is covered
				return
			}
			l.check("C14", c == "ok", st, "timestamp-unprocessed", pos, "the recorded timestamp (%s) is not that of an entry that was processed", val)
		case l.keys["MaxEntry"]:
			r.Counts["recorded ranges"]++
			if l.tiled {
				l.check("C13", idxOK(x, st, val), st, "covers-unprocessed", pos, "the highest covered index becomes %s, which is not known to be an entry that was processed like all before it", val)
				return
			}
			l.classicStore(x, st, addr, val, pos, true, base)
		case l.keys["MinEntry"]:
			if l.tiled {
				return
			}
			r.Counts["recorded ranges"]++
			l.classicStore(x, st, addr, val, pos, false, base)
		}
	}
	rule.OnSend = func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, inSel bool) {
		if e := ch.chanElem(); e == nil || !m.elemOf(ch.Typ) {
			return
		}
		ls := strip(m.field(x, st, val, m.stateI))
		if isNilT(ls) {
			return
		}
		pos := x.pos(in)
		r.Counts["states handed over"]++
		a, b := st.Marks("firstmax"), st.Marks("firstmin")
		ok := len(a) == len(b) && (len(a) == 0 || a[0].T[0] == b[0].T[0])
		l.check("C12", ok, st, "half-initialised", pos, "the first range of a log is recorded with only one of its ends")
		st.DelMarks("firstmax", nil)
		st.DelMarks("firstmin", nil)
		// what is handed over is the worker's state
		u64 := types.Typ[types.Uint64]
		get := func(base *Term, n string) *Term { return x.load(st, x.tt.fieldAddr(base, l.keys[n], nil), u64) }
		settle(x, st)
		id := "C12"
		if tiled {
			id = "C13"
		}
		l.check(id, l.nonEmpty(st), st, "nothing-covered", pos, "a log state is handed over, which covers at least one entry, although no entry is known to have been processed in this or an earlier run")
		if l.tiled {
			l.check("C13", idxOK(x, st, get(ls, "MaxEntry")) || l.knownIdx(x, st, get(ls, "MaxEntry")), st, "hands-over-unprocessed", pos, "the log state handed over covers %s, which is not known to be a processed entry", get(ls, "MaxEntry"))
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		if !l.tiled || len(res) == 0 {
			return
		}
		for _, e := range st.Marks("handerr") {
			if x.KnownNonNil(st, e.T[0]) {
				r.Counts["fatal ends"]++
				l.check("C13", x.KnownNonNil(st, res[len(res)-1]), st, "fatal-unreported", e.Pos, "%s may return without an error although an entry could not be processed for good", fname(root))
			}
		}
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(root)
	r.Absorb(x)
}

func isSTHType(u *Term) bool {
	b := u.Args[0]
	if b.Typ == nil {
		return false
	}
	n, ok := deref(b.Typ).(*types.Named)
	return ok && n.Obj().Name() == "SignedTreeHead"
}

func hasCallPart(t *Term, part string) bool {
	return t.HasSub(func(u *Term) bool { return (u.Op == "call" || u.Op == "pure") && strings.Contains(u.Key, part) })
}

// copyOfState: a field of a whole copy of a log state.
func (x *Exec) copyOfState(st *State, addr, val *Term, in ssa.Instruction, l *logRule) bool {
	s, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	return types.Identical(s.Val.Type(), l.stT)
}

// sameLeaf: the leaf hashed belongs to the entry that was handed over.
func sameLeaf(entry, leaf *Term) bool {
	if entry == nil || leaf == nil {
		return false
	}
	ok := false
	entry.HasSub(func(u *Term) bool {
		if (u.Op == "call" || u.Op == "pure") && strings.Contains(u.Key, fnRawLeaf) {
			if leaf.Contains(u) {
				ok = true
			}
			for _, a := range u.Args {
				if a != nil && (a.Op == "alloc" || a.Op == "indexaddr" || a.Op == "old") && leaf.Contains(a) {
					ok = true
				}
			}
		}
		return false
	})
	return ok && hasFieldNamed(leaf, "LeafInput") || ok && leaf.Op == "deref"
}

// fromProof: the value is an element of what the annotating function returned
// for the log's proof, with the same two sizes.
func (l *logRule) fromProof(val *Term, proofs map[string]bool) bool {
	ok := false
	val.HasSub(func(u *Term) bool {
		if u.Op != "call" && u.Op != "pure" || !proofs[u.Key] {
			return false
		}
		var pr *Term
		for _, a := range u.Args {
			if a == nil {
				continue
			}
			a.HasSub(func(w *Term) bool {
				if (w.Op == "call" || w.Op == "pure") && strings.Contains(w.Key, fnProof) {
					pr = w
				}
				return false
			})
		}
		if pr == nil || len(pr.Args) < 4 || len(u.Args) < 3 {
			return false
		}
		if strip(pr.Args[2]) == strip(u.Args[1]) && strip(pr.Args[3]) == strip(u.Args[2]) {
			ok = true
		}
		return false
	})
	return ok
}

// startOK: reading starts at most one entry after the last processed one.
func (l *logRule) startOK(x *Exec, st *State, start *Term, idxOK func(*Exec, *State, *Term) bool) bool {
	li := &lin{}
	x.tt.linOf(start, 1, li)
	if len(li.c) == 0 {
		return li.k <= 0
	}
	for t, c := range li.c {
		if c != 1 || len(li.c) != 1 {
			return false
		}
		if t.ofClass("next") && li.k <= 0 {
			return true
		}
		return idxOK(x, st, t) && li.k <= 1
	}
	return false
}

func (l *logRule) knownIdx(x *Exec, st *State, t *Term) bool { return false }

// caughtUp explains why the log is not known to be completely covered.
func (l *logRule) caughtUp(x *Exec, st *State, base, val *Term) string {
	if st.HasMark("anyhand") {
		return "entries are downloaded in the same run"
	}
	if !l.nonEmpty(st) {
		return "possibly no entry is covered at all (the highest covered entry is also 0 for a log never read before)"
	}
	cur := x.load(st, x.tt.fieldAddr(base, l.keys["MaxEntry"], nil), types.Typ[types.Uint64])
	ok := false
	for q, v := range st.facts {
		if !v || q.Op != "eq" {
			continue
		}
		co, k := decodeLin(q)
		if len(co) != 2 || len(q.Args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := q.Args[i], q.Args[1-i]
			ca, cb := co[i], co[1-i]
			kk := k
			if ca < 0 {
				ca, cb, kk = -ca, -cb, -kk
			}
			if ca == 1 && cb == -1 && kk == 1 && l.isMaxEntry(st, a, cur) && isTreeSize(b) && (l.tiled || sthOf(b) != nil && val.Contains(sthOf(b))) {
				ok = true
			}
		}
	}
	if !ok {
		return "the highest covered entry is not known to be the last one of that tree head"
	}
	return ""
}

// nonEmpty: at least one entry is covered.
func (l *logRule) nonEmpty(st *State) bool {
	if st.HasMark("covered") {
		return true
	}
	for q, b := range st.facts {
		if !b && q.Op == "pure" && strings.HasSuffix(q.Key, "time.Time).IsZero") && recordedIn(q.Args[0], l.keys["LastUpdateTime"]) {
			return true
		}
	}
	return false
}

func recordedIn(t *Term, key string) bool {
	return t.Op == "deref" && t.Args[0].Op == "fieldaddr" && t.Args[0].Key == key || t.Op == "field" && t.Key == key
}

// sthOf is the tree head a size is taken from.
func sthOf(t *Term) *Term {
	var r *Term
	t.HasSub(func(u *Term) bool {
		if (u.Op == "fieldaddr" || u.Op == "field") && fieldName(u.Key) == "TreeSize" {
			r = u.Args[0]
		}
		return false
	})
	return r
}

// isMaxEntry: the term is the covered maximum before anything was recorded in
// this run, or the current one.
func (l *logRule) isMaxEntry(st *State, t, cur *Term) bool {
	if t == cur {
		return true
	}
	return t.Op == "deref" && t.Args[0].Op == "fieldaddr" && t.Args[0].Key == l.keys["MaxEntry"]
}

func isTreeSize(t *Term) bool {
	return t.HasSub(func(u *Term) bool {
		if u.Op != "fieldaddr" && u.Op != "field" {
			return false
		}
		n := fieldName(u.Key)
		return n == "TreeSize" || n == "N" && hasFieldNamed(u, "Tree")
	})
}

// classicStore checks that a range grows by a verified adjacent subtree.
func (l *logRule) classicStore(x *Exec, st *State, addr, val *Term, pos string, isMax bool, base func(*Term) *Term) {
	v := base(val)
	name := "MinEntry"
	if isMax {
		name = "MaxEntry"
	}
	cur := x.load(st, addr, types.Typ[types.Uint64])
	if base(cur) == v {
		return // unchanged
	}
	var cl *Mark
	for _, c := range st.Marks("claim") {
		c := c
		k := 1
		if isMax {
			k = 0
		}
		if c.T[k] == v {
			cl = &c
		}
	}
	if cl == nil {
		l.check("C12", false, st, "unverified-range", pos, "%s becomes %s, which is not an end of a range whose verification was asked for", name, val)
		return
	}
	if !x.KnownNil(st, cl.T[2]) {
		l.check("C12", false, st, "unverified-range", pos, "%s is extended by a range although its verification at %s is not known to have succeeded", name, cl.Pos)
		return
	}
	l.check("C12", true, st, "unverified-range", pos, "")
	st.AddMark("covered", "")
	li := &lin{}
	x.tt.linOf(cur, 1, li)
	if isMax {
		x.tt.linOf(cl.T[1], -1, li)
		li.k++
	} else {
		x.tt.linOf(cl.T[0], -1, li)
		li.k--
	}
	t, neg := x.tt.linTerm("eq", li)
	if b, known := x.Truth(st, t); known && b != neg {
		l.check("C12", true, st, "not-adjacent", pos, "")
		return
	}
	// the first range of a log
	lut := x.load(st, x.tt.fieldAddr(addr.Args[0], l.keys["LastUpdateTime"], nil), l.fieldType("LastUpdateTime"))
	first := false
	for q, b := range st.facts {
		if b && q.Op == "pure" && strings.HasSuffix(q.Key, "time.Time).IsZero") && (q.Args[0] == lut || hasFieldKey(q.Args[0], l.keys["LastUpdateTime"]) && lut.Op == "deref") {
			first = true
		}
	}
	l.check("C12", first, st, "not-adjacent", pos, "%s is extended by a range that is neither adjacent to the covered one nor the first", name)
	if first {
		if isMax {
			st.AddMark("firstmax", pos, cl.T[1])
		} else {
			st.AddMark("firstmin", pos, cl.T[1])
		}
	}
}

func hasFieldKey(t *Term, key string) bool {
	return t.HasSub(func(u *Term) bool { return (u.Op == "fieldaddr" || u.Op == "field") && u.Key == key })
}

func checkC12(p *Program, tier string) *Result {
	r := NewResult("C12", "on every path of the worker of a classic log: an end of the covered range only becomes the end of a subtree for which the verifier returned nil, with the fact that the subtree is adjacent to the covered range, or both ends of it when nothing was covered before; the subtrees verified are elements of the log's consistency proof annotated with the sizes it was asked for, and are not altered; an entry is only hashed after it was handed to the database thread successfully; on every path of the verifier nil is returned only if as many entries were hashed as the subtree has and the computed hash equals the root, and hashing one entry counts it once")
	runLogRule(p, r, "C12", false)
	if sh := findShapes(p); sh != nil && sh.claim != nil && sh.consume != nil {
		verifierRules(p, r, sh)
	}
	r.NeedAtLeast(1, "log workers")
	r.NeedAtLeast(3, "recorded ranges")
	r.NeedAtLeast(1, "verifications")
	r.NeedAtLeast(1, "hashed entries")
	r.NeedAtLeast(1, "verifiers")
	return r
}

func verifierRules(p *Program, r *Result, sh *logShapes) {
	u64 := types.Typ[types.Uint64]
	rule := &Rule{PureFn: pureTypes, KeepFact: keepAll}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		if x.KnownNonNil(st, res[0]) {
			return
		}
		r.Counts["accepting ends of the verifier"]++
		v := x.Params[0]
		s := x.tt.fieldAddr(v, sh.subK, nil)
		li := &lin{}
		x.tt.linOf(x.load(st, x.tt.fieldAddr(s, sh.lastK, nil), u64), 1, li)
		x.tt.linOf(x.load(st, x.tt.fieldAddr(s, sh.firstK, nil), u64), -1, li)
		x.tt.linOf(x.load(st, x.tt.fieldAddr(v, sh.countK, nil), u64), -1, li)
		li.k++
		t, neg := x.tt.linTerm("eq", li)
		b, known := x.Truth(st, t)
		r.Check(known && b != neg, st, "incomplete-range-accepted", fname(sh.claim), "%s may accept a range of which not exactly all entries were hashed", fname(sh.claim))
		same := false
		for q, val := range st.facts {
			if !hasFieldKey(q, sh.rooK) {
				continue
			}
			var cmp *Term
			q.HasSub(func(u *Term) bool {
				if (u.Op == "pure" || u.Op == "call") && (u.Key == "bytes.Equal" || u.Key == "bytes.Compare" || strings.HasPrefix(u.Key, "slices.Equal[") || strings.HasSuffix(u.Key, "ConstantTimeCompare") || strings.HasSuffix(u.Key, "hmac.Equal")) {
					cmp = u
				}
				return false
			})
			if q.Op == "same" {
				cmp = q
			}
			if cmp == nil || len(cmp.Args) < 2 || partOf(cmp.Args[0]) || partOf(cmp.Args[1]) {
				continue
			}
			other := cmp.Args[0]
			if hasFieldKey(other, sh.rooK) {
				other = cmp.Args[1]
			}
			if hasFieldKey(other, sh.rooK) || !other.Contains(v) {
				continue
			}
			switch {
			case cmp.Key == "bytes.Compare" && q.Op == "eq" && val:
				if _, k := decodeLin(q); k == 0 {
					same = true
				}
			case strings.HasSuffix(cmp.Key, "ConstantTimeCompare") && q.Op == "eq" && val:
				if _, k := decodeLin(q); k == 1 || k == -1 {
					same = true
				}
			case q == cmp && val:
				same = true
			}
		}
		r.Check(same, st, "wrong-hash-accepted", fname(sh.claim), "%s may accept a range whose computed hash was not found equal to the root in the proof", fname(sh.claim))
	}
	x := NewExec(p, "C12", rule)
	x.Run(sh.claim)
	r.Absorb(x)
	r.NeedAtLeast(1, "accepting ends of the verifier")

	rule = &Rule{PureFn: pureTypes}
	rule.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
		if addr.Op != "fieldaddr" || addr.Args[0] != x.Params[0] || addr.Key != sh.countK {
			return
		}
		cur := x.load(st, addr, u64)
		li := &lin{}
		x.tt.linOf(val, 1, li)
		x.tt.linOf(cur, -1, li)
		r.Check(len(li.c) == 0 && li.k == 1 && !st.HasMark("counted"), st, "miscounted", x.pos(in), "hashing one entry does not count it exactly once")
		st.AddMark("counted", x.pos(in))
	}
	rule.OnAppend = func(x *Exec, st *State, res, base *Term, elems []*Term, spread bool, in ssa.Instruction) {
		for _, e := range elems {
			if e.Contains(x.Params[1]) {
				st.AddMark("pushed", x.pos(in))
			}
		}
	}
	leafy := func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if res == nil || ci.Inl {
			return
		}
	}
	_ = leafy
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		r.Check(st.HasMark("counted"), st, "miscounted", fname(sh.consume), "%s may return without counting the entry", fname(sh.consume))
	}
	x = NewExec(p, "C12", rule)
	x.Run(sh.consume)
	r.Absorb(x)
}

// partOf: t is an explicit part of some bytes, not all of them.
func partOf(t *Term) bool {
	for {
		switch {
		case t.Op == "conv" || t.Op == "iface" || t.Op == "deref" && t.Args[0].Op == "pure":
			t = t.Args[0]
		case t.Op == "pure" && t.Key == "slice2arr":
			a := t.Typ
			if p, ok := a.(*types.Pointer); ok {
				a = p.Elem()
			}
			if arr, ok := a.Underlying().(*types.Array); ok && arr.Len() < 32 {
				return true
			}
			t = t.Args[0]
		case t.Op == "pure" && t.Key == "slice":
			return true
		default:
			return false
		}
	}
}

func checkC13(p *Program, tier string) *Result {
	r := NewResult("C13", "on every path of the worker of a tiled log: reading starts at most one entry after the last covered or processed one; the highest covered index only becomes the old one or the index of an entry that was handed over successfully, with no unprocessed entry passed before; an entry that could not be processed for good makes the worker return an error; a failure to process an entry is only treated as temporary after a network operation failed")
	runLogRule(p, r, "C13", true)
	tiledHanders(p, r)
	r.NeedAtLeast(1, "log workers")
	r.NeedAtLeast(1, "recorded ranges")
	r.NeedAtLeast(1, "downloads")
	r.NeedAtLeast(1, "entries handed over")
	r.NeedAtLeast(1, "fatal ends")
	return r
}

// tiledHanders: functions that report (processed, error) for one entry.
func tiledHanders(p *Program, r *Result) {
	m := findMsg(p)
	if m == nil {
		return
	}
	cached := map[ssa.Instruction]bool{}
	for _, f := range handers(p, m) {
		rs := f.Signature.Results()
		if rs.Len() != 2 || !isBoolType(rs.At(0).Type()) || !isErrorType(rs.At(1).Type()) {
			continue
		}
		r.Counts["handers with a temporary result"]++
		rule := &Rule{PureFn: pureTypes, KeepFact: keepAll}
		rule.OnUpdate = func(x *Exec, st *State, mp, k, v *Term, in ssa.Instruction) {
			if mu, ok := in.(*ssa.MapUpdate); ok && certMap(mu.Map.Type()) {
				cached[in] = true
				r.Check(x.KnownNonNil(st, v), st, "nothing-cached", x.pos(in), "an issuer that was not obtained is remembered as if it was, so entries naming it look like temporary failures")
			}
		}
		rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			if ci.Inl || ci.Name == "types.ParseCertificate" || res == nil {
				return
			}
			if ci.Fn != nil && moduleFn(ci.Fn) {
				return
			}
			if e := x.ErrOf(ci, res); e != nil && !strings.HasPrefix(ci.Name, "fmt.") && !strings.HasPrefix(ci.Name, "errors.") {
				st.AddMark("ext", ci.Pos, e)
			}
		}
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			if x.KnownNonNil(st, res[1]) {
				return
			}
			if v, k := x.Truth(st, res[0]); k && v {
				return
			}
			// a cached issuer is never nil (nothing-cached)
			for q, v := range st.facts {
				if v && q.Op == "isnil" {
					if t := strip(q.Args[0]); t.Op == "ext" && t.Key == "0" && isLookup(t.Args[0]) && t.Typ != nil && strings.HasSuffix(types.TypeString(t.Typ, pkgShort), "types.Certificate") && x.mustTrue(st, t.Args[0]) {
						return
					}
				}
			}
			r.Counts["temporary failures"]++
			ok := false
			for _, e := range st.Marks("ext") {
				if x.KnownNonNil(st, e.T[0]) {
					ok = true
				}
			}
			r.Check(ok, st, "fatal-taken-for-temporary", fname(f), "%s may report a temporary failure although no network operation failed", fname(f))
		}
		x := NewExec(p, "C13", rule)
		x.Run(f)
		r.Absorb(x)
	}
	for _, f := range p.Funcs {
		if !inFetch(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && certMap(mu.Map.Type()) && !cached[in] {
					r.Bad("cache-elsewhere", p.PosStr(in.Pos()), "%s fills the issuer cache outside of the processing of an entry", fname(f))
				}
			}
		}
	}
}

// mustTrue: the lookup is known to have found its key.
func (x *Exec) mustTrue(st *State, lk *Term) bool {
	b, known := x.Truth(st, x.ext(lk, 1, types.Typ[types.Bool]))
	return known && b
}

func certMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && strings.HasSuffix(types.TypeString(m.Elem(), pkgShort), "types.Certificate")
}

func checkC14(p *Program, tier string) *Result {
	r := NewResult("C14", "on every path of the log workers a timestamp recorded in a log state is the old one, that of an entry handed over successfully, a combination of such, or, as the highest one, the tree head's, then with the fact that the highest covered entry is the last one of that tree head and before any entry is handed over; the constructor takes the tiled log's tree head timestamp and tree from the same checkpoint")
	runLogRule(p, r, "C14", false)
	runLogRule(p, r, "C14", true)
	sameTreeHead(p, r)
	r.NeedAtLeast(2, "log workers")
	r.NeedAtLeast(4, "recorded timestamps")
	r.NeedAtLeast(1, "workers made from a tree head")
	r.NeedAtLeast(2, "recorded tree head timestamps")
	return r
}

// sameTreeHead: where a worker is given a checkpoint and a timestamp of its
// own, both are from the same answer of the log.
func sameTreeHead(p *Program, r *Result) {
	isCP := func(t types.Type) bool {
		return strings.HasSuffix(types.TypeString(deref(t), nil), "torchwood.Checkpoint")
	}
	structs := func(t types.Type) (cp, ts int) {
		cp, ts = -1, -1
		st, ok := deref(t).Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			if isCP(st.Field(i).Type()) {
				cp = i
			} else if strings.Contains(strings.ToLower(st.Field(i).Name()), "timestamp") && types.TypeString(st.Field(i).Type().Underlying(), nil) == "uint64" {
				ts = i
			}
		}
		return
	}
	makes := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if !inFetch(f) || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						if c, t := structs(fa.X.Type()); c >= 0 && t >= 0 && (fa.Field == c || fa.Field == t) {
							makes[f] = true
						}
					}
				}
			}
		}
	}
	fromCP := func(t *Term) *Term {
		var c *Term
		t.HasSub(func(u *Term) bool {
			if u.Op == "call" && strings.HasSuffix(u.Key, ".Checkpoint") {
				c = u
			}
			return false
		})
		return c
	}
	for _, f := range sortedFns(makes) {
		rule := &Rule{PureFn: pureTypes, NoContrib: true, NoChanVals: true}
		rule.OpaqueFn = func(n string) bool { return n != fname(f) }
		rule.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
			s := in.(*ssa.Store)
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			c, t := structs(fa.X.Type())
			if c < 0 || t < 0 {
				return
			}
			switch fa.Field {
			case c:
				st.DelMarks("cp", nil)
				st.AddMark("cp", x.pos(in), strip(addr.Args[0]), val)
			case t:
				st.DelMarks("ts", nil)
				st.AddMark("ts", x.pos(in), strip(addr.Args[0]), val)
			}
		}
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			for _, t := range st.Marks("ts") {
				if n, ok := t.T[1].IntConst(); ok && n == 0 {
					continue
				}
				r.Counts["workers made from a tree head"]++
				ok := false
				for _, c := range st.Marks("cp") {
					a, b := fromCP(t.T[1]), fromCP(c.T[1])
					ok = ok || c.T[0] == t.T[0] && a != nil && a == b
				}
				r.Check(ok, st, "mixed-tree-heads", t.Pos, "%s does not take the tree head timestamp and the tree size from the same checkpoint of the log", fname(f))
			}
		}
		x := NewExec(p, "C14", rule)
		x.Run(f)
		r.Absorb(x)
	}
}
