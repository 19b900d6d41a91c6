package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the ingesting program: C11, C15, C16, C17.

func init() {
	checks["C11"] = checkC11
	checks["C15"] = checkC15
	checks["C16"] = checkC16
	checks["C17"] = checkC17
}

const fetchPkg = "cmd/ct-fetch"

// inFetch tells whether f belongs to the ingesting program.
func inFetch(f *ssa.Function) bool { return pkgPathOf(f) == fetchPkg }

func pkgPathOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return shortName(f.Pkg.Pkg.Path())
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return shortName(o.Pkg().Path())
	}
	return ""
}

// fetchMsg describes the messages handed to the database thread.
type fetchMsg struct {
	typ                                   *types.Named
	cert, issuer, time, logID, logState   string // field keys
	certI, issuerI, timeI, logIDI, stateI int
}

func isPtrTo(t types.Type, short string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && shortName(types.TypeString(n, nil)) == short
}

func isNamed(t types.Type, short string) bool {
	n, ok := t.(*types.Named)
	return ok && shortName(types.TypeString(n, nil)) == short
}

// findMsg looks for the struct type of ct-fetch that carries a log state and
// certificates.
func findMsg(p *Program) *fetchMsg {
	var best *fetchMsg
	for _, f := range p.Funcs {
		if !inFetch(f) || f.Pkg == nil {
			continue
		}
		sc := f.Pkg.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			st, ok := nt.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			m := &fetchMsg{typ: nt, certI: -1, issuerI: -1, timeI: -1, logIDI: -1, stateI: -1}
			for i := 0; i < st.NumFields(); i++ {
				v := st.Field(i)
				switch {
				case isPtrTo(v.Type(), "types.CTLogState"):
					m.stateI, m.logState = i, fieldKey(nt, i)
				case isPtrTo(v.Type(), "types.Certificate"):
					if strings.Contains(strings.ToLower(v.Name()), "issu") {
						m.issuerI, m.issuer = i, fieldKey(nt, i)
					} else {
						m.certI, m.cert = i, fieldKey(nt, i)
					}
				case types.TypeString(v.Type().Underlying(), nil) == "uint64":
					m.timeI, m.time = i, fieldKey(nt, i)
				case types.TypeString(v.Type().Underlying(), nil) == "[32]byte":
					m.logIDI, m.logID = i, fieldKey(nt, i)
				}
			}
			if m.stateI >= 0 && m.certI >= 0 && m.issuerI >= 0 && m.timeI >= 0 && m.logIDI >= 0 {
				best = m
			}
		}
		if best != nil {
			return best
		}
	}
	return nil
}

func (m *fetchMsg) elemOf(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	e := c.Elem()
	if p, ok := e.(*types.Pointer); ok {
		e = p.Elem()
	}
	return types.Identical(e, m.typ)
}

func (m *fetchMsg) field(x *Exec, st *State, v *Term, i int) *Term {
	s := m.typ.Underlying().(*types.Struct)
	k, ft := fieldKey(m.typ, i), s.Field(i).Type()
	if v.Typ != nil {
		if _, ok := v.Typ.Underlying().(*types.Pointer); ok {
			return x.load(st, x.tt.fieldAddr(v, k, nil), ft)
		}
	}
	return x.tt.field(v, k, ft)
}

// sends / receives / closes of the message channel in f
func (m *fetchMsg) sends(f *ssa.Function) (sel []*ssa.Select, bare []*ssa.Send) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Send:
				if m.elemOf(in.Chan.Type()) {
					bare = append(bare, in)
				}
			case *ssa.Select:
				for _, s := range in.States {
					if s.Dir == types.SendOnly && m.elemOf(s.Chan.Type()) {
						sel = append(sel, in)
						break
					}
				}
			}
		}
	}
	return
}

func (m *fetchMsg) hasSend(f *ssa.Function) bool {
	a, b := m.sends(f)
	return len(a)+len(b) > 0
}

func (m *fetchMsg) hasRecv(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.UnOp:
				if in.Op == token.ARROW && m.elemOf(in.X.Type()) {
					return true
				}
			case *ssa.Select:
				for _, s := range in.States {
					if s.Dir == types.RecvOnly && m.elemOf(s.Chan.Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (m *fetchMsg) closes(f *ssa.Function) []ssa.CallInstruction {
	var r []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" && m.elemOf(c.Common().Args[0].Type()) {
					r = append(r, c)
				}
			}
		}
	}
	return r
}

// callees of f on its own goroutine (go statements excluded), closures that are
// mentioned other than as the operand of a go statement included.
func syncCallees(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(g *ssa.Function) {
		if g != nil && !seen[g] && moduleFn(g) {
			seen[g] = true
			r = append(r, g)
		}
	}
	onlyGo := func(v ssa.Value) bool {
		if v.Referrers() == nil || len(*v.Referrers()) == 0 {
			return false
		}
		for _, u := range *v.Referrers() {
			g, ok := u.(*ssa.Go)
			if !ok || g.Call.Value != v {
				return false
			}
		}
		return true
	}
	var ops []*ssa.Value
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			_, isGo := in.(*ssa.Go)
			if mc, ok := in.(*ssa.MakeClosure); ok {
				if !onlyGo(mc) {
					add(mc.Fn.(*ssa.Function))
				}
				continue
			}
			ops = in.Operands(ops[:0])
			for i, o := range ops {
				if fn, ok := (*o).(*ssa.Function); ok {
					if isGo && i == 0 {
						continue
					}
					add(fn)
				}
			}
		}
	}
	return r
}

// syncReach is the set of functions f may run on its own goroutine.
func syncReach(f *ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{f: true}
	w := []*ssa.Function{f}
	for len(w) > 0 {
		c := w[len(w)-1]
		w = w[:len(w)-1]
		for _, d := range syncCallees(c) {
			if !r[d] {
				r[d] = true
				w = append(w, d)
			}
		}
	}
	return r
}

type goSite struct {
	in  *ssa.Go
	in0 *ssa.Function // function that contains the statement
	fn  *ssa.Function // goroutine body
}

func goBody(g *ssa.Go) *ssa.Function {
	switch v := g.Call.Value.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	}
	return g.Call.StaticCallee()
}

// goSites lists the go statements of the package.
func goSites(p *Program, pred func(*ssa.Function) bool) []goSite {
	var r []goSite
	for _, f := range p.Funcs {
		if !pred(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					r = append(r, goSite{g, f, goBody(g)})
				}
			}
		}
	}
	return r
}

// unwrap follows a synthetic bound-method or thunk wrapper to the method.
func unwrap(f *ssa.Function) *ssa.Function {
	for f != nil && f.Synthetic != "" && len(f.Blocks) == 1 {
		var next *ssa.Function
		for _, in := range f.Blocks[0].Instrs {
			if c, ok := in.(*ssa.Call); ok {
				next = c.Call.StaticCallee()
			}
		}
		if next == nil {
			return f
		}
		f = next
	}
	return f
}

func inLoopSyntax(in ssa.Instruction) bool {
	// in is inside a cycle of its function's control flow graph
	b := in.Block()
	seen := map[*ssa.BasicBlock]bool{}
	w := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(w) > 0 {
		c := w[len(w)-1]
		w = w[:len(w)-1]
		if c == b {
			return true
		}
		if seen[c] {
			continue
		}
		seen[c] = true
		w = append(w, c.Succs...)
	}
	return false
}

func posOf(p *Program, in ssa.Instruction) string {
	po := in.Pos()
	if !po.IsValid() {
		for _, o := range in.Block().Instrs {
			if o.Pos().IsValid() {
				po = o.Pos()
				break
			}
		}
	}
	return p.PosStr(po)
}

// isCtxDone tells whether the channel is the Done channel of a context.
func isCtxDone(ch *Term) bool {
	return ch != nil && ch.HasSub(func(u *Term) bool { return (u.Op == "pure" || u.Op == "call") && u.Key == "(context.Context).Done" })
}

// ctxErr makes the error of a cancelled context known to be non-nil.
func ctxErr(x *Exec, st *State, ci *CallInfo, res *Term) {
	if !ci.Inl && ci.Name == "(context.Context).Err" && res != nil {
		for _, m := range st.Marks("ctxdone") {
			if m.T[0].Contains(ci.Arg(0)) {
				x.Assume(st, x.isNilTerm(res), false)
			}
		}
	}
}

func keepAll(*State, *Term) bool { return true }

// ---- C15 ------------------------------------------------------------------------

func isEntryType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Name() {
	case "RawLogEntry", "LogEntry":
		return !isModulePath(n.Obj().Pkg().Path())
	}
	return false
}

func entryParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if isEntryType(p.Type()) {
			return i
		}
	}
	return -1
}

// handers are the functions that are given one log entry and hand it over.
func handers(p *Program, m *fetchMsg) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.Funcs {
		if !inFetch(f) || f.Synthetic != "" || entryParam(f) < 0 {
			continue
		}
		for g := range syncReach(f) {
			if m.hasSend(g) {
				r = append(r, f)
				break
			}
		}
	}
	// parts of others of these functions are analysed together with them
	in := map[*ssa.Function]bool{}
	for _, f := range r {
		in[f] = true
	}
	top := r[:0:0]
	for _, f := range r {
		cs := p.Graph().Callers(f)
		part := len(cs) > 0
		for _, c := range cs {
			if c = outermost(c); !in[c] || c == f {
				part = false
			}
		}
		if !part {
			top = append(top, f)
		}
	}
	r = top
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func hasFieldNamed(t *Term, names ...string) bool {
	return t.HasSub(func(u *Term) bool {
		if u.Op != "fieldaddr" && u.Op != "field" {
			return false
		}
		k := u.Key
		if i := strings.IndexByte(k, ':'); i >= 0 {
			k = k[i+1:]
		}
		for _, n := range names {
			if k == n {
				return true
			}
		}
		return false
	})
}

func fieldName(k string) string {
	if i := strings.IndexByte(k, ':'); i >= 0 {
		return k[i+1:]
	}
	return k
}

// chainIndex finds which element of the entry's chain t was obtained from.
func chainIndex(t, entry *Term) map[int64]bool {
	r := map[int64]bool{}
	for u := range t.Subs() {
		if u.Op != "indexaddr" && !(u.Op == "pure" && u.Key == "index") {
			continue
		}
		if len(u.Args) < 2 || !u.Args[0].Contains(entry) || !hasFieldNamed(u.Args[0], "Chain", "ChainFingerprints") {
			continue
		}
		if k, ok := u.Args[1].IntConst(); ok {
			r[k] = true
		} else {
			r[-1] = true
		}
	}
	return r
}

func only(m map[int64]bool, k int64) bool { return len(m) == 1 && m[k] }

// derefName: t is the value of the field called name inside entry.
func derefName(t, entry *Term, name string) bool {
	t = strip(t)
	for t.Op == "conv" {
		t = t.Args[0]
	}
	if t.Op == "deref" && t.Args[0].Op == "fieldaddr" {
		return fieldName(t.Args[0].Key) == name && t.Contains(entry)
	}
	if t.Op == "field" {
		return fieldName(t.Key) == name && t.Contains(entry)
	}
	return false
}

func checkC15(p *Program, tier string) *Result {
	r := NewResult("C15", "on every path of each function that hands over a log entry: success is returned only after the entry was sent, or with the facts that its certificate has expired (and expired entries are not kept) or that its chain is empty; what is sent are the entry's own certificate, timestamp and the worker's log, with chain certificate 1 exactly if chain certificate 0 was found to be a precertificate signing certificate and chain certificate 0 otherwise; the issuer cache is only filled under the fingerprint that was fetched")
	m := findMsg(p)
	if m == nil {
		r.Bad("missing: message type", "-", "no message type with certificate and log state found in %s", fetchPkg)
		return r
	}
	for _, f := range handers(p, m) {
		r.Counts["functions that hand over an entry"]++
		ei := entryParam(f)
		rule := &Rule{PureFn: pureTypes, KeepFact: keepAll}
		parsed := func(t *Term) *Term { // argument of ParseCertificate
			if t.Op == "ext" && t.Key == "0" && len(t.Args) == 1 && (t.Args[0].Op == "pure" || t.Args[0].Op == "call") && t.Args[0].Key == "types.ParseCertificate" {
				return t.Args[0].Args[0]
			}
			return nil
		}
		ownCert := func(x *Exec, st *State, t, entry *Term) string {
			src := parsed(strip(t))
			if src == nil || !src.Contains(entry) {
				return "it is not parsed from the entry"
			}
			if len(chainIndex(src, entry)) > 0 {
				return "it is a certificate of the entry's chain"
			}
			pre := hasFieldNamed(src, "PreCertificate")
			plain := hasFieldNamed(src, "Certificate")
			if pre || plain {
				// tiled entries keep the two kinds apart
				for q, v := range st.facts {
					if derefName(q, entry, "IsPrecert") {
						if v == pre && v != plain {
							return ""
						}
						return "it is not the certificate of the entry's kind"
					}
				}
				return "the kind of the entry was not examined"
			}
			if hasFieldNamed(src, "Cert") {
				return ""
			}
			return "it is not the entry's certificate"
		}
		expired := func(x *Exec, st *State, entry *Term) bool {
			exp, drop := false, false
			for q, v := range st.facts {
				if q.Op == "pure" && len(q.Args) == 2 {
					na := func(t *Term) bool {
						return t.HasSub(func(u *Term) bool {
							return (u.Op == "pure" || u.Op == "call") && strings.HasSuffix(u.Key, ").NotAfter") && ownCert(x, st, u.Args[0], entry) == "" || u.Op == "fieldaddr" && fieldName(u.Key) == "NotAfter" && u.Contains(entry)
						})
					}
					now := func(t *Term) bool { return notAhead(t) && !t.Contains(entry) }
					switch q.Key {
					case "(time.Time).Before":
						exp = exp || v && na(q.Args[0]) && now(q.Args[1]) && !now(q.Args[0])
					case "(time.Time).After":
						exp = exp || v && na(q.Args[1]) && now(q.Args[0])
					}
				}
				if !v && q.Op == "deref" && hasFieldNamed(q, "LogExpiredEntries") {
					drop = true
				}
			}
			return exp && drop
		}
		noChain := func(x *Exec, st *State, entry *Term) bool {
			for q := range st.facts {
				for u := range q.Subs() {
					if u.Op == "len" || u.Op == "pure" && u.Key == "len" {
						if u.Contains(entry) && hasFieldNamed(u.Args[0], "Chain", "ChainFingerprints") && !hasIndex(u.Args[0]) {
							l := &lin{}
							x.tt.linOf(u, 1, l)
							l.k--
							t, n := x.tt.linTerm("lt", l)
							if v, k := x.Truth(st, t); k && v != n {
								return true
							}
							l = &lin{}
							x.tt.linOf(u, 1, l)
							t, n = x.tt.linTerm("eq", l)
							if v, k := x.Truth(st, t); k && v != n {
								return true
							}
						}
					}
				}
			}
			return false
		}
		rule.OnSend = func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, inSel bool) {
			if e := ch.chanElem(); e == nil || !m.elemOf(ch.Typ) {
				return
			}
			entry := x.Params[ei]
			pos := x.pos(in)
			r.Counts["hand-overs"]++
			st.AddMark("sent", pos)
			cert, iss := strip(m.field(x, st, val, m.certI)), strip(m.field(x, st, val, m.issuerI))
			if why := ownCert(x, st, cert, entry); !r.Check(why == "", st, "wrong-certificate", pos, "the certificate handed over is not the entry's: %s", why) {
				return
			}
			r.Check(x.KnownNonNil(st, cert), st, "missing-certificate", pos, "the certificate handed over may be nil")
			r.Check(x.KnownNonNil(st, iss), st, "missing-issuer", pos, "the issuer handed over may be nil")
			idx := chainIndex(iss, entry)
			pre, known := false, false
			for q, v := range st.facts {
				if (q.Op == "pure" || q.Op == "call") && strings.HasSuffix(q.Key, ").IsPreIssuer") && only(chainIndex(q.Args[0], entry), 0) {
					pre, known = v, true
				}
			}
			r.Check(known, st, "issuer-kind-unknown", pos, "an issuer is handed over without finding out whether the first chain certificate is a precertificate signing certificate")
			if known {
				want := int64(0)
				if pre {
					want = 1
				}
				r.Check(only(idx, want), st, "wrong-issuer", pos, "the issuer handed over is not chain certificate %d although the first one %s a precertificate signing certificate", want, map[bool]string{true: "is", false: "is not"}[pre])
			}
			ts := m.field(x, st, val, m.timeI)
			r.Check(derefName(ts, entry, "Timestamp"), st, "wrong-timestamp", pos, "the timestamp handed over is not that of the entry")
			id := m.field(x, st, val, m.logIDI)
			r.Check(workerLogID(p, x, id), st, "wrong-log", pos, "the log handed over is not the worker's log (its key identifier)")
		}
		rule.OnRecv = func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, inSel bool) {
			if isCtxDone(ch) {
				st.AddMark("ctxdone", x.pos(in), ch)
			}
		}
		rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) { ctxErr(x, st, ci, res) }
		rule.OnUpdate = func(x *Exec, st *State, mp, k, v *Term, in ssa.Instruction) {
			r.Check(fetchedAs(v, k), st, "issuer-cache-key", x.pos(in), "a certificate is cached under a key that is not the one it was fetched for")
			r.Check(x.KnownNonNil(st, strip(v)), st, "issuer-cache-nil", x.pos(in), "a certificate that could not be parsed is cached")
		}
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			entry := x.Params[ei]
			if !mayMeanSuccess(x, st, res) {
				r.Counts["error exits"]++
				return
			}
			if st.HasMark("sent") {
				return
			}
			r.Counts["skips"]++
			why := ""
			switch {
			case expired(x, st, entry):
			case noChain(x, st, entry):
			default:
				why = "success is returned although the entry was not handed over and is not known to be expired (with expired entries not kept) or without issuer"
			}
			r.Check(why == "", st, "entry-skipped", fname(f), "%s", why)
		}
		x := NewExec(p, "C15", rule)
		x.Run(f)
		r.Absorb(x)
	}
	r.NeedAtLeast(2, "functions that hand over an entry")
	r.NeedAtLeast(4, "hand-overs")
	r.NeedAtLeast(4, "skips")
	return r
}

func hasIndex(t *Term) bool {
	return t.HasSub(func(u *Term) bool { return u.Op == "indexaddr" })
}

// mayMeanSuccess: no error result is known non-nil and no bool result is false.
func mayMeanSuccess(x *Exec, st *State, res []*Term) bool {
	for _, t := range res {
		if t.Op == "false" {
			return false
		}
		if v, k := x.Truth(st, t); k && !v && t.Typ != nil && isBoolType(t.Typ) {
			return false
		}
	}
	if n := len(res); n > 0 && x.KnownNonNil(st, res[n-1]) && !isBoolTerm(res[n-1]) {
		return false
	}
	return true
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isBoolTerm(t *Term) bool {
	return t.Op == "true" || t.Op == "false" || t.Typ != nil && isBoolType(t.Typ)
}

// fetchedAs: v was obtained with key k.
func fetchedAs(v, k *Term) bool {
	k = strip(k)
	if v.Contains(k) {
		return true
	}
	return false
}

// workerLogID: id is a field of the worker that is only ever set to the key
// identifier of the log's state.
func workerLogID(p *Program, x *Exec, id *Term) bool {
	id = strip(id)
	var key string
	if id.Op == "deref" && id.Args[0].Op == "fieldaddr" {
		key = id.Args[0].Key
	} else if id.Op == "field" {
		key = id.Key
	} else {
		return isKeyIDTerm(id)
	}
	// every store to that field in the package
	n := 0
	for _, f := range p.Funcs {
		if !inFetch(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldKey(deref(fa.X.Type()), fa.Field) != key {
					continue
				}
				if types.TypeString(s.Val.Type().Underlying(), nil) != "[32]byte" {
					continue
				}
				n++
				if !p.slicesTo(s.Val, func(v ssa.Value) bool {
					c, ok := v.(*ssa.Call)
					return ok && strings.HasSuffix(calleeName(c.Common()), "CTLogState).KeyID")
				}) {
					return false
				}
			}
		}
	}
	return n > 0
}

func isKeyIDTerm(t *Term) bool {
	return t.Op == "ext" && t.Key == "0" && strings.HasSuffix(t.Args[0].Key, "CTLogState).KeyID")
}

func calleeName(c *ssa.CallCommon) string {
	if f := c.StaticCallee(); f != nil {
		return fname(f)
	}
	if c.IsInvoke() {
		return "(" + shortName(types.TypeString(c.Value.Type(), nil)) + ")." + c.Method.Name()
	}
	return ""
}

// ---- C17 ------------------------------------------------------------------------

// ctxFlow decides whether a context value is cancelled together with the
// program: it comes from a WithCancel/WithTimeout/... in the program, or is a
// parameter for which every caller in the package passes such a value.
type ctxFlow struct {
	p    *Program
	memo map[ssa.Value]int
}

func (c *ctxFlow) ok(v ssa.Value) bool {
	switch c.memo[v] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	c.memo[v] = 1
	r := c.eval(v)
	if r {
		c.memo[v] = 2
	} else {
		c.memo[v] = 3
	}
	return r
}

func isCtxType(t types.Type) bool { return isNamed(t, "context.Context") }

func (c *ctxFlow) eval(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok && v.Index == 0 {
			n := calleeName(call.Common())
			switch n {
			case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause", "os/signal.NotifyContext":
				// the program's own context, or derived from it
				if isMainFn(v.Parent()) {
					return true
				}
				return c.ok(call.Common().Args[0])
			}
		}
		return false
	case *ssa.Call:
		n := calleeName(v.Common())
		if n == "context.WithValue" {
			return c.ok(v.Common().Args[0])
		}
		if f := v.Common().StaticCallee(); f != nil && moduleFn(f) {
			okAll, n := true, 0
			for _, b := range f.Blocks {
				if ret, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR {
					for _, rv := range ret.Results {
						if isCtxType(rv.Type()) {
							n++
							okAll = okAll && c.ok(rv)
						}
					}
				}
			}
			return okAll && n > 0
		}
		return false
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !c.ok(e) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		f := v.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == v {
				idx = i
			}
		}
		n := 0
		for _, g := range c.p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := call.Common()
					var arg ssa.Value
					if cc.StaticCallee() == f {
						if _, bound := cc.Value.(*ssa.MakeClosure); !bound || f.Synthetic == "" {
							if idx < len(cc.Args) {
								arg = cc.Args[idx]
							}
						}
					} else if cc.IsInvoke() && f.Signature.Recv() != nil && cc.Method.Name() == f.Name() {
						if idx-1 >= 0 && idx-1 < len(cc.Args) && isCtxType(cc.Args[idx-1].Type()) {
							arg = cc.Args[idx-1]
						}
					}
					if arg != nil {
						n++
						if !c.ok(arg) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	case *ssa.FreeVar:
		f := v.Parent()
		idx := -1
		for i, q := range f.FreeVars {
			if q == v {
				idx = i
			}
		}
		for _, g := range c.p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
						if !c.ok(mc.Bindings[idx]) {
							return false
						}
					}
				}
			}
		}
		return true
	case *ssa.UnOp: // load of a captured or stored context
		if v.Op == token.MUL {
			return c.cell(v.X)
		}
	case *ssa.MakeInterface:
		return c.ok(v.X)
	case *ssa.ChangeInterface:
		return c.ok(v.X)
	case *ssa.Alloc:
		return c.cell(v)
	}
	return false
}

// cell: some store to the cell is a cancellable context, and none that comes
// after a cancellable one replaces it by another kind. (A context variable that
// starts as context.Background() and is then derived from is fine.)
func (c *ctxFlow) cell(a ssa.Value) bool {
	switch a := a.(type) {
	case *ssa.Alloc:
		good := false
		for _, u := range *a.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == a {
				good = c.ok(s.Val)
			}
		}
		return good
	case *ssa.FreeVar:
		return c.ok(a)
	case *ssa.FieldAddr:
		key := fieldKey(deref(a.X.Type()), a.Field)
		n, good := 0, true
		for _, g := range c.p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldKey(deref(fa.X.Type()), fa.Field) == key && types.Identical(deref(fa.X.Type()), deref(a.X.Type())) {
							n++
							good = good && c.ok(s.Val)
						}
					}
				}
			}
		}
		return good && n > 0
	}
	return false
}

func isMainFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "main" && f.Signature.Recv() == nil
}

// doneCtx returns the context whose Done channel v is.
func doneCtx(v ssa.Value) ssa.Value {
	seen := map[ssa.Value]bool{}
	for v != nil && !seen[v] {
		seen[v] = true
		switch u := v.(type) {
		case *ssa.Call:
			if u.Call.IsInvoke() && u.Call.Method.Name() == "Done" && isCtxType(u.Call.Value.Type()) {
				return u.Call.Value
			}
			return nil
		case *ssa.ChangeType:
			v = u.X
		case *ssa.Phi:
			if len(u.Edges) == 0 {
				return nil
			}
			v = u.Edges[0]
		case *ssa.UnOp:
			if al, ok := u.X.(*ssa.Alloc); ok && u.Op == token.MUL {
				v = nil
				for _, rf := range *al.Referrers() {
					if s, ok := rf.(*ssa.Store); ok && s.Addr == al {
						v = s.Val
					}
				}
				continue
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

func isTimeChan(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	return ok && isNamed(c.Elem(), "time.Time")
}

func checkC17(p *Program, tier string) *Result {
	r := NewResult("C17", "in the code that runs on the log workers' goroutines every send of a message and every wait for a timer is a case of a select that can also receive from Done of a context derived from the program's cancellable context, and time.Sleep is not used; on every path of each function that hands something over, receiving from Done instead of sending makes the function return a non-nil error; a log state that is sent is a fresh copy that is not stored to afterwards and that nothing else refers to")
	m := findMsg(p)
	if m == nil {
		r.Bad("missing: message type", "-", "no message type with certificate and log state found in %s", fetchPkg)
		return r
	}
	cf := &ctxFlow{p: p, memo: map[ssa.Value]int{}}
	// functions of the workers
	workers := map[*ssa.Function]bool{}
	for _, g := range goSites(p, inFetch) {
		if g.fn == nil {
			continue
		}
		reach := syncReach(g.fn)
		send := false
		for f := range reach {
			send = send || m.hasSend(f)
		}
		if send {
			for f := range reach {
				if inFetch(f) {
					workers[f] = true
				}
			}
		}
	}
	for _, f := range sortedFns(workers) {
		r.Fns[fname(f)] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Send:
					if m.elemOf(in.Chan.Type()) {
						r.Check(false, nil, "uninterruptible-hand-over", posOf(p, in), "%s sends to the database thread without being able to notice cancellation", fname(f))
					}
				case *ssa.UnOp:
					if in.Op == token.ARROW && isTimeChan(in.X.Type()) {
						r.Check(false, nil, "uninterruptible-pause", posOf(p, in), "%s waits for a timer without being able to notice cancellation", fname(f))
					}
				case ssa.CallInstruction:
					if n := calleeName(in.Common()); n == "time.Sleep" {
						r.Check(false, nil, "uninterruptible-pause", posOf(p, in), "%s sleeps without being able to notice cancellation", fname(f))
					}
				case *ssa.Select:
					what := ""
					done := false
					for _, s := range in.States {
						switch {
						case s.Dir == types.SendOnly && m.elemOf(s.Chan.Type()):
							what = "hand-over"
						case s.Dir == types.RecvOnly && isTimeChan(s.Chan.Type()):
							what = "pause"
						case s.Dir == types.RecvOnly:
							if c := doneCtx(s.Chan); c != nil && cf.ok(c) {
								done = true
							}
						}
					}
					if what == "" {
						continue
					}
					r.Counts["interruptible "+what+"s"]++
					if !in.Blocking && what == "pause" {
						continue
					}
					r.Check(done, nil, "uninterruptible-"+what, posOf(p, in), "the %s in %s cannot be interrupted by cancelling the program's context", what, fname(f))
				}
			}
		}
	}
	r.NeedAtLeast(1, "interruptible hand-overs")
	r.NeedAtLeast(3, "interruptible pauses")

	// functions that hand something over
	state := 0
	queue := []*ssa.Function{}
	queued := map[*ssa.Function]bool{}
	for _, f := range sortedFns(workers) {
		if m.hasSend(f) && f.Synthetic == "" {
			queue = append(queue, f)
			queued[f] = true
		}
	}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		toCallers := func() {
			for _, c := range p.Graph().Callers(f) {
				if !queued[c] && inFetch(c) && c.Synthetic == "" {
					queued[c] = true
					queue = append(queue, c)
				}
			}
		}
		hasErr := returnsError(f)
		if !hasErr {
			toCallers()
		}
		rule := &Rule{PureFn: pureTypes, KeepFact: keepAll}
		rule.OnRecv = func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, inSel bool) {
			if isCtxDone(ch) {
				st.AddMark("ctxdone", x.pos(in), ch)
				if sel, ok := in.(*ssa.Select); ok {
					for _, s := range sel.States {
						if s.Dir == types.SendOnly && m.elemOf(s.Chan.Type()) {
							st.AddMark("refused", x.pos(in))
						}
					}
				}
			}
		}
		rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) { ctxErr(x, st, ci, res) }
		rule.OnSelect = func(x *Exec, st *State, sel *ssa.Select, chs []*Term) {
			if !sel.Blocking {
				for _, s := range sel.States {
					if s.Dir == types.SendOnly && m.elemOf(s.Chan.Type()) {
						r.Check(false, st, "hand-over-dropped", x.pos(sel), "a message is dropped when the channel is full")
					}
				}
			}
		}
		rule.OnSend = func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, inSel bool) {
			if e := ch.chanElem(); e == nil || !m.elemOf(ch.Typ) {
				return
			}
			ls := strip(m.field(x, st, val, m.stateI))
			if isNilT(ls) {
				return
			}
			state++
			pos := x.pos(in)
			if ls.Op == "alloc" {
				r.Check(!st.HasMark2("sentstate", ls), st, "state-shared", pos, "the same log state is handed over twice")
				st.AddMark("sentstate", pos, ls)
				return
			}
			// a message or state given by the caller: explored there
			base := ls
			for base.Op == "deref" || base.Op == "field" || base.Op == "fieldaddr" {
				base = base.Args[0]
			}
			if base.Op == "param" && base.Typ != nil && (types.Identical(deref(base.Typ), m.typ) || base == ls) {
				toCallers()
				return
			}
			r.Check(false, st, "state-shared", pos, "the log state handed over (%s) is not a fresh copy", ls)
		}
		rule.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
			for _, mk := range st.Marks("sentstate") {
				if addr.Contains(mk.T[0]) {
					r.Check(false, st, "state-changed-after-hand-over", x.pos(in), "the log state handed over at %s is stored to afterwards", mk.Pos)
				}
			}
		}
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			for _, mk := range st.Marks("sentstate") {
				for a, v := range st.heap {
					if v == mk.T[0] && addrRoot(a).Op != "alloc" {
						r.Check(false, st, "state-kept-after-hand-over", mk.Pos, "the log state handed over is also kept in %s", a)
					}
				}
				for _, t := range res {
					if t == mk.T[0] {
						r.Check(false, st, "state-kept-after-hand-over", mk.Pos, "the log state handed over is also returned to the caller")
					}
				}
			}
			for _, mk := range st.Marks("refused") {
				r.Counts["refused hand-overs"]++
				// functions further up may treat the error as the end of the job
				if !hasErr || !m.hasSend(f) && !refusalUnreported(p, m, f) {
					continue
				}
				r.Check(x.KnownNonNil(st, res[len(res)-1]), st, "cancellation-taken-for-success", mk.Pos, "%s may return without an error although its hand-over was given up because of cancellation", fname(f))
			}
		}
		x := NewExec(p, "C17", rule)
		x.Run(f)
		r.Absorb(x)
	}
	r.Counts["states handed over"] = state
	r.NeedAtLeast(2, "states handed over")
	r.NeedAtLeast(4, "refused hand-overs")
	return r
}

// refusalUnreported: some callee of f that hands something over has no error
// result, so that f is the first that can report a refusal.
func refusalUnreported(p *Program, m *fetchMsg, f *ssa.Function) bool {
	for _, c := range syncCallees(f) {
		if !inFetch(c) || returnsError(c) {
			continue
		}
		for d := range syncReach(c) {
			if m.hasSend(d) && !returnsError(d) {
				return true
			}
		}
	}
	return false
}

func (st *State) HasMark2(kind string, t *Term) bool {
	for _, m := range st.marks {
		if m.Kind == kind && len(m.T) > 0 && m.T[0] == t {
			return true
		}
	}
	return false
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var r []*ssa.Function
	for f := range m {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}
