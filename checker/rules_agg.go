package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about fetching and aggregating CRLs: C19, C21, C22, C23.

func init() {
	for _, id := range []string{"C19", "C21", "C22", "C23"} {
		id := id
		checks[id] = func(p *Program, tier string) *Result { return checkAgg(p, tier, id) }
	}
}

const (
	tSerialReason = "types.SerialAndReason"
	mCheckSig     = ".CheckCRLSignature"
)

var aggRules = map[string]string{
	"C19": "on every path through the aggregation of an issuer, a CRL's revocations are decoded only from a CRL object that was parsed without error from bytes read without error in the same call and whose signature check against a certificate looked up for the issuer of the list returned nil; everything in the stored list is such a decoded revocation",
	"C21": "on every path the issuer's list is written only after the loop over its CRLs ended, each of them was fetched, verified and decoded in its iteration, and the revocations of each were added to the written list or were found to be none",
	"C22": "at the end of every iteration over a CRL, and on every return of the fetching functions, the audit entry that the outcome demands was made with that CRL's address and the issuer; every audit method appends exactly one entry of its kind",
	"C23": "every entry of a decoded CRL is decoded and added to the result, or the function fails; the entry decoder looks at every extension and succeeds only with at most one reason code, decoded without error and within 0..255, and the entry's own serial",
}

// aggParts are the functions and types the rules are about.
type aggParts struct {
	entryT  types.Type // one revocation entry
	entry   map[*ssa.Function]bool
	decode  map[*ssa.Function]bool
	store   map[*ssa.Function]bool
	dp      map[*ssa.Function]bool
	roots   []*ssa.Function
	auditor *types.Named
	audit   map[string]string // audit method -> kind
}

func isSliceOf(t types.Type, elem string) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), elem)
}

func lastIsError(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type())
}

func findAgg(p *Program) *aggParts {
	a := &aggParts{entry: map[*ssa.Function]bool{}, decode: map[*ssa.Function]bool{}, store: map[*ssa.Function]bool{}, dp: map[*ssa.Function]bool{}}
	g := p.Graph()
	for _, f := range p.Funcs {
		rs := f.Signature.Results()
		if rs.Len() == 2 && isNamed(rs.At(0).Type(), tSerialReason) && lastIsError(f) && len(f.Params) == 1 {
			if _, ok := deref(f.Params[0].Type()).Underlying().(*types.Struct); ok {
				a.entry[f] = true
				a.entryT = deref(f.Params[0].Type())
			}
		}
	}
	if a.entryT == nil {
		return nil
	}
	dpUse := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		rs := f.Signature.Results()
		if rs.Len() == 2 && lastIsError(f) && f.Parent() == nil && len(f.Params) > 0 {
			if s, ok := deref(rs.At(0).Type()).Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), a.entryT) {
						a.decode[f] = true
					}
				}
			}
		}
		for _, q := range f.Params {
			if isSliceOf(q.Type(), tSerialReason) && g.has(f, "os.OpenFile|os.Create|os.WriteFile|ioutil.WriteFile|"+renameioPkg+".TempFile") && f.Parent() == nil {
				a.store[f] = true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && fieldNameOf(fa) == "IssuingDPFullNames" {
					dpUse[f] = true
				}
			}
		}
	}
	// the widest functions that check the distribution point and do nothing else
	for f := range dpUse {
		for c, n := f, 0; c != nil && n < 6; n++ {
			if lastIsError(c) {
				delete(a.dp, f)
				a.dp[c], f = true, c
			}
			cs := g.Callers(c)
			if len(cs) != 1 {
				break
			}
			c = cs[0]
			for d := range g.Reach(c) {
				if a.decode[d] || a.store[d] || a.audit[fname(d)] != "" {
					c = nil
					break
				}
			}
		}
	}
	// the smallest functions that decode and store
	all := func(f *ssa.Function) bool {
		d, s := false, false
		for c := range g.Reach(f) {
			d = d || a.decode[c]
			s = s || a.store[c]
		}
		return d && s && !a.store[f] && !a.decode[f]
	}
	for _, f := range p.Funcs {
		if !all(f) || f.Synthetic != "" {
			continue
		}
		min := true
		for _, c := range g.callee[f] {
			if c != f && all(c) {
				min = false
			}
		}
		if min {
			a.roots = append(a.roots, f)
		}
	}
	return a
}

func fieldNameOf(fa *ssa.FieldAddr) string {
	s, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return s.Field(fa.Field).Name()
}

func isUrl(t types.Type) bool { return isNamed(deref(t), "net/url.URL") }

// isCrlItems tells whether t is a list of pairs of an address and a path.
func isCrlItems(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	st, ok := deref(s.Elem()).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	u, str := false, false
	for i := 0; i < st.NumFields(); i++ {
		if isUrl(st.Field(i).Type()) {
			u = true
		} else if isStringType(st.Field(i).Type()) {
			str = true
		}
	}
	return u && str
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// elemIn tells whether t involves an element of coll in the current iteration.
func elemIn(t, coll *Term) bool {
	return t != nil && t.HasSub(func(u *Term) bool {
		return (u.Op == "indexaddr" || u.Op == "index" || u.Op == "next") && len(u.Args) > 0 && u.Args[0] == coll
	})
}

// curElem is like elemIn, for loops whose index is never known exactly.
func curElem(t, coll *Term) bool {
	return elemIn(t, coll) && !t.HasSub(func(u *Term) bool {
		if (u.Op == "indexaddr" || u.Op == "index") && len(u.Args) > 1 && u.Args[0] == coll {
			_, k := u.Args[1].IntConst()
			return k // always the same one
		}
		return false
	})
}

// pathOfElem tells whether t is the path of the current element of coll.
func pathOfElem(t, coll *Term) bool {
	if t.Typ == nil || !isStringType(t.Typ) {
		return false
	}
	for t.Op == "old" || t.Op == "deref" {
		t = t.Args[0]
	}
	if t.Op != "field" && t.Op != "fieldaddr" {
		return false
	}
	for t = t.Args[0]; t.Op == "deref" || t.Op == "old"; {
		t = t.Args[0]
	}
	for t.Op == "ext" {
		t = t.Args[0]
	}
	return (t.Op == "indexaddr" || t.Op == "index" || t.Op == "next" || t.Op == "pure") && t.Args[0] == coll
}

// isCertLookup: a function from an issuer to its certificate.
func isCertLookup(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if rs.Len() != 2 || !lastIsError(f) || !strings.HasSuffix(types.TypeString(rs.At(0).Type(), pkgShort), "x509.Certificate") {
		return false
	}
	for _, q := range f.Params {
		if isNamed(deref(q.Type()), "types.Issuer") {
			return true
		}
	}
	return false
}

func nameIn(fs map[*ssa.Function]bool) map[string]bool {
	m := map[string]bool{}
	for f := range fs {
		m[fname(f)] = true
	}
	return m
}

func checkAgg(p *Program, tier, prop string) *Result {
	r := NewResult(prop, aggRules[prop])
	a := findAgg(p)
	if a == nil {
		r.Bad("missing: entry decoder", "-", "no function decodes a revocation entry")
		return r
	}
	r.Counts["aggregating functions"] = len(a.roots)
	r.NeedAtLeast(1, "aggregating functions")
	if prop == "C23" {
		entryDecoder(p, r, a)
	}
	a.audit = auditMethods(p, r)
	if prop == "C22" {
		verifiedDownload(p, r)
	}
	if prop == "C21" || prop == "C22" {
		crlFetch(p, r, a)
	}
	if prop == "C21" {
		crlEnumerate(p, r)
		keepsCrls(p, r)
	}
	if prop == "C19" {
		certLookups(p, r)
	}
	for _, root := range a.roots {
		aggExplore(p, r, a, root)
	}
	return r
}

// keepsCrls: filing the CRLs of a certificate keeps those filed for the same
// issuer before and leaves none of the given ones out.
//
//	cur(list)    the element of list at hand has not been filed yet
//	set(s)       s holds CRLs of this certificate
//	left         an iteration ended without filing its element
func keepsCrls(p *Program, r *Result) {
	root := p.Fn(fnInsert)
	if root == nil || len(root.Params) < 3 {
		return
	}
	rule := &Rule{PureFn: pureTypes, NoChanVals: true, KeepFact: func(st *State, t *Term) bool { return t.HasSub(isLookup) }}
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		if coll == nil || strip(coll) != strip(x.Params[2]) {
			return
		}
		for _, m := range st.Marks("cur") {
			r.Check(false, st, "address-left-out", m.Pos, "a CRL of the issuer can be left out of those filed for it")
		}
		st.DelMarks("cur", nil)
		if more {
			st.AddMark("cur", x.pos(in), coll)
		}
	}
	rule.OnUpdate = func(x *Exec, st *State, m, k, v *Term, in ssa.Instruction) {
		pos := x.pos(in)
		if tableField(m) == "CrlMap" {
			r.Counts["updates of the CRLs of an issuer"]++
			ok := v.HasSub(func(u *Term) bool { return isLookup(u) && u.Args[1] == k })
			for f, val := range st.facts {
				if !f.HasSub(func(u *Term) bool { return isLookup(u) && len(u.Args) > 1 && u.Args[1] == k && tableField(u.Args[0]) == "CrlMap" }) {
					continue
				}
				switch {
				case f.Op == "ext" && f.Key == "1":
					ok = ok || !val // nothing was filed
				case f.Op == "isnil":
					ok = ok || val
				case f.Op == "eq" || f.Op == "lt":
					ok = true // its length was looked at
				}
			}
			r.Check(ok, st, "addresses-forgotten", pos, "the CRLs filed for the issuer before may be replaced by those of this certificate")
			st.DelMarks("set", func(m Mark) bool { return m.T[0] == v })
			st.AddMark("filedset", pos, v)
			return
		}
		if v.Typ != nil && isBoolType(v.Typ) && elemIn(k, strip(x.Params[2])) {
			st.DelMarks("cur", nil)
			known := m.HasSub(isLookup)
			for _, s := range st.Marks("filedset") {
				known = known || s.T[0] == m
			}
			if !known {
				st.AddMark("set", pos, m)
			}
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		for _, m := range st.Marks("cur") {
			r.Check(false, st, "address-left-out", m.Pos, "a CRL of the issuer can be left out of those filed for it")
		}
		for _, m := range st.Marks("set") {
			r.Check(false, st, "address-left-out", m.Pos, "the CRLs of a certificate are collected but not filed for its issuer")
		}
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(root)
	r.Absorb(x)
}

// aggExplore follows every path of a function that aggregates the CRLs of an
// issuer.
func aggExplore(p *Program, r *Result, a *aggParts, root *ssa.Function) {
	prop := r.Prop
	entry, decode, store, dp := nameIn(a.entry), nameIn(a.decode), nameIn(a.store), nameIn(a.dp)
	lookups := map[string]bool{}
	for _, f := range p.Funcs {
		if isCertLookup(f) {
			lookups[fname(f)] = true
		}
	}
	chk := func(pr string, ok bool, st *State, key, pos, format string, args ...any) {
		if pr == prop {
			r.Check(ok, st, key, pos, format, args...)
		}
	}
	ploops := map[string]bool{}
	var late []func()
	rule := &Rule{PureFn: func(n string) bool { return !entry[n] && !decode[n] && pureTypes(n) }}
	rule.OpaqueFn = func(n string) bool {
		return entry[n] || decode[n] || store[n] || dp[n] || lookups[n] || a.audit[n] != "" || strings.Contains(n, "MozIssuers).")
	}
	rule.WidenAt = 1
	rule.NoWrite = func(n string) bool { return a.audit[n] != "" || dp[n] }
	rule.KeepFact = func(st *State, t *Term) bool {
		for _, m := range st.marks {
			switch m.Kind {
			case "cert", "step", "dp", "parsed", "sig", "read", "eres":
			default:
				continue
			}
			for _, u := range m.T {
				if u != nil && u.Op != "const" && (t == u || t.Op == "isnil" && t.Args[0] == u) {
					return true
				}
			}
		}
		return false
	}
	crlMark := func(st *State) *Mark {
		for _, m := range st.Marks("crl") {
			m := m
			return &m
		}
		return nil
	}
	// inCrl notes that the loops over CRLs around this point process them
	inCrl := func(st *State) {
		for _, m := range st.Marks("crl") {
			ploops[m.T[1].Key] = true
		}
	}
	del := func(st *State, kinds ...string) {
		for _, k := range kinds {
			st.DelMarks(k, nil)
		}
	}
	entryLoopsOpen := func(st *State) string {
		for _, m := range st.Marks("ent") {
			return m.Pos
		}
		for _, m := range st.Marks("open") {
			return m.Pos
		}
		return ""
	}
	holds := func(st *State, b *ssa.BasicBlock, l *Term) bool {
		f := st.top()
		for _, i := range b.Instrs {
			if phi, ok := i.(*ssa.Phi); ok && f.env[phi] == l {
				return true
			}
		}
		for _, v := range st.heap {
			if v == l {
				return true
			}
		}
		return false
	}
	audited := func(st *State, kind string) bool {
		for _, m := range st.Marks("audit") {
			if m.T[0].Key == kind {
				return true
			}
		}
		return false
	}
	need := func(st *State, m Mark, kind, pos, what string) {
		r.Counts["outcomes that need an audit entry"]++
		ok := audited(st, kind)
		lk, tr := m.T[1].Key, st.Trace()
		key := "unaudited"
		late = append(late, func() {
			if ploops[lk] && prop == "C22" {
				r.Oblige(key+" "+kind+" at "+pos, ok)
				if !ok && r.Viol[key+"@"+pos+kind] == nil {
					r.Viol[key+"@"+pos+kind] = &Violation{Prop: prop, Key: key, Pos: pos, Msg: what + " but no audit entry of the kind \"" + kind + "\" is made", Trace: tr}
				}
			}
		})
	}
	// failures decides which audit entries the failing steps demand
	failures := func(x *Exec, st *State, m Mark) bool {
		bad := false
		for _, s := range st.Marks("step") {
			if x.KnownNil(st, s.T[0]) {
				continue
			}
			bad = true
			if !x.KnownNonNil(st, s.T[0]) {
				continue
			}
			switch s.T[1].Key {
			case "decoding", "decoding of an entry":
				need(st, m, "Failed Process Local", s.Pos, "the "+s.T[1].Key+" failed")
			default:
				need(st, m, "Failed Verify", s.Pos, "the "+s.T[1].Key+" failed")
			}
		}
		for _, s := range st.Marks("dp") {
			v, k := x.Truth(st, s.T[0])
			if !x.KnownNil(st, s.T[1]) || !k || !v {
				need(st, m, "Wrong distribution point", s.Pos, "the distribution point was not found to be right")
			}
		}
		return bad
	}
	// verified notes, for the revocations decoded since the last call, whether
	// their CRL is known to be verified and for which issuer
	verified := func(x *Exec, st *State) {
		for _, d := range st.Marks("dec") {
			why, iss := verifiedCrl(x, st, d.T[1])
			call := d.T[0]
			for call.Op == "old" {
				call = call.Args[0]
			}
			site := x.tt.mk("const", fmt.Sprint("site ", call.Site), 0, nil)
			if why != "" {
				st.AddMark("unver", d.Pos, site, x.tt.mk("const", why, 0, nil))
			} else {
				st.AddMark("decfor", d.Pos, site, iss)
			}
		}
	}
	// outcome decides what became of the CRL of the iteration that ends here
	outcome := func(x *Exec, st *State, m Mark, b *ssa.BasicBlock) {
		reason := ""
		bad := failures(x, st, m)
		for _, s := range st.Marks("step") {
			if !x.KnownNil(st, s.T[0]) {
				reason = "the " + s.T[1].Key + " at " + s.Pos + " is not known to have succeeded"
			}
		}
		dec := false
		for range st.Marks("dec") {
			dec = true
		}
		if st.HasMark("blank") {
			reason = "it was not fetched"
		} else if reason == "" && !dec {
			reason = "its revocations were not decoded"
		}
		if reason == "" {
			if w := entryLoopsOpen(st); w != "" {
				reason = "an entry of it was left out of the result (loop at " + w + ")"
			}
		}
		if reason == "" && st.HasMark("entany") {
			kept := false
			for _, k := range []string{"acc", "inner"} {
				for _, l := range st.Marks(k) {
					if b != nil && holds(st, b, l.T[0]) && (k == "inner" || st.HasMark("joined")) {
						kept = true
						st.DelMarks("acc", nil)
						st.DelMarks("inner", nil)
						st.AddMark("acc", l.Pos, l.T[0])
						break
					}
				}
			}
			if !kept {
				reason = "its revocations were not added to the list of the issuer"
			}
		}
		if st.HasMark("entany") {
			verified(x, st)
		}
		if !bad && dec && !st.HasMark("blank") {
			if st.HasMark("entany") {
				need(st, m, "Valid, Processed", m.Pos, "the CRL contributes")
			} else {
				need(st, m, "Empty Revocation List", m.Pos, "the CRL has no revocations")
			}
		}
		if reason != "" {
			st.AddMark("crlfailed", "", m.T[1])
		}
	}
	iterEnd := func(x *Exec, st *State, lk *Term, b *ssa.BasicBlock) {
		for _, m := range st.Marks("crl") {
			if m.T[1] != lk {
				continue
			}
			outcome(x, st, m, b)
			r.Counts["CRL iterations judged"]++
			del(st, "step", "dec", "blank", "ent", "open", "entany", "joined", "inner", "audit", "lostentry", "sig", "parsed", "read", "eres", "dp")
		}
		st.DelMarks("crl", func(m Mark) bool { return m.T[1] == lk })
	}
	rule.OnLoopHead = func(x *Exec, st *State, b *ssa.BasicBlock) {
		iterEnd(x, st, x.tt.mk("const", fmt.Sprintf("loop:%s:%d", fname(b.Parent()), b.Index), 0, nil), b)
	}
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		lk := loopKey(x, in)
		if elem != nil && elem.Op == "recv" && crlMark(st) == nil {
			// what was collected for the issuer before this one
			for _, l := range st.Marks("acc") {
				st.AddMark("stale", l.Pos, l.T[0])
			}
			del(st, "cert", "decfor", "unver", "crlfailed", "crlend", "acc", "inner", "step", "dec", "blank", "ent", "open", "entany", "joined", "audit", "lostentry", "sig", "parsed", "read", "eres", "dp")
		}
		if isCrlItems(coll.Typ) {
			iterEnd(x, st, lk, in.Block())
			if more {
				st.AddMark("crl", x.pos(in), coll, lk)
				st.DelMarks("crlend", nil)
			} else {
				st.AddMark("crlend", x.pos(in), coll, lk)
			}
			return
		}
		if s, ok := typeOf(coll).(*types.Slice); ok && types.Identical(s.Elem(), a.entryT) {
			for _, m := range st.Marks("ent") {
				if m.T[1] == lk {
					st.AddMark("lostentry", m.Pos)
					chk("C23", false, st, "entry-dropped", m.Pos, "an iteration over the entries of a CRL can end without adding the entry to the result")
				}
			}
			st.DelMarks("ent", func(m Mark) bool { return m.T[1] == lk })
			st.DelMarks("open", func(m Mark) bool { return m.T[1] == lk })
			st.DelMarks("step", func(m Mark) bool { return m.T[1].Key == "decoding of an entry" && x.KnownNil(st, m.T[0]) })
			st.DelMarks("eres", nil)
			if more {
				r.Counts["entry iterations"]++
				st.AddMark("ent", x.pos(in), coll, lk)
				st.AddMark("open", x.pos(in), coll, lk)
			}
		}
	}
	rule.OnAppend = func(x *Exec, st *State, res, base *Term, elems []*Term, spread bool, in ssa.Instruction) {
		if !isSliceOf(res.Typ, tSerialReason) {
			return
		}
		for _, m := range st.Marks("stale") {
			if m.T[0] == base {
				st.AddMark("stale", m.Pos, res)
			}
		}
		acc := st.Marks("acc")
		inner := st.Marks("inner")
		if !spread {
			hit := false
			for _, el := range elems {
				el = whole(el)
				for _, m := range st.Marks("ent") {
					if !elemIn(el, m.T[0]) {
						continue
					}
					hit = true
					st.DelMarks("ent", func(o Mark) bool { return o.key() == m.key() })
					okv := false
					for _, e := range st.Marks("eres") {
						if e.T[0] == el {
							okv = true
							chk("C23", x.KnownNil(st, e.T[1]), st, "undecoded-entry-kept", x.pos(in), "an entry is added to the result although decoding it may have failed")
						}
					}
					chk("C23", okv, st, "entry-altered", x.pos(in), "what is added to the result is not the decoded entry itself")
					r.Counts["entries added"]++
				}
			}
			if !hit {
				return
			}
			st.AddMark("entany", "")
			for _, m := range acc {
				if m.T[0] == base {
					st.DelMarks("acc", nil)
					st.AddMark("acc", x.pos(in), res)
					st.AddMark("joined", "")
					return
				}
			}
			if len(inner) > 0 && inner[0].T[0] != base {
				st.AddMark("lostentry", x.pos(in))
				chk("C23", false, st, "entry-dropped", x.pos(in), "the entry is added to another list than the one that holds the earlier entries of the CRL")
			}
			st.DelMarks("inner", nil)
			st.AddMark("inner", x.pos(in), res)
			return
		}
		for _, m := range inner {
			if m.T[0] == elems[0] {
				if len(acc) > 0 && acc[0].T[0] != base {
					return // the revocations of earlier CRLs are not in this list
				}
				st.DelMarks("acc", nil)
				st.DelMarks("inner", nil)
				st.AddMark("acc", x.pos(in), res)
				st.AddMark("joined", "")
			}
		}
	}
	rule.OnWiden = func(x *Exec, st *State, old, nt *Term) {
		for _, kind := range []string{"acc", "inner", "stale"} {
			for _, o := range st.Marks(kind) {
				if o.T[0] == old {
					st.DelMarks(kind, func(k Mark) bool { return k.key() == o.key() })
					st.AddMark(kind, o.Pos, nt)
				}
			}
		}
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if ci.Inl {
			return
		}
		step := func(what string, err *Term) {
			if m := crlMark(st); m != nil {
				inCrl(st)
				st.AddMark("step", ci.Pos, err, x.tt.mk("const", what, 0, nil))
			}
		}
		n := ci.Name
		switch {
		case lookups[n]:
			for i := range ci.Args {
				if v := issuerOf(x, st, ci, i); v != nil {
					st.AddMark("cert", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res), v)
				}
			}
		case isReadAll(n):
			st.AddMark("read", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res), ci.Arg(0))
			step("reading", x.ErrOf(ci, res))
		case isCrlParse(n):
			st.AddMark("parsed", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res), ci.Arg(0))
			step("parsing", x.ErrOf(ci, res))
		case strings.HasSuffix(n, mCheckSig):
			r.Counts["signature checks"]++
			st.AddMark("sig", ci.Pos, ci.Arg(1), ci.Arg(0), x.ErrOf(ci, res))
			step("signature check", x.ErrOf(ci, res))
		case strings.HasSuffix(n, ".RevocationList).CheckSignatureFrom"):
			r.Counts["signature checks"]++
			st.AddMark("sig", ci.Pos, ci.Arg(0), ci.Arg(1), x.ErrOf(ci, res))
			step("signature check", x.ErrOf(ci, res))
		case decode[n]:
			r.Counts["CRL decodings"]++
			inCrl(st)
			st.AddMark("dec", ci.Pos, res, ci.Arg(0))
			step("decoding", x.ErrOf(ci, res))
		case dp[n]:
			if crlMark(st) != nil {
				r.Counts["distribution point checks"]++
				st.AddMark("dp", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res))
			}
		case entry[n]:
			r.Counts["entry decodings"]++
			st.DelMarks("eres", nil)
			st.AddMark("eres", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res))
			step("decoding of an entry", x.ErrOf(ci, res))
		}
	}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		if k := a.audit[ci.Name]; k != "" && !ci.Inl {
			m := crlMark(st)
			if m == nil {
				return
			}
			r.Counts["audit calls"]++
			uok, iok := false, false
			for i := 1; i < len(ci.Args); i++ {
				if v := valueOf(x, st, ci, i, "net/url.URL"); v != nil {
					uok = curElem(v, m.T[0])
				}
				if iss := issuerOf(x, st, ci, i); iss != nil {
					iok = sameTuple(iss, m.T[0])
				}
			}
			chk("C22", uok, st, "audited-address", ci.Pos, "the audit entry does not name the address of the CRL at hand")
			chk("C22", iok, st, "audited-issuer", ci.Pos, "the audit entry does not name the issuer at hand")
			st.AddMark("audit", "", x.tt.mk("const", k, 0, nil))
			return
		}
		if !store[ci.Name] || ci.Inl {
			return
		}
		r.Counts["stores of a revoked list"]++
		var list, iss *Term
		for i, arg := range ci.Args {
			if isSliceOf(sigParam(ci, i), tSerialReason) {
				list = arg
			}
			if v := issuerOf(x, st, ci, i); v != nil {
				iss = v
			}
		}
		if list == nil {
			chk("C21", false, st, "list-unknown", ci.Pos, "the stored list was not recognised")
			chk("C19", false, st, "list-unknown", ci.Pos, "the stored list was not recognised")
			return
		}
		// C19
		for _, m := range st.Marks("stale") {
			chk("C19", m.T[0] != list, st, "other-issuer", ci.Pos, "the list of this issuer still holds the revocations collected for the issuer before it")
		}
		if crlMark(st) != nil {
			verified(x, st)
		}
		for _, it := range flatContrib(st, list) {
			it.t = whole(it.t)
			if it.t.Op == "nil" || it.t.Op == "zero" || it.spread && noElems(it.t) {
				continue
			}
			from := it.t.HasSub(func(u *Term) bool { return u.Op == "call" && decode[u.Key] })
			chk("C19", from, st, "foreign-revocation", ci.Pos, "the stored list may contain something that was not decoded from a CRL")
			decodedAt := func(m Mark) bool {
				return it.t.HasSub(func(u *Term) bool {
					return u.Op == "call" && decode[u.Key] && fmt.Sprint("site ", u.Site) == m.T[0].Key
				})
			}
			for _, m := range st.Marks("unver") {
				if decodedAt(m) {
					chk("C19", false, st, "unverified-crl", m.Pos, "revocations of this CRL are stored although %s", m.T[1].Key)
				}
			}
			for _, m := range st.Marks("decfor") {
				if decodedAt(m) {
					chk("C19", iss != nil && m.T[1] == iss, st, "other-issuer", ci.Pos, "revocations verified for one issuer are stored under another")
				}
			}
		}
		// C21
		for _, m := range st.Marks("crl") {
			lk, tr := m.T[1].Key, st.Trace()
			if st.HasMark("incomplete") {
				continue
			}
			late = append(late, func() {
				if ploops[lk] && prop == "C21" {
					r.Oblige("loop-not-ended at "+ci.Pos, false)
					r.Viol["loop-not-ended@"+ci.Pos] = &Violation{Prop: prop, Key: "loop-not-ended", Pos: ci.Pos, Msg: "the list is written before all CRLs of the issuer were processed", Trace: tr}
				}
			})
		}
		for _, m := range st.Marks("crlfailed") {
			lk, tr, pos := m.T[0].Key, st.Trace(), ci.Pos
			late = append(late, func() {
				if ploops[lk] && prop == "C21" {
					r.Oblige("failed-crl-ignored at "+pos, false)
					if r.Viol["failed-crl-ignored@"+pos] == nil {
						r.Viol["failed-crl-ignored@"+pos] = &Violation{Prop: prop, Key: "failed-crl-ignored", Pos: pos, Msg: "the list is written although one of the CRLs was not fetched, verified, decoded or added to the list (see the path)", Trace: tr}
					}
				}
			})
		}
		same := false
		for _, m := range st.Marks("crlend") {
			c := m.T[0]
			same = true
			if iss != nil {
				chk("C21", sameTuple(iss, c), st, "other-issuers-crls", ci.Pos, "the CRLs that were processed are not those of the issuer whose list is written")
			}
		}
		chk("C21", same, st, "loop-not-ended", ci.Pos, "the list is written on a path on which the CRLs of the issuer were not run over")
		for _, m := range st.Marks("acc") {
			chk("C21", list == m.T[0], st, "other-list-written", ci.Pos, "the written list is not the one that holds the revocations of all CRLs")
		}
	}
	rule.OnBranch = func(x *Exec, st *State, in *ssa.If, cond *Term, taken bool) {
		c := strip(cond)
		for c.Op == "not" {
			c, taken = c.Args[0], !taken
		}
		if c.Op != "eq" && c.Op != "lt" || len(c.Args) != 1 {
			return
		}
		l := c.Args[0]
		if l.Op != "pure" || l.Key != "len" {
			return
		}
		if empty, known := x.Truth(st, x.tt.mk("eq", "1,;0", 0, types.Typ[types.Bool], l)); !known || !empty {
			return
		}
		if m := crlMark(st); m != nil && pathOfElem(l.Args[0], m.T[0]) {
			st.AddMark("blank", "")
		}
		for _, m := range st.Marks("inner") {
			if m.T[0] == l.Args[0] {
				x.Kill() // it holds at least one entry
			}
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		for _, m := range st.Marks("crl") {
			failures(x, st, m)
		}
	}
	x := NewExec(p, prop, rule)
	x.Run(root)
	if prof != nil {
		prof.print()
	}
	for _, f := range late {
		f()
	}
	r.Absorb(x)
	switch prop {
	case "C23":
		r.NeedAtLeast(1, "entries added")
	case "C19", "C21", "C22":
		r.NeedAtLeast(1, "stores of a revoked list")
		r.NeedAtLeast(1, "CRL decodings")
		r.NeedAtLeast(1, "CRL iterations judged")
		r.NeedAtLeast(1, "signature checks")
	}
}

func typeOf(t *Term) types.Type {
	if t.Typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.Typ.Underlying()
}

func sigParam(ci *CallInfo, i int) types.Type {
	if ci.Sig == nil {
		return types.Typ[types.Invalid]
	}
	if ci.Sig.Recv() != nil {
		i--
	}
	if i < 0 || i >= ci.Sig.Params().Len() {
		return types.Typ[types.Invalid]
	}
	return ci.Sig.Params().At(i).Type()
}

// argOf is argument i of a call without wrapping, and its type.
func argOf(ci *CallInfo, i int) (*Term, types.Type) {
	t := ci.Arg(i)
	if t == nil {
		return nil, types.Typ[types.Invalid]
	}
	typ := sigParam(ci, i)
	for t != nil && (t.Op == "iface" || t.Op == "conv") {
		if t.Op == "iface" && t.Typ != nil {
			typ = t.Typ
		}
		t = t.Args[0]
	}
	if types.IsInterface(typ) && t != nil {
		if t.Typ != nil {
			typ = t.Typ
		} else if pt := pointee(t); pt != nil {
			typ = types.NewPointer(pt)
		}
	}
	return t, typ
}

// pointee is the type of what address t points to.
func pointee(t *Term) types.Type {
	if t.Typ != nil {
		if p, ok := t.Typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	switch t.Op {
	case "old":
		return pointee(t.Args[0])
	case "fieldaddr":
		b := pointee(t.Args[0])
		if b == nil {
			return nil
		}
		if s, ok := b.Underlying().(*types.Struct); ok {
			var i int
			fmt.Sscanf(t.Key, "%d", &i)
			if i < s.NumFields() {
				return s.Field(i).Type()
			}
		}
	}
	return nil
}

// noElems: a list that is made without elements.
func noElems(t *Term) bool {
	for t.Op == "old" {
		t = t.Args[0]
	}
	if t.Op == "pure" && t.Key == "slice" && len(t.Args) > 2 {
		if n, ok := t.Args[2].IntConst(); ok && n == 0 {
			return true
		}
	}
	return false
}

// whole undoes the splitting of a struct value into its fields.
func whole(t *Term) *Term {
	if t == nil || t.Op != "agg" || len(t.Args) == 0 {
		return t
	}
	var base *Term
	for i, a := range t.Args {
		a = whole(a)
		var k int
		if a.Op != "field" {
			return t
		}
		if fmt.Sscanf(a.Key, "%d", &k); k != i || base != nil && base != a.Args[0] {
			return t
		}
		base = a.Args[0]
	}
	if s, ok := typeOf(base).(*types.Struct); base.Typ != nil && ok && s.NumFields() == len(t.Args) {
		return base
	}
	return t
}

// valueOf is the value of the named type that argument i is or points to.
func valueOf(x *Exec, st *State, ci *CallInfo, i int, name string) *Term {
	t, typ := argOf(ci, i)
	if t == nil {
		return nil
	}
	if isNamed(typ, name) {
		return t
	}
	if pt, ok := typ.Underlying().(*types.Pointer); ok && isNamed(pt.Elem(), name) {
		return x.load(st, t, pt.Elem())
	}
	return nil
}

// issuerOf is the issuer that argument i is or points to.
func issuerOf(x *Exec, st *State, ci *CallInfo, i int) *Term {
	return valueOf(x, st, ci, i, "types.Issuer")
}

// sameTuple tells whether the issuer belongs to the work item that holds the
// list of CRLs coll.
func sameTuple(iss, coll *Term) bool {
	if coll.Op != "field" {
		return true
	}
	return iss.HasSub(func(u *Term) bool { return u.Op == "field" && u.Args[0] == coll.Args[0] })
}

func isReadAll(n string) bool {
	switch n {
	case "os.ReadFile", "ioutil.ReadFile", "io/ioutil.ReadFile", "io.ReadAll", "io/ioutil.ReadAll":
		return true
	}
	return false
}

func isCrlParse(n string) bool {
	for _, s := range []string{"x509.ParseCRL", "x509.ParseDERCRL", "x509.ParseCertificateListDER", "x509.ParseCertificateList", "x509.ParseRevocationList"} {
		if strings.HasSuffix(n, s) {
			return true
		}
	}
	return false
}

// auditEntry is the type of one entry of the audit report: a struct with a
// kind, an address and an issuer.
func auditEntry(t types.Type) *types.Struct {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || fieldNo(s, "Kind") < 0 || fieldNo(s, "Url") < 0 || fieldNo(s, "Issuer") < 0 {
		return nil
	}
	return s
}

func fieldNo(s *types.Struct, name string) int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// auditList is the number of the field of struct t that holds audit entries.
func auditList(t types.Type) int {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && auditEntry(sl.Elem()) != nil {
			return i
		}
	}
	return -1
}

// auditMethods explores the methods that record an audit entry: each appends
// exactly one, of a fixed kind, with the address and issuer it was given.
func auditMethods(p *Program, r *Result) map[string]string {
	kinds := map[string]string{}
	for _, f := range p.Funcs {
		if f.Signature.Recv() == nil || f.Synthetic != "" || f.Parent() != nil || len(f.Params) == 0 {
			continue
		}
		li := auditList(f.Params[0].Type())
		if li < 0 {
			continue
		}
		url, iss := -1, -1
		for i, q := range f.Params[1:] {
			if isUrl(q.Type()) {
				url = i + 1
			}
			if iss < 0 && (types.IsInterface(q.Type()) && !isErrorType(q.Type()) || isNamed(deref(q.Type()), "types.Issuer")) {
				iss = i + 1
			}
		}
		if url < 0 || iss < 0 {
			continue
		}
		recvT := deref(f.Params[0].Type())
		kind, bad := "", ""
		rule := &Rule{PureFn: pureTypes, KeepFact: keepAll}
		rule.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.Op != "fieldaddr" || addr.Args[0] != x.Params[0] || addr.Key != fieldKey(recvT, li) {
				return
			}
			nw := 0
			var oldKept bool
			for _, it := range st.contrib[val] {
				if it.spread {
					oldKept = oldKept || it.t.Op == "field" || it.t.Op == "deref" || strings.Contains(it.t.raw(), fieldKey(recvT, li))
					continue
				}
				nw++
				en := it.t
				es := auditEntry(en.Typ)
				if es == nil {
					continue
				}
				get := func(name string) *Term {
					return x.tt.field(en, fieldKey(en.Typ, fieldNo(es, name)), es.Field(fieldNo(es, name)).Type())
				}
				k := kindText(p, get("Kind"))
				if k == "" || kind != "" && kind != k {
					bad = "records an entry without a fixed kind"
				}
				kind = k
				if !get("Url").Contains(x.Params[url]) {
					bad = "does not record the address it was given"
				}
				if !get("Issuer").Contains(x.Params[iss]) {
					bad = "does not record the issuer it was given"
				}
			}
			if nw != 1 {
				bad = fmt.Sprintf("adds %d entries at a time", nw)
			}
			if !oldKept {
				bad = "does not keep the earlier entries"
			}
			if st.HasMark("added") {
				bad = "may add more than one entry"
			}
			st.AddMark("added", x.pos(in))
		}
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			if !st.HasMark("added") {
				bad = "may return without having added an entry"
			}
		}
		x := NewExec(p, r.Prop, rule)
		x.Run(f)
		if kind == "" && bad == "may return without having added an entry" {
			continue // not an audit method
		}
		kinds[fname(f)] = kind
		if r.Prop == "C22" {
			r.Absorb(x)
			r.Counts["audit methods"]++
			r.Check(bad == "", nil, "audit-method", fname(f), "%s %s", fname(f), bad)
		} else if x.Err != nil {
			r.Absorb(x)
		}
	}
	return kinds
}

// kindText is the text of a kind: a constant, or a package variable that is
// initialised once with a constant.
func kindText(p *Program, t *Term) string {
	if c, ok := strConst(t); ok {
		return c
	}
	g := ""
	for u := range t.Subs() {
		if u.Op == "global" {
			if g != "" {
				return ""
			}
			g = u.Key
		}
	}
	if g == "" {
		return ""
	}
	text, n := "", 0
	for _, pkg := range p.Prog.AllPackages() {
		for _, mem := range pkg.Members {
			f, ok := mem.(*ssa.Function)
			if !ok || !strings.HasPrefix(shortName(pkg.Pkg.Path()), g[:strings.LastIndex(g, ".")]) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					gl, ok := s.Addr.(*ssa.Global)
					if !ok || shortName(gl.String()) != g {
						continue
					}
					n++
					if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						text = constant.StringVal(c.Value)
					}
				}
			}
		}
	}
	if n != 1 {
		return ""
	}
	return text
}

// verifiedCrl explains why the bytes t are not known to belong to a CRL whose
// signature was verified; otherwise it returns the issuer they were verified for.
func verifiedCrl(x *Exec, st *State, t *Term) (string, *Term) {
	why := "its signature was not checked"
	for _, s := range st.Marks("sig") {
		crl := s.T[0]
		if !t.Contains(crl) {
			continue
		}
		if !x.KnownNil(st, s.T[2]) {
			why = "its signature check may have failed"
			continue
		}
		ok := false
		for _, q := range st.Marks("parsed") {
			if q.T[0] != crl {
				continue
			}
			if !x.KnownNil(st, q.T[1]) {
				why = "parsing it may have failed"
				continue
			}
			for _, rd := range st.Marks("read") {
				if q.T[2].Contains(rd.T[0]) {
					if x.KnownNil(st, rd.T[1]) {
						ok = true
					} else {
						why = "reading it may have failed"
					}
				}
			}
			if !ok && why == "its signature was not checked" {
				why = "the parsed bytes were not read in this call"
			}
		}
		if !ok {
			continue
		}
		for _, c := range st.Marks("cert") {
			if s.T[1] == c.T[0] {
				if x.KnownNil(st, c.T[1]) {
					return "", c.T[2]
				}
				why = "the certificate it was checked against may not have been found"
			}
		}
		if why == "its signature was not checked" {
			why = "its signature was checked against a certificate that was not looked up for an issuer"
		}
	}
	return why, nil
}
