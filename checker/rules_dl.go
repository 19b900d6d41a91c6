package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C20"] = func(p *Program, tier string) *Result {
		r := NewResult("C20", "on every path of the verified download: the address is downloaded to another path than the local copy's, only a path that was downloaded and then accepted by the verifier is moved over the local copy, the downloaded path is moved or removed before every return, the local copy is reported usable only after that move or after the verifier accepted it in this call, and every download or verification of downloaded data that may have failed is passed to the auditor; every verifier accepts only after a signature check of what it read from that path against its issuer's certificate; the caller passes a CRL on only if it was reported usable")
		verifiedDownload(p, r)
		verifierImpls(p, r)
		crlFetch(p, r, findAggOrBad(p, r))
		return r
	}
}

const davName = "downloader.DownloadAndVerifyFileSync"
const dlName = "downloader.DownloadFileSync"

func findAggOrBad(p *Program, r *Result) *aggParts {
	a := findAgg(p)
	if a == nil {
		r.Bad("missing: entry decoder", "-", "no function decodes a revocation entry")
		return nil
	}
	a.audit = auditMethods(p, r)
	return a
}

// verifiedDownload decides C20, and the part of C22 about failing downloads,
// for the function that downloads and verifies a file.
func verifiedDownload(p *Program, r *Result) {
	chk := func(pr string, ok bool, st *State, key, pos, format string, args ...any) {
		if pr == r.Prop {
			r.Check(ok, st, key, pos, format, args...)
		}
	}
	f := p.Fn(davName)
	if f == nil {
		r.Bad("missing: "+davName, "-", "no function %s", davName)
		return
	}
	par := func(is func(types.Type) bool) int {
		for i, q := range f.Params {
			if is(q.Type()) {
				return i
			}
		}
		return -1
	}
	pi := par(func(t types.Type) bool { return isStringType(t) })
	ui := par(isUrl)
	if pi < 0 || ui < 0 {
		r.Bad("missing: parameters of "+davName, "-", "no path or address parameter")
		return
	}
	rule := &Rule{PureFn: pureTypes, KeepFact: keepAll}
	rule.OpaqueFn = func(n string) bool { return n == dlName || strings.HasSuffix(n, ").IsValid") }
	var final *Term
	rule.Init = func(x *Exec, st *State, _ []*Term) { final = x.Params[pi] }
	auditKind := func(n string) string {
		for _, s := range []string{"FailedDownload", "FailedVerifyUrl", "FailedVerifyPath"} {
			if strings.HasSuffix(n, ")."+s) {
				return s
			}
		}
		return ""
	}
	rule.NoWrite = func(n string) bool { return auditKind(n) != "" }
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		if ci.Inl {
			return
		}
		n := ci.Name
		if k := auditKind(n); k != "" {
			r.Counts["audit calls"]++
			uok, iok := false, false
			for i := 1; i < len(ci.Args); i++ {
				t, typ := argOf(ci, i)
				if v := valueOf(x, st, ci, i, "net/url.URL"); v != nil {
					uok = whole(v) == x.Params[ui] || sameValue(v, x.Params[ui])
				}
				if t != nil && !uok {
					_ = typ
				}
				for j, q := range f.Params {
					if types.IsInterface(q.Type()) && strings.HasSuffix(types.TypeString(q.Type(), pkgShort), "DownloadIdentifier") && t == x.Params[j] {
						iok = true
					}
				}
			}
			chk("C22", uok, st, "audited-address", ci.Pos, "the audit entry does not name the address that was downloaded")
			chk("C22", iok, st, "audited-issuer", ci.Pos, "the audit entry does not name the issuer that was given")
			st.AddMark("audit", ci.Pos, x.tt.mk("const", k, 0, nil))
			return
		}
		switch {
		case n == dlName:
			r.Counts["downloads"]++
			path := ci.Arg(2)
			chk("C20", path != final, st, "downloaded-in-place", ci.Pos, "the download goes directly to the local copy")
			st.DelMarks("valid", func(m Mark) bool { return m.T[0] == path })
			st.AddMark("tmp", ci.Pos, path)
		case n == "os.Rename":
			if ci.Arg(1) != final {
				return
			}
			r.Counts["replacements of the local copy"]++
			src := ci.Arg(0)
			ok, why := false, "it was not downloaded in this call"
			for _, d := range st.Marks("dl") {
				if d.T[0] != src {
					continue
				}
				if !x.KnownNil(st, d.T[1]) {
					why = "downloading it may have failed"
					continue
				}
				why = "it was not verified"
				for _, v := range st.Marks("valid") {
					if v.T[0] == src {
						if x.KnownNil(st, v.T[1]) {
							ok = true
						} else {
							why = "its verification may have failed"
						}
					}
				}
			}
			chk("C20", ok, st, "unverified-replace", ci.Pos, "a file is moved over the local copy although %s", why)
			st.DelMarks("valid", func(m Mark) bool { return m.T[0] == final })
		case isFsMutation(n) && n != "os.Rename":
			for i := range ci.Args {
				if ci.Arg(i) == final {
					chk("C20", false, st, "local-copy-changed", ci.Pos, "%s changes the local copy without it being replaced by a verified download", n)
				}
			}
		}
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if ci.Inl {
			return
		}
		n := ci.Name
		switch {
		case n == dlName:
			st.DelMarks("dl", func(m Mark) bool { return m.T[0] == ci.Arg(2) })
			st.AddMark("dl", ci.Pos, ci.Arg(2), x.ErrOf(ci, res))
			st.AddMark("dlfail", ci.Pos, x.ErrOf(ci, res))
		case strings.HasSuffix(n, ").IsValid"):
			r.Counts["verifications"]++
			path := ci.Arg(len(ci.Args) - 1)
			st.DelMarks("valid", func(m Mark) bool { return m.T[0] == path })
			st.AddMark("valid", ci.Pos, path, x.ErrOf(ci, res))
			if path != final {
				st.AddMark("vfail", ci.Pos, x.ErrOf(ci, res))
			}
		case n == "os.Rename":
			if ci.Arg(1) == final {
				st.AddMark("moved", ci.Pos, x.ErrOf(ci, res), ci.Arg(0))
			}
		case n == "os.Remove" || n == "os.RemoveAll":
			st.DelMarks("tmp", func(m Mark) bool { return m.T[0] == ci.Arg(0) })
		}
	}
	end := func(x *Exec, st *State) {
		for _, m := range st.Marks("tmp") {
			ok := false
			for _, v := range st.Marks("moved") {
				ok = ok || v.T[1] == m.T[0] && x.KnownNil(st, v.T[0])
			}
			chk("C20", ok, st, "temporary-left", m.Pos, "the function can end without the downloaded file being moved or removed")
		}
	}
	rule.OnAbort = func(x *Exec, st *State, ci *CallInfo) { end(x, st) }
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		end(x, st)
		r.Counts["returns"]++
		audited := func(kinds ...string) bool {
			for _, m := range st.Marks("audit") {
				for _, k := range kinds {
					if m.T[0].Key == k || k == "" {
						return true
					}
				}
			}
			return false
		}
		for _, pr := range []string{"C20", "C22"} {
			for _, m := range st.Marks("dlfail") {
				chk(pr, x.KnownNil(st, m.T[0]) || audited("FailedDownload"), st, "unreported-download", m.Pos, "the download may have failed without the auditor being told")
			}
			for _, m := range st.Marks("vfail") {
				chk(pr, x.KnownNil(st, m.T[0]) || audited("FailedVerifyUrl", "FailedVerifyPath"), st, "unreported-verification", m.Pos, "the verification of downloaded data may have failed without the auditor being told")
			}
		}
		usable := func(st *State) {
			ok := false
			for _, m := range st.Marks("moved") {
				ok = ok || x.KnownNil(st, m.T[0])
			}
			for _, m := range st.Marks("valid") {
				ok = ok || m.T[0] == final && x.KnownNil(st, m.T[1])
			}
			chk("C20", ok, st, "unverified-reported-usable", davName, "the local copy can be reported usable although it was neither just replaced nor verified")
		}
		v, k := x.Truth(st, res[0])
		if !k || v {
			s := st.clone()
			if k || x.Assume(s, res[0], true) {
				usable(s)
			}
		}
		if !k || !v {
			s := st.clone()
			if k || x.Assume(s, res[0], false) {
				chk("C22", audited(""), s, "unaudited-exclusion", davName, "the file can be reported unusable without any audit entry being made")
			}
		}
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(f)
	r.Absorb(x)
	r.NeedAtLeast(1, "downloads")
	r.NeedAtLeast(1, "verifications")
	r.NeedAtLeast(1, "replacements of the local copy")
}

// sameValue: the struct value v is base, possibly split into its fields.
func sameValue(v, base *Term) bool {
	if whole(v) == whole(base) {
		return true
	}
	if v.Op != "agg" || base.Op != "agg" || len(v.Args) != len(base.Args) {
		return false
	}
	for i := range v.Args {
		if v.Args[i] != base.Args[i] {
			return false
		}
	}
	return true
}

// verifierImpls checks every implementation of the verifier interface.
func verifierImpls(p *Program, r *Result) {
	dav := p.Fn(davName)
	if dav == nil {
		return
	}
	for _, f := range p.Funcs {
		if f.Name() != "IsValid" || f.Signature.Recv() == nil || f.Synthetic != "" || f.Signature.Results().Len() != 1 || !lastIsError(f) || len(f.Params) != 2 {
			continue
		}
		if !implementsVerifier(dav, f) {
			continue
		}
		r.Counts["verifiers"]++
		rule := &Rule{PureFn: pureTypes, KeepFact: keepAll}
		rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			if ci.Inl {
				return
			}
			noteCrlSteps(x, st, ci, res)
		}
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			if x.KnownNonNil(st, res[len(res)-1]) {
				return
			}
			s := st.clone()
			if e := res[len(res)-1]; !x.KnownNil(s, e) && !x.Assume(s, x.isNilTerm(e), true) {
				return
			}
			ok, why := false, "its signature was not checked"
			for _, m := range s.Marks("sig") {
				if !x.KnownNil(s, m.T[2]) {
					why = "its signature check may have failed"
					continue
				}
				if !m.T[1].Contains(x.Params[0]) {
					why = "its signature was not checked against the certificate of the verifier"
					continue
				}
				why = "the checked CRL was not parsed from the file"
				for _, q := range s.Marks("parsed") {
					if q.T[0] != m.T[0] {
						continue
					}
					if !x.KnownNil(s, q.T[1]) {
						why = "parsing it may have failed"
						continue
					}
					for _, rd := range s.Marks("read") {
						if q.T[2].Contains(rd.T[0]) && x.KnownNil(s, rd.T[1]) && rd.T[2].HasSub(func(u *Term) bool { return u == x.Params[1] }) {
							ok = true
						}
					}
				}
			}
			r.Check(ok, s, "accepted-unverified", fname(f), "%s can accept a file although %s", fname(f), why)
		}
		x := NewExec(p, r.Prop, rule)
		x.Run(f)
		r.Absorb(x)
	}
	r.NeedAtLeast(1, "verifiers")
}

func implementsVerifier(dav, f *ssa.Function) bool {
	for _, q := range dav.Params {
		it, ok := q.Type().Underlying().(*types.Interface)
		if !ok || it.NumMethods() == 0 {
			continue
		}
		has := false
		for i := 0; i < it.NumMethods(); i++ {
			has = has || it.Method(i).Name() == "IsValid"
		}
		if has && types.Implements(f.Signature.Recv().Type(), it) {
			return true
		}
	}
	return false
}

// noteCrlSteps marks the reading, parsing and signature checks of CRLs.
func noteCrlSteps(x *Exec, st *State, ci *CallInfo, res *Term) {
	n := ci.Name
	switch {
	case isReadAll(n):
		st.AddMark("read", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res), ci.Arg(0))
	case isCrlParse(n):
		st.AddMark("parsed", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res), ci.Arg(0))
	case strings.HasSuffix(n, mCheckSig):
		st.AddMark("sig", ci.Pos, ci.Arg(1), ci.Arg(0), x.ErrOf(ci, res))
	case strings.HasSuffix(n, ".RevocationList).CheckSignatureFrom"):
		st.AddMark("sig", ci.Pos, ci.Arg(0), ci.Arg(1), x.ErrOf(ci, res))
	}
}

// isUrlList: a list of addresses.
func isUrlList(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isUrl(s.Elem())
}

func isWorkItem(t types.Type, is func(types.Type) bool) bool {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if is(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

// crlFetch follows the functions that fetch the CRLs of an issuer (C20, C21, C22).
func crlFetch(p *Program, r *Result, a *aggParts) {
	if a == nil {
		return
	}
	g := p.Graph()
	var roots []*ssa.Function
	dav := p.Fn(davName)
	for _, f := range p.Funcs {
		if f.Synthetic != "" || dav == nil || !g.Reach(f)[dav] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ch types.Type
				switch y := in.(type) {
				case *ssa.UnOp:
					if c, ok := y.X.Type().Underlying().(*types.Chan); ok {
						ch = c.Elem()
					}
				case *ssa.Select:
					for _, s := range y.States {
						if s.Dir == types.RecvOnly {
							c := s.Chan.Type().Underlying().(*types.Chan).Elem()
							if isWorkItem(c, isUrlList) {
								ch = c
							}
						}
					}
				}
				if ch != nil && isWorkItem(ch, isUrlList) && (len(roots) == 0 || roots[len(roots)-1] != f) {
					roots = append(roots, f)
				}
			}
		}
	}
	r.Counts["fetching functions"] = len(roots)
	r.NeedAtLeast(1, "fetching functions")
	for _, f := range roots {
		crlFetchRoot(p, r, a, f)
	}
	r.NeedAtLeast(1, "CRLs handed on")
	r.NeedAtLeast(1, "lists handed on")
}

func crlFetchRoot(p *Program, r *Result, a *aggParts, root *ssa.Function) {
	chk := func(pr string, ok bool, st *State, key, pos, format string, args ...any) {
		if strings.Contains(pr, r.Prop) {
			r.Check(ok, st, key, pos, format, args...)
		}
	}
	lookups := map[string]bool{}
	for _, f := range p.Funcs {
		if isCertLookup(f) {
			lookups[fname(f)] = true
		}
	}
	rule := &Rule{PureFn: pureTypes, WidenAt: 1, NoContrib: true}
	rule.KeepFact = func(st *State, t *Term) bool {
		for _, m := range st.marks {
			if m.Kind != "cert" && m.Kind != "dav" {
				continue
			}
			for _, u := range m.T[:2] {
				if t == u || t.Op == "isnil" && t.Args[0] == u {
					return true
				}
			}
		}
		return false
	}
	rule.OpaqueFn = func(n string) bool {
		return n == davName || lookups[n] || a.audit[n] != "" || strings.Contains(n, "MozIssuers).")
	}
	rule.NoWrite = func(n string) bool { return a.audit[n] != "" || n == davName }
	tupleKinds := []string{"cur", "urlend", "acc", "lost", "cert", "sent"}
	iterKinds := []string{"item", "dav", "audit", "age"}
	del := func(st *State, ks []string) {
		for _, k := range ks {
			st.DelMarks(k, nil)
		}
	}
	judge := func(x *Exec, st *State, m Mark) {
		coll := m.T[0]
		items := st.Marks("item")
		if len(items) != 1 {
			what := "without being handed on"
			if len(items) > 1 {
				what = "being handed on more than once"
			}
			_ = what
			st.AddMark("lost", m.Pos)
			return
		}
		it := items[0]
		r.Counts["CRLs handed on"]++
		path := it.T[0]
		blank := false
		if c, ok := strConst(path); ok {
			blank = c == ""
		} else if v, k := x.Truth(st, x.tt.mk("eq", "1,;0", 0, types.Typ[types.Bool], x.lenOf(path))); k {
			blank = v
		}
		if blank {
			ok := len(st.Marks("audit")) > 0
			for _, d := range st.Marks("dav") {
				v, k := x.Truth(st, d.T[0])
				ok = ok || k && !v
			}
			chk("C22", ok, st, "unaudited-exclusion", it.Pos, "a CRL is handed on without a path, which excludes it, although neither the download reported it unusable nor an audit entry was made")
			return
		}
		ok, why := false, "it was not downloaded or verified"
		for _, d := range st.Marks("dav") {
			v, k := x.Truth(st, d.T[0])
			switch {
			case d.T[4] != path:
				why = "another path was downloaded"
			case !k || !v:
				why = "it was not reported usable"
			case !curElem(d.T[2], coll):
				why = "it was downloaded from another address"
			case !sameTuple(d.T[3], coll):
				why = "it was downloaded for another issuer"
			default:
				ok = true
			}
		}
		chk("C20 C21", ok, st, "unusable-passed-on", it.Pos, "the path of a CRL is handed on although %s", why)
		old, known := false, false
		for _, g := range st.Marks("age") {
			known = true
			old = old || g.T[0].Key == "old"
		}
		chk("C22", known, st, "age-unchecked", it.Pos, "a CRL is handed on without the age of its file being compared with the limit")
		if old {
			okA := false
			for _, q := range st.Marks("audit") {
				okA = okA || q.T[0].Key == "Not Fresh, Warning"
			}
			r.Counts["old CRLs"]++
			chk("C22", okA, st, "old-unaudited", it.Pos, "a CRL whose file is too old is handed on without an audit entry that says so")
		}
	}
	iterEnd := func(x *Exec, st *State, lk *Term) {
		for _, m := range st.Marks("cur") {
			if m.T[1] == lk {
				judge(x, st, m)
				del(st, iterKinds)
			}
		}
		st.DelMarks("cur", func(m Mark) bool { return m.T[1] == lk })
	}
	rule.OnLoopHead = func(x *Exec, st *State, b *ssa.BasicBlock) {
		if len(b.Instrs) > 0 {
			iterEnd(x, st, loopKey(x, b.Instrs[0]))
		}
	}
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		if elem != nil && elem.Op == "recv" {
			del(st, tupleKinds)
			del(st, iterKinds)
			return
		}
		if !isUrlList(coll.Typ) {
			return
		}
		lk := loopKey(x, in)
		iterEnd(x, st, lk)
		if more {
			r.Counts["addresses"]++
			st.DelMarks("urlend", nil)
			st.AddMark("cur", x.pos(in), coll, lk)
		} else {
			st.AddMark("urlend", x.pos(in), coll)
		}
	}
	add := func(x *Exec, st *State, el, base, res *Term, pos string) {
		s, ok := typeOf(el).(*types.Struct)
		cur := st.Marks("cur")
		if !ok || len(cur) == 0 {
			chk("C21", false, st, "foreign-item", pos, "something else than the CRLs of the issuer is added to the list")
			return
		}
		coll := cur[0].T[0]
		var path *Term
		for i := 0; i < s.NumFields(); i++ {
			v := x.tt.field(el, fieldKey(el.Typ, i), s.Field(i).Type())
			if isUrl(s.Field(i).Type()) {
				chk("C21", curElem(v, coll) && (whole(v).Op != "agg"), st, "address-altered", pos, "the address that is handed on is not the one at hand")
			} else if isStringType(s.Field(i).Type()) {
				path = v
			}
		}
		acc := st.Marks("acc")
		if len(acc) > 0 && acc[0].T[0] != base {
			st.AddMark("lost", pos)
		}
		if len(acc) == 0 && base != nil {
			b := base
			for b.Op == "old" {
				b = b.Args[0]
			}
			fresh := b.Op == "nil" || b.Op == "zero" || b.Op == "make" || b.Op == "list" || noElems(b) && b.Op == "pure" && madeHere(b)
			chk("C21", fresh || base.Op == "phi", st, "reused-list", pos, "the list of the issuer's CRLs does not start out as a new, empty list")
			chk("C21", !reusedArray(st, base, pos), st, "reused-array", pos, "the list of the issuer's CRLs is built in the memory of a list that was handed on before")
		}
		st.DelMarks("acc", nil)
		st.AddMark("acc", pos, res)
		if path != nil {
			st.AddMark("item", pos, path)
		}
	}
	rule.OnAppend = func(x *Exec, st *State, res, base *Term, elems []*Term, spread bool, in ssa.Instruction) {
		if !isCrlItems(res.Typ) || spread {
			return
		}
		for _, el := range elems {
			add(x, st, el, base, res, x.pos(in))
		}
	}
	rule.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
		if addr.Op == "indexaddr" && addr.Args[0].Typ != nil && isCrlItems(addr.Args[0].Typ) && len(st.Marks("cur")) > 0 {
			add(x, st, val, nil, addr.Args[0], x.pos(in))
		}
	}
	rule.OnWiden = func(x *Exec, st *State, old, nt *Term) {
		for _, o := range st.Marks("acc") {
			if o.T[0] == old {
				st.DelMarks("acc", nil)
				st.AddMark("acc", o.Pos, nt)
			}
		}
	}
	rule.OnBranch = func(x *Exec, st *State, in *ssa.If, cond *Term, taken bool) {
		if len(st.Marks("cur")) == 0 {
			return
		}
		c := strip(cond)
		for c.Op == "not" {
			c, taken = strip(c.Args[0]), !taken
		}
		ageOf := func(t *Term) bool {
			return t.HasSub(func(u *Term) bool {
				return (u.Op == "call" || u.Op == "pure") && (strings.HasSuffix(u.Key, ".ModTime") || u.Key == "downloader.GetSizeAndDateOfFile")
			})
		}
		note := func(old bool) {
			r.Counts["age comparisons"]++
			k := "fresh"
			if old {
				k = "old"
			}
			st.AddMark("age", x.pos(in), x.tt.mk("const", k, 0, nil))
		}
		switch {
		case c.Op == "lt":
			co, _ := decodeLin(c)
			n, sgn := 0, int64(0)
			for i, t := range c.Args {
				if i < len(co) && ageOf(t) {
					n++
					sgn = co[i]
				}
			}
			if n == 1 {
				note(sgn < 0 == taken)
			}
		case (c.Op == "pure" || c.Op == "call") && len(c.Args) > 1 && (strings.HasSuffix(c.Key, "time.Time).Before") || strings.HasSuffix(c.Key, "time.Time).After")):
			bef := strings.HasSuffix(c.Key, "Before")
			if ageOf(c.Args[0]) {
				note(bef == taken)
			} else if ageOf(c.Args[1]) {
				note(bef != taken)
			}
		}
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if ci.Inl {
			return
		}
		n := ci.Name
		switch {
		case lookups[n]:
			for i := range ci.Args {
				if v := issuerOf(x, st, ci, i); v != nil {
					st.DelMarks("cert", func(m Mark) bool { return m.T[2] == v })
					st.AddMark("cert", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res), v)
				}
			}
		case n == davName:
			r.Counts["verified downloads"]++
			var url, iss, path *Term
			vok, why := false, "no certificate of the issuer"
			for i := range ci.Args {
				if v := valueOf(x, st, ci, i, "net/url.URL"); v != nil {
					url = v
				}
				if v := issuerOf(x, st, ci, i); v != nil {
					iss = v
				}
				if isStringType(sigParam(ci, i)) {
					path = ci.Arg(i)
				}
				if !strings.HasSuffix(types.TypeString(sigParam(ci, i), pkgShort), "DownloadVerifier") {
					continue
				}
				t, typ := argOf(ci, i)
				if pt, ok := typ.Underlying().(*types.Pointer); ok {
					t = x.load(st, t, pt.Elem())
				}
				for _, c := range st.Marks("cert") {
					if t.Contains(c.T[0]) {
						switch {
						case !x.KnownNil(st, c.T[1]):
							why = "a certificate that may not have been found"
						default:
							vok, why = true, ""
							for _, m := range st.Marks("cur") {
								if !sameTuple(c.T[2], m.T[0]) {
									vok, why = false, "the certificate of another issuer"
								}
							}
						}
					}
				}
			}
			chk("C20", vok, st, "verified-for-other", ci.Pos, "the download is verified with %s", why)
			if url == nil || iss == nil || path == nil {
				return
			}
			chk("C21", ownName(x, st, path), st, "shared-file", ci.Pos, "the file of a CRL is named by only a part of its address, so that another CRL may overwrite it")
			st.AddMark("dav", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res), url, iss, path)
		}
	}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		k := a.audit[ci.Name]
		if k == "" || ci.Inl {
			return
		}
		for _, m := range st.Marks("cur") {
			uok, iok := false, false
			for i := 1; i < len(ci.Args); i++ {
				if v := valueOf(x, st, ci, i, "net/url.URL"); v != nil {
					uok = curElem(v, m.T[0])
				}
				if iss := issuerOf(x, st, ci, i); iss != nil {
					iok = sameTuple(iss, m.T[0])
				}
			}
			chk("C22", uok, st, "audited-address", ci.Pos, "the audit entry does not name the address of the CRL at hand")
			chk("C22", iok, st, "audited-issuer", ci.Pos, "the audit entry does not name the issuer at hand")
			st.AddMark("audit", ci.Pos, x.tt.mk("const", k, 0, nil))
		}
	}
	rule.OnSend = func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, inSel bool) {
		vt := val.Typ
		if vt == nil {
			vt = ch.chanElem()
		}
		if sd, k := in.(*ssa.Send); k {
			vt = sd.X.Type()
		}
		if vt == nil || !isWorkItem(vt, isCrlItems) {
			return
		}
		if pt, k := vt.Underlying().(*types.Pointer); k {
			vt = pt.Elem()
			val = x.load(st, val, vt)
		}
		s, ok := vt.Underlying().(*types.Struct)
		if !ok {
			return
		}
		r.Counts["lists handed on"]++
		pos := x.pos(in)
		arrayGone(st)
		ends := st.Marks("urlend")
		chk("C21", len(ends) > 0 && len(st.Marks("cur")) == 0, st, "loop-not-ended", pos, "the CRLs of the issuer are handed on before all of its addresses were processed")
		for _, m := range st.Marks("lost") {
			chk("C21", false, st, "address-left-out", m.Pos, "an address of the issuer can be left out of the list of CRLs that is handed on, or be added to another list")
		}
		for i := 0; i < s.NumFields(); i++ {
			v := x.tt.field(val, fieldKey(vt, i), s.Field(i).Type())
			if isNamed(s.Field(i).Type(), "types.Issuer") && len(ends) > 0 {
				chk("C21", sameTuple(v, ends[0].T[0]), st, "other-issuers-crls", pos, "the CRLs are handed on under another issuer")
			}
			if isCrlItems(s.Field(i).Type()) {
				for _, m := range st.Marks("acc") {
					chk("C21", v == m.T[0], st, "other-list-handed-on", pos, "the list that is handed on is not the one that holds the CRLs")
				}
			}
		}
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(root)
	r.Absorb(x)
}

// madeHere: a list without elements that is cut from a newly made one.
// reusedArray: base is an emptied list (q[:0]) whose array is that of a list
// that was handed on before. It remembers the array.
func reusedArray(st *State, base *Term, pos string) bool {
	root := base
	for root != nil && root.Op == "pure" && root.Key == "slice" {
		root = root.Args[0]
	}
	if root == nil || root == base {
		return false
	}
	for _, m := range st.Marks("sentroot") {
		if m.T[0] == root {
			return true
		}
	}
	st.AddMark("accroot", pos, root)
	return false
}

// arrayGone: the list being built is handed on.
func arrayGone(st *State) {
	for _, m := range st.Marks("accroot") {
		st.AddMark("sentroot", m.Pos, m.T[0])
	}
	st.DelMarks("accroot", nil)
}

func madeHere(t *Term) bool {
	return t.HasSub(func(u *Term) bool { return u.Op == "make" || u.Op == "alloc" || u.Op == "nil" || u.Op == "zero" })
}

// isUrlSet: a set of addresses by their text.
func isUrlSet(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && isStringType(m.Key()) && isBoolType(m.Elem())
}

// isCrlMap: the sets of CRL addresses of all issuers.
func isCrlMap(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && isStringType(m.Key()) && isUrlSet(m.Elem())
}

// crlEnumerate checks that every address of every enrolled issuer is put on
// the work list, under its issuer (C21).
func crlEnumerate(p *Program, r *Result) {
	n := 0
	sending := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Synthetic != "" {
			continue
		}
		sends := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Send); ok && isWorkItem(s.X.Type(), isUrlList) {
					sends = true
				}
				if s, ok := in.(*ssa.Select); ok {
					for _, q := range s.States {
						if q.Dir == types.SendOnly && isWorkItem(q.Send.Type(), isUrlList) {
							sends = true
						}
					}
				}
			}
		}
		if sends {
			// the function that also runs over the addresses
			h := outermost(f)
			for i := 0; i < 4 && !p.Graph().has(h, "net/url.Parse|net/url.ParseRequestURI"); i++ {
				cs := p.Graph().Callers(h)
				if len(cs) != 1 {
					break
				}
				h = outermost(cs[0])
			}
			sending[h] = true
		}
	}
	for _, f := range sortedFns(sending) {
		n++
		crlEnumerateRoot(p, r, f)
	}
	r.Counts["enumerating functions"] = n
	r.NeedAtLeast(1, "enumerating functions")
	r.NeedAtLeast(1, "work items")
}

func crlEnumerateRoot(p *Program, r *Result, root *ssa.Function) {
	rule := &Rule{PureFn: pureTypes, WidenAt: 1, NoContrib: true, NoChanVals: true, GoMode: func(ci *CallInfo) int {
		if gi, ok := ci.Instr.(*ssa.Go); ok {
			if b := goBody(gi); b != nil && b.Parent() != nil && outermost(b) == root && p.Graph().has(b, "net/url.Parse|net/url.ParseRequestURI") {
				return GoInline
			}
		}
		return GoSkip
	}}
	zero := func(x *Exec, t *Term) *Term {
		return x.tt.mk("eq", "1,;0", 0, types.Typ[types.Bool], x.lenOf(t))
	}
	rule.KeepFact = func(st *State, t *Term) bool {
		for _, m := range st.Marks("uacc") {
			if len(t.Args) == 1 && t.Args[0].Op == "pure" && t.Args[0].Key == "len" && t.Args[0].Args[0] == m.T[0] {
				return true
			}
		}
		for _, m := range st.Marks("parse") {
			if t.Op == "isnil" && t.Args[0] == m.T[0] {
				return true
			}
		}
		return false
	}
	innerEnd := func(x *Exec, st *State, lk *Term) {
		for _, m := range st.Marks("cur") {
			if m.T[1] != lk {
				continue
			}
			ok := st.HasMark("added")
			for _, q := range st.Marks("parse") {
				ok = ok || x.KnownNonNil(st, q.T[0])
			}
			r.Counts["addresses enumerated"]++
			r.Check(ok, st, "address-not-enumerated", m.Pos, "an address of an issuer can be left out although it can be parsed")
			st.DelMarks("added", nil)
			st.DelMarks("parse", nil)
		}
		st.DelMarks("cur", func(m Mark) bool { return m.T[1] == lk })
	}
	outerEnd := func(x *Exec, st *State, lk *Term) {
		for _, m := range st.Marks("iss") {
			if m.T[1] != lk {
				continue
			}
			for _, a := range st.Marks("uacc") {
				r.Check(st.HasMark("sent"), st, "issuer-not-enumerated", a.Pos, "the addresses of an issuer can be left out of the work list")
			}
			r.Check(st.HasMark("inner"), st, "issuer-not-enumerated", m.Pos, "the addresses of an issuer are not run over")
			for _, k := range []string{"uacc", "sent", "inner"} {
				st.DelMarks(k, nil)
			}
		}
		st.DelMarks("iss", func(m Mark) bool { return m.T[1] == lk })
	}
	rule.OnLoopHead = func(x *Exec, st *State, b *ssa.BasicBlock) {
		if len(b.Instrs) > 0 {
			lk := loopKey(x, b.Instrs[0])
			innerEnd(x, st, lk)
			outerEnd(x, st, lk)
		}
	}
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		lk := loopKey(x, in)
		switch {
		case isCrlMap(coll.Typ):
			outerEnd(x, st, lk)
			if more && elem != nil {
				r.Counts["issuers enumerated"]++
				st.AddMark("iss", x.pos(in), coll, lk, elem)
			}
		case isUrlSet(coll.Typ):
			innerEnd(x, st, lk)
			iss := st.Marks("iss")
			if len(iss) == 0 {
				return
			}
			if !coll.HasSub(func(u *Term) bool { return u == iss[0].T[2] || u.Op == "next" && u.Args[0] == iss[0].T[0] }) {
				return
			}
			if more && elem != nil {
				st.AddMark("cur", x.pos(in), coll, lk, elem)
				st.DelMarks("inner", nil)
			} else {
				st.AddMark("inner", "")
			}
		}
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if !ci.Inl && strings.HasPrefix(ci.Name, "net/url.Parse") || ci.Name == "(*net/url.URL).Parse" {
			for _, m := range st.Marks("cur") {
				_ = m
				st.AddMark("parse", ci.Pos, x.ErrOf(ci, res))
			}
		}
	}
	rule.OnAppend = func(x *Exec, st *State, res, base *Term, elems []*Term, spread bool, in ssa.Instruction) {
		cur := st.Marks("cur")
		if spread || len(cur) == 0 || !isUrlList(res.Typ) {
			return
		}
		acc := st.Marks("uacc")
		if len(acc) > 0 && acc[0].T[0] != base {
			return // another list
		}
		if len(acc) == 0 {
			r.Check(!reusedArray(st, base, x.pos(in)), st, "reused-array", x.pos(in), "the list of the issuer's addresses is built in the memory of a list that was handed on before")
		}
		for _, el := range elems {
			if el.HasSub(func(u *Term) bool { return u.Op == "next" && u.Args[0] == cur[0].T[0] }) {
				st.AddMark("added", "")
			}
		}
		st.DelMarks("uacc", nil)
		st.AddMark("uacc", x.pos(in), res)
		x.Assume(st, zero(x, res), false)
	}
	rule.OnWiden = func(x *Exec, st *State, old, nt *Term) {
		for _, m := range st.Marks("uacc") {
			if m.T[0] == old {
				st.DelMarks("uacc", nil)
				st.AddMark("uacc", m.Pos, nt)
				x.Assume(st, zero(x, nt), false)
			}
		}
	}
	rule.OnSend = func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, inSel bool) {
		vt := val.Typ
		if vt == nil {
			vt = ch.chanElem()
		}
		if vt == nil || !isWorkItem(vt, isUrlList) {
			return
		}
		if pt, k := vt.Underlying().(*types.Pointer); k {
			vt = pt.Elem()
			val = x.load(st, val, vt)
		}
		s := vt.Underlying().(*types.Struct)
		r.Counts["work items"]++
		pos := x.pos(in)
		arrayGone(st)
		iss := st.Marks("iss")
		r.Check(len(iss) > 0 && st.HasMark("inner") && len(st.Marks("cur")) == 0, st, "work-item-early", pos, "a work item is made before all addresses of the issuer were run over")
		for i := 0; i < s.NumFields(); i++ {
			v := x.tt.field(val, fieldKey(vt, i), s.Field(i).Type())
			if isNamed(s.Field(i).Type(), "types.Issuer") && len(iss) > 0 {
				r.Check(v.HasSub(func(u *Term) bool { return u.Op == "next" && u.Args[0] == iss[0].T[0] }), st, "other-issuers-crls", pos, "the work item names another issuer than the one whose addresses it holds")
			}
			if isUrlList(s.Field(i).Type()) {
				for _, m := range st.Marks("uacc") {
					r.Check(v == m.T[0], st, "other-list-enumerated", pos, "the work item does not hold the list of the issuer's addresses")
				}
			}
		}
		st.AddMark("sent", "")
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(root)
	r.Absorb(x)
}

// certLookups checks that looking up an issuer's certificate succeeds only
// with one that is stored under that issuer (C19).
func certLookups(p *Program, r *Result) {
	for _, f := range p.Funcs {
		if !isCertLookup(f) || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		r.Counts["certificate lookups"]++
		iss := -1
		for i, q := range f.Params {
			if isNamed(deref(q.Type()), "types.Issuer") {
				iss = i
			}
		}
		rule := &Rule{PureFn: pureTypes, KeepFact: keepAll}
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			if !mayMeanSuccess(x, st, res) {
				return
			}
			param := x.Params[iss]
			ofIssuer := func(t *Term) bool {
				if t.Contains(param) {
					return true
				}
				for _, a := range param.Args {
					if param.Op == "agg" && t.Contains(a) {
						return true
					}
				}
				return false
			}
			ok := false
			for _, l := range res[0].FindSub(isLookup) {
				ok = ok || len(l.Args) > 1 && ofIssuer(l.Args[1])
			}
			r.Check(ok, st, "other-certificate", fname(f), "%s can return a certificate that is not stored under the issuer it was asked for", fname(f))
		}
		x := NewExec(p, r.Prop, rule)
		x.Run(f)
		r.Absorb(x)
	}
	r.NeedAtLeast(1, "certificate lookups")
}

// ownName tells whether a path may keep everything of an address. It does not
// if the address only enters into it through operations that drop a part.
func ownName(x *Exec, st *State, path *Term) bool {
	host, file, query := false, false, false
	for u := range wholeTerms(x, st, path) {
		switch u.Op {
		case "out":
			return true // written by an operation that is not looked into
		case "alloc":
			if u.Typ == nil {
				continue
			}
			if _, isArr := deref(u.Typ).Underlying().(*types.Array); isArr && !filled(st, u) {
				return true
			}
		case "pure", "call":
			k := u.Key
			if u.Op == "call" && strings.HasPrefix(k, "(") && !strings.Contains(k, "net/url.URL") {
				return true // the state of an object that is not looked into
			}
			if i := strings.LastIndexByte(k, '.'); strings.Contains(k, "net/url.URL") {
				switch k[i+1:] {
				case "String", "MarshalBinary":
					return true
				case "RequestURI":
					file, query = true, true
				case "Hostname", "Host":
					host = true
				case "EscapedPath":
					file = true
				case "Query":
					query = true
				}
			} else if takesURL(u) {
				return true // not looked into
			}
		case "field", "fieldaddr":
			switch {
			case strings.HasSuffix(u.Key, ":Host"):
				host = true
			case strings.HasSuffix(u.Key, ":Path"), strings.HasSuffix(u.Key, ":RawPath"):
				file = true
			case strings.HasSuffix(u.Key, ":RawQuery"):
				query = true
			}
		}
	}
	return host && file && query
}

func takesURL(t *Term) bool {
	for _, a := range t.Args {
		if a == nil || a.Typ == nil {
			continue
		}
		typ := a.Typ
		if pt, ok := typ.Underlying().(*types.Pointer); ok {
			typ = pt.Elem()
		}
		if isNamed(typ, "net/url.URL") {
			return true
		}
	}
	return false
}

func filled(st *State, a *Term) bool {
	for _, m := range []map[*Term]*Term{st.heap, st.havoc} {
		for k := range m {
			if addrRoot(k) == a {
				return true
			}
		}
	}
	return false
}
