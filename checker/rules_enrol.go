package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C26"] = checkC26
}

const (
	rootPkg  = "rootprogram"
	zcPkg    = "github.com/zmap/zcrypto/x509"
	colRev   = "Revocation_Status__c"
	colType  = "RecordType.Name"
	colPem   = "X.509_Certificate_PEM"
	typeRoot = "Root Certificate"
	typeInt  = "Intermediate Certificate"
)

func checkC26(p *Program, tier string) *Result {
	r := NewResult("C26", "on every path of LoadFromDisk to InsertIssuer the certificate was taken from a table that only certificates of rows with a record type of 'Intermediate Certificate' and a revocation status of 'Not Revoked' or '' were put in; its Verify, for TLS server authentication and with a root pool that only unrevoked 'Root Certificate' rows were added to, is known to have returned no error and a non-empty list of current chains; the tables of issuers and CRLs were emptied before; its CRLs are those decoded from the same row; success is returned only if opening and reading succeeded and every column that is used was found. Every URL that the decoder returns has a scheme known to be http or https. InsertIssuer files the certificate and its CRLs under the identifier of that certificate, and nothing else adds to the tables")
	load := p.Fn(fnLoadIss)
	ins := p.Fn(fnInsert)
	if load == nil || ins == nil {
		r.Bad("missing: LoadFromDisk or InsertIssuer", "go/rootprogram", "LoadFromDisk or InsertIssuer not found")
		return r
	}
	g := p.Graph()
	var decs []*ssa.Function
	for _, f := range p.Minimal(load, "net/url.Parse|net/url.ParseRequestURI|(*net/url.URL).Parse") {
		decs = append(decs, f)
	}
	// the decoder is what hands back a list of strings
	isDec := map[string]bool{}
	for f := range g.Reach(load) {
		if f == load || pkgPathOf(f) != rootPkg {
			continue
		}
		s := f.Signature.Results()
		for i := 0; i < s.Len(); i++ {
			if sl, ok := s.At(i).Type().Underlying().(*types.Slice); ok && isStringType(sl.Elem()) {
				for _, d := range decs {
					if d == f || g.Reach(f)[d] {
						isDec[fname(f)] = true
					}
				}
			}
		}
	}
	r.Counts["URL decoders"] = len(isDec)
	r.NeedAtLeast(1, "URL decoders")
	loadRule(p, r, load, isDec)
	for _, f := range sortedFns(g.Reach(load)) {
		if isDec[fname(f)] {
			decoderRule(p, r, f)
		}
	}
	insertRule(p, r, ins)
	writersRule(p, r, load, ins)
	r.NeedAtLeast(1, "issuers enrolled")
	r.NeedAtLeast(1, "roots added")
	r.NeedAtLeast(1, "intermediates collected")
	r.NeedAtLeast(1, "loads that succeed")
	r.NeedAtLeast(1, "URLs accepted")
	return r
}

// column is the name of the column and the row that a value was read from.
func column(t *Term) (name string, row *Term) {
	if t == nil {
		return "", nil
	}
	for t.Op == "old" {
		t = t.Args[0]
	}
	if t.Op == "pure" && strings.HasPrefix(t.Key, "strings.Trim") && len(t.Args) > 0 {
		return column(t.Args[0])
	}
	if t.Op != "deref" || t.Args[0].Op != "indexaddr" {
		return "", nil
	}
	ia := t.Args[0]
	ix := ia.Args[1]
	for ix.Op == "old" || ix.Op == "ext" && ix.Key == "0" {
		ix = ix.Args[0]
	}
	if isLookup(ix) {
		if s, ok := strConst(ix.Args[1]); ok {
			return s, ia.Args[0]
		}
	}
	return "", nil
}

// certRow is the row whose PEM column a certificate was parsed from.
func certRow(t *Term) *Term {
	if t == nil {
		return nil
	}
	for u := range t.Subs() {
		if n, row := column(u); n == colPem {
			return row
		}
	}
	return nil
}

func fieldByName(x *Exec, v *Term, typ types.Type, name string) *Term {
	s, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return x.tt.field(v, fieldKey(typ, i), s.Field(i).Type())
		}
	}
	return nil
}

type deposit struct {
	unrevoked bool
	typ       string
	pos       string
	trace     []string
}

func isZcCert(t *Term) bool {
	return t.HasSub(func(u *Term) bool {
		return u.Op == "ext" && u.Key == "0" && callTerm(u.Args[0], zcPkg+".ParseCertificate")
	})
}

func loadRule(p *Program, r *Result, root *ssa.Function, isDec map[string]bool) {
	deps := map[*Term][]deposit{}
	crlMaps := map[*Term]bool{}
	used := map[string]bool{}
	var late []func()
	rule := &Rule{PureFn: pureTypes, NoContrib: true, NoChanVals: true, WidenAt: 1}
	rule.OpaqueFn = func(n string) bool { return n == fnInsert || isDec[n] }
	settle := func(x *Exec, st *State) {
		for f, v := range st.facts {
			if !v {
				continue
			}
			switch f.Op {
			case "same", "eq":
				var c, o *Term
				if len(f.Args) == 2 {
					for i := 0; i < 2; i++ {
						if _, ok := strConst(f.Args[i]); ok {
							c, o = f.Args[i], f.Args[1-i]
						}
						if f.Args[i].Op == "deref" && f.Args[i].HasSub(func(u *Term) bool { return u.Op == "global" && u.Key == "io.EOF" }) {
							e := f.Args[1-i]
							st.DelMarks("chk", func(m Mark) bool { return m.T[1] == e })
							st.DelMarks("bad", func(m Mark) bool { return len(m.T) > 1 && m.T[1] == e })
						}
					}
				} else if len(f.Args) == 1 && f.Args[0].Op == "pure" && f.Args[0].Key == "len" {
					if _, k := decodeLin(f); k == 0 {
						c, o = x.tt.mk("const", `""`, 0, types.Typ[types.String]), f.Args[0].Args[0]
					}
				}
				if n, row := column(o); c != nil && n != "" {
					st.AddMark("col:"+n, "", row, c)
				}
			case "ext":
				if f.Key == "1" && isLookup(f.Args[0]) {
					if s, ok := strConst(f.Args[0].Args[1]); ok {
						st.AddMark("found:"+s, "")
					}
				}
			}
		}
	}
	colVal := func(st *State, name string, row *Term) (string, bool) {
		for _, m := range st.Marks("col:" + name) {
			if m.T[0] == row {
				if s, ok := strConst(m.T[1]); ok {
					return s, true
				}
				return "", true
			}
		}
		return "", false
	}
	// columns that are used
	rule.OnLoad = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
		if addr.Op == "indexaddr" {
			if n, _ := column(x.tt.mk("deref", "", 0, nil, addr)); n != "" {
				used[n] = true
			}
		}
	}
	rule.OnBranch = func(x *Exec, st *State, in *ssa.If, cond *Term, taken bool) { settle(x, st) }
	rule.OnBlock = func(x *Exec, st *State, _ *ssa.BasicBlock) { pruneChk(x, st) }
	put := func(x *Exec, st *State, c, v *Term, pos string) {
		row := certRow(v)
		d := deposit{pos: pos, trace: st.Trace()}
		if row != nil {
			rev, ok := colVal(st, colRev, row)
			d.unrevoked = ok && (rev == "Not Revoked" || rev == "")
			d.typ, _ = colVal(st, colType, row)
		}
		deps[c] = append(deps[c], d)
	}
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		if coll != nil && coll.Typ != nil {
			if s, ok := coll.Typ.Underlying().(*types.Slice); ok {
				if s2, ok := s.Elem().Underlying().(*types.Slice); ok && isStringType(s2.Elem()) {
					// the next row
					for _, k := range []string{"ckey", "dkey", "col:" + colRev, "col:" + colType} {
						st.DelMarks(k, nil)
					}
				}
			}
		}
	}
	rule.OnUpdate = func(x *Exec, st *State, m, k, v *Term, in ssa.Instruction) {
		pos := x.pos(in)
		if isZcCert(v) {
			r.Counts["intermediates collected"]++
			put(x, st, m, v, pos)
			if row := certRow(v); row != nil {
				r.Check(certRow(k) == row, st, "key-of-other-row", pos, "a certificate is collected under a key that is not made from it")
			}
			for _, d := range st.Marks("dkey") {
				r.Check(d.T[0] == k, st, "crl-key", pos, "the CRLs of a row and its certificate are filed under different keys")
			}
			st.AddMark("ckey", pos, k)
		}
		var dec *Term
		for _, d := range v.FindSub(func(u *Term) bool { return u.Op == "call" && isDec[u.Key] }) {
			dec = d
		}
		if dec != nil && v.Typ != nil {
			crlMaps[m] = true
			row := certRow(k)
			if isZcCert(v) {
				row = certRow(v)
			}
			for _, a := range dec.Args {
				n, ar := column(strip(a))
				r.Check(n != "" && row != nil && ar == row, st, "crls-of-other-row", pos, "the CRLs filed for a certificate are not decoded from its own row")
			}
			if !isZcCert(v) {
				for _, c := range st.Marks("ckey") {
					r.Check(c.T[0] == k, st, "crl-key", pos, "the CRLs of a row and its certificate are filed under different keys")
				}
				st.AddMark("dkey", pos, k)
			}
		}
		// the table of columns
		if k.Op == "deref" && k.Args[0].Op == "indexaddr" && hasCall(k, "encoding/csv.Reader).Read") {
			r.Counts["columns indexed"]++
			r.Check(k.Args[0].Args[1] == v, st, "column-index", pos, "a column name is not mapped to its own position")
		}
	}
	rule.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
		if addr.Op == "fieldaddr" && val != nil && val.Op == "make" && len(x.Params) > 0 && addr.Args[0] == strip(x.Params[0]) {
			if f := fieldName(addr.Key); f == "issuerMap" || f == "CrlMap" {
				st.AddMark("emptied:"+f, x.pos(in))
			}
		}
	}
	rule.OnAppend = func(x *Exec, st *State, res, base *Term, elems []*Term, spread bool, in ssa.Instruction) {
		if !spread && len(elems) == 1 && elems[0].Typ != nil && isNamed(elems[0].Typ, zcPkg+".ExtKeyUsage") && (isNilT(base) || base.Op == "zero" || x.lenOf(base) == x.tt.intc(0)) {
			st.AddMark("usage", x.pos(in), res, elems[0])
		}
	}
	grp := "load"
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		switch {
		case ci.Name == "(*"+zcPkg+".CertPool).AddCert":
			c := ci.Arg(1)
			put(x, st, ci.Arg(0), c, ci.Pos)
			r.Counts["certificates added to pools"]++
		case strings.HasPrefix(ci.Name, "(*"+zcPkg+".CertPool).Append"), strings.HasPrefix(ci.Name, "(*"+zcPkg+".CertPool).Add"):
			deps[ci.Arg(0)] = append(deps[ci.Arg(0)], deposit{pos: ci.Pos, trace: st.Trace()})
		case ci.Name == fnInsert:
			settle(x, st)
			r.Counts["issuers enrolled"]++
			pos := ci.Pos
			for _, f := range []string{"issuerMap", "CrlMap"} {
				r.Check(st.HasMark("emptied:"+f), st, "stale:"+f, pos, "issuers are enrolled into the %s of an earlier dataset", f)
			}
			cert := ci.Arg(1)
			var nx *Term
			if cert != nil {
				for _, n := range cert.FindSub(func(u *Term) bool { return u.Op == "next" }) {
					nx = n
				}
			}
			if !r.Check(nx != nil, st, "not-collected", pos, "a certificate is enrolled that was not taken from the table of intermediates") {
				return
			}
			tr := st.Trace()
			cont := nx.Args[0]
			late = append(late, func() {
				for _, d := range deps[cont] {
					r.Oblige("intermediate at "+d.pos, d.unrevoked && d.typ == typeInt)
					if !d.unrevoked {
						r.Viol["revoked@"+d.pos] = &Violation{Prop: r.Prop, Key: "revoked", Pos: d.pos, Msg: "a certificate is made a candidate although it may be listed as revoked", Trace: d.trace}
					} else if d.typ != typeInt {
						r.Viol["no-intermediate@"+d.pos] = &Violation{Prop: r.Prop, Key: "no-intermediate", Pos: d.pos, Msg: "a certificate is made a candidate although its row may not be that of an intermediate", Trace: d.trace}
					}
				}
			})
			ok, why := false, "was not verified"
			for _, m := range st.Marks("verify") {
				recv, opts, chains, err := m.T[0], m.T[1], m.T[2], m.T[3]
				if !recv.Contains(nx) {
					continue
				}
				if recv.HasSub(func(u *Term) bool { return u.Op == "old" && u.Contains(nx) }) {
					continue // of an earlier certificate
				}
				if !x.KnownNil(st, err) {
					why = "may have failed to verify"
					continue
				}
				if v, k := x.Truth(st, x.compare(token.GTR, x.lenOf(chains), x.tt.intc(0), types.Typ[types.Int])); !k || !v {
					why = "may have no current chain"
					continue
				}
				ok = true
				pool := fieldByName(x, opts, opts.Typ, "Roots")
				r.Check(pool != nil && pool.Op == "call", st, "no-roots", m.Pos, "a certificate is verified without the pool of roots of the dataset")
				late = append(late, func() {
					if len(deps[pool]) == 0 {
						r.Viol["no-roots@"+m.Pos] = &Violation{Prop: r.Prop, Key: "no-roots", Pos: m.Pos, Msg: "a certificate is verified against a pool that no root of the dataset is added to", Trace: tr}
					}
					for _, d := range deps[pool] {
						r.Counts["roots added"]++
						r.Oblige("root at "+d.pos, d.unrevoked && d.typ == typeRoot)
						if !d.unrevoked {
							r.Viol["revoked-root@"+d.pos] = &Violation{Prop: r.Prop, Key: "revoked-root", Pos: d.pos, Msg: "a certificate is trusted as a root although it may be listed as revoked", Trace: d.trace}
						} else if d.typ != typeRoot {
							r.Viol["untrusted-root@"+d.pos] = &Violation{Prop: r.Prop, Key: "untrusted-root", Pos: d.pos, Msg: "a certificate is trusted as a root although its row may not be that of a root", Trace: d.trace}
						}
					}
				})
				usage := fieldByName(x, opts, opts.Typ, "KeyUsages")
				r.Check(usage != nil && onlyServerAuth(x, st, usage, p), st, "key-usage", m.Pos, "certificates are not verified for TLS server authentication")
				if now := fieldByName(x, opts, opts.Typ, "CurrentTime"); now != nil {
					r.Check(now.Op == "zero" || callTerm(now, "time.Now"), st, "other-time", m.Pos, "certificates are verified for another time than now")
				}
			}
			r.Check(ok, st, "not-verified", pos, "a certificate is enrolled that %s", why)
			// CRLs
			crls := ci.Arg(2)
			good := crls != nil && isNilT(crls)
			if crls != nil {
				for _, l := range crls.FindSub(isLookup) {
					mm := l.Args[0]
					if l.Args[1].Contains(nx) {
						good = true
						late = append(late, func() {
							if !crlMaps[mm] {
								r.Bad("foreign-crls", pos, "the CRLs of an enrolled issuer are not those decoded from the dataset")
							}
						})
					}
				}
				if crls.HasSub(func(u *Term) bool { return u == nx }) && !crls.HasSub(isLookup) {
					good = true // part of the same table entry
				}
			}
			r.Check(good, st, "foreign-crls", pos, "the CRLs of an enrolled issuer are not those of its own row")
		}
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if ci.Inl {
			return
		}
		switch {
		case ci.Name == "(*"+zcPkg+".Certificate).Verify":
			opts := ci.Arg(1)
			if opts == nil || opts.Typ == nil {
				return
			}
			st.AddMark("verify", ci.Pos, ci.Arg(0), opts, x.ResultOf(ci, res, 0), x.ErrOf(ci, res))
		case ci.Name == "os.Open" || ci.Name == "os.OpenFile" || strings.HasSuffix(ci.Name, ".ReadFile") || strings.HasPrefix(ci.Name, "(*encoding/csv.Reader).Read"):
			addChk(x, st, x.tt.mk("const", grp, 0, nil), x.ErrOf(ci, res), ci.Pos, shortCallee(ci.Name))
			if strings.HasPrefix(ci.Name, "(*encoding/csv.Reader).Read") {
				st.AddMark("readcsv", ci.Pos)
			}
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		pruneChk(x, st)
		if !mayMeanSuccess(x, st, res) {
			return
		}
		settle(x, st)
		r.Counts["loads that succeed"]++
		for _, k := range []string{"chk", "bad"} {
			for _, m := range st.Marks(k) {
				r.Check(false, st, "read-error-ignored", m.Pos, "the dataset is accepted although the %s may have failed", whatOf(m))
			}
		}
		r.Check(st.HasMark("readcsv"), st, "not-read", p.PosStr(root.Pos()), "success is returned without reading the dataset")
		found := map[string]bool{}
		for _, m := range st.marks {
			if strings.HasPrefix(m.Kind, "found:") {
				found[strings.TrimPrefix(m.Kind, "found:")] = true
			}
		}
		tr := st.Trace()
		late = append(late, func() {
			for c := range used {
				r.Oblige("column "+c, found[c])
				if !found[c] {
					r.Viol["missing-column:"+c] = &Violation{Prop: r.Prop, Key: "missing-column:" + c, Pos: p.PosStr(root.Pos()), Msg: "a dataset without the column " + c + " is accepted", Trace: tr}
				}
			}
		})
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(root)
	for _, f := range late {
		f()
	}
	r.Counts["columns used"] = len(used)
	r.NeedAtLeast(3, "columns used")
	r.Absorb(x)
}

// onlyServerAuth: the list holds the usage for TLS servers and no other.
func onlyServerAuth(x *Exec, st *State, l *Term, p *Program) bool {
	want := ""
	for _, pk := range p.Prog.AllPackages() {
		if pk.Pkg.Path() == zcPkg {
			if c, ok := pk.Pkg.Scope().Lookup("ExtKeyUsageServerAuth").(*types.Const); ok {
				want = c.Val().ExactString()
			}
		}
	}
	for _, m := range st.Marks("usage") {
		if m.T[0] == l && want != "" && m.T[1].Op == "const" && m.T[1].Key == want {
			return true
		}
	}
	n, ok := x.lenOf(l).IntConst()
	if !ok || n != 1 || want == "" {
		return false
	}
	base := l
	for base.Op == "pure" && base.Key == "slice" {
		base = base.Args[0]
	}
	for a, v := range st.heap {
		if a.Op == "indexaddr" && a.Args[0] == base && v != nil && v.Op == "const" && v.Key == want {
			return true
		}
	}
	return false
}

// ---- URLs ---------------------------------------------------------------------

// listSources follows the string lists that f returns back to the appends and
// literals that fill them, and to anything else they may come from.
func listSources(p *Program, f *ssa.Function) (fill map[ssa.Instruction]bool, lits map[ssa.Value]bool, other []ssa.Value) {
	g := p.Graph()
	fill, lits = map[ssa.Instruction]bool{}, map[ssa.Value]bool{}
	seen := map[ssa.Value]bool{}
	seenF := map[*ssa.Function]int{}
	var rec func(v ssa.Value)
	var rets func(h *ssa.Function, i int)
	isList := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isStringType(s.Elem())
	}
	rets = func(h *ssa.Function, i int) {
		if seenF[h]&(1<<uint(i)) != 0 {
			return
		}
		seenF[h] |= 1 << uint(i)
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok && i < len(r.Results) {
					rec(r.Results[i])
				}
			}
		}
	}
	call := func(c *ssa.Call, i int) {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				fill[c] = true
				for _, a := range c.Call.Args {
					rec(a)
				}
			}
			return
		}
		cal := c.Call.StaticCallee()
		if cal != nil && moduleFn(cal) {
			rets(cal, i)
			return
		}
		if cal != nil && (pkgPathOf(cal) == "slices" || pkgPathOf(cal) == "sort") {
			for _, a := range c.Call.Args {
				if isList(a.Type()) {
					rec(a)
				}
			}
			return
		}
		other = append(other, c)
	}
	rec = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch u := v.(type) {
		case *ssa.Const, *ssa.MakeSlice:
		case *ssa.Phi:
			for _, e := range u.Edges {
				rec(e)
			}
		case *ssa.Slice:
			rec(u.X)
		case *ssa.ChangeType:
			rec(u.X)
		case *ssa.Extract:
			if c, ok := u.Tuple.(*ssa.Call); ok {
				call(c, u.Index)
				return
			}
			other = append(other, v)
		case *ssa.Call:
			call(u, 0)
		case *ssa.Alloc:
			if _, ok := deref(u.Type()).Underlying().(*types.Array); ok {
				lits[u] = true
				return
			}
			for _, ref := range *u.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == u {
					rec(st.Val)
				}
			}
		case *ssa.UnOp:
			if u.Op == token.MUL {
				rec(u.X)
				return
			}
			other = append(other, v)
		case *ssa.Parameter:
			if u.Parent() == f {
				return
			}
			for i, q := range u.Parent().Params {
				if q != u {
					continue
				}
				for _, c := range g.Callers(u.Parent()) {
					for _, b := range c.Blocks {
						for _, in := range b.Instrs {
							if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == u.Parent() && i < len(ci.Common().Args) {
								rec(ci.Common().Args[i])
							}
						}
					}
				}
			}
		case *ssa.FreeVar:
			for i, q := range u.Parent().FreeVars {
				if q != u || u.Parent().Parent() == nil {
					continue
				}
				for _, b := range u.Parent().Parent().Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == u.Parent() {
							rec(mc.Bindings[i])
						}
					}
				}
			}
			// assigned inside the closure
			for _, ref := range *u.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == u {
					rec(st.Val)
				}
			}
		default:
			other = append(other, v)
		}
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isList(res.At(i).Type()) {
			rets(f, i)
		}
	}
	return
}

// schemeOf: t is the scheme of a parsed URL; it returns the call of the parser.
func schemeOf(t *Term) *Term {
	if !hasFieldNamed(t, "Scheme") {
		return nil
	}
	for _, u := range t.FindSub(func(u *Term) bool {
		return strings.HasPrefix(u.Key, "net/url.Parse") || u.Key == "(*net/url.URL).Parse"
	}) {
		return u
	}
	return nil
}

func decoderRule(p *Program, r *Result, root *ssa.Function) {
	fill, lits, other := listSources(p, root)
	for _, v := range other {
		r.Bad("unfiltered-urls", p.PosStr(v.Pos()), "URLs are returned that come from %s, where their scheme is not checked", v.String())
	}
	rule := &Rule{PureFn: pureTypes, NoChanVals: true, WidenAt: 1, NoContrib: true}
	note := func(st *State) {
		for f, v := range st.facts {
			if !v || f.Op != "same" || len(f.Args) != 2 {
				continue
			}
			for i := 0; i < 2; i++ {
				s, k := strConst(f.Args[i])
				if !k || s != "http" && s != "https" {
					continue
				}
				if c := schemeOf(f.Args[1-i]); c != nil {
					st.AddMark("scheme", "", c)
				}
			}
		}
	}
	rule.OnBranch = func(x *Exec, st *State, in *ssa.If, cond *Term, taken bool) { note(st) }
	accept := func(x *Exec, st *State, e *Term, pos string) {
		note(st)
		ok := false
		for _, m := range st.Marks("scheme") {
			if c := m.T[0]; e.Contains(c) || len(c.Args) > 0 && strip(e) == strip(c.Args[len(c.Args)-1]) {
				ok = true
			}
		}
		r.Counts["URLs accepted"]++
		r.Check(ok, st, "scheme", pos, "a CRL address is accepted although its scheme may be neither http nor https")
	}
	rule.OnAppend = func(x *Exec, st *State, res, base *Term, elems []*Term, spread bool, in ssa.Instruction) {
		if !fill[in] || spread {
			return
		}
		for _, e := range elems {
			accept(x, st, e, x.pos(in))
		}
	}
	varargs := map[ssa.Value]bool{} // arrays made for the arguments of append
	for in := range fill {
		if c, ok := in.(*ssa.Call); ok && len(c.Call.Args) > 1 {
			if sl, ok := c.Call.Args[1].(*ssa.Slice); ok {
				varargs[sl.X] = true
			}
		}
	}
	rule.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if ia, ok := s.Addr.(*ssa.IndexAddr); ok && lits[ia.X] && !varargs[ia.X] {
			accept(x, st, val, x.pos(in))
		}
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(root)
	r.Absorb(x)
}

// ---- the tables ---------------------------------------------------------------

func tableField(t *Term) string {
	for t.Op == "old" {
		t = t.Args[0]
	}
	if t.Op == "deref" && t.Args[0].Op == "fieldaddr" {
		return fieldName(t.Args[0].Key)
	}
	return ""
}

func insertRule(p *Program, r *Result, root *ssa.Function) {
	rule := &Rule{PureFn: pureTypes, NoChanVals: true}
	ownID := func(x *Exec, st *State, k *Term) bool {
		return k.Op == "pure" && strings.HasSuffix(k.Key, "Issuer).ID") && pointed(x, st, k.Args[0]).HasSub(func(u *Term) bool {
			return u.Op == "pure" && u.Key == "types.NewIssuer" && strip(u.Args[0]) == strip(x.Params[1])
		})
	}
	rule.OnUpdate = func(x *Exec, st *State, m, k, v *Term, in ssa.Instruction) {
		pos := x.pos(in)
		switch f := tableField(m); {
		case f == "issuerMap":
			r.Counts["table entries"]++
			r.Check(ownID(x, st, k), st, "wrong-key", pos, "a certificate is filed under another identifier than that of its issuer")
			r.Check(reachTerms(x, st, v)[strip(x.Params[1])], st, "other-certificate", pos, "the entry of an issuer does not hold its certificate")
			st.AddMark("filed", pos)
		case f == "CrlMap":
			r.Check(ownID(x, st, k), st, "wrong-key", pos, "CRLs are filed under another identifier than that of their issuer")
			r.Check(v.Op == "make" || isNilT(v) || v.HasSub(func(u *Term) bool { return isLookup(u) && u.Args[1] == k }), st, "other-crls", pos, "the CRLs of another issuer are filed for this one")
		case v.Typ != nil && isBoolType(v.Typ) && k.Typ != nil && isStringType(k.Typ):
			r.Check(elemIn(k, strip(x.Params[2])), st, "other-crls", pos, "a CRL that is not in the given list is filed for an issuer")
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		r.Check(st.HasMark("filed"), st, "not-filed", p.PosStr(root.Pos()), "InsertIssuer can end without having filed the certificate")
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(root)
	r.Absorb(x)
	r.NeedAtLeast(1, "table entries")
}

// writersRule: nothing else adds to the tables of issuers and CRLs.
func writersRule(p *Program, r *Result, load, ins *ssa.Function) {
	g := p.Graph()
	inR := g.Reach(ins)
	ok := map[*ssa.Function]bool{}
	for f := range g.Reach(load) {
		ok[f] = true
	}
	ok[load] = true
	if l := p.Fn(fnLoadEnr); l != nil {
		ok[l] = true
		for f := range g.Reach(l) {
			ok[f] = true
		}
	}
	for _, c := range g.Callers(ins) {
		if len(g.Callers(c)) == 0 && c != load && !isMainFn(c) && !ok[c] {
			continue // not used
		}
		r.Counts["callers of InsertIssuer"]++
		r.Oblige("caller "+fname(c), ok[c])
		if !ok[c] {
			r.Bad("other-source:"+fname(c), p.PosStr(c.Pos()), "%s enrols issuers that come neither from the dataset nor from a list of enrolled issuers", fname(c))
		}
	}
	for _, f := range p.Funcs {
		if f == ins || inR[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, isU := in.(*ssa.MapUpdate)
				if !isU {
					continue
				}
				ld, isL := mu.Map.(*ssa.UnOp)
				if !isL {
					continue
				}
				fa, isF := ld.X.(*ssa.FieldAddr)
				if !isF || !isPtrTo(fa.X.Type(), "rootprogram.MozIssuers") {
					continue
				}
				used := false
				for _, m := range p.Funcs {
					if m.Name() == "main" && m.Pkg != nil && m.Pkg.Pkg.Name() == "main" && g.Reach(m)[f] {
						used = true
					}
				}
				r.Oblige("writer "+fname(f), !used)
				if used {
					r.Bad("other-writer:"+fname(f), p.PosStr(mu.Pos()), "%s adds to the table of issuers or of their CRLs", fname(f))
				}
			}
		}
	}
}
