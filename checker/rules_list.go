package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C43"] = checkC43 }

// intsOf is every constant that v may be, following parameters to the calls in
// this module; ok is false if it may be something else.
func (p *Program) intsOf(v ssa.Value, seen map[ssa.Value]bool) (vals []int64, ok bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil || v.Value.Kind() != constant.Int {
			return nil, false
		}
		n, exact := constant.Int64Val(v.Value)
		return []int64{n}, exact
	case *ssa.Phi:
		for _, e := range v.Edges {
			vs, ok := p.intsOf(e, seen)
			if !ok {
				return nil, false
			}
			vals = append(vals, vs...)
		}
		return vals, true
	case *ssa.BinOp:
		if v.Op != token.OR {
			return nil, false
		}
		as, ok1 := p.intsOf(v.X, seen)
		bs, ok2 := p.intsOf(v.Y, seen)
		for _, a := range as {
			for _, b := range bs {
				vals = append(vals, a|b)
			}
		}
		return vals, ok1 && ok2
	case *ssa.Convert:
		return p.intsOf(v.X, seen)
	case *ssa.ChangeType:
		return p.intsOf(v.X, seen)
	case *ssa.Parameter:
		f := v.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == v {
				idx = i
			}
		}
		n := 0
		for _, g := range p.Graph().Callers(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, isCall := in.(ssa.CallInstruction)
					if !isCall || c.Common().StaticCallee() != f {
						continue
					}
					n++
					vs, ok := p.intsOf(c.Common().Args[idx], seen)
					if !ok {
						return nil, false
					}
					vals = append(vals, vs...)
				}
			}
		}
		return vals, n > 0
	}
	return nil, false
}

func checkC43(p *Program, tier string) *Result {
	r := NewResult("C43", "every file that is opened for writing, other than by a download, is created or emptied and never appended to; the file that the revoked list of an issuer is written to is opened under a path whose every step keeps the whole identifier of that issuer; and in every loop that writes the list, what one round writes is the reason in an encoding of exactly two hexadecimal digits, then the serial, then a line break")
	g := p.Graph()
	for _, f := range p.Funcs {
		if strings.HasPrefix(pkgPathOf(f), "downloader") || g.has(f, "(*net/http.Client).Do") {
			continue // C33
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil {
					continue
				}
				n := fname(c.Call.StaticCallee())
				if isCreate(n) || isOneShotWrite(n) {
					r.Counts["places that open an output file"]++
				}
				if n != "os.OpenFile" || len(c.Call.Args) < 2 {
					continue
				}
				vals, known := p.intsOf(c.Call.Args[1], map[ssa.Value]bool{})
				if !known {
					r.Counts["opened with flags that are not constant"]++
					continue
				}
				bad := ""
				for _, v := range vals {
					fl := int(v)
					if fl&(os.O_WRONLY|os.O_RDWR) == 0 || fl&os.O_EXCL != 0 {
						continue
					}
					switch {
					case fl&os.O_TRUNC != 0:
					case g.has(f, "(*os.File).Truncate") || g.has(f, "os.Truncate") || g.has(f, "os.Remove"):
					case fl&os.O_APPEND != 0:
						bad = "is appended to"
					default:
						bad = "keeps what follows the part that is overwritten"
					}
				}
				r.Check(bad == "", nil, "leftover", p.PosStr(c.Pos()), "a file that is already there %s", bad)
			}
		}
	}
	r.NeedAtLeast(4, "places that open an output file")

	isList := func(f *ssa.Function) bool {
		for _, q := range f.Params {
			if s, ok := q.Type().Underlying().(*types.Slice); ok && isNamed(s.Elem(), "types.SerialAndReason") {
				return true
			}
		}
		return false
	}
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || !isList(f) || !createsList(g, f) {
			continue
		}
		outer := true
		for _, c := range g.Callers(f) {
			outer = outer && (c == f || !isList(c))
		}
		if outer {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return fname(roots[i]) < fname(roots[j]) })
	for _, f := range roots {
		listRoot(p, r, f)
	}
	r.NeedAtLeast(1, "files of revoked lists opened")
	r.NeedAtLeast(1, "lines judged")
	return r
}

func createsList(g *graph, f *ssa.Function) bool {
	for _, n := range []string{"os.Create", "os.OpenFile", "os.CreateTemp", renameioPkg + ".TempFile", "os.WriteFile", renameioPkg + ".WriteFile"} {
		if g.has(f, n) {
			return true
		}
	}
	return false
}

// dropsPart tells whether an operation may give the same result for different
// inputs.
func dropsPart(t *Term) bool {
	if t.Op == "pure" && t.Key == "slice" {
		for _, a := range t.Args[1:] {
			if a != nil {
				n, ok := a.IntConst()
				if ok && n >= 4 && overHash(t.Args[0]) {
					continue // enough of a hash
				}
				if !ok || n != 0 {
					return t.Typ != nil && (isStringType(t.Typ) || isBytesType(t.Typ))
				}
			}
		}
		return false
	}
	if t.Op != "pure" && t.Op != "call" {
		return false
	}
	switch t.Key {
	case "strings.ToLower", "strings.ToUpper", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix",
		"path.Base", "path.Dir", "path.Ext", "path/filepath.Ext", "path/filepath.Dir", "strings.Map", "strings.Replace", "strings.ReplaceAll", "strings.Fields", "strings.Split", "strings.SplitN", "strings.Cut", "strings.Index", "len":
		return true
	}
	return strings.HasPrefix(t.Key, "(*regexp.Regexp).Replace") || strings.HasPrefix(t.Key, "hash/")
}

func isBytesType(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// overHash: bytes of an array, such as hash functions return.
func overHash(t *Term) bool {
	if t == nil || t.Typ == nil {
		return false
	}
	if (t.Op == "call" || t.Op == "pure") && (strings.HasSuffix(t.Key, ".Sum") || t.Key == "encoding/hex.EncodeToString") {
		return true
	}
	_, ok := deref(t.Typ).Underlying().(*types.Array)
	return ok
}

// wholeTerms is reachTerms without what is only reached through an operation
// that drops part of its input.
func wholeTerms(x *Exec, st *State, t *Term) map[*Term]bool {
	seen := map[*Term]bool{}
	work := []*Term{t}
	for len(work) > 0 {
		u := work[len(work)-1]
		work = work[:len(work)-1]
		if u == nil || seen[u] || dropsPart(u) {
			continue
		}
		seen[u] = true
		work = append(work, u.Args...)
		for _, m := range []map[*Term]*Term{st.heap, st.havoc} {
			if v, ok := m[u]; ok {
				work = append(work, v)
			}
			if u.Op == "alloc" || u.Op == "old" {
				for a, v := range m {
					if a != u && addrRoot(a) == u {
						work = append(work, v)
					}
				}
			}
		}
		for _, it := range st.contrib[u] {
			work = append(work, it.t)
		}
	}
	return seen
}

// lineParts translates what is written into parts of a line of the list.
//
//	R  the reason as two hexadecimal digits
//	r  the reason in an encoding of another or of varying length
//	S  the serial
//	N  a line break
//	=  other constant text
//	?  not understood, and may be any of it
func lineParts(x *Exec, st *State, t, coll *Term, depth int) string {
	if t == nil {
		return "?"
	}
	t = strip(t)
	if s, ok := strConst(t); ok {
		return textParts(s)
	}
	if t.Op == "const" {
		if n, ok := t.IntConst(); ok {
			if n == '\n' {
				return "N"
			}
			return "="
		}
	}
	if depth > 8 {
		return "?"
	}
	reason, elem := false, false
	for u := range reachTerms(x, st, t) {
		if elemIn(u, coll) {
			elem = true
			if isReason(u) {
				reason = true
			}
		}
	}
	switch {
	case t.Op == "binop" && t.Key == "+" && len(t.Args) == 2 && t.Typ != nil && isStringType(t.Typ):
		return lineParts(x, st, t.Args[0], coll, depth+1) + lineParts(x, st, t.Args[1], coll, depth+1)
	case t.Op == "conv" && len(t.Args) == 1 && t.Args[0].Typ != nil && (isStringType(t.Args[0].Typ) || isBytesType(t.Args[0].Typ)):
		return lineParts(x, st, t.Args[0], coll, depth+1)
	case t.Op != "pure" && t.Op != "call":
	case t.Key == "encoding/hex.EncodeToString" && elem:
		if reason {
			if n, ok := x.lenOf(t.Args[0]).IntConst(); ok && n == 1 {
				return "R"
			}
			return "?"
		}
		return "S"
	case strings.HasSuffix(t.Key, "types.Serial).HexString"):
		return "S"
	case t.Key == "strconv.Itoa" || t.Key == "strconv.FormatInt" || t.Key == "strconv.FormatUint":
		if reason {
			return "r"
		}
	case (t.Key == "fmt.Sprint" || t.Key == "fmt.Sprintln") && reason:
		return "?"
	case t.Key == "fmt.Sprintf" && len(t.Args) == 2:
		return formatParts(x, st, t.Args, coll, depth)
	}
	return "?"
}

func isReason(u *Term) bool {
	return (u.Op == "field" || u.Op == "fieldaddr") && strings.HasSuffix(u.Key, ":Reason")
}

func textParts(s string) string {
	out := ""
	for _, c := range s {
		if c == '\n' {
			out += "N"
		} else {
			out += "="
		}
	}
	return out
}

// formatParts reads a format and its arguments.
func formatParts(x *Exec, st *State, args []*Term, coll *Term, depth int) string {
	f, ok := strConst(args[0])
	va := strip(args[1])
	if !ok || va.Op != "vararg" || strings.Contains(f, "%%") {
		return "?"
	}
	out, k := "", 0
	for len(f) > 0 {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			out += textParts(f)
			break
		}
		out += textParts(f[:i])
		f = f[i+1:]
		j := strings.IndexAny(f, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
		if j < 0 || k >= len(va.Args) || strings.ContainsAny(f[:j], "[*") {
			return "?"
		}
		flags, verb := f[:j], f[j]
		f = f[j+1:]
		a := strip(va.Args[k])
		k++
		num := false
		if a.Typ != nil {
			b, ok := a.Typ.Underlying().(*types.Basic)
			num = ok && b.Info()&types.IsInteger != 0
		}
		switch {
		case num && elemIn(a, coll) && a.HasSub(isReason):
			switch {
			case (verb == 'x' || verb == 'X') && (flags == "02" || flags == ".2"):
				out += "R"
			case strings.ContainsRune("dxXvobc", rune(verb)):
				out += "r"
			default:
				out += "?"
			}
		case (verb == 's' || verb == 'v') && flags == "":
			out += lineParts(x, st, a, coll, depth+1)
		default:
			out += "?"
		}
	}
	return out
}

func badLine(s string) string {
	if strings.Contains(s, "r") {
		return "the reason is not written as exactly two digits"
	}
	if strings.Contains(s, "?") {
		return ""
	}
	switch {
	case s == "RSN":
		return ""
	case !strings.Contains(s, "R"):
		return "the reason is left out"
	case !strings.Contains(s, "S"):
		return "the serial is left out"
	case !strings.HasSuffix(s, "N"):
		return "the line is not ended"
	case strings.Index(s, "S") < strings.Index(s, "R"):
		return "the serial comes before the reason"
	}
	return "a line holds more than reason and serial"
}

func listRoot(p *Program, r *Result, root *ssa.Function) {
	g := p.Graph()
	inner := map[string]bool{}
	for f := range g.Reach(root) {
		if createsFile(g, f) || returnsWriter(f) || takesWriter(f) || onlyString(f) || f.Parent() != nil {
			inner[fname(f)] = true
		}
		for _, q := range f.Params {
			if isNamed(q.Type(), "types.SerialAndReason") || isNamed(q.Type(), "types.Issuer") {
				inner[fname(f)] = true
			}
		}
	}
	fl := &files{wide: true}
	rule := &Rule{PureFn: pureTypes, NoChanVals: true, WidenAt: 3}
	rule.GoMode = func(*CallInfo) int { return GoSkip }
	rule.OpaqueFn = func(n string) bool {
		return n != fname(root) && (!inner[n] || strings.HasPrefix(n, "(types.") || strings.HasPrefix(n, "(*types.") || strings.HasPrefix(n, "types."))
	}
	// lines of one loop
	end := func(x *Exec, st *State, lk *Term, in ssa.Instruction) {
		for _, m := range st.Marks("line") {
			if m.T[1] != lk {
				continue
			}
			s, _ := strConst(m.T[2])
			if s != "" { // C24 sees to it that every serial is written
				r.Counts["lines judged"]++
				why := badLine(s)
				r.Check(why == "", st, "line", m.Pos, "a line of the revoked list: %s", why)
			}
		}
		st.DelMarks("line", func(m Mark) bool { return m.T[1] == lk })
	}
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		if !isSerialList(coll) {
			return
		}
		lk := loopKey(x, in)
		end(x, st, lk, in)
		if more {
			st.AddMark("line", x.pos(in), coll, lk, x.tt.mk("const", `""`, 0, nil))
		}
	}
	put := func(x *Exec, st *State, pos string, parts func(coll *Term) string) {
		for _, m := range st.Marks("line") {
			s, _ := strConst(m.T[2])
			s += parts(m.T[0])
			if len(s) > 12 {
				s = s[:12]
			}
			mm := m
			st.DelMarks("line", func(o Mark) bool { return o.key() == mm.key() })
			st.AddMark("line", pos, m.T[0], m.T[1], x.tt.mk("const", `"`+s+`"`, 0, nil))
		}
	}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		n := ci.Name
		if isCreate(n) || n == renameioPkg+".WriteFile" || n == "os.WriteFile" {
			path := ci.Arg(0)
			if n == renameioPkg+".TempFile" {
				path = ci.Arg(1)
			}
			isID := func(u *Term) bool {
				if u.Typ == nil || !isStringType(u.Typ) || u.Op == "const" {
					return false
				}
				return (u.Op == "call" || u.Op == "pure") && strings.HasSuffix(u.Key, "types.Issuer).ID")
			}
			whole, some := false, false
			for u := range reachTerms(x, st, path) {
				some = some || isID(u)
			}
			for u := range wholeTerms(x, st, path) {
				whole = whole || isID(u)
			}
			r.Counts["files of revoked lists opened"]++
			why := "does not depend on the issuer"
			if some {
				why = "depends on a part of the issuer's identifier only"
			}
			r.Check(whole, st, "file-name", ci.Pos, "the name of the file of a revoked list %s", why)
			return
		}
		if !isWriter(n) || len(ci.Args) < 2 || fileIn(st, ci.Arg(0)) == nil && !(ci.Args[0].Typ != nil && writable(ci.Args[0].Typ, 0)) {
			return
		}
		put(x, st, ci.Pos, func(coll *Term) string {
			switch n {
			case "fmt.Fprintf":
				return formatParts(x, st, ci.Args[1:], coll, 0)
			case "fmt.Fprint", "fmt.Fprintln":
				return "?"
			}
			return lineParts(x, st, ci.Args[1], coll, 0)
		})
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if !ci.Inl {
			fl.onRet(x, st, ci, res)
		}
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(root)
	r.Absorb(x)
}
