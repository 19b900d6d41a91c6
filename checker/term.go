package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

// Term is a hash-consed symbolic value. Two values with the same term are
// equal on the path under analysis.
type Term struct {
	ID   int
	Op   string
	Key  string // site key, constant text, global name, field index, ...
	Args []*Term
	Typ  types.Type
	Site int // >0 for terms created by an instruction instance (recency-renamed)
	Pos  string

	fresh []int // sorted site ids contained and not below an "old" of that site
	depth int
	sub   map[*Term]bool // memo: all sub-terms
}

type termTable struct {
	tab   map[string]*Term
	sites map[string]int
	names []string
}

func newTermTable() *termTable {
	return &termTable{tab: map[string]*Term{}, sites: map[string]int{}, names: []string{""}}
}

func (tt *termTable) site(key string) int {
	if id, ok := tt.sites[key]; ok {
		return id
	}
	id := len(tt.names)
	tt.names = append(tt.names, key)
	tt.sites[key] = id
	return id
}

const maxDepth = 40

func (tt *termTable) mk(op, key string, site int, typ types.Type, args ...*Term) *Term {
	// Self-nesting below the same site is summarised.
	if site > 0 {
		for i, a := range args {
			if a != nil && a.hasSiteAny(site) {
				na := make([]*Term, len(args))
				copy(na, args)
				for j := i; j < len(na); j++ {
					na[j] = tt.truncate(na[j], site)
				}
				args = na
				break
			}
		}
	}
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(key)
	sb.WriteByte('|')
	fmt.Fprintf(&sb, "%d", site)
	for _, a := range args {
		if a == nil {
			sb.WriteString(",-")
		} else {
			fmt.Fprintf(&sb, ",%d", a.ID)
		}
	}
	k := sb.String()
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := &Term{ID: len(tt.tab) + 1, Op: op, Key: key, Args: append([]*Term(nil), args...), Typ: typ, Site: site}
	set := map[int]bool{}
	for _, a := range args {
		if a == nil {
			continue
		}
		if a.depth+1 > t.depth {
			t.depth = a.depth + 1
		}
		for _, s := range a.fresh {
			set[s] = true
		}
	}
	if site > 0 {
		set[site] = true
	}
	if op == "old" {
		delete(set, args[0].Site)
	}
	for s := range set {
		t.fresh = append(t.fresh, s)
	}
	sort.Ints(t.fresh)
	if t.depth > maxDepth {
		c := tt.mk("deep", key+"/"+op, 0, typ)
		tt.tab[k] = c
		return c
	}
	tt.tab[k] = t
	return t
}

func (t *Term) hasFresh(site int) bool {
	i := sort.SearchInts(t.fresh, site)
	return i < len(t.fresh) && t.fresh[i] == site
}

// hasSiteAny reports whether any sub-term (also below old) has the site.
func (t *Term) hasSiteAny(site int) bool {
	for s := range t.Subs() {
		if s.Site == site {
			return true
		}
	}
	return false
}

// Subs returns the set of all sub-terms, t included.
func (t *Term) Subs() map[*Term]bool {
	if t.sub != nil {
		return t.sub
	}
	m := map[*Term]bool{t: true}
	for _, a := range t.Args {
		if a == nil {
			continue
		}
		for s := range a.Subs() {
			m[s] = true
		}
	}
	t.sub = m
	return m
}

func (t *Term) Contains(u *Term) bool { return t.Subs()[u] }

// FindSub returns the sub-terms that satisfy p.
func (t *Term) FindSub(p func(*Term) bool) []*Term {
	var r []*Term
	for s := range t.Subs() {
		if p(s) {
			r = append(r, s)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

func (t *Term) HasSub(p func(*Term) bool) bool {
	for s := range t.Subs() {
		if p(s) {
			return true
		}
	}
	return false
}

func (tt *termTable) truncate(t *Term, site int) *Term {
	if t == nil || !t.hasSiteAny(site) {
		return t
	}
	if t.Site == site {
		return tt.mk("self", fmt.Sprint(site), 0, t.Typ)
	}
	return tt.rebuild(t, func(a *Term) *Term { return tt.truncate(a, site) })
}

func (tt *termTable) rebuild(t *Term, f func(*Term) *Term) *Term {
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		if a == nil {
			continue
		}
		args[i] = f(a)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	switch t.Op {
	case "old":
		return tt.old(args[0])
	case "fieldaddr":
		return tt.fieldAddr(args[0], t.Key, t.Typ)
	case "field":
		return tt.field(args[0], t.Key, t.Typ)
	case "lin", "eq", "lt", "isnil", "not":
		n := tt.mk(t.Op, t.Key, t.Site, t.Typ, args...)
		n.Pos = t.Pos
		return n
	}
	n := tt.mk(t.Op, t.Key, t.Site, t.Typ, args...)
	if n.Pos == "" {
		n.Pos = t.Pos
	}
	return n
}

func (tt *termTable) old(t *Term) *Term {
	if t.Op == "old" {
		return t
	}
	return tt.mk("old", "", 0, t.Typ, t)
}

// rename replaces every fresh occurrence of site by its "old" version.
func (tt *termTable) rename(t *Term, site int, memo map[*Term]*Term) *Term {
	if t == nil || !t.hasFresh(site) {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if t.Site == site {
		r = tt.old(t)
	} else if t.Op == "old" {
		// other site's old value: rename inside
		in := tt.rebuild(t.Args[0], func(a *Term) *Term { return tt.rename(a, site, memo) })
		r = tt.old(in)
	} else {
		r = tt.rebuild(t, func(a *Term) *Term { return tt.rename(a, site, memo) })
	}
	memo[t] = r
	return r
}

// ---- constructors -------------------------------------------------------

func (tt *termTable) constant(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return tt.zero(typ)
	}
	if v.Kind() == constant.Bool {
		if constant.BoolVal(v) {
			return tt.mk("true", "", 0, typ)
		}
		return tt.mk("false", "", 0, typ)
	}
	return tt.mk("const", v.ExactString(), 0, typ)
}

func (tt *termTable) intc(n int64) *Term {
	return tt.mk("const", constant.MakeInt64(n).ExactString(), 0, types.Typ[types.Int])
}
func (tt *termTable) nilT() *Term { return tt.mk("nil", "", 0, nil) }
func (tt *termTable) boolT(b bool) *Term {
	if b {
		return tt.mk("true", "", 0, types.Typ[types.Bool])
	}
	return tt.mk("false", "", 0, types.Typ[types.Bool])
}

func (tt *termTable) zero(typ types.Type) *Term {
	if typ == nil {
		return tt.nilT()
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tt.boolT(false)
		case u.Info()&types.IsString != 0:
			return tt.mk("const", `""`, 0, typ)
		case u.Info()&types.IsNumeric != 0:
			return tt.mk("const", "0", 0, typ)
		}
		return tt.nilT()
	case *types.Struct:
		if tt.explode(typ) {
			args := make([]*Term, u.NumFields())
			for i := range args {
				args[i] = tt.zero(u.Field(i).Type())
			}
			return tt.mk("agg", typeKey(typ), 0, typ, args...)
		}
		return tt.mk("zero", typeKey(typ), 0, typ)
	case *types.Array:
		return tt.mk("zero", typeKey(typ), 0, typ)
	}
	return tt.nilT()
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

// explode reports whether structs of this type are tracked field by field.
func (tt *termTable) explode(typ types.Type) bool {
	s, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if s.NumFields() > 40 {
		return false
	}
	switch n := types.Unalias(typ).(type) {
	case *types.Named:
		p := n.Obj().Pkg()
		return p != nil && isModulePath(p.Path())
	case *types.Struct:
		return true
	}
	return false
}

func (tt *termTable) fieldAddr(base *Term, key string, typ types.Type) *Term {
	return tt.mk("fieldaddr", key, 0, typ, base)
}

func (tt *termTable) field(x *Term, key string, typ types.Type) *Term {
	switch x.Op {
	case "agg":
		var i int
		fmt.Sscanf(key, "%d", &i)
		if i < len(x.Args) {
			return x.Args[i]
		}
	case "deref":
		return tt.mk("deref", "", 0, typ, tt.fieldAddr(x.Args[0], key, nil))
	case "zero":
		return tt.zero(typ)
	}
	return tt.mk("field", key, 0, typ, x)
}

func isNilT(t *Term) bool { return t.Op == "nil" }

// strip removes interface wrapping and conversions that keep the value.
func strip(t *Term) *Term {
	for t != nil && (t.Op == "iface" || t.Op == "conv") {
		t = t.Args[0]
	}
	return t
}

func (t *Term) IntConst() (int64, bool) {
	if t.Op != "const" {
		return 0, false
	}
	var n int64
	if _, err := fmt.Sscanf(t.Key, "%d", &n); err != nil {
		return 0, false
	}
	if fmt.Sprint(n) != t.Key {
		return 0, false
	}
	return n, true
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d > 6 {
		return "…"
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.str(d+1))
	}
	j := strings.Join(as, ", ")
	switch t.Op {
	case "const", "global", "param", "func":
		return t.Key
	case "nil", "true", "false":
		return t.Op
	case "deref":
		return "*" + j
	case "fieldaddr", "field":
		n := t.Key
		if i := strings.IndexByte(n, ':'); i >= 0 {
			n = n[i+1:]
		}
		if t.Op == "fieldaddr" {
			return "&" + j + "." + n
		}
		return j + "." + n
	case "call":
		return shortName(t.Key) + "(" + j + ")"
	case "pure":
		return shortName(t.Key) + "(" + j + ")"
	case "ext":
		return j + "#" + t.Key
	case "old":
		return "old(" + j + ")"
	case "iface", "conv":
		return j
	case "alloc":
		return fmt.Sprintf("alloc%d", t.Site)
	case "agg":
		return "{" + j + "}"
	}
	if t.Key != "" {
		return t.Op + "[" + shortName(t.Key) + "](" + j + ")"
	}
	return t.Op + "(" + j + ")"
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, "github.com/mozilla/crlite/go/", "")
	s = strings.ReplaceAll(s, "github.com/mozilla/crlite/go", "types")
	return s
}

// ---- linear comparisons ---------------------------------------------------

// linear form: sum of coefficient * term + constant
type lin struct {
	c map[*Term]int64
	k int64
}

func (tt *termTable) linOf(t *Term, sign int64, l *lin) {
	t2 := t
	for t2.Op == "conv" {
		t2 = t2.Args[0]
	}
	if n, ok := t2.IntConst(); ok {
		l.k += sign * n
		return
	}
	if t2.Op == "binop" {
		switch t2.Key {
		case "+":
			tt.linOf(t2.Args[0], sign, l)
			tt.linOf(t2.Args[1], sign, l)
			return
		case "-":
			tt.linOf(t2.Args[0], sign, l)
			tt.linOf(t2.Args[1], -sign, l)
			return
		case "*":
			if n, ok := t2.Args[0].IntConst(); ok {
				tt.linOf(t2.Args[1], sign*n, l)
				return
			}
			if n, ok := t2.Args[1].IntConst(); ok {
				tt.linOf(t2.Args[0], sign*n, l)
				return
			}
		}
	}
	if l.c == nil {
		l.c = map[*Term]int64{}
	}
	l.c[t2] += sign
	if l.c[t2] == 0 {
		delete(l.c, t2)
	}
}

func (l *lin) terms() []*Term {
	var r []*Term
	for t := range l.c {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// linTerm makes the canonical predicate "L op 0" (op "eq" or "lt") and tells
// whether it is negated. Key holds coefficients and constant.
func (tt *termTable) linTerm(op string, l *lin) (*Term, bool) {
	ts := l.terms()
	if len(ts) == 0 {
		var v bool
		if op == "eq" {
			v = l.k == 0
		} else {
			v = l.k < 0
		}
		return tt.boolT(v), false
	}
	neg := false
	sgn := int64(1)
	k := l.k
	if l.c[ts[0]] < 0 {
		if op == "eq" {
			sgn = -1
			k = -k
		} else {
			// L<0  <=>  !( -L <= 0 ) ... -L-1 >= 0 <=> !(-L-1 < 0)
			sgn = -1
			k = -k - 1
			neg = true
		}
	}
	var sb strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&sb, "%d,", sgn*l.c[t])
	}
	fmt.Fprintf(&sb, ";%d", k)
	return tt.mk(op, sb.String(), 0, types.Typ[types.Bool], ts...), neg
}

// decodeLin returns the coefficients and constant of a canonical predicate.
func decodeLin(t *Term) (coef []int64, k int64) {
	parts := strings.Split(t.Key, ";")
	if len(parts) != 2 {
		return nil, 0
	}
	for _, p := range strings.Split(strings.TrimSuffix(parts[0], ","), ",") {
		var n int64
		fmt.Sscanf(p, "%d", &n)
		coef = append(coef, n)
	}
	fmt.Sscanf(parts[1], "%d", &k)
	return
}

// hasOld tells whether the term mentions a value of an earlier iteration.
func (t *Term) hasOld() bool {
	return t.HasSub(func(u *Term) bool { return u.Op == "old" })
}

func (t *Term) hasPhi() bool {
	return t.HasSub(func(u *Term) bool { return u.Op == "phi" })
}

// raw prints the whole term, for debugging.
func (t *Term) raw() string {
	if t == nil {
		return "_"
	}
	s := t.Op
	if t.Key != "" {
		s += "[" + t.Key + "]"
	}
	if t.Site != 0 {
		s += fmt.Sprintf("@%d", t.Site)
	}
	if len(t.Args) > 0 {
		var as []string
		for _, a := range t.Args {
			as = append(as, a.raw())
		}
		s += "(" + strings.Join(as, ",") + ")"
	}
	return s
}
