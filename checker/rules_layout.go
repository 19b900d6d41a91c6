package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The layout of cache entries and of bin names: C30 (and part of C29).

func init() { checks["C30"] = checkC30 }

// ---- byte layouts ---------------------------------------------------------------

// sliceOf resolves a slice expression to its underlying buffer and constant
// bounds; hi is -1 when open, lo is -1 when not constant.
func sliceOf(t *Term) (base *Term, lo, hi int64) {
	t = strip(t)
	for t != nil && (t.Op == "conv" || t.Op == "pure" && t.Key == "slice2arr" || t.Op == "deref" && t.Args[0] != nil && t.Args[0].Op == "pure" && t.Args[0].Key == "slice2arr") {
		t = t.Args[0]
	}
	if t == nil {
		return nil, 0, -1
	}
	if t.Op == "pure" && t.Key == "slice" {
		b, l0, h0 := sliceOf(t.Args[0])
		lo, hi = 0, -1
		if t.Args[1] != nil {
			if n, ok := t.Args[1].IntConst(); ok {
				lo = n
			} else {
				return b, -1, -1
			}
		}
		if t.Args[2] != nil {
			if n, ok := t.Args[2].IntConst(); ok {
				hi = n
			}
		}
		if l0 < 0 {
			return b, -1, -1
		}
		if hi >= 0 {
			hi += l0
		} else {
			hi = h0
		}
		return b, lo + l0, hi
	}
	return t, 0, -1
}

// byteOrder is "le" or "be" for the methods of encoding/binary.
func byteOrder(n string) string {
	switch {
	case strings.Contains(n, "littleEndian"):
		return "le"
	case strings.Contains(n, "bigEndian"):
		return "be"
	}
	return ""
}

type layPart struct {
	off   int64
	size  int64 // -1: open
	order string
	src   *Term
}

// layouts follows the bytes written to buffers: lay(buf, off, size, order, src)
// and end(buf, n).
type layouts struct{}

func (layouts) add(x *Exec, st *State, buf *Term, off, size int64, order string, src *Term, pos string) {
	st.AddMark("lay", pos, buf, x.tt.intc(off), x.tt.intc(size), x.tt.mk("const", order, 0, nil), src)
}

func byteLen(t *Term) int64 {
	t = strip(t)
	if t == nil {
		return -1
	}
	b, lo, hi := sliceOf(t)
	if hi >= 0 && lo >= 0 {
		return hi - lo
	}
	if b != nil && b.Typ != nil {
		if n := arrayLen(deref(b.Typ)); n >= 0 && lo >= 0 {
			return n - lo
		}
	}
	if t.Typ != nil {
		if n := arrayLen(t.Typ); n >= 0 {
			return n
		}
	}
	if s, ok := strConst(t); ok {
		return int64(len(s))
	}
	return -1
}

func (l layouts) end(x *Exec, st *State, buf *Term) int64 {
	for _, m := range st.Marks("lend") {
		if m.T[0] == buf {
			n, _ := m.T[1].IntConst()
			return n
		}
	}
	buf = strip(buf)
	if buf == nil || buf.Op == "nil" || buf.Op == "zero" {
		return 0
	}
	if buf.Op == "make" {
		return 0 // append to a buffer of known zero length; others are filled by position
	}
	return -1
}

func (l layouts) appendTo(x *Exec, st *State, res, base *Term, size int64, order string, src *Term, pos string) {
	e := l.end(x, st, base)
	for _, m := range st.Marks("lay") {
		if m.T[0] == base {
			st.AddMark("lay", m.Pos, append([]*Term{res}, m.T[1:]...)...)
		}
	}
	l.add(x, st, res, e, size, order, src, pos)
	ne := int64(-1)
	if e >= 0 && size >= 0 {
		ne = e + size
	}
	st.AddMark("lend", pos, res, x.tt.intc(ne))
}

func (l layouts) onCall(x *Exec, st *State, ci *CallInfo) {
	n := ci.Name
	switch {
	case strings.HasPrefix(n, "(encoding/binary.") && strings.Contains(n, "Endian).Put"):
		b, lo, _ := sliceOf(ci.Arg(1))
		l.add(x, st, b, lo, putSize(n), byteOrder(n), ci.Arg(2), ci.Pos)
	case n == "builtin.copy":
		b, lo, hi := sliceOf(ci.Arg(0))
		sz := byteLen(ci.Arg(1))
		if sz < 0 && hi >= 0 && lo >= 0 {
			sz = hi - lo
		}
		l.add(x, st, b, lo, sz, "", cellOf(x, st, srcOf(ci.Arg(1))), ci.Pos)
	}
}

func srcOf(t *Term) *Term {
	b, _, _ := sliceOf(t)
	return b
}

// cellOf is the value of a local variable, also of an array.
func cellOf(x *Exec, st *State, b *Term) *Term {
	if b != nil && b.Op == "alloc" {
		if v, ok := st.heap[b]; ok {
			return v
		}
	}
	return x.content(st, b)
}

func putSize(n string) int64 {
	switch {
	case strings.HasSuffix(n, "64"):
		return 8
	case strings.HasSuffix(n, "32"):
		return 4
	case strings.HasSuffix(n, "16"):
		return 2
	}
	return -1
}

func (l layouts) onRet(x *Exec, st *State, ci *CallInfo, res *Term) {
	n := ci.Name
	if strings.HasPrefix(n, "(encoding/binary.") && strings.Contains(n, "Endian).Append") {
		l.appendTo(x, st, res, ci.Arg(1), putSize(n), byteOrder(n), ci.Arg(2), ci.Pos)
	}
}

func (l layouts) onAppend(x *Exec, st *State, res, base *Term, elems []*Term, spread bool, in ssa.Instruction) {
	if !isByteSlice(res) || !spread {
		return
	}
	for _, e := range elems {
		l.appendTo(x, st, res, base, byteLen(e), "", cellOf(x, st, srcOf(e)), x.pos(in))
	}
}

// of lists the parts of the string or buffer t.
func (l layouts) of(x *Exec, st *State, t *Term) []layPart {
	t = strip(t)
	for t != nil && t.Op == "conv" {
		t = t.Args[0]
	}
	if t == nil {
		return nil
	}
	if t.Op == "binop" && t.Key == "+" {
		var r []layPart
		off := int64(0)
		for _, a := range t.Args {
			ps := l.of(x, st, a)
			sz := int64(-1)
			if len(ps) == 0 {
				b, _, _ := sliceOf(a)
				sz = byteLen(a)
				ps = []layPart{{0, sz, "", cellOf(x, st, b)}}
			} else {
				lp := ps[len(ps)-1]
				if lp.size >= 0 {
					sz = lp.off + lp.size
				}
			}
			for _, p := range ps {
				if off < 0 || p.off < 0 {
					p.off = -1
				} else {
					p.off += off
				}
				r = append(r, p)
			}
			if off >= 0 && sz >= 0 {
				off += sz
			} else {
				off = -1
			}
		}
		return r
	}
	b, _, _ := sliceOf(t)
	var r []layPart
	for _, m := range st.Marks("lay") {
		if m.T[0] == b {
			o, _ := m.T[1].IntConst()
			s, _ := m.T[2].IntConst()
			r = append(r, layPart{o, s, m.T[3].Key, m.T[4]})
		}
	}
	for i := range r {
		for j := i + 1; j < len(r); j++ {
			if r[j].off < r[i].off {
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	return r
}

// ---- name templates ---------------------------------------------------------------

// pieces flattens a string expression into constant text and terms.
func pieces(t *Term) []*Term {
	t = strip(t)
	for t != nil && t.Op == "conv" {
		t = t.Args[0]
	}
	if t == nil {
		return nil
	}
	switch {
	case t.Op == "binop" && t.Key == "+":
		return append(pieces(t.Args[0]), pieces(t.Args[1])...)
	case t.Op == "pure" && t.Key == "fmt.Sprintf":
		f, ok := strConst(t.Args[0])
		if !ok {
			break
		}
		var args []*Term
		if len(t.Args) > 1 && t.Args[1] != nil && t.Args[1].Op == "vararg" {
			args = t.Args[1].Args
		}
		var r []*Term
		for {
			i := strings.IndexByte(f, '%')
			if i < 0 || i+1 >= len(f) {
				break
			}
			if f[i+1] != 's' && f[i+1] != 'v' || len(args) == 0 {
				return []*Term{t}
			}
			if i > 0 {
				r = append(r, constTerm(f[:i]))
			}
			r = append(r, pieces(args[0])...)
			args = args[1:]
			f = f[i+2:]
		}
		if f != "" {
			r = append(r, constTerm(f))
		}
		return r
	case t.Op == "pure" && t.Key == "strings.Join" && len(t.Args) == 2:
		if t.Args[0] != nil && t.Args[0].Op == "vararg" {
			var r []*Term
			for i, a := range t.Args[0].Args {
				if i > 0 {
					r = append(r, pieces(t.Args[1])...)
				}
				r = append(r, pieces(a)...)
			}
			return r
		}
	}
	return []*Term{t}
}

func constTerm(s string) *Term { return &Term{Op: "const", Key: fmt.Sprintf("%q", s)} }

// split divides a template at a separator: each part is a list of pieces.
func splitPieces(ps []*Term, sep string) [][]*Term {
	r := [][]*Term{nil}
	for _, p := range ps {
		s, ok := strConst(p)
		if !ok {
			r[len(r)-1] = append(r[len(r)-1], p)
			continue
		}
		for i, part := range strings.Split(s, sep) {
			if i > 0 {
				r = append(r, nil)
			}
			if part != "" {
				r[len(r)-1] = append(r[len(r)-1], constTerm(part))
			}
		}
	}
	return r
}

func piecesPrefix(ps []*Term) string {
	s := ""
	for _, p := range ps {
		c, ok := strConst(p)
		if !ok {
			break
		}
		s += c
	}
	return s
}

func isDateID(t *Term) bool {
	return t.Op == "pure" && (strings.HasSuffix(t.Key, "ExpDate).ID") || strings.HasSuffix(t.Key, "ExpDate).String"))
}
func isIssuerID(t *Term) bool { return t.Op == "pure" && strings.HasSuffix(t.Key, "Issuer).ID") }

type nameTemplate struct {
	what string
	pos  string
	ps   []*Term
}

func (n nameTemplate) String() string {
	s := ""
	for _, p := range n.ps {
		switch {
		case isDateID(p):
			s += "<date>"
		case isIssuerID(p):
			s += "<issuer>"
		default:
			if c, ok := strConst(p); ok {
				s += c
			} else {
				s += "<?>"
			}
		}
	}
	return s
}

// pathElems splits a joined path into its elements' terms (outermost first).
func pathElems(t *Term) []*Term {
	t = strip(t)
	if t != nil && t.Op == "pure" && strings.HasSuffix(t.Key, "path/filepath.Join") && len(t.Args) > 0 && t.Args[0] != nil && t.Args[0].Op == "vararg" {
		var r []*Term
		for _, a := range t.Args[0].Args {
			r = append(r, pathElems(a)...)
		}
		return r
	}
	return []*Term{t}
}

func arrayLenTerm(t *Term) int64 { return byteLen(t) }

// shortBound reads a fact about len(of): entry is short iff len <= N.
func shortBound(f *Term, v bool, of *Term) (n int64, short, ok bool) {
	if f.Op != "lt" || len(f.Args) != 1 {
		return
	}
	a := f.Args[0]
	if a.Op != "pure" || a.Key != "len" {
		return
	}
	b := strip(a.Args[0])
	for b.Op == "conv" {
		b = b.Args[0]
	}
	if b != of {
		return
	}
	co, k := decodeLin(f)
	if co[0] == 1 {
		return -k - 1, v, true
	}
	if co[0] == -1 {
		return k, !v, true
	}
	return
}

// memberLayout explores the construction of a cache entry.
func memberLayout(p *Program, r *Result, each func(x *Exec, st *State, res *Term)) {
	f := p.Fn("(*storage.CertDatabase).PrepareSetMember")
	if f == nil {
		r.Bad("missing: PrepareSetMember", "-", "(*CertDatabase).PrepareSetMember not found")
		return
	}
	var l layouts
	rule := &Rule{PureFn: pureTypes}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) { l.onCall(x, st, ci) }
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if !ci.Inl {
			l.onRet(x, st, ci, res)
		}
	}
	rule.OnAppend = l.onAppend
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		if len(res) == 1 {
			each(x, st, res[0])
		}
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(f)
	r.Absorb(x)
}

func memberField(x *Exec, p *Program, res *Term, name string) *Term {
	t := p.NamedType("storage.SetMemberWithExpiry")
	if t == nil {
		return nil
	}
	k := fieldOf(p, "storage.SetMemberWithExpiry", func(v *typesVar) bool { return v.Name() == name })
	return strip(x.tt.field(res, k, nil))
}

// checkMemberLayout: provenance of the parts of a cache entry (C29).
func checkMemberLayout(p *Program, r *Result) {
	memberLayout(p, r, func(x *Exec, st *State, res *Term) {
		r.Counts["entries built"]++
		cert, iss, ts, log := x.Params[1], x.Params[2], x.Params[3], x.Params[4]
		pos := "go/storage PrepareSetMember"
		key, val, exp := memberField(x, p, res, "Key"), memberField(x, p, res, "Value"), memberField(x, p, res, "Expiry")
		if key == nil || val == nil || exp == nil {
			r.Bad("missing: member fields", pos, "SetMemberWithExpiry has no Key, Value or Expiry")
			return
		}
		dateOf := func(t *Term) bool {
			return t.HasSub(func(u *Term) bool { return strings.HasSuffix(u.Key, "Certificate).NotAfter") && u.Contains(cert) })
		}
		ids := binIDs(key)
		if len(ids) == 0 {
			for t := range reachTerms(x, st, key) {
				for u := range binIDs(t) {
					ids[u] = true
				}
			}
		}
		var d, i bool
		for u := range ids {
			if isDateID(u) {
				d = dateOf(u)
				r.Check(d, st, "wrong-date", pos, "an entry is filed under a date that is not the certificate's expiry")
			} else {
				i = u.Contains(iss) || reachTerms(x, st, u)[iss]
				bad := u.Contains(cert)
				r.Check(i && !bad, st, "wrong-issuer", pos, "an entry is filed under something other than the identity of its issuer")
			}
		}
		r.Check(d && i, st, "incomplete-key", pos, "the key of an entry does not depend on both the expiry date and the issuer")
		r.Check(dateOf(exp) || dateReach(x, st, exp, dateOf) || exp.Contains(cachedKeyOf(key)), st, "wrong-expiry", pos, "the expiry of an entry is not that of its certificate")
		ps := (layouts{}).of(x, st, val)
		var hasTs, hasLog, hasSer bool
		for _, q := range ps {
			switch {
			case q.src == nil:
			case q.src.Contains(cert):
				hasSer = true
				r.Check(!q.src.HasSub(func(u *Term) bool {
					return strings.HasSuffix(u.Key, "HexString") || strings.HasSuffix(u.Key, "Serial).String")
				}), st, "serial-encoded", pos, "the serial number is not stored in binary form")
			case q.src == ts || q.src.Contains(ts):
				hasTs = q.src == ts
			case q.src == log || q.src.Contains(log):
				hasLog = true
			}
		}
		r.Check(hasTs, st, "timestamp-missing", pos, "the entry does not carry the given timestamp unchanged")
		r.Check(hasLog, st, "log-missing", pos, "the entry does not carry the given log identifier")
		r.Check(hasSer, st, "serial-missing", pos, "the entry does not carry the serial number of the certificate")
	})
	r.NeedAtLeast(1, "entries built")
}

// cachedKeyOf: the accessor object a key was read from.
func cachedKeyOf(t *Term) *Term {
	l := t.FindSub(func(u *Term) bool {
		return strings.HasSuffix(u.Key, ").GetIFPresent") || strings.HasSuffix(u.Key, ").Get") && u.Op == "call"
	})
	if len(l) > 0 {
		return l[0]
	}
	return &Term{}
}

func dateReach(x *Exec, st *State, t *Term, f func(*Term) bool) bool {
	for u := range reachTerms(x, st, t) {
		if f(u) {
			return true
		}
	}
	return false
}

func checkC30(p *Program, tier string) *Result {
	r := NewResult("C30", "the byte offsets and byte order with which timestamp, log and serial are put into a cache entry equal those with which every reader takes them out, and each reader distinguishes short entries at exactly the header length; every split, index, part count, prefix test and key pattern applied to a bin name agrees with the template the name is made from")
	// the writer
	type part struct {
		off, size int64
		order     string
	}
	var ts, log, ser *part
	memberLayout(p, r, func(x *Exec, st *State, res *Term) {
		val := memberField(x, p, res, "Value")
		if val == nil {
			return
		}
		pos := "go/storage NewMember"
		for _, q := range (layouts{}).of(x, st, val) {
			if q.src == nil {
				continue
			}
			np := &part{q.off, q.size, q.order}
			set := func(cur **part, what string) {
				if *cur != nil {
					r.Check(**cur == *np, st, "inconsistent-layout", pos, "the %s is written at different positions", what)
				}
				*cur = np
				r.Counts["entry parts written"]++
			}
			switch {
			case q.src.Contains(x.Params[1]):
				set(&ser, "serial number")
			case q.src.Contains(x.Params[3]):
				set(&ts, "timestamp")
			case q.src.Contains(x.Params[4]):
				set(&log, "log identifier")
			}
		}
	})
	if ts == nil || log == nil || ser == nil {
		r.Bad("missing: entry layout", "go/storage NewMember", "the positions of timestamp, log identifier and serial number in a cache entry could not be determined")
		return r
	}
	r.Check(ts.off >= 0 && ts.size > 0 && log.off >= 0 && log.size > 0 && ser.off >= 0, nil, "layout-not-constant", "go/storage NewMember", "a part of a cache entry is written at a position that is not constant (timestamp %v log %v serial %v)", *ts, *log, *ser)
	disjoint := func(a, b *part) bool {
		return a.size >= 0 && a.off+a.size <= b.off || b.size >= 0 && b.off+b.size <= a.off
	}
	r.Check(disjoint(ts, log) && disjoint(ts, ser) && disjoint(log, ser), nil, "layout-overlaps", "go/storage NewMember", "parts of a cache entry overlap: timestamp at %d (%d bytes), log at %d (%d bytes), serial at %d", ts.off, ts.size, log.off, log.size, ser.off)
	head := ser.off
	r.Check(ts.off < head && log.off < head, nil, "serial-not-last", "go/storage NewMember", "the serial number is not the last part of a cache entry")
	r.Samples = append(r.Samples, fmt.Sprintf("cache entry: timestamp bytes [%d,%d) %s, log bytes [%d,%d), serial from byte %d", ts.off, ts.off+ts.size, ts.order, log.off, log.off+log.size, head))
	// the readers
	for _, fn := range []string{"(storage.SerialCacheEntry).AsSerial", "(storage.SerialCacheEntry).IsCovered"} {
		f := p.Fn(fn)
		if f == nil {
			r.Bad("missing: "+fn, "-", "%s not found", fn)
			continue
		}
		rule := &Rule{PureFn: pureTypes}
		rule.KeepFact = func(st *State, t *Term) bool { return t.Op == "lt" }
		bound := func(x *Exec, st *State) (n int64, short, ok bool) {
			for q, v := range st.facts {
				if n, s, k := shortBound(q, v, x.Params[0]); k {
					return n, s, true
				}
			}
			return
		}
		rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
			e := x.Params[0]
			for ai, a := range ci.Args {
				if a == nil || strings.HasPrefix(ci.Name, "builtin.") {
					continue
				}
				b, lo, hi := sliceOf(a)
				if b != e {
					continue
				}
				n, short, ok := bound(x, st)
				switch {
				case strings.HasPrefix(ci.Name, "types.NewSerialFrom"):
					r.Counts["serials read"]++
					if short && ok {
						r.Check(lo == 0 && hi < 0, st, "short-entry-cut", ci.Pos, "an entry shorter than the header is not read as a whole serial number")
						r.Check(n+1 == head, st, "header-length", ci.Pos, "entries up to %d bytes are read as bare serial numbers, but the header has %d bytes", n, head)
						continue
					}
					r.Check(lo == head && hi < 0, st, "serial-position", ci.Pos, "the serial number is read from byte %d but written at byte %d", lo, head)
					r.Check(ok && n+1 == head, st, "header-length", ci.Pos, "the serial number is read behind the header although the entry was not compared with the header length %d", head)
				case strings.Contains(ci.Name, "Endian).Uint"):
					r.Counts["timestamps read"]++
					r.Check(ai == 1 && lo == ts.off && putSize(ci.Name) == ts.size && (hi < 0 || hi-lo >= ts.size), st, "timestamp-position", ci.Pos, "the timestamp is read from byte %d (%d bytes) but written at byte %d (%d bytes)", lo, putSize(ci.Name), ts.off, ts.size)
					r.Check(byteOrder(ci.Name) == ts.order, st, "timestamp-order", ci.Pos, "the timestamp is written and read in different byte orders")
					r.Check(ok && !short && n+1 == head, st, "header-length", ci.Pos, "the timestamp is read although the entry was not found to be at least as long as the header (%d bytes)", head)
				}
			}
		}
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			n, short, ok := bound(x, st)
			if strings.HasSuffix(fn, "IsCovered") {
				if ok && short {
					r.Check(n+1 == head, st, "header-length", "go/storage IsCovered", "entries up to %d bytes are treated as bare serial numbers, but the header has %d bytes", n, head)
					v, k := x.Truth(st, res[0])
					r.Check(k && v, st, "short-entry-uncovered", "go/storage IsCovered", "an entry shorter than the header is not treated as covered")
					r.Counts["short entries"]++
				}
				terms := map[*Term]bool{res[0]: true}
				for q := range st.facts {
					terms[q] = true
				}
				for q := range terms {
					for _, u := range q.FindSub(func(u *Term) bool { return u.Op == "pure" && u.Key == "lookup" }) {
						r.Counts["logs looked up"]++
						b, lo, hi := sliceOf(u.Args[1])
						if b == x.Params[0] || b == nil {
							r.Check(lo == log.off && (hi == log.off+log.size || hi < 0), st, "log-position", "go/storage IsCovered", "the log identifier is read from bytes [%d,%d) but written at [%d,%d)", lo, hi, log.off, log.off+log.size)
						}
					}
				}
			}
		}
		x := NewExec(p, "C30", rule)
		x.Run(f)
		r.Absorb(x)
	}
	r.NeedAtLeast(2, "serials read")
	r.NeedAtLeast(1, "timestamps read")
	r.NeedAtLeast(1, "logs looked up")
	r.NeedAtLeast(1, "short entries")
	checkNames(p, r)
	return r
}

func checkNames(p *Program, r *Result) {
	// templates
	var keys, files, dirs []nameTemplate
	memberLayout(p, r, func(x *Exec, st *State, res *Term) {
		if k := memberField(x, p, res, "Key"); k != nil {
			ps := pieces(k)
			if len(ps) > 1 {
				keys = append(keys, nameTemplate{"cache bin", "go/storage", ps})
			}
		}
	})
	for _, fn := range []string{"(*storage.CertDatabase).ReadSerialsFromStorage"} {
		if f := p.Fn(fn); f != nil {
			x := NewExec(p, r.Prop, &Rule{PureFn: pureTypes, OnCall: func(x *Exec, st *State, ci *CallInfo) {
				if ci.Name == "os.Open" || ci.Name == "os.ReadFile" || ci.Name == "os.OpenFile" {
					es := pathElems(ci.Arg(0))
					if len(es) >= 2 {
						files = append(files, nameTemplate{"storage file", ci.Pos, pieces(es[len(es)-1])})
						dirs = append(dirs, nameTemplate{"issuer directory", ci.Pos, pieces(es[len(es)-2])})
					}
				}
			}})
			x.Run(f)
			r.Absorb(x)
		}
	}
	// the writer of files uses the same names
	for _, m := range movers(p) {
		x := NewExec(p, r.Prop, &Rule{PureFn: pureTypes, OnCall: func(x *Exec, st *State, ci *CallInfo) {
			if ci.Name == renameioPkg+".TempFile" && len(binIDs(ci.Arg(1))) > 0 {
				es := pathElems(ci.Arg(1))
				w := nameTemplate{"storage file", ci.Pos, pieces(es[len(es)-1])}
				for _, f := range files {
					r.Check(w.String() == f.String(), st, "file-name", ci.Pos, "storage files are written as %s but read as %s", w, f)
				}
				r.Counts["written file names"]++
			}
		}})
		x.Run(m)
		r.Absorb(x)
	}
	if len(keys) == 0 || len(files) == 0 {
		r.Bad("missing: names", "go/storage", "the names of cache bins or storage files could not be determined")
		return
	}
	for _, t := range append(append([]nameTemplate{}, keys...), files...) {
		r.Samples = append(r.Samples, t.what+" name: "+t.String())
	}
	// a date or issuer may not contain the separator: their formats are constants
	check := func(root *ssa.Function, tpl, dir []nameTemplate) {
		rule := &Rule{PureFn: pureTypes}
		rule.KeepFact = func(st *State, t *Term) bool {
			return !t.hasOld() && t.Op == "eq" && t.HasSub(func(u *Term) bool { return strings.HasPrefix(u.Key, "strings.Split") })
		}
		// prefixTest: a name found in a directory is tested for the constant prefix c;
		// l lists what such names look like
		prefixTest := func(name, pfx *Term) (c string, l []nameTemplate) {
			c, ok := strConst(pfx)
			nm := name.FindSub(isEntryName)
			if !ok || len(nm) == 0 {
				return "", nil
			}
			r.Counts["prefix tests"]++
			// the entry of a directory listing inside another listing is a file
			depth := 0
			for _, u := range nm {
				if n := len(u.FindSub(func(w *Term) bool { return callTerm(w, "os.ReadDir") })); n > depth {
					depth = n
				}
			}
			if depth > 1 {
				return c, tpl
			}
			return c, dir
		}
		rule.OnBranch = func(x *Exec, st *State, in *ssa.If, cond *Term, taken bool) {
			c := strip(cond)
			for c.Op == "not" {
				c, taken = strip(c.Args[0]), !taken
			}
			if c.Op != "pure" && c.Op != "call" || c.Key != "strings.HasPrefix" {
				return
			}
			if k, l := prefixTest(c.Args[0], c.Args[1]); l != nil {
				v := "without"
				if taken {
					v = "with"
				}
				st.DelMarks("pfx", func(m Mark) bool { return m.T[3] == c || m.T[0].hasOld() })
				wrong := false
				for _, t := range l {
					wrong = wrong || strings.HasPrefix(piecesPrefix(t.ps), k) != taken
				}
				if !wrong {
					return
				}
				st.AddMark("pfx", x.pos(in), c.Args[0], x.tt.mk("const", k, 0, nil), x.tt.mk("const", v, 0, nil), c)
			}
		}
		// used: a name is used, so it was not passed over
		used := func(x *Exec, st *State, v *Term) {
			for _, m := range st.Marks("pfx") {
				if v == nil || m.T[0].hasOld() || !v.Contains(m.T[0]) {
					continue
				}
				_, l := prefixTest(m.T[3].Args[0], m.T[3].Args[1])
				for _, t := range l {
					has := strings.HasPrefix(piecesPrefix(t.ps), m.T[1].Key)
					if m.T[2].Key == "with" {
						r.Check(has, st, "name-prefix", m.Pos, "only names beginning with %q are listed, but a %s name is %s", m.T[1].Key, t.what, t)
					} else {
						r.Check(!has, st, "name-prefix", m.Pos, "only names not beginning with %q are listed, but a %s name is %s", m.T[1].Key, t.what, t)
					}
				}
			}
		}
		rule.OnSend = func(x *Exec, st *State, ch, v *Term, in ssa.Instruction, insel bool) { used(x, st, v) }
		rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
			switch ci.Name {
			case "os.ReadDir", "os.Open", "os.Remove", "strings.Split", "strings.SplitN", "strings.Cut", "types.NewExpDate":
				used(x, st, ci.Arg(0))
			}
			switch {
			case ci.Name == "types.NewExpDate" || ci.Name == "types.NewIssuerFromString":
				a := strip(ci.Arg(0))
				if a == nil {
					return
				}
				// *indexaddr(Split(X, sep), i)
				ix := a.FindSub(func(u *Term) bool {
					return u.Op == "indexaddr" && u.Args[0].Op == "pure" && strings.HasPrefix(u.Args[0].Key, "strings.Split")
				})
				if len(ix) == 0 {
					return
				}
				sp := ix[0].Args[0]
				i, ok := ix[0].Args[1].IntConst()
				sep, ok2 := strConst(sp.Args[1])
				if !ok || !ok2 {
					return
				}
				r.Counts["name parts read"]++
				for _, t := range tpl {
					parts := splitPieces(t.ps, sep)
					want := isIssuerID
					what := "issuer"
					if ci.Name == "types.NewExpDate" {
						want, what = isDateID, "date"
					}
					good := int(i) < len(parts) && len(parts[i]) == 1 && want(parts[i][0])
					r.Check(good, st, "name-part", ci.Pos, "part %d of a %s name is read as the %s, but the name is %s", i, t.what, what, t)
					for q, v := range st.facts {
						if q.Op == "eq" && v && len(q.Args) == 1 && q.Args[0].Op == "pure" && q.Args[0].Key == "len" && q.Args[0].Args[0] == sp {
							co, k := decodeLin(q)
							n := -k
							if co[0] < 0 {
								n = k
							}
							r.Check(int(n) == len(parts), st, "name-part-count", ci.Pos, "names of %d parts are accepted, but a %s name has %d", n, t.what, len(parts))
							r.Counts["part counts"]++
						}
					}
				}
			case ci.Name == "strings.TrimPrefix" || ci.Name == "strings.CutPrefix":
				if c, l := prefixTest(ci.Arg(0), ci.Arg(1)); l != nil {
					for _, t := range l {
						r.Check(strings.HasPrefix(piecesPrefix(t.ps), c), st, "name-prefix", ci.Pos, "only names beginning with %q are listed, but a %s name is %s", c, t.what, t)
					}
				}
			case ci.Name == cacheKeys:
				c, ok := strConst(ci.Arg(1))
				if !ok {
					return
				}
				r.Counts["key patterns"]++
				for _, t := range keys {
					r.Check(strings.HasSuffix(c, "*") && !strings.ContainsAny(strings.TrimSuffix(c, "*"), "*?[\\") && strings.HasPrefix(piecesPrefix(t.ps), strings.TrimSuffix(c, "*")), st, "key-pattern", ci.Pos, "cache bins are listed with the pattern %q, but a cache bin is named %s", c, t)
				}
			}
		}
		x := NewExec(p, r.Prop, rule)
		x.Run(root)
		r.Absorb(x)
	}
	for fn, tpl := range map[string][]nameTemplate{
		"(*storage.CertDatabase).GetIssuerAndDatesFromCache":      keys,
		"(*storage.CertDatabase).GetIssuerAndDatesFromStorage":    files,
		"(*storage.CertDatabase).removeExpiredSerialsFromStorage": files,
	} {
		f := p.Fn(fn)
		if f == nil {
			r.Bad("missing: "+fn, "-", "%s not found", fn)
			continue
		}
		check(f, tpl, dirs)
	}
	r.NeedAtLeast(3, "name parts read")
	r.NeedAtLeast(1, "key patterns")
	r.NeedAtLeast(1, "written file names")
}

func isEntryName(u *Term) bool {
	return strings.HasSuffix(u.Key, "DirEntry).Name") || strings.HasSuffix(u.Key, "FileInfo).Name")
}

func arrayLen(t types.Type) int64 {
	if t == nil {
		return -1
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len()
	}
	return -1
}

type typesVar = types.Var
