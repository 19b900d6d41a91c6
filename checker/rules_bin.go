package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about moving one bin of cached serials to storage: C01, C02, C04.

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
	checks["C04"] = checkC04
}

const (
	cacheRemove = "(storage.RemoteCache).SetRemove"
	cacheList   = "(storage.RemoteCache).SetToChan"
)

const replacePat = ")" + ".CloseAtomicallyReplace"

func commitFn(p *Program) *ssa.Function { return p.Fn("(*storage.CertDatabase).Commit") }

// movers are the smallest functions below Commit that both replace a file and
// remove entries from the cache.
func movers(p *Program) []*ssa.Function {
	c := commitFn(p)
	if c == nil {
		return nil
	}
	replace := "(*" + renameioPkg + ".PendingFile).CloseAtomicallyReplace"
	ms := p.Minimal(c, cacheRemove, replace, cacheList)
	if len(ms) == 0 {
		ms = p.Minimal(c, cacheRemove, replace)
	}
	for i, m := range ms {
		ms[i] = p.widen(m, c)
	}
	return ms
}

// widen returns the outermost function that runs f once: f itself, or its only
// caller if that calls it outside of any loop, and so on; not beyond a closure
// or the function stop.
func (p *Program) widen(f, stop *ssa.Function) *ssa.Function {
	for n := 0; n < 6; n++ {
		if f.Parent() != nil {
			return f
		}
		cs := p.Graph().Callers(f)
		if len(cs) != 1 || cs[0] == stop || cs[0].Parent() != nil || cs[0].Synthetic != "" || !moduleFn(cs[0]) {
			return f
		}
		calls := 0
		for _, b := range cs[0].Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if o == nil || *o != f {
						continue
					}
					c, ok := in.(*ssa.Call)
					if !ok || c.Call.StaticCallee() != f || inCycle(b) {
						return f
					}
					calls++
				}
			}
		}
		if calls != 1 {
			return f
		}
		f = cs[0]
	}
	return f
}

func fnames(fs []*ssa.Function) []string {
	var r []string
	for _, f := range fs {
		r = append(r, fname(f))
	}
	return r
}

// binTracker is the shared part of the three rules.
type binTracker struct {
	fl       files
	r        *Result
	wloops   map[string]bool // loops whose body writes elements of the list they run over
	skipCand []func()
}

func listData(x *Exec, st *State, t *Term) bool {
	if t.Op == "old" {
		t = t.Args[0]
	}
	return isSliceTerm(t) && (t.Op == "list" || t.Op == "make" || t.Op == "pure" || t.Op == "call") && !isByteSlice(t)
}

func isByteSlice(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	s, ok := t.Typ.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func loopKey(x *Exec, in ssa.Instruction) *Term {
	return x.tt.mk("const", fmt.Sprintf("loop:%s:%d", fname(in.Parent()), in.Block().Index), 0, nil)
}

// iterStart / iterWrite / iterEnd: every element of a list that a writing loop
// runs over must be written.
func (b *binTracker) onIter(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
	lk := loopKey(x, in)
	for _, m := range st.Marks("witer") {
		if m.T[1] == lk {
			st.DelMarks("witer", func(o Mark) bool { return o.T[1] == lk })
			st.AddMark("skipped", x.pos(in), m.T[0], lk)
		}
	}
	if more {
		st.AddMark("began", "", coll, lk)
		st.AddMark("witer", x.pos(in), coll, lk)
		return
	}
	// a list that is known to have elements is run over at least once
	began := false
	for _, m := range st.Marks("began") {
		if m.T[0] == coll && m.T[1] == lk {
			began = true
		}
	}
	if !began {
		for _, it := range flatContrib(st, coll) {
			if !it.spread {
				x.Kill()
				return
			}
		}
	}
	st.DelMarks("began", func(o Mark) bool { return o.T[1] == lk })
}

func (b *binTracker) onWrite(x *Exec, st *State, ci *CallInfo) {
	if !isWriter(ci.Name) || len(ci.Args) < 2 || fileIn(st, ci.Arg(0)) == nil {
		return
	}
	for _, m := range st.Marks("witer") {
		hit := false
		for _, a := range ci.Args[1:] {
			if a != nil && a.HasSub(func(u *Term) bool {
				return u.Op == "indexaddr" && u.Args[0] == m.T[0] || u.Op == "next" && u.Args[0] == m.T[0]
			}) {
				hit = true
			}
		}
		if hit {
			b.wloops[m.T[1].Key] = true
			mm := m
			st.DelMarks("witer", func(o Mark) bool { return o.key() == mm.key() })
		}
	}
}

// written lists what was written to file f, element by element.
func written(st *State, f *Term, all bool) []contribItem {
	var r []contribItem
	// inner: only a part of what is written, which itself need not all be in it
	var wraps func(o, t *Term) bool
	wraps = func(o, t *Term) bool {
		if o == t {
			return true
		}
		if o.Op == "pure" || o.Op == "conv" || o.Op == "call" {
			for _, a := range o.Args {
				if a != nil && isSliceTerm(a) && wraps(a, t) {
					return true
				}
			}
		}
		return false
	}
	inner := func(t *Term) bool {
		for _, m := range st.Marks("data") {
			if all && m.T[0] == f && m.T[1] != t && wraps(m.T[1], t) {
				return true
			}
		}
		return false
	}
	for _, m := range st.Marks("data") {
		if m.T[0] == f && !inner(m.T[1]) {
			r = append(r, flatContribOf(st, m.T[1], all)...)
			if !listDataTerm(m.T[1]) {
				r = append(r, contribItem{false, m.T[1]})
			}
		}
	}
	return r
}

func listDataTerm(t *Term) bool { return isSliceTerm(t) }

func (b *binTracker) lateSkips(x *Exec, st *State, f *Term, key, pos, msg string) {
	for _, m := range st.Marks("skipped") {
		for _, d := range st.Marks("data") {
			if d.T[0] == f && d.T[1] == m.T[0] {
				lk, tr, mp := m.T[1].Key, st.Trace(), m.Pos
				b.skipCand = append(b.skipCand, func() {
					if b.wloops[lk] {
						b.r.Oblige(key+" at "+pos, false)
						b.r.Viol[key+"@"+pos] = &Violation{Prop: b.r.Prop, Key: key, Pos: pos, Msg: msg + " (loop at " + mp + ")", Trace: tr}
					}
				})
			}
		}
	}
}

func (b *binTracker) finish() {
	for _, f := range b.skipCand {
		f()
	}
}

func errResult(res []*Term, sig *types.Signature) *Term {
	n := sig.Results().Len()
	if n == 0 || !isErrorType(sig.Results().At(n-1).Type()) {
		return nil
	}
	return res[n-1]
}

func checkC01(p *Program, tier string) *Result {
	r := NewResult("C01", "on every path, the removal of entries from a cache set is preceded by the successful atomic replacement of the storage file of the same bin, "+
		"whose content was completely written (all writes and flushes checked) and holds a serial derived from every removed entry")
	ms := movers(p)
	r.Counts["functions that move a bin"] = len(ms)
	r.NeedAtLeast(1, "functions that move a bin")
	for _, m := range ms {
		b := &binTracker{r: r, wloops: map[string]bool{}, fl: files{keep: listData}}
		rule := &Rule{PureFn: pureTypes}
		rule.OnBlock = func(x *Exec, st *State, _ *ssa.BasicBlock) { pruneChk(x, st) }
		rule.OnIter = b.onIter
		rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
			b.onWrite(x, st, ci)
			if isReplace(ci.Name) {
				if f := fileIn(st, ci.Arg(0)); f != nil {
					r.Counts["file replacements"]++
					u := unfinished(x, st, f)
					st.DelMarks("incomplete", nil)
					if len(u) > 0 {
						st.AddMark("incomplete", ci.Pos, f, x.tt.mk("const", u[0], 0, nil))
					}
					b.lateSkips(x, st, f, "serial-not-written", ci.Pos, "an iteration of the writing loop can end without writing its element")
				}
				return
			}
			if ci.Name != cacheRemove {
				return
			}
			r.Counts["cache removals"]++
			key, ents := ci.Arg(1), ci.Arg(2)
			var done *Mark
			why := "no storage file was replaced before"
			for _, m := range st.Marks("repl") {
				if !sameSet(binIDs(m.T[1]), binIDs(key)) || len(binIDs(key)) == 0 {
					why = "the file replaced before belongs to another bin"
					continue
				}
				if !x.KnownNil(st, m.T[2]) {
					why = "the replacement at " + m.Pos + " may have failed"
					continue
				}
				mm := m
				done = &mm
			}
			if !r.Check(done != nil, st, "remove-before-durable", ci.Pos, "entries are removed from the cache although %s", why) {
				return
			}
			for _, m := range st.Marks("incomplete") {
				if m.T[0] == done.T[0] {
					r.Check(false, st, "incomplete-file", m.Pos, "the storage file is replaced and its entries are removed from the cache, but %s", m.T[1].Key)
					return
				}
			}
			r.Check(true, st, "incomplete-file", done.Pos, "")
			w := written(st, done.T[0], true)
			for _, e := range flatContrib(st, ents) {
				ok := false
				for _, s := range w {
					if s.t.Contains(e.t) || s.t == e.t {
						ok = true
					}
				}
				if !r.Check(ok, st, "removed-but-not-stored", ci.Pos, "an entry removed from the cache (%s) has no serial in the list written to the storage file", e.t) {
					return
				}
				r.Counts["removed entries traced to written serials"]++
			}
			if _, known := st.contrib[ents]; !known && ents.Op != "make" && ents.Op != "nil" {
				r.Check(false, st, "removed-but-not-stored", ci.Pos, "the removed entries (%s) are not a list built together with the written serials", ents)
			}
		}
		rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) { b.fl.onRet(x, st, ci, res) }
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			e := errResult(res, x.root.Signature)
			if e == nil {
				return
			}
			pruneChk(x, st)
			if x.KnownNonNil(st, e) {
				return
			}
			for _, k := range []string{"chk", "bad"} {
				for _, m := range st.Marks(k) {
					if fileOrNil(st, m.T[0]) {
						same := k == "chk" && (m.T[1] == e)
						r.Check(same, st, "failure-not-reported", m.Pos, "the function may return success although the %s may have failed", whatOf(m))
					}
				}
			}
			for _, m := range st.Marks("repl") {
				ok := x.KnownNil(st, m.T[2]) || m.T[2] == e
				r.Check(ok, st, "failure-not-reported", m.Pos, "the function may return success although the replacement may have failed")
			}
		}
		x := NewExec(p, "C01", rule)
		x.Run(m)
		b.finish()
		r.Absorb(x)
	}
	r.NeedAtLeast(1, "cache removals")
	r.NeedAtLeast(1, "file replacements")
	r.NeedAtLeast(1, "removed entries traced to written serials")
	return r
}

func fileOrNil(st *State, f *Term) bool {
	for _, m := range st.marks {
		if m.Kind == "file" && m.T[0] == f {
			return true
		}
	}
	return false
}

func notExistFact(x *Exec, st *State, err *Term) bool {
	for p, v := range st.facts {
		if v && p.Op == "pure" && (p.Key == "errors.Is" || p.Key == "os.IsNotExist") && len(p.Args) > 0 && p.Args[0] == err {
			if p.Key == "os.IsNotExist" || len(p.Args) > 1 && p.Args[1].HasSub(func(u *Term) bool { return u.Op == "global" && strings.HasSuffix(u.Key, "ErrNotExist") }) {
				return true
			}
		}
		if v && p.Op == "same" {
			for i := 0; i < 2; i++ {
				if p.Args[i] == err && p.Args[1-i].HasSub(func(u *Term) bool { return u.Op == "global" && strings.HasSuffix(u.Key, "ErrNotExist") }) {
					return true
				}
			}
		}
	}
	return false
}

func checkC02(p *Program, tier string) *Result {
	r := NewResult("C02", "on every path to the replacement of a bin's storage file, that file was opened, it did not exist or was read to its end without error, its first line equals the bin's expiry line, and every other line is an element of the written list")
	ms := movers(p)
	r.Counts["functions that move a bin"] = len(ms)
	r.NeedAtLeast(1, "functions that move a bin")
	for _, m := range ms {
		b := &binTracker{r: r, wloops: map[string]bool{}}
		b.fl.keep = func(x *Exec, st *State, t *Term) bool {
			return listData(x, st, t) || t.Op == "pure" && strings.HasSuffix(t.Key, "ExpDate).Unix")
		}
		rule := &Rule{PureFn: pureTypes}
		rule.KeepFact = func(st *State, t *Term) bool {
			if t.Op != "same" && t.Op != "pure" {
				return false
			}
			for _, m := range st.marks {
				if (m.Kind == "line" || m.Kind == "oldopen") && t.Contains(m.T[0]) {
					return true
				}
			}
			return false
		}
		rule.OnBlock = func(x *Exec, st *State, _ *ssa.BasicBlock) { pruneChk(x, st) }
		rule.OnIter = b.onIter
		header := func(x *Exec, st *State) {
			for _, m := range st.Marks("line") {
				for p, v := range st.facts {
					if p.Op != "same" || !containsNow(p, m.T[0]) {
						continue
					}
					if p.HasSub(func(u *Term) bool { return u.Op == "pure" && strings.HasSuffix(u.Key, "ExpDate).Unix") }) {
						mm := m
						st.DelMarks("line", func(o Mark) bool { return o.key() == mm.key() })
						if v {
							u := p.FindSub(func(u *Term) bool { return u.Op == "pure" && strings.HasSuffix(u.Key, "ExpDate).Unix") })
							st.AddMark("hdrok", m.Pos, u[0].Args[0])
						} else {
							st.AddMark("hdrbad", m.Pos)
						}
						break
					}
				}
			}
		}
		rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
			b.onWrite(x, st, ci)
			if strings.HasSuffix(ci.Name, "bufio.Scanner).Scan") {
				header(x, st)
				for _, m := range st.Marks("scan") {
					if v, k := x.Truth(st, m.T[1]); k && v && st.HasMark("notext") {
						st.AddMark("lostline", m.Pos)
					}
				}
			}
			if !isReplace(ci.Name) {
				return
			}
			f := fileIn(st, ci.Arg(0))
			if f == nil {
				return
			}
			path := filePath(st, f)
			r.Counts["file replacements"]++
			header(x, st)
			var op *Mark
			for _, m := range st.Marks("oldopen") {
				if sameSet(binIDs(m.T[0]), binIDs(path)) {
					mm := m
					op = &mm
				}
			}
			if !r.Check(op != nil && len(binIDs(path)) > 0, st, "old-content-not-read", ci.Pos, "the storage file is replaced without having read its previous content") {
				return
			}
			exp := expArg(path)
			hdrW := false
			for _, d := range st.Marks("data") {
				if d.T[0] == f && d.T[1].Op == "pure" && strings.HasSuffix(d.T[1].Key, ".Unix") && sameVal(d.T[1].Args[0], exp) {
					hdrW = true
				}
			}
			r.Check(hdrW, st, "expiry-line-not-written", ci.Pos, "the new content does not start with the expiry line of its own bin")
			if notExistFact(x, st, op.T[2]) {
				r.Counts["paths with a missing old file"]++
				return
			}
			if !r.Check(x.KnownNil(st, op.T[2]), st, "old-content-unreadable", ci.Pos, "the storage file is replaced although opening the old one may have failed (other than by not existing)") {
				return
			}
			r.Counts["paths with an old file"]++
			r.Check(!st.HasMark("lostline"), st, "stored-line-lost", ci.Pos, "a line of the old file is skipped without being looked at")
			hdr := false
			for _, m := range st.Marks("hdrok") {
				if sameVal(m.T[0], exp) {
					hdr = true
				}
			}
			if st.HasMark("anyline") {
				r.Check(hdr, st, "expiry-line-not-checked", ci.Pos, "the storage file is replaced although the expiry line of the old one was not found equal to that of the bin")
			}
			scanned := false
			for _, m := range st.Marks("scan") {
				scanned = true
				v, k := x.Truth(st, m.T[1])
				r.Check(k && !v, st, "old-content-not-read-to-end", ci.Pos, "the storage file is replaced although the old one was not read to its end")
				ok := false
				for _, e := range st.Marks("serr") {
					if e.T[0] == m.T[0] && x.KnownNil(st, e.T[1]) {
						ok = true
					}
				}
				r.Check(ok, st, "read-error-ignored", ci.Pos, "the storage file is replaced although reading the old one may have stopped at an error")
			}
			for _, m := range st.Marks("cutread") {
				r.Check(false, st, "old-content-not-read-to-end", m.Pos, "the storage file is replaced although the old one was only read up to a fixed length")
			}
			whole := false
			for _, m := range st.Marks("wholeread") {
				if x.KnownNil(st, m.T[0]) {
					whole = true
				}
			}
			r.Check(scanned || whole, st, "old-content-not-read", ci.Pos, "the old storage file is opened but its content is not read")
			w := written(st, f, true)
			for _, l := range st.Marks("line") {
				ok := false
				for _, s := range w {
					if s.t.Contains(l.T[0]) {
						ok = true
					}
				}
				r.Check(ok, st, "stored-line-lost", ci.Pos, "the serial read from the old file at %s is not in the list written to the new one", l.Pos)
				r.Counts["stored lines traced to written serials"]++
			}
			b.lateSkips(x, st, f, "serial-not-written", ci.Pos, "an iteration of the writing loop can end without writing its element")
		}
		rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			b.fl.onRet(x, st, ci, res)
			if ci.Inl {
				return
			}
			switch {
			case ci.Name == "os.Open" || ci.Name == "os.OpenFile" || ci.Name == "os.ReadFile":
				if len(binIDs(ci.Arg(0))) > 0 {
					st.AddMark("oldopen", ci.Pos, ci.Arg(0), x.ResultOf(ci, res, 0), x.ErrOf(ci, res))
					if ci.Name == "os.ReadFile" {
						st.AddMark("wholeread", ci.Pos, x.ErrOf(ci, res))
					}
				}
			case strings.HasSuffix(ci.Name, "bufio.Scanner).Scan"):
				s := ci.Arg(0)
				for _, m := range st.Marks("scan") {
					// at the end of the input Scan keeps returning false
					if v, k := x.Truth(st, m.T[1]); m.T[0] == s && k && !v && !x.Assume(st, res, false) {
						x.Kill()
						return
					}
				}
				st.DelMarks("scan", func(m Mark) bool { return m.T[0] == s })
				st.DelMarks("serr", func(m Mark) bool { return m.T[0] == s })
				st.DelMarks("notext", nil)
				st.AddMark("scan", ci.Pos, s, res)
				if cutSource(s) {
					st.AddMark("cutread", ci.Pos)
				}
				st.AddMark("notext", ci.Pos)
			case strings.HasSuffix(ci.Name, "bufio.Scanner).Err"):
				s := ci.Arg(0)
				for _, m := range st.Marks("scan") {
					if v, k := x.Truth(st, m.T[1]); m.T[0] == s && k && !v {
						st.AddMark("serr", ci.Pos, s, res)
					}
				}
			case strings.HasSuffix(ci.Name, "bufio.Scanner).Text") || strings.HasSuffix(ci.Name, "bufio.Scanner).Bytes"):
				st.DelMarks("notext", nil)
				st.AddMark("line", ci.Pos, res)
				st.AddMark("anyline", "")
			case ci.Name == "io.ReadAll":
				st.AddMark("wholeread", ci.Pos, x.ErrOf(ci, res))
				if cutSource(ci.Arg(0)) {
					st.AddMark("cutread", ci.Pos)
				}
			}
		}
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			e := errResult(res, x.root.Signature)
			if e == nil || x.KnownNonNil(st, e) {
				return
			}
			header(x, st)
			for _, m := range st.Marks("oldopen") {
				bad := x.KnownNonNil(st, m.T[2]) && !notExistFact(x, st, m.T[2]) && e != m.T[2]
				r.Check(!bad, st, "read-failure-not-reported", m.Pos, "success is returned although the old storage file could not be opened")
			}
			for _, m := range st.Marks("serr") {
				bad := x.KnownNonNil(st, m.T[1]) && e != m.T[1]
				r.Check(!bad, st, "read-failure-not-reported", m.Pos, "success is returned although reading the old storage file failed")
			}
			for _, m := range st.Marks("hdrbad") {
				r.Check(false, st, "mismatch-not-reported", m.Pos, "success is returned although the expiry line of the old file does not match the bin")
			}
		}
		x := NewExec(p, "C02", rule)
		x.Run(m)
		b.finish()
		r.Absorb(x)
	}
	distinctBins(p, r)
	r.NeedAtLeast(1, "file replacements")
	r.NeedAtLeast(1, "paths with a missing old file")
	r.NeedAtLeast(1, "paths with an old file")
	r.NeedAtLeast(1, "stored lines traced to written serials")
	return r
}

// cutSource: reading t ends before the end of what lies under it.
func cutSource(t *Term) bool {
	return len(t.FindSub(func(u *Term) bool {
		switch u.Op {
		case "call":
			return u.Key == "io.LimitReader" || u.Key == "io.NewSectionReader" || u.Key == "net/http.MaxBytesReader"
		case "alloc":
			n, ok := u.Typ.(*types.Pointer)
			return ok && n.Elem().String() == "io.LimitedReader"
		}
		return false
	})) > 0
}

// expArg is the expiry date a path or key was made from.
func expArg(t *Term) *Term {
	for u := range binIDs(t) {
		if strings.HasSuffix(u.Key, "ExpDate).ID") {
			return u.Args[0]
		}
	}
	return nil
}

func sameVal(a, b *Term) bool { return a != nil && a == b }

// ---- C04 ----------------------------------------------------------------------

// entryCover judges what the path knows about cache entry e.
type entryCover struct{ x *Exec }

// containsNow: t occurs in p, not merely an earlier instance of it.
func containsNow(p, t *Term) bool {
	if p == t {
		return true
	}
	if p.Op == "old" {
		return false
	}
	for _, a := range p.Args {
		if containsNow(a, t) {
			return true
		}
	}
	return false
}

func isLookup(u *Term) bool { return u.Op == "pure" && u.Key == "lookup" }

// covered: the facts show that e is an old-format entry, or that its log has a
// cutoff and its timestamp is not later than that.
func entryStatus(x *Exec, st *State, e *Term) (covered, uncovered bool) {
	for p, v := range st.facts {
		if !p.Contains(e) {
			continue
		}
		if p.Op == "lt" && len(p.Args) == 1 && p.Args[0].Op == "pure" && p.Args[0].Key == "len" {
			co, _ := decodeLin(p)
			if len(co) == 1 && (co[0] > 0) == v {
				covered = true
			}
		}
		// present in the coverage map?
		if p.Op == "ext" && p.Key == "1" && isLookup(p.Args[0]) && isCoverMap(p.Args[0].Args[0]) {
			if !v {
				uncovered = true
				continue
			}
			// newest timestamp: cutoff - ts < 0 must be known false
			cut := p.Args[0]
			for q, qv := range st.facts {
				if q.Op != "lt" || len(q.Args) != 2 {
					continue
				}
				co, k := decodeLin(q)
				for i := 0; i < 2; i++ {
					c, t := q.Args[i], q.Args[1-i]
					if c.Op == "ext" && c.Key == "0" && c.Args[0] == cut && t.Contains(e) && !t.HasSub(isLookup) {
						// q: co[i]*cutoff + co[1-i]*ts + k < 0
						if co[i] == 1 && co[1-i] == -1 { // cutoff - ts + k < 0
							if !qv && k <= 0 {
								covered = true // cutoff - ts >= -k >= 0
							}
							if qv && k >= 0 {
								uncovered = true
							}
						}
						if co[i] == -1 && co[1-i] == 1 { // ts - cutoff + k < 0
							if qv && k >= -1 {
								covered = true // ts - cutoff < -k <= 1
							}
							if !qv && k < 0 {
								uncovered = true // ts - cutoff >= -k > 0
							}
						}
					}
				}
			}
		}
	}
	return
}

func isCoverMap(t *Term) bool {
	if t.Typ != nil && strings.HasSuffix(typeKey(t.Typ), "CoverageCutoffMap") {
		return true
	}
	return t.HasSub(func(u *Term) bool {
		return u.Typ != nil && strings.HasSuffix(typeKey(u.Typ), "CoverageCutoffMap")
	})
}

func checkC04(p *Program, tier string) *Result {
	r := NewResult("C04", "every entry that reaches the list of removed entries or the written list has, on that path, been found to be of the old format or to have a timestamp not later than its log's cutoff; every entry not taken has been found uncovered or undecodable; every entry received from the cache is looked at")
	ms := movers(p)
	r.Counts["functions that move a bin"] = len(ms)
	r.NeedAtLeast(1, "functions that move a bin")
	for _, m := range ms {
		b := &binTracker{r: r, wloops: map[string]bool{}, fl: files{keep: listData}}
		rule := &Rule{PureFn: pureTypes}
		rule.KeepFact = func(st *State, t *Term) bool {
			for _, m := range st.marks {
				if m.Kind == "entry" && t.Contains(m.T[0]) {
					return true
				}
			}
			return false
		}
		isEntryColl := func(st *State, coll *Term) bool {
			for _, c := range st.Marks("cachechan") {
				if coll == c.T[0] {
					return true
				}
				for _, it := range flatContrib(st, coll) {
					if it.t.HasSub(func(u *Term) bool { return u.Op == "recv" && u.Args[0] == c.T[0] }) {
						return true
					}
				}
			}
			return false
		}
		takenBy := func(st *State, e *Term) (lists int) {
			for l, items := range st.contrib {
				_ = l
				for _, it := range items {
					if it.t.Contains(e) {
						lists++
						break
					}
				}
			}
			return
		}
		endIter := func(x *Exec, st *State, lk *Term) {
			for _, m := range st.Marks("entry") {
				if m.T[1] != lk {
					continue
				}
				e := m.T[0]
				mm := m
				if takenBy(st, e) == 0 {
					_, unc := entryStatus(x, st, e)
					undec := false
					for p, v := range st.facts {
						if p.Op == "isnil" && !v && p.Contains(e) {
							undec = true
						}
					}
					r.Check(unc || undec, st, "covered-entry-skipped", m.Pos, "an entry of the cache is left out of both lists although nothing shows that it is not covered")
					r.Counts["entries left in the cache"]++
				} else {
					r.Counts["entries taken"]++
				}
				st.DelMarks("entry", func(o Mark) bool { return o.key() == mm.key() })
			}
		}
		rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
			lk := loopKey(x, in)
			endIter(x, st, lk)
			if more && isEntryColl(st, coll) {
				var e *Term
				switch {
				case elem != nil && elem.Op == "next":
					e = x.tt.mk("ext", "1", 0, nil, elem)
				case elem != nil:
					// received from the listing channel: it must be kept
					st.AddMark("got", x.pos(in), elem, lk)
				default:
					e = nil
				}
				if e != nil {
					st.AddMark("entry", x.pos(in), e, lk)
				}
			}
			b.onIter(x, st, coll, elem, more, in)
		}
		rule.OnBlock = func(x *Exec, st *State, _ *ssa.BasicBlock) { pruneChk(x, st) }
		checkList := func(x *Exec, st *State, items []contribItem, pos, what string) {
			for _, it := range items {
				for _, u := range st.Marks("unjust") {
					if it.t == u.T[0] {
						r.Check(false, st, "uncovered-entry-"+what, pos, "an entry that was not found to be covered (appended at %s) is %s", u.Pos, what)
						return
					}
				}
			}
			r.Check(true, st, "uncovered-entry-"+what, pos, "")
		}
		rule.OnAppend = func(x *Exec, st *State, res, base *Term, elems []*Term, spread bool, in ssa.Instruction) {
			for _, el := range elems {
				for _, m := range st.Marks("entry") {
					if el.Contains(m.T[0]) {
						cov, _ := entryStatus(x, st, m.T[0])
						if !cov {
							st.AddMark("unjust", x.pos(in), el)
						}
						r.Counts["entries judged"]++
					}
				}
			}
		}
		rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
			b.onWrite(x, st, ci)
			switch {
			case ci.Name == cacheList:
				st.AddMark("cachechan", ci.Pos, ci.Arg(2), ci.Arg(1))
			case ci.Name == cacheRemove:
				r.Counts["cache removals"]++
				checkList(x, st, flatContrib(st, ci.Arg(2)), ci.Pos, "removed")
				// only entries of the same set
				ok := false
				for _, c := range st.Marks("cachechan") {
					if sameSet(binIDs(c.T[1]), binIDs(ci.Arg(1))) {
						ok = true
					}
				}
				r.Check(ok, st, "removed-from-other-bin", ci.Pos, "entries are removed from a cache set other than the one they were read from")
			case isReplace(ci.Name):
				f := fileIn(st, ci.Arg(0))
				if f == nil {
					return
				}
				r.Counts["file replacements"]++
				checkList(x, st, written(st, f, false), ci.Pos, "written")
				ok := false
				for _, c := range st.Marks("cachechan") {
					if sameSet(binIDs(c.T[1]), binIDs(filePath(st, f))) {
						ok = true
					}
				}
				r.Check(ok, st, "written-to-other-bin", ci.Pos, "serials are written to a file of another bin than the cache set they come from")
				for _, m := range openErrs(x, st, x.tt.mk("const", "listing", 0, nil)) {
					r.Check(false, st, "listing-error-ignored", m.Pos, "the storage file is replaced although listing the cache set may have failed")
				}
				b.lateSkips(x, st, f, "serial-not-written", ci.Pos, "an iteration of the writing loop can end without writing its element")
			}
		}
		rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			b.fl.onRet(x, st, ci, res)
			if ci.Name == cacheList && !ci.Inl {
				addChk(x, st, x.tt.mk("const", "listing", 0, nil), x.ErrOf(ci, res), ci.Pos, "listing of the cache set")
			}
		}
		x := NewExec(p, "C04", rule)
		x.Run(m)
		b.finish()
		r.Absorb(x)
	}
	r.NeedAtLeast(1, "cache removals")
	r.NeedAtLeast(1, "entries judged")
	r.NeedAtLeast(1, "entries taken")
	r.NeedAtLeast(1, "entries left in the cache")
	return r
}
