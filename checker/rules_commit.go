package main

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the commit as a whole: C03, C05, C06, C07.

func init() {
	checks["C03"] = checkC03
	checks["C05"] = checkC05
	checks["C06"] = checkC06
	checks["C07"] = checkC07
}

const (
	cacheLoadAll = "(storage.RemoteCache).LoadAllLogStates"
	cacheKeys    = "(storage.RemoteCache).KeysToChan"
	cacheEpoch   = "(storage.RemoteCache).GetEpoch"
	cacheNext    = "(storage.RemoteCache).NextEpoch"
	cacheHasLock = "(storage.RemoteCache).HasCommitLock"
)

func returnsError(f *ssa.Function) bool {
	n := f.Signature.Results().Len()
	return n > 0 && isErrorType(f.Signature.Results().At(n-1).Type())
}

// commitOpaque is the set of movers that can be represented by their error.
func commitOpaque(p *Program) (map[string]bool, []*ssa.Function) {
	op := map[string]bool{}
	ms := movers(p)
	for _, m := range ms {
		if returnsError(m) && m != commitFn(p) {
			op[fname(m)] = true
		}
	}
	return op, ms
}

func isMutation(n string, movers map[string]bool) bool {
	if movers[n] {
		return true
	}
	if strings.HasPrefix(n, "(storage.RemoteCache).") {
		switch strings.TrimPrefix(n, "(storage.RemoteCache).") {
		case "SetInsert", "SetRemove", "SetInsertMany", "ExpireAt", "StoreLogState", "Migrate", "NextEpoch", "Restore", "AcquireCommitLock", "ReleaseCommitLock":
			return true
		}
		return false
	}
	return isFsMutation(n)
}

func isFsMutation(n string) bool {
	switch n {
	case "os.Create", "os.CreateTemp", "os.Mkdir", "os.MkdirAll", "os.MkdirTemp", "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate", "os.WriteFile",
		"io/ioutil.WriteFile", "os.Symlink", "os.Link", "os.Chmod", "(*os.File).Truncate",
		renameioPkg + ".TempFile", renameioPkg + ".WriteFile", renameioPkg + ".TempDir", renameioPkg + ".Symlink":
		return true
	}
	return isReplace(n)
}

func fieldOf(p *Program, typ string, pred func(*types.Var) bool) string {
	t := p.NamedType(typ)
	if t == nil {
		return ""
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if pred(st.Field(i)) {
			return fieldKey(t, i)
		}
	}
	return ""
}

func isBoolVar(v *types.Var) bool {
	b, ok := v.Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// epochReader follows how a path learned the epoch of the storage.
type epochReader struct{}

func (epochReader) onRet(x *Exec, st *State, ci *CallInfo, res *Term) {
	if ci.Inl {
		return
	}
	switch {
	case ci.Name == cacheEpoch:
		st.AddMark("cepoch", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res))
	case ci.Name == "os.Open" || ci.Name == "os.ReadFile":
		if strings.Contains(ci.Arg(0).fullString(), "epoch") {
			st.AddMark("eopen", ci.Pos, ci.Arg(0), x.ErrOf(ci, res), x.ResultOf(ci, res, 0))
		}
	case strings.HasSuffix(ci.Name, "bufio.Scanner).Scan"):
		if ep := anyMark(st, "eopen"); ep != nil && ci.Arg(0).Contains(ep.T[2]) {
			st.AddMark("escan", ci.Pos, ci.Arg(0), res)
		}
	case strings.HasSuffix(ci.Name, "bufio.Scanner).Err"):
		if ep := anyMark(st, "eopen"); ep != nil && ci.Arg(0).Contains(ep.T[2]) {
			st.AddMark("eserr", ci.Pos, ci.Arg(0), res)
		}
	case strings.HasPrefix(ci.Name, "strconv.Parse") || ci.Name == "strconv.Atoi":
		if ep := anyMark(st, "eopen"); ep != nil && ci.Arg(0).Contains(ep.T[2]) {
			st.AddMark("eparse", ci.Pos, res)
		}
	}
}

func anyMark(st *State, kind string) *Mark {
	l := st.Marks(kind)
	if len(l) == 0 {
		return nil
	}
	return &l[0]
}

// epochFacts are the facts that matter until the comparison is settled.
func epochFact(p *Term) bool {
	return p.HasSub(func(u *Term) bool {
		return u.Op == "call" && (u.Key == cacheEpoch || strings.HasSuffix(u.Key, "bufio.Scanner).Scan") || strings.HasSuffix(u.Key, "bufio.Scanner).Err") || u.Key == "os.Open" || u.Key == "os.ReadFile") ||
			u.Op == "pure" && strings.HasPrefix(u.Key, "strconv.")
	})
}

// storageEpochTerm returns the storage epoch established on the path, nil if
// the path does not show that it was determined.
func storageEpochTerm(x *Exec, st *State) (*Term, string) {
	op := anyMark(st, "eopen")
	if op == nil {
		return nil, "the storage epoch was not read"
	}
	if notExistFact(x, st, op.T[1]) {
		return x.tt.intc(0), ""
	}
	if !x.KnownNil(st, op.T[1]) {
		return nil, "the epoch file may not have been opened"
	}
	if pm := anyMark(st, "eparse"); pm != nil {
		if !x.KnownNil(st, x.ext(pm.T[0], 1, nil)) && !x.KnownNil(st, extErr(x, pm.T[0])) {
			return nil, "the content of the epoch file may not be a number"
		}
		return x.tt.mk("ext", "0", 0, nil, pm.T[0]), ""
	}
	if sm := anyMark(st, "escan"); sm != nil {
		if v, k := x.Truth(st, sm.T[1]); k && !v {
			for _, e := range st.Marks("eserr") {
				if x.KnownNil(st, e.T[1]) {
					return x.tt.intc(0), ""
				}
			}
			return nil, "reading the epoch file may have failed"
		}
	}
	return nil, "the storage epoch was not determined"
}

func extErr(x *Exec, t *Term) *Term { return x.tt.mk("ext", "1", 0, nil, t) }

// epochsAgree tells whether the path shows cache == storage+1 or both 0.
func epochsAgree(x *Exec, st *State) (*Term, string) {
	cs := st.Marks("cepoch")
	if len(cs) == 0 {
		return nil, "the cache epoch was not read"
	}
	s, why := storageEpochTerm(x, st)
	if s == nil {
		return nil, why
	}
	why = "the cache epoch was not found to be one more than the storage epoch (or both zero)"
	for _, c := range cs {
		if !x.KnownNil(st, c.T[1]) {
			why = "the cache epoch may not have been read"
			continue
		}
		C := c.T[0]
		l := &lin{}
		x.tt.linOf(C, 1, l)
		x.tt.linOf(s, -1, l)
		l.k--
		q, n := x.tt.linTerm("eq", l)
		if v, k := x.Truth(st, q); k && v != n {
			return C, ""
		}
		zero := func(t *Term) bool {
			l := &lin{}
			x.tt.linOf(t, 1, l)
			q, n := x.tt.linTerm("eq", l)
			v, k := x.Truth(st, q)
			return k && v != n
		}
		if zero(C) && zero(s) {
			return C, ""
		}
	}
	return nil, why
}

func checkC05(p *Program, tier string) *Result {
	r := NewResult("C05", "on every path of Commit, the first operation that changes the cache or the storage is reached only after the facts: storage is writable, HasCommitLock(caller's token) returned true without error, and cache epoch = storage epoch + 1 or both are 0, all of them read without error")
	root := commitFn(p)
	if root == nil {
		r.Bad("missing: Commit", "-", "(*CertDatabase).Commit not found")
		return r
	}
	ro := fieldOf(p, "storage.CertDatabase", isBoolVar)
	op, _ := commitOpaque(p)
	var er epochReader
	rule := &Rule{PureFn: pureTypes, OpaqueFn: func(n string) bool { return op[n] }}
	rule.KeepFact = func(st *State, t *Term) bool {
		if t.Op == "deref" {
			return !st.HasMark("g:ro")
		}
		if t.HasSub(func(u *Term) bool { return callTerm(u, ").HasCommitLock") }) {
			return !st.HasMark("g:lock")
		}
		return !st.HasMark("g:epoch") && epochFact(t)
	}
	eval := func(x *Exec, st *State) (ro_, lock, ep string) {
		if !st.HasMark("g:ro") {
			ro_ = "storage was not found to be writable"
			v, k := x.Truth(st, x.tt.mk("deref", "", 0, nil, x.tt.fieldAddr(x.Params[0], ro, nil)))
			if k && !v {
				st.AddMark("g:ro", "")
				ro_ = ""
			}
		}
		if !st.HasMark("g:lock") {
			lock = "the commit lock was not checked"
			for _, m := range st.Marks("haslock") {
				if m.T[2] != x.Params[1] {
					lock = "the lock was checked with another token than the caller's"
					continue
				}
				if !x.KnownNil(st, m.T[1]) {
					lock = "the check of the commit lock may have failed"
					continue
				}
				if v, k := x.Truth(st, m.T[0]); k && v {
					st.AddMark("g:lock", "")
					lock = ""
				} else {
					lock = "the caller was not found to hold the commit lock"
				}
			}
			if st.HasMark("g:lock") {
				lock = ""
			}
		}
		if !st.HasMark("g:epoch") {
			var c *Term
			c, ep = epochsAgree(x, st)
			if c != nil {
				st.AddMark("g:epoch", "")
				ep = ""
			}
		}
		return
	}
	rule.OnBlock = func(x *Exec, st *State, _ *ssa.BasicBlock) { eval(x, st) }
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		if ci.Inl || !isMutation(ci.Name, op) {
			return
		}
		r.Counts["operations that change cache or storage"]++
		a, b, c := eval(x, st)
		r.Check(a == "", st, "writes-read-only-storage", ci.Pos, "%s is reached although %s", shortCallee(ci.Name), a)
		r.Check(b == "", st, "writes-without-lock", ci.Pos, "%s is reached although %s", shortCallee(ci.Name), b)
		r.Check(c == "", st, "writes-with-inconsistent-epochs", ci.Pos, "%s is reached although %s", shortCallee(ci.Name), c)
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		er.onRet(x, st, ci, res)
		if ci.Name == cacheHasLock && !ci.Inl {
			st.AddMark("haslock", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res), ci.Arg(1))
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		a, b, c := eval(x, st)
		if a+b+c == "" {
			return
		}
		e := res[len(res)-1]
		ok := x.KnownNonNil(st, e)
		for _, m := range append(append(st.Marks("haslock"), st.Marks("cepoch")...), st.Marks("eparse")...) {
			for _, t := range m.T {
				if t == e {
					ok = true
				}
			}
		}
		r.Check(ok, st, "refusal-not-reported", "go/storage", "Commit may return success without having met its preconditions: %s%s%s", a, b, c)
		r.Counts["refusals"]++
	}
	x := NewExec(p, "C05", rule)
	x.Run(root)
	r.Absorb(x)
	r.NeedAtLeast(1, "operations that change cache or storage")
	r.NeedAtLeast(3, "refusals")
	return r
}

// fullString prints a term without abbreviation (for name tests only).
func (t *Term) fullString() string {
	var sb strings.Builder
	for u := range t.Subs() {
		sb.WriteString(u.Op + " " + u.Key + "\n")
	}
	return sb.String()
}

// fileWith returns the tracked files that hold data satisfying pred.
func fileWith(st *State, pred func(*Term) bool) []*Term {
	var r []*Term
	for _, m := range st.Marks("data") {
		if pred(m.T[1]) {
			r = append(r, m.T[0])
		}
	}
	return dedupTerms(r)
}

func isResultOf(t *Term, name string) bool {
	return t.Op == "ext" && t.Key == "0" && t.Args[0].Op == "call" && t.Args[0].Key == name
}

func isCoverageData(t *Term) bool { return isResultOf(t, cacheLoadAll) }

func checkC03(p *Program, tier string) *Result {
	r := NewResult("C03", "on every path of Commit, the bins are moved with a coverage map made from one snapshot of the log states that was read before the cached serials; the coverage file holds that same snapshot and is replaced only when it is complete and every mover has finished (joined) without error; success is returned only after the replacement")
	root := commitFn(p)
	if root == nil {
		r.Bad("missing: Commit", "-", "(*CertDatabase).Commit not found")
		return r
	}
	op, ms := commitOpaque(p)
	r.Counts["functions that move a bin"] = len(ms)
	r.NeedAtLeast(1, "functions that move a bin")
	fl := files{keep: func(x *Exec, st *State, t *Term) bool { return isCoverageData(t) }}
	rule := &Rule{PureFn: pureTypes, OpaqueFn: func(n string) bool { return op[n] }}
	rule.OnBlock = func(x *Exec, st *State, _ *ssa.BasicBlock) { pruneChk(x, st) }
	moves := func(x *Exec) *Term { return x.tt.mk("const", "moves", 0, nil) }
	isMove := func(ci *CallInfo) bool { return op[ci.Name] || ci.Name == cacheRemove }
	rule.OnSend = func(x *Exec, st *State, ch, v *Term, in ssa.Instruction, insel bool) {
		if x.cur.top().ctx.goes && st.HasMark("gdone") {
			st.AddMark("latesend", x.pos(in), ch)
		}
		if x.cur.top().ctx.goes && st.HasMark("inflight") {
			// the result is sent after the move
			st.DelMarks("inflight", nil)
			st.AddMark("sent", x.pos(in), ch)
			if g := outerGo(x); g != nil && !inCycle(g.Block()) {
				st.AddMark("single", g.Parent().String(), ch)
			}
		}
	}
	rule.OnRecv = func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, insel bool) {
		one := inCycle(in.Block())
		for _, m := range st.Marks("single") {
			// the only mover was started here
			one = one || m.T[0] == ch && m.Pos == in.Parent().String()
		}
		if !x.cur.top().ctx.goes && one {
			// one result per mover is taken
			st.DelMarks("sent", func(m Mark) bool { return m.T[0] == ch })
		}
	}
	rule.OnClosed = func(x *Exec, st *State, ch *Term, in ssa.Instruction) {
		if x.cur.top().ctx.goes {
			return
		}
		for _, m := range st.Marks("closer") {
			if m.T[0] == ch {
				st.DelMarks("unwaited", func(o Mark) bool { return o.T[0] == m.T[1] })
			}
		}
	}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		switch {
		case ci.Name == cacheKeys || ci.Name == cacheList:
			lm := st.Marks("load")
			r.Check(len(lm) > 0, st, "coverage-read-late", ci.Pos, "cached serials are listed before the log states were read")
			if ci.Name == cacheKeys {
				st.AddMark("listed", ci.Pos)
			}
			r.Counts["cache listings"]++
		case isMove(ci):
			r.Counts["bin moves"]++
			lm := st.Marks("load")
			if !r.Check(len(lm) > 0, st, "coverage-read-late", ci.Pos, "a bin is moved before the log states were read") {
				return
			}
			used := map[*Term]bool{}
			for _, a := range ci.Args {
				for t := range reachTerms(x, st, a) {
					if isCoverageData(t) {
						used[t] = true
					}
				}
			}
			if ci.clos != nil {
				for t := range reachTerms(x, st, ci.clos) {
					if isCoverageData(t) {
						used[t] = true
					}
				}
			}
			if len(used) == 0 && os.Getenv("DBG") != "" {
				x.Dump(st)
				for _, a := range ci.Args {
					println(a.ID, a.String())
				}
			}
			if op[ci.Name] {
				r.Check(len(used) == 1, st, "coverage-not-used", ci.Pos, "the bin is moved with a coverage map that does not come from the log states read by this commit")
			}
			for t := range used {
				st.AddMark("usedcover", ci.Pos, t)
			}
			r.Check(!st.HasMark("coverdone"), st, "moved-after-coverage", ci.Pos, "a bin is moved after the coverage file was replaced")
			if x.cur.top().ctx.goes || ci.Mode == 'g' {
				st.AddMark("inflight", ci.Pos)
			}
		case strings.HasSuffix(ci.Name, "sync.WaitGroup).Done") && x.cur.top().ctx.goes:
			if len(st.Marks("inflight"))+len(st.Marks("sent")) > 0 {
				st.DelMarks("inflight", nil)
				st.DelMarks("sent", nil)
				st.AddMark("unwaited", ci.Pos, ci.Arg(0), x.tt.intc(goDepth(x)))
			}
			st.AddMark("gdone", ci.Pos)
		case strings.HasSuffix(ci.Name, "sync.WaitGroup).Wait") && !x.cur.top().ctx.goes:
			st.DelMarks("unwaited", func(m Mark) bool { return m.T[0] == ci.Arg(0) })
		case strings.HasSuffix(ci.Name, "sync.WaitGroup).Wait"):
			st.AddMark("gwaited", ci.Pos, ci.Arg(0))
			st.DelMarks("unwaited", func(m Mark) bool {
				if n, ok := m.T[1].IntConst(); m.T[0] != ci.Arg(0) || !ok || n <= goDepth(x) {
					return false
				}
				// this goroutine started the movers: they are done when it is
				st.AddMark("inflight", m.Pos)
				return true
			})
		case ci.Name == "builtin.close":
			for _, m := range st.Marks("gwaited") {
				if x.cur.top().ctx.goes {
					st.AddMark("closer", ci.Pos, ci.Arg(0), m.T[0])
				}
			}
			ok := true
			for _, m := range st.Marks("latesend") {
				if m.T[0] == ci.Arg(0) {
					ok = false
				}
			}
			r.Check(ok, st, "send-after-done", ci.Pos, "the channel is closed although a mover may still send its result: it tells the wait group before it sends")
		case isReplace(ci.Name):
			f := fileIn(st, ci.Arg(0))
			if f == nil {
				return
			}
			cover := false
			for _, c := range fileWith(st, isCoverageData) {
				cover = cover || c == f
			}
			if !cover {
				return
			}
			r.Counts["coverage replacements"]++
			for _, l := range unfinished(x, st, f) {
				r.Check(false, st, "coverage-incomplete", ci.Pos, "the coverage file is replaced but %s", l)
			}
			r.Check(st.HasMark("listed"), st, "coverage-before-moves", ci.Pos, "the coverage file is replaced before the cached bins were listed and moved")
			for _, m := range openErrs(x, st, moves(x)) {
				r.Check(false, st, "coverage-after-failed-move", ci.Pos, "the coverage file is replaced although the %s at %s may have failed", whatOf(m), m.Pos)
			}
			for _, m := range append(append(st.Marks("inflight"), st.Marks("sent")...), st.Marks("unwaited")...) {
				r.Check(false, st, "coverage-before-join", ci.Pos, "the coverage file is replaced while the mover started at %s may still be running", m.Pos)
			}
			for _, u := range st.Marks("usedcover") {
				same := false
				for _, d := range st.Marks("data") {
					same = same || d.T[0] == f && d.T[1] == u.T[0]
				}
				r.Check(same, st, "coverage-differs", ci.Pos, "the coverage file does not hold the log states that decided which serials were moved")
			}
			for _, m := range st.Marks("load") {
				r.Check(x.KnownNil(st, m.T[1]), st, "coverage-read-failed", ci.Pos, "the coverage file is replaced although reading the log states may have failed")
			}
			r.Check(true, st, "coverage-replacement", ci.Pos, "")
			st.AddMark("coverdone", ci.Pos)
		}
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if ci.Mode == 'g' {
			st.DelMarks("gdone", nil)
			st.DelMarks("gwaited", nil)
		}
		fl.onRet(x, st, ci, res)
		if isReplace(ci.Name) {
			for _, c := range fileWith(st, isCoverageData) {
				if fileIn(st, ci.Arg(0)) == c {
					st.AddMark("coverrepl", ci.Pos, x.ErrOf(ci, res))
				}
			}
		}
		if ci.Inl {
			return
		}
		switch {
		case ci.Name == cacheLoadAll:
			st.AddMark("load", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res))
		case op[ci.Name]:
			addChk(x, st, moves(x), x.ErrOf(ci, res), ci.Pos, "move of a bin")
		case ci.Name == "os.MkdirAll":
			addChk(x, st, moves(x), x.ErrOf(ci, res), ci.Pos, "creation of a directory for a bin")
		case ci.Name == cacheKeys || ci.Name == cacheList:
			addChk(x, st, moves(x), x.ErrOf(ci, res), ci.Pos, "listing of the cache")
		}
	}
	// errors kept in a list count as seen once the whole list was gone
	// through and every element found nil:
	//	kept(list, err)   err is an element of list
	//	elem(list, v)     v is the element the loop over list is looking at
	//	noelem(list)      the loop has not looked at its element yet
	//	skipped(list)     an element was passed over, or not found to be nil
	endElem := func(x *Exec, st *State, coll *Term) {
		st.DelMarks("elem", func(m Mark) bool {
			if m.T[0] != coll {
				return false
			}
			if !x.KnownNil(st, m.T[1]) {
				st.AddMark("skipped", "", coll)
			}
			return true
		})
		st.DelMarks("noelem", func(m Mark) bool {
			if m.T[0] == coll {
				st.AddMark("skipped", "", coll)
			}
			return m.T[0] == coll
		})
	}
	rule.OnStore = func(x *Exec, st *State, addr, v *Term, in ssa.Instruction) {
		if addr == nil || v == nil || addr.Op != "indexaddr" {
			return
		}
		for _, m := range st.Marks("chk") {
			if m.T[1] == v {
				st.AddMark("kept", x.pos(in), addr.Args[0], v)
			}
		}
	}
	rule.OnLoad = func(x *Exec, st *State, addr, v *Term, in ssa.Instruction) {
		if addr == nil || v == nil || addr.Op != "indexaddr" {
			return
		}
		for _, m := range st.Marks("noelem") {
			if m.T[0] == addr.Args[0] {
				st.AddMark("elem", x.pos(in), addr.Args[0], v)
			}
		}
		st.DelMarks("noelem", func(m Mark) bool { return m.T[0] == addr.Args[0] })
	}
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		kept := false
		for _, m := range st.Marks("kept") {
			kept = kept || m.T[0] == coll
		}
		if !kept || !fromStart(in) {
			return
		}
		endElem(x, st, coll)
		if more {
			st.AddMark("noelem", "", coll)
			return
		}
		all := true
		st.DelMarks("skipped", func(m Mark) bool {
			all = all && m.T[0] != coll
			return m.T[0] == coll
		})
		for _, k := range st.Marks("kept") {
			if all && k.T[0] == coll {
				st.DelMarks("chk", func(m Mark) bool { return m.T[1] == k.T[1] })
			}
		}
		st.DelMarks("kept", func(m Mark) bool { return m.T[0] == coll })
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		e := res[len(res)-1]
		if x.KnownNonNil(st, e) {
			return
		}
		ok := false
		for _, m := range st.Marks("coverrepl") {
			if x.KnownNil(st, m.T[0]) || m.T[0] == e {
				ok = true
			}
		}
		for _, m := range st.Marks("load") {
			ok = ok || m.T[1] == e
		}
		for _, m := range st.Marks("chk") {
			ok = ok || m.T[1] == e
		}
		for _, k := range []string{"lockerr"} {
			for _, m := range st.Marks(k) {
				ok = ok || m.T[0] == e
			}
		}
		// an error that is handed through unseen
		if e.Op == "ext" || e.Op == "call" {
			if _, known := x.Truth(st, x.isNilTerm(e)); !known && !st.HasMark("listed") {
				ok = true
			}
		}
		r.Check(ok, st, "success-without-coverage", "go/storage Commit", "Commit may return success without having replaced the coverage file")
	}
	dispatchSkips(p, r, root, ms)
	r.NeedAtLeast(1, "loops that hand out bins")
	checkScanUse(p, r, p.Graph().Reach(root))
	r.NeedAtLeast(2, "uses of scans")
	x := NewExec(p, "C03", rule)
	x.Run(root)
	r.Absorb(x)
	r.NeedAtLeast(1, "bin moves")
	r.NeedAtLeast(1, "cache listings")
	r.NeedAtLeast(1, "coverage replacements")
	return r
}

func checkC06(p *Program, tier string) *Result {
	r := NewResult("C06", "on every path of Commit, the cache epoch is incremented at most once, after the bins and the coverage file are in place and a temporary epoch file with the unmodified cache epoch has been written and flushed without error; the epoch file is replaced only after the increment succeeded")
	root := commitFn(p)
	if root == nil {
		r.Bad("missing: Commit", "-", "(*CertDatabase).Commit not found")
		return r
	}
	op, _ := commitOpaque(p)
	isEpochData := func(t *Term) bool { return isResultOf(t, cacheEpoch) }
	fl := files{keep: func(x *Exec, st *State, t *Term) bool {
		return isEpochData(t) || isCoverageData(t) || t.Op == "binop" && t.HasSub(isEpochData)
	}}
	rule := &Rule{PureFn: pureTypes, OpaqueFn: func(n string) bool { return op[n] }}
	rule.OnBlock = func(x *Exec, st *State, _ *ssa.BasicBlock) { pruneChk(x, st) }
	holds := func(st *State, f *Term, pred func(*Term) bool) bool {
		for _, c := range fileWith(st, pred) {
			if c == f {
				return true
			}
		}
		return false
	}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		switch {
		case op[ci.Name] || ci.Name == cacheRemove:
			r.Check(!st.HasMark("next"), st, "epoch-before-bins", ci.Pos, "a bin is moved after the cache epoch was incremented")
		case ci.Name == cacheEpoch:
			if st.HasMark("next") {
				st.AddMark("lateepoch", ci.Pos, x.tt.mk("ext", "0", 0, nil, ci.Res))
			}
		case ci.Name == cacheNext:
			r.Counts["epoch increments"]++
			r.Check(!st.HasMark("next"), st, "epoch-incremented-twice", ci.Pos, "the cache epoch is incremented twice")
			ok := false
			for _, m := range st.Marks("repl") {
				if x.KnownNil(st, m.T[2]) && st.HasMark("iscover") {
					for _, c := range st.Marks("iscover") {
						ok = ok || c.T[0] == m.T[0]
					}
				}
			}
			r.Check(ok, st, "epoch-before-coverage", ci.Pos, "the cache epoch is incremented before the coverage file is in place")
			fs := fileWith(st, isEpochData)
			if r.Check(len(fs) > 0, st, "epoch-file-not-prepared", ci.Pos, "the cache epoch is incremented before the new storage epoch was written to a temporary file") {
				for _, f := range fs {
					for _, l := range unfinished(x, st, f) {
						r.Check(false, st, "epoch-file-incomplete", ci.Pos, "the cache epoch is incremented but %s", l)
					}
				}
			}
			st.AddMark("next", ci.Pos)
		case isReplace(ci.Name):
			f := fileIn(st, ci.Arg(0))
			if f == nil {
				return
			}
			if holds(st, f, isCoverageData) {
				r.Check(!st.HasMark("next"), st, "epoch-before-coverage", ci.Pos, "the coverage file is replaced after the cache epoch was incremented")
				st.AddMark("iscover", ci.Pos, f)
				return
			}
			path := filePath(st, f)
			isE := holds(st, f, isEpochData)
			for _, m := range st.Marks("eopen") {
				if m.T[0] == path {
					isE = true
				}
			}
			if !isE {
				return
			}
			r.Counts["epoch replacements"]++
			for _, l := range unfinished(x, st, f) {
				r.Check(false, st, "epoch-file-incomplete", ci.Pos, "the epoch file is replaced but %s", l)
			}
			good := false
			for _, d := range st.Marks("data") {
				if d.T[0] != f {
					continue
				}
				if isEpochData(d.T[1]) {
					good = true
					for _, l := range st.Marks("lateepoch") {
						r.Check(l.T[0] != d.T[1], st, "epoch-after-increment", ci.Pos, "the published epoch was read after the increment")
					}
				}
				r.Check(d.T[1].Op != "binop", st, "epoch-modified", ci.Pos, "the published epoch is computed from the cache epoch instead of being it")
			}
			r.Check(good, st, "epoch-not-from-cache", ci.Pos, "the published epoch is not the cache epoch")
			inc := false
			for _, m := range st.Marks("nextret") {
				inc = inc || x.KnownNil(st, m.T[0])
			}
			r.Check(inc, st, "epoch-published-before-increment", ci.Pos, "the storage epoch is published although the cache epoch has not been incremented successfully")
			same := false
			for _, m := range st.Marks("eopen") {
				same = same || m.T[0] == path
			}
			r.Check(same, st, "epoch-other-file", ci.Pos, "the epoch is written to another file than the one it is read from")
		case isFsMutation(ci.Name) && len(ci.Args) > 0:
			for _, m := range st.Marks("eopen") {
				r.Check(ci.Arg(0) != m.T[0], st, "epoch-not-atomic", ci.Pos, "%s changes the epoch file in place", shortCallee(ci.Name))
			}
		}
	}
	var er epochReader
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		fl.onRet(x, st, ci, res)
		er.onRet(x, st, ci, res)
		if ci.Name == cacheNext && !ci.Inl {
			st.AddMark("nextret", ci.Pos, x.ErrOf(ci, res))
		}
	}
	x := NewExec(p, "C06", rule)
	x.Run(root)
	r.Absorb(x)
	r.NeedAtLeast(1, "epoch increments")
	r.NeedAtLeast(1, "epoch replacements")
	return r
}

// ---- C07 ------------------------------------------------------------------------

func isDestructive(n string) bool {
	switch n {
	case "os.Remove", "os.RemoveAll", "os.Truncate", "os.Rename", "os.Create", "os.WriteFile", "io/ioutil.WriteFile", "(*os.File).Truncate", "syscall.Unlink", "syscall.Rmdir", renameioPkg + ".WriteFile", "os.Link", "os.Symlink":
		return true
	}
	return false
}

func checkC07(p *Program, tier string) *Result {
	r := NewResult("C07", "every file removal reached by Commit removes either a file whose name yielded an expiry date that was found expired at the current time, or a path that was just read as a directory; no other destructive file operation is reachable in package storage, and none in the programs is applied to a path derived from the storage directory")
	root := commitFn(p)
	if root == nil {
		r.Bad("missing: Commit", "-", "(*CertDatabase).Commit not found")
		return r
	}
	op, ms := commitOpaque(p)
	judge := func(x *Exec, st *State, ci *CallInfo) {
		if ci.Inl || !isDestructive(ci.Name) {
			return
		}
		r.Counts["destructive operations"]++
		if ci.Name != "os.Remove" {
			r.Check(false, st, "destructive-operation", ci.Pos, "%s is applied to files of the storage", shortCallee(ci.Name))
			return
		}
		path := ci.Arg(0)
		for _, m := range st.Marks("isdir") {
			if m.T[0] == path && x.KnownNil(st, m.T[1]) {
				r.Check(true, st, "directory-removal", ci.Pos, "")
				r.Counts["directory removals"]++
				return
			}
		}
		why := "its expiry date was not found to have passed"
		for f, v := range st.facts {
			if f.Op != "pure" || !strings.HasSuffix(f.Key, "ExpDate).IsExpiredAt") || !v {
				continue
			}
			exp, now := f.Args[0], f.Args[1]
			if !notAhead(now) {
				why = "the expiry date is compared with something other than the current time"
				continue
			}
			base := baseName(path)
			named := base.HasSub(func(u *Term) bool {
				return (u.Op == "pure" || u.Op == "call") && strings.HasSuffix(u.Key, ").Name") && exp.Contains(u)
			})
			if !named {
				why = "the expired date belongs to another file"
				continue
			}
			parsed := false
			for u := range exp.Subs() {
				if u.Op == "ext" && u.Key == "0" && strings.Contains(u.Args[0].Key, "NewExpDate") && x.KnownNil(st, extErr(x, u.Args[0])) {
					parsed = true
				}
			}
			if !parsed {
				why = "its expiry date may not have been parsed"
				continue
			}
			r.Check(true, st, "expired-removal", ci.Pos, "")
			r.Counts["expired removals"]++
			return
		}
		r.Check(false, st, "unexpired-removal", ci.Pos, "the file is removed although %s", why)
	}
	mk := func(opq map[string]bool) *Rule {
		rule := &Rule{PureFn: pureTypes, OpaqueFn: func(n string) bool { return opq[n] }}
		rule.KeepFact = func(st *State, t *Term) bool {
			return !t.hasOld() && t.HasSub(func(u *Term) bool {
				return strings.Contains(u.Key, "NewExpDate") || strings.HasSuffix(u.Key, "IsExpiredAt")
			})
		}
		rule.OnCall = judge
		rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			if ci.Name == "os.ReadDir" && !ci.Inl {
				st.DelMarks("isdir", func(m Mark) bool { return m.T[0] == ci.Arg(0) })
				st.AddMark("isdir", ci.Pos, ci.Arg(0), x.ErrOf(ci, res))
			}
		}
		return rule
	}
	x := NewExec(p, "C07", mk(op))
	x.Run(root)
	r.Absorb(x)
	for _, m := range ms {
		x := NewExec(p, "C07", mk(nil))
		x.Run(m)
		r.Absorb(x)
	}
	expiryDates(p, r)
	// everything else
	reach := p.Graph().Reach(root)
	for _, f := range p.Funcs {
		pkg := pkgOf(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee, _ := c.Common().Value.(*ssa.Function)
				if callee == nil || !isDestructive(fname(callee)) {
					continue
				}
				r.Counts["destructive call sites in the module"]++
				pos := p.PosStr(in.Pos())
				if strings.HasSuffix(pkg, "/storage") {
					r.Check(reach[f], nil, "destructive-operation", pos, "%s outside Commit changes files (in %s)", fname(callee), fname(f))
					continue
				}
				bad := false
				for _, a := range c.Common().Args {
					bad = bad || slicesTo(a, func(v ssa.Value) bool {
						if fa, ok := v.(*ssa.FieldAddr); ok {
							k := fieldKey(deref(fa.X.Type()), fa.Field)
							return strings.HasSuffix(k, ":CertPath")
						}
						return false
					})
				}
				r.Check(!bad, nil, "destructive-operation", pos, "%s is applied to a path in the storage directory (in %s)", fname(callee), fname(f))
			}
		}
	}
	r.NeedAtLeast(1, "expired removals")
	return r
}

func pkgOf(f *ssa.Function) string {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg.Path()
		}
	}
	return ""
}

// slicesTo tells whether v may be computed from a value satisfying pred
// (backward slice within the function).
func slicesTo(v ssa.Value, pred func(ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if pred(v) {
			return true
		}
		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		if a, ok := v.(*ssa.Alloc); ok && a.Referrers() != nil {
			for _, ref := range *a.Referrers() {
				switch s := ref.(type) {
				case *ssa.Store:
					if s.Addr == a && rec(s.Val) {
						return true
					}
				case *ssa.IndexAddr:
					for _, r2 := range *s.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == s && rec(st.Val) {
							return true
						}
					}
				}
			}
		}
		var ops []*ssa.Value
		for _, o := range in.Operands(ops) {
			if *o != nil && rec(*o) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

// slicesTo is the same through parameters: at every call of the function.
func (p *Program) slicesTo(v ssa.Value, pred func(ssa.Value) bool) bool {
	busy := map[*ssa.Parameter]bool{}
	var via func(v ssa.Value) bool
	via = func(v ssa.Value) bool {
		if pred(v) {
			return true
		}
		q, ok := v.(*ssa.Parameter)
		if !ok || busy[q] {
			return false
		}
		busy[q] = true
		defer delete(busy, q)
		i, n := -1, 0
		for j, o := range q.Parent().Params {
			if o == q {
				i = j
			}
		}
		for _, f := range p.Graph().Callers(q.Parent()) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok || c.Common().StaticCallee() != q.Parent() || i < 0 || i >= len(c.Common().Args) {
						continue
					}
					n++
					if !slicesTo(c.Common().Args[i], via) {
						return false
					}
				}
			}
		}
		return n > 0
	}
	return slicesTo(v, via)
}

// baseName is the last element of a joined path.
func baseName(t *Term) *Term {
	if t.Op == "pure" && strings.HasSuffix(t.Key, ".Join") && len(t.Args) > 0 {
		l := t.Args[len(t.Args)-1]
		if l != nil && l.Op == "vararg" && len(l.Args) > 0 {
			return l.Args[len(l.Args)-1]
		}
	}
	if t.Op == "binop" && t.Key == "+" {
		return t.Args[1]
	}
	return t
}

// goDepth counts the go statements between the root and the current frame;
// outerGo is the outermost of them.
func goDepth(x *Exec) int64 {
	n := int64(0)
	for c := x.cur.top().ctx; c != nil; c = c.parent {
		if _, ok := c.call.(*ssa.Go); ok {
			n++
		}
	}
	return n
}

func outerGo(x *Exec) *ssa.Go {
	var g *ssa.Go
	for c := x.cur.top().ctx; c != nil; c = c.parent {
		if in, ok := c.call.(*ssa.Go); ok {
			g = in
		}
	}
	return g
}

// fromStart: the branch is the test of a loop that counts up from the first
// element.
func fromStart(in ssa.Instruction) bool {
	b, ok := in.(*ssa.If)
	if !ok {
		return true
	}
	c, ok := b.Cond.(*ssa.BinOp)
	if !ok {
		return true
	}
	v, first := c.X, int64(0)
	if add, ok := v.(*ssa.BinOp); ok {
		// "range": the counter is raised before the test
		v, first = add.X, -1
	}
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range phi.Edges {
		if k, ok := e.(*ssa.Const); ok && k.Value != nil {
			return k.Int64() == first
		}
	}
	return false
}

// inCycle: the block can be executed again after it was.
func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(todo) > 0 {
		c := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if c == b {
			return true
		}
		if !seen[c] {
			seen[c] = true
			todo = append(todo, c.Succs...)
		}
	}
	return false
}
