package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about whole programs: C09.

func init() {
	checks["C09"] = checkC09
}

const (
	fnEnsure  = "(*storage.CertDatabase).EnsureCacheIsConsistent"
	fnNewDB   = "storage.NewCertDatabase"
	ifRestore = "(storage.RemoteCache).Restore"
)

// exitZero tells whether an ending call reports success.
func exitZero(ci *CallInfo) bool {
	if ci.Name != "os.Exit" {
		return false // fatal logging and panics exit with a nonzero status
	}
	n, ok := ci.Arg(0).IntConst()
	return !ok || n == 0
}

func mainOf(p *Program, pkg string) *ssa.Function {
	for _, f := range p.Funcs {
		if f.Name() == "main" && f.Signature.Recv() == nil && f.Parent() == nil && pkgPathOf(f) == pkg {
			return f
		}
	}
	return nil
}

func checkC09(p *Program, tier string) *Result {
	r := NewResult("C09", "on every path of ct-fetch's main a goroutine (or call) that may hand over log entries, receive them, or write to the cache is started only with the fact that EnsureCacheIsConsistent returned nil; if it did not, the program ends with a nonzero status; every database it makes is read-only, the constructor changes the file system only if the database is not read-only, and no other function reachable from main changes the storage or commits; every success of EnsureCacheIsConsistent has the fact that the epochs agree or is the success of Restore with the storage epoch plus one and the log states read from storage")
	m := findMsg(p)
	root := mainOf(p, fetchPkg)
	ens := p.Fn(fnEnsure)
	if m == nil || root == nil || ens == nil {
		r.Bad("missing: main", "-", "ct-fetch's main, its message type or EnsureCacheIsConsistent was not found")
		return r
	}
	g := p.Graph()
	// functions that ingest: exchange messages or change the cache
	writes := func(f *ssa.Function) bool {
		if m.hasSend(f) || m.hasRecv(f) {
			return true
		}
		for n := range g.leaf[f] {
			if strings.HasPrefix(n, "(storage.RemoteCache).") && isMutation(n, nil) {
				return true
			}
		}
		return false
	}
	ensReach := g.Reach(ens)
	ingest := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for c := range g.Reach(f) {
			if !ensReach[c] && writes(c) {
				ingest[f] = true
				break
			}
		}
	}
	reaches := func(f *ssa.Function, to *ssa.Function) bool { return g.Reach(f)[to] }
	startsIngest := map[string]bool{}
	for f := range ingest {
		for c := range g.Reach(f) {
			for _, b := range c.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Go); ok {
						if body := goBody(s); body != nil && ingest[body] {
							startsIngest[fname(f)] = true
						}
					}
				}
			}
		}
	}
	byName := map[string]*ssa.Function{}
	for _, f := range p.Funcs {
		byName[fname(f)] = f
	}
	rule := &Rule{PureFn: pureTypes, NoContrib: true, NoChanVals: true, GoMode: func(*CallInfo) int { return GoSkip }}
	rule.OpaqueFn = func(n string) bool {
		f := byName[n]
		if f == nil || n == fnEnsure || n == fnNewDB {
			return true
		}
		return !(f == root || f.Parent() != nil || reaches(f, ens) || startsIngest[n] || (g.has(f, "os.Exit") || takesError(f)) && inFetch(f))
	}
	consistent := func(x *Exec, st *State) bool {
		for _, e := range st.Marks("ensured") {
			if x.KnownNil(st, e.T[0]) {
				return true
			}
		}
		return false
	}
	failed := func(x *Exec, st *State) bool {
		for _, e := range st.Marks("ensured") {
			if !x.KnownNil(st, e.T[0]) {
				return true
			}
		}
		return false
	}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		var f *ssa.Function
		if ci.Name == "go" {
			gi, ok := ci.Instr.(*ssa.Go)
			if !ok {
				return
			}
			f = goBody(gi)
			if f == nil {
				return
			}
		} else {
			if ci.Inl {
				return
			}
			f = byName[ci.Name]
		}
		if ci.Name == fnNewDB {
			r.Counts["databases made"]++
		}
		if f == nil || !ingest[f] || f == ens {
			return
		}
		r.Counts["starts of ingestion"]++
		r.Check(consistent(x, st), st, "starts-inconsistent", ci.Pos, "%s is started although the cache is not known to be consistent with storage", fname(f))
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if ci.Name == fnEnsure && !ci.Inl {
			st.AddMark("ensured", ci.Pos, x.ErrOf(ci, res))
		}
	}
	rule.OnAbort = func(x *Exec, st *State, ci *CallInfo) {
		r.Counts["program ends"]++
		if failed(x, st) {
			r.Check(!exitZero(ci), st, "failure-status", ci.Pos, "ct-fetch exits with status 0 although the cache could not be made consistent with storage")
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		r.Counts["program ends"]++
		r.Check(!failed(x, st), st, "failure-status", fname(root), "ct-fetch ends normally although the cache could not be made consistent with storage")
	}
	x := NewExec(p, "C09", rule)
	x.Run(root)
	r.Absorb(x)
	r.NeedAtLeast(2, "starts of ingestion")
	r.NeedAtLeast(2, "program ends")

	readOnlyRule(p, r, root)
	ensureRule(p, r, ens)
	return r
}

// readOnlyRule: the program changes nothing in storage.
func readOnlyRule(p *Program, r *Result, root *ssa.Function) {
	g := p.Graph()
	newDB := p.Fn(fnNewDB)
	reach := g.Reach(root)
	if c := commitFn(p); c != nil {
		r.Check(!reach[c], nil, "commits", fname(root), "the ingesting program may commit")
	}
	for _, f := range sortedFns(g.ReachAvoiding(root, newDB)) {
		for n := range g.leaf[f] {
			if isFsMutation(n) {
				r.Bad("changes-files", fname(f), "%s, reachable from ct-fetch's main, changes the file system (%s)", fname(f), n)
			}
		}
	}
	r.Counts["functions reachable from main"] += len(reach)
	// every call of the constructor asks for a read-only database
	byName := map[string]*ssa.Function{}
	for _, f := range p.Funcs {
		byName[fname(f)] = f
	}
	if newDB == nil {
		r.Bad("missing: constructor", "-", "storage.NewCertDatabase not found")
		return
	}
	calls := false
	rule := &Rule{PureFn: pureTypes, NoContrib: true, NoChanVals: true, GoMode: func(*CallInfo) int { return GoSkip }}
	rule.OpaqueFn = func(n string) bool {
		f := byName[n]
		return f == nil || f == newDB || !g.Reach(f)[newDB] || f == root
	}
	ro := -1
	for i, q := range newDB.Params {
		if isBoolType(q.Type()) {
			ro = i
		}
	}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		if ci.Name != fnNewDB || ci.Inl || ro < 0 {
			return
		}
		calls = true
		v, k := x.Truth(st, ci.Arg(ro))
		r.Check(k && v, st, "writable-storage", ci.Pos, "ct-fetch opens the storage writable")
	}
	x := NewExec(p, "C09", rule)
	x.Run(root)
	r.Absorb(x)
	r.Check(calls, nil, "missing: database", fname(root), "no path of ct-fetch's main makes a database")

	rule = &Rule{PureFn: pureTypes, KeepFact: keepAll}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		if ci.Inl || !isFsMutation(ci.Name) {
			return
		}
		r.Counts["file system changes of the constructor"]++
		v, k := x.Truth(st, x.Params[ro])
		r.Check(k && !v, st, "read-only-ignored", ci.Pos, "%s changes the file system although the database may be read-only", fnNewDB)
	}
	x = NewExec(p, "C09", rule)
	x.Run(newDB)
	r.Absorb(x)
}

// ensureRule: success means that the epochs agree or that the cache was reset.
func ensureRule(p *Program, r *Result, ens *ssa.Function) {
	g := p.Graph()
	var er epochReader
	// functions that only read log states from storage
	fromDisk := map[string]bool{}
	for f := range g.Reach(ens) {
		rs := f.Signature.Results()
		if rs.Len() != 2 || !isErrorType(rs.At(1).Type()) {
			continue
		}
		sl, ok := rs.At(0).Type().Underlying().(*types.Slice)
		if !ok || !strings.HasSuffix(types.TypeString(deref(sl.Elem()), pkgShort), ctState) {
			continue
		}
		if !g.has(f, "os.Open|os.ReadFile") {
			continue
		}
		cache := false
		for n := range g.Trans(f) {
			cache = cache || strings.Contains(n, "RemoteCache).")
		}
		if !cache {
			fromDisk[fname(f)] = true
		}
	}
	rule := &Rule{PureFn: pureTypes, OpaqueFn: func(n string) bool { return fromDisk[n] }}
	rule.KeepFact = func(st *State, t *Term) bool { return epochFact(t) }
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		er.onRet(x, st, ci, res)
		if fromDisk[ci.Name] && !ci.Inl {
			st.AddMark("states", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res))
		}
		if ci.Name != ifRestore {
			return
		}
		r.Counts["resets of the cache"]++
		se, why := storageEpochTerm(x, st)
		if r.Check(se != nil, st, "reset-without-epoch", ci.Pos, "the cache is reset although %s", why); se != nil {
			l := &lin{}
			x.tt.linOf(ci.Arg(1), 1, l)
			x.tt.linOf(se, -1, l)
			r.Check(len(l.c) == 0 && l.k == 1, st, "reset-to-wrong-epoch", ci.Pos, "the cache is reset to an epoch that is not one above the stored one")
		}
		ok := false
		for _, s := range st.Marks("states") {
			ok = ok || strip(ci.Arg(2)) == strip(s.T[0]) && x.KnownNil(st, s.T[1])
		}
		r.Check(ok, st, "reset-to-other-states", ci.Pos, "the cache is reset to log states that were not read from storage without error")
		if ok && se != nil {
			st.AddMark("reset", ci.Pos, x.ErrOf(ci, res))
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		e := res[len(res)-1]
		if x.KnownNonNil(st, e) {
			r.Counts["failures to make the cache consistent"]++
			return
		}
		for _, m := range st.Marks("reset") {
			if m.T[0] == e || x.KnownNil(st, m.T[0]) {
				r.Counts["successful resets"]++
				return
			}
		}
		c, why := epochsAgree(x, st)
		r.Counts["consistent caches"]++
		r.Check(c != nil, st, "inconsistent-accepted", fname(ens), "%s may report success although %s, and the cache was not reset", fname(ens), why)
	}
	x := NewExec(p, "C09", rule)
	x.Run(ens)
	r.Absorb(x)
	r.NeedAtLeast(1, "consistent caches")
	r.NeedAtLeast(1, "successful resets")
	r.NeedAtLeast(2, "failures to make the cache consistent")
}
