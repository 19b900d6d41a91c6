package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C27"] = checkC27
}

// optionalFlags have a placeholder as their default but may be left out.
var optionalFlags = map[string]bool{"ccadb": true}

type cmdFlag struct {
	global, name, def string
	pkg               string
}

// placeholderFlags are the string options of all programs whose default is a
// placeholder like <path>.
func placeholderFlags(p *Program) []cmdFlag {
	var r []cmdFlag
	for f := range p.allInits() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				c, ok := st.Val.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || len(c.Call.Args) < 2 || fname(c.Call.StaticCallee()) != "flag.String" {
					continue
				}
				n, ok1 := c.Call.Args[0].(*ssa.Const)
				d, ok2 := c.Call.Args[1].(*ssa.Const)
				if !ok1 || !ok2 {
					continue
				}
				def := strings.Trim(d.Value.ExactString(), `"`)
				if strings.HasPrefix(def, "<") && strings.HasSuffix(def, ">") && def != "<stdout>" {
					r = append(r, cmdFlag{shortName(g.String()), strings.Trim(n.Value.ExactString(), `"`), def, shortName(g.Pkg.Pkg.Path())})
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].global < r[j].global })
	return r
}

func hasContextArg(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if isNamed(sig.Params().At(i).Type(), "context.Context") {
			return true
		}
	}
	return false
}

// stopsEarly: f may look at a context to see whether it was cancelled.
func stopsEarly(g *graph, f *ssa.Function) bool {
	t := g.Trans(f)
	return t["(context.Context).Done"] || t["(context.Context).Err"]
}

// exitSpec says what a program must have done before it ends with status 0.
type exitSpec struct {
	pkg   string
	steps []exitStep
}

// exitStep is one step: the call of a function with this effect, known to have
// succeeded; or, for worker steps, the start of goroutines with this effect
// and the wait for all of them.
type exitStep struct {
	name   string
	match  func(p *Program, f *ssa.Function) bool
	worker bool
}

func reachesFn(name string) func(*Program, *ssa.Function) bool {
	return func(p *Program, f *ssa.Function) bool {
		t := p.Fn(name)
		return t != nil && p.Graph().Reach(f)[t]
	}
}

const (
	fnCommit     = "(*storage.CertDatabase).Commit"
	fnSaveIss    = "(*rootprogram.MozIssuers).SaveIssuersList"
	fnLoadIss    = "(*rootprogram.MozIssuers).LoadFromDisk"
	fnStoreRev   = "(*cmd/aggregate-crls.AggregateEngine).StoreRevokedCertificateList"
	fnWriteKnown = "storage.WriteSerialList"
	fnLoadEnr    = "(*rootprogram.MozIssuers).LoadEnrolledIssuers"
)

func exitSpecs() []exitSpec {
	return []exitSpec{
		{"cmd/aggregate-crls", []exitStep{
			{"loading of the issuers", reachesFn(fnLoadIss), false},
			{"aggregation of the CRLs", reachesFn(fnStoreRev), true},
			{"saving of the enrolled issuers", reachesFn(fnSaveIss), false},
		}},
		{"cmd/aggregate-known", []exitStep{
			{"loading of the enrolled issuers", reachesFn(fnLoadEnr), false},
			{"commit", reachesFn(fnCommit), false},
			{"writing of the known lists", reachesFn(fnWriteKnown), true},
		}},
		{"cmd/commit", []exitStep{
			{"commit", reachesFn(fnCommit), false},
		}},
		{"cmd/get-mozilla-issuers", []exitStep{
			{"loading of the issuers", reachesFn(fnLoadIss), false},
		}},
		{"cmd/ct-fetch", []exitStep{
			{"check of the cache", reachesFn(fnEnsure), false},
		}},
	}
}

func checkC27(p *Program, tier string) *Result {
	r := NewResult("C27", "on every path on which a program ends with status 0: every mandatory option is known to differ from its placeholder; every step that its output needs was taken and is known to have succeeded; every worker that was started has been waited for, by a wait group it was added to before it started and that it leaves only at its end; and if a worker may stop early because the program was interrupted, the context is known not to be cancelled after the wait. A signal handler does not end the program with status 0.")
	flags := placeholderFlags(p)
	for _, s := range exitSpecs() {
		exitProgram(p, r, s, flags)
	}
	r.NeedAtLeast(5, "programs")
	r.NeedAtLeast(5, "zero exits judged")
	return r
}

func exitProgram(p *Program, r *Result, spec exitSpec, flags []cmdFlag) {
	g := p.Graph()
	root := mainOf(p, spec.pkg)
	if root == nil {
		r.Bad("missing: main", spec.pkg, "no main function in %s", spec.pkg)
		return
	}
	r.Counts["programs"]++
	inPkg := func(f *ssa.Function) bool { return pkgPathOf(f) == spec.pkg }
	byName := map[string]*ssa.Function{}
	for _, f := range p.Funcs {
		byName[fname(f)] = f
	}
	// functions of the program that are followed: those that end it, look at
	// options or the context, start or wait for workers, or take a step
	stepOf := func(f *ssa.Function, worker bool) []int {
		var l []int
		for i, s := range spec.steps {
			if s.worker == worker && s.match(p, f) {
				l = append(l, i)
			}
		}
		return l
	}
	starts := func(f *ssa.Function) bool {
		for c := range g.Reach(f) {
			if !inPkg(c) {
				continue
			}
			for _, b := range c.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.Go); ok {
						return true
					}
				}
			}
		}
		return false
	}
	syncR := syncReach(root)
	rule := &Rule{PureFn: pureTypes, NoChanVals: true, WidenAt: 6, ExactInts: true}
	rule.GoMode = func(*CallInfo) int { return GoSkip }
	rule.OpaqueFn = func(n string) bool {
		f := byName[n]
		if f == nil || !inPkg(f) || !syncR[f] && f.Parent() == nil {
			return true
		}
		if f == root || f.Parent() != nil {
			return false
		}
		return !(takesError(f) || g.has(f, "os.Exit") || starts(f) || g.has(f, "(*sync.WaitGroup).Wait") || len(stepOf(f, false)) > 0 || len(stepOf(f, true)) > 0 || g.has(f, "(context.Context).Err|(context.Context).Done"))
	}
	rule.OnBlock = func(x *Exec, st *State, _ *ssa.BasicBlock) { pruneChk(x, st) }
	positive := countIsPositive(p)
	rule.OnLoad = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
		// Init never leaves a smaller value behind
		if positive && addr.Op == "deref" && len(addr.Args) == 1 && addr.Args[0].Op == "fieldaddr" && strings.HasSuffix(addr.Args[0].Key, ":NumThreads") {
			x.Assume(st, x.compare(token.GEQ, val, x.tt.intc(1), types.Typ[types.Int]), true)
		}
	}
	rule.OnBranch = func(x *Exec, st *State, in *ssa.If, cond *Term, taken bool) {
		for _, f := range flags {
			if f.pkg == spec.pkg && flagGiven(x, st, f) {
				st.AddMark("given:"+f.name, x.pos(in))
			}
		}
	}
	bodies := map[*ssa.Function]bool{}
	conN := func(x *Exec, i int) *Term { return x.tt.mk("const", "step:"+spec.steps[i].name, 0, nil) }
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		if gi, ok := ci.Instr.(*ssa.Go); ok && ci.Name == "go" {
			body := goBody(gi)
			if body == nil {
				return
			}
			ws := stepOf(body, true)
			if len(ws) == 0 && !(spec.pkg != "cmd/ct-fetch" && inPkg(body) && stopsEarly(g, body) && g.has(body, "(*sync.WaitGroup).Done")) {
				return
			}
			r.Counts["workers"]++
			if len(ws) > 0 {
				bodies[body] = true
			}
			// the wait group it was given
			var wg *Term
			for _, m := range st.Marks("added") {
				for _, a := range ci.Args {
					if a != nil && (a == m.T[0] || a.Contains(m.T[0]) || reachTerms(x, st, a)[m.T[0]]) {
						wg = m.T[0]
					}
				}
				if ci.FnTerm != nil && reachTerms(x, st, ci.FnTerm)[m.T[0]] {
					wg = m.T[0]
				}
			}
			r.Check(wg != nil, st, "worker-not-added", ci.Pos, "a worker is started that was not added to a wait group before")
			if wg == nil {
				wg = x.tt.mk("const", "none", 0, nil)
			}
			st.AddMark("pend", ci.Pos, wg)
			for _, i := range ws {
				st.AddMark("begun", ci.Pos, conN(x, i), wg)
			}
			st.DelMarks("settled", nil)
			return
		}
		switch ci.Name {
		case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Go":
			st.AddMark("added", ci.Pos, ci.Arg(0))
		case "(*sync.WaitGroup).Wait":
			wg := ci.Arg(0)
			for _, m := range st.Marks("pend") {
				if m.T[0] == wg {
					st.AddMark("joined", ci.Pos, wg)
				}
			}
			st.DelMarks("pend", func(m Mark) bool { return m.T[0] == wg })
			st.DelMarks("settled", nil)
			for _, m := range st.Marks("begun") {
				if m.T[1] == wg {
					st.AddMark("done", ci.Pos, m.T[0])
				}
			}
		}
	}
	rule.OnRecv = func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, inSel bool) {
		if isCtxDone(ch) {
			st.DelMarks("settled", nil)
			st.AddMark("ctxdone", x.pos(in), ch)
		}
	}
	rule.OnSelect = func(x *Exec, st *State, sel *ssa.Select, chs []*Term) {
		if sel.Blocking {
			return
		}
		for _, c := range chs {
			if isCtxDone(c) {
				st.AddMark("settled", x.pos(sel), x.tt.boolT(true))
			}
		}
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		ctxErr(x, st, ci, res)
		if ci.Inl {
			return
		}
		if ci.Name == "(context.Context).Err" || ci.Name == "context.Cause" {
			st.AddMark("settled", ci.Pos, res)
			return
		}
		f := ci.Fn
		if f == nil && byName[ci.Name] != nil {
			f = byName[ci.Name]
		}
		if f == nil || !moduleFn(f) {
			// by its name: a method of an interface
			for i, s := range spec.steps {
				if s.name == "commit" && strings.HasSuffix(ci.Name, ".CertDatabase).Commit") {
					st.AddMark("tried", ci.Pos, conN(x, i), x.ErrOf(ci, res))
				}
				if s.name == "check of the cache" && strings.HasSuffix(ci.Name, ".CertDatabase).EnsureCacheIsConsistent") {
					st.AddMark("tried", ci.Pos, conN(x, i), x.ErrOf(ci, res))
				}
			}
			if ci.Name == "encoding/json.Unmarshal" {
				addChk(x, st, x.tt.mk("const", "conf", 0, nil), x.ErrOf(ci, res), ci.Pos, "parsing of the configured value")
			}
			if strings.HasSuffix(ci.Name, "encoding/json.Encoder).Encode") && ci.Arg(0) != nil && ci.Arg(0).HasSub(func(u *Term) bool { return u.Op == "global" && u.Key == "os.Stdout" }) {
				addChk(x, st, x.tt.mk("const", "stdout", 0, nil), x.ErrOf(ci, res), ci.Pos, "write to the standard output")
				st.AddMark("output", ci.Pos)
			}
			return
		}
		for _, i := range stepOf(f, false) {
			e := x.ErrOf(ci, res)
			if e != nil {
				st.AddMark("tried", ci.Pos, conN(x, i), e)
			}
		}
		if g.Reach(f)[p.Fn(fnSaveIss)] && x.ErrOf(ci, res) != nil {
			addChk(x, st, x.tt.mk("const", "stdout", 0, nil), x.ErrOf(ci, res), ci.Pos, "saving of the issuers")
			st.AddMark("output", ci.Pos)
		}
	}
	judge := func(x *Exec, st *State, pos string) {
		pruneChk(x, st)
		r.Counts["zero exits judged"]++
		bad := func(key, format string, args ...any) { r.Check(false, st, key, pos, format, args...) }
		good := true
		for _, f := range flags {
			if f.pkg != spec.pkg || optionalFlags[f.name] {
				continue
			}
			r.Counts["mandatory options judged"]++
			if len(st.Marks("given:"+f.name)) == 0 {
				good = false
				bad("argument-missing:"+f.name, "%s can end with status 0 although the mandatory option -%s may not have been given", spec.pkg, f.name)
			}
		}
		for i, s := range spec.steps {
			c := conN(x, i)
			if s.worker {
				ok := false
				for _, m := range st.Marks("done") {
					ok = ok || m.T[0] == c
				}
				if !ok {
					good = false
					bad("step:"+s.name, "%s can end with status 0 without the %s", spec.pkg, s.name)
				}
				continue
			}
			ok, why := false, "was not attempted"
			for _, m := range st.Marks("tried") {
				if m.T[0] != c {
					continue
				}
				if x.KnownNil(st, m.T[1]) {
					ok = true
				} else {
					why = "at " + m.Pos + " may have failed"
				}
			}
			if !ok {
				good = false
				bad("step:"+s.name, "%s can end with status 0 although the %s %s", spec.pkg, s.name, why)
			}
		}
		for _, m := range st.Marks("pend") {
			good = false
			bad("worker-not-awaited", "%s can end with status 0 while the worker started at %s may still be running", spec.pkg, m.Pos)
		}
		if len(st.Marks("joined")) > 0 {
			ok := false
			for _, m := range st.Marks("settled") {
				if m.T[0].Op == "true" || x.KnownNil(st, m.T[0]) {
					ok = true
				}
			}
			if !ok {
				good = false
				bad("interrupted", "%s can end with status 0 although its workers may have stopped early because it was interrupted", spec.pkg)
			}
		}
		for _, k := range []string{"chk", "bad"} {
			for _, m := range st.Marks(k) {
				good = false
				bad("failed-step", "%s can end with status 0 although the error of the %s at %s is not known to be nil", spec.pkg, whatOf(m), m.Pos)
			}
		}
		if spec.pkg == "cmd/get-mozilla-issuers" && len(st.Marks("output")) == 0 {
			good = false
			bad("no-output", "%s can end with status 0 without having written its output", spec.pkg)
		}
		if good {
			r.Check(true, st, "zero-exit", pos, "")
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) { judge(x, st, p.PosStr(root.Pos())) }
	rule.OnAbort = func(x *Exec, st *State, ci *CallInfo) {
		if exitZero(ci) {
			judge(x, st, ci.Pos)
		}
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(root)
	r.Absorb(x)
	for _, b := range sortedFns(bodies) {
		leavesLast(p, r, b)
	}
	exitElsewhere(p, r, spec, root, inPkg, syncR)
}

// flagGiven: the value of the option is known to differ from its placeholder.
func flagGiven(x *Exec, st *State, f cmdFlag) bool {
	for fact, v := range st.facts {
		if v || fact.Op != "same" && fact.Op != "eq" || len(fact.Args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := fact.Args[i], fact.Args[1-i]
			if b.Op != "const" || strings.Trim(b.Key, `"`) != f.def {
				continue
			}
			is := func(u *Term) bool { return u.Op == "global" && u.Key == f.global }
			if a.HasSub(is) {
				return true
			}
			// an element of a list of options
			for _, e := range a.FindSub(func(u *Term) bool { return u.Op == "indexaddr" }) {
				for k, v := range st.heap {
					if k.Contains(e.Args[0]) && v != nil && v.HasSub(is) {
						return true
					}
				}
			}
		}
	}
	return false
}

// exitElsewhere: goroutines (signal handlers) and workers do not end the
// program with status 0.
func exitElsewhere(p *Program, r *Result, spec exitSpec, root *ssa.Function, inPkg func(*ssa.Function) bool, syncR map[*ssa.Function]bool) {
	reach := p.Graph().Reach(root)
	for _, f := range sortedFns(reach) {
		if syncR[f] && f.Parent() == nil && inPkg(f) {
			continue // followed above
		}
		if syncR[f] && inPkg(f) && !goStarted(p)[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil || fname(c.Common().StaticCallee()) != "os.Exit" {
					continue
				}
				k, ok := c.Common().Args[0].(*ssa.Const)
				r.Counts["exits outside the main goroutine"]++
				r.Check(ok && k.Int64() != 0, nil, "exit-elsewhere", p.PosStr(in.Pos()), "%s, reachable from %s, may end the program with status 0", fname(f), spec.pkg)
			}
		}
	}
}

// leavesLast: a worker that has left its wait group writes nothing any more.
func leavesLast(p *Program, r *Result, body *ssa.Function) {
	g := p.Graph()
	writes := func(f *ssa.Function) bool {
		return g.has(f, "os.Create|os.OpenFile|"+renameioPkg+".TempFile|os.WriteFile|io/ioutil.WriteFile|).Flush|).WriteString|).WriteByte|(*os.File).Write")
	}
	const done = "(*sync.WaitGroup).Done"
	byName := map[string]*ssa.Function{}
	for _, f := range p.Funcs {
		byName[fname(f)] = f
	}
	rule := &Rule{PureFn: pureTypes, NoContrib: true, NoChanVals: true, WidenAt: 1}
	rule.GoMode = func(*CallInfo) int { return GoSkip }
	rule.OpaqueFn = func(n string) bool {
		f := byName[n]
		return f == nil || f != body && !g.has(f, done)
	}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		if ci.Name == done {
			r.Counts["departures of workers"]++
			st.AddMark("left", ci.Pos)
			return
		}
		if !st.HasMark("left") {
			return
		}
		w := isCreate(ci.Name) || isOneShotWrite(ci.Name) || isWriter(ci.Name) || strings.HasSuffix(ci.Name, ").Flush") && !strings.HasPrefix(ci.Name, "github.com/golang/glog")
		if ci.Fn != nil && moduleFn(ci.Fn) && !ci.Inl {
			w = w || writes(ci.Fn)
		}
		r.Check(!w, st, "left-too-early", ci.Pos, "the worker %s calls %s after it has left its wait group", fname(body), shortCallee(ci.Name))
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(body)
	r.Absorb(x)
}

// countIsPositive: Init cannot end with a number of threads below one.
func countIsPositive(p *Program) bool {
	f := p.Fn(initName)
	if f == nil || f.Blocks == nil {
		return false
	}
	readers := map[string]*readerP{}
	for _, q := range confReaders(p) {
		readers[fname(q)] = readerParams(q)
	}
	rule := &Rule{KeepFact: keepAll, ExactInts: true, NoContrib: true}
	rule.OpaqueFn = func(n string) bool { return readers[n] != nil }
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		if q := readers[ci.Name]; q != nil {
			t := strip(ci.Arg(q.ptr))
			if t.Op == "deref" && t.Args[0].Op == "fieldaddr" && fieldName(t.Args[0].Key) == "NumThreads" {
				st.AddMark("count", "", t)
			}
		}
	}
	ok, n := true, 0
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		good := false
		for _, m := range st.Marks("count") {
			cur := x.load(st, m.T[0], types.Typ[types.Int])
			v, known := x.Truth(st, x.compare(token.GEQ, cur, x.tt.intc(1), types.Typ[types.Int]))
			good = known && v
		}
		n++
		ok = ok && good
	}
	x := NewExec(p, "C27", rule)
	x.Run(f)
	return ok && n > 0
}
