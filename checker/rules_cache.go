package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C42"] = checkC42 }

// ---- C42: operations of the cache -------------------------------------------

// exactArg: the argument is this value (or the only element of the variadic
// list) and not something computed from it.
func exactArg(t, p *Term) bool {
	for i := 0; t != nil && i < 6; i++ {
		t = strip(t)
		if t == p {
			return true
		}
		if (t.Op == "vararg" || t.Op == "list") && len(t.Args) == 1 {
			t = t.Args[0]
			continue
		}
		return false
	}
	return false
}

type cacheOp struct {
	method string
	ops    []string
	key    bool // parameter 1 is the key of the command
	val    bool // parameter 2 is the value of the command
	result string
}

var cacheOps = []cacheOp{
	{"Exists", []string{"Exists"}, true, false, "positive"},
	{"SetInsert", []string{"SAdd"}, true, true, "positive"},
	{"SetContains", []string{"SIsMember"}, true, true, "bool"},
	{"SetList", []string{"SMembers"}, true, false, "whole"},
	{"SetCardinality", []string{"SCard"}, true, false, "whole"},
	{"ExpireAt", []string{"ExpireAt", "PExpireAt"}, true, true, ""},
	{"StoreLogState", []string{"Set"}, false, false, ""},
	{"NextEpoch", []string{"Incr", "IncrBy"}, false, false, ""},
	{"GetEpoch", []string{"Get"}, false, false, "number"},
	{"LoadLogState", []string{"Get"}, false, false, "decoded"},
}

func checkC42(p *Program, tier string) *Result {
	r := NewResult("C42", "each single-key operation of the Redis cache issues its command for exactly the key and value it was given, gives the command's own answer, and returns a nil error only if the command is known to have succeeded; SetRemove covers its whole list; scans deliver every element, always close their channel, and no consumer of a scan uses its result before the outcome of the scan is known")
	for _, s := range cacheOps {
		f := p.Fn("(*storage.RedisCache)." + s.method)
		if f == nil {
			r.Bad("missing: "+s.method, "-", "(*RedisCache).%s not found", s.method)
			continue
		}
		checkCacheOp(p, r, f, s)
	}
	checkSetRemove(p, r)
	for _, m := range []string{"SetToChan", "KeysToChan"} {
		checkScan(p, r, m)
	}
	checkScanUse(p, r, nil)
	checkStatesRead(p, r)
	r.NeedAtLeast(10, "operations checked")
	r.NeedAtLeast(2, "scans checked")
	r.NeedAtLeast(3, "uses of scans")
	return r
}

func checkCacheOp(p *Program, r *Result, f *ssa.Function, s cacheOp) {
	rule := &Rule{PureFn: pureTypes}
	rule.KeepFact = func(st *State, t *Term) bool { return true }
	isOp := func(op string) bool {
		for _, o := range s.ops {
			if o == op {
				return true
			}
		}
		return false
	}
	at := "go/storage " + s.method
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		op := redisOp(ci.Name)
		if op == "" {
			return
		}
		if !isOp(op) {
			r.Check(!redisMutates(op), st, "unexpected-change", ci.Pos, "%s does %s", s.method, op)
			return
		}
		if s.key {
			r.Check(exactArg(ci.Arg(1), x.Params[1]), st, "wrong-key", ci.Pos, "%s issues %s for something else than the given key", s.method, op)
		}
		if s.val {
			r.Check(exactArg(ci.Arg(2), x.Params[2]), st, "wrong-value", ci.Pos, "%s issues %s with something else than the given value", s.method, op)
		}
		if s.method == "StoreLogState" {
			ok := false
			for t := range reachTerms(x, st, ci.Arg(2)) {
				ok = ok || t.Op == "call" && strings.HasPrefix(t.Key, "encoding/json.Marshal") && len(t.Args) > 0 && strip(t.Args[0]) == x.Params[1]
			}
			r.Check(ok, st, "wrong-value", ci.Pos, "the value stored is not the encoding of the given log state")
			d, known := ci.Arg(3).IntConst()
			r.Check(known && d == 0, st, "state-expires", ci.Pos, "a log state is stored with an expiry")
		}
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if ci.Inl {
			return
		}
		if op := redisOp(ci.Name); isOp(op) {
			st.AddMark("issued", ci.Pos, res)
			return
		}
		if isCmdResult(ci.Name) {
			for _, m := range st.Marks("issued") {
				if ci.Arg(0).Contains(m.T[0]) {
					e := x.ErrOf(ci, res)
					if e != nil {
						st.AddMark("cmderr", ci.Pos, m.T[0], e)
					}
					if !strings.HasSuffix(ci.Name, ").Err") {
						v := res
						if e != nil {
							v = x.ResultOf(ci, res, 0)
						}
						st.AddMark("cmdval", ci.Pos, m.T[0], v)
					}
				}
			}
		}
		switch {
		case strings.HasPrefix(ci.Name, "encoding/json."), strings.HasPrefix(ci.Name, "strconv.Parse"), ci.Name == "strconv.Atoi":
			addChk(x, st, x.tt.nilT(), x.ErrOf(ci, res), ci.Pos, "decoding or encoding")
			if strings.HasPrefix(ci.Name, "strconv.") {
				st.AddMark("parsed", ci.Pos, ci.Arg(0), x.ResultOf(ci, res, 0), x.ErrOf(ci, res))
			}
			if ci.Name == "encoding/json.Unmarshal" {
				st.AddMark("decoded", ci.Pos, ci.Arg(0), ci.Arg(1))
			}
		}
	}
	absent := func(st *State) bool {
		for t, v := range st.facts {
			if v && (t.Op == "same" || t.Op == "call" && t.Key == "errors.Is") && strings.Contains(t.fullString(), `"redis: nil"`) {
				return true
			}
		}
		return false
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		e := res[len(res)-1]
		if x.KnownNonNil(st, e) {
			return
		}
		issued := st.Marks("issued")
		if !r.Check(len(issued) > 0, st, "nothing-done", at, "%s may return success without having issued its command", s.method) {
			return
		}
		r.Counts["successful returns"]++
		if s.method == "GetEpoch" && absent(st) {
			n, ok := res[0].IntConst()
			r.Check(ok && n == 0, st, "wrong-answer", at, "the epoch of an empty cache is not given as 0")
			return
		}
		for _, m := range issued {
			ok, seen := false, false
			for _, c := range st.Marks("cmderr") {
				if c.T[0] != m.T[0] {
					continue
				}
				seen = true
				ok = ok || c.T[1] == e || x.KnownNil(st, c.T[1]) || absorbs(e, c.T[1])
			}
			if s.method == "GetEpoch" && !ok {
				for _, c := range st.Marks("parsed") {
					// an empty answer does not parse
					ok = ok || c.T[2] == e && seen && false
				}
			}
			r.Check(ok, st, "failure-not-reported", m.Pos, "%s may return a nil error although its command failed%s", s.method, map[bool]string{true: "", false: " (its outcome is not asked for)"}[seen])
		}
		pruneChk(x, st)
		for _, m := range append(st.Marks("chk"), st.Marks("bad")...) {
			r.Check(m.Kind == "chk" && m.T[1] == e, st, "failure-not-reported", m.Pos, "%s may return a nil error although %s failed", s.method, whatOf(m))
		}
		var vals []*Term
		for _, c := range st.Marks("cmdval") {
			vals = append(vals, c.T[1])
		}
		switch s.result {
		case "bool":
			ok := false
			for _, v := range vals {
				ok = ok || v == res[0]
				if tv, k := x.Truth(st, v); k {
					if t2, k2 := x.Truth(st, res[0]); k2 && t2 == tv {
						ok = true
					}
				}
			}
			r.Check(ok, st, "wrong-answer", at, "%s does not give the answer of the command", s.method)
		case "whole":
			ok := false
			for _, v := range vals {
				ok = ok || strip(res[0]) == v || isConv(res[0], v)
			}
			r.Check(ok, st, "wrong-answer", at, "%s does not give the answer of the command", s.method)
		case "positive":
			for _, v := range vals {
				for n := int64(0); n < 2; n++ {
					s2 := st.clone()
					if !x.Assume(s2, x.compare(token.EQL, v, x.tt.intc(n), types.Typ[types.Int64]), true) {
						continue
					}
					tv, k := x.Truth(s2, res[0])
					r.Check(k && tv == (n == 1), st, "wrong-answer", at, "%s gives the wrong answer if the command counts %d", s.method, n)
				}
			}
			r.Check(len(vals) > 0, st, "wrong-answer", at, "%s does not use the answer of the command", s.method)
		case "number":
			ok := false
			for _, c := range st.Marks("parsed") {
				fromCmd := false
				for _, v := range vals {
					fromCmd = fromCmd || c.T[0].Contains(v)
				}
				ok = ok || fromCmd && (res[0] == c.T[1] || isConv(res[0], c.T[1]))
			}
			for _, v := range vals {
				ok = ok || res[0] == v || isConv(res[0], v)
			}
			r.Check(ok, st, "wrong-answer", at, "%s does not give the number that is stored", s.method)
		case "decoded":
			ok := false
			for _, c := range st.Marks("decoded") {
				for _, v := range vals {
					ok = ok || c.T[0].Contains(v) && (strip(c.T[1]) == strip(res[0]) || reachTerms(x, st, res[0])[strip(c.T[1])])
				}
			}
			r.Check(ok, st, "wrong-answer", at, "%s does not give the state that is stored", s.method)
		}
	}
	x := NewExec(p, "C42", rule)
	x.Run(f)
	r.Absorb(x)
	r.Counts["operations checked"]++
}

// absorbs: an error made from another one (nil only if that one is).
func absorbs(e, c *Term) bool {
	return e != nil && e.Op == "call" && e.Key == "errors.Join" && e.Contains(c)
}

func isConv(t, v *Term) bool {
	for i := 0; t != nil && i < 4; i++ {
		if t == v {
			return true
		}
		if (t.Op == "conv" || t.Op == "convert" || t.Op == "pure" && strings.HasPrefix(t.Key, "conv")) && len(t.Args) > 0 {
			t = t.Args[0]
			continue
		}
		return false
	}
	return false
}

// SetRemove hands every entry to the backend.
func checkSetRemove(p *Program, r *Result) {
	f := p.Fn("(*storage.RedisCache).SetRemove")
	if f == nil {
		r.Bad("missing: SetRemove", "-", "(*RedisCache).SetRemove not found")
		return
	}
	at := "go/storage SetRemove"
	rule := &Rule{PureFn: pureTypes, RunOnce: func(n string) bool {
		return strings.HasSuffix(n, ").Pipelined") || strings.HasSuffix(n, ").TxPipelined")
	}}
	rule.KeepFact = func(st *State, t *Term) bool { return true }
	rule.OnBlock = func(x *Exec, st *State, _ *ssa.BasicBlock) { pruneChk(x, st) }
	grp := func(x *Exec) *Term { return x.tt.mk("const", "rem", 0, nil) }
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		lk := loopKey(x, in)
		for _, m := range st.Marks("open") {
			if m.T[0] == lk {
				st.DelMarks("open", func(o Mark) bool { return o.T[0] == lk })
				st.AddMark("skipped", m.Pos)
			}
		}
		if coll == x.Params[2] && more {
			st.AddMark("open", x.pos(in), lk)
		}
	}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		op := redisOp(ci.Name)
		if op == "" {
			return
		}
		if op != "SRem" {
			r.Check(!redisMutates(op) || op == "Exec", st, "unexpected-change", ci.Pos, "SetRemove does %s", op)
			return
		}
		r.Counts["removals"]++
		r.Check(exactArg(ci.Arg(1), x.Params[1]), st, "wrong-key", ci.Pos, "entries are removed from another key than the given one")
		from := false
		for t := range reachTerms(x, st, ci.Arg(2)) {
			from = from || t.Contains(x.Params[2]) || t.HasSub(func(u *Term) bool { return u.Op == "phi" && isSliceTerm(u) })
		}
		r.Check(from, st, "wrong-value", ci.Pos, "something else than the given entries is removed")
		st.AddMark("issued", ci.Pos)
		st.DelMarks("open", nil)
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if ci.Inl {
			return
		}
		switch op := redisOp(ci.Name); op {
		case "SRem":
			if !strings.Contains(ci.Name, "Pipeline") {
				st.AddMark("chkcmd", ci.Pos, res)
			}
		case "Exec", "Pipelined", "TxPipelined":
			addChk(x, st, grp(x), x.ErrOf(ci, res), ci.Pos, "removal")
		}
		if isCmdResult(ci.Name) {
			if e := x.ErrOf(ci, res); e != nil {
				for _, m := range st.Marks("chkcmd") {
					if ci.Arg(0).Contains(m.T[0]) {
						mm := m
						st.DelMarks("chkcmd", func(o Mark) bool { return o.key() == mm.key() })
						addChk(x, st, grp(x), e, m.Pos, "removal")
					}
				}
			}
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		e := res[len(res)-1]
		if x.KnownNonNil(st, e) {
			return
		}
		pruneChk(x, st)
		for _, m := range append(st.Marks("chk"), st.Marks("bad")...) {
			r.Check(m.Kind == "chk" && m.T[1] == e, st, "failure-not-reported", m.Pos, "SetRemove may return a nil error although a %s failed", whatOf(m))
		}
		for _, m := range st.Marks("chkcmd") {
			r.Check(false, st, "failure-not-reported", m.Pos, "SetRemove may return a nil error although a removal failed (its outcome is not asked for)")
		}
		for _, m := range st.Marks("skipped") {
			r.Check(false, st, "entry-left", m.Pos, "SetRemove may pass over an entry")
		}
		r.Counts["successful returns"]++
		if !st.HasMark("issued") {
			asked := false
			for t := range st.facts {
				asked = asked || t.Contains(x.Params[2])
			}
			r.Check(asked, st, "nothing-done", at, "SetRemove may return success without having removed anything from a list that is not empty")
		}
	}
	x := NewExec(p, "C42", rule)
	x.Run(f)
	r.Absorb(x)
	// the pieces it is done in
	todo := []*ssa.Function{f}
	for g := range p.Graph().Reach(f) {
		if moduleFn(g) && g != f {
			todo = append(todo, g)
		}
	}
	for _, g := range todo {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				hasSRem := c.Common().IsInvoke() && c.Common().Method.Name() == "SRem"
				if s := c.Common().StaticCallee(); s != nil {
					hasSRem = hasSRem || redisOp(fname(s)) == "SRem" || moduleFn(s) && p.Graph().has(s, "(*github.com/go-redis/redis.cmdable).SRem")
				}
				if !hasSRem {
					continue
				}
				if h := innermost(b); h != nil {
					if at := leftEarly(h, naturalLoop(h)); at.IsValid() {
						r.Check(false, nil, "entry-left", p.PosStr(at), "the loop that removes the entries is left before it has run through the list")
					}
				}
				for _, sl := range slicesIn(c) {
					msg, whole, _ := sliceUse(sl)
					if whole {
						r.Counts["piecewise lists covered"]++
					}
					r.Check(msg == "", nil, "entry-left", p.PosStr(sl.Pos()), "the entries are removed piece by piece and %s", msg)
				}
			}
		}
	}
	r.NeedAtLeast(1, "removals")
	r.Counts["operations checked"]++
}

// slicesIn gives the slice expressions over lists of strings in the arguments.
func slicesIn(c ssa.CallInstruction) []*ssa.Slice {
	var r []*ssa.Slice
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if d > 6 || v == nil {
			return
		}
		switch v := v.(type) {
		case *ssa.MakeInterface:
			walk(v.X, d+1)
		case *ssa.ChangeType:
			walk(v.X, d+1)
		case *ssa.Slice:
			if a, ok := v.X.(*ssa.Alloc); ok {
				// the list made for a variadic call
				for _, ref := range *a.Referrers() {
					if ia, ok := ref.(*ssa.IndexAddr); ok {
						for _, rr := range *ia.Referrers() {
							if st, ok := rr.(*ssa.Store); ok && st.Addr == ia {
								walk(st.Val, d+1)
							}
						}
					}
				}
				return
			}
			if s, ok := v.X.Type().Underlying().(*types.Slice); ok {
				if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					r = append(r, v)
				}
			}
		case *ssa.UnOp:
			if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
				for _, ref := range *a.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
						walk(st.Val, d+1)
					}
				}
			}
		}
	}
	for _, a := range c.Common().Args {
		walk(a, 0)
	}
	return r
}

const (
	iterRecv = "(*github.com/go-redis/redis.ScanIterator)."
)

// A scan sends every element, closes its channel on every exit and reports
// the failure of the scan.
func checkScan(p *Program, r *Result, name string) {
	f := p.Fn("(*storage.RedisCache)." + name)
	if f == nil {
		r.Bad("missing: "+name, "-", "(*RedisCache).%s not found", name)
		return
	}
	at := "go/storage " + name
	rule := &Rule{PureFn: pureTypes}
	rule.KeepFact = func(st *State, t *Term) bool { return true }
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		switch op := redisOp(ci.Name); op {
		case "":
		case "SScan", "SMembers":
			r.Check(exactArg(ci.Arg(1), x.Params[1]), st, "wrong-key", ci.Pos, "%s reads another key than the given one", name)
			if op == "SScan" {
				checkScanStart(x, st, r, ci, 2)
				m, _ := strConst(ci.Arg(3))
				r.Check(m == "" || m == "*", st, "scan-filtered", ci.Pos, "%s reads only some of the elements", name)
			}
		case "Scan":
			checkScanStart(x, st, r, ci, 1)
			r.Check(exactArg(ci.Arg(2), x.Params[1]), st, "wrong-key", ci.Pos, "%s scans for another pattern than the given one", name)
		case "Keys":
			r.Check(exactArg(ci.Arg(1), x.Params[1]), st, "wrong-key", ci.Pos, "%s lists another pattern than the given one", name)
		default:
			r.Check(!redisMutates(op), st, "unexpected-change", ci.Pos, "%s does %s", name, op)
		}
		switch {
		case ci.Name == iterRecv+"Next":
			for _, m := range st.Marks("pending") {
				r.Check(false, st, "element-skipped", m.Pos, "%s may pass over an element", name)
			}
			st.DelMarks("iterok", nil)
		case ci.Name == "builtin.close" && ci.Arg(0) == x.Params[2]:
			st.AddMark("closed", ci.Pos)
		}
	}
	rule.OnBranch = func(x *Exec, st *State, in *ssa.If, cond *Term, taken bool) {
		for _, m := range st.Marks("next") {
			if cond == m.T[0] {
				st.DelMarks("next", nil)
				if taken {
					st.AddMark("pending", m.Pos)
				} else {
					st.AddMark("ended", m.Pos)
				}
			}
		}
		// an element seen before
		if cond.HasSub(func(u *Term) bool { return u.Op == "pure" && u.Key == "lookup" }) && cond.HasSub(func(u *Term) bool { return callTerm(u, "ScanIterator).Val") }) {
			st.DelMarks("pending", nil)
		}
	}
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		if !coll.HasSub(func(u *Term) bool { return callTerm(u, "StringSliceCmd).Result") || callTerm(u, "StringSliceCmd).Val") }) {
			return
		}
		for _, m := range st.Marks("pending") {
			r.Check(false, st, "element-skipped", m.Pos, "%s may pass over an element", name)
		}
		if more {
			st.AddMark("pending", x.pos(in))
		} else {
			st.AddMark("ended", x.pos(in))
			st.AddMark("iterok", x.pos(in))
		}
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if ci.Inl {
			return
		}
		if op := redisOp(ci.Name); op == "SScan" || op == "Scan" || op == "SMembers" || op == "Keys" {
			st.AddMark("scan", ci.Pos, res)
		}
		switch {
		case ci.Name == iterRecv+"Next":
			st.AddMark("next", ci.Pos, res)
		case ci.Name == iterRecv+"Err":
			if st.HasMark("ended") {
				st.AddMark("lateerr", ci.Pos, res)
			}
		case isCmdResult(ci.Name):
			if e := x.ErrOf(ci, res); e != nil && st.HasMark("scan") {
				st.AddMark("scanerr", ci.Pos, e)
			}
		}
	}
	rule.OnSend = func(x *Exec, st *State, ch, v *Term, in ssa.Instruction, insel bool) {
		if ch == x.Params[2] {
			r.Counts["elements sent"]++
			st.DelMarks("pending", nil)
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		r.Check(st.HasMark("closed"), st, "channel-left-open", at, "%s may return without closing its channel, which leaves its reader waiting", name)
		e := res[len(res)-1]
		if x.KnownNonNil(st, e) {
			return
		}
		for _, m := range st.Marks("scanerr") {
			if m.T[0] == e && !st.HasMark("ended") {
				return
			}
		}
		r.Counts["successful returns"]++
		for _, m := range st.Marks("pending") {
			r.Check(false, st, "element-skipped", m.Pos, "%s may return success without having delivered an element", name)
		}
		ok := st.HasMark("iterok")
		for _, m := range st.Marks("lateerr") {
			ok = ok || m.T[0] == e || x.KnownNil(st, m.T[0])
		}
		r.Check(ok && st.HasMark("ended"), st, "failure-not-reported", at, "%s may return success although the scan failed before its end", name)
	}
	x := NewExec(p, "C42", rule)
	x.Run(f)
	r.Absorb(x)
	r.Counts["scans checked"]++
}

func checkScanStart(x *Exec, st *State, r *Result, ci *CallInfo, i int) {
	n, ok := ci.Arg(i).IntConst()
	r.Check(ok && n == 0, st, "scan-start", ci.Pos, "the scan does not start at the beginning")
}

func isScanCall(n string) bool {
	switch n {
	case cacheKeys, cacheList, "(*storage.RedisCache).KeysToChan", "(*storage.RedisCache).SetToChan":
		return true
	}
	return false
}

// checkScanUse: whoever reads the channel of a scan waits for the outcome of
// the scan before it goes on, as the channel is closed on failure too.
func checkScanUse(p *Program, r *Result, within map[*ssa.Function]bool) {
	roots := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if within != nil && !within[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !isScanCall(calleeShort(c)) {
					continue
				}
				g := f
				for g.Parent() != nil {
					g = g.Parent()
				}
				if moduleFn(g) && !strings.Contains(fname(g), "MockRemoteCache") {
					roots[g] = true
				}
			}
		}
	}
	for f := range roots {
		rule := &Rule{PureFn: pureTypes, OpaqueFn: isScanCall}
		rule.KeepFact = func(st *State, t *Term) bool { return true }
		rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			if isScanCall(ci.Name) && !ci.Inl {
				st.AddMark("scanned", ci.Pos, x.ErrOf(ci, res))
			}
		}
		rule.OnAbort = func(x *Exec, st *State, ci *CallInfo) {
			if !x.cur.top().ctx.goes {
				return
			}
			for _, m := range st.Marks("scanned") {
				r.Check(!x.KnownNonNil(st, m.T[0]), st, "scan-failure-late", ci.Pos, "the failure of the scan at %s is acted on in another goroutine, after the scan has closed its channel: the reader may go on with an incomplete list", m.Pos)
			}
		}
		name := fname(f)
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			var e *Term
			if len(res) > 0 {
				if sig := f.Signature.Results(); isErrorType(sig.At(sig.Len() - 1).Type()) {
					e = res[len(res)-1]
				}
			}
			if e != nil && x.KnownNonNil(st, e) {
				return
			}
			for _, m := range st.Marks("scanned") {
				r.Check(x.KnownNil(st, m.T[0]) || m.T[0] == e, st, "scan-failure-ignored", m.Pos, "%s may use the result of a scan that failed", name)
			}
			r.Counts["ends of scan uses"]++
		}
		x := NewExec(p, r.Prop, rule)
		x.Run(f)
		r.Absorb(x)
		r.Counts["uses of scans"]++
	}
}

func calleeShort(c ssa.CallInstruction) string {
	com := c.Common()
	if com.IsInvoke() {
		return "(" + shortName(types.TypeString(com.Value.Type(), nil)) + ")." + com.Method.Name()
	}
	if s := com.StaticCallee(); s != nil {
		return fname(s)
	}
	return ""
}

// LoadAllLogStates gives the decoded state of every log key, or an error.
func checkStatesRead(p *Program, r *Result) {
	f := p.Fn("(*storage.RedisCache).LoadAllLogStates")
	if f == nil {
		r.Bad("missing: LoadAllLogStates", "-", "(*RedisCache).LoadAllLogStates not found")
		return
	}
	at := "go/storage LoadAllLogStates"
	rule := &Rule{PureFn: pureTypes, OpaqueFn: isScanCall}
	rule.OnBlock = func(x *Exec, st *State, _ *ssa.BasicBlock) { pruneChk(x, st) }
	grp := func(x *Exec) *Term { return x.tt.mk("const", "states", 0, nil) }
	isGet := func(t *Term) bool {
		return t.HasSub(func(u *Term) bool { return callTerm(u, ".cmdable).Get") || callTerm(u, ".Client).Get") })
	}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		op := redisOp(ci.Name)
		r.Check(!redisMutates(op), st, "unexpected-change", ci.Pos, "LoadAllLogStates does %s", op)
	}
	rule.OnRecv = func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, insel bool) {
		if e := ch.chanElem(); e == nil || !isStringType(e) {
			return
		}
		st.AddMark("recvd", x.pos(in), val)
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if ci.Inl {
			return
		}
		switch {
		case isCmdResult(ci.Name) && isGet(ci.Arg(0)):
			if e := x.ErrOf(ci, res); e != nil {
				addChk(x, st, grp(x), e, ci.Pos, "reading a log state")
			}
			r.Counts["states read"]++
		case ci.Name == "encoding/json.Unmarshal":
			r.Check(isGet(ci.Arg(0)), st, "wrong-answer", ci.Pos, "a log state is decoded from something else than the value of its key")
			addChk(x, st, grp(x), x.ErrOf(ci, res), ci.Pos, "decoding a log state")
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		e := res[len(res)-1]
		if x.KnownNonNil(st, e) {
			return
		}
		pruneChk(x, st)
		for _, m := range append(st.Marks("chk"), st.Marks("bad")...) {
			r.Check(m.Kind == "chk" && m.T[1] == e, st, "failure-not-reported", m.Pos, "LoadAllLogStates may return a nil error although %s failed", whatOf(m))
		}
		r.Counts["successful returns"]++
	}
	x := NewExec(p, "C42", rule)
	x.Run(f)
	r.Absorb(x)
	r.NeedAtLeast(1, "states read")
	_ = at
}
