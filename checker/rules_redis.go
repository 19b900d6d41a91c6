package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the Redis cache: C08, C10, C28, C29.

func init() {
	checks["C08"] = checkC08
	checks["C10"] = checkC10
	checks["C28"] = checkC28
	checks["C29"] = checkC29
}

var redisRecv = []string{"(*github.com/go-redis/redis.cmdable).", "(*github.com/go-redis/redis.Client).", "(github.com/go-redis/redis.Pipeliner).",
	"(*github.com/go-redis/redis.Pipeline).", "(github.com/go-redis/redis.Cmdable).", "(*github.com/go-redis/redis.baseClient).",
	"(*github.com/go-redis/redis.statefulCmdable).", "(github.com/go-redis/redis.UniversalClient).", "(*github.com/go-redis/redis.Tx)."}

func redisOp(n string) string {
	for _, p := range redisRecv {
		if strings.HasPrefix(n, p) {
			return n[len(p):]
		}
	}
	return ""
}

func redisMutates(op string) bool {
	switch op {
	case "Set", "SetNX", "SetXX", "Del", "Unlink", "Incr", "IncrBy", "Decr", "DecrBy", "GetSet", "Append", "Expire", "ExpireAt", "PExpire", "PExpireAt", "Persist",
		"Rename", "RenameNX", "SAdd", "SRem", "SPop", "SMove", "MSet", "MSetNX", "FlushAll", "FlushDB", "Restore", "RestoreReplace", "HSet", "HDel", "LPush", "RPush", "Eval", "EvalSha", "SetRange", "Move", "SUnionStore", "SInterStore", "SDiffStore", "ZAdd", "Migrate":
		return true
	}
	return false
}

// cmdResult recognises the methods that give the outcome of a command.
func isCmdResult(n string) bool {
	return strings.HasPrefix(n, "(*github.com/go-redis/redis.") && (strings.HasSuffix(n, "Cmd).Result") || strings.HasSuffix(n, "Cmd).Err") || strings.HasSuffix(n, "Cmd).Bytes") ||
		strings.HasSuffix(n, "Cmd).Int64") || strings.HasSuffix(n, "Cmd).Uint64") || strings.HasSuffix(n, "Cmd).Val") || strings.HasSuffix(n, "Cmd).Int") || strings.HasSuffix(n, "Cmd).Scan"))
}

// redisCmds follows commands: cmd(op, cmd, key) and cerr(cmd, err).
type redisCmds struct{}

func (redisCmds) onRet(x *Exec, st *State, ci *CallInfo, res *Term) {
	if ci.Inl {
		return
	}
	if op := redisOp(ci.Name); op != "" {
		k := ci.Arg(1)
		st.AddMark("cmd", ci.Pos, x.tt.mk("const", op, 0, nil), res, k)
		return
	}
	if isCmdResult(ci.Name) {
		for _, m := range st.Marks("cmd") {
			if ci.Arg(0).Contains(m.T[1]) {
				if e := x.ErrOf(ci, res); e != nil {
					st.AddMark("cerr", ci.Pos, m.T[1], e)
				}
			}
		}
	}
}

func cmdOK(x *Exec, st *State, cmd *Term) bool {
	for _, e := range st.Marks("cerr") {
		if e.T[0] == cmd && x.KnownNil(st, e.T[1]) {
			return true
		}
	}
	return false
}

// prune forgets commands known to have succeeded and remembers failed ones.
func (redisCmds) prune(x *Exec, st *State) {
	for _, m := range st.Marks("cmd") {
		if !redisMutates(m.T[0].Key) || m.T[0].Key == "SetNX" {
			continue
		}
		if cmdOK(x, st, m.T[1]) {
			mm := m
			st.DelMarks("cmd", func(o Mark) bool { return o.key() == mm.key() })
			st.DelMarks("cerr", func(o Mark) bool { return o.T[0] == mm.T[1] })
			st.AddMark("okcmd:"+m.T[0].Key, m.Pos, m.T[2])
		}
	}
}

func strConst(t *Term) (string, bool) {
	t = strip(t)
	if t == nil || t.Op != "const" || !strings.HasPrefix(t.Key, `"`) {
		return "", false
	}
	s, err := strconv.Unquote(t.Key)
	if err != nil {
		return "", false
	}
	return s, true
}

// constPrefix is the constant text a string begins with.
func constPrefix(t *Term) string {
	t = strip(t)
	if t == nil {
		return ""
	}
	if s, ok := strConst(t); ok {
		return s
	}
	switch {
	case t.Op == "binop" && t.Key == "+":
		if s, ok := strConst(t.Args[0]); ok {
			return s + constPrefix(t.Args[1])
		}
		return constPrefix(t.Args[0])
	case t.Op == "pure" && t.Key == "fmt.Sprintf":
		if s, ok := strConst(t.Args[0]); ok {
			if i := strings.IndexByte(s, '%'); i >= 0 {
				if i == 0 && len(t.Args) > 1 && t.Args[1] != nil && t.Args[1].Op == "vararg" && len(t.Args[1].Args) > 0 {
					return constPrefix(t.Args[1].Args[0])
				}
				return s[:i]
			}
			return s
		}
	case t.Op == "conv", t.Op == "old", t.Op == "pure" && (strings.HasPrefix(t.Key, "strings.TrimRight") || strings.HasPrefix(t.Key, "strings.TrimSuffix")):
		if len(t.Args) > 0 {
			return constPrefix(t.Args[0])
		}
	}
	return ""
}

// lockKeyOf finds the key AcquireCommitLock sets if absent.
func lockKeyOf(p *Program) string {
	f := p.Fn("(*storage.RedisCache).AcquireCommitLock")
	if f == nil {
		return ""
	}
	k := ""
	x := NewExec(p, "lockkey", &Rule{OnCall: func(x *Exec, st *State, ci *CallInfo) {
		if op := redisOp(ci.Name); op == "SetNX" {
			if s, ok := strConst(ci.Arg(1)); ok {
				k = s
			}
		}
	}})
	x.Run(f)
	return k
}

func isKey(t *Term, k string) bool {
	t = strip(t)
	if t == nil {
		return false
	}
	if t.Op == "vararg" {
		return len(t.Args) == 1 && isKey(t.Args[0], k)
	}
	s, ok := strConst(t)
	return ok && s == k
}

func checkC08(p *Program, tier string) *Result {
	r := NewResult("C08", "on every path of RedisCache.Restore each change of the cache lies between a successful set-if-absent of the lock and its release, the log-state keys listed by pattern are all deleted, then every given state is stored, then the epoch is set to the given value, each with its error known to be nil; success is returned only after that and the lock is released before every return")
	f := p.Fn("(*storage.RedisCache).Restore")
	if f == nil {
		r.Bad("missing: Restore", "-", "(*RedisCache).Restore not found")
		return r
	}
	lock := lockKeyOf(p)
	if lock == "" {
		r.Bad("missing: lock", "-", "AcquireCommitLock sets no constant key with SetNX")
		return r
	}
	var rc redisCmds
	rule := &Rule{PureFn: pureTypes}
	grp := func(x *Exec, s string) *Term { return x.tt.mk("const", s, 0, nil) }
	lockFact := func(x *Exec, st *State) {
		if st.HasMark("locked") {
			return
		}
		for _, m := range st.Marks("nx") {
			if !x.KnownNil(st, m.T[1]) {
				continue
			}
			if v, k := x.Truth(st, m.T[0]); k && v {
				st.AddMark("locked", m.Pos)
			}
		}
	}
	rule.OnBlock = func(x *Exec, st *State, _ *ssa.BasicBlock) { lockFact(x, st); rc.prune(x, st) }
	isLogKeySrc := func(u *Term) bool {
		return u.Op == "call" && (redisOp(u.Key) == "Keys" || redisOp(u.Key) == "Scan")
	}
	flushIter := func(x *Exec, st *State, lk *Term) {
		rc.prune(x, st)
		for _, m := range st.Marks("delit") {
			if m.T[1] == lk {
				st.DelMarks("delit", func(o Mark) bool { return o.T[1] == lk })
				st.AddMark("keptkey", m.Pos)
			}
		}
		for _, m := range st.Marks("stit") {
			if m.T[1] == lk {
				st.DelMarks("stit", func(o Mark) bool { return o.T[1] == lk })
				st.AddMark("unstored", m.Pos)
			}
		}
	}
	stateIn := func(x *Exec, t *Term) *Term {
		_ = x
		return t
	}
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		lk := loopKey(x, in)
		flushIter(x, st, lk)
		if coll == x.Params[2] {
			if more {
				st.AddMark("stit", x.pos(in), coll, lk)
			} else {
				st.AddMark("storedall", x.pos(in))
			}
			return
		}
		fromKeys := coll.HasSub(isLogKeySrc)
		if !fromKeys {
			for _, it := range flatContrib(st, coll) {
				fromKeys = fromKeys || it.t.HasSub(isLogKeySrc)
			}
			if cs := st.chans[coll]; cs != nil {
				for _, v := range cs.vals {
					fromKeys = fromKeys || v.HasSub(isLogKeySrc)
				}
			}
		}
		if !fromKeys && elem != nil && elem.HasSub(isLogKeySrc) {
			fromKeys = true
		}
		if !fromKeys {
			return
		}
		if more {
			e := elem
			if e == nil {
				e = coll
			}
			st.AddMark("delit", x.pos(in), e, lk)
		} else {
			st.AddMark("deletedall", x.pos(in))
		}
	}
	_ = stateIn
	rule.OnBranch = func(x *Exec, st *State, in *ssa.If, cond *Term, taken bool) {
		// nothing was listed, so that there is nothing to delete
		for _, l := range st.Marks("listed") {
			if v, k := x.Truth(st, x.compare(token.EQL, x.lenOf(l.T[0]), x.tt.intc(0), types.Typ[types.Int])); k && v {
				st.AddMark("deletedall", x.pos(in))
			}
		}
	}
	prefixes := map[string]string{} // constant key prefixes of stored states
	patterns := map[string]string{}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		op := redisOp(ci.Name)
		if op == "" {
			return
		}
		key := ci.Arg(1)
		if op == "Keys" || op == "Scan" {
			i := 1
			if op == "Scan" {
				i = 2
			}
			if s, ok := strConst(ci.Arg(i)); ok {
				patterns[s] = ci.Pos
			}
			return
		}
		if isKey(key, lock) {
			if op == "Del" || op == "Unlink" || op == "Eval" || op == "Get" || op == "GetSet" {
				st.AddMark("release", ci.Pos)
			}
			if op == "Del" || op == "Unlink" || op == "Set" || op == "GetSet" {
				st.AddMark("unlocked", ci.Pos)
			}
			return
		}
		if !redisMutates(op) {
			return
		}
		r.Counts["changes of the cache"]++
		lockFact(x, st)
		rc.prune(x, st)
		r.Check(st.HasMark("locked"), st, "change-without-lock", ci.Pos, "%s changes the cache although the commit lock was not found to be acquired", op)
		r.Check(!st.HasMark("unlocked"), st, "change-after-release", ci.Pos, "%s changes the cache after the lock was released", op)
		st.DelMarks("release", nil)
		r.Check(!st.HasMark("epochset"), st, "change-after-epoch", ci.Pos, "%s changes the cache after the epoch was set", op)
		if isKey(key, epochKey(p)) {
			r.Counts["epoch updates"]++
			if op != "Set" {
				r.Check(false, st, "epoch-not-given-value", ci.Pos, "the epoch is changed with %s", op)
			} else {
				r.Check(ci.Arg(2) == x.Params[1], st, "epoch-not-given-value", ci.Pos, "the epoch is set to something other than the given value")
			}
			for _, m := range st.Marks("cmd") {
				if redisMutates(m.T[0].Key) && m.T[0].Key != "SetNX" {
					r.Check(false, st, "epoch-after-failure", ci.Pos, "the epoch is set although the %s at %s may have failed", m.T[0].Key, m.Pos)
				}
			}
			for _, m := range openErrs(x, st, grp(x, "list")) {
				r.Check(false, st, "epoch-after-failure", ci.Pos, "the epoch is set although the %s at %s may have failed", whatOf(m), m.Pos)
			}
			r.Check(st.HasMark("deletedall"), st, "epoch-before-delete", ci.Pos, "the epoch is set before the log states in the cache were listed and deleted")
			r.Check(st.HasMark("storedall"), st, "epoch-before-store", ci.Pos, "the epoch is set before the given log states were stored")
			r.Check(!st.HasMark("keptkey"), st, "state-kept", ci.Pos, "the epoch is set although a listed log state was not deleted")
			r.Check(!st.HasMark("unstored"), st, "state-not-stored", ci.Pos, "the epoch is set although a given log state was not stored")
			st.AddMark("epochset", ci.Pos)
			return
		}
		switch op {
		case "Del", "Unlink":
			r.Counts["deletions"]++
			r.Check(!st.HasMark("stored1"), st, "delete-after-store", ci.Pos, "log states are deleted after given ones were stored")
			for _, m := range st.Marks("delit") {
				if key.Contains(m.T[0]) || key.HasSub(func(u *Term) bool { return u.Op == "indexaddr" && u.Args[0] == m.T[0] }) {
					mm := m
					st.DelMarks("delit", func(o Mark) bool { return o.key() == mm.key() })
				}
			}
			// the whole list at once
			if key != nil && key.Op != "vararg" && key.HasSub(isLogKeySrc) {
				st.AddMark("deletedall", ci.Pos)
			}
		case "Set":
			r.Counts["stores"]++
			prefixes[constPrefix(key)] = ci.Pos
			st.AddMark("stored1", ci.Pos)
			r.Check(st.HasMark("deletedall"), st, "delete-after-store", ci.Pos, "a given log state is stored before the old ones were deleted")
			val := ci.Arg(2)
			for _, m := range st.Marks("stit") {
				hit := false
				for t := range reachTerms(x, st, val) {
					if t.Op == "indexaddr" && t.Args[0] == m.T[0] {
						hit = true
					}
				}
				if hit {
					mm := m
					st.DelMarks("stit", func(o Mark) bool { return o.key() == mm.key() })
				}
			}
			if e, ok := ci.Arg(3).IntConst(); ok {
				r.Check(e == 0, st, "state-expires", ci.Pos, "a log state is stored with an expiry time")
			}
		}
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		rc.onRet(x, st, ci, res)
		if isCmdResult(ci.Name) && strings.HasSuffix(ci.Name, ".Result") {
			a := ci.Arg(0)
			if a.HasSub(func(u *Term) bool { return callTerm(u, ").SetNX") && isKey(u.Args[1], lock) }) {
				st.AddMark("nx", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res))
			}
			if a.HasSub(isLogKeySrc) {
				addChk(x, st, grp(x, "list"), x.ErrOf(ci, res), ci.Pos, "listing of log states")
				if strings.Contains(ci.Name, "StringSliceCmd") {
					st.AddMark("listed", ci.Pos, x.ResultOf(ci, res, 0))
				}
			}
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		lockFact(x, st)
		rc.prune(x, st)
		if st.HasMark("locked") {
			r.Check(st.HasMark("release"), st, "lock-not-released", "go/storage Restore", "Restore returns without having tried to release the commit lock after its last change")
		}
		e := res[len(res)-1]
		if x.KnownNonNil(st, e) {
			return
		}
		direct := false
		for _, k := range []string{"cerr", "chk"} {
			for _, m := range st.Marks(k) {
				direct = direct || m.T[1] == e && st.HasMark("epochset")
			}
		}
		if !direct {
			ok := st.HasMark("epochset")
			for _, m := range st.Marks("cmd") {
				if redisMutates(m.T[0].Key) && m.T[0].Key != "SetNX" && !isKey(m.T[2], lock) {
					ok = false
				}
			}
			// an error passed on without a look
			if !ok && e.Op != "nil" {
				if _, known := x.Truth(st, x.isNilTerm(e)); !known {
					ok = false
				}
			}
			r.Check(ok, st, "failure-not-reported", "go/storage Restore", "Restore may return success although not every step succeeded")
		}
		r.Counts["successful returns"]++
	}
	x := NewExec(p, "C08", rule)
	x.Run(f)
	r.Absorb(x)
	for pre, pos := range prefixes {
		ok := false
		for pat := range patterns {
			ok = ok || pat == pre+"*" || pat == "*" || strings.HasSuffix(pat, "*") && strings.HasPrefix(pre, strings.TrimSuffix(pat, "*"))
		}
		r.Check(ok, nil, "state-key-not-listed", pos, "log states are stored under %q but the states to delete are listed with another pattern", pre)
	}
	r.NeedAtLeast(1, "epoch updates")
	r.NeedAtLeast(1, "deletions")
	r.NeedAtLeast(1, "stores")
	r.NeedAtLeast(1, "successful returns")
	return r
}

// epochKey is the key GetEpoch reads.
func epochKey(p *Program) string {
	f := p.Fn("(*storage.RedisCache).GetEpoch")
	if f == nil {
		return ""
	}
	k := ""
	x := NewExec(p, "epochkey", &Rule{OnCall: func(x *Exec, st *State, ci *CallInfo) {
		if op := redisOp(ci.Name); op == "Get" {
			if s, ok := strConst(ci.Arg(1)); ok {
				k = s
			}
		}
	}})
	x.Run(f)
	return k
}

// ---- C10 ------------------------------------------------------------------------

func checkC10(p *Program, tier string) *Result {
	r := NewResult("C10", "AcquireCommitLock returns a token only on paths where a SetNX of a random token with a finite expiry reported success; HasCommitLock is true only if the stored value equals the token; ReleaseCommitLock deletes only under that fact; no other code changes the lock key; programs pass the acquired token to Commit and release it on every exit after acquiring it")
	acq, has, rel := p.Fn("(*storage.RedisCache).AcquireCommitLock"), p.Fn("(*storage.RedisCache).HasCommitLock"), p.Fn("(*storage.RedisCache).ReleaseCommitLock")
	if acq == nil || has == nil || rel == nil {
		r.Bad("missing: lock functions", "-", "AcquireCommitLock, HasCommitLock or ReleaseCommitLock not found on RedisCache")
		return r
	}
	lock := lockKeyOf(p)
	// acquire
	{
		rule := &Rule{PureFn: pureTypes}
		rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
			op := redisOp(ci.Name)
			if op == "" || !redisMutates(op) {
				return
			}
			if !r.Check(op == "SetNX", st, "lock-not-set-if-absent", ci.Pos, "acquiring the lock uses %s, which also overwrites a lock held by someone else", op) {
				return
			}
			r.Counts["set-if-absent"]++
			r.Check(isKey(ci.Arg(1), lock) && lock != "", st, "lock-key", ci.Pos, "the lock is not set under a constant key")
			d, ok := ci.Arg(3).IntConst()
			r.Check(ok && d > 0, st, "lock-never-expires", ci.Pos, "the lock is set without a finite expiry")
			val := ci.Arg(2)
			rnd := false
			for _, m := range st.Marks("rand") {
				if x.KnownNil(st, m.T[1]) {
					for t := range reachTerms(x, st, val) {
						if t == m.T[0] || m.T[0].Op == "slice" && t == m.T[0].Args[0] {
							rnd = true
						}
					}
				}
			}
			if val.HasSub(func(u *Term) bool { return u.Op == "call" && u.Key == "crypto/rand.Text" }) {
				rnd = true
			}
			r.Check(rnd, st, "token-not-random", ci.Pos, "the lock token does not come from a successful read of crypto/rand")
		}
		rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			switch {
			case ci.Name == "crypto/rand.Read":
				st.AddMark("rand", ci.Pos, ci.Arg(0), x.ErrOf(ci, res))
			case ci.Name == "io.ReadFull" && ci.Arg(0).HasSub(func(u *Term) bool { return u.Op == "global" && u.Key == "crypto/rand.Reader" }):
				st.AddMark("rand", ci.Pos, ci.Arg(1), x.ErrOf(ci, res))
			case isCmdResult(ci.Name) && strings.HasSuffix(ci.Name, ".Result"):
				for _, c := range ci.Arg(0).FindSub(func(u *Term) bool { return callTerm(u, ").SetNX") }) {
					st.AddMark("nx", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res), c.Args[2])
				}
			}
		}
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			if x.KnownNil(st, res[0]) || res[0].Op == "nil" || x.KnownNonNil(st, res[1]) {
				return
			}
			ok := false
			why := "no set-if-absent was made"
			for _, m := range st.Marks("nx") {
				if !x.KnownNil(st, m.T[1]) {
					why = "the set-if-absent may have failed"
					continue
				}
				if v, k := x.Truth(st, m.T[0]); !k || !v {
					why = "the set-if-absent may have found the lock taken"
					continue
				}
				tok := strip(m.T[2])
				if !reachTerms(x, st, res[0])[tok] {
					why = "the returned token is not the one that was set"
					continue
				}
				ok = true
			}
			r.Check(ok, st, "lock-claimed-but-not-taken", "go/storage AcquireCommitLock", "a token is returned although %s", why)
			r.Counts["tokens returned"]++
		}
		x := NewExec(p, "C10", rule)
		x.Run(acq)
		r.Absorb(x)
	}
	// holder test
	sameTok := func(x *Exec, t, tok *Term) bool {
		g := func(u *Term) bool { return callTerm(u, ").Get") && len(u.Args) > 1 && isKey(u.Args[1], lock) }
		if t.Op == "same" {
			for i := 0; i < 2; i++ {
				if strip(t.Args[i]) == tok && t.Args[1-i].HasSub(g) && !t.Args[1-i].HasSub(func(u *Term) bool { return u.Op == "pure" && strings.HasPrefix(u.Key, "strings.") }) {
					return true
				}
			}
		}
		return t.HasSub(func(u *Term) bool { return strings.HasSuffix(u.Key, "ConstantTimeCompare") }) && t.HasSub(g) && t.Contains(tok)
	}
	{
		rule := &Rule{PureFn: pureTypes}
		rule.KeepFact = func(st *State, t *Term) bool { return t.Op == "same" }
		var rc redisCmds
		rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) { rc.onRet(x, st, ci, res) }
		rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
			if op := redisOp(ci.Name); op != "" && redisMutates(op) {
				r.Check(false, st, "holder-test-changes-lock", ci.Pos, "%s in HasCommitLock", op)
			}
		}
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			if v, k := x.Truth(st, res[0]); k && !v || x.KnownNonNil(st, res[1]) {
				return
			}
			ok := sameTok(x, res[0], x.Params[1])
			for f, v := range st.facts {
				ok = ok || v && sameTok(x, f, x.Params[1])
			}
			r.Check(ok, st, "wrong-holder", "go/storage HasCommitLock", "the caller is taken for the holder of the lock although the stored value was not found equal to its token")
			r.Counts["holder tests"]++
		}
		x := NewExec(p, "C10", rule)
		x.Run(has)
		r.Absorb(x)
	}
	{
		rule := &Rule{PureFn: pureTypes}
		rule.KeepFact = func(st *State, t *Term) bool { return t.Op == "same" }
		rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
			op := redisOp(ci.Name)
			if op == "" || !redisMutates(op) {
				return
			}
			r.Counts["lock deletions"]++
			ok := op == "Del" || op == "Unlink"
			if op == "Eval" {
				s, _ := strConst(ci.Arg(1))
				l := strings.ToLower(s)
				r.Check(strings.Contains(l, "get") && strings.Contains(l, "del") && strings.Contains(l, "=="), st, "released-by-other", ci.Pos, "the release script does not compare the token")
				return
			}
			r.Check(ok && isKey(ci.Arg(1), lock), st, "released-other-key", ci.Pos, "releasing the lock does %s on another key", op)
			held := false
			for f, v := range st.facts {
				held = held || v && sameTok(x, f, x.Params[1])
			}
			r.Check(held, st, "released-by-other", ci.Pos, "the lock is deleted although it was not found to carry the caller's token")
		}
		x := NewExec(p, "C10", rule)
		x.Run(rel)
		r.Absorb(x)
	}
	// nobody else touches the key
	g := p.Graph()
	allowed := map[*ssa.Function]bool{}
	for _, f := range []*ssa.Function{acq, has, rel} {
		for c := range g.Reach(f) {
			allowed[c] = true
		}
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := ""
				if c.Common().IsInvoke() {
					n = "(" + shortName(typeKey(c.Common().Value.Type())) + ")." + c.Common().Method.Name()
				} else if fn := c.Common().StaticCallee(); fn != nil {
					n = fname(fn)
				}
				op := redisOp(n)
				if op == "" || !redisMutates(op) {
					continue
				}
				r.Counts["redis mutation sites"]++
				hit := false
				for _, a := range c.Common().Args {
					hit = hit || slicesTo(a, func(v ssa.Value) bool {
						k, ok := v.(*ssa.Const)
						return ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == lock
					})
				}
				r.Check(!hit || allowed[f], nil, "lock-changed-elsewhere", p.PosStr(in.Pos()), "%s changes the commit lock outside the lock functions", fname(f))
			}
		}
	}
	// programs
	roots := p.Minimal(nil, "(storage.RemoteCache).AcquireCommitLock", "(*storage.CertDatabase).Commit|(storage.CertDatabase).Commit")
	if len(roots) == 0 {
		// Commit is a module function: use reachability of the function itself
		roots = programsWith(p, "(storage.RemoteCache).AcquireCommitLock", commitFn(p))
	}
	for _, f := range roots {
		r.Counts["programs that commit"]++
		cn := fname(commitFn(p))
		rule := &Rule{PureFn: pureTypes, OpaqueFn: func(n string) bool { return n == cn || opaqueSetup(n) }}
		rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
			switch {
			case ci.Name == cn:
				r.Counts["commits"]++
				ok := false
				for _, m := range st.Marks("acq") {
					if x.KnownNonNil(st, m.T[0]) && ci.Arg(1).Contains(m.T[0]) {
						ok = true
					}
				}
				r.Check(ok, st, "commit-without-token", ci.Pos, "Commit is called with something other than a token returned by AcquireCommitLock")
				r.Check(!st.HasMark("released"), st, "commit-after-release", ci.Pos, "Commit is called after the lock was released")
			case ci.Name == "(storage.RemoteCache).ReleaseCommitLock":
				for _, m := range st.Marks("acq") {
					if ci.Arg(1).Contains(m.T[0]) {
						st.AddMark("released", ci.Pos, m.T[0])
					}
				}
			}
		}
		rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			if ci.Name == "(storage.RemoteCache).AcquireCommitLock" && !ci.Inl {
				st.DelMarks("released", nil)
				st.AddMark("acq", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res))
			}
		}
		held := func(x *Exec, st *State) *Mark {
			for _, m := range st.Marks("acq") {
				if !x.KnownNonNil(st, m.T[0]) || x.KnownNonNil(st, m.T[1]) {
					continue
				}
				rel := false
				for _, q := range st.Marks("released") {
					rel = rel || q.T[0] == m.T[0]
				}
				if !rel {
					mm := m
					return &mm
				}
			}
			return nil
		}
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			m := held(x, st)
			pos := "?"
			if m != nil {
				pos = m.Pos
			}
			r.Check(m == nil, st, "lock-not-released", fname(f), "the function may return without releasing the lock acquired at %s", pos)
			r.Counts["exits"]++
		}
		rule.OnAbort = func(x *Exec, st *State, ci *CallInfo) {
			if m := held(x, st); m != nil {
				r.Check(false, st, "lock-not-released", ci.Pos, "the program ends without releasing the lock acquired at %s", m.Pos)
			}
		}
		x := NewExec(p, "C10", rule)
		x.Run(f)
		r.Absorb(x)
	}
	r.NeedAtLeast(1, "set-if-absent")
	r.NeedAtLeast(1, "tokens returned")
	r.NeedAtLeast(1, "holder tests")
	r.NeedAtLeast(1, "lock deletions")
	r.NeedAtLeast(2, "programs that commit")
	r.NeedAtLeast(2, "commits")
	return r
}

// opaqueSetup: program set-up that is irrelevant to most program-level rules.
func opaqueSetup(n string) bool {
	return strings.HasPrefix(n, "engine.") || strings.HasPrefix(n, "telemetry.") || strings.HasPrefix(n, "(*config.") || strings.HasPrefix(n, "config.") ||
		strings.HasPrefix(n, "(*rootprogram.") || strings.HasPrefix(n, "rootprogram.") || strings.HasPrefix(n, "(*storage.") || strings.HasPrefix(n, "(storage.") && !strings.Contains(n, "Lock")
}

// programsWith lists the smallest functions that may reach both a call of the
// named interface method and the module function f.
func programsWith(p *Program, leaf string, fs ...*ssa.Function) []*ssa.Function {
	g := p.Graph()
	hasAll := func(c *ssa.Function) bool {
		if !g.has(c, leaf) {
			return false
		}
		for _, f := range fs {
			if !g.Reach(c)[f] || c == f {
				return false
			}
		}
		return true
	}
	var r []*ssa.Function
	for _, c := range p.Funcs {
		if c.Synthetic != "" || !hasAll(c) {
			continue
		}
		min := true
		for _, d := range g.callee[c] {
			if d != c && hasAll(d) {
				min = false
			}
		}
		if min {
			r = append(r, c)
		}
	}
	return r
}

// ---- C28 ------------------------------------------------------------------------

func checkC28(p *Program, tier string) *Result {
	r := NewResult("C28", "on every path of RedisCache.Migrate a key is deleted only if its old-key content was re-stored without error in decoded form, or the state under the new key was found to exist; nothing is stored when the new key exists; failures are returned")
	f := p.Fn("(*storage.RedisCache).Migrate")
	if f == nil {
		r.Bad("missing: Migrate", "-", "(*RedisCache).Migrate not found")
		return r
	}
	var rc redisCmds
	rule := &Rule{PureFn: pureTypes}
	rule.KeepFact = func(st *State, t *Term) bool { return t.Op == "same" || t.Op == "isnil" }
	isGet := func(u *Term) bool { return callTerm(u, ").Get") && redisOp(u.Key) == "Get" }
	// exists tells whether the path knows that the key of the Get was found.
	exists := func(x *Exec, st *State, get *Term) (found, missing bool) {
		for _, m := range st.Marks("cerr") {
			if m.T[0] != get {
				continue
			}
			if x.KnownNil(st, m.T[1]) {
				found = true
			}
			for q, v := range st.facts {
				if q.Op == "same" && (strip(q.Args[0]) == m.T[1] || strip(q.Args[1]) == m.T[1] || q.Args[0] == m.T[1] || q.Args[1] == m.T[1]) && v {
					missing = true
				}
			}
		}
		return found && !missing, missing
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) { rc.onRet(x, st, ci, res) }
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		op := redisOp(ci.Name)
		if op == "" || !redisMutates(op) {
			return
		}
		key := ci.Arg(1)
		if key != nil && key.Op == "vararg" && len(key.Args) == 1 {
			key = strip(key.Args[0])
		}
		var gets []*Term
		for _, m := range st.Marks("cmd") {
			if m.T[0].Key == "Get" {
				gets = append(gets, m.T[1])
			}
		}
		switch op {
		case "Set", "SetNX":
			r.Counts["stores"]++
			val := reachTerms(x, st, ci.Arg(2))
			src := false
			for _, g := range gets {
				used := false
				for t := range val {
					used = used || t == g
				}
				if used {
					src = true
					if fnd, _ := exists(x, st, g); !fnd {
						r.Check(false, st, "stored-without-old-state", ci.Pos, "a state is stored although the old one was not found")
					}
					continue
				}
				// the other Get is the new key
				fnd, _ := exists(x, st, g)
				r.Check(!fnd, st, "new-state-overwritten", ci.Pos, "the state under the new key is overwritten")
			}
			r.Check(src, st, "stored-other-state", ci.Pos, "the stored state does not come from the old key")
		case "Del", "Unlink", "Rename", "RenameNX":
			r.Counts["deletions"]++
			// which Get read this key?
			var own *Term
			for _, g := range gets {
				if strip(g.Args[1]) == key {
					own = g
				}
			}
			if op == "Rename" || op == "RenameNX" {
				for _, g := range gets {
					if g == own {
						continue
					}
					_, miss := exists(x, st, g)
					r.Check(miss || op == "RenameNX", st, "new-state-overwritten", ci.Pos, "the state under the new key is overwritten")
				}
				return
			}
			if !r.Check(own != nil, st, "deleted-unread-state", ci.Pos, "a key is deleted whose state was not read") {
				return
			}
			ok := false
			why := "its state was neither stored again nor found under another key"
			for _, m := range st.Marks("cmd") {
				if m.T[0].Key != "Set" && m.T[0].Key != "SetNX" {
					continue
				}
				if cmdOK(x, st, m.T[1]) {
					if strip(m.T[2]) == key {
						why = "it was just stored under the same key"
						continue
					}
					ok = true
				} else {
					why = "storing its state again may have failed"
				}
			}
			newer := false
			for _, g := range gets {
				if g != own {
					if fnd, _ := exists(x, st, g); fnd {
						ok = true
						newer = true
					}
				}
			}
			if newer {
				// the deleted key must be the old spelling: the longer one
				for _, g := range gets {
					if g != own {
						r.Check(key.Contains(strip(g.Args[1])), st, "new-state-deleted", ci.Pos, "the state under the new key is deleted")
					}
				}
			}
			r.Check(ok, st, "old-state-lost", ci.Pos, "the old key is deleted although %s", why)
		default:
			r.Check(false, st, "unexpected-change", ci.Pos, "Migrate changes the cache with %s", op)
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		e := res[len(res)-1]
		if x.KnownNonNil(st, e) {
			return
		}
		for _, m := range st.Marks("cmd") {
			if m.T[0].Key != "Set" && m.T[0].Key != "SetNX" {
				continue
			}
			ok := cmdOK(x, st, m.T[1])
			for _, q := range st.Marks("cerr") {
				ok = ok || q.T[0] == m.T[1] && q.T[1] == e
			}
			r.Check(ok, st, "failure-not-reported", m.Pos, "success is returned although storing the state may have failed")
		}
		// an old state that was found must have been dealt with
		r.Counts["successful returns"]++
		for _, m := range st.Marks("cmd") {
			if m.T[0].Key != "Get" {
				continue
			}
			got := false
			for _, q := range st.Marks("cerr") {
				if q.T[0] == m.T[1] {
					if x.KnownNil(st, q.T[1]) || x.KnownNonNil(st, q.T[1]) {
						got = true
					}
					for s := range st.facts {
						got = got || s.Op == "same" && s.Contains(q.T[1])
					}
					got = got || q.T[1] == e
				}
			}
			r.Check(got, st, "lookup-error-ignored", m.Pos, "success is returned without having looked at the error of the lookup")
		}
	}
	_ = isGet
	x := NewExec(p, "C28", rule)
	x.Run(f)
	r.Absorb(x)
	r.NeedAtLeast(1, "stores")
	r.NeedAtLeast(1, "deletions")
	r.NeedAtLeast(1, "successful returns")
	return r
}

// ---- C29 ------------------------------------------------------------------------

func checkC29(p *Program, tier string) *Result {
	r := NewResult("C29", "SetInsertMany issues SAdd and ExpireAt with key, value and expiry of the same item for every item of the batch and returns nil only if the pipeline reported no error; Store passes the batch on and returns the error; PrepareSetMember and NewMember combine expiry date, issuer, serial, timestamp and log of the same entry")
	f := p.Fn("(*storage.RedisCache).SetInsertMany")
	if f == nil {
		r.Bad("missing: SetInsertMany", "-", "(*RedisCache).SetInsertMany not found")
		return r
	}
	rule := &Rule{PureFn: pureTypes, RunOnce: func(n string) bool {
		return strings.HasSuffix(n, ").Pipelined") || strings.HasSuffix(n, ").TxPipelined")
	}}
	rule.OnBlock = func(x *Exec, st *State, _ *ssa.BasicBlock) { pruneChk(x, st) }
	pipe := func(x *Exec) *Term { return x.tt.mk("const", "pipe", 0, nil) }
	rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
		lk := loopKey(x, in)
		for _, k := range []string{"noadd", "noexp"} {
			for _, m := range st.Marks(k) {
				if m.T[1] == lk {
					st.DelMarks(k, func(o Mark) bool { return o.T[1] == lk })
					st.AddMark("skip"+k, m.Pos)
				}
			}
		}
		if coll != x.Params[1] {
			return
		}
		if more {
			st.AddMark("noadd", x.pos(in), coll, lk)
			st.AddMark("noexp", x.pos(in), coll, lk)
		} else {
			st.AddMark("all", x.pos(in))
		}
	}
	item := func(t *Term) *Term {
		l := t.FindSub(func(u *Term) bool { return u.Op == "indexaddr" })
		if len(l) == 0 {
			return nil
		}
		return l[0]
	}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		op := redisOp(ci.Name)
		switch op {
		case "SAdd":
			r.Counts["insertions"]++
			k, v := item(ci.Arg(1)), item(ci.Arg(2))
			r.Check(k != nil && k == v && strings.Contains(ci.Arg(1).fullString(), "Key") && strings.Contains(ci.Arg(2).fullString(), "Value"), st, "wrong-item", ci.Pos, "SAdd does not insert the value of an item under the key of the same item")
			if k != nil {
				st.DelMarks("noadd", func(o Mark) bool { return o.T[0] == k.Args[0] })
			}
		case "ExpireAt", "Expire":
			r.Counts["expirations"]++
			k, v := item(ci.Arg(1)), item(ci.Arg(2))
			r.Check(k != nil && k == v && strings.Contains(ci.Arg(2).fullString(), "Expiry"), st, "wrong-expiry", ci.Pos, "the expiry of an item is not set on the key of the same item")
			if k != nil {
				st.DelMarks("noexp", func(o Mark) bool { return o.T[0] == k.Args[0] })
			}
		case "Exec", "Pipelined", "TxPipelined":
		default:
			if op != "" && redisMutates(op) {
				r.Check(false, st, "unexpected-change", ci.Pos, "a batch insertion does %s", op)
			}
		}
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		switch redisOp(ci.Name) {
		case "Exec", "Pipelined", "TxPipelined":
			r.Counts["pipelines"]++
			addChk(x, st, pipe(x), x.ErrOf(ci, res), ci.Pos, "execution of the batch")
			st.AddMark("exec", ci.Pos)
			if st.HasMark("all") {
				st.AddMark("execall", ci.Pos)
			}
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		e := res[len(res)-1]
		if x.root != f || x.KnownNonNil(st, e) {
			return
		}
		pruneChk(x, st)
		for _, k := range []string{"chk", "bad"} {
			for _, m := range st.Marks(k) {
				r.Check(k == "chk" && m.T[1] == e, st, "failure-not-reported", m.Pos, "success is returned although the %s may have failed", whatOf(m))
			}
		}
		if e.Op == "nil" || x.KnownNil(st, e) || true {
			r.Check(st.HasMark("all") || !st.HasMark("exec") && false || st.HasMark("bad") || x.KnownNonNil(st, e) || abortedByErr(x, st), st, "item-skipped", "go/storage SetInsertMany", "success is returned although the batch was not run through to its end")
			r.Check(!st.HasMark("skipnoadd"), st, "item-skipped", "go/storage SetInsertMany", "success is returned although no insertion was issued for an item")
			r.Check(!st.HasMark("skipnoexp"), st, "expiry-skipped", "go/storage SetInsertMany", "success is returned although the expiry of an item was not set")
			r.Counts["successful returns"]++
		}
	}
	x := NewExec(p, "C29", rule)
	x.Run(f)
	r.Absorb(x)

	// Store passes the batch on
	if s := p.Fn("(*storage.CertDatabase).Store"); s != nil {
		rule := &Rule{PureFn: pureTypes}
		rule.OnBlock = func(x *Exec, st *State, _ *ssa.BasicBlock) { pruneChk(x, st) }
		rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			if ci.Name == "(storage.RemoteCache).SetInsertMany" && !ci.Inl {
				addChk(x, st, pipe(x), x.ErrOf(ci, res), ci.Pos, "insertion of the batch")
				if ci.Arg(1) == x.Params[1] {
					st.AddMark("passed", ci.Pos)
				}
				if ci.Arg(1) != nil && ci.Arg(1).Op == "slice" && ci.Arg(1).Contains(x.Params[1]) {
					st.AddMark("passed", ci.Pos) // batches of the batch
				}
			}
		}
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			e := res[len(res)-1]
			pruneChk(x, st)
			if x.KnownNonNil(st, e) {
				return
			}
			for _, k := range []string{"chk", "bad"} {
				for _, m := range st.Marks(k) {
					r.Check(k == "chk" && m.T[1] == e, st, "failure-not-reported", m.Pos, "success is returned although the %s may have failed", whatOf(m))
				}
			}
			empty := false
			if v, k := x.Truth(st, x.compare(token.EQL, x.lenOf(x.Params[1]), x.tt.intc(0), types.Typ[types.Int])); k && v {
				empty = true
			}
			r.Check(empty || st.HasMark("passed"), st, "batch-not-passed", "go/storage Store", "Store returns success without having handed the whole batch to the cache")
			r.Counts["Store returns"]++
		}
		x := NewExec(p, "C29", rule)
		x.Run(s)
		r.Absorb(x)
	}
	r.NeedAtLeast(1, "Store returns")
	checkMemberLayout(p, r)
	r.NeedAtLeast(1, "insertions")
	r.NeedAtLeast(1, "expirations")
	r.NeedAtLeast(1, "pipelines")
	r.NeedAtLeast(1, "successful returns")
	return r
}

func abortedByErr(x *Exec, st *State) bool { return false }
