package main

import (
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C31"] = func(p *Program, tier string) *Result {
		r := NewResult("C31", "every entry that is put into a map of coverage cutoffs has, as its key, the decoded identifier of a log, where decoding is known to have succeeded and the length is known to be that of the key, and, as its value, the newest timestamp of the same log less a thousand times its merge delay where that product is known not to wrap and not to exceed the timestamp, or zero where the product is known to exceed it; every assignment to a log's oldest (newest) timestamp is known to be at most (at least) the value before it, unless the log was never updated")
		cutoffMap(p, r)
		tsOutward(p, r)
		return r
	}
}

func logStateField(t *Term, name string) bool {
	if t == nil || t.Op != "deref" && t.Op != "field" && t.Op != "fieldaddr" {
		return false
	}
	if strings.HasSuffix(t.Key, ":"+name) {
		return true
	}
	return t.Op == "deref" && len(t.Args) == 1 && logStateField(t.Args[0], name)
}

func isCutoffMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	a, ok := m.Key().Underlying().(*types.Array)
	if !ok || a.Len() != 32 {
		return false
	}
	b, ok := m.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

func cutoffMap(p *Program, r *Result) {
	for _, f := range p.Funcs {
		upd := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && isCutoffMap(mu.Map.Type()) {
					upd = true
				}
			}
		}
		if !upd {
			continue
		}
		rule := &Rule{KeepFact: keepAll}
		rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			if ci.Inl {
				return
			}
			switch ci.Name {
			case "(*encoding/base64.Encoding).DecodeString":
				st.AddMark("decoded", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res), ci.Arg(1))
			case "math/bits.Mul64":
				st.AddMark("mul", ci.Pos, x.ResultOf(ci, res, 0), x.ResultOf(ci, res, 1), ci.Arg(0), ci.Arg(1))
			}
		}
		rule.OnUpdate = func(x *Exec, st *State, m, k, v *Term, in ssa.Instruction) {
			if m.Typ == nil || !isCutoffMap(m.Typ) {
				return
			}
			r.Counts["entries of cutoff maps"]++
			pos := x.pos(in)
			var log *Term // the log state the key belongs to
			ok, why := false, "it is not the decoded identifier of a log"
			for _, d := range st.Marks("decoded") {
				if !k.Contains(d.T[0]) {
					continue
				}
				if !x.KnownNil(st, d.T[1]) {
					why = "decoding it may have failed"
					continue
				}
				if v, known := x.Truth(st, x.compare(token.EQL, x.lenOf(d.T[0]), x.tt.intc(32), types.Typ[types.Int])); !known || !v {
					why = "its length is not known to be 32"
					continue
				}
				if !logStateField(d.T[2], "LogID") {
					why = "what was decoded is not the log's identifier"
					continue
				}
				log = stateOf(d.T[2])
				ok = true
			}
			r.Check(ok, st, "cutoff-key", pos, "a cutoff is stored under a key although %s", why)
			if ok {
				good, why := cutoffValue(x, st, v, log)
				r.Check(good, st, "cutoff-value", pos, "the cutoff that is stored for a log %s", why)
			}
		}
		x := NewExec(p, r.Prop, rule)
		x.Run(f)
		r.Absorb(x)
	}
	r.NeedAtLeast(1, "entries of cutoff maps")
}

// stateOf gives the log state that a field term belongs to.
func stateOf(t *Term) *Term {
	for t != nil && len(t.Args) > 0 {
		switch t.Op {
		case "deref":
			t = t.Args[0]
			continue
		case "field", "fieldaddr":
			return t.Args[0]
		}
		break
	}
	return nil
}

func sameState(a, b *Term) bool {
	st := func(t *Term) *Term {
		for t != nil && (t.Op == "deref" || t.Op == "old") && len(t.Args) == 1 {
			t = t.Args[0]
		}
		return t
	}
	return a != nil && b != nil && (a == b || st(a) == st(b))
}

// cutoffValue decides whether v is the newest timestamp less the merge delay
// of the log, or zero if that would be negative.
func cutoffValue(x *Exec, st *State, v, log *Term) (bool, string) {
	isT := func(t *Term) bool { return logStateField(t, "MaxTimestamp") && sameState(stateOf(t), log) }
	isM := func(t *Term) bool { return logStateField(t, "MMD") && sameState(stateOf(t), log) }
	isProd := func(t *Term) bool {
		if t.Op != "binop" || t.Key != "*" || len(t.Args) != 2 {
			return false
		}
		for i := 0; i < 2; i++ {
			if c, ok := t.Args[i].IntConst(); ok && c == 1000 && isM(t.Args[1-i]) {
				return true
			}
		}
		return false
	}
	isQuot := func(t *Term) bool { // T/1000
		if t.Op != "binop" || t.Key != "/" {
			return false
		}
		c, ok := t.Args[1].IntConst()
		return ok && c == 1000 && isT(t.Args[0])
	}
	mulLo := func(t *Term) (Mark, bool) {
		for _, m := range st.Marks("mul") {
			for i := 2; i < 4; i++ {
				if c, ok := m.T[i].IntConst(); ok && c == 1000 && isM(m.T[5-i]) && m.T[1] == t {
					return m, true
				}
			}
		}
		return Mark{}, false
	}
	hiZero := func(m Mark) bool {
		v, k := x.Truth(st, x.compare(token.EQL, m.T[0], x.tt.intc(0), types.Typ[types.Uint64]))
		return k && v
	}
	// facts about the two sides
	fits, exceeds, nowrap := false, false, false
	for pr, val := range st.facts {
		if pr.Op != "lt" && pr.Op != "eq" {
			continue
		}
		cs, k := decodeLin(pr)
		if len(pr.Args) == 1 && pr.Op == "lt" && isM(pr.Args[0]) {
			const lim = (1<<64 - 1) / 1000 // enough not to wrap
			if cs[0] == 1 && val && -k-1 <= lim || cs[0] == -1 && !val && k <= lim {
				nowrap = true
			}
			// more than lim: exceeds any timestamp
			if cs[0] == 1 && !val && -k > lim || cs[0] == -1 && val && k >= lim {
				exceeds = true
			}
			continue
		}
		if len(pr.Args) == 1 && pr.Op == "eq" && val && isT(pr.Args[0]) && k == 0 {
			// the newest timestamp is zero: the cutoff is
			exceeds = true
		}
		if len(pr.Args) != 2 || pr.Op != "lt" {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := pr.Args[i], pr.Args[1-i] // T side, M side
			ca, cb := cs[i], cs[1-i]
			_, isLo := mulLo(b)
			prod := isT(a) && (isProd(b) || isLo)
			quot := isQuot(a) && isM(b)
			if isT(a) && isM(b) && (cb == 1000 || cb == -1000) {
				prod, cb = true, cb/1000
			}
			if !prod && !quot {
				continue
			}
			// T - P >= 0 or T - P < 0 (strictly)
			ge := ca == 1 && cb == -1 && !val && k <= 0 || ca == -1 && cb == 1 && val && k >= -1
			lt := ca == 1 && cb == -1 && val && k >= 0 || ca == -1 && cb == 1 && !val && k <= -1
			le := lt || ca == 1 && cb == -1 && val && k >= -1 || ca == -1 && cb == 1 && !val && k <= 0
			if ge {
				fits = true
				if quot {
					nowrap = true
				}
			}
			if prod && le || quot && lt {
				exceeds = true
			}
		}
	}
	if c, ok := v.IntConst(); ok {
		if c != 0 {
			return false, "is a constant"
		}
		if exceeds {
			return true, ""
		}
		for _, m := range st.Marks("mul") {
			if v, k := x.Truth(st, x.compare(token.EQL, m.T[0], x.tt.intc(0), types.Typ[types.Uint64])); k && !v {
				return true, ""
			}
		}
		return false, "is zero although its merge delay may be less than its newest timestamp"
	}
	if v.Op == "binop" && v.Key == "-" && isT(v.Args[0]) {
		lo, isLo := mulLo(v.Args[1])
		switch {
		case isProd(v.Args[1]):
		case isLo:
			nowrap = nowrap || hiZero(lo)
		default:
			return false, "is not its newest timestamp less a thousand times its merge delay"
		}
		if !fits {
			return false, "can wrap: the merge delay may exceed the newest timestamp"
		}
		if !nowrap {
			return false, "can be too large: the merge delay in milliseconds may wrap"
		}
		return true, ""
	}
	return false, "is not its newest timestamp less its merge delay: " + v.String()
}

// tsOutward checks the assignments to the timestamps of log states.
func tsOutward(p *Program, r *Result) {
	fields := []string{"MinTimestamp", "MaxTimestamp"}
	isState := func(t types.Type) bool {
		return strings.HasSuffix(types.TypeString(deref(t), pkgShort), "types.CTLogState")
	}
	isField := func(fa *ssa.FieldAddr) bool {
		return isState(fa.X.Type()) && slices.Contains(fields, fieldNameOf(fa))
	}
	type verdict struct {
		key, pos, msg string
		ok            bool
		st            *State
	}
	explore := func(f, writer *ssa.Function) ([]verdict, *Exec) {
		var out []verdict
		rule := &Rule{PureFn: pureTypes, KeepFact: keepAll, NoContrib: true}
		if f != writer {
			// a caller: what lies on the way to the assignment matters
			rule.OpaqueFn = func(n string) bool {
				c := p.Fn(n)
				return c != nil && c != writer && !isChooser(c) && !p.Graph().Reach(c)[writer]
			}
		}
		rule.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.Op != "fieldaddr" {
				return
			}
			for _, w := range fields {
				if !strings.HasSuffix(addr.Key, ":"+w) || !isState(addr.Args[0].Typ) {
					continue
				}
				old := x.load(st, addr, types.Typ[types.Uint64])
				if c, ok := old.IntConst(); ok && c == 0 || old.Op == "zero" {
					continue // a new log state
				}
				r.Counts["assignments to timestamps"]++
				// a log that was never updated
				var lu *Term
				if s, ok := deref(addr.Args[0].Typ).Underlying().(*types.Struct); ok {
					if i := fieldNo(s, "LastUpdateTime"); i >= 0 {
						ft := s.Field(i).Type()
						lu = x.load(st, x.tt.fieldAddr(addr.Args[0], fieldKey(s, i), types.NewPointer(ft)), ft)
					}
				}
				fresh := false
				for pr, v := range st.facts {
					if v && callNamed(pr, "(time.Time).IsZero") != nil && lu != nil && len(pr.Args) == 1 && (pr.Args[0] == lu || whole(pr.Args[0]) == whole(lu)) {
						fresh = true
					}
				}
				a, b := val, old
				if w == "MaxTimestamp" {
					a, b = old, val
				}
				v, known := x.Truth(st, x.compare(token.LEQ, a, b, types.Typ[types.Uint64]))
				ok := known && v || a == b || fresh
				if !ok && val.Op == "pure" && (val.Key == "min" && w == "MinTimestamp" || val.Key == "max" && w == "MaxTimestamp") {
					for _, e := range val.Args {
						ok = ok || e == old
					}
				}
				dir := "raised"
				if w == "MaxTimestamp" {
					dir = "lowered"
				}
				out = append(out, verdict{w, x.pos(in), "the " + w + " of a log can be " + dir, ok, st})
			}
		}
		x := NewExec(p, r.Prop, rule)
		x.Run(f)
		return out, x
	}
	// An assignment in f is right by itself, or in every caller of f.
	var judge func(f, writer *ssa.Function, depth int) ([]verdict, []*Exec, bool)
	judge = func(f, writer *ssa.Function, depth int) ([]verdict, []*Exec, bool) {
		vs, x := explore(f, writer)
		ok := x.Err == nil
		for _, v := range vs {
			ok = ok && v.ok
		}
		xs := []*Exec{x}
		cs := p.Graph().Callers(f)
		if ok || depth == 0 || len(cs) == 0 {
			return vs, xs, ok
		}
		var all []verdict
		for _, c := range cs {
			cv, cx, cok := judge(c, writer, depth-1)
			if !cok || len(cv) == 0 {
				return vs, xs, ok
			}
			all = append(all, cv...)
			xs = append(xs, cx...)
		}
		return all, xs[1:], true
	}
	for _, f := range p.Funcs {
		stores := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isField(fa) {
						stores = true
					}
				}
			}
		}
		if stores {
			vs, xs, _ := judge(f, f, 2)
			for _, v := range vs {
				r.Check(v.ok, v.st, "timestamp-inward", v.pos, "%s", v.msg)
			}
			for _, x := range xs {
				r.Absorb(x)
			}
		}
	}
	r.NeedAtLeast(2, "assignments to timestamps")
}
