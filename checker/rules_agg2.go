package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isUnmarshal(n string) bool {
	return strings.HasSuffix(n, "asn1.Unmarshal") || strings.HasSuffix(n, "asn1.UnmarshalWithParams")
}

const reasonOid = "2.5.29.21"

// globalInts is the list of integers that the package variable is initialised
// with, when nothing else ever writes it.
func globalInts(p *Program, name string) (string, bool) {
	found, n := "", 0
	for _, pkg := range p.Prog.AllPackages() {
		for _, mem := range pkg.Members {
			gl, ok := mem.(*ssa.Global)
			if !ok || shortName(gl.String()) != name {
				continue
			}
			var fns []*ssa.Function
			fns = append(fns, p.Funcs...)
			if in := pkg.Func("init"); in != nil {
				fns = append(fns, in)
			}
			seen := map[*ssa.Function]bool{}
			for _, f := range fns {
				if seen[f] {
					continue
				}
				seen[f] = true
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						s, ok := in.(*ssa.Store)
						if !ok || s.Addr != gl {
							continue
						}
						n++
						if v, ok := intList(s.Val); ok {
							found = v
						}
					}
				}
			}
		}
	}
	return found, n == 1 && found != ""
}

// intList is the text of a slice literal of integer constants.
func intList(v ssa.Value) (string, bool) {
	for {
		switch y := v.(type) {
		case *ssa.ChangeType:
			v = y.X
			continue
		case *ssa.Convert:
			v = y.X
			continue
		}
		break
	}
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return "", false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return "", false
	}
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return "", false
	}
	parts := make([]string, arr.Len())
	for i := range parts {
		parts[i] = "0"
	}
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			if ref == ssa.Instruction(sl) {
				continue
			}
			return "", false
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok || ia.Referrers() == nil {
			return "", false
		}
		i, _ := constant.Int64Val(c.Value)
		for _, u := range *ia.Referrers() {
			s, ok := u.(*ssa.Store)
			if !ok {
				return "", false
			}
			e, ok := s.Val.(*ssa.Const)
			if !ok || e.Value == nil {
				return "", false
			}
			n, _ := constant.Int64Val(constant.ToInt(e.Value))
			parts[i] = fmt.Sprint(n)
		}
	}
	return strings.Join(parts, "."), true
}

// ofOid tells whether the condition compares the identifier of an element of
// coll with the reason code's identifier.
func ofOid(p *Program, c, coll *Term, bad *string) bool {
	if !c.HasSub(func(u *Term) bool { return elemIn(u, coll) }) {
		return false
	}
	if !strings.Contains(c.raw(), "Equal") && c.Op != "eq" {
		return false
	}
	for u := range c.Subs() {
		if u.Op == "global" {
			v, ok := globalInts(p, u.Key)
			if !ok || v != reasonOid {
				*bad = "the identifier " + u.Key + " that the extensions are compared with is not that of the reason code"
			}
			return true
		}
		if s, ok := strConst(u); ok && s == reasonOid {
			return true
		}
	}
	return false
}

// entryDecoder checks the functions that turn one entry of a CRL into a serial
// and a reason code.
func entryDecoder(p *Program, r *Result, a *aggParts) {
	g := p.Graph()
	for _, f := range sortedFns(a.entry) {
		if f.Synthetic != "" {
			continue
		}
		rule := &Rule{PureFn: func(n string) bool {
			for _, c := range p.Funcs {
				if fname(c) == n && reachesUnmarshal(g, c) {
					return false
				}
			}
			return !isUnmarshal(n) && pureTypes(n)
		}, KeepFact: keepAll, WidenAt: 3, ExactInts: true}
		badOid := ""
		rule.OnIter = func(x *Exec, st *State, coll, elem *Term, more bool, in ssa.Instruction) {
			s, ok := typeOf(coll).(*types.Slice)
			if !ok {
				return
			}
			es, ok := s.Elem().Underlying().(*types.Struct)
			if !ok || fieldNo(es, "Id") < 0 || fieldNo(es, "Value") < 0 {
				return
			}
			if more {
				r.Counts["extensions looked at"]++
				st.DelMarks("extend", nil)
				st.AddMark("ext", x.pos(in), coll)
			} else {
				st.AddMark("extend", x.pos(in), coll)
			}
		}
		rule.OnBranch = func(x *Exec, st *State, in *ssa.If, cond *Term, taken bool) {
			c := strip(cond)
			for c.Op == "not" {
				c, taken = c.Args[0], !taken
			}
			if !taken {
				return
			}
			for _, m := range st.Marks("ext") {
				if ofOid(p, c, m.T[0], &badOid) {
					r.Counts["reason codes found"]++
					if st.HasMark("match") {
						st.AddMark("twice", x.pos(in))
					}
					st.DelMarks("dec", nil)
					st.AddMark("match", x.pos(in))
				}
			}
		}
		rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			if ci.Inl || !isUnmarshal(ci.Name) || !st.HasMark("match") {
				return
			}
			ok := false
			for _, m := range st.Marks("ext") {
				ok = ok || ci.Arg(0).HasSub(func(u *Term) bool { return elemIn(u, m.T[0]) })
			}
			if !ok {
				return
			}
			r.Counts["reason codes decoded"]++
			t, typ := argOf(ci, 1)
			v := t
			if pt, ok := typ.Underlying().(*types.Pointer); ok {
				v = x.load(st, t, pt.Elem())
			}
			st.AddMark("dec", x.pos(ci.Instr), v, x.ErrOf(ci, res))
		}
		rule.OnWiden = func(x *Exec, st *State, old, nt *Term) {
			for _, o := range st.Marks("dec") {
				if o.T[0] == old {
					st.DelMarks("dec", func(k Mark) bool { return k.key() == o.key() })
					st.AddMark("dec", o.Pos, nt, o.T[1])
				}
			}
		}
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			if !mayMeanSuccess(x, st, res) {
				return
			}
			pos := fname(f)
			r.Counts["successful decodings of an entry"]++
			r.Check(st.HasMark("extend"), st, "extension-skipped", pos, "an entry can be decoded although not all of its extensions were looked at")
			r.Check(!st.HasMark("twice"), st, "repeated-reason", pos, "an entry with two reason codes can be decoded")
			es := res[0].Typ
			if es == nil {
				es = f.Signature.Results().At(0).Type()
			}
			sT := es.Underlying().(*types.Struct)
			get := func(n string) *Term {
				i := fieldNo(sT, n)
				return x.tt.field(res[0], fieldKey(es, i), sT.Field(i).Type())
			}
			ser := get("Serial").HasSub(func(u *Term) bool {
				return u.Op == "field" && strings.HasSuffix(u.Key, ":Bytes") && u.Args[0].Op == "field" && strings.HasSuffix(u.Args[0].Key, ":SerialNumber") &&
					(u.Args[0].Args[0] == x.Params[0] || u.HasSub(func(w *Term) bool { return w == x.Params[0] }))
			})
			r.Check(ser, st, "serial-altered", pos, "the serial of the result is not made from the serial number of the entry")
			reason := get("Reason")
			for reason.Op == "conv" || reason.Op == "old" {
				reason = reason.Args[0]
			}
			if !st.HasMark("match") {
				n, k := reason.IntConst()
				r.Check(k && n == 0 || reason.Op == "zero", st, "reason-altered", pos, "an entry without a reason code gets one that is not zero")
				return
			}
			ok := false
			for _, m := range st.Marks("dec") {
				if !x.KnownNil(st, m.T[1]) {
					continue
				}
				if m.T[0] == reason {
					ok = true
					lo, hi, _ := x.interval(st, x.tt.mk("lt", "1,;0", 0, types.Typ[types.Bool], reason))
					r.Check(lo != nil && hi != nil && *lo >= 0 && *hi <= 255, st, "reason-range", pos, "a reason code outside of 0..255 is not refused")
				}
			}
			r.Check(ok, st, "reason-altered", pos, "an entry with a reason code can be decoded without that reason code being decoded without error and returned")
		}
		x := NewExec(p, r.Prop, rule)
		x.Run(f)
		r.Absorb(x)
		r.Check(badOid == "", nil, "other-identifier", fname(f), "%s", badOid)
	}
	r.NeedAtLeast(1, "successful decodings of an entry")
	r.NeedAtLeast(1, "reason codes decoded")
	// the decoder of the list
	for _, f := range sortedFns(a.decode) {
		if f.Synthetic != "" {
			continue
		}
		rule := &Rule{PureFn: func(n string) bool { return !isUnmarshal(n) && pureTypes(n) }, KeepFact: keepAll}
		rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
			if ci.Inl || !isUnmarshal(ci.Name) {
				return
			}
			t, typ := argOf(ci, 1)
			if pt, ok := typ.Underlying().(*types.Pointer); ok {
				st.AddMark("dec", x.pos(ci.Instr), t, x.ErrOf(ci, res), ci.Arg(0), x.load(st, t, pt.Elem()))
			}
		}
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			if !mayMeanSuccess(x, st, res) {
				return
			}
			ok, whyNot := false, "without decoding it"
			for _, m := range st.Marks("dec") {
				switch {
				case !x.KnownNil(st, m.T[1]) && m.T[1] != res[len(res)-1]:
					whyNot = "although decoding it may have failed"
				case !m.T[2].Contains(x.Params[0]):
					whyNot = "without decoding the bytes it was given"
				case res[0] != m.T[0] && whole(res[0]) != whole(m.T[3]):
					whyNot = "without returning what was decoded"
				default:
					ok = true
					if pt, k := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer); k && res[0] == m.T[0] {
						now := x.load(st, m.T[0], pt.Elem())
						if whole(now) != whole(m.T[3]) {
							ok, whyNot = false, "with changes to what was decoded"
						}
					}
				}
			}
			r.Counts["successful decodings of a list"]++
			r.Check(ok, st, "list-decoding", fname(f), "%s can report success %s", fname(f), whyNot)
		}
		x := NewExec(p, r.Prop, rule)
		x.Run(f)
		r.Absorb(x)
	}
	r.NeedAtLeast(1, "successful decodings of a list")
}

func reachesUnmarshal(g *graph, f *ssa.Function) bool {
	for c := range g.Reach(f) {
		for _, b := range c.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if s := ci.Common().StaticCallee(); s != nil && isUnmarshal(fname(s)) {
						return true
					}
				}
			}
		}
	}
	return false
}
