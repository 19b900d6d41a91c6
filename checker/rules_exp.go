package main

import (
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// addOf splits t into a time and the constant durations added to it.
func addOf(t *Term) (*Term, int64, bool) {
	off := int64(0)
	for {
		for t.Op == "conv" {
			t = t.Args[0]
		}
		if t.Op != "pure" && t.Op != "call" || len(t.Args) == 0 {
			return t, off, true
		}
		switch {
		case strings.HasSuffix(t.Key, "time.Time).Add"):
			n, ok := t.Args[1].IntConst()
			if !ok {
				return t, off, false
			}
			off += n
			t = t.Args[0]
		case strings.HasSuffix(t.Key, "time.Time).UTC"), strings.HasSuffix(t.Key, "time.Time).Local"), strings.HasSuffix(t.Key, "time.Time).In"):
			t = t.Args[0]
		default:
			return t, off, true
		}
	}
}

// notAhead: the time t is the current one, or an earlier one.
func notAhead(t *Term) bool {
	b, off, ok := addOf(t)
	if !ok || off > 0 {
		return false
	}
	if (b.Op == "pure" || b.Op == "call") && strings.HasSuffix(b.Key, "time.Time).Truncate") {
		return notAhead(b.Args[0])
	}
	return b.Op == "call" && b.Key == "time.Now"
}

// expiryDates checks that a parsed expiry date counts as expired only when
// the whole hour (or day) it names has passed.
func expiryDates(p *Program, r *Result) {
	type verdict struct {
		field string // of the date, compared with the given time
		off   int64
		facts map[string]bool // boolean fields of the date
		pos   string
	}
	var vs []verdict
	cmp := func(c *Term, v bool, e, t *Term) (field string, off int64, ok bool) {
		for c.Op == "not" {
			c, v = c.Args[0], !v
		}
		if c.Op != "pure" && c.Op != "call" || len(c.Args) != 2 {
			return "", 0, false
		}
		var a, b *Term
		switch {
		case strings.HasSuffix(c.Key, "time.Time).Before") && v, strings.HasSuffix(c.Key, "time.Time).After") && !v:
			a, b = c.Args[0], c.Args[1]
		case strings.HasSuffix(c.Key, "time.Time).After") && v, strings.HasSuffix(c.Key, "time.Time).Before") && !v:
			a, b = c.Args[1], c.Args[0]
		default:
			return "", 0, false
		}
		fa, oa, k1 := addOf(a)
		fb, ob, k2 := addOf(b)
		if !k1 || !k2 || fb != t || !isFieldOf(fa, e) {
			return "", 0, false
		}
		return fa.Key, oa - ob, true
	}
	for _, f := range p.Funcs {
		if fname(f) != "(types.ExpDate).IsExpiredAt" || f.Synthetic != "" {
			continue
		}
		rule := &Rule{KeepFact: keepAll}
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			if len(res) != 1 || res[0].Op == "false" {
				return
			}
			e, t := x.Params[0], x.Params[1]
			vd := verdict{facts: map[string]bool{}, pos: p.PosStr(f.Pos())}
			found := false
			if res[0].Op == "true" {
				for c, v := range st.facts {
					if fl, off, ok := cmp(c, v, e, t); ok {
						vd.field, vd.off, found = fl, off, true
					}
				}
			} else {
				vd.field, vd.off, found = cmp(res[0], true, e, t)
			}
			for c, v := range st.facts {
				if isFieldOf(c, e) {
					vd.facts[c.Key] = v
				}
			}
			r.Counts["verdicts on expiry"]++
			if r.Check(found, st, "expiry-comparison", vd.pos, "a date is found expired without the time it stands for having been compared with the given one") {
				vs = append(vs, vd)
			}
		}
		x := NewExec(p, r.Prop, rule)
		x.Run(f)
		r.Absorb(x)
	}
	for _, f := range p.Funcs {
		if f.Synthetic != "" || f.Parent() != nil || !parsesExpDate(f) {
			continue
		}
		rule := &Rule{KeepFact: keepAll}
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			if !mayMeanSuccess(x, st, res) {
				return
			}
			r.Counts["parsed expiry dates"]++
			pos := p.PosStr(f.Pos())
			s, _ := typeOf(res[0]).(*types.Struct)
			if !r.Check(s != nil, st, "expiry-unknown", pos, "what is returned is not a date made from the text") {
				return
			}
			for _, v := range vs {
				var val *Term
				skip := false
				for i := 0; i < s.NumFields(); i++ {
					fv := x.tt.field(res[0], fieldKey(res[0].Typ, i), s.Field(i).Type())
					k := fieldKey(res[0].Typ, i)
					if k == v.field {
						val = fv
					}
					if b, ok := v.facts[k]; ok && (fv.Op == "true" && !b || fv.Op == "false" && b) {
						skip = true
					}
				}
				if skip {
					continue
				}
				good := false
				if val != nil {
					base, off, ok := addOf(val)
					if ok && base.Op == "ext" && base.Key == "0" && base.Args[0].Key == "time.Parse" {
						if l := base.Args[0].Args[0]; l.Op == "const" {
							unit := 24 * time.Hour
							if strings.Contains(l.Key, "15") {
								unit = time.Hour
							}
							good = off+v.off >= int64(unit-time.Second)
						}
					}
				}
				r.Check(good, st, "expires-early", pos, "a date counts as expired before the whole hour (or day) it names has passed")
			}
		}
		x := NewExec(p, r.Prop, rule)
		x.Run(f)
		r.Absorb(x)
	}
	r.NeedAtLeast(1, "verdicts on expiry")
	r.NeedAtLeast(2, "parsed expiry dates")
}

func isFieldOf(t, e *Term) bool {
	return t != nil && (t.Op == "field" && t.Args[0] == e)
}

// parsesExpDate: text in, date and error out.
func parsesExpDate(f *ssa.Function) bool {
	sg := f.Signature
	return sg.Recv() == nil && sg.Params().Len() == 1 && isStringType(sg.Params().At(0).Type()) && sg.Results().Len() == 2 &&
		isNamed(sg.Results().At(0).Type(), "types.ExpDate") && isErrorType(sg.Results().At(1).Type())
}
