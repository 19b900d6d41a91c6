package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops that work on a list piece by piece. The pieces are given by linear
// expressions over SSA values; a loop is reported only if it can be shown to
// leave elements out. Forms that are not understood are not reported.

type linear struct {
	k map[string]int64
	c int64
}

func (a linear) add(b linear, f int64) linear {
	r := linear{map[string]int64{}, a.c + f*b.c}
	for k, v := range a.k {
		r.k[k] = v
	}
	for k, v := range b.k {
		r.k[k] += f * v
		if r.k[k] == 0 {
			delete(r.k, k)
		}
	}
	return r
}

func (a linear) isConst() bool { return len(a.k) == 0 }

// negative: surely below zero, atoms being sizes (not negative).
func (a linear) negative() bool {
	for _, v := range a.k {
		if v > 0 {
			return false
		}
	}
	return a.c < 0 || a.c == 0 && len(a.k) > 0
}

func (a linear) String() string {
	var ks []string
	for k := range a.k {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%+d*%s", a.k[k], k)
	}
	return s + fmt.Sprintf("%+d", a.c)
}

func linOf(v ssa.Value) linear {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(v.Value)
			return linear{nil, n}
		}
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD:
			return linOf(v.X).add(linOf(v.Y), 1)
		case token.SUB:
			return linOf(v.X).add(linOf(v.Y), -1)
		case token.MUL:
			x, y := linOf(v.X), linOf(v.Y)
			if x.isConst() {
				x, y = y, x
			}
			if y.isConst() {
				return linear{nil, 0}.add(x, y.c)
			}
		}
	case *ssa.Convert:
		if isIntType(v.Type()) && isIntType(v.X.Type()) {
			return linOf(v.X)
		}
	}
	return linear{map[string]int64{valKey(v): 1}, 0}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// valKey names a value; loads of the same place have the same name.
func valKey(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Const:
		return v.String()
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return "*" + valKey(v.X)
		}
	case *ssa.FieldAddr:
		return fmt.Sprintf("&%s.%d", valKey(v.X), v.Field)
	case *ssa.Field:
		return fmt.Sprintf("%s.%d", valKey(v.X), v.Field)
	case *ssa.Call:
		if isLenCall(v) {
			return "len(" + valKey(v.Call.Args[0]) + ")"
		}
	case *ssa.ChangeType:
		return valKey(v.X)
	}
	return v.Name()
}

func lenKey(l ssa.Value) linear { return linear{map[string]int64{"len(" + valKey(l) + ")": 1}, 0} }

// piece says what is wrong with the piece [low:high] of a list as it is used in
// a loop; "" if nothing can be shown. whole tells that it is known to be right.
func piece(low, high ssa.Value, list ssa.Value) (msg string, whole bool) {
	lo := linear{}
	if low != nil {
		lo = linOf(low)
	}
	hi := lenKey(list)
	if high != nil {
		hi = linOf(high)
	}
	return pieceLin(lo, []linear{hi}, high, list, low)
}

func alternatives(v ssa.Value) []ssa.Value {
	if v == nil {
		return nil
	}
	if p, ok := v.(*ssa.Phi); ok {
		if len(naturalLoop(p.Block())) > 1 || isSelfLoop(p.Block()) {
			return []ssa.Value{v}
		}
		return p.Edges
	}
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "min" {
			return c.Call.Args
		}
	}
	return []ssa.Value{v}
}

func phiOf(v ssa.Value) (*ssa.Phi, int64) {
	switch v := v.(type) {
	case *ssa.Phi:
		return v, 0
	case *ssa.BinOp:
		if c, ok := v.Y.(*ssa.Const); ok && (v.Op == token.ADD || v.Op == token.SUB) && c.Value != nil && c.Value.Kind() == constant.Int {
			if p, k := phiOf(v.X); p != nil {
				n, _ := constant.Int64Val(c.Value)
				if v.Op == token.SUB {
					n = -n
				}
				return p, k + n
			}
		}
	}
	return nil, 0
}

func pieceLin(lo linear, hi []linear, high ssa.Value, list, low ssa.Value) (string, bool) {
	ll := lenKey(list)
	if lo.isConst() && (low == nil || isConstVal(low)) {
		if lo.c > 0 {
			return fmt.Sprintf("the first %d element(s) are left out", lo.c), false
		}
		if high == nil {
			return "", true
		}
		d := hi[0].add(ll, -1)
		if d.isConst() && d.c < 0 {
			return fmt.Sprintf("the last %d element(s) are left out", -d.c), false
		}
		return "", d.isConst() && d.c == 0
	}
	if low == nil {
		return "", false
	}
	s, off := phiOf(low)
	if s == nil {
		return "", false
	}
	h := s.Block()
	loop := naturalLoop(h)
	if len(loop) == 1 && !isSelfLoop(h) {
		return "", false
	}
	// where the first piece starts
	var back []ssa.Value
	for i, e := range s.Edges {
		if loop[h.Preds[i]] {
			back = append(back, e)
			continue
		}
		in := linOf(e)
		if in.isConst() && in.c+off > 0 {
			return fmt.Sprintf("the first piece starts at %d", in.c+off), false
		}
		if !in.isConst() && !in.add(linear{nil, off}, 1).isConst() && in.c >= 0 && positiveAtoms(in) && !fromParam(e) {
			return "the first piece does not start at the first element", false
		}
		if !in.isConst() {
			return "", false
		}
	}
	if len(back) != 1 {
		return "", false
	}
	next := linOf(back[0]).add(linear{nil, off}, 1)
	// where a piece ends: at the start of the next one or at the end
	sure := high != nil
	for _, alt := range alternatives(high) {
		a := linOf(alt)
		dl, dn := a.add(ll, -1), a.add(next, -1)
		switch {
		case dl.isConst() && dl.c == 0, dn.isConst() && dn.c == 0:
		case a.String() == linOf(high).String() && altEqual(back[0], high):
		case dl.isConst() && dl.c < 0:
			return "the last piece ends before the last element", false
		case dn.isConst() && dn.c < 0, dn.negative() && constAtoms(dn, high, back[0]):
			return "the next piece starts behind the end of the one before", false
		default:
			sure = false
		}
	}
	// how long the loop goes on
	end, ok := loopBound(h, loop, s)
	if !ok {
		return "", false
	}
	d := end.add(ll, -1).add(linear{nil, off}, 1)
	if d.isConst() && d.c < 0 {
		return "the loop ends before the end of the list", false
	}
	if !d.isConst() {
		if d.negative() && !slicedAfter(list, loop) {
			return "the loop ends before the end of the list", false
		}
		sure = false
	}
	return "", sure
}

func isConstVal(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

func positiveAtoms(a linear) bool {
	for _, v := range a.k {
		if v < 0 {
			return false
		}
	}
	return true
}

func fromParam(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	case *ssa.BinOp:
		return fromParam(v.X) || fromParam(v.Y)
	case *ssa.Phi, *ssa.UnOp, *ssa.Call, *ssa.Extract:
		return true
	}
	return false
}

func altEqual(a, b ssa.Value) bool { return a == b }

// constAtoms: the difference of two ends is made only of sizes that both use.
func constAtoms(d linear, a, b ssa.Value) bool {
	la, lb := linOf(a), linOf(b)
	for k := range d.k {
		if la.k[k] == 0 || lb.k[k] == 0 {
			return false
		}
	}
	return true
}

// loopBound: the loop goes on while the variable is below the given bound.
func loopBound(h *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool, s *ssa.Phi) (linear, bool) {
	if l, ok := exitBound(h, loop, s); ok {
		return l, true
	}
	// a condition of two parts
	for _, b := range h.Succs {
		if loop[b] && b != h && len(b.Preds) == 1 && len(h.Succs) == 2 {
			if l, ok := exitBound(b, loop, s); ok {
				return l, true
			}
		}
	}
	return linear{}, false
}

func exitBound(h *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool, s *ssa.Phi) (linear, bool) {
	if len(h.Instrs) == 0 {
		return linear{}, false
	}
	c, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return linear{}, false
	}
	b, ok := c.Cond.(*ssa.BinOp)
	if !ok {
		return linear{}, false
	}
	in := loop[h.Succs[0]]
	if in == loop[h.Succs[1]] {
		return linear{}, false
	}
	op, x, y := b.Op, b.X, b.Y
	if !in {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		default:
			return linear{}, false
		}
	}
	switch op {
	case token.GTR, token.GEQ:
		x, y = y, x
		if op == token.GTR {
			op = token.LSS
		} else {
			op = token.LEQ
		}
	case token.LSS, token.LEQ:
	default:
		return linear{}, false
	}
	// x < y
	d := linOf(y).add(linOf(x), -1)
	k := valKey(s)
	if d.k[k] != -1 {
		return linear{}, false
	}
	d = d.add(linear{map[string]int64{k: 1}, 0}, 1)
	if op == token.LEQ {
		d.c++
	}
	return d, true
}

// slicedAfter: the rest of the list is used outside the loop.
func slicedAfter(list ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	k := valKey(list)
	for b := range loop {
		for _, bb := range b.Parent().Blocks {
			if loop[bb] {
				continue
			}
			for _, in := range bb.Instrs {
				switch in := in.(type) {
				case *ssa.Slice:
					if valKey(in.X) == k && in.Low != nil {
						return true
					}
				case *ssa.IndexAddr:
					if valKey(in.X) == k {
						return true
					}
				}
			}
		}
		break
	}
	return false
}

// sliceUse judges a list value handed to an operation: the list it is a piece
// of, and what is wrong with the pieces.
func sliceUse(v ssa.Value) (msg string, whole bool, list ssa.Value) {
	switch v := v.(type) {
	case *ssa.ChangeType:
		return sliceUse(v.X)
	case *ssa.MakeInterface:
		return sliceUse(v.X)
	case *ssa.Slice:
		if _, isPtr := v.X.Type().Underlying().(*types.Pointer); isPtr {
			return "", false, nil
		}
		if p, ok := v.X.(*ssa.Phi); ok {
			if m, w, l := peeled(p, v); l != nil {
				return m, w, l
			}
		}
		m, w := piece(v.Low, v.High, v.X)
		return m, w, v.X
	}
	return "", true, v
}

// peeled: rest = list; loop { use rest[:n]; rest = rest[n:] }.
func peeled(p *ssa.Phi, use *ssa.Slice) (string, bool, ssa.Value) {
	h := p.Block()
	loop := naturalLoop(h)
	if len(loop) == 1 && !isSelfLoop(h) {
		return "", false, nil
	}
	var list, back ssa.Value
	for i, e := range p.Edges {
		if loop[h.Preds[i]] {
			if back != nil && back != e {
				return "", false, nil
			}
			back = e
		} else {
			list = e
		}
	}
	b, ok := back.(*ssa.Slice)
	if !ok || list == nil || b.X != p || b.Low == nil || b.High != nil || use.Low != nil || use.High == nil {
		return "", false, nil
	}
	d := linOf(b.Low).add(linOf(use.High), -1)
	if d.isConst() && d.c > 0 {
		return "the next piece starts behind the end of the one before", false, list
	}
	if c, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok {
		if bo, ok := c.Cond.(*ssa.BinOp); ok && loop[h.Succs[0]] && isLenCall(bo.X) {
			if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
				n, _ := constant.Int64Val(k.Value)
				if bo.Op == token.GTR && n > 0 || bo.Op == token.GEQ && n > 1 || bo.Op == token.NEQ && n != 0 {
					return "the loop ends before the end of the list", false, list
				}
			}
		}
	}
	return "", d.isConst() && d.c == 0, list
}

// indexUse judges list[i] for the index of a loop (or loops).
func indexUse(ix *ssa.IndexAddr) (msg string, whole bool) {
	list := ssa.Value(ix.X)
	if _, isPtr := list.Type().Underlying().(*types.Pointer); isPtr {
		return "", false
	}
	i, off := phiOf(ix.Index)
	if i == nil {
		return "", false
	}
	h := i.Block()
	loop := naturalLoop(h)
	if len(loop) == 1 && !isSelfLoop(h) {
		return "", false
	}
	var init, back ssa.Value
	for k, e := range i.Edges {
		if loop[h.Preds[k]] {
			if back != nil && back != e {
				return "", false
			}
			back = e
		} else {
			init = e
		}
	}
	if init == nil || back == nil {
		return "", false
	}
	step := linOf(back).add(linOf(i), -1)
	if step.isConst() && step.c > 1 {
		return fmt.Sprintf("the index grows by %d", step.c), false
	}
	if !step.isConst() || step.c != 1 {
		return "", false
	}
	end, ok := loopBound(h, loop, i)
	if !ok {
		return "", false
	}
	end = end.add(linear{nil, off}, 1)
	start := linOf(init).add(linear{nil, off}, 1)
	ll := lenKey(list)
	// the list may itself be a piece
	msg, whole, _ = sliceUse(list)
	if msg != "" {
		return msg, false
	}
	if start.isConst() {
		d := end.add(ll, -1)
		if start.c > 0 {
			return fmt.Sprintf("the first %d element(s) are left out", start.c), false
		}
		if d.isConst() && d.c < 0 {
			return fmt.Sprintf("the last %d element(s) are left out", -d.c), false
		}
		return "", whole && d.isConst() && d.c == 0
	}
	// [start, end) is a piece given by an outer loop
	m, w := pieceEnds(init, off, end, list)
	return m, w && whole
}

// pieceEnds: like piece, for an end that is not a value of its own.
func pieceEnds(low ssa.Value, off int64, end linear, list ssa.Value) (string, bool) {
	s, o2 := phiOf(low)
	if s == nil {
		return "", false
	}
	h := s.Block()
	loop := naturalLoop(h)
	if len(loop) == 1 && !isSelfLoop(h) {
		return "", false
	}
	var back ssa.Value
	for i, e := range s.Edges {
		if loop[h.Preds[i]] {
			if back != nil && back != e {
				return "", false
			}
			back = e
			continue
		}
		in := linOf(e)
		if in.isConst() && in.c+off+o2 > 0 {
			return fmt.Sprintf("the first piece starts at %d", in.c+off+o2), false
		}
		if !in.isConst() {
			if _, isPhi := e.(*ssa.Phi); !isPhi && positiveAtoms(in) {
				return "the first piece does not start at the first element", false
			}
			return "", false
		}
	}
	if back == nil {
		return "", false
	}
	ll := lenKey(list)
	next := linOf(back).add(linear{nil, off + o2}, 1)
	sure := true
	// replace values that stand for a choice by each of the choices
	ends := []linear{end}
	for k, f := range end.k {
		if f != 1 {
			continue
		}
		if v := valueNamed(h.Parent(), k); v != nil {
			if alts := alternatives(v); len(alts) > 1 && next.k[k] == 0 {
				ends = nil
				for _, a := range alts {
					ends = append(ends, end.add(linear{map[string]int64{k: 1}, 0}, -1).add(linOf(a), 1))
				}
			}
		}
	}
	for _, e := range ends {
		dl, dn := e.add(ll, -1), e.add(next, -1)
		switch {
		case dl.isConst() && dl.c == 0, dn.isConst() && dn.c == 0:
		case dl.isConst() && dl.c < 0:
			return "the last piece ends before the last element", false
		case dn.isConst() && dn.c < 0, dn.negative() && subAtoms(dn, e, next):
			return "the next piece starts behind the end of the one before", false
		default:
			sure = false
		}
	}
	bound, ok := loopBound(h, loop, s)
	if !ok {
		return "", false
	}
	d := bound.add(ll, -1).add(linear{nil, o2}, 1)
	if d.isConst() && d.c < 0 || !d.isConst() && d.negative() && !slicedAfter(list, loop) {
		return "the loop ends before the end of the list", false
	}
	return "", sure && d.isConst() && d.c == 0
}

func subAtoms(d, a, b linear) bool {
	for k := range d.k {
		if a.k[k] == 0 || b.k[k] == 0 {
			return false
		}
	}
	return true
}

func valueNamed(f *ssa.Function, k string) ssa.Value {
	if strings.ContainsAny(k, "*&.(") {
		return nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && v.Name() == k {
				return v
			}
		}
	}
	return nil
}

// elementsUsed gives the list accesses a value is made of: the element itself,
// a cell that holds it, or a field of it.
func elementsUsed(v ssa.Value, depth int) []*ssa.IndexAddr {
	if depth > 8 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.IndexAddr:
		return []*ssa.IndexAddr{v}
	case *ssa.UnOp:
		return elementsUsed(v.X, depth+1)
	case *ssa.FieldAddr:
		return elementsUsed(v.X, depth+1)
	case *ssa.Field:
		return elementsUsed(v.X, depth+1)
	case *ssa.Alloc:
		var r []*ssa.IndexAddr
		for _, ref := range *v.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == v {
				r = append(r, elementsUsed(s.Val, depth+1)...)
			}
		}
		return r
	case *ssa.MakeClosure:
		var r []*ssa.IndexAddr
		for _, b := range v.Bindings {
			r = append(r, elementsUsed(b, depth+1)...)
		}
		return r
	case *ssa.Call:
		var r []*ssa.IndexAddr
		for _, a := range v.Call.Args {
			r = append(r, elementsUsed(a, depth+1)...)
		}
		return r
	}
	return nil
}
