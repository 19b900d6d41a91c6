package main

import (
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// dispatchSkips reports every round of a loop that hands out work (a call or
// go statement that reaches one of the movers) without handing any out. A
// round may be empty because a list is empty, because the loop gives up
// altogether, or because of a condition that is not about this round (a stop
// flag or an error kept outside the loop).
func dispatchSkips(p *Program, r *Result, root *ssa.Function, ms []*ssa.Function) {
	g := p.Graph()
	isMover := map[*ssa.Function]bool{}
	for _, m := range ms {
		isMover[m] = true
	}
	reaches := func(f *ssa.Function) bool {
		if f == nil {
			return false
		}
		if isMover[f] {
			return true
		}
		tr := g.Reach(f)
		for m := range isMover {
			if tr[m] {
				return true
			}
		}
		return false
	}
	target := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, d := in.(*ssa.Defer); d {
			return false
		}
		if reaches(c.Common().StaticCallee()) {
			return true
		}
		for _, a := range c.Common().Args {
			if mc, ok := a.(*ssa.MakeClosure); ok && reaches(mc.Fn.(*ssa.Function)) {
				return true
			}
		}
		return false
	}
	for f := range g.Reach(root) {
		if isMover[f] || len(f.Blocks) == 0 {
			continue
		}
		hand := map[*ssa.BasicBlock]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if target(in) {
					hand[b] = true
				}
			}
		}
		if len(hand) == 0 {
			continue
		}
		for b := range hand {
			for _, in := range b.Instrs {
				if !target(in) {
					continue
				}
				com := in.(ssa.CallInstruction).Common()
				var xs []*ssa.IndexAddr
				for _, a := range append(append([]ssa.Value{}, com.Args...), com.Value) {
					xs = append(xs, elementsUsed(a, 0)...)
				}
				inner := innermost(b)
				vary := false
				for _, a := range append(append([]ssa.Value{}, com.Args...), com.Value) {
					vary = vary || inner != nil && dependsOnRound(a, inner, map[ssa.Value]bool{})
					if sl, ok := a.(*ssa.Slice); ok {
						msg, _, _ := sliceUse(sl)
						r.Check(msg == "", nil, "bin-left-out", p.PosStr(sl.Pos()), "the loop that hands out the bins to move does not cover its list: %s", msg)
					}
				}
				for _, ix := range xs {
					msg, whole := indexUse(ix)
					if whole {
						r.Counts["lists handed out completely"]++
					}
					r.Check(msg == "", nil, "bin-left-out", p.PosStr(ix.Pos()), "the loop that hands out the bins to move does not cover its list: %s", msg)
				}
				if len(xs) > 0 && inner != nil && isCounting(inner) {
					r.Check(vary, nil, "bin-left-out", p.PosStr(in.Pos()), "the loop that hands out the bins to move hands out the same one in every round")
				}
			}
		}
		for _, h := range f.Blocks {
			loop := naturalLoop(h)
			if len(loop) == 1 && !isSelfLoop(h) {
				continue
			}
			inside := false
			for b := range hand {
				inside = inside || loop[b]
			}
			if !inside || hand[h] {
				continue
			}
			stop := map[*ssa.BasicBlock]bool{}
			for b := range hand {
				stop[b] = true
			}
			for _, h2 := range f.Blocks {
				if h2 == h || !loop[h2] {
					continue
				}
				l2 := naturalLoop(h2)
				if len(l2) == 1 && !isSelfLoop(h2) || l2[h] {
					continue
				}
				for b := range hand {
					if l2[b] {
						stop[h2] = true
					}
				}
			}
			r.Counts["loops that hand out bins"]++
			// the condition by which the round was cut short
			var why ssa.Instruction
			seen := map[*ssa.BasicBlock]bool{}
			var dfs func(b *ssa.BasicBlock, last ssa.Instruction) bool
			dfs = func(b *ssa.BasicBlock, last ssa.Instruction) bool {
				for i, s := range b.Succs {
					if !loop[s] || stop[s] {
						continue
					}
					l := last
					if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
						if emptyRound(c.Cond, i == 0, loop) {
							continue
						}
						l = c
					}
					if s == h {
						why = l
						return true
					}
					if !seen[s] {
						seen[s] = true
						if dfs(s, l) {
							return true
						}
					}
				}
				return false
			}
			skip := dfs(h, nil)
			if at := leftEarly(h, loop); at.IsValid() {
				r.Check(false, nil, "bin-left-out", p.PosStr(at), "the loop in %s that hands out the bins to move is left before it has run through its list", fname(f))
			}
			pos := p.PosStr(f.Pos())
			if why != nil {
				pos = p.PosStr(why.(*ssa.If).Cond.Pos())
			}
			r.Check(!skip, nil, "bin-skipped", pos, "a round of the loop in %s that hands out the bins to move may hand out none, so a bin stays behind although the coverage file is replaced", fname(f))
		}
	}
}

// emptyRound: taking this edge means that there is nothing to do in this
// round, or that the condition does not come from this round.
func emptyRound(c ssa.Value, taken bool, loop map[*ssa.BasicBlock]bool) bool {
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		c, taken = u.X, !taken
	}
	outside := func(v ssa.Value) bool { return fromOutside(v, loop) }
	if b, ok := c.(*ssa.BinOp); ok {
		x, y, op := b.X, b.Y, b.Op
		if _, ok := x.(*ssa.Const); ok {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if k, ok := y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && isLenCall(x) {
			n, _ := constant.Int64Val(k.Value)
			switch {
			case n == 0 && (op == token.EQL || op == token.LEQ), n == 1 && op == token.LSS:
				return taken
			case n == 0 && (op == token.NEQ || op == token.GTR), n == 1 && op == token.GEQ:
				return !taken
			}
		}
		return outside(b.X) && outside(b.Y)
	}
	return outside(c)
}

func isLenCall(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

// fromOutside: the value does not depend on what the round worked on.
func fromOutside(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Parameter, *ssa.FreeVar, *ssa.Function:
		return true
	case *ssa.UnOp:
		if v.Op == token.MUL {
			// a shared cell that no instruction of the loop writes
			if !fromOutside(v.X, loop) {
				return false
			}
			for b := range loop {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && s.Addr == v.X {
						return false
					}
				}
			}
			return true
		}
		if v.Op == token.ARROW {
			return false
		}
		return fromOutside(v.X, loop)
	case *ssa.FieldAddr:
		return fromOutside(v.X, loop)
	case *ssa.Field:
		return fromOutside(v.X, loop)
	case *ssa.Call:
		c := v.Common()
		if !c.IsInvoke() && c.StaticCallee() == nil {
			return false
		}
		if c.IsInvoke() && !fromOutside(c.Value, loop) {
			return false
		}
		for _, a := range c.Args {
			if !fromOutside(a, loop) {
				return false
			}
		}
		n := ""
		if c.IsInvoke() {
			n = "invoke." + c.Method.Name()
		} else if c.StaticCallee() != nil {
			n = fname(c.StaticCallee())
		}
		switch n {
		case "(*sync/atomic.Bool).Load", "(*sync/atomic.Int32).Load", "(*sync/atomic.Int64).Load", "(*sync/atomic.Uint32).Load",
			"sync/atomic.LoadInt32", "sync/atomic.LoadInt64", "sync/atomic.LoadUint32", "(*sync/atomic.Value).Load", "invoke.Err":
			return true
		}
		return !loop[v.Block()]
	}
	if in, ok := v.(ssa.Instruction); ok {
		if in.Block() == nil {
			return true
		}
		if !loop[in.Block()] {
			return true
		}
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() != nil {
			return false
		}
	}
	return false
}

// innermost gives the header of the innermost loop a block is in.
func innermost(b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	n := 0
	for _, h := range b.Parent().Blocks {
		l := naturalLoop(h)
		if len(l) == 1 && !isSelfLoop(h) || !l[b] {
			continue
		}
		if best == nil || len(l) < n {
			best, n = h, len(l)
		}
	}
	return best
}

// dependsOnRound: the value is made of the loop's variables or of something
// received or taken from an iterator in the loop.
func dependsOnRound(v ssa.Value, h *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	l := naturalLoop(h)
	switch w := v.(type) {
	case *ssa.Phi:
		if w.Block() == h {
			return true
		}
	case *ssa.Next:
		return l[w.Block()]
	case *ssa.Call:
		if l[w.Block()] && !isLenCall(w) {
			return true
		}
	case *ssa.Alloc:
		for _, ref := range *w.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == w && l[s.Block()] && dependsOnRound(s.Val, h, seen) {
				return true
			}
		}
		return false
	case *ssa.UnOp:
		if w.Op == token.ARROW && l[w.Block()] {
			return true
		}
	case *ssa.Select:
		return l[w.Block()]
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && dependsOnRound(*op, h, seen) {
			return true
		}
	}
	return false
}

// isCounting: the loop runs over an index.
func isCounting(h *ssa.BasicBlock) bool {
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, ok := loopBound(h, naturalLoop(h), p); ok {
			return true
		}
	}
	return false
}

// joinsExit: the block continues where the loop's own end continues.
func joinsExit(s, h *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool) bool {
	for i := 0; i < 4; i++ {
		for _, e := range h.Succs {
			if e == s && !loop[e] {
				_, ret := s.Instrs[len(s.Instrs)-1].(*ssa.Return)
				return !ret || len(s.Preds) > 1
			}
		}
		if len(s.Succs) != 1 || len(s.Instrs) != 1 {
			return false
		}
		s = s.Succs[0]
	}
	return false
}

// leftEarly: the loop is left for what follows it (or by returning success)
// because of how far it has come, other than by its own condition.
func leftEarly(h *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool) token.Pos {
	for b := range loop {
		c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b == h {
			continue
		}
		bo, ok := c.Cond.(*ssa.BinOp)
		if !ok || !isIntType(bo.X.Type()) {
			continue
		}
		d := linOf(bo.X).add(linOf(bo.Y), -1)
		counts := false
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			counts = counts || d.k[valKey(ph)] != 0
		}
		if !counts {
			continue
		}
		for _, s := range b.Succs {
			if !loop[s] && (joinsExit(s, h, loop) || returnsNil(s)) {
				return bo.Pos()
			}
		}
	}
	return token.NoPos
}

func returnsNil(s *ssa.BasicBlock) bool {
	ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return)
	if !ok || len(s.Instrs) > 2 {
		return false
	}
	if len(ret.Results) == 0 {
		return true
	}
	c, ok := ret.Results[len(ret.Results)-1].(*ssa.Const)
	return ok && c.Value == nil
}
