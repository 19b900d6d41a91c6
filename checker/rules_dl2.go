package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C33"] = func(p *Program, tier string) *Result {
		r := NewResult("C33", "on every path of the download: it ends without an error only if the context was cancelled, or the answer to a HEAD request gives the size of the local file and no later date, or a GET request for the address was answered with a status known to be a success, the file at the given path was opened and the whole body was copied to it, each without an error; the file is opened for appending only where the status is known to be 206 and with truncation only where it is known not to be; every GET request is bounded by a counter that starts at a constant, moves by at least one per round and is compared with the given number of retries, with one GET per round; a failing round leaves its error for the return")
		downloadComplete(p, r)
		return r
	}
}

func callNamed(t *Term, names ...string) *Term {
	if t == nil {
		return nil
	}
	if t.Op == "call" || t.Op == "pure" {
		for _, n := range names {
			if t.Key == n {
				return t
			}
		}
	}
	return nil
}

// httpReq describes a request that is made by a call: its method and whether
// it is for the address.
func httpReq(x *Exec, st *State, ci *CallInfo, isAddr func(*Term) bool) (method string, addr bool, ok bool) {
	reqOf := func(t *Term) (string, bool) {
		cs := t.FindSub(func(u *Term) bool {
			return callNamed(u, "net/http.NewRequest", "net/http.NewRequestWithContext") != nil
		})
		if len(cs) != 1 {
			return "?", false
		}
		c, i := cs[0], 0
		if c.Key == "net/http.NewRequestWithContext" {
			i = 1
		}
		if len(c.Args) < i+2 {
			return "?", false
		}
		m, _ := strConst(c.Args[i])
		if m == "" {
			m = "GET"
		}
		return m, isAddr(c.Args[i+1])
	}
	switch ci.Name {
	case "(*net/http.Client).Do":
		m, a := reqOf(ci.Arg(1))
		return m, a, true
	case "(net/http.RoundTripper).RoundTrip", "(*net/http.Transport).RoundTrip":
		m, a := reqOf(ci.Arg(1))
		return m, a, true
	case "(*net/http.Client).Get":
		return "GET", isAddr(ci.Arg(1)), true
	case "net/http.Get":
		return "GET", isAddr(ci.Arg(0)), true
	case "(*net/http.Client).Head":
		return "HEAD", isAddr(ci.Arg(1)), true
	case "net/http.Head":
		return "HEAD", isAddr(ci.Arg(0)), true
	}
	return "", false, false
}

func downloadComplete(p *Program, r *Result) {
	f := p.Fn(dlName)
	if f == nil {
		r.Bad("missing: "+dlName, "-", "no function %s", dlName)
		return
	}
	var pathP, urlP, retP *Term
	rule := &Rule{PureFn: pureTypes, ExactInts: true}
	rule.KeepFact = func(st *State, t *Term) bool {
		if t.hasOld() {
			return false
		}
		if t.Contains(retP) || t.Op == "lt" && len(t.Args) == 1 && t.Args[0].Op == "phi" {
			return true
		}
		for _, m := range st.marks {
			for _, u := range m.T {
				if u != nil && u.Op != "const" && t.Contains(u) {
					return true
				}
			}
		}
		return false
	}
	rule.Init = func(x *Exec, st *State, _ []*Term) {
		for i, q := range f.Params {
			b, _ := q.Type().Underlying().(*types.Basic)
			switch {
			case isStringType(q.Type()) && pathP == nil:
				pathP = x.Params[i]
			case isUrl(q.Type()) && urlP == nil:
				urlP = x.Params[i]
			case b != nil && b.Info()&types.IsUnsigned != 0 && retP == nil:
				retP = x.Params[i]
				x.Assume(st, x.tt.mk("lt", "1,;0", 0, types.Typ[types.Bool], retP), false)
			}
		}
	}
	isAddr := func(t *Term) bool {
		return t != nil && t.HasSub(func(u *Term) bool { return u == urlP || u.Op == "param" && isUrl(u.Typ) || u == whole(urlP) })
	}
	body := func(x *Exec, st *State, t, resp *Term) bool {
		t = strip(t)
		if t == nil || !t.Contains(resp) {
			return false
		}
		// the body field of the response, not something made from it
		switch t.Op {
		case "deref", "field":
			return !t.HasSub(func(u *Term) bool { return (u.Op == "call" || u.Op == "pure") && u != resp && u.Contains(resp) })
		case "call", "pure":
			switch t.Key {
			case "bufio.NewReader", "bufio.NewReaderSize", "io.NopCloser", "io.TeeReader":
				a := strip(t.Args[0])
				return a.Contains(resp) && (a.Op == "deref" || a.Op == "field")
			}
		}
		return false
	}
	isPath := func(t *Term) bool {
		return t == pathP || callNamed(t, "path/filepath.Clean", "path.Clean") != nil && t.Args[0] == pathP
	}
	fileOK := func(x *Exec, st *State, t *Term) (*Mark, bool) {
		t = strip(t)
		for _, m := range st.Marks("open") {
			if t.Contains(m.T[0]) {
				m := m
				return &m, true
			}
		}
		return nil, false
	}
	status := func(x *Exec, st *State, resp *Term) (lo, hi int64, known bool) {
		lo, hi = -1<<60, 1<<60
		for pr := range st.facts {
			if (pr.Op != "eq" && pr.Op != "lt") || len(pr.Args) != 1 {
				continue
			}
			a := pr.Args[0]
			if !a.Contains(resp) || !a.HasSub(func(u *Term) bool {
				return (u.Op == "field" || u.Op == "fieldaddr") && strings.HasSuffix(u.Key, ":StatusCode")
			}) || a.HasSub(func(u *Term) bool { return (u.Op == "call" || u.Op == "pure") && u != resp && u.Contains(resp) }) {
				continue
			}
			l, h, _ := x.interval(st, x.tt.mk("lt", "1,;0", 0, types.Typ[types.Bool], a))
			if l != nil && *l > lo {
				lo, known = *l, true
			}
			if h != nil && *h < hi {
				hi, known = *h, true
			}
		}
		return
	}
	not206 := func(x *Exec, st *State, resp *Term) bool {
		lo, hi, _ := status(x, st, resp)
		if lo > 206 || hi < 206 {
			return true
		}
		for pr, v := range st.facts {
			if pr.Op == "eq" && !v && len(pr.Args) == 1 && pr.Args[0].Contains(resp) {
				cs, k := decodeLin(pr)
				if len(cs) == 1 && cs[0] != 0 && -k/cs[0] == 206 && pr.Args[0].HasSub(func(u *Term) bool {
					return (u.Op == "field" || u.Op == "fieldaddr") && strings.HasSuffix(u.Key, ":StatusCode")
				}) {
					return true
				}
			}
		}
		return false
	}
	curGet := func(st *State) (Mark, bool) {
		l := st.Marks("get")
		if len(l) == 0 {
			return Mark{}, false
		}
		return l[0], true
	}
	round := []string{"get", "open", "copied", "head", "parse", "all"}
	newRound := func(st *State) {
		for _, k := range round {
			st.DelMarks(k, nil)
		}
	}
	rule.OnRecv = func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, inSel bool) {
		if isCtxDone(ch) {
			st.AddMark("cancelled", x.pos(in))
		}
	}
	opened := func(x *Exec, st *State, ci *CallInfo, res, path *Term, flags int64, known bool) {
		if !isPath(path) {
			return
		}
		if known && flags&3 == 0 {
			return // for reading
		}
		g, ok := curGet(st)
		r.Counts["openings of the file for writing"]++
		r.Check(ok, st, "changed-before-answer", ci.Pos, "the file is opened for writing before there is an answer of the server")
		if !ok {
			return
		}
		resp := g.T[0]
		lo, hi, _ := status(x, st, resp)
		r.Check(x.KnownNil(st, g.T[1]) && lo >= 200 && hi <= 299, st, "changed-by-failure", ci.Pos, "the file is opened for writing although the server's answer is not known to be a success")
		const appendFlag, truncFlag = 0x400, 0x200
		switch {
		case !known:
			r.Check(false, st, "unknown-mode", ci.Pos, "how the file is opened for writing cannot be told")
		case lo == 206 && hi == 206:
			r.Check(flags&appendFlag != 0 && flags&truncFlag == 0, st, "partial-not-appended", ci.Pos, "the file is opened for a partial answer in a way that does not append to it")
		case not206(x, st, resp):
			r.Check(flags&appendFlag == 0 && flags&truncFlag != 0, st, "full-not-replaced", ci.Pos, "the file is opened for a complete answer without being truncated, or for appending")
		default:
			r.Check(false, st, "mode-without-status", ci.Pos, "the file is opened for writing without it being known whether the answer is partial")
		}
		st.AddMark("open", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res))
	}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		if ci.Inl {
			return
		}
		m, addr, ok := httpReq(x, st, ci, isAddr)
		if ok && m != "HEAD" {
			r.Counts["GET requests"]++
			r.Check(addr, st, "other-address", ci.Pos, "the request is not for the address that was given")
			if _, had := curGet(st); had {
				r.Check(false, st, "second-request", ci.Pos, "the body is requested a second time in the same round")
			}
			bounded, why := retryBound(x, st, retP)
			r.Check(bounded, st, "unbounded-retries", ci.Pos, "%s", why)
		}
		if isFsMutation(ci.Name) && ci.Name != "os.OpenFile" && ci.Name != "os.Create" && !strings.Contains(ci.Name, "Chtimes") && ci.Name != "os.WriteFile" {
			for i := range ci.Args {
				if isPath(ci.Arg(i)) {
					r.Check(false, st, "file-changed", ci.Pos, "%s changes the file in a way that is not a stored answer", ci.Name)
				}
			}
		}
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if ci.Inl {
			return
		}
		ctxErr2(x, st, ci, res)
		if m, addr, ok := httpReq(x, st, ci, isAddr); ok {
			k := "get"
			if m == "HEAD" {
				k = "head"
			} else {
				st.DelMarks("get", nil)
				st.DelMarks("open", nil)
				st.DelMarks("copied", nil)
			}
			if addr && (m == "GET" || m == "HEAD") {
				st.AddMark(k, ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res))
			} else if k == "get" {
				st.AddMark("get", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res))
			}
			return
		}
		switch ci.Name {
		case "strconv.ParseInt", "strconv.ParseUint", "strconv.Atoi", "net/http.ParseTime":
			st.AddMark("parse", ci.Pos, res, x.ErrOf(ci, res))
		case "os.OpenFile":
			fl, ok := intOf(ci.Arg(1))
			opened(x, st, ci, res, ci.Arg(0), fl, ok)
		case "os.Create":
			opened(x, st, ci, res, ci.Arg(0), 0x200|0x40|2, true)
		case "os.WriteFile":
			if isPath(ci.Arg(0)) {
				opened(x, st, ci, res, ci.Arg(0), 0x200|0x40|1, true)
				for _, a := range st.Marks("all") {
					if ci.Arg(1).Contains(a.T[0]) && x.KnownNil(st, a.T[1]) {
						st.AddMark("copied", ci.Pos, x.ErrOf(ci, res))
					}
				}
			}
		case "io.ReadAll", "io/ioutil.ReadAll":
			if g, ok := curGet(st); ok && body(x, st, ci.Arg(0), g.T[0]) {
				st.AddMark("all", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res))
			}
		case "io.Copy", "io.CopyBuffer":
			if m, ok := fileOK(x, st, ci.Arg(0)); ok {
				g, have := curGet(st)
				if have && body(x, st, ci.Arg(1), g.T[0]) && x.KnownNil(st, m.T[1]) {
					st.AddMark("copied", ci.Pos, x.ErrOf(ci, res))
				} else {
					r.Check(false, st, "other-content", ci.Pos, "something else than the whole body of the answer is copied to the file")
				}
			}
		case "(*os.File).ReadFrom":
			if m, ok := fileOK(x, st, ci.Arg(0)); ok {
				g, have := curGet(st)
				if have && body(x, st, ci.Arg(1), g.T[0]) && x.KnownNil(st, m.T[1]) {
					st.AddMark("copied", ci.Pos, x.ErrOf(ci, res))
				}
			}
		case "(*os.File).Write", "(*os.File).WriteString":
			if m, ok := fileOK(x, st, ci.Arg(0)); ok {
				done := false
				for _, a := range st.Marks("all") {
					if ci.Arg(1).Contains(a.T[0]) && x.KnownNil(st, a.T[1]) && x.KnownNil(st, m.T[1]) {
						st.AddMark("copied", ci.Pos, x.ErrOf(ci, res))
						done = true
					}
				}
				r.Check(done, st, "other-content", ci.Pos, "something else than the whole body of the answer is written to the file")
			}
		}
	}
	rule.OnLoopHead = func(x *Exec, st *State, b *ssa.BasicBlock) {
		// a new round starts where the loop that makes the requests does
		if loopMakes(p, b) {
			newRound(st)
		}
	}
	rule.OnWiden = func(x *Exec, st *State, old, nt *Term) {
		if nt.Typ != nil && types.IsInterface(nt.Typ) && x.KnownNonNil(st, old) {
			x.Assume(st, x.isNilTerm(nt), false)
		}
		if b, ok := nt.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && retP != nil {
			// what is known about the counter's relation to the limit stays known
			for k := int64(0); k <= 1; k++ {
				rel := func(t *Term) *Term {
					return x.compare(token.LEQ, t, x.binop(token.ADD, retP, x.tt.intc(k), retP.Typ, retP.Typ), retP.Typ)
				}
				if v, k := x.Truth(st, rel(old)); k && v {
					x.Assume(st, rel(nt), true)
					break
				}
			}
			pos := func(t *Term) *Term { return x.compare(token.GEQ, t, x.tt.intc(1), retP.Typ) }
			if v, k := x.Truth(st, pos(old)); k && v {
				x.Assume(st, pos(nt), true)
			}
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		r.Counts["returns"]++
		e := res[len(res)-1]
		if x.KnownNonNil(st, e) {
			return
		}
		s := st.clone()
		if !x.KnownNil(s, e) && !x.Assume(s, x.isNilTerm(e), true) {
			return
		}
		ended := len(s.Marks("cancelled")) > 0
		for _, m := range s.Marks("ctxerr") {
			ended = ended || x.KnownNonNil(s, m.T[1])
		}
		if ended {
			r.Counts["successful ends: cancelled"]++
			return
		}
		if upToDate(x, s, isPath) {
			r.Counts["successful ends: unchanged"]++
			return
		}
		why := "no answer to a request for the address was stored"
		if g, ok := curGet(s); ok {
			lo, hi, _ := status(x, s, g.T[0])
			switch {
			case !x.KnownNil(s, g.T[1]):
				why = "the request may have failed"
			case lo < 200 || hi > 299:
				why = "the status of the answer is not known to be a success"
			case len(s.Marks("copied")) == 0:
				why = "the whole body was not copied to the file at the path"
			default:
				why = "copying the body to the file may have failed"
				for _, m := range s.Marks("copied") {
					if x.KnownNil(s, m.T[0]) {
						r.Counts["successful ends: stored"]++
						return
					}
				}
			}
		}
		r.Check(false, s, "incomplete-success", dlName, "the download can be reported successful although %s", why)
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(f)
	r.Absorb(x)
	r.NeedAtLeast(1, "GET requests")
	r.NeedAtLeast(1, "returns")
	r.NeedAtLeast(1, "successful ends: stored")
	r.NeedAtLeast(1, "openings of the file for writing")
	if retP == nil {
		r.Bad("missing: number of retries", "-", "%s has no parameter for the number of retries", dlName)
	}
}

func intOf(t *Term) (int64, bool) {
	if t == nil || t.Op != "const" {
		return 0, false
	}
	var v int64
	neg, n := false, 0
	for i, c := range t.Key {
		if i == 0 && c == '-' {
			neg = true
			continue
		}
		if c < '0' || c > '9' {
			return 0, false
		}
		v = v*10 + int64(c-'0')
		n++
	}
	if neg {
		v = -v
	}
	return v, n > 0
}

// ctxErr2: a context whose error is known to be non-nil is cancelled.
func ctxErr2(x *Exec, st *State, ci *CallInfo, res *Term) {
	if ci.Name != "(context.Context).Err" || res == nil {
		return
	}
	for _, m := range st.Marks("ctxerr") {
		if m.T[0] == ci.Arg(0) && x.KnownNonNil(st, m.T[1]) {
			x.Assume(st, x.isNilTerm(res), false)
		}
	}
	st.DelMarks("ctxerr", func(m Mark) bool { return m.T[0] == ci.Arg(0) })
	st.AddMark("ctxerr", ci.Pos, ci.Arg(0), res)
}

// upToDate: the answer to a HEAD request gives the size of the file on disk
// and a date that is not after the file's.
func upToDate(x *Exec, st *State, isPath func(*Term) bool) bool {
	onDisk := func(t *Term, what string) bool {
		return t.HasSub(func(u *Term) bool {
			if u.Op != "call" && u.Op != "pure" || !strings.HasSuffix(u.Key, "."+what) && !strings.HasSuffix(u.Key, ")."+what) {
				return false
			}
			return u.HasSub(isPath)
		})
	}
	for _, h := range st.Marks("head") {
		if !x.KnownNil(st, h.T[1]) {
			continue
		}
		onServer := func(t *Term, fn, header string) bool {
			cs := t.FindSub(func(u *Term) bool { return (u.Op == "call" || u.Op == "pure") && u.Key == fn })
			if len(cs) != 1 {
				return false
			}
			c := cs[0]
			if !c.HasSub(func(u *Term) bool {
				if callNamed(u, "(net/http.Header).Get") == nil || len(u.Args) < 2 {
					return false
				}
				s, _ := strConst(u.Args[1])
				return strings.EqualFold(s, header) && u.Contains(h.T[0])
			}) {
				return false
			}
			// and it was parsed
			for _, m := range st.Marks("parse") {
				if m.T[0] == c && x.KnownNil(st, m.T[1]) {
					return true
				}
			}
			return false
		}
		lenOfHead := func(t *Term) bool {
			return t.Contains(h.T[0]) && (t.Op == "deref" || t.Op == "field") && t.HasSub(func(u *Term) bool {
				return strings.HasSuffix(u.Key, ":ContentLength")
			})
		}
		size, date := false, false
		for pr, v := range st.facts {
			if pr.Op == "eq" && v && len(pr.Args) == 2 && differ(pr) {
				for i := 0; i < 2; i++ {
					a, b := pr.Args[i], pr.Args[1-i]
					if (onServer(a, "strconv.ParseInt", "Content-Length") || onServer(a, "strconv.ParseUint", "Content-Length") || onServer(a, "strconv.Atoi", "Content-Length") || lenOfHead(a)) && onDisk(b, "Size") {
						size = true
					}
				}
			}
			if c := strip(pr); (c.Op == "call" || c.Op == "pure") && len(c.Args) >= 2 {
				a, b := c.Args[0], c.Args[1]
				loc := func(t *Term) bool { return onDisk(t, "ModTime") }
				rem := func(t *Term) bool { return onServer(t, "net/http.ParseTime", "Last-Modified") }
				switch c.Key {
				case "(time.Time).Before":
					date = date || !v && loc(a) && rem(b)
					date = date || v && rem(a) && loc(b)
				case "(time.Time).After":
					date = date || !v && rem(a) && loc(b)
					date = date || v && loc(a) && rem(b)
				case "(time.Time).Equal":
					date = date || v && (rem(a) && loc(b) || loc(a) && rem(b))
				}
			}
		}
		if size && date {
			return true
		}
	}
	return false
}

// loopMakes: the loop with this header contains, directly or through calls,
// an HTTP request.
func loopMakes(p *Program, h *ssa.BasicBlock) bool {
	body := naturalLoop(h)
	g := p.Graph()
	for b := range body {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := c.Common()
			if com.IsInvoke() {
				continue
			}
			if sc := com.StaticCallee(); sc != nil {
				if strings.HasPrefix(fname(sc), "(*net/http.Client).") || strings.HasPrefix(fname(sc), "net/http.Get") {
					return true
				}
				if g.has(sc, "(*net/http.Client).Do|(*net/http.Client).Get|net/http.Get") {
					return true
				}
			} else {
				return true
			}
		}
	}
	return false
}

// naturalLoop gives the blocks of the natural loop(s) with this header.
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, pr := range h.Preds {
		if h.Dominates(pr) {
			work = append(work, pr)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if body[b] {
			continue
		}
		body[b] = true
		work = append(work, b.Preds...)
	}
	return body
}

// retryBound: some loop counter of a function on the call stack bounds the
// number of rounds by the limit plus one.
func retryBound(x *Exec, st *State, limit *Term) (bool, string) {
	why := "the number of requests is not limited by the given number of retries"
	inLoop := false
	for _, fr := range st.frames {
		for _, b := range fr.fn.Blocks {
			loop := naturalLoop(b)
			if len(loop) == 1 && !isSelfLoop(b) || !loop[fr.block] {
				continue
			}
			inLoop = true
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				t := fr.env[phi]
				if t == nil {
					continue
				}
				if boundedBy(x, st, phi, t, loop, limit, fr.env) {
					return true, ""
				}
			}
		}
	}
	if !inLoop {
		return true, ""
	}
	return false, why
}

func isSelfLoop(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if s == b {
			return true
		}
	}
	return false
}

func boundedBy(x *Exec, st *State, phi *ssa.Phi, t *Term, loop map[*ssa.BasicBlock]bool, limit *Term, env map[ssa.Value]*Term) bool {
	b := phi.Block()
	var step int64
	var start *ssa.Const
	var startV ssa.Value
	for i, e := range phi.Edges {
		if loop[b.Preds[i]] {
			op, ok := e.(*ssa.BinOp)
			if !ok {
				return false
			}
			c, ok := op.Y.(*ssa.Const)
			if !ok || op.X != ssa.Value(phi) || c.Value == nil {
				return false
			}
			v, exact := constant.Int64Val(constant.ToInt(c.Value))
			if !exact {
				return false
			}
			switch op.Op {
			case token.ADD:
			case token.SUB:
				v = -v
			default:
				return false
			}
			if step != 0 && step != v {
				return false
			}
			step = v
		} else {
			if startV != nil {
				return false
			}
			startV = e
			start, _ = e.(*ssa.Const)
		}
	}
	switch {
	case step >= 1 && start != nil && start.Value != nil:
		c0, exact := constant.Int64Val(constant.ToInt(start.Value))
		if !exact {
			return false
		}
		// t <= limit + k with k <= c0 (in units of the step, at least 1)
		for pr, v := range st.facts {
			cs, k, ok := linOver(pr, limit, t)
			if !ok {
				continue
			}
			a, c := cs[0], cs[1] // a*limit + c*t + k
			if pr.Op == "lt" && !v && a == 1 && c == -1 && k <= c0 {
				return true // limit - t + k >= 0
			}
			if pr.Op == "lt" && v && a == -1 && c == 1 && -k-1 <= c0 {
				return true // t - limit + k < 0
			}
		}
		if iv, ok := intOf(t); ok && iv <= c0 {
			return true // the first round
		}
		// a constant number of rounds so far: t known, limit >= t
		if iv, ok := intOf(t); ok {
			for pr, v := range st.facts {
				if pr.Op != "lt" || len(pr.Args) != 1 || retStrip(pr.Args[0]) != limit {
					continue
				}
				cs, k := decodeLin(pr)
				if cs[0] == 1 && !v && -k >= iv-c0 { // limit + k >= 0: limit >= -k
					return true
				}
				if cs[0] == -1 && v && k+1 >= iv-c0 { // -limit + k < 0: limit > k
					return true
				}
			}
		}
	case step <= -1:
		// starts at limit + c0 (c0 <= 1), and t >= 1 here
		base, c0, ok := linearOf(startV)
		if !ok || env[base] != limit || c0 > 1 {
			return false
		}
		need := c0 // t >= need keeps the number of rounds at limit + 1 at most
		for pr, v := range st.facts {
			if pr.Op == "lt" && len(pr.Args) == 1 && pr.Args[0] == t {
				cs, k := decodeLin(pr)
				if cs[0] == 1 && !v && -k >= need || cs[0] == -1 && v && k+1 >= need {
					return true
				}
			}
			if pr.Op == "eq" && !v && len(pr.Args) == 1 && pr.Args[0] == t {
				// counts down to exactly zero
				cs, k := decodeLin(pr)
				if step == -1 && (cs[0] == 1 || cs[0] == -1) && k == 0 && need <= 1 {
					return true
				}
			}
		}
		if t == limit || t.Contains(limit) {
			return true // the first round
		}
	}
	return false
}

// differ: the fact is about the plain difference of its two terms.
func differ(pr *Term) bool {
	cs, k := decodeLin(pr)
	return len(cs) == 2 && k == 0 && cs[0] == -cs[1] && (cs[0] == 1 || cs[0] == -1)
}

func retStrip(t *Term) *Term {
	t = strip(t)
	for t != nil && (t.Op == "conv" || t.Op == "convert") {
		t = strip(t.Args[0])
	}
	return t
}

func linearOf(v ssa.Value) (ssa.Value, int64, bool) {
	switch v := v.(type) {
	case *ssa.Convert:
		return linearOf(v.X)
	case *ssa.BinOp:
		if c, ok := v.Y.(*ssa.Const); ok && c.Value != nil && (v.Op == token.ADD || v.Op == token.SUB) {
			b, k, ok := linearOf(v.X)
			n, exact := constant.Int64Val(constant.ToInt(c.Value))
			if v.Op == token.SUB {
				n = -n
			}
			return b, k + n, ok && exact
		}
		return nil, 0, false
	}
	return v, 0, v != nil
}

// linOver decodes a fact over the two terms, in either order.
func linOver(pr, a, b *Term) ([2]int64, int64, bool) {
	if (pr.Op != "lt" && pr.Op != "eq") || len(pr.Args) != 2 {
		return [2]int64{}, 0, false
	}
	cs, k := decodeLin(pr)
	p, q := retStrip(pr.Args[0]), retStrip(pr.Args[1])
	switch {
	case p == a && q == retStrip(b):
		return [2]int64{cs[0], cs[1]}, k, true
	case p == retStrip(b) && q == a:
		return [2]int64{cs[1], cs[0]}, k, true
	}
	return [2]int64{}, 0, false
}
