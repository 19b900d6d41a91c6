package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxInline = 26

// callInfo evaluates callee and arguments of a call.
func (x *Exec) callInfo(s *State, f *Frame, in ssa.Instruction, c *ssa.CallCommon, mode byte) *CallInfo {
	ci := &CallInfo{Instr: in, Ctx: f.ctx, Pos: x.pos(in), Common: c, Mode: mode, Sig: c.Signature()}
	for _, a := range c.Args {
		ci.Args = append(ci.Args, x.val(s, f, a))
	}
	if c.IsInvoke() {
		r := x.val(s, f, c.Value)
		x.resolveInvoke(ci, r, c.Value.Type(), c.Method)
		return ci
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		ci.Name = "builtin." + v.Name()
		return ci
	case *ssa.Function:
		ci.Fn = v
		ci.Name = fname(v)
		return ci
	}
	t := x.val(s, f, c.Value)
	x.resolveFn(ci, t)
	return ci
}

func (x *Exec) resolveInvoke(ci *CallInfo, r *Term, it types.Type, m *types.Func) {
	u := r
	if u.Op == "old" && u.Args[0].Op == "iface" {
		u = u.Args[0]
	}
	if u.Op == "iface" {
		var pkg *types.Package = m.Pkg()
		if sel := x.P.Prog.MethodSets.MethodSet(u.Typ).Lookup(pkg, m.Name()); sel != nil {
			if fn := x.P.Prog.MethodValue(sel); fn != nil {
				ci.Fn = fn
				ci.Name = fname(fn)
				if fn.Synthetic != "" {
					if o, ok := fn.Object().(*types.Func); ok {
						if g := x.P.Prog.FuncValue(o); g != nil {
							ci.Name = fname(g)
						}
					}
				}
				ci.Args = append([]*Term{u.Args[0]}, ci.Args...)
				return
			}
		}
	}
	ci.Name = "(" + shortName(types.TypeString(it, nil)) + ")." + m.Name()
	ci.Args = append([]*Term{r}, ci.Args...)
}

func (x *Exec) resolveFn(ci *CallInfo, t *Term) {
	ci.FnTerm = t
	u := strip(t)
	if u.Op == "old" {
		u = strip(u.Args[0])
	}
	fn := x.fnOf[u]
	if fn == nil {
		fn = x.fnOf[t]
	}
	if fn == nil {
		ci.Name = "dynamic"
		if u.Op == "deref" && u.Args[0].Op == "fieldaddr" {
			n := u.Args[0].Key
			ci.Name = "dynamic." + n[strings.IndexByte(n, ':')+1:]
		}
		return
	}
	if fn.Synthetic != "" && strings.HasSuffix(fn.Name(), "$bound") && len(u.Args) == 1 {
		if o, ok := fn.Object().(*types.Func); ok {
			if g := x.P.Prog.FuncValue(o); g != nil {
				ci.Fn = g
				ci.Name = fname(g)
				ci.Args = append([]*Term{u.Args[0]}, ci.Args...)
				return
			}
			sig := o.Type().(*types.Signature)
			if sig.Recv() != nil {
				x.resolveInvoke(ci, u.Args[0], sig.Recv().Type(), o)
				return
			}
		}
	}
	ci.Fn = fn
	ci.Name = fname(fn)
	if u.Op == "closure" {
		ci.clos = u
	}
}

func (x *Exec) call(s *State, f *Frame, in *ssa.Call, c *ssa.CallCommon, mode byte) bool {
	ci := x.callInfo(s, f, in, c, mode)
	return x.doCall(s, f, ci)
}

func isAbort(n string) bool {
	switch n {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "log.Panic", "log.Panicf":
		return true
	}
	if strings.HasPrefix(n, "github.com/golang/glog.") {
		m := strings.TrimPrefix(n, "github.com/golang/glog.")
		return strings.HasPrefix(m, "Fatal") || strings.HasPrefix(m, "Exit")
	}
	return false
}

func isLogging(n string) bool {
	return strings.HasPrefix(n, "github.com/golang/glog.") || strings.HasPrefix(n, "(github.com/golang/glog.") ||
		strings.HasPrefix(n, "log.") || n == "fmt.Printf" || n == "fmt.Println" || n == "fmt.Print" ||
		strings.HasPrefix(n, "github.com/hashicorp/go-metrics") || strings.HasPrefix(n, "github.com/armon/go-metrics") ||
		strings.HasPrefix(n, "github.com/vbauerster/mpb")
}

var purePkgs = []string{"strings.", "strconv.", "path.", "unicode.", "unicode/utf8.", "math.", "encoding/hex.", "math/bits.",
	"errors.", "crypto/sha256.Sum", "crypto/x509.Parse", "cmp.", "net/url.", "(*net/url.URL).", "(time.Duration).", "(time.Time).", "(time.Month).",
	"(*time.Location).", "(net/url.Values).", "(*math/big.Int).", "(*encoding/base64.Encoding).", "(encoding/base64.Encoding)."}

var pureNames = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true,
	"path/filepath.Join": true, "path/filepath.Base": true, "path/filepath.Dir": true, "path/filepath.Ext": true, "path/filepath.Clean": true,
	"bytes.Equal": true, "bytes.Compare": true, "bytes.HasPrefix": true, "bytes.TrimSpace": true, "bytes.Split": true, "bytes.Contains": true,
	"bytes.NewReader": true, "slices.Contains": true, "slices.Index": true, "slices.Clone": true,
	"os.IsNotExist": true, "os.IsExist": true, "os.IsTimeout": true, "time.Parse": true, "time.Unix": true, "time.UnixMilli": true, "time.Date": true,
	"time.ParseDuration":    true,
	"(io/fs.DirEntry).Name": true, "(io/fs.DirEntry).IsDir": true, "(io/fs.FileInfo).Name": true, "(io/fs.FileInfo).Size": true,
	"(io/fs.FileInfo).IsDir": true, "(io/fs.FileInfo).ModTime": true, "(error).Error": true, "(io/fs.FileMode).IsRegular": true, "(io/fs.FileMode).IsDir": true,
	"(io/fs.FileInfo).Mode": true, "(*encoding/json.Number).String": true, "(net/http.Header).Get": true,
	"(encoding/binary.bigEndian).Uint64": true, "(encoding/binary.bigEndian).Uint32": true, "(encoding/binary.bigEndian).Uint16": true,
	"context.Background": true, "context.TODO": true, "(context.Context).Done": true,
	"encoding/asn1.Unmarshal": false,
}

// Functions in the module that are pure by nature are simply inlined.
func (x *Exec) isPure(ci *CallInfo) bool {
	n := ci.Name
	if i := strings.IndexByte(n, '['); i > 0 { // instantiated generics
		n = n[:i]
	}
	if x.R.PureFn != nil && x.R.PureFn(n) {
		return true
	}
	if v, ok := pureNames[n]; ok {
		return v
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(n, p) {
			switch n {
			case "(*net/url.URL).UnmarshalBinary", "(*time.Time).UnmarshalJSON", "math/rand.Int":
				return false
			}
			return !strings.HasPrefix(n, "strings.NewRe")
		}
	}
	return false
}

func (x *Exec) resType(sig *types.Signature) types.Type {
	if sig == nil || sig.Results().Len() == 0 {
		return nil
	}
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (x *Exec) setRes(s *State, ci *CallInfo, res *Term) {
	if ci.Mode == 'c' {
		if v, ok := ci.Instr.(ssa.Value); ok {
			s.top().env[v] = res
		}
	}
}

// doCall performs a call event; the current frame is on top of s.
func (x *Exec) doCall(s *State, f *Frame, ci *CallInfo) bool {
	x.Sites[ci.Name+"@"+ci.Pos] = true
	if strings.HasPrefix(ci.Name, "builtin.") || strings.HasPrefix(ci.Name, "ssa:") {
		return x.builtin(s, f, ci)
	}
	x.Calls[ci.Name]++
	if isAbort(ci.Name) {
		x.expand(s, ci)
		s.note("%s: %s(%s)", ci.Pos, shortCallee(ci.Name), argStr(ci.Args))
		x.abort(s, ci)
		return false
	}
	if isLogging(ci.Name) {
		site := x.newSite(s, f, ci.Instr, "call"+string(ci.Mode))
		res := x.tt.mk("call", ci.Name, site, x.resType(ci.Sig))
		x.setRes(s, ci, res)
		return true
	}
	if x.isPure(ci) {
		x.expand(s, ci)
		args := ci.Args
		// pointer arguments: what they point to matters, not where it lives
		na := make([]*Term, len(args))
		for i, a := range args {
			na[i] = x.content(s, a)
		}
		res := x.tt.mk("pure", ci.Name, 0, x.resType(ci.Sig), na...)
		if len(na) == 1 {
			if c, ok := na[0].IntConst(); ok {
				if d, ok := map[string]int64{"Milliseconds": 1e6, "Microseconds": 1e3, "Nanoseconds": 1}[strings.TrimPrefix(ci.Name, "(time.Duration).")]; ok {
					res = x.tt.mk("const", fmt.Sprint(c/d), 0, types.Typ[types.Int64])
				}
			}
		}
		if ci.Name == "time.Unix" || res.Pos == "" {
			res.Pos = ci.Pos
		}
		ci.Res = res
		if x.R.OnCall != nil {
			x.R.OnCall(x, s, ci)
			if x.killed {
				return false
			}
		}
		x.setRes(s, ci, res)
		if x.R.OnRet != nil {
			x.R.OnRet(x, s, ci, res)
		}
		return !x.killed
	}
	inl := ci.Fn != nil && ci.Fn.Blocks != nil && moduleFn(ci.Fn) && !(x.R.OpaqueFn != nil && x.R.OpaqueFn(ci.Name))
	if inl {
		n := 0
		for _, fr := range s.frames {
			if fr.fn == ci.Fn {
				n++
			}
		}
		if n > 0 || len(s.frames) >= maxInline {
			inl = false
			x.Count("not inlined (recursion or depth): " + ci.Name)
		}
	}
	if inl {
		ci.Inl = true
		if x.R.OnCall != nil {
			x.R.OnCall(x, s, ci)
			if x.killed {
				return false
			}
		}
		s.note("%s: calls %s", ci.Pos, shortCallee(ci.Name))
		kind := ci.Mode
		x.pushFrame(s, f, ci, ci.Fn, ci.clos, ci.Args, kind, nil)
		return true
	}
	// opaque
	x.expand(s, ci)
	site := x.siteOf(f, ci.Instr, "call"+string(ci.Mode))
	x.renameSite(s, site)
	// arguments may have been renamed
	x.refreshArgs(s, f, ci)
	res := x.tt.mk("call", ci.Name, site, x.resType(ci.Sig), ci.Args...)
	res.Pos = ci.Pos
	ci.Res = res
	ctxErr(x, s, ci, res)
	if x.R.OnCall != nil {
		x.R.OnCall(x, s, ci)
		if x.killed {
			return false
		}
	}
	x.havocArgs(s, ci)
	// function-valued arguments may be called by the callee
	var clos []*Term
	if !isSortLike(ci.Name) {
		for _, a := range ci.Args {
			u := strip(a)
			if u == nil {
				continue
			}
			if fn := x.fnOf[u]; fn != nil && fn.Blocks != nil && moduleFn(fn) {
				clos = append(clos, u)
			}
		}
	}
	if len(clos) > 0 {
		h := &hofState{call: ci, closures: clos, instr: ci.Instr}
		h.rangefn = x.fnOf[clos[0]].Synthetic == "range-over-func yield"
		if x.R.RunOnce != nil && x.R.RunOnce(ci.Name) || runsOnce(ci.Name) {
			h.once = true
		}
		return x.hofNext(s, h)
	}
	return x.finishOpaque(s, ci)
}

func isSortLike(n string) bool {
	return strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.") || n == "flag.Var"
}

func runsOnce(n string) bool {
	return n == "(*sync.Once).Do" || strings.HasSuffix(n, ").Pipelined") || strings.HasSuffix(n, ").TxPipelined")
}

func (x *Exec) finishOpaque(s *State, ci *CallInfo) bool {
	x.setRes(s, ci, ci.Res)
	if x.R.OnRet != nil {
		x.R.OnRet(x, s, ci, ci.Res)
	}
	return !x.killed
}

func (x *Exec) refreshArgs(s *State, f *Frame, ci *CallInfo) {
	memo := map[*Term]*Term{}
	site := x.siteOf(f, ci.Instr, "call"+string(ci.Mode))
	for i, a := range ci.Args {
		if a != nil {
			r := x.tt.rename(a, site, memo)
			if fn, ok := x.fnOf[a]; ok {
				x.fnOf[r] = fn
			}
			ci.Args[i] = r
		}
	}
}

func shortCallee(n string) string {
	n = strings.ReplaceAll(n, "github.com/golang/", "")
	n = strings.ReplaceAll(n, "github.com/google/", "")
	return n
}

func argStr(args []*Term) string {
	var r []string
	for _, a := range args {
		s := a.String()
		if len(s) > 80 {
			s = s[:80] + "…"
		}
		r = append(r, s)
	}
	return strings.Join(r, ", ")
}

// expand replaces compiler-made variadic slices by their elements.
func (x *Exec) expand(s *State, ci *CallInfo) {
	if ci.Sig != nil && ci.Sig.Variadic() && len(ci.Args) > 0 {
		i := len(ci.Args) - 1
		ci.Args[i] = x.vararg(s, ci.Args[i])
	}
}

// content maps pointers to local variables to their content.
func (x *Exec) content(s *State, a *Term) *Term {
	if a == nil {
		return nil
	}
	if a.Op == "alloc" && a.Typ != nil {
		if _, ok := deref(a.Typ).Underlying().(*types.Array); !ok {
			return x.load(s, a, deref(a.Typ))
		}
	}
	// a slice of a local array that is known as a whole
	if a.Op == "pure" && a.Key == "slice" && len(a.Args) > 0 && a.Args[0].Op == "alloc" && !strings.HasPrefix(a.Args[0].Key, "varargs") {
		if v := s.heap[a.Args[0]]; v != nil && v.Op != "zero" && v.Op != "agg" {
			na := append([]*Term{v}, a.Args[1:]...)
			return x.tt.mk("pure", "slice", 0, a.Typ, na...)
		}
	}
	return a
}

func (x *Exec) havocArgs(s *State, ci *CallInfo) {
	n := ci.Name
	if x.R.NoWrite != nil && x.R.NoWrite(n) {
		return
	}
	if strings.HasPrefix(n, "sync.") || strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "(sync.") || n == "encoding/json.Marshal" ||
		strings.HasPrefix(n, "(github.com/bluele/gcache.Cache).Set") {
		return
	}
	h := func(i int, a *Term) {
		a = strip(a)
		if a == nil {
			return
		}
		if ci.Fn != nil && moduleFn(ci.Fn) && !x.P.mayWriteParam(ci.Fn, i) {
			return
		}
		if a.Op == "alloc" || a.Op == "fieldaddr" || a.Op == "indexaddr" {
			if c := a.Key; strings.HasPrefix(c, "varargs") {
				return
			}
			r := addrRoot(a)
			if r.Op == "global" || r.Op == "param" {
				// known memory of the caller's structures is kept
				return
			}
			// structures of the module handed to an opaque module function keep
			// their content unless the callee is a decoder
			if a.Typ != nil {
				if x.tt.explode(deref(a.Typ)) && !isDecoder(n) && i == 0 && ci.Sig != nil && ci.Sig.Recv() != nil {
					return
				}
			}
			x.clearBelow(s, a)
			delete(s.heap, a)
			var et types.Type
			if a.Typ != nil {
				et = deref(a.Typ)
			}
			s.havoc[a] = x.tt.mk("out", fmt.Sprint(i), 0, et, ci.Res)
		}
	}
	for i, a := range ci.Args {
		if a == nil {
			continue
		}
		if a.Op == "vararg" {
			for _, e := range a.Args {
				h(i, e)
			}
			continue
		}
		h(i, a)
	}
}

func isDecoder(n string) bool {
	return strings.Contains(n, "Decode") || strings.Contains(n, "Unmarshal") || strings.Contains(n, "Scan")
}

func (x *Exec) pushFrame(s *State, f *Frame, ci *CallInfo, fn *ssa.Function, clos *Term, args []*Term, kind byte, h *hofState) {
	// prune the caller's environment
	lv := x.liveAfter(f)
	for v := range f.env {
		if !lv[v] {
			if kind == 'd' || kind == 'h' {
				// the call instruction is executed again or its operands are kept
			}
			delete(f.env, v)
		}
	}
	x.Fns[fname(fn)] = true
	nf := &Frame{fn: fn, ctx: x.ctx(f.ctx, ci.Instr, fn, kind == 'g'), env: map[ssa.Value]*Term{}, kind: kind, hof: h, ci: ci}
	for i, p := range fn.Params {
		if i < len(args) {
			nf.env[p] = args[i]
		} else {
			nf.env[p] = x.tt.mk("undef", p.Name(), 0, p.Type())
		}
	}
	if clos != nil {
		for i, fv := range fn.FreeVars {
			if i < len(clos.Args) {
				nf.env[fv] = clos.Args[i]
			}
		}
	}
	s.frames = append(s.frames, nf)
	x.enter(s, fn.Blocks[0])
}

// hofNext chooses what a higher-order opaque callee does next.
func (x *Exec) hofNext(s *State, h *hofState) bool {
	var outs []*State
	finish := func(st *State, hh *hofState) {
		if hh.rangefn && !hh.stop && x.R.OnIter != nil {
			x.R.OnIter(x, st, hh.call.FnTerm, nil, false, hh.instr)
		}
		if hh.once && len(hh.results) > 0 {
			// the callee reports the closure's error
			r := hh.results[len(hh.results)-1]
			if r.Typ != nil && isErrorType(r.Typ) || r.Op == "nil" || r.Op == "pure" || r.Op == "ext" || r.Op == "iface" {
				if e := x.ErrOf(hh.call, hh.call.Res); e != nil {
					n := st.clone()
					if x.Assume(n, x.isNilTerm(r), false) && x.Assume(n, x.isNilTerm(e), false) {
						if x.finishOpaque(n, hh.call) {
							outs = append(outs, n)
						}
						x.killed = false
					}
					if !x.Assume(st, x.isNilTerm(r), true) {
						return
					}
				}
			}
		}
		if x.finishOpaque(st, hh.call) {
			outs = append(outs, st)
		}
		x.killed = false
	}
	if !(h.once && !h.started) {
		finish(s.clone(), h)
	}
	if !(h.once && h.started) && !h.stop {
		for ci := range h.closures {
			n := s.clone()
			hh := *h
			hh.call = h.call
			hh.started = true
			hh.results = nil
			// widening of cells changed by repeated invocations
			if hh.heap != nil && hh.n >= 1 {
				x.widenCells(n, n.top(), hh.heap, hh.n, fmt.Sprintf("hof:%d:%d", n.top().ctx.id, x.instrNum(h.instr)))
			}
			hh.n++
			hh.heap = map[*Term]*Term{}
			for k, v := range n.heap {
				hh.heap[k] = v
			}
			if hh.n > 60 {
				x.Err = fmt.Errorf("closure loop does not converge at %s", h.call.Pos)
				return false
			}
			// fresh arguments
			site := x.siteOf(n.top(), h.instr, fmt.Sprint("hofarg", ci))
			memoCall := h.call
			x.renameSite(n, site)
			memo := map[*Term]*Term{}
			rn := func(t *Term) *Term {
				if t == nil {
					return nil
				}
				r := x.tt.rename(t, site, memo)
				if fn, ok := x.fnOf[t]; ok {
					x.fnOf[r] = fn
				}
				return r
			}
			hh.call = x.renCI(memoCall, rn)
			hh.closures = nil
			for _, c := range h.closures {
				hh.closures = append(hh.closures, rn(c))
			}
			cl := hh.closures[ci]
			fn := x.fnOf[cl]
			var args []*Term
			for i, p := range fn.Params {
				t := x.tt.mk("hofarg", fmt.Sprintf("%s:%d", h.call.Name, i), site, p.Type(), hh.call.Res)
				args = append(args, t)
			}
			n.note("%s: %s runs %s", h.call.Pos, shortCallee(h.call.Name), fname(fn))
			call := *hh.call
			call.Fn, call.clos = fn, cl
			if hh.rangefn && x.R.OnIter != nil {
				x.R.OnIter(x, n, hh.call.FnTerm, x.tuple(args...), true, hh.instr)
				if x.killed {
					x.killed = false
					continue
				}
			}
			x.pushFrame(n, n.top(), hh.call, fn, cl, args, 'h', &hh)
			outs = append(outs, n)
		}
	}
	for i := len(outs) - 1; i >= 0; i-- {
		x.push(outs[i])
	}
	return false
}

func (x *Exec) ret(s *State, rs []*Term, in *ssa.Return) bool {
	f := s.top()
	if len(s.frames) == 1 {
		x.Paths++
		if x.R.OnReturn != nil {
			x.R.OnReturn(x, s, rs)
		}
		s.frames = nil
		return false
	}
	s.frames = s.frames[:len(s.frames)-1]
	var res *Term
	switch len(rs) {
	case 0:
	case 1:
		res = rs[0]
	default:
		res = x.tuple(rs...)
	}
	switch f.kind {
	case 'c':
		if v, ok := f.ci.Instr.(ssa.Value); ok && res != nil {
			s.top().env[v] = res
		}
	case 'h':
		h := f.hof
		h.results = nil
		for _, r := range rs {
			h.results = append(h.results, r)
		}
		if h.rangefn && len(rs) == 1 {
			v, known := x.Truth(s, rs[0])
			if known && !v {
				h.stop = true
			}
			h.results = nil
		} else if !h.once {
			h.results = nil
		}
		return x.hofNext(s, h)
	}
	if x.R.OnRet != nil && f.ci != nil {
		x.R.OnRet(x, s, f.ci, res)
		if x.killed {
			return false
		}
	}
	return true
}

func (x *Exec) runDefers(s *State, f *Frame, in *ssa.RunDefers) bool {
	if len(f.defers) == 0 {
		return true
	}
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	f.idx-- // come back here
	ci := *d.ci
	ci.Args = append([]*Term(nil), d.ci.Args...)
	return x.doCall(s, f, &ci)
}

func (x *Exec) abort(s *State, ci *CallInfo) {
	x.Aborts++
	if x.R.OnAbort != nil {
		x.R.OnAbort(x, s, ci)
	}
}

func (x *Exec) builtin(s *State, f *Frame, ci *CallInfo) bool {
	name := strings.TrimPrefix(ci.Name, "builtin.")
	tt := x.tt
	switch name {
	case "append":
		base := ci.Args[0]
		var elems []*Term
		spread := false
		if len(ci.Args) > 1 {
			v := x.vararg(s, ci.Args[1])
			if v.Op == "vararg" {
				elems = v.Args
			} else {
				spread = true
				elems = []*Term{v}
			}
		}
		site := x.newSite(s, f, ci.Instr, "append")
		memo := map[*Term]*Term{}
		base = tt.rename(base, site, memo)
		for i := range elems {
			elems = append([]*Term(nil), elems...)
			elems[i] = tt.rename(elems[i], site, memo)
		}
		res := tt.mk("list", "", site, ci.Sig.Results().At(0).Type())
		res.Pos = ci.Pos
		items := []contribItem{}
		switch base.Op {
		case "nil", "zero":
		default:
			if it, ok := s.contrib[base]; ok && (base.Op == "list" || base.Op == "old" || base.Op == "make") {
				items = append(items, it...)
			} else if isEmptySlice(base) {
			} else if base.Op != "make" && base.Op != "list" && base.Op != "old" {
				items = append(items, contribItem{true, base})
			} else if base.Op == "old" && !ok {
				items = append(items, contribItem{true, base})
			}
		}
		for _, e := range elems {
			if spread {
				if it, ok := s.contrib[e]; ok {
					items = mergeContrib(items, it)
				} else if isNilT(e) {
					continue
				} else if e.Op == "make" || e.Op == "list" {
					continue // known empty
				}
			}
			items = append(items, contribItem{spread, e})
		}
		if !x.R.NoContrib {
			s.contrib[res] = mergeContrib(nil, items)
		}
		if x.R.OnAppend != nil {
			x.R.OnAppend(x, s, res, base, elems, spread, ci.Instr)
			if x.killed {
				return false
			}
		}
		x.setRes(s, ci, res)
		return true
	case "len":
		x.setRes(s, ci, x.lenOf(ci.Args[0]))
		return true
	case "cap":
		x.setRes(s, ci, tt.mk("pure", "cap", 0, types.Typ[types.Int], ci.Args[0]))
		return true
	case "close":
		c := strip(ci.Args[0])
		x.Calls["builtin.close"]++
		if x.R.OnCall != nil {
			x.R.OnCall(x, s, ci)
			if x.killed {
				return false
			}
		}
		cs := s.chans[c]
		if cs == nil {
			cs = &chanState{}
		} else {
			n := *cs
			cs = &n
		}
		cs.closed = true
		s.chans[c] = cs
		return true
	case "copy":
		dst, src := ci.Args[0], ci.Args[1]
		if !x.holdsAll(dst, src) && !roomFor(ci.Instr) {
			// as much of it as there is room for
			src = tt.mk("pure", "part", 0, src.Typ, src)
		}
		if dst.Op == "pure" && dst.Key == "slice" {
			dst = dst.Args[0]
		}
		if !x.R.NoContrib {
			s.contrib[dst] = mergeContrib(s.contrib[dst], []contribItem{{true, src}})
		}
		if dst.Op == "alloc" && dst.Typ != nil {
			if at, ok := deref(dst.Typ).Underlying().(*types.Array); ok {
				x.store(s, dst, tt.mk("pure", "copied", 0, deref(dst.Typ), x.load(s, dst, deref(dst.Typ)), ci.Args[1]), at)
			}
		}
		if x.R.OnCall != nil {
			x.R.OnCall(x, s, ci)
		}
		x.setRes(s, ci, tt.mk("pure", "copylen", 0, types.Typ[types.Int], ci.Args...))
		return !x.killed
	case "delete", "clear":
		if x.R.OnCall != nil {
			x.R.OnCall(x, s, ci)
		}
		return !x.killed
	case "min", "max":
		x.setRes(s, ci, tt.mk("pure", name, 0, ci.Sig.Results().At(0).Type(), ci.Args...))
		return true
	case "recover":
		x.setRes(s, ci, tt.nilT())
		return true
	case "print", "println":
		return true
	}
	if strings.HasPrefix(ci.Name, "ssa:") || strings.HasPrefix(name, "ssa:") {
		if strings.Contains(ci.Name, "wrapnilchk") {
			x.setRes(s, ci, ci.Args[0])
			return true
		}
		if strings.Contains(ci.Name, "deferstack") {
			x.setRes(s, ci, tt.mk("pure", "deferstack", 0, nil))
			return true
		}
	}
	var rt types.Type
	if ci.Sig != nil {
		rt = x.resType(ci.Sig)
	}
	x.setRes(s, ci, tt.mk("pure", ci.Name, 0, rt, ci.Args...))
	return true
}

// pureTypes treats the value functions of the root package as pure.
func pureTypes(n string) bool {
	switch n {
	case "types.NewCoverageCutoffMap":
		return true
	}
	for _, p := range []string{"types.New", "(types.", "(*types.Issuer).ID", "(*types.Certificate).", "types.ParseCertificate", "(*types.CTLogState).", "(*types.CTLogMetadata)."} {
		if strings.HasPrefix(n, p) {
			return !strings.Contains(n, "UnmarshalJSON")
		}
	}
	return false
}

// holdsAll: dst is known to be at least as long as src.
func (x *Exec) holdsAll(dst, src *Term) bool {
	l := &lin{}
	if dst.Op == "pure" && dst.Key == "slice" {
		if dst.Args[2] != nil {
			x.tt.linOf(dst.Args[2], 1, l)
		} else {
			x.tt.linOf(x.lenOf(dst.Args[0]), 1, l)
		}
		if dst.Args[1] != nil {
			x.tt.linOf(dst.Args[1], -1, l)
		}
	} else {
		x.tt.linOf(x.lenOf(dst), 1, l)
	}
	x.tt.linOf(x.lenOf(src), -1, l)
	if l.k < 0 {
		return false
	}
	for t, c := range l.c {
		if c < 0 || !(t.Op == "pure" && (t.Key == "len" || t.Key == "cap")) {
			return false
		}
	}
	return true
}

// roomFor: the destination of a copy was made with room for its source,
// after the ones copied before it.
func roomFor(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok || len(c.Common().Args) != 2 {
		return false
	}
	dst, src := c.Common().Args[0], c.Common().Args[1]
	sums := map[ssa.Value]int{}
	var add func(v ssa.Value, n int) bool
	add = func(v ssa.Value, n int) bool {
		switch v := v.(type) {
		case *ssa.BinOp:
			return v.Op == token.ADD && add(v.X, n) && add(v.Y, n)
		case *ssa.Call:
			b, ok := v.Call.Value.(*ssa.Builtin)
			switch {
			case !ok:
				return false
			case b.Name() == "len":
				sums[v.Call.Args[0]] += n
				return true
			case b.Name() == "copy":
				// at most as many as its source has
				sums[v.Call.Args[1]] += n
				return true
			}
		case *ssa.Const:
			k, ok := constant.Int64Val(v.Value)
			return ok && k == 0
		}
		return false
	}
	if s, ok := dst.(*ssa.Slice); ok {
		if s.High != nil || s.Low != nil && !add(s.Low, -1) {
			return false
		}
		dst = s.X
	}
	m, ok := dst.(*ssa.MakeSlice)
	if !ok || !add(m.Len, 1) {
		return false
	}
	if sums[src] < 1 {
		return false
	}
	for _, n := range sums {
		if n < 0 {
			return false
		}
	}
	return true
}
