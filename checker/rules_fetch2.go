package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// consumers are the goroutine bodies that receive messages.
func consumers(p *Program, m *fetchMsg) []goSite {
	var r []goSite
	for _, g := range goSites(p, inFetch) {
		if g.fn == nil {
			continue
		}
		for f := range syncReach(g.fn) {
			if m.hasRecv(f) {
				r = append(r, g)
				break
			}
		}
	}
	return r
}

// onceFromMain: the function is called (or started) from exactly one place
// outside of loops, up to main.
func onceFromMain(p *Program, f *ssa.Function, seen map[*ssa.Function]bool) string {
	if isMainFn(f) && f.Parent() == nil {
		return ""
	}
	if seen[f] {
		return fname(f) + " is recursive"
	}
	seen[f] = true
	n := 0
	var at ssa.Instruction
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				var callee *ssa.Function
				switch v := c.Common().Value.(type) {
				case *ssa.Function:
					callee = v
				case *ssa.MakeClosure:
					callee = v.Fn.(*ssa.Function)
				}
				if callee == f || callee != nil && unwrap(callee) == f && callee.Synthetic != "" {
					n++
					at = in
				}
			}
		}
	}
	switch {
	case n == 0:
		return fname(f) + " is not called directly"
	case n > 1:
		return fname(f) + " is called from more than one place"
	case inLoopSyntax(at):
		return fname(f) + " is called in a loop"
	}
	return onceFromMain(p, at.Parent(), seen)
}

// ---- C11 ------------------------------------------------------------------------

func isDBStore(n string) bool {
	return n == "(storage.CertDatabase).Store" || n == "(*storage.CertDatabase).Store"
}
func isDBSave(n string) bool {
	return n == "(storage.CertDatabase).SaveLogState" || n == "(*storage.CertDatabase).SaveLogState"
}
func isDBItem(n string) bool {
	return n == "(storage.CertDatabase).PrepareSetMember" || n == "(*storage.CertDatabase).PrepareSetMember"
}

func checkC11(p *Program, tier string) *Result {
	r := NewResult("C11", "there is exactly one goroutine that receives messages, started once; on every path through its loop each received certificate becomes an item appended to the list of all items not stored yet, that list is only given up after a Store of exactly it returned nil, a log state is saved only when no received item is unstored, each received log state is saved with a nil error before the next message is received, and an attempt that failed is repeated before anything else is received")
	m := findMsg(p)
	if m == nil {
		r.Bad("missing: message type", "-", "no message type with certificate and log state found in %s", fetchPkg)
		return r
	}
	cs := consumers(p, m)
	r.Counts["goroutines that receive messages"] = len(cs)
	r.NeedAtLeast(1, "goroutines that receive messages")
	if len(cs) == 0 {
		return r
	}
	r.Check(len(cs) == 1, nil, "several-consumers", posOf(p, cs[len(cs)-1].in), "messages are received by %d goroutines, so their order is lost", len(cs))
	for _, g := range cs {
		why := ""
		if inLoopSyntax(g.in) {
			why = "the go statement is in a loop"
		} else {
			why = onceFromMain(p, g.in0, map[*ssa.Function]bool{})
		}
		r.Check(why == "", nil, "several-consumers", posOf(p, g.in), "more than one goroutine may receive messages: %s", why)
		exploreConsumer(p, m, r, g.fn, false)
	}
	r.NeedAtLeast(1, "messages received")
	r.NeedAtLeast(1, "stores")
	r.NeedAtLeast(1, "saved log states")
	r.NeedAtLeast(1, "items")
	return r
}

// exploreConsumer runs the goroutine that receives messages. With exits only
// the ways in which it may end are checked (C16), otherwise C11.
func exploreConsumer(p *Program, m *fetchMsg, r *Result, f *ssa.Function, exits bool) {
	add := func(ok bool, st *State, key, pos, format string, a ...any) {
		if !exits {
			r.Check(ok, st, key, pos, format, a...)
		}
	}
	rule := &Rule{PureFn: pureTypes, NoContrib: true, OpaqueFn: func(n string) bool {
		return isDBStore(n) || isDBSave(n) || isDBItem(n) || strings.HasPrefix(n, "engine.") || strings.HasPrefix(n, "config.")
	}}
	rule.KeepFact = func(st *State, t *Term) bool {
		return t.Op == "isnil" && !t.hasOld() && t.HasSub(func(u *Term) bool { return u.Op == "recv" })
	}
	// settle notes which attempts are known to have succeeded.
	settle := func(x *Exec, st *State) {
		if exits {
			for _, a := range st.Marks("attempt") { // err
				if x.KnownNonNil(st, a.T[0]) {
					st.AddMark("failed", "-")
				} else if !x.KnownNil(st, a.T[0]) {
					continue
				}
				st.DelMarks("attempt", func(k Mark) bool { return k.key() == a.key() })
			}
			return
		}
		for _, a := range st.Marks("stored") { // list, err
			if x.KnownNil(st, a.T[1]) {
				st.DelMarks("stored", func(k Mark) bool { return k.key() == a.key() })
				st.DelMarks("failed", func(k Mark) bool { return k.T[0] == a.T[0] })
				st.DelMarks("out", func(k Mark) bool { return k.T[0] == a.T[0] })
			} else if x.KnownNonNil(st, a.T[1]) {
				st.DelMarks("stored", func(k Mark) bool { return k.key() == a.key() })
				st.AddMark("failed", a.Pos, a.T[0])
			}
		}
		for _, a := range st.Marks("saving") { // state, err
			if x.KnownNil(st, a.T[1]) {
				st.DelMarks("saving", func(k Mark) bool { return k.key() == a.key() })
				st.AddMark("saved", a.Pos, a.T[0])
				st.DelMarks("failed", func(k Mark) bool { return k.T[0] == a.T[0] })
			} else if x.KnownNonNil(st, a.T[1]) {
				st.DelMarks("saving", func(k Mark) bool { return k.key() == a.key() })
				st.AddMark("failed", a.Pos, a.T[0])
			}
		}
	}
	// done checks that the message being handled has been dealt with.
	done := func(x *Exec, st *State, pos string) {
		settle(x, st)
		for _, c := range st.Marks("cur") {
			msg := c.T[0]
			cert, iss, ls := m.field(x, st, msg, m.certI), m.field(x, st, msg, m.issuerI), m.field(x, st, msg, m.stateI)
			if !x.KnownNil(st, cert) && !x.KnownNil(st, iss) {
				add(st.HasMark("item"), st, "certificate-dropped", pos, "the certificate of the message received at %s has not been prepared for storing when the next one is received", c.Pos)
			}
			add(!st.HasMark("fresh"), st, "item-dropped", pos, "the item of the message received at %s was not added to the list of items to store", c.Pos)
			if !x.KnownNil(st, ls) {
				add(st.HasMark2("saved", ls), st, "state-dropped", pos, "the log state of the message received at %s may not have been saved when the next one is received", c.Pos)
			}
		}
		add(!st.HasMark("failed"), st, "failed-attempt-abandoned", pos, "the next message is received although storing or saving failed and was not repeated")
	}
	rule.OnRecv = func(x *Exec, st *State, ch, val *Term, in ssa.Instruction, inSel bool) {
		if isCtxDone(ch) {
			st.AddMark("cancel", x.pos(in))
			return
		}
		if !m.elemOf(ch.Typ) {
			return
		}
		r.Counts["messages received"]++
		pos := x.pos(in)
		if exits {
			for _, k := range []string{"attempt", "failed", "cancel"} {
				st.DelMarks(k, nil)
			}
			return
		}
		done(x, st, pos)
		st.DelMarks("cur", nil)
		st.DelMarks("item", nil)
		st.DelMarks("saved", nil)
		st.DelMarks("cancel", nil)
		st.AddMark("cur", pos, val)
	}
	rule.OnClosed = func(x *Exec, st *State, ch *Term, in ssa.Instruction) {
		if ch.Typ != nil && m.elemOf(ch.Typ) {
			st.AddMark("drained", x.pos(in))
		}
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if ci.Inl {
			return
		}
		if exits {
			if isDBStore(ci.Name) || isDBSave(ci.Name) {
				settle(x, st)
				for _, k := range []string{"attempt", "failed"} {
					st.DelMarks(k, nil)
				}
				st.AddMark("attempt", ci.Pos, x.ErrOf(ci, res))
			}
			return
		}
		switch {
		case isDBItem(ci.Name):
			r.Counts["items"]++
			for _, c := range st.Marks("cur") {
				msg := c.T[0]
				for i, k := range []int{m.certI, m.issuerI, m.timeI, m.logIDI} {
					want := m.field(x, st, msg, k)
					add(strip(ci.Arg(i+1)) == strip(want), st, "wrong-item", ci.Pos, "argument %d of the item is not taken from the message being handled", i+1)
				}
			}
			st.AddMark("item", ci.Pos)
			st.AddMark("fresh", ci.Pos, res)
		case isDBStore(ci.Name):
			r.Counts["stores"]++
			e := x.ErrOf(ci, res)
			add(!st.HasMark("fresh"), st, "item-dropped", ci.Pos, "a batch is stored that lacks the item just prepared")
			st.AddMark("stored", ci.Pos, ci.Arg(1), e)
			settle(x, st)
		case isDBSave(ci.Name):
			r.Counts["saved log states"]++
			settle(x, st)
			add(!st.HasMark("fresh"), st, "saved-before-stored", ci.Pos, "a log state is saved although the item of its message was not stored")
			for _, o := range st.Marks("out") {
				add(false, st, "saved-before-stored", ci.Pos, "a log state is saved although items added at %s are not known to have been stored successfully", o.Pos)
			}
			add(true, st, "saved-before-stored", ci.Pos, "")
			ok := false
			for _, c := range st.Marks("cur") {
				if strip(ci.Arg(1)) == strip(m.field(x, st, c.T[0], m.stateI)) {
					ok = true
				}
			}
			add(ok, st, "wrong-state", ci.Pos, "the log state saved is not the one of the message being handled")
			st.AddMark("saving", ci.Pos, strip(ci.Arg(1)), x.ErrOf(ci, res))
			settle(x, st)
		}
	}
	rule.OnBranch = func(x *Exec, st *State, in *ssa.If, cond *Term, taken bool) {
		settle(x, st)
		none := func(l *Term) bool {
			n := x.lenOf(l)
			if n == nil {
				return false
			}
			eq, ek := x.Truth(st, x.compare(token.EQL, n, x.tt.intc(0), types.Typ[types.Int]))
			gt, gk := x.Truth(st, x.compare(token.GTR, n, x.tt.intc(0), types.Typ[types.Int]))
			return ek && eq || gk && !gt
		}
		for _, o := range st.Marks("out") {
			if none(o.T[0]) {
				x.Kill() // it holds an item
				return
			}
		}
		// nothing is left to do for an empty list
		st.DelMarks("failed", func(m Mark) bool { return len(m.T) > 0 && none(m.T[0]) })
	}
	rule.OnAppend = func(x *Exec, st *State, res, base *Term, elems []*Term, spread bool, in ssa.Instruction) {
		if exits {
			return
		}
		settle(x, st)
		outs := st.Marks("out")
		has := false
		for _, e := range elems {
			for _, fr := range st.Marks("fresh") {
				if e == fr.T[0] || e.Contains(fr.T[0]) {
					has = true
				}
			}
		}
		baseOut := false
		for _, o := range outs {
			if base != nil && (base == o.T[0] || spread && len(elems) > 0 && elems[0] == o.T[0]) {
				baseOut = true
			}
		}
		if !has && !baseOut {
			return
		}
		pos := x.pos(in)
		if len(outs) > 0 && !baseOut {
			add(false, st, "item-dropped", pos, "the item is added to another list than the one that holds the items received before, which have not been stored")
		}
		st.DelMarks("out", nil)
		st.AddMark("out", pos, res)
		if has {
			st.DelMarks("fresh", nil)
		}
	}
	rule.OnWiden = func(x *Exec, st *State, old, nt *Term) {
		if exits {
			return
		}
		for _, kind := range []string{"out", "failed"} {
			for _, o := range st.Marks(kind) {
				if o.T[0] == old {
					st.DelMarks(kind, func(k Mark) bool { return k.key() == o.key() })
					st.AddMark(kind, o.Pos, nt)
				}
			}
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		settle(x, st)
		drained := st.HasMark("drained")
		if exits {
			r.Counts["ends of the database thread"]++
			why := ""
			if !drained {
				why = "without having emptied the closed channel"
				if st.HasMark("cancel") && st.HasMark("failed") {
					why = "" // shutdown while the database keeps failing
				}
			}
			r.Check(why == "", st, "queue-abandoned", fname(f), "the database thread may end %s, so queued messages are lost", why)
			return
		}
		if drained {
			done(x, st, fname(f))
			return
		}
		add(st.HasMark("cancel"), st, "consumer-gives-up", fname(f), "the database thread may end although the channel is neither closed nor the program being cancelled")
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(f)
	r.Absorb(x)
}

// ---- C16 ------------------------------------------------------------------------

// wgKey identifies a wait group by the struct field that holds it, or by its
// variable.
func wgKey(x *Exec, st *State, t *Term) string {
	t = strip(t)
	for t.Op == "deref" {
		t = t.Args[0]
	}
	if t.Op == "fieldaddr" {
		return t.Key
	}
	if t.Op == "alloc" || t.Op == "make" || t.Op == "call" {
		for a, v := range st.heap {
			if v == t && a.Op == "fieldaddr" {
				return a.Key
			}
		}
	}
	if t.Op == "field" {
		return t.Key
	}
	return t.String()
}

func isWG(n string) string {
	if strings.HasPrefix(n, "(*sync.WaitGroup).") {
		return strings.TrimPrefix(n, "(*sync.WaitGroup).")
	}
	return ""
}

func checkC16(p *Program, tier string) *Result {
	r := NewResult("C16", "every goroutine that can send a message, receive messages or start such a goroutine is added to a wait group before its go statement on every path, calls Done on that group exactly once before every return, and never adds itself; the message channel is closed in one place, on every path once and only after Wait on the group of the senders, and that group is not added to by the closing thread afterwards; the group of the receiving thread is waited for after the close and before a normal end of main; the receiving thread ends only after the channel was closed and emptied, or while storing keeps failing during a shutdown")
	m := findMsg(p)
	if m == nil {
		r.Bad("missing: message type", "-", "no message type with certificate and log state found in %s", fetchPkg)
		return r
	}
	gos := goSites(p, inFetch)
	// which goroutine bodies matter
	role := map[*ssa.Function]string{}
	for ch := true; ch; {
		ch = false
		for _, g := range gos {
			if g.fn == nil || role[g.fn] != "" {
				continue
			}
			reach := syncReach(g.fn)
			for f := range reach {
				if m.hasSend(f) {
					role[g.fn], ch = "sender", true
				} else if m.hasRecv(f) {
					role[g.fn], ch = "receiver", true
				}
			}
			if role[g.fn] == "" {
				for _, h := range gos {
					if reach[h.in0] && role[h.fn] == "sender" {
						role[g.fn], ch = "sender", true
					}
				}
			}
		}
	}
	for _, g := range gos {
		if g.fn == nil {
			r.Bad("unknown-goroutine", posOf(p, g.in), "the body of this goroutine is not known statically")
			continue
		}
		if role[g.fn] != "" {
			r.Counts[role[g.fn]+" goroutines"]++
		}
	}
	r.NeedAtLeast(2, "sender goroutines")
	r.NeedAtLeast(1, "receiver goroutines")

	// Done discipline in each body; also which group each body belongs to
	group := map[*ssa.Function]string{}
	for f, ro := range role {
		rule := wgRule(p, r, m, role, group)
		done := func(st *State) (keys []string) {
			for _, mk := range st.Marks("wgdone") {
				keys = append(keys, mk.T[0].Key)
			}
			return
		}
		var all map[string]int
		n := 0
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			n++
			if all == nil {
				all = map[string]int{}
			}
			for _, k := range done(st) {
				all[k]++
			}
			checkPending(r, st, f)
		}
		x := NewExec(p, "C16", rule)
		x.Run(f)
		r.Absorb(x)
		k := ""
		for g, c := range all {
			if c == n {
				k = g
			}
		}
		r.Check(k != "" || n == 0, nil, "done-missing", fname(f), "the %s goroutine %s does not call Done on a wait group before each of its returns", ro, fname(f))
		group[f] = k
		r.Counts["goroutine exits"] += n
	}
	// spawners, main
	mainFn := p.Fn(fetchPkg + ".main")
	spawn := map[*ssa.Function]bool{}
	for _, g := range gos {
		if role[g.fn] != "" {
			spawn[g.in0] = true
		}
	}
	wait := ""
	senders := map[string]bool{}
	receivers := map[string]bool{}
	for f, ro := range role {
		if ro == "sender" {
			senders[group[f]] = true
		} else {
			receivers[group[f]] = true
		}
	}
	_ = wait
	// every body that spawns checks Add before go
	for _, f := range sortedFns(spawn) {
		if f == mainFn {
			continue
		}
		rule := wgRule(p, r, m, role, group)
		rule.OnReturn = func(x *Exec, st *State, res []*Term) { checkPending(r, st, f) }
		x := NewExec(p, "C16", rule)
		x.Run(f)
		r.Absorb(x)
	}
	if mainFn == nil {
		r.Bad("missing: main", "-", "main of %s not found", fetchPkg)
		return r
	}
	rule := wgRule(p, r, m, role, group)
	normalEnd := func(x *Exec, st *State, pos string) {
		r.Counts["normal ends"]++
		r.Check(st.HasMark("chanclosed"), st, "channel-not-closed", pos, "the program may end normally without having closed the message channel")
		for g := range receivers {
			ok := false
			for _, mk := range st.Marks("wgwait2") {
				if mk.T[0].Key == g {
					ok = true
				}
			}
			r.Check(ok, st, "receiver-not-awaited", pos, "the program may end normally without having waited for the database thread (%s) after closing the channel", g)
		}
	}
	onCall := rule.OnCall
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		onCall(x, st, ci)
		if ci.Inl {
			return
		}
		switch {
		case ci.Name == "builtin.close" && m.elemOf(ci.Arg(0).Typ):
			r.Counts["closes of the message channel"]++
			r.Check(!st.HasMark("chanclosed"), st, "channel-closed-twice", ci.Pos, "the message channel may be closed twice")
			for g := range senders {
				ok := false
				for _, mk := range st.Marks("wgwait") {
					if mk.T[0].Key == g {
						ok = true
					}
				}
				r.Check(ok, st, "closed-before-senders-ended", ci.Pos, "the message channel is closed without having waited for the downloaders (%s)", g)
			}
			r.Check(len(senders) > 0, st, "closed-before-senders-ended", ci.Pos, "no downloader is accounted for")
			st.AddMark("chanclosed", ci.Pos)
		case isWG(ci.Name) == "Wait":
			k := x.tt.mk("const", wgKey(x, st, ci.Arg(0)), 0, nil)
			st.AddMark("wgwait", ci.Pos, k)
			if st.HasMark("chanclosed") {
				st.AddMark("wgwait2", ci.Pos, k)
			}
		case isWG(ci.Name) == "Add":
			for _, mk := range st.Marks("wgwait") {
				if mk.T[0].Key == wgKey(x, st, ci.Arg(0)) {
					r.Check(false, st, "added-after-wait", ci.Pos, "the wait group is added to after it was waited for")
				}
			}
		}
	}
	rule.OnAbort = func(x *Exec, st *State, ci *CallInfo) {
		if ci.Name == "os.Exit" {
			if n, ok := ci.Arg(0).IntConst(); !ok || n == 0 {
				normalEnd(x, st, ci.Pos)
			}
		}
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) { normalEnd(x, st, fname(mainFn)) }
	x := NewExec(p, "C16", rule)
	x.Run(mainFn)
	r.Absorb(x)
	// no close elsewhere
	mainReach := syncReach(mainFn)
	n := 0
	for _, f := range p.Funcs {
		for _, c := range m.closes(f) {
			n++
			r.Check(mainReach[f] && !inLoopSyntax(c), nil, "close-elsewhere", posOf(p, c), "the message channel is closed outside of the main thread or in a loop")
			if _, isDefer := c.(*ssa.Defer); isDefer && f != mainFn {
				continue
			}
		}
	}
	r.Check(n == 1, nil, "close-count", fetchPkg, "the message channel is closed in %d places", n)
	for _, g := range consumers(p, m) {
		exploreConsumer(p, m, r, g.fn, true)
	}
	r.NeedAtLeast(1, "closes of the message channel")
	r.NeedAtLeast(1, "normal ends")
	r.NeedAtLeast(2, "counted starts")
	r.NeedAtLeast(1, "ends of the database thread")
	return r
}

func checkPending(r *Result, st *State, f *ssa.Function) {
	for _, mk := range st.Marks("wgadd") {
		r.Check(false, st, "add-without-start", mk.Pos, "%s adds to a wait group without starting a goroutine that calls Done", fname(f))
	}
}

// wgRule follows Add, Done and go statements.
func wgRule(p *Program, r *Result, m *fetchMsg, role map[*ssa.Function]string, group map[*ssa.Function]string) *Rule {
	relevant := map[string]bool{}
	var rel func(f *ssa.Function) bool
	memo := map[*ssa.Function]int{}
	rel = func(f *ssa.Function) bool {
		switch memo[f] {
		case 1:
			return false
		case 2:
			return true
		case 3:
			return false
		}
		memo[f] = 1
		ok := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, isC := in.(ssa.CallInstruction); isC {
					if isWG(calleeName(c.Common())) != "" {
						ok = true
					}
					if bi, isB := c.Common().Value.(*ssa.Builtin); isB && bi.Name() == "close" {
						ok = true
					}
					if _, isG := in.(*ssa.Go); isG {
						ok = true
					}
				}
				if u, isA := in.(*ssa.Alloc); isA && strings.Contains(types.TypeString(u.Type(), nil), "sync.WaitGroup") {
					ok = true
				}
			}
		}
		for _, c := range syncCallees(f) {
			if rel(c) {
				ok = true
			}
		}
		memo[f] = 3
		if ok {
			memo[f] = 2
		}
		return ok
	}
	for _, f := range p.Funcs {
		if inFetch(f) && rel(f) {
			relevant[fname(f)] = true
		}
	}
	rule := &Rule{PureFn: pureTypes, GoMode: func(ci *CallInfo) int { return GoSkip },
		OpaqueFn: func(n string) bool { return !relevant[n] }}
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		if ci.Name == "go" {
			g, _ := ci.Instr.(*ssa.Go)
			if g == nil {
				return
			}
			body := goBody(g)
			if body == nil || role[body] == "" {
				return
			}
			want := group[body]
			ok := false
			for _, mk := range st.Marks("wgadd") {
				if want == "" || mk.T[0].Key == want {
					ok = true
					st.DelMarks("wgadd", func(k Mark) bool { return k.key() == mk.key() })
					break
				}
			}
			if want == "" {
				return // the first pass, groups are not known yet
			}
			r.Counts["counted starts"]++
			r.Check(ok, st, "started-uncounted", ci.Pos, "the %s goroutine %s is started without having been added to the wait group %s before", role[body], fname(body), fieldName(want))
			return
		}
		if ci.Inl {
			return
		}
		switch isWG(ci.Name) {
		case "Add":
			st.AddMark("wgadd", ci.Pos, x.tt.mk("const", wgKey(x, st, ci.Arg(0)), 0, nil))
		case "Done":
			k := x.tt.mk("const", wgKey(x, st, ci.Arg(0)), 0, nil)
			if st.HasMark2("wgdone", k) {
				r.Check(false, st, "done-twice", ci.Pos, "Done is called twice on the wait group %s", fieldName(k.Key))
			}
			st.AddMark("wgdone", ci.Pos, k)
			for _, mk := range st.Marks("wgadd") {
				if mk.T[0] == k {
					r.Check(false, st, "counts-itself", mk.Pos, "a goroutine adds itself to the wait group %s after it was started", fieldName(k.Key))
				}
			}
		}
	}
	return rule
}
