package main

import (
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const confPkg = "config"
const initName = "(*config.CTConfig).Init"

func init() {
	checks["C32"] = func(p *Program, tier string) *Result {
		r := NewResult("C32", "every option whose value is read anywhere gets storage of its own in the constructor and is given a value by a reader on every path of Init; every program calls Init before anything that reads an option; on every path of a reader the value that is left behind is the environment's if the variable is set and well-formed, else the file's if there is one and it is well-formed, else the default, all for the same key, and the reader never aborts; what overwrites an option after that is a command-line flag that is known to have been given, and a flag that is known to have been given has overwritten its option whenever Init ends; every key is used for one option")
		used := confReads(p, r)
		confAlloc(p, r, used, confSet(p))
		confInit(p, r, used)
		readers := confReaders(p)
		for _, f := range readers {
			confReader(p, r, f)
		}
		if len(readers) == 0 {
			r.Bad("missing: readers", "-", "no function of the configuration package looks up the environment for an option")
		}
		confOrder(p, r)
		return r
	}
}

func isConf(t types.Type) bool { return isNamed(deref(t), "config.CTConfig") }

// confField: the value is a field of the configuration, read.
func confField(v ssa.Value) (string, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		if f, ok := v.(*ssa.Field); ok && isConf(f.X.Type()) {
			return structField(f.X.Type(), f.Field), true
		}
		return "", false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || !isConf(fa.X.Type()) {
		return "", false
	}
	return fieldNameOf(fa), true
}

// confSet gives the options that are handed to a reader, and where, unless the
// package gives them storage at another place than the constructor.
func confSet(p *Program) map[string]string {
	set, own := map[string]string{}, map[string]bool{}
	readers := map[*ssa.Function]*readerP{}
	for _, f := range confReaders(p) {
		readers[f] = readerParams(f)
	}
	for _, f := range p.Funcs {
		if pkgPathOf(f) != confPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Call:
					if q := readers[in.Call.StaticCallee()]; q != nil {
						if n, ok := confField(in.Call.Args[q.ptr]); ok {
							set[n] = p.PosStr(in.Pos())
						}
					}
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && isConf(fa.X.Type()) && f.Signature.Recv() != nil {
						own[fieldNameOf(fa)] = true
					}
				}
			}
		}
	}
	for n := range own {
		delete(set, n)
	}
	return set
}

func structField(t types.Type, i int) string {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() {
		return ""
	}
	return s.Field(i).Name()
}

// confReads gives the options that are read outside the configuration
// package, and where.
func confReads(p *Program, r *Result) map[string]string {
	used := map[string]string{}
	for _, f := range p.Funcs {
		if pkgPathOf(f) == confPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				if n, ok := confField(v); ok {
					r.Counts["reads of options"]++
					if used[n] == "" {
						used[n] = p.PosStr(in.Pos())
					}
				}
			}
		}
	}
	r.NeedAtLeast(1, "reads of options")
	return used
}

// confAlloc: the constructor gives every option storage of its own.
func confAlloc(p *Program, r *Result, used, set map[string]string) {
	n := 0
	for _, f := range p.Funcs {
		if pkgPathOf(f) != confPkg || f.Signature.Results().Len() != 1 || !isConf(f.Signature.Results().At(0).Type()) || f.Synthetic != "" {
			continue
		}
		n++
		rule := &Rule{}
		rule.OnReturn = func(x *Exec, st *State, res []*Term) {
			s := deref(f.Signature.Results().At(0).Type()).Underlying().(*types.Struct)
			own := map[*Term]string{}
			for i := 0; i < s.NumFields(); i++ {
				name := s.Field(i).Name()
				if _, isPtr := s.Field(i).Type().(*types.Pointer); !isPtr {
					continue
				}
				a := x.tt.fieldAddr(res[0], fieldKey(s, i), nil)
				v := x.load(st, a, s.Field(i).Type())
				r.Counts["options"]++
				if used[name] == "" && set[name] != "" {
					r.Check(v.Op != "const" && !x.KnownNil(st, v), st, "no-storage:"+name, f.Name()+" "+name, "the option %s, which is given a value at %s, has no storage", name, set[name])
				}
				r.Check(used[name] == "" || x.KnownNonNil(st, v) || v.Op == "alloc", st, "no-storage:"+name, f.Name()+" "+name, "the option %s, which is read at %s, has no storage", name, used[name])
				if v.Op == "alloc" {
					if o := own[v]; o != "" {
						r.Check(used[name] == "" && used[o] == "", st, "shared-storage:"+name, f.Name()+" "+name, "the options %s and %s share their storage", o, name)
					}
					own[v] = name
				}
			}
		}
		x := NewExec(p, r.Prop, rule)
		x.Run(f)
		r.Absorb(x)
	}
	if n == 0 {
		r.Bad("missing: constructor", "-", "no constructor of the configuration")
	}
	// configurations that are made without the constructor
	for _, f := range p.Funcs {
		if pkgPathOf(f) == confPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && isNamed(deref(a.Type()), "config.CTConfig") {
					r.Check(false, nil, "own-configuration", p.PosStr(in.Pos()), "a configuration is made without the constructor that gives every option its storage")
				}
			}
		}
	}
}

func confReaders(p *Program) []*ssa.Function {
	var l []*ssa.Function
	for _, f := range p.Funcs {
		if pkgPathOf(f) != confPkg || f.Synthetic != "" || f.Parent() != nil || f.Signature.Recv() != nil {
			continue
		}
		if readerParams(f) != nil && p.Graph().has(f, "os.LookupEnv|os.Getenv") {
			l = append(l, f)
		}
	}
	return l
}

type readerP struct{ ptr, sec, key, def int }

func readerParams(f *ssa.Function) *readerP {
	r := &readerP{-1, -1, -1, -1}
	for i, q := range f.Params {
		t := q.Type()
		if pt, ok := t.(*types.Pointer); ok {
			if _, basic := pt.Elem().Underlying().(*types.Basic); basic && r.ptr < 0 {
				r.ptr = i
				continue
			}
			if strings.HasSuffix(types.TypeString(t, nil), "ini.v1.Section") {
				r.sec = i
			}
			continue
		}
		if isStringType(t) && r.key < 0 {
			r.key = i
			continue
		}
		if _, basic := t.Underlying().(*types.Basic); basic {
			r.def = i
		}
	}
	if r.ptr < 0 || r.sec < 0 || r.key < 0 || r.def < 0 {
		return nil
	}
	return r
}

// confInit: every path of Init gives every option that is read a value.
func confInit(p *Program, r *Result, used map[string]string) {
	f := p.Fn(initName)
	if f == nil {
		r.Bad("missing: Init", "-", "no %s", initName)
		return
	}
	readers := map[string]*readerP{}
	for _, q := range confReaders(p) {
		readers[fname(q)] = readerParams(q)
	}
	keys := map[string]string{}
	fieldsOf := map[string]bool{}
	if s, ok := deref(f.Params[0].Type()).Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			fieldsOf[s.Field(i).Name()] = true
		}
	}
	optionOf := func(x *Exec, t *Term) string {
		t = strip(t)
		if t.Op == "deref" && t.Args[0].Op == "fieldaddr" && t.Args[0].Args[0] == x.Params[0] {
			return fieldName(t.Args[0].Key)
		}
		return ""
	}
	flagOf := map[string]string{} // the flag that can override an option
	var late []func()
	rule := &Rule{KeepFact: keepAll, ExactInts: true}
	rule.OpaqueFn = func(n string) bool { return readers[n] != nil }
	rule.OnCall = func(x *Exec, st *State, ci *CallInfo) {
		if strings.HasPrefix(ci.Name, "flag.") && strings.HasSuffix(ci.Name, "Var") {
			st.AddMark("flag", ci.Pos, ci.Arg(0))
		}
		q := readers[ci.Name]
		if q == nil {
			return
		}
		opt := optionOf(x, ci.Arg(q.ptr))
		if opt == "" {
			return
		}
		r.Counts["initialisations"]++
		key, ok := strConst(ci.Arg(q.key))
		r.Check(ok && key != "", st, "no-key:"+opt, ci.Pos, "the option %s has no constant key", opt)
		if ok {
			if o := keys[key]; o != "" && o != opt {
				r.Check(false, st, "shared-key:"+key, ci.Pos, "the key %s is used for both %s and %s", key, o, opt)
			}
			keys[key] = opt
			for o := range fieldsOf {
				if o != opt && strings.EqualFold(o, key) {
					r.Check(false, st, "wrong-key:"+key, ci.Pos, "the key %s of the option %s is read into %s", key, o, opt)
				}
			}
		}
		for _, m := range st.Marks("loaded") {
			if x.KnownNil(st, m.T[1]) {
				r.Check(ci.Arg(q.sec).Contains(m.T[0]), st, "file-ignored:"+opt, ci.Pos, "the option %s is not looked up in the configuration file that was loaded", opt)
			}
		}
		st.AddMark("set:"+opt, ci.Pos)
		st.DelMarks("over:"+opt, nil)
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if strings.HasSuffix(ci.Name, "ini.v1.Load") || strings.HasSuffix(ci.Name, "ini.v1.LooseLoad") || strings.HasSuffix(ci.Name, "ini.v1.LoadSources") {
			st.AddMark("loaded", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res))
			r.Counts["configuration files"]++
		}
		switch ci.Name {
		case "flag.Uint64", "flag.Uint", "flag.Int", "flag.Int64", "flag.String", "flag.Bool", "flag.Duration", "flag.Float64":
			if res != nil {
				st.AddMark("flag", ci.Pos, res)
			}
		}
	}
	rule.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
		opt := optionOf(x, addr)
		if opt == "" {
			return
		}
		ok := false
		for _, m := range st.Marks("flag") {
			if val == x.load(st, m.T[0], val.Typ) || val.Op == "deref" && val.Args[0] == m.T[0] {
				flagOf[opt] = m.T[0].Key
				if b, num := val.Typ.Underlying().(*types.Basic); !num || b.Info()&types.IsInteger == 0 {
				} else if v, known := x.Truth(st, x.compare(token.EQL, val, x.tt.intc(0), val.Typ)); !known || v {
					r.Check(false, st, "flag-not-given:"+opt, x.pos(in), "the option %s is overwritten by a command-line flag that was not given", opt)
				}
			}
			if val.HasSub(func(u *Term) bool { return u == m.T[0] || u.Op == "deref" && u.Args[0] == m.T[0] }) || val == x.load(st, m.T[0], val.Typ) {
				ok = true
			}
		}
		if !ok {
			// a count that is not positive cannot be used: it is malformed
			cur := x.load(st, addr, val.Typ)
			v, known := x.Truth(st, x.compare(token.LEQ, cur, x.tt.intc(0), types.Typ[types.Int]))
			if n, isc := val.IntConst(); known && v && isc && n > 0 {
				r.Counts["options with a smallest value"]++
				r.Check(true, st, "overwritten:"+opt, x.pos(in), "")
				return
			}
		}
		r.Check(ok, st, "overwritten:"+opt, x.pos(in), "the option %s is overwritten by something that is not a command-line flag", opt)
		// only if the flag was given
		st.AddMark("over:"+opt, x.pos(in))
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		r.Counts["returns of Init"]++
		for _, m := range st.Marks("flag") {
			v := x.load(st, m.T[0], types.Typ[types.Uint64])
			zero, known := x.Truth(st, x.compare(token.EQL, v, x.tt.intc(0), types.Typ[types.Uint64]))
			key, s2 := m.T[0].Key, st.clone()
			if !known || zero {
				continue
			}
			late = append(late, func() {
				for opt, k := range flagOf {
					if k == key {
						r.Check(len(s2.Marks("over:"+opt)) > 0, s2, "flag-ignored:"+opt, initName, "Init can end without the option %s having the value of the command-line flag that was given", opt)
					}
				}
			})
		}
		for n, pos := range used {
			r.Check(len(st.Marks("set:"+n))+len(st.Marks("over:"+n)) > 0, st, "uninitialised:"+n, initName, "Init can end without giving a value to the option %s, which is read at %s", n, pos)
		}
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(f)
	for _, l := range late {
		l()
	}
	r.Absorb(x)
	r.NeedAtLeast(1, "initialisations")
	r.NeedAtLeast(1, "returns of Init")
	r.NeedAtLeast(1, "configuration files")
}

// confReader decides the precedence of one reader.
func confReader(p *Program, r *Result, f *ssa.Function) {
	q := readerParams(f)
	var ptr, sec, key, def *Term
	rule := &Rule{KeepFact: keepAll}
	rule.Init = func(x *Exec, st *State, _ []*Term) {
		ptr, sec, key, def = x.Params[q.ptr], x.Params[q.sec], x.Params[q.key], x.Params[q.def]
	}
	isParse := func(n string) bool {
		return strings.HasPrefix(n, "strconv.Parse") || n == "strconv.Atoi"
	}
	rule.OnRet = func(x *Exec, st *State, ci *CallInfo, res *Term) {
		if ci.Inl {
			return
		}
		switch {
		case ci.Name == "os.LookupEnv":
			if ci.Arg(0) == key {
				st.AddMark("env", ci.Pos, x.ResultOf(ci, res, 0), x.ResultOf(ci, res, 1))
			}
		case isParse(ci.Name):
			st.AddMark("parse", ci.Pos, x.ResultOf(ci, res, 0), x.ErrOf(ci, res), ci.Arg(0))
			size := int64(64)
			if b, ok := deref(ptr.Typ).Underlying().(*types.Basic); ok && b.Kind() != types.Uint64 && b.Kind() != types.Int64 {
				size = 32
			}
			if ci.Name == "strconv.ParseInt" || ci.Name == "strconv.ParseUint" {
				b, bok := ci.Arg(1).IntConst()
				s, sok := ci.Arg(2).IntConst()
				r.Check(bok && (b == 10 || b == 0) && sok && (s == 0 || s >= size), st, "parse-range", ci.Pos, "well-formed values of the variable are rejected or misread: base or size")
			}
		case strings.HasSuffix(ci.Name, "ini.v1.Section).Key") || strings.HasSuffix(ci.Name, "ini.v1.Section).GetKey"):
			if ci.Arg(0) == sec && ci.Arg(1) == key {
				st.AddMark("key", ci.Pos, x.ResultOf(ci, res, 0))
			}
		case strings.Contains(ci.Name, "ini.v1.Key)."):
			for _, m := range st.Marks("key") {
				if ci.Arg(0) == m.T[0] {
					v := x.ResultOf(ci, res, 0)
					st.AddMark("file", ci.Pos, v, x.ErrOf(ci, res), m.T[0])
				}
			}
		}
	}
	rule.OnAbort = func(x *Exec, st *State, ci *CallInfo) {
		r.Check(false, st, "reader-aborts", ci.Pos, "%s aborts the program", fname(f))
	}
	rule.OnReturn = func(x *Exec, st *State, res []*Term) {
		r.Counts["ends of readers"]++
		v := x.load(st, ptr, deref(ptr.Typ))
		// what is known about the environment
		envUse, envNo, envWhy := false, false, "the environment was not looked up"
		var fromEnv func(t *Term) bool = func(*Term) bool { return false }
		str := isStringType(deref(ptr.Typ))
		for _, m := range st.Marks("env") {
			set, known := x.Truth(st, m.T[1])
			m := m
			switch {
			case known && !set:
				envNo = true
			case str:
				fromEnv = func(t *Term) bool { return strip(t) == m.T[0] }
				if known && set {
					envUse = true
				} else {
					envWhy = "whether the variable is set is not known"
				}
			default:
				envWhy = "whether the variable is set and well-formed is not known"
				for _, q := range st.Marks("parse") {
					if q.T[2] != m.T[0] {
						continue
					}
					q := q
					if x.KnownNonNil(st, q.T[1]) {
						envNo = true
					} else if known && set && x.KnownNil(st, q.T[1]) {
						envUse = true
						fromEnv = func(t *Term) bool { return strip(t) == q.T[0] || retStrip(t) == retStrip(q.T[0]) }
					}
				}
			}
		}
		// what is known about the file
		secNil, fileNo := x.KnownNil(st, sec), false
		var fileVals []*Term
		for _, m := range st.Marks("key") {
			if x.KnownNil(st, m.T[0]) {
				fileNo = true
			}
		}
		fileOK := func(t *Term) bool { return false }
		for _, m := range st.Marks("file") {
			m := m
			switch {
			case m.T[1] == nil: // a string
				if m.T[0] == nil || !isStringType(m.T[0].Typ) {
					continue
				}
				if e, k := x.Truth(st, x.compare(token.EQL, x.lenOf(m.T[0]), x.tt.intc(0), types.Typ[types.Int])); k && e {
					fileNo = true
				} else if k {
					fileVals = append(fileVals, m.T[0])
				}
			case x.KnownNonNil(st, m.T[1]):
				fileNo = true
			case x.KnownNil(st, m.T[1]):
				fileVals = append(fileVals, m.T[0])
			}
		}
		fileOK = func(t *Term) bool {
			for _, u := range fileVals {
				if retStrip(t) == retStrip(u) {
					return true
				}
			}
			// a string is read again from the same key
			if c := strip(t); str && (c.Op == "call" || c.Op == "pure") && len(fileVals) > 0 {
				for _, m := range st.Marks("key") {
					if len(c.Args) > 0 && c.Args[0] == m.T[0] {
						return true
					}
				}
			}
			return false
		}
		switch {
		case envUse && !envNo:
			r.Counts["values from the environment"]++
			r.Check(fromEnv(v), st, "environment-loses", fname(f), "the variable is set and well-formed but the option gets another value")
		case !envNo:
			r.Check(false, st, "environment-unknown", fname(f), "the option gets a value although %s", envWhy)
		case len(fileVals) > 0:
			r.Counts["values from the file"]++
			r.Check(fileOK(v), st, "file-loses", fname(f), "there is no usable variable and the file has a usable value, but the option gets another value")
		case secNil || fileNo:
			r.Counts["default values"]++
			r.Check(strip(v) == def, st, "default-lost", fname(f), "neither the environment nor the file has a usable value, but the option does not get the default")
		default:
			r.Check(false, st, "file-unknown", fname(f), "the option gets a value without the file having been consulted")
		}
	}
	x := NewExec(p, r.Prop, rule)
	x.Run(f)
	r.Absorb(x)
}

// confOrder: programs call Init before they read options.
func confOrder(p *Program, r *Result) {
	g := p.Graph()
	ini := p.Fn(initName)
	if ini == nil {
		return
	}
	reads := map[*ssa.Function]bool{} // reads options itself
	for _, f := range p.Funcs {
		if pkgPathOf(f) == confPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if _, ok := confField(v); ok {
						reads[f] = true
					}
				}
			}
		}
	}
	reaches := func(f *ssa.Function) bool {
		if reads[f] {
			return true
		}
		for t := range g.Reach(f) {
			if reads[t] {
				return true
			}
		}
		return false
	}
	// always: every return of f comes after a call of Init
	memo := map[*ssa.Function]int{}
	var initSites func(f *ssa.Function) []ssa.Instruction
	var always func(f *ssa.Function) bool
	always = func(f *ssa.Function) bool {
		if f == ini {
			return true
		}
		switch memo[f] {
		case 1:
			return true
		case 2:
			return false
		}
		memo[f] = 2
		sites := initSites(f)
		if len(sites) == 0 {
			return false
		}
		for _, b := range f.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if ok && !dominatedBy(ret, sites) {
				return false
			}
		}
		memo[f] = 1
		return true
	}
	initSites = func(f *ssa.Function) []ssa.Instruction {
		var l []ssa.Instruction
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if sc := c.Call.StaticCallee(); sc != nil && (sc == ini || moduleFn(sc) && sc != f && sc.Blocks != nil && always(sc)) {
					l = append(l, in)
				}
			}
		}
		return l
	}
	// check looks at a function that is called before Init may have been.
	seen := map[*ssa.Function]bool{}
	var check func(f *ssa.Function, in string)
	check = func(f *ssa.Function, root string) {
		if seen[f] {
			return
		}
		seen[f] = true
		sites := initSites(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if n, ok := confField(v); ok {
						r.Counts["uses that must follow Init"]++
						r.Check(dominatedBy(in, sites), nil, "used-before-init:"+n, p.PosStr(in.Pos()), "%s can read the option %s before the configuration is initialised", root, n)
					}
				}
				_, isDefer := in.(*ssa.Defer)
				if c, ok := in.(ssa.CallInstruction); ok && !isDefer && !slices.Contains(sites, in) {
					t := c.Common().StaticCallee()
					if t == nil || !moduleFn(t) || !reaches(t) {
						continue
					}
					r.Counts["uses that must follow Init"]++
					if !dominatedBy(in, sites) {
						check(t, root)
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		if f.Parent() != nil || f.Signature.Recv() != nil {
			continue
		}
		if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
			if reaches(f) {
				check(f, p.PosStr(f.Pos()))
			}
		} else if (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) && f.Pkg != nil {
			check(f, "package initialisation of "+pkgPathOf(f))
		}
	}
	r.NeedAtLeast(1, "uses that must follow Init")
}

func dominatedBy(in ssa.Instruction, sites []ssa.Instruction) bool {
	for _, s := range sites {
		if s.Block() == in.Block() {
			for _, i := range s.Block().Instrs {
				if i == s {
					return true
				}
				if i == in {
					break
				}
			}
			continue
		}
		if s.Block().Dominates(in.Block()) {
			return true
		}
	}
	return false
}
