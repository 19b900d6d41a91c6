package main

import (
	"go/types"
	"sort"
	"strings"
)

// ---- error obligations ------------------------------------------------------
//
// chk(group, err): the call that produced err must have succeeded before the
// operations of that group may be taken as done. As soon as the path shows the
// error to be nil the mark disappears; if the path shows it non-nil the mark
// becomes bad(group, what).

func addChk(x *Exec, st *State, group, err *Term, pos, what string) {
	if err == nil {
		return
	}
	if x.KnownNil(st, err) {
		return
	}
	w := x.tt.mk("const", what, 0, nil)
	if x.KnownNonNil(st, err) {
		st.AddMark("bad", pos, group, w)
		return
	}
	st.AddMark("chk", pos, group, err, w)
}

func pruneChk(x *Exec, st *State) {
	for k, m := range st.marks {
		if m.Kind != "chk" {
			continue
		}
		if x.KnownNil(st, m.T[1]) {
			delete(st.marks, k)
		} else if x.KnownNonNil(st, m.T[1]) {
			delete(st.marks, k)
			st.AddMark("bad", m.Pos, m.T[0], m.T[2])
		}
	}
}

// openErrs lists what is not known to have succeeded in the group.
func openErrs(x *Exec, st *State, group *Term) []Mark {
	pruneChk(x, st)
	var r []Mark
	for _, k := range []string{"chk", "bad"} {
		for _, m := range st.Marks(k) {
			if m.T[0] == group || sameFile(m.T[0], group) {
				r = append(r, m)
			}
		}
	}
	return r
}

func sameFile(a, b *Term) bool {
	return a == b
}

func whatOf(m Mark) string { return m.T[len(m.T)-1].Key }

// ---- files ------------------------------------------------------------------

// files follows output files through buffered writers and encoders:
//
//	file(T, path)      T is an open output file
//	dirty(W, T)        the buffered writer W holds unflushed data for T
//	data(T, d)         d (selected by keep) was written to T
//	repl(T, path, err) T replaced path, with this error
type files struct {
	keep  func(x *Exec, st *State, t *Term) bool // parts of written data to remember
	wide  bool                                   // any function of a library that is given the file may write
	reads bool                                   // also follow files that are opened for reading
}

const renameioPkg = "github.com/google/renameio"

func isReplace(n string) bool {
	return strings.HasSuffix(n, "renameio.PendingFile).CloseAtomicallyReplace")
}

func isCreate(n string) bool {
	switch n {
	case renameioPkg + ".TempFile", "os.Create", "os.OpenFile", "os.CreateTemp":
		return true
	}
	return false
}

func isBuffered(n string) bool {
	switch n {
	case "bufio.NewWriter", "bufio.NewWriterSize", "compress/gzip.NewWriter", "encoding/csv.NewWriter", "compress/gzip.NewWriterLevel", "bufio.NewReadWriter":
		return true
	}
	return false
}

// fileIn finds the tracked output file that t writes to.
func fileIn(st *State, t *Term) *Term {
	if t == nil {
		return nil
	}
	var best *Term
	for _, m := range st.marks {
		if m.Kind == "file" && t.Contains(m.T[0]) {
			if best == nil || m.T[0].depth > best.depth {
				best = m.T[0]
			}
		}
	}
	return best
}

func filePath(st *State, f *Term) *Term {
	for _, m := range st.marks {
		if m.Kind == "file" && m.T[0] == f {
			return m.T[1]
		}
	}
	return nil
}

// bufIn finds the buffered writer inside t. bufio.NewWriter of a writer that
// is buffered already gives back that same writer.
func bufIn(t *Term) *Term {
	l := t.FindSub(func(u *Term) bool { return u.Op == "call" && isBuffered(u.Key) })
	if len(l) == 0 {
		return nil
	}
	sort.Slice(l, func(i, j int) bool { return l[i].depth > l[j].depth })
	w := l[0]
	for w.Key == "bufio.NewWriter" && len(w.Args) > 0 {
		in := w.Args[0]
		for in.Op == "iface" || in.Op == "conv" {
			in = in.Args[0]
		}
		if in.Op != "call" || in.Key != "bufio.NewWriter" {
			break
		}
		w = in
	}
	return w
}

// passesTo is the buffered writer that a flush of w writes to, if any.
func passesTo(w *Term) *Term {
	if len(w.Args) == 0 {
		return nil
	}
	return bufIn(w.Args[0])
}

func isWriter(n string) bool {
	i := strings.LastIndexByte(n, '.')
	m := n[i+1:]
	if strings.HasPrefix(n, "(") {
		switch m {
		case "Write", "WriteString", "WriteByte", "WriteRune", "Encode", "ReadFrom", "WriteAt", "WriteAll", "Truncate", "Seek", "Sync", "Chmod":
			return true
		}
		return false
	}
	switch n {
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString", "io.Copy", "io.CopyN", "io.CopyBuffer", "encoding/binary.Write":
		return true
	}
	return false
}

func (fl *files) onRet(x *Exec, st *State, ci *CallInfo, res *Term) {
	if ci.Inl || res == nil && ci.Res == nil {
		return
	}
	n := ci.Name
	if isCreate(n) {
		if n == "os.OpenFile" && len(ci.Args) > 1 {
			if fl, ok := ci.Args[1].IntConst(); ok && fl&3 == 0 {
				return // O_RDONLY
			}
		}
		t := x.ResultOf(ci, res, 0)
		p := ci.Arg(0)
		if n == renameioPkg+".TempFile" {
			p = ci.Arg(1)
		}
		st.AddMark("file", ci.Pos, t, p)
		return
	}
	if len(ci.Args) == 0 {
		return
	}
	// methods and functions with a writer
	if isReplace(n) {
		t := ci.Arg(0)
		if f := fileIn(st, t); f != nil {
			st.AddMark("repl", ci.Pos, f, filePath(st, f), x.ErrOf(ci, res))
		}
		return
	}
	if strings.HasSuffix(n, ").Flush") {
		if w := bufIn(ci.Arg(0)); w != nil {
			f := fileIn(st, w)
			if f != nil {
				was := false
				for _, m := range st.Marks("dirty") {
					was = was || m.T[0] == w
				}
				if !was {
					return // with nothing in the buffer there is nothing that could fail
				}
				st.DelMarks("dirty", func(m Mark) bool { return m.T[0] == w })
				if n := passesTo(w); n != nil {
					st.AddMark("dirty", ci.Pos, n, f)
				}
				if e := x.ErrOf(ci, res); e != nil {
					addChk(x, st, f, e, ci.Pos, "flush")
				}
			}
		}
		return
	}
	if !isWriter(n) {
		if fl.wide && ci.Fn != nil && !moduleFn(ci.Fn) && !strings.HasPrefix(ci.Fn.Name(), "New") {
			switch ci.Fn.Name() {
			case "Close", "Cleanup", "Name", "Stat", "Fd", "Buffered", "Available", "Size", "Reset", "SetIndent", "SetEscapeHTML":
				return
			}
			for _, a := range ci.Args {
				if f := fileIn(st, a); f != nil {
					if w := bufIn(a); w != nil {
						st.AddMark("dirty", ci.Pos, w, f)
					}
					addChk(x, st, f, x.ErrOf(ci, res), ci.Pos, "call of "+shortCallee(n))
				}
			}
		}
		return
	}
	f := fileIn(st, ci.Arg(0))
	if f == nil {
		return
	}
	w := bufIn(ci.Arg(0))
	sticky := w != nil && strings.HasPrefix(n, "(*bufio.Writer).")
	if w != nil {
		st.AddMark("dirty", ci.Pos, w, f)
	}
	if !sticky {
		addChk(x, st, f, x.ErrOf(ci, res), ci.Pos, "write")
	}
	if fl.keep != nil {
		for _, a := range ci.Args[1:] {
			fl.noteData(x, st, f, a, ci.Pos)
		}
	}
}

func (fl *files) noteData(x *Exec, st *State, f, a *Term, pos string) {
	if a == nil {
		return
	}
	for t := range reachTerms(x, st, a) {
		if fl.keep(x, st, t) {
			st.AddMark("data", pos, f, t)
		}
	}
}

// unfinished lists why the content of file f is not known to be complete.
func unfinished(x *Exec, st *State, f *Term) []string {
	var r []string
	for _, m := range st.Marks("dirty") {
		if m.T[1] == f {
			r = append(r, "buffered data written at "+m.Pos+" has not been flushed")
		}
	}
	for _, m := range openErrs(x, st, f) {
		r = append(r, "the error of the "+whatOf(m)+" at "+m.Pos+" is not known to be nil")
	}
	return r
}

// ---- terms --------------------------------------------------------------------

// reachTerms is the set of all sub-terms of t, also through memory cells and
// the content of lists.
func reachTerms(x *Exec, st *State, t *Term) map[*Term]bool {
	seen := map[*Term]bool{}
	work := []*Term{t}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		if c == nil || seen[c] {
			continue
		}
		for u := range c.Subs() {
			if seen[u] {
				continue
			}
			seen[u] = true
			if v, ok := st.heap[u]; ok {
				work = append(work, v)
			}
			if v, ok := st.havoc[u]; ok {
				work = append(work, v)
			}
			if u.Op == "alloc" || u.Op == "old" {
				for a, v := range st.havoc {
					if a != u && addrRoot(a) == u {
						work = append(work, v)
					}
				}
				for a, v := range st.heap {
					if a != u && addrRoot(a) == u {
						work = append(work, v)
					}
				}
			}
			for _, it := range st.contrib[u] {
				work = append(work, it.t)
			}
		}
	}
	return seen
}

// flatContrib lists every element (and every spread source without known
// content) that may be in list l.
func flatContrib(st *State, l *Term) []contribItem { return flatContribOf(st, l, false) }

// cutShort: a part of a list whose size does not depend on what is in it.
func cutShort(t *Term) bool {
	if t.Op != "pure" {
		return false
	}
	if t.Key == "part" {
		return true
	}
	if t.Key != "slice" || t.Args[1] != nil || t.Args[2] == nil {
		return false
	}
	l := &lin{}
	(&termTable{}).linOf(t.Args[2], 1, l)
	for u := range l.c {
		if u.Op != "pure" || u.Key != "len" || u.Args[0] == t.Args[0] {
			return false
		}
	}
	return true
}

// flatContribOf: with all set, only what is certainly in the list.
func flatContribOf(st *State, l *Term, all bool) []contribItem {
	var r []contribItem
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if all && cutShort(t) {
			return
		}
		if items, ok := st.contrib[t]; ok {
			for _, it := range items {
				if all && cutShort(it.t) {
					continue
				}
				if it.spread {
					n := len(r)
					rec(it.t)
					if n == len(r) && len(st.contrib[it.t]) == 0 {
						r = append(r, it)
					}
				} else {
					r = append(r, it)
				}
			}
			return
		}
		// a list wrapped by a value function (Dedup, slice, sort) keeps its elements
		if t.Op == "pure" || t.Op == "conv" || t.Op == "call" {
			for _, a := range t.Args {
				if a != nil && (a.Op == "list" || a.Op == "make" || a.Op == "old" || a.Op == "pure" || a.Op == "conv" || a.Op == "call") && isSliceTerm(a) {
					rec(a)
				}
			}
		}
	}
	rec(l)
	return r
}

func isSliceTerm(t *Term) bool {
	if t.Typ == nil {
		return t.Op == "list" || t.Op == "make"
	}
	_, ok := t.Typ.Underlying().(*types.Slice)
	return ok
}

// binIDs collects the identifying parts of a bin (date and issuer) from a key
// or a path.
func binIDs(t *Term) map[*Term]bool {
	r := map[*Term]bool{}
	for u := range t.Subs() {
		if u.Op == "pure" && (strings.HasSuffix(u.Key, "ExpDate).ID") || strings.HasSuffix(u.Key, "Issuer).ID")) {
			r[u] = true
		}
	}
	return r
}

func sameSet(a, b map[*Term]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for t := range a {
		if !b[t] {
			return false
		}
	}
	return true
}

func callTerm(t *Term, suffix string) bool {
	return t.Op == "call" && strings.HasSuffix(t.Key, suffix)
}

func hasCall(t *Term, suffix string) bool {
	return t.HasSub(func(u *Term) bool { return callTerm(u, suffix) })
}

func min1(l []string) string {
	if len(l) == 0 {
		return ""
	}
	return l[0]
}

// opaqueSet makes a rule's OpaqueFn from a set of functions.
func opaqueSet(fs ...[]string) func(string) bool {
	m := map[string]bool{}
	for _, l := range fs {
		for _, f := range l {
			m[f] = true
		}
	}
	return func(n string) bool { return m[n] }
}
