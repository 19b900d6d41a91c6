"""Path-sensitive interprocedural abstract interpretation of Python source (AST).

Values are hash-consed symbolic terms; nothing of the analysed program is executed. Functions and
methods of the analysed modules are inlined (per call string), external calls are opaque terms that
may raise; loops are explored to a fixpoint, values of earlier iterations being renamed to old(t).
"""
import ast, os, builtins

class Incomplete(Exception):
    pass

class Term:
    __slots__ = ("op", "args", "id", "_sites")
    def __repr__(self):
        return show(self)

_tab = {}
def T(op, *args):
    k = (op,) + tuple((type(a).__name__, a) if not isinstance(a, Term) else a for a in args)
    t = _tab.get(k)
    if t is None:
        t = Term(); t.op = op; t.args = args; t.id = len(_tab); t._sites = None
        _tab[k] = t
    return t

def show(t, d=0):
    if not isinstance(t, Term):
        return repr(t)
    if t.op == "const":
        return repr(t.args[0])
    if t.op == "site":
        return "@%s" % (t.args[1],)
    if d > 6:
        return "…"
    return t.op + "(" + ", ".join(show(a, d + 1) if isinstance(a, Term) else str(a) for a in t.args) + ")"

def const(v):
    return T("const", v)
NONE, TRUE, FALSE = const(None), const(True), const(False)

def sites(t):
    if t._sites is None:
        if t.op == "site":
            t._sites = frozenset([t])
        else:
            s = frozenset()
            for a in t.args:
                if isinstance(a, Term):
                    s |= sites(a)
            t._sites = s
    return t._sites

def opdepth(t):
    n = 0
    while t.op == "op":
        n += 1
        t = next((a for a in t.args[1:] if isinstance(a, Term) and a.op == "op"), None)
        if t is None: break
    return n

def subterms(t, seen):
    if t in seen:
        return
    seen.add(t)
    for a in t.args:
        if isinstance(a, Term):
            subterms(a, seen)

def contains(t, u):
    if t is u:
        return True
    return any(isinstance(a, Term) and contains(a, u) for a in t.args)

class St:
    __slots__ = ("frames", "heap", "facts", "marks", "trace")
    def __init__(self, frames=(), heap=None, facts=None, marks=frozenset(), trace=()):
        self.frames = frames; self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}; self.marks = marks; self.trace = trace
    def clone(self):
        return St(self.frames, self.heap, self.facts, self.marks, self.trace)
    def key(self):
        return (tuple(frozenset(f.items()) for f in self.frames), frozenset(self.heap.items()),
                frozenset(self.facts.items()), self.marks)
    # persistent updates: the dictionaries are never changed in place
    def setvar(self, name, v, depth=-1):
        s = self.clone()
        fr = list(s.frames); d = dict(fr[depth]); d[name] = v; fr[depth] = d
        s.frames = tuple(fr); return s
    def delvar(self, name):
        s = self.clone(); fr = list(s.frames); d = dict(fr[-1]); d.pop(name, None); fr[-1] = d
        s.frames = tuple(fr); return s
    def seth(self, k, v):
        s = self.clone(); s.heap = dict(s.heap); s.heap[k] = v; return s
    def fact(self, t, v):
        s = self.clone(); s.facts = dict(s.facts); s.facts[t] = v; return s
    def mark(self, *ts):
        s = self.clone(); s.marks = s.marks | frozenset([T("mark", *ts)]); return s
    def unmark(self, pred):
        s = self.clone(); s.marks = frozenset(m for m in s.marks if not pred(m)); return s
    def has(self, kind):
        return [m for m in self.marks if m.args[0] == kind]
    def step(self, txt):
        s = self.clone(); s.trace = (s.trace + (txt,))[-40:]; return s

def unmarked(ms, *a):
    m = T("mark", *a)
    return m not in ms

def truth(t, st):
    if t.op == "const":
        return bool(t.args[0])
    if t.op == "not":
        v = truth(t.args[0], st)
        return None if v is None else not v
    if t in st.facts:
        return st.facts[t]
    if t.op in ("func", "clo", "class", "obj", "bound", "ext", "module", "exc"):
        return True
    if t.op == "eq":
        a, b = t.args
        if a is b:
            return True
        if a.op == "const" and b.op == "const":
            return a.args[0] == b.args[0]
        for x, y in ((a, b), (b, a)):
            if y.op == "const":
                if y.args[0] is None and (x.op in ("func", "clo", "class", "obj", "bound", "fstr", "new", "tuple", "exc") or st.facts.get(x)):
                    return False
                if y.args[0] is True and x in st.facts and x.op in ("eq", "in"):
                    return st.facts[x]
        return None
    if t.op == "fstr":
        return True if any(isinstance(a, Term) and a.op == "const" and a.args[0] for a in t.args) else None
    if t.op == "tuple":
        return len(t.args) > 0
    return None

def assume(t, v, st):
    if t.op == "not":
        return assume(t.args[0], not v, st)
    if t.op == "const":
        return st
    return st.fact(t, v)

class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree

class Fn:
    def __init__(self, node, mod, qual, cls=None):
        self.node, self.mod, self.qual, self.cls = node, mod, qual, cls
        self.gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(node)) if not isinstance(node, ast.Lambda) else False
        self.deco = []

def own(node):
    """the nodes of a function without those of nested functions"""
    body = node.body if isinstance(node.body, list) else [node.body]
    st = list(body)
    while st:
        n = st.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                st.append(c)

EXC_PARENT = {"KintoException": "Exception", "RequestException": "OSError", "ConnectionError_": "RequestException",
              "HTTPError": "RequestException", "Timeout": "RequestException", "NotFound": "GoogleAPICallError",
              "GoogleAPICallError": "Exception", "ArgparseExit": "SystemExit", "GoogleCloudError": "Exception"}

class Engine:
    def __init__(self, repo, script, rule, searchpath, limit=60000):
        self.repo, self.rule, self.limit = repo, rule, limit
        self.search = searchpath
        self.mods, self.fns, self.classes = {}, {}, {}
        self.states = 0; self.callsites = set(); self.analysed = set(); self.paths = 0
        self.methods = {}     # name -> [Fn]
        self.comps = {}
        self.prof = {} if os.environ.get("PROF") else None; self.cur = 0
        self.script = script

    # ---- positions -------------------------------------------------------
    def pos(self, mod, node):
        return "%s:%d" % (os.path.relpath(self.mods[mod].path, self.repo), getattr(node, "lineno", 0))

    # ---- modules ---------------------------------------------------------
    def find(self, name):
        for d in self.search:
            for p in (os.path.join(d, name.replace(".", "/") + ".py"), os.path.join(d, name.replace(".", "/"), "__init__.py")):
                if os.path.isfile(p):
                    return p
        return None

    def load(self, name, path, st):
        tree = ast.parse(open(path, encoding="utf-8").read(), path)
        self.mods[name] = Module(name, path, tree)
        main = "__main__" if path == self.script else name
        st = st.seth(("g", name, "__name__"), const(main)).seth(("g", name, "__file__"), T("unk", "__file__"))
        outer = st.frames
        st = st.clone(); st.frames = ({"@mod": name, "@fn": "<module>", "@scope": "m", "@ctx": ("M:" + name,), "@stack": ()},)
        outs = self.block(tree.body, st)
        res = []
        for k, v, s in outs:
            s = s.clone(); s.frames = outer
            res.append((k, v, s))
        return res

    def run(self):
        outs = self.load("__main__", self.script, St())
        self.paths = len(outs)
        return outs

    # ---- helpers ---------------------------------------------------------
    def site(self, st, node):
        f = st.frames[-1]
        return T("site", f["@ctx"], "%s:%d:%d" % (f["@mod"], getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))

    def dedupe(self, outs):
        seen = {}
        for o in outs:
            k = (o[0], o[1], o[2].key())
            if k not in seen:
                seen[k] = o
        self.states += len(seen)
        if self.prof is not None and outs:
            f = outs[0][2].frames[-1]
            k = (f["@fn"], self.cur)
            self.prof[k] = self.prof.get(k, 0) + len(seen)
        if self.states > self.limit:
            raise Incomplete("too many states")
        return list(seen.values())

    def lastuse(self, fn):
        """for each local name, the last line at which its value can still be read"""
        if hasattr(fn, "_last"):
            return fn._last
        last = {}
        def walk(n, loop_end, nested):
            if isinstance(n, (ast.For, ast.While)) and loop_end is None:
                loop_end = n.end_lineno + 0.5
            if n is not fn.node and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
                nested = True
            if isinstance(n, ast.Name):
                end = 1 << 30 if nested else (loop_end or getattr(n, "end_lineno", 0))
                if isinstance(n.ctx, ast.Store) and not nested:
                    last.setdefault(n.id, 0)
                else:
                    last[n.id] = max(last.get(n.id, 0), end)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                for x in n.names: last[x] = 1 << 30
            # a statement's own lines: names in its head stay until the statement has begun
            for c in ast.iter_child_nodes(n):
                walk(c, loop_end, nested)
        walk(fn.node, None, False)
        fn._last = last
        return last

    def gc(self, st, line=None):
        if line is not None and len(st.frames) > 0 and "@fnum" in st.frames[-1]:
            last = self.lastuse(self.fns[st.frames[-1]["@fnum"]])
            dead = [k for k in st.frames[-1] if k[0] != "@" and last.get(k, 0) <= line]
            if dead:
                st = st.clone(); d = dict(st.frames[-1])
                for k in dead: del d[k]
                st.frames = st.frames[:-1] + (d,)
        live = set()
        for f in st.frames:
            for k, v in f.items():
                if isinstance(v, Term):
                    subterms(v, live)
        for m in st.marks:
            subterms(m, live)
        todo = True
        for k, v in st.heap.items():
            if k[0] == "g":
                subterms(v, live)
        done = set()
        while todo:
            todo = False
            for k, v in st.heap.items():
                if k[0] != "g" and k not in done and k[1] in live:
                    done.add(k); subterms(v, live); todo = True
        h = {k: v for k, v in st.heap.items() if k[0] == "g" or k in done and self.rule.keep_heap(k)}
        def keep(t):
            ss = sites(t)
            if t in live:
                return True
            if not ss:
                return True
            if t.op in ("eq", "in"):
                return all(a in live or a.op == "const" for a in t.args if isinstance(a, Term))
            return False
        f = {t: v for t, v in st.facts.items() if keep(t)}
        if len(h) == len(st.heap) and len(f) == len(st.facts):
            return st
        s = st.clone(); s.heap = h; s.facts = f
        return s

    def rename(self, st, prefix):
        """values created under ctx prefix become values of an earlier iteration"""
        n = len(prefix)
        def inner(t):
            return any(x.args[0][:n] == prefix for x in sites(t))
        allt = set()
        for f in st.frames:
            for v in f.values():
                if isinstance(v, Term): subterms(v, allt)
        for k, v in st.heap.items():
            subterms(v, allt)
            for x in k:
                if isinstance(x, Term): subterms(x, allt)
        for m in st.marks:
            subterms(m, allt)
        memo = {}
        def hasold(t):
            return t.op in ("old", "older", "wid") or any(isinstance(a, Term) and hasold(a) for a in t.args)
        STRUCT = ("const", "func", "clo", "class", "module", "ext", "site")
        def sub(t):
            if t in memo:
                return memo[t]
            if t.op in STRUCT or not inner(t):
                r = t
            elif t.op == "mark":
                r = T("mark", *[sub(a) if isinstance(a, Term) else a for a in t.args])
            elif t.op == "older":
                r = t
            elif t.op == "old":
                x = t.args[0]
                r = T("older", x) if x in allt_top else t
            else:
                r = T("old", t if not hasold(t) else T("wid", max(sites(t), key=lambda x: x.id)))
            memo[t] = r
            return r
        # terms that occur outside of old(...)
        allt_top = set()
        def top(t):
            if t in allt_top or t.op in ("old", "older"):
                return
            allt_top.add(t)
            for a in t.args:
                if isinstance(a, Term): top(a)
        for f in st.frames:
            for v in f.values():
                if isinstance(v, Term): top(v)
        for m in st.marks:
            for a in m.args:
                if isinstance(a, Term): top(a)
        for k, v in st.heap.items():
            top(v)
        s = st.clone()
        s.frames = tuple({k: (sub(v) if isinstance(v, Term) else v) for k, v in f.items()} for f in st.frames)
        s.heap = {tuple(sub(x) if isinstance(x, Term) else x for x in k): sub(v) for k, v in st.heap.items()}
        s.facts = {t: v for t, v in st.facts.items() if not inner(t)}
        s.marks = frozenset(sub(m) for m in st.marks)
        return s

    # ---- names -----------------------------------------------------------
    def lookup(self, st, name):
        d = len(st.frames) - 1
        f = st.frames[d]
        while True:
            if name in f and name[0] != "@":
                return f[name]
            p = f.get("@lex")
            if p is None or p >= d:
                break
            d = p; f = st.frames[d]
        v = st.heap.get(("g", st.frames[-1]["@mod"], name))
        if v is not None:
            return v
        if hasattr(builtins, name):
            return T("ext", name)
        return T("unk", name)

    def assign_name(self, st, name, v):
        f = st.frames[-1]
        if f.get("@scope") == "m" or name in f.get("@global", ()):
            return st.seth(("g", f["@mod"], name), v)
        if name in f.get("@nonlocal", ()):
            d = f.get("@lex")
            while d is not None:
                if name in st.frames[d]:
                    return st.setvar(name, v, d)
                d = st.frames[d].get("@lex")
        return st.setvar(name, v)

    def assign(self, target, v, st):
        """-> list of outcomes ('next'|'raise', None|exc, st)"""
        if isinstance(target, ast.Name):
            return [("next", None, self.assign_name(st, target.id, v))]
        if isinstance(target, ast.Starred):
            return self.assign(target.value, T("item", v, "*"), st)
        if isinstance(target, (ast.Tuple, ast.List)):
            outs = [("next", None, st)]
            for i, e in enumerate(target.elts):
                if v.op == "tuple" and len(v.args) == len(target.elts):
                    x = v.args[i]
                else:
                    x = T("item", v, i)
                nxt = []
                for k, y, s in outs:
                    nxt += self.assign(e, x, s) if k == "next" else [(k, y, s)]
                outs = nxt
            return outs
        if isinstance(target, ast.Attribute):
            res = []
            for k, o, s in self.ev(target.value, st):
                if k != "val":
                    res.append((k, o, s)); continue
                if o.op == "module":
                    s = s.seth(("g", o.args[0], target.attr), v)
                else:
                    s = s.seth(("a", o, target.attr), v)
                r = self.rule.on_store(self, s, target, o, target.attr, v)
                res.append(("next", None, r if r is not None else s))
            return res
        if isinstance(target, ast.Subscript):
            res = []
            for k, o, s in self.ev(target.value, st):
                if k != "val":
                    res.append((k, o, s)); continue
                for k2, i, s2 in self.ev(target.slice, s):
                    if k2 != "val":
                        res.append((k2, i, s2)); continue
                    if o.op == "vars":
                        s2 = s2.seth(("a", o.args[0], i.args[0] if i.op == "const" else i), v)
                    s2 = s2.seth(("k", o, i), v)
                    res.append(("next", None, s2))
            return res
        return [("next", None, st)]

    # ---- expressions -----------------------------------------------------
    def evs(self, exprs, st):
        """evaluates a list of expressions: list of ('val', [terms], st) or ('raise', exc, st)"""
        outs = [("val", (), st)]
        for e in exprs:
            nxt = []
            for k, vs, s in outs:
                if k != "val":
                    nxt.append((k, vs, s)); continue
                for k2, v, s2 in self.ev(e, s):
                    nxt.append((k2, vs + (v,) if k2 == "val" else v, s2))
            outs = nxt
        return outs

    def getattr(self, o, name, st, node):
        """-> outcomes"""
        if o.op == "ext":
            return [("val", T("ext", o.args[0] + "." + name), st)]
        if o.op == "module":
            v = st.heap.get(("g", o.args[0], name))
            return [("val", v if v is not None else T("attr", o, name), st)]
        v = st.heap.get(("a", o, name))
        if v is not None:
            return [("val", v, st)]
        r = self.rule.on_attr(self, st, o, name, node)
        if r is not None:
            return [("val", r, st)]
        cls = None
        if o.op == "obj":
            cls = o.args[1]
        elif o.op == "super":
            cls = o.args[1]
        if cls is not None:
            fn, c = self.method(cls, name, skip=o.op == "super")
            if fn is not None:
                recv = o.args[0] if o.op == "super" else o
                if isinstance(fn, Fn):
                    f = self.fns_by_node[fn.node] if False else T("func", self.fnid(fn))
                    if "property" in fn.deco:
                        return self.call(f, [recv], {}, st, node)
                    if "staticmethod" in fn.deco:
                        return [("val", f, st)]
                    if "classmethod" in fn.deco:
                        return [("val", T("bound", T("class", c), f), st)]
                    return [("val", T("bound", recv, f), st)]
            if o.op == "super":
                o = o.args[0]
        if o.op == "class":
            fn, c = self.method(o.args[0], name)
            if isinstance(fn, Fn):
                f = T("func", self.fnid(fn))
                if "classmethod" in fn.deco:
                    return [("val", T("bound", o, f), st)]
                return [("val", f, st)]
            v = st.heap.get(("a", o, name))
            if v is not None:
                return [("val", v, st)]
        return [("val", T("attr", o, name), st)]

    def fnid(self, fn):
        if not hasattr(fn, "num"):
            fn.num = len(self.fns) + 1
            self.fns[fn.num] = fn
        return fn.num

    def method(self, cls, name, skip=False):
        """looks a method up in a class of the analysed modules and its analysed bases"""
        seen = set(); todo = [cls]; first = True
        while todo:
            c = todo.pop(0)
            if c in seen or c not in self.classes:
                first = False; continue
            seen.add(c)
            node, mod, bases, meths = self.classes[c]
            if name in meths and not (first and skip):
                return meths[name], c
            first = False
            todo += bases
        return None, None

    def external_bases(self, cls):
        res = set(); todo = [cls]; seen = set()
        while todo:
            c = todo.pop()
            if c in seen: continue
            seen.add(c)
            if c in self.classes:
                todo += self.classes[c][2]
            else:
                res.add(c)
        return res

    def ev(self, e, st):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            return [("val", T("unk", self.site(st, e)), st)]
        return m(e, st)

    def ev_Constant(self, e, st):
        v = e.value
        if isinstance(v, (int, str, bytes, bool, float, type(None))):
            return [("val", const(v), st)]
        return [("val", T("unk", repr(v)), st)]

    def ev_Name(self, e, st):
        return [("val", self.lookup(st, e.id), st)]

    def ev_NamedExpr(self, e, st):
        res = []
        for k, v, s in self.ev(e.value, st):
            if k == "val":
                s = self.assign_name(s, e.target.id, v)
            res.append((k, v, s))
        return res

    def ev_Attribute(self, e, st):
        res = []
        for k, o, s in self.ev(e.value, st):
            res += self.getattr(o, e.attr, s, e) if k == "val" else [(k, o, s)]
        return res

    def index(self, o, i, st, node):
        v = st.heap.get(("k", o, i))
        if v is not None:
            return v
        if o.op == "vars" and i.op == "const":
            v = st.heap.get(("a", o.args[0], i.args[0]))
            if v is None:
                v = self.rule.on_attr(self, st, o.args[0], i.args[0], node)
            if v is not None:
                return v
        if o.op == "tuple" and i.op == "const" and isinstance(i.args[0], int) and -len(o.args) <= i.args[0] < len(o.args):
            return o.args[i.args[0]]
        return T("sub", o, i)

    def ev_Subscript(self, e, st):
        res = []
        for k, vs, s in self.evs([e.value, e.slice], st):
            if k != "val":
                res.append((k, vs, s)); continue
            for x in self.rule.sub_raises(self, s, e):
                res.append(("raise", T("exc", x), s))
            res.append(("val", self.index(vs[0], vs[1], s, e), s))
        return res

    def ev_Slice(self, e, st):
        parts = [x for x in (e.lower, e.upper, e.step) if x is not None]
        return [(k, T("slice", *vs) if k == "val" else vs, s) for k, vs, s in self.evs(parts, st)]

    def ev_JoinedStr(self, e, st):
        return [(k, T("fstr", *vs) if k == "val" else vs, s) for k, vs, s in self.evs(e.values, st)]

    def ev_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def ev_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return [(k, T("unk", self.site(st, e)) if k == "val" else v, s) for k, v, s in self.evs([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st)]
        return [(k, T("tuple", *vs) if k == "val" else vs, s) for k, vs, s in self.evs(e.elts, st)]

    def ev_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return [(k, T("unk", self.site(st, e)) if k == "val" else v, s) for k, v, s in self.evs([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st)]
        return [(k, (T("list", *vs) if vs else T("new", "list", self.site(s, e))) if k == "val" else vs, s) for k, vs, s in self.evs(e.elts, st)]
    ev_Set = ev_List

    def ev_Dict(self, e, st):
        keys = [k for k in e.keys if k is not None]
        vals = [v for k, v in zip(e.keys, e.values) if k is not None]
        spreads = [v for k, v in zip(e.keys, e.values) if k is None]
        res = []
        for k, vs, s in self.evs(spreads + keys + vals, st):
            if k != "val":
                res.append((k, vs, s)); continue
            o = T("new", "dict", self.site(s, e))
            n = len(spreads)
            ks, xs = vs[n:n + len(keys)], vs[n + len(keys):]
            s = s.clone(); s.heap = {kk: v for kk, v in s.heap.items() if not (kk[0] == "k" and kk[1] is o)}
            for sp in vs[:n]:
                for kk, v in list(s.heap.items()):
                    if kk[0] == "k" and kk[1] is sp:
                        s.heap[("k", o, kk[2])] = v
            for a, b in zip(ks, xs):
                s.heap[("k", o, a)] = b
            res.append(("val", o, s))
        return res

    def ev_BinOp(self, e, st):
        res = []
        for k, vs, s in self.evs([e.left, e.right], st):
            if k == "val":
                op = type(e.op).__name__
                vs = T("op", op, vs[0], vs[1])
                if opdepth(vs) > 4:
                    vs = T("unk", self.site(s, e))
                if op in ("BitAnd", "BitOr", "BitXor") and all(a.op == "const" and isinstance(a.args[0], bool) for a in vs.args[1:]):
                    a, b = vs.args[1].args[0], vs.args[2].args[0]
                    vs = const({"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op])
            res.append((k, vs, s))
        return res

    def neg(self, t):
        if t.op == "not":
            return t.args[0]
        if t.op == "const":
            return const(not t.args[0])
        return T("not", t)

    def ev_UnaryOp(self, e, st):
        res = []
        for k, v, s in self.ev(e.operand, st):
            if k == "val":
                if isinstance(e.op, ast.Not):
                    tv = truth(v, s)
                    v = const(not tv) if tv is not None else self.neg(v)
                elif v.op == "const" and isinstance(e.op, ast.USub) and isinstance(v.args[0], (int, float)):
                    v = const(-v.args[0])
                else:
                    v = T("op", type(e.op).__name__, v)
            res.append((k, v, s))
        return res

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        res = []; cur = [("val", None, st)]
        for i, x in enumerate(e.values):
            nxt = []
            for k, _, s in cur:
                for k2, v, s2 in self.ev(x, s):
                    if k2 != "val":
                        res.append((k2, v, s2)); continue
                    if i == len(e.values) - 1:
                        res.append(("val", v, s2)); continue
                    tv = truth(v, s2)
                    if tv is None:
                        res.append(("val", v, assume(v, not isand, s2)))
                        nxt.append(("val", v, assume(v, isand, s2)))
                    elif tv == isand:
                        nxt.append(("val", v, s2))
                    else:
                        res.append(("val", v, s2))
            cur = nxt
        return self.dedupe(res)

    def ev_Compare(self, e, st):
        res = []
        for k, vs, s in self.evs([e.left] + e.comparators, st):
            if k != "val":
                res.append((k, vs, s)); continue
            out = None
            for i, op in enumerate(e.ops):
                c = self.cmp(type(op).__name__, vs[i], vs[i + 1], s)
                out = c if out is None else T("op", "and", out, c)
            tv = truth(out, s)
            res.append(("val", const(tv) if tv is not None else out, s))
        return res

    def cmp(self, op, a, b, st):
        if op in ("Eq", "Is", "NotEq", "IsNot"):
            if a.id > b.id:
                a, b = b, a
            for x, y in ((a, b), (b, a)):
                if y.op == "const" and isinstance(y.args[0], bool) and truth(x, st) is not None and x.op != "const" and x.op in ("eq", "in", "not", "op"):
                    r = const(truth(x, st) == y.args[0])
                    return r if op in ("Eq", "Is") else const(not r.args[0])
            t = T("eq", a, b)
            tv = truth(t, st)
            if tv is not None:
                t = const(tv)
            return t if op in ("Eq", "Is") else self.neg(t)
        if op in ("In", "NotIn"):
            t = T("in", a, b)
            if b.op in ("tuple", "list") and a.op == "const" and all(x.op == "const" for x in b.args):
                t = const(a.args[0] in [x.args[0] for x in b.args])
            return t if op == "In" else self.neg(t)
        if a.op == "const" and b.op == "const":
            try:
                return const({"Lt": a.args[0] < b.args[0], "LtE": a.args[0] <= b.args[0], "Gt": a.args[0] > b.args[0], "GtE": a.args[0] >= b.args[0]}[op])
            except Exception:
                pass
        if op == "GtE":
            return self.neg(T("op", "Lt", a, b))
        if op == "Gt":
            return T("op", "Lt", b, a)
        if op == "LtE":
            return self.neg(T("op", "Lt", b, a))
        return T("op", op, a, b)

    def cond(self, e, st):
        """-> outcomes ('val', True|False, st) or raise"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            res = []; cur = [st]
            for x in e.values:
                nxt = []
                for s in cur:
                    for k, v, s2 in self.cond(x, s):
                        if k != "val":
                            res.append((k, v, s2))
                        elif v == isand:
                            nxt.append(s2)
                        else:
                            res.append(("val", v, s2))
                cur = nxt
            res += [("val", isand, s) for s in cur]
            return res
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(k, (not v) if k == "val" else v, s) for k, v, s in self.cond(e.operand, st)]
        res = []
        for k, v, s in self.ev(e, st):
            if k != "val":
                res.append((k, v, s)); continue
            tv = truth(v, s)
            for b in (True, False):
                if tv is None or tv == b:
                    s2 = assume(v, b, s) if tv is None else s
                    r = self.rule.on_branch(self, s2, e, v, b)
                    res.append(("val", b, r if r is not None else s2))
        return res

    def ev_IfExp(self, e, st):
        res = []
        for k, v, s in self.cond(e.test, st):
            res += self.ev(e.body if v else e.orelse, s) if k == "val" else [(k, v, s)]
        return res

    def ev_Lambda(self, e, st):
        return [("val", self.mkfn(e, st, "<lambda>"), st)]

    def mkfn(self, node, st, qual, cls=None):
        key = id(node)
        fn = None
        for f in self.fns.values():
            if f.node is node:
                fn = f
        if fn is None:
            mod = st.frames[-1]["@mod"]
            fn = Fn(node, mod, qual, cls)
            self.fnid(fn)
        if st.frames[-1].get("@scope") == "m":
            return T("func", fn.num)
        return T("clo", fn.num, len(st.frames) - 1)

    def comp(self, e, st, elts):
        res = []; g = e.generators[0]
        for k, coll, s in self.ev(g.iter, st):
            if k != "val":
                res.append((k, coll, s)); continue
            val = T("comp", self.site(s, e), coll)
            self.comps[val.args[0]] = e
            res.append(("val", val, s))
            # one representative element, for its effects
            saved = s.frames[-1]
            outs = self.assign(g.target, T("elem", self.site(s, g.target), coll), s)
            states = [x[2] for x in outs if x[0] == "next"]
            conds = list(g.ifs)
            for g2 in e.generators[1:]:
                nxt = []
                for s2 in states:
                    for k3, c3, s3 in self.ev(g2.iter, s2):
                        if k3 != "val": res.append((k3, c3, s3)); continue
                        nxt += [x[2] for x in self.assign(g2.target, T("elem", self.site(s3, g2.target), c3), s3)]
                states = nxt; conds += g2.ifs
            for c in conds:
                nxt = []
                for s2 in states:
                    for k3, v3, s3 in self.cond(c, s2):
                        if k3 != "val": res.append((k3, v3, s3))
                        elif v3: nxt.append(s3)
                states = nxt
            for s2 in states:
                for k3, v3, s3 in self.evs(elts, s2):
                    s3 = s3.clone(); s3.frames = s3.frames[:-1] + (saved,)
                    s3 = self.gc(s3)
                    if k3 == "val":
                        res.append(("val", val, s3))
                    else:
                        res.append((k3, v3, s3))
        return self.dedupe(res)

    def ev_ListComp(self, e, st): return self.comp(e, st, [e.elt])
    ev_SetComp = ev_ListComp
    ev_GeneratorExp = ev_ListComp
    def ev_DictComp(self, e, st): return self.comp(e, st, [e.key, e.value])

    def ev_Starred(self, e, st): return self.ev(e.value, st)
    def ev_Await(self, e, st): return self.ev(e.value, st)

    def ev_Yield(self, e, st):
        if e.value is None:
            return [("val", T("unk", self.site(st, e)), st)]
        return [(k, T("unk", self.site(st, e)) if k == "val" else v, s) for k, v, s in self.ev(e.value, st)]
    ev_YieldFrom = ev_Yield

    # ---- calls -----------------------------------------------------------
    def ev_Call(self, e, st):
        res = []
        pos = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
        kws = [k.value for k in e.keywords]
        for k, vs, s in self.evs([e.func] + pos + kws, st):
            if k != "val":
                res.append((k, vs, s)); continue
            fn = vs[0]; args = []; kw = {}
            for a, v in zip(e.args, vs[1:1 + len(pos)]):
                if isinstance(a, ast.Starred):
                    if v.op in ("tuple", "list", "pack"):
                        args += list(v.args)
                    else:
                        args.append(T("star", v))
                else:
                    args.append(v)
            for q, v in zip(e.keywords, vs[1 + len(pos):]):
                if q.arg is None:
                    if v.op == "kwpack":
                        for x in v.args:
                            kw[x.args[0]] = x.args[1]
                    else:
                        for hk, hv in s.heap.items():
                            if hk[0] == "k" and hk[1] is v and hk[2].op == "const":
                                kw[hk[2].args[0]] = hv
                        kw["**"] = v
                else:
                    kw[q.arg] = v
            res += self.call(fn, args, kw, s, e)
        return self.dedupe(res)

    def call(self, fn, args, kw, st, e):
        self.callsites.add((st.frames[-1]["@mod"], getattr(e, "lineno", 0), getattr(e, "col_offset", 0)))
        if fn.op == "bound":
            return self.call(fn.args[1], [fn.args[0]] + args, kw, st, e)
        if fn.op == "partial":
            k2 = {x.args[0]: x.args[1] for x in fn.args[1:] if x.op == "kv"}
            k2.update(kw)
            return self.call(fn.args[0], [x for x in fn.args[1:] if x.op != "kv"] + args, k2, st, e)
        name, recv = None, None
        if fn.op == "ext":
            name = fn.args[0]
        elif fn.op == "attr":
            recv, name = fn.args
        elif fn.op in ("func", "clo"):
            name = self.fns[fn.args[0]].qual
        r = self.rule.on_call(self, st, e, name, recv, fn, args, kw)
        if r is not None:
            return r
        if fn.op in ("func", "clo"):
            f = self.fns[fn.args[0]]
            if f.num in st.frames[-1]["@stack"] or len(st.frames) > 40:
                return [("val", T("call", self.site(st, e), fn), st)]
            if self.opaque(f):
                return self.external(fn, None, None, [], {}, st, e)
            if f.gen:
                # a generator function: its body is examined for its effects when it is called
                outs = self.inline(f, fn, args, kw, st, e)
                return [(k, T("call", self.site(st, e), fn) if k == "val" else v, s) for k, v, s in outs]
            return self.inline(f, fn, args, kw, st, e)
        if fn.op == "class":
            o = T("obj", self.site(st, e), fn.args[0])
            init, _ = self.method(fn.args[0], "__init__")
            if init is None:
                for i, a in enumerate(args):
                    st = st.seth(("a", o, i), a)
                for k, v in kw.items():
                    st = st.seth(("a", o, "@" + k), v)
                return [("val", o, st)]
            outs = self.call(T("func", self.fnid(init)), [o] + args, kw, st, e)
            return [(k, o if k == "val" else v, s) for k, v, s in outs]
        if fn.op == "ext":
            r = self.builtin(name, args, kw, st, e)
            if r is not None:
                return r
        if fn.op == "attr" and recv.op not in ("const", "fstr", "ext", "new", "tuple", "list"):
            cands = [m for m in self.methods.get(name, ()) if recv.op != "obj"]
            if cands:
                res = []
                for m in cands:
                    f = T("func", self.fnid(m))
                    a = [] if "staticmethod" in m.deco else [recv]
                    res += self.call(f, a + args, kw, st, e)
                return res
        return self.external(fn, name, recv, args, kw, st, e)

    def external(self, fn, name, recv, args, kw, st, e):
        res = []
        sts = [st]
        # functions that are handed to unknown code may be run by it
        for a in list(args) + list(kw.values()):
            if a.op in ("func", "clo", "bound", "partial"):
                nxt = list(sts)
                for s in sts:
                    f = a
                    n = self.arity(f)
                    for k, v, s2 in self.call(f, [T("unk", self.site(s, e), i) for i in range(n)], {}, s, e):
                        if k == "val": nxt.append(s2)
                        else: res.append((k, v, s2))
                sts = [o[2] for o in self.dedupe([("x", None, s) for s in nxt])]
        for s in sts:
            for x in self.rule.raises(self, s, name, recv, fn, args, e):
                res.append(("raise", T("exc", x), s))
            if self.pure(name, recv):
                res.append(("val", T("call", T("pure"), fn, *args), s))
            else:
                res.append(("val", T("call", self.site(s, e), fn, *(args if name and name.endswith("suppress") else ())), s))
        return res

    PURE_EXT = {"sorted", "filter", "map", "list", "reversed", "set", "str", "os.path.join", "pathlib.Path", "urllib.parse.urljoin", "urllib.parse.quote", "posixpath.join"}
    PURE_METH = {"joinpath", "relative_to", "resolve", "absolute", "blob", "format", "join", "strip", "rstrip", "lstrip", "lower", "upper", "with_suffix"}
    def pure(self, name, recv):
        """external functions whose result is determined by (and recorded with) their arguments"""
        if recv is None:
            return name in self.PURE_EXT
        return name in self.PURE_METH

    def opaque(self, f):
        """functions with loops from which nothing of interest to the rule can be reached"""
        if hasattr(f, "_opaque"):
            return f._opaque
        if self.rule.skip(self, f):
            f._opaque = True
            return True
        seen = set(); todo = [f.node]; hit = False; loops = False
        while todo and not hit:
            node = todo.pop()
            if node in seen: continue
            seen.add(node)
            for n in ast.walk(node):
                if isinstance(n, (ast.For, ast.While)):
                    loops = True
                if self.rule.relevant(self, n):
                    hit = True; break
                nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else n.arg if isinstance(n, ast.arg) else None
                if nm is None:
                    continue
                if self.rule.interesting(nm):
                    hit = True; break
                for m in self.mods.values():
                    for d in self.defs(m).get(nm, ()):
                        todo.append(d)
        f._opaque = loops and not hit
        return f._opaque

    def mentions(self, node, pred):
        """does the node, or a function of the analysed modules that it names, name something for which pred holds"""
        seen = set(); todo = [node]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            for n in ast.walk(x):
                if self.rule.relevant(self, n):
                    hit = True; break
                nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
                if nm is None: continue
                if pred(nm): return True
                for m in self.mods.values():
                    todo += self.defs(m).get(nm, ())
        return False

    def defs(self, m):
        if not hasattr(m, "_defs"):
            m._defs = {}
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m._defs.setdefault(n.name, []).append(n)
                elif isinstance(n, ast.ClassDef):
                    for c in n.body:
                        if isinstance(c, ast.FunctionDef) and c.name in ("__init__", "__enter__", "__exit__", "__call__"):
                            m._defs.setdefault(n.name, []).append(c)
        return m._defs

    def arity(self, f):
        if f.op in ("func", "clo"):
            a = self.fns[f.args[0]].node.args
            return len(a.posonlyargs) + len(a.args)
        if f.op == "bound":
            return max(0, self.arity(f.args[1]) - 1)
        return 0

    def builtin(self, name, args, kw, st, e):
        if name in ("sys.exit", "exit", "quit", "os._exit"):
            return [("raise", T("exc", "SystemExit", args[0] if args else NONE), st)]
        if name == "bool" and len(args) == 1:
            tv = truth(args[0], st)
            return [("val", const(tv) if tv is not None else args[0], st)]
        if name in ("int", "str") and len(args) == 1 and args[0].op == "const":
            try:
                return [("val", const({"int": int, "str": str}[name](args[0].args[0])), st)]
            except Exception:
                return None
        if name == "getattr" and len(args) >= 2 and args[1].op == "const":
            return self.getattr(args[0], args[1].args[0], st, e)
        if name == "setattr" and len(args) == 3 and args[1].op == "const":
            return [("val", NONE, st.seth(("a", args[0], args[1].args[0]), args[2]))]
        if name == "vars" and len(args) == 1:
            return [("val", T("vars", args[0]), st)]
        if name in ("functools.partial", "partial"):
            return [("val", T("partial", *(args + [T("kv", k, v) for k, v in kw.items()])), st)]
        if name == "super":
            f = st.frames[-1]
            return [("val", T("super", f.get("@self", NONE), f.get("@cls", "")), st)]
        if name == "dict" and not args:
            o = T("new", "dict", self.site(st, e))
            for k, v in kw.items():
                if k == "**":
                    for hk, hv in list(st.heap.items()):
                        if hk[0] == "k" and hk[1] is v: st = st.seth(("k", o, hk[2]), hv)
                else:
                    st = st.seth(("k", o, const(k)), v)
            return [("val", o, st)]
        if name in ("all", "any") and len(args) == 1 and args[0].op in ("list", "tuple"):
            tvs = [truth(a, st) for a in args[0].args]
            if name == "any":
                if True in tvs: return [("val", TRUE, st)]
                if all(t is False for t in tvs): return [("val", FALSE, st)]
            else:
                if False in tvs: return [("val", FALSE, st)]
                if all(t is True for t in tvs): return [("val", TRUE, st)]
        if name in ("len", "isinstance", "range", "enumerate", "zip", "list", "sorted", "set", "tuple", "map", "filter", "min", "max", "sum", "any", "all", "print", "format", "repr", "type", "id", "iter", "reversed", "dir", "hasattr", "frozenset", "callable", "abs", "bytes", "round"):
            if not any(a.op in ("func", "clo", "bound") for a in args + list(kw.values())):
                return [("val", T("call", T("pure"), T("ext", name), *args), st)]
        if name == "open":
            return None
        return None

    def inline(self, f, fn, args, kw, st, e):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        fr = {"@mod": f.mod, "@fn": f.qual, "@fnum": f.num, "@ctx": st.frames[-1]["@ctx"] + ("%s:%d:%d" % (st.frames[-1]["@mod"], getattr(e, "lineno", 0), getattr(e, "col_offset", 0)),),
              "@stack": st.frames[-1]["@stack"] + (f.num,)}
        if fn.op == "clo" and fn.args[1] < len(st.frames):
            fr["@lex"] = fn.args[1]
        star = None
        rest = []
        i = 0
        for v in args:
            if v.op == "star":
                star = v; continue
            if i < len(names):
                fr[names[i]] = v; i += 1
            else:
                rest.append(v)
        kwrest = []
        for k, v in kw.items():
            if k == "**":
                continue
            if k in names or any(x.arg == k for x in a.kwonlyargs):
                fr[k] = v
            else:
                kwrest.append(T("kv", k, v))
        unknown = star is not None or ("**" in kw and not any(hk[0] == "k" and hk[1] is kw["**"] for hk in st.heap))
        dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dflt[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in fr:
                if unknown:
                    fr[n] = T("unk", self.site(st, e), n)
                elif n in dflt:
                    d = dflt[n]
                    if isinstance(d, ast.Constant):
                        fr[n] = self.ev_Constant(d, st)[0][1]
                    elif isinstance(d, ast.Name):
                        fr[n] = st.heap.get(("g", f.mod, d.id), T("unk", n))
                    else:
                        fr[n] = T("unk", "default", f.num, n)
                else:
                    fr[n] = T("unk", "missing", f.num, n)
        if a.vararg:
            fr[a.vararg.arg] = star.args[0] if star is not None and not rest else T("pack", *rest)
        if a.kwarg:
            fr[a.kwarg.arg] = kw["**"] if unknown and "**" in kw and not kwrest else T("kwpack", *kwrest)
        if f.cls and names and "staticmethod" not in f.deco:
            fr["@self"] = fr[names[0]]; fr["@cls"] = f.cls
        self.analysed.add((f.mod, f.qual))
        s = st.clone(); s.frames = st.frames + (fr,)
        s = s.step("%s: calls %s" % (self.pos(st.frames[-1]["@mod"], e), f.qual))
        r = self.rule.on_enter(self, s, f, e)
        if r is not None:
            s = r
        if isinstance(f.node, ast.Lambda):
            outs = [("return" if k == "val" else k, v, x) for k, v, x in self.ev(f.node.body, s)]
        else:
            outs = self.block(f.node.body, s)
        res = []
        for k, v, s2 in outs:
            if k == "next":
                k, v = "return", NONE
            r = self.rule.on_exit(self, s2, f, k, v, e)
            if r is not None:
                s2 = r
            top = s2.frames[-1]
            s3 = s2.clone(); s3.frames = s2.frames[:-1]
            if isinstance(v, Term):
                s3 = s3.setvar("@ret", v)
            s3 = self.gc(s3).delvar("@ret")
            if s3.trace and k == "return":
                s3.trace = st.trace
            res.append(("val" if k == "return" else "raise", v, s3))
        return self.dedupe(res)

    # ---- statements ------------------------------------------------------
    def block(self, stmts, st):
        cur = [st]; res = []
        for x in stmts:
            nxt = []
            for s in cur:
                for o in self.stmt(x, s):
                    if o[0] == "next": nxt.append((o[0], o[1], self.gc(o[2], self.line_after(x, o[2]))))
                    else: res.append(o)
            cur = [o[2] for o in self.dedupe(nxt)]
            if not cur:
                break
        return self.dedupe(res + [("next", None, s) for s in cur])

    def line_after(self, x, st):
        return x.end_lineno

    def stmt(self, x, st):
        self.cur = x.lineno
        m = getattr(self, "st_" + type(x).__name__, None)
        if m is None:
            return [("next", None, st)]
        return m(x, st)

    def st_Expr(self, x, st):
        return [("next" if k == "val" else k, None if k == "val" else v, s) for k, v, s in self.ev(x.value, st)]

    def st_Assign(self, x, st):
        outs = []
        for k, v, s in self.ev(x.value, st):
            if k != "val":
                outs.append((k, v, s)); continue
            cur = [("next", None, s)]
            for t in x.targets:
                nxt = []
                for kk, vv, ss in cur:
                    nxt += self.assign(t, v, ss) if kk == "next" else [(kk, vv, ss)]
                cur = nxt
            outs += cur
        return outs

    def st_AnnAssign(self, x, st):
        if x.value is None:
            return [("next", None, st)]
        outs = []
        for k, v, s in self.ev(x.value, st):
            outs += self.assign(x.target, v, s) if k == "val" else [(k, v, s)]
        return outs

    def st_AugAssign(self, x, st):
        load = ast.copy_location(type(x.target)(**{f: getattr(x.target, f) for f in x.target._fields if f != "ctx"}, ctx=ast.Load()), x.target)
        outs = []
        for k, vs, s in self.evs([load, x.value], st):
            if k != "val":
                outs.append((k, vs, s)); continue
            v = T("op", type(x.op).__name__, *vs)
            if opdepth(v) > 4:
                v = T("unk", self.site(s, x))
            outs += self.assign(x.target, v, s)
        return outs

    def st_Return(self, x, st):
        if x.value is None:
            return [("return", NONE, st)]
        return [("return" if k == "val" else k, v, s) for k, v, s in self.ev(x.value, st)]

    def st_Pass(self, x, st): return [("next", None, st)]
    def st_Break(self, x, st): return [("break", None, st)]
    def st_Continue(self, x, st): return [("continue", None, st)]

    def st_Delete(self, x, st):
        for t in x.targets:
            if isinstance(t, ast.Name):
                st = st.delvar(t.id)
        return [("next", None, st)]

    def st_Global(self, x, st):
        return [("next", None, st.setvar("@global", st.frames[-1].get("@global", ()) + tuple(x.names)))]
    def st_Nonlocal(self, x, st):
        return [("next", None, st.setvar("@nonlocal", st.frames[-1].get("@nonlocal", ()) + tuple(x.names)))]

    def st_Assert(self, x, st):
        res = []
        for k, v, s in self.cond(x.test, st):
            if k != "val": res.append((k, v, s))
            elif v: res.append(("next", None, s))
            else: res.append(("raise", T("exc", "AssertionError"), s))
        return res

    def st_Raise(self, x, st):
        if x.exc is None:
            return [("raise", st.frames[-1].get("@exc", T("exc", "Exception")), st)]
        res = []
        for k, v, s in self.ev(x.exc, st):
            if k != "val":
                res.append((k, v, s)); continue
            if v.op == "exc":
                res.append(("raise", v, s))
            else:
                res.append(("raise", T("exc", self.excname(v), "="), s))
        return res

    def excname(self, v):
        if v.op == "class": return v.args[0]
        if v.op == "obj": return v.args[1]
        if v.op == "ext": return v.args[0].split(".")[-1]
        if v.op == "call": return self.excname(v.args[1])
        return "Exception"

    def st_If(self, x, st):
        res = []
        for k, v, s in self.dedupe(self.cond(x.test, st)):
            res += self.block(x.body if v else x.orelse, s) if k == "val" else [(k, v, s)]
        return self.dedupe([(k, v, self.gc(s) if k == "next" else s) for k, v, s in res])

    def loop(self, x, starts, more):
        """more(st) -> outcomes ('body'|'done'|'raise', v, st)"""
        res = []; seen = set(); todo = list(starts)
        while todo:
            s = todo.pop()
            key = s.key()
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 400:
                raise Incomplete("loop at line %d does not converge" % x.lineno)
            for k, v, s1 in more(s):
                if k == "done":
                    r = self.rule.on_loopdone(self, s1, x)
                    res += self.block(x.orelse, r if r is not None else s1); continue
                if k != "body":
                    res.append((k, v, s1)); continue
                ctx = s1.frames[-1]["@ctx"]
                lctx = ctx + ("L%d:%d" % (x.lineno, x.col_offset),)
                depth = len(s1.frames) - 1
                s1 = s1.setvar("@ctx", lctx)
                pre = []
                for k2, v2, s2 in v(s1):
                    if k2 != "next":
                        pre.append((k2, v2, s2)); continue
                    pre += self.block(x.body, s2)
                for k2, v2, s2 in self.dedupe(pre):
                    s2 = s2.setvar("@ctx", ctx, depth)
                    if k2 in ("next", "continue"):
                        r = self.rule.on_backedge(self, s2, x, lctx)
                        if r is not None: s2 = r
                        todo.append(self.gc(self.rename(s2, lctx)))
                    elif k2 == "break":
                        res.append(("next", None, s2))
                    else:
                        res.append((k2, v2, s2))
        return self.dedupe([(k, v, self.gc(s) if k == "next" else s) for k, v, s in res])

    def st_For(self, x, st):
        res = []
        for k, coll, s in self.ev(x.iter, st):
            if k != "val":
                res.append((k, coll, s)); continue
            hid = "@it%d:%d" % (x.lineno, x.col_offset)
            s = s.setvar(hid, coll)
            def more(s1):
                def enter(s2):
                    return self.assign(x.target, T("elem", self.site(s2, x.target), s2.frames[-1][hid]), s2)
                return [("done", None, s1), ("body", enter, s1)]
            res += [(k2, v2, s2.delvar(hid)) for k2, v2, s2 in self.loop(x, [s], more)]
        return res
    st_AsyncFor = st_For

    def st_While(self, x, st):
        def more(s1):
            res = []
            for k, v, s in self.dedupe(self.cond(x.test, s1)):
                if k != "val": res.append((k, v, s))
                elif v: res.append(("body", lambda s2: [("next", None, s2)], s))
                else: res.append(("done", None, s))
            return res
        return self.loop(x, [st], more)

    def st_With(self, x, st):
        res = []; cur = [st]; suppress = []
        hid = "@with%d" % x.lineno
        for it in x.items:
            nxt = []
            for s in cur:
                for k, v, s2 in self.ev(it.context_expr, s):
                    if k != "val":
                        res.append((k, v, s2)); continue
                    if v.op == "call" and v.args[1].op == "ext" and v.args[1].args[0].endswith("suppress"):
                        suppress += list(v.args[2:])
                    if it.optional_vars is not None:
                        for k3, v3, s3 in self.assign(it.optional_vars, v, s2):
                            if k3 == "next": nxt.append(s3)
                            else: res.append((k3, v3, s3))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            for k, v, s2 in self.block(x.body, s):
                if k == "raise" and suppress:
                    m = [self.catches(c, v) for c in suppress]
                    if "yes" in m or "maybe" in m:
                        res.append(("next", None, s2))
                    if "yes" in m:
                        continue
                res.append((k, v, s2))
        return self.dedupe(res)
    st_AsyncWith = st_With

    def parents(self, n):
        out = []; seen = set(); todo = [n]
        while todo:
            c = todo.pop(0)
            if c in seen: continue
            seen.add(c); out.append(c)
            if c in self.classes:
                todo += [b.split(".")[-1] for b in self.classes[c][2]]
            elif c in EXC_PARENT:
                todo.append(EXC_PARENT[c])
            elif hasattr(builtins, c) and isinstance(getattr(builtins, c), type):
                todo += [b.__name__ for b in getattr(builtins, c).__mro__[1:]]
            else:
                todo.append("Exception")
        return out

    def catches(self, h, exc):
        """h: the handler's class term; exc: exc(kind): a kind stands for itself or a subclass of it"""
        n = self.excname(h) if h.op != "const" else "Exception"
        if h.op == "attr":
            n = h.args[1]
        if h.op == "ext" and h.args[0].split(".")[-1] == "error":
            n = "OSError"
        if h.op == "ext" and h.args[0].startswith("requests"):
            if n == "ConnectionError":
                n = "ConnectionError_"
        kind = exc.args[0]
        if n in self.parents(kind):
            return "yes"
        if kind in self.parents(n) and "=" not in exc.args[1:]:
            return "maybe"
        return "no"

    def st_Try(self, x, st):
        res = []
        after = []
        for k, v, s in self.block(x.body, st):
            if k == "next":
                after += self.block(x.orelse, s)
            elif k == "raise":
                pending = True
                for h in x.handlers:
                    if not pending:
                        break
                    m = "no"; hs = [s]
                    if h.type is None:
                        m = "yes"
                    else:
                        hts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                        for ht in hts:
                            for k2, c, s2 in self.ev(ht, s):
                                if k2 != "val": continue
                                cs = c.args if c.op == "tuple" else [c]
                                for cc in cs:
                                    r = self.catches(cc, v)
                                    if r == "yes" or m == "no":
                                        m = r if r != "no" or m == "no" else m
                    if m == "no":
                        continue
                    old = s.frames[-1].get("@exc")
                    s2 = s.setvar("@exc", v)
                    if h.name:
                        s2 = self.assign_name(s2, h.name, v)
                    r = self.rule.on_catch(self, s2, h, v)
                    if r is not None:
                        s2 = r
                    s2 = s2.step("%s: the exception %s is caught" % (self.pos(s.frames[-1]["@mod"], h), v.args[0]))
                    for k3, v3, s3 in self.block(h.body, s2):
                        s3 = s3.setvar("@exc", old) if old is not None else s3.delvar("@exc")
                        if h.name:
                            s3 = s3.delvar(h.name)
                        after.append((k3, v3, s3))
                    if m == "yes":
                        pending = False
                if pending:
                    after.append((k, v, s))
            else:
                after.append((k, v, s))
        if x.finalbody:
            for k, v, s in self.dedupe(after):
                hid = "@fin%d" % x.lineno
                if isinstance(v, Term):
                    s = s.setvar(hid, v)
                for k2, v2, s2 in self.block(x.finalbody, s):
                    v3 = s2.frames[-1].get(hid, v) if isinstance(v, Term) else v
                    s2 = s2.delvar(hid)
                    res.append((k, v3, s2) if k2 == "next" else (k2, v2, s2))
        else:
            res = after
        return self.dedupe(res)
    st_TryStar = st_Try

    def st_Match(self, x, st):
        res = []
        for k, v, s in self.ev(x.subject, st):
            if k != "val":
                res.append((k, v, s)); continue
            done = False
            for c in x.cases:
                definite = None
                if isinstance(c.pattern, ast.MatchValue) or isinstance(c.pattern, ast.MatchSingleton):
                    pv = self.ev(c.pattern.value, s)[0][1] if isinstance(c.pattern, ast.MatchValue) else const(c.pattern.value)
                    definite = truth(self.cmp("Eq", v, pv, s), s)
                elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    definite = True
                if definite is False:
                    continue
                if c.guard is not None:
                    for k2, v2, s2 in self.cond(c.guard, s):
                        if k2 == "val" and v2: res += self.block(c.body, s2)
                    continue
                res += self.block(c.body, s)
                if definite:
                    done = True; break
            if not done:
                res.append(("next", None, s))
        return res

    def deco(self, node, st):
        names, calls = [], []
        for d in node.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            nm = n.attr if isinstance(n, ast.Attribute) else getattr(n, "id", "")
            names.append(nm); calls.append(d)
        return names, calls

    def st_FunctionDef(self, x, st):
        f = st.frames[-1]
        qual = x.name if f.get("@scope") == "m" or f["@fn"] == "<module>" else f["@fn"] + "." + x.name
        v = self.mkfn(x, st, qual)
        fn = self.fns[v.args[0]]
        fn.deco, ds = self.deco(x, st)
        res = [("next", v, st)]
        for d in reversed(ds):
            nxt = []
            for k, v, s in res:
                if k != "next": nxt.append((k, v, s)); continue
                for k2, dv, s2 in self.ev(d, s):
                    if k2 != "val": nxt.append((k2, dv, s2)); continue
                    if dv.op in ("func", "clo", "bound") or (dv.op == "partial"):
                        for k3, v3, s3 in self.call(dv, [v], {}, s2, d):
                            nxt.append(("next" if k3 == "val" else k3, v3, s3))
                    else:
                        nxt.append(("next", v, s2))
            res = nxt
        return [("next", None, self.assign_name(s, x.name, v)) if k == "next" else (k, v, s) for k, v, s in res]
    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, x, st):
        mod = st.frames[-1]["@mod"]
        bases = []
        for b in x.bases:
            for k, v, s in self.ev(b, st):
                if k == "val":
                    bases.append(v.args[0] if v.op in ("class", "ext") else show(v))
        meths = {}
        self.classes[x.name] = (x, mod, bases, meths)
        cls = T("class", x.name)
        for n in x.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fn = None
                for f in self.fns.values():
                    if f.node is n: fn = f
                if fn is None:
                    fn = Fn(n, mod, x.name + "." + n.name, x.name)
                    self.fnid(fn)
                fn.deco, _ = self.deco(n, st)
                meths[n.name] = fn
                l = self.methods.setdefault(n.name, [])
                if fn not in l: l.append(fn)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                for k, v, s in self.ev(n.value, st):
                    if k == "val":
                        st = s.seth(("a", cls, n.targets[0].id), v)
        return [("next", None, self.assign_name(st, x.name, cls))]

    def st_Import(self, x, st):
        outs = [("next", None, st)]
        for a in x.names:
            nxt = []
            for k, v, s in outs:
                if k != "next": nxt.append((k, v, s)); continue
                p = self.find(a.name)
                if p is None:
                    nxt.append(("next", None, self.assign_name(s, a.asname or a.name.split(".")[0], T("ext", a.name if a.asname else a.name.split(".")[0]))))
                    continue
                for k2, v2, s2 in self.imp(a.name, p, s):
                    nxt.append(("next", None, self.assign_name(s2, a.asname or a.name, T("module", a.name))) if k2 == "next" else (k2, v2, s2))
            outs = nxt
        return outs

    def imp(self, name, path, st):
        if name in self.mods:
            return [("next", None, st)]
        return self.load(name, path, st)

    def st_ImportFrom(self, x, st):
        name = x.module or ""
        p = self.find(name) if x.level == 0 and name else None
        if p is None:
            for a in x.names:
                st = self.assign_name(st, a.asname or a.name, T("ext", name + "." + a.name))
            return [("next", None, st)]
        res = []
        for k, v, s in self.imp(name, p, st):
            if k == "next":
                for a in x.names:
                    val = s.heap.get(("g", name, a.name))
                    s = self.assign_name(s, a.asname or a.name, val if val is not None else T("ext", name + "." + a.name))
            res.append((k, v, s))
        return res

class Rule:
    """hooks with default behaviour"""
    def on_call(self, eng, st, node, name, recv, fn, args, kw): return None
    def on_attr(self, eng, st, o, name, node): return None
    def on_store(self, eng, st, node, o, name, v): return None
    def on_branch(self, eng, st, node, t, taken): return None
    def on_enter(self, eng, st, f, node): return None
    def on_exit(self, eng, st, f, kind, v, node): return None
    def on_catch(self, eng, st, h, exc): return None
    def on_backedge(self, eng, st, loop, ctx): return None
    def on_loopdone(self, eng, st, loop): return None
    def raises(self, eng, st, name, recv, fn, args, node): return ()
    def sub_raises(self, eng, st, node): return ()
    def interesting(self, name): return True
    def relevant(self, eng, n): return False
    def keep_heap(self, key): return True
    def skip(self, eng, f): return False
