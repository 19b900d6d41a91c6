#!/usr/bin/env python3
"""Decides the properties of the Python parts of the repository (see engine.py)."""
import ast, json, os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from engine import *

REPO = os.environ.get("REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PUBLISHER = "moz_kinto_publisher/main.py"
SIGNOFF = "containers/scripts/crlite-signoff-tool.py"
UPLOAD1 = "workflow/1-upload_data_to_storage"
UPLOAD3 = "workflow/3-upload_mlbf_to_storage"

class Result:
    def __init__(self, prop, rule):
        self.prop, self.rule = prop, rule
        self.obl = {}; self.viol = {}; self.counts = {}
        self.states = 0; self.paths = 0; self.fns = set(); self.sites = set(); self.err = None
        self.assume = []
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n
    def check(self, ok, st, key, pos, msg):
        k = "%s at %s" % (key, pos)
        self.obl[k] = self.obl.get(k, True) and ok
        if not ok and k not in self.viol:
            self.viol[k] = (key, pos, msg, list(st.trace) if st is not None else [])
        return ok
    def need(self, what, n):
        k = "instances: " + what
        ok = self.counts.get(what, 0) >= n
        self.obl[k] = ok
        if not ok:
            self.viol[k] = ("missing:" + what, "-", "expected at least %d %s, found %d" % (n, what, self.counts.get(what, 0)), [])
    def absorb(self, eng):
        self.states += eng.states; self.paths += eng.paths
        self.fns |= {"%s.%s" % (m, f) for m, f in eng.analysed}
        self.sites |= {(eng.script,) + s for s in eng.callsites}

def where(eng, st, node):
    return eng.pos(st.frames[-1]["@mod"], node)

# ---------------------------------------------------------------- classification
READ = re.compile(r"^(get_\w+|server_info|clone|get|head|options|close|auth|session)$")
RECORD_OPS = re.compile(r"^_?(create|update|patch|delete|put|post|set|remove|purge|replace|approve|decline|publish|sign|upload|attach)_(bucket|buckets|group|groups|collection|collections|record|records|attachment|attachments|file|permissions)s?$")
HTTP_WRITE = {"post", "put", "patch", "delete"}
BLOB_WRITE = re.compile(r"^(upload_from_\w+|rewrite|compose|copy_blob|rename_blob|delete_blobs?|make_public|make_private|update_storage_class|create_resumable_upload_session|create_bucket|patch_bucket)$")

def is_client(eng, recv):
    """an instance of a class that derives from the Kinto client, or of that client itself"""
    if recv is None:
        return False
    if recv.op == "obj":
        return any(b.startswith("kinto_http") for b in eng.external_bases(recv.args[1]))
    if recv.op == "call" and recv.args[1].op == "ext":
        return recv.args[1].args[0].startswith("kinto_http")
    if recv.op == "call" and recv.args[1].op == "attr" and recv.args[1].args[1] == "clone":
        return is_client(eng, recv.args[1].args[0])
    return False

def method_const(args, kw):
    m = args[0] if args else kw.get("method")
    return m.args[0].lower() if m is not None and m.op == "const" and isinstance(m.args[0], str) else None

def mutation(eng, name, recv, args, kw):
    """-> description of the change of the server's state that the external call makes, or None"""
    if name is None:
        return None
    if recv is None:
        if name.startswith("requests.") or name.startswith("httpx."):
            m = name.split(".", 1)[1]
            if m in HTTP_WRITE:
                return "HTTP " + m
            if m == "request" and method_const(args, kw) not in ("get", "head", "options"):
                return "HTTP request"
        if name == "urllib.request.urlopen" and (len(args) > 1 or "data" in kw):
            return "HTTP request with a body"
        return None
    if recv.op in ("new", "const", "fstr", "tuple", "list", "dict"):
        return None
    if is_client(eng, recv):
        if READ.match(name):
            return None
        return "client operation " + name
    if RECORD_OPS.match(name) or BLOB_WRITE.match(name):
        return "operation " + name
    # a session of the client or of the HTTP library
    if recv.op == "attr" and recv.args[1] == "session" or recv.op == "call" and recv.args[1].op == "ext" and recv.args[1].args[0].endswith("Session"):
        if name in HTTP_WRITE:
            return "HTTP " + name
        if name == "request" and method_const(args, kw) not in ("get", "head", "options"):
            return "HTTP request"
    return None

def net_op(eng, name, recv, args, kw):
    """external operations that talk to a server or read a file -> the exceptions that they may raise"""
    if name is None:
        return ()
    if recv is None:
        if name.startswith("requests.") and name.split(".", 1)[1] in HTTP_WRITE | {"get", "head", "options", "request"}:
            return ("RequestException",)
        if name in ("open", "io.open"):
            return ("OSError",)
        if name.startswith("workflow."):
            return ("Exception",)
        return ()
    if is_client(eng, recv):
        return ("KintoException", "RequestException")
    if mutation(eng, name, recv, args, kw):
        if BLOB_WRITE.match(name):
            return ("GoogleAPICallError", "OSError")
        return ("KintoException", "RequestException")
    if name in ("read_bytes", "read_text", "open", "stat", "raise_for_status", "get_bucket"):
        return ("OSError",)
    return ()

def noop_options(mods):
    """the destinations of the --noop option in the given modules: [(dest, action, line)]"""
    res = []
    for m in mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument":
                names = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                if "--noop" in names:
                    dest, action = "noop", None
                    for k in n.keywords:
                        if k.arg == "dest" and isinstance(k.value, ast.Constant): dest = k.value.value
                        if k.arg == "action":
                            action = k.value.value if isinstance(k.value, ast.Constant) else (k.value.attr if isinstance(k.value, ast.Attribute) else "?")
                    res.append((dest, action, n.lineno, m.path))
    return res

def parsed_args(o):
    if o.op == "item" and o.args[1] == 0:
        o = o.args[0]
    return o.op == "call" and o.args[1].op == "attr" and o.args[1].args[1] in ("parse_args", "parse_known_args")

def paths(script):
    d = os.path.dirname(os.path.join(REPO, script))
    return [d, REPO]

def run_engine(script, rule, r, limit=2000000):
    p = os.path.join(REPO, script)
    eng = Engine(REPO, p, rule, paths(script), limit)
    try:
        eng.outs = eng.run()
    except Incomplete as e:
        r.err = "%s: %s" % (script, e); eng.outs = []
    except SyntaxError as e:
        r.err = "%s: %s" % (script, e); eng.outs = []
    except FileNotFoundError as e:
        r.err = "%s: %s" % (script, e); eng.outs = []
    r.absorb(eng)
    return eng

class Mode(Rule):
    """fixes the value of the --noop option"""
    def interesting(self, name):
        return name in self.dests or name == "noop" or bool(RECORD_OPS.match(name) or BLOB_WRITE.match(name) or name in HTTP_WRITE or name in ("request", "urlopen", "exit", "_exit"))
    def __init__(self, r, script, noop):
        self.r, self.noop = r, noop
        p = os.path.join(REPO, script)
        mods = {"__main__": Module("__main__", p, ast.parse(open(p, encoding="utf-8").read()))}
        self.opts = noop_options(mods)
        self.dests = {d for d, _, _, _ in self.opts}
    def on_attr(self, eng, st, o, name, node):
        if name in self.dests and parsed_args(o):
            return const(self.noop)
        if name == "__dict__" and parsed_args(o):
            return T("vars", o)
        return None
    def on_call(self, eng, st, node, name, recv, fn, args, kw):
        if name == "get" and recv is not None and recv.op == "vars" and args and args[0].op == "const" and args[0].args[0] in self.dests:
            return [("val", eng.index(recv, args[0], st, node), st)]
        return None

# ---------------------------------------------------------------- C34
class DryRun(Mode):
    def __init__(self, r, script):
        super().__init__(r, script, True)
        self.reads = 0
    def on_call(self, eng, st, node, name, recv, fn, args, kw):
        x = super().on_call(eng, st, node, name, recv, fn, args, kw)
        if x is not None:
            return x
        if fn.op in ("func", "clo", "class"):
            return None
        m = mutation(eng, name, recv, args, kw)
        pos = where(eng, st, node)
        if m:
            self.r.check(False, st, "mutation-in-dry-run", pos, "%s is reached with the no-operation option set (in %s)" % (m, st.frames[-1]["@fn"]))
        elif is_client(eng, recv) or (name or "").startswith("requests."):
            self.r.check(True, st, "read-only-call", pos, "")
        return None
    def raises(self, eng, st, name, recv, fn, args, node):
        return net_op(eng, name, recv, args, {}) or ("Exception",)
    def sub_raises(self, eng, st, node):
        return ("KeyError",)

class Live(Mode):
    """the same exploration without the option: counts the operations that the option has to prevent"""
    def __init__(self, r, script, kinds):
        super().__init__(r, script, False)
        self.kinds = kinds
    def on_call(self, eng, st, node, name, recv, fn, args, kw):
        x = super().on_call(eng, st, node, name, recv, fn, args, kw)
        if x is not None or fn.op in ("func", "clo", "class"):
            return x
        m = mutation(eng, name, recv, args, kw)
        if m:
            self.kinds.setdefault(where(eng, st, node), m)
        return None
    def raises(self, eng, st, name, recv, fn, args, node):
        return net_op(eng, name, recv, args, {})

def c34(tier):
    r = Result("C34", "with the no-operation option set, no path from the start of the publisher, of the sign-off tool or of an upload script reaches an operation that changes a record, an attachment, a collection or a stored file on a server, whether or not the calls before it raise")
    for script, n in ((PUBLISHER, 6), (SIGNOFF, 1), (UPLOAD1, 1), (UPLOAD3, 2)):
        kinds = {}
        rule = DryRun(r, script)
        for d, action, line, path in rule.opts:
            r.check(action == "store_true", None, "option-sets-flag", "%s:%d" % (script, line), "the --noop option does not set a flag (action %s)" % action)
            r.count("no-operation options")
        run_engine(script, rule, r)
        run_engine(script, Live(r, script, kinds), r)
        for pos, m in kinds.items():
            r.check("mutation-in-dry-run at " + pos not in r.viol, None, "guarded-operation", pos, m)
        r.count("operations of " + os.path.basename(script), len(kinds))
        r.need("operations of " + os.path.basename(script), n)
    r.need("no-operation options", 4)
    # guarded operations repeat the message of the violation itself
    for k in [k for k in r.viol if k.startswith("guarded-operation")]:
        del r.viol[k]
    r.assume = ["the option is given on the command line; that the shell scripts pass it on is not judged"]
    return r

# ---------------------------------------------------------------- shared: the publisher's collections
def setting(st, name):
    return st.heap.get(("g", "settings", name))

def is_setting(st, t, *names):
    if t is None:
        return False
    for n in names:
        v = setting(st, n)
        if v is not None and t is v:
            return True
        if t.op == "attr" and t.args[1] == n or t.op == "ext" and t.args[0] == "settings." + n:
            return True
    return False

def arg(args, kw, name, i=None):
    if name in kw:
        return kw[name]
    return args[i] if i is not None and i < len(args) else None

def cond_value(t, status):
    """evaluates a condition on a response for a given status; None if it depends on anything else"""
    def val(t):
        if t.op == "const": return t.args[0]
        if t.op == "attr" and t.args[1] == "status_code": return status
        if t.op == "attr" and t.args[1] == "ok": return status < 400
        if t.op == "op" and t.args[0] == "FloorDiv":
            a, b = val(t.args[1]), val(t.args[2])
            return None if a is None or b is None else a // b
        if t.op == "not":
            v = val(t.args[0]); return None if v is None else not v
        if t.op == "eq":
            a, b = val(t.args[0]), val(t.args[1])
            return None if a is None or b is None else a == b
        if t.op == "op" and t.args[0] == "Lt":
            a, b = val(t.args[1]), val(t.args[2])
            return None if a is None or b is None else a < b
        if t.op == "op" and t.args[0] in ("and",):
            a, b = val(t.args[1]), val(t.args[2])
            return None if a is None or b is None else a and b
        if t.op == "in":
            a = val(t.args[0])
            if t.args[1].op in ("tuple", "list"):
                xs = [val(x) for x in t.args[1].args]
                return None if a is None or None in xs else a in xs
            if t.args[1].op == "call" and t.args[1].args[1].op == "ext" and t.args[1].args[1].args[0] == "range" and len(t.args[1].args) == 4:
                lo, hi = val(t.args[1].args[2]), val(t.args[1].args[3])
                return None if None in (a, lo, hi) else lo <= a < hi
        return None
    return val(t)

BAD = (400, 401, 403, 404, 405, 409, 412, 413, 429, 500, 502, 503, 504)

def response_of(t):
    for x in allterms(t):
        if x.op == "attr" and x.args[1] in ("status_code", "ok"):
            return x.args[0]
    return None

def allterms(t):
    s = set(); subterms(t, s); return s

class Publish(Mode):
    """the publisher without the no-operation option: creations, attachments and deletions as events"""
    def __init__(self, r):
        super().__init__(r, PUBLISHER, False)
    def raises(self, eng, st, name, recv, fn, args, node):
        if fn.op in ("func", "clo"):
            return ("Exception",)
        return net_op(eng, name, recv, args, {})
    def op(self, eng, name, recv):
        """name of a record operation on a client"""
        if recv is None or name is None:
            return None
        if is_client(eng, recv) or RECORD_OPS.match(name) and recv.op not in ("new", "const", "fstr"):
            return name
        return None

# ---------------------------------------------------------------- C35
class Attached(Publish):
    """marks: rec(R, collection, depth) created and not attached; posted(R, resp); gone(R, depth)"""
    def skip(self, eng, f):
        return eng.mentions(f.node, lambda n: n == "KINTO_CTLOGS_COLLECTION") and not eng.mentions(f.node, lambda n: n in ("KINTO_CRLITE_COLLECTION", "KINTO_INTERMEDIATES_COLLECTION"))
    def on_call(self, eng, st, node, name, recv, fn, args, kw):
        x = super().on_call(eng, st, node, name, recv, fn, args, kw)
        if x is not None or fn.op in ("func", "clo", "class", "bound"):
            return x
        o = self.op(eng, name, recv)
        pos = where(eng, st, node)
        if o == "create_record":
            coll = arg(args, kw, "collection")
            if is_setting(st, coll, "KINTO_CTLOGS_COLLECTION"):
                return None
            self.r.count("record creations")
            R = T("call", eng.site(st, node), fn)
            s = st.mark("rec", R, coll if coll is not None else NONE, len(st.frames)).step("%s: record created" % pos)
            return [("val", R, s)] + [("raise", T("exc", k), st) for k in ("KintoException", "RequestException")]
        if recv is None and name in ("requests.post", "requests.put", "requests.patch", "requests.request"):
            url = arg(args, kw, "url", 1 if name.endswith("request") else 0)
            resp = T("call", eng.site(st, node), fn)
            s = st
            for m in st.has("rec"):
                if url is not None and contains(url, m.args[1]):
                    s = s.mark("posted", m.args[1], resp)
                    self.r.count("attachment uploads")
            return [("val", resp, s.step("%s: attachment sent" % pos)), ("raise", T("exc", "RequestException"), st.step("%s: sending the attachment fails" % pos))]
        if name == "raise_for_status" and recv is not None:
            s = st
            for m in st.has("posted"):
                if m.args[2] is recv:
                    s = self.attached(eng, s, m.args[1], node)
            return [("val", NONE, s), ("raise", T("exc", "HTTPError"), st)]
        if o in ("delete_record", "delete_records"):
            ident = arg(args, kw, "id")
            coll = arg(args, kw, "collection")
            s = st
            for m in st.has("rec"):
                if ident is not None and contains(ident, m.args[1]) and (coll is m.args[2] or coll is None and m.args[2] is NONE):
                    s = s.unmark(lambda k, m=m: k.args[0] in ("rec", "posted") and k.args[1] is m.args[1])
                    s = s.mark("gone", m.args[1], m.args[3]).step("%s: the record is deleted again" % pos)
                    self.r.count("removals after a failed upload")
            return [("val", T("call", eng.site(st, node), fn), s)] + [("raise", T("exc", k), s) for k in ("KintoException", "RequestException")]
        return None
    def attached(self, eng, s, R, node):
        for m in s.has("rec"):
            if m.args[1] is R:
                self.r.check(True, s, "attached", self.created(R), "")
        return s.unmark(lambda k: k.args[0] in ("rec", "posted") and k.args[1] is R)
    def on_branch(self, eng, st, node, t, taken):
        resp = response_of(t)
        if resp is None:
            return None
        s = st
        for m in st.has("posted"):
            if m.args[2] is resp:
                bad = [cond_value(t, c) for c in BAD]
                good = [cond_value(t, c) for c in (200, 201)]
                if None not in bad and all(b != taken for b in bad) and taken in good:
                    s = self.attached(eng, s, m.args[1], node)
        return s
    def on_exit(self, eng, st, f, kind, v, node):
        d = len(st.frames); s = st
        for m in st.has("gone"):
            if m.args[2] >= d:
                self.r.check(kind == "raise", st, "failure-swallowed", self.pos_of(eng, m.args[1]), "the upload of the attachment failed and the record was removed, but %s returns as if it had been published" % f.qual)
                s = s.unmark(lambda k, m=m: k is m)
        for m in st.has("rec"):
            if m.args[3] >= d:
                s = s.unmark(lambda k, m=m: k is m)
                s = s.mark("rec", m.args[1], m.args[2], d - 1)
        return s
    def pos_of(self, eng, R):
        while R.op in ("old", "older"):
            R = R.args[0]
        return site_pos(eng, R.args[0]) if R.op == "call" else "-"
    def pending(self, eng, st, why):
        for m in st.has("rec"):
            self.r.check(False, st, "record-without-attachment", self.pos_of(eng, m.args[1]), "a record is created and %s" % why)
    def on_backedge(self, eng, st, loop, ctx):
        n = len(ctx); s = st
        for m in st.has("rec"):
            if m.args[1].op == "call" and m.args[1].args[0].args[0][:n] == ctx:
                self.r.check(False, st, "record-without-attachment", self.pos_of(eng, m.args[1]), "a path goes on to the next iteration without an uploaded attachment and without having removed the record")
                s = s.unmark(lambda k, m=m: k is m)
        return s

def site_pos(eng, x):
    m, l, _ = x.args[1].rsplit(":", 2)
    return "%s:%s" % (os.path.relpath(eng.mods[m].path, REPO), l)

def c35(tier):
    r = Result("C35", "every record that is created in a collection whose records carry an attachment is, on every path from the creation (including every exception that the operations in between may raise), either followed by an upload of an attachment to that record whose response is known to report success, or by the deletion of the same record from the same collection; and the function in whose extent both happen is left by an exception")
    rule = Attached(r)
    rule.created = lambda R: rule.pos_of(eng0[0], R)
    eng0 = [None]
    p = os.path.join(REPO, PUBLISHER)
    eng = Engine(REPO, p, rule, paths(PUBLISHER), 2000000)
    eng0[0] = eng
    try:
        for k, v, s in eng.run():
            rule.pending(eng, s, "the program can end without an uploaded attachment and without having removed it")
    except (Incomplete, SyntaxError, FileNotFoundError) as e:
        r.err = str(e)
    r.absorb(eng)
    for what, n in (("record creations", 2), ("attachment uploads", 2), ("removals after a failed upload", 2)):
        r.need(what, n)
    r.assume = ["a request for the deletion of the record counts as its removal", "reading the identifier of a record from the server's answer does not fail"]
    return r

# ---------------------------------------------------------------- C39
class Completed(Mode):
    """marks: failed(site) an upload failed; up(elem); skip(elem); run(walk elem); done(dir); sentinel"""
    def __init__(self, r, dirs):
        super().__init__(r, UPLOAD3, False)
        self.dirs = dirs
    def interesting(self, name):
        return super().interesting(name) or name in ("walk", "blob")
    def raises(self, eng, st, name, recv, fn, args, node):
        if fn.op in ("func", "clo"):
            return ("Exception",)
        return net_op(eng, name, recv, args, {})
    def on_call(self, eng, st, node, name, recv, fn, args, kw):
        x = super().on_call(eng, st, node, name, recv, fn, args, kw)
        if x is not None:
            return x
        if name in ("os.walk",) and recv is None:
            return [("val", T("call", eng.site(st, node), fn, *args), st)]
        if recv is None or not BLOB_WRITE.match(name or ""):
            return None
        pos = where(eng, st, node)
        ts = allterms(recv)
        if any(t.op == "const" and t.args[0] == "completed" for t in ts) or any(t.op == "const" and isinstance(t.args[0], str) and t.args[0].endswith("/completed") for t in ts):
            self.r.count("completion markers")
            for m in st.has("failed"):
                self.r.check(False, st, "marker-after-failure", pos, "the run is marked completed although the upload at %s failed" % site_pos(eng, m.args[1]))
            for d in sorted(self.dirs):
                ok = any(m.args[1] == d for m in st.has("done"))
                self.r.check(ok, st, "marker-before-upload", pos, "the run is marked completed on a path on which the upload of %s has not finished" % d)
            return [("val", NONE, st.mark("sentinel")), ("raise", T("exc", "GoogleAPICallError"), st.mark("sentinel"))]
        self.r.count("file uploads")
        self.r.check(not st.has("sentinel"), st, "upload-after-marker", pos, "a file is uploaded after the run was marked completed")
        s = st
        src = arg(args, kw, "filename", 0)
        for t in allterms(src) if src is not None else ():
            if t.op == "elem":
                s = s.mark("up", t)
                if any(self.in_run(q) for q in ts):
                    s = s.mark("uprun", t)
        return [("val", NONE, s)] + [("raise", T("exc", k), st.mark("failed", eng.site(st, node))) for k in ("GoogleAPICallError", "OSError")]
    def in_run(self, q):
        """a path relative to the parent of a run's folder"""
        return q.op == "call" and q.args[1].op == "attr" and q.args[1].args[1] == "relative_to" and any(a.op == "attr" and a.args[1] == "parent" for a in q.args[2:])
    def on_branch(self, eng, st, node, t, taken):
        if t.op == "call" and t.args[1].op == "attr" and t.args[1].args[1] == "is_symlink" and taken:
            s = st
            for x in allterms(t):
                if x.op == "elem": s = s.mark("skip", x)
            return s
        return None
    def on_backedge(self, eng, st, loop, ctx):
        if not isinstance(loop, ast.For):
            return None
        coll = st.frames[-1].get("@it%d:%d" % (loop.lineno, loop.col_offset))
        if coll is None:
            return None
        s = st
        if self.files(coll):
            e = T("elem", T("site", ctx, "%s:%d:%d" % (st.frames[-1]["@mod"], loop.target.lineno, loop.target.col_offset)), coll)
            ok = any(m.args[1] is e for m in st.has("up") + st.has("skip"))
            self.r.count("loops over a folder's files")
            self.r.check(ok, st, "file-not-uploaded", where(eng, st, loop), "a file that is not a symbolic link is skipped")
            if any(m.args[1] is e for m in st.has("up")) and not any(m.args[1] is e for m in st.has("uprun")):
                s = s.mark("elsewhere", eng.site(st, loop))
        return s
    def files(self, coll):
        """the list of a folder's files in os.walk -> the element of the walk"""
        if coll.op == "item" and coll.args[1] == 2 and coll.args[0].op == "elem" and self.walk(coll.args[0].args[1]):
            return coll.args[0]
        return None
    def walk(self, t):
        return t.op == "call" and t.args[1].op == "ext" and t.args[1].args[0] == "os.walk"
    def on_loopdone(self, eng, st, loop):
        if not isinstance(loop, ast.For):
            return None
        coll = st.frames[-1].get("@it%d:%d" % (loop.lineno, loop.col_offset))
        if coll is None:
            return None
        w = self.files(coll)
        if w is not None:
            # finished without an upload to another place: the files are in the run's folder
            if not any(m.args[1] is eng.site(st, loop) for m in st.has("elsewhere")):
                return st.mark("run", w)
            return None
        if self.walk(coll):
            s = st
            for a in coll.args[2:]:
                for t in allterms(a):
                    if t.op == "const" and t.args[0] in self.dirs:
                        s = s.mark("done", t.args[0])
            return s
        return None

class CompletedOuter(Completed):
    def on_backedge(self, eng, st, loop, ctx):
        s = super().on_backedge(eng, st, loop, ctx)
        if s is None:
            s = st
        coll = st.frames[-1].get("@it%d:%d" % (getattr(loop, "lineno", 0), loop.col_offset)) if isinstance(loop, ast.For) else None
        if coll is not None and self.walk(coll):
            e = T("elem", T("site", ctx, "%s:%d:%d" % (st.frames[-1]["@mod"], loop.target.lineno, loop.target.col_offset)), coll)
            self.r.count("walks over an output folder")
            self.r.check(any(m.args[1] is e for m in st.has("run")), st, "folder-not-uploaded", where(eng, st, loop), "a folder's files are not all uploaded to the run's folder before the walk goes on")
            s = s.unmark(lambda k: k.args[0] in ("run", "up", "uprun", "skip", "elsewhere"))
        return s

def channels():
    """the folders that the publisher reads a run's filters from (dir= of every channel)"""
    dirs = set()
    tree = ast.parse(open(os.path.join(REPO, PUBLISHER), encoding="utf-8").read())
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "Channel":
            for k in n.keywords:
                if k.arg == "dir" and isinstance(k.value, ast.Constant): dirs.add(k.value.value)
    return dirs

def c39(tier):
    r = Result("C39", "on every path of the upload of a run's filters to its completion marker, the walk over each folder that the publisher reads has been exhausted, each file in it that is not a symbolic link was uploaded to the run's folder, and no upload failed; no file is uploaded after the marker")
    dirs = channels()
    r.count("folders that the publisher reads", len(dirs))
    rule = CompletedOuter(r, dirs)
    run_engine(UPLOAD3, rule, r)
    for what, n in (("folders that the publisher reads", 1), ("completion markers", 1), ("file uploads", 1), ("loops over a folder's files", 2), ("walks over an output folder", 2)):
        r.need(what, n)
    r.assume = ["os.walk reports every file below the folder", "an upload that returns has stored the file"]
    return r

# ---------------------------------------------------------------- C40
def peel(t):
    n = 0
    while t.op in ("old", "older"):
        n += 1 if t.op == "old" else 2; t = t.args[0]
    return n, t

class Chain(Publish):
    """marks: last(R) the record published last; base(G) the records read from the server; down(path);
    gone: a record was deleted; safe(path): downloaded before that; cleared(ev, incremental);
    del(elem); fail(what): an operation on the collection failed and the failure was not passed on;
    ready(ev): a run is known to be completed"""
    def interesting(self, name):
        return super().interesting(name) or name in ("is_run_ready", "await_most_recent_run")
    def skip(self, eng, f):
        """functions that are only about the other collections"""
        return eng.mentions(f.node, lambda n: n in ("KINTO_CTLOGS_COLLECTION", "KINTO_INTERMEDIATES_COLLECTION")) and not eng.mentions(f.node, lambda n: n == "KINTO_CRLITE_COLLECTION")
    def crlite(self, st, args, kw):
        c = arg(args, kw, "collection")
        return is_setting(st, c, "KINTO_CRLITE_COLLECTION")
    def on_call(self, eng, st, node, name, recv, fn, args, kw):
        x = super().on_call(eng, st, node, name, recv, fn, args, kw)
        if x is not None:
            return x
        pos = where(eng, st, node); ev = T("ev", eng.site(st, node))
        short = (name or "").split(".")[-1]
        if fn.op == "func" and self.eng_fn(eng, fn).mod == "workflow" or (name or "").startswith("workflow."):
            if short.startswith("download_") and "string" not in short:
                local = arg(args, kw, "local", 2)
                s = st.mark("down", local if local is not None else ev)
                self.r.count("downloads")
                return [("val", NONE, s), ("raise", T("exc", "Exception"), st)]
            if "exists" in short:
                return [("val", T("exists", ev, arg(args, kw, "remote", 1) or NONE), st), ("raise", T("exc", "Exception"), st)]
            return None
        if fn.op in ("func", "clo", "class", "bound"):
            return None
        o = self.op(eng, name, recv)
        if o == "get_records":
            if not self.crlite(st, args, kw):
                return None
            G = T("call", eng.site(st, node), fn)
            s = st
            if not st.has("cleared"):
                s = st.unmark(lambda m: m.args[0] in ("base",))
                # a fresh look at the collection: what follows it starts from the records that exist
                s = s.unmark(lambda m: m.args[0] == "last").mark("base", G)
            return [("val", G, s)] + [("raise", T("exc", k), st) for k in ("KintoException", "RequestException")]
        if o == "get_collection":
            c = arg(args, kw, "id", 0)
            return [("val", T("coll", c if c is not None else NONE, eng.site(st, node)), st)] + [("raise", T("exc", k), st) for k in ("KintoException", "RequestException")]
        if o == "patch_collection":
            orig = arg(args, kw, "original")
            for t in allterms(orig) if orig is not None else ():
                if t.op == "coll" and is_setting(st, t.args[0], "KINTO_CRLITE_COLLECTION"):
                    self.r.count("review requests")
                    bad = st.has("fail")
                    self.r.check(not bad, st, "review-after-failure", pos, "a review of the filters is requested although %s failed before" % (bad[0].args[1] if bad else ""))
            return None
        if recv is None and name in ("requests.post", "requests.put", "requests.request"):
            resp = T("call", eng.site(st, node), fn)
            s = st.mark("fail", "the upload of an attachment") if self.to_crlite(eng, st, args, kw) else st
            s2 = st.mark("sent", resp) if s is not st else st
            return [("val", resp, s2), ("raise", T("exc", "RequestException"), s)]
        if recv is None and name == "open" and st.has("pending"):
            self.attached(eng, st, arg(args, kw, "file", 0), pos)
            return [("val", T("call", eng.site(st, node), fn), st), ("raise", T("exc", "OSError"), st.mark("fail", "reading an attachment"))]
        if not self.crlite(st, args, kw):
            return None
        if o == "create_record":
            data = arg(args, kw, "data")
            R = T("call", eng.site(st, node), fn)
            bad = st.has("fail")
            self.r.check(not bad, st, "publishing-after-failure", pos, "a record is published although %s failed before" % (bad[0].args[1] if bad else ""))
            self.r.check(any(m.args[1].op == "ev" for m in st.has("ready")), st, "run-not-ready", pos, "a record is published on a path on which no run is known to be completed")
            inc = st.heap.get(("k", data, const("incremental"))) if data is not None else None
            if self.r.check(inc in (TRUE, FALSE), st, "kind-of-record", pos, "a record is published that is not known to be a full filter or a delta"):
                if inc is TRUE:
                    self.r.count("published deltas")
                    self.parent(eng, st, st.heap.get(("k", data, const("parent"))), pos)
                else:
                    self.r.count("published full filters")
                    for b, what in ((FALSE, "full filters"), (TRUE, "deltas")):
                        self.r.check(any(m.args[1].op == "ev" and m.args[2] is b for m in st.has("cleared")), st, "full-filter-without-clearing", pos, "a full filter is published on a path on which the channel's %s were not all removed before" % what)
            s = st.unmark(lambda m: m.args[0] in ("last", "cleared", "pending")).mark("last", R).mark("pending", R)
            if inc is not FALSE:
                s = s.unmark(lambda m: m.args[0] in ("gone", "safe"))
            return [("val", R, s)] + [("raise", T("exc", k), st.mark("fail", "the creation of a record")) for k in ("KintoException", "RequestException")]
        if o == "delete_record":
            ident = arg(args, kw, "id"); s = st
            if not st.has("gone"):
                s = s.mark("gone", NONE)
                for m in st.has("down"):
                    s = s.mark("safe", m.args[1])
            for t in allterms(ident) if ident is not None else ():
                if t.op == "elem": s = s.mark("del", t)
            return [("val", T("call", eng.site(st, node), fn), s)] + [("raise", T("exc", k), s.mark("fail", "the removal of a record")) for k in ("KintoException", "RequestException")]
        return None
    def eng_fn(self, eng, fn):
        return eng.fns[fn.args[0]]
    def to_crlite(self, eng, st, args, kw):
        url = arg(args, kw, "url", 0)
        return url is not None and any(is_setting(st, t, "KINTO_CRLITE_COLLECTION") for t in allterms(url))
    def attached(self, eng, st, path, pos):
        if path is None or path.op == "unk":
            return
        self.r.check(any(m.args[1] is path for m in st.has("down")), st, "attachment-not-downloaded", pos, "the file that is attached is not one that was downloaded on this path")
        if st.has("gone"):
            self.r.check(any(m.args[1] is path for m in st.has("safe")), st, "cleared-before-download", pos, "records were removed before the data that replaces them was downloaded")
    def parent(self, eng, st, p, pos):
        if not self.r.check(p is not None, st, "delta-without-parent", pos, "a delta is published without a parent"):
            return
        n, t = peel(p)
        last = st.has("last")
        if last:
            k, R = peel(last[0].args[1])
            ok = n == k and t.op == "sub" and t.args[1] is const("id") and contains(t, R)
            self.r.check(ok, st, "wrong-parent", pos, "the parent of a delta is not the record that was published just before it")
        else:
            base = st.has("base")
            ok = t.op == "sub" and t.args[1] is const("id") and t.args[0].op == "sub" and t.args[0].args[1] is const(-1) and any(contains(t, m.args[1]) for m in base) \
                and any(x.op == "call" and x.args[1].op == "ext" and x.args[1].args[0] == "sorted" for x in allterms(t))
            self.r.check(ok, st, "wrong-parent", pos, "the parent of the first delta is not the newest of the existing records")
    def on_branch(self, eng, st, node, t, taken):
        if t.op == "exists" and taken and any(x.op == "const" and isinstance(x.args[0], str) and x.args[0].endswith("completed") for x in allterms(t.args[1])):
            return st.mark("ready", t.args[0])
        resp = response_of(t)
        if resp is not None:
            for m in st.has("sent"):
                if m.args[1] is resp:
                    good = [cond_value(t, c) for c in (200, 201)]
                    if None not in good and all(g != taken for g in good[:1]):
                        return st.mark("fail", "the upload of an attachment")
        return None
    def admits(self, eng, st, coll, inc, elem):
        """can a record with the given value of "incremental" be in the collection? False if it is filtered out"""
        if coll.op == "call" and coll.args[0].op == "pure" and coll.args[1].op == "ext":
            f = coll.args[1].args[0]
            if f in ("filter", "map") and len(coll.args) > 3:
                if f == "filter":
                    x, s = self.sample(st, inc)
                    vs = [truth(v, s2) for k, v, s2 in eng.call(coll.args[2], [x], {}, s, elem) if k == "val"]
                    if vs and all(v is False for v in vs):
                        return False
                return self.admits(eng, st, coll.args[3], inc, elem)
            if len(coll.args) > 2:
                return self.admits(eng, st, coll.args[2], inc, elem)
        if coll.op == "comp":
            e = eng.comps.get(coll.args[0])
            if e is not None and isinstance(e.generators[0].target, ast.Name):
                x, s = self.sample(st, inc)
                s = s.setvar(e.generators[0].target.id, x)
                for c in e.generators[0].ifs:
                    vs = [v for k, v, s2 in eng.cond(c, s) if k == "val"]
                    if vs and True not in vs:
                        return False
            return self.admits(eng, st, coll.args[1], inc, elem)
        if coll.op in ("call",) and any(m.args[1] is coll for m in st.has("base")) or coll.op == "call" and coll.args[1].op == "attr" and coll.args[1].args[1] == "get_records":
            return True
        return False
    def sample(self, st, inc):
        x = T("new", "sample", inc)
        return x, st.seth(("k", x, const("incremental")), inc)
    def loopcoll(self, st, loop):
        return st.frames[-1].get("@it%d:%d" % (loop.lineno, loop.col_offset)) if isinstance(loop, ast.For) else None
    def records(self, coll):
        return any(x.op == "attr" and x.args[1] == "get_records" for x in allterms(coll))
    def on_backedge(self, eng, st, loop, ctx):
        n = len(ctx)
        if any(m.args[1].op == "call" and m.args[1].args[0].args[0][:n] == ctx for m in st.has("base")):
            # one channel is done: its records say nothing about the next channel's
            return st.unmark(lambda m: m.args[0] != "fail")
        st = st.unmark(lambda m: m.args[0] in ("ready", "down", "sent", "cleared", "safe", "base", "pending") and m.args[1].op in ("old", "older"))
        coll = self.loopcoll(st, loop)
        if coll is None or not self.records(coll):
            return st
        e = T("elem", T("site", ctx, "%s:%d:%d" % (st.frames[-1]["@mod"], loop.target.lineno, loop.target.col_offset)), coll)
        if not eng.mentions(loop, lambda n: n.startswith("delete_record")):
            return st
        if not any(m.args[1] is e for m in st.has("del")):
            return st.mark("kept", eng.site(st.setvar("@ctx", ctx[:-1]), loop))
        return st.unmark(lambda m: m.args[0] == "del" and m.args[1] is e)
    def on_loopdone(self, eng, st, loop):
        coll = self.loopcoll(st, loop)
        if coll is None or not self.records(coll):
            return None
        here = eng.site(st, loop)
        if any(m.args[1] is here for m in st.has("kept")):
            return st.unmark(lambda m: m.args[0] == "kept" and m.args[1] is here)
        # only loops that delete count
        if not eng.mentions(loop, lambda n: n.startswith("delete_record")):
            return None
        s = st
        for inc in (TRUE, FALSE):
            if self.admits(eng, st, coll, inc, loop.iter):
                s = s.mark("cleared", T("ev", here), inc)
        return s

def c40(tier):
    r = Result("C40", "on every path of the publisher: a delta's parent is the record published just before it, or the newest existing record for the first one; a full filter is published only after loops that remove every full filter and every delta of the channel were exhausted, and after the new filter was downloaded; a record is published only when a run is known to be completed; after a failed creation, upload or removal in the filter collection nothing more is published and no review is requested")
    rule = Chain(r)
    run_engine(PUBLISHER, rule, r)
    for what, n in (("published deltas", 1), ("published full filters", 1), ("review requests", 1), ("downloads", 2)):
        r.need(what, n)
    r.assume = ["which records belong to a channel is judged by the code's own comparison", "the order of run identifiers is that of their dates"]
    return r

# ---------------------------------------------------------------- C41
class Verified(Publish):
    """marks: got: the collection was read since its last change; fresh(V): V was built from that;
    in(x, V): x is known to be a key of V; unchecked(loop, V); subset(A, V): every key of A is in V;
    broken(x): the truth of "no broken records" """
    COLL = "KINTO_INTERMEDIATES_COLLECTION"
    def relevant(self, eng, n):
        """tests of membership are what the rule is about"""
        return isinstance(n, (ast.In, ast.NotIn))
    def skip(self, eng, f):
        if eng.mentions(f.node, lambda n: n in ("KINTO_CTLOGS_COLLECTION", "KINTO_CRLITE_COLLECTION")) and not eng.mentions(f.node, lambda n: n == self.COLL):
            return True
        return f.mod == "workflow" or not eng.mentions(f.node, self.interesting) and sum(isinstance(n, (ast.If, ast.Try, ast.For, ast.While)) for n in ast.walk(f.node)) > 5
    def interesting(self, name):
        return super().interesting(name) or name == self.COLL
    def keep_heap(self, key):
        return False
    def on_call(self, eng, st, node, name, recv, fn, args, kw):
        x = super().on_call(eng, st, node, name, recv, fn, args, kw)
        if x is not None or fn.op in ("func", "clo", "class", "bound"):
            return x
        o = self.op(eng, name, recv)
        pos = where(eng, st, node)
        if o is None:
            if recv is None and name in ("requests.post", "requests.put", "requests.patch", "requests.delete"):
                return [("val", T("call", eng.site(st, node), fn), self.changed(st)), ("raise", T("exc", "RequestException"), self.changed(st))]
            return None
        c = arg(args, kw, "collection")
        if o == "get_collection":
            c = arg(args, kw, "id", 0)
            return [("val", T("coll", c if c is not None else NONE, eng.site(st, node)), st)] + [("raise", T("exc", k), st) for k in ("KintoException", "RequestException")]
        if o == "patch_collection":
            orig = arg(args, kw, "original")
            for t in allterms(orig) if orig is not None else ():
                if t.op == "coll" and is_setting(st, t.args[0], self.COLL):
                    self.r.count("review requests")
                    fresh = [m.args[1] for m in st.has("fresh")]
                    sub = [(m.args[1], m.args[2]) for m in st.has("subset")]
                    sub = [(a, b) for a, b in sub if a is not b]
                    self.r.check(any(b in fresh for a, b in sub), st, "additions-not-verified", pos, "a review of the intermediates is requested on a path on which not every local intermediate is known to be in the collection as read after the last change")
                    self.r.check(any(a in fresh for a, b in sub), st, "removals-not-verified", pos, "a review of the intermediates is requested on a path on which not every record of the collection, as read after the last change, is known to be a local intermediate")
                    self.r.check(not any(b in fresh for a, b in sub) or any(b in fresh and (b, a) in sub for a, b in sub), st, "verified-against-another-list", pos, "the list that the collection was found to contain is not the one that it was found to be contained in")
            return None
        if not is_setting(st, c, self.COLL):
            return None
        if o == "get_records":
            return [("val", T("call", eng.site(st, node), fn), st.mark("got", len(st.frames)))] + [("raise", T("exc", k), st) for k in ("KintoException", "RequestException")]
        if not READ.match(o):
            self.r.count("changes of the intermediates collection")
            s = self.changed(st)
            return [("val", T("call", eng.site(st, node), fn), s)] + [("raise", T("exc", k), s) for k in ("KintoException", "RequestException")]
        return None
    def changed(self, st):
        return st.unmark(lambda m: m.args[0] in ("fresh", "got", "subset", "in", "unchecked"))
    def on_exit(self, eng, st, f, kind, v, node):
        if kind != "return" or not isinstance(v, Term) or not any(m.args[1] >= len(st.frames) for m in st.has("got")):
            return None
        s = st.unmark(lambda m: m.args[0] == "got")
        for t in (v.args if v.op == "tuple" else (v,)):
            if t.op == "new":
                s = s.mark("fresh", t)
        return s
    def keyset(self, t):
        """the container that a collection of keys is taken from"""
        while True:
            if t.op == "call" and t.args[1].op == "attr" and t.args[1].args[1] in ("keys", "items", "copy"):
                t = t.args[1].args[0]
            elif t.op == "call" and t.args[0].op == "pure" and t.args[1].op == "ext" and t.args[1].args[0] in ("set", "sorted", "list", "frozenset", "tuple", "iter", "len") and len(t.args) > 2:
                t = t.args[2]
            else:
                return t
    def on_branch(self, eng, st, node, t, taken):
        neg = False
        while t.op == "not":
            t = t.args[0]; neg = not neg
        v = taken != neg
        if t.op == "in" and v:
            return st.mark("in", t.args[0], self.keyset(t.args[1]))
        if t.op == "eq" and v and self.isset(t.args[0]) and self.isset(t.args[1]):
            a, b = self.keyset(t.args[0]), self.keyset(t.args[1])
            return st.mark("subset", a, b).mark("subset", b, a)
        # an empty difference of two sets of keys
        d = t
        if d.op == "op" and d.args[0] == "Lt" and d.args[1] is const(0) and d.args[2].op == "call":
            d = d.args[2]
        if d.op == "call" and d.args[0].op == "pure" and d.args[1] is T("ext", "len") and len(d.args) == 3:
            d = d.args[2]
        if d.op == "op" and d.args[0] == "Sub" and not v and self.isset(d.args[1]):
            return st.mark("subset", self.keyset(d.args[1]), self.keyset(d.args[2]))
        if d.op == "op" and d.args[0] == "BitXor" and not v and self.isset(d.args[1]):
            a, b = self.keyset(d.args[1]), self.keyset(d.args[2])
            return st.mark("subset", a, b).mark("subset", b, a)
        return None
    def isset(self, t):
        return t.op == "call" and (t.args[0].op == "pure" and t.args[1].op == "ext" and t.args[1].args[0] in ("set", "frozenset") or t.args[1].op == "attr" and t.args[1].args[1] == "keys")
    def on_backedge(self, eng, st, loop, ctx):
        coll = st.frames[-1].get("@it%d:%d" % (loop.lineno, loop.col_offset)) if isinstance(loop, ast.For) else None
        if coll is None:
            return None
        e = T("elem", T("site", ctx, "%s:%d:%d" % (st.frames[-1]["@mod"], loop.target.lineno, loop.target.col_offset)), coll)
        here = eng.site(st, loop)
        s = st
        ok = {m.args[2] for m in st.has("in") if m.args[1] is e or m.args[1].op == "item" and m.args[1].args[0] is e and m.args[1].args[1] == 0}
        before = {m.args[2] for m in st.has("checked") if m.args[1] is here}
        if st.has("passed") and any(m.args[1] is here for m in st.has("passed")):
            ok = ok & before
        s = s.unmark(lambda m: m.args[0] == "checked" and m.args[1] is here or m.args[0] == "in")
        s = s.mark("passed", here)
        for V in ok:
            s = s.mark("checked", here, V)
        return s
    def on_loopdone(self, eng, st, loop):
        coll = st.frames[-1].get("@it%d:%d" % (loop.lineno, loop.col_offset)) if isinstance(loop, ast.For) else None
        if coll is None:
            return None
        here = eng.site(st, loop)
        A = self.keyset(coll)
        passed = any(m.args[1] is here for m in st.has("passed"))
        s = st.unmark(lambda m: m.args[0] in ("checked", "passed") and m.args[1] is here)
        if passed:
            for m in st.has("checked"):
                if m.args[1] is here:
                    s = s.mark("subset", A, m.args[2])
        else:
            # no element: a subset of anything
            for V in self.tested(eng, st, loop):
                s = s.mark("subset", A, V)
        return s
    def tested(self, eng, st, loop):
        """the containers that the loop's body tests membership in, by name"""
        res = set()
        for n in ast.walk(loop):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
                c = n.comparators[0]
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute): c = c.func.value
                if isinstance(c, ast.Name):
                    res.add(eng.lookup(st, c.id))
        return res

def c41(tier):
    r = Result("C41", "on every path of the publisher to a review request for the intermediates collection, after the last operation that changes the collection it was read again, every key of the list of local intermediates is known to be among what was read, and every key of what was read is known to be in the same list")
    rule = Verified(r)
    run_engine(PUBLISHER, rule, r)
    for what, n in (("review requests", 1), ("changes of the intermediates collection", 4)):
        r.need(what, n)
    r.assume = ["records that cannot be parsed are reported by the function that reads the collection", "what the server returns is what clients get"]
    return r

CHECKS = {"C34": c34, "C35": c35, "C39": c39, "C40": c40, "C41": c41}

# ---------------------------------------------------------------- reporting
def load_known():
    known = {}
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)", l.strip())
            if m: known[(m.group(1), m.group(2))] = m.group(3)
    except OSError:
        pass
    return known

def report(r, tier, wall):
    known = load_known()
    vs = []; new = 0; seen = set()
    for k in sorted(r.viol):
        key, pos, msg, tr = r.viol[k]
        isk = (r.prop, key) in known
        if isk:
            if key not in seen:
                print("KNOWN-FINDING: property=%s %s (%s)" % (r.prop, known[(r.prop, key)], pos)); seen.add(key)
        else:
            new += 1
        v = {"key": key, "position": pos, "message": msg}
        if tr: v["path"] = tr
        if isk: v["known"] = True
        vs.append(v)
    repdir = os.path.join(VERIF, "evidence", "reports"); os.makedirs(repdir, exist_ok=True)
    rep = os.path.join(repdir, r.prop + ".txt")
    with open(rep, "w") as f:
        f.write("property %s\nrule: %s\n\n" % (r.prop, r.rule))
        for v in vs:
            f.write("VIOLATION %s\n  at %s\n  %s\n" % (v["key"], v["position"], v["message"]))
            for l in v.get("path", ()): f.write("    %s\n" % l)
            f.write("\n")
    dis = sum(1 for x in r.obl.values() if x)
    expl = ("Static analysis of the current Python source of /repo (syntax trees, path-sensitive interprocedural abstract interpretation; nothing is executed). Rule: %s. "
            "%d obligations generated at concrete constructs, %d discharged; %d functions, %d call sites, %d abstract states and %d paths examined." %
            (r.rule, len(r.obl), dis, len(r.fns), len(r.sites), r.states, r.paths))
    ev = {"property": r.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
          "coverage": {"explanation": expl, "obligations": len(r.obl), "discharged": dis, "functions_analysed": len(r.fns), "functions": sorted(r.fns),
                       "call_sites": len(r.sites), "abstract_states": r.states, "paths": r.paths, "instances": r.counts,
                       "samples": sorted(("discharged: " if v else "FAILED: ") + k for k, v in r.obl.items())[:60]},
          "assumptions": r.assume + ["values reached through distinct symbolic expressions do not alias", "reflection beyond getattr/setattr/vars with constant names is not followed"],
          "wall_s": wall}
    if vs:
        ev["violations"] = len(vs); ev["violation_list"] = vs
    with open(os.path.join(VERIF, "evidence", r.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1); f.write("\n")
    if new:
        for v in vs:
            if not v.get("known"): print("%s: %s: %s" % (v["position"], v["key"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (r.prop, rep)); return 1
    if r.err:
        print("property %s: analysis incomplete: %s" % (r.prop, r.err), file=sys.stderr); return 2
    print("OK property=%s obligations=%d functions=%d states=%d (%.1fs)" % (r.prop, len(r.obl), len(r.fns), r.states, wall)); return 0

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    global VERIF
    VERIF = os.environ.get("VERIF_OUT", VERIF)
    t = time.time()
    r = CHECKS[pid](tier)
    sys.exit(report(r, tier, time.time() - t))

if __name__ == "__main__":
    main()
