"""Trace-partitioning abstract interpreter over the resolved syntax trees (see ir.py).

Nothing of the program is executed: values are provenance terms (terms.py), branches whose condition is not decided by
what is known on the path are both followed, loops are summarised by a fixpoint (cells they modify are generalised,
candidate invariants are kept only if every loop path preserves them), calls of repository functions are inlined,
library functions are modelled by their contracts (stl.py), and everything the analysed function does to the outside
is recorded as an ordered list of effects, one list per partition of the traces.
"""
import re
import sys

from ir import AnalysisBroken, strip_type, tmpl_args, tmpl_name
from terms import *

sys.setrecursionlimit(20000)


class Limit(Exception):
    """the analysis gave up (too many partitions)"""


class BreakEx(Exception):
    def __init__(self, val=None):
        self.val = val


class ContinueEx(Exception):
    pass


class LoopDone(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, val):
        self.val = val  # ('V',value) or ('L',loc)


class ThrowEx(Exception):
    def __init__(self, ty, val=None, why=""):
        self.ty = ty
        self.val = val
        self.why = why


class CrashEx(Exception):
    """the path runs into undefined behaviour"""

    def __init__(self, why):
        self.why = why


class Unroll(Exception):
    """a loop that looked like it had a constant trip count does not"""


class St:
    __slots__ = ("store", "facts", "events", "ctr", "sigs", "notes")

    def __init__(self):
        self.store = {}
        self.facts = Facts()
        self.events = []
        self.ctr = {}
        self.sigs = {}
        self.notes = []

    def copy(self):
        s = St()
        s.store = dict(self.store)
        s.facts = self.facts.copy()
        s.events = list(self.events)
        s.ctr = dict(self.ctr)
        s.sigs = dict(self.sigs)
        s.notes = list(self.notes)
        return s

    def fresh(self, k):
        n = self.ctr.get(k, 0) + 1
        self.ctr[k] = n
        return n


CONSTANT_SYMS = ("config", "CONFIG", "CONFIGP", "CFG", "CONF", "CONNECT", "logger", "argc", "argv")


def earlier(t):
    """the term in terms of the inputs of an earlier call"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "sym":
        return t if t[1] in CONSTANT_SYMS else ("sym", "earlier:%s" % (t[1],))
    return tuple(earlier(x) for x in t)


class Chooser:
    def __init__(self, prefix, key):
        self.prefix = prefix
        self.trail = []
        self.alts = []
        self.key = key
        self.sub = 0

    def choose(self, n):
        i = len(self.trail)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = 0
            for a in range(n - 1, 0, -1):
                self.alts.append(tuple(self.trail) + (a,))
        self.trail.append(c)
        self.sub = 0
        return c


class Out:
    """one partition of the traces of a piece of code"""

    __slots__ = ("st", "exit", "val")

    def __init__(self, st, exit_, val=None):
        self.st = st
        self.exit = exit_
        self.val = val


class Body:
    __slots__ = ("pid", "facts", "events", "exit", "val", "st")


def names_in(e):
    """the variables an expression refers to"""
    out = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get("k") == "ref" and x.get("n"):
                out.add(x["n"])
            todo.extend(x.values())
        elif isinstance(x, list):
            todo.extend(x)
    return out


class LoopRec:
    def __init__(self):
        self.inst = None
        self.line = 0
        self.fn = ""
        self.coll = None
        self.sym = None
        self.start = None
        self.bodies = []
        self.cells = {}
        self.full = False
        self.init_store = None

    def __repr__(self):
        return "<loop %s over %s>" % (self.inst, show(self.coll) if self.coll else "?")


class Frame:
    __slots__ = ("fn", "fid", "this", "caps", "argvals", "retref", "name")

    def __init__(self):
        self.fn = None
        self.fid = 0
        self.this = None
        self.caps = {}
        self.argvals = ()
        self.retref = False
        self.name = ""


class Event:
    """one effect: kind, data, where"""

    __slots__ = ("kind", "d", "where", "fn")

    def __init__(self, kind, d, where, fn):
        self.kind = kind
        self.d = d
        self.where = where
        self.fn = fn

    def __repr__(self):
        def sh(x):
            if isinstance(x, tuple):
                return show(x)
            return str(x)

        if self.kind == "loop":
            return "loop@%s" % self.where
        return "%s(%s)@%s" % (self.kind, ", ".join("%s=%s" % (k, sh(v)) for k, v in self.d.items()), self.where)


LOC_KINDS = {"ref", "mem", "index"}


class Interp:
    MAX_PATHS = 6000
    MAX_DEPTH = 60

    def __init__(self, prog, hooks=None):
        import stl

        self.prog = prog
        self.hooks = hooks
        self.stl = stl.Models(self)
        self.st = None
        self.ch = None
        self.frame = None
        self.memo = {}
        self.loops = {}
        self.lambdas = {}
        self.depth = 0
        self.npaths = 0
        self.inlined = set()
        self.opaque_calls = set()
        self.globals_cache = {}
        self.line = 0
        self.try_depth = []
        self.merge_ifs = False
        self._collect_lambdas()
        self._collect_unsigned()
        self.tmp_names = {}

    def _collect_lambdas(self):
        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "lambda":
                    self.lambdas.setdefault(x["id"], x)
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)

        for f in self.prog.fns.values():
            walk(f.get("body"))
            walk(f.get("inits"))
        for v in self.prog.vars.values():
            walk(v.get("init"))

    def _collect_unsigned(self):
        seen = {}
        for r in self.prog.recs.values():
            for f in r["fields"]:
                seen.setdefault(f["n"], []).append(f["ty"])
            for m in r["methods"]:
                if m["fn"]["kind"] == "method" and not m["fn"].get("pm"):
                    seen.setdefault(m["fn"]["n"], []).append(m["fn"]["rt"])
        UNSIGNED.clear()
        for n, tys in seen.items():
            if all(strip_type(t).startswith("unsigned") for t in tys):
                UNSIGNED.add(n)

    # ------------------------------------------------------------------ exploration
    fixed_statics = frozenset()

    def run(self, fn, st=None):
        """all partitions of fn (a python callable using this interpreter) from state st"""
        self.memo = {}
        self.statics = {}
        self.static_name = {}
        self.const_statics = set()
        start = st
        base = st.copy() if st else St()
        self.st = base
        self.frame = None
        outs = self._explore(fn, ())
        fixed = set()
        for root, init in self.statics.items():
            # initialised from the arguments of the first call and never changed afterwards
            if earlier(init) != init and not contains(init, lambda t: t[0] in ("ptr", "h")) and not any(e.kind == "cm" and e.d["loc"][0] == root for o in outs for e in o.st.events):
                if all(o.st.store.get(root, init) in (init, ("sym", "static:" + self.static_name[root])) for o in outs):
                    fixed.add(root)
        if fixed - self.fixed_statics:
            self.fixed_statics = self.fixed_statics | fixed
            return self.run(fn, start)
        for root, init in self.statics.items():
            # what earlier calls left in a static variable only matters if they leave something
            if not contains(init, lambda t: t[0] in ("ptr", "h")) and all(o.st.store.get(root, init) == init for o in outs if not self.entered_later(o, root)):
                outs = [o for o in outs if not self.entered_later(o, root)]
        return outs

    def entered_later(self, o, root):
        return any(e.kind == "static" and e.d["root"] == root for e in o.st.events)

    def _explore(self, fn, key):
        outer, base, frame, depth = self.ch, self.st, self.frame, self.depth
        tries = list(self.try_depth)
        res = []
        work = [()]
        while work:
            prefix = work.pop()
            self.st = base.copy()
            self.frame = frame
            self.depth = depth
            self.try_depth = list(tries)
            self.ch = Chooser(prefix, key)
            self.npaths += 1
            try:
                v = fn()
                res.append(Out(self.st, "next", v))
            except BreakEx as b:
                res.append(Out(self.st, "break", b.val))
            except ContinueEx:
                res.append(Out(self.st, "next"))
            except ReturnEx as r:
                res.append(Out(self.st, "return", r.val))
            except ThrowEx as t:
                res.append(Out(self.st, "throw", (t.ty, t.val, t.why)))
            except CrashEx as c:
                res.append(Out(self.st, "crash", c.why))
            except Infeasible:
                pass
            except LoopDone:
                pass
            work.extend(self.ch.alts)
            if len(res) + len(work) > self.MAX_PATHS:
                self.ch, self.st, self.frame, self.depth, self.try_depth = outer, base, frame, depth, tries
                raise Limit("more than %d trace partitions" % self.MAX_PATHS)
        self.ch, self.st, self.frame, self.depth, self.try_depth = outer, base, frame, depth, tries
        return res

    def nested(self, fn, tag=""):
        """explore fn from the current state; memoised over replays of the same outer prefix"""
        if self.ch is None:
            return self._explore(fn, ("top", tag))
        key = self.ch.key + (tuple(self.ch.trail), self.ch.sub, tag)
        self.ch.sub += 1
        if key in self.memo:
            return self.memo[key]
        r = self._explore(fn, key)
        self.memo[key] = r
        return r

    def memoised(self, fn, tag=""):
        key = self.ch.key + (tuple(self.ch.trail), self.ch.sub, tag, "m")
        self.ch.sub += 1
        if key not in self.memo:
            self.memo[key] = fn()
        return self.memo[key]

    def choose(self, n):
        return self.ch.choose(n)

    def branch(self, t):
        """decide a condition; unknown conditions split the trace partition"""
        if t[0] == "ite":
            return self.branch(t[2]) if self.branch(t[1]) else self.branch(t[3])
        if t[0] == "not":
            return not self.branch(t[1])
        if t[0] == "cases":
            delta, v = t[1][self.choose(len(t[1]))]
            self.import_facts(dict(delta), {})
            return self.branch(self.truth(v))
        q = self.st.facts.q(t)
        if q is not None:
            return q
        # is one side impossible?
        opts = []
        for v in (True, False):
            f = self.st.facts.copy()
            try:
                f.assume(t, v)
                opts.append((v, f))
            except Infeasible:
                pass
        if not opts:
            raise Infeasible()
        if len(opts) == 1:
            v, f = opts[0]
        else:
            v, f = opts[self.choose(2)]
        self.st.facts = f
        return v

    def known(self, t):
        return self.st.facts.q(t)

    def event(self, kind, **d):
        fn = self.frame.name if self.frame else ""
        self.st.events.append(Event(kind, d, self.where(), fn))

    def where(self):
        f = self.frame
        if f is None or f.fn is None:
            return "?:%d" % self.line
        return "%s:%d" % (f.fn.get("file", "?"), self.line)

    # ------------------------------------------------------------------ store
    def default(self, root):
        if root[0] == "p":
            return ("drf", root[1])
        if root[0] == "g":
            return self.global_value(root[1])
        return ("sym", "uninit:" + ":".join(str(x) for x in root))

    def global_value(self, q):
        if q in self.globals_cache:
            return self.globals_cache[q]
        v = self.prog.vars.get(q)
        if q.endswith("::npos") and q.startswith("std::"):
            return N(2**64 - 1)
        r = ("sym", "global:" + q)
        if v is not None and v.get("init") is not None and v["ty"].startswith("const"):
            self.globals_cache[q] = r
            fr = self.frame
            self.frame = Frame()
            self.frame.fid = -1
            self.frame.fn = v
            try:
                r = self.val(v["init"])
            except (ThrowEx, CrashEx, KeyError):
                pass
            self.frame = fr
        elif v is not None and v.get("init") is not None:
            r = ("sym", "global:" + q)
        self.globals_cache[q] = r
        return r

    def canon(self, loc):
        """follow references stored along the path"""
        root, steps = loc
        v = self.st.store.get(root)
        if v is not None and v[0] == "alias" and True:
            return self.canon((v[1], v[2] + steps))
        return loc

    def step_get(self, v, s):
        if v[0] == "alias":
            v = self.read((v[1], v[2]))
        if s[0] == "f":
            return fld(v, s[1])
        if s[0] == "e":
            return rec("std::pair", {"first": s[1], "second": self.map_get(v, s[1])})
        if s[0] == "i":
            return self.seq_at(v, s[1])
        raise AnalysisBroken("step %r" % (s,))

    def seq_at(self, v, i):
        return at(v, i)

    def read(self, loc):
        root, steps = self.canon(loc)
        v = self.st.store.get(root)
        if v is None:
            v = self.default(root)
        i = 0
        while i < len(steps):
            s = steps[i]
            if s[0] == "e" and i + 1 < len(steps) and steps[i + 1] == ("f", "second"):
                if v[0] == "alias":
                    v = self.read((v[1], v[2]))
                v = self.map_get(v, s[1])
                i += 2
                continue
            if s[0] == "e" and i + 1 < len(steps) and steps[i + 1] == ("f", "first"):
                v = s[1]
                i += 2
                continue
            v = self.step_get(v, s)
            i += 1
        if v[0] == "alias":
            return self.read((v[1], v[2]))
        return v

    def raw(self, loc):
        """the stored value without following a final reference"""
        root, steps = self.canon(loc)
        v = self.st.store.get(root)
        if v is None:
            v = self.default(root)
        for s in steps:
            v = self.step_get(v, s)
        return v

    def is_ref(self, loc):
        root, steps = loc
        v = self.st.store.get(root)
        return v is not None and v[0] == "alias"

    def resolve(self, loc):
        """follow reference members inside the steps too"""
        root, steps = self.canon(loc)
        v = self.st.store.get(root)
        if v is None:
            v = self.default(root)
        cur = ()
        for n, s in enumerate(steps):
            v = self.step_get(v, s) if v[0] != "alias" else v
            cur = cur + (s,)
            if v[0] == "alias":
                return self.resolve((v[1], v[2] + steps[n + 1 :]))
        return (root, steps)

    def write(self, loc, val, quiet=False):
        root, steps = self.resolve(loc)
        old = self.st.store.get(root)
        if old is None:
            old = self.default(root)
        if val[0] == "alias":
            val = self.read((val[1], val[2]))
        self.st.store[root] = self.upd(old, steps, val)
        if not quiet and root[0] not in ("v", "tmp"):
            self.event("w", root=root, steps=steps, val=val)

    def upd(self, v, steps, val):
        if not steps:
            return val
        s, rest = steps[0], steps[1:]
        if s[0] == "f":
            return rec_set(v, s[1], self.upd(fld(v, s[1]), rest, val))
        if s[0] == "e":
            if rest and rest[0] == ("f", "second"):
                inner = self.map_get(v, s[1]) if len(rest) > 1 else None
                return self.map_set(v, s[1], self.upd(inner, rest[1:], val) if inner is not None else val)
            return v
        if s[0] == "i":
            return self.seq_set(v, s[1], self.upd(at(v, s[1]), rest, val))
        raise AnalysisBroken("write step %r" % (s,))

    def seq_set(self, v, i, e):
        if v[0] == "seq" and i[0] == "n":
            parts = list(v[1])
            if 0 <= i[1] < len(parts) and all(p[0] == "one" for p in parts[: i[1] + 1]):
                parts[i[1]] = ("one", e)
                return ("seq", tuple(parts))
        if v[0] == "upd" and v[2] == i:
            return ("upd", v[1], i, e)
        return ("upd", v, i, e)

    # ---- associative containers
    def as_map(self, v, multi=False):
        if v[0] == "map":
            return v
        return ("map", v, (), multi)

    def map_find(self, m, k):
        """-> ('entry', value) | ('absent',) | ('base', basekeyterm)"""
        m = self.as_map(m)
        for ek, ev in reversed(m[2]):
            q = self.st.facts.q_eq(ek, k)
            if q is None:
                q = self.branch(("cmp", "==", ek, k))
            if q:
                return ("absent",) if ev == DEL else ("entry", ev)
        if m[1] == ("empty",):
            return ("absent",)
        if k[0] == "ptr" and k[1][0] == "h" and isinstance(k[1][1], int) and m[1][0] in ("sym", "fld", "phi"):
            # an object allocated on this very trace is not yet in a container that existed before
            return ("absent",)
        return ("base", m[1])

    def map_get(self, m, k, default=None):
        r = self.map_find(m, k)
        if r[0] == "entry":
            return r[1]
        if r[0] == "absent":
            return default if default is not None else ("ap", "default-of", self.as_map(m)[1])
        return ("mg", r[1], k)

    def map_present(self, m, k):
        r = self.map_find(m, k)
        if r[0] == "entry":
            return True
        if r[0] == "absent":
            return False
        return self.branch(("has", r[1], k))

    def map_set(self, m, k, v):
        m = self.as_map(m)
        entries = tuple((ek, ev) for ek, ev in m[2] if ek != k) + ((k, v),)
        if v == DEL and m[1] == ("empty",):
            entries = tuple((ek, ev) for ek, ev in entries if ek != k or ev != DEL)
            if any(self.st.facts.q_eq(ek, k) is None for ek, _ in entries):
                entries = entries + ((k, DEL),)
        return ("map", m[1], entries, m[3])

    def newsym(self, name):
        """a fresh unknown (the result of a call across an analysis boundary)"""
        return ("sym", "%s#%d" % (name, self.st.fresh("sym:" + name)))

    # ---- temporaries and heap
    def tmp(self, v):
        r = ("tmp", self.st.fresh("tmp"))
        self.st.store[r] = v
        return (r, ())

    def alloc(self, v):
        r = ("h", self.st.fresh("heap"))
        self.st.store[r] = v
        return r

    def deref(self, p, what=""):
        """location behind a pointer value"""
        if p[0] == "ptr":
            return (p[1], p[2])
        if p[0] == "alias":
            return (p[1], p[2])
        if p == NULL:
            self.event("hazard", why="null dereference", term=p)
            raise CrashEx("null pointer dereference")
        if p[0] == "ite":
            return self.deref(p[2]) if self.branch(p[1]) else self.deref(p[3])
        if p[0] == "it":
            return self.stl.it_elem(p)
        q = self.st.facts.q(p)
        if q is False:
            self.event("hazard", why="null dereference", term=p)
            raise CrashEx("null pointer dereference of %s" % show(p))
        if q is None:
            self.event("maybe-null", term=p)
            if self.hooks is not None and self.hooks.nullable(self, p):
                if self.choose(2) == 1:
                    self.st.facts.assume(p, False)
                    self.event("hazard", why="null dereference", term=p)
                    raise CrashEx("null pointer dereference of %s" % show(p))
            self.st.facts.assume(p, True)
        return (("p", p), ())

    # ------------------------------------------------------------------ expressions
    def is_lvalue(self, e):
        if e is None:
            return False
        k = e["k"]
        if k in LOC_KINDS:
            return True
        if k == "un":
            return e["op"] == "*" or (e["op"] in ("++", "--") and not e.get("post"))
        if k == "bin":
            return e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">=")
        if k == "call":
            fn = e.get("fn")
            if fn is None:
                return False
            return fn["rt"].endswith("&")
        if k == "cond":
            return self.is_lvalue(e["t"]) and self.is_lvalue(e["f"])
        if k == "cast":
            return e["ty"].endswith("&")
        return False

    def loc(self, e):
        """location of an lvalue (a temporary is created for a prvalue)"""
        k = e["k"]
        self.line = e.get("L", self.line)
        if k == "ref":
            return self.var_loc(e)
        if k == "mem":
            if e.get("arrow"):
                b = self.deref(self.val(e["base"]))
            else:
                b = self.loc(e["base"])
            l = (b[0], b[1] + (("f", e["f"]),))
            if e.get("isref"):
                v = self.raw(l)
                if v[0] == "alias":
                    return (v[1], v[2])
                return (("p", ("refof", v)), ())
            return l
        if k == "index":
            b = e["base"]
            i = self.val(e["i"])
            if self.is_lvalue(b):
                l = self.loc(b)
                v = self.read(l)
                if v[0] == "ptr":
                    return (v[1], v[2] + (("i", i),))
                return (l[0], l[1] + (("i", i),))
            v = self.val(b)
            if v[0] == "ptr":
                return (v[1], v[2] + (("i", i),))
            return self.tmp(("ap", "idx", v, i))
        if k == "un":
            op = e["op"]
            if op == "*":
                return self.deref(self.val(e["e"]))
            if op in ("++", "--") and not e.get("post"):
                l = self.loc(e["e"])
                self.incdec(l, op, e.get("ty", ""))
                return l
        if k == "bin" and self.is_lvalue(e):
            self.val(e)
            return self.loc(e["l"]) if e["l"]["k"] in LOC_KINDS else self.tmp(VOID)
        if k == "call":
            kind, v = self.call(e)
            if kind == "L":
                return v
            return self.tmp(v)
        if k == "cond":
            if self.cond(e["c"]):
                return self.loc(e["t"])
            return self.loc(e["f"])
        if k == "cast" and self.is_lvalue(e["e"]) and e["ty"].endswith("&"):
            return self.loc(e["e"])
        if k in ("ctor", "initlist") and k == "ctor":
            l = self.tmp(VOID)
            self.construct(l, e)
            return l
        return self.tmp(self.val(e))

    def var_loc(self, e):
        i = e["id"]
        if e.get("g"):
            return (("g", i), ())
        if e.get("sl") and ("g", "static:" + i) in self.st.store:
            return self.canon((("g", "static:" + i), ()))
        f = self.frame
        if i in f.caps:
            l = f.caps[i]
        else:
            l = (("v", f.fid, i), ())
        return self.canon(l)

    def val(self, e):
        k = e["k"]
        self.line = e.get("L", self.line)
        m = getattr(self, "v_" + k, None)
        if m is not None:
            return m(e)
        if k in LOC_KINDS:
            return self.read(self.loc(e))
        return ("sym", "opaque:%s:%d" % (e.get("sc", k), e.get("L", 0)))

    def v_ref(self, e):
        return self.read(self.var_loc(e))

    def v_int(self, e):
        return N(int(e["v"]))

    def v_char(self, e):
        return ("chr", e["v"])

    def v_bool(self, e):
        return ("b", bool(e["v"]))

    def v_float(self, e):
        return ("flt", e["v"])

    def v_str(self, e):
        return S(e["v"])

    def v_null(self, e):
        return NULL

    def v_enum(self, e):
        return ("enum", e["q"], int(e["v"]))

    def v_this(self, e):
        t = self.frame.this
        if t is None:
            return ("sym", "this")
        return ("ptr", t[0], t[1])

    def v_fnref(self, e):
        return ("fnp", e["fn"]["usr"], e["fn"]["q"])

    def v_zero(self, e):
        return self.zero(e.get("ty", ""))

    def zero(self, ty):
        return self.stl.default_value(ty)

    def v_lambda(self, e):
        self.lambdas.setdefault(e["id"], e)
        caps = []
        this = None
        for c in e["caps"]:
            if c.get("this"):
                this = self.frame.this
                continue
            if "init" in c and c["init"] is not None:
                caps.append((c["id"], ("V", self.val(c["init"]))))
                continue
            if c["id"] in self.frame.caps:
                l = self.frame.caps[c["id"]]
            else:
                l = (("v", self.frame.fid, c["id"]), ())
            if c.get("byref"):
                caps.append((c["id"], ("L", self.canon(l))))
            else:
                caps.append((c["id"], ("V", self.read(l))))
        if this is None and self.frame.this is not None:
            this = None
        return ("clo", e["id"], tuple(caps), this)

    def v_throw(self, e):
        ty = strip_type(e.get("ty", "")) or "rethrow"
        v = None
        if e.get("e"):
            v = self.val(e["e"])
        if ty == "rethrow" and getattr(self, "current_exc", None):
            raise ThrowEx(self.current_exc[0], self.current_exc[1], "rethrown")
        raise ThrowEx(ty, v, "throw at %s" % self.where())

    def v_new(self, e):
        r = self.alloc(VOID)
        init = e.get("init")
        if init is None:
            self.st.store[r] = self.zero(e["ty"])
        elif init["k"] == "ctor":
            self.construct((r, ()), init)
        else:
            self.st.store[r] = self.val(init)
        return ("ptr", r, ())

    def v_delete(self, e):
        self.val(e["e"])
        return VOID

    def v_cond(self, e):
        if self.cond(e["c"]):
            return self.val(e["t"])
        return self.val(e["f"])

    def v_cast(self, e):
        v = self.val(e["e"])
        if e.get("void"):
            return VOID
        ty = e.get("ty", "")
        if ty == "bool" and e.get("from") != "bool":
            q = self.st.facts.q(v)
            return ("b", q) if q is not None else ("nzb", v)
        if v[0] == "b" and ty not in ("bool",):
            return N(int(v[1]))
        if v[0] == "chr" and ty not in ("char",):
            return N(v[1])
        if v[0] == "enum" and self.is_int_type(ty):
            return N(v[2])
        if v[0] == "n" and ty.startswith("unsigned") and v[1] < 0:
            bits = 64 if "long" in ty else 32
            return N(v[1] % (1 << bits))
        return self.narrowed(v, strip_type(ty), strip_type(e.get("from", "")))

    SMALL = {"short": (-(1 << 15), (1 << 15) - 1), "unsigned short": (0, (1 << 16) - 1), "signed char": (-128, 127), "unsigned char": (0, 255)}

    def narrowed(self, v, ty, src):
        """the value after a conversion that may cut it off"""
        if ty not in self.SMALL or src in self.SMALL or src in ("bool", "char") or not self.is_int_type(src):
            return v
        if v[0] == "ap" and v[1] == "&" and any(x[0] == "n" and 0 <= x[1] <= self.SMALL[ty][1] for x in v[2:]):
            return v
        if v[0] not in ("n", "lin", "size", "sym", "fld", "at", "mg", "phi", "ap", "sum"):
            return v
        lo, hi = self.SMALL[ty]
        if v[0] == "n":
            return v if lo <= v[1] <= hi else N((v[1] - lo) % (hi - lo + 1) + lo)
        a, b = self.st.facts.bounds(v)
        if lo <= a and b <= hi:
            return v
        return ("ap", "narrow", v, S(ty))

    def is_int_type(self, ty):
        t = strip_type(ty)
        return t in (
            "int",
            "unsigned int",
            "long",
            "unsigned long",
            "short",
            "unsigned short",
            "char",
            "unsigned char",
            "signed char",
            "long long",
            "unsigned long long",
            "bool",
        )

    def v_index(self, e):
        return self.read(self.loc(e))

    def v_mem(self, e):
        if not e.get("arrow") and not self.is_lvalue(e["base"]) and e["base"]["k"] != "call":
            b = self.val(e["base"])
            return self.stl.fld(b, e["f"])
        return self.read(self.loc(e))

    def v_initlist(self, e):
        if e.get("cls") and e.get("fields") is not None and not e["ty"].startswith("std::initializer_list"):
            r = self.prog.rec(e["ty"])
            fields = e["fields"]
            items = e["items"]
            d = {}
            for f, it in zip(fields, items):
                d[f] = self.val(it) if it is not None else VOID
            if e["cls"].startswith("std::") and not d:
                return self.zero(e["ty"])
            return rec(e["cls"], d)
        t = strip_type(e.get("ty", ""))
        if t == "bool" or self.is_int_type(t) or t in ("double", "float", "char") or t.endswith("*"):
            # braces around a scalar
            return self.val(e["items"][0]) if e["items"] else self.zero(e["ty"])
        return ("seq", tuple(("one", self.val(i)) for i in e["items"]))

    def v_ctor(self, e):
        l = self.tmp(VOID)
        self.construct(l, e)
        return self.read(l)

    def v_call(self, e):
        kind, v = self.call(e)
        if kind == "L":
            return self.read(v)
        return v

    def v_un(self, e):
        op = e["op"]
        if op == "!":
            return neg(self.truth(self.val(e["e"])))
        if op == "-":
            v = self.val(e["e"])
            if v[0] == "flt":
                return ("flt", -v[1])
            r = mulc(v, -1)
            if e.get("ty", "").startswith("unsigned") and r[0] == "n" and r[1] < 0:
                return N(r[1] % (1 << (64 if "long" in e["ty"] else 32)))
            return r
        if op == "+":
            return self.val(e["e"])
        if op == "*":
            return self.read(self.deref(self.val(e["e"])))
        if op == "&":
            if self.is_lvalue(e["e"]):
                l = self.resolve(self.loc(e["e"]))
                return ("ptr", l[0], l[1])
            v = self.val(e["e"])
            if v[0] == "fnp":
                return v
            l = self.tmp(v)
            return ("ptr", l[0], l[1])
        if op in ("++", "--"):
            l = self.loc(e["e"])
            old = self.read(l)
            self.incdec(l, op, e.get("ty", ""))
            return old if e.get("post") else self.read(l)
        v = self.val(e["e"])
        if op == "~" and v[0] == "n":
            return N(~v[1])
        return ("ap", "un" + op, v)

    def incdec(self, l, op, ty):
        old = self.read(l)
        if old[0] == "it":
            self.write(l, self.stl.it_advance(old, N(1) if op == "++" else N(-1)))
            return
        if op == "--" and ty.startswith("unsigned"):
            self.write(l, self.usub(old, N(1)))
            return
        self.write(l, add(old, N(1)) if op == "++" else sub(old, N(1)))

    def usub(self, a, b):
        """unsigned subtraction; for counters kept in objects the wrapping case is a partition of its own"""
        if a[0] == "fld" and b[0] == "n" and self.st.facts.bounds(sub(a, b))[0] < 0:
            if self.branch(("cmp", "<", a, b)):
                self.event("wrap", a=a, b=b, definite=True)
                r = ("ap", "wrapped", a, b)
                self.st.facts.tighten(r, 1 << 62, INF)
                return r
            return sub(a, b)
        self.check_wrap(a, b)
        return sub(a, b)

    def check_wrap(self, a, b):
        lo, hi = self.st.facts.bounds(sub(a, b))
        if lo < 0:
            self.event("wrap", a=a, b=b, definite=hi < 0)

    def truth(self, v):
        if v[0] == "nzb":
            return v[1]
        return v

    def cond(self, e):
        """decide a condition expression (splits the partition where it is not determined)"""
        self.line = e.get("L", self.line)
        if e["k"] == "bin":
            if e["op"] == "&&":
                return self.cond(e["l"]) and self.cond(e["r"])
            if e["op"] == "||":
                return self.cond(e["l"]) or self.cond(e["r"])
        if e["k"] == "un" and e["op"] == "!":
            return not self.cond(e["e"])
        if e["k"] == "cast" and e.get("ty") == "bool":
            return self.cond(e["e"])
        return self.branch(self.truth(self.val(e)))

    def v_bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            return ("b", self.cond(e))
        if op == ",":
            self.val(e["l"])
            return self.val(e["r"])
        if op == "=":
            r = self.val(e["r"])
            l = self.loc(e["l"])
            if e.get("lty") == "bool" and r[0] == "nzb":
                pass
            self.write(l, r)
            return r
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            l = self.loc(e["l"])
            r = self.val(e["r"])
            old = self.read(l)
            v = self.arith(op[:-1], old, r, e.get("lty", ""))
            self.write(l, v)
            return v
        a = self.val(e["l"])
        b = self.val(e["r"])
        ty = e.get("lty", "")
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, a, b, ty)
        return self.arith(op, a, b, e.get("ty", ""))

    def arith(self, op, a, b, ty):
        if a[0] in ("ptr", "sym", "strp", "it") and ty.endswith("*"):
            if a[0] == "it":
                return self.stl.it_advance(a, b if op == "+" else mulc(b, -1))
            return ("ap", "ptr" + op, a, b)
        if op == "+":
            if a[0] == "flt" or b[0] == "flt":
                return ("ap", "+f", a, b)
            r = add(a, b)
            if r[0] == "n" and ty == "unsigned long" and r[1] >= 1 << 64:
                return N(r[1] % (1 << 64))
            return r
        if op == "-":
            if a[0] == "it" and b[0] == "it":
                return sub(a[3], b[3])
            if ty.startswith("unsigned"):
                return self.usub(a, b)
            return sub(a, b)
        if op == "*":
            if a[0] == "n":
                return mulc(b, a[1])
            if b[0] == "n":
                return mulc(a, b[1])
        if op in ("/", "%") and a[0] == "n" and b[0] == "n" and b[1] != 0:
            q = abs(a[1]) // abs(b[1])
            if (a[1] < 0) != (b[1] < 0):
                q = -q
            return N(q) if op == "/" else N(a[1] - q * b[1])
        if op == "&" and a[0] == "n" and b[0] == "n":
            return N(a[1] & b[1])
        if op == "|" and a[0] == "n" and b[0] == "n":
            return N(a[1] | b[1])
        if op == "|" and (a == N(0) or b == N(0)):
            return b if a == N(0) else a
        if op == "<<" and a[0] == "n" and b[0] == "n":
            return N(a[1] << b[1])
        if op == "&" and (a[0] == "b" or b[0] == "b"):
            x, y = (a, b) if a[0] == "b" else (b, a)
            return y if x[1] else FALSE
        if op == "|" and (a[0] == "b" or b[0] == "b"):
            x, y = (a, b) if a[0] == "b" else (b, a)
            return TRUE if x[1] else y
        if op in ("/", "%"):
            self.event("div", a=a, b=b)
        return ("ap", op, a, b)

    def compare(self, op, a, b, ty):
        t = strip_type(ty)
        if op in ("==", "!="):
            for x, y in ((a, b), (b, a)):
                if y == N(0) and x[0] == "strcmp":
                    c = ("cmp", "==", x[1], x[2])
                    return neg(c) if op == "!=" else c
                if y == N(0) and x[0] == "ap" and (
                    (x[1] == "str.find" and x[4] == N(0)) or (x[1] == "str.rfind" and x[4] == N(0))
                ):
                    c = self.stl.prefix(x[2], x[3])
                    return neg(c) if op == "!=" else c
                if x[0] == "ap" and x[1] == "&" and y[0] == "n":
                    # a test of one flag
                    m = [z[1] for z in x[2:] if z[0] == "n"]
                    if y[1] == 0 or (len(m) == 1 and m[0] == y[1] and m[0] > 0 and m[0] & (m[0] - 1) == 0):
                        c = self.truth(x) if y[1] else neg(self.truth(x))
                        return neg(c) if op == "!=" else c
        if op in ("==", "!="):
            if a[0] == "it" or b[0] == "it":
                c = self.stl.it_eq(a, b)
            elif self.is_int_type(t) and t != "bool":
                c = ("cmp", "==i", a, b)
            elif t == "bool":
                if a[0] == "b":
                    c = self.truth(b) if a[1] else neg(self.truth(b))
                elif b[0] == "b":
                    c = self.truth(a) if b[1] else neg(self.truth(a))
                else:
                    c = ("cmp", "==", a, b)
            elif a[0] == "enum" and b[0] == "enum":
                c = ("b", a[2] == b[2])
            elif a[0] in ("enum", "n") or b[0] in ("enum", "n"):
                c = ("cmp", "==i", self.num(a), self.num(b))
            else:
                c = ("cmp", "==", a, b)
            return neg(c) if op == "!=" else c
        a, b = self.num(a), self.num(b)
        if a[0] == "it" and b[0] == "it":
            a, b = a[3], b[3]
        if op == "<":
            return ("cmp", "<", a, b)
        if op == ">":
            return ("cmp", "<", b, a)
        if op == "<=":
            return neg(("cmp", "<", b, a))
        return neg(("cmp", "<", a, b))

    def num(self, v):
        if v[0] == "enum":
            return N(v[2])
        if v[0] == "b":
            return N(int(v[1]))
        if v[0] == "chr":
            return N(v[1])
        return v

    # ------------------------------------------------------------------ objects
    def construct(self, l, e):
        """run the constructor expression e on location l"""
        self.line = e.get("L", self.line)
        line = self.line
        self.construct1(l, e)
        self.line = line

    def construct1(self, l, e):
        fn = e["fn"]
        if self.hooks is not None:
            r = self.hooks.ctor(self, l, e)
            if r is not NotImplemented:
                return
        if fn.get("repo"):
            cm = fn.get("cm")
            if cm and len(e["args"]) == 1 and fn["usr"] not in self.prog.fns:
                v = self.val(e["args"][0])
                self.write(l, v, quiet=True)
                return
            args = self.eval_args(fn, e["args"])
            self.construct_repo(l, fn, args, e.get("ty") or fn.get("cls"))
            return
        self.stl.construct(l, e)

    def fields_default(self, rec_):
        d = {}
        for f in rec_["fields"]:
            if f.get("init") is not None:
                d[f["n"]] = None  # filled below (needs evaluation)
            else:
                d[f["n"]] = self.stl.default_value(f["ty"], uninit=True)
        return d

    def construct_repo(self, l, fn, args, ty):
        """construct an object of a repository class in place (l)"""
        f = self.prog.fns.get(fn["usr"])
        r = self.prog.rec(ty) or self.prog.rec_by_q(fn.get("cls", "")) or None
        cls = r["q"] if r else fn.get("cls", ty)
        cur = self.read(l) if False else None
        base_fields = {}
        if f is None:
            # implicit or defaulted constructor
            if fn.get("cm") and args:
                v = self.arg_value(args[0])
                self.write(l, v, quiet=True)
                return
            if r is None:
                self.write(l, ("sym", "obj:" + cls), quiet=True)
                return
            self.init_object(l, r, {})
            return
        if r is None:
            self.write(l, ("sym", "obj:" + cls), quiet=True)
            return
        if not fn.get("cm"):
            if self.hooks.on_construct(self, cls, l, args):
                return
        self.enter(f, l, args)
        try:
            self.init_object(l, r, f)
            try:
                self.exec(f["body"])
            except ReturnEx:
                pass
        finally:
            self.leave()

    def init_object(self, l, r, f, as_base=False):
        """member initialisation of class r at l following constructor f (its initialiser list)"""
        inits = {}
        bases = []
        deleg = None
        for i in (f.get("inits") or []) if f else []:
            if i.get("base"):
                bases.append(i)
            elif i.get("deleg"):
                deleg = i
            elif i.get("f"):
                inits[i["f"]] = i
        if deleg is not None:
            e = deleg["e"]
            fn = e["fn"]
            args = self.eval_args(fn, e["args"])
            self.construct_repo(l, fn, args, r["ty"])
            return
        v0 = self.st.store.get(l[0])
        if not as_base:
            self.write(l, ("rec", r["q"], (), None), quiet=True)
        # base classes
        done = set()
        for b in bases:
            e = b.get("e")
            if e is not None and e["k"] == "ctor" and e["fn"].get("repo"):
                bf = self.prog.fns.get(e["fn"]["usr"])
                br = self.prog.rec(b["base"]) or self.prog.rec_by_q(e["fn"].get("cls", ""))
                if br is not None:
                    done.add(br["ty"])
                    if bf is not None:
                        args = self.eval_args(e["fn"], e["args"])
                        self.enter(bf, l, args)
                        try:
                            self.init_object(l, br, bf, as_base=True)
                            try:
                                self.exec(bf["body"])
                            except ReturnEx:
                                pass
                        finally:
                            self.leave()
                    else:
                        self.init_object(l, br, {}, as_base=True)
        for b in r["bases"]:
            br = self.prog.rec(b)
            if br is not None and br["ty"] not in done:
                self.init_object(l, br, {}, as_base=True)
        for fd in r["fields"]:
            n = fd["n"]
            fl = (l[0], l[1] + (("f", n),))
            i = inits.get(n)
            e = i.get("e") if i else None
            isref = fd["ty"].endswith("&")
            if e is None and fd.get("init") is not None:
                e = fd["init"]
            if e is None:
                self.write(fl, self.stl.default_value(fd["ty"], uninit=True), quiet=True)
                continue
            if isref:
                tl = self.resolve(self.loc(e))
                self.set_alias(fl, tl)
                continue
            if e["k"] == "ctor":
                self.write(fl, VOID, quiet=True)
                self.construct(fl, e)
            else:
                self.write(fl, self.val(e), quiet=True)

    def set_alias(self, fl, tl):
        root, steps = self.resolve(fl)
        old = self.st.store.get(root)
        if old is None:
            old = self.default(root)
        self.st.store[root] = self.upd(old, steps, ("alias", tl[0], tl[1]))

    # ------------------------------------------------------------------ calls
    def eval_args(self, fn, args):
        pm = fn.get("pm", "")
        out = []
        for i, a in enumerate(args):
            mode = pm[i] if i < len(pm) else "v"
            if mode in "crm":
                if self.is_lvalue(a):
                    out.append(("L", self.resolve(self.loc(a))))
                else:
                    out.append(("L", self.tmp(self.val(a))))
            else:
                out.append(("V", self.val(a)))
        return out

    def arg_value(self, a):
        return self.read(a[1]) if a[0] == "L" else a[1]

    def arg_loc(self, a):
        return a[1] if a[0] == "L" else self.tmp(a[1])

    def obj_loc(self, e):
        """location of the object a member function is called on"""
        o = e["obj"]
        if e.get("arrow") or (e.get("oty", "").endswith("*")):
            if o["k"] == "this":
                return self.frame.this if self.frame.this is not None else (("p", ("sym", "this")), ())
            return self.deref(self.val(o))
        if o["k"] == "this":
            return self.frame.this
        if self.is_lvalue(o):
            return self.resolve(self.loc(o))
        return self.tmp(self.val(o))

    def call(self, e):
        self.line = e.get("L", self.line)
        line = self.line
        fn = e.get("fn")
        if self.hooks is not None:
            r = self.hooks.call(self, e)
            if r is not NotImplemented:
                self.line = line
                return r
        if fn is None:
            callee = e.get("callee")
            if callee is None:
                return ("V", ("sym", "opaque-call:%d" % line))
            while callee["k"] == "paren":
                callee = callee["e"]
            if callee["k"] == "bin" and callee["op"] in ("->*", ".*"):
                # through a pointer to a member function
                f = self.val(callee["r"])
                fr = self.prog.fns.get(f[1]) if f[0] == "fnp" else None
                if fr is not None:
                    o = self.deref(self.val(callee["l"])) if callee["op"] == "->*" else self.loc(callee["l"])
                    args = self.eval_args(fr["fn"], e["args"])
                    r = self.call_fn(fr["fn"], o, args, None)
                    self.line = line
                    return r
            if callee["k"] == "fnref":
                fn = callee["fn"]
            else:
                f = self.val(callee)
                args = [("V", self.val(a)) for a in e["args"]]
                r = self.invoke(f, args, e)
                self.line = line
                return r
        if not fn.get("repo"):
            r = self.stl.call(e)
            self.line = line
            return r
        # lambda call operators
        if fn["n"] == "operator()" and fn["usr"] not in self.prog.fns and e.get("obj") is not None:
            v = self.val(e["obj"])
            args = self.eval_args(fn, e["args"])
            r = self.invoke(v, args, e)
            self.line = line
            return r
        obj = None
        if e.get("obj") is not None and not fn.get("static"):
            obj = self.obj_loc(e)
        args = self.eval_args(fn, e["args"])
        self.line = line
        r = self.call_fn(fn, obj, args, e)
        self.line = line
        return r

    def dispatch(self, fn, obj, e=None):
        """most derived override for an object whose class is known"""
        if not fn.get("virt") or obj is None or (e is not None and e.get("qualified")):
            return fn["usr"]
        v = self.read(obj)
        cls = v[1] if v[0] == "rec" else None
        if cls is None:
            return fn["usr"]
        seen = set()
        r = self.prog.rec_by_q(cls)
        while r is not None and r["q"] not in seen:
            seen.add(r["q"])
            for m in r["methods"]:
                if m["fn"]["usr"] == fn["usr"] or self.overrides(m, fn["usr"]):
                    return m["fn"]["usr"]
            r = self.prog.rec(r["bases"][0]) if r["bases"] else None
        return fn["usr"]

    def overrides(self, m, usr):
        todo = list(m["ov"])
        seen = set()
        while todo:
            u = todo.pop()
            if u == usr:
                return True
            if u in seen:
                continue
            seen.add(u)
            for r in self.prog.recs.values():
                for x in r["methods"]:
                    if x["fn"]["usr"] == u:
                        todo.extend(x["ov"])
        return False

    def call_fn(self, fn, obj, args, e=None):
        usr = self.dispatch(fn, obj, e)
        f = self.prog.fns.get(usr)
        if self.hooks is not None:
            r = self.hooks.call_fn(self, fn, obj, args, e)
            if r is not NotImplemented:
                return r
        if f is None or f.get("body") is None:
            if fn["n"].startswith("operator ") and "(*)" in fn["n"] and obj is not None and self.read(obj)[0] == "clo":
                return ("V", self.read(obj))  # a captureless lambda as a function pointer
            if fn["n"] == "operator=" and obj is not None and len(args) == 1:
                self.write(obj, self.arg_value(args[0]))
                return ("L", obj)
            return self.opaque_call(fn, obj, args)
        if self.depth > self.MAX_DEPTH or self.recursive(usr):
            return self.opaque_call(fn, obj, args)
        return self.inline(f, obj, args)

    def recursive(self, usr):
        return self.stack_count(usr) >= 2

    def stack_count(self, usr):
        n = 0
        for fr in getattr(self, "stack", []):
            if fr is not None and fr.fn is not None and fr.fn.get("fn", {}).get("usr") == usr:
                n += 1
        return n

    def opaque_call(self, fn, obj, args):
        q = fn["q"]
        self.opaque_calls.add(q)
        vals = [self.arg_value(a) for a in args]
        self.event("ext", q=q, args=tuple(vals), obj=obj)
        pm = fn.get("pm", "")
        n = self.st.fresh("ext")
        for i, a in enumerate(args):
            if i < len(pm) and pm[i] in "rm" and a[0] == "L":
                self.write(a[1], ("sym", "%s#%d.%d" % (q, n, i)), quiet=True)
        if fn["rt"] == "void":
            return ("V", VOID)
        ov = (self.read(obj),) if obj is not None else ()
        return ("V", ("ap", q, *ov, *vals))

    def enter(self, f, this, args, caps=None):
        fr = Frame()
        fr.fn = f
        fr.name = f["fn"]["q"] if "fn" in f else "lambda@%s:%s" % (f.get("file"), f.get("L"))
        fr.fid = self.st.fresh("frame")
        fr.this = this
        fr.caps = caps or {}
        rt = f["fn"]["rt"] if "fn" in f else f.get("rt", "")
        fr.retref = rt.endswith("&")
        vals = []
        for p, a in zip(f.get("params") or [], args):
            root = ("v", fr.fid, p["id"])
            if p["pm"] in "crm":
                l = self.arg_loc(a)
                self.st.store[root] = ("alias", l[0], l[1])
            else:
                v = self.arg_value(a)
                self.st.store[root] = v
            vals.append(a)
        fr.argvals = tuple(self.arg_value(a) for a in args)
        if not hasattr(self, "stack"):
            self.stack = []
        self.stack.append(self.frame)
        self.frame = fr
        self.depth += 1
        if "fn" in f:
            self.inlined.add(f["fn"]["q"])

    def leave(self):
        self.frame = self.stack.pop()
        self.depth -= 1

    def inline(self, f, obj, args):
        stack0 = list(getattr(self, "stack", []))
        frame0, depth0 = self.frame, self.depth
        self.enter(f, obj, args)
        try:
            try:
                self.exec(f["body"])
                r = ("V", VOID)
            except ReturnEx as x:
                r = x.val
        finally:
            self.stack = stack0
            self.frame, self.depth = frame0, depth0
        return r

    def invoke(self, f, args, e=None):
        """call a function value"""
        if e is not None:
            self.line = e.get("L", self.line)
        if f[0] == "clo":
            lam = self.lambdas.get(f[1])
            caps = {}
            for cid, (k, v) in f[2]:
                if k == "L":
                    caps[cid] = v
                else:
                    caps[cid] = self.tmp(v)
            stack0 = list(getattr(self, "stack", []))
            frame0, depth0 = self.frame, self.depth
            self.enter(lam, f[3], args, caps)
            try:
                try:
                    self.exec(lam["body"])
                    r = ("V", VOID)
                except ReturnEx as x:
                    r = x.val
            finally:
                self.stack = stack0
                self.frame, self.depth = frame0, depth0
            return r
        if f[0] == "fnp":
            fr = self.prog.fns.get(f[1])
            if fr is not None:
                if fr["fn"]["kind"] == "method" and not fr["fn"].get("static") and args:
                    o = args[0]
                    ov = self.arg_value(o)
                    ol = self.deref(ov) if ov[0] in ("ptr", "sym", "at", "mg", "fld") else self.arg_loc(o)
                    return self.call_fn(fr["fn"], ol, args[1:], None)
                return self.call_fn(fr["fn"], None, args, None)
            return ("V", ("ap", f[2], *[self.arg_value(a) for a in args]))
        if f[0] == "bind":
            bargs = []
            for b in f[2]:
                if b[0] == "ph":
                    bargs.append(args[b[1]] if b[1] < len(args) else ("V", VOID))
                else:
                    bargs.append(("V", b))
            return self.invoke(f[1], bargs, e)
        if f[0] == "memfn":
            return self.call_fn(f[1], f[2], args, e)
        if f[0] == "rec":
            # functor object
            r = self.prog.rec_by_q(f[1])
            if r is not None:
                for m in r["methods"]:
                    if m["fn"]["n"] == "operator()" and m["fn"]["usr"] in self.prog.fns:
                        return self.call_fn(m["fn"], self.tmp(f), args, None)
        if self.hooks is not None:
            r = self.hooks.invoke(self, f, args, e)
            if r is not NotImplemented:
                return r
        if f == NULL:
            raise ThrowEx("std::bad_function_call", None, "empty function called")
        self.event("callop", f=f, args=tuple(self.arg_value(a) for a in args))
        return ("V", ("ap", "call", f, *[self.arg_value(a) for a in args]))

    # ------------------------------------------------------------------ statements
    def exec(self, s):
        if s is None:
            return
        k = s["k"]
        self.line = s.get("L", self.line)
        getattr(self, "s_" + k)(s)

    def s_block(self, s):
        for x in s["b"]:
            self.exec(x)

    def s_null(self, s):
        pass

    def s_expr(self, s):
        e = s["e"]
        if e["k"] == "call":
            self.call(e)
        elif e["k"] == "ctor":
            self.construct(self.tmp(VOID), e)
        elif e["k"] in ("ref", "mem") :
            pass
        else:
            self.val(e)

    def s_opaque(self, s):
        self.st.notes.append("statement not understood: %s at %s" % (s.get("sc"), self.where()))
        raise Limit("statement not understood: %s" % s.get("sc"))

    def static_root(self, v):
        return ("g", "static:" + v["id"])

    def declare(self, v):
        if v.get("sl") and not v.get("isref") and not v.get("bindings"):
            # lives as long as the program: what it holds is decided by the first call (if constant), or by all the
            # calls before (otherwise)
            root = self.static_root(v)
            if root not in self.st.store:
                const = v["ty"].startswith("const ") or root in self.fixed_statics
                self.static_name[root] = v["n"]
                later = not const and self.choose(2) == 1
                n0 = len(self.ch.trail) if self.ch is not None else 0
                self.define(root, v)
                val = self.read((root, ()))
                unknown = ("sym", "static:" + v["n"])
                if const:
                    self.const_statics.add(root)
                    if (self.ch is not None and len(self.ch.trail) != n0) or contains(val, lambda x: x[0] in ("phi", "ix")):
                        self.st.store[root] = unknown
                    else:
                        self.st.store[root] = earlier(val)
                else:
                    self.statics[root] = val
                    if later:
                        self.st.store[root] = unknown
                        self.event("static", root=root)
            return
        root = ("v", self.frame.fid, v["id"])
        self.define(root, v)

    def define(self, root, v):
        init = v.get("init")
        if v.get("isref"):
            if init is None:
                self.st.store[root] = ("sym", v["n"])
            elif self.is_lvalue(init):
                l = self.resolve(self.loc(init))
                self.st.store[root] = ("alias", l[0], l[1])
            else:
                l = self.loc(init) if init["k"] == "ctor" else self.tmp(self.val(init))
                self.st.store[root] = ("alias", l[0], l[1])
        elif init is None:
            self.st.store[root] = self.stl.default_value(v["ty"], uninit=not v.get("sl"))
        elif init["k"] == "ctor":
            self.st.store[root] = VOID
            self.construct((root, ()), init)
        else:
            self.st.store[root] = self.val(init)
        for b in v.get("bindings") or []:
            broot = ("v", self.frame.fid, b["id"])
            src = b.get("hold") or b.get("e")
            if src is None:
                continue
            if self.is_lvalue(src) or src["k"] == "call":
                l = self.resolve(self.loc(src))
                self.st.store[broot] = ("alias", l[0], l[1])
            else:
                self.st.store[broot] = self.val(src)

    def s_decl(self, s):
        for v in s["vars"]:
            self.declare(v)

    def s_if(self, s):
        if s.get("init"):
            self.exec(s["init"])
        if s.get("cv"):
            self.declare(s["cv"])
        if "constexpr" in s:
            c = s["constexpr"]
        else:
            if self.merge_ifs and self.try_merge(s):
                return
            c = self.cond(s["c"])
        if c:
            self.exec(s["t"])
        elif s.get("f"):
            self.exec(s["f"])

    def try_merge(self, s):
        """join the two branches into one partition when neither leaves the function (used for straight-line
        configuration code with very many independent conditions)"""
        return self.hooks.merge_if(self, s) if self.hooks is not None else False

    def s_return(self, s):
        e = s.get("e")
        if e is None:
            raise ReturnEx(("V", VOID))
        if self.frame.retref:
            raise ReturnEx(("L", self.resolve(self.loc(e))))
        raise ReturnEx(("V", self.val(e)))

    def s_break(self, s):
        raise BreakEx()

    def s_continue(self, s):
        raise ContinueEx()

    def s_try(self, s):
        self.try_depth.append([h.get("ty") for h in s["h"]])
        n = len(self.try_depth)
        stack0 = list(getattr(self, "stack", []))
        frame0, depth0 = self.frame, self.depth
        try:
            try:
                self.exec(s["b"])
            finally:
                self.try_depth = self.try_depth[: n - 1]
        except ThrowEx as t:
            self.stack, self.frame, self.depth = stack0, frame0, depth0
            for h in s["h"]:
                if self.catches(h, t.ty):
                    if h.get("var"):
                        root = ("v", self.frame.fid, h["var"]["id"])
                        self.st.store[root] = t.val if t.val is not None else ("sym", "exc:" + t.ty)
                    self.event("catch", ty=t.ty, by=h.get("ty"))
                    old = getattr(self, "current_exc", None)
                    self.current_exc = (t.ty, t.val)
                    try:
                        self.exec(h["b"])
                    finally:
                        self.current_exc = old
                    return
            raise

    STD_EXC = {
        "std::out_of_range": ["std::logic_error", "std::exception"],
        "std::invalid_argument": ["std::logic_error", "std::exception"],
        "std::length_error": ["std::logic_error", "std::exception"],
        "std::logic_error": ["std::exception"],
        "std::runtime_error": ["std::exception"],
        "std::overflow_error": ["std::runtime_error", "std::exception"],
        "std::bad_alloc": ["std::exception"],
        "std::bad_function_call": ["std::exception"],
        "zmq::error_t": ["std::exception"],
        "YAML::Exception": ["std::runtime_error", "std::exception"],
        "YAML::BadFile": ["YAML::Exception", "std::runtime_error", "std::exception"],
        "YAML::ParserException": ["YAML::Exception", "std::runtime_error", "std::exception"],
        "boost::program_options::error": ["std::logic_error", "std::exception"],
        "YAML::InvalidNode": ["YAML::RepresentationException", "YAML::Exception", "std::runtime_error", "std::exception"],
        "YAML::BadSubscript": ["YAML::RepresentationException", "YAML::Exception", "std::runtime_error", "std::exception"],
        "YAML::BadConversion": ["YAML::RepresentationException", "YAML::Exception", "std::runtime_error", "std::exception"],
    }

    def catches(self, h, ty):
        ht = h.get("ty")
        if not ht:
            return True
        ht = strip_type(ht)
        if ht == ty:
            return True
        if ht in self.STD_EXC.get(ty, []):
            return True
        todo = [ty]
        seen = set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if t == ht or ht in self.STD_EXC.get(t, []):
                return True
            r = self.prog.rec(t) or self.prog.rec_by_q(t)
            if r:
                todo.extend(strip_type(b) for b in r["bases"])
        return False

    def s_switch(self, s):
        if s.get("init"):
            self.exec(s["init"])
        v = self.val(s["c"])
        items = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        # flatten nested case labels
        flat = []
        for it in items:
            labels = []
            while it is not None and it["k"] in ("case", "default"):
                labels.append(it)
                it = it.get("b")
            flat.append((labels, it))
        start = None
        default = None
        for i, (labels, it) in enumerate(flat):
            for lab in labels:
                if lab["k"] == "default":
                    default = i
                    continue
                c = self.val(lab["v"])
                if start is None and self.branch(("cmp", "==i", self.num(v), self.num(c))):
                    start = i
            if start is not None:
                break
        if start is None:
            # remaining default may come later than the scanned labels
            if default is None:
                for i, (labels, it) in enumerate(flat):
                    if any(l["k"] == "default" for l in labels):
                        default = i
            start = default
        if start is None:
            return
        try:
            for labels, it in flat[start:]:
                self.exec(it)
        except BreakEx:
            pass

    def s_case(self, s):
        self.exec(s["b"])

    def s_default(self, s):
        self.exec(s["b"])

    # ------------------------------------------------------------------ loops
    def s_while(self, s):
        def cond():
            if s.get("cv"):
                self.declare(s["cv"])
            return self.cond(s["c"])

        self.loop(s, cond, lambda: self.body_once(s["b"]), const_true=self.const_true(s["c"]))

    def const_true(self, e):
        while e is not None and e["k"] == "cast":
            e = e["e"]
        if e is None:
            return True
        return (e["k"] == "bool" and e["v"]) or (e["k"] == "int" and e["v"] != "0")

    def body_once(self, b):
        try:
            self.exec(b)
        except ContinueEx:
            pass

    def s_do(self, s):
        # first iteration runs unconditionally
        try:
            self.body_once(s["b"])
        except BreakEx:
            return
        self.loop(s, lambda: self.cond(s["c"]), lambda: self.body_once(s["b"]), const_true=self.const_true(s["c"]))

    def s_for(self, s):
        if s.get("init"):
            self.exec(s["init"])

        def body():
            self.body_once(s["b"])
            if s.get("inc"):
                self.val(s["inc"])

        self.loop(
            s,
            lambda: self.cond(s["c"]) if s.get("c") else True,
            body,
            const_true=s.get("c") is None or self.const_true(s["c"]),
        )

    def loop(self, s, cond, body, const_true=False):
        """a loop with an explicit condition"""
        if not const_true and self.try_unroll(s, cond, body):
            return
        self.fold(s, cond=cond, body=body, const_true=const_true)

    def try_unroll(self, s, cond, body):
        """loops whose trip count is a constant of the program"""
        st0 = self.st.copy()
        # decided without splitting?
        probe = self.probe(cond)
        if probe is None:
            return False
        if probe is False:
            # zero iterations (evaluate the condition for its side effects)
            cond()
            return True
        # true at entry: does a few rounds keep it decided?
        def attempt():
            for _ in range(40):
                p = self.probe(cond)
                if p is None:
                    raise Unroll()
                if not p:
                    return
                cond()
                try:
                    body()
                except BreakEx:
                    return
            raise Unroll()

        key = self.ch.key + (tuple(self.ch.trail), self.ch.sub, "unroll")
        self.ch.sub += 1
        if key not in self.memo:
            ok = True
            try:
                self._explore(attempt, key)
            except Unroll:
                ok = False
            self.memo[key] = ok
        if not self.memo[key]:
            self.st = st0
            return False
        attempt()
        return True

    def probe(self, cond):
        """truth of the condition if it is decided in this state, else None"""
        save_st, save_ch = self.st, self.ch
        self.st = self.st.copy()
        self.ch = Chooser((), ("probe",))
        try:
            v = cond()
            if self.ch.trail:
                return None
            return bool(v)
        except (Infeasible, CrashEx, ThrowEx, Limit):
            return None
        finally:
            self.st, self.ch = save_st, save_ch

    def s_rangefor(self, s):
        if s.get("init"):
            self.exec(s["init"])
        rng = s["range"]
        if self.is_lvalue(rng):
            l = self.resolve(self.loc(rng))
        else:
            l = self.tmp(self.val(rng))
        v = s["var"]

        def body(elem):
            root = ("v", self.frame.fid, v["id"])
            if v.get("isref"):
                self.st.store[root] = ("alias", elem[0], elem[1])
            else:
                self.st.store[root] = self.read(elem)
            for b in v.get("bindings") or []:
                broot = ("v", self.frame.fid, b["id"])
                src = b.get("hold") or b.get("e")
                if src is None:
                    continue
                bl = self.resolve(self.loc(src))
                self.st.store[broot] = ("alias", bl[0], bl[1])
            self.body_once(s["b"])

        self.iterate(s, l, body, kind=self.stl.kind_of(s.get("rty", "")))

    def iterate(self, s, l, body, kind="seq", lo=None, hi=None, inplace=False):
        """run body(element location) for every element of the container at l (between positions lo and hi);
        a break in the body leaves the iteration and is reported as ('break', value)"""
        c = self.read(l)
        if kind == "map" or c[0] == "map":
            return self.iterate_map(s, l, c, body)
        if kind == "str":
            c = ("chars", c)
            l = self.tmp(c)
        whole = lo is None and hi is None
        if not whole:
            lo = lo if lo is not None else N(0)
            hi = hi if hi is not None else size_of(c)
            sl = mk_slice(c, lo, hi)
            whole = sl == c
        else:
            sl = c
            lo = N(0)
        parts = parts_of(sl)
        if len(parts) > 1 and any(p[0] == "all" for p in parts):
            parts = parts
        off = N(0)
        try:
            for p in parts:
                if p[0] == "one":
                    idx = add(lo, off)
                    if whole or True:
                        body((l[0], l[1] + (("i", idx),)) if at(c, idx) == p[1] else self.tmp(p[1]))
                    off = add(off, N(1))
                    continue
                coll = p[1]
                self.fold(s, coll=coll, loc_=l if (len(parts) == 1 and (whole or inplace)) else None, base=add(lo, off), body=body, cval=c)
                off = add(off, size_of(coll))
        except BreakEx as b:
            return ("break", b.val)
        return ("end", None)

    def iterate_map(self, s, l, c, body):
        m = self.as_map(c)
        try:
            keys = []
            for ek, ev in m[2]:
                if m[3]:
                    continue
                if ek not in keys:
                    keys.append(ek)
            if m[1] == ("empty",):
                if m[3]:
                    for ek, ev in m[2]:
                        if ev != DEL:
                            body(self.tmp(rec("std::pair", {"first": ek, "second": ev})))
                    return ("end", None)
                if all(is_const(k) for k in keys):
                    keys = sorted(keys, key=repr)
                for k in keys:
                    if self.map_present(m, k):
                        body((l[0], l[1] + (("e", k),)))
                return ("end", None)
            for k in keys:
                if self.map_present(m, k):
                    body((l[0], l[1] + (("e", k),)))
            if m[3]:
                for ek, ev in m[2]:
                    if ev != DEL:
                        body(self.tmp(rec("std::pair", {"first": ek, "second": ev})))
            self.fold(s, coll=m[1], loc_=l, body=body, ismap=True, cval=c, skip=keys, multi=m[3])
        except BreakEx as b:
            return ("break", b.val)
        return ("end", None)

    # the fixpoint
    def fold(self, s, cond=None, body=None, coll=None, loc_=None, base=None, ismap=False, cval=None, const_true=False, skip=(), multi=False):
        sid = "%s:%s:%s" % (self.frame.name if self.frame else "", s.get("L", 0), s.get("k"))
        if coll is not None:
            sz = size_of(coll)
            if self.st.facts.q_eqi(sz, N(0)) is True:
                return
        inst = "%s#%d" % (s.get("L", 0), self.st.fresh("inst"))
        st0 = self.st
        line = self.line

        def summarise(name=None):
            return self.fixpoint(s, name or inst, st0, cond, body, coll, loc_, base, ismap, cval, const_true, skip)

        L, exits, hstate, normal = self.memoised(summarise, "fold")
        over = L.coll if L.sym is not None and L.sym[0] == "ix" and not hasattr(L, "drain") else None
        pure = over is not None and not L.cells and not L.elems and all(self.quiet(b.events) for b in L.bodies)
        sig = None
        if pure:
            # searches of the same collection for the same thing find the same element
            sig = (over, tuple(skip), self.canon_bodies(L))
            old_inst = self.st.sigs.get(sig)
            if old_inst is not None:
                L, exits, hstate, normal = self.memoised(lambda: self.rename_loop(L, exits, hstate, normal, inst, old_inst), "fold2")
                inst = old_inst
        self.loops.setdefault(inst, L)
        # choose how the loop ends
        opts = []
        if normal is not None and not self.sure_hit(L):
            opts.append(None)
        opts.extend(exits)
        took = self.st.facts.known(("took", inst))
        if took is not None:
            if took == "none":
                opts = [o for o in opts if o is None]
            else:
                opts = [o for o in opts if o is not None and self.canon_body(L, L.bodies[o[0]]) == took]
        if not opts:
            raise Infeasible()
        o = opts[self.choose(len(opts))] if len(opts) > 1 else opts[0]
        ev0 = list(st0.events)
        frame, depth = self.frame, self.depth
        self.line = line
        lev = Event("loop", {"rec": L, "exit": None if o is None else o[0]}, self.where(), self.frame.name if self.frame else "")
        if o is None:
            self.st = normal.copy()
            self.st.events = ev0 + [lev]
            self.st.facts.atoms[("took", inst)] = "none"
            if pure and sig is not None:
                self.st.sigs[sig] = inst
            self.post_cells(L, cond, const_true)
            return
        pid, out = o
        self.st = out.st.copy()
        self.st.events = ev0 + [lev] + out.st.events[len(hstate.events) :]
        self.st.facts.atoms[("took", inst)] = self.canon_body(L, L.bodies[pid])
        if pure and sig is not None:
            self.st.sigs[sig] = inst
        self.frame, self.depth = frame, depth
        self.accumulated(L)
        if out.exit == "break":
            if coll is not None:
                raise BreakEx(out.val)
            return
        if out.exit == "return":
            raise ReturnEx(out.val)
        if out.exit == "throw":
            raise ThrowEx(*out.val)
        if out.exit == "crash":
            raise CrashEx(out.val)

    def sure_hit(self, L):
        """the loop goes on past an element only if it is not one that the collection is known to hold"""
        if L.coll is None or L.sym is None:
            return False
        el = at(L.coll, L.sym)
        for x in self.hooks.members(self, L.coll):
            if all(b.exit != "next" or b.st.facts.q_eq(el, x) is False for b in L.bodies):
                return True
        return False

    def invalidated(self, s, b, loc, ix, el):
        """an iteration of a range-for that goes on to the next element after invalidating its own iterator"""
        ty = strip_type(s.get("rty", ""))
        out = []
        for e in b.events:
            if e.kind != "cm" or e.d.get("loc") != loc:
                continue
            op = e.d["op"]
            if tmpl_name(ty) in ("std::vector", "std::deque"):
                hit = op in ("erase", "insert", "push_back", "push_front", "clear", "pop_front", "insert_range", "erase_range")
            elif tmpl_name(ty) == "std::list":
                hit = op == "clear" or (op == "erase" and (e.d.get("pos") == ix or e.d.get("val") == el)) or (op == "remove" and e.d.get("val") == el)
            else:
                hit = op == "clear" or (op == "map-erase" and e.d.get("key") == el)
            if hit:
                out.append(Event("hazard", {"why": "a container is modified while a loop goes over it", "term": el}, e.where, e.fn))
        return out

    def rename_loop(self, L, exits, hstate, normal, new, old):
        """the summary of a repeated search, in terms of the first search's index"""
        m = {("ix", new): ("ix", old)}
        L2 = LoopRec()
        L2.__dict__.update(L.__dict__)
        L2.inst, L2.sym = old, ("ix", old)
        L2.bodies = []
        ex2 = []
        for b in L.bodies:
            c = Body()
            c.pid, c.exit, c.val = b.pid, b.exit, subst(b.val, m) if isinstance(b.val, tuple) else b.val
            c.events = [self.subst_event(e, m) for e in b.events]
            c.facts = {self.subst_fact(k, m): v for k, v in b.facts.items()}
            c.st = b.st
            L2.bodies.append(c)
        for pid, o in exits:
            try:
                st = self.rename_state(o.st, m)
            except Infeasible:
                continue
            v = o.val
            if isinstance(v, tuple):
                v = tuple(subst(x, m) if isinstance(x, tuple) else x for x in v)
            ex2.append((pid, Out(st, o.exit, v)))
        return L2, ex2, hstate, normal

    def rename_state(self, st, m):
        n = st.copy()
        n.store = {subst(k, m): subst(v, m) for k, v in st.store.items()}
        f = Facts()
        for k, v in st.facts.atoms.items():
            nk = tuple(subst(x, m) if isinstance(x, tuple) else x for x in k)
            if f.atoms.get(nk, v) != v:
                raise Infeasible()
            f.atoms[nk] = v
        for k, v in st.facts.bnd.items():
            f.bnd[tuple((subst(t, m), c) for t, c in k)] = v
        for k, v in st.facts.neq.items():
            f.neq[tuple((subst(t, m), c) for t, c in k)] = v
        for k, v in st.facts.eqc.items():
            f.eqc[subst(k, m)] = v
        n.facts = f
        n.events = [self.subst_event(e, m) for e in st.events]
        return n

    def quiet(self, events):
        return all(e.kind in ("maybe-null", "touch", "loop", "atomic-load") for e in events)

    def canon_body(self, L, b):
        m = {("ix", L.inst): ("ix", "*")}
        return frozenset((self.subst_fact(k, m), v) for k, v in b.facts.items() if not (k[0] == "atom" and k[1][0] == "took"))

    def canon_bodies(self, L):
        return frozenset((b.exit == "next", self.canon_body(L, b)) for b in L.bodies)

    def fixpoint(self, s, inst, st0, cond, body, coll, loc_, base, ismap, cval, const_true, skip):
        ixs = ("ix", inst)
        cells = {}  # (root, steps) -> label
        invs = None
        L = None
        locks = {}
        keyinv = lambda t: not contains(t, lambda x: x[0] in ("ix", "phi") and x[1] == inst)

        def one_iteration():
            if coll is not None:
                if not ismap:
                    self.st.facts.set_lt(ixs, size_of(coll), True)
                    el = self.generic_elem(coll, ixs, inst)
                    if loc_ is not None and el == at(coll, ixs):
                        eloc = (loc_[0], loc_[1] + (("i", add(base, ixs) if base != N(0) else ixs),))
                        # element locations must read as the element term
                        if self.read(eloc) != el:
                            eloc = self.tmp(el)
                    else:
                        eloc = self.tmp(el)
                else:
                    self.st.facts.set_lt(ixs, size_of(coll), True)
                    k = ("ky", coll, ixs)
                    for kk in skip:
                        self.st.facts.set_eq(k, kk, False)
                    self.st.facts.set_atom(("nz", ("has", coll, k)), True)
                    if loc_ is not None and cval[0] != "map" or (cval is not None and cval[0] == "map" and not cval[3]):
                        eloc = (loc_[0], loc_[1] + (("e", k),))
                    else:
                        eloc = self.tmp(rec("std::pair", {"first": k, "second": ("mgx", coll, ixs)}))
                body(eloc)
            else:
                if not const_true:
                    if not cond():
                        raise LoopDone()
                before = [self.val(r) for c, r in flags]
                body()
                # a flag of the loop's condition that this iteration sets ends the loop here
                for (c, r), v in zip(flags, before):
                    if self.val(r) != v and not self.cond(c):
                        raise BreakEx(None)

        flags = self.flags_of(s.get("c")) if coll is None and not const_true and s.get("k") in ("for", "while") else []
        steering = names_in(s.get("c")) if coll is None else ()
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12:
                raise Limit("loop at line %s does not stabilise" % s.get("L"))
            h = st0.copy()
            self.st = h
            phis = {}
            for (root, steps), label in sorted(cells.items(), key=lambda c: (str(c[0][0][-1]).split(":")[-1] not in steering, repr(c))):
                old = self.read((root, steps))
                phi = ("phi", inst, label)
                if old[0] == "it" and locks.get((root, steps), True):
                    # iterators that move together: tried until an iteration moves one without the other
                    lead = None
                    if coll is not None and not skip:
                        lead = ixs
                    elif coll is None:
                        for c1, (o1, p1) in phis.items():
                            if o1[0] == "it" and o1[1:3] != old[1:3] and c1 not in locks and self.steps_known(o1) and self.steps_known(old):
                                lead = sub(p1, o1[3])
                                break
                    if lead is not None and self.steps_known(old):
                        phi = add(old[3], lead)
                        locks[(root, steps)] = (lead, phi)
                if old[0] == "it":
                    nv = ("it", old[1], old[2], phi)
                else:
                    nv = phi
                phis[(root, steps)] = (old, phi)
                oldev = len(h.events)
                self.write((root, steps), nv, quiet=True)
            if invs is None or rounds == 1:
                invs = {}
            for (cell, (old, phi)) in phis.items():
                if cell in invs and any(p != phi for _, p, _ in invs[cell]):
                    del invs[cell]
                if cell not in invs:
                    invs[cell] = self.candidate_invariants(old, phi)
                    # a counter that starts as the size of a container that changes as well
                    if old[0] in ("size", "lin") or old[0] == "n":
                        for c2, (old2, phi2) in phis.items():
                            if c2 != cell and old2[0] not in ("it", "n", "b", "str") and old == size_of(old2):
                                invs[cell].append(("sz", phi, c2))
            for cell in list(invs):
                for inv in invs[cell]:
                    try:
                        self.assume_inv(inv)
                    except Infeasible:
                        pass
            hstate = self.st.copy()
            self.st = hstate.copy()
            outer = self.ch.key + (tuple(self.ch.trail), self.ch.sub) if self.ch is not None else ()
            outs = self._explore(one_iteration, outer + ("fix", inst, rounds))
            self.st = hstate.copy()
            changed = False
            # which cells do continuing iterations modify?
            for o in outs:
                if o.exit != "next":
                    continue
                for cell in self.diff_states(hstate, o.st, inst, keyinv, ixs, coll):
                    if cell[2] == "elem":
                        continue
                    c = (cell[0], cell[1])
                    if c not in cells and not self.covered(c, cells):
                        # a coarser cell replaces finer ones
                        for k in [k for k in cells if k[0] == c[0] and k[1][: len(c[1])] == c[1]]:
                            del cells[k]
                            invs.pop(k, None)
                        cells[c] = self.cell_label(c)
                        changed = True
            for c in [c for c, lk in locks.items() if lk and c in phis]:
                lead, phi = locks[c]
                nxt = {ixs: add(ixs, N(1))} if coll is not None else None
                for o in outs:
                    if o.exit != "next":
                        continue
                    save, self.st = self.st, o.st
                    v = self.read(c)
                    m = nxt if nxt is not None else {p1: (self.read(c1)[3] if self.read(c1)[0] == "it" else NPOS) for c1, (o1, p1) in phis.items() if p1[0] == "phi" and o1[0] == "it"}
                    self.st = save
                    if v[0] != "it" or v[1:3] != phis[c][0][1:3] or v[3] != subst(phi, m):
                        locks[c] = None
                        changed = True
                        break
            # are the candidate invariants inductive?
            for cell in list(invs):
                if cell not in cells:
                    continue
                keep = []
                for inv in invs[cell]:
                    ok = True
                    for o in outs:
                        if o.exit != "next":
                            continue
                        if not self.inv_holds(inv, cell, phis, o.st):
                            ok = False
                            break
                    if ok:
                        keep.append(inv)
                if len(keep) != len(invs[cell]):
                    invs[cell] = keep
                    changed = True
            if not changed:
                break
        # build the record
        L = LoopRec()
        L.inst = inst
        L.line = s.get("L", 0)
        L.fn = self.frame.name if self.frame else ""
        L.file = self.frame.fn.get("file", "?") if self.frame and self.frame.fn else "?"
        L.coll = coll
        L.ismap = ismap
        L.sym = ixs if coll is not None else None
        L.start = N(0)
        exits = []
        hf = hstate.facts
        for pid, o in enumerate(outs):
            b = Body()
            b.pid = pid
            b.exit = o.exit
            b.val = o.val
            b.st = o.st
            b.events = o.st.events[len(hstate.events) :]
            b.facts = self.facts_delta(hf, o.st.facts)
            L.bodies.append(b)
            if b.exit == "next" and s.get("k") == "rangefor" and loc_ is not None:
                b.events = b.events + self.invalidated(s, b, loc_, ixs, ("ky", coll, ixs) if ismap else at(coll, ixs))
            if o.exit != "next":
                exits.append((pid, o))
        for (root, steps), label in cells.items():
            if locks.get((root, steps)):
                continue
            old, phi = phis[(root, steps)]
            L.cells[label] = self.describe_cell((root, steps), label, old, phi, outs)
        L.elems = {}
        for pid, o in enumerate(outs):
            if o.exit == "next":
                for cell in self.diff_states(hstate, o.st, inst, keyinv, ixs, coll):
                    if cell[2] == "elem":
                        L.elems.setdefault((cell[0], cell[1]), {})[pid] = cell[3]
        # normal exit
        normal = None
        if not const_true:
            normal = hstate.copy()
            if coll is not None:
                self.at_end([c for c in locks if locks[c]], normal, {ixs: size_of(coll)})
        if coll is None:
            self.find_cursor(L, hstate, s)
            if normal is not None and L.coll is not None and L.sym is not None and L.sym[0] == "phi" and L.start == N(0):
                L.locked = [c for c in locks if locks[c]]
                exits, normal = self.as_range(L, s, exits, hstate, normal)
        L.hstate = hstate
        return L, exits, hstate, normal

    def flags_of(self, c):
        """conjuncts of a loop's condition that only test a local variable: [(conjunct, variable)]"""
        if not isinstance(c, dict):
            return []
        if c["k"] in ("paren",):
            return self.flags_of(c["e"])
        if c["k"] == "bin" and c["op"] == "&&":
            return self.flags_of(c["l"]) + self.flags_of(c["r"])
        e = c
        while e["k"] == "paren" or (e["k"] == "un" and e["op"] == "!") or (e["k"] == "cast" and e.get("ty") == "bool"):
            e = e["e"]
        if e["k"] == "bin" and e["op"] in ("==", "!="):
            for a, b in ((e["l"], e["r"]), (e["r"], e["l"])):
                if b["k"] in ("bool", "null"):
                    e = a
                    break
        if e["k"] == "call" and e.get("op") in ("==", "!=") and len(e.get("args") or []) == 2:
            for a, b in (e["args"], e["args"][::-1]):
                if b and b["k"] == "null":
                    e = a
                    break
        elif e["k"] == "call" and (e.get("fn") or {}).get("n") == "operator bool" and e.get("obj"):
            e = e["obj"]
        if e["k"] == "ref" and (strip_type(e.get("ty", "")) == "bool" or re.match(r"std::(shared|unique)_ptr<|.*\*$", strip_type(e.get("ty", "")))):
            return [(c, e)]
        return []

    def cell_label(self, c):
        root, steps = c
        r = root[-1] if root[0] in ("v", "g") else show_root(root)
        r = str(r).split(":")[-1] if root[0] == "v" else r
        return "%s%s" % (r, show_steps(steps))

    def covered(self, c, cells):
        for k in cells:
            if k[0] == c[0] and c[1][: len(k[1])] == k[1]:
                return True
        return False

    def facts_delta(self, a, b):
        d = {}
        for k, v in b.atoms.items():
            if a.atoms.get(k) != v:
                d[("atom", k)] = v
        for k, v in b.bnd.items():
            if a.bnd.get(k) != v:
                d[("bnd", k)] = v
        for k, v in b.neq.items():
            if a.neq.get(k) != v:
                d[("neq", k)] = v
        return d

    def import_facts(self, delta, m):
        f = self.st.facts
        for (k, key), v in delta.items():
            if k == "atom":
                if key[0] == "took":
                    continue
                nk = tuple(subst(x, m) if isinstance(x, tuple) else x for x in key)
                if nk[0] == "eq":
                    f.set_eq(nk[1], nk[2], v)
                elif nk[0] == "nz":
                    q = f.q(nk[1])
                    if q is not None and q != v:
                        raise Infeasible()
                    f.atoms[nk] = v
            elif k == "bnd":
                t = subst(mk_lin(0, dict(key)), m)
                f.tighten(t, v[0], v[1])
            elif k == "neq":
                t = subst(mk_lin(0, dict(key)), m)
                for x in v:
                    f.set_eqi(t, N(x), False)

    def generic_elem(self, coll, ix, inst):
        """the generic element of a collection; collections built by earlier loops expand into what was put in"""
        k = coll[0]
        if k == "acc":
            L = self.loops.get(coll[1])
            opts = [(pid, it) for pid, items in coll[3] for it in items]
            if L is not None and opts:
                i = self.choose(len(opts)) if len(opts) > 1 else 0
                pid, it = opts[i]
                if it[0] != "one":
                    return at(coll, ix)
                m = {L.sym: ix} if L.sym is not None else {}
                v = subst(it[1], m)
                b = L.bodies[pid]
                self.import_facts(b.facts, m)
                self.st.facts.atoms[("from", inst, coll[1])] = pid
                return v
        if k == "emap":
            L = self.loops.get(coll[2])
            opts = list(coll[3])
            if L is not None and opts:
                i = self.choose(len(opts)) if len(opts) > 1 else 0
                pid, v = opts[i]
                m = {L.sym: ix} if L.sym is not None else {}
                self.import_facts(L.bodies[pid].facts, m)
                self.st.facts.atoms[("from", inst, coll[2])] = pid
                return subst(v, m) if v is not None else at(coll[1], ix)
        if k == "filt":
            L = self.loops.get(coll[2])
            if L is not None and coll[3]:
                i = self.choose(len(coll[3])) if len(coll[3]) > 1 else 0
                pid = coll[3][i]
                el = self.generic_elem(coll[1], ix, inst)
                m = {L.sym: ix}
                self.import_facts(L.bodies[pid].facts, m)
                return el
        if k == "without":
            el = self.generic_elem(coll[1], ix, inst)
            self.st.facts.set_eq(el, coll[2], False)
            return el
        if k == "slice":
            inner = coll[1]
            if inner[0] in ("acc", "emap", "filt", "without"):
                return self.generic_elem(inner, add(coll[2], ix), inst)
        return at(coll, ix)

    def diff_states(self, a, b, inst, keyinv, ixs, coll):
        """cells of the outer state that differ: [(root, steps, kind, value)]"""
        out = []
        for root, bv in b.store.items():
            av = a.store.get(root)
            if av is None:
                if root[0] == "p" and keyinv(root[1]) and not contains(root[1], lambda x: x[0] == "ptr" and False):
                    if self.born_inside(root[1], a, b):
                        continue
                    av = ("drf", root[1])
                elif root in self.const_statics:
                    continue
                elif root[0] == "g":
                    av = self.default(root)
                else:
                    continue
            if av is bv or av == bv:
                continue
            self.diff_vals(av, bv, root, (), out, inst, keyinv, ixs, a)
        return out

    def born_inside(self, t, a, b):
        # symbols created during the iteration (boundary results) are numbered; compare counters
        def fresh_sym(x):
            if x[0] == "sym" and isinstance(x[1], str) and "#" in x[1]:
                try:
                    name, n = x[1].rsplit("#", 1)
                    return int(n) > a.ctr.get("sym:" + name, 0)
                except ValueError:
                    return False
            return False

        return contains(t, fresh_sym)

    def diff_vals(self, a, b, root, steps, out, inst, keyinv, ixs, astate):
        if a == b:
            return
        if b[0] == "rec" and (a[0] == "rec" or b[3] == a or (a[0] != "rec" and b[3] is not None)):
            fs = {f for f, _ in b[2]} | ({f for f, _ in a[2]} if a[0] == "rec" else set())
            if b[1].startswith("std::pair") and a[0] != "rec":
                out.append((root, steps, "cell", b))
                return
            for f in sorted(fs):
                self.diff_vals(fld(a, f), fld(b, f), root, steps + (("f", f),), out, inst, keyinv, ixs, astate)
            return
        if b[0] == "upd" and b[1] == a and mentions(b[2], ixs):
            out.append((root, steps, "elem", b[3]))
            return
        if b[0] == "map":
            am = a if a[0] == "map" else ("map", a, (), b[3])
            if am[1] == b[1] and not b[3]:
                akeys = dict(am[2])
                bkeys = dict(b[2])
                diff = []
                ok = True
                for k in list(bkeys) + [k for k in akeys if k not in bkeys]:
                    x, y = akeys.get(k), bkeys.get(k)
                    if x == y:
                        continue
                    if x is None:
                        x = ("mg", am[1], k) if am[1] != ("empty",) else None
                    if y is None:
                        y = ("mg", b[1], k) if b[1] != ("empty",) else None
                    if x == y:
                        continue
                    if not keyinv(k) or self.born_inside(k, astate, None) or x is None or y is None or y == DEL or x == DEL:
                        ok = False
                        break
                    diff.append((k, x, y))
                if ok:
                    for k, x, y in diff:
                        self.diff_vals(x, y, root, steps + (("e", k), ("f", "second")), out, inst, keyinv, ixs, astate)
                    return
        out.append((root, steps, "cell", b))

    def candidate_invariants(self, old, phi):
        inv = []
        if old[0] == "it":
            pos = old[3]
            if pos[0] in ("key",):
                return []
            c = self.read((old[1], old[2]))
            sz = size_of(c) if c[0] != "map" else size_of(self.as_map(c))
            inv = [("ge", phi, pos), ("le", phi, sz), ("lt", phi, sz)]
            # other iterators into the same container
            for root, v in list(self.st.store.items()):
                if root[0] == "v" and self.frame is not None and root[1] == self.frame.fid and v[0] == "it" and v[1:3] == old[1:3]:
                    o = v[3]
                    if o not in (pos, phi, sz) and o[0] not in ("key", "after") and not contains(o, lambda t: t and t[0] in ("phi", "ix") and t[1] == phi[1]):
                        inv.append(("le", phi, o))
        elif old[0] in ("n", "lin", "size", "ap", "fld", "sum") or (old[0] == "phi"):
            inv = [("ge", phi, old), ("le", phi, old)]
            if old[0] in ("n",):
                inv.append(("ge", phi, N(0)))
                # index counters: bounded by the sizes in scope
                for sz in self.sizes_in_scope():
                    inv.append(("le", phi, sz))
                    inv.append(("lt", phi, sz))
        # must hold on entry
        out = []
        if old[0] == "resized":
            out.append(("csz", phi, size_of(old)))
        if old[0] == "b":
            out.append(("is", phi, old))
        elif old == NULL:
            out.append(("is", phi, FALSE))
        for k, p, v in inv:
            e = old[3] if old[0] == "it" else old
            if k == "ge" and self.st.facts.q_lt(e, v) is False:
                out.append((k, p, v))
            if k == "le" and self.st.facts.q_lt(v, e) is False:
                out.append((k, p, v))
            if k == "lt" and self.st.facts.q_lt(e, v) is True:
                out.append((k, p, v))
        return out

    def sizes_in_scope(self):
        out = []
        for root, v in list(self.st.store.items()):
            if root[0] == "v" and self.frame is not None and root[1] == self.frame.fid:
                if v[0] == "alias":
                    try:
                        v = self.read((v[1], v[2]))
                    except Exception:
                        continue
                if v[0] in ("sym", "fld", "slice", "seq", "ap", "acc"):
                    s = size_of(v)
                    if s[0] != "n" and s not in out:
                        out.append(s)
        return out[:6]

    def assume_inv(self, inv):
        k, p, v = inv
        if k == "sz":
            v = size_of(self.read(v))
            self.st.facts.set_lt(p, v, False)
            self.st.facts.set_lt(v, p, False)
        elif k == "csz":
            self.st.facts.set_eqi(size_of(p), v, True)
        elif k == "is":
            self.st.facts.assume(p, v[1])
        elif k == "ge":
            self.st.facts.set_lt(p, v, False)
        elif k == "le":
            self.st.facts.set_lt(v, p, False)
        else:
            self.st.facts.set_lt(p, v, True)

    def inv_holds(self, inv, cell, phis, st):
        k, p, v = inv
        save = self.st
        self.st = st
        try:
            nv = self.read(cell)
            if k == "sz":
                v = size_of(self.read(v))
                return nv == v or (st.facts.q_lt(nv, v) is False and st.facts.q_lt(v, nv) is False)
        finally:
            self.st = save
        if nv[0] == "it":
            nv = nv[3]
        f = st.facts
        if k == "csz":
            return size_of(nv) == v or f.q_eqi(size_of(nv), v) is True
        if k == "is":
            return (nv[1] if nv[0] == "b" else False if nv == NULL else f.q(nv)) == v[1]
        if k == "ge":
            return f.q_lt(nv, v) is False
        if k == "le":
            return f.q_lt(v, nv) is False
        return f.q_lt(nv, v) is True

    def describe_cell(self, cell, label, old, phi, outs):
        """how iterations change a cell: append / prepend / add / set / map / other, per body path"""
        per = {}
        kinds = set()
        for pid, o in enumerate(outs):
            if o.exit != "next":
                continue
            save = self.st
            self.st = o.st
            try:
                v = self.read(cell)
            finally:
                self.st = save
            if v == phi or (v[0] == "it" and v[3] == phi):
                per[pid] = ("same",)
                continue
            if v[0] == "it":
                d = sub(v[3], phi)
                per[pid] = ("add", d) if not mentions(d, phi) else ("other", v)
                kinds.add(per[pid][0])
                continue
            if v[0] == "seq":
                ps = v[1]
                idx = [i for i, p in enumerate(ps) if p == ("all", phi)]
                if len(idx) == 1 and not any(mentions(p, phi) for i, p in enumerate(ps) if i != idx[0]):
                    pre, post = ps[: idx[0]], ps[idx[0] + 1 :]
                    if not pre:
                        per[pid] = ("append", post)
                        kinds.add("append")
                        continue
                    if not post:
                        per[pid] = ("prepend", pre)
                        kinds.add("prepend")
                        continue
            if v[0] == "slice" and v[1] == phi and v[2] == N(1) and v[3] == size_of(phi):
                per[pid] = ("popfront",)
                kinds.add("popfront")
                continue
            if v[0] == "slice" and v[1] == phi and v[2] == N(0) and v[3] == sub(size_of(phi), N(1)):
                per[pid] = ("popback",)
                kinds.add("popback")
                continue
            if v[0] == "erase" and v[1] == phi:
                per[pid] = ("erase", v[2])
                kinds.add("erase")
                continue
            if v[0] == "map" and v[1] == phi:
                per[pid] = ("map", v[2])
                kinds.add("map")
                continue
            if v[0] == "cat" and v[1][0] == phi and not any(mentions(p, phi) for p in v[1][1:]):
                per[pid] = ("catappend", v[1][1:])
                kinds.add("catappend")
                continue
            if v[0] == "lin" or (v[0] in ("n",) and old[0] == "never"):
                d = sub(v, phi)
                if not mentions(d, phi):
                    per[pid] = ("add", d)
                    kinds.add("add")
                    continue
            if not mentions(v, phi):
                per[pid] = ("set", v)
                kinds.add("set")
                continue
            per[pid] = ("other", v)
            kinds.add("other")
        return {"cell": cell, "old": old, "phi": phi, "per": per, "kinds": kinds}

    def as_range(self, L, s, exits, hstate, normal):
        """a loop whose index or iterator runs from the first to the last element of a collection is the same as a
        loop over the elements"""
        lab = [k for k, c in L.cells.items() if c["phi"] == L.sym][0]
        c = L.cells[lab]
        if self.simple_cond(s, hstate) is None or any(e.kind == "loop" for b in L.bodies for e in b.events):
            return exits, normal
        if contains(L.coll, lambda x: x and x[0] == "phi" and x[1] == L.inst):
            return exits, normal
        if any(b.st.facts.q_lt(L.sym, size_of(L.coll)) is not True for b in L.bodies if b.exit != "next"):
            return exits, normal
        phi, ix = L.sym, ("ix", L.inst)
        m = {phi: ix}

        def sb(x):
            return subst(x, m) if isinstance(x, tuple) else x

        try:
            ex2 = []
            for pid, o in exits:
                v = o.val
                if isinstance(v, tuple):
                    v = tuple(sb(x) for x in v) if v and isinstance(v[0], tuple) or o.exit == "throw" else sb(v)
                ex2.append((pid, Out(self.rename_state(o.st, m), o.exit, v)))
            sts = [self.rename_state(b.st, m) for b in L.bodies]
        except Infeasible:
            return exits, normal
        by = dict(ex2)
        for b, st in zip(L.bodies, sts):
            b.st = by[b.pid].st if b.pid in by else st
            b.val = by[b.pid].val if b.pid in by else b.val
            b.events = [self.subst_event(e, m) for e in b.events]
            b.facts = {self.subst_fact(k, m): v for k, v in b.facts.items()}
        del L.cells[lab]
        for cc in L.cells.values():
            cc["per"] = {pid: tuple(sb(x) for x in p) for pid, p in cc["per"].items()}
        L.elems = {(r, tuple(sb(x) for x in st)): {pid: sb(v) for pid, v in per.items()} for (r, st), per in L.elems.items()}
        L.sym = ix
        n = normal.copy()
        for d in (n.facts.bnd, n.facts.neq):
            for k in [k for k in d if any(mentions(t, phi) for t, _ in k)]:
                del d[k]
        end = size_of(L.coll)
        save, self.st = self.st, n
        old = self.read(c["cell"])
        self.write(c["cell"], ("it", old[1], old[2], end) if old[0] == "it" else end, quiet=True)
        n = self.st
        self.st = save
        self.at_end(L.locked, n, {phi: end})
        return ex2, n

    def at_end(self, cells, st, m):
        save, self.st = self.st, st
        for c in cells:
            self.write(c, subst(self.read(c), m), quiet=True)
        self.st = save

    def steps_known(self, it):
        return it[3][0] not in ("key", "after")

    def conjuncts(self, e):
        while e.get("k") in ("cast", "paren"):
            e = e["e"]
        if e.get("k") == "bin" and e.get("op") == "&&":
            return self.conjuncts(e["l"]) + self.conjuncts(e["r"])
        return [e]

    def flag_kept(self, c, hstate):
        if hstate is None or not self.flags_of(c):
            return False
        save, self.st = self.st, hstate.copy()
        try:
            r = self.flags_of(c)[0][1]
            v = self.val(r)
            q = v[1] if v[0] == "b" else False if v == NULL else self.st.facts.q(v)
        finally:
            self.st = save
        if q is None:
            return False
        # polarity: the conjunct has to hold
        n = 0
        e = c
        while e["k"] in ("paren", "cast") or (e["k"] == "un" and e["op"] == "!"):
            n += e["k"] == "un"
            e = e["e"]
        lits = []
        if e["k"] == "bin" and e["op"] in ("==", "!="):
            n += e["op"] == "!="
            lits = [x for x in (e["l"], e["r"]) if x["k"] in ("bool", "null")]
        elif e["k"] == "call" and e.get("op") in ("==", "!="):
            n += e["op"] == "!="
            lits = [x for x in e["args"] if x and x["k"] == "null"]
        if lits:
            n += lits[0]["k"] == "null" or not lits[0].get("v")
        return q == (n % 2 == 0)

    def simple_cond(self, s, hstate=None):
        e = s.get("c") if s is not None else None
        while e is not None and e.get("k") in ("cast", "paren"):
            e = e["e"]
        if e is None:
            return None
        if e.get("k") == "bin" and e.get("op") == "&&":
            # flags that no continuing iteration changes, known to be set, say nothing
            rest = [x for x in self.conjuncts(e) if not self.flag_kept(x, hstate)]
            if len(rest) == 1:
                return self.simple_cond({"c": rest[0]})
        if e.get("k") == "bin" and e.get("op") in ("<", ">", "!="):
            return e
        if e.get("k") == "call":
            f = e.get("fn") or {}
            if f.get("n") in ("operator!=", "operator<", "operator>"):
                return e
        return None

    def indexed(self, L, s, hstate=None):
        """the collection an integer cursor runs through: 'cursor < size(coll)' is all the loop's condition says"""
        if s is not None and s.get("k") in ("while", "for", "do") and (s.get("c") is None or self.const_true(s["c"])):
            # no condition: the bodies that go on say what the cursor stays below
            return self.bounded_by(L, {"next"})
        if self.simple_cond(s, hstate) is None:
            return None
        return self.bounded_by(L)

    def bounded_by(self, L, exits=None):
        colls = None
        for b in L.bodies:
            if exits is not None and b.exit not in exits:
                continue
            mine = {}
            for key, (lo, hi) in b.st.facts.bnd.items():
                if len(key) == 2 and (L.sym, 1) in key and hi <= -1:
                    t = [x for x in key if x != (L.sym, 1)][0]
                    if t[1] == -1 and t[0][0] == "size":
                        mine[t[0][1]] = hi
            colls = mine if colls is None else {c: max(h, mine[c]) for c, h in colls.items() if c in mine}
        colls = {c: h for c, h in (colls or {}).items() if not contains(c, lambda x: x and x[0] == "phi" and x[1] == L.inst)}
        if len(colls) != 1:
            return None
        c, hi = list(colls.items())[0]
        # collections of the same size: the one whose elements are used
        used = set()
        for b in L.bodies:
            for k in b.facts:
                self.elements_at(k, L.sym, used)
            for e in b.events:
                for v in e.d.values():
                    self.elements_at(v, L.sym, used)
        used = {u for u in used if u != c and size_of(u) == size_of(c) and not contains(u, lambda x: x and x[0] == "phi" and x[1] == L.inst)}
        if len(used) == 1:
            c = used.pop()
        if hi == -1:
            return c
        # 'cursor + k < size': all but the last k elements, if there are that many
        k = -1 - hi
        if hi == -float("inf") or not L.bodies or L.bodies[0].st.facts.bounds(size_of(c))[0] < k:
            return None
        return mk_slice(c, N(0), sub(size_of(c), N(k)))

    def elements_at(self, t, sym, out):
        if isinstance(t, (tuple, frozenset, list)):
            if isinstance(t, tuple) and len(t) == 3 and t[0] == "at" and t[2] == sym:
                out.add(t[1])
            for x in t:
                self.elements_at(x, sym, out)

    def find_cursor(self, L, hstate, s=None):
        """an index or iterator that moves by one in every continuing iteration"""
        for label, c in L.cells.items():
            if c["kinds"] == {"add"} and all(p == ("add", N(1)) for p in c["per"].values()):
                old = c["old"]
                if old[0] == "it":
                    save = self.st
                    self.st = hstate
                    try:
                        coll = self.read((old[1], old[2]))
                    finally:
                        self.st = save
                    if L.sym is None:
                        L.sym, L.coll, L.start = c["phi"], coll, old[3]
                elif L.sym is None:
                    L.sym, L.start = c["phi"], old
                    L.coll = self.indexed(L, s, hstate)
        for label, c in L.cells.items():
            if c["kinds"] == {"popfront"} and all(p == ("popfront",) for p in c["per"].values()):
                # draining loop: its elements are those of the initial container
                if L.sym is None:
                    L.coll = c["old"]
                    L.sym = ("ix", L.inst)
                    L.start = N(0)
                    L.drain = label
                    m = {("at", c["phi"], N(0)): at(c["old"], L.sym)}
                    for b in L.bodies:
                        b.events = [self.subst_event(e, m, True) for e in b.events]
                        if b.exit == "next":
                            try:
                                b.st = self.rename_state(b.st, m)
                            except Infeasible:
                                pass
                        b.facts = {self.subst_fact(k, m): v for k, v in b.facts.items()}
                    for lb, cc in L.cells.items():
                        if lb != label:
                            cc["per"] = {
                                pid: tuple(subst(x, m) if isinstance(x, tuple) else x for x in p)
                                for pid, p in cc["per"].items()
                            }

    def subst_event(self, e, m, deep=False):
        d = {}
        for k, v in e.d.items():
            d[k] = subst(v, m) if isinstance(v, tuple) else v
        if deep and e.kind == "loop":
            d["rec"] = self.subst_loop(d["rec"], m)
        return Event(e.kind, d, e.where, e.fn)

    def subst_loop(self, L, m):
        """a loop inside another one, in other terms"""

        def sb(x):
            if isinstance(x, dict):
                return {sb(k): sb(v) for k, v in x.items()}
            return subst(x, m) if isinstance(x, tuple) else x

        N2 = LoopRec()
        N2.__dict__.update(L.__dict__)
        N2.coll, N2.start = sb(L.coll), sb(L.start)
        N2.cells = {k: {kk: (vv if kk == "kinds" else sb(vv)) for kk, vv in c.items()} for k, c in L.cells.items()}
        N2.elems = {sb(k): {pid: sb(v) for pid, v in per.items()} for k, per in L.elems.items()}
        N2.bodies = []
        for b in L.bodies:
            c = Body()
            c.pid, c.exit, c.val = b.pid, b.exit, sb(b.val)
            c.events = [self.subst_event(e, m, True) for e in b.events]
            c.facts = {self.subst_fact(k, m): v for k, v in b.facts.items()}
            try:
                c.st = self.rename_state(b.st, m)
            except Infeasible:
                c.st = b.st
            N2.bodies.append(c)
        if self.loops.get(L.inst) is L:
            self.loops[L.inst] = N2
        return N2

    def subst_fact(self, key, m):
        k, a = key
        if k == "atom":
            return (k, tuple(subst(x, m) if isinstance(x, tuple) else x for x in a))
        if k == "bnd" or k == "neq":
            return (k, tuple((subst(t, m), c) for t, c in a))
        return key

    def accumulated(self, L):
        """a sequence that only grew when the loop was left early"""
        m = {}
        for label, c in L.cells.items():
            if c["kinds"] == {"append"}:
                items = tuple((pid, p[1]) for pid, p in sorted(c["per"].items()) if p[0] == "append")
                m[c["phi"]] = mk_seq(parts_of(c["old"]) + (("all", ("acc", L.inst, label, items)),))
        if m:
            for r, v in list(self.st.store.items()):
                if any(mentions(v, p) for p in m):
                    self.st.store[r] = subst(v, m)

    def post_cells(self, L, cond, const_true):
        """state after the loop ran to its normal end"""
        st = self.st
        # the condition is false now
        if cond is not None and not const_true:
            if cond():
                raise Infeasible()
        imported = {}
        ran, never = set(), set()  # kinds of iterations that took place at least once / not at all
        for label, c in L.cells.items():
            cell, old, phi, per, kinds = c["cell"], c["old"], c["phi"], c["per"], c["kinds"]
            if kinds == {"append"}:
                items = tuple((pid, p[1]) for pid, p in sorted(per.items()) if p[0] == "append")
                acc = self.simplify_acc(L, label, items, per)
                self.write(cell, mk_seq(parts_of(old) + (("all", acc),)), quiet=True)
            elif kinds == {"prepend"}:
                items = tuple((pid, p[1]) for pid, p in sorted(per.items()) if p[0] == "prepend")
                self.write(cell, mk_seq((("all", ("acc", L.inst, label + "^", items)),) + parts_of(old)), quiet=True)
            elif kinds == {"add"}:
                if L.sym == phi or old[0] == "it":
                    continue
                # counters that also steer the loop keep their symbol
                items = tuple((pid, p[1]) for pid, p in sorted(per.items()) if p[0] == "add")
                if self.st.facts.bnd.get(((phi, 1),)) and self.st.facts.bounds(phi)[0] == self.st.facts.bounds(phi)[1]:
                    self.write(cell, N(self.st.facts.bounds(phi)[0]), quiet=True)
                    continue
                self.write(cell, add(old, ("sum", L.inst, label, items)), quiet=True)
            elif kinds == {"set"}:
                opts = [None] + [pid for pid, p in sorted(per.items()) if p[0] == "set"]
                if all(p[0] == "set" for p in per.values()) and False:
                    opts = opts[1:]
                vals = []
                # values set by the same iterations go together
                opts = [o for o in opts if o not in never and (o is not None or not any(per.get(x, ("same",))[0] == "set" for x in ran))] or opts
                for o in opts:
                    v = old if o is None else per[o][1]
                    if v not in [x[1] for x in vals]:
                        vals.append((o, v))
                same_as = {v: [o for o in opts if (old if o is None else per[o][1]) == v] for _, v in vals}
                i = self.choose(len(vals)) if len(vals) > 1 else 0
                o, v = vals[i]
                if same_as[v] == [None]:
                    never |= {pid for pid, p in per.items() if p[0] == "set"}
                elif same_as[v] == [o]:
                    ran.add(o)
                if o is not None:
                    self.st.facts.atoms[("some", L.inst, label)] = o
                    # what that iteration knew about the values at its start; a second iteration gets its own index
                    # (the position itself stands at the end by now)
                    m = {x["phi"]: ("phi", L.inst + "'", lb) for lb, x in L.cells.items() if x["phi"] != L.sym or L.sym[0] == "phi"}
                    prev = imported.setdefault("first", o)
                    if prev != o and L.sym is not None and L.sym[0] == "phi":
                        m = {k: ("phi", "%s'%d" % (L.inst, o), x[2]) for k, x in m.items()}
                    if prev != o and L.sym is not None and L.sym[0] == "ix":
                        m[L.sym] = ("ix", "%s'%d" % (L.sym[1], o))
                        m.update({("ky", L.coll, L.sym): ("ky", L.coll, m[L.sym])} if L.coll is not None else {})
                    self.import_facts(L.bodies[o].facts, m)
                    v = subst(v, m)
                else:
                    self.st.facts.atoms[("nomod", L.inst, label)] = True
                self.write(cell, v, quiet=True)
            elif kinds == {"popfront"} or kinds == {"popback"}:
                if self.st.facts.q_eqi(size_of(phi), N(0)) is True:
                    self.write(cell, EMPTYSEQ, quiet=True)
            elif kinds == {"map"}:
                items = tuple((pid, p[1]) for pid, p in sorted(per.items()) if p[0] == "map")
                multi = False
                self.write(cell, ("map", ("accm", L.inst, label, old, items), (), old[3] if old[0] == "map" else False), quiet=True)
            elif kinds == {"catappend"}:
                items = tuple((pid, p[1]) for pid, p in sorted(per.items()) if p[0] == "catappend")
                self.write(cell, cat(old, ("acccat", L.inst, label, items)), quiet=True)
            elif kinds and "erase" in kinds and kinds <= {"erase"}:
                self.write(cell, ("erased", L.inst, label, old), quiet=True)
        for (root, steps), per in L.elems.items():
            cur = self.read((root, steps))
            opts = tuple((b.pid, per.get(b.pid)) for b in L.bodies if b.exit == "next")
            self.write((root, steps), ("emap", cur, L.inst, opts), quiet=True)

    def simplify_acc(self, L, label, items, per):
        """if every iteration of a complete traversal appends exactly its element, the result is the traversed range"""
        if L.coll is not None and L.sym is not None and len(items) == len(per):
            el = at(L.coll, L.sym)
            if all(len(it) == 1 and it[0] == ("one", el) for _, it in items):
                if self.complete(L):
                    return mk_slice(L.coll, L.start, size_of(L.coll))
        return ("acc", L.inst, label, items)

    def complete(self, L):
        """did the loop (ended normally) visit every element from L.start on?"""
        if hasattr(L, "drain"):
            left = size_of(L.cells[L.drain]["phi"])
            return self.st.facts.q_eqi(left, N(0)) is True or self.st.facts.q_lt(N(0), left) is False
        if L.sym[0] == "ix":
            return True
        return self.st.facts.q_eqi(L.sym, size_of(L.coll)) is True
