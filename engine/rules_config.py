"""C22: configuration items reach the settings they name."""
import re

from base import *
from handler import Hooks
from interp import Infeasible, Limit, Out, ReturnEx, BreakEx, ContinueEx, St, ThrowEx, CrashEx
from ir import AnalysisBroken, strip_type
from rules_worker import run
from terms import *
from unit import THIS, Unit

CC = "src/config/broker_config.cpp"
CFG = ("sym", "CFG")
NODE = "YAML::Node"


def node(path, zombie=TRUE):
    return ("ap", "ynode", path, zombie)


def sub_(path, key):
    return ("ap", "ysub", path, key)


def canon(ty):
    t = strip_type(ty or "")
    if "basic_string" in t or t in ("std::string", "string"):
        return "string"
    return {"unsigned short": "uint16", "std::uint16_t": "uint16", "uint16_t": "uint16", "unsigned long": "size", "std::size_t": "size", "size_t": "size", "unsigned long long": "size", "std::uint64_t": "size"}.get(t, t)


class Merging(Hooks):
    """joins the branches of conditions into one partition (values become tables of cases)"""

    def merge_if(self, I, s):
        def go():
            I.exec(s["t"] if I.cond(s["c"]) else s.get("f"))
            return ("V", VOID)

        self.merged(I, go, "if")
        return True

    def merged(self, I, thunk, tag):
        base = I.st
        outs = I.nested(thunk, tag)
        normal = [o for o in outs if o.exit == "next"]
        other = [o for o in outs if o.exit != "next"]
        n = len(other) + (1 if normal else 0)
        if n == 0:
            raise Infeasible()
        k = I.choose(n) if n > 1 else 0
        if normal:
            if k == 0:
                if len(normal) == 1:
                    I.st = normal[0].st.copy()
                    return normal[0].val
                I.st, v = self.join(I, base, normal)
                return v
            k -= 1
        o = other[k]
        I.st = o.st.copy()
        if o.exit == "throw":
            raise ThrowEx(*o.val)
        if o.exit == "return":
            raise ReturnEx(o.val)
        if o.exit == "break":
            raise BreakEx(o.val)
        raise CrashEx(o.val)

    def join(self, I, base, outs):
        st = base.copy()
        ds = [I.facts_delta(base.facts, o.st.facts) for o in outs]
        keys = [tuple(sorted(d.items(), key=repr)) for d in ds]
        common = {k: v for k, v in ds[0].items() if all(d.get(k) == v for d in ds)}
        for o in outs:
            for k, v in o.st.ctr.items():
                st.ctr[k] = max(v, st.ctr.get(k, 0))
            st.notes += [x for x in o.st.notes if x not in st.notes]
            for e in o.st.events[len(base.events):]:
                st.events.append(e)
        for r in set().union(*[o.st.store.keys() for o in outs]):
            vs = [o.st.store.get(r) for o in outs]
            if any(v is None for v in vs):
                vs = [v for v in vs if v is not None]
                st.store[r] = vs[0]
                continue
            st.store[r] = self.join_vals(keys, vs)
        I.st = st
        I.import_facts(common, {})
        vals = [o.val for o in outs]
        v = vals[0]
        if any(x != v for x in vals):
            if all(x is not None and x[0] == "V" for x in vals):
                v = ("V", self.join_vals(keys, [x[1] for x in vals]))
            else:
                raise Limit("references to different objects are joined")
        return st, v

    def join_vals(self, keys, vs):
        if all(v == vs[0] for v in vs):
            return vs[0]
        if all(v[0] == "rec" and v[1] == vs[0][1] and [f for f, _ in v[2]] == [f for f, _ in vs[0][2]] for v in vs):
            return ("rec", vs[0][1], tuple((f, self.join_vals(keys, [dict(v[2])[f] for v in vs])) for f, _ in vs[0][2]))
        return ("cases", tuple(zip(keys, vs)))

    def call_fn(self, I, fn, obj, args, e):
        f = I.prog.fns.get(fn["usr"])
        if f is None or f.get("body") is None or fn["rt"] not in ("void",) or getattr(self, "busy", None) == (fn["usr"], I.depth):
            return NotImplemented
        old = getattr(self, "busy", None)
        self.busy = (fn["usr"], I.depth)
        try:
            return self.merged(I, lambda: I.call_fn(fn, obj, args, e), "call")
        finally:
            self.busy = old


class Yaml(Merging):
    def ctor(self, I, l, e):
        if e["fn"].get("cls") == NODE:
            vals = [I.val(a) for a in e["args"]]
            if len(vals) == 1:
                I.write(l, vals[0], quiet=True)
                return True
        return NotImplemented

    def invalid(self, I, what, kind="InvalidNode"):
        I.event("yerr", what=what)
        raise ThrowEx("YAML::" + kind, ("sym", "yaml-error"), what)

    def is_type(self, I, p, t):
        for o in ("ymap", "yscalar", "yseq", "ynull"):
            if o != t and I.known(("ap", o, p)) is True:
                return FALSE
        return ("ap", t, p)

    def defined(self, p):
        return TRUE if p == CFG else ("ap", "ydef", p)

    def valid(self, I, v, what):
        """operations that throw on the result of a failed lookup"""
        if not I.branch(self.defined(v[2])):
            if v[3] == TRUE:
                self.invalid(I, what)
            return False
        return True

    def ext_method(self, I, e, l, args):
        fn = e["fn"]
        if fn.get("cls") != NODE:
            return NotImplemented
        n = fn["n"]
        v = I.read(l)
        if v[:2] != ("ap", "ynode"):
            return NotImplemented
        p = v[2]
        vals = [I.arg_value(a) for a in args]
        if n == "operator[]":
            if not self.valid(I, v, "subscript"):
                return NotImplemented
            if I.branch(self.is_type(I, p, "yscalar")):
                self.invalid(I, "subscript", "BadSubscript")
            c = sub_(p, vals[0])
            if not I.branch(self.is_type(I, p, "ymap")):
                I.st.facts.assume(("ap", "ydef", c), False)
            return ("V", node(c, TRUE if fn.get("mconst") else FALSE))
        if n in ("IsDefined",) or (n.startswith("operator") and "bool" in n):
            return ("V", self.defined(p))
        if n == "operator!":
            return ("V", neg(self.defined(p)))
        ty = {"IsMap": "ymap", "IsScalar": "yscalar", "IsSequence": "yseq", "IsNull": "ynull"}.get(n)
        if ty:
            if not self.valid(I, v, n):
                return ("V", FALSE)
            return ("V", self.is_type(I, p, ty))
        if n == "as":
            t = canon(fn["rt"])
            if not vals:
                if not self.valid(I, v, "as") or not I.branch(self.is_type(I, p, "yscalar")):
                    self.invalid(I, "as", "BadConversion")
                if t != "string" and not I.branch(("ap", "yconv", S(t), p)):
                    self.invalid(I, "as", "BadConversion")
                return ("V", ("ap", "yas", S(t), p))
            ok = I.branch(self.defined(p)) and I.branch(self.is_type(I, p, "yscalar")) and (t == "string" or I.branch(("ap", "yconv", S(t), p)))
            return ("V", ("ap", "yas", S(t), p) if ok else vals[0])
        if n == "Scalar":
            if not self.valid(I, v, n):
                return NotImplemented
            return ("V", ("ap", "yas", S("string"), p) if I.branch(self.is_type(I, p, "yscalar")) else S(""))
        return NotImplemented

    def ext_fn(self, I, e, args):
        return NotImplemented


def pname(p):
    if p == CFG:
        return ""
    return (pname(p[2]) + "." if p[2] != CFG else "") + (p[3][1] if p[3][0] == "str" else "?")


def yaml_only(t):
    """nothing in the term but what the model of YAML defines"""
    if not isinstance(t, tuple):
        return True
    if t and t[0] == "ap" and t[1] not in ("ysub", "ydef", "ymap", "yscalar", "yseq", "ynull", "yas", "yconv", "ynode"):
        return False
    if t and t[0] in ("phi", "acc", "uninit"):
        return False
    return all(yaml_only(x) for x in t)


def expand(I, v, facts, depth=0):
    """the cases of a joined value: (facts, plain value)"""
    c = None
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple) and x:
            if x[0] == "cases":
                c = x
                break
            todo.extend(y for y in x if isinstance(y, tuple))
    if c is None:
        yield facts, v
        return
    if depth > 40:
        raise Limit("too many joined conditions")
    for delta, val in c[1]:
        st = St()
        st.facts = facts.copy()
        I.st = st
        try:
            I.import_facts(dict(delta), {})
        except Infeasible:
            continue
        yield from expand(I, replace(v, c, val), I.st.facts, depth + 1)


def replace(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple):
        return tuple(replace(x, a, b) for x in v)
    return v


def usable(f, parts):
    """is the item present (every section a mapping, the item a scalar)?  True / False / None"""
    r = True
    p = CFG
    tests = [("ap", "ymap", CFG)]
    for i, k in enumerate(parts):
        p = sub_(p, S(k))
        tests.append(("ap", "ydef", p))
        tests.append(("ap", "ymap" if i + 1 < len(parts) else "yscalar", p))
    for t in tests:
        q = f.q(t)
        if q is False:
            return False
        if q is None and t[1] in ("ymap", "yscalar"):
            for o in ("ymap", "yscalar", "yseq", "ynull"):
                if o != t[1] and f.q(("ap", o, t[2])) is True:
                    return False
        if q is None:
            r = None
    return r


def path_of(parts):
    p = CFG
    for k in parts:
        p = sub_(p, S(k))
    return p


# item, how to read the setting, type, default, what may be between the item and the setting
ITEMS = [
    (("queue_manager",), ("get_queue_manager",), "string", S("single")),
    (("clients", "address"), ("get_client_address",), "string", S("*")),
    (("clients", "port"), ("get_client_port",), "uint16", N(0)),
    (("workers", "address"), ("get_worker_address",), "string", S("*")),
    (("workers", "port"), ("get_worker_port",), "uint16", N(0)),
    (("workers", "max_liveness"), ("get_max_worker_liveness",), "size", N(4)),
    (("workers", "max_request_failures"), ("get_max_request_failures",), "size", N(3)),
    (("workers", "ping_interval"), ("get_worker_ping_interval",), "size", N(1000)),
    (("monitor", "address"), ("get_monitor_address",), "string", S("127.0.0.1")),
    (("monitor", "port"), ("get_monitor_port",), "uint16", N(7894)),
    (("notifier", "address"), ("get_notifier_config", "address"), "string", S("")),
    (("notifier", "port"), ("get_notifier_config", "port"), "uint16", N(0)),
    (("notifier", "username"), ("get_notifier_config", "username"), "string", S("")),
    (("notifier", "password"), ("get_notifier_config", "password"), "string", S("")),
    (("logger", "level"), ("get_log_config", "log_level"), "string", S("debug")),
    (("logger", "max-size"), ("get_log_config", "log_file_size"), "size", N(1024 * 1024)),
    (("logger", "rotations"), ("get_log_config", "log_files_count"), "size", N(3)),
    (("logger", "file"), ("get_log_config", "log_basename"), "filename", S("broker")),
    (("logger", "file"), ("get_log_config", "log_path"), "parent_path", S("/var/log/recodex/")),
]


def getter(U, st, how):
    f = U.method("broker_config", how[0])
    if f is None:
        raise AnalysisBroken("broker_config::%s not found" % how[0])
    outs = U.call(f, [], st, (THIS, ()))
    if len(outs) != 1 or outs[0].exit not in ("next", "return"):
        return None
    v = outs[0].val
    if isinstance(v, tuple) and v and v[0] in ("L", "V") and len(v) == 2:
        v = v[1] if v[0] == "V" else None
    for x in how[1:]:
        v = fld(v, x)
    return v


def getter_cases(U, st, how):
    """a getter with several ways out: its cases, one for each case of the field it looks at"""
    f = U.method("broker_config", how[0])
    g = St()
    g.store[THIS] = U.obj("broker_config", "S.")
    names = set()
    for o in U.call(f, [], g, (THIS, ())):
        for t in subterms((o.val or VOID, tuple(o.st.facts.atoms), tuple(o.st.facts.bnd), tuple(o.st.facts.neq))):
            if isinstance(t, tuple) and len(t) == 2 and t[0] == "sym" and str(t[1]).startswith("S."):
                names.add(t[1][2:].split(".")[0])
    if len(names) != 1:
        return None
    name = names.pop()
    out = []
    for facts, leaf in list(expand(U.I, fld(st.store[THIS], name), st.facts)):
        s2 = st.copy()
        s2.facts = facts.copy()
        s2.store[THIS] = rec_set(s2.store[THIS], name, leaf)
        for o in U.call(f, [], s2, (THIS, ())):
            v = o.val
            if o.exit not in ("next", "return") or not isinstance(v, tuple):
                return None
            if v and v[0] in ("L", "V") and len(v) == 2:
                if v[0] == "L":
                    return None
                v = v[1]
            for x in how[1:]:
                v = fld(v, x)
            out.append((o.st.facts, v))
    return out


def facts_text(f):
    out = []
    for k, v in f.atoms.items():
        if k[0] == "nz" and k[1][0] == "ap" and k[1][1].startswith("y"):
            what = {"ydef": "is given", "ymap": "is a mapping", "yscalar": "is a scalar", "yseq": "is a sequence", "ynull": "is null", "yconv": "converts"}[k[1][1]]
            p = k[1][-1]
            out.append("'%s' %s%s" % (pname(p) or "the document", "" if v else "not: ", what))
    return sorted(out)


def c22(ctx, rep):
    prog = ctx.prog
    U = Unit(prog, Yaml())
    I = U.I
    I.merge_ifs = True
    cs = U.ctors("broker_config")
    full = [c for c in cs if len(c["pt"]) == 1 and "Node" in c["pt"][0]]
    if not full:
        raise AnalysisBroken("constructor of broker_config from a YAML node not found")
    outs = run(rep, "config", lambda: U.construct(full[0], [node(CFG)], "broker_config"))
    rep.count(functions=1, paths=len(outs or []))
    for o in outs or []:
        if o.exit == "throw":
            check_error(rep, o)
            continue
        if o.exit not in ("next", "return"):
            rep.undecided("config", "constructor ends with %s" % o.exit, CC)
            continue
        m = o.st.facts.q(("ap", "ymap", CFG))
        hidden = not all(yaml_only(k) for k in o.st.facts.atoms)
        rep.expect(True if m is True else None if hidden else False, "mapping", "only a mapping is accepted", CC, facts_text(o.st.facts), msg="a document that is not a mapping is accepted")
        for parts, how, ty, default in ITEMS:
            item(U, rep, o, parts, how, ty, default)
    defaults(ctx, rep)


def check_error(rep, o):
    ty, val, why = o.val
    f = o.st.facts
    d = facts_text(f)
    names = [k[1] for k, v in f.atoms.items() if k[0] == "nz" and v is False and k[1][:2] == ("ap", "yconv")]
    hidden = not all(yaml_only(k) for k in f.atoms)
    if ty != "config_error":
        rep.expect(None if hidden else False, "error.type", "errors are configuration errors", CC, d, msg="%s leaves the constructor instead of a configuration error" % ty)
        return
    if f.q(("ap", "ymap", CFG)) is False or any(f.q(("ap", x, CFG)) is True for x in ("yscalar", "yseq", "ynull")):
        rep.ok("error", "a document that is not a mapping is an error")
        return
    wanted = {path_of(p): t for p, _, t, _ in ITEMS}
    if names:
        good = [n for n in names if n[3] in wanted and usable(f, parts_of(n[3])) is True]
        rep.expect(True if good else None, "error", "a value that does not convert is an error", CC, d)
        return
    rep.expect(None if hidden else False, "error.valid", "no error without cause", CC, d, msg="a configuration without malformed values is rejected: %s" % "; ".join(x for x in d if "not:" in x or "sequence" in x or "null" in x)[:160])


def parts_of(p):
    out = []
    while p != CFG:
        out.insert(0, p[3][1] if p[3][0] == "str" else None)
        p = p[2]
    return tuple(out)


def item(U, rep, o, parts, how, ty, default):
    I = U.I
    name = ".".join(parts)
    try:
        v = getter(U, o.st, how)
        cases = list(expand(I, v, o.st.facts)) if v is not None else getter_cases(U, o.st, how)
    except Limit as l:
        rep.undecided("item", "%s: %s" % (name, l), CC)
        return
    if cases is None:
        rep.undecided("item", "%s: value of %s" % (name, "().".join(how)), CC)
        return
    P = path_of(parts)
    setting = "().".join(how)
    for f, leaf in cases:
        d = facts_text(f)
        hidden = not all(yaml_only(k) for k in f.atoms)
        u = usable(f, parts)
        conv = set()
        for t in subterms(leaf):
            if isinstance(t, tuple) and t[:2] == ("ap", "yas"):
                conv.add((t[2][1], t[3]))
        if not conv:
            if u is False:
                if leaf == default:
                    rep.ok("item.absent", "%s absent: %s keeps its default" % (name, setting))
                elif leaf[0] in ("n", "str", "uninit") or (leaf[0] == "sym" and "uninit" in str(leaf[1])):
                    rep.bad("item.absent", "'%s' absent: %s is %s instead of %s" % (name, setting, show(leaf)[:60], show(default)), CC, d)
                else:
                    rep.undecided("item.absent", "'%s' absent: %s" % (name, setting), CC)
                continue
            rep.expect(None if hidden or not yaml_only(leaf) else False, "item", "%s is read" % name, CC, d, msg="'%s' may be given and yet %s is %s" % (name, setting, show(leaf)[:60]))
            continue
        if len(conv) > 1:
            rep.undecided("item", "%s depends on several items" % setting, CC)
            continue
        t, q = next(iter(conv))
        if q != P:
            rep.expect(None if hidden else False, "item.which", "%s" % setting, CC, d, msg="%s is set from '%s' instead of '%s'" % (setting, pname(q), name))
            continue
        want = "string" if ty in ("filename", "parent_path") else ty
        if t != want:
            known = t in ("string", "uint16", "size", "int", "long", "unsigned int", "short", "long long", "double", "float", "bool", "char", "unsigned char", "signed char")
            ranged = any(any(x == ("ap", "yas", S(t), P) for x in subterms(k)) for k in list(f.atoms) + [b for b in f.bnd])
            rep.expect(None if not known or ranged or hidden else False, "item.type", "%s is converted to its type" % name, CC, d, msg="'%s' is converted to %s, not to the type of the setting" % (name, t))
            continue
        base = ("ap", "yas", S(t), P)
        if ty in ("filename", "parent_path"):
            txt = show(leaf)
            other = "parent_path" if ty == "filename" else "filename"
            good = True if re.search(r"\b%s\b" % ty, txt) and other not in txt else False if re.search(r"\b%s\b" % other, txt) and ty not in txt else None
            if good is None and not hidden and re.search(r"\bstem\b", txt) and "extension" not in txt:
                good = False
            rep.expect(good, "item.value", "%s gives %s" % (name, setting), CC, d, msg="'%s' gives %s as %s" % (name, setting, txt[:80]))
        elif leaf == base:
            rep.ok("item.value", "%s gives %s" % (name, setting))
        else:
            s = stripcast(leaf)
            rep.expect(True if s == base else False if simple(s) else None, "item.value", "%s gives %s" % (name, setting), CC, d, msg="'%s' gives %s as %s" % (name, setting, show(leaf)[:80]))


def stripcast(t):
    while isinstance(t, tuple) and (t[0] == "cast" or (t[:2] == ("ap", "narrow") and t[2][:3] == ("ap", "yas", S("uint16")) and t[3] in (S("unsigned short"), "unsigned short"))):
        t = t[2] if t[0] == "ap" else t[-1]
    return t


def simple(t):
    return t[0] in ("lin", "n", "str") or (t[0] == "ap" and t[1] in ("trunc", "mul"))


def defaults(ctx, rep):
    U = Unit(ctx.prog, Yaml())
    st = St()
    r = U.rec("broker_config")

    def go():
        U.I.st.store[THIS] = VOID
        fn = [m["fn"] for m in r["methods"] if m["fn"]["kind"] == "ctor" and not m["fn"].get("cm") and not m["fn"]["pt"]]
        if not fn:
            raise Limit("no default constructor")
        U.I.construct_repo((THIS, ()), fn[0], [], "broker_config")
        return VOID

    outs = run(rep, "default", lambda: U.I.run(go, st))
    for o in outs or []:
        if o.exit != "next":
            continue
        for parts, how, ty, default in ITEMS:
            v = getter(U, o.st, how)
            setting = "().".join(how)
            rep.expect(True if v == default else False if v is not None and (v[0] in ("n", "str", "uninit") or "uninit" in str(v)[:40]) else None, "default", "%s has its documented default" % setting, "src/config/broker_config.h", [], msg="the default of %s is %s instead of %s" % (setting, show(v)[:60] if v else "?", show(default)))
