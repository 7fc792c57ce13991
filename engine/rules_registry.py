"""The contract of worker_registry, decided on its current implementation: add, remove, find by identity, list."""
from base import *
from interp import St
from rules_worker import run
from unit import THIS, Unit

W, ID = ("sym", "w"), ("sym", "id")
RCPP = "src/worker_registry.cpp"
CLS = "worker_registry"


def field(prog):
    r = prog.rec_by_q(CLS)
    fs = [fd["n"] for fd in r["fields"] if tmpl_name(fd["ty"]) in ("std::vector", "std::list", "std::deque") and "worker" in fd["ty"]]
    return fs[0] if len(fs) == 1 else None


def extras(prog):
    """what the registry keeps besides the list: a worker remembered, an index, a counter"""
    fl = field(prog)
    return [("sym", "R." + fd["n"]) for fd in prog.rec_by_q(CLS)["fields"] if fd["n"] != fl]


class Soft:
    """a report for a registry that keeps more than the list: how the two hang together is not known, so what looks like a
    violation may be a state that never occurs"""

    def __init__(self, rep, xs):
        self.rep, self.xs = rep, xs

    def __getattr__(self, n):
        return getattr(self.rep, n)

    def bad(self, rule, what, where="", detail=None):
        self.rep.undecided(rule, what, where)

    def expect(self, cond, rule, what, where="", detail=None, msg=None):
        self.rep.expect(None if cond is False else cond, rule, what, where, detail, msg)


def soften(ctx, rep, o):
    """the report to use for a path: one that looked at something else than the list is not certain to exist"""
    xs = extras(ctx.prog)
    if not xs:
        return rep
    F = o.st.facts
    ts = list(F.atoms) + list(F.bnd) + list(F.neq) + [o.val]
    for e in o.st.events:
        if e.kind == "loop":
            for b in e.d["rec"].bodies:
                ts += list(b.st.facts.atoms) + list(b.st.facts.bnd) + list(b.st.facts.neq)
    return Soft(rep, xs) if any(isinstance(t, tuple) and any(mentions(t, x) for x in xs) for t in ts) else rep


def stale_rule(ctx, rep):
    """a worker found through something else than the list (one remembered, an index): what leaves the list leaves that too"""
    fl = field(ctx.prog)
    xs = extras(ctx.prog) if fl else []
    if not xs:
        return
    coll = ("sym", "R." + fl)
    found, wh = outs_of(ctx, rep, "find_worker_by_identity", [ID])
    gone, rwh = outs_of(ctx, rep, "remove_worker", [W])
    put, _ = outs_of(ctx, rep, "add_worker", [W])
    if found is None or gone is None or put is None:
        return

    def now(o, x):
        return fld(o.st.store[THIS], x[1][2:])

    def about(o, x):
        F = o.st.facts
        return any(isinstance(t, tuple) and mentions(t, x) for t in list(F.atoms) + list(F.bnd) + list(F.neq))

    for o in found:
        v = o.val
        if not isinstance(v, tuple) or v == NULL or mentions(v, coll) or any(e.kind != "touch" and e.kind != "maybe-null" for e in o.st.events):
            continue
        src = [x for x in xs if mentions(v, x)]
        if len(src) != 1 or opaque(v):
            continue
        x = src[0]
        # it is filled with workers of the list, and nothing takes one of them out again
        filled = [p for p in found + put if now(p, x) != x and (mentions(now(p, x), coll) or mentions(now(p, x), W))]
        left = [p for p in gone if now(p, x) == x and not about(p, x) and (changed_by(fld(p.st.store[THIS], fl), coll) or ("same",))[0] in ("minus", "without")]
        touched = [p for p in gone if now(p, x) != x or about(p, x)]
        if filled and left and not touched:
            rep.bad("stale", "a worker that was removed can still be found by its identity", wh, describe(top(o)) + ["it is taken from %s, which remove_worker (%s) leaves as it is" % (x[1][2:], rwh)])
        elif filled and not left:
            rep.ok("stale", "what is remembered about workers goes when they go")


def outs_of(ctx, rep, name, args):
    U = Unit(ctx.prog)
    f = U.method(CLS, name)
    if f is None:
        rep.undecided("registry", "%s not found" % name, RCPP)
        return None, None
    st = St()
    st.store[THIS] = U.obj(CLS, "R.")
    outs = run(rep, "registry", lambda: U.call(f, args, st, (THIS, ())))
    wh = "src/%s:%s" % (f["file"], f["L"])
    if outs is not None:
        rep.count(paths=len(outs), registry_operations=1)
        for o in outs:
            if o.exit not in ("next", "return"):
                rep.expect(None if o.exit == "throw" and not isinstance(o.val, str) and False else False, "registry", "%s completes" % name, wh, describe(top(o)), msg="%s does not complete" % name)
        outs = [o for o in outs if o.exit in ("next", "return")]
    return outs, wh


def searched(o, coll, hit, after=None):
    """how did the loops over coll end, hit(F, el) telling True/False/None for an element: index found (term), None for
    'there is none', or 'unknown'"""
    res = "unknown"
    for e in o.st.events:
        if e.kind != "loop":
            continue
        L = e.d["rec"]
        if L.coll != coll or L.sym is None:
            continue
        took = e.d["exit"]
        if took is not None:
            h = hit(L.bodies[took].st.facts, at(coll, L.sym))
            if h is True:
                res = L.sym
            continue
        some = [x for a, x in o.st.facts.atoms.items() if a[0] == "some" and a[1] == L.inst]
        if some and hit(L.bodies[some[0]].st.facts, at(coll, L.sym)) is True:
            res = L.sym
            continue
        if L.start != N(0):
            continue
        hs = [hit(b.st.facts, at(coll, L.sym)) for b in L.bodies if b.exit == "next"]
        changed = {b.pid for b in L.bodies for c in L.cells.values() if c["per"].get(b.pid, ("same",))[0] != "same"}
        nomod = any(a[0] == "nomod" and a[1] == L.inst for a in o.st.facts.atoms)
        hs = [hit(b.st.facts, at(coll, L.sym)) for b in L.bodies if b.exit == "next" and not (nomod and b.pid in changed)]
        if all(h is False for h in hs):
            res = None
    return res


def changed_by(v, coll):
    """the registry's list afterwards as (kind, arg): same, plus x, minus index, minus value"""
    if v == coll:
        return ("same",)
    if v[0] == "seq":
        ones = [p[1] for p in v[1] if p[0] == "one"]
        alls = [p[1] for p in v[1] if p[0] == "all"]
        if alls == [coll]:
            return ("plus", tuple(ones))
        if len(alls) == 1 and not ones:
            return changed_by(alls[0], coll)
    if v[0] == "erase" and v[1] == coll:
        return ("minus", v[2])
    if v[0] == "ap" and v[1] == "erase" and v[2] == coll:
        return ("minus", v[3])
    if v[0] == "ap" and v[1] == "without" and v[2] == coll:
        return ("without", v[3])
    return None


def find_rule(ctx, rep0):
    rep = rep0
    fl = field(ctx.prog)
    if fl is None:
        rep.undecided("registry", "what the registry keeps is not recognised", RCPP)
        return
    coll = ("sym", "R." + fl)
    outs, wh = outs_of(ctx, rep, "find_worker_by_identity", [ID])
    if outs is None:
        return

    def hit(F, el):
        for x in (fld(("drf", el), "identity"),):
            q = F.q_eq(x, ID)
            if q is not None:
                return q
        return None

    for o in outs:
        rep = soften(ctx, rep0, o)
        d = describe(top(o))
        F = o.st.facts
        v = o.val
        kept = fld(o.st.store[THIS], fl) == coll
        if not kept:
            rep.expect(None if opaque(fld(o.st.store[THIS], fl)) else False, "find", "looking up changes nothing", wh, d, msg="looking a worker up changes the registry")
        r = searched(o, coll, hit)
        loopless = not any(e.kind == "loop" for e in o.st.events)
        if v == NULL or F.q(("nz", v)) is False:
            empty = F.q_eqi(size_of(coll), N(0)) is True
            if r is None or empty:
                rep.ok("find", "null only if no worker has the identity")
            else:
                unk = r == "unknown" and any(e.kind in ("ext",) for e, _ in flat(o.st.events))
                known = all(not opaque(a) for a in F.atoms) and all(not opaque(a) for e in o.st.events if e.kind == "loop" for b in e.d["rec"].bodies for a in b.st.facts.atoms)
                rep.expect(None if unk or not known else False, "find", "null only if no worker has the identity", wh, d, msg="find_worker_by_identity misses a registered worker with that identity")
        elif v[0] == "at" and v[1] == coll:
            q = hit(F, v)
            if q is None and r == v[2]:
                q = True
            if q is None:
                q = False if not any(opaque(a) for a in F.atoms) else None
            rep.expect(q, "find", "the worker found has the identity", wh, d, msg="find_worker_by_identity returns a worker whose identity is not the one looked for")
        else:
            rep.expect(None if opaque(v) or v[0] in ("phi", "ap", "ite") else False, "find", "the worker found is registered", wh, d, msg="find_worker_by_identity returns something that is not a registered worker")
        _ = loopless
    stale_rule(ctx, rep0)


def remove_rule(ctx, rep0):
    rep = rep0
    fl = field(ctx.prog)
    if fl is None:
        rep.undecided("registry", "what the registry keeps is not recognised", RCPP)
        return
    coll = ("sym", "R." + fl)
    outs, wh = outs_of(ctx, rep, "remove_worker", [W])
    if outs is None:
        return

    def hit(F, el):
        q = F.q_eq(el, W)
        if q is None:
            q = F.q_eq(fld(("drf", el), "identity"), fld(("drf", W), "identity"))
        return q

    for o in outs:
        rep = soften(ctx, rep0, o)
        d = describe(top(o))
        c = changed_by(fld(o.st.store[THIS], fl), coll)
        r = searched(o, coll, hit)
        if c is None:
            v = fld(o.st.store[THIS], fl)
            known = (v[0] in ("slice", "upd", "empty") or v == EMPTYSEQ) and not opaque(v) and not contains(v, lambda x: x and x[0] == "upd")
            rep.expect(False if known else None, "remove", "exactly the worker is removed", wh, d, msg="removing a worker leaves the registry with something else than the other workers")
        elif c[0] == "same":
            okk = r is None or o.st.facts.q_eqi(size_of(coll), N(0)) is True
            rep.expect(True if okk else None if r == "unknown" and any(opaque(a) for a in o.st.facts.atoms) else False, "remove", "a registered worker is removed", wh, d, msg="removing a registered worker leaves it in the registry")
        elif c[0] == "minus":
            q = hit(o.st.facts, at(coll, c[1]))
            if q is None and r == c[1]:
                q = True
            rep.expect(True if q is True else None if opaque(c[1]) and c[1][0] != "ix" else False, "remove", "exactly the worker is removed", wh, d, msg="removing a worker removes another one from the registry")
        elif c[0] == "without":
            rep.expect(c[1] == W or None, "remove", "exactly the worker is removed", wh, d)
        else:
            rep.bad("remove", "removing a worker adds to the registry", wh, d)


def add_rule(ctx, rep0):
    rep = rep0
    fl = field(ctx.prog)
    if fl is None:
        rep.undecided("registry", "what the registry keeps is not recognised", RCPP)
        return
    coll = ("sym", "R." + fl)
    outs, wh = outs_of(ctx, rep, "add_worker", [W])
    if outs is None:
        return
    for o in outs:
        rep = soften(ctx, rep0, o)
        d = describe(top(o))
        c = changed_by(fld(o.st.store[THIS], fl), coll)
        if c is None:
            rep.undecided("add", "effect of add_worker not recognised", wh)
        elif c[0] == "plus":
            rep.expect(c[1] == (W,), "add", "add_worker adds exactly the given worker", wh, d, msg="add_worker adds %d workers" % len(c[1]) if len(c[1]) != 1 else "add_worker adds another worker than the given one")
        elif c[0] == "same":
            # tolerated only where it is known to be there already
            def hit(F, el):
                return F.q_eq(el, W) or F.q_eq(fld(("drf", el), "identity"), fld(("drf", W), "identity"))

            r = searched(o, coll, hit)
            rep.expect(True if r not in (None, "unknown") else None if any(opaque(a) for a in o.st.facts.atoms) else False, "add", "add_worker adds the worker", wh, d, msg="add_worker does not add the worker in some states")
        else:
            rep.bad("add", "adding a worker removes another one from the registry", wh, d)


def list_rule(ctx, rep0):
    rep = rep0
    fl = field(ctx.prog)
    if fl is None:
        return
    coll = ("sym", "R." + fl)
    outs, wh = outs_of(ctx, rep, "get_workers", [])
    for o in outs or ():
        rep = soften(ctx, rep0, o)
        rep.expect(True if o.val == coll else None if opaque(o.val) else False, "list", "get_workers lists the registered workers", wh, describe(top(o)), msg="get_workers does not list exactly the registered workers")


def apart(o, H1, H2):
    """a path that finds two sets of headers equal: is it one that different headers can take?"""
    if any(e.kind not in ("loop", "touch", "maybe-null") for e, _ in flat(o.st.events)):
        return False
    loops = [e.d["rec"] for e in o.st.events if e.kind == "loop"]
    nested = list(loops)
    for L in nested:
        nested += [e.d["rec"] for b in L.bodies for e in b.events if e.kind == "loop"]
    terms = []
    for f in [o.st.facts] + [b.st.facts for L in nested for b in L.bodies]:
        terms += [a for a in f.atoms if a[0] != "took"] + list(f.bnd) + list(f.neq)
    about = [t for t in terms if mentions(t, H1) or mentions(t, H2)]

    def odd(x):
        return x and ((x[0] in ("ap", "clo", "it", "mgx") and (mentions(x, H1) or mentions(x, H2))) or (x[0] == "eq" and (H1 in x or H2 in x)))

    # no value of a header is looked at
    if not any(contains(t, odd) for t in about) and not any(contains(t, lambda x: x and x[0] == "fld" and x[2] == "second") for t in terms):
        used = [t for t in about if contains(t, lambda x: x and x[0] == "at")]
        if not any(contains(t, lambda x: x and x[0] == "at" and not contains(x[1], lambda y: y in (H1, H2))) for t in used) and all(
            not contains(("x", t), lambda x: x and x[0] == "eq" and any(isinstance(y, tuple) and y[0] == "at" for y in x[1:])) for t in about
        ):
            return True
    # nothing to go through: an empty set against one that is not
    F = o.st.facts
    own = [a for a in F.atoms if a[0] != "took" and (mentions(a, H1) or mentions(a, H2))]
    for a, b in ((H1, H2), (H2, H1)):
        if not own and loops and all(L.coll == a for L in loops):
            G = F.copy()
            try:
                G.set_eqi(size_of(a), N(0), True)
                G.set_eqi(size_of(b), N(1), True)
                G.tighten(sub(size_of(a), size_of(b)), -1, -1)
                if all(len(k) == 1 or all(t[0] == "size" for t, _ in k) for k in G.bnd if mentions(k, a) or mentions(k, b)):
                    return True
            except Infeasible:
                pass
    return False


def headers_rule(ctx, rep):
    """headers_equal compares with the headers the worker was constructed with"""
    U = Unit(ctx.prog)
    cs = [c for c in U.ctors("worker") if len(c["pt"]) == 3]
    f = U.method("worker", "headers_equal")
    if len(cs) != 1 or f is None:
        rep.undecided("headers", "constructor of worker not recognised", "src/worker.cpp")
        return
    H1, H2 = ("sym", "hdrs"), ("sym", "other")
    I = U.I
    outs = run(rep, "headers", lambda: U.construct(cs[0], [("sym", "ident"), ("sym", "group"), H1], "worker"))
    for o in outs or ():
        if o.exit not in ("next", "return"):
            continue
        st = o.st.copy()
        st.events = []
        wh = "src/%s:%s" % (f["file"], f["L"])
        U2 = Unit(ctx.prog)
        U2.I.loops.update(I.loops)
        for o2 in run(rep, "headers", lambda: U2.call(f, [H2], st, (THIS, ()))) or ():
            d = describe(top(o2))
            if o2.exit not in ("next", "return"):
                rep.bad("headers", "comparing a worker's headers does not complete", wh, d)
                continue
            F = o2.st.facts
            r = o2.val == TRUE
            q = F.q_eq(H1, H2)
            if q is None and not r and F.q_eqi(size_of(H1), size_of(H2)) is False:
                q = False
            loops = any(e.kind == "loop" for e in o2.st.events)
            if r and q is None and loops and apart(o2, H1, H2):
                q = False
            rep.expect(q == r if q is not None else None if loops or any(opaque(a) for a in F.atoms) else False, "headers", "headers_equal is equality with the worker's own headers", wh, d, msg="headers_equal is not equality with the headers the worker registered with")


def all_rules(ctx, rep):
    find_rule(ctx, rep)
    remove_rule(ctx, rep)
    add_rule(ctx, rep)
    list_rule(ctx, rep)
    headers_rule(ctx, rep)
