"""Rules about worker (header matching, C05) and worker_registry (C27, C16)."""
from base import *
from handler import Hooks
from interp import St
from rules_handler2 import find_loop, loops_of, str_known
from rules_handler2 import NPOS
from unit import THIS, Unit

NAME, VALUE, HDRS, GROUP, IDENT = (("sym", x) for x in ("name", "value", "hdrs", "group", "ident"))
WCPP = "src/worker.cpp"


class WorkerHooks(Hooks):
    def __init__(self, stop=()):
        self.stop = stop  # methods of worker treated as predicates
        self.vcalls = {}  # name -> fn of virtual calls on objects of unknown class

    def call_fn(self, I, fn, obj, args, e):
        cls = fn.get("cls", "")
        if cls == "worker" and fn["n"] in self.stop:
            p = obj[0][1] if obj[0][0] == "p" and not obj[1] else ("ptr", obj[0], obj[1])
            return ("V", ("ap", fn["n"], p, *[I.arg_value(a) for a in args]))
        if fn.get("virt") and cls != "worker" and obj is not None:
            v = I.read(obj)
            if v[0] != "rec":
                self.vcalls[fn["n"]] = fn
                p = obj[0][1] if obj[0][0] == "p" and not obj[1] else ("ptr", obj[0], obj[1])
                return ("V", ("ap", "accepts", p, *[I.arg_value(a) for a in args]))
        return NotImplemented


def run(rep, rule, f):
    try:
        return f()
    except Limit as l:
        rep.undecided(rule, str(l))
        return None


def truth(o):
    v = o.val
    if v in (TRUE, N(1)):
        return True
    if v in (FALSE, N(0)):
        return False
    q = o.st.facts.q(v) if v is not None else None
    return q


def quantified(rep, rule, outs, hitval, elem_pred, what, wh, empty=None):
    """outs: runs of a boolean function. It must return hitval iff some element is a hit.
    elem_pred(L, b): True hit / False no hit / 'out' not in the domain / None unknown / 'no' not the loop in question"""
    n = 0
    for o in outs:
        tr = top(o)
        d = describe(tr)
        if o.exit not in ("next", "return"):
            rep.bad(rule, "%s does not complete: %s" % (what, o.val if isinstance(o.val, str) else o.exit), wh, d)
            continue
        v = truth(o)
        if v is None:
            rep.undecided(rule, "result of %s not recognised: %s" % (what, show(o.val)[:80]), wh)
            continue
        n += 1
        hits, exhaustive, unk = False, False, False
        for e in o.st.events:
            if e.kind != "loop":
                continue
            L = e.d["rec"]
            preds = {b.pid: elem_pred(L, b) for b in L.bodies}
            if any(p == "no" for p in preds.values()):
                continue
            took = e.d["exit"]
            if took is None:
                for a, x in o.st.facts.atoms.items():
                    if a[0] == "some" and a[1] == L.inst:
                        took = x
            if took is not None:
                p = preds[took]
                if p is True:
                    hits = True
                elif p is None:
                    unk = True
            if e.d["exit"] is None:
                full = True
                for b in L.bodies:
                    if b.exit != "next":
                        continue
                    if any(a[0] == "nomod" and a[1] == L.inst and L.cells.get(a[2], {}).get("per", {}).get(b.pid, ("same",))[0] != "same" for a in o.st.facts.atoms):
                        continue
                    if preds[b.pid] in (True, "unchecked"):
                        full = False
                    elif preds[b.pid] is None:
                        unk = True
                if L.sym is None or L.start not in (None, N(0)):
                    if L.start is not None and L.start[0] == "n" and L.start[1] > 0:
                        full = False
                    else:
                        unk = True
                exhaustive = exhaustive or full
        if v == hitval:
            rep.expect(True if hits else None if unk else False, rule, what, wh, d, msg="%s is %s although no element was found that makes it so" % (what, str(v).lower()))
        else:
            okk = exhaustive or (empty is not None and empty(o) is True)
            if okk and hits:
                okk = False
            rep.expect(True if okk else None if unk else False, rule, what, wh, d, msg="%s is %s although not all elements were found to make it so" % (what, str(v).lower()))
    if n == 0 and not outs:
        rep.undecided(rule, "%s: no path" % what, wh)


def ev_where(outs):
    for o in outs:
        for e, _ in flat(o.st.events):
            if e.where and not e.where.startswith("?"):
                return where(e)
    return WCPP


def map_field(prog):
    """the field of worker holding what decides about headers: the map of class worker that is not the plain copy"""
    r = prog.rec_by_q("worker")
    out = []
    for fd in r["fields"]:
        if tmpl_name(fd["ty"]) in ("std::multimap", "std::map", "std::unordered_multimap"):
            out.append(fd)
    return out


def c05(ctx, rep):
    prog = ctx.prog
    hk = WorkerHooks()
    U = Unit(prog, hk)
    st = St()
    st.store[THIS] = U.obj("worker", "W.")
    st.store[THIS] = st.store[THIS]
    f = U.fn("worker::check_header", 2)
    outs = run(rep, "header", lambda: U.call(f, [NAME, VALUE], st, (THIS, ())))
    fields = {("sym", "W." + fd["n"]): fd for fd in map_field(prog)}
    used = set()
    if outs is not None:
        rep.count(paths=len(outs))

        def pred(L, b):
            if L.coll is None or L.sym is None:
                return "no"
            m = None
            if L.coll[0] == "eqr":
                m, key = L.coll[1], L.coll[2]
                if m not in fields:
                    return "no"
                used.add(m)
                if key != NAME:
                    return None if opaque(key) else True if False else "out"
            elif L.coll in fields:
                m = L.coll
                used.add(m)
            else:
                return "no"
            el = at(L.coll, L.sym)
            F = b.st.facts
            if L.coll[0] != "eqr":
                k = None
                for kk in (fld(el, "first"), ("ky", L.coll, L.sym)):
                    q = F.q_eq(kk, NAME)
                    if q is not None:
                        k = q
                if k is False:
                    return "out"
                if k is None:
                    return None
            for a, v in F.atoms.items():
                if a[0] == "nz" and isinstance(a[1], tuple) and a[1][:2] == ("ap", "accepts"):
                    t = a[1]
                    if mentions(t[2], L.sym) and len(t) == 4 and t[3] == VALUE:
                        return v
                    if mentions(t[2], L.sym) and len(t) == 4 and not opaque(t[3]):
                        return False
            return None if any(e.kind in ("ext", "loop") for e in b.events) else "unchecked"

        def empty(o):
            for m in fields:
                if o.st.facts.q_eqi(size_of(("eqr", m, NAME)), N(0)) is True or o.st.facts.q(("has", m, NAME)) is False:
                    used.add(m)
                    return True
            return None

        if not hk.vcalls:
            rep.undecided("header", "check_header does not consult matcher objects", WCPP)
        else:
            quantified(rep, "header", outs, True, pred, "check_header", ev_where(outs), empty)
    # all headers
    U2 = Unit(prog, WorkerHooks(("check_header",)))
    st = St()
    st.store[THIS] = U2.obj("worker", "W.")
    f = U2.fn("worker::check_headers", 1)
    outs2 = run(rep, "headers", lambda: U2.call(f, [HDRS], st, (THIS, ())))
    if outs2 is not None:
        rep.count(paths=len(outs2))

        def pred2(L, b):
            if L.coll is None or L.sym is None or L.coll != HDRS:
                return "no" if L.coll is None or not mentions(L.coll, HDRS) else None
            el = at(HDRS, L.sym)
            F = b.st.facts
            nm = (fld(el, "first"), ("ky", HDRS, L.sym))
            vl = (fld(el, "second"), ("mgx", HDRS, L.sym))
            for a, v in F.atoms.items():
                if a[0] == "nz" and isinstance(a[1], tuple) and a[1][:2] == ("ap", "check_header"):
                    if len(a[1]) == 5 and a[1][3] in nm and a[1][4] in vl:
                        return not v
                    if not opaque(a[1][3]) and not opaque(a[1][4]):
                        return False
            return None if any(e.kind in ("ext", "loop") for e in b.events) else "unchecked"

        def empty2(o):
            return o.st.facts.q_eqi(size_of(HDRS), N(0)) is True

        quantified(rep, "headers", outs2, False, pred2, "check_headers", ev_where(outs2), empty2)
    # which matcher does each header get, and what does it accept
    if hk.vcalls and used:
        matchers(ctx, rep, hk, used, fields)


def matchers(ctx, rep, hk, used, fields):
    prog = ctx.prog
    if len(used) != 1 or len(hk.vcalls) != 1:
        rep.undecided("matcher", "more than one table of matchers", WCPP)
        return
    fname = fields[list(used)[0]]["n"]
    vfn = list(hk.vcalls.values())[0]
    U = Unit(prog)
    cs = [c for c in U.ctors("worker") if len(c["pt"]) == 3]
    if len(cs) != 1:
        rep.undecided("matcher", "constructor of worker not recognised", WCPP)
        return
    outs = run(rep, "matcher", lambda: U.construct(cs[0], [IDENT, GROUP, HDRS], "worker"))
    if outs is None:
        return
    rep.count(paths=len(outs))
    for o in outs:
        tr = top(o)
        d = describe(tr)
        if o.exit not in ("next", "return"):
            rep.bad("construct", "a worker cannot be constructed from some headers: %s" % (o.val if isinstance(o.val, str) else o.exit), WCPP, d)
            continue
        obj = o.st.store[THIS]
        rep.expect(True if fld(obj, "identity") == IDENT else None if opaque(fld(obj, "identity")) else False, "identity", "the worker has the given identity", WCPP, d, msg="a worker's identity is not the given one")
        rep.expect(True if fld(obj, "hwgroup") == GROUP else None if opaque(fld(obj, "hwgroup")) else False, "group", "the worker has the given group", WCPP, d, msg="a worker's hardware group is not the given one")
        m = fld(obj, fname)
        entries, loops = [], []
        t = m
        while t and t[0] in ("map", "accm"):
            if t[0] == "map":
                entries += [(k, v, tr) for k, v in t[2]]
                t = t[1]
            else:
                loops.append((t[1], t[2], t[4]))
                t = t[3]
        if t != ("empty",):
            rep.undecided("matcher", "table of matchers not recognised", WCPP)
            continue
        # hwgroup
        hg = [x for x in entries if x[0] == S("hwgroup")]
        other = [x for x in entries if x[0] != S("hwgroup")]
        if not hg:
            rep.expect(None if any(opaque(k) for k, _, _ in entries) else False, "group-matcher", "the group is matched", WCPP, d, msg="a worker gets no matcher for its hardware group")
        for k, v, t2 in hg:
            accepts(ctx, rep, U, vfn, v, t2, GROUP, "list")
        if other:
            rep.undecided("matcher", "matchers for further fixed headers", WCPP)
        got = False
        for inst, label, items in loops:
            L = find_loop(tr.events, inst)
            if L is None or L.coll != HDRS or L.sym is None:
                rep.undecided("matcher", "loop building the matchers not recognised", WCPP)
                got = None
                continue
            got = True if got is not None else None
            el = at(HDRS, L.sym)
            nm = (fld(el, "first"), ("ky", HDRS, L.sym))
            vl = (fld(el, "second"), ("mgx", HDRS, L.sym))
            per = dict(items)
            for b in L.bodies:
                bt = Tr(b.events, b.st, b.exit, b.val, ((L, b),), o)
                bd = describe(bt)
                wh = where(b.events[-1]) if b.events else WCPP
                if b.exit != "next":
                    rep.bad("each", "some headers of a worker are ignored", wh, bd)
                    continue
                ins = per.get(b.pid, ())
                if len(ins) != 1:
                    rep.bad("each", "a header of a worker becomes %d matchers" % len(ins), wh, bd)
                    continue
                k, v = ins[0]
                if k not in nm:
                    rep.expect(None if opaque(k) else False, "each", "matcher under the header's own name", wh, bd, msg="a matcher is stored under another name than its header's")
                    continue
                rep.ok("each", "every header gets a matcher under its own name")
                F = b.st.facts
                thr = None
                for x in nm:
                    q = F.q_eq(x, S("threads"))
                    if q is not None:
                        thr = q
                own = fld(el, "second")
                if thr is None:
                    rep.expect(None if any(a[0] == "nz" and mentions(a, L.sym) for a in F.atoms) else False, "kind", "'threads' is told apart", wh, bd, msg="'threads' headers are not matched as numbers")
                    continue
                accepts(ctx, rep, U, vfn, v, bt, own, "number" if thr else "exact")
        if got is False:
            rep.bad("each", "the headers of a worker do not take part in matching", WCPP, d)


def accepts(ctx, rep, U, vfn, ptr, tr, own, kind):
    """the matcher object at ptr (in tr's final state) accepts VALUE exactly as its kind demands"""
    prog = ctx.prog
    if ptr[0] != "ptr":
        rep.undecided("accept", "matcher object not recognised", WCPP)
        return
    loc = (ptr[1], ptr[2])
    st = tr.st.copy()
    st.events = []
    v = U.I.read if False else None
    root = st.store.get(ptr[1])
    if root is None or root[0] != "rec":
        rep.undecided("accept", "class of a matcher not recognised", WCPP)
        return
    save = U.I.st
    U.I.st = st
    usr = U.I.dispatch(vfn, loc)
    U.I.st = save
    f = prog.fns.get(usr)
    if f is None or f.get("body") is None:
        rep.undecided("accept", "matcher without a body", WCPP)
        return
    U2 = Unit(prog)
    U2.I.loops.update(U.I.loops)
    outs = run(rep, "accept", lambda: U2.call(f, [VALUE], st, loc))
    if outs is None:
        return
    rep.count(paths=len(outs), matchers=1)
    wh = "src/%s:%s" % (f["file"], f["L"]) if f.get("file") else WCPP
    nums = tr.st.facts.q(("numeric", own))
    for o in outs:
        t = top(o)
        d = describe(t)
        F = o.st.facts
        if o.exit not in ("next", "return"):
            rep.bad("accept-total", "matching a '%s' header does not complete: %s" % (kind, o.val if isinstance(o.val, str) else o.exit), wh, d)
            continue
        if kind == "exact":
            judge(rep, o, F, "exact", ("eq", VALUE, own), wh, d)
        elif kind == "number":
            isnum = F.q(("numeric", VALUE))
            r = truth(o)
            if isnum is False:
                rep.expect(None if r is None else not r, "nan", "a value that is not a number is not accepted", wh, d, msg="a 'threads' value that is not a number is accepted")
                continue
            if isnum is None:
                if r is None or opaque(o.val) and not str_known(o.val):
                    rep.undecided("number", "numeric comparison not recognised", wh)
                else:
                    rep.bad("number", "'threads' values are not compared as numbers", wh, d)
                continue
            a = ("ap", "num", VALUE)
            b = ("ap", "num", own)
            if F.q(("numeric", own)) is False:
                rep.ok("number", "the worker's own value is no number, any answer will do")
                continue
            if r is None:
                v = o.val
                neg = False
                while v[0] == "not":
                    v, neg = v[1], not neg
                if v[0] == "lt" and v[1] in (a, b) and v[2] in (a, b) and v[1] != v[2]:
                    good = (v[1] == b and neg)
                elif v[0] == "le" and v[1] in (a, b) and v[2] in (a, b) and v[1] != v[2]:
                    good = (v[1] == a and not neg)
                elif v[0] == "eqi" or v[0] == "eq":
                    good = False
                else:
                    good = None
                rep.expect(good, "number", "numbers up to the worker's own are accepted", wh, d, msg="'threads' does not accept exactly the numbers up to the worker's own (%s)" % show(o.val)[:80])
            else:
                lt = F.q_lt(b, a)
                if lt is None:
                    wrong = F.copy()
                    try:
                        wrong.assume(("cmp", "<", b, a), r)
                        known = all(str_known(x) for x in F.atoms)
                    except Infeasible:
                        known = False
                    rep.expect(False if known else None, "number", "numeric comparison recognised", wh, d, msg="'threads' does not accept exactly the numbers up to the worker's own")
                else:
                    rep.expect(r == (not lt), "number", "numbers up to the worker's own are accepted", wh, d, msg="'threads' does not accept exactly the numbers up to the worker's own")
        else:
            pass
    if kind == "list":
        list_rules(rep, outs, own, wh)


def judge(rep, o, F, rule, atom, wh, d):
    """the result equals the truth of an equality"""
    r = truth(o)
    a, b = atom[1], atom[2]
    msg = "a header is not matched by equality with the worker's value"
    if r is not None:
        q = F.q_eq(a, b)
        if q is None:
            # decided otherwise
            known = all(str_known(x) for x in F.atoms)
            rep.expect(None if not known else False, rule, "equality", wh, d, msg=msg)
        else:
            rep.expect(q == r, rule, "equality", wh, d, msg=msg)
        return
    v = o.val
    neg = False
    while v[0] == "not":
        v, neg = v[1], not neg
    if v[0] == "eq" and {v[1], v[2]} == {a, b}:
        rep.expect(not neg, rule, "equality", wh, d, msg=msg)
        return
    rep.expect(None if opaque(v) and not str_known(v) else False, rule, "equality", wh, d, msg=msg)


def list_rules(rep, outs, own, wh):
    """VALUE is a list of items separated by '|'; accepted iff one item equals own"""
    rule = "list"
    msg = "a group list is not matched by equality of one of its items with the worker's group"

    def find(off):
        return ("ap", "str.find", VALUE, S("|"), off)

    def item_at(off, F):
        p = find(off)
        npos = F.q_eqi(p, NPOS)
        n = size_of(VALUE)
        forms = []
        if npos is not False:
            forms += [("ap", "substr", VALUE, off, NPOS), ("ap", "substr", VALUE, off, sub(n, off)), ("ap", "substr", VALUE, off, n)]
            if npos is True:
                forms.append(("ap", "substr", VALUE, off, p))
            if off == N(0):
                forms.append(VALUE)
        if npos is not True:
            forms += [("ap", "substr", VALUE, off, sub(p, off))]
        if npos is None:
            forms += [("ap", "substr", VALUE, off, p)] if off == N(0) else []
        return forms, npos

    tok = [t for o in outs for e, _ in loops_of(o.st.events) for t in [e.d["rec"].coll] if t is not None and t[0] == "ap" and t[1] == "tokens"]
    for o in outs:
        tr = top(o)
        d = describe(tr)
        if o.exit not in ("next", "return"):
            continue
        r = truth(o)
        if r is None:
            v = o.val
            rep.expect(None if not str_known(v) or contains(v, lambda x: x and x[0] in ("phi", "acc", "sum")) else False, rule, "list of groups", wh, d, msg=msg)
            continue
        loops = [e for e in o.st.events if e.kind == "loop"]
        if not loops:
            # decided without going through the list
            F = o.st.facts
            whole = F.q_eq(VALUE, own)
            nolist = F.q_eqi(find(N(0)), NPOS)
            if r is True:
                good = [x for x in item_at(N(0), F)[0] if F.q_eq(x, own) is True]
                okk = True if good and (nolist is True or good != [VALUE]) else None
                if whole is True:
                    okk = True  # (a group without the separator)
                if okk is None:
                    okk = False if all(str_known(a) for a in F.atoms) else None
            else:
                okk = True if F.q_eqi(size_of(VALUE), N(0)) is True or F.q_lt(N(0), size_of(VALUE)) is False or (whole is False and nolist is True) else (False if all(str_known(a) for a in F.atoms) else None)
            rep.expect(okk, rule, "list of groups", wh, d, msg=msg)
            continue
        if len(loops) > 1:
            rep.undecided(rule, "more than one loop over the list", wh)
            continue
        e = loops[0]
        L = e.d["rec"]
        # the cursor: where does the item begin
        curs = [(k, c) for k, c in L.cells.items() if any(mentions(x, find(c["phi"])) or mentions(x, ("ap", "substr", VALUE, c["phi"], NPOS)) for b in L.bodies for x in list(b.st.facts.atoms) + [t for key in b.st.facts.bnd for t, _ in key])]
        if len(curs) != 1:
            lit = [x for b in L.bodies for x in subterms_of(b) if x and x[0] == "ap" and x[1] == "str.find" and x[2] == VALUE and x[3][0] == "str" and x[3] != S("|")]
            if lit:
                rep.bad(rule, "group lists are not split at '|' but at %s" % show(lit[0][3]), wh, d)
            else:
                rep.undecided(rule, "loop over the list not recognised", wh)
            continue
        label, c = curs[0]
        off = c["phi"]
        if c["old"] != N(0):
            rep.expect(None if opaque(c["old"]) and not str_known(c["old"]) else False, rule, "starts at the first item", wh, d, msg="the first item of a group list is not looked at from its beginning")
        for b in L.bodies:
            F = b.st.facts
            bt = Tr(b.events, b.st, b.exit, b.val, ((L, b),), o)
            bd = describe(bt)
            forms, npos = item_at(off, F)
            eq = [F.q_eq(x, own) for x in forms]
            q = True if True in eq else False if False in eq else None
            last = npos is True
            nxt = c["per"].get(b.pid, ("same",))
            if b.exit == "next":
                if q is not False:
                    rep.expect(None if not all(str_known(a) for a in F.atoms) else False, rule, "an item that equals the group is accepted", wh, bd, msg=msg)
                    continue
                if nxt[0] in ("set", "other", "add"):
                    nv = nxt[1] if nxt[0] != "add" else add(off, nxt[1])
                    if nv == add(find(off), N(1)):
                        rep.ok(rule, "the next item begins after the separator")
                    elif last and (F.q_lt(nv, size_of(VALUE)) is False):
                        rep.ok(rule, "after the last item the loop ends")
                    else:
                        rep.expect(False if str_known(nv) and not last else None, rule, "next item", wh, bd, msg="going through a group list continues elsewhere than after the separator")
                else:
                    rep.bad(rule, "going through a group list does not advance", wh, bd)
            elif e.d["exit"] == b.pid:
                if r is True:
                    rep.expect(True if q is True else (False if all(str_known(a) for a in F.atoms) else None), rule, "accepted because an item equals the group", wh, bd, msg=msg)
                else:
                    rep.expect(True if q is False and last else (False if all(str_known(a) for a in F.atoms) else None), rule, "refused after the last item", wh, bd, msg="a group list is refused before its last item was looked at")
        if e.d["exit"] is None:
            if r is True:
                rep.expect(None if any(a[0] == "some" for a in o.st.facts.atoms) else False, rule, "refused at the end", wh, d, msg="a group list none of whose items equals the group is accepted")
            else:
                F = o.st.facts
                done = F.q_lt(off, size_of(VALUE)) is False or F.q_eqi(off, NPOS) is True or F.q_eqi(find(off), NPOS) is True and False
                early = None
                if not done:
                    late = F.copy()
                    try:
                        late.assume(("cmp", "<", add(off, N(1)), size_of(VALUE)), True)
                    except Infeasible:
                        # the loop ended because of how close the item begins to the end
                        early = False
                rep.expect(True if done else early, rule, "refused after the last item", wh, d, msg="a group list is refused before its last item was looked at")


def subterms_of(b):
    for a in b.st.facts.atoms:
        yield from subterms(a)
    for key in b.st.facts.bnd:
        for t, _ in key:
            yield from subterms(t)
