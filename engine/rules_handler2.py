"""Rules about the message handler, second part: ping, progress, freeze, statistics, robustness, payload, registration,
dispatch, monitor."""
from rules_handler import *
from witness import admits
from rules_handler import SENDER, DATA, WORKERS, EMPTY

NPOS = N(2**64 - 1)


def clean(ctx, tr, skip_fields=(), responses=True):
    """visible effects other than the liveness refresh"""
    tf = timer_field(ctx)
    out = []
    for e in effects(ctx, tr):
        if e.kind == "respond" and not responses:
            continue
        if e.kind in ("w", "cm"):
            loc = e.d.get("loc") or (e.d["root"], e.d["steps"])
            if loc[0] == ("h", "handler") and loc[1] and loc[1][0][1] in skip_fields:
                continue
        out.append(e)
    return out


def registered(tr):
    """does the sender belong to a registered worker? True / False / None (never looked up)"""
    if sender_worker(tr) is not None:
        return True
    for e, _ in loops_of(tr.events):
        L = e.d["rec"]
        if e.d["exit"] is None and L.coll is not None and mentions(L.coll, ("drf", WORKERS)):
            for b in L.bodies:
                if b.exit != "next" and any(a[0] == "eq" and v is True and SENDER in (a[1], a[2]) for a, v in b.st.facts.atoms.items()):
                    return False
    return None


def loops_of(events):
    for e in events:
        if e.kind == "loop":
            yield e, False
            for b in e.d["rec"].bodies:
                if b.exit == "next" or b.pid == e.d["exit"]:
                    for x, _ in loops_of(b.events):
                        yield x, True


def find_loop(events, inst):
    for e, _ in loops_of(events):
        if e.d["rec"].inst == inst:
            return e.d["rec"]
    return None


def one_reply(ctx, rep, n, tr, key, what):
    """the only response of a trace, or None (already reported)"""
    rs = responds(tr)
    d = describe(tr)
    if calls_unknown(tr):
        rep.undecided("reply", "a callback the analysis cannot follow")
        return None
    if any(to(e, key) is None for e, r in rs):
        rep.undecided("reply", "a response with a computed key")
        return None
    if len(rs) != 1 or rs[0][1]:
        rep.bad("reply", "a '%s' message gets %s (%s)" % (n, "no reply" if not rs else "more than one message in reply", what), where(rs[-1][0]) if rs else exit_where(tr), d)
        return None
    e = rs[0][0]
    if not to(e, key):
        rep.bad("reply", "the reply to '%s' goes to '%s'" % (n, show(msg_of(e)[0])), where(e), d)
        return None
    return e


# ------------------------------------------------------------------------------------------------ ping
def c12(ctx, rep):
    for n, tr in each(ctx, rep, ["ping"]):
        if failed_exit(rep, "reply", n, tr):
            continue
        d = describe(tr)
        e = one_reply(ctx, rep, n, tr, "workers", "exactly one is due")
        if e is None:
            continue
        _, ident, data = msg_of(e)
        rep.expect(same(tr.facts, ident, SENDER), "addressee", "the reply goes to the sender", where(e), d, msg="the reply to a ping does not go to its sender")
        reg = registered(tr)
        fr = frames(data)
        if fr is None or len(fr) != 1 or fr[0][0] != "str":
            rep.expect(None if opaque(data) else False, "reply", "a one-frame reply", where(e), d, msg="a ping is answered with something other than pong or intro")
            continue
        if reg is None:
            lookups = any(x.kind in ("loop", "ext") for x in tr.events)
            if lookups:
                rep.undecided("which", "registration of the sender not recognised", where(e))
            else:
                rep.bad("which", "a ping is answered without looking up whether its sender is registered", where(e), d)
            continue
        want = "pong" if reg else "intro"
        rep.expect(fr[0] == S(want), "which", "%s worker: %s" % ("registered" if reg else "unknown", want), where(e), d, msg="a ping from %s worker is answered with %s" % ("a registered" if reg else "an unknown", show(fr[0])))
        oth = [x for x in clean(ctx, tr, responses=False)]
        rep.expect(not oth, "nothing-else", "no other effect", where(oth[0]) if oth else "", d, msg="a ping has an effect other than its reply")


# ------------------------------------------------------------------------------------------------ progress
def c13(ctx, rep):
    want = {slice_of(DATA, N(1), size_of(DATA))} if "slice_of" in globals() else set()
    for n, tr in each(ctx, rep, ["progress"]):
        if failed_exit(rep, "relay", n, tr):
            continue
        d = describe(tr)
        e = one_reply(ctx, rep, n, tr, "monitor", "exactly one relayed message is due")
        if e is None:
            continue
        _, ident, data = msg_of(e)
        w = ("slice", DATA, N(1), size_of(DATA))
        if data == w or data in want:
            v = True
        else:
            v = same_seq(tr.facts, data, DATA, N(1), tr.events)
        rep.expect(v, "verbatim", "all frames after the command, unchanged", where(e), d, msg="a progress message is not relayed with exactly the frames after its command (%s)" % show(data)[:80])
        rep.expect(True if ident == S("recodex-monitor") else None if opaque(ident) else False, "addressee", "addressed to the monitor", where(e), d, msg="a progress message is not addressed to the monitor's identity")
        oth = clean(ctx, tr, responses=False)
        rep.expect(not oth, "nothing-else", "no other effect", where(oth[0]) if oth else "", d, msg="a progress message has an effect other than being relayed")


def drops_some(t, base, start, events):
    """a list built by a loop over base[start..): does some iteration leave out or change its element?"""
    L = find_loop(events, t[1]) if t[0] == "acc" else None
    if L is None or L.coll is None or L.sym is None or L.start is None:
        return False
    el = None
    if L.coll[0] == "acc" and L.start == N(0) and dict(t[3]):
        # a copy of a list built before
        L1 = find_loop(events, L.coll[1])
        own = {("one", at(L.coll, L.sym))}
        if L1 is not None and L1.sym is not None:
            own |= {subst(p, {L1.sym: L.sym}) for pid, ps in L.coll[3] for p in ps}
        if all(len(ps) == 1 and ps[0] in own for ps in dict(t[3]).values()):
            return drops_some(L.coll, base, start, events)
        return False
    if L.coll == base and L.start == start:
        el = at(base, L.sym)
    elif L.coll == ("slice", base, start, size_of(base)) and L.start == N(0):
        el = at(L.coll, L.sym)
    if el is None:
        return False
    items = dict(t[3])
    for b in L.bodies:
        if b.exit != "next":
            continue
        ps = items.get(b.pid, ())
        if not ps:
            return True
        if len(ps) != 1 or ps[0][0] != "one":
            return ps[0][0] == "one"
        if ps[0][1] != el and not opaque(ps[0][1]) and b.st.facts.q_eq(ps[0][1], el) is not True:
            return True
    return False


def same_seq(f, t, base, start, events=()):
    """is the sequence exactly base[start..)?  True/False/None"""
    if t[0] == "acc" and drops_some(t, base, start, events):
        return False
    n = size_of(base)
    if t == ("slice", base, start, n):
        return True
    hi = f.bounds(n)
    if t[0] == "seq":
        # explicit parts
        pos = start
        for p in t[1]:
            if p[0] == "one":
                if p[1] == at(base, pos) or f.q_eq(p[1], at(base, pos)) is True:
                    pos = add(pos, N(1))
                    continue
                return None if opaque(p[1]) else False
            x = p[1]
            if x[0] == "slice" and x[1] == base and f.q_eqi(x[2], pos) is True:
                pos = x[3]
                continue
            return None if opaque(x) or x[0] in ("acc", "acccat", "accm") else False
        q = f.q_eqi(pos, n)
        return q if q is not None else False
    if t[0] == "slice" and t[1] == base:
        a, b = f.q_eqi(t[2], start), f.q_eqi(t[3], n)
        if a is True and b is True:
            return True
        return False
    if t == base:
        return False
    return None if opaque(t) or t[0] in ("acc", "acccat", "accm") else False


# ------------------------------------------------------------------------------------------------ freeze
def c14(ctx, rep):
    fz = frozen_field(ctx)
    if fz is None:
        try:
            ctx.runs("freeze"), ctx.runs("unfreeze")
        except Limit as l:
            rep.undecided("state", str(l))
            return
        tg = toggled(ctx)
        if tg is not None:
            rep.bad("state", "'%s' turns the frozen state over instead of setting it" % tg[0], exit_where(tg[1]), describe(tg[1]))
        elif frozen_by_key(ctx):
            rep.undecided("state", "the frozen state is not kept in a field of the handler")
        elif any(e.kind == "callop" for c in ("freeze", "unfreeze") for o in ctx.runs(c) for e, _ in flat(o.st.events)):
            rep.undecided("state", "a call that is not understood may change the frozen state")
        else:
            o = ctx.runs("freeze")
            rep.bad("state", "'freeze' and 'unfreeze' do not set and reset a common state on every path", "src/handlers/broker_handler.cpp", describe(top(o[0])) if o else [])
        return
    init = plain(fld(ctx.H.initial, fz))
    rep.expect(True if init == ctx._frozen_vals[1] else None if opaque(init) else False, "initial", "a new broker is not frozen", "src/handlers/broker_handler.h", [], msg="a new broker starts frozen")
    for n, tr in each(ctx, rep, ["freeze", "unfreeze"]):
        if failed_exit(rep, "ack", n, tr):
            continue
        d = describe(tr)
        e = one_reply(ctx, rep, n, tr, "clients", "exactly one ack is due")
        if e is None:
            continue
        _, ident, data = msg_of(e)
        rep.expect(same(tr.facts, ident, SENDER), "addressee", "ack to the sender", where(e), d, msg="the ack of '%s' does not go to its sender" % n)
        rep.expect(frames(data) == [S("ack")] if not opaque(data) else None, "ack", "acknowledged", where(e), d, msg="'%s' is not answered with ack" % n)
        oth = clean(ctx, tr, skip_fields=(fz,), responses=False)
        rep.expect(not oth, "nothing-else", "nothing but the state changes", where(oth[0]) if oth else "", d, msg="'%s' changes something besides the frozen state" % n)
    sym = ("sym", "H." + fz)
    for n, tr in each(ctx, rep, ["eval"]):
        if tr.exit in ("throw", "crash"):
            continue
        d = describe(tr)
        fr = frozen_flag(ctx, tr)
        enq = [e for e, r in qops(tr)]
        sent = [e for e, r in jobs_sent(ctx, tr)]
        if enq or sent:
            wh = where((enq + sent)[0])
            if fr is True:
                rep.bad("frozen", "a frozen broker hands an eval request to the queue", wh, d)
            elif fr is None and not any(mentions(a, sym) for a in tr.facts.atoms):
                rep.bad("frozen", "an eval request reaches the queue without the frozen state having been checked", wh, d)
            else:
                rep.expect(True if fr is False else None, "frozen", "only when not frozen", wh)
        if fr is True:
            a = answer(tr)
            if a is not None:
                rep.expect(a[0] == "reject", "frozen-reject", "frozen: rejected", where(a[1]), d, msg="a frozen broker accepts an eval request")
            elif eval_shape(tr)[0] == "complete":
                rep.bad("frozen-reject", "a frozen broker does not reject a complete eval request", exit_where(tr), d)
        if fr is False and answer(tr) is not None and answer(tr)[0] == "reject" and not enq:
            rep.bad("not-frozen", "an eval request is rejected without being offered to the queue although the broker is not frozen", where(answer(tr)[1]), d)
    # nothing else sets the state, nothing else depends on it
    for n in [x for x in ALL_RUNS if x not in ("freeze", "unfreeze")]:
        try:
            outs = ctx.runs(n)
        except Limit as l:
            rep.undecided("stays", "message '%s': %s" % (n, l))
            continue
        sig = {True: set(), False: set()}
        dep = None
        for o in outs:
            tr = top(o)
            v = fld(o.st.store[("h", "handler")], fz)
            rep.expect(True if v == sym else None if opaque(v) else same(tr.facts, v, sym), "stays", "'%s' leaves the frozen state alone" % n, exit_where(tr), describe(tr), msg="the frozen state changes while handling '%s'" % n)
            q = frozen_flag(ctx, tr)
            if n != "eval":
                if q is not None:
                    dep = dep or tr
                s = tuple(sig_of(e) for e, r in flat(tr.events) if e.kind in ("respond", "q", "w", "cm"))
                for k in ((True, False) if q is None else (q,)):
                    sig[k].add(s)
        if dep is not None and n != "get-runtime-stats":
            rep.expect(sig[True] == sig[False], "unaffected", "'%s' is handled alike when frozen" % n, exit_where(dep), describe(dep), msg="handling '%s' differs when the broker is frozen" % n)
        else:
            rep.ok("unaffected", "'%s' is handled alike when frozen" % n)


def sig_of(e):
    return (e.kind, repr(sorted((k, repr(v)) for k, v in e.d.items() if k != "rec")))


def toggled(ctx):
    """a run of 'freeze' or 'unfreeze' that leaves the only state they change at the opposite of what it was"""
    base = ctx.H.base.store[("h", "handler")]
    changed = {}
    for cmd in ("freeze", "unfreeze"):
        for o in ctx.runs(cmd):
            for fd in ctx.H.rec["fields"]:
                v, old = fld(o.st.store[("h", "handler")], fd["n"]), fld(base, fd["n"])
                if v != old:
                    changed.setdefault((fd["n"], old), []).append((cmd, o, v))
    if len(changed) != 1:
        return None
    for (n, sym), l in changed.items():
        for cmd, o, v in l:
            if v in (("not", sym), ("cmp", "==", sym, FALSE), ("cmp", "==i", sym, N(0)), ("cmp", "!=", sym, TRUE)):
                return cmd, top(o)
    return None


def frozen_by_key(ctx):
    """is some handler state changed at all (differently) by freeze and unfreeze?"""
    def st(n):
        return {o.st.store[("h", "handler")] for o in ctx.runs(n)}

    a, b = st("freeze"), st("unfreeze")
    base = ctx.H.base.store[("h", "handler")]
    return not (a & b) and base not in a and base not in b and all(len(x) == 1 for x in (a, b))


# ------------------------------------------------------------------------------------------------ statistics
STATS = ("queued-jobs", "evaluated-jobs", "failed-jobs", "worker-count", "idle-worker-count")


def stat(ctx, st, sf, name):
    I = ctx.H.I
    old, I.st = I.st, st
    try:
        m = I.as_map(I.read((("h", "handler"), (("f", sf),))))
        r = I.map_find(m, S(name))
        return r[1] if r[0] == "entry" else None if r[0] == "absent" else ("mg", r[1], S(name))
    finally:
        I.st = old


def c15(ctx, rep):
    sf = stats_field(ctx)
    if sf is None:
        rep.undecided("stats", "no table of statistics recognised in the handler")
        return
    sym = ("sym", "H." + sf)
    fz = frozen_field(ctx)
    I = ctx.H.I
    init = I.as_map(fld(ctx.H.initial, sf)) if fld(ctx.H.initial, sf)[0] in ("map", "empty") else None
    if init is not None and init[1] == ("empty",):
        have = {k: v for k, v in init[2]}
        for s in STATS:
            v = have.get(S(s))
            rep.expect(v == N(0) if v is not None else False, "initial", "%s starts at zero" % s, "src/handlers/broker_handler.cpp", [], msg="statistic '%s' is %s in a new broker" % (s, "missing" if v is None else "not zero"))
    for n, tr in each(ctx, rep, ["get-runtime-stats"]):
        if failed_exit(rep, "reply", n, tr):
            continue
        d = describe(tr)
        e = one_reply(ctx, rep, n, tr, "clients", "exactly one is due")
        if e is None:
            continue
        _, ident, data = msg_of(e)
        rep.expect(same(tr.facts, ident, SENDER), "addressee", "the reply goes to the sender", where(e), d, msg="the statistics are not sent to the client that asked")
        oth = clean(ctx, tr, responses=False)
        rep.expect(not oth, "nothing-else", "no other effect", where(oth[0]) if oth else "", d, msg="reading the statistics changes something")
        if data[0] != "seq":
            rep.undecided("content", "statistics in a form not recognised", where(e))
            continue
        names, whole, bad = {}, False, False
        parts = list(data[1])
        i = 0
        flatp = []
        for p in parts:
            if p[0] == "one":
                flatp.append(("one", p[1]))
            else:
                flatp.append(("all", p[1]))
        while i < len(flatp):
            k, v = flatp[i]
            if k == "all":
                if v[0] == "acc":
                    L = find_loop(tr.events, v[1])
                    okk = L is not None and L.coll == sym and len(L.bodies) == 1 and L.bodies[0].exit == "next"
                    if okk:
                        pp = v[3][0][1] if v[3] else ()
                        key = ("ky", sym, L.sym)
                        want = (("one", key), ("one", ("str_of", key)))
                        okk = len(pp) == 2 and pp[0] == ("one", key) and is_text_of(pp[1], lambda x: x[0] in ("mg", "mgx") and x[1] == sym and mentions(x, key) or x == ("vl", sym, L.sym))
                        if okk:
                            whole = True
                        elif len(pp) == 2 and not opaque(pp[0][1]) and not opaque(pp[1][1]):
                            rep.bad("content", "the statistics reply does not pair each name with its own value", where(e), d)
                            bad = True
                        else:
                            rep.undecided("content", "pairs of a form not recognised", where(e))
                            bad = True
                    else:
                        rep.undecided("content", "a loop over something else", where(e))
                        bad = True
                elif leftover(v):
                    rep.bad("content", "the statistics reply starts with what earlier requests left", where(e), d)
                    bad = True
                else:
                    rep.undecided("content", "frames of unknown content", where(e))
                    bad = True
                i += 1
                continue
            if i + 1 >= len(flatp) or flatp[i + 1][0] != "one" or v[0] != "str":
                rep.expect(None if opaque(v) else False, "content", "name/value pairs", where(e), d, msg="the statistics reply is not a list of name/value pairs")
                bad = True
                break
            names[v[1]] = flatp[i + 1][1]
            i += 2
        if bad:
            continue
        for s in STATS:
            if whole and s not in names:
                rep.ok("content", "%s is included" % s)
            elif s in names:
                rep.expect(is_text_of(("one", names[s]), lambda x: x == ("mg", sym, S(s))) or None, "content", "%s is included" % s, where(e), d)
            else:
                rep.bad("content", "statistic '%s' is missing in the reply" % s, where(e), d)
        if "is-frozen" not in names:
            rep.bad("content", "statistic 'is-frozen' is missing in the reply", where(e), d)
        elif fz is not None:
            x = names["is-frozen"]
            good = is_text_of(("one", x), lambda y: frozen_text(ctx, y))
            if not good and x[0] == "str":
                q = frozen_flag(ctx, tr)
                good = q is not None and x[1] in (("1", "true") if q else ("0", "false"))
            rep.expect(True if good else None if opaque(x) else False, "frozen", "is-frozen is the actual state", where(e), d, msg="is-frozen does not report the frozen state")
    # counters
    for n in ALL_RUNS:
        if n == "timer":
            continue
        for n, tr in each(ctx, rep, [n]):
            if tr.exit in ("throw", "crash"):
                continue
            d = describe(tr)
            st = tr.facts.eqc.get(at(DATA, N(2))) if n == "done" else None
            eff = [e for e, r in flat(tr.events) if e.kind == "q" and e.d["op"] in ("finished", "cancelled")] if n == "done" else []
            for name in STATS[1:3]:
                v = stat(ctx, tr.st, sf, name)
                old = ("mg", sym, S(name))
                inc = 0
                if eff:
                    inc = 1 if (name == "evaluated-jobs") == (st == S("OK")) else 0
                if v is None:
                    rep.bad("count", "statistic '%s' disappears" % name, exit_where(tr), d)
                    continue
                okk = v == add(old, N(inc)) or same(tr.facts, v, add(old, N(inc))) is True
                if not okk and has_default(tr, sym, name):
                    continue
                rep.expect(True if okk else None if opaque(v) else False, "count", "'%s' counted right on '%s'" % (name, n), exit_where(tr), d, msg="'%s' is not raised by exactly %d while handling '%s'%s" % (name, inc, n, " with status " + show(st) if st else ""))
    for n, tr in each(ctx, rep, ["timer"]):
        if tr.exit in ("throw", "crash"):
            continue
        timer_stats(ctx, rep, tr, sf, sym)


def has_default(tr, sym, name):
    """a trace on which the entry was found missing (impossible after the constructor)"""
    return tr.facts.q(("has", sym, S(name))) is False


def is_text_of(part, pred):
    """('one', text of a value satisfying pred)"""
    t = part[1]
    if t[0] in ("str_of", "tostr", "ap", "text", "tos"):
        return any(isinstance(x, tuple) and x and isinstance(x[0], str) and pred(x) for x in t[1:] if isinstance(x, tuple))
    if len(t) == 2 and isinstance(t[1], tuple) and t[1]:
        return bool(pred(t[1]))
    return False


def timer_stats(ctx, rep, tr, sf, sym):
    d = describe(tr)
    reg = ctx.read(tr.st, (("p", WORKERS), (("f", "workers_"),))) if False else registry_value(ctx, tr.st)
    ev = tr.events
    # queued
    v = stat(ctx, tr.st, sf, "queued-jobs")
    cnts = [e for e, r in flat(ev) if e.kind == "q" and e.d["op"] == "count"]
    last_mut = max([i for i, e in enumerate(ev) if any(x.kind == "q" and x.d["op"] in MUTATORS for x, _ in flat([e]))] or [-1])
    good = [e for e in ev if e.kind == "q" and e.d["op"] == "count" and ev.index(e) > last_mut and e.d["ret"] == v]
    wh = where(cnts[0]) if cnts else "src/handlers/broker_handler.cpp"
    if v is None or not good:
        rep.expect(None if v is not None and opaque(v) and v[0] != "sym" else False, "tick-queued", "queued-jobs is the current number", wh, d, msg="a tick does not set queued-jobs to the number of waiting jobs at its end")
    else:
        rep.ok("tick-queued", "queued-jobs is the current number")
    # workers
    v = stat(ctx, tr.st, sf, "worker-count")
    if reg is None or v is None:
        if v is None:
            rep.bad("tick-workers", "worker-count is not set by a tick", wh, d)
        else:
            rep.undecided("tick-workers", "registry not recognised")
    else:
        okk = same(tr.facts, v, size_of(reg))
        rep.expect(True if okk else None if v[0] not in ("mg", "n", "size", "lin") else False, "tick-workers", "worker-count is the registry's size", wh, d, msg="a tick does not set worker-count to the number of registered workers at its end")
    # idle, in progress
    vi = stat(ctx, tr.st, sf, "idle-worker-count")
    vp = stat(ctx, tr.st, sf, "jobs-in-progress")
    ri = counted(ctx, tr, vi, reg, True)
    rep.expect(ri, "tick-idle", "idle-worker-count counts workers without a job", wh, d, msg="a tick does not set idle-worker-count to the number of workers without a current job")
    if vp is not None and vi is not None and v is not None:
        if same(tr.facts, vp, sub(v, vi)) is True:
            rep.ok("tick-progress", "workers = idle + in progress")
        else:
            rp = counted(ctx, tr, vp, reg, False)
            rep.expect(rp, "tick-progress", "workers = idle + in progress", wh, d, msg="a tick does not set jobs-in-progress to the number of busy workers")
    elif vp is None or vp == ("mg", sym, S("jobs-in-progress")):
        rep.bad("tick-progress", "jobs-in-progress is not set by a tick", wh, d)


def registry_value(ctx, st):
    """the registry's list of workers in a state"""
    r = ctx.mprog.rec_by_q("worker_registry")
    if r is None:
        return None
    for fd in r["fields"]:
        if "worker" in fd["ty"] and tmpl_name(fd["ty"]) in ("std::vector", "std::list", "std::deque"):
            return ctx.read(st, (("p", WORKERS), (("f", fd["n"]),)))
    return None


def counted(ctx, tr, v, reg, idle):
    """is v the number of registered workers without (idle) / with a current job? True/False/None"""
    if v is None:
        return False
    if v[0] == "lin":
        # sum plus constant: definite mismatch only if it is a recognised sum with an offset
        s = [t for t in subterms(v) if t and t[0] == "sum"]
        if len(s) == 1 and v != s[0]:
            x = sub(v, s[0])
            if x[0] == "n":
                return False
            if x[0] == "mg" and x[2][0] == "str":
                return False  # added to the value of the previous tick
        return None
    if v[0] == "n" or v[0] == "mg":
        return False if v[0] == "mg" or tr.facts.q_eqi(size_of(reg), v) is not True else None
    if v[0] != "sum":
        return None
    L = find_loop(tr.events, v[1])
    if L is None or L.sym is None:
        return None
    if L.coll != reg:
        return None if reg is None or opaque(L.coll) else False
    el = at(L.coll, L.sym)
    inc = dict(v[3])
    for b in L.bodies:
        if b.exit != "next":
            return False
        cur = None
        for e in b.events:
            if e.kind == "q" and e.d["op"] == "current" and e.d["w"] == el:
                cur = b.st.facts.q(e.d["ret"])
                if e.d["ret"] == NULL:
                    cur = False
        if cur is None:
            if any(e.kind == "q" and e.d["op"] == "current" for e in b.events) or any(e.kind == "ext" for e in b.events):
                return None
            return False
        want = 1 if (not cur) == idle else 0
        have = inc.get(b.pid, N(0))
        have = have[1] if isinstance(have, tuple) and have and have[0] == "n" else have
        if have != want:
            return False
    return True


# ------------------------------------------------------------------------------------------------ robustness
def c16(ctx, rep):
    for n, tr0 in each(ctx, rep, ALL_RUNS):
        robust(rep, n, tr0)


def robust(rep, n, tr0, what="handling a '%s' message"):
    label = what % n if "%s" in what else what
    if tr0.exit in ("throw", "crash"):
        rep.bad("completes", "%s does not complete: %s" % (label, why_exit(tr0)), exit_where(tr0), describe(tr0))
        return
    rep.ok("completes", "%s completes" % label)
    for tr in subtraces(tr0):
        for e in tr.events:
            if e.kind == "hazard":
                rep.bad("hazard", "%s: %s (%s)" % (label, e.d["why"], show(e.d["term"])[:80]), where(e), describe(tr))
            if e.kind == "w" and e.d["val"][0] == "ap" and e.d["val"][1] == "wrapped" or e.kind == "w" and e.d["val"][0] == "wrapped":
                rep.bad("wrap", "%s: an unsigned counter may wrap around below zero" % label, where(e), describe(tr))
        for e in tr.events:
            if e.kind == "loop":
                for b in e.d["rec"].bodies:
                    if b.exit in ("throw", "crash") and b.pid == e.d["exit"]:
                        pass


# ------------------------------------------------------------------------------------------------ payload, headers
def split_at_eq(frame):
    """accepted forms of name and value of a header frame"""
    return ("ap", "str.find", frame, S("="), N(0))


def header_pairs(ctx, tr, term):
    """-> (loop, {pid: [(key, value)]}, extra entries) of a header map built from message frames, or None"""
    extra = []
    while term[0] == "map" and term[1] != ("empty",) and len(term[2]) == 0:
        term = term[1]
    if term[0] == "map":
        extra = list(term[2])
        term = term[1]
    if term == ("empty",):
        return None, {}, extra
    if term[0] == "accm":
        inst, label = term[1], term[2]
    elif term[0] == "phi":
        inst, label = term[1], term[2]
    else:
        return None
    L = find_loop(tr.events, inst)
    if L is None:
        return None
    c = L.cells.get(label)
    if c is None:
        return None
    old = c["old"]
    if old[0] == "map" and old[1] == ("empty",):
        extra += list(old[2])
    elif leftover(old):
        extra.append((old, old))
    elif old != ("empty",):
        return None
    per = {}
    for b in L.bodies:
        if b.exit != "next":
            continue
        k = c["per"].get(b.pid, ("other",))
        if k[0] == "same":
            per[b.pid] = []
        elif k[0] == "map":
            per[b.pid] = list(k[1])
        else:
            return None
    return L, per, extra


def header_rules(ctx, rep, tr, term, wh, meta, who):
    """term: the header map; every frame up to the terminator contributes its name and value split at the first '='"""
    d = describe(tr)
    hp = header_pairs(ctx, tr, term)
    if hp is None:
        rep.undecided("headers", "header map of %s of a form not recognised" % who, wh)
        return
    L, per, extra = hp
    if extra:
        rep.bad("headers", "%s gets a header that is not in the message" % who, wh, d)
    if L is None:
        # no loop: only right if there is no header frame
        lo, hi = tr.facts.bounds(size_of(DATA))
        t = terminator(tr)
        if hi <= 2 or t == N(2) or tr.facts.q_eq(at(DATA, N(2)), EMPTY) is True:
            rep.ok("headers", "no headers in the message")
        else:
            rep.bad("headers", "the headers of the message do not reach %s" % who, wh, d)
        return
    cur = L.sym
    if L.coll != DATA or cur is None:
        rep.undecided("headers", "loop over something other than the message", wh)
        return
    fr = at(DATA, cur)
    pos = split_at_eq(fr)
    for b in L.bodies:
        if b.exit != "next":
            continue
        bt = Tr(b.events, b.st, b.exit, b.val, ((L, b),), tr.out)
        ins = per.get(b.pid, [])
        ism = is_meta(b, fr) if meta else False
        dup = any(e.kind == "cm" and e.d["op"] == "map-insert-dup" for e in b.events)
        if any(e.kind == "ext" and any(isinstance(a, tuple) and mentions(a, fr) for a in e.d.get("args", ())) and not e.d["q"].startswith("spdlog") for e in b.events):
            rep.undecided("headers", "a header frame is handled by code the analysis cannot follow", wh)
            continue
        if meta and ism is True:
            rep.expect(not ins, "meta", "meta headers do not reach the worker selection", where(b.events[0]) if b.events else wh, describe(bt), msg="a 'meta.' header restricts the choice of the worker")
            continue
        if meta and ism is None and ins:
            w = header_witness(b.st.facts, fr, META_NAMES)
            if w is not None:
                rep.bad("meta", "the header '%s' restricts the choice of the worker" % w, wh, describe(bt))
                continue
            if any(contains(a, lambda x: x and x[0] == "str" and "meta" in str(x[1])) for a in b.st.facts.atoms):
                rep.undecided("meta", "test for the meta prefix not recognised", wh)
            else:
                rep.bad("meta", "a header is used for worker selection without checking for the 'meta.' prefix", wh, describe(bt))
                continue
        if not ins:
            if dup:
                rep.ok("headers", "a repeated header is already there")
            elif header_witness(b.st.facts, fr, PLAIN_NAMES) is not None:
                w = header_witness(b.st.facts, fr, PLAIN_NAMES)
                rep.bad("headers", "the header '%s' of the message does not reach %s" % (w, who), wh, describe(bt))
            elif meta and ism is None and any(contains(a, lambda x: x and x[0] == "str" and "meta" in str(x[1])) for a in b.st.facts.atoms):
                rep.undecided("meta", "test for the meta prefix not recognised", wh)
            else:
                rep.bad("headers", "a header frame of the message does not reach %s" % who, wh, describe(bt))
            continue
        if len(ins) != 1:
            rep.bad("headers", "one header frame becomes several headers of %s" % who, wh, describe(bt))
            continue
        k, v = ins[0]
        okk = name_ok(b.st.facts, k, fr, pos)
        okv = value_ok(b.st.facts, v, fr, pos)
        rep.expect(okk, "name", "the name is what precedes the first '='", wh, describe(bt), msg="a header name for %s is not the part of its frame before the first '='" % who)
        rep.expect(okv, "value", "the value is what follows the first '='", wh, describe(bt), msg="a header value for %s is not the part of its frame after the first '='" % who)
    # which frames are visited
    c = [v for k, v in L.cells.items() if ("phi", L.inst, k) == cur]
    if c:
        st = {v[1] if v[0] == "add" else None for p, v in c[0]["per"].items()}
        rep.expect(True if st == {N(1)} else None if None in st else False, "each", "frame by frame", wh, d, msg="reading the headers for %s skips frames" % who)
        first = c[0].get("init")
    s = L.start
    lo, hi = tr.facts.bounds(cur)
    if lo > 2:
        rep.bad("first", "the first header of the message does not reach %s" % who, wh, d)
    elif lo < 2:
        if s is not None and s[0] == "n" and s[1] < 2:
            rep.bad("first", "a frame before the headers is taken for a header of %s" % who, wh, d)


META_NAMES = ("meta.x", "meta.", "meta.meta.y")
PLAIN_NAMES = ("env", "hwgroup", "metadata", "meta", "m", "xmeta.y", "Meta.x", "me.ta", "metameta.z", "threads")


def header_witness(f, fr, names):
    """a header among these (name=value) that takes the path with these facts"""
    for n in names:
        h = n + "=1"
        if admits(f, {fr: h}, True) is True:
            return h
    return None


def name_ok(f, k, fr, pos):
    if k == ("ap", "substr", fr, N(0), pos):
        return True
    if f.q_eqi(pos, NPOS) is True and (k == fr or same(f, k, ("ap", "substr", fr, N(0), pos)) is True):
        return True
    return None if opaque(k) and not str_known(k) else False


def value_ok(f, v, fr, pos):
    st = add(pos, N(1))
    n = size_of(fr)
    for e in (NPOS, sub(n, st), n):
        if v == ("ap", "substr", fr, st, e):
            return True
    if v[0] == "ap" and v[1] == "substr" and v[2] == fr and v[3] == st:
        if mentions(v[4], n) or v[4] == NPOS:
            # any count reaching the end
            if f.q_lt(v[4], sub(n, st)) is not True:
                dlt = sub(v[4], sub(n, st))
                if dlt[0] == "n" and dlt[1] >= 0:
                    return True
    if f.q_eqi(pos, NPOS) is True:
        return None
    return None if opaque(v) and not str_known(v) else False


STRF = {"substr", "str.find", "str.rfind", "str.find_first_of", "str.find_last_of"}


def str_known(t):
    """only string functions whose meaning is known"""
    if not isinstance(t, tuple) or not t:
        return True
    if t[0] == "ap" and t[1] not in STRF | PURE:
        return False
    if t[0] == "sym" and "::" in str(t[1]):
        return False
    return all(str_known(x) for x in t if isinstance(x, tuple))


def is_meta(b, fr):
    """is the frame known to be a meta header in this iteration? True/False/None"""
    name = ("ap", "substr", fr, N(0), split_at_eq(fr))
    forms = []
    for base in (name, fr):
        forms.append(("ap", "substr", base, N(0), N(5)))
    f = b.st.facts
    for x in forms:
        for a, v in f.atoms.items():
            if a[0] == "eq" and x in (a[1], a[2]) and S("meta.") in (a[1], a[2]):
                return v
            if a[0] == "nz" and isinstance(a[1], tuple) and a[1][0] in ("strcmp",) and x in a[1] and S("meta.") in a[1]:
                return not v
    for a, v in f.atoms.items():
        if a[0] == "nz" and isinstance(a[1], tuple) and a[1][0] == "prefix" and a[1][1] in (name, fr) and a[1][2] == S("meta."):
            return v
    for base in (name, fr):
        for fn in ("str.find", "str.rfind"):
            p = ("ap", fn, base, S("meta."), N(0))
            q = f.q_eqi(p, N(0))
            if q is not None:
                return q
    if f.bounds(size_of(name))[1] < 5 or f.bounds(size_of(fr))[1] < 5:
        return False
    return None


def payload_rules(ctx, rep, tr, dat, wh, what):
    """dat must be 'eval', job id, frames after the terminator"""
    d = describe(tr)
    t = terminator(tr)
    if t is None:
        rep.undecided("payload", "end of the headers not recognised", wh)
        return
    nxt = add(t, N(1))
    if dat[0] != "seq":
        rep.undecided("payload", "payload of a form not recognised", wh)
        return
    ps = list(dat[1])
    if len(ps) < 2 or ps[0] != ("one", S("eval")):
        rep.expect(None if opaque(dat) else False, "payload", "starts with 'eval'", wh, d, msg="%s does not start with 'eval' and the job id" % what)
        return
    if ps[1] != ("one", at(DATA, N(1))):
        rep.expect(None if opaque(ps[1]) else False, "payload-id", "then the job id", wh, d, msg="%s does not carry the client's job id" % what)
        return
    rest = ("seq", tuple(ps[2:])) if len(ps) != 3 or ps[2][0] == "one" else ps[2][1]
    if not ps[2:]:
        v = tr.facts.q_eqi(nxt, size_of(DATA))
        v = v if v is not None else False
    else:
        v = same_seq(tr.facts, rest, DATA, nxt, tr.events)
    rep.expect(v, "payload", "then exactly the frames after the header terminator", wh, d, msg="%s does not carry exactly the frames after the header terminator" % what)


def c17(ctx, rep):
    for n, tr in each(ctx, rep, ["eval"]):
        if tr.exit in ("throw", "crash"):
            continue
        enq = [e for e, r in qops(tr, {"enqueue"})]
        if not enq:
            continue
        e = enq[0]
        r = e.d["r"]
        new = [x for x, _ in flat(tr.events) if x.kind == "new" and x.d["cls"] == "request" and x.d["obj"] == r]
        pl = ctx.payload(tr.st, r)
        jid = ctx.job_id(tr.st, r)
        if pl is None:
            rep.undecided("payload", "payload of the request not recognised", where(e))
        else:
            payload_rules(ctx, rep, tr, pl, where(e), "the job's payload")
        if jid is not None:
            rep.expect(same(tr.facts, jid, at(DATA, N(1))), "id", "the job id is the client's", where(e), describe(tr), msg="the job is not known under the client's job id")
        cmpl = ctx.complete(tr.st, r)
        if cmpl is not None:
            rep.expect(True if cmpl in (TRUE, N(1)) else None if opaque(cmpl) else tr.facts.q(cmpl), "complete", "its data are known", where(e), describe(tr), msg="a job taken over with its data is marked as one whose data are unknown")
        hd = ctx.read(tr.st, (ctx.obj(r)[0], ctx.obj(r)[1] + (("f", "headers"),)))
        header_rules(ctx, rep, tr, hd, where(e), True, "the job")
        # nothing modifies the stored data later on
    for n, tr0 in each(ctx, rep, ALL_RUNS):
        for tr in subtraces(tr0):
            for e in tr.events:
                if e.kind in ("w", "cm"):
                    loc = e.d.get("loc") or (e.d["root"], e.d["steps"])
                    if loc[0][0] == "p" and loc[1] and loc[1][0] == ("f", "data") and loc[0][1] not in (WORKERS,):
                        rep.bad("unchanged", "handling '%s' changes the stored data of a job" % n, where(e), describe(tr))
                    elif loc[0][0] == "p" and loc[1] and loc[1][0] == ("f", "headers") and loc[0][1] not in (WORKERS,):
                        rep.bad("unchanged", "handling '%s' changes the headers of a job" % n, where(e), describe(tr))
            for e in tr.events:
                if e.kind != "respond" or not to(e, "workers"):
                    continue
                fr = frames(msg_of(e)[2])
                if fr and len(fr) == 1 and fr[0][0] == "str":
                    continue
                dat = msg_of(e)[2]
                if n == "eval" and dat[0] == "seq":
                    payload_rules(ctx, rep, tr, dat, where(e), "the message to the worker")
                else:
                    okk = any(dat == ctx.payload(tr.st, r) for r in requests_in(dat))
                    rep.expect(True if okk else None if opaque(dat) or dat[0] in ("acc",) else False, "stored", "a later attempt sends the stored payload", where(e), describe(tr), msg="a job sent while handling '%s' is not the stored payload" % n)


def requests_in(t):
    for x in subterms(t):
        if x and x[0] == "drf":
            yield x[1]


# ------------------------------------------------------------------------------------------------ free workers
def c26h(ctx, rep):
    for n, tr in each(ctx, rep, ["done"]):
        if tr.exit in ("throw", "crash"):
            continue
        ev = [e for e, r in flat(tr.events)]
        can = [e for e in ev if e.kind == "q" and e.d["op"] == "cancelled"]
        for c in can:
            w = c.d["w"]
            after = ev[ev.index(c) + 1 :]
            asg = [e for e in after if e.kind == "q" and e.d["op"] in ("assign", "finished", "add", "terminated") and same(tr.facts, e.d["w"], w) is not False]
            if asg:
                rep.ok("refill", "a worker that lost its job is offered another")
                continue
            I = ctx.H.I
            old, I.st = I.st, tr.st
            try:
                busy = False
                for e in after:
                    if e.kind == "q" and e.d["op"] == "enqueue" and e.d["how"] == "assigned" and same(tr.facts, e.d["w"], w) is True:
                        busy = True
                    if e.kind == "q" and e.d["op"] == "current" and same(tr.facts, e.d["w"], w) is True and (tr.facts.q(e.d["ret"]) is True):
                        busy = True
            finally:
                I.st = old
            if busy:
                rep.ok("refill", "it got its job back")
            elif any(e.kind == "ext" and not e.d["q"].startswith(("spdlog", "std::")) and any(isinstance(a, tuple) and mentions(a, w) for a in e.d.get("args", ())) for e in after):
                rep.undecided("refill", "cannot follow what happens to the freed worker", where(c))
            else:
                rep.bad("refill", "a worker that lost its job is not offered a waiting one in the same step", where(c), describe(tr))
        fin = [e for e in ev if e.kind == "q" and e.d["op"] == "finished"]
        for e in fin:
            rep.ok("refill", "finishing a job hands out the next")


# ------------------------------------------------------------------------------------------------ registration
def c27(ctx, rep):
    tf = timer_field(ctx)
    for n, tr in each(ctx, rep, ["init"]):
        if failed_exit(rep, "init", n, tr):
            continue
        d = describe(tr)
        lo, hi = tr.facts.bounds(size_of(DATA))
        ef = [e for e in effects(ctx, tr)]
        rw = [e for e in registry_writes(tr) if e.kind == "cm"]
        adds = [e for e, r in qops(tr, {"add"})]
        if any(e.d["rec"].coll is not None and mentions(e.d["rec"].coll, ("drf", WORKERS)) for e, nested in loops_of(tr.events) if nested):
            pass
        if hi <= 1:
            rep.expect(not ef, "no-group", "an init without a hardware group does nothing", where(ef[0]) if ef else "", d, msg="an init without a hardware group has an effect")
            continue
        if lo <= 1 and ef:
            rep.bad("no-group", "an init may have an effect without a hardware group", where(ef[0]), d)
            continue
        reg = registered(tr)
        fe = frontend(tr)
        if reg is None:
            if ef:
                lk = any(e.kind in ("loop", "ext") and "worker" in (e.d.get("q") or show(e.d["rec"].coll or VOID)) for e in tr.events if e.kind in ("loop", "ext"))
                rep.expect(None if lk else False, "lookup", "the identity is looked up first", where(ef[0]), d, msg="an init registers a worker without looking up whether its identity is known")
                continue
            rep.bad("registers", "an init with a hardware group is ignored without looking up its identity", exit_where(tr), d)
            continue
        if reg is True:
            h = headers_compared(tr)
            if h is True:
                rep.expect(not ef, "repeat", "a repeated init changes nothing", where(ef[0]) if ef else "", d, msg="a repeated init with the same headers has an effect")
            elif h is False:
                errs = [e for e, r, p in fe if p and p.get("type") == S("error")]
                unk = any(p is None for e, r, p in fe)
                rep.expect(None if unk else len(errs) == 1, "conflict", "a conflicting init is reported", where(errs[0]) if errs else exit_where(tr), d, msg="an init with different headers from a known identity is not reported to the frontend exactly once")
                if rw or adds:
                    removed = any(e.d["op"] in ("erase", "remove", "map-erase") for e in rw) or any(e for e, r in qops(tr, {"terminated"}))
                    if not removed:
                        rep.bad("one-per-identity", "an init with different headers registers a second worker under the same identity", where((rw + adds)[0]), d)
                    gone = [e for e in rw if e.d["op"] in ("erase", "remove", "map-erase")]
                    if gone:
                        told = any(e for e, r in qops(tr, {"terminated"}))
                        rep.expect(True if told else None if calls_unknown(tr) else False, "in-step", "a worker replaced in the registry leaves the queue manager", where(gone[0]), d, msg="an init with different headers takes the worker out of the registry while the queue manager keeps it and its jobs")
            else:
                if ef:
                    rep.undecided("repeat", "comparison of the headers not recognised", where(ef[0]))
                elif not any(mentions(a, ("fld", ("drf", sender_worker(tr)), "headers_copy_")) for a in tr.facts.atoms):
                    rep.undecided("repeat", "comparison of the headers not recognised")
            if not (rw or adds):
                continue
        # a new worker
        if any(r for e, r in flat(tr.events) if e.kind == "q" and e.d["op"] == "add"):
            rep.undecided("registers", "registration inside a loop")
            continue
        if len(adds) != 1 or len([e for e in rw if e.d["op"] in ("push_back", "push_front", "insert", "map-insert")]) != 1:
            if not adds and not rw and reg is False:
                rep.bad("registers", "an init with a hardware group from an unknown identity registers nobody", exit_where(tr), d)
            else:
                rep.bad("in-step", "registry and queue manager get a different number of workers for one init (%d and %d)" % (len(rw), len(adds)), where((rw + adds)[0]), d)
            continue
        a = adds[0]
        w = a.d["w"]
        put = [e for e in rw if e.d["op"] in ("push_back", "push_front", "insert", "map-insert")][0]
        rep.expect(same(tr.facts, put.d["val"], w), "in-step", "the same worker goes to registry and queue manager", where(put), d, msg="the worker put into the registry is not the one given to the queue manager")
        if tf:
            okk = timers_of(ctx, tr.st, tf, w)
            rep.expect(True if okk is not None and okk != VOID else None, "bookkeeping", "and into the liveness bookkeeping", where(a), d)
        new = [x for x, _ in flat(tr.events) if x.kind == "new" and x.d["cls"] == "worker" and x.d["obj"] == w]
        if len(new) != 1:
            rep.undecided("new", "the new worker was not created here", where(a))
            continue
        args = new[0].d["args"]
        wh = where(new[0])
        rep.expect(same(tr.facts, args[0], SENDER), "identity", "under the sender's identity", wh, d, msg="the new worker is not registered under the sender's identity")
        rep.expect(same(tr.facts, args[1], at(DATA, N(1))), "group", "with the given hardware group", wh, d, msg="the new worker does not get the hardware group of its init")
        header_rules(ctx, rep, tr, args[2], wh, False, "the worker")
        extra_rules(ctx, rep, tr, w, a)
    # nobody else registers or removes workers
    for n, tr in each(ctx, rep, [x for x in ALL_RUNS if x not in ("init", "timer")]):
        ef = [e for e in registry_writes(tr)] + [e for e, r in qops(tr, {"add", "terminated"})]
        rep.expect(not ef, "only-init", "'%s' leaves the registry alone" % n, where(ef[0]) if ef else "", describe(tr), msg="handling '%s' changes which workers are registered" % n)
    for n, tr in each(ctx, rep, ["timer"]):
        ad = [e for e, r in qops(tr, {"add"})] + [e for e in registry_writes(tr) if e.kind == "cm" and e.d["op"] in ("push_back", "insert", "push_front")]
        rep.expect(not ad, "only-init", "ticks register nobody", where(ad[0]) if ad else "", describe(tr), msg="a tick registers a worker")


def headers_compared(tr):
    """was the header map of the known worker found equal to the message's? True/False/None"""
    w = sender_worker(tr)
    for a, v in tr.facts.atoms.items():
        if a[0] == "eq":
            for x in (a[1], a[2]):
                if x[0] == "fld" and x[1] == ("drf", w) and x[2] != "identity":
                    o = a[2] if x == a[1] else a[1]
                    if o[0] in ("accm", "phi", "map", "empty"):
                        return v
    return None


def extra_rules(ctx, rep, tr, w, a):
    """description and current job come from the frames after the headers"""
    d = describe(tr)
    desc = ctx.read(tr.st, (ctx.obj(w)[0], ctx.obj(w)[1] + (("f", "description"),)))
    cur = a.d["cur"]
    t = terminator(tr)
    wh = where(a)
    info = None
    for e, nested in loops_of(tr.events):
        L = e.d["rec"]
        if nested or L.coll is None or not mentions(L.coll, DATA) or L.sym is None:
            continue
        if any(contains(x, lambda y: y == S("description") or y == S("current_job")) for b in L.bodies for x in b.st.facts.atoms):
            info = (e, L)
    if info is None:
        if t is None or any(e.kind == "ext" and any(isinstance(x, tuple) and mentions(x, DATA) for x in e.d.get("args", ())) for e, r in flat(tr.events)):
            rep.ok("extra", "no additional information in the message")
        else:
            v = tr.facts.q_eqi(add(t, N(1)), size_of(DATA))
            # a loop whose range or whose tests are not understood may be the one that reads it
            vague = any(e.d["rec"].coll is None or e.d["rec"].sym is None or any(k[0] == "atom" and opaque(k[1], True) for b in e.d["rec"].bodies for k in b.facts) for e, nested in loops_of(tr.events))
            rep.expect(True if v else None if vague else False, "extra", "additional information is read", wh, d, msg="the additional information of an init is not read")
        return
    e, L = info
    fr = at(L.coll, L.sym)
    pos = split_at_eq(fr)
    name = ("ap", "substr", fr, N(0), pos)
    lo = tr.facts.q_lt(add(t, N(1)), L.sym) if t is not None else None
    for b in L.bodies:
        if b.exit != "next":
            rep.bad("extra", "reading the additional information of an init may stop early", wh, describe(Tr(b.events, b.st, b.exit, b.val, ((L, b),), tr.out)))
            continue
        f = b.st.facts
        bt = Tr(b.events, b.st, b.exit, b.val, ((L, b),), tr.out)
        isd, isc = f.q_eq(name, S("description")), f.q_eq(name, S("current_job"))
        wr = [x for x in b.events if x.kind == "w" and x.d["steps"] and x.d["steps"][-1] == ("f", "description")]
        jobs = [x for x in b.events if x.kind == "new" and x.d["cls"] == "request"]
        if any(x.kind == "ext" and any(isinstance(y, tuple) and mentions(y, fr) for y in x.d.get("args", ())) for x in b.events):
            rep.undecided("extra", "additional information handled by code the analysis cannot follow", wh)
            continue
        if isd is True:
            okk = len(wr) >= 1 and value_ok(f, wr[-1].d["val"], fr, pos)
            rep.expect(okk, "description", "the description is taken over", wh, describe(bt), msg="the description given in an init is not stored with the worker")
            rep.expect(not jobs, "description", "and nothing else", wh, describe(bt), msg="the description of a worker is taken for its current job")
        elif isc is True:
            j = jobs[-1] if jobs else None
            if j is None:
                rep.bad("current-job", "the current job given in an init is ignored", wh, describe(bt))
            else:
                jid = ctx.job_id(b.st, j.d["obj"])
                rep.expect(None if jid is None else value_ok(f, jid, fr, pos), "current-job", "the current job is taken over by its id", where(j), describe(bt), msg="the current job of a new worker does not get the id given in the init")
                cm = ctx.complete(b.st, j.d["obj"])
                rep.expect(True if cm in (FALSE, N(0)) else None if cm is None or opaque(cm) else False, "current-job", "and known to have no data", where(j), describe(bt), msg="the current job of a new worker is taken for one whose data are known")
            rep.expect(not wr, "current-job", "and nothing else", wh, describe(bt), msg="the current job of a worker overwrites its description")
        elif isd is False and isc is False:
            rep.expect(not wr and not jobs, "other", "other items are ignored", wh, describe(bt), msg="an unknown item of an init is taken for a description or current job")
        else:
            if wr or jobs:
                other = [k for k, v in f.atoms.items() if v is True and k[0] == "eq" and any(x in (S("description"), S("current_job")) for x in k[1:]) and contains(k, lambda y: y and y[0] == "ap" and y[1] == "str.rfind")]
                if other:
                    rep.bad("extra", "an item of an init is not split at its first '='", wh, describe(bt))
                    continue
                rep.expect(None if opaque(name) else False if not f.atoms else None, "extra", "items are told apart by name", wh, describe(bt))
    # what the queue manager is told
    if cur != NULL:
        okc = False
        if cur[0] == "phi" and cur[1] == L.inst:
            okc = True
        elif cur[0] == "ptr":
            okc = True
        elif mentions(cur, ("phi", L.inst)) or cur[0] in ("acc", "last", "lastof"):
            okc = True
        rep.expect(True if okc else None, "current-job", "the queue manager is told", where(a), d)
    else:
        lab = [k for k, c in L.cells.items() if any(v[0] not in ("same", "add") for v in c["per"].values()) and any(x.kind == "new" for b in L.bodies for x in b.events) and "description" not in k]
        if lab and not any(tr.facts.atoms.get(("nomod", L.inst, k)) for k in lab):
            rep.bad("current-job", "the queue manager is not told about the job a new worker is processing", where(a), d)


# ------------------------------------------------------------------------------------------------ dispatch
def c29(ctx, rep):
    for n, tr in each(ctx, rep, ["workers:other", "clients:other", "other"]):
        if failed_exit(rep, "ignored", n, tr):
            continue
        ef = effects(ctx, tr)
        what = {"workers:other": "a worker's message with a command that is not one of the workers' commands", "clients:other": "a client's message with a command that is not one of the clients' commands", "other": "a message of unknown origin"}[n]
        rep.expect(not ef, "ignored", "%s has no effect" % what, where(ef[0]) if ef else "", describe(tr), msg="%s has an effect" % what)
    for n, tr in each(ctx, rep, ["empty:clients", "empty:workers"]):
        if tr.exit in ("throw", "crash"):
            continue
        ef = effects(ctx, tr)
        rep.expect(not ef, "ignored", "a message without a command has no effect", where(ef[0]) if ef else "", describe(tr), msg="a message without a command has an effect")
    for n in CLIENT_CMDS + WORKER_CMDS + ("timer",):
        try:
            outs = ctx.runs(n)
        except Limit as l:
            rep.undecided("handled", "message '%s': %s" % (n, l))
            continue
        some = [o for o in outs if effects(ctx, top(o))]
        ext = any(e.kind == "callop" for o in outs for e, r in flat(o.st.events))
        rep.expect(True if some else None if ext else False, "handled", "'%s' is handled" % n, "src/handlers/broker_handler.cpp", describe(top(outs[0])) if outs else [], msg="the command '%s' has no effect at all" % n)
        if n in ("eval", "freeze", "unfreeze", "get-runtime-stats", "ping", "progress"):
            for o in outs:
                if o.exit in ("throw", "crash"):
                    continue
                tr = top(o)
                ans = {"eval": "ack"}.get(n)
                rs = responds(tr)
                k = sum(1 for e, r in rs if frames(msg_of(e)[2]) == [S("ack")]) if n == "eval" else len(rs)
                rep.expect(k == 1 or (None if calls_unknown(tr) else False), "once", "'%s' is handled exactly once" % n, exit_where(tr), describe(tr), msg="the command '%s' is handled %s" % (n, "more than once" if k > 1 else "not at all on some path"))


# ------------------------------------------------------------------------------------------------ monitor
def monitor_msgs(tr):
    """[(event, id term, status)] sent by the broker itself within this trace level (not in nested loops)"""
    out = []
    for e in tr.events:
        if e.kind == "respond" and to(e, "monitor") is not False:
            out.append(e)
    return out


def c30(ctx, rep):
    for n, tr0 in each(ctx, rep, ALL_RUNS):
        if tr0.exit in ("throw", "crash") or n == "progress":
            continue
        for tr in subtraces(tr0):
            own = [e for e in tr.events if e.kind != "loop"]
            d = describe(tr)
            if any(getattr(L, "split", False) for L, b in tr.chain):
                rep.undecided("told", "the jobs of a dead worker are gone through several times")
                continue
            want = []  # (request or None, status, reason, event)
            done_r = set()
            handed = None
            if tr.chain:
                L, b = tr.chain[-1]
                if L.coll is not None and L.coll[0] == "sym" and str(L.coll[1]).startswith("handed") and L.sym is not None:
                    handed = at(L.coll, L.sym)
            taken_h = False
            for e in own:
                if e.kind == "q" and e.d["op"] == "enqueue":
                    r = e.d["r"]
                    h = handed is not None and same(tr.facts, r, handed) is True
                    if e.d["how"] == "refused":
                        want.append((r, "FAILED", "a job refused by the queue", e))
                        taken_h = taken_h or h
                    elif h:
                        want.append((r, "ABORTED", "a job put back after its worker died", e))
                        taken_h = True
            if handed is not None and not taken_h:
                want.append((handed, "FAILED", "a job lost with its worker", None))
            for e in own:
                if e.kind == "q" and e.d["op"] == "cancelled" and n == "done" and tr.facts.eqc.get(at(DATA, N(2))) == S("INTERNAL_ERROR"):
                    r = e.d["ret"]
                    if not any(x.kind == "q" and x.d["op"] == "enqueue" and same(tr.facts, x.d["r"], r) is True for x in own):
                        c = ctx.complete(tr.st, r)
                        c = True if c in (TRUE, N(1)) else False if c in (FALSE, N(0)) else tr.facts.q(c) if c is not None else None
                        if c is True:
                            want.append((r, "FAILED", "a job that failed too often", e))
                        elif c is None:
                            want.append((r, None, "", e))
            got = monitor_msgs(tr)
            left = list(got)
            unk = bool(calls_unknown(tr))
            for r, st, why, e in want:
                jid = ctx.job_id(tr.st, r)
                hit = None
                for g in left:
                    fr = frames(msg_of(g)[2])
                    if to(g, "monitor") is None or fr is None or jid is None:
                        unk = True
                        continue
                    if len(fr) == 2 and same(tr.facts, fr[0], jid) is True and (st is None or fr[1] == S(st)):
                        hit = g
                        break
                if hit is not None:
                    left.remove(hit)
                    rep.expect(True if msg_of(hit)[1] == S("recodex-monitor") else None if opaque(msg_of(hit)[1]) else False, "addressee", "addressed to the monitor", where(hit), d, msg="a message about a job is not addressed to the monitor's identity")
                    rep.ok("told", "%s: %s" % (why, st))
                elif st is None:
                    pass
                elif unk or deferred_about(tr, r):
                    rep.undecided("told", "cannot follow what the monitor is told about %s" % why, where(e) if e else exit_where(tr))
                else:
                    rep.bad("told", "the monitor is not told %s about %s (handling '%s')" % (st, why, n), where(e) if e else exit_where(tr), d)
            for g in left:
                fr = frames(msg_of(g)[2])
                if fr is None or to(g, "monitor") is None:
                    rep.undecided("only", "a message of computed form", where(g))
                elif len(fr) == 2 and fr[1] in (S("FAILED"), S("ABORTED")):
                    if tr.chain and contains(tr.chain[-1][0].coll or VOID, lambda x: x and x[0] in ("acc", "accm")):
                        rep.undecided("only", "a message about a job put aside earlier", where(g))
                    else:
                        rep.bad("only", "the monitor is told %s about a job for which there is no reason (handling '%s')" % (fr[1][1], n), where(g), d)


def deferred_about(tr, r):
    for e in tr.events:
        if e.kind == "cm" and isinstance(e.d.get("val"), tuple) and mentions(e.d["val"], r):
            return False
    return False
