"""Several loops over one and the same collection, seen as a single one.

The rules about the jobs handed back for an expired worker judge the iteration that deals with a job. Where the code
goes through these jobs more than once, loops that only look at them are left out, and two loops of which one does
nothing but send messages are combined: every consistent pair of iterations about the same element becomes one. Loops
that cannot be combined are marked as `split`, and nothing is claimed about them."""
from interp import Body, Infeasible, LoopRec
from terms import contains, mentions, subst

HARMLESS = ("maybe-null", "touch", "atomic-load", "log", "catch", "static")


def quiet(events):
    return all(e.kind in HARMLESS or e.kind == "q" and e.d["op"] in ("current", "count") or e.kind == "loop" and all(b.exit == "next" and quiet(b.events) for b in e.d["rec"].bodies) for e in events)


def only_messages(L):
    def om(events):
        return all(e.kind in HARMLESS + ("respond", "wrap") or e.kind == "q" and e.d["op"] in ("current", "count") or e.kind == "loop" and all(om(b.events) for b in e.d["rec"].bodies) for e in events)

    return all(b.exit == "next" and om(b.events) for b in L.bodies) and not L.cells


def handed(L):
    return L.coll is not None and L.coll[0] == "sym" and str(L.coll[1]).startswith("handed") and L.sym is not None


def enqueues(events):
    return any(e.kind == "q" and e.d["op"] == "enqueue" or e.kind == "loop" and any(enqueues(b.events) for b in e.d["rec"].bodies) for e in events)


def product(I, L1, L2):
    """L1 precedes L2"""
    if only_messages(L1):
        base, other, first = L2, L1, True
    elif only_messages(L2):
        base, other, first = L1, L2, False
    else:
        return None
    m = {other.sym: base.sym}
    N = LoopRec()
    N.__dict__.update(base.__dict__)
    N.bodies = []
    old = I.st
    try:
        for b in base.bodies:
            for o in other.bodies:
                I.st = b.st.copy()
                try:
                    I.import_facts(o.facts, m)
                except Infeasible:
                    continue
                c = Body()
                c.pid, c.exit, c.val, c.facts = b.pid, b.exit, b.val, b.facts
                ev = [I.subst_event(e, m, True) for e in o.events]
                c.events = ev + list(b.events) if first else list(b.events) + ev
                c.st = I.st
                c.st.events = c.events
                N.bodies.append(c)
    finally:
        I.st = old
    return N


def fuse(I, events):
    out = []
    for e in events:
        if e.kind == "loop":
            for b in e.d["rec"].bodies:
                b.events = fuse(I, b.events)
        out.append(e)
    loops = [e for e in out if e.kind == "loop" and handed(e.d["rec"])]
    groups = {}
    for e in loops:
        groups.setdefault(e.d["rec"].coll, []).append(e)
    for coll, es in groups.items():
        loud = [e for e in es if not all(b.exit == "next" and quiet(b.events) for b in e.d["rec"].bodies)]
        if loud and len(loud) < len(es):
            out = [e for e in out if e not in es or e in loud]
        while len(loud) > 1:
            a, b = loud[0], loud[1]
            N = product(I, a.d["rec"], b.d["rec"])
            if N is None:
                for e in loud:
                    e.d["rec"].split = True
                break
            keep = b if N.inst == b.d["rec"].inst else a
            drop = a if keep is b else b
            keep.d["rec"] = N
            loud = [keep] + loud[2:]
            out = [e for e in out if e is not drop]
        for e in loud:
            L = e.d["rec"]
            for x in out:
                if x.kind == "loop" and x is not e and x.d["rec"].coll is not None and contains(x.d["rec"].coll, lambda t: bool(t) and t[0] == "acc" and t[1] == L.inst):
                    if enqueues([x]):
                        L.split = x.d["rec"].split = True
    return out
