"""Shared vocabulary of the rules: traces (with loops), messages, comparison of provenance terms."""
from handler import CUR, KEYS, RESPOND, Handler
from interp import Limit
from ir import AnalysisBroken, strip_type, tmpl_args, tmpl_name
from terms import *

PURE = {
    "substr", "str.find", "cfg", "description", "num", "wrapped", "trunc", "narrow", "min", "op+", "op-", "check_headers",
    "check_header", "duration_cast", "u", "c_str", "cstr", "urlenc", "*", "/", "%",
}


def opaque(t, idx=False):
    """does the term depend on something the analysis has no model of?"""
    if not isinstance(t, tuple) or not t:
        return False
    k = t[0]
    if k == "ap" and t[1] not in PURE:
        return True
    if k == "sym" and isinstance(t[1], str) and ("::" in t[1] or t[1].startswith(("q.", "uninit", "ext"))):
        return True
    if k == "phi":
        return not idx
    if k in ("at", "slice"):
        return opaque(t[1], True) or any(opaque(x, True) for x in t[2:])
    if k in ("acc", "acccat", "accm"):
        return False
    return any(opaque(x, idx) for x in t if isinstance(x, tuple))


def leftover(t):
    """is it (the container) what earlier calls left in a static variable?"""
    while isinstance(t, tuple) and t and t[0] in ("map", "slice", "all", "fld"):
        t = t[1]
    return isinstance(t, tuple) and len(t) == 2 and t[0] == "sym" and str(t[1]).startswith("static:")


class Tr:
    """one trace partition: of a whole entry point, or of one iteration of a loop inside it"""

    __slots__ = ("events", "st", "exit", "val", "chain", "out")

    def __init__(self, events, st, exit_, val, chain, out):
        self.events, self.st, self.exit, self.val, self.chain, self.out = events, st, exit_, val, chain, out

    @property
    def facts(self):
        return self.st.facts


def top(out):
    return Tr(out.st.events, out.st, out.exit, out.val, (), out)


def all_traces(out):
    """the trace itself and every loop iteration reachable in it"""
    yield from subtraces(top(out))


def subtraces(t):
    yield t
    for e in t.events:
        if e.kind == "loop":
            L = e.d["rec"]
            for b in L.bodies:
                if b.exit == "next" or b.pid == e.d["exit"]:
                    yield from subtraces(Tr(b.events, b.st, b.exit, b.val, t.chain + ((L, b),), t.out))


def flat(events, rep=False):
    """events in order; those of the last iteration of a loop left early are spliced in, those of iterations that may
    be repeated come before with rep=True"""
    for e in events:
        if e.kind == "loop":
            L = e.d["rec"]
            for b in L.bodies:
                if b.exit == "next":
                    for x, _ in flat(b.events, True):
                        yield x, True
            for b in L.bodies:
                if b.pid == e.d["exit"]:
                    yield from flat(b.events, rep)
        else:
            yield e, rep


def same(f, a, b):
    """equal? True / False (definitely may differ) / None"""
    if a == b:
        return True
    v = f.q_eq(a, b)
    if v is not None:
        return v
    if f.q_eqi(a, b) is True:
        return True
    ca, cb = f.eqc.get(a), f.eqc.get(b)
    if ca is not None and (ca == b or ca == cb):
        return True
    if cb is not None and cb == a:
        return True
    if opaque(a) or opaque(b):
        return None
    # one step of congruence: fields of pointers known equal
    if a[0] == b[0] == "fld" and a[2] == b[2]:
        return same(f, a[1], b[1])
    if a[0] == b[0] == "drf":
        return same(f, a[1], b[1])
    if a[0] == b[0] == "size":
        return same(f, a[1], b[1])
    for x, y in ((a, b), (b, a)):
        # equal to a common third term
        for at_, val in f.atoms.items():
            if val is True and at_[0] == "eq" and x in (at_[1], at_[2]):
                o = at_[2] if at_[1] == x else at_[1]
                if o == y:
                    return True
    for at_, val in f.atoms.items():
        if val is True and at_[0] == "eq":
            for p, q in ((at_[1], at_[2]), (at_[2], at_[1])):
                if p == a:
                    for a2, v2 in f.atoms.items():
                        if v2 is True and a2[0] == "eq" and b in (a2[1], a2[2]) and q in (a2[1], a2[2]):
                            return True
    return False


def all3(*vs):
    r = True
    for v in vs:
        if v is False:
            return False
        if v is None:
            r = None
    return r


def any3(vs):
    r = False
    for v in vs:
        if v is True:
            return True
        if v is None:
            r = None
    return r


def not3(v):
    return None if v is None else not v


def msg_of(e):
    m = e.d["msg"]
    return fld(m, "key"), fld(m, "identity"), fld(m, "data")


def to(e, key):
    """is this response addressed to the given peer kind? True/False/None"""
    k = msg_of(e)[0]
    if k[0] == "str":
        return k[1] == KEYS.get(key, key)
    return None


def frames(data):
    """constant-structure frame list -> list of terms, or None"""
    if data[0] != "seq":
        return None
    out = []
    for p in data[1]:
        if p[0] != "one":
            return None
        out.append(p[1])
    return out


def pairs(data):
    """notification frames -> dict const-key -> term (None if not of that form)"""
    fr = frames(data)
    if fr is None or len(fr) % 2:
        return None
    d = {}
    for i in range(0, len(fr), 2):
        if fr[i][0] != "str" or fr[i][1] in d:
            return None
        d[fr[i][1]] = fr[i + 1]
    return d


def where(e):
    return "src/" + e.where if e is not None and e.where and not e.where.startswith("?") else ""


def describe(tr, n=40):
    """a readable witness: the trace's decisive facts and its effects"""
    lines = []
    for L, b in tr.chain:
        lines.append("in an iteration of the loop at line %s over %s" % (L.line or L.inst, show(L.coll) if L.coll else "?"))
    for at_, v in list(tr.facts.atoms.items()):
        if at_[0] in ("nz", "eq"):
            lines.append("given %s%s" % ("" if v else "not ", show(at_)[:160]))
    for e, r in flat(tr.events):
        if e.kind in ("respond", "q", "w", "cm", "hazard", "wrap"):
            lines.append(("  * " if r else "  ") + repr(e)[:260])
    lines.append("ends: %s %s" % (tr.exit, tr.val if tr.exit in ("throw", "crash") else ""))
    return lines[:n] + (["..."] if len(lines) > n else [])


MUTATORS = {"enqueue", "assign", "finished", "cancelled", "add", "terminated"}
