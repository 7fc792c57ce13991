"""Rules about the reactor and its sockets: routing (C18), framing (C19), termination (C23), elapsed time (C28)."""
from base import *
from interp import St, Limit
from net import NetHooks
from rules_worker import run, truth
from unit import THIS, Unit

M, R, O, H, NAME = (("sym", x) for x in ("M", "R", "O", "H", "name"))
MKEY, MID, MDATA = (fld(M, f) for f in ("key", "identity", "data"))
VIRT = ("socket_wrapper_base", "handler_wrapper", "handler_interface")
ROUTE = ("reactor::send_message", "reactor::process_message")


# ---------------------------------------------------------------- helpers
def wh(evs, default):
    for e, _ in flat(evs):
        if e.where and not e.where.startswith("?"):
            return where(e)
    return default


def ndescribe(tr, n=60):
    lines = []
    for at_, v in list(tr.facts.atoms.items()):
        if at_[0] in ("nz", "eq"):
            lines.append("given %s%s" % ("" if v else "not ", show(at_)[:160]))
    for e, r in flat(tr.events):
        if e.kind in ("zsend", "zrecv", "zfail", "vcall", "poll", "join", "now", "thread", "w", "cm", "curl", "sleep"):
            d = {k: v for k, v in e.d.items() if k != "fn"}
            lines.append(("  * " if r else "  ") + "%s(%s)@%s" % (e.kind, ", ".join("%s=%s" % (k, show(v) if isinstance(v, tuple) else v) for k, v in d.items())[:240], e.where))
    lines.append("ends: %s %s" % (tr.exit, tr.val if tr.exit in ("throw", "crash") else ""))
    return lines[:n]


def calls(events, name=None, cls=None):
    """(event, repeated?) of interface calls"""
    for e, r in flat(events):
        if e.kind == "vcall" and (name is None or e.d["name"] == name) and (cls is None or e.d["cls"] == cls):
            yield e, r


def deep(events):
    """all events, also those of iterations"""
    for e in events:
        if e.kind == "loop":
            for b in e.d["rec"].bodies:
                yield from deep(b.events)
        yield e


def has_kind(events, *kinds):
    return any(e.kind in kinds for e in deep(events))


def cls_of(v):
    return v[1] if v[0] == "rec" else None


class Rx:
    """a world with an arbitrary reactor"""

    def __init__(self, prog, **k):
        self.U = Unit(prog, NetHooks(**k))
        self.I = self.U.I
        self.st = St()
        self.st.store[THIS] = self.U.obj("reactor", "X.")

    def call(self, name, args):
        return self.U.call(self.U.fn("reactor::" + name, len(args)), args, self.st, (THIS, ()))

    def on(self, st, cls, name, args, this):
        f = self.U.method(cls, name)
        st = st.copy()
        st.events = []
        return self.U.call(f, args, st, (this, ()))

    def closure(self, st, clo, args=()):
        I = self.I
        st = st.copy()
        st.events = []
        return I.run(lambda: I.arg_value(I.invoke(clo, [("L", I.tmp(a)) for a in args])), st)


def fields_of_type(prog, cls, names):
    r = prog.rec_by_q(cls)
    return [fd["n"] for fd in r["fields"] if tmpl_name(fd["ty"]) in names or strip_type(fd["ty"]) in names]


# ---------------------------------------------------------------- writing
def join_tail(parts):
    """all(c[lo..hi)) followed by one(c[hi]) is all(c[lo..hi+1))"""
    out = []
    for p in parts:
        if p[0] == "one" and p[1][0] == "at":
            c, i = p[1][1], p[1][2]
            if out and out[-1][0] == "all":
                q = out[-1][1]
                if q[0] == "slice" and q[1] == c and q[3] == i:
                    out[-1] = ("all", mk_slice(c, q[2], add(i, N(1))))
                    continue
        out.append(p)
    return mk_seq(out)


def items_of(events, sock=None):
    """what is written, in order: ('one', data, more, event) | ('loop', L, {pid: [sends]}, event); None if irregular"""
    out = []
    for e in events:
        if e.kind == "zsend":
            out.append(("one", e.d["data"], e.d["more"], e))
        elif e.kind == "loop":
            L = e.d["rec"]
            if not has_kind([e], "zsend"):
                continue
            out.append(("loop", L, e.d["exit"], e))
    return out


def empty_known(f, c):
    """is the collection known to be empty / non-empty"""
    s = size_of(c)
    q = f.q_eqi(s, N(0))
    if q is not None:
        return q
    if f.q_lt(N(0), s) is True:
        return False
    return None


def constrained(b, L):
    """do the facts of an iteration say anything about which iteration it is that the rule does not understand?"""
    for k, v in b.facts.items():
        if k[0] == "atom" and k[1][0] in ("took", "some", "nomod"):
            continue
        for t in subterms(k[1]):
            if isinstance(t, tuple) and t and (t[0] == "phi" or (t[0] == "ap" and t[1] not in PURE)):
                return True
    return False


def check_write(rep, rule, tr, prefix, what, default, success=True):
    """the frames written on a completed path are prefix + M.data, terminated"""
    f = tr.facts
    d = ndescribe(tr)
    w = wh(tr.events, default)
    items = items_of(tr.events)
    data = fld(R, "data") if prefix and any(mentions(p, R) for p in prefix) else MDATA
    want = mk_seq([("one", p) for p in prefix] + [("all", data)])
    parts, undec = [], None
    emitters = []  # (kind, ...)
    for it in items:
        if it[0] == "one":
            parts.append(("one", it[1]))
            continue
        L = it[1]
        if L.coll is None or L.sym is None:
            undec = "loop at line %s not understood" % L.line
            break
        el = at(L.coll, L.sym)
        good = True
        for b in L.bodies:
            if b.exit != "next":
                continue
            sends = [(e, r) for e, r in flat(b.events) if e.kind == "zsend"]
            if len(sends) != 1 or sends[0][1]:
                if opaque(el):
                    undec = "sends in an iteration"
                else:
                    rep.bad(rule, "%s: an iteration over %s sends %d frames" % (what, show(L.coll)[:60], len(sends)), w, d)
                good = False
                break
            s = same(b.st.facts, sends[0][0].d["data"], el)
            if s is not True:
                if s is None:
                    undec = "frame %s" % show(sends[0][0].d["data"])[:80]
                else:
                    rep.bad(rule, "%s: the frame sent is not the element but %s" % (what, show(sends[0][0].d["data"])[:120]), where(sends[0][0]), d)
                good = False
                break
        if not good:
            if undec:
                rep.undecided(rule, "%s: %s" % (what, undec), w)
            return
        parts.append(("all", mk_slice(L.coll, L.start or N(0), size_of(L.coll))))
    if undec:
        rep.undecided(rule, "%s: %s" % (what, undec), w)
        return
    got = join_tail(parts)
    ed = empty_known(f, data)
    if got != want:
        if ed is True and got == mk_seq([("one", p) for p in prefix]):
            pass
        else:
            s = seq_same(f, got, want)
            if s is not True:
                rep.expect(s, rule, what, w, d, msg="%s: writes %s instead of %s" % (what, show(got)[:160], show(want)[:100]))
                return
    rep.ok(rule, what)
    # termination
    n = len(items)
    for k, it in enumerate(items):
        rest = items[k + 1 :]
        certain = any(x[0] == "one" for x in rest)
        empties = []
        for x in rest:
            if x[0] == "loop":
                empties.append(empty_known(f, mk_slice(x[1].coll, x[1].start or N(0), size_of(x[1].coll))))
        if certain or any(x is False for x in empties):
            last = False
        elif all(x is True for x in empties):
            last = True
        else:
            last = None
        if it[0] == "one":
            check_more(rep, rule, what, it[2], last, it[3], d)
            continue
        L = it[1]
        for b in L.bodies:
            if b.exit != "next":
                continue
            e = [e for e, _ in flat(b.events) if e.kind == "zsend"][0]
            lb = last
            if last is True:
                q = b.st.facts.q_eqi(add(L.sym, N(1)), size_of(L.coll))
                lb = q
                if q is None and constrained(b, L):
                    rep.undecided(rule, "%s: which iteration sends the last frame" % what, where(e))
                    continue
            check_more(rep, rule, what, e.d["more"], lb, e, d)


def check_more(rep, rule, what, more, last, e, d):
    if more not in (TRUE, FALSE):
        rep.undecided(rule, "%s: flag %s" % (what, show(more)[:80]), where(e))
        return
    if last is None:
        rep.bad(rule, "%s: frame %s is marked as %s whether or not it is the last one" % (what, show(e.d["data"])[:60], "followed by more" if more == TRUE else "last"), where(e), d)
    elif last != (more == FALSE):
        rep.bad(rule, "%s: %s frame %s is marked as %s" % (what, "last" if last else "inner", show(e.d["data"])[:60], "followed by more" if more == TRUE else "last"), where(e), d)
    else:
        rep.ok(rule + ".more", "%s: frames are marked as followed by more iff they are" % what)


def seq_same(f, a, b):
    pa, pb = parts_of(a), parts_of(b)
    if len(pa) == len(pb) and all(x[0] == y[0] for x, y in zip(pa, pb)):
        return all3(*[same(f, x[1], y[1]) for x, y in zip(pa, pb)])
    if opaque(a) or opaque(b) or any(isinstance(t, tuple) and t and t[0] in ("acc", "phi", "ap") for t in subterms(a)):
        return None
    return False


# ---------------------------------------------------------------- reading
class Reads:
    """the receives of a path: frames with their positions and the condition under which each is done"""

    def __init__(self, rep, rule, what, tr, sock_ok=None):
        self.rep, self.rule, self.what, self.tr = rep, rule, what, tr
        self.parts = []  # the message as far as read: ('one', frame) | ('loop', L, {pid: frames})
        self.more = []  # 'more' of the last frame
        self.prev = None
        self.und = None
        self.badc = False
        self.fixed = 0  # frames that may be read without asking (guaranteed by the protocol)

    def walk(self, events, facts):
        for e in events:
            if e.kind == "zrecv":
                self.one(e, facts)
            elif e.kind == "loop" and has_kind([e], "zrecv"):
                self.loop(e, facts)
            if self.und or self.badc:
                return self
        return self

    def one(self, e, facts):
        if self.prev is not None and len(self.parts) >= self.fixed:
            q = facts.q(self.prev)
            if q is not True:
                if opaque(self.prev) and q is None:
                    self.und = "condition of a receive"
                else:
                    self.badc = True
                    self.rep.bad(self.rule, "%s: receives a further frame %s" % (self.what, "although the message is over" if q is False else "without knowing that one follows"), where(e), ndescribe(self.tr))
                return
        self.parts.append(("one", e.d["frame"]))
        self.prev = e.d["more"]

    def loop(self, e, facts):
        L = e.d["rec"]
        # the cell that carries 'more' of the last frame around the loop
        cand = []
        for lb, c in L.cells.items():
            if c["old"] == self.prev:
                cand.append((lb, c))
        if len(cand) != 1:
            self.und = "no variable carries the state of the message around the loop at line %s" % L.line
            return
        lb, c = cand[0]
        phi = c["phi"]
        per = {}
        for b in L.bodies:
            sub_ = Reads(self.rep, self.rule, self.what, Tr(b.events, b.st, b.exit, b.val, (), None))
            sub_.prev = phi
            sub_.walk(b.events, b.st.facts)
            if sub_.und:
                self.und = sub_.und
                return
            if sub_.badc:
                self.badc = True
                return
            if b.exit == "next":
                ch = c["per"].get(b.pid, ("same",))
                new = phi if ch[0] == "same" else ch[1] if ch[0] in ("set", "other") else None
                if new != sub_.prev:
                    self.und = "%s after an iteration" % lb
                    return
                per[b.pid] = sub_.parts
        self.parts.append(("loop", L, per))
        self.prev = phi


def accumulates(tr, phi):
    """is it a variable to which each iteration of an enclosing loop appends, and which none of them empties?"""
    if leftover(phi):
        return True
    if phi[0] != "phi":
        return False
    for L, b in tr.chain or ():
        if phi[1] == L.inst and phi[2] in L.cells:
            # this very iteration, twice in a row
            return L.cells[phi[2]]["per"].get(getattr(b, "pid", None), ("",))[0] in ("append", "catappend")
    return False


def check_read(rep, rule, tr, reads, msg, skip, fields, what, default):
    """msg: the message delivered; fields: which of its fields are the frames after the skipped ones, then data"""
    d = ndescribe(tr)
    w = wh(tr.events, default)
    if reads.badc:
        return
    if reads.und:
        rep.undecided(rule, "%s: %s" % (what, reads.und), w)
        return
    f = tr.facts
    q = f.q(reads.prev) if reads.prev is not None else None
    if reads.prev is None:
        rep.bad(rule, "%s: a message is reported although none was read" % what, w, d)
        return
    if q is not False:
        if opaque(reads.prev, True) and q is None and reads.prev[0] != "phi":
            rep.undecided(rule, "%s: end of the message" % what, w)
        else:
            rep.bad(rule, "%s: reading stops %s" % (what, "although further frames follow" if q else "without knowing that the message is over"), w, d)
            return
    ones = []
    rest = list(reads.parts)
    while rest and rest[0][0] == "one" and len(ones) < skip + len(fields):
        ones.append(rest.pop(0)[1])
    for n, fr in zip(fields, ones[skip:]):
        s = same(f, fld(msg, n), fr)
        rep.expect(s, rule, "%s: %s is its frame" % (what, n), w, d, msg="%s: %s is %s instead of the frame at its position" % (what, n, show(fld(msg, n))[:100]))
    if len(ones) < skip + len(fields):
        rep.undecided(rule, "%s: frames not read one by one" % what, w)
        return
    # data
    data = fld(msg, "data")
    got = list(parts_of(data))
    exp = []
    for p in rest:
        if p[0] == "one":
            exp.append(p)
        else:
            exp.append(p)
    ok = True
    i = 0
    for p in exp:
        if p[0] == "one":
            if i < len(got) and got[i] == p:
                i += 1
            else:
                ok = False
                break
        else:
            L, per = p[1], p[2]
            if i < len(got) and got[i][0] == "all" and got[i][1][0] == "acc" and got[i][1][1] == L.inst:
                items = dict(got[i][1][3])
                for pid, fr in per.items():
                    if any(x[0] != "one" for x in fr):
                        ok = None
                    elif tuple(items.get(pid, ())) != tuple(fr):
                        ok = False
                i += 1
            elif i < len(got) and got[i][0] == "all" and opaque(got[i][1], False):
                ok = None
            else:
                ok = False
        if ok is not True:
            break
    if ok is True and i != len(got):
        ok = False
    if ok is False and opaque(data):
        ok = None
    if got and got[0][0] == "all" and accumulates(tr, got[0][1]):
        rep.bad(rule, "%s: the data start with those of the messages before" % what, w, d)
        return
    rep.expect(ok, rule, "%s: the data are the remaining frames" % what, w, d, msg="%s: the data %s are not exactly the remaining frames in order" % (what, show(data)[:140]))


# ---------------------------------------------------------------- the world of asynchronous handlers
class Async:
    """runs of the pieces of an asynchronous handler, found from reactor::add_async_handler"""

    def __init__(self, prog, rep, rule):
        self.ok = False
        self.why = "add_async_handler"
        self.thread_outs = []
        self.call_outs = []
        self.dtor_outs = []
        try:
            self.build(prog)
        except Limit as l:
            self.why = str(l)

    def build(self, prog):
        rx = self.rx = Rx(prog, virt=("handler_interface", "socket_wrapper_base"))
        outs = rx.call("add_async_handler", [O, H])
        self.add_outs = outs
        for o in outs:
            if o.exit not in ("next", "return"):
                continue
            th = [e for e in o.st.events if e.kind == "thread"]
            roots = [r for r, v in o.st.store.items() if r[0] == "h" and r != THIS and v[0] == "rec" and prog.rec_by_q(v[1]) is not None and rx.U.method(v[1], "operator()") is not None]
            if len(th) != 1 or len(roots) != 1:
                self.why = "%d threads and %d wrappers created" % (len(th), len(roots))
                continue
            self.o, self.root, self.cls = o, roots[0], o.st.store[roots[0]][1]
            self.thread = th[0]
            self.ok = True
        if not self.ok:
            return
        st = self.o.st
        if self.thread.d["fn"][0] == "clo":
            self.thread_outs = rx.closure(st, self.thread.d["fn"])
        elif self.thread.d["fn"] and isinstance(self.thread.d["fn"][0], tuple):
            fn = self.thread.d["fn"]
            self.thread_outs = rx.closure(st, fn[0], fn[1:])
        self.call_outs = rx.on(st, self.cls, "operator()", [M], self.root)
        r = prog.rec_by_q(self.cls)
        for m in r["methods"]:
            if m["fn"]["kind"] == "dtor" and m["fn"]["usr"] in prog.fns:
                s2 = st.copy()
                s2.events = []
                self.dtor_outs = rx.U.call(prog.fns[m["fn"]["usr"]], [], s2, (self.root, ()))
        self.obj = st.store[self.root]


def thread_loop(a):
    """the loop of the handler thread that hands over messages: [(path, event, L)]"""
    for o in a.thread_outs:
        for e in o.st.events:
            if e.kind == "loop" and any(has_kind(b.events, "zrecv") for b in e.d["rec"].bodies):
                yield o, e, e.d["rec"]


def real_outs(rep, rule, outs, what, default):
    for o in outs:
        if o.exit in ("next", "return"):
            yield o
        elif o.exit == "throw":
            pass


# ---------------------------------------------------------------- C19
RS = "src/reactor/router_socket_wrapper.cpp"
RC = "src/reactor/reactor.cpp"


def socket_classes(prog):
    for r in prog.recs.values():
        bs = [b if isinstance(b, str) else b.get("ty") or b.get("q") for b in r.get("bases", [])]
        if any(strip_type(b) == "socket_wrapper_base" for b in bs):
            yield r["q"]


def c19(ctx, rep):
    prog = ctx.prog
    for cls in sorted(set(socket_classes(prog))):
        U = Unit(prog, NetHooks(fail=True))
        st = St()
        st.store[THIS] = U.obj(cls, "X.")
        for fd in prog.rec_by_q("socket_wrapper_base")["fields"]:
            st.store[THIS] = rec_set(st.store[THIS], fd["n"], ("sym", "X." + fd["n"]))
        f = U.method(cls, "send_message")
        if f is None:
            rep.undecided("write", "%s::send_message not found" % cls)
            continue
        outs = run(rep, "write", lambda: U.call(f, [M], st, (THIS, ())))
        if outs is None:
            continue
        rep.count(functions=1, paths=len(outs))
        what = "%s::send_message" % cls
        for o in outs:
            tr = top(o)
            d = ndescribe(tr)
            w = wh(o.st.events, RS)
            failed = any(e.kind == "zfail" for e, _ in flat(o.st.events))
            sent = [e for e, _ in flat(o.st.events) if e.kind == "zsend"]
            if o.exit in ("throw", "crash"):
                rep.expect(False if failed or o.exit == "crash" else None, "write.failure", what, w, d, msg="%s: a failed send escapes as an exception" % what if failed else "%s: %s" % (what, o.val))
                continue
            v = truth(o)
            if failed:
                rep.expect(not3(v), "write.failure", "%s reports a failed send" % what, w, d, msg="%s: reports success although a send failed" % what)
                continue
            if v is None:
                rep.undecided("write", "result of %s" % what, w)
                continue
            if v is False:
                if any(o.exit == "loop" for o in ()):
                    pass
                # refused: nothing may have been written
                ed = empty_known(o.st.facts, MDATA)
                if sent:
                    rep.bad("write.failure", "%s: reports failure after writing without any failure" % what, w, d)
                else:
                    rep.expect(True if ed is True else None if any(opaque(k) for k in o.st.facts.atoms) else False, "write.failure", "%s refuses only a message without data" % what, w, d, msg="%s: refuses to send a message that has data" % what)
                continue
            check_write(rep, "write", tr, [MID], what, RS)
        f = U.method(cls, "receive_message")
        if f is None:
            rep.undecided("read", "%s::receive_message not found" % cls)
            continue
        tgt = ("h", "target")
        st2 = st.copy()
        st2.store[tgt] = rec("message_container", {"key": MKEY, "identity": MID, "data": MDATA})
        I = U.I

        def go():
            v = I.arg_value(I.inline(f, (THIS, ()), [("L", (tgt, ()))]))
            if v not in (TRUE, FALSE):
                v = TRUE if I.branch(I.truth(v)) else FALSE
            return v

        outs = run(rep, "read", lambda: I.run(go, st2))
        if outs is None:
            continue
        rep.count(functions=1, paths=len(outs))
        what = "%s::receive_message" % cls
        for o in outs:
            tr = top(o)
            d = ndescribe(tr)
            w = wh(o.st.events, RS)
            failed = any(e.kind == "zfail" for e, _ in flat(o.st.events))
            if o.exit in ("throw", "crash"):
                rep.expect(False if failed or o.exit == "crash" else None, "read.failure", what, w, d, msg="%s: a failed receive escapes as an exception" % what if failed else "%s: %s" % (what, o.val))
                continue
            v = truth(o)
            if failed:
                rep.expect(not3(v), "read.failure", "%s reports a failed receive" % what, w, d, msg="%s: reports a message although a receive failed" % what)
                continue
            if v is not True:
                rep.expect(None if v is None or not any(e.kind == "zrecv" for e in o.st.events) else False, "read", what, w, d, msg="%s: reports failure although the message was received" % what)
                continue
            msg = o.st.store[tgt]
            if fld(msg, "key") != MKEY:
                rep.expect(False if not opaque(fld(msg, "key")) else None, "read.key", what, w, d, msg="%s changes the key of the message" % what)
            else:
                rep.ok("read.key", "%s leaves the key alone" % what)
            reads = Reads(rep, "read", what, tr).walk(o.st.events, o.st.facts)
            check_read(rep, "read", tr, reads, msg, 0, ["identity"], what, RS)
    async_framing(ctx, rep)


def async_framing(ctx, rep):
    prog = ctx.prog
    a = Async(prog, rep, "async")
    if not a.ok:
        rep.undecided("async", a.why, RC)
        return
    rep.count(functions=4, paths=len(a.call_outs) + len(a.thread_outs))
    own = None
    for o in a.thread_outs:
        for e in o.st.events:
            if e.kind == "zsetsockopt" and e.d["args"] and e.d["args"][0] == N(5):
                own = e.d["args"][1]
                if len(e.d["args"]) > 2 and e.d["args"][2] != size_of(own):
                    rep.expect(None if opaque(e.d["args"][2]) else False, "async.identity", "identity of the thread's socket", where(e), msg="the identity of the thread's socket is cut or extended")
    if own is None:
        rep.undecided("async.identity", "identity of the thread's socket", RC)
    for o in a.call_outs:
        if o.exit not in ("next", "return"):
            rep.expect(False if o.exit == "crash" else None, "async.write", "handing a message to an asynchronous handler", wh(o.st.events, RC), ndescribe(top(o)), msg="handing a message to an asynchronous handler: %s" % (o.val,))
            continue
        first = [e for e in o.st.events if e.kind == "zsend"][:1]
        pid = own if own is not None else (first[0].d["data"] if first else ("sym", "?"))
        check_write(rep, "async.write", top(o), [pid, MKEY, MID], "handing a message to an asynchronous handler", RC)
    n = 0
    for o, e, L in thread_loop(a):
        for b in L.bodies:
            tr = Tr(b.events, b.st, b.exit, b.val, ((L, b),), o)
            vc = list(calls(b.events, "on_request"))
            if not vc:
                continue
            n += 1
            if len(vc) > 1 or vc[0][1]:
                rep.bad("async.read", "a message is handed to an asynchronous handler more than once", where(vc[0][0]), ndescribe(tr))
                continue
            msg = vc[0][0].d["args"][0]
            reads = Reads(rep, "async.read", "the handler thread", tr).walk(b.events, b.st.facts)
            check_read(rep, "async.read", tr, reads, msg, 0, ["key", "identity"], "the handler thread", RC)
            resp = vc[0][0].d["args"][1] if len(vc[0][0].d["args"]) > 1 else None
            if resp is None or resp[0] not in ("clo", "bind", "memfn"):
                rep.undecided("async.respond", "response callback", where(vc[0][0]))
                continue
            routs = run(rep, "async.respond", lambda: a.rx.closure(b.st, resp, [R]))
            for ro in routs or []:
                if ro.exit not in ("next", "return"):
                    continue
                check_write(rep, "async.respond", top(ro), [fld(R, "key"), fld(R, "identity")], "the response of an asynchronous handler", RC)
    if n == 0:
        rep.undecided("async.read", "loop of the handler thread", RC)
    main_async_read(ctx, rep)


def loop_runs(ctx, rep, rule):
    """runs of reactor::start_loop with the main loop: (path, L)"""
    rx = Rx(ctx.prog, virt=VIRT, stop=ROUTE)
    outs = run(rep, rule, lambda: rx.call("start_loop", []))
    res = []
    for o in outs or []:
        for e in o.st.events:
            if e.kind == "loop" and any(has_kind(b.events, "poll") for b in e.d["rec"].bodies):
                res.append((o, e.d["rec"], e))
    if outs is not None and not res:
        rep.undecided(rule, "main loop not recognised", RC)
    return rx, outs or [], res


def uniq_loops(res):
    seen = set()
    for o, L, e in res:
        if id(L) not in seen:
            seen.add(id(L))
            yield o, L, e


def async_field(prog):
    fs = fields_of_type(prog, "reactor", ("zmq::socket_t",))
    return fs[0] if len(fs) == 1 else None


def traces_in(tr):
    yield from subtraces(tr)


def item_traces(L):
    """iterations of the main loop and, inside them, of loops over the polled items"""
    for b in L.bodies:
        t = Tr(b.events, b.st, b.exit, b.val, ((L, b),), None)
        yield t
        for e in b.events:
            if e.kind == "loop":
                for b2 in e.d["rec"].bodies:
                    if b2.exit == "next":
                        yield Tr(b2.events, b2.st, b2.exit, b2.val, ((L, b), (e.d["rec"], b2)), None)


def main_async_read(ctx, rep):
    rx, outs, res = loop_runs(ctx, rep, "async.route")
    fld_ = async_field(ctx.prog)
    n = 0
    for o, L, e in uniq_loops(res):
        for t in item_traces(L):
            rv = [x for x in t.events if x.kind == "zrecv"]
            if not rv:
                continue
            n += 1
            what = "reading from asynchronous handlers"
            sm = list(calls(t.events, cls="reactor"))
            if len(sm) != 1:
                continue  # C18
            reads = Reads(rep, "async.route", what, t)
            reads.fixed = 3
            reads.walk(t.events, t.facts)
            check_read(rep, "async.route", t, reads, sm[0][0].d["args"][0], 1, ["key", "identity"], what, RC)
    if n == 0 and res:
        rep.undecided("async.route", "reading from asynchronous handlers not recognised", RC)


# ---------------------------------------------------------------- C18
def bad_or_unknown(rep, rule, cond_known, msg, w, d):
    if cond_known:
        rep.bad(rule, msg, w, d)
    else:
        rep.undecided(rule, msg, w)


def delivered(rep, rule, tr, msg, handlers, what, default):
    """on this path the message goes once to every handler of its key; nothing else is called"""
    d = ndescribe(tr)
    w = wh(tr.events, default)
    key = fld(msg, "key")
    hc = [e for e in deep(tr.events) if e.kind == "vcall" and e.d["cls"] != "reactor" and e.d["name"] == "operator()"]
    loops = []
    for e in tr.events:
        if e.kind == "vcall" and e.d["name"] == "operator()":
            bad_or_unknown(rep, rule, not opaque(e.d["obj"] or NULL), "%s: a handler is called outside of a loop over the handlers of the key" % what, where(e), d)
            return
        if e.kind == "loop" and has_kind([e], "vcall"):
            loops.append(e)
    if not loops:
        # nothing delivered: only right if there is no such handler
        f = tr.facts
        hf = [("sym", "X." + x) for x in handlers]
        if any(k[0] == "nz" and v is False and k[1][0] == "has" and k[1][1] in hf and k[1][2] == key for k, v in f.atoms.items()):
            rep.ok(rule, what)
            return
        for x in f.bnd:
            for t, _ in x:
                if t[0] == "size" and mentions(t, key) and f.q_eqi(t, N(0)) is True:
                    rep.ok(rule, what)
                    return
        rep.expect(None if any(opaque(k) for k in f.atoms) else False, rule, what, w, d, msg="%s: a message is not passed to the handlers of its key" % what)
        return
    if len(loops) > 1:
        rep.undecided(rule, "%s: several loops" % what, w)
        return
    e = loops[0]
    L = e.d["rec"]
    coll = L.coll
    if coll is None or L.sym is None:
        rep.undecided(rule, "%s: loop at line %s" % (what, L.line), where(e))
        return
    ranged = contains(coll, lambda t: t and t[0] in ("eqr",))
    run_of = L.start if L.start is not None and L.start[0] == "lb" and L.start[1] == coll else None
    if not ranged and L.sym[0] != "ix" and e.d["exit"] is None:
        # where does the loop end?
        atend = tr.facts.q_eqi(L.sym, size_of(coll))
        if run_of is not None:
            s = same(tr.facts, run_of[2], key)
            if s is not True:
                bad_or_unknown(rep, rule, s is False, "%s: passes the message to the handlers of %s" % (what, show(run_of[2])[:80]), where(e), d)
                return
            ub = add(run_of, size_of(("eqr", coll, key)))
            atub = tr.facts.q_eqi(L.sym, ub)
            over = tr.facts.q_eq(("ky", coll, L.sym), key)
            if over is None:
                over = tr.facts.q_eq(("fld", ("at", coll, L.sym), "first"), key)
            if atub is True:
                for b in L.bodies:
                    b.st.facts.assume(("cmp", "==", ("ky", coll, L.sym), key), True)
            elif atend is not True and over is not False:
                rep.undecided(rule, "%s: where the loop at line %s ends is not known" % (what, L.line), where(e))
                return
        elif atend is not True:
            if tr.facts.q_eqi(L.sym, add(("lb", coll, key), size_of(("eqr", coll, key)))) is not True:
                rep.undecided(rule, "%s: where the loop at line %s ends is not known" % (what, L.line), where(e))
                return
    if e.d["exit"] is not None:
        xb = [b for b in L.bodies if b.pid == e.d["exit"]][0]
        if xb.exit in ("throw", "crash"):
            return
        # left early: handlers after this one are not called
        if any(k[0] == "atom" and "ix" in repr(k) and False for k in xb.facts):
            return
        bad_or_unknown(rep, rule, ranged, "%s: stops before the message was passed to all handlers" % what, where(e), d)
        return
    if L.start not in (None, N(0), run_of):
        bad_or_unknown(rep, rule, L.start[0] == "n" or contains(L.start, lambda t: t and t[0] == "lb" and t[1] == coll), "%s: the first handlers of the key are skipped" % what, where(e), d)
        return
    if ranged:
        ks = [t for t in subterms(coll) if isinstance(t, tuple) and t and t[0] == "eqr"][0]
        s = same(tr.facts, ks[2], key)
        rep.expect(s, rule + ".key", "%s looks up the handlers of the message's key" % what, where(e), d, msg="%s: passes the message to the handlers of %s" % (what, show(ks[2])[:80]))
        if s is not True:
            return
    for b in L.bodies:
        if b.exit != "next":
            continue
        vc = [(x, r) for x, r in flat(b.events) if x.kind == "vcall" and x.d["name"] == "operator()"]
        hit = True
        if not ranged:
            hit = b.st.facts.q_eq(("ky", coll, L.sym), key)
            if hit is None:
                hit = b.st.facts.q_eq(("fld", ("at", coll, L.sym), "first"), key)
            if hit is None and coll not in [("sym", "X." + x) for x in handlers]:
                rep.undecided(rule, "%s: loop at line %s" % (what, L.line), where(e))
                return
        if hit is None:
            clear = not any(opaque(k) for k in b.st.facts.atoms) and not any(k[0] == "nz" and k[1][0] in ("ap", "call") for k in b.st.facts.atoms)
            bad_or_unknown(rep, rule, clear and vc, "%s: a handler is called without its key being known to be the message's" % what, where(e), d)
            return
        if len(vc) != (1 if hit else 0) or any(r for _, r in vc):
            guard = any(k[0] == "atom" and k[1][0] not in ("took", "some", "nomod") and opaque(k[1]) for k in b.facts)
            bad_or_unknown(rep, rule, not guard, "%s: a handler of the key is called %s" % (what, "never" if not vc else "more than once") if hit else "%s: a handler of another key is called" % what, where(e), d)
            return
        for x, _ in vc:
            s = same(b.st.facts, x.d["args"][0], msg)
            rep.expect(s, rule + ".msg", "%s passes the message itself" % what, where(x), d, msg="%s: passes %s" % (what, show(x.d["args"][0])[:100]))
            o = x.d["obj"]
            if o is not None and ranged:
                good = mentions(o, L.sym)
                rep.expect(True if good else None if opaque(o) else False, rule + ".who", "%s calls each of the handlers" % what, where(x), d, msg="%s: calls %s for every handler" % (what, show(o)[:100]))
    rep.ok(rule, what)


def c18(ctx, rep):
    prog = ctx.prog
    rx = Rx(prog, virt=VIRT)
    HS = fields_of_type(prog, "reactor", ("std::multimap", "std::unordered_multimap"))
    # process_message
    outs = run(rep, "process", lambda: rx.call("process_message", [M]))
    rep.count(functions=1, paths=len(outs or []))
    for o in outs or []:
        if o.exit not in ("next", "return"):
            continue
        sc = [e for e, _ in calls(o.st.events, cls="socket_wrapper_base")]
        if sc:
            rep.bad("process", "process_message sends to a socket", where(sc[0]), ndescribe(top(o)))
            continue
        delivered(rep, "process", top(o), M, HS, "process_message", RC)
    # send_message
    outs = run(rep, "send", lambda: rx.call("send_message", [M]))
    rep.count(functions=1, paths=len(outs or []))
    socks = fields_of_type(prog, "reactor", ("std::map", "std::unordered_map"))
    SOCKS = ("sym", "X." + socks[0]) if len(socks) == 1 else None
    for o in outs or []:
        if o.exit not in ("next", "return"):
            continue
        tr = top(o)
        d = ndescribe(tr)
        w = wh(o.st.events, RC)
        sc = list(calls(o.st.events, "send_message", "socket_wrapper_base"))
        hc = [e for e in deep(o.st.events) if e.kind == "vcall" and e.d["name"] == "operator()"]
        has = o.st.facts.q(("has", SOCKS, MKEY)) if SOCKS else None
        if has is True:
            if hc:
                rep.bad("send", "a message for a socket is passed to handlers", w, d)
            elif len(sc) != 1 or sc[0][1]:
                rep.bad("send", "a message for a socket is sent %s" % ("several times" if sc else "nowhere"), w, d)
            else:
                e = sc[0][0]
                s = all3(same(o.st.facts, e.d["obj"], ("mg", SOCKS, MKEY)), same(o.st.facts, e.d["args"][0], M))
                rep.expect(s, "send", "a message for a socket goes to that socket", where(e), d, msg="a message for a socket goes to %s as %s" % (show(e.d["obj"])[:80], show(e.d["args"][0])[:80]))
        elif has is False:
            if sc:
                rep.bad("send", "a message whose key has no socket goes to a socket", where(sc[0][0]), d)
            else:
                delivered(rep, "send", tr, M, HS, "send_message", RC)
        else:
            rep.undecided("send", "send_message: does the key have a socket", w)
    registration(ctx, rep)
    sync_call(ctx, rep)
    async_link(ctx, rep)
    loop_routing(ctx, rep)


def registration(ctx, rep):
    prog = ctx.prog
    hf = fields_of_type(prog, "reactor", ("std::multimap", "std::unordered_multimap"))
    sf = fields_of_type(prog, "reactor", ("std::map", "std::unordered_map"))
    for name in ("add_handler", "add_async_handler"):
        rx = Rx(prog, virt=VIRT)
        outs = run(rep, "register", lambda: rx.call(name, [O, H]))
        rep.count(functions=1, paths=len(outs or []))
        if len(hf) != 1:
            for o in outs or []:
                for tr in all_traces(o):
                    # a second handler for the same origin
                    ev = [e for e in tr.events if e.kind == "cm" and e.d["op"] == "map-insert-dup" and tr.chain and tr.exit == "next"]
                    L = tr.chain[-1][0] if tr.chain else None
                    if ev and L.coll == O and ev[0].d["key"] == at(O, L.sym) and ev[0].d["loc"][0] == THIS and not any(e.kind in ("w", "vcall", "ext") or (e.kind == "cm" and e not in ev) for e in tr.events):
                        rep.bad("register", "%s drops a handler of an origin that has one already" % name, where(ev[0]), ndescribe(tr))
                        return
            rep.undecided("register", "table of handlers not recognised", RC)
            return
        for o in outs or []:
            if o.exit not in ("next", "return"):
                continue
            d = ndescribe(top(o))
            w = wh(o.st.events, RC)
            th = [e for e in o.st.events if e.kind == "thread"]
            if name == "add_handler":
                rep.expect(not th, "register", "add_handler starts no thread", w, d, msg="a synchronous handler gets a thread of its own")
            else:
                rep.expect(len(th) == 1, "register", "add_async_handler starts one thread", w, d, msg="an asynchronous handler gets %d threads" % len(th))
            v = fld(o.st.store[THIS], hf[0])
            acc = [t for t in subterms(v) if isinstance(t, tuple) and t and t[0] == "accm"]
            if len(acc) != 1 or v[0] != "map":
                if v == ("sym", "X." + hf[0]):
                    ne = empty_known(o.st.facts, O)
                    rep.expect(True if ne is True else False, "register", name, w, d, msg="%s registers nothing" % name)
                else:
                    rep.undecided("register", "%s: table of handlers afterwards" % name, w)
                continue
            a = acc[0]
            L = rx.I.loops.get(a[1])
            if a[3] != ("sym", "X." + hf[0]):
                rep.expect(None if opaque(a[3]) else False, "register", name, w, d, msg="%s drops handlers registered before" % name)
                continue
            if L is None or L.coll != O:
                rep.undecided("register", "%s: loop over the origins" % name, w)
                continue
            if any(b.exit != "next" for b in L.bodies) or L.start not in (None, N(0)):
                rep.expect(None if any(b.exit == "throw" for b in L.bodies) else False, "register", name, w, d, msg="%s does not register all origins" % name)
                continue
            for pid, ents in a[4]:
                good = len(ents) == 1 and ents[0][0] == at(O, L.sym)
                rep.expect(good if not any(opaque(x) for x in ents) else None, "register", "%s subscribes each origin" % name, w, d, msg="%s registers %s" % (name, show(ents)[:100]))
                if not good:
                    continue
                p = ents[0][1]
                if p[0] != "ptr":
                    rep.undecided("register", "%s: wrapper" % name, w)
                    continue
                obj = o.st.store.get(p[1])
                hs = [x for f_, x in obj[2] if x == H] if obj and obj[0] == "rec" else []
                rep.expect(True if len(hs) == 1 else None, "register", "%s wraps the handler" % name, w, d)
            missing = [b.pid for b in L.bodies if b.exit == "next" and b.pid not in dict(a[4])]
            if missing:
                rep.bad("register", "%s leaves out some origins" % name, w, d)
    if len(sf) == 1:
        rx = Rx(prog, virt=VIRT)
        outs = run(rep, "register", lambda: rx.call("add_socket", [NAME, H]))
        for o in outs or []:
            if o.exit not in ("next", "return"):
                continue
            base = ("sym", "X." + sf[0])
            v = fld(o.st.store[THIS], sf[0])
            w = wh(o.st.events, RC)
            if o.st.facts.q(("has", base, NAME)) is True:
                rep.ok("register", "add_socket")
                continue
            es = dict(v[2]) if v[0] == "map" and v[1] == base else None
            rep.expect(None if es is None and opaque(v) else es == {NAME: H}, "register", "add_socket stores the socket under its name", w, ndescribe(top(o)), msg="add_socket does not store the socket under its name")


def sync_call(ctx, rep):
    prog = ctx.prog
    rx = Rx(prog, virt=("handler_interface", "socket_wrapper_base"), stop=ROUTE)
    outs = run(rep, "sync", lambda: rx.call("add_handler", [O, H]))
    n = 0
    for o in outs or []:
        roots = [r for r, v in o.st.store.items() if r[0] == "h" and r != THIS and v[0] == "rec" and prog.rec_by_q(v[1]) is not None and rx.U.method(v[1], "operator()") is not None]
        if len(roots) != 1:
            continue
        n += 1
        root = roots[0]
        for c in rx.on(o.st, o.st.store[root][1], "operator()", [M], root):
            tr = top(c)
            d = ndescribe(tr)
            w = wh(c.st.events, RC)
            if c.exit not in ("next", "return"):
                continue
            vc = list(calls(c.st.events))
            if len(vc) != 1 or vc[0][1]:
                rep.bad("sync", "a synchronous handler is called %d times" % len(vc), w, d)
                continue
            e = vc[0][0]
            s = all3(same(c.st.facts, e.d["obj"], H), same(c.st.facts, e.d["args"][0], M))
            rep.expect(s, "sync", "a synchronous handler gets the message", where(e), d, msg="a synchronous handler is called with %s" % show(e.d["args"][0])[:100])
            clo = e.d["args"][1] if len(e.d["args"]) > 1 else NULL
            if clo[0] not in ("clo", "bind", "memfn", "fnp"):
                rep.undecided("sync.respond", "response callback", where(e))
                continue
            for r in run(rep, "sync.respond", lambda: rx.closure(c.st, clo, [R])) or []:
                if r.exit not in ("next", "return"):
                    continue
                rc = list(calls(r.st.events))
                if len(rc) != 1 or rc[0][1]:
                    rep.bad("sync.respond", "the response of a synchronous handler is routed %d times" % len(rc), wh(r.st.events, RC), ndescribe(top(r)))
                    continue
                x = rc[0][0]
                if x.d["cls"] != "reactor":
                    rep.undecided("sync.respond", "response goes to %s" % x.d["cls"], where(x))
                    continue
                rep.expect(x.d["name"] == "send_message", "sync.respond", "responses are routed by their key", where(x), ndescribe(top(r)), msg="the response of a synchronous handler goes to handlers only, never to a socket")
                rep.expect(all3(same(r.st.facts, x.d["args"][0], R), x.d["obj"] == ("ptr", THIS, ())), "sync.respond", "responses are passed on as they are", where(x), ndescribe(top(r)), msg="the response of a synchronous handler is changed")
    if n == 0:
        rep.undecided("sync", "wrapper of synchronous handlers", RC)


def async_link(ctx, rep):
    """the handler thread's socket is the one messages are addressed to"""
    a = Async(ctx.prog, rep, "async")
    if not a.ok:
        rep.undecided("async", a.why, RC)
        return
    fld_ = async_field(ctx.prog)
    rep.count(functions=2, paths=len(a.call_outs) + len(a.thread_outs))
    # the reactor's end
    U = Unit(ctx.prog, NetHooks())
    bound = None
    for c in U.ctors("reactor"):
        for o in run(rep, "async", lambda: U.construct(c, [("sym", "ctxp")], "reactor")) or []:
            for e in o.st.events:
                if e.kind == "zbind" and e.d["sock"][1][-1:] == (("f", fld_),):
                    bound = (e.d["args"][0], o)
    for o in a.thread_outs:
        con = [e for e in o.st.events if e.kind == "zconnect"]
        ident = [e for e in o.st.events if e.kind == "zsetsockopt" and e.d["args"] and e.d["args"][0] == N(5)]
        if len(con) == 1 and bound is not None:
            addr_r = bound[0]
            addr_t = subst(con[0].d["args"][0], {("sym", "X." + f): fld(bound[1].st.store[THIS], f) for f in field_names(ctx.prog, "reactor")})
            rep.expect(True if addr_r == addr_t else None if opaque(addr_r) or opaque(addr_t) else False, "async.link", "the thread connects to the reactor", where(con[0]), ndescribe(top(o)), msg="the handler thread connects to %s but the reactor listens at %s" % (show(addr_t)[:60], show(addr_r)[:60]))
        else:
            rep.undecided("async.link", "address of the thread's connection", RC)
        if ident and con:
            i1, i2 = o.st.events.index(ident[0]), o.st.events.index(con[0])
            rep.expect(i1 < i2, "async.link", "the identity is set before connecting", where(con[0]), ndescribe(top(o)), msg="the thread's socket gets its identity only after connecting")
        for e in ident:
            for c in a.call_outs:
                s = [x for x in c.st.events if x.kind == "zsend"]
                if s:
                    rep.expect(same(c.st.facts, s[0].d["data"], e.d["args"][1]), "async.link", "messages are addressed to the handler's own thread", where(s[0]), ndescribe(top(c)), msg="messages for an asynchronous handler are addressed to %s but its thread is %s" % (show(s[0].d["data"])[:50], show(e.d["args"][1])[:50]))
                    sk = s[0].d["sock"]
                    rep.expect(True if sk == (THIS, (("f", fld_),)) else None, "async.link", "messages go through the reactor's socket", where(s[0]))
            # identities of different handlers differ: they must be derived from the object
            v = e.d["args"][1]
            own = contains(v, lambda t: t and t[0] == "ptr" and t[1] == a.root) or opaque(v)
            rep.expect(True if own else False, "async.link", "identities are unique", where(e), msg="all asynchronous handlers use the same identity %s" % show(v)[:60])
    n = 0
    for o, e, L in thread_loop(a):
        for b in L.bodies:
            if b.exit not in ("next",):
                continue
            vc = list(calls(b.events, "on_request"))
            got = [x for x in b.events if x.kind == "zrecv"]
            if not vc:
                # a message dropped: it must be known to be incomplete
                if got and b.st.facts.q(got[-1].d["more"]) is not False and len(got) >= 1:
                    cond = [k for k, v_ in b.facts.items() if k[0] == "atom" and k[1][0] in ("eq", "nz")]
                    rep.expect(None if not cond or any(opaque(k[1]) for k in cond) else False, "async.deliver", "every message is passed on", where(got[0]), ndescribe(Tr(b.events, b.st, b.exit, b.val, (), o)), msg="the handler thread drops a message")
                continue
            n += 1
            rep.expect(same(b.st.facts, vc[0][0].d["obj"], H) if len(vc) == 1 and not vc[0][1] else False, "async.deliver", "the handler gets each message once", where(vc[0][0]), ndescribe(Tr(b.events, b.st, b.exit, b.val, (), o)), msg="an asynchronous handler gets a message more than once")
    if n == 0:
        rep.undecided("async.deliver", "loop of the handler thread", RC)


def field_names(prog, cls):
    return [fd["n"] for fd in prog.rec_by_q(cls)["fields"]]


def generic_item(t, m):
    """acc(...)[i] -> the element appended in iteration i"""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(generic_item(x, m) if isinstance(x, tuple) else x for x in t)
    if t[0] == "at" and t[1][0] == "acc" and len(t[1][3]) == 1 and len(t[1][3][0][1]) == 1 and t[1][3][0][1][0][0] == "one":
        inst = t[1][1]
        el = t[1][3][0][1][0][1]
        m.add(inst)
        return subst(el, {("ix", inst): t[2]})
    return t


def loop_routing(ctx, rep):
    prog = ctx.prog
    rx, outs, res = loop_runs(ctx, rep, "loop")
    af = async_field(prog)
    rep.count(functions=1, paths=len(outs))
    n = 0
    for o, L, e in uniq_loops(res):
        for b in L.bodies:
            for ie in b.events:
                if ie.kind == "vcall" and ie.d["name"] == "receive_message":
                    rep.undecided("loop", "a message is received outside of a loop over the polled items", where(ie))
                if ie.kind != "loop" or not has_kind([ie], "vcall", "zrecv"):
                    continue
                IL = ie.d["rec"]
                if IL.coll is None or IL.sym is None:
                    rep.undecided("loop", "loop over the polled items at line %s" % IL.line, where(ie))
                    continue
                n += 1
                item_loop(ctx, rep, rx, L, b, IL, ie, af)
            # what else is passed to handlers in an iteration: the timer (C28)
    if res and n == 0:
        rep.undecided("loop", "loop over the polled items not recognised", RC)
    init_items(ctx, rep, rx, res, af)


def counters(IL):
    """variables that always equal the index of a loop over elements"""
    m = {}
    for lb, c in IL.cells.items():
        if c["old"] == N(0) and c["kinds"] == {"add"} and all(p == ("add", N(1)) for p in c["per"].values()):
            nexts = [x.pid for x in IL.bodies if x.exit == "next"]
            if all(pid in c["per"] for pid in nexts):
                m[c["phi"]] = IL.sym
    return m


def polled_value(L, coll):
    """the value the polled container had when the main loop was entered"""
    if coll[0] == "phi":
        for lb, c in L.cells.items():
            if c["phi"] == coll and c["kinds"] <= {"set"} and all(p[0] == "same" for p in c["per"].values()):
                return c["old"]
    if coll[0] == "ap" and coll[1] == "polled":
        return polled_value(L, coll[2])
    return coll


def item_loop(ctx, rep, rx, L, b, IL, ie, af):
    cm = counters(IL)
    items = polled_value(L, IL.coll)
    for ib in IL.bodies:
        tr = Tr(ib.events, ib.st, ib.exit, ib.val, ((L, b), (IL, ib)), None)
        d = ndescribe(tr)
        rc = list(calls(ib.events, "receive_message"))
        zr = [x for x in deep(ib.events) if x.kind == "zrecv"]
        rt = list(calls(ib.events, cls="reactor"))
        hc = list(calls(ib.events, "operator()"))
        if ib.exit in ("throw", "crash"):
            continue
        if ib.exit not in ("next",):
            rep.expect(None if not (rc or zr) else False, "loop.all", "all ready sockets are served", where(ie), d, msg="an iteration over the polled items ends the loop before the others were looked at")
            continue
        ready = None
        for k, v in ib.st.facts.atoms.items():
            if k[0] == "nz" and k[1][0] == "ap" and k[1][1] == "&" and fld_name(k[1][2]) == "revents" and k[1][3] == N(1):
                base = k[1][2][1]
                ready = v if base == at(IL.coll, IL.sym) or subst(base, cm) == at(IL.coll, IL.sym) else ready
        if not rc and not zr:
            if ready is True:
                rep.expect(None if any(opaque(k) for k, v in ib.st.facts.atoms.items() if not (k[0] == "nz" and k[1][0] == "ap" and k[1][1] == "&")) else False, "loop.all", "every ready socket is read", where(ie), d, msg="a socket with a message is not read")
            elif rt or hc:
                rep.bad("loop", "a message is routed that was not received", where((rt or hc)[0][0]), d)
            else:
                rep.ok("loop.idle", "nothing is done for idle sockets")
            continue
        if ready is not True:
            rep.expect(None if ready is None and opaque_ready(ib) else False, "loop.ready", "only ready sockets are read", where((rc or [(zr[0], 0)])[0][0]), d, msg="a socket is read (and the loop blocked) although polling did not report a message on it")
            continue
        rep.ok("loop.ready", "only ready sockets are read")
        if rc and zr:
            rep.undecided("loop", "both kinds of sockets read in one iteration", where(ie))
            continue
        if rc:
            if len(rc) != 1 or rc[0][1]:
                rep.bad("loop", "a ready socket is read more than once", where(rc[0][0]), d)
                continue
            x = rc[0][0]
            used = set()
            obj = generic_item(subst(x.d["obj"], cm), used)
            want = generic_item(at(items, IL.sym), used)
            # the polled item at this position, inside the first part of the list
            first = parts_of(items)[0] if parts_of(items) else None
            if first is not None and first[0] == "all" and len(parts_of(items)) > 1:
                want = generic_item(at(first[1], IL.sym), used)
            wobj = sock_of(want)
            if wobj is None or obj is None:
                rep.undecided("loop.socket", "socket of the polled item", where(x))
            else:
                q = same(ib.st.facts, obj, wobj)
                rep.expect(q, "loop.socket", "the socket read is the one polled", where(x), d, msg="a message is read from %s when polling reported %s" % (show(obj)[:80], show(wobj)[:80]))
            key = generic_item(subst(fld(x.d["args"][0], "key"), cm), used)
            ok = None
            ret = None
            for k, v in ib.st.facts.atoms.items():
                if k[0] == "nz" and k[1][0] == "ap" and k[1][1] == "receive_message":
                    ret = v
            if ret is None and rt:
                rep.expect(False if not any("receive_message" in repr(k) for k in ib.st.facts.atoms) else None, "loop.failed", "failed receives are not processed", where(x), d, msg="what was read is processed although the receive may have failed")
                continue
            if ret is not True:
                rep.expect(not rt and not hc, "loop.failed", "failed receives are not processed", where(x), d, msg="what was read is processed although the receive failed")
                continue
            if len(rt) != 1 or rt[0][1]:
                rep.expect(None if hc else False, "loop.route", "a received message is processed once", where(x), d, msg="a received message is processed %d times" % len(rt))
                continue
            y = rt[0][0]
            rep.expect(y.d["name"] == "process_message", "loop.route", "received messages go to handlers", where(y), d, msg="a message received from a socket is sent to a socket again instead of being passed to the handlers")
            msg = y.d["args"][0]
            k2 = generic_item(subst(fld(msg, "key"), cm), used)
            exp = key_of(obj)
            if exp is None:
                rep.undecided("loop.key", "key of the socket", where(y))
            else:
                rep.expect(same(ib.st.facts, k2, exp), "loop.key", "a received message carries the key of its socket", where(y), d, msg="a message received from the socket %s is processed as one of %s" % (show(exp)[:60], show(k2)[:60]))
            out = [t for t in subterms(msg) if isinstance(t, tuple) and t and t[0] == "sym" and str(t[1]).startswith("out~")]
            good = bool(out) and fld(msg, "data") == fld(out[0], "data") and fld(msg, "identity") == fld(out[0], "identity")
            rep.expect(True if good else None if opaque(msg) else False, "loop.msg", "the message received is the one processed", where(y), d, msg="the message processed is not the one received but %s" % show(msg)[:100])
            continue
        # the asynchronous handlers' socket
        x = zr[0]
        sk = x.d["sock"]
        last = parts_of(items)[-1] if parts_of(items) else None
        wobj = None
        if last is not None and last[0] == "one":
            wobj = raw_sock(last[1])
        rep.expect(True if wobj == sk else None if wobj is None else False, "loop.async", "the internal socket is polled and read", where(x), d, msg="the socket read is not the one polled")
        if len(rt) != 1 or rt[0][1]:
            rep.expect(None if hc else False, "loop.async", "what an asynchronous handler sends is routed once", where(x), d, msg="a message of an asynchronous handler is routed %d times" % len(rt))
            continue
        y = rt[0][0]
        rep.expect(y.d["name"] == "send_message", "loop.async", "what an asynchronous handler sends is routed by its key", where(y), d, msg="a message of an asynchronous handler never reaches a socket")


def fld_name(t):
    return t[2] if t[0] == "fld" else None


def opaque_ready(ib):
    return any("revents" in repr(k) for k in ib.st.facts.atoms) or any("revents" in repr(k) for k in ib.st.facts.bnd)


def raw_sock(item):
    if item[0] != "rec":
        return None
    s = fld(item, "socket")
    if s[0] == "ap" and s[1] == "handle" and s[2][0] == "ptr":
        return (s[2][1], s[2][2])
    return None


def sock_of(item):
    r = raw_sock(item)
    if r is None:
        return None
    if r[0][0] == "p":
        return r[0][1]
    return ("ptr", r[0], r[1])


def key_of(obj):
    """sockets_{key} -> key"""
    if obj is not None and obj[0] == "mg":
        return obj[2]
    return None


def init_items(ctx, rep, rx, res, af):
    """every registered socket is initialised and polled, and so is the internal one"""
    sf = fields_of_type(ctx.prog, "reactor", ("std::map", "std::unordered_map"))
    if len(sf) != 1:
        return
    SOCKS = ("sym", "X." + sf[0])
    for o, L, e in uniq_loops(res):
        init = [x for x in o.st.events if x.kind == "loop" and any(y.kind == "vcall" and y.d["name"] == "initialize" for y in deep([x]))]
        if len(init) != 1:
            rep.expect(None if init else False, "loop.init", "every socket is initialised", wh(o.st.events, RC), ndescribe(top(o)), msg="the registered sockets are never initialised")
            continue
        IL = init[0].d["rec"]
        if IL.coll != SOCKS:
            rep.undecided("loop.init", "loop over the registered sockets", where(init[0]))
            continue
        for b in IL.bodies:
            if b.exit in ("throw", "crash"):
                continue
            vc = [x for x, r in calls(b.events, "initialize")]
            good = b.exit == "next" and len(vc) == 1 and vc[0].d["obj"] == ("mg", SOCKS, ("ky", SOCKS, IL.sym))
            rep.expect(True if good else None if any(opaque(k) for k in b.st.facts.atoms) else False, "loop.init", "every socket is initialised once", where(init[0]), msg="a registered socket is not initialised exactly once")
        pe = [x for b in L.bodies for x in b.events if x.kind == "poll"]
        if pe:
            items = polled_value(L, pe[0].d["args"][0])
            ps = parts_of(items)
            sk = [raw_sock(p[1]) for p in ps if p[0] == "one"]
            acc = [p[1] for p in ps if p[0] == "all" and p[1][0] == "acc" and p[1][1] == IL.inst]
            nexts = {b.pid for b in IL.bodies if b.exit == "next"}
            if not acc or None in sk:
                rep.undecided("loop.poll", "list of polled items", where(pe[0]))
                continue
            full = all(len(it) == 1 and it[0][0] == "one" for _, it in acc[0][3]) and {pid for pid, _ in acc[0][3]} == nexts
            rep.expect(full, "loop.poll", "every socket is polled", where(pe[0]), ndescribe(top(o)), msg="a registered socket is not polled")
            rep.expect((THIS, (("f", af),)) in sk, "loop.poll", "the internal socket is polled", where(pe[0]), ndescribe(top(o)), msg="the socket of the asynchronous handlers is not polled")
            for it in [x[1] for _, y in acc[0][3] for x in y] + [p[1] for p in ps if p[0] == "one"]:
                ev = fld(it, "events")
                rep.expect(bool(ev[1] & 1) if ev[0] == "n" else None, "loop.poll", "items are polled for input", where(pe[0]), msg="a socket is not polled for input")


# ---------------------------------------------------------------- C23
def c23(ctx, rep):
    prog = ctx.prog
    # the flag
    rx = Rx(prog, virt=VIRT)
    outs = run(rep, "terminate", lambda: rx.call("terminate", []))
    flag = None
    for o in outs or []:
        ch = [k for k, v in o.st.store[THIS][2] if v == TRUE]
        if len(ch) == 1 and o.exit in ("next", "return"):
            flag = ch[0]
            rep.ok("terminate", "terminate() sets the flag")
        else:
            diff = [k for k, v in o.st.store[THIS][2] if v != ("sym", "X." + k)]
            rep.expect(False if not diff else None, "terminate", "terminate()", wh(o.st.events, RC), ndescribe(top(o)), msg="terminate() does not set anything on some path")
    rx, outs, res = loop_runs(ctx, rep, "loop")
    rep.count(functions=2, paths=len(outs))
    hf = fields_of_type(prog, "reactor", ("std::multimap", "std::unordered_multimap", "std::map", "std::unordered_map"))
    if flag is not None:
        FL = (THIS, (("f", flag),))
        for o, L, e in uniq_loops(res):
            # requests made before or while the loop runs are not forgotten
            ws = [x for x in deep(o.st.events) if x.kind == "w" and x.d["root"] == THIS and x.d["steps"][:1] == (("f", flag),) and x.d["val"] in (FALSE, N(0))]
            if ws:
                rep.bad("flag", "the loop forgets a termination request", where(ws[0]), ndescribe(top(o)))
            else:
                rep.ok("flag", "the loop never resets the flag")
            for b in L.bodies:
                d = ndescribe(Tr(b.events, b.st, b.exit, b.val, (), o))
                lds = [x for x in b.events if x.kind == "atomic-load" and x.d["loc"] == FL]
                if b.exit == "next":
                    if not lds:
                        fr = [k for k in b.st.facts.atoms if ("X." + flag) in repr(k) or "load~" in repr(k)]
                        ty = [fd["ty"] for fd in prog.rec_by_q("reactor")["fields"] if fd["n"] == flag][0]
                        if "atomic" not in ty:
                            rep.bad("flag", "the flag is an ordinary variable read by another thread than the one that sets it", RC, d)
                        else:
                            rep.bad("flag", "an iteration of the main loop does not look at the termination flag", wh(b.events, RC), d)
                        continue
                    vals = [b.st.facts.q(x.d["val"]) for x in lds]
                    if True in vals:
                        rep.bad("flag", "the main loop goes on although termination was requested", where(lds[0]), d)
                    elif False in vals:
                        rep.ok("flag", "an iteration only starts if no termination was requested")
                    else:
                        rep.bad("flag", "the main loop goes on whether or not termination was requested", where(lds[0]), d)
                elif b.exit in ("break", "return"):
                    rep.expect(True if lds and any(b.st.facts.q(x.d["val"]) is True for x in lds) else None if any(opaque(k) for k in b.st.facts.atoms) and not any(k[0] == "nz" for k in b.st.facts.atoms) else False, "flag", "the loop ends on request only", wh(b.events, RC), d, msg="the main loop ends without a termination request")
        for o in outs:
            if o.exit not in ("next", "return"):
                continue
            ml = [e for e in o.st.events if e.kind == "loop" and any(has_kind(b.events, "poll") for b in e.d["rec"].bodies)]
            d = ndescribe(top(o))
            if not ml:
                # returns without having looped
                continue
            i = o.st.events.index(ml[-1])
            after = o.st.events[i + 1 :]
            if ml[-1].d["exit"] is None:
                lds = [x for x in after if x.kind == "atomic-load" and x.d["loc"] == FL]
                q = [o.st.facts.q(x.d["val"]) for x in lds]
                if not lds:
                    rep.undecided("flag", "condition of the main loop", RC)
                else:
                    rep.expect(True in q, "flag", "the loop ends on request only", where(lds[0]), d, msg="the main loop ends although no termination was requested")
            mm = fields_of_type(prog, "reactor", ("std::multimap", "std::unordered_multimap"))
            for h in mm:
                v = fld(o.st.store[THIS], h)
                sz = size_of(v)
                empty = v in (EMPTYSEQ, ("map", ("empty",), (), True), ("map", ("empty",), (), False)) or o.st.facts.q_eqi(sz, N(0)) is True
                rep.expect(True if empty else None if opaque(v) else False, "clear", "all handlers are destroyed after the loop", wh(after, RC), d, msg="handlers survive the end of the main loop")
    # nobody else resets the flag
    if flag is not None:
        for f in prog.fns.values():
            fn = f["fn"]
            if fn.get("cls") != "reactor" or f.get("body") is None or fn["kind"] == "ctor":
                continue
            if resets(f["body"], flag):
                rep.bad("flag", "%s takes back a termination request" % fn["q"], "src/%s:%s" % (f.get("file", "?"), f.get("L", 0)))
    # the handler thread
    a = Async(prog, rep, "thread")
    if not a.ok:
        rep.undecided("thread", a.why, RC)
        return
    rep.count(functions=2, paths=len(a.thread_outs) + len(a.dtor_outs))
    words = set()
    n = 0
    for o, e, L in thread_loop(a):
        for b in L.bodies:
            d = ndescribe(Tr(b.events, b.st, b.exit, b.val, (), o))
            rv = [x for x in b.events if x.kind == "zrecv"]
            if b.exit in ("throw", "crash"):
                continue
            if not rv:
                rep.undecided("thread", "iteration without receive", where(e))
                continue
            fr = rv[0].d["frame"]
            c = b.st.facts.eqc.get(fr)
            if b.exit in ("return", "break"):
                n += 1
                vc = list(calls(b.events, "on_request"))
                if vc:
                    rep.bad("thread.end", "a handler thread ends after having handled a message without being told to", where(vc[0][0]), d)
                elif c is None:
                    rep.expect(None if any(opaque(k) for k in b.st.facts.atoms) else False, "thread.end", "the thread ends only when told", where(rv[0]), d, msg="the handler thread ends although it was not told to")
                else:
                    words.add(c)
                    rep.ok("thread.end", "the thread ends when told, handling nothing")
            elif c is not None and c in words:
                rep.bad("thread.end", "the handler thread goes on although it was told to terminate", where(rv[0]), d)
    for o, e, L in thread_loop(a):
        for b in L.bodies:
            if b.exit == "next":
                rv = [x for x in b.events if x.kind == "zrecv"]
                for wd in words:
                    if rv and b.st.facts.q_eq(rv[0].d["frame"], wd) is not False:
                        rep.expect(None if any(opaque(k) for k in b.st.facts.atoms) else False, "thread.end", "the thread ends when told", where(rv[0]), ndescribe(Tr(b.events, b.st, b.exit, b.val, (), o)), msg="the handler thread goes on although it was told to terminate")
    if not words:
        rep.expect(None if not any(True for _ in thread_loop(a)) or n else False, "thread.end", "the thread ends when told", RC, msg="the handler thread never ends")
    own = None
    for o in a.thread_outs:
        for e in o.st.events:
            if e.kind == "zsetsockopt" and e.d["args"] and e.d["args"][0] == N(5):
                own = e.d["args"][1]
    if not a.dtor_outs:
        rep.bad("dtor", "the wrapper of an asynchronous handler has no destructor: its thread is never told to terminate", RC)
    for o in a.dtor_outs:
        d = ndescribe(top(o))
        w = wh(o.st.events, RC)
        if o.exit not in ("next", "return"):
            continue
        ev = [x for x, r in flat(o.st.events) if x.kind in ("zsend", "join", "detach")]
        js = [i for i, x in enumerate(ev) if x.kind == "join"]
        ss = [x for x in ev if x.kind == "zsend"]
        if any(x.kind == "detach" for x in ev) or not js:
            rep.bad("dtor", "the handler's thread is not joined", w, d)
            continue
        before = [x for x in ev[: js[0]] if x.kind == "zsend"]
        data = [(x.d["data"], x.d["more"]) for x in before]
        if len(data) != 2:
            rep.expect(None if len(data) > 2 else False, "dtor", "the thread is told to terminate before it is joined", w, d, msg="the handler's thread is joined without having been told to terminate")
            continue
        if words:
            rep.expect(all3(any3(same(o.st.facts, data[1][0], x) for x in words), data[0][1] == TRUE, data[1][1] == FALSE), "dtor", "the thread is told to terminate before it is joined", w, d, msg="what the handler's thread is sent before the join does not make it terminate: %s" % show(data[1][0])[:80])
        if own is not None:
            rep.expect(same(o.st.facts, data[0][0], own), "dtor", "the right thread is told", w, d, msg="the request to terminate is addressed to %s" % show(data[0][0])[:80])
    # everything the thread uses exists before it starts
    snap = a.thread.d.get("snap")
    if snap is not None:
        ob = snap.get(a.root)
        used = fields_used(a)
        for f in used:
            v = fld(ob, f) if ob is not None and ob[0] == "rec" else None
            have = ob is not None and ob[0] == "rec" and any(k == f for k, _ in ob[2])
            fd = dict((x["n"], x) for c in chain(prog, a.cls) for x in c["fields"])
            if f in fd:
                rep.expect(True if have and not repr(v).startswith("('sym', 'uninit") else False, "start", "the thread starts after its data exist", where(a.thread), msg="the handler's thread is started before %s, which it uses, is initialised" % f)


def chain(prog, cls):
    r = prog.rec_by_q(cls)
    if r is None:
        return
    yield r
    for b in r.get("bases", []):
        n = b if isinstance(b, str) else b.get("ty") or b.get("q")
        yield from chain(prog, strip_type(n))


def fields_used(a):
    """fields of the wrapper the thread's events depend on"""
    out = set()
    ob = a.o.st.store[a.root]
    for o in a.thread_outs:
        for e in deep(o.st.events):
            for v in e.d.values():
                if isinstance(v, tuple):
                    for f, x in ob[2]:
                        if x[0] not in ("n", "b", "null", "void", "str", "alias") and mentions(v, x):
                            out.add(f)
    return out


def resets(body, flag):
    """is there an assignment or store of false to the flag?"""
    found = []

    def is_flag(e):
        while isinstance(e, dict) and e.get("k") in ("cast", "paren"):
            e = e.get("e")
        return isinstance(e, dict) and e.get("k") == "mem" and e.get("n", e.get("f")) == flag

    def is_false(e):
        while isinstance(e, dict) and e.get("k") in ("cast", "paren"):
            e = e.get("e")
        return isinstance(e, dict) and ((e.get("k") == "bool" and not e.get("v")) or (e.get("k") == "int" and e.get("v") in (0, "0")))

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "call" and (x.get("fn") or {}).get("n") in ("store", "operator=", "exchange") and is_flag(x.get("obj")):
                if x["args"] and is_false(x["args"][0]):
                    found.append(x)
            if x.get("k") == "call" and (x.get("fn") or {}).get("n") == "clear" and is_flag(x.get("obj")):
                found.append(x)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    walk(body)
    return bool(found)


# ---------------------------------------------------------------- C28
MS = 1000000


def c28(ctx, rep):
    rx, outs, res = loop_runs(ctx, rep, "tick")
    rep.count(functions=1, paths=len(outs))
    for o, L, e in uniq_loops(res):
        pre = [x for x in o.st.events[: o.st.events.index(e)] if x.kind == "now"] if e in o.st.events else []
        for x in list(deep(o.st.events)):
            if x.kind == "now" and "system_clock" in str(x.d["clock"]):
                rep.bad("clock", "elapsed time is taken from a clock that can be set", where(x))
        for b in L.bodies:
            if b.exit != "next":
                continue
            tr = Tr(b.events, b.st, b.exit, b.val, (), o)
            d = ndescribe(tr)
            ticks = []
            rp = False
            for x, r in calls(b.events, cls="reactor"):
                k = fld(x.d["args"][0], "key")
                if k == rx.I.global_value("reactor::KEY_TIMER") or k == S("timer"):
                    ticks.append(x)
                    rp = rp or r
            w = where(ticks[0]) if ticks else wh(b.events, RC)
            if len(ticks) != 1 or rp:
                unk = any(opaque(fld(x.d["args"][0], "key")) for x, r in calls(b.events, cls="reactor") if not r)
                rep.expect(None if unk else False, "once", "every iteration announces the time once", w, d, msg="an iteration of the main loop announces the elapsed time %d times" % len(ticks) if not rp else "the elapsed time is announced once per polled item")
                continue
            rep.expect(ticks[0].d["name"] in ("process_message", "send_message"), "once", "every iteration announces the time once", w)
            raw = fld(ticks[0].d["args"][0], "data")
            first = (list(parts_of(raw)) or [("one", VOID)])[0]
            if first[0] == "all" and accumulates(Tr(b.events, b.st, b.exit, b.val, ((L, b),), o), first[1]):
                rep.bad("value", "the times announced before are announced again", w, d)
                continue
            data = frames(raw)
            if data and data[0][0] == "str" and data[0][1].isdigit():
                conserve(rep, o, L, b, fixed_time(b, int(data[0][1])), w, d)
                continue
            if data is None or not data or data[0][0] != "tostr":
                rep.undecided("value", "time announced: %s" % show(fld(ticks[0].d["args"][0], "data"))[:80], w)
                continue
            x = data[0][1]
            conserve(rep, o, L, b, x, w, d)


def delta(c, b):
    """change of a cell in an iteration, or None"""
    p = c["per"].get(b.pid, ("same",))
    if p[0] == "same":
        return N(0)
    if p[0] == "add":
        return p[1]
    if p[0] in ("set", "other"):
        return sub(p[1], c["phi"])
    return None


def fixed_time(b, n):
    """a constant announced: the measured time that the path knows to have this value, if there is one"""
    for k, (lo, hi) in b.st.facts.bnd.items():
        if lo == hi == n and len(k) == 1 and k[0][1] == 1 and k[0][0][0] == "ap" and k[0][0][1] == "trunc":
            return k[0][0]
    return N(n)


def total_time(o, L, b, x):
    """announced = whole time since a fixed start, less the part of it announced before (kept in a variable)"""
    nows = [("now", e.d["clock"], e.d["n"]) for e in b.events if e.kind == "now"]
    for lb, c in L.cells.items():
        if c["old"] != N(0) or delta(c, b) != x:
            continue
        t = add(x, c["phi"])
        if t[0] == "ap" and t[1] == "trunc" and t[3] == N(MS):
            for n in nows:
                start = sub(n, t[2])
                if start[0] == "now" and start not in nows and start[1] == n[1]:
                    return True
    return False


def conserve(rep, o, L, b, x, w, d):
    """there is a clock position P (a combination of variables) with P' = P + announced, announced = floor(now - P)"""
    nows = [e for e in b.events if e.kind == "now"]
    cand = []
    cells = [(lb, c) for lb, c in L.cells.items() if c["old"][0] in ("now", "n", "lin")]
    for lb, c in cells:
        cand.append((c["phi"], c["old"], delta(c, b), lb))
        for lb2, c2 in cells:
            if lb2 != lb:
                for k in (1, MS):
                    d1, d2 = delta(c, b), delta(c2, b)
                    cand.append((sub(c["phi"], mulc(c2["phi"], k)), sub(c["old"], mulc(c2["old"], k)), None if d1 is None or d2 is None else sub(d1, mulc(d2, k)), lb + "," + lb2))
    ok, seen = False, []
    for P, P0, dP, lb in cand:
        if P0[0] != "now" or dP is None:
            continue
        good = sub(dP, mulc(x, MS)) == N(0)
        fl = x[0] == "ap" and x[1] == "trunc" and x[3] == N(MS) and x[2][0] == "lin" and any(x[2] == sub(("now", e.d["clock"], e.d["n"]), P) for e in nows)
        seen.append((lb, good, fl, dP))
        if good and fl:
            ok = True
    if ok or total_time(o, L, b, x):
        rep.ok("value", "the time announced is exactly what the clock position advances by")
        return
    unk = opaque(strip_now(x)) or any(opaque(strip_now(s[3])) for s in seen)
    # a position the loop is entered with that the candidates above do not cover (iterations before the loop)
    if not seen:
        unk = unk or any((c["old"][0] == "lin" and contains(c["old"], lambda t: t[0] == "now")) or c["old"][0] == "sym" for lb, c in L.cells.items() if mentions(x, c["phi"]))
    if not nows and not unk:
        rep.bad("value", "the time announced is not measured in the iteration: %s" % show(x)[:100], w, d)
        return
    for lb, good, fl, dP in seen:
        if not good and not unk:
            rep.bad("value", "the clock position (%s) advances by %s but %s is announced" % (lb, show(dP)[:80], show(x)[:80]), w, d)
            return
    if not seen and not unk:
        rep.bad("value", "the time announced (%s) only covers a part of the iteration" % show(x)[:100], w, d)
        return
    rep.undecided("value", "time announced: %s" % show(x)[:100], w)


def strip_now(t):
    """for the opacity test: loop symbols of the clock are understood"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "phi":
        return ("sym", "phi")
    return tuple(strip_now(x) if isinstance(x, tuple) else x for x in t)
