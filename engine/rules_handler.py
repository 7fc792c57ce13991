"""Rules about the message handler of the broker (what it sends, which queue operations it performs, on every path)."""
from base import *
from fuse import fuse
from modular import with_contracts

DATA = ("sym", "data")
SENDER = ("sym", "sender")
EMPTY = S("")
WORKERS = ("sym", "workers")


class Ctx:
    def __init__(self, prog):
        self.prog = prog
        self._H = None
        self._M = None
        self._runs = {}

    @property
    def mprog(self):
        if self._M is None:
            self._M = with_contracts(self.prog)
        return self._M

    @property
    def H(self):
        if self._H is None:
            self._H = Handler(self.mprog)
        return self._H

    def runs(self, name):
        """trace partitions of one kind of message; raises Limit if there are too many"""
        if name not in self._runs:
            H = self.H
            try:
                if name in ("eval", "get-runtime-stats", "freeze", "unfreeze"):
                    r = H.run("clients", name, nonempty=True)
                elif name in ("init", "done", "ping", "progress"):
                    r = H.run("workers", name, nonempty=True)
                elif name == "timer":
                    r = H.run("timer", None, nonempty=True, numeric=True)
                elif name == "clients:other":
                    r = H.run("clients", None, exclude=CLIENT_CMDS, nonempty=True)
                elif name == "workers:other":
                    r = H.run("workers", None, exclude=WORKER_CMDS, nonempty=True)
                elif name == "other":
                    r = H.run(None, None)
                elif name.startswith("empty:"):
                    r = H.run(name[6:], None, nonempty=False)
                else:
                    raise KeyError(name)
            except Limit as l:
                r = l
            except RecursionError:
                r = Limit("recursion")
            if name == "timer" and isinstance(r, list):
                for o in r:
                    o.st.events = fuse(H.I, o.st.events)
            self._runs[name] = r
        r = self._runs[name]
        if isinstance(r, Limit):
            raise r
        return r

    # ---- values in the final state of a trace
    def obj(self, p):
        return (p[1], p[2]) if p[0] == "ptr" else (("p", p), ())

    def read(self, st, loc):
        I = self.H.I
        old = I.st
        I.st = st
        try:
            return I.read(loc)
        finally:
            I.st = old

    def call(self, st, q, loc):
        fns = [f for f in self.prog.by_q.get(q, []) if f.get("body") is not None]
        if not fns:
            return None
        I = self.H.I
        keep = (I.st, I.memo, I.frame)

        def go():
            r = I.inline(fns[0], loc, [])
            return I.arg_value(r) if isinstance(r, tuple) and r and r[0] in ("L", "V") else r

        try:
            outs = [o for o in I.run(go, st) if o.exit == "next"]
        finally:
            I.st, I.memo, I.frame = keep
        if len(outs) != 1:
            return None
        return outs[0].val

    def data_loc(self, r):
        root, steps = self.obj(r)
        return (root, steps + (("f", "data"),))

    def payload(self, st, r):
        return self.call(st, "job_request_data::get", self.data_loc(r))

    def job_id(self, st, r):
        return self.call(st, "job_request_data::get_job_id", self.data_loc(r))

    def complete(self, st, r):
        return self.call(st, "job_request_data::is_complete", self.data_loc(r))

    def identity(self, st, w):
        return self.read(st, (self.obj(w)[0], self.obj(w)[1] + (("f", "identity"),)))

    def fc(self, st, r):
        return self.read(st, (self.obj(r)[0], self.obj(r)[1] + (("f", "failure_count"),)))


CLIENT_CMDS = ("eval", "get-runtime-stats", "freeze", "unfreeze")
WORKER_CMDS = ("init", "done", "ping", "progress")
ALL_RUNS = CLIENT_CMDS + WORKER_CMDS + ("timer", "clients:other", "workers:other", "other", "empty:clients", "empty:workers", "empty:timer")
MSG_RUNS = CLIENT_CMDS + WORKER_CMDS + ("timer",)


def each(ctx, rep, names):
    """(name, trace) for every partition; limits become undecided obligations"""
    for n in names:
        try:
            outs = ctx.runs(n)
        except Limit as l:
            rep.undecided("analysis", "message '%s': %s" % (n, l))
            continue
        rep.count(**{"entry_points": 1, "partitions": len(outs)})
        for o in outs:
            tr = top(o)
            if any(e.kind == "callop" for e, _ in flat(tr.events)):
                rep.undecided("analysis", "message '%s': a call through something the analysis cannot follow" % n)
                continue
            yield n, tr


def responds(tr):
    return [(e, r) for e, r in flat(tr.events) if e.kind == "respond"]


def qops(tr, ops=MUTATORS):
    return [(e, r) for e, r in flat(tr.events) if e.kind == "q" and (e.d["op"] in ops or e.d["op"].startswith("?"))]


def calls_unknown(tr):
    """effects the analysis could not follow"""
    return [e for e, r in flat(tr.events) if e.kind == "callop" or (e.kind == "ext" and "respond" in show(e.d.get("args", ())))]


def sender_worker(tr):
    """the registered worker found to have the sender's identity, if any"""
    for a, v in tr.facts.atoms.items():
        if a[0] == "eq" and v is True and SENDER in (a[1], a[2]):
            o = a[2] if a[1] == SENDER else a[1]
            if o[0] == "fld" and o[2] == "identity" and o[1][0] == "drf":
                return o[1][1]
    return None


def handler_writes(ctx, tr, skip=()):
    """(event) writes to the handler's own state; skip: field names"""
    out = []
    for e, r in flat(tr.events):
        if e.kind == "w" and e.d["root"] == ("h", "handler"):
            f = e.d["steps"][0][1] if e.d["steps"] else None
            if f not in skip:
                out.append(e)
        if e.kind == "cm" and e.d["loc"][0] == ("h", "handler"):
            f = e.d["loc"][1][0][1] if e.d["loc"][1] else None
            if f not in skip:
                out.append(e)
    return out


def registry_writes(tr):
    out = []
    for e, r in flat(tr.events):
        if e.kind == "w" and e.d["root"] == ("p", WORKERS):
            out.append(e)
        if e.kind == "cm" and e.d["loc"][0] == ("p", WORKERS):
            out.append(e)
    return out


def timer_field(ctx):
    """the handler's bookkeeping of silence: the field mapping workers to durations"""
    for fd in ctx.H.rec["fields"]:
        a = tmpl_args(fd["ty"])
        if tmpl_name(fd["ty"]) in ("std::map", "std::unordered_map") and len(a) >= 2:
            if "worker" in a[0] and "shared_ptr" in a[0] and ("duration" in a[1] or "milliseconds" in a[1]):
                return fd["n"]
    return None


def stats_field(ctx):
    for fd in ctx.H.rec["fields"]:
        a = tmpl_args(fd["ty"])
        if tmpl_name(fd["ty"]) in ("std::map", "std::unordered_map") and len(a) >= 2 and "string" in a[0] and "function" not in fd["ty"]:
            if "long" in a[1] or "int" in a[1] or "size_t" in a[1]:
                return fd["n"]
    return None


def failed_exit(rep, rule, n, tr):
    if tr.exit in ("throw", "crash"):
        rep.bad(rule, "handling a '%s' message does not complete: %s" % (n, why_exit(tr)), exit_where(tr), describe(tr))
        return True
    return False


def why_exit(tr):
    v = tr.val
    if tr.exit == "throw":
        return "uncaught %s %s" % (v[0], v[2] if len(v) > 2 else "")
    return str(v)


def exit_where(tr):
    for e, r in reversed(list(flat(tr.events))):
        return where(e)
    return ""


# ------------------------------------------------------------------------------------------------ eval
def data_index_facts(tr, val):
    """indices t for which it is known that frame t of the message is (val) / is not empty"""
    for a, v in tr.facts.atoms.items():
        if a[0] == "eq" and v is val and EMPTY in (a[1], a[2]):
            o = a[2] if a[1] == EMPTY else a[1]
            if o[0] == "at" and o[1] == DATA:
                yield o[2]
    for k, b in tr.facts.bnd.items():
        if len(k) == 1 and k[0][0][0] == "size" and k[0][1] == 1:
            o = k[0][0][1]
            if o[0] == "at" and o[1] == DATA:
                if val and b[1] == 0:
                    yield o[2]
                if not val and b[0] >= 1:
                    yield o[2]


def terminator(tr):
    for t in data_index_facts(tr, True):
        return t
    return None


def data_loops(tr):
    for e in tr.events:
        if e.kind == "loop":
            L = e.d["rec"]
            if L.coll == DATA or (L.coll and mentions(L.coll, DATA)):
                yield e, L


def eval_shape(tr):
    """('complete', index) | ('truncated', None) | ('may-be-complete', why) | ('may-be-truncated', why) | ('?', None)"""
    f = tr.facts
    t = terminator(tr)
    if t is not None:
        return ("complete", t)
    n = size_of(DATA)
    lo, hi = f.bounds(n)
    if hi <= 2:
        return ("truncated", None)
    looped = False
    skips = unknown = False
    for e, L in data_loops(tr):
        looped = True
        cur = L.sym
        if cur is None:
            unknown = True
            continue
        skip = None
        el = at(L.coll, cur)
        for b in L.bodies:
            if b.exit == "next":
                q = b.st.facts.q_eq(el, EMPTY)
                lo_, hi_ = b.st.facts.bounds(size_of(el))
                if q is not False and not lo_ >= 1:
                    skip = b
        if skip is not None:
            if any(x.kind == "ext" for x in skip.events):
                unknown = True
            else:
                skips = True
            continue
        if L.coll != DATA:
            if L.coll == mk_slice(DATA, N(2), n) and cur[0] == "ix" and e.d["exit"] is None:
                return ("truncated", None)
            unknown = True
            continue
        if f.q_eqi(add(cur, N(1)), n) is True:
            if f.q_eq(at(DATA, cur), EMPTY) is False or f.bounds(size_of(at(DATA, cur)))[0] >= 1:
                return ("truncated", None)
            return ("may-be-complete", "the last frame may be the empty one")
        if f.q_eqi(cur, n) is True or e.d["exit"] is None:
            return ("truncated", None)
    if any(e.kind == "ext" and any(mentions(x, DATA) for x in e.d.get("args", ())) for e, r in flat(tr.events)):
        return ("?", None)
    if unknown:
        return ("?", None)
    if skips:
        return ("skips", "frames are passed over without looking for the empty one")
    if not looped:
        return ("unseen", "the header list was never examined")
    return ("?", None)


def c01(ctx, rep):
    for n, tr in each(ctx, rep, ["eval"]):
        if failed_exit(rep, "reply", n, tr):
            continue
        rs = responds(tr)
        d = describe(tr)
        if calls_unknown(tr):
            rep.undecided("reply", "a callback the analysis cannot follow")
            continue
        cl = [(e, r) for e, r in rs if to(e, "clients") is not False]
        if any(to(e, "clients") is None for e, r in rs):
            rep.undecided("reply", "a response with a computed key")
            continue
        rp = [e for e, r in cl if r]
        if rp:
            rep.bad("reply", "a reply to the client may be repeated within a loop", where(rp[0]), d)
            continue
        for e, r in cl:
            rep.expect(same(tr.facts, msg_of(e)[1], SENDER), "addressee", "every reply goes to the client that asked", where(e), d, msg="a reply to an eval request is not addressed to the client that sent it")
        fr = [frames(msg_of(e)[2]) for e, r in cl]
        if any(x is None for x in fr):
            rep.undecided("reply", "a reply with a computed number of frames")
            continue
        head = [x[0] if x else None for x in fr]
        if not rs or not cl or rs[0][0] is not cl[0][0] or head[0] != S("ack"):
            rep.bad("ack-first", "an eval request is not acknowledged before anything else is sent", where(cl[0][0]) if cl else "", d)
            continue
        if any(e.kind == "q" and e.d["op"] in MUTATORS for e, r in flat(tr.events[: tr.events.index(cl[0][0]) if cl[0][0] in tr.events else 0])):
            pass
        rep.ok("ack-first", "ack precedes everything else")
        nack = sum(1 for h in head if h == S("ack"))
        final = [(h, x, e) for h, x, (e, r) in zip(head, fr, cl) if h != S("ack")]
        if nack != 1:
            rep.bad("ack-once", "an eval request is acknowledged %d times" % nack, where(cl[-1][0]), d)
            continue
        shape, t = eval_shape(tr)
        if len(final) > 1:
            rep.bad("one-answer", "an eval request gets %d answers after the ack" % len(final), where(final[1][2]), d)
            continue
        if final:
            h, x, e = final[0]
            if h not in (S("accept"), S("reject")):
                rep.expect(None if opaque(h) else False, "answer", "the answer is accept or reject", where(e), d, msg="an eval request is answered with something other than accept or reject")
                continue
            if h == S("reject"):
                ok = len(x) >= 2 and x[1] != EMPTY
                rep.expect(ok, "reason", "a reject carries a reason", where(e), d, msg="a reject without a reason")
            if shape == "truncated":
                rep.bad("truncated", "a message that ended before its headers were closed is answered", where(e), d)
            elif shape == "unseen":
                rep.bad("truncated", "a message is answered although its header list was never checked to be closed", where(e), d)
            elif shape == "complete":
                rep.ok("one-answer", "complete request: ack and one answer")
            else:
                rep.undecided("truncated", "cannot tell which messages are answered here", where(e))
        else:
            if shape == "complete":
                rep.bad("one-answer", "a complete eval request gets no accept or reject", where(cl[-1][0]), d)
            elif shape in ("may-be-complete", "unseen", "skips"):
                rep.bad("one-answer", "an eval request may get no accept or reject although its headers are closed (%s)" % (t or shape), where(cl[-1][0]), d)
            elif shape == "truncated":
                bad = [e for e, r in rs if e is not cl[0][0]]
                q = qops(tr)
                w = handler_writes(ctx, tr) + registry_writes(tr)
                if bad or q or w:
                    rep.bad("truncated", "a truncated eval message has an effect beyond the ack", where((bad + [x[0] for x in q] + w)[0]), d)
                else:
                    rep.ok("truncated", "truncated message: ack only, no effect")
            else:
                rep.undecided("one-answer", "cannot tell which messages are left unanswered here")


def frozen_flag(ctx, tr):
    """value of the frozen state on this trace as known: True/False/None"""
    f = frozen_field(ctx)
    if f is None:
        return None
    sym, (fv, uv), fs = ("sym", "H." + f), ctx._frozen_vals, tr.facts
    if fv in (TRUE, FALSE) and uv in (TRUE, FALSE):
        q = fs.q(sym)
        for i in (0, 1):
            if q is None and fs.q_eqi(sym, N(i)) is not None:
                q = fs.q_eqi(sym, N(i)) == bool(i)
        return None if q is None else q == (fv == TRUE)
    if fs.q_eqi(sym, fv) is not None:
        return fs.q_eqi(sym, fv)
    if fs.q_eqi(sym, uv) is True:
        return False
    if fs.q_eqi(sym, uv) is False and plain(fld(ctx.H.initial, f)) in (fv, uv):
        return True
    if N(0) in (fv, uv) and fs.q(sym) is not None:
        return fs.q(sym) == (uv == N(0))
    return None


def plain(v):
    """constants of enumerations as numbers, the way they appear in comparisons"""
    return N(v[2]) if v[0] == "enum" else v


def frozen_text(ctx, y):
    """is y the frozen state as a truth value?"""
    f = frozen_field(ctx)
    sym, (fv, uv) = ("sym", "H." + f), ctx._frozen_vals
    if fv in (TRUE, FALSE):
        neg, y = (True, y[1]) if y[0] == "not" else (False, y)
        if y[0] in ("cmp",) and len(y) == 4 and sym in y[2:4]:
            o = y[3] if y[2] == sym else y[2]
            if y[1] not in ("==", "==i") or o not in (TRUE, FALSE, N(0), N(1)):
                return False
            neg, y = neg != (o in (FALSE, N(0))), sym
        return y == sym and neg == (fv == FALSE)
    if y == sym:
        return (fv, uv) == (N(1), N(0))
    neg = y[0] == "not"
    if neg:
        y = y[1]
    if y[0] == "cmp" and len(y) == 4 and sym in y[2:4]:
        o = y[3] if y[2] == sym else y[2]
        eq = y[1] in ("==", "==i") if y[1] in ("==", "==i", "!=", "!=i") else None
        if eq is None:
            return False
        return o == (fv if eq != neg else uv)
    return False


def frozen_field(ctx):
    """the handler field set to one constant by 'freeze' and to another one by 'unfreeze'"""
    if not hasattr(ctx, "_frozen"):
        ctx._frozen = None
        try:
            vals = {}
            for n in ("freeze", "unfreeze"):
                vs = set()
                for o in ctx.runs(n):
                    s = {}
                    for fd in ctx.H.rec["fields"]:
                        v = plain(fld(o.st.store[("h", "handler")], fd["n"]))
                        if v in (TRUE, FALSE) or v[0] == "n":
                            s[fd["n"]] = v
                        elif o.st.facts.q(v) is not None:
                            s[fd["n"]] = TRUE if o.st.facts.q(v) else FALSE
                    vs.add(tuple(sorted(s.items())))
                vals[n] = [dict(x) for x in vs]
            for fd in ctx.H.rec["fields"]:
                n = fd["n"]
                a, b = [{x.get(n) for x in vals[c]} for c in ("freeze", "unfreeze")]
                if len(a) == 1 and len(b) == 1 and a != b and None not in a | b and len({x[0] for x in a | b}) == 1:
                    if ctx._frozen is not None and fd["ty"].replace("const ", "") != "bool":
                        continue
                    ctx._frozen = n
                    ctx._frozen_vals = (a.pop(), b.pop())
        except Limit:
            pass
    return ctx._frozen


def answer(tr):
    a = None
    for e, r in responds(tr):
        if to(e, "clients"):
            fr = frames(msg_of(e)[2])
            if fr and fr[0] in (S("accept"), S("reject")):
                a = (fr[0][1], e)
    return a


def jobs_sent(ctx, tr):
    """messages to workers that are not pure control messages"""
    out = []
    for e, r in responds(tr):
        if to(e, "workers") is False:
            continue
        fr = frames(msg_of(e)[2])
        if fr and len(fr) == 1 and fr[0][0] == "str":
            continue
        out.append((e, r))
    return out


def c02(ctx, rep):
    for n, tr in each(ctx, rep, ["eval"]):
        if tr.exit in ("throw", "crash"):
            continue
        d = describe(tr)
        ans = answer(tr)
        q = qops(tr)
        sent = jobs_sent(ctx, tr)
        enq = [e for e, r in q if e.d["op"] == "enqueue"]
        oth = [e for e, r in q if e.d["op"] != "enqueue"]
        if any(r for e, r in q) or any(r for e, r in sent):
            rep.undecided("fate", "queue operations inside a loop")
            continue
        if oth:
            rep.bad("fate", "handling an eval request performs an unrelated queue operation (%s)" % oth[0].d["op"], where(oth[0]), d)
            continue
        taken = [e for e in enq if e.d["how"] != "refused"]
        if len(enq) > 1:
            rep.bad("once", "an eval request is offered to the queue %d times" % len(enq), where(enq[1]), d)
            continue
        if ans is None:
            rep.expect(not taken and not sent, "silent", "a request not answered is not kept", where((enq + [x[0] for x in sent] or [None])[0]), d, msg="a request is kept although the client got no accept")
            continue
        if ans[0] == "accept":
            rep.expect(bool(taken), "accept", "accept: the queue took the job", where(ans[1]), d, msg="a client is told accept although the job was not taken over by the queue")
        else:
            rep.expect(not taken, "reject", "reject: nothing kept", where(ans[1]), d, msg="a client is told reject although the queue keeps the job")
            rep.expect(not sent, "reject-send", "reject: nothing sent", where(sent[0][0]) if sent else "", d, msg="a rejected job is sent to a worker")
        if len(taken) == 1:
            e = taken[0]
            if e.d["how"] == "assigned":
                okk = len(sent) == 1 and same(tr.facts, msg_of(sent[0][0])[1], ctx.identity(tr.st, e.d["w"]))
                rep.expect(okk, "assigned-send", "an assigned job is sent to its worker", where(e), d, msg="a job assigned to an idle worker at once is not sent (exactly once) to that worker")
            else:
                rep.expect(not sent, "queued", "a queued job is not sent yet", where(e), d, msg="a job that was only queued is sent to a worker")


def c06(ctx, rep):
    for n, tr0 in each(ctx, rep, ALL_RUNS):
        for tr in subtraces(tr0):
            own = [e for e in tr.events if e.kind != "loop"]
            assigns = []
            for e in own:
                if e.kind != "q":
                    continue
                op = e.d["op"]
                if op == "enqueue" and e.d["how"] == "assigned":
                    assigns.append((e, e.d["r"], e.d["w"]))
                elif op in ("assign", "finished", "add") and e.d["ret"] != NULL:
                    assigns.append((e, e.d["ret"], e.d["w"]))
                if op == "assign":
                    was = e.d["was"]
                    v = True if was == NULL else not3(tr_q(tr, was, e))
                    rep.expect(v if v is not None or opaque(was) else False, "idle", "a worker is given a job only when it has none", where(e), describe(tr), msg="a worker may be given another job while it still has one")
            sends = []
            for e in own:
                if e.kind == "respond" and to(e, "workers") is not False:
                    fr = frames(msg_of(e)[2])
                    if to(e, "workers") is None:
                        rep.undecided("send", "a response with a computed key", where(e))
                        continue
                    if fr and len(fr) == 1 and fr[0][0] == "str":
                        continue
                    sends.append(e)
            if tr.exit in ("throw", "crash"):
                continue
            left = list(sends)
            for e, r, w in assigns:
                hit = None
                maybe = False
                pl = ctx.payload(tr.st, r)
                for s in left:
                    _, ident, dat = msg_of(s)
                    v = all3(same(tr.facts, ident, ctx.identity(tr.st, w)), True if pl is None else same(tr.facts, dat, pl))
                    if v is True and own.index(s) > own.index(e):
                        hit = s
                        break
                    if v is None:
                        maybe = True
                if hit is not None:
                    left.remove(hit)
                    rep.ok("send", "assignment by '%s' during '%s' is sent once to its worker" % (e.d["op"], n))
                elif maybe or escapes(tr, r, w) or calls_unknown(tr):
                    rep.undecided("send", "cannot match an assignment with its message", where(e))
                else:
                    rep.bad("send", "a job assigned to a worker (by %s, handling '%s') is not sent to it" % (e.d["op"], n), where(e), describe(tr))
            for s in left:
                _, ident, dat = msg_of(s)
                held = [e for e in own if e.kind == "q" and e.d["op"] == "add" and e.d["cur"][0] == "ptr" and e.d["ret"] == NULL]
                held = [e for e in held if same(tr.facts, ident, ctx.identity(tr.st, e.d["w"])) is True and ctx.payload(tr.st, e.d["cur"]) is not None and same(tr.facts, dat, ctx.payload(tr.st, e.d["cur"])) is True]
                if held:
                    rep.bad("unassigned", "a worker is sent the job it says it is already processing (handling '%s')" % n, where(s), describe(tr))
                elif opaque(msg_of(s)[2]) or opaque(msg_of(s)[1]) or tr.chain and from_collection(tr, s):
                    rep.undecided("send", "cannot tell which assignment a message belongs to", where(s))
                else:
                    rep.bad("unassigned", "a message is sent to a worker (handling '%s') without a new assignment of that job to it" % n, where(s), describe(tr))


def tr_q(tr, t, ev):
    """is t non-null at the end of the trace? (facts only ever grow along a trace)"""
    return tr.facts.q(t)


def escapes(tr, r, w):
    """may the job reach the worker through a collection filled here?"""
    later = any(x.kind == "respond" and y and to(x, "workers") is not False for x, y in flat(tr.events))
    for e in tr.events:
        if e.kind == "cm" and e.d.get("val") is not None and isinstance(e.d["val"], tuple) and (mentions(e.d["val"], r) or later and mentions(e.d["val"], w)):
            return True
        if e.kind == "loop":
            for b in e.d["rec"].bodies:
                for x in b.events:
                    if x.kind == "respond" and (mentions(x.d["msg"], r) or mentions(x.d["msg"], w)):
                        return True
    return False


def from_collection(tr, s):
    """the message is about an element of a collection gathered by an earlier loop"""
    L, b = tr.chain[-1]
    return L.coll is not None and contains(L.coll, lambda x: x and x[0] in ("acc", "accm"))


# ------------------------------------------------------------------------------------------------ done
def effects(ctx, tr):
    """everything a done message visibly does (apart from the liveness refresh)"""
    out = []
    tf = timer_field(ctx)
    for e, r in flat(tr.events):
        if e.kind == "respond":
            out.append(e)
        elif e.kind == "q" and (e.d["op"] in MUTATORS or e.d["op"].startswith("?")):
            out.append(e)
        elif e.kind == "w" and e.d["root"] == ("h", "handler") and e.d["steps"] and e.d["steps"][0][1] != tf:
            if ctx.read(tr.st, (("h", "handler"), e.d["steps"][:1])) != ctx.read(ctx.H.base, (("h", "handler"), e.d["steps"][:1])):
                out.append(e)
        elif e.kind == "cm" and e.d["loc"][0] == ("h", "handler") and e.d["loc"][1] and e.d["loc"][1][0][1] != tf:
            out.append(e)
        elif e.kind == "w" and e.d["root"][0] == "p" and e.d["steps"] and e.d["steps"][-1][1] == "failure_count":
            out.append(e)
        elif e.kind in ("w", "cm") and (e.d.get("root") or e.d["loc"][0]) == ("p", WORKERS):
            out.append(e)
    return out


def done_info(ctx, tr):
    """(worker, current request, id-matches, status, sizes)"""
    w = sender_worker(tr)
    cur = None
    for e, r in flat(tr.events):
        if e.kind == "q" and e.d["op"] == "current" and (w is None or e.d["w"] == w):
            cur = e.d["ret"]
            break
    if cur is None and w is not None:
        cur = ("mg", ("sym", "cur0"), w)
    idm = None
    if cur is not None and cur != NULL:
        jid = ctx.job_id(ctx.H.base, cur)
        if jid is not None:
            idm = tr.facts.q_eq(at(DATA, N(1)), jid)
            if idm is None:
                # maybe compared through another name of the same request
                for e, r in flat(tr.events):
                    if e.kind == "q" and e.d["op"] == "cancelled":
                        j2 = ctx.job_id(ctx.H.base, e.d["ret"])
                        if j2 is not None and tr.facts.q_eq(at(DATA, N(1)), j2) is True:
                            idm = True
    return w, cur, idm, tr.facts.eqc.get(at(DATA, N(2))), tr.facts.bounds(size_of(DATA))


def c07(ctx, rep):
    for n, tr in each(ctx, rep, ["done"]):
        d = describe(tr)
        ef = effects(ctx, tr)
        if not ef:
            rep.ok("no-effect", "a trace of 'done' without any effect")
            continue
        w, cur, idm, status, (lo, hi) = done_info(ctx, tr)
        wh = where(ef[0])
        rep.expect(w is not None, "known-worker", "effects only for a registered sender", wh, d, msg="a 'done' from an unregistered worker has an effect")
        if w is None:
            continue
        rep.expect(lo >= 3, "frames", "effects only with a job id and a status", wh, d, msg="a 'done' message without a status has an effect")
        nz = tr.facts.q(cur) if cur is not None else None
        if cur is None:
            rep.bad("current", "a 'done' has an effect although the worker's current job was never looked up", wh, d)
            continue
        rep.expect(nz is not False and (nz or None) if nz is not None else None if False else (False if nz is False else (True if nz else ptr_deref_known(tr, cur))), "current", "effects only if the worker has a current job", wh, d, msg="a 'done' from a worker without a current job has an effect")
        v = idm
        if v is None:
            v = None if any(opaque(a) for a in tr.facts.atoms if isinstance(a, tuple) and mentions(a, at(DATA, N(1)))) else False
        rep.expect(v, "match", "effects only if the job id matches the current job", wh, d, msg="a 'done' for a job other than the worker's current one has an effect")
        for e in ef:
            if e.kind == "q":
                ww = e.d.get("w")
                if e.d["op"] in ("finished", "cancelled", "assign", "terminated"):
                    rep.expect(same(tr.facts, ww, w), "own-job", "only the sender's job moves", where(e), d, msg="a 'done' message moves the job of another worker")
        if status is None:
            ops = [x for x in tr.facts.atoms if isinstance(x, tuple) and mentions(x, at(DATA, N(2)))]
            rep.expect(None if any(opaque(o) for o in ops) else False, "status", "effects only for a known status", wh, d, msg="a 'done' with an unknown status has an effect")
        elif status in (S("FAILED"), S("INTERNAL_ERROR")):
            rep.expect(lo >= 4, "message", "FAILED/INTERNAL_ERROR need a message", wh, d, msg="a 'done' with status %s but without a message has an effect" % status[1])
        elif status != S("OK"):
            rep.bad("status", "a 'done' with status %s has an effect" % show(status), wh, d)
        else:
            rep.ok("status", "effects only for a known status")


def ptr_deref_known(tr, p):
    return None


def frontend(tr):
    """notifications: list of (event, rep, pairs or None)"""
    out = []
    for e, r in responds(tr):
        t = to(e, "status_notifier")
        if t is False:
            continue
        out.append((e, r, pairs(msg_of(e)[2]) if t else None))
    return out


def has_text(t, part):
    return t is not None and mentions(t, part)


def c08(ctx, rep):
    for n, tr in each(ctx, rep, ["done"]):
        if tr.exit in ("throw", "crash"):
            continue
        d = describe(tr)
        w, cur, idm, status, (lo, hi) = done_info(ctx, tr)
        fe = frontend(tr)
        if any(p is None for e, r, p in fe):
            rep.undecided("report", "a notification of computed form")
            continue
        wh = where(fe[0][0]) if fe else exit_where(tr)
        if w is None or idm is not True or status is None:
            rep.expect(not fe, "unrelated", "nothing reported for a done that does not match", wh, d, msg="the frontend is notified although the 'done' message does not concern the worker's current job")
            continue
        if status == S("OK"):
            want, msgt = "OK", None
        elif status == S("FAILED"):
            if hi < 4 or lo > 4:
                continue
            want, msgt = "FAILED", at(DATA, N(3))
            if not fe and not (lo <= 4 <= hi and not_four(tr)):
                pass
        elif status == S("INTERNAL_ERROR"):
            want, msgt = "FAILED", at(DATA, N(3))
        else:
            rep.expect(not fe, "unrelated", "nothing reported for an unknown status", wh, d, msg="the frontend is notified for an unknown status")
            continue
        if status in (S("FAILED"), S("INTERNAL_ERROR")) and not_four(tr):
            rep.expect(not fe, "unrelated", "nothing reported for a malformed done", wh, d, msg="the frontend is notified about a malformed 'done'")
            continue
        enq = [e for e, r in qops(tr, {"enqueue"})]
        if status == S("INTERNAL_ERROR"):
            kept = [e for e in enq if e.d["how"] != "refused"]
            if kept:
                rep.expect(not fe, "retry-silent", "a retried job is not reported", wh, d, msg="an outcome is reported for a job that is being retried")
                continue
            if enq:
                continue
        if any(r for e, r, p in fe):
            rep.bad("once", "the outcome of a job may be reported repeatedly", wh, d)
            continue
        if len(fe) != 1:
            rep.bad("once", "the outcome %s of a job is reported to the frontend %d times" % (status[1], len(fe)), wh, d)
            continue
        e, r, p = fe[0]
        jid = ctx.job_id(ctx.H.base, cur) if cur else None
        idok = any3([same(tr.facts, p.get("id", VOID), at(DATA, N(1))), same(tr.facts, p.get("id", VOID), jid) if jid else False])
        rep.expect(all3(p.get("type") == S("job-status"), idok), "identifies", "the notification is about this job", where(e), d, msg="the notification does not identify the finished job")
        st = p.get("status")
        rep.expect(True if st == S(want) else (None if st is not None and opaque(st) else False), "status", "status %s reported as %s" % (status[1], want), where(e), d, msg="a job that ended with %s is reported as %s" % (status[1], show(st) if st else "nothing"))
        if msgt is not None:
            m = p.get("message")
            rep.expect(True if has_text(m, msgt) else (None if m is not None and opaque(m) else False), "message", "the worker's message is passed on", where(e), d, msg="the worker's message is missing from the failure notification")


def not_four(tr):
    f = tr.facts
    return f.q_eqi(size_of(DATA), N(4)) is False


# ------------------------------------------------------------------------------------------------ retries
MAXF = ("ap", "cfg", S("get_max_request_failures"))


def c09(ctx, rep):
    for n, tr in each(ctx, rep, ["done"]):
        if tr.exit in ("throw", "crash"):
            continue
        w, cur, idm, status, (lo, hi) = done_info(ctx, tr)
        can = [e for e, r in qops(tr, {"cancelled"})]
        if status != S("INTERNAL_ERROR") or idm is not True or not can:
            # a job must not be retried in any other case
            enq = [e for e, r in qops(tr, {"enqueue"})]
            rep.expect(not enq, "no-retry", "no retry without an internal error", where(enq[0]) if enq else "", describe(tr), msg="a job is put back into the queue although it did not end with an internal error")
            continue
        retry_rules(ctx, rep, tr, can[0].d["ret"], [e for e, r in qops(tr, {"enqueue"})], True, n)
    for n, tr0 in each(ctx, rep, ["timer"]):
        for tr in subtraces(tr0):
            own = [e for e in tr.events if e.kind != "loop"]
            term = [e for e in own if e.kind == "q" and e.d["op"] == "terminated"]
            for e in term:
                was = e.d["was"]
                ws = [(x, r) for x, r in flat(tr.events) if x.kind == "w" and x.d["steps"] and x.d["steps"][-1] == ("f", "failure_count")]
                nz = tr.facts.q(was)
                direct = [x for x, r in ws if not r and x.d["root"] == ("p", was)]
                other = [x for x, r in ws if x not in direct]
                if other:
                    # allowed only where it is known to concern the running job
                    rep.undecided("count", "failure counts are changed while going through the orphaned jobs", where(other[0]))
                    guarded = False
                    for t2 in subtraces(tr):
                        for x in t2.events:
                            if x in other:
                                root = x.d["root"][1] if x.d["root"][0] == "p" else None
                                if root is not None and any(a[0] == "eq" and v is True and root in a and was in a for a, v in t2.facts.atoms.items()):
                                    guarded = True
                    if not guarded and not any(opaque(x.d["val"]) for x in other):
                        rep.bad("count", "the failure count of jobs that were only waiting for the dead worker is raised", where(other[0]), describe(tr))
                    continue
                if nz is False:
                    rep.expect(not direct, "count", "nothing to count for an idle worker", where(e), describe(tr), msg="a failure is counted although the dead worker had no job")
                elif nz is True:
                    fc0 = ("fld", ("drf", was), "failure_count")
                    v = len(direct) == 1 and same(tr.facts, direct[0].d["val"], add(fc0, N(1)))
                    rep.expect(v, "count", "the death of a worker counts as one failure of its current job", where(e), describe(tr), msg="the death of a worker is not counted as exactly one failure of its current job")
                else:
                    if not direct:
                        rep.bad("count", "the death of a worker is not counted as a failure of its current job", where(e), describe(tr))
            if tr.chain and mentions(tr.chain[-1][0].coll or VOID, ("sym", "handed#1")) or (tr.chain and "handed" in show(tr.chain[-1][0].coll or VOID)):
                L, b = tr.chain[-1]
                if getattr(L, "split", False):
                    rep.undecided("retry", "the jobs of a dead worker are gone through several times")
                    continue
                enq = [e for e in own if e.kind == "q" and e.d["op"] == "enqueue"]
                for e in enq:
                    retry_rules(ctx, rep, tr, e.d["r"], [e], False, n)
                if not enq and not contains(L.coll, lambda x: x and x[0] == "acc"):
                    r = at(L.coll, L.sym) if L.sym else None
                    if r is not None:
                        retry_rules(ctx, rep, tr, r, [], False, n)


def retry_rules(ctx, rep, tr, r, enq, counted, n):
    d = describe(tr)
    fc0 = ctx.fc(ctx.H.base, r)
    if counted:
        ws = [e for e, rp in flat(tr.events) if e.kind == "w" and e.d["steps"] and e.d["steps"][-1] == ("f", "failure_count")]
        fin = ctx.fc(tr.st, r)
        v = same(tr.facts, fin, add(fc0, N(1)))
        rep.expect(v, "count", "an internal error counts as one failure of that job", where(ws[0]) if ws else exit_where(tr), d, msg="an internal error is not counted as exactly one failure of the job")
        now = fin
        for e in ws:
            if e.d["root"] != ctx.obj(r)[0]:
                rep.bad("count", "the failure count of another job is changed", where(e), d)
        if v is not True:
            return
    else:
        now = ctx.fc(tr.st, r)
    lt = tr.facts.q_lt(now, MAXF)
    comp = ctx.complete(tr.st, r)
    cq = tr.facts.q(comp) if comp is not None else None
    if enq:
        for e in enq:
            if same(tr.facts, e.d["r"], r) is not True:
                rep.expect(None if opaque(e.d["r"]) else False, "same-job", "the failed job itself is put back", where(e), d, msg="another job is put back in place of the failed one")
        if len(enq) > 1:
            rep.bad("once", "a failed job is put back more than once", where(enq[1]), d)
        v = True if lt is True else (None if opaque(now) else False)
        rep.expect(v, "bound", "a job is retried only below the configured maximum", where(enq[0]), d, msg="a job whose failures reached the configured maximum may be put back into the queue")
        rep.expect(True if cq is True else (None if cq is None and comp is None else False), "data", "only jobs with known data are retried", where(enq[0]), d, msg="a job whose data are unknown is put back into the queue")
    else:
        if cq is False:
            rep.ok("data", "a job without data is not retried")
            return
        v = True if lt is False else (None if opaque(now) else False)
        rep.expect(v, "retry", "a job below the maximum is retried", exit_where(tr), d, msg="a job below the configured number of failures is not put back into the queue")


# ------------------------------------------------------------------------------------------------ liveness
MAXL = ("ap", "cfg", S("get_max_worker_liveness"))
PING = ("ap", "cfg", S("get_worker_ping_interval"))


def timers_of(ctx, st, tf, w):
    I = ctx.H.I
    old = I.st
    I.st = st
    try:
        m = I.read((("h", "handler"), (("f", tf),)))
        m = I.as_map(m)
        return I.map_find(m, w), I.map_get(m, w)
    finally:
        I.st = old


def liveness(ctx, st, w):
    root, steps = ctx.obj(w)
    return ctx.read(st, (root, steps + (("f", "liveness"),)))


def c10(ctx, rep):
    tf = timer_field(ctx)
    everyone_visited(ctx, rep)
    if tf is None:
        rep.undecided("timer", "no per-worker silence bookkeeping recognised")
    for n, tr in each(ctx, rep, WORKER_CMDS + ("workers:other",)):
        if tr.exit in ("throw", "crash"):
            continue
        w = sender_worker(tr)
        d = describe(tr)
        if w is not None:
            v = same(tr.facts, liveness(ctx, tr.st, w), MAXL)
            if v is not True and tr.facts.q_lt(liveness(ctx, tr.st, w), MAXL) is False:
                v = True  # it never exceeds the maximum
            rep.expect(v, "refresh", "'%s' from a known worker restores its liveness" % n, exit_where(tr), d, msg="a '%s' message from a known worker does not restore its liveness to the configured maximum" % n)
            if tf:
                _, val = timers_of(ctx, tr.st, tf, w)
                rep.expect(same(tr.facts, val, N(0)), "restart", "and restarts its silence timer", exit_where(tr), d, msg="a '%s' message from a known worker does not restart its silence timer" % n)
        for e, r in qops(tr, {"add"}):
            nw = e.d["w"]
            v = same(tr.facts, liveness(ctx, tr.st, nw), MAXL)
            rep.expect(v, "initial", "a new worker starts with full liveness", where(e), d, msg="a newly registered worker does not start with the configured liveness")
            if tf:
                _, val = timers_of(ctx, tr.st, tf, nw)
                rep.expect(same(tr.facts, val, N(0)), "initial-timer", "a new worker starts with a fresh timer", where(e), d, msg="the silence timer of a newly registered worker is not started at zero")
    for n in CLIENT_CMDS:
        for _, tr in each(ctx, rep, [n]):
            ws = [e for e, r in flat(tr.events) if e.kind == "w" and e.d["steps"] and e.d["steps"][-1] == ("f", "liveness")]
            rep.expect(not ws, "clients", "clients do not influence liveness", where(ws[0]) if ws else "", describe(tr), msg="a client message changes the liveness of workers")
    for n, tr0 in each(ctx, rep, ALL_RUNS) if tf else ():
        # nobody's silence is thrown away together with that of another worker
        evs = [e for e, r in flat(tr0.events) if e.kind in ("cm", "w") and (e.d.get("loc") or (e.d.get("root"), e.d.get("steps")))[0] == ("h", "handler") and tuple((e.d.get("loc") or (e.d.get("root"), e.d.get("steps")))[1])[:1] == (("f", tf),)]
        wiped = [e for e in evs if e.kind == "cm" and e.d["op"] == "clear" and len(e.d["loc"][1]) == 1]
        if wiped:
            about = [k for kk in tr0.facts.bnd for k, _ in kk if k[0] == "size" and (mentions(k, WORKERS) or mentions(k, ("sym", "workers")))]
            none = any(tr0.facts.bounds(k)[1] == 0 for k in about)
            later = evs.index(wiped[-1]) < len(evs) - 1
            rep.expect(True if none else None if later or calls_unknown(tr0) else False, "others", "the silence of other workers is kept", where(wiped[-1]), describe(tr0), msg="the silence of all workers is forgotten at once")
    for n, tr0 in each(ctx, rep, ["timer"]):
        expiry_rules(ctx, rep, tr0, tf)


def worker_loops(tr):
    for e in tr.events:
        if e.kind == "loop":
            L = e.d["rec"]
            if L.coll is not None and mentions(L.coll, ("drf", WORKERS)) and not contains(L.coll, lambda x: x and x[0] in ("acc",)):
                yield e, L


def elapsed(tr):
    """the announced elapsed time"""
    return ("ap", "num", at(DATA, N(0)))


def expiry_rules(ctx, rep, tr0, tf):
    if tr0.exit in ("throw", "crash"):
        return
    tick = None
    for e, L in worker_loops(tr0):
        if L.sym is None:
            continue
        touches = any(
            x.kind in ("w", "cm") and (("f", "liveness") in x.d.get("steps", ()) or (tf and x.d.get("root") == ("h", "handler") and x.d["steps"][:1] == (("f", tf),)))
            for b in L.bodies
            for x in b.events
        )
        if touches:
            if tick is not None:
                rep.undecided("tick", "liveness is updated in several loops", where(e))
                return
            tick = (e, L)
    if tick is None:
        evs = [x for x, r in flat(tr0.events) if x.kind == "ext"]
        rep.expect(None if evs else False, "tick", "a tick visits every worker", "", describe(tr0), msg="a timer tick does not age the workers at all")
        return
    e, L = tick
    if e.d["exit"] is not None or any(b.exit != "next" for b in L.bodies):
        rep.expect(None if L.coll is None else False, "all-workers", "every registered worker is visited", where(e), describe(tr0), msg="a timer tick may stop before having visited every registered worker")
        return
    full = L.coll[0] == "fld" and L.coll[1] == ("drf", WORKERS)
    rep.expect(True if full else None, "all-workers", "every registered worker is visited", where(e), describe(tr0))
    w = at(L.coll, L.sym)
    t = elapsed(tr0)
    listname = None
    for b in L.bodies:
        f = b.st.facts
        tr = Tr(b.events, b.st, b.exit, b.val, ((L, b),), tr0.out)
        d = describe(tr)
        wh = where(b.events[-1]) if b.events else where(e)
        root, steps = ctx.obj(w)
        live0 = ("fld", ("drf", w), "liveness")
        live1 = liveness(ctx, b.st, w)
        if tf is None:
            rep.undecided("silence", "no bookkeeping recognised", wh)
            continue
        present, val = timers_of(ctx, b.st, tf, w)
        phi = ("phi", L.inst, None)
        # silence before this tick: the entry if there was one, zero otherwise
        old = None
        for x in b.events:
            if x.kind == "w" and x.d["root"] == ("h", "handler") and x.d["steps"][:1] == (("f", tf),):
                for y in subterms(x.d["val"]):
                    if y and y[0] == "mg" and y[2] == w:
                        old = y
        for a in list(f.atoms) + [k for kk in f.bnd for k, _ in kk]:
            for y in subterms(a):
                if y and y[0] == "mg" and len(y) > 2 and y[2] == w:
                    old = old or y
        absent = old is None
        oldv = N(0) if absent else old
        total = add(oldv, t)
        over = f.q_lt(PING, total)
        if val == N(0) or over is True:
            pass
        dead = in_removal(L, b, w)
        if dead is False and collected_elsewhere(tr0, L):
            dead = None
        if over is None:
            if opaque(val) or contains(val, lambda x: x and x[0] == "phi" and False):
                rep.undecided("silence", "cannot relate the silence with the ping interval", wh)
            else:
                rep.bad("interval", "a worker is not judged by whether its silence exceeds the ping interval", wh, d)
            continue
        if over:
            z = f.q_eqi(live0, N(0))
            exp_ = N(0) if z else sub(live0, N(1))
            v = same(f, live1, exp_)
            if v is not True and f.q_eqi(live1, N(0)) is True and f.bounds(live0)[1] <= 1:
                v = True  # one or none left: none
                exp_ = N(0)
            rep.expect(v, "drop", "a silent interval lowers the liveness by one", wh, d, msg="a silent interval does not lower the liveness by exactly one")
            rep.expect(same(f, val, N(0)), "restart", "and the timer restarts", wh, d, msg="the silence timer does not restart after a missed interval")
            zero = f.q_eqi(live1, N(0))
            if zero is None:
                zero = f.q_eqi(exp_, N(0))
            if dead is None:
                rep.undecided("expire", "removal not recognised", wh)
            elif zero is True:
                rep.expect(dead, "expire", "liveness zero: expired", wh, d, msg="a worker whose liveness reached zero is not expired")
            elif zero is False:
                rep.expect(not dead, "expire", "liveness left: kept", wh, d, msg="a worker is expired although its liveness has not reached zero")
            else:
                rep.bad("expire", "whether a worker expires does not depend on its liveness having reached zero", wh, d)
        else:
            rep.expect(same(f, live1, live0), "keep", "within the interval the liveness is kept", wh, d, msg="the liveness changes although the ping interval has not been exceeded")
            rep.expect(same(f, val, total), "accumulate", "the elapsed time is added to the silence", wh, d, msg="the elapsed time is not added to the worker's silence")
            rep.expect(None if dead is None else not dead, "keep-worker", "and the worker stays", wh, d, msg="a worker is expired although the ping interval has not been exceeded")
        for x in b.events:
            if x.kind == "wrap" and x.d.get("definite"):
                rep.bad("wrap", "the liveness counter may wrap around below zero", where(x), d)
    # workers collected for removal are the ones terminated
    term = [x for x, r in flat(tr0.events) if x.kind == "q" and x.d["op"] == "terminated"]
    rep.expect(bool(term) or None, "terminate", "expired workers are terminated", where(e), describe(tr0))


def collected_elsewhere(tr0, L):
    """is there another pass over the same workers that sets some of them aside?"""
    for e in tr0.events:
        if e.kind != "loop" or e.d["rec"] is L:
            continue
        M = e.d["rec"]
        if M.coll is None or M.sym is None:
            if M.fn == L.fn and any(x.kind in ("cm", "ext", "q") for b in M.bodies for x in b.events):
                return True
            continue
        if M.coll == L.coll and M.inst != L.inst and any(in_removal(M, b, at(M.coll, M.sym)) is not False for b in M.bodies):
            return True
    return False


def in_removal(L, b, w):
    """is the worker put aside for removal in this iteration, or terminated right there? True/False/None"""
    for x in b.events:
        if x.kind == "q" and x.d["op"] == "terminated" and x.d["w"] == w:
            return True
        if x.kind == "cm" and x.d["op"] in ("push_back", "push_front", "insert", "map-insert") and x.d["loc"][0] != ("h", "handler"):
            if x.d.get("val") == w or x.d.get("key") == w:
                return True
            if mentions(x.d.get("val") or VOID, w):
                return None
        if x.kind == "ext":
            if any(isinstance(a, tuple) and mentions(a, w) for a in x.d.get("args", ())) and not x.d["q"].startswith("spdlog"):
                return None
    return False


# ------------------------------------------------------------------------------------------------ expiry
def everyone_visited(ctx, rep):
    """the loops over the workers reach each of them: nothing changes the collection under them"""
    for n, tr0 in each(ctx, rep, ["timer"]):
        for tr in subtraces(tr0):
            for e in tr.events:
                if e.kind == "hazard" and "while a loop goes over it" in e.d["why"]:
                    rep.bad("visited", "a tick passes over the worker after one that is removed during the loop", where(e), describe(tr))


def c11(ctx, rep):
    tf = timer_field(ctx)
    everyone_visited(ctx, rep)
    seen = 0
    for n, tr0 in each(ctx, rep, ["timer"]):
        if tr0.exit in ("throw", "crash"):
            continue
        for tr in subtraces(tr0):
            own = [e for e in tr.events if e.kind != "loop"]
            for e in own:
                if not (e.kind == "q" and e.d["op"] == "terminated"):
                    continue
                seen += 1
                w = e.d["w"]
                d = describe(tr)
                # registry: removed, or searched for and not found
                rep.expect(unregistered(ctx, tr, w), "unregister", "an expired worker leaves the registry", where(e), d, msg="an expired worker is not removed from the registry")
                if tf:
                    v = forgotten(tr, tf, w)
                    rep.expect(v, "forget", "an expired worker leaves the liveness bookkeeping", where(e), d, msg="an expired worker stays in the liveness bookkeeping")
                n_t = sum(1 for x in own if x.kind == "q" and x.d["op"] == "terminated" and x.d["w"] == w)
                rep.expect(n_t == 1, "terminate-once", "the queue manager is told once", where(e), d, msg="the queue manager is told several times about one expired worker")
                orphans(ctx, rep, tr, e)
    if not seen:
        outs = ctx._runs.get("timer")
        if outs is not None and not isinstance(outs, Limit):
            und = any(x.kind == "ext" and "worker" in x.d["q"] for o in outs for x, r in flat(o.st.events))
            rep.expect(None if und else False, "terminate", "expired workers are handed to the queue manager", "src/handlers/broker_handler.cpp", describe(top(outs[0])) if outs else [], msg="no timer tick ever tells the queue manager that a worker expired")


def unregistered(ctx, tr, w):
    for e in tr.events:
        if e.kind == "cm" and e.d["loc"][0] == ("p", WORKERS) and e.d["op"] in ("erase", "remove", "map-erase"):
            v = e.d.get("val")
            if v == w or e.d.get("key") == w or (v is not None and same(tr.facts, v, w) is True):
                return True
            if v is None or opaque(v):
                return None
            if tr.facts.q_eq(v, w) is True:
                return True
        if e.kind == "loop":
            L = e.d["rec"]
            if L.coll is not None and mentions(L.coll, ("drf", WORKERS)) or (L.coll is not None and "workers_" in show(L.coll) and L.coll[0] == "phi"):
                # a search for the worker that does not find it
                if e.d["exit"] is None and any(b.exit != "next" and any(fv is True and isinstance(k, tuple) and len(k) > 1 and isinstance(k[1], tuple) and mentions(k, w) for k, fv in b.facts.items()) for b in L.bodies):
                    return True
                if e.d["exit"] is None and any(b.exit == "break" for b in L.bodies):
                    return True
        if e.kind == "ext" and any(isinstance(a, tuple) and mentions(a, w) for a in e.d.get("args", ())) and "remove" in e.d["q"]:
            return None
    return False


def forgotten(tr, tf, w):
    for e, r in flat(tr.events):
        if e.kind == "cm" and e.d["loc"][0] == ("h", "handler") and e.d["loc"][1][:1] == (("f", tf),):
            if e.d["op"] in ("map-erase",) and e.d.get("key") == w:
                return True
            if e.d["op"] not in ("map-insert", "insert-default", "map-set", "map-insert-dup"):
                return None
    # erased only if present
    for a, v in tr.facts.atoms.items():
        if a[0] == "nz" and a[1][0] == "has" and a[1][2] == w and v is False:
            return True
    return False


def orphans(ctx, rep, tr, term):
    """every job handed back by the queue manager is put back or reported"""
    handed = term.d["ret"]
    loops = []
    for e in tr.events:
        if e.kind == "loop" and e.d["rec"].coll is not None and mentions(e.d["rec"].coll, handed):
            loops.append(e)
    direct = [e for e in loops if not contains(e.d["rec"].coll, lambda x: x and x[0] in ("acc", "accm"))]
    d = describe(tr)
    if any(getattr(e.d["rec"], "split", False) for e in loops):
        rep.undecided("fate", "the jobs of an expired worker are gone through several times", where(term))
        return
    if not direct:
        # facts may say that there is nothing to go through
        if tr.facts.q_eqi(size_of(handed), N(0)) is True:
            rep.ok("orphans", "nothing was handed back")
            return
        ext = [x for x, r in flat(tr.events) if x.kind == "ext" and any(isinstance(a, tuple) and mentions(a, handed) for a in x.d.get("args", ()))]
        rep.expect(None if ext else False, "orphans", "the jobs of an expired worker are dealt with", where(term), d, msg="the jobs handed back for an expired worker are dropped")
        return
    e = direct[0]
    L = e.d["rec"]
    if L.coll != handed and not (L.coll[0] == "at"):
        rep.expect(None if opaque(L.coll) or L.coll[0] != "slice" else False, "orphans-all", "all handed back jobs are visited", where(e), d, msg="some of the jobs handed back for an expired worker are skipped")
    else:
        rep.ok("orphans-all", "all handed back jobs are visited")
    if any(b.exit != "next" for b in L.bodies):
        b = [b for b in L.bodies if b.exit != "next"][0]
        rep.bad("orphans-all", "going through the jobs of an expired worker may stop early (%s)" % b.exit, where(e), describe(Tr(b.events, b.st, b.exit, b.val, tr.chain + ((L, b),), tr.out)))
        return
    r = at(L.coll, L.sym)
    later = [x for x in loops if x is not e] if len(direct) == 1 else direct[1:] + [x for x in loops if x not in direct]
    for b in L.bodies:
        t2 = Tr(b.events, b.st, b.exit, b.val, tr.chain + ((L, b),), tr.out)
        d2 = describe(t2)
        enq = [x for x, rr in qops(t2, {"enqueue"})]
        taken = [x for x in enq if x.d["how"] != "refused" and same(t2.facts, x.d["r"], r) is not False]
        fe = frontend(t2)
        jid = ctx.job_id(b.st, r)
        rp = 0
        unk = False
        for x, rr, p in fe:
            if p is None:
                unk = True
                continue
            if p.get("type") == S("job-status") and p.get("status") == S("FAILED"):
                v = same(t2.facts, p.get("id", VOID), jid) if jid is not None else None
                if v is True:
                    rp += 1
                elif v is None:
                    unk = True
                else:
                    rep.bad("report", "a failure is reported under the id of another job", where(x), d2)
            else:
                rep.bad("report", "a job of an expired worker is reported with a status other than FAILED", where(x), d2)
        # put aside and reported by a later loop
        deferred = dmax = 0
        for x in later:
            L2 = x.d["rec"]
            acc = multiplicity(L2.coll, L, b, [y.d["rec"] for y in loops])
            if acc is None:
                unk = True
                continue
            if acc == (0, 0):
                continue
            ks = []
            for b2 in L2.bodies:
                frm = b2.st.facts.atoms.get(("from", L2.inst, L.inst))
                if frm is not None and frm != b.pid:
                    continue  # about an element put there by another path
                t3 = Tr(b2.events, b2.st, b2.exit, b2.val, tr.chain + ((L2, b2),), tr.out)
                k = 0
                for y, rr, p in frontend(t3):
                    if p is None:
                        unk = True
                    if p and p.get("type") == S("job-status") and p.get("status") == S("FAILED") and p.get("id") is not None and same_elem(ctx, t3, p["id"], L, L2, r):
                        k += 1
                if b2.exit != "next":
                    rep.bad("report", "reporting the jobs that cannot be reassigned may stop early", where(x), describe(t3))
                ks.append(k)
            if ks:
                deferred, dmax = deferred + min(ks) * acc[0], dmax + max(ks) * acc[1]
        if deferred != dmax and not unk:
            rep.bad("report", "a job of an expired worker that could not be put back is not always reported exactly once", where(later[0]), d2)
            continue
        wh = where(b.events[-1]) if b.events else where(e)
        total = rp + deferred
        if taken:
            if len(taken) > 1:
                rep.bad("fate", "a job of an expired worker is put back more than once", where(taken[1]), d2)
            rep.expect(total == 0 or (None if unk else False), "fate", "a job put back is not reported as failed", wh, d2, msg="a job of an expired worker is put back and also reported as failed")
        else:
            if total == 1:
                rep.ok("fate", "a job that cannot be put back is reported as failed once")
            elif unk or collected_unknown(t2, r, later, tr):
                rep.undecided("fate", "cannot follow a job that is not put back", wh)
            elif total == 0:
                if only_some(tr, L, b):
                    rep.bad("fate", "of the jobs of an expired worker that cannot be put back only some are reported to the frontend", where(only_some(tr, L, b)), d)
                elif deferred_elsewhere(tr, L, b, r):
                    pass
                else:
                    rep.bad("fate", "a job of an expired worker is neither put back nor reported to the frontend", wh, d2)
            else:
                rep.bad("fate", "a job of an expired worker is reported as failed %d times" % total, wh, d2)


def multiplicity(coll, L, b, others):
    """how many elements of the collection stem from iteration b of loop L, directly or through loops that went over
    such a collection themselves: (min, max), or None if unknown"""
    if coll[0] == "acc":
        per = dict(coll[3])
        if coll[1] == L.inst:
            n = len(per.get(b.pid, ()))
            return n, n
        for M in others:
            if M.inst == coll[1] and M is not L:
                if M.coll is None:
                    return None
                k = multiplicity(M.coll, L, b, [x for x in others if x is not M])
                if k is None or any(x.exit != "next" for x in M.bodies):
                    return None if k is None or k[1] else (0, 0)
                ns = [len(per.get(x.pid, ())) for x in M.bodies if x.st.facts.atoms.get(("from", M.inst, L.inst)) in (None, b.pid)] or [0]
                return k[0] * min(ns), k[1] * max(ns)
        return 0, 0
    if coll[0] == "seq":
        lo = hi = 0
        for p in coll[1]:
            if p[0] == "all":
                x = multiplicity(p[1], L, b, others)
                if x is None:
                    return None
                lo, hi = lo + x[0], hi + x[1]
        return lo, hi
    return None


def same_elem(ctx, t3, idt, L, L2, r):
    """is idt the job id of the element being visited?"""
    jid = ctx.job_id(ctx.H.base, r)
    if jid is None:
        return False
    if L2.sym is None:
        return False
    return subst(idt, {L2.sym: ("I",)}) == subst(jid, {L.sym: ("I",)}) or "handed" in show(idt)


def collected_unknown(t2, r, later, tr):
    """the job is put into some container that no recognised loop goes through"""
    for e in t2.events:
        if e.kind == "cm" and isinstance(e.d.get("val"), tuple) and mentions(e.d["val"], r):
            root = e.d["loc"][0]
            # is that container visited later on in this trace?
            return False
    return False


def only_some(tr, L, b):
    """the jobs put aside are not gone through: only elements at fixed positions are reported. The event of such a report."""
    acc = lambda x: bool(x) and x[0] == "acc" and x[1] == L.inst
    if not any(e.kind == "cm" for e in b.events):
        return None
    hit, unk = None, False
    for e in tr.events:
        if e.kind == "loop":
            lc = e.d["rec"].coll
            if lc is None or contains(lc, acc) or not L.bodies:
                unk = unk or e.d["rec"] is not L
        elif e.kind in ("ext", "callop"):
            unk = unk or any(isinstance(a, tuple) and contains(a, acc) for a in e.d.get("args", ()))
    for x, rr, p in frontend(tr):
        if rr:
            continue
        if p is None:
            unk = True
            continue
        t = p.get("id", VOID)
        if not contains(t, acc):
            continue
        fixed = []

        def look(y):
            if y and y[0] == "at" and contains(y[1], acc):
                n = size_of(y[1])
                if (y[2][0] == "n" or sub(n, y[2])[0] == "n") and tr.facts.bounds(n)[1] > 1:
                    fixed.append(y)
            return False

        contains(t, look)
        if fixed:
            hit = x
        else:
            unk = True
    return None if unk else hit


def deferred_elsewhere(tr, L, b, r):
    """the trace where nothing was put aside: the container is empty, so this iteration did not occur in it"""
    for e in b.events:
        if e.kind == "cm" and isinstance(e.d.get("val"), tuple) and (e.d["val"] == r or mentions(e.d["val"], r)):
            # container emptiness tested on this trace?
            for a, v in tr.facts.atoms.items():
                if a[0] == "nz" and contains(a, lambda x: x and x[0] == "acc" and x[1] == L.inst):
                    return True
            for k, bd in tr.facts.bnd.items():
                if any(contains(x, lambda y: y and y[0] == "acc" and y[1] == L.inst) for x, _ in k) and bd[1] == 0:
                    return True
    return False
