"""Rules about the two queue managers: every operation, from every state satisfying the invariant that the collections
of workers agree, keeps each job in exactly one place and places it where it belongs."""
from base import *
from witness import Open, integer, items
from manager import C, OBJ, OPS, R, W, Manager, managers
from rules_handler import each, exit_where, why_exit
from rules_handler2 import find_loop, loops_of


class Delta:
    def __init__(self):
        self.added = []  # ('back'|'front', item)
        self.removed = []  # (element term, collection, position)
        self.all = False  # everything removed
        self.filt = None  # (collection, inst, kept pids)
        self.perm = []

    def empty(self):
        return not (self.added or self.removed or self.all or self.filt)


def seqdelta(t, base):
    d = Delta()
    if t == base:
        return d
    k = t[0]
    if k == "perm":
        d = seqdelta(t[1], base)
        if d is not None:
            d.perm.append(t)
        return d
    if k == "erase":
        d = seqdelta(t[1], base)
        if d is not None:
            d.removed.append((at(t[1], t[2]), t[1], t[2]))
        return d
    if k == "slice":
        u = t[1]
        if u[0] == "upd" and t[2] == N(0) and t[3] == sub(size_of(u[1]), N(1)) and u[3] == at(u[1], t[3]):
            # the last element takes the place of the one removed
            d = seqdelta(u[1], base)
            if d is not None:
                d.removed.append((at(u[1], u[2]), u[1], u[2]))
                d.perm.append(("perm", u[1], "moved", None))
            return d
        d = seqdelta(t[1], base)
        if d is None:
            return None
        n = size_of(t[1])
        lo, hi = t[2], sub(n, t[3])
        if lo[0] != "n" or hi[0] != "n":
            return None
        for i in range(lo[1]):
            d.removed.append((at(t[1], N(i)), t[1], N(i)))
        for i in range(hi[1]):
            p = sub(n, N(i + 1))
            d.removed.append((at(t[1], p), t[1], p))
        return d
    if k == "seq":
        if not t[1]:
            d.all = True
            return d
        al = [i for i, p in enumerate(t[1]) if p[0] == "all"]
        if not al:
            d.all = True
            d.added = [("back", p[1]) for p in t[1]]
            return d
        if len(al) != 1:
            return None
        d = seqdelta(t[1][al[0]][1], base)
        if d is None:
            return None
        for i, p in enumerate(t[1]):
            if i < al[0]:
                d.added.append(("front", p[1]))
            elif i > al[0]:
                d.added.append(("back", p[1]))
        return d
    if k == "filt":
        inner = t[1]
        src = inner[1] if inner[0] == "emap" else inner
        d = seqdelta(src, base)
        if d is None:
            return None
        d.filt = (inner, t[2], t[3])
        return d
    return None


class Mrules:
    """collects the obligations of all manager rules, by property"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.obs = []
        self.counts = {"entry_points": 0, "partitions": 0}
        for m in managers(ctx.prog):
            self.m = m
            self.kind = m.label
            if m.cur is None or m.wait is None:
                self.ob("*", None, "state", "the state of the queue manager with %s is kept in a form not recognised" % m.label)
                continue
            self.wbase = ("sym", "M." + m.wait)
            self.cbase = ("sym", "M." + m.cur)
            self.lists = [("sym", "M." + x) for x in m.workers]
            self.number = self.counted(m)
            for op in OPS:
                for cur in {"add_worker": (True, False), "assign_request": (False,), "worker_cancelled": (True,), "enqueue_request": (None,), "get_queued_request_count": (None,), "worker_finished": (True,)}.get(op, (True, False)):
                    try:
                        outs = m.run(op, True, cur)
                    except Limit as l:
                        self.ob("*", None, "analysis", "%s of the manager with %s: %s" % (op, m.label, l))
                        continue
                    self.counts["entry_points"] += 1
                    self.counts["partitions"] += len(outs)
                    for o in outs:
                        tr = top(o)
                        self.tr, self.op, self.hascur = tr, op, cur
                        self.d = describe(tr)
                        self.wh = self.place(tr)
                        if o.exit in ("throw", "crash"):
                            self.ob("C16", False, "completes", "%s completes" % op, msg="%s of the manager with %s does not complete: %s" % (op, m.label, why_exit(tr)))
                            continue
                        self.ob("C16", True, "completes", "%s completes" % op)
                        for t2 in subtraces(tr):
                            for e in t2.events:
                                if e.kind == "hazard":
                                    self.ob("C16", False, "hazard", "no hazard", where(e), msg="%s of the manager with %s: %s" % (op, m.label, e.d["why"]))
                        if self.emptied(tr):
                            continue
                        getattr(self, op)(tr)
                        self.membership(tr)
                        self.counter(tr)

    def counted(self, m):
        """the field that get_queued_request_count returns, if the number of waiting jobs is kept in one"""
        try:
            vs = {o.val for o in m.run("get_queued_request_count", True, None) if o.exit in ("next", "return")}
        except Limit:
            return None
        if len(vs) != 1:
            return None
        v = vs.pop()
        names = [fd["n"] for fd in m.rec["fields"] if fd["n"] not in [m.wait, m.cur] + list(m.workers) + list(m.wmaps)]
        return next((n for n in names if v == ("sym", "M." + n)), None)

    def counter(self, tr):
        """the number kept follows what the operation does to the queues"""
        if self.number is None:
            return
        ws = self.waits(tr)
        base = ("sym", "M." + self.number)
        now = self.final(tr, self.number)
        if ws is None:
            return
        msg = "%s does not keep the number of waiting jobs in step with the queues" % self.op
        if any(d.all or d.filt for k, d in ws):
            held = any(a[0] == "nomod" and self.number in str(a[2]) for a in tr.facts.atoms)
            some = [k for k, d in ws if (d.all or d.filt and not held) and tr.facts.bounds(size_of(self.wbase if k is None else ("mg", self.wbase, k)))[1] > 0]
            # what is left where the queue was found empty is nothing
            self.ob("C03", False if now == base and some else None, "counter", "the number of waiting jobs is kept", msg=msg)
            return
        want = sum(len(d.added) - len(d.removed) for k, d in ws)
        if any(p[0] == "all" for k, d in ws for p in d.added):
            return
        diff = sub(now, base)
        self.ob("C03", diff[1] == want if diff[0] == "n" else None, "counter", "the number of waiting jobs is kept", msg=msg)

    def emptied(self, tr):
        """a table with an entry for every worker that ends up without the entries of the others"""
        hit = False
        tabs = [(self.m.cur, "C03", "the jobs the other workers are processing")]
        if self.m.wait_per_worker:
            tabs.append((self.m.wait, "C03", "the jobs waiting for the other workers"))
        tabs += [(x, "C04", "the other workers") for x in self.m.workers]
        for name, pid, what in tabs:
            base = ("sym", "M." + name)
            t = self.final(tr, name)
            few = 0 if self.op == "add_worker" else 1
            gone = t in (("empty",), EMPTYSEQ) or (t[0] == "map" and t[1] == ("empty",)) or (t[0] == "seq" and all(p[0] == "one" for p in t[1]))
            if gone and tr.facts.bounds(size_of(base))[1] > few:
                hit = True
                self.ob(pid, False, "others", "other workers are not affected", msg="%s forgets %s" % (self.op, what))
                if pid == "C03":
                    self.ob("C04", False, "others", "other workers are not affected", msg="%s forgets %s" % (self.op, what))
        return hit

    def place(self, tr):
        for e, r in reversed(list(flat(tr.events))):
            if "queuing" in (e.where or "") or "queue_manager" in (e.where or ""):
                return where(e)
        f = self.m.fn(self.op)
        return "src/queuing/%s (%s)" % (self.m.cls.split("<")[0], self.op)

    def ob(self, pid, cond, rule, what, wh=None, msg=None, d=None):
        self.obs.append((pid, cond, rule, what, wh if wh is not None else getattr(self, "wh", ""), d if d is not None else getattr(self, "d", []), (msg or what) + ("" if msg and "manager with" in msg else " (manager with %s)" % getattr(self, "kind", ""))))

    # ---- state of a trace
    def final(self, tr, f):
        return fld(tr.st.store[OBJ], f)

    def req(self, item):
        return fld(item, self.m.entry) if self.m.entry else item

    def waits(self, tr):
        """[(worker key or None, Delta)] of changed queues, or None"""
        t = self.final(tr, self.m.wait)
        if t == self.wbase:
            return []
        if not self.m.wait_per_worker:
            d = seqdelta(t, self.wbase)
            return None if d is None else [(None, d)]
        if t[0] != "map" or t[1] != self.wbase:
            return None
        out = []
        for k, v in t[2]:
            base = ("mg", self.wbase, k)
            if v == DEL:
                d = Delta()
                d.all = True
                d.gone = True
                out.append((k, d))
                continue
            if v == EMPTYSEQ and self.op == "add_worker":
                out.append((k, Delta()))
                continue
            d = seqdelta(v, base)
            if d is None:
                return None
            if not d.empty() or d.perm:
                out.append((k, d))
        return out

    def curs(self, tr):
        """[(worker, job)] of changed current jobs, or None"""
        t = self.final(tr, self.m.cur)
        if t == self.cbase:
            return []
        if t[0] != "map" or t[1] != self.cbase:
            return None
        out = []
        for k, v in t[2]:
            if v == ("mg", self.cbase, k):
                continue
            if v == NULL and self.oldcur(tr, k) is False:
                continue
            out.append((k, v))
        return out

    def oldcur(self, tr, w):
        """does w have a current job before the operation? True/False/None"""
        if w == W and self.op == "add_worker":
            return False
        return tr.facts.q(("mg", self.cbase, w))

    def known(self, tr, w):
        """is w a registered worker? True/None/False"""
        if w == W:
            return True
        if w[0] == "at" and any(mentions(w[1], b) for b in self.lists):
            return True
        if w[0] == "ky" and w[1] in (self.cbase, self.wbase):
            return True
        if tr.facts.q(("has", self.cbase, w)) is True:
            return True
        return None if opaque(w) else False

    def ck(self, f, w, r):
        h = ("fld", ("drf", r), "headers")
        v = f.q(("ap", "check_headers", w, h))
        if v is None:
            for a, x in f.atoms.items():
                if a[0] == "nz" and a[1][0] == "ap" and a[1][1] == "check_headers" and a[1][3] == h and f.q_eq(a[1][2], w) is True:
                    return x
        return v

    def search(self, tr, r, colls, skip=None):
        """an exhaustive search over one of the collections that found nobody satisfying r:
        True / False (there is none) / None (something searches, in a way not recognised)"""
        unk = False
        for e in tr.events:
            if e.kind == "ext" and any(isinstance(a, tuple) and (mentions(a, r) or any(mentions(a, c) for c in colls)) for a in e.d.get("args", ())):
                unk = True
            if e.kind != "loop":
                continue
            L = e.d["rec"]
            if L.coll is None or L.sym is None:
                unk = True
                continue
            if L.coll not in colls:
                if any(mentions(L.coll, c) for c in colls) and L.coll[0] not in ("slice",):
                    unk = True
                continue
            if e.d["exit"] is not None:
                continue
            el = ("ky", L.coll, L.sym) if L.coll in (self.cbase, self.wbase) else at(L.coll, L.sym)
            if self.starts_late(L):
                continue
            good = True
            for b in L.bodies:
                if b.exit != "next":
                    continue
                v = self.ck(b.st.facts, el, r)
                if v is False:
                    continue
                if skip is not None and skip(b, el):
                    continue
                good = False
            if good:
                return True
        for c in colls:
            if tr.facts.q_eqi(size_of(c), N(0)) is True:
                return True
        return None if unk else False

    def starts_late(self, L):
        s = L.start
        return s is not None and s[0] == "n" and s[1] > 0

    # ---- the operations
    def add_worker(self, tr):
        ws, cs = self.waits(tr), self.curs(tr)
        if ws is None or cs is None:
            return self.ob("C03", None, "add", "effect of add_worker not recognised")
        ret = tr.val
        c = C if self.hascur else NULL
        if self.hascur:
            mine = [v for k, v in cs if k == W]
            self.ob("C03", mine == [C] if mine != [("sym", "?")] else None, "add-current", "a job the new worker is processing becomes its current job", msg="add_worker does not keep the job the new worker is already processing as its current job")
            self.ob("C06", True if ret == NULL else None if opaque(ret) else False, "add-busy", "nothing to send to a busy new worker", msg="add_worker tells to send a job to a worker that is already processing one")
            self.ob("C03", all(d.empty() for k, d in ws) and not [1 for k, v in cs if k != W], "add-rest", "other jobs stay", msg="add_worker of a busy worker moves other jobs")
        else:
            self.taking(tr, ret, ws, cs, "add")

    def taking(self, tr, ret, ws, cs, what):
        """the worker gets a waiting job or none: assign, finished, add"""
        op = self.op
        oth = [k for k, v in cs if tr.facts.q_eq(k, W) is False or (k != W and tr.facts.q_eq(k, W) is None)]
        if oth:
            self.ob("C03", False, what, "only the worker itself is concerned", msg="%s changes the current job of another worker" % op)
            return
        mine = [v for k, v in cs if k == W]
        newc = mine[-1] if mine else (("mg", self.cbase, W) if op != "add_worker" else self.cur_after(tr))
        removed = [x for k, d in ws for x in d.removed]
        added = [x for k, d in ws for x in d.added]
        if any(d.all or d.filt for k, d in ws) and not (op == "add_worker"):
            bad = any(d.all and not getattr(d, "gone", False) for k, d in ws)
            self.ob("C03", False if bad else None, what, "waiting jobs stay", msg="%s drops all waiting jobs" % op)
            return
        if added:
            self.ob("C03", False if not any(opaque(a[1]) for a in added) else None, what, "nothing new is queued", msg="%s puts a job into the queue" % op)
            return
        if ret == NULL:
            okk = not removed and (newc == NULL or (op != "worker_finished" and newc == ("mg", self.cbase, W) and self.oldcur(tr, W) is False))
            self.ob("C03", True if okk else None if opaque(newc) and not removed else False, what, "no job handed out: none leaves the queue and the worker is free", msg="%s returns no job but %s" % (op, "takes one out of the queue" if removed else "leaves the worker with a current job"))
            # nobody waits whom it may take
            self.ob("C26", self.none_waiting(tr), "idle", "a worker is left idle only if no waiting job suits it", msg="%s may leave a worker idle although a job it may take is waiting" % op)
            return
        # a job is handed out
        if len(removed) != 1:
            if not removed:
                self.ob("C03", False if not opaque(ret) else None, what, "a job handed out leaves the queue", msg="%s hands out a job but leaves it in the queue" % op)
            else:
                self.ob("C03", False, what, "one job leaves the queue", msg="%s takes %d jobs out of the queue but hands out one" % (op, len(removed)))
            return
        x, coll, pos = removed[0]
        rq = self.req(x)
        self.ob("C03", same(tr.facts, rq, ret), what, "the job handed out is the one taken out", msg="%s hands out a job other than the one it takes out of the queue" % op)
        self.ob("C03", same(tr.facts, newc, ret) if newc is not None else None, what + "-current", "and becomes the worker's current job", msg="the job handed out by %s does not become the worker's current job" % op)
        self.fifo_take(tr, x, coll, pos, rq, ws)

    def cur_after(self, tr):
        t = self.final(tr, self.m.cur)
        if t[0] == "map":
            for k, v in t[2]:
                if k == W:
                    return v
        return NULL

    def none_waiting(self, tr):
        f = tr.facts
        if self.m.wait_per_worker:
            if self.op == "add_worker":
                return True  # its own queue is new and empty
            q = ("mg", self.wbase, W)
            v = f.q_eqi(size_of(q), N(0))
            return v if v is not None else False
        for e in tr.events:
            if e.kind != "loop" or e.d["exit"] is not None:
                continue
            L = e.d["rec"]
            if L.coll is None or L.sym is None:
                continue
            dl = seqdelta(L.coll, self.wbase)
            if dl is None or not dl.empty():
                continue
            if self.starts_late(L):
                continue
            el = self.req(at(L.coll, L.sym))
            if all(self.ck(b.st.facts, W, el) is False for b in L.bodies if b.exit == "next"):
                return True
            return False if all(not opaque_facts(b) for b in L.bodies) else None
        if f.q_eqi(size_of(self.wbase), N(0)) is True:
            return True
        return None if any(e.kind == "ext" for e in tr.events) else False

    def fifo_take(self, tr, x, coll, pos, rq, ws):
        """C24/C04: the job taken is the first suitable one in arrival order"""
        f = tr.facts
        if self.m.wait_per_worker:
            key = [k for k, d in ws if d.removed][0]
            self.ob("C04", same(f, key, W), "own-queue", "jobs are taken from the worker's own queue", msg="%s takes a job out of another worker's queue" % self.op)
            v = f.q_eqi(pos, N(0))
            self.ob("C24", v if v is not None else False, "front", "the front of the queue is taken", msg="%s does not take the job that waited longest" % self.op)
            if any(q[2] == "moved" for k, d in ws for q in d.perm):
                self.moved()
            elif any(d.perm for k, d in ws):
                self.ob("C24", None, "order", "queue reordered")
            return
        v = self.ck(f, W, rq)
        self.ob("C04", v if v is not None else (False if not opaque(rq) else None), "suits", "the worker satisfies the job's headers", msg="%s gives a worker a job whose headers it was not checked to satisfy" % self.op)
        # the first suitable one: an ascending loop over the same collection whose earlier iterations found the job unsuitable
        okk = None
        for e in tr.events:
            if e.kind != "loop":
                continue
            L = e.d["rec"]
            if L.coll is None or L.sym is None or seqdelta(L.coll, self.wbase) is None:
                continue
            el = self.req(at(L.coll, L.sym))
            step = self.step(L)
            asc = (step == N(1) and (L.start is None or L.start == N(0)))
            if L.coll != coll:
                if L.coll[0] == "rev" and L.coll[1] == coll:
                    okk = False
                continue
            if e.d["exit"] is not None and f.q_eqi(pos, L.sym) is True:
                sk = all(self.ck(b.st.facts, W, el) is False for b in L.bodies if b.exit == "next")
                okk = True if asc and sk else False if (not sk and not any(opaque_facts(b) for b in L.bodies)) or (step is not None and step != N(1)) else None
                break
            if e.d["exit"] is None and okk is None:
                okk = None
        self.ob("C24", okk, "first", "the first suitable job in queue order is taken", msg="%s does not take the first waiting job the worker may process" % self.op)
        self.order(coll)
        if any(q[2] == "moved" for k, d in ws for q in d.perm):
            t, keys = coll, []
            while t[0] in ("perm", "erase", "slice", "filt"):
                if t[0] == "perm" and len(t) > 3 and t[3] is not None:
                    keys.append(self.comparator(t[3]))
                t = t[1]
            if not keys:
                self.moved()
            elif keys[0][0] is True and not self.distinct_keys(keys[0][1]):
                self.moved(" of those that arrived at the same time")
            else:
                self.ob("C24", None, "order", "queue reordered")

    def moved(self, whom=""):
        self.ob("C24", False, "order", "the others keep their order", msg="taking a job out of the queue moves the job accepted last ahead of others%s" % whom)

    def step(self, L):
        if L.sym[0] == "ix":
            return N(1)
        for k, c in L.cells.items():
            if ("phi", L.inst, k) == L.sym:
                st = {v[1] if v[0] == "add" else None for v in c["per"].values()}
                if len(st) == 1:
                    return st.pop()
        return None

    def order(self, coll):
        """the order in which the queue is searched is the order of arrival"""
        t = coll
        while t[0] in ("perm", "erase", "slice", "filt"):
            if t[0] == "perm":
                self.sorted_by(t)
            t = t[1]

    def sorted_by(self, t):
        how = t[2]
        if how in ("reverse", "shuffle", "random_shuffle"):
            return self.ob("C24", False, "order", "no reordering", msg="the queue is searched in a different order than that of arrival (%s)" % how)
        v, why = self.comparator(t[3])
        if v is None:
            return self.ob("C24", None, "order", "comparator of the queue's order not recognised")
        if v is False:
            return self.ob("C24", False, "order", "sorted by arrival", msg="the queue is sorted by something other than ascending arrival (%s)" % why)
        key = why
        if how != "stable_sort" and not self.distinct_keys(key):
            return self.ob("C24", False, "stable", "ties keep their order", msg="the queue is sorted unstably by arrival times that may coincide, so jobs accepted first may be overtaken")
        self.ob("C24", True, "order", "sorting by arrival time keeps the order of arrival")
        self.key = key
        self.arrival(key)

    def comparator(self, cmp):
        """-> (True, key field) | (False, why) | (None, why)"""
        I = self.m.I
        st = self.m.base()
        a, b = ("sym", "ea"), ("sym", "eb")

        def go():
            r = I.invoke(cmp, [("V", a), ("V", b)])
            return I.arg_value(r)

        keep = (I.st, I.memo, I.frame)
        try:
            outs = I.run(go, st)
        except Exception:
            return None, "?"
        finally:
            I.st, I.memo, I.frame = keep
        if any(o.exit != "next" for o in outs):
            return None, "?"
        key = None
        for o in outs:
            v = o.val
            if v in (TRUE, FALSE):
                # decided by a branch: look for the relation
                rel = [(x, bd) for x, bd in o.st.facts.bnd.items()]
                return None, "?"
            c = v
            neg = False
            while c[0] == "not":
                c, neg = c[1], not neg
            if c[0] == "cmp":
                op, l, r = c[1], c[2], c[3]
            elif c[0] in ("lt", "le", "gt", "ge", "<", ">", "<=", ">="):
                op, l, r = c[0], c[1], c[2]
            else:
                return None, show(v)
            op = {"lt": "<", "gt": ">", "le": "<=", "ge": ">="}.get(op, op)
            if neg:
                op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}.get(op)
            if op in (">", ">="):
                l, r, op = r, l, {">": "<", ">=": "<="}[op]
            la, rb = subst(l, {a: ("E",)}), subst(r, {b: ("E",)})
            if mentions(l, a) and mentions(r, b) and la == rb:
                if op == "<":
                    key = la
                    continue
                return False, "not a strict order"
            if mentions(l, b) and mentions(r, a) and subst(l, {b: ("E",)}) == subst(r, {a: ("E",)}):
                return False, "descending"
            return None, show(v)
        return (True, key) if key is not None else (None, "?")

    def distinct_keys(self, key):
        return False

    def arrival(self, key):
        """keys never decrease in the order in which jobs are appended"""
        if getattr(self, "_arr", None) == self.kind:
            return
        self._arr = self.kind
        try:
            outs = self.m.run("enqueue_request", True, None)
        except Limit:
            return
        for o in outs:
            tr = top(o)
            save = self.op
            self.op = "enqueue_request"
            ws = self.waits(tr)
            self.op = save
            for k, d in ws or []:
                for pos, it in d.added:
                    v = subst(key, {("E",): it})
                    if v[0] == "fld" and it[0] == "rec":
                        v = fld(it, v[2])
                    x = v
                    while x[0] == "ap" and x[1] in ("trunc", "duration_cast") or x[0] == "trunc":
                        x = x[2] if x[0] == "ap" else x[1]
                    if x[0] == "ap" and x[1] == "now":
                        x = ("now",) + x[2:]
                    if x[0] == "now":
                        clk = show(x[1]) if isinstance(x[1], tuple) else str(x[1])
                        self.ob("C24", "steady_clock" in clk if "clock" in clk else None, "clock", "arrival times come from a monotonic clock", wh=self.place(tr), msg="arrival times come from a clock that can be set back (%s)" % clk)
                    else:
                        self.ob("C24", None, "clock", "arrival time of a form not recognised: " + show(v)[:60], wh=self.place(tr))

    def assign_request(self, tr):
        ws, cs = self.waits(tr), self.curs(tr)
        if ws is None or cs is None:
            return self.ob("C03", None, "assign", "effect of assign_request not recognised")
        self.taking(tr, tr.val, ws, cs, "assign")

    def worker_finished(self, tr):
        ws, cs = self.waits(tr), self.curs(tr)
        if ws is None or cs is None:
            return self.ob("C03", None, "finished", "effect of worker_finished not recognised")
        self.taking(tr, tr.val, ws, cs, "finished")

    def worker_cancelled(self, tr):
        ws, cs = self.waits(tr), self.curs(tr)
        if ws is None or cs is None:
            return self.ob("C03", None, "cancelled", "effect of worker_cancelled not recognised")
        old = ("mg", self.cbase, W)
        self.ob("C03", same(tr.facts, tr.val, old) if tr.val != NULL else self.oldcur(tr, W) is False, "cancelled", "the cancelled job is handed back", msg="worker_cancelled does not hand back the worker's current job")
        self.ob("C03", cs == [(W, NULL)] or (None if any(opaque(v) for k, v in cs) else False), "cancelled-current", "and the worker is free", msg="worker_cancelled does not leave (only) the worker without a current job")
        self.ob("C03", all(d.empty() for k, d in ws), "cancelled-rest", "waiting jobs stay", msg="worker_cancelled changes the waiting jobs")

    def get_current_request(self, tr):
        ws, cs = self.waits(tr), self.curs(tr)
        self.ob("C03", None if ws is None or cs is None else not cs and all(d.empty() for k, d in ws), "current-pure", "looking changes nothing", msg="get_current_request moves jobs")
        old = ("mg", self.cbase, W)
        v = tr.val
        self.ob("C03", True if v == old or same(tr.facts, v, old) is True else (self.oldcur(tr, W) is False) if v == NULL else None if opaque(v) else False, "current", "the current job is reported", msg="get_current_request does not report the worker's current job")

    def get_queued_request_count(self, tr):
        ws, cs = self.waits(tr), self.curs(tr)
        self.ob("C03", None if ws is None or cs is None else not cs and all(d.empty() for k, d in ws), "count-pure", "counting changes nothing", msg="get_queued_request_count moves jobs")
        v = tr.val
        if not self.m.wait_per_worker:
            okk = same(tr.facts, v, size_of(self.wbase))
            self.ob("C03", True if okk else None if v[0] in ("sum",) or opaque(v) or self.number is not None else False, "count", "the number of waiting jobs is reported", msg="get_queued_request_count does not report the number of waiting jobs")
            return
        okk = None
        if v[0] == "sum":
            L = find_loop(tr.events, v[1])
            if L is not None and L.coll == self.wbase and L.sym is not None:
                want = size_of(("mg", self.wbase, ("ky", self.wbase, L.sym)))
                ent = size_of(("fld", ("at", self.wbase, L.sym), "second"))
                inc = dict(v[3])
                okk = all(b.exit == "next" and inc.get(b.pid, N(0)) in (want, ent) for b in L.bodies)
                if not okk:
                    okk = None if any(opaque(inc.get(b.pid, N(0))) for b in L.bodies) else all(b.exit == "next" and b.st.facts.q_eqi(inc.get(b.pid, N(0)), want) is True for b in L.bodies)
        elif v[0] == "n" or v[0] == "size" or v[0] == "lin":
            okk = False if tr.facts.q_eqi(size_of(self.wbase), N(0)) is not True else None
        self.ob("C03", okk, "count", "the number of waiting jobs is reported", msg="get_queued_request_count does not report the number of waiting jobs")

    def enqueue_request(self, tr):
        f = tr.facts
        ws, cs = self.waits(tr), self.curs(tr)
        if ws is None or cs is None:
            return self.ob("C03", None, "enqueue", "effect of enqueue_request not recognised")
        enq, w = fld(tr.val, "enqueued"), fld(tr.val, "assigned_to")
        if enq not in (TRUE, FALSE, N(0), N(1)):
            q = f.q(enq)
            if q is None:
                return self.ob("C03", None, "enqueue", "result of enqueue_request not recognised")
            enq = TRUE if q else FALSE
        took = enq in (TRUE, N(1))
        added = [(k, p, it) for k, d in ws for p, it in d.added]
        removed = [x for k, d in ws for x in d.removed]
        self.ob("C03", not removed and not any(d.all or d.filt for k, d in ws), "enqueue-rest", "other jobs stay", msg="enqueue_request drops a waiting job")
        put = [(k, v) for k, v in cs]
        badput = [(k, v) for k, v in put if same(f, v, R) is not True]
        self.ob("C03", not badput or (None if any(opaque(v) for k, v in badput) else False), "enqueue-current", "no other current job changes", msg="enqueue_request changes a current job to something other than the new job")
        n = len([1 for k, v in put if same(f, v, R) is True]) + len([1 for k, p, it in added if same(f, self.req(it), R) is True])
        strange = [it for k, p, it in added if same(f, self.req(it), R) is not True]
        self.ob("C03", not strange or (None if any(opaque(x) for x in strange) else False), "enqueue-added", "only the new job is added", msg="enqueue_request adds something other than the new job")
        if strange or badput:
            return
        if took:
            self.ob("C03", n == 1, "enqueue", "an accepted job is in exactly one place", msg="enqueue_request reports a job as accepted but keeps it in %d places" % n)
        else:
            self.ob("C03", n == 0, "enqueue", "a refused job is nowhere", msg="enqueue_request refuses a job but keeps it")
        asg = [k for k, v in put]
        if w == NULL or f.q(w) is False:
            self.ob("C06", not asg, "assigned", "an assignment is reported", msg="enqueue_request makes a job the current one of a worker without telling so")
        else:
            self.ob("C06", len(asg) == 1 and same(f, asg[0], w) if asg else (None if opaque(w) else False), "assigned", "the reported worker is the one that got the job", msg="enqueue_request reports an assignment to a worker that did not get the job")
        for k in asg:
            oc = self.oldcur(tr, k)
            self.ob("C06", not oc if oc is not None else (False if self.known(tr, k) else None), "idle", "a job is assigned only to an idle worker", msg="enqueue_request may give a job to a worker that already has one")
            self.suits(tr, k, "assigned to")
        # placement
        for k, p, it in added:
            self.ob("C24", p == "back", "append", "a new job queues up at the end", msg="a new job is put in front of those waiting")
            if self.m.wait_per_worker:
                self.suits(tr, k, "queued for")
                oc = self.oldcur(tr, k)
                self.ob("C26", oc if oc is not None else False, "busy", "a job is queued for a worker only if that one is busy", msg="a job may be queued for an idle worker")
            else:
                some = self.somebody(tr)
                self.ob("C04", some, "somebody", "a job is queued only if some worker satisfies it", msg="a job is queued although no registered worker was found to satisfy it")
                idle = self.search(tr, R, self.lists + [self.cbase], skip=lambda b, el: b.st.facts.q(("mg", self.cbase, el)) is True)
                self.ob("C26", idle, "no-idle", "a job is queued only if no idle worker satisfies it", msg="a job may be queued although an idle worker satisfies it")
        if not took:
            v = self.search(tr, R, self.lists + [self.cbase])
            self.ob("C04", v, "refused", "a job is refused only after no registered worker was found to satisfy it", msg="a job may be refused although a registered worker satisfies it")
        self.rotation(tr, asg + [k for k, p, it in added if k is not None], took)

    def suits(self, tr, k, what):
        v = self.ck(tr.facts, k, R)
        self.ob("C04", v if v is not None else (None if opaque(k) else False), "suits", "a job is %s a worker only if that one satisfies it" % what, msg="a job may be %s a worker that does not satisfy its headers" % what)
        self.ob("C04", self.known(tr, k), "registered", "and is registered", msg="a job may be %s a worker that is not registered" % what)

    def somebody(self, tr):
        h = ("fld", ("drf", R), "headers")
        for a, v in tr.facts.atoms.items():
            if a[0] == "nz" and v is True and a[1][0] == "ap" and a[1][1] == "check_headers" and a[1][3] == h:
                if self.known(tr, a[1][2]):
                    return True
        return None if any(e.kind == "ext" for e in tr.events) else False

    def rotation(self, tr, chosen, took):
        """C25: least recently chosen first; the chosen one becomes the most recently chosen"""
        if not self.m.wait_per_worker:
            return
        if len(self.m.workers) != 1:
            return self.ob("C25", None, "rotation", "no list of workers recognised")
        base = self.lists[0]
        f = tr.facts
        t = self.final(tr, self.m.workers[0])
        if not took:
            return self.ob("C25", True if t == base else None if opaque(t) else False, "refused", "a refused job leaves the order alone", msg="a refused job changes the order of the workers")
        if not chosen:
            return
        k = chosen[0]
        want = (("all", ("without", base, k)), ("one", k))
        okk = None
        if t == base:
            okk = False
        elif t[0] == "seq":
            ps = tuple(("one", at(p[1][1], p[1][2])) if p[0] == "all" and p[1][0] == "slice" and sub(p[1][3], p[1][2]) == N(1) else p for p in t[1])
            sl = [p[1] for p in ps if p[0] == "all" and p[1][0] == "slice" and p[1][1] == base]
            if ps == want:
                okk = True
            elif len(ps) == 3 and len(sl) == 2 and ps[2][0] == "one" and same(f, ps[2][1], k) is True and sl[0][2] == N(0) and sl[1][2] == add(sl[0][3], N(1)) and sl[1][3] == size_of(base):
                okk = True if same(f, at(base, sl[0][3]), k) is True else False
            elif len(ps) == len(sl) == 2 and sl[1][2] == N(0) and sl[0][2] == sl[1][3] and sl[0][3] == size_of(base):
                # the list is rotated: right only if the chosen one was the first
                okk = True if f.q_eqi(sl[1][3], N(1)) is True else False
            elif len(ps) == 2 and ps[0][0] == "all" and ps[1][0] == "one" and same(tr.facts, ps[1][1], k) is True:
                x = ps[0][1]
                okk = True if x[0] == "erase" and x[1] == base and same(tr.facts, at(base, x[2]), k) is True or x == ("without", base, ps[1][1]) else None
                if x == base:
                    okk = False
            elif ps[0][0] == "one" and same(tr.facts, ps[0][1], k) is True:
                okk = False  # stays / is put first
            elif ps[-1][0] == "one" and same(tr.facts, ps[-1][1], k) is False:
                okk = False
        elif t[0] in ("without", "erase"):
            okk = False
        if okk is None and k[0] == "at" and k[1] == base:
            # lists of up to three workers, each of them the chosen one
            for n in (1, 2, 3):
                for i in range(n):
                    env = {base: tuple(range(n))}
                    if k[2][0] != "n":
                        env[k[2]] = i
                    try:
                        if integer(k[2], env) == i and f.bounds(k[2])[0] <= i <= f.bounds(k[2])[1] and f.bounds(size_of(base))[0] <= n <= f.bounds(size_of(base))[1] and items(t, env) != tuple(x for x in range(n) if x != i) + (i,):
                            okk = False
                    except Open:
                        pass
        self.ob("C25", okk, "rotate", "the chosen worker becomes the most recently chosen one", msg="the chosen worker does not become the most recently chosen one with the order of the others unchanged")
        # choice: the first suitable in list order
        okk = None
        for e in tr.events:
            if e.kind != "loop":
                continue
            L = e.d["rec"]
            if L.sym is None or L.coll is None or not mentions(L.coll, base):
                continue
            if L.coll == base and e.d["exit"] is not None and same(tr.facts, at(base, L.sym), k) is True:
                el = at(base, L.sym)
                sk = all(self.ck(b.st.facts, el, R) is False for b in L.bodies if b.exit == "next")
                st = self.step(L)
                okk = True if sk and st == N(1) and (L.start in (None, N(0))) else False if (st is not None and st != N(1)) or self.starts_late(L) or (not sk and not any(opaque_facts(b) for b in L.bodies)) else None
                break
            if L.coll[0] == "rev":
                okk = False
            if L.coll == base and e.d["exit"] is None and okk is None:
                # found by going through all of them: the last suitable one
                if k[0] == "phi" and k[1] == L.inst or mentions(k, L.sym):
                    okk = False
        self.ob("C25", okk, "choice", "the least recently chosen suitable worker gets the job", msg="the job does not go to the least recently chosen worker that satisfies it")

    def worker_terminated(self, tr):
        f = tr.facts
        ws, cs = self.waits(tr), self.curs(tr)
        if ws is None or cs is None:
            return self.ob("C03", None, "terminated", "effect of worker_terminated not recognised")
        p = tr.val
        if p[0] != "ptr":
            return self.ob("C03", None, "terminated", "result of worker_terminated not recognised")
        ret = self.ctx_read(tr, (p[1], p[2]))
        parts = list(parts_of(ret))
        old = ("mg", self.cbase, W)
        n = sum(1 for q in parts if q[0] == "one" and same(f, q[1], old) is True)
        oth = [q for q in parts if not (q[0] == "one" and same(f, q[1], old) is True)]
        if self.hascur:
            self.ob("C03", n == 1 or (None if any(opaque(q[1]) for q in oth) else False), "terminated-current", "the job the worker was processing is handed back", msg="worker_terminated hands back the job the worker was processing %d times" % n)
        else:
            self.ob("C03", n == 0, "terminated-null", "no null job is handed back", msg="worker_terminated hands back a null job")
        bad = [q for q in oth if q[0] == "one"]
        if any(q[0] == "one" and q[1] == NULL for q in oth):
            self.ob("C03", False, "terminated-null", "no null job is handed back", msg="worker_terminated hands back a null job")
        drained = [(k, d) for k, d in ws if d.all]
        other = [(k, d) for k, d in ws if not d.all and not d.empty()]
        if self.m.wait_per_worker:
            for k, d in drained:
                if same(f, k, W) is not True:
                    self.ob("C03", False, "terminated", "only its own queue goes", msg="worker_terminated drops the queue of another worker")
                    return
            if other and any(same(f, k, W) is not True for k, d in other):
                return self.ob("C03", False, "terminated", "only its own queue goes", msg="worker_terminated changes the queue of another worker")
            if not drained:
                if f.q_eqi(size_of(("mg", self.wbase, W)), N(0)) is True:
                    return
                return self.ob("C03", None if other else False, "terminated", "its queue goes", msg="worker_terminated keeps the queue of the worker")
            q0 = ("mg", self.wbase, W)
            if f.q_eqi(size_of(q0), N(0)) is True:
                self.ob("C03", not oth, "terminated", "nothing waited", msg="worker_terminated hands back a job that was not waiting")
                return
            alls = [q[1] for q in oth if q[0] == "all"]
            okk = False
            for a in alls:
                r = self.covers(tr, a, q0)
                if r is True:
                    okk = True if okk is False else "twice"
                elif r is None:
                    okk = None if okk is False else okk
            if okk == "twice" or (len(alls) > 1 and okk is True):
                okk = False
            self.ob("C03", okk, "terminated", "all jobs queued for the worker are handed back, once each and in order", msg="worker_terminated does not hand back exactly the jobs queued for the worker")
            self.ob("C04", True, "terminated", "per-worker queues: jobs go back to the handler")
            return
        # shared queue: those nobody else satisfies
        if drained:
            return self.ob("C03", False, "terminated", "the queue stays", msg="worker_terminated drops all waiting jobs")
        if not other:
            # nothing left the queue: then nothing but the current job may be handed back and nothing unassignable may stay (not required)
            self.ob("C03", not oth or (None if any(opaque(q[1]) for q in oth) else False), "terminated", "jobs handed back leave the queue", msg="worker_terminated hands back waiting jobs but keeps them in the queue")
            if f.q_eqi(size_of(self.wbase), N(0)) is not True:
                looked = any(e.kind in ("loop", "ext", "effect") for e in tr.events)
                self.ob("C04", None if looked else False, "kept", "waiting jobs are looked through when a worker goes away", msg="waiting jobs that no remaining worker satisfies are kept waiting when a worker goes away")
            return
        for k, d in other:
            if d.added or d.removed or d.filt is None:
                self.ob("C03", None if not d.added and not d.removed else False, "terminated", "waiting jobs are only filtered", msg="worker_terminated changes the waiting jobs in another way than handing back those nobody can process")
                continue
            self.filtered(tr, d, oth)

    def ctx_read(self, tr, loc):
        I = self.m.I
        old, I.st = I.st, tr.st
        try:
            return I.read(loc)
        finally:
            I.st = old

    def covers(self, tr, a, q0):
        """is the sequence a exactly the elements of q0 in order?"""
        if a == q0:
            return True
        if a[0] == "acc":
            L = find_loop(tr.events, a[1])
            if L is None or L.coll != q0 or L.sym is None:
                return None
            for b in L.bodies:
                if b.exit != "next":
                    return False
                it = dict(a[3]).get(b.pid, ())
                if it != (("one", self.req(at(q0, L.sym))),):
                    return False if not any(opaque(x) for x in it) else None
            if hasattr(L, "drain"):
                left = size_of(L.cells[L.drain]["phi"])
                lo, hi = tr.facts.bounds(left)
                return True if hi <= 0 or tr.facts.q_lt(N(0), left) is False else False if lo > 0 or hi < float("inf") else None
            if L.sym[0] != "ix":
                return True if tr.facts.q_eqi(L.sym, size_of(q0)) is True and L.start == N(0) else None
            return True
        if a[0] == "slice" and a[1] == q0:
            return False
        return None if opaque(a) else False

    def filtered(self, tr, d, handed):
        """jobs filtered out of the shared queue are exactly those handed back, and nobody satisfies them"""
        inner, inst, kept = d.filt
        I = self.m.I
        F = I.loops.get(inst)
        if F is None:
            return self.ob("C03", None, "filter", "filter not recognised")
        # iteration of the marking loop each filter case belongs to
        if inner[0] == "emap":
            L = find_loop(tr.events, inner[2])
            if L is None:
                return self.ob("C03", None, "filter", "marking loop not recognised")
            keepers, droppers = set(), set()
            for b in F.bodies:
                src = b.st.facts.atoms.get(("from", inst, inner[2]))
                if src is None:
                    return self.ob("C03", None, "filter", "filter cases not recognised")
                (keepers if b.pid in kept else droppers).add(src)
            bodies = L.bodies
            for b in bodies:
                if b.exit != "next":
                    self.ob("C04", False, "filter", "all waiting jobs are looked at", msg="going through the waiting jobs of a dead worker may stop early: a job nobody can take any more keeps waiting")
                    return self.ob("C03", False, "filter", "all waiting jobs are looked at", msg="going through the waiting jobs of a dead worker may stop early")
        else:
            L, bodies = F, F.bodies
            keepers = {b.pid for b in bodies if b.pid in kept}
            droppers = {b.pid for b in bodies if b.pid not in kept}
        el = self.req(at(L.coll, L.sym))
        acc = [q[1] for q in handed if q[0] == "all"]
        ones = [q for q in handed if q[0] == "one"]
        per = {}
        for a in acc:
            if a[0] == "acc" and a[1] == L.inst:
                for pid, its in a[3]:
                    per.setdefault(pid, []).extend(its)
            elif a[0] == "filt" and a[2] == inst:
                for pid in a[3]:
                    per.setdefault(pid, []).append(("one", el))
            else:
                return self.ob("C03", None, "filter", "handed back jobs of a form not recognised")
        remaining = self.remaining(tr)
        for b in bodies:
            bt = Tr(b.events, b.st, b.exit, b.val, ((L, b),), tr.out)
            dd = describe(bt)
            its = per.get(b.pid, [])
            if inner[0] != "emap" and b.st.facts.q(el) is False:
                continue  # there are no null jobs in the queue
            k, dr = b.pid in keepers, b.pid in droppers
            if k and dr or not (k or dr):
                self.ob("C03", None, "filter", "filter cases ambiguous")
                continue
            if k:
                self.ob("C03", not its, "filter-kept", "a job kept in the queue is not handed back", d=dd, msg="worker_terminated hands back a waiting job but keeps it in the queue")
                self.ob("C04", self.still_wanted(b, el, remaining), "kept", "a waiting job is kept only if a remaining worker satisfies it", d=dd, msg="a waiting job may be kept although no remaining worker satisfies it")
            else:
                self.ob("C03", len(its) == 1 and its[0] == ("one", el) or (None if any(opaque(x[1]) for x in its) else False), "filter-dropped", "a job taken out of the queue is handed back once", d=dd, msg="worker_terminated takes a waiting job out of the queue without handing it back exactly once")
                v = self.search_in(b, el, remaining)
                self.ob("C04", v, "given-up", "a waiting job is given up only if no remaining worker satisfies it", d=dd, msg="a waiting job may be given up although a remaining worker satisfies it")

    def still_wanted(self, b, r, colls):
        """does the path know a remaining worker that satisfies r? True / False / None"""
        f = b.st.facts
        h = ("fld", ("drf", r), "headers")
        res, found = None, False
        for a, v in list(f.atoms.items()):
            if not (a[0] == "nz" and v is True and a[1][0] == "ap" and a[1][1] == "check_headers"):
                continue
            if a[1][3] != h and same(f, a[1][3], h) is not True:
                continue
            w = a[1][2]
            found = True
            c = w[1] if w[0] in ("at", "ky") else None
            if c is None:
                continue
            if c in colls and c not in self.lists + [self.cbase]:
                return True
            if f.q_eq(w, W) is False or c[0] == "without" and c[1] in self.lists + [self.cbase]:
                return True
            if c in self.lists or c == self.cbase:
                res = False
        if found:
            return res
        return None if any(e.kind == "ext" or e.kind == "loop" and (e.d["rec"].coll is None or e.d["rec"].sym is None) for e in b.events) else False

    def remaining(self, tr):
        out = []
        for fn_, b in zip(self.m.workers, self.lists):
            out.append(self.final(tr, fn_))
        out.append(self.final(tr, self.m.cur))
        return out

    def search_in(self, b, r, colls):
        unk = False
        for e in b.events:
            if e.kind == "ext":
                unk = True
            if e.kind != "loop" or e.d["exit"] is not None:
                continue
            L = e.d["rec"]
            if L.coll is None or L.sym is None:
                unk = True
                continue
            if L.coll not in colls:
                if L.coll in self.lists:
                    # the worker that goes is still among those searched: more jobs are kept, none given up wrongly
                    pass
                else:
                    unk = True
                    continue
            els = [("ky", L.coll, L.sym), at(L.coll, L.sym)]
            if L.coll[0] == "without":
                els.append(at(L.coll[1], L.sym))
            if L.coll[0] == "map":
                els.append(("ky", L.coll[1], L.sym))
            if all(any(self.ck(x.st.facts, el, r) is False for el in els) for x in L.bodies if x.exit == "next"):
                return True
        return None if unk else False

    def membership(self, tr):
        """the collections of workers stay in step"""
        op = self.op
        for fn_, base in zip(self.m.workers, self.lists):
            t = self.final(tr, fn_)
            if op == "add_worker":
                ones = [p for p in parts_of(t) if p[0] == "one"] if t[0] == "seq" else []
                okk = t[0] == "seq" and [p[1] for p in ones] == [W] and [p for p in t[1] if p[0] == "all"] == [("all", base)]
                self.ob("C04", True if okk else None if opaque(t) else False, "member-add", "a new worker is in the list of workers once", msg="add_worker does not put the worker into the list of workers exactly once")
                if self.m.wait_per_worker and okk:
                    self.ob("C25", t[1][0] == ("one", W), "new-first", "newly added workers come first", msg="a newly added worker does not come first in the rotation")
            elif op == "worker_terminated":
                okk = t == ("without", base, W)
                if not okk and t[0] == "erase" and t[1] == base and same(tr.facts, at(base, t[2]), W) is True:
                    okk = True
                self.ob("C04", True if okk else False if t == base else None, "member-remove", "a worker that is gone is in no list", msg="worker_terminated leaves the worker in the list of workers")
                if self.m.wait_per_worker:
                    self.ob("C25", True if okk else None, "remove-order", "the order of the others is unaffected")
            elif op != "enqueue_request":
                self.ob("C25" if self.m.wait_per_worker else "C04", True if t == base else None if opaque(t) or t[0] in ("perm",) else False, "member-same", "the list of workers stays", msg="%s changes the list of workers" % op)
            elif not self.m.wait_per_worker:
                self.ob("C04", True if t == base else None, "member-same", "the list of workers stays", msg="%s changes the list of workers" % op)
        for fn_ in self.m.wmaps:
            t = self.final(tr, fn_)
            base = ("sym", "M." + fn_)
            ent = dict(t[2]) if t[0] == "map" and t[1] == base else {} if t == base else None
            if ent is None:
                self.ob("C04", None, "member", "a table of workers of a form not recognised")
                continue
            if op == "add_worker":
                self.ob("C04", W in ent and ent[W] != DEL, "member-add", "a new worker is in every table", msg="add_worker does not enter the worker into a table of the manager")
            elif op == "worker_terminated":
                self.ob("C04", ent.get(W) == DEL, "member-remove", "a worker that is gone is in no table", msg="worker_terminated leaves the worker in a table of the manager")
            else:
                self.ob("C04", not any(v == DEL for v in ent.values()), "member-same", "workers stay in the tables", msg="%s removes a worker from a table" % op)


def opaque_facts(b):
    return any(e.kind in ("ext", "callop") for e in b.events)


def rule(pid):
    def r(ctx, rep):
        if not hasattr(ctx, "_mr"):
            ctx._mr = Mrules(ctx)
        mr = ctx._mr
        rep.count(**mr.counts)
        for p, cond, rl, what, wh, d, msg in mr.obs:
            if p == pid or p == "*":
                rep.expect(cond, rl, what, wh, d, msg=msg)

    r.__name__ = "manager_" + pid
    return r
