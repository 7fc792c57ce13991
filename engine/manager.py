"""Abstract runs of the queue managers: every operation from an arbitrary consistent state."""
from handler import Hooks, QIFACE
from interp import Interp, Limit, St
from ir import AnalysisBroken, strip_type, tmpl_args, tmpl_name
from terms import *

OBJ = ("h", "manager")
OPS = ("add_worker", "assign_request", "worker_terminated", "enqueue_request", "get_queued_request_count", "get_current_request", "worker_finished", "worker_cancelled")
W = ("sym", "w")
R = ("sym", "r")
C = ("sym", "c")
SEQ = ("std::vector", "std::list", "std::deque", "std::queue")
MAPS = ("std::map", "std::unordered_map")
SETS = ("std::set", "std::unordered_set")


class ManagerHooks(Hooks):
    def __init__(self, prog, cls):
        self.prog, self.cls = prog, cls

    def call_fn(self, I, fn, obj, args, e):
        cls = fn.get("cls", "")
        if cls == "worker" and fn["n"] in ("check_headers", "check_header"):
            p = obj[0][1] if obj[0][0] == "p" and not obj[1] else ("ptr", obj[0], obj[1])
            return ("V", ("ap", fn["n"], p, *[I.arg_value(a) for a in args]))
        return NotImplemented

    def nullable(self, I, p):
        return False

    def assured(self, I, base, key):
        """every worker listed anywhere has an entry in every table (the rules check that each operation keeps it so)"""
        if not any(self.of(base, m) for m in self.wmaps):
            return False
        if key[0] == "at":
            return any(contains(key[1], lambda t: self.of(t, x)) for x in self.workers)
        return key[0] == "ky" and any(self.of(key[1], m) for m in self.wmaps)

    def members(self, I, coll):
        return [W] if self.registered and any(coll == ("sym", "M." + x) for x in self.workers) else []

    def of(self, t, field):
        return t == ("sym", "M." + field) or (bool(t) and t[0] == "phi" and str(t[2]) == "h:manager." + field)


class Manager:
    def __init__(self, prog, cls, label):
        self.prog, self.cls, self.label = prog, cls, label
        self.hooks = ManagerHooks(prog, cls)
        self.hooks.wmaps, self.hooks.workers, self.hooks.registered = [], [], False
        self.I = Interp(prog, self.hooks)
        r = prog.rec(cls) or prog.rec_by_q(cls)
        if r is None:
            raise AnalysisBroken("class %s not found" % cls)
        self.rec = r
        self.cur = self.wait = None
        self.wait_per_worker = False
        self.workers = []  # fields listing workers
        self.wmaps = []  # maps keyed by workers
        self.entry = None
        for fd in r["fields"]:
            self.classify(fd)
        self.hooks.wmaps, self.hooks.workers = self.wmaps, self.workers
        self._runs = {}

    def is_w(self, t):
        return tmpl_name(t) == "std::shared_ptr" and strip_type(tmpl_args(t)[0]) == "worker"

    def is_r(self, t):
        return tmpl_name(t) == "std::shared_ptr" and strip_type(tmpl_args(t)[0]) == "request"

    def req_field(self, t):
        """'' if t is a request pointer, the member's name if t is a struct with one"""
        if self.is_r(t):
            return ""
        rr = self.prog.rec(t) or self.prog.rec_by_q(strip_type(t))
        if rr:
            fs = [f["n"] for f in rr["fields"] if self.is_r(f["ty"])]
            if len(fs) == 1:
                return fs[0]
        return None

    def classify(self, fd):
        t = fd["ty"]
        n, a = tmpl_name(t), tmpl_args(t)
        if n in MAPS and a and self.is_w(a[0]):
            self.wmaps.append(fd["n"])
            if self.is_r(a[1]):
                self.cur = fd["n"]
            elif tmpl_name(a[1]) in SEQ and tmpl_args(a[1]) and self.req_field(tmpl_args(a[1])[0]) is not None:
                self.wait, self.wait_per_worker = fd["n"], True
                self.entry = self.req_field(tmpl_args(a[1])[0])
        elif n in SEQ and a:
            if self.is_w(a[0]):
                self.workers.append(fd["n"])
            elif self.req_field(a[0]) is not None:
                self.wait = fd["n"]
                self.entry = self.req_field(a[0])

    def base(self):
        I = self.I
        st = St()
        r = self.rec
        ctor = None
        obj = rec(r["q"], {})
        for fd in r["fields"]:
            s = ("sym", "M." + fd["n"])
            if tmpl_name(fd["ty"]) in ("std::unique_ptr", "std::shared_ptr"):
                st.facts.assume(s, True)
            obj = rec_set(obj, fd["n"], s)
        st.store[OBJ] = obj
        for s in (W, R):
            st.facts.assume(s, True)
        return st

    def fn(self, op):
        for q in (self.cls + "::" + op,):
            fns = [f for f in self.prog.by_q.get(q, []) if f.get("body") is not None]
            if fns:
                return fns[0]
        for m in self.rec["methods"]:
            if m["fn"]["n"] == op and m["fn"]["usr"] in self.prog.fns:
                f = self.prog.fns[m["fn"]["usr"]]
                if f.get("body") is not None:
                    return f
        return None

    def run(self, op, registered=True, cur=None):
        """cur: None (any) / True / False: whether w has a current job; for add_worker: whether c is given"""
        key = (op, registered, cur)
        if key in self._runs:
            r = self._runs[key]
        else:
            try:
                r = self._run(op, registered, cur)
            except Limit as l:
                r = l
            except RecursionError:
                r = Limit("recursion")
            self._runs[key] = r
        if isinstance(r, Limit):
            raise r
        return r

    def _run(self, op, registered, cur):
        I = self.I
        f = self.fn(op)
        if f is None:
            raise AnalysisBroken("%s::%s not found" % (self.cls, op))
        st = self.base()
        self.hooks.registered = bool(registered) and op not in ("add_worker", "enqueue_request", "get_queued_request_count")
        for m in self.wmaps:
            st.facts.set_atom(("nz", ("has", ("sym", "M." + m), W)), bool(registered) and op != "add_worker")
        if cur is not None and self.cur and op != "add_worker":
            st.facts.assume(("mg", ("sym", "M." + self.cur), W), cur)
        if op == "add_worker":
            if cur is True:
                st.facts.assume(C, True)
            args = [W, NULL if cur is False else C]
        elif op == "enqueue_request":
            args = [R]
        elif op == "get_queued_request_count":
            args = []
        else:
            args = [W]

        def go():
            return I.arg_value(I.inline(f, (OBJ, ()), [("L", I.tmp(a)) for a in args]))

        return I.run(go, st)


def managers(prog):
    out = []
    for cls in list(prog.recs):
        pass
    return [Manager(prog, "multi_queue_manager", "per-worker queues"), Manager(prog, single_cls(prog), "shared queue")]


def single_cls(prog):
    for k, r in prog.recs.items():
        if k.startswith("single_queue_manager<") or (r["q"] == "single_queue_manager" and "<" in r.get("ty", "")):
            return k
    for k in prog.recs:
        if "single_queue_manager" in k:
            return k
    raise AnalysisBroken("single_queue_manager not instantiated")
