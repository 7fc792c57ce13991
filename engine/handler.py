"""Abstract runs of broker_handler: one per kind of incoming message, over the contracts of the queue manager."""
from interp import CrashEx, Event, Interp, Limit, St, ThrowEx
from ir import AnalysisBroken, strip_type, tmpl_args, tmpl_name
from terms import *

QIFACE = "queue_manager_interface"
CUR = ("ghost", "cur")
TERM = ("ghost", "terminated")
RESPOND = ("sym", "respond")


class Hooks:
    """defaults: decline everything"""

    def call(self, I, e):
        return NotImplemented

    def ctor(self, I, l, e):
        return NotImplemented

    def call_fn(self, I, fn, obj, args, e):
        return NotImplemented

    def invoke(self, I, f, args, e):
        return NotImplemented

    def nullable(self, I, p):
        return False

    def members(self, I, coll):
        """terms known to be elements of a collection"""
        return []

    def assured(self, I, base, key):
        """an entry that exists by an invariant of the program checked elsewhere"""
        return False

    def ext_method(self, I, e, l, args):
        return NotImplemented

    def ext_fn(self, I, e, args):
        return NotImplemented

    def make_shared(self, I, ty, vals, e):
        return NotImplemented

    def merge_if(self, I, s):
        return False

    def log_method(self, I, n, vals):
        pass

    def on_construct(self, I, cls, l, args):
        pass


# the strings the program uses as keys of the peers (constants of broker_connect)
KEYS = {}


def read_keys(I):
    for k in ("workers", "clients", "monitor", "status_notifier", "timer"):
        v = I.global_value("broker_connect::KEY_" + k.upper())
        KEYS[k] = v[1] if v[0] == "str" else k


class HandlerHooks(Hooks):
    # the handler's state belongs to the main loop's thread (C20)
    atomics_plain = True

    def __init__(self, prog):
        self.prog = prog
        self.timers = None
        self.qmethods = set()
        r = prog.rec_by_q(QIFACE)
        if r is None:
            raise AnalysisBroken("class %s not found" % QIFACE)
        for m in r["methods"]:
            if m["fn"]["kind"] == "method":
                self.qmethods.add(m["fn"]["n"])

    def call_fn(self, I, fn, obj, args, e):
        cls = fn.get("cls", "")
        n = fn["n"]
        if cls == QIFACE and n in self.qmethods:
            return self.queue(I, n, [I.arg_value(a) for a in args], fn)
        if cls == "broker_config" and not args:
            return ("V", ("ap", "cfg", ("str", n)))
        if cls == "worker" and n == "get_description":
            return ("V", ("ap", "description", self.ptr_of(obj)))
        if cls == "worker" and n in ("check_headers", "check_header"):
            return ("V", ("ap", n, self.ptr_of(obj), *[I.arg_value(a) for a in args]))
        if cls.startswith("spdlog::"):
            return ("V", VOID)
        return NotImplemented

    def on_construct(self, I, cls, l, args):
        if cls in ("worker", "request"):
            I.event("new", cls=cls, obj=("ptr", l[0], l[1]), args=tuple(I.arg_value(a) for a in args))

    def assured(self, I, base, key):
        # every registered worker is in the liveness bookkeeping (Handler checks that registration sees to it)
        if self.timers is None or not (base == ("sym", "H." + self.timers) or (base[0] == "phi" and base[2] == "h:handler." + self.timers)):
            return False
        if key[0] != "at":
            return False
        return contains(key[1], lambda t: t == ("sym", "workers") or (t and t[0] == "phi" and str(t[2]).startswith("*workers.")))

    def ptr_of(self, obj):
        if obj[0][0] == "p" and not obj[1]:
            return obj[0][1]
        return ("ptr", obj[0], obj[1])

    def nullable(self, I, p):
        return p[0] == "mg" and (contains(p[1], lambda x: x == ("sym", "cur0")) or (p[1][0] == "phi" and "ghost:cur" in str(p[1][2])))

    def invoke(self, I, f, args, e):
        if f == RESPOND:
            m = I.arg_value(args[0])
            I.event("respond", msg=m)
            return ("V", VOID)
        return NotImplemented

    # ---- the contract of the queue manager
    def cur(self, I):
        return I.st.store.get(CUR, ("map", ("sym", "cur0"), (), False))

    def queue(self, I, n, a, fn):
        cur = self.cur(I)

        def setcur(w, r):
            I.st.store[CUR] = I.map_set(self.cur(I), w, r)

        def maybe_request(w):
            if I.choose(2) == 0:
                r = I.newsym("R")
                I.st.facts.assume(r, True)
                setcur(w, r)
                return r
            return NULL

        if n == "get_current_request":
            r = I.map_get(cur, a[0])
            I.event("q", op="current", w=a[0], ret=r)
            return ("V", r)
        if n == "get_queued_request_count":
            r = I.newsym("queued")
            I.st.facts.tighten(r, 0, INF)
            I.event("q", op="count", ret=r)
            return ("V", r)
        if n == "enqueue_request":
            k = I.choose(3)
            w, enq = NULL, TRUE
            if k == 0:
                w = I.newsym("W")
                I.st.facts.assume(w, True)
                setcur(w, a[0])
            elif k == 2:
                enq = FALSE
            I.event("q", op="enqueue", r=a[0], w=w, how=("assigned", "queued", "refused")[k])
            return ("V", rec("enqueue_result", {"assigned_to": w, "enqueued": enq}))
        if n in ("assign_request", "worker_finished"):
            was = I.map_get(cur, a[0])
            if n == "worker_finished":
                setcur(a[0], NULL)
            r = maybe_request(a[0])
            I.event("q", op="assign" if n[0] == "a" else "finished", w=a[0], ret=r, was=was)
            return ("V", r)
        if n == "worker_cancelled":
            r = I.map_get(cur, a[0])
            setcur(a[0], NULL)
            I.event("q", op="cancelled", w=a[0], ret=r)
            return ("V", r)
        if n == "add_worker":
            c = a[1] if len(a) > 1 else NULL
            if c != NULL:
                setcur(a[0], c)
                r = NULL
            else:
                setcur(a[0], NULL)
                r = maybe_request(a[0])
            I.event("q", op="add", w=a[0], cur=c, ret=r)
            return ("V", r)
        if n == "worker_terminated":
            h = I.alloc(I.newsym("handed"))
            was = I.map_get(cur, a[0])
            setcur(a[0], NULL)
            I.event("q", op="terminated", w=a[0], ret=I.st.store[h], was=was)
            return ("V", ("ptr", h, ()))
        I.event("q", op="?" + n, args=tuple(a))
        if fn["rt"] == "void":
            return ("V", VOID)
        return ("V", I.newsym("q." + n))


COMMANDS = {
    "clients": ["eval", "get-runtime-stats", "freeze", "unfreeze"],
    "workers": ["init", "done", "ping", "progress"],
}


def shape(ty):
    """a map type without its default arguments"""
    return (tmpl_name(ty),) + tuple((strip_type(a), tmpl_name(a))[bool(tmpl_args(a))] for a in (tmpl_args(ty) or [])[:2])


class Handler:
    """the handler object after its constructor, with everything mutable generalised"""

    def __init__(self, prog, assured=True):
        self.prog = prog
        self.hooks = HandlerHooks(prog)
        self.I = Interp(prog, self.hooks)
        I = self.I
        r = prog.rec_by_q("broker_handler")
        ctors = [m["fn"] for m in r["methods"] if m["fn"]["kind"] == "ctor" and not m["fn"].get("cm") and m["fn"]["usr"] in prog.fns]
        on = [f for f in prog.by_q.get("broker_handler::on_request", [])]
        if not r or not ctors or not on:
            raise AnalysisBroken("broker_handler: constructor or on_request not found")
        self.on_request = on[0]
        self.rec = r
        ctor = max(ctors, key=lambda f: len(f["pm"]))

        def build():
            read_keys(I)
            args = []
            for i, t in enumerate(ctor["pt"]):
                s = self.role(t) or ("sym", "arg%d" % i)
                if s != ("sym", "logger"):
                    I.st.facts.assume(s, True)
                args.append(("L", I.tmp(s)))
            h = ("h", "handler")
            I.st.store[h] = VOID
            I.construct_repo((h, ()), ctor, args, r["ty"])
            return h

        outs = I.run(build)
        self.ctor_outs = outs
        good = [o for o in outs if o.exit == "next"]
        if not good:
            raise AnalysisBroken("broker_handler: constructor does not complete")
        st = good[0].st
        self.initial = st.store[("h", "handler")]
        self.base = St()
        obj = self.initial
        for fd in r["fields"]:
            n, ty = fd["n"], fd["ty"]
            role = self.role(ty)
            if role is not None:
                obj = rec_set(obj, n, role)
                self.base.facts.assume(role, True)
            elif ty.startswith("const ") or "command_holder" in ty:
                continue
            elif self.keeps(fld(obj, n)):
                continue
            else:
                obj = rec_set(obj, n, ("sym", "H." + n))
            init = fld(self.initial, n)
            if init[0] == "map" and init[1] == ("empty",) and init[2] and fld(obj, n) == ("sym", "H." + n) and not self.shrinks(ty):
                # entries made by the constructor stay
                for k, v in init[2]:
                    if is_const(k):
                        self.base.facts.set_atom(("nz", ("has", ("sym", "H." + n), k)), True)
        self.base.store[("h", "handler")] = obj
        self.base.store[CUR] = ("map", ("sym", "cur0"), (), False)
        self.base.facts.assume(RESPOND, True)
        if assured and not self.keep_timers():
            self.__init__(prog, False)

    def keep_timers(self):
        """the map of durations by worker, if registering a worker always puts it there"""
        for fd in self.rec["fields"]:
            if tmpl_name(fd["ty"]) not in ("std::map", "std::unordered_map"):
                continue
            a = tmpl_args(fd["ty"])
            if len(a) < 2 or "worker" not in a[0] or "duration" not in a[1]:
                continue
            self.hooks.timers = fd["n"]
            ok = False
            try:
                I = self.I
                for o in self.run("workers", "init"):
                    if o.exit not in ("next", "return"):
                        continue
                    for e in o.st.events:
                        if e.kind == "q" and e.d["op"] == "add":
                            old, I.st = I.st, o.st
                            try:
                                m = I.as_map(I.read((("h", "handler"), (("f", fd["n"]),))))
                                ok = I.map_find(m, e.d["w"])[0] == "entry"
                            finally:
                                I.st = old
                            if not ok:
                                return False
            except Limit:
                ok = False
            return ok
        return True

    def shrinks(self, ty):
        """does the program ever take entries out of (or replace) a map of this type?"""
        if not hasattr(self, "_shrunk"):
            self._shrunk = set()

            def walk(n):
                if isinstance(n, dict):
                    fn = n.get("fn")
                    if isinstance(fn, dict) and not fn.get("repo") and fn.get("n") in ("erase", "clear", "swap", "extract", "merge", "operator="):
                        self._shrunk.add(shape(fn["q"].rsplit("::", 1)[0]))
                    for v in n.values():
                        walk(v)
                elif isinstance(n, list):
                    for v in n:
                        walk(v)

            for f in self.prog.fns.values():
                walk(f)
        return shape(ty) in self._shrunk

    def keeps(self, v):
        """tables of callbacks are set up once"""
        return contains(v, lambda x: x and x[0] in ("clo", "fnp"))

    def role(self, ty):
        a = tmpl_args(ty)
        if tmpl_name(ty) in ("std::shared_ptr", "std::unique_ptr", "std::reference_wrapper") and a:
            t = strip_type(a[0])
            return {
                "broker_config": ("sym", "config"),
                "worker_registry": ("sym", "workers"),
                QIFACE: ("sym", "queue"),
                "spdlog::logger": ("sym", "logger"),
            }.get(t)
        return None

    def message(self, key, command=None, others=(), empty=False):
        """an incoming message; command None = any first frame other than those listed"""
        I = self.I
        data = ("sym", "data")
        ident = ("sym", "sender")
        if isinstance(key, str):
            key = S(key)
        return rec("message_container", {"key": key, "identity": ident, "data": data})

    def run(self, key, command=None, exclude=(), nonempty=None, numeric=False):
        """all trace partitions of on_request for a message of the given kind"""
        I = self.I
        st = self.base.copy()
        data = ("sym", "data")
        if nonempty is True:
            st.facts.tighten(size_of(data), 1, INF)
        if nonempty is False:
            st.facts.tighten(size_of(data), 0, 0)
        if numeric:
            st.facts.set_atom(("nz", ("numeric", at(data, N(0)))), True)
        if command is not None:
            st.facts.set_eq(at(data, N(0)), S(command), True)
        for x in exclude:
            st.facts.set_eq(at(data, N(0)), S(x), False)
        if key is None:
            k = ("sym", "key")
            for x in ("clients", "workers", "timer"):
                st.facts.set_eq(k, S(KEYS.get(x, x)), False)
        else:
            k = S(KEYS.get(key, key))
        msg = rec("message_container", {"key": k, "identity": ("sym", "sender"), "data": data})

        def go():
            m = (("h", "msg"), ())
            I.st.store[m[0]] = msg
            return I.inline(self.on_request, (("h", "handler"), ()), [("L", m), ("L", I.tmp(RESPOND))])

        return I.run(go, st)


def dump(outs, ev=True):
    for i, o in enumerate(outs):
        print("--- path %d: %s %s" % (i, o.exit, o.val if o.exit in ("throw", "crash") else ""))
        if ev:
            for e in o.st.events:
                show_event(e, 1)


def show_event(e, ind):
    if e.kind in ("maybe-null", "touch", "ext"):
        return
    print("  " * ind + repr(e)[:400])
    if e.kind == "loop":
        L = e.d["rec"]
        print("  " * ind + "  over", show(L.coll) if L.coll else None, "sym", L.sym and show(L.sym), "exit", e.d["exit"])
        for b in L.bodies:
            print("  " * ind + "  body", b.pid, b.exit, {show(k[1]) if isinstance(k[1], tuple) else k: v for k, v in b.facts.items()})
            for x in b.events:
                show_event(x, ind + 2)
        for lb, c in L.cells.items():
            print("  " * ind + "  cell", lb, {p: (v[0],) + tuple(show(x) for x in v[1:]) for p, v in c["per"].items()})


if __name__ == "__main__":
    import pickle
    import sys
    import time

    from ir import Program

    if len(sys.argv) > 1 and sys.argv[1] == "-r":
        p = Program().load()
        pickle.dump(p, open("/tmp/prog.pkl", "wb"))
        sys.argv.pop(1)
    p = pickle.load(open("/tmp/prog.pkl", "rb"))
    H = Handler(p)
    print("ctor", len(H.ctor_outs), show(H.base.store[("h", "handler")])[:1500])
    key = sys.argv[1]
    cmd = sys.argv[2] if len(sys.argv) > 2 else None
    t = time.time()
    outs = H.run(key, cmd, nonempty=True)
    dump(outs)
    print(len(outs), "partitions", time.time() - t, "s")
