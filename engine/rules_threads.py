"""C20: broker state is confined to the thread of the main loop, which never blocks outside polling.

A context-sensitive walk of the call graph from each thread's entry points, with a simple ownership analysis: a context is
(function, is *this shared?, which parameters refer to shared objects?, class of the wrapper running a handler)."""
from base import *
from interp import Limit
from ir import AnalysisBroken, strip_type, tmpl_args, tmpl_name
from rules_net import RC, Rx, H, O, THIS, deep, loop_runs, uniq_loops, where
from rules_wiring import ADD, BCC, CFG, CTX, LOG, QUE, REG, WireHooks, heap
from rules_worker import run
from terms import *
from unit import Unit

# calls that wait for something or somebody
BLOCKING = {
    "curl_easy_perform", "curl_multi_wait", "curl_multi_poll", "curl_multi_perform", "std::this_thread::sleep_for",
    "std::this_thread::sleep_until", "sleep", "usleep", "nanosleep", "clock_nanosleep", "system", "std::system", "popen",
    "pclose", "wait", "waitpid", "pause", "select", "poll", "ppoll", "epoll_wait", "accept", "connect", "getaddrinfo",
    "gethostbyname", "pthread_join", "pthread_cond_wait", "pthread_cond_timedwait", "sem_wait", "std::thread::join",
    "std::condition_variable::wait", "std::condition_variable::wait_for", "std::condition_variable::wait_until",
    "std::future::get", "std::future::wait", "std::future::wait_for", "std::future::wait_until",
    "std::shared_future::get", "std::shared_future::wait", "std::__basic_future::wait", "std::__basic_future::wait_for",
    "std::__basic_future::wait_until", "getchar", "fgets", "scanf",
}
SAFE_TYPES = (
    "std::atomic", "std::mutex", "std::recursive_mutex", "std::timed_mutex", "std::shared_mutex",
    "std::condition_variable", "zmq::context_t", "std::atomic_flag", "std::once_flag",
)
LOCKS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")
READERS = {
    "begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "at", "size", "empty", "count", "equal_range",
    "lower_bound", "upper_bound", "front", "back", "c_str", "data", "get", "load", "operator->", "operator*", "length",
    "substr", "compare", "contains",
}
PURE_FNS = {"std::begin", "std::end", "std::next", "std::prev", "std::cbegin", "std::cend", "std::distance", "std::find", "std::find_if", "std::any_of", "std::all_of", "std::none_of", "std::count_if", "std::get", "std::ref", "std::cref"}
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="}


def refers(ty):
    """can a value of this type refer to an object it does not own alone?"""
    t = (ty or "").strip()
    if t.endswith(("&", "*")):
        return True
    n = tmpl_name(t)
    if n in ("std::pair", "std::tuple", "std::vector", "std::list", "std::deque", "std::map", "std::multimap", "std::unordered_map", "std::set", "std::optional", "std::array"):
        return any(refers(a) for a in tmpl_args(t))
    return n in ("std::shared_ptr", "std::weak_ptr", "std::reference_wrapper", "std::function", "std::unique_ptr") or "iterator" in n or "_Iter" in n


def plain_q(fn):
    """qualified name without template arguments"""
    q = fn["q"]
    out, d = "", 0
    for i, ch in enumerate(q):
        if ch == "<" and not q[:i].endswith("operator"):
            d += 1
        elif ch == ">" and d:
            d -= 1
        elif d == 0:
            out += ch
    return out.replace("__cxx11::", "")


class Walk:
    def __init__(self, prog, handlers_of, wrappers):
        self.prog = prog
        self.handlers_of = handlers_of  # wrapper class -> classes of handlers it runs
        self.wrappers = wrappers
        self.seen = {}
        self.todo = []
        self.acc = {}  # (cls, field) -> {"r": [...], "w": [...]}
        self.blocking = []  # (qualified name, where, chain)
        self.threads = []  # (function or lambda, shared captures, where)
        self.functions = set()
        self.calls = 0
        self.unknown_calls = 0

    # ---- work list
    def add(self, f, this_sh, par_sh, dyn, chain, guarded=False):
        if f is None or f.get("body") is None:
            return
        k = (f["fn"]["usr"], this_sh, par_sh, dyn, guarded)
        if k in self.seen:
            return
        self.seen[k] = True
        self.todo.append((f, this_sh, par_sh, dyn, chain, guarded))

    def go(self):
        while self.todo:
            f, this_sh, par_sh, dyn, chain, guarded = self.todo.pop()
            self.functions.add(f["fn"]["q"])
            env = {p["id"]: (i in par_sh) and refers(p["ty"]) for i, p in enumerate(f["params"])}
            c = Cx(self, f["file"], this_sh, env, dyn, chain + (f["fn"]["q"],), guarded)
            if f["fn"]["kind"] == "ctor":
                for i in f.get("inits") or []:
                    c.ev(i.get("e"))
            c.ev(f["body"])
        return self


class Cx:
    def __init__(self, W, file, this_sh, env, dyn, chain, guarded):
        self.W, self.file, self.this_sh, self.env, self.dyn, self.chain, self.guarded = W, file, this_sh, env, dyn, chain, guarded

    def where(self, n):
        return "src/%s:%s" % (self.file, n.get("L", "?"))

    def record(self, cls, f, rw, n, ty):
        if cls.startswith("std::"):
            return
        r = self.W.prog.rec_by_q(cls)
        decl = next((fd["ty"] for fd in (r or {"fields": []})["fields"] if fd["n"] == f), ty or "")
        if tmpl_name(decl) in SAFE_TYPES or any(strip_type(decl).startswith(s) for s in SAFE_TYPES):
            return
        if decl.startswith("const ") and not decl.rstrip().endswith(("&", "*")):
            return
        a = self.W.acc.setdefault((cls, f), {"r": [], "w": []})
        if len(a[rw]) < 6:
            a[rw].append((self.where(n), self.chain, self.guarded))

    # ---- expressions: returns whether the value refers to a shared object
    def ev(self, n, mode="r"):
        if n is None:
            return False
        if isinstance(n, list):
            for x in n:
                self.ev(x)
            return False
        if not isinstance(n, dict):
            return False
        m = getattr(self, "k_" + str(n.get("k")), None)
        if m is not None:
            return m(n, mode)
        for v in n.values():
            if isinstance(v, (dict, list)):
                self.ev(v)
        return False

    def k_this(self, n, mode):
        return self.this_sh

    def k_ref(self, n, mode):
        if n.get("sl") or n.get("g"):
            q = n.get("q") or (n["g"] if isinstance(n.get("g"), str) else None) or n["n"]
            ty = n.get("ty") or ""
            v = self.W.prog.vars.get(q)
            if ty.startswith("const ") or (v is not None and (v.get("const") or v["ty"].startswith("const "))):
                return False
            if v is not None or n.get("sl"):
                if not any(strip_type(ty).startswith(s) for s in SAFE_TYPES):
                    self.record("static", n["id"] if n.get("sl") else q, mode, n, ty)
                return True
            return False
        return self.env.get(n["id"], False)

    def k_mem(self, n, mode):
        b = n["base"]
        # a.b.c = x modifies a.b as well, p->c = x does not modify p
        base_sh = self.ev(b, "r" if n.get("arrow") or (b.get("k") == "mem" and b.get("isref")) else "r")
        if base_sh:
            self.record(n["cls"], n["f"], mode, n, n.get("ty"))
        return base_sh

    def k_un(self, n, mode):
        if n["op"] in ("++", "--"):
            return self.ev(n["e"], "w")
        return self.ev(n["e"], mode if n["op"] in ("*", "&") else "r") and n["op"] in ("*", "&")

    def k_bin(self, n, mode):
        if n["op"] in ASSIGN:
            s = self.ev(n["r"])
            if n["l"].get("k") == "ref" and not n["l"].get("g") and s and refers(n["l"].get("ty")):
                self.env[n["l"]["id"]] = True
            return self.ev(n["l"], "w")
        a = self.ev(n["l"])
        b = self.ev(n["r"])
        return n["op"] == "," and b

    def k_cast(self, n, mode):
        return self.ev(n["e"], mode)

    def k_cond(self, n, mode):
        self.ev(n["c"])
        a, b = self.ev(n["t"], mode), self.ev(n["f"], mode)
        return a or b

    def k_for(self, n, mode):
        self.ev(n.get("init"))
        for _ in range(2):
            self.ev(n.get("c"))
            self.ev(n.get("b"))
            self.ev(n.get("inc"))
        return False

    k_while = k_do = k_for

    def k_switch(self, n, mode):
        self.ev(n.get("c"))
        self.ev(n.get("b"))
        return False

    def k_decl(self, n, mode):
        for v in n["vars"]:
            i = v.get("init") or v.get("e")
            ty = v.get("ty") or ""
            w = "r"
            if ty.rstrip().endswith("&") and not ty.startswith("const ") and tmpl_name(ty) and self.scalar(ty):
                w = "r"
            if any(tmpl_name(ty) == x for x in LOCKS):
                self.guarded = True
            s = self.ev(i, w) if i is not None else False
            if "id" in v:
                self.env[v["id"]] = bool(s) and refers(ty)
            for x in v.get("bindings") or []:
                self.env[x["id"]] = bool(s)
        return False

    def scalar(self, ty):
        return False

    def k_rangefor(self, n, mode):
        s = self.ev(n["range"])
        v = n["var"]
        self.env[v["id"]] = bool(s) and refers(v.get("ty"))
        for x in v.get("bindings") or []:
            self.env[x["id"]] = bool(s)
        self.ev(n["b"])
        self.ev(n["b"])
        return False

    def k_lambda(self, n, mode, threaded=False):
        env = dict(self.env)
        this_sh = self.this_sh
        for p in n.get("params") or []:
            env[p["id"]] = False
        for c in n.get("caps") or []:
            if c.get("init") is not None:
                s = self.ev(c["init"])
                if c.get("id"):
                    env[c["id"]] = s
        if threaded:
            # what a new thread captures by reference is shared with the thread that started it
            self.W.threads.append((n, this_sh or any(c.get("this") for c in n.get("caps") or []), env, self.dyn, self.where(n), self.file))
            return True
        c = Cx(self.W, n.get("file", self.file), this_sh, env, self.dyn, self.chain + ("lambda at %s" % self.where(n),), self.guarded)
        c.ev(n["body"])
        return any(c.get("this") for c in n.get("caps") or []) and this_sh

    def k_new(self, n, mode):
        self.ev(n.get("init"))
        return False

    def k_ctor(self, n, mode):
        fn = n["fn"]
        cls = fn.get("cls", "")
        if cls in ("std::thread", "std::jthread"):
            self.spawn(n)
            return False
        if any(cls == x for x in LOCKS):
            self.guarded = True
        sh = [self.arg(a, fn, i) for i, a in enumerate(n["args"])]
        f = self.W.prog.fns.get(fn.get("usr"))
        if f is not None:
            self.W.add(f, False, frozenset(i for i, s in enumerate(sh) if s), self.dyn, self.chain, self.guarded)
        return any(sh) and refers(n.get("ty") or cls)

    def spawn(self, n):
        args = n["args"]
        if not args:
            return
        a = args[0]
        while isinstance(a, dict) and a.get("k") in ("cast", "paren", "un") and a.get("e"):
            a = a["e"]
        if a.get("k") == "ctor" and len(a.get("args") or []) == 1 and a["args"][0].get("k") == "lambda":
            a = a["args"][0]
        if a.get("k") == "lambda":
            self.k_lambda(a, "r", threaded=True)
        elif a.get("k") == "fnref":
            sh = [self.ev(x) or x.get("k") == "this" for x in args[1:]]
            f = self.W.prog.fns.get(a["fn"].get("usr"))
            self.W.threads.append((f, bool(sh and sh[0]), sh, self.dyn, self.where(n), self.file))
        else:
            for x in args:
                self.ev(x)
            self.W.threads.append((None, False, None, None, self.where(n), self.file))

    def arg(self, a, fn, i):
        pt = fn.get("pt") or []
        t = pt[i] if i < len(pt) else ""
        nonconst = t.rstrip().endswith("&") and not t.rstrip().endswith("&&") and not t.startswith("const ")
        ext = fn.get("usr") not in self.W.prog.fns
        mode = "w" if nonconst and ext and plain_q(fn) not in PURE_FNS and not any(s in t for s in SAFE_TYPES) else "r"
        return self.ev(a, mode)

    def k_call(self, n, mode):
        fn = n.get("fn")
        W = self.W
        W.calls += 1
        if fn is None:
            self.ev(n.get("callee"))
            self.ev(n.get("obj"))
            self.ev(n.get("args"))
            return False
        q = plain_q(fn)
        name = fn["n"]
        cls = fn.get("cls", "")
        if q in ("std::async", "pthread_create"):
            self.spawn({**n, "args": [a for a in n["args"] if "launch" not in (a.get("ty") or "") and a.get("k") != "enum"]})
            return False
        if name == "lock" and "mutex" in cls:
            self.guarded = True
        if q in BLOCKING or (cls + "::" + name) in BLOCKING:
            W.blocking.append((q, self.where(n), self.chain))
        obj_sh = False
        usr = fn.get("usr")
        inrepo = usr in W.prog.fns or fn.get("repo")
        if n.get("obj") is not None:
            o = n["obj"]
            wr = "r"
            if not inrepo and not fn.get("mconst") and name not in READERS and not n.get("arrow"):
                wr = "w"
                if name == "operator[]" and tmpl_name(n.get("oty") or "") in ("std::vector", "std::deque", "std::array", "std::basic_string"):
                    wr = mode
                if name.startswith("operator()"):
                    wr = "r"
            obj_sh = self.ev(o, wr)
        sh = [self.arg(a, fn, i) for i, a in enumerate(n["args"])]
        par = frozenset(i for i, s in enumerate(sh) if s)
        if inrepo and not fn.get("static") or usr in W.prog.fns:
            self.dispatch(n, fn, obj_sh, par)
        rt = fn.get("rt") or n.get("ty") or ""
        return (obj_sh or any(sh)) and refers(rt)

    def dispatch(self, n, fn, obj_sh, par):
        W = self.W
        prog = W.prog
        cls = fn.get("cls", "")
        virt = fn.get("virt") and not n.get("qualified")
        on_this = (n.get("obj") or {}).get("k") == "this"
        dyn = self.dyn if on_this or n.get("obj") is None else None
        if not virt:
            W.add(prog.fns.get(fn.get("usr")), obj_sh, par, dyn, self.chain, self.guarded)
            return
        if cls == "handler_interface" and self.dyn in W.handlers_of:
            for h in W.handlers_of[self.dyn]:
                f = final(prog, h, fn["n"])
                W.add(f, obj_sh, par, None, self.chain, self.guarded)
            return
        wr = [w for w in W.wrappers if cls in bases(prog, w)]
        if wr:
            # a call of a wrapper: each class of wrappers on its own
            todo = [self.dyn] if on_this and self.dyn in wr else wr
            for w in todo:
                W.add(final(prog, w, fn["n"]), obj_sh, par, w, self.chain, self.guarded)
            return
        seen, todo = set(), [fn["usr"]]
        while todo:
            u = todo.pop()
            if u in seen:
                continue
            seen.add(u)
            W.add(prog.fns.get(u), obj_sh, par, None, self.chain, self.guarded)
            todo.extend(prog.overriders.get(u, []))


def bases(prog, cls):
    out, todo = [], [cls]
    while todo:
        c = todo.pop()
        r = prog.rec(c) or prog.rec_by_q(c)
        if r is None:
            out.append(strip_type(c))
            continue
        out.append(r["q"])
        todo.extend(r["bases"])
    return out


def final(prog, cls, name):
    r = prog.rec_by_q(cls) or prog.rec(cls)
    if r is None:
        return None
    for m in r["methods"]:
        if m["fn"]["n"] == name and prog.fns.get(m["fn"]["usr"], {}).get("body") is not None:
            return prog.fns[m["fn"]["usr"]]
    for b in r["bases"]:
        f = final(prog, b, name)
        if f is not None:
            return f
    return None


def methods(prog, cls, kinds=("method",)):
    r = prog.rec_by_q(cls)
    out = []
    for m in (r or {"methods": []})["methods"]:
        f = prog.fns.get(m["fn"]["usr"])
        if f is not None and m["fn"]["kind"] in kinds and f.get("body") is not None:
            out.append(f)
    return out


def registered(prog, rep):
    """classes of handlers by the function they are registered with"""
    U = Unit(prog, WireHooks(stop=ADD))
    cs = U.ctors("broker_connect")
    if len(cs) != 1:
        return None
    out = {"add_handler": set(), "add_async_handler": set()}
    ok = False
    for o in run(rep, "threads", lambda: U.construct(cs[0], [CFG, CTX, REG, QUE, LOG][: len(cs[0]["pt"])], "broker_connect")) or []:
        for e in deep(o.st.events):
            if e.kind == "vcall" and e.d["name"] in out:
                v = heap(o.st, e.d["args"][1])
                if v is None or v[0] != "rec":
                    return None
                out[e.d["name"]].add(v[1])
                ok = True
    return out if ok else None


def wrapper_class(prog, rep, name):
    rx = Rx(prog, virt=("handler_interface", "socket_wrapper_base"))
    cl = set()
    for o in run(rep, "threads", lambda: rx.call(name, [O, H])) or []:
        for r, v in o.st.store.items():
            if r[0] == "h" and r != THIS and v[0] == "rec" and prog.rec_by_q(v[1]) is not None and rx.U.method(v[1], "operator()") is not None:
                cl.add(v[1])
    return cl


def c20(ctx, rep):
    prog = ctx.prog
    reg = registered(prog, rep)
    ws, wa = wrapper_class(prog, rep, "add_handler"), wrapper_class(prog, rep, "add_async_handler")
    if reg is None or len(ws) != 1 or len(wa) != 1:
        rep.undecided("threads", "how handlers are registered and run", BCC)
        return
    ws, wa = ws.pop(), wa.pop()
    ho = {ws: reg["add_handler"], wa: reg["add_async_handler"]}
    if ws == wa:
        rep.undecided("threads", "one class of wrappers for both kinds of handlers", RC)
        return
    # the thread of the main loop
    M = Walk(prog, ho, [ws, wa])
    start = [f for f in prog.by_q.get("reactor::start_loop", [])]
    if not start:
        raise AnalysisBroken("reactor::start_loop not found")
    M.add(start[0], True, frozenset(), None, ())
    for h in reg["add_handler"]:
        for f in methods(prog, h, ("ctor",)):
            M.add(f, True, frozenset(), None, ())
    M.go()
    loop_fns = set(M.functions)
    blocking = list(M.blocking)
    # what else the owner of the reactor calls
    for f in methods(prog, "reactor"):
        if f["fn"]["n"] != "terminate":
            M.add(f, True, frozenset(), None, ())
    M.go()
    # threads
    S_ = Walk(prog, ho, [ws, wa])
    starters = [f for f in prog.fns.values() if f.get("body") is not None]
    roots = Walk(prog, ho, [ws, wa])
    for f in starters:
        if not has_spawn(f):
            continue
        cls = f["fn"].get("cls")
        dyn = cls if cls in (ws, wa) else None
        env = {p["id"]: refers(p["ty"]) for p in f["params"]}
        c = Cx(roots, f["file"], True, env, dyn, (f["fn"]["q"],), False)
        for i in f.get("inits") or []:
            c.ev(i.get("e"))
        c.ev(f["body"])
    T = Walk(prog, ho, [ws, wa])
    for n, this_sh, env, dyn, w, file in roots.threads:
        if n is None:
            rep.undecided("threads", "what a thread runs", w)
            continue
        if n.get("k") == "lambda":
            c = Cx(T, n.get("file", file), this_sh, dict(env), dyn, ("thread started at %s" % w,), False)
            c.ev(n["body"])
        else:
            member = n["fn"]["kind"] == "method" and not n["fn"].get("static")
            sh = env[1:] if member else env
            T.add(n, bool(member and this_sh), frozenset(i for i, s in enumerate(sh) if s), dyn, ("thread started at %s" % w,))
    for h in reg["add_async_handler"]:
        for f in methods(prog, h, ("ctor",)):
            c = Cx(T, f["file"], True, {}, None, (f["fn"]["q"],), False)
            for l in lambdas(f["body"]):
                c.ev(l)
    T.go()
    rep.count(functions=len(M.functions | T.functions), paths=0, call_sites=M.calls + T.calls, threads=len(roots.threads))
    # 1. conflicts
    conflicts(rep, M, T, "the thread of an asynchronous handler")
    X = Walk(prog, ho, [ws, wa])
    for f in methods(prog, "reactor"):
        if f["fn"]["n"] == "terminate":
            X.add(f, True, frozenset(), None, ("a termination request",))
    X.go()
    conflicts(rep, M, X, "a termination request from another thread")
    # 2. synchronous handlers run in one thread
    for h in sorted(reg["add_handler"]):
        f = final(prog, h, "on_request")
        q = f["fn"]["q"] if f else h
        rep.expect(q not in T.functions, "sync-only", "%s runs in the main loop only" % h, RC, chains(T, q), msg="%s can be called from a handler's thread" % q)
    for h in sorted(reg["add_async_handler"]):
        f = final(prog, h, "on_request")
        q = f["fn"]["q"] if f else h
        rep.expect(q not in loop_fns, "async-only", "%s runs in its own thread only" % h, RC, chains(M, q), msg="the main loop itself can call %s, which is registered as asynchronous" % q)
        rep.expect(True if q in T.functions else None, "async-only", "%s runs in its own thread" % h, RC)
    rep.expect("broker_handler" in reg["add_handler"] if prog.rec_by_q("broker_handler") else None, "sync-only", "broker_handler runs in the main loop", BCC, msg="broker_handler is not run by the main loop")
    # 3. no blocking
    for q, w, chain in blocking:
        rep.bad("blocking", "the main loop can wait in %s" % q, w, ["called through: " + " -> ".join(chain)])
    if not blocking:
        rep.ok("blocking", "no blocking call is reachable from the main loop", len(loop_fns))
    # 4. polling
    rx, outs, res = loop_runs(ctx, rep, "poll")
    n = 0
    for o, L, e in uniq_loops(res):
        for b in L.bodies:
            for x in deep(b.events):
                if x.kind != "poll":
                    continue
                n += 1
                t = x.d["args"][-1] if len(x.d["args"]) > 1 else N(-1)
                v = t[1] if t[0] == "n" else None
                rep.expect(None if v is None else 0 <= v <= 1000, "poll", "polling waits for a limited time", where(x), msg="the main loop polls with a timeout of %s ms" % show(t))
    if n == 0:
        rep.undecided("poll", "polling not found", RC)


def chains(W, q):
    return ["%s" % (k,) for k in list(W.seen)[:0]]


def has_spawn(f):
    def walk(n):
        if isinstance(n, dict):
            if n.get("k") == "ctor" and n["fn"].get("cls") in ("std::thread", "std::jthread") and n.get("args") and not n["fn"].get("cm"):
                return True
            if n.get("k") == "call" and n.get("fn") and plain_q(n["fn"]) in ("std::async", "pthread_create"):
                return True
            return any(walk(v) for v in n.values())
        if isinstance(n, list):
            return any(walk(v) for v in n)
        return False

    return walk(f.get("body")) or walk(f.get("inits"))


def lambdas(n):
    if isinstance(n, dict):
        if n.get("k") == "lambda":
            yield n
            return
        for v in n.values():
            yield from lambdas(v)
    elif isinstance(n, list):
        for v in n:
            yield from lambdas(v)


def conflicts(rep, M, T, who):
    n = 0
    for key, a in sorted(T.acc.items()):
        b = M.acc.get(key)
        if b is None:
            continue
        n += 1
        name = "%s::%s" % key if key[0] != "static" else key[1].split(":")[-1]
        for x, y in ((a["w"], b["w"] or b["r"]), (a["r"], b["w"])):
            if x and y:
                g = [z for z in x + y if z[2]]
                d = ["%s: %s through %s" % (who, z[0], " -> ".join(z[1])) for z in x[:3]] + ["main loop: %s through %s" % (z[0], " -> ".join(z[1])) for z in y[:3]]
                rep.expect(None if g else False, "confined", name, x[0][0], d, msg="%s is used by %s and by the main loop without synchronisation" % (name, who))
                break
        else:
            rep.ok("confined", "%s is only read by both %s and the main loop" % (name, who))
    rep.ok("confined", "state used by %s" % who, len(T.acc) - n)
