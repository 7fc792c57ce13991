"""C31: startup wires sockets, handlers and the queue manager as configured."""
import witness
from base import *
from interp import CrashEx, Limit, St, ThrowEx
from ir import AnalysisBroken, strip_type, tmpl_args, tmpl_name
from net import NetHooks
from rules_net import calls, deep, ndescribe, wh
from rules_worker import run
from terms import *
from unit import THIS, Unit

BCC = "src/broker_connect.cpp"
COC = "src/broker_core.cpp"
CFG, CTX, REG, QUE, LOG = (("sym", x) for x in ("CFG", "CTX", "REG", "QUEUE", "LOG"))
ADD = ("reactor::add_socket", "reactor::add_handler", "reactor::add_async_handler")
ROUTER = 6


class WireHooks(NetHooks):
    """process exit ends the path; sends and receives do not happen here"""

    def ext_fn(self, I, e, args):
        q = e["fn"]["q"]
        if q in ("exit", "std::exit", "_exit", "quick_exit", "std::quick_exit", "std::_Exit"):
            v = I.arg_value(args[0])
            I.event("exit", code=v)
            raise CrashEx("exit(%s)" % show(v))
        if q in ("abort", "std::abort", "std::terminate"):
            I.event("exit", code=N(134))
            raise CrashEx("exit(abort)")
        return NetHooks.ext_fn(self, I, e, args)


class CoreHooks(WireHooks):
    """broker_core: reading the file, converting it and parsing options may fail"""

    def ext_fn(self, I, e, args):
        q = e["fn"]["q"]
        if q.startswith("YAML::Load"):
            if I.choose(2):
                I.event("fail", what="the configuration file cannot be read")
                raise ThrowEx("YAML::BadFile", ("sym", "bad-file"), e.get("L"))
            v = I.arg_value(args[0]) if args else VOID
            I.event("load", file=v)
            return ("V", ("ap", "yaml", v))
        if q in ("boost::program_options::store",):
            if I.choose(2):
                I.event("fail", what="the options are invalid")
                raise ThrowEx("boost::program_options::error", ("sym", "bad-options"), e.get("L"))
        return WireHooks.ext_fn(self, I, e, args)

    def on_construct(self, I, cls, l, args):
        if cls == "broker_config":
            vals = tuple(I.arg_value(a) for a in args)
            if I.choose(2):
                I.event("fail", what="the configuration is invalid")
                raise ThrowEx("config_error", ("sym", "bad-config"), "")
            I.event("config", args=vals, obj=("ptr", l[0], l[1]))
            I.write(l, CONFIG, quiet=True)
            return True
        if cls == "broker_connect":
            I.event("connect", args=tuple(I.arg_value(a) for a in args), snap=dict(I.st.store))
            I.write(l, ("sym", "CONNECT"), quiet=True)
            return True
        return False


CONFIG = ("sym", "CONFIG")


def base_of(e, prog, ty):
    """the class and its bases"""
    out, todo = [], [ty]
    while todo:
        c = todo.pop()
        r = prog.rec(c) or prog.rec_by_q(c)
        if r is None:
            continue
        out.append(r["q"])
        todo.extend(r["bases"])
    return out


def getter(U, name, this, st=None):
    f = U.method("broker_config", name)
    if f is None:
        return None
    outs = U.call(f, [], (st or St()).copy(), this)
    return outs[0].val if len(outs) == 1 and outs[0].exit in ("next", "return") else None


def heap(st, p):
    return st.store.get(p[1]) if p[0] == "ptr" and p[2] == () else None


def consts(U, names):
    out = {}

    def go():
        for n in names:
            out[n] = U.I.global_value(n)
        return VOID

    U.I.run(go, St())
    return out


def verdict(f, a, b):
    s = same(f, a, b)
    return s


def c31(ctx, rep):
    connect(ctx, rep)
    core(ctx, rep)


# ---------------------------------------------------------------- broker_connect
PEERS = [
    ("workers", "KEY_WORKERS", "get_worker_address", "get_worker_port", "zbind"),
    ("clients", "KEY_CLIENTS", "get_client_address", "get_client_port", "zbind"),
    ("monitor", "KEY_MONITOR", "get_monitor_address", "get_monitor_port", "zconnect"),
]


def connect(ctx, rep):
    prog = ctx.prog
    U = Unit(prog, WireHooks(stop=ADD))
    cs = [c for c in U.ctors("broker_connect")]
    if len(cs) != 1 or len(cs[0]["pt"]) != 5:
        rep.undecided("wiring", "constructor of broker_connect", BCC)
        return
    K = consts(U, ["broker_connect::" + k for k in ("KEY_WORKERS", "KEY_CLIENTS", "KEY_MONITOR", "KEY_STATUS_NOTIFIER", "KEY_TIMER")] + ["reactor::KEY_TIMER"])
    keys = {k.split("::")[1]: v for k, v in K.items() if k.startswith("broker_connect")}
    a, b = K["broker_connect::KEY_TIMER"], K["reactor::KEY_TIMER"]
    if a[0] == b[0] == "str":
        rep.expect(a == b, "timer-key", "handlers wait for timer messages under the key the reactor sends them with", BCC, msg="the broker waits for timer messages under %s, the reactor sends them under %s" % (show(a), show(b)))
    vals = [v for v in keys.values() if v[0] == "str"]
    rep.expect(len(set(vals)) == len(vals), "keys", "the peers have different keys", BCC, msg="two kinds of peers share a key")
    st = St()
    for p in (CFG, CTX, REG, QUE):
        st.facts.assume(p, True)
    outs = run(rep, "wiring", lambda: U.construct(cs[0], [CFG, CTX, REG, QUE, LOG], "broker_connect", st))
    rep.count(functions=1, paths=len(outs or []))
    want = {}
    for name, key, ga, gp, op in PEERS:
        x, y = getter(U, ga, (("p", CFG), ())), getter(U, gp, (("p", CFG), ()))
        if x is None or y is None:
            rep.undecided("endpoint", "configured endpoint of the %s" % name, BCC)
        else:
            want[key] = cat(S("tcp://"), x, S(":"), ("tostr", y))
    n = 0
    for o in outs or []:
        tr = top(o)
        d = ndescribe(tr)
        if o.exit not in ("next", "return"):
            continue
        n += 1
        f = o.st.facts
        got = list(calls(o.st.events, cls="reactor"))
        if any(r for e, r in got):
            rep.undecided("wiring", "registration in a loop", wh(o.st.events, BCC))
            continue
        got = [e for e, r in got]
        sockets(prog, rep, U, o, got, keys, want, d)
        handlers(prog, rep, U, o, got, keys, d)
    if outs is not None and n == 0:
        rep.undecided("wiring", "no path completes the construction of broker_connect", BCC)


def sockets(prog, rep, U, o, got, keys, want, d):
    f = o.st.facts
    adds = [e for e in got if e.d["name"] == "add_socket"]
    for name, key, ga, gp, op in PEERS:
        k = keys[key]
        mine = [e for e in adds if same(f, e.d["args"][0], k) is not False]
        if any(same(f, e.d["args"][0], k) is None for e in mine):
            rep.undecided("socket", "socket of the %s" % name, wh(o.st.events, BCC))
            continue
        if not mine:
            rep.bad("socket", "no socket is registered for the %s (key %s)" % (name, show(k)), BCC, d)
            continue
        e = mine[0]  # the first one registered under a name stays
        w = where(e)
        p = e.d["args"][1]
        v = heap(o.st, p)
        if v is None or v[0] != "rec":
            rep.undecided("socket", "socket object of the %s" % name, w)
            continue
        mk = [x for x in o.st.events if x.kind == "zsocket" and x.d["loc"][0] == p[1]]
        if len(mk) == 1 and len(mk[0].d["args"]) == 2:
            t = mk[0].d["args"][1]
            tv = t[2] if t[0] == "enum" else t[1] if t[0] == "n" else None
            rep.expect(None if tv is None else tv == ROUTER, "socket.type", "the socket of the %s is a ROUTER" % name, where(mk[0]), d, msg="the socket of the %s is not a ROUTER socket" % name)
        init = U.method(v[1], "initialize")
        if init is None:
            rep.undecided("endpoint", "initialize of %s" % v[1], w)
            continue
        st = o.st.copy()
        st.events = []
        for r in run(rep, "endpoint", lambda: U.call(init, [], st, (p[1], ()))) or []:
            evs = [x for x in deep(r.st.events) if x.kind in ("zbind", "zconnect", "zunbind", "zdisconnect")]
            if r.exit not in ("next", "return"):
                continue
            if len(evs) != 1:
                rep.expect(None if any(x.kind == "loop" for x in r.st.events) or any(opaque(k_) for k_ in r.st.facts.atoms) else False, "endpoint", "the socket of the %s is opened once" % name, wh(r.st.events, w), ndescribe(top(r)), msg="the socket of the %s is opened at %d endpoints" % (name, len(evs)))
                continue
            x = evs[0]
            rep.expect(x.kind == op, "endpoint.kind", "the socket of the %s is %s" % (name, "bound" if op == "zbind" else "connected"), where(x), ndescribe(top(r)), msg="the socket of the %s is %s" % (name, "bound instead of connected" if op == "zconnect" else "connected instead of bound"))
            a = x.d["args"][0] if x.d["args"] else VOID
            if key in want:
                rep.expect(True if a == want[key] else None if opaque(a) or opaque(want[key]) else same(r.st.facts, a, want[key]), "endpoint.address", "the socket of the %s is at the configured address" % name, where(x), ndescribe(top(r)), msg="the socket of the %s is opened at %s instead of %s" % (name, show(a)[:100], show(want[key])[:100]))


def handlers(prog, rep, U, o, got, keys, d):
    f = o.st.facts
    subs = {}  # class -> {key name: [(kind, object)]}
    for e in got:
        if e.d["name"] not in ("add_handler", "add_async_handler"):
            continue
        w = where(e)
        fr = frames(e.d["args"][0])
        v = heap(o.st, e.d["args"][1])
        if fr is None or v is None or v[0] != "rec" or any(x[0] != "str" for x in fr):
            rep.undecided("handler", "registration of a handler", w)
            return
        for x in fr:
            subs.setdefault(v[1], []).append((x, e.d["name"], e.d["args"][1], w))
    for cls, ks, kind, how in (
        ("broker_handler", ("KEY_CLIENTS", "KEY_WORKERS", "KEY_TIMER"), "add_handler", "synchronously"),
        ("status_notifier_handler", ("KEY_STATUS_NOTIFIER",), "add_async_handler", "asynchronously"),
    ):
        if prog.rec_by_q(cls) is None or any(keys[k][0] != "str" for k in ks):
            rep.undecided("handler", cls, BCC)
            continue
        mine = subs.get(cls, [])
        w = mine[0][3] if mine else BCC
        for k in ks:
            n = [m for m in mine if m[0] == keys[k]]
            rep.expect(len(n) == 1, "handler", "%s is subscribed to %s" % (cls, k), w, d, msg="%s is subscribed to %s %d times" % (cls, show(keys[k]), len(n)))
        for m in mine:
            rep.expect(m[1] == kind, "handler.kind", "%s runs %s" % (cls, how), m[3], d, msg="%s does not run %s" % (cls, how))
            rep.expect(m[0] in [keys[k] for k in ks], "handler.other", "%s gets only its messages" % cls, m[3], d, msg="%s is subscribed to %s" % (cls, show(m[0])))
        objs = set(m[2] for m in mine)
        rep.expect(len(objs) <= 1, "handler.one", "one %s" % cls, w, d, msg="there are %d separate objects of class %s" % (len(objs), cls))
        for p in objs:
            v = heap(o.st, p)
            r = prog.rec_by_q(cls)
            for fd in r["fields"]:
                t = strip_type(fd["ty"])
                inner = strip_type(tmpl_args(t)[0]) if tmpl_name(t) in ("std::shared_ptr",) and tmpl_args(t) else None
                exp = {"broker_config": CFG, "worker_registry": REG, "queue_manager_interface": QUE}.get(inner)
                if t == "notifier_config":
                    exp = getter(U, "get_notifier_config", (("p", CFG), ()))
                if exp is None:
                    continue
                g = fld(v, fd["n"])
                rep.expect(True if g == exp else None if opaque(g) or g[0] == "sym" and g[1].startswith("uninit") else verdict(f, g, exp), "handler.args", "%s works with the broker's %s" % (cls, inner or t), w, d, msg="%s works with %s instead of the broker's %s" % (cls, show(g)[:80], inner or t))


# ---------------------------------------------------------------- broker_core and main
def core(ctx, rep):
    prog = ctx.prog
    mains = [f for f in prog.by_q.get("main", []) if f.get("body") is not None]
    U = Unit(prog, CoreHooks(stop=("reactor::start_loop", "helpers::get_log_level", "helpers::compare_log_levels")))
    try:
        cs = U.ctors("broker_core")
    except AnalysisBroken:
        rep.undecided("startup", "broker_core not found", COC)
        return
    if len(mains) != 1:
        rep.undecided("startup", "main not found", "src/main.cpp")
        return
    outs = run(rep, "startup", lambda: U.call(mains[0], [("sym", "argc"), ("sym", "argv")][: len(mains[0]["params"])]))
    rep.count(functions=1, paths=len(outs or []))
    qm = getter(U, "get_queue_manager", (("p", ("sym", "CONFIGP")), ()))
    if qm is not None:
        qm = subst(qm, {("drf", ("sym", "CONFIGP")): CONFIG})
    lc = getter(U, "get_log_config", (("p", ("sym", "CONFIGP")), ()))
    if lc is not None:
        lc = subst(lc, {("drf", ("sym", "CONFIGP")): CONFIG})
    ran = 0
    for o in outs or []:
        evs = o.st.events
        f = o.st.facts
        d = ndescribe(top(o)) + ["%s %s" % (e.kind, {k: show(v)[:80] for k, v in e.d.items() if isinstance(v, tuple)}) for e in evs if e.kind in ("fail", "load", "config", "connect", "exit")]
        fails = [e for e in evs if e.kind == "fail"]
        con = [e for e in evs if e.kind == "connect"]
        loops = [e for e, r in calls(evs, "start_loop")]
        w = wh(con or fails or evs, COC)
        if o.exit == "throw":
            rep.undecided("startup", "an exception leaves main", "src/main.cpp")
            continue
        bad_exit = status(o)
        if fails:
            what = fails[0].d["what"]
            rep.expect(not con and not loops, "startup.stop", "nothing is started when %s" % what, where(fails[0]) or w, d, msg="the broker starts although %s" % what)
            rep.expect(bad_exit, "startup.status", "the program fails when %s" % what, where(fails[0]) or w, d, msg="the program reports success although %s" % what)
            continue
        conf = [e for e in evs if e.kind == "config"]
        loads = [e for e in evs if e.kind == "load"]
        for e in loads:
            v = e.d["file"]
            given = [val for k, val in f.atoms.items() if contains(k, lambda t: t and t[0] == "has" and t[2] == S("config"))]
            if given == [False]:
                rep.expect(True if v == S("config.yml") else None if v[0] != "str" else False, "config-file", "the default configuration file is config.yml", where(e), d, msg="the default configuration file is %s" % show(v))
            elif given == [True]:
                rep.expect(False if v[0] == "str" else True if contains(v, lambda t: t == S("config")) else None, "config-file", "the configuration file named by the option is used", where(e), d, msg="the option --config is ignored: %s is read" % show(v))
        for e in conf:
            rep.expect(True if loads and e.d["args"] == (("ap", "yaml", loads[-1].d["file"]),) else None, "config-file", "the configuration comes from that file", where(e))
        if not con:
            if not conf:
                continue  # e.g. --help
            known = qm is not None and f.q_eq(qm, S("multi")) is not True and f.q_eq(qm, S("single")) is not True
            if known and f.q_eq(qm, S("multi")) is False and f.q_eq(qm, S("single")) is False:
                rep.expect(all3(bad_exit, not loops), "queue.unknown", "an unknown queue manager is an error", w, d, msg="an unknown queue manager is not reported as a failure")
            continue
        if len(con) != 1:
            rep.bad("startup", "%d brokers are constructed" % len(con), w, d)
            continue
        c = con[0]
        w = where(c)
        if len(loops) == 1:
            ran += 1
        rep.expect(True if len(loops) == 1 else None if o.exit == "crash" else False, "startup.run", "the broker runs its main loop", w, d, msg="the main loop is started %d times" % len(loops))
        args = c.d["args"]
        snap = c.d["snap"]
        if len(args) < 4 or qm is None:
            rep.undecided("queue", "arguments of broker_connect", w)
            continue
        rep.expect(True if conf and args[0] == conf[-1].d["obj"] else None, "startup.config", "the broker gets the configuration read", w)
        qv = snap.get(args[3][1]) if args[3][0] == "ptr" else None
        cls = qv[1] if qv is not None and qv[0] == "rec" else None
        m, s = f.q_eq(qm, S("multi")), f.q_eq(qm, S("single"))
        if m is True or s is True:
            exp = "multi_queue_manager" if m is True else "single_queue_manager"
            if cls is None:
                rep.expect(False if args[3] == NULL else None, "queue", "queue manager for %s" % qm[0], w, d, msg="there is no queue manager for the configured name")
            else:
                rep.expect(tmpl_name(cls) == exp, "queue", "the configured queue manager is used (%s)" % exp, w, d, msg="a %s is used where the configuration asks for %s" % (cls, exp))
        elif m is False and s is False:
            rep.bad("queue.unknown", "the broker starts with an unknown queue manager name", w, d)
        else:
            # the name was not looked at enough to tell
            dep = any(contains(k, lambda t: t == qm) for tab in (f.atoms, f.bnd, f.neq, f.eqc) for k in tab)
            odd = [n for n in ODD_NAMES if witness.admits(f, {qm: n}) is True] if dep else []
            if odd:
                rep.bad("queue.unknown", "the broker starts with the unknown queue manager name %r" % odd[0], w, d)
                continue
            exp = {n + "_queue_manager": n for n in ("multi", "single") if witness.admits(f, {qm: n}) is True} if dep and cls else {}
            if exp and tmpl_name(cls) not in exp:
                rep.bad("queue", "a %s is used where the configuration asks for %s" % (cls, list(exp)[0]), w, d)
                continue
            rep.expect(None if dep or cls is None else False, "queue", "the queue manager depends on the configuration", w, d, msg="a %s is used whatever the configuration says" % cls)
    if outs is not None and ran == 0:
        rep.undecided("startup.run", "no path runs the broker", "src/main.cpp")


# names that are no queue manager's
ODD_NAMES = ("", "none", "other", "xmulti", "multix", "multi_queue_manager", "Multi", "MULTI", "xsingle", "singlex", "Single", "SINGLE", "mul", "sin", "m", "s", "abcde", "abcdef")


def status(o):
    """does the process end with a failure status?"""
    if o.exit == "crash":
        ex = [e for e in o.st.events if e.kind == "exit"]
        if not ex:
            return None
        v = ex[-1].d["code"]
        return v[1] != 0 if v[0] == "n" else None
    v = o.val
    if v is not None and v[0] == "n":
        return v[1] != 0
    return None
