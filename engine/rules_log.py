"""C35: the log goes where, and contains what, the configuration says."""
from base import *
from interp import Limit, ThrowEx
from ir import AnalysisBroken
from rules_net import calls, ndescribe
from rules_wiring import CONFIG, COC, CoreHooks, getter, status
from rules_worker import run
from terms import *
from unit import Unit

FS = ("boost::filesystem::", "std::filesystem::", "std::experimental::filesystem::")
LEVELS = {"off": "off", "critical": "critical", "err": "err", "warn": "warn", "info": "info", "debug": "debug"}


class LogHooks(CoreHooks):
    """creating the directory, the file and the logger may fail"""

    def fails(self, I, what, ty, e):
        if I.choose(2):
            I.event("fail", what=what)
            raise ThrowEx(ty, ("sym", "log-error"), e.get("L"))

    def ext_fn(self, I, e, args):
        q = e["fn"]["q"]
        if q.startswith(FS) and q.rsplit("::", 1)[1] in ("create_directories", "create_directory"):
            v = I.arg_value(args[0])
            if len(args) == 1:
                self.fails(I, "the directory of the log cannot be created", "boost::filesystem::filesystem_error", e)
            I.event("mkdir", dir=v, deep=q.endswith("ies"))
            return ("V", ("ap", q, v))
        if q == "spdlog::create":
            vals = tuple(I.arg_value(a) for a in args)
            self.fails(I, "the logger cannot be created", "spdlog::spdlog_ex", e)
            v = ("ap", "logger", *vals)
            I.event("logger", args=vals, obj=v)
            return ("V", v)
        return CoreHooks.ext_fn(self, I, e, args)

    def make_shared(self, I, ty, vals, e):
        if ty.startswith("spdlog::sinks::"):
            return self.sink(I, ty, vals, e)
        if ty == "spdlog::logger":
            v = ("ap", "logger", *vals)
            I.event("logger", args=tuple(vals), obj=v)
            return v
        return NotImplemented

    def sink(self, I, ty, vals, e):
        self.fails(I, "the log file cannot be opened", "spdlog::spdlog_ex", e)
        v = ("ap", "sink", N(I.st.fresh("sink")))
        I.event("sink", ty=ty, args=tuple(vals), obj=v)
        return v

    def log_method(self, I, n, vals):
        if n == "set_level":
            I.event("level", val=vals[0])


def strip(t):
    """the string a path expression names"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "ap" and isinstance(t[1], str):
        n = t[1]
        short = n.rsplit("::", 1)[-1]
        if n.startswith(("ctor:",) + FS) and short in ("path", "basic_path") and len(t) == 3:
            return strip(t[2])
        if n.startswith(FS) and short in ("string", "native", "c_str", "generic_string", "lexically_normal") and len(t) == 3:
            return strip(t[2])
        if n.startswith(FS) and short == "operator/" and len(t) == 4:
            return ("ap", "join", strip(t[2]), strip(t[3]))
        if n.startswith("after:") and short in ("operator/=", "append") and len(t) == 4:
            return ("ap", "join", strip(t[2]), strip(t[3]))
    return t


def known_empty(f, x):
    """is the directory name known (not) to be empty?"""
    q = f.q_eq(x, S(""))
    if q is None and f.q_eqi(size_of(x), N(0)) is not None:
        q = f.q_eqi(size_of(x), N(0))
    if q is None:
        for k, v in f.atoms.items():
            if k[0] == "nz" and k[1][0] == "ap" and str(k[1][1]).startswith(FS) and str(k[1][1]).endswith("::empty") and strip(k[1][2]) == x:
                q = v
    return q


def is_dir(f, x):
    for k, v in f.atoms.items():
        if k[0] == "nz" and k[1][0] == "ap" and str(k[1][1]).startswith(FS) and str(k[1][1]).rsplit("::", 1)[1] in ("is_directory", "exists") and strip(k[1][2]) == x:
            if v or str(k[1][1]).endswith("exists"):
                return v
            return False
    return None


def c35(ctx, rep):
    prog = ctx.prog
    mains = [f for f in prog.by_q.get("main", []) if f.get("body") is not None]
    U = Unit(prog, LogHooks(stop=("reactor::start_loop",)))
    try:
        U.ctors("broker_core")
    except AnalysisBroken:
        rep.undecided("log", "broker_core not found", COC)
        return
    if len(mains) != 1:
        rep.undecided("log", "main not found", "src/main.cpp")
        return
    outs = run(rep, "log", lambda: U.call(mains[0], [("sym", "argc"), ("sym", "argv")][: len(mains[0]["params"])]))
    rep.count(functions=1, paths=len(outs or []))
    lc = getter(U, "get_log_config", (("p", ("sym", "CONFIGP")), ()))
    if lc is None:
        rep.undecided("log", "configuration of the log", COC)
        return
    lc = subst(lc, {("drf", ("sym", "CONFIGP")): CONFIG})
    PATH, BASE, LEVEL, SIZE, COUNT = (fld(lc, n) for n in ("log_path", "log_basename", "log_level", "log_file_size", "log_files_count"))
    n = 0
    for o in outs or []:
        evs = o.st.events
        f = o.st.facts
        d = ndescribe(top(o)) + ["%s %s" % (e.kind, {k: show(v)[:80] for k, v in e.d.items() if isinstance(v, tuple)}) for e in evs if e.kind in ("fail", "mkdir", "sink", "logger", "level", "connect", "exit")]
        con = [e for e in evs if e.kind == "connect"]
        loops = [e for e, r in calls(evs, "start_loop")]
        fails = [e for e in evs if e.kind == "fail" and "log" in e.d["what"]]
        if fails and o.exit != "throw":
            what = fails[0].d["what"]
            rep.expect(not con and not loops, "failure", "nothing is started when %s" % what, where(fails[0]), d, msg="the broker starts although %s" % what)
            rep.expect(status(o), "failure", "the program fails when %s" % what, where(fails[0]), d, msg="the program reports success although %s" % what)
        mk = [e for e in evs if e.kind == "mkdir"]
        sinks = [e for e in evs if e.kind == "sink"]
        for e in mk:
            x = strip(e.d["dir"])
            rep.expect(True if x == PATH else None if opaque(x) else False, "directory", "the directory created is that of the log", where(e), d, msg="the directory %s is created instead of that of the log" % show(x)[:80])
            if x == PATH and known_empty(f, PATH) is not False:
                rep.expect(False if is_dir(f, PATH) is not True else None, "directory.empty", "", where(e), d, msg="a log file without a directory is an error: the directory '' is created")
        for e in sinks:
            w = where(e)
            if "rotating" not in e.d["ty"]:
                rep.undecided("file", "the log goes to %s" % e.d["ty"], w)
                continue
            a = e.d["args"]
            if len(a) < 3:
                rep.undecided("file", "arguments of the log file", w)
                continue
            x = strip(a[0])
            g = False
            if x == ("ap", "join", PATH, BASE):
                g = True
            elif x in (cat(PATH, S("/"), BASE),):
                ke = known_empty(f, PATH)
                g = True if ke is False else False
            elif x == BASE and known_empty(f, PATH):
                g = True
            elif opaque(x, idx=True) and x[0] == "ap" and x[1] != "join":
                g = None
            rep.expect(g, "file", "the log file is the configured one", w, d, msg="the log is written to %s instead of the configured file" % show(x)[:100])
            rep.expect(True if a[1] == SIZE else None if opaque(a[1]) else same(f, a[1], SIZE), "size", "the log is rotated at the configured size", w, d, msg="the log is rotated at %s instead of the configured size" % show(a[1])[:80])
            rep.expect(True if a[2] == COUNT else None if opaque(a[2]) else same(f, a[2], COUNT), "files", "the configured number of files is kept", w, d, msg="%s files of the log are kept instead of the configured number" % show(a[2])[:80])
            before = evs[: evs.index(e)]
            made = any(m.kind == "mkdir" and strip(m.d["dir"]) == PATH and m.d["deep"] for m in before)
            there = is_dir(f, PATH)
            if not made and known_empty(f, PATH) is not True and there is not True:
                rep.expect(None if any(opaque(k) and mentions(k, PATH) for k in f.atoms if there is None) else False, "directory", "", w, d, msg="the directory of the log is not created when it does not exist")
            else:
                rep.ok("directory", "the directory of the log exists or is created, parents included")
        if not con:
            continue
        n += 1
        c = con[0]
        w = where(c)
        before = evs[: evs.index(c)]
        logs = [e for e in before if e.kind == "logger"]
        given = [x for x in c.d["args"] if isinstance(x, tuple) and x in [e.d["obj"] for e in logs]]
        if not given:
            rep.expect(None if any(opaque(x) for x in c.d["args"]) else False, "logger", "the broker writes to that log", w, d, msg="the broker is not given the configured logger")
            continue
        lg = [e for e in logs if e.d["obj"] == given[-1]][-1]
        rep.expect(True if any(s.d["obj"] in lg.d["args"] for s in sinks) else None, "logger", "the broker's logger writes to the configured file", where(lg))
        lv = [e for e in before if e.kind == "level"]
        if not lv:
            rep.expect(None if any(e.kind == "ext" and "level" in e.d["q"] for e in before) else False, "level", "the level is set", w, d, msg="the configured level of the log is ignored")
            continue
        check_level(rep, f, lv[-1], LEVEL, d)
    if outs is not None and n == 0:
        rep.undecided("log", "no path constructs the broker", COC)


def check_level(rep, f, e, LEVEL, d):
    v = e.d["val"]
    if v[0] != "enum":
        rep.undecided("level", "the level of the log is %s" % show(v)[:80], where(e))
        return
    name = str(v[1]).rsplit("::", 1)[-1]
    for k, want in LEVELS.items():
        q = f.q_eq(LEVEL, S(k))
        if q is True:
            rep.expect(name == want, "level", "level '%s' is level %s" % (k, want), where(e), d, msg="level '%s' of the configuration becomes %s" % (k, name))
            return
    if all(f.q_eq(LEVEL, S(k)) is False for k in LEVELS):
        rep.expect(name == "trace", "level", "with an unknown level everything is logged", where(e), d, msg="an unknown level becomes %s" % name)
        return
    # not looked at enough to tell apart some of the levels
    rest = [k for k in LEVELS if f.q_eq(LEVEL, S(k)) is None]
    if any(mentions(k, LEVEL) and opaque(k) for k in f.atoms):
        rep.undecided("level", "the level of the log", where(e))
    elif any(LEVELS[k] != name for k in rest):
        k = [k for k in rest if LEVELS[k] != name][0]
        rep.bad("level", "level '%s' of the configuration becomes %s" % (k, name), where(e), d)
    else:
        rep.ok("level", "level '%s' is level %s" % (rest[0], name))
