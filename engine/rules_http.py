"""C21 (status notifications) and C32 (HTTP requests)."""
from base import *
from interp import Limit, St, ThrowEx
from ir import AnalysisBroken, strip_type
from net import NetHooks
from rules_net import bad_or_unknown, deep, flat, ndescribe, wh
from rules_worker import run
from terms import *
from unit import THIS, Unit


def mk_cat(ps):
    return cat(*ps)


HC = "src/helpers/curl.cpp"
SN = "src/handlers/status_notifier_handler.cpp"
RN = "src/notifier/reactor_status_notifier.cpp"
EXC = "helpers::curl_exception"

URL, PORT, USER, PASS = ("sym", "url"), ("sym", "port"), ("sym", "username"), ("sym", "passwd")
PARAMS = ("sym", "params")
HANDLE = ("sym", "handle")
BODY = ("sym", "body")


class CurlHooks(NetHooks):
    """libcurl as events; every call that can fail may fail"""

    def __init__(self, query=True):
        NetHooks.__init__(self)
        self.query = query

    def call(self, I, e):
        fn = e.get("fn")
        if fn and fn.get("cls") in ("std::unique_ptr", "std::shared_ptr") and fn["n"] in ("release", "reset"):
            I.event("curl", op=fn["n"], args=(I.val(e["obj"]),))
        if fn and fn["q"] == "curl_easy_setopt" and len(e["args"]) == 3:
            I.event("curlarg", temp=self.temporary(I, e["args"][2]), opt=opt_name(I.val(e["args"][1])))
        return NotImplemented

    def temporary(self, I, a):
        """a pointer into a string that is gone after this statement"""
        while a.get("k") in ("cast", "paren") and a.get("e"):
            a = a["e"]
        if a.get("k") == "call" and a.get("fn") and a["fn"]["n"] in ("c_str", "data") and a["fn"].get("cls") == "std::basic_string" and a.get("obj"):
            o = a["obj"]
            while o.get("k") in ("cast", "paren") and o.get("e"):
                o = o["e"]
            if o["k"] == "ctor":
                return True
            if o["k"] == "call":
                rt = (o.get("fn") or {}).get("rt", "&")
                return not rt.rstrip().endswith("&")
        return False

    def ctor(self, I, l, e):
        fn = e["fn"]
        if fn.get("cls") in ("std::unique_ptr", "std::shared_ptr") and e["args"]:
            vals = [I.val(a) for a in e["args"]]
            d = vals[1] if len(vals) > 1 else None
            if vals[0][0] != "rec" and not fn.get("cm"):
                I.event("curl", op="own", args=(vals[0],), by=self.deleter(I, d, vals[0]), ty=e.get("ty", ""))
            I.write(l, vals[0], quiet=True)
            return True
        return NetHooks.ctor(self, I, l, e)

    def deleter(self, I, d, v):
        if d is None:
            return None
        if d[0] == "fnp":
            return d[-1]
        if d[0] == "clo":
            outs = I.nested(lambda: I.invoke(d, [("V", v)]), "deleter")
            n = len(I.st.events)
            ops = [[e.d["op"] for e in o.st.events[n:] if e.kind == "curl" and e.d["args"] and e.d["args"][0] == v] for o in outs]
            for op, q in (("cleanup", "curl_easy_cleanup"), ("free", "curl_free")):
                if all(op in x for x in ops):
                    return q
            if not any(ops) and not any(o.st.events[n:] for o in outs):
                return "a function that does nothing"
        return None

    def ext_fn(self, I, e, args):
        q = e["fn"]["q"]
        vals = tuple(I.arg_value(a) for a in args)
        if q == "curl_easy_init":
            h = NULL if I.choose(2) else HANDLE
            if h == HANDLE:
                I.st.facts.assume(HANDLE, True)
            I.event("curl", op="init", args=(), ok=h != NULL)
            return ("V", h)
        if q == "curl_easy_setopt":
            I.event("curl", op="setopt", args=vals, opt=opt_name(vals[1]))
            return ("V", ("enum", "CURLE_OK", 0))
        if q == "curl_easy_perform":
            ok = I.choose(2) == 0
            I.event("curl", op="perform", args=vals, ok=ok)
            if ok:
                return ("V", ("enum", "CURLE_OK", 0))
            c = ("sym", "curlcode")
            I.st.facts.tighten(c, 1, INF)
            I.st.facts.assume(("cmp", "==i", c, N(0)), False)
            return ("V", c)
        if q == "curl_easy_escape" or q == "curl_escape":
            s, n = vals[-2], vals[-1]
            fail = I.choose(2) == 1
            v = NULL if fail else ("ap", "urlenc", s if n == size_of(s) else ("ap", "cstr", s) if n == N(0) else ("bytes", s, n))
            if not fail:
                I.st.facts.assume(("cmp", "==", v, NULL), False)
            I.event("curl", op="escape", args=vals, ok=not fail, ret=v)
            return ("V", v)
        if q in ("curl_easy_cleanup", "curl_free", "curl_easy_getinfo", "curl_easy_reset"):
            I.event("curl", op=q[5:].replace("easy_", ""), args=vals)
            if q == "curl_easy_getinfo" and len(vals) == 3 and vals[2][0] == "ptr":
                I.write((vals[2][1], vals[2][2]), ("sym", "info~%d" % I.st.fresh("info")), quiet=True)
            return ("V", VOID if e["fn"]["rt"] == "void" else ("sym", "curlinfo~%d" % I.st.fresh("ci")))
        if q == "curl_easy_strerror":
            return ("V", ("sym", "curl-message"))
        if q == "std::this_thread::sleep_for":
            I.event("sleep", ms=self.ms(I, e["fn"], vals[0]))
            return ("V", VOID)
        if q in ("sleep", "usleep") and vals:
            v = vals[0]
            I.event("sleep", ms=mulc(v, 1000) if q == "sleep" else ("ap", "trunc", v, N(1000)) if v[0] != "n" else N(v[1] // 1000))
            return ("V", N(0))
        return NotImplemented

    def ms(self, I, fn, v):
        p = None
        for t in (fn.get("pt") or []) + (fn.get("targs") or []):
            p = p or I.stl.period(t)
        return I.stl.rescale(v, p, (1, 1000)) if p else ("ap", "sleep", v)

    def call_fn(self, I, fn, obj, args, e):
        if self.query and fn["q"] == "helpers::get_http_query":
            v = I.arg_value(args[0])
            if I.choose(2):
                I.event("curl", op="escape", args=(), ok=False, ret=NULL)
                raise ThrowEx(EXC, ("sym", "curl-error"), "get_http_query")
            return ("V", ("ap", "urlenc", ("ap", "urlenc", v)))
        return NetHooks.call_fn(self, I, fn, obj, args, e)


def opt_name(v):
    return v[1].split("::")[-1] if v[0] == "enum" else show(v)


def query_of(v):
    return ("ap", "urlenc", ("ap", "urlenc", v))


def lines(evs):
    out = []
    for e in evs:
        if e.kind == "curl":
            x = {"setopt": e.d.get("opt", "") + " " + show(e.d["args"][-1])[:60] if e.d["args"] else ""}.get(e.d["op"], "")
            out.append("%s: %s %s%s" % (e.where, e.d["op"], x, "" if e.d.get("ok", True) else " (fails)"))
        elif e.kind in ("post", "sleep"):
            out.append("%s: %s %s%s" % (e.where, e.kind, show(e.d["ms"]) if e.kind == "sleep" else " ".join(show(a)[:60] for a in e.d["args"]), "" if e.d.get("ok", True) else " (fails)"))
    return out


def where_(e, default):
    return "src/%s" % e.where if e is not None else default


def raii(prog, name):
    """some destructor or deleter object of the repository releases such resources"""
    def uses(x):
        if isinstance(x, dict):
            f = x.get("fn")
            if isinstance(f, dict) and f.get("q") == name:
                return True
            return any(uses(v) for v in x.values())
        if isinstance(x, list):
            return any(uses(v) for v in x)
        return False

    for f in prog.fns.values():
        if (f["fn"]["kind"] == "dtor" or f["fn"]["n"] == "operator()") and uses(f.get("body")):
            return True
    return False


def released(rep, prog, evs, make, free, w, d, what):
    """every resource made on this path is released once"""
    for e in evs:
        if e.kind != "curl" or e.d["op"] != make or not e.d.get("ok"):
            continue
        h = e.d.get("ret", HANDLE)
        owns = [x for x in evs if x.kind == "curl" and x.d["op"] == "own" and x.d["args"][0] == h]
        rel = [x for x in evs if x.kind == "curl" and x.d["op"] == "release" and x.d["args"][0] == h]
        fr = [x for x in evs if x.kind == "curl" and x.d["op"] == free[5:].replace("easy_", "") and x.d["args"] and x.d["args"][0] == h]
        n = len(fr) + (len(owns) if not rel else 0)
        made = len([x for x in evs if x.kind == "curl" and x.d["op"] == make and x.d.get("ok") and x.d.get("ret", HANDLE) == h])
        if n == made:
            bad = [x for x in owns if x.d["by"] not in (None, free)]
            if bad:
                rep.bad("release", "%s is released by %s" % (what, bad[0].d["by"]), where_(bad[0], w), d)
            else:
                rep.ok("release", "%s is released" % what)
        elif n < made:
            bad_or_unknown(rep, "release", not raii(prog, free), "%s is never released" % what, where_(e, w), d)
        else:
            bad_or_unknown(rep, "release", not owns or fr, "%s is released twice" % what, where_(e, w), d)


def c32(ctx, rep):
    prog = ctx.prog
    for name in ("helpers::curl_get", "helpers::curl_post"):
        request(prog, rep, name)
    query(prog, rep)


def request(prog, rep, name):
    U = Unit(prog, CurlHooks())
    f = U.fn(name)
    short = name.split("::")[1]
    if len(f["params"]) != 5:
        rep.undecided("request", "%s: parameters" % short, HC)
        return
    outs = run(rep, "request", lambda: U.call(f, [URL, PORT, PARAMS, USER, PASS], St()))
    rep.count(functions=1, paths=len(outs or []))
    writers = set()
    for o in outs or []:
        evs = list(deep(o.st.events))
        d = lines(evs)
        perf = [e for e in evs if e.kind == "curl" and e.d["op"] == "perform"]
        failed = [e for e in evs if e.kind == "curl" and e.d.get("ok") is False]
        hidden = any(opaque(k) for k in o.st.facts.atoms)
        last = evs[-1] if evs else None
        released(rep, prog, evs, "init", "curl_easy_cleanup", HC, d, "the handle of %s" % short)
        if o.exit == "throw":
            if o.val[0] != EXC:
                bad_or_unknown(rep, "report", not hidden, "%s: %s is thrown instead of a curl_exception" % (short, o.val[0]), where_(last, HC), d)
            elif not failed:
                info = [e for e in evs if e.kind == "curl" and e.d["op"] == "getinfo"]
                bad_or_unknown(rep, "report", not hidden and not info and perf, "%s: a successful request is reported as a failure" % short, where_(last, HC), d)
            else:
                rep.ok("report", "%s: a failure is raised" % short)
            continue
        if o.exit not in ("next", "return"):
            rep.undecided("report", "%s ends with %s" % (short, o.exit), HC)
            continue
        if failed:
            bad_or_unknown(rep, "report", not hidden, "%s: a failure of %s looks like success" % (short, {"init": "curl_easy_init", "perform": "curl_easy_perform", "escape": "the encoding of parameters"}.get(failed[0].d["op"], failed[0].d["op"])), where_(failed[0], HC), d)
            continue
        if len(perf) != 1:
            bad_or_unknown(rep, "report", not hidden, "%s: returns normally %s" % (short, "without a request" if not perf else "after several requests"), where_(last, HC), d)
            continue
        options(prog, rep, short, o, evs, perf[0], d, writers, hidden)
    for u in writers:
        writer(prog, rep, u)


def truthy(v):
    if v[0] == "n":
        return v[1] != 0
    if v[0] == "b":
        return v[1]
    if v[0] == "enum":
        return v[2] != 0
    return None


def options(prog, rep, short, o, evs, perf, d, writers, hidden):
    w = where_(perf, HC)
    opts = {}
    f = o.st.facts
    for e in evs:
        if e is perf:
            break
        if e.kind == "curl" and e.d["op"] == "setopt":
            opts[e.d["opt"]] = e.d["args"][2]
        elif e.kind == "curl" and e.d["op"] == "reset" and e.d["args"] and e.d["args"][0] == HANDLE:
            opts = {}

    def need(ok, rule, what, msg):
        rep.expect(True if ok is True else None if ok is None or hidden else False, rule, "%s: %s" % (short, what), w, d, msg="%s: %s" % (short, msg))

    vp = truthy(opts["CURLOPT_SSL_VERIFYPEER"]) if "CURLOPT_SSL_VERIFYPEER" in opts else True
    need(vp, "verify", "the certificate is verified", "the server's certificate is not verified")
    vh = opts.get("CURLOPT_SSL_VERIFYHOST", N(2))
    t = truthy(vh)
    need(None if vh in (N(1), TRUE) else t, "verify", "the host name is verified", "the server's host name is not verified")
    info = [e for e in evs if e.kind == "curl" and e.d["op"] == "getinfo"]
    fe = truthy(opts["CURLOPT_FAILONERROR"]) if "CURLOPT_FAILONERROR" in opts else False
    need(None if fe is False and info else fe, "status", "HTTP errors are failures", "HTTP error statuses are not treated as failures")
    # credentials
    ue, pe = f.q_eq(USER, S("")), f.q_eq(PASS, S(""))
    if ue is None:
        ue = f.q_eqi(size_of(USER), N(0))
    if pe is None:
        pe = f.q_eqi(size_of(PASS), N(0))
    up = opts.get("CURLOPT_USERPWD")
    pair = ("CURLOPT_USERNAME" in opts) + ("CURLOPT_PASSWORD" in opts)
    if up is not None or pair:
        if up is not None:
            want = mk_cat((USER, S(":"), PASS))
            alts = [want]
            if ue is True:
                alts.append(mk_cat((S(":"), PASS)))
            if pe is True:
                alts.append(mk_cat((USER, S(":"))))
            s = True if up in alts or strip_cstr(up) in alts else None if opaque(up) else False
            need(s, "auth", "the credentials are user:password", "the credentials sent are %s" % show(up)[:80])
        else:
            s = all3(opts.get("CURLOPT_USERNAME", USER) == USER, opts.get("CURLOPT_PASSWORD", PASS) == PASS, True if pair == 2 else None)
            need(s, "auth", "the credentials are user and password", "the credentials sent are not the configured ones")
        if ue is True and pe is True:
            need(False, "auth", "no credentials without user and password", "credentials are sent although none are configured")
        a = opts.get("CURLOPT_HTTPAUTH", N(1))
        need(True if a in (N(1),) or (a[0] == "enum" and a[2] == 1) else None if a[0] != "n" else bool(a[1] & 1) and None or False if a[0] == "n" and not a[1] & 1 else None, "auth", "basic authentication", "authentication method is %s" % show(a))
    else:
        need(True if ue is True and pe is True else False, "auth", "credentials are sent when configured", "no credentials are sent although a %s may be configured" % ("password" if ue is True else "user name" if pe is True else "user name or password"))
    # where and what
    u = opts.get("CURLOPT_URL")
    q = query_of(PARAMS)
    if u is None:
        need(False, "target", "the address", "no address is set")
    else:
        wants = [URL] if short == "curl_post" else [mk_cat((URL, S("?"), q))]
        s = True if strip_cstr(u) in wants else None if opaque(u) or (short == "curl_get" and u == URL) else False
        need(s, "target", "the address", "the request goes to %s" % show(u)[:80])
    p = opts.get("CURLOPT_PORT")
    need(True if p == PORT else False if p is None else None if opaque(p) else False, "target", "the port", "the port is %s" % (show(p)[:60] if p else "not set"))
    pf = opts.get("CURLOPT_POSTFIELDS", opts.get("CURLOPT_COPYPOSTFIELDS"))
    if short == "curl_post":
        need(True if pf == q or (pf is not None and strip_cstr(pf) == q) else False if pf is None else None if opaque(pf) else False, "params", "the parameters are posted", "the parameters posted are %s" % (show(pf)[:80] if pf else "missing"))
        for e in evs:
            if e.kind == "curlarg" and e.d["opt"] == "CURLOPT_POSTFIELDS" and e.d["temp"]:
                rep.bad("params", "%s: the posted data is a temporary string that no longer exists when the request is made" % short, where_(e, HC), d)
        if "CURLOPT_POSTFIELDSIZE" in opts or "CURLOPT_POSTFIELDSIZE_LARGE" in opts:
            z = opts.get("CURLOPT_POSTFIELDSIZE", opts.get("CURLOPT_POSTFIELDSIZE_LARGE"))
            need(True if z == size_of(q) or z == N(-1) else False if z[0] == "n" else None, "params", "size of the parameters", "%s bytes of the parameters are posted whatever their size" % show(z)[:40])
    elif pf is not None:
        need(False, "params", "a GET request has no body", "a GET request is turned into a POST")
    for x in ("CURLOPT_NOBODY", "CURLOPT_HTTPGET") if short == "curl_post" else ("CURLOPT_NOBODY", "CURLOPT_POST"):
        if x in opts and truthy(opts[x]) is True:
            need(False, "params", "method", "%s changes the method of the request" % x)
    if "CURLOPT_CUSTOMREQUEST" in opts:
        c = opts["CURLOPT_CUSTOMREQUEST"]
        need(c == S("POST" if short == "curl_post" else "GET") or (False if c[0] == "str" else None), "params", "method", "the method is %s" % show(c))
    wf, wd = opts.get("CURLOPT_WRITEFUNCTION"), opts.get("CURLOPT_WRITEDATA")
    if wf is None and wd is not None:
        need(False, "body", "the body is written by a function of our own", "the body is written to an object that is not a FILE")
    elif wf is not None and wf[0] == "fnp":
        writers.add(wf[1])


def strip_cstr(t):
    if not isinstance(t, tuple):
        return t
    if t[:2] in (("ap", "cstr"), ("ap", "c_str")):
        return strip_cstr(t[2])
    return tuple(strip_cstr(x) for x in t)


def writer(prog, rep, usr):
    f = prog.fns.get(usr)
    if f is None or len(f["params"]) != 4:
        return
    U = Unit(prog, CurlHooks())
    outs = run(rep, "body", lambda: U.call(f, [("sym", "ptr"), ("sym", "size"), ("sym", "nmemb"), ("sym", "out")], St()))
    for o in outs or []:
        if o.exit not in ("next", "return"):
            continue
        v = o.val
        want = (("ap", "*", ("sym", "size"), ("sym", "nmemb")), ("ap", "*", ("sym", "nmemb"), ("sym", "size")))
        # libcurl always passes size 1
        rep.expect(True if v in want or v == ("sym", "nmemb") else False if v is not None and v[0] in ("n", "sym") else None, "body", "all of the body is accepted", where_(None, HC), ndescribe(top(o)), msg="the writer of the body reports %s bytes, which makes libcurl fail" % (show(v) if v else "?"))


def query(prog, rep):
    """get_http_query: k=v pairs, both percent-encoded, joined by &"""
    U = Unit(prog, CurlHooks(query=False))
    f = U.fn("helpers::get_http_query")
    outs = run(rep, "query", lambda: U.call(f, [PARAMS], St()))
    rep.count(functions=1, paths=len(outs or []))
    seen = set()
    for o in outs or []:
        evs = list(deep(o.st.events))
        d = lines(evs)
        if o.exit == "throw":
            bad = [e for e in evs if e.kind == "curl" and e.d.get("ok") is False]
            rep.expect(True if o.val[0] == EXC and bad else None, "query", "a failure to encode is raised", HC, d)
            continue
        if o.exit not in ("next", "return"):
            continue
        v = o.val
        if v == S("") and U.I.st.facts.q_eqi(size_of(PARAMS), N(0)) is True:
            continue
        acc = [t for t in subterms(v) if isinstance(t, tuple) and t and t[0] == "acccat"] if v is not None else []
        if len(acc) != 1 or acc[0] != v:
            if v is not None and v[0] in ("str",):
                rep.bad("query", "the parameters are not part of the query", HC, d)
            else:
                rep.undecided("query", "shape of the query", HC)
            continue
        L = U.I.loops.get(acc[0][1])
        if L is None or L.coll != PARAMS or L.sym is None:
            rep.undecided("query", "loop over the parameters", HC)
            continue
        per = dict(acc[0][3])
        for b in L.bodies:
            if b.exit == "throw":
                continue
            if b.exit == "break" or b.exit == "return":
                rep.bad("query", "parameters are left out of the query", HC, d)
                continue
            if b.exit != "next":
                continue
            be = list(deep(b.events))
            if b.pid not in seen:
                seen.add(b.pid)
                released(rep, prog, be, "escape", "curl_free", HC, lines(be), "an encoded string")
            if any(e.kind == "curl" and e.d.get("ok") is False for e in be):
                rep.bad("query", "a parameter whose encoding failed is skipped", HC, lines(be))
                continue
            pieces = per.get(b.pid)
            if pieces is None:
                rep.bad("query", "a parameter is left out of the query", HC, lines(be))
                continue
            check_pieces(rep, L, b, list(pieces), lines(be))


def check_pieces(rep, L, b, ps, d):
    flatp = []
    for p in ps:
        if p[0] == "cat":
            flatp.extend(p[1])
        else:
            flatp.append(p)
    ps = [p[2] if p[:2] in (("ap", "cstr"), ("ap", "c_str")) else p for p in flatp]
    # merge neighbouring literals
    out = []
    for p in ps:
        if p[0] == "str" and out and out[-1][0] == "str":
            out[-1] = S(out[-1][1] + p[1])
        else:
            out.append(p)
    ps = out
    ky = ("ky", PARAMS, L.sym)
    keys = [("ap", "urlenc", ky), ("ap", "urlenc", fld(at(PARAMS, L.sym), "first"))]
    vals = [("ap", "urlenc", ("mg", PARAMS, ky)), ("ap", "urlenc", fld(at(PARAMS, L.sym), "second"))]
    # a separator that is empty the first time and '&' from then on
    varsep = [c for c in L.cells.values() if ps and c["phi"] == ps[0] and c["old"] in (S(""), ("empty",)) and all(c["per"].get(x.pid, ("same",))[:2] == ("set", S("&")) for x in L.bodies if x.exit == "next")]
    amp_front = bool(ps) and (ps[0] == S("&") or bool(varsep))
    amp_back = bool(ps) and ps[-1] == S("&")
    core = ps[1 if amp_front else 0: len(ps) - (1 if amp_back else 0)]
    if len(core) == 3 and core[0] in keys and core[1] == S("=") and core[2] in vals:
        rep.ok("query", "each parameter becomes an encoded pair")
    else:
        known = all(p[0] == "str" or p in keys or p in vals or (p[0] in ("ky", "mg", "fld")) or p[:2] == ("ap", "urlenc") or (p[:2] == ("ap", "substr") and p[2][:2] == ("ap", "urlenc")) for p in ps)
        rep.expect(False if known else None, "query", "each parameter becomes an encoded pair", HC, d, msg="a parameter becomes %s" % " ++ ".join(show(p)[:50] for p in ps))
        return
    cell = [c for c in L.cells.values() if "catappend" in c.get("kinds", ())]
    phi = cell[0]["phi"] if len(cell) == 1 else None
    empty = b.st.facts.q_eqi(size_of(phi), N(0)) if phi is not None else None
    if empty is None and phi is not None:
        empty = b.st.facts.q_eq(phi, S(""))
    first = empty
    if first is None:
        first = b.st.facts.q_eqi(L.sym, N(0)) if L.sym else None
    if not amp_front and not amp_back:
        others = [x for x in L.bodies if x.exit == "next" and x.pid != b.pid]
        rep.expect(True if first is True else None if others else False, "query.sep", "pairs are separated", HC, d, msg="pairs are not separated by '&'")
    else:
        rep.ok("query.sep", "pairs are separated")


# ---------------------------------------------------------------- C21
CONF = ("sym", "CONF")
LOGGER = ("sym", "LOGGER")
CB = ("sym", "callback")
KEY = ("sym", "KEY")


class NotifyHooks(CurlHooks):
    def call_fn(self, I, fn, obj, args, e):
        if fn["q"] == "helpers::curl_post":
            vals = tuple(I.arg_value(a) for a in args)
            ok = I.choose(2) == 0
            I.event("post", args=vals, ok=ok)
            if not ok:
                raise ThrowEx(EXC, ("sym", "curl-error"), "curl_post")
            return ("V", ("sym", "response"))
        return CurlHooks.call_fn(self, I, fn, obj, args, e)

    def invoke(self, I, f, args, e):
        if f == CB:
            I.event("respond", msg=I.arg_value(args[0]))
            return ("V", VOID)
        return NotImplemented


def build(U, cls, args):
    """an object of the class made by its constructor from the given arguments"""
    for c in U.ctors(cls):
        if len(c["pt"]) == len(args):
            outs = U.construct(c, args, U.rec(cls)["q"])
            if len(outs) == 1 and outs[0].exit == "next":
                return outs[0].st
    return None


ID, DESC, IDS = ("sym", "job_id"), ("sym", "desc"), ("sym", "job_ids")
FAILED = {S("status"): S("FAILED"), S("message"): DESC}
NOTIFICATIONS = [
    ("error", [DESC], [S("error")], {S("message"): DESC}),
    ("rejected_job", [ID, DESC], [S("job-status"), ID], FAILED),
    ("job_failed", [ID, DESC], [S("job-status"), ID], FAILED),
    ("job_done", [ID], [S("job-status"), ID], {S("status"): S("OK")}),
]


def c21(ctx, rep):
    prog = ctx.prog
    for name, args, path, params in NOTIFICATIONS:
        for m, w, st in messages(prog, rep, name, args):
            if fld(m, "key") != KEY:
                rep.expect(None if opaque(fld(m, "key")) else False, "key", "%s goes to the notifier" % name, w, msg="%s: the message goes to %s" % (name, show(fld(m, "key"))[:60]))
                continue
            data = fld(m, "data")
            if data[0] != "seq" or any(p[0] != "one" for p in data[1]):
                rep.undecided("message", "%s: shape of the message" % name, w)
                continue
            n = len(data[1])
            if n % 2:
                rep.bad("message", "%s: the message has an odd number of frames" % name, w)
                continue
            deliver(prog, rep, name, m, lambda f, path=path, params=params: (path, params))
    many(prog, rep)
    # arbitrary pairs
    ks = [("sym", "key%d" % i) for i in (1, 2, 3)]
    vs = [("sym", "value%d" % i) for i in (1, 2, 3)]
    data = ("seq", tuple(("one", x) for kv in zip(ks, vs) for x in kv))
    m = rec("message_container", {"key": KEY, "identity": S(""), "data": data})

    def expected(f):
        # A key given twice is no well-formed notification: only messages whose keys
        # are pairwise different are judged.
        if any(f.q_eq(a, b) is not False for i, a in enumerate(ks) for b in ks[:i]):
            return None
        ty = idv = S("")
        ps = {}
        for k, v in zip(ks, vs):
            if f.q_eq(k, S("type")) is True:
                ty = v
            elif f.q_eq(k, S("id")) is True:
                idv = v
            elif f.q_eq(k, S("type")) is False and f.q_eq(k, S("id")) is False:
                ps[k] = v
            else:
                return None
        return [x for x in (ty, idv) if x != S("")], ps

    deliver(prog, rep, "a notification", m, expected)


def messages(prog, rep, name, args):
    U = Unit(prog, NotifyHooks())
    st = build(U, "reactor_status_notifier", [CB, KEY])
    f = U.method("reactor_status_notifier", name)
    if st is None or f is None:
        rep.undecided("message", "reactor_status_notifier::%s" % name, RN)
        return
    st.events = []
    outs = run(rep, "message", lambda: U.call(f, args, st, (THIS, ())))
    rep.count(functions=1, paths=len(outs or []))
    for o in outs or []:
        ms = [e for e in o.st.events if e.kind == "respond"]
        w = where_(ms[0] if ms else None, RN)
        if o.exit not in ("next", "return") or any(e.kind == "loop" and any(x.kind == "respond" for x in deep([e])) for e in o.st.events):
            rep.undecided("message", "%s: %s" % (name, o.exit), w)
            continue
        hidden = any(opaque(k) for k in o.st.facts.atoms)
        rep.expect(True if len(ms) == 1 else None if hidden else False, "message", "%s sends one message" % name, w, msg="%s sends %d messages" % (name, len(ms)))
        if len(ms) == 1:
            yield ms[0].d["msg"], w, o.st


def many(prog, rep):
    U = Unit(prog, NotifyHooks())
    st = build(U, "reactor_status_notifier", [CB, KEY])
    f = U.method("reactor_status_notifier", "rejected_jobs")
    one = U.method("reactor_status_notifier", "rejected_job")
    if st is None or f is None or one is None:
        return
    st.events = []
    outs = run(rep, "many", lambda: U.call(f, [IDS, DESC], st, (THIS, ())))
    for o in outs or []:
        loops = [e for e in o.st.events if e.kind == "loop"]
        if o.exit not in ("next", "return"):
            rep.undecided("many", "rejected_jobs: %s" % o.exit, RN)
            continue
        if not loops:
            if o.st.facts.q_eqi(size_of(IDS), N(0)) is not True:
                bad_or_unknown(rep, "many", not any(opaque(k) for k in o.st.facts.atoms), "rejected_jobs: jobs are not reported", RN, [])
            continue
        L = loops[0].d["rec"]
        if len(loops) != 1 or L.coll != IDS or L.sym is None:
            rep.undecided("many", "rejected_jobs: loop", RN)
            continue
        if loops[0].d["exit"] is not None or L.start not in (None, N(0)):
            bad_or_unknown(rep, "many", all(b.exit in ("next", "break", "return") for b in L.bodies), "rejected_jobs: some jobs are not reported", where_(loops[0], RN), [])
            continue
        for b in L.bodies:
            ms = [e for e in b.events if e.kind == "respond"]
            hidden = any(opaque(k) for k in b.st.facts.atoms)
            rep.expect(True if len(ms) == 1 else None if hidden else False, "many", "each rejected job is reported", where_(loops[0], RN), msg="rejected_jobs: a job is reported %d times" % len(ms))
            if len(ms) != 1:
                continue
            m = ms[0].d["msg"]
            el = at(IDS, L.sym)
            deliver(prog, rep, "rejected_jobs", m, lambda f: ([S("job-status"), el], FAILED))


def deliver(prog, rep, name, m, expected):
    U = Unit(prog, NotifyHooks())
    st = build(U, "status_notifier_handler", [CONF, LOGGER])
    f = U.method("status_notifier_handler", "on_request")
    if st is None or f is None:
        rep.undecided("request", "status_notifier_handler", SN)
        return
    st.events = []
    outs = run(rep, "request", lambda: U.call(f, [m, ("sym", "respond")], st, (THIS, ())))
    rep.count(functions=1, paths=len(outs or []))
    for o in outs or []:
        evs = list(deep(o.st.events))
        d = lines(evs)
        ex = expected(o.st.facts)
        hidden = any(opaque(k) for k in o.st.facts.atoms)
        w = where_(next((e for e in evs if e.kind in ("post", "sleep")), None), SN)
        if o.exit in ("throw", "crash"):
            bad_or_unknown(rep, "contained", o.exit == "throw" and not hidden, "%s: %s" % (name, "%s escapes from the handler" % (o.val[0] if o.exit == "throw" else o.val)), w, d)
            continue
        nested = [e for e in o.st.events if e.kind == "loop" and any(x.kind == "post" for x in deep([e]))]
        if nested:
            L = nested[0].d["rec"]
            steady = [b for b in L.bodies if b.exit == "next" and any(x.kind == "post" and not x.d["ok"] for x in b.events)]
            bounded = any("add" in c.get("kinds", ()) and any(v[0] == "add" and v[1][0] == "n" for v in c["per"].values() if v) for c in L.cells.values())
            stale = [c for c in L.cells.values() if leftover(c["old"]) and any(v and v[0] == "add" and v[1][0] == "n" for v in c["per"].values())]
            if stale:
                rep.bad("attempts", "%s: the number of attempts depends on what earlier notifications left over" % name, where_(nested[0], SN), d)
                continue
            bad_or_unknown(rep, "attempts", steady and not bounded, "%s: a failing request is repeated without bound" % name, where_(nested[0], SN), d)
            continue
        # the sequence of attempts and pauses
        seq = [e for e in o.st.events if e.kind in ("post", "sleep")]
        fails, pause, good = 0, N(0), True
        done = False
        for e in seq:
            if e.kind == "sleep":
                pause = add(pause, e.d["ms"])
                continue
            if done:
                rep.bad("attempts", "%s: the request is repeated after a success" % name, where_(e, SN), d)
                good = False
                break
            if fails == 4:
                rep.bad("attempts", "%s: more than four attempts" % name, where_(e, SN), d)
                good = False
                break
            if fails:
                want = N(1000 * 2 ** (fails - 1))
                s = True if pause == want else False if pause[0] == "n" or contains(pause, leftover) else None
                rep.expect(s, "pause", "the pause after failure %d" % fails, where_(e, SN), d, msg="%s: the pause after failure %d is %s ms instead of %s" % (name, fails, show(pause), show(want)))
                if s is not True:
                    good = False
                    break
            elif pause != N(0):
                rep.expect(False if pause[0] == "n" else None, "pause", "no pause before the first attempt", where_(e, SN), d, msg="%s: a pause before the first attempt" % name)
            check_post(rep, name, o, e, ex, d, hidden)
            pause = N(0)
            if e.d["ok"]:
                done = True
            else:
                fails += 1
        if good and not done and fails < 4:
            bad_or_unknown(rep, "attempts", not hidden, "%s: %s" % (name, "nothing is sent to the frontend" if not fails else "given up after %d attempt%s" % (fails, "s" if fails > 1 else "")), w, d)
        elif good:
            rep.ok("attempts", "%s: until the first success, at most four" % name)


def check_post(rep, name, o, e, ex, d, hidden):
    a = e.d["args"]
    w = where_(e, SN)
    f = o.st.facts
    if ex is None:
        return
    path, params = ex
    adr = fld(CONF, "address")
    opts = [[]]
    for x in path:
        em = f.q_eq(x, S(""))
        new = []
        for p in opts:
            if em is not False:
                new.append(p)
            if em is not True:
                new.append(p + [x])
        opts = new
    # a path on which emptiness was never asked must carry the part
    urls = [cat(adr, *[y for x in p for y in (S("/"), x)]) for p in opts]
    if any(f.q_eq(x, S("")) is None for x in path):
        urls = [cat(adr, *[y for x in path for y in (S("/"), x)])]
    rep.expect(True if a[0] in urls else None if opaque(a[0]) or hidden else False, "url", "%s: address of the request" % name, w, d, msg="%s: the request goes to %s instead of %s" % (name, show(a[0])[:80], show(urls[-1])[:80]))
    rep.expect(True if a[1] == fld(CONF, "port") else None if opaque(a[1]) else False, "url.port", "%s: port" % name, w, d, msg="%s: the port is %s" % (name, show(a[1])[:60]))
    ps = a[2]
    if ps[0] == "map" and ps[1] == ("empty",):
        got = dict(ps[2])
        same_ = got == params
        missing = [show(k) for k in params if k not in got]
        extra = [show(k) for k in got if k not in params]
        wrong = [show(k) for k in got if k in params and got[k] != params[k]]
        un = hidden or any(opaque(x) for kv in got.items() for x in kv) or any(f.q_eq(x, y) is not False for x in got for y in params if x != y and (x[0] != "str" or y[0] != "str"))
        rep.expect(True if same_ else None if un else False, "params", "%s: parameters" % name, w, d, msg="%s: parameters %s" % (name, "; ".join(x for x in ("missing " + ", ".join(missing) if missing else "", "unexpected " + ", ".join(extra) if extra else "", "wrong " + ", ".join(wrong) if wrong else "") if x)))
    elif leftover(ps):
        rep.bad("params", "%s: the parameters of earlier notifications are sent again" % name, w, d)
    else:
        rep.undecided("params", "%s: parameters" % name, w)
    for i, n in ((3, "username"), (4, "password")):
        v = a[i] if len(a) > i else S("")
        rep.expect(True if v == fld(CONF, n) else None if opaque(v) else False, "auth", "%s: %s" % (name, n), w, d, msg="%s: the %s is %s" % (name, n, show(v)[:60]))
