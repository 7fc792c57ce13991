"""Models of cppzmq, std::thread and calls through the reactor's interfaces, as events."""
from handler import Hooks
from interp import ThrowEx
from ir import strip_type
from terms import *

SNDMORE = 2
MSG = "zmq::message_t"
SOCK = "zmq::socket_t"


def base_cls(fn):
    c = fn.get("cls", "")
    return {"zmq::detail::socket_base": SOCK, "zmq::socket_ref": SOCK}.get(c, c)


class NetHooks(Hooks):
    def __init__(self, fail=False, virt=(), stop=()):
        self.fail = fail  # sends and receives may throw zmq::error_t
        self.virt = set(virt)  # classes whose virtual methods on unknown objects become events
        self.stop = set(stop)  # qualified names of repository functions that become events

    # ---- construction
    def ctor(self, I, l, e):
        fn = e["fn"]
        cls = fn.get("cls", "")
        if cls == MSG:
            vals = [I.val(a) for a in e["args"]]
            if not vals:
                I.write(l, rec(MSG, {"bytes": S(""), "more": FALSE}), quiet=True)
            elif len(vals) == 2 and vals[0][0] != "n":
                I.write(l, rec(MSG, {"bytes": self.buffer(vals[0], vals[1]), "more": FALSE}), quiet=True)
            elif len(vals) == 1 and vals[0][0] == "rec":
                I.write(l, vals[0], quiet=True)
            else:
                I.write(l, rec(MSG, {"bytes": ("ap", "message_t", *vals), "more": FALSE}), quiet=True)
            return True
        if cls == SOCK:
            vals = tuple(I.val(a) for a in e["args"])
            n = I.st.fresh("socket")
            I.write(l, ("ap", "socket", N(n)), quiet=True)
            I.event("zsocket", loc=l, args=vals)
            return True
        if cls == "std::thread":
            vals = tuple(I.val(a) for a in e["args"])
            if vals and vals[0][0] == "clo":
                I.event("thread", fn=vals[0], loc=l, snap=dict(I.st.store))
                I.write(l, ("ap", "thread", vals[0]), quiet=True)
            elif vals:
                I.event("thread", fn=vals, loc=l, snap=dict(I.st.store))
                I.write(l, ("ap", "thread", *vals), quiet=True)
            else:
                I.write(l, NULL, quiet=True)
            return True
        return NotImplemented

    def buffer(self, p, n):
        """the bytes a pointer and a length name"""
        if p[0] == "zdata":
            m = p[1]
            return m if n == size_of(m) else ("bytes", m, n)
        if n == size_of(p):
            return p
        if n[0] == "n" and p[0] == "str":
            return S(p[1][: n[1]])
        return ("bytes", p, n)

    def sock(self, I, l):
        l = I.resolve(l) if hasattr(I, "resolve") else l
        return l

    def may_fail(self, I, what):
        if self.fail and I.choose(2) == 1:
            I.event("zfail", op=what)
            raise ThrowEx("zmq::error_t", ("sym", "zmq-error"), what)

    def ext_method(self, I, e, l, args):
        fn = e["fn"]
        n = fn["n"]
        cls = base_cls(fn)
        vals = [I.arg_value(a) for a in args]
        if cls == MSG:
            v = I.read(l)
            b = fld(v, "bytes")
            if n == "data":
                return ("V", ("zdata", b))
            if n == "size":
                return ("V", size_of(b))
            if n == "more":
                return ("V", fld(v, "more"))
            if n in ("str", "to_string", "to_string_view"):
                return ("V", b)
            if n in ("rebuild",):
                if not vals:
                    I.write(l, rec(MSG, {"bytes": S(""), "more": FALSE}), quiet=True)
                    return ("V", VOID)
            return NotImplemented
        if cls == SOCK:
            s = self.sock(I, l)
            if n == "send":
                flags = N(0)
                if len(vals) >= 2 and vals[0][0] != "rec" and not (vals[0][0] == "ptr"):
                    data = self.buffer(vals[0], vals[1])
                    if len(vals) > 2:
                        flags = vals[2]
                else:
                    v = vals[0]
                    if v[0] == "ptr":
                        v = I.read((v[1], v[2]))
                    data = fld(v, "bytes")
                    if len(vals) > 1:
                        flags = vals[1]
                self.may_fail(I, "send")
                I.event("zsend", sock=s, data=data, more=self.more(I, flags))
                return ("V", ("cmp", ">", size_of(data), N(-1)) if fn["rt"] == "bool" else size_of(data))
            if n == "recv":
                v = vals[0]
                tgt = None
                if v[0] == "ptr":
                    tgt = (v[1], v[2])
                elif args[0][0] == "L":
                    tgt = args[0][1]
                if tgt is None:
                    return NotImplemented
                flags = vals[1] if len(vals) > 1 else N(0)
                self.may_fail(I, "recv")
                k = I.st.fresh("rx")
                fr = ("sym", "frame~%d" % k)
                mo = ("sym", "more~%d" % k)
                I.write(tgt, rec(MSG, {"bytes": fr, "more": mo}), quiet=True)
                I.event("zrecv", sock=s, frame=fr, more=mo, flags=flags)
                return ("V", TRUE)
            if n in ("bind", "connect", "setsockopt", "set", "close", "unbind", "disconnect"):
                I.event("z" + n, sock=s, args=tuple(vals))
                return ("V", VOID)
            if n.startswith("operator") or n in ("handle",):
                return ("V", ("ap", "handle", ("ptr", s[0], s[1])))
            return NotImplemented
        if cls == "std::thread":
            if n == "join":
                I.event("join", loc=l)
                return ("V", VOID)
            if n == "joinable":
                return ("V", TRUE)
            if n == "detach":
                I.event("detach", loc=l)
                return ("V", VOID)
            if n in ("operator=", "swap"):
                I.write(l, vals[0], quiet=True)
                return ("L", l)
        return NotImplemented

    def more(self, I, flags):
        if flags[0] == "n":
            return ("b", bool(flags[1] & SNDMORE))
        if flags[0] == "enum":
            return ("b", bool(flags[2] & SNDMORE))
        if flags[0] == "ite":
            return TRUE if I.branch(flags[1]) and self.more(I, flags[2]) == TRUE else self.more(I, flags[3])
        return ("ap", "flags", flags)

    def ext_fn(self, I, e, args):
        fn = e["fn"]
        vals = [I.arg_value(a) for a in args]
        if fn["q"] in ("zmq::poll", "zmq_poll", "zmq::detail::poll"):
            I.event("poll", args=tuple(vals))
            for a, x in zip(args, vals):
                if a[0] == "L" and x[0] in ("seq", "sym", "at"):
                    I.write(a[1], ("ap", "polled", x), quiet=True)
            return ("V", ("sym", "ready~%d" % I.st.fresh("poll")))
        return NotImplemented

    # ---- repository functions
    def call_fn(self, I, fn, obj, args, e):
        q = fn.get("cls", "") + "::" + fn["n"] if fn.get("cls") else fn["q"]
        if q in self.stop or fn["q"] in self.stop:
            return self.as_event(I, fn, obj, args)
        if fn.get("virt") and fn.get("cls") in self.virt and obj is not None and not (e or {}).get("qualified"):
            v = I.read(obj)
            if v[0] != "rec" or I.dispatch(fn, obj, e) not in I.prog.fns:
                return self.as_event(I, fn, obj, args)
        return NotImplemented

    def as_event(self, I, fn, obj, args):
        o = None
        if obj is not None:
            o = obj[0][1] if obj[0][0] == "p" and not obj[1] else ("ptr", obj[0], obj[1])
        vals = tuple(I.arg_value(a) for a in args)
        I.event("vcall", cls=fn.get("cls", ""), name=fn["n"], obj=o, args=vals, fn=fn)
        for a, t in zip(args, fn.get("pt", [])):
            if a[0] == "L" and t.rstrip().endswith("&") and not t.startswith("const "):
                k = I.st.fresh("out")
                v = I.read(a[1])
                I.write(a[1], self.filled(I, fn, v, k), quiet=True)
        if fn["rt"] == "void":
            return ("V", VOID)
        return ("V", ("ap", fn["n"], o if o is not None else VOID, N(I.st.fresh("vc"))))

    def filled(self, I, fn, v, k):
        if fn["n"] == "receive_message" and fn["rt"] == "bool":
            # the implementations leave the key alone (checked where they are analysed)
            o = ("sym", "out~%d" % k)
            return rec("message_container", {"key": fld(v, "key"), "identity": fld(o, "identity"), "data": fld(o, "data")})
        return ("sym", "out~%d" % k)
