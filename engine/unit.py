"""Abstract runs of single functions, constructors and methods with symbolic arguments."""
from handler import Hooks
from interp import Interp, Limit, St
from ir import AnalysisBroken, strip_type, tmpl_args, tmpl_name
from terms import *

THIS = ("h", "this")


class Unit:
    def __init__(self, prog, hooks=None):
        self.prog = prog
        self.hooks = hooks or Hooks()
        self.I = Interp(prog, self.hooks)

    def rec(self, cls):
        r = self.prog.rec(cls) or self.prog.rec_by_q(cls)
        if r is None:
            raise AnalysisBroken("class %s not found" % cls)
        return r

    def ctors(self, cls):
        r = self.rec(cls)
        return [m["fn"] for m in r["methods"] if m["fn"]["kind"] == "ctor" and not m["fn"].get("cm") and m["fn"]["usr"] in self.prog.fns]

    def fn(self, q, npar=None):
        fs = [f for f in self.prog.by_q.get(q, []) if f.get("body") is not None]
        if npar is not None:
            fs = [f for f in fs if len(f["params"]) == npar]
        if not fs:
            raise AnalysisBroken("%s not found" % q)
        return fs[0]

    def method(self, cls, name):
        """the final overrider of a method in a class or its bases"""
        r = self.rec(cls)
        for m in r["methods"]:
            if m["fn"]["n"] == name and m["fn"]["usr"] in self.prog.fns and self.prog.fns[m["fn"]["usr"]].get("body") is not None:
                return self.prog.fns[m["fn"]["usr"]]
        for b in r.get("bases", []):
            f = self.method(b if isinstance(b, str) else b.get("ty") or b.get("q"), name)
            if f is not None:
                return f
        return None

    def construct(self, ctor, args, ty, st=None):
        I = self.I

        def go():
            I.st.store[THIS] = VOID
            I.construct_repo((THIS, ()), ctor, [a if a[0] in ("L", "V") and len(a) == 2 else ("L", I.tmp(a)) for a in args], ty)
            return VOID

        return I.run(go, st or St())

    def call(self, f, args, st=None, this=None):
        I = self.I

        def go():
            v = I.arg_value(I.inline(f, this, [("L", I.tmp(a)) for a in args]))
            if f["fn"]["rt"] == "bool" and v not in (TRUE, FALSE):
                v = TRUE if I.branch(I.truth(v)) else FALSE
            return v

        return I.run(go, st or St())

    def obj(self, cls, prefix="O."):
        """an object with arbitrary fields"""
        r = self.rec(cls)
        return rec(r["q"], {fd["n"]: ("sym", prefix + fd["n"]) for fd in r["fields"]})
