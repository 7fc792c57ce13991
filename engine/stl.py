"""Contracts of the library functions the broker uses (containers, strings, smart pointers, algorithms, chrono)."""
import re

from ir import strip_type, tmpl_args, tmpl_name
from terms import *

SEQ = {
    "std::vector",
    "std::list",
    "std::deque",
    "std::queue",
    "std::stack",
    "std::array",
    "std::initializer_list",
    "std::set",
    "std::unordered_set",
    "std::multiset",
    "std::forward_list",
}
MAP = {"std::map", "std::unordered_map"}
MMAP = {"std::multimap", "std::unordered_multimap"}
STR = {"std::basic_string", "std::basic_string_view"}
PTR = {"std::shared_ptr", "std::unique_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::weak_ptr", "std::__uniq_ptr_impl"}
INTEGRAL = {"short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long"}
STREAM = {"std::basic_stringstream", "std::basic_ostringstream", "std::basic_istringstream", "std::basic_ostream", "std::basic_ios"}
ITER = {
    "__gnu_cxx::__normal_iterator",
    "std::_List_iterator",
    "std::_List_const_iterator",
    "std::_Rb_tree_iterator",
    "std::_Rb_tree_const_iterator",
    "std::_Deque_iterator",
    "std::__detail::_Node_iterator",
    "std::__detail::_Node_const_iterator",
}
NPOS = N(2**64 - 1)


def cstr(v, ty):
    """a string made of a char pointer ends at the first zero byte"""
    if "char *" not in str(ty) or "basic_string" in str(ty):
        return v
    if v[0] in ("str", "null", "ptr", "chr", "n", "zdata") or v[:2] in (("ap", "to_string"), ("ap", "cstr"), ("ap", "urlenc")):
        return v
    if v[0] == "cat" and all(x[0] == "str" for x in v[1]):
        return v
    return ("ap", "cstr", v)


def zbytes(m, n):
    """the first n bytes of a network frame"""
    return m if n == size_of(m) else ("bytes", m, n)


class Models:
    def __init__(self, interp):
        self.I = interp
        self.multis = set()  # multimaps looked at through iterators

    # ------------------------------------------------------------------ types
    def kind_of(self, ty):
        n = tmpl_name(ty)
        if n in SEQ:
            return "seq"
        if n in MAP:
            return "map"
        if n in MMAP:
            return "mmap"
        if n in STR:
            return "str"
        if n in PTR:
            return "ptr"
        if n in STREAM:
            return "ss"
        if n in ITER:
            return "it"
        if n == "std::reverse_iterator":
            return "rit"
        if n == "std::function":
            return "fun"
        if n in ("std::pair", "std::tuple"):
            return "pair"
        if n == "std::chrono::duration":
            return "dur"
        if n == "std::chrono::time_point":
            return "tp"
        if n in ("std::atomic", "std::__atomic_base", "std::atomic_flag"):
            return "atomic"
        if n == "std::optional" or n.startswith("std::_Optional"):
            return "opt"
        if n == "std::reference_wrapper":
            return "refw"
        return None

    def default_value(self, ty, uninit=False):
        I = self.I
        k = self.kind_of(ty)
        t = strip_type(ty)
        if ty.rstrip().endswith("*"):
            return ("sym", "uninit:ptr") if uninit else NULL
        if k == "seq":
            return EMPTYSEQ
        if k == "map":
            return ("map", ("empty",), (), False)
        if k == "mmap":
            return ("map", ("empty",), (), True)
        if k == "str" or k == "ss":
            return S("")
        if k in ("ptr", "fun", "opt"):
            return NULL
        if k == "pair":
            a = tmpl_args(ty)
            if len(a) == 2:
                return rec("std::pair", {"first": self.default_value(a[0]), "second": self.default_value(a[1])})
        if k in ("dur", "tp"):
            return N(0)
        if t == "bool":
            return ("sym", "uninit:bool") if uninit else FALSE
        if I.is_int_type(t):
            return ("sym", "uninit:int") if uninit else N(0)
        if k == "atomic":
            return ("sym", "uninit:atomic")
        r = I.prog.rec(ty)
        if r is not None:
            # default construction of a repository class
            l = I.tmp(VOID)
            ctor = None
            for m in r["methods"]:
                if m["fn"]["kind"] == "ctor" and m["fn"].get("pm", "") == "" and m["fn"]["usr"] in I.prog.fns:
                    ctor = I.prog.fns[m["fn"]["usr"]]
            if ctor is not None:
                I.construct_repo(l, ctor["fn"], [], r["ty"])
            else:
                fr = I.frame
                I.init_object(l, r, {})
            return I.read(l)
        if "::" in t and t.startswith("std::"):
            return ("ap", "default", ("sym", t))
        return ("ap", "default", ("sym", t)) if not uninit else ("sym", "uninit:" + t)

    def fld(self, v, f):
        return fld(v, f)

    # ------------------------------------------------------------------ construction
    def moved(self, l, v, ty):
        """the state of a moved-from object"""
        k = self.kind_of(ty)
        if k in ("seq", "map", "mmap", "str", "ptr", "fun"):
            self.I.write(l, self.default_value(ty), quiet=False)

    def construct(self, l, e):
        I = self.I
        fn = e["fn"]
        ty = e.get("ty") or fn.get("cls", "")
        k = self.kind_of(ty) or self.kind_of(fn.get("cls", ""))
        args = e["args"]
        # drop defaulted allocator arguments
        args = [a for a in args if not (a["k"] == "ctor" and a.get("cls", "").startswith("std::allocator"))]
        cm = fn.get("cm")
        if cm == "move" and len(args) == 1 and I.is_lvalue(args[0]):
            src = I.resolve(I.loc(args[0]))
            v = I.read(src)
            I.write(l, v, quiet=True)
            if src[0][0] != "tmp":
                self.moved(src, v, ty)
            return
        if cm and len(args) == 1:
            I.write(l, I.val(args[0]), quiet=True)
            return
        pm = fn.get("pm", "")
        if k in ("ptr",) and args and pm[:1] == "m" and I.is_lvalue(args[0]):
            # converting move of a smart pointer
            src = I.resolve(I.loc(args[0]))
            v = I.read(src)
            I.write(l, v, quiet=True)
            if src[0][0] != "tmp":
                I.write(src, NULL)
            return
        v = self.build(k, ty, fn, args, e)
        I.write(l, v, quiet=True)

    def build(self, k, ty, fn, args, e):
        I = self.I
        pm = fn.get("pm", "")
        if k == "str":
            if not args:
                return S("")
            if len(args) >= 2:
                a0 = I.val(args[0])
                a1 = I.val(args[1])
                if a0[0] == "it" and a1[0] == "it":
                    return self.str_range(a0, a1)
                if a0[0] == "zdata":
                    return zbytes(a0[1], a1)
                if a0[0] in ("n",) and a1[0] == "chr":
                    return S(chr(a1[1]) * a0[1]) if a0[1] < 1000 else ("ap", "str.fill", a0, a1)
                if len(args) == 2 and a1 == size_of(a0):
                    return a0
                if len(args) == 2 and a0[0] == "str" and a1[0] == "n":
                    return S(a0[1][: a1[1]])
                if len(args) == 2 and a0[0] != "ptr" and "char *" in str((fn.get("pt") or [""])[0]):
                    return ("ap", "substr", a0, N(0), a1)
                return ("ap", "str.make", a0, a1)
            return cstr(I.val(args[0]), (fn.get("pt") or [""])[0])
        if k == "seq":
            if not args:
                return EMPTYSEQ
            if tmpl_name(ty) in ("std::queue", "std::stack"):
                return I.val(args[0])
            a0 = I.val(args[0])
            if len(args) == 1:
                if a0[0] == "n" and not e.get("list"):
                    return ("resized", EMPTYSEQ, a0) if a0[1] else EMPTYSEQ
                if fn.get("pm", "")[:1] == "v" and a0[0] in ("lin", "size", "sym", "fld") and "initializer_list" not in str(fn.get("pt")):
                    self.length(a0)
                    return ("resized", EMPTYSEQ, a0)
                return a0
            a1 = I.val(args[1])
            if a0[0] == "it" and a1[0] == "it":
                c = I.read((a0[1], a0[2]))
                return self.range_value(a0, a1)
            if a0[0] == "n" and a0[1] < 64:
                return ("seq", tuple(("one", a1) for _ in range(a0[1])))
            return ("ap", "fill", a0, a1)
        if k in ("map", "mmap"):
            multi = k == "mmap"
            if not args:
                return ("map", ("empty",), (), multi)
            a0 = I.val(args[0])
            if a0[0] == "seq":
                m = ("map", ("empty",), (), multi)
                for p in a0[1]:
                    if p[0] == "one":
                        m = self.map_insert(m, fld(p[1], "first"), fld(p[1], "second"))
                return m
            if len(args) >= 2 and a0[0] == "it":
                a1 = I.val(args[1])
                return ("map", ("ap", "map.range", self.range_value(a0, a1)), (), multi)
            return a0
        if k == "ptr":
            if not args:
                return NULL
            v = I.val(args[0])
            return v
        if k in ("fun", "it", "rit", "opt", "tp", "refw"):
            if not args:
                return NULL if k != "tp" else N(0)
            if k == "refw":
                l = I.resolve(I.loc(args[0]))
                return ("ptr", l[0], l[1])
            return I.val(args[0])
        if k == "pair":
            if len(args) == 2:
                return rec("std::pair", {"first": I.val(args[0]), "second": I.val(args[1])})
            if len(args) == 1:
                return I.val(args[0])
            return self.default_value(ty)
        if k == "dur":
            if not args:
                return N(0)
            v = I.val(args[0])
            src = self.period((fn.get("pt") or [""])[0])
            dst = self.period(ty)
            if src is not None and dst is not None:
                return self.rescale(v, src, dst)
            return v
        if k == "atomic":
            return I.val(args[0]) if args else ("sym", "uninit:atomic")
        if k == "ss":
            return I.val(args[0]) if args and self.kind_of(args[0].get("ty", "")) == "str" else S("")
        vals = [I.val(a) for a in args]
        cls = fn.get("cls", ty)
        if cls in ("std::runtime_error", "std::logic_error", "std::exception", "std::invalid_argument", "std::out_of_range"):
            return rec(cls, {"what": vals[0] if vals else S("")})
        if cls == "std::allocator":
            return VOID
        if cls == "fmt::basic_format_string":
            return vals[0] if vals else VOID
        return ("ap", "ctor:" + cls, *vals)

    def period(self, ty):
        """ticks per second as (num, den) of a duration type"""
        m = re.search(r"std::chrono::duration<[^,<>]*(?:<[^<>]*>)?, std::ratio<(\d+), (\d+)>>", ty or "")
        if not m:
            return None
        return int(m.group(1)), int(m.group(2))

    def rescale(self, v, src, dst, trunc=False):
        # one src tick = src[0]/src[1] s ; in dst ticks: (src0*dst1)/(src1*dst0)
        n, d = src[0] * dst[1], src[1] * dst[0]
        from math import gcd

        g = gcd(n, d)
        n, d = n // g, d // g
        if d == 1:
            return mulc(v, n)
        if v[0] == "n":
            return N((v[1] * n) // d)
        return ("ap", "trunc", mulc(v, n), N(d))

    # ------------------------------------------------------------------ iterators
    def it(self, l, pos):
        return ("it", l[0], l[1], pos)

    def container(self, it):
        return self.I.read((it[1], it[2]))

    def it_advance(self, it, k):
        if it[0] != "it":
            return ("ap", "it.adv", it, k)
        if it[3][0] == "key":
            return ("it", it[1], it[2], ("after", it[3][1]))
        if it[3][0] == "after":
            return ("it", it[1], it[2], ("after", it[3]))
        return ("it", it[1], it[2], add(it[3], k))

    def it_eq(self, a, b):
        if a[0] == "it" and b[0] == "it":
            pa, pb = a[3], b[3]
            if a[1:3] != b[1:3]:
                ca, cb = self.container(a), self.container(b)
                for x, c, y, o in ((pa, ca, pb, cb), (pb, cb, pa, ca)):
                    if c[0] in ("eqr", "seq") and x == N(0) and y == self.csize(o) and o[0] != "eqr":
                        return FALSE  # the element find() gave, compared with end()
                if ca != cb:
                    return ("cmp", "==", a, b)
            for x, y in ((pa, pb), (pb, pa)):
                if x[0] == "key" and y[0] != "key":
                    c = self.container(a)
                    if y == self.csize(c):
                        return FALSE
                    return ("cmp", "==", ("ap", "pos", x), y)
                if x[0] == "after":
                    return ("cmp", "==", ("ap", "pos", x), ("ap", "pos", y))
            if pa[0] == "key" and pb[0] == "key":
                return ("cmp", "==", pa[1], pb[1])
            return ("cmp", "==i", pa, pb)
        return ("cmp", "==", a, b)

    def csize(self, c):
        if c[0] == "map":
            return size_of(c)
        return size_of(c)

    def it_elem(self, it):
        I = self.I
        c = self.container(it)
        pos = it[3]
        l = (it[1], it[2])
        if c[0] == "map" or (pos[0] == "key"):
            m = I.as_map(c)
            if pos[0] == "key":
                r = I.map_find(m, pos[1])
                if r[0] == "absent":
                    I.event("hazard", why="iterator to an erased or missing entry", term=pos[1])
                    self.crash("iterator to an erased or missing map entry")
                return (l[0], l[1] + (("e", pos[1]),))
            if pos[0] == "after":
                return I.tmp(("ap", "deref", ("ap", "pos", pos)))
            if not m[2]:
                self.bound(pos, size_of(m), "iterator dereferenced at or past the end")
                return (l[0], l[1] + (("e", ("ky", m[1], pos)),))
            return I.tmp(("ap", "deref", c, pos))
        if pos[0] == "after":
            return I.tmp(("ap", "deref", ("ap", "pos", pos)))
        self.bound(pos, size_of(c), "iterator dereferenced at or past the end")
        return (l[0], l[1] + (("i", pos),))

    def crash(self, why):
        from interp import CrashEx

        raise CrashEx(why)

    def bound(self, i, n, why, throw=None):
        """0 <= i < n, or the path crashes / throws"""
        from interp import ThrowEx

        I = self.I
        f = I.st.facts
        q = f.q_lt(i, n)
        if q is True:
            return
        if q is None:
            if I.choose(2) == 0:
                f.set_lt(i, n, True)
                return
            f.set_lt(i, n, False)
        self.unless_assured()
        if throw:
            raise ThrowEx(throw, None, why)
        I.event("hazard", why=why, term=i)
        self.crash(why)

    def length(self, k):
        """a number of elements asked for: a size minus more than there is wraps around to an impossible length"""
        from interp import ThrowEx

        c, d = lin_parts(k)
        if c >= 0 or len(d) != 1 or not all(t[0] == "size" and x == 1 for t, x in d.items()):
            return
        f = self.I.st.facts
        q = f.q_lt(k, N(0))
        if q is None:
            if self.I.choose(2) == 0:
                f.set_lt(k, N(0), False)
                return
            f.set_lt(k, N(0), True)
        elif not q:
            return
        raise ThrowEx("std::length_error", None, "a length that wraps around below zero")

    def unless_assured(self):
        """the path assumed away an entry that an invariant guarantees"""
        I = self.I
        for a, v in I.st.facts.atoms.items():
            if not v and a[0] == "nz" and a[1][0] == "has" and I.hooks.assured(I, a[1][1], a[1][2]):
                raise Infeasible()

    def range_value(self, a, b):
        """value sequence between two iterators"""
        if a[0] == "it" and b[0] == "it" and a[1:3] == b[1:3]:
            c = self.container(a)
            if c[0] == "map":
                if a[3] == N(0) and b[3] == size_of(c):
                    return ("ap", "entries", c)
                return ("ap", "map.range", c, a[3], b[3])
            lo, hi = a[3], b[3]
            f = self.I.st.facts
            # an empty or inverted range
            q = f.q_lt(hi, lo)
            if q is True:
                self.I.event("hazard", why="inverted iterator range", term=lo)
                self.crash("inverted iterator range")
            if q is None:
                d = sub(hi, lo)
                if self.I.choose(2) == 0:
                    f.set_lt(hi, lo, False)
                else:
                    f.set_lt(hi, lo, True)
                    self.I.event("hazard", why="iterator range past the end", term=lo)
                    self.crash("iterator range past the end of the container")
            return mk_slice(c, lo, hi)
        return ("ap", "range", a, b)

    def str_range(self, a, b):
        c = self.container(a)
        if a[3] == N(0) and b[3] == size_of(c):
            return c
        return ("ap", "substr", c, a[3], sub(b[3], a[3]))

    # ------------------------------------------------------------------ calls
    def call(self, e):
        I = self.I
        fn = e["fn"]
        n = fn["n"]
        if e.get("obj") is not None:
            oty = e.get("oty", "")
            k = self.kind_of(oty) or self.kind_of(fn.get("cls", ""))
            if oty.rstrip().endswith("*") and not e.get("arrow"):
                pass
            m = getattr(self, "m_" + k, None) if k else None
            if m is not None:
                r = m(e, n)
                if r is not None:
                    return r
            return self.other_method(e, n)
        f = getattr(self, "f_" + n.replace("operator", "op_"), None) if not n.startswith("operator") else None
        if n.startswith("operator"):
            r = self.free_op(e, e.get("op") or n[8:])
            if r is not None:
                return r
        elif f is not None:
            r = f(e)
            if r is not None:
                return r
        return self.other_fn(e)

    def other_method(self, e, n):
        I = self.I
        fn = e["fn"]
        q = fn.get("cls", "?") + "::" + n
        if fn.get("cls") == "std::exception" or n == "what":
            v = I.val(e["obj"])
            return ("V", fld(v, "what") if v[0] == "rec" else ("ap", "what", v))
        if fn.get("cls", "").startswith("spdlog::"):
            vals = [I.val(a) for a in e["args"]]
            if I.hooks is not None:
                I.hooks.log_method(I, n, vals)
            if fn["rt"] == "void":
                return ("V", VOID)
            return ("V", ("ap", q))
        l = I.obj_loc(e)
        args = I.eval_args(fn, e["args"])
        vals = [I.arg_value(a) for a in args]
        if I.hooks is not None:
            r = I.hooks.ext_method(I, e, l, args)
            if r is not NotImplemented:
                return r
        I.opaque_calls.add(q)
        I.event("ext", q=q, args=tuple(vals), obj=l)
        pm = fn.get("pm", "")
        nn = I.st.fresh("ext")
        for i, a in enumerate(args):
            if i < len(pm) and pm[i] in "r" and a[0] == "L":
                I.write(a[1], ("sym", "%s~%d" % (q, nn)), quiet=True)
        if not fn.get("mconst"):
            # may change the object
            old = I.read(l)
            if fn["rt"] == "void":
                I.write(l, ("ap", "after:" + q, old, *vals), quiet=True)
                return ("V", VOID)
            if n in ("operator/=", "operator+=", "operator=", "append", "concat", "operator<<=") and fn["rt"].rstrip().endswith("&"):
                # assigns to the object and returns it
                I.write(l, ("ap", "after:" + q, old, *vals), quiet=True)
                return ("L", l)
        return ("V", ("ap", q, I.read(l), *vals))

    def other_fn(self, e):
        I = self.I
        fn = e["fn"]
        args = I.eval_args(fn, e["args"])
        vals = [I.arg_value(a) for a in args]
        if I.hooks is not None:
            r = I.hooks.ext_fn(I, e, args)
            if r is not NotImplemented:
                return r
        q = fn["q"]
        I.opaque_calls.add(q)
        I.event("ext", q=q, args=tuple(vals), obj=None)
        pm = fn.get("pm", "")
        nn = I.st.fresh("ext")
        for i, a in enumerate(args):
            if i < len(pm) and pm[i] == "r" and a[0] == "L":
                I.write(a[1], ("sym", "%s~%d" % (q, nn)), quiet=True)
        if fn["rt"] == "void":
            return ("V", VOID)
        return ("V", ("ap", q, *vals))

    def args(self, e):
        I = self.I
        return [I.val(a) for a in e["args"]]

    # ---- sequences
    def m_seq(self, e, n):
        I = self.I
        fn = e["fn"]
        l = I.obj_loc(e)
        c = I.read(l)
        if n in ("size", "max_size", "capacity"):
            return ("V", size_of(c))
        if n == "empty":
            return ("V", ("cmp", "==i", size_of(c), N(0)))
        if n == "at":
            i = I.val(e["args"][0])
            self.bound(i, size_of(c), "at() out of range", "std::out_of_range")
            return ("L", (l[0], l[1] + (("i", i),)))
        if n == "operator[]":
            i = I.val(e["args"][0])
            self.bound(i, size_of(c), "subscript out of range")
            return ("L", (l[0], l[1] + (("i", i),)))
        if n in ("front", "top") and tmpl_name(e.get("oty", "")) != "std::stack":
            self.bound(N(0), size_of(c), "front() of an empty container")
            return ("L", (l[0], l[1] + (("i", N(0)),)))
        if n in ("back", "top"):
            self.bound(N(0), size_of(c), "back() of an empty container")
            return ("L", (l[0], l[1] + (("i", sub(size_of(c), N(1))),)))
        if n in ("begin", "cbegin"):
            return ("V", self.it(l, N(0)))
        if n in ("end", "cend"):
            return ("V", self.it(l, size_of(c)))
        if n in ("rbegin", "crbegin", "rend", "crend"):
            return ("V", ("rit", l[0], l[1], N(0) if "begin" in n else size_of(c)))
        if n in ("push_back", "push", "push_front", "emplace_back", "emplace_front", "emplace"):
            if n == "emplace" and tmpl_name(e.get("oty", "")) not in ("std::queue", "std::stack", "std::set", "std::unordered_set"):
                pos = I.val(e["args"][0])
                v = self.make(tmpl_args(e.get("oty", ""))[0], [self.marg(a) for a in e["args"][1:]])
                return self.insert_at(l, pos, (("one", v),))
            if n.startswith("emplace"):
                a = tmpl_args(strip_type(e.get("oty", "")))
                v = self.make(a[0] if a else "", [self.marg(a) for a in e["args"]])
            else:
                v = self.marg(e["args"][0])
            c = I.read(l)
            front = n in ("push_front", "emplace_front")
            if tmpl_name(e.get("oty", "")) in ("std::set", "std::unordered_set"):
                return self.set_insert(l, c, v)
            new = mk_seq((("one", v),) + parts_of(c)) if front else mk_seq(parts_of(c) + (("one", v),))
            I.write(l, new)
            I.event("cm", loc=l, op="push_front" if front else "push_back", val=v)
            nl = N(0) if front else sub(size_of(new), N(1))
            return ("L", (l[0], l[1] + (("i", nl),)))
        if n in ("pop", "pop_front"):
            if tmpl_name(e.get("oty", "")) == "std::stack":
                return self.pop_back(l, c)
            self.bound(N(0), size_of(c), "pop from an empty container")
            new = mk_slice(c, N(1), size_of(c))
            I.event("cm", loc=l, op="pop_front", val=at(c, N(0)))
            I.write(l, new)
            return ("V", VOID)
        if n == "pop_back":
            return self.pop_back(l, c)
        if n == "clear":
            I.write(l, EMPTYSEQ)
            I.event("cm", loc=l, op="clear", val=c)
            return ("V", VOID)
        if n in ("reserve", "shrink_to_fit"):
            for k in self.args(e):
                self.length(k)
            return ("V", VOID)
        if n == "resize":
            k = I.val(e["args"][0])
            self.length(k)
            if c == EMPTYSEQ:
                I.write(l, ("resized", EMPTYSEQ, k))
            elif I.st.facts.q_lt(size_of(c), k) is False:
                I.write(l, mk_slice(c, N(0), k))
            elif I.st.facts.q_eqi(size_of(c), k) is True:
                pass
            else:
                I.write(l, ("resized", c, k))
            return ("V", VOID)
        if n == "assign":
            a = self.args(e)
            if len(a) == 2 and a[0][0] == "it":
                I.write(l, self.range_value(a[0], a[1]))
            elif len(a) == 1:
                I.write(l, a[0])
            else:
                I.write(l, ("ap", "fill", *a))
            return ("V", VOID)
        if n == "operator=":
            a = e["args"][0]
            v = self.marg(a) if fn.get("pm") == "m" else I.val(a)
            I.write(l, v)
            return ("L", l)
        if n == "swap":
            o = I.resolve(I.loc(e["args"][0]))
            a, b = I.read(l), I.read(o)
            I.write(l, b)
            I.write(o, a)
            return ("V", VOID)
        if n == "insert":
            if tmpl_name(e.get("oty", "")) in ("std::set", "std::unordered_set"):
                return self.set_insert(l, c, I.val(e["args"][0]))
            a = [self.marg(x) if i else I.val(x) for i, x in enumerate(e["args"])]
            if len(a) == 3 and a[1][0] == "it":
                rv = self.range_value(a[1], a[2])
                return self.insert_at(l, a[0], (("all", rv),))
            if len(a) == 2:
                if a[1][0] == "seq" and "initializer_list" in str(fn.get("pt")):
                    return self.insert_at(l, a[0], a[1][1])
                return self.insert_at(l, a[0], (("one", a[1]),))
            I.write(l, ("ap", "insert", c, *a))
            return ("V", ("ap", "it"))
        if n == "erase":
            a = self.args(e)
            c = I.read(l)  # the arguments may have changed it (erase-remove idiom)
            if a and a[0][0] != "it":
                # set::erase(key)
                I.write(l, self.without(c, a[0]))
                I.event("cm", loc=l, op="remove", val=a[0])
                return ("V", ("ap", "erased"))
            p = a[0][3]
            if len(a) == 1:
                self.bound(p, size_of(c), "erase() at the end iterator")
                I.event("cm", loc=l, op="erase", val=at(c, p), pos=p)
                I.write(l, self.erase_one(c, p))
                return ("V", a[0])
            hi = a[1][3]
            I.event("cm", loc=l, op="erase_range", val=mk_slice(c, p, hi), lo=p, hi=hi)
            I.write(l, mk_seq((("all", mk_slice2(c, N(0), p)), ("all", mk_slice2(c, hi, size_of(c))))))
            return ("V", a[0])
        if n == "remove":
            v = I.val(e["args"][0])
            I.write(l, self.without(c, v))
            I.event("cm", loc=l, op="remove", val=v)
            return ("V", VOID)
        if n == "remove_if":
            p = I.val(e["args"][0])
            keep, drop = self.filter(e, l, c, p)
            I.event("cm", loc=l, op="remove_if", val=drop)
            I.write(l, keep)
            return ("V", VOID)
        if n in ("sort", "reverse"):
            a = self.args(e)
            I.write(l, ("perm", c, "stable_sort" if n == "sort" else n, a[0] if a else VOID))
            return ("V", VOID)
        if n == "splice":
            a = e["args"]
            pos = I.val(a[0])
            o = I.resolve(I.loc(a[1]))
            ov = I.read(o)
            if len(a) == 2:
                I.write(o, EMPTYSEQ)
                return self.insert_at(l, pos, (("all", ov),))
            it = I.val(a[2])
            if len(a) == 3 and it[0] == "it":
                el = at(ov, it[3])
                I.write(o, self.erase_one(ov, it[3]))
                c2 = I.read(l)
                pp = pos[3]
                if o == l and pp == size_of(ov):
                    pp = size_of(c2)
                return self.insert_at(l, ("it", l[0], l[1], pp), (("one", el),))
            to = I.val(a[3]) if len(a) == 4 else None
            if it[0] == "it" and to is not None and to[0] == "it" and pos[0] == "it" and it[3][0] != "key" and to[3][0] != "key":
                lo, hi, n = it[3], to[3], size_of(ov)
                moved = (("all", mk_slice2(ov, lo, hi)),)
                rest = mk_seq((("all", mk_slice2(ov, N(0), lo)), ("all", mk_slice2(ov, hi, n))))
                if o != l:
                    I.write(o, rest)
                    return self.insert_at(l, pos, moved)
                if pos[3] == n:
                    I.event("cm", loc=l, op="insert_range", val=moved[0][1])
                    I.write(l, mk_seq(parts_of(rest) + moved))
                    return ("V", VOID)
                if pos[3] == N(0):
                    I.event("cm", loc=l, op="insert_range", val=moved[0][1])
                    I.write(l, mk_seq(moved + parts_of(rest)))
                    return ("V", VOID)
        if n == "count":
            v = I.val(e["args"][0])
            return ("V", N(1) if I.branch(("has", c, v)) else N(0))
        if n in ("find", "contains"):
            v = I.val(e["args"][0])
            r = self.set_find(c, v)
            if n == "contains":
                return ("V", ("b", r))
            return ("V", self.it(l, ("key", v) if r else size_of(c)))
        if n == "data":
            return ("V", ("ptr", l[0], l[1] + (("i", N(0)),)))
        if n in ("operator==", "operator!="):
            t = ("cmp", "==", c, I.val(e["args"][0]))
            return ("V", neg(t) if n.endswith("!=") else t)
        if n == "get_allocator":
            return ("V", VOID)
        return None

    def set_find(self, c, v):
        I = self.I
        for p in parts_of(c):
            if p[0] == "one":
                if I.branch(("cmp", "==", p[1], v)):
                    return True
            else:
                if I.branch(("has", p[1], v)):
                    return True
        return False

    def set_insert(self, l, c, v):
        I = self.I
        if self.set_find(c, v):
            return ("V", rec("std::pair", {"first": self.it(l, ("key", v)), "second": FALSE}))
        I.write(l, mk_seq(parts_of(c) + (("one", v),)))
        I.event("cm", loc=l, op="push_back", val=v)
        return ("V", rec("std::pair", {"first": self.it(l, ("key", v)), "second": TRUE}))

    def marg(self, a):
        """value of an argument that may be moved from"""
        I = self.I
        v = I.val(a) if not I.is_lvalue(a) else None
        if v is not None:
            return v
        l = I.resolve(I.loc(a))
        v = I.read(l)
        if a["k"] == "call" and a.get("fn", {}).get("q") == "std::move" and l[0][0] != "tmp":
            ty = strip_type(a["fn"]["rt"])
            self.moved(l, v, ty)
        return v

    def pop_back(self, l, c):
        I = self.I
        self.bound(N(0), size_of(c), "pop from an empty container")
        I.event("cm", loc=l, op="pop_back", val=at(c, sub(size_of(c), N(1))))
        I.write(l, mk_slice2(c, N(0), sub(size_of(c), N(1))))
        return ("V", VOID)

    def erase_one(self, c, p):
        if c[0] == "seq" and p[0] == "n":
            parts = list(c[1])
            if p[1] < len(parts) and all(x[0] == "one" for x in parts[: p[1] + 1]):
                del parts[p[1]]
                return ("seq", tuple(parts))
        if p == N(0):
            return mk_slice(c, N(1), size_of(c))
        return ("erase", c, p)

    def insert_at(self, l, pos, parts):
        I = self.I
        c = I.read(l)
        p = pos[3] if pos[0] == "it" else None
        for x in parts:
            I.event("cm", loc=l, op="insert" if x[0] == "one" else "insert_range", val=x[1])
        if p == N(0):
            I.write(l, mk_seq(tuple(parts) + parts_of(c)))
        elif p == size_of(c):
            I.write(l, mk_seq(parts_of(c) + tuple(parts)))
        elif p is not None and p[0] != "key":
            I.write(l, mk_seq(parts_of(mk_slice2(c, N(0), p)) + tuple(parts) + parts_of(mk_slice2(c, p, size_of(c)))))
        else:
            I.write(l, ("ap", "insert", c, ("seq", tuple(parts))))
        return ("V", ("it", l[0], l[1], p if p is not None else N(0)))

    def without(self, c, v):
        """c with every element equal to v removed"""
        I = self.I
        out = []
        for p in parts_of(c):
            if p[0] == "one":
                if I.branch(("cmp", "==", p[1], v)):
                    continue
                out.append(p)
            else:
                out.append(("all", ("without", p[1], v)))
        return mk_seq(tuple(out))

    def filter(self, e, l, c, pred, lo=None, hi=None):
        """-> (elements for which pred is false, elements for which it is true)"""
        I = self.I
        keep, drop = [], []
        sl = c if lo is None else mk_slice2(c, lo, hi)
        for p in parts_of(sl):
            if p[0] == "one":
                if I.branch(I.truth(self.pred(pred, p[1]))):
                    drop.append(p)
                else:
                    keep.append(p)
                continue
            coll = p[1]
            inst = "%s#f%d" % (e.get("L", 0), I.st.fresh("inst"))
            ix = ("ix", inst)

            def body():
                I.st.facts.set_lt(ix, size_of(coll), True)
                el = I.generic_elem(coll, ix, inst)
                return I.branch(I.truth(self.pred(pred, el)))

            outs = I.nested(body, "filter")
            from interp import Body, LoopRec

            L = LoopRec()
            L.inst, L.coll, L.sym, L.start = inst, coll, ix, N(0)
            L.line = e.get("L", 0)
            L.file, L.fn = "", I.frame.name
            L.ismap = False
            L.elems = {}
            k, d = [], []
            for pid, o in enumerate(outs):
                b = Body()
                b.pid, b.exit, b.val, b.st = pid, "next", o.val, o.st
                b.events = o.st.events[len(I.st.events) :]
                b.facts = I.facts_delta(I.st.facts, o.st.facts)
                L.bodies.append(b)
                if o.exit != "next":
                    continue
                (d if o.val else k).append(pid)
            I.loops[inst] = L
            if k:
                keep.append(("all", ("filt", coll, inst, tuple(k)) if d else coll))
            if d:
                drop.append(("all", ("filt", coll, inst, tuple(d)) if k else coll))
        return mk_seq(tuple(keep)), mk_seq(tuple(drop))

    def pred(self, f, *vals):
        I = self.I
        r = I.invoke(f, [("V", v) for v in vals])
        return I.read(r[1]) if r[0] == "L" else r[1]

    # ---- associative containers
    def map_insert(self, m, k, v):
        m = self.I.as_map(m)
        if m[3]:
            return ("map", m[1], m[2] + ((k, v),), True)
        return self.I.map_set(m, k, v)

    def m_map(self, e, n, multi=False):
        I = self.I
        fn = e["fn"]
        l = I.obj_loc(e)
        c = I.read(l)
        m = I.as_map(c, multi)
        ta = tmpl_args(strip_type(e.get("oty", "")))
        if n == "size":
            return ("V", size_of(m))
        if n == "empty":
            return ("V", ("cmp", "==i", size_of(m), N(0)))
        if n == "operator[]":
            k = self.marg(e["args"][0])
            r = I.map_find(I.read(l), k)
            if r[0] == "absent":
                dv = self.default_value(ta[1]) if len(ta) > 1 else N(0)
                I.write(l, I.map_set(I.read(l), k, dv))
                I.event("cm", loc=l, op="insert-default", key=k, val=dv)
            elif r[0] == "base":
                I.event("touch", loc=l, key=k, base=r[1])
            return ("L", (l[0], l[1] + (("e", k), ("f", "second"))))
        if n == "at":
            k = I.val(e["args"][0])
            if not I.map_present(I.read(l), k):
                from interp import ThrowEx

                self.unless_assured()
                raise ThrowEx("std::out_of_range", None, "map::at() of a missing key")
            return ("L", (l[0], l[1] + (("e", k), ("f", "second"))))
        if n in ("find", "contains", "count") and not multi:
            k = I.val(e["args"][0])
            p = I.map_present(I.read(l), k)
            if n == "contains":
                return ("V", ("b", p))
            if n == "count":
                return ("V", N(1 if p else 0))
            return ("V", self.it(l, ("key", k) if p else size_of(I.as_map(I.read(l)))))
        if n in ("begin", "cbegin"):
            return ("V", self.it(l, N(0)))
        if n in ("end", "cend"):
            return ("V", self.it(l, size_of(m)))
        if n in ("emplace", "insert", "try_emplace", "insert_or_assign", "emplace_hint"):
            a = [self.marg(x) for x in e["args"]]
            if n == "emplace_hint":
                a = a[1:]
            if len(a) == 1:
                if a[0][0] == "seq":
                    for p in a[0][1]:
                        I.write(l, self.map_insert(I.read(l), fld(p[1], "first"), fld(p[1], "second")))
                    return ("V", VOID)
                k, v = fld(a[0], "first"), fld(a[0], "second")
            elif len(a) == 2 and a[0][0] == "it" and a[1][0] == "it":
                rv = self.range_value(a[0], a[1])
                I.write(l, ("map", ("ap", "map.insert", m, rv), (), m[3]))
                return ("V", VOID)
            elif len(a) >= 2:
                k = a[0]
                v = self.make(ta[1] if len(ta) > 1 else "", a[1:])
            else:
                return None
            cur = I.as_map(I.read(l), multi)
            if multi:
                I.write(l, ("map", cur[1], cur[2] + ((k, v),), True))
                I.event("cm", loc=l, op="map-insert", key=k, val=v)
                return ("V", self.it(l, ("key", k)))
            if n == "insert_or_assign":
                I.write(l, I.map_set(cur, k, v))
                I.event("cm", loc=l, op="map-set", key=k, val=v)
                return ("V", rec("std::pair", {"first": self.it(l, ("key", k)), "second": TRUE}))
            if I.map_present(cur, k):
                I.event("cm", loc=l, op="map-insert-dup", key=k, val=v)
                return ("V", rec("std::pair", {"first": self.it(l, ("key", k)), "second": FALSE}))
            I.write(l, I.map_set(I.read(l), k, v))
            I.event("cm", loc=l, op="map-insert", key=k, val=v)
            return ("V", rec("std::pair", {"first": self.it(l, ("key", k)), "second": TRUE}))
        if n == "erase":
            a = self.args(e)
            cur = I.as_map(I.read(l), multi)
            k = a[0]
            if len(a) == 2:
                I.write(l, ("map", ("ap", "map.erase_range", cur, a[0], a[1]), (), multi))
                return ("V", a[1])
            if k[0] == "it":
                pos = k[3]
                if pos[0] == "key":
                    k = pos[1]
                elif pos == size_of(cur):
                    I.event("hazard", why="erase() at the end iterator", term=pos)
                    self.crash("erase() at the end iterator")
                elif not cur[2]:
                    k = ("ky", cur[1], pos)
                else:
                    I.write(l, ("map", ("ap", "map.erase", cur, pos), (), multi))
                    return ("V", a[0])
            I.event("cm", loc=l, op="map-erase", key=k, val=None)
            if multi:
                I.write(l, ("map", ("ap", "map.erase", cur, k), (), True))
            else:
                I.write(l, I.map_set(cur, k, DEL))
            return ("V", ("ap", "erased"))
        if n == "clear":
            I.write(l, ("map", ("empty",), (), multi))
            I.event("cm", loc=l, op="clear", val=c)
            return ("V", VOID)
        if n == "operator=":
            a = e["args"][0]
            I.write(l, self.marg(a) if fn.get("pm") == "m" else I.val(a))
            return ("L", l)
        if n == "swap":
            o = I.resolve(I.loc(e["args"][0]))
            a, b = I.read(l), I.read(o)
            I.write(l, b)
            I.write(o, a)
            return ("V", VOID)
        if n == "equal_range":
            k = I.val(e["args"][0])
            cur = I.as_map(I.read(l), multi)
            parts = []
            for ek, ev in cur[2]:
                if I.branch(("cmp", "==", ek, k)):
                    parts.append(("one", rec("std::pair", {"first": ek, "second": ev})))
            if cur[1] != ("empty",):
                parts.append(("all", ("eqr", cur[1], k)))
            t = I.tmp(mk_seq(tuple(parts)))
            v = I.read(t)
            return ("V", rec("std::pair", {"first": self.it(t, N(0)), "second": self.it(t, size_of(v))}))
        if n in ("lower_bound", "upper_bound"):
            k = I.val(e["args"][0])
            cur = I.as_map(I.read(l), multi)
            if multi and not cur[2]:
                # positions in the whole sorted map: the run of the key starts at lb and is as long as the key has entries
                t = ("eqr", cur[1], k)
                lb = ("lb", cur[1], k)
                ub = add(lb, size_of(t))
                f = I.st.facts
                f.set_lt(lb, N(0), False)
                f.set_lt(size_of(t), N(0), False)
                f.set_lt(size_of(cur), ub, False)
                return ("V", self.it(l, lb if n[0] == "l" else ub))
            if not multi and n[0] == "l" and "unordered" not in e.get("oty", ""):
                end = self.it(l, size_of(cur))
                r = I.map_find(cur, k)
                if r[0] == "entry" or r[0] == "base" and I.branch(("has", r[1], k)):
                    return ("V", self.it(l, ("key", k)))
                if cur[1] == ("empty",):
                    ks = [ek for ek, ev in cur[2] if ev != DEL]
                    if all(x[0] == "str" for x in ks):
                        for ek in sorted(ks, key=lambda x: x[1]):
                            if (k[1] < ek[1]) if k[0] == "str" else I.branch(("cmp", "<", k, ek)):
                                return ("V", self.it(l, ("key", ek)))
                        return ("V", end)
                elif not cur[2]:
                    if I.branch(("lbend", cur[1], k)):
                        return ("V", end)
                    nk = ("lbkey", cur[1], k)
                    I.st.facts.assume(("cmp", "==", nk, k), False)
                    I.st.facts.assume(("has", cur[1], nk), True)
                    return ("V", self.it(l, ("key", nk)))
            return ("V", ("ap", n, cur, k))
        if n == "find" and multi:
            k = I.val(e["args"][0])
            cur = I.as_map(I.read(l), multi)
            for ek, ev in cur[2]:
                if I.branch(("cmp", "==", ek, k)):
                    t = I.tmp(("seq", (("one", rec("std::pair", {"first": ek, "second": ev})),)))
                    return ("V", self.it(t, N(0)))
            if cur[1] != ("empty",) and I.branch(neg(("cmp", "==i", size_of(("eqr", cur[1], k)), N(0)))):
                if not cur[2]:
                    lb = ("lb", cur[1], k)
                    f = I.st.facts
                    f.set_lt(lb, N(0), False)
                    f.set_lt(size_of(cur), add(lb, size_of(("eqr", cur[1], k))), False)
                    f.set_lt(lb, size_of(cur), True)
                    return ("V", self.it(l, lb))
                t = I.tmp(("eqr", cur[1], k))
                return ("V", self.it(t, N(0)))
            return ("V", self.it(l, size_of(cur)))
        if n == "count" and multi:
            k = I.val(e["args"][0])
            cur = I.as_map(I.read(l), multi)
            cnt = N(0)
            for ek, ev in cur[2]:
                if I.branch(("cmp", "==", ek, k)):
                    cnt = add(cnt, N(1))
            if cur[1] != ("empty",):
                cnt = add(cnt, size_of(("eqr", cur[1], k)))
            return ("V", cnt)
        return None

    def m_mmap(self, e, n):
        if n in ("begin", "end", "cbegin", "cend"):
            self.multis.add(self.I.read(self.I.obj_loc(e)))
        return self.m_map(e, n, multi=True)

    # ---- strings
    def m_str(self, e, n):
        I = self.I
        l = I.obj_loc(e)
        s = I.read(l)
        if n in ("size", "length"):
            return ("V", size_of(s))
        if n == "empty":
            return ("V", ("cmp", "==", s, S("")))
        if n in ("c_str", "data", "operator basic_string_view", "str"):
            return ("V", s)
        if n == "operator=":
            a = e["args"][0]
            v = self.marg(a) if e["fn"].get("pm") == "m" else cstr(I.val(a), (e["fn"].get("pt") or [""])[0])
            if v[0] == "chr":
                v = S(chr(v[1]))
            I.write(l, v)
            return ("L", l)
        if n in ("operator+=", "append", "push_back"):
            a = self.args(e)
            v = a[0]
            if v[0] == "chr":
                v = S(chr(v[1]))
            v = cstr(v, (e["fn"].get("pt") or [""])[0]) if len(a) == 1 else v
            if len(a) == 2:
                v = a[0] if a[1] == size_of(a[0]) else ("ap", "str.app", *a)
            I.write(l, cat(I.read(l), v))
            return ("L", l)
        if n == "assign":
            a = self.args(e)
            if len(a) == 2 and a[0][0] == "zdata":
                v = zbytes(a[0][1], a[1])
            elif len(a) == 1:
                v = cstr(a[0], (e["fn"].get("pt") or [""])[0])
            else:
                v = a[0] if len(a) == 2 and a[1] == size_of(a[0]) else ("ap", "str.make", *a)
            I.write(l, v)
            return ("L", l)
        if n == "clear":
            I.write(l, S(""))
            return ("V", VOID)
        if n == "substr":
            a = self.args(e)
            return ("V", self.substr(s, a[0] if a else N(0), a[1] if len(a) > 1 else NPOS))
        if n in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of"):
            a = self.args(e)
            x = a[0]
            if x[0] == "chr":
                x = S(chr(x[1]))
            pos = a[1] if len(a) > 1 else (N(0) if n[0] == "f" else NPOS)
            if s[0] == "str" and x[0] == "str" and n == "find" and pos[0] == "n":
                r = s[1].find(x[1], pos[1])
                return ("V", N(r) if r >= 0 else NPOS)
            return ("V", ("ap", "str." + n, s, x, pos))
        if n == "compare":
            a = self.args(e)
            pt = e["fn"].get("pt") or []
            for i in (0, 2):
                # a C string ends at its first zero byte
                if i < len(a) and i < len(pt) and len(a) in (1, 3):
                    a[i] = cstr(a[i], pt[i])
            if len(a) == 1:
                return ("V", ("strcmp", s, a[0]))
            if len(a) >= 3:
                x = a[2] if len(a) == 3 else ("ap", "substr", *a[2:])
                return ("V", ("strcmp", self.substr(s, a[0], a[1]), x))
        if n in ("starts_with",):
            a = self.args(e)
            return ("V", self.prefix(s, a[0]))
        if n in ("at", "operator[]"):
            i = I.val(e["args"][0])
            if n == "at":
                self.bound(i, size_of(s), "string::at() out of range", "std::out_of_range")
            return ("V", ("ap", "char", s, i))
        if n in ("front", "back"):
            self.bound(N(0), size_of(s), "front()/back() of an empty string")
            return ("V", ("ap", "char." + n, s))
        if n in ("begin", "cbegin"):
            return ("V", self.it(l, N(0)))
        if n in ("end", "cend"):
            return ("V", self.it(l, size_of(s)))
        if n in ("reserve", "shrink_to_fit"):
            self.args(e)
            return ("V", VOID)
        if n in ("erase", "insert", "replace", "pop_back", "resize"):
            a = self.args(e)
            if n == "erase" and len(a) >= 1 and a[0] == N(0) and len(a) == 2:
                I.write(l, ("ap", "substr", s, a[1], NPOS))
            else:
                I.write(l, ("ap", "str." + n, s, *a))
            return ("L", l)
        return None

    def prefix(self, s, p):
        if p[0] == "str":
            if s[0] == "str":
                return ("b", s[1].startswith(p[1]))
            if p[1] == "":
                return TRUE
            return ("cmp", "==", ("ap", "substr", s, N(0), N(len(p[1]))), p)
        return ("cmp", "==", ("ap", "substr", s, N(0), size_of(p)), p)

    def substr(self, s, pos, n):
        from interp import ThrowEx

        I = self.I
        f = I.st.facts
        if s[0] == "str" and pos[0] == "n":
            if pos[1] > len(s[1]):
                raise ThrowEx("std::out_of_range", None, "substr() past the end")
            if n[0] == "n":
                return S(s[1][pos[1] : pos[1] + n[1]])
        if pos == NPOS:
            raise ThrowEx("std::out_of_range", None, "substr(npos)")
        if pos == N(0) and (n == NPOS or n == size_of(s)):
            return s
        if pos != N(0):
            q = f.q_lt(size_of(s), pos)
            if q is not False:
                safe = False
                c, d = lin_parts(pos)
                finds = [t for t in d if t[0] == "ap" and t[1].startswith("str.find") and t[2] == s]
                if len(d) == 1 and finds and d[finds[0]] == 1:
                    found = f.q_eqi(finds[0], NPOS)
                    if c == 1:
                        safe = True  # found: at most size; not found: wraps to 0
                    elif c == 0:
                        if found is None:
                            found = I.branch(("cmp", "==i", finds[0], NPOS))
                        if found:
                            raise ThrowEx("std::out_of_range", None, "substr(npos)")
                        safe = True
                    elif c > 1 and finds[0][1] == "str.find" and found is not True:
                        # found: at least the searched string fits
                        if found is None:
                            found = I.branch(("cmp", "==i", finds[0], NPOS))
                        if found:
                            return self.substr(s, N(c - 1), n)
                        safe = f.q_lt(size_of(finds[0][3]), N(c)) is False
                    elif c > 1:
                        safe = found is not False
                elif finds and len(d) == 2 and all(x == 1 for x in d.values()) and c == 0 and finds[0][1] == "str.find" and size_of(finds[0][3]) in d:
                    found = f.q_eqi(finds[0], NPOS)
                    safe = found is not True
                elif pos[0] not in ("n",):
                    safe = True  # not a position this analysis can judge
                if not safe:
                    if q is True or I.choose(2) == 1:
                        f.set_lt(size_of(s), pos, True)
                        raise ThrowEx("std::out_of_range", None, "substr() past the end")
                    f.set_lt(size_of(s), pos, False)
        # the rest of the string, however its length was computed
        if n != NPOS and add(n, pos) == size_of(s):
            n = NPOS
        c1 = add(n, pos) if n != NPOS else None
        if c1 is not None:
            d = sub(c1, size_of(s))
            if d == N(0):
                n = NPOS
        return ("ap", "substr", s, pos, n)

    # ---- smart pointers
    def m_ptr(self, e, n):
        I = self.I
        if n in ("operator->", "get"):
            return ("V", I.val(e["obj"]))
        if n == "operator*":
            return ("L", I.deref(I.val(e["obj"])))
        if n in ("operator bool",):
            return ("V", self.ptr_truth(I.val(e["obj"])))
        l = I.obj_loc(e)
        if n == "operator=":
            a = e["args"][0]
            v = self.marg(a) if e["fn"].get("pm") == "m" else I.val(a)
            I.write(l, v)
            return ("L", l)
        if n == "reset":
            a = self.args(e)
            I.write(l, a[0] if a else NULL)
            return ("V", VOID)
        if n == "release":
            v = I.read(l)
            I.write(l, NULL)
            return ("V", v)
        if n == "swap":
            o = I.resolve(I.loc(e["args"][0]))
            a, b = I.read(l), I.read(o)
            I.write(l, b)
            I.write(o, a)
            return ("V", VOID)
        if n in ("use_count", "unique", "lock", "expired"):
            if n == "lock":
                return ("V", I.read(l))
            return ("V", ("ap", n, I.read(l)))
        return None

    def ptr_truth(self, v):
        if v == NULL:
            return FALSE
        if v[0] == "ptr":
            return TRUE
        return neg(("cmp", "==", v, NULL))

    def m_fun(self, e, n):
        I = self.I
        if n == "operator()":
            f = I.val(e["obj"])
            args = []
            for a in e["args"]:
                if I.is_lvalue(a):
                    args.append(("L", I.resolve(I.loc(a))))
                else:
                    args.append(("L", I.tmp(I.val(a))))
            return I.invoke(f, args, e)
        if n == "operator bool":
            return ("V", self.ptr_truth(I.val(e["obj"])))
        if n == "operator=":
            l = I.obj_loc(e)
            I.write(l, I.val(e["args"][0]))
            return ("L", l)
        return None

    def m_refw(self, e, n):
        I = self.I
        v = I.val(e["obj"])
        return ("L", I.deref(v))

    def m_opt(self, e, n):
        I = self.I
        if n in ("operator bool", "has_value"):
            return ("V", neg(("cmp", "==", I.val(e["obj"]), NULL)))
        if n in ("operator*", "value", "operator->"):
            v = I.val(e["obj"])
            if I.branch(("cmp", "==", v, NULL)):
                if n == "value":
                    from interp import ThrowEx

                    raise ThrowEx("std::bad_optional_access", None, "empty optional")
                self.crash("empty optional dereferenced")
            l = I.obj_loc(e)
            if n == "operator->":
                return ("V", ("ptr", l[0], l[1]))
            return ("L", l)
        l = I.obj_loc(e)
        if n == "operator=":
            I.write(l, I.val(e["args"][0]))
            return ("L", l)
        if n == "reset":
            I.write(l, NULL)
            return ("V", VOID)
        if n == "value_or":
            v = I.read(l)
            if I.branch(("cmp", "==", v, NULL)):
                return ("V", I.val(e["args"][0]))
            return ("V", v)
        return None

    # ---- iterators
    def m_it(self, e, n):
        I = self.I
        if n == "operator*":
            return ("L", self.it_elem_any(I.val(e["obj"])))
        if n == "operator->":
            l = self.it_elem_any(I.val(e["obj"]))
            return ("V", ("ptr", l[0], l[1]))
        if n in ("operator++", "operator--"):
            l = I.obj_loc(e)
            old = I.read(l)
            k = N(1) if n.endswith("++") else N(-1)
            I.write(l, self.it_advance(old, k))
            if e["args"]:  # postfix
                return ("V", old)
            return ("L", l)
        if n in ("operator+", "operator-"):
            a = I.val(e["obj"])
            k = I.val(e["args"][0])
            if k[0] == "it":
                return ("V", sub(a[3], k[3]))
            return ("V", self.it_advance(a, k if n.endswith("+") else mulc(k, -1)))
        if n in ("operator+=", "operator-="):
            l = I.obj_loc(e)
            k = I.val(e["args"][0])
            I.write(l, self.it_advance(I.read(l), k if "+" in n else mulc(k, -1)))
            return ("L", l)
        if n == "operator[]":
            a = I.val(e["obj"])
            k = I.val(e["args"][0])
            return ("L", self.it_elem_any(self.it_advance(a, k)))
        if n == "operator=":
            l = I.obj_loc(e)
            I.write(l, I.val(e["args"][0]))
            return ("L", l)
        if n in ("operator==", "operator!="):
            c = self.it_eq(I.val(e["obj"]), I.val(e["args"][0]))
            return ("V", neg(c) if n.endswith("!=") else c)
        if n == "base":
            return ("V", I.val(e["obj"]))
        return None

    def it_elem_any(self, v):
        I = self.I
        if v[0] == "it":
            return self.it_elem(v)
        if v[0] == "itr":
            self.bound(v[2], size_of(v[1]), "iterator dereferenced at or past the end")
            return I.tmp(at(v[1], v[2]))
        if v[0] == "ptr":
            return (v[1], v[2])
        return I.tmp(("ap", "deref", v))

    def m_pair(self, e, n):
        I = self.I
        o = e.get("obj")
        while o is not None and o.get("k") in ("cast", "paren", "temp", "mat"):
            o = o.get("e")
        if n == "operator=" and o is not None and o.get("k") == "call" and (o.get("fn") or {}).get("n") == "tie":
            locs = [I.resolve(I.loc(a)) if I.is_lvalue(a) else None for a in o["args"]]
            v = I.val(e["args"][0])
            if len(locs) == 2:
                for l, f in zip(locs, ("first", "second")):
                    if l is not None:
                        I.write(l, fld(v, f))
                return ("V", VOID)
        if n == "operator=":
            l = I.obj_loc(e)
            I.write(l, I.val(e["args"][0]))
            return ("L", l)
        return None

    # ---- chrono
    def m_dur(self, e, n):
        I = self.I
        if n == "count":
            return ("V", I.val(e["obj"]))
        l = I.obj_loc(e)
        if n == "operator=":
            v = I.val(e["args"][0])
            I.write(l, v)
            return ("L", l)
        if n in ("operator+=", "operator-=", "operator*=", "operator/="):
            v = I.val(e["args"][0])
            old = I.read(l)
            op = n[8]
            r = add(old, v) if op == "+" else sub(old, v) if op == "-" else I.arith(op, old, v, "long")
            I.write(l, r)
            return ("L", l)
        if n in ("operator++", "operator--"):
            old = I.read(l)
            I.write(l, add(old, N(1 if n.endswith("++") else -1)))
            return ("L", l) if not e["args"] else ("V", old)
        if n in ("operator-", "operator+"):
            return ("V", mulc(I.read(l), -1) if n.endswith("-") else I.read(l))
        if n == "zero":
            return ("V", N(0))
        return None

    def m_tp(self, e, n):
        I = self.I
        if n == "time_since_epoch":
            return ("V", I.val(e["obj"]))
        l = I.obj_loc(e)
        if n == "operator=":
            I.write(l, I.val(e["args"][0]))
            return ("L", l)
        if n in ("operator+=", "operator-="):
            v = I.val(e["args"][0])
            pt = (e["fn"].get("pt") or [""])[0]
            I.write(l, add(I.read(l), v) if "+" in n else sub(I.read(l), v))
            return ("L", l)
        return None

    def m_atomic(self, e, n):
        I = self.I
        l = I.obj_loc(e)
        if n == "load" or n.startswith("operator ") or n == "test":
            # another thread may have written it
            if getattr(I.hooks, "atomics_plain", False):
                return ("V", I.read(l))
            v = ("sym", "load~%d" % I.st.fresh("load"))
            I.event("atomic-load", loc=l, val=v, last=I.read(l))
            return ("V", v)
        if n in ("store", "operator="):
            v = I.val(e["args"][0])
            I.write(l, v)
            return ("V", v)
        if n == "exchange":
            old = I.read(l)
            I.write(l, I.val(e["args"][0]))
            return ("V", old)
        if n in ("test_and_set",):
            old = I.read(l)
            I.write(l, TRUE)
            return ("V", old)
        return None

    # ---- streams
    def m_ss(self, e, n):
        I = self.I
        if n == "str":
            l = I.obj_loc(e)
            if e["args"]:
                I.write(l, I.val(e["args"][0]))
                return ("V", VOID)
            return ("V", I.read(l))
        if n == "operator<<":
            return self.stream_out(e["obj"], e["args"][0])
        for a in e["args"]:
            I.val(a)
        return ("V", ("ap", "stream." + n))

    def stream_out(self, obj, arg):
        I = self.I
        l = I.resolve(I.loc(obj)) if I.is_lvalue(obj) else I.tmp(I.val(obj))
        v = I.val(arg)
        if v[0] == "fnp" or (v[0] == "ap" and v[1] in ("std::setfill", "std::setw", "std::hex")):
            return ("L", l)
        if v[0] == "chr":
            v = S(chr(v[1]))
        elif v[0] in ("n", "lin", "size") or strip_type(arg.get("ty") or "") in INTEGRAL:
            v = tostr(v)
        cur = I.read(l)
        if l[0][0] not in ("g",):
            I.write(l, cat(cur, v), quiet=True)
        return ("L", l)

    # ------------------------------------------------------------------ free functions
    def free_op(self, e, op):
        I = self.I
        args = e["args"]
        pt = e["fn"].get("pt") or []
        if op == "<<" and pt and self.kind_of(pt[0]) == "ss":
            return self.stream_out(args[0], args[1])
        if op == "<<" and len(args) == 2 and "ostream" in e["fn"]["rt"]:
            return self.stream_out(args[0], args[1])
        k0 = self.kind_of(pt[0]) if pt else None
        k1 = self.kind_of(pt[1]) if len(pt) > 1 else None
        if op == "+" and ("str" in (k0, k1)):
            a, b = self.args(e)
            a, b = cstr(a, pt[0]), cstr(b, pt[1])
            a = S(chr(a[1])) if a[0] == "chr" else a
            b = S(chr(b[1])) if b[0] == "chr" else b
            return ("V", cat(a, b))
        if k0 in ("dur", "tp") or k1 in ("dur", "tp"):
            a, b = self.args(e)
            p0, p1 = self.period(pt[0]), self.period(pt[1]) if len(pt) > 1 else None
            if p0 and p1 and p0 != p1:
                # bring to the finer unit
                if p0[0] * p1[1] > p1[0] * p0[1]:
                    a = self.rescale(a, p0, p1)
                else:
                    b = self.rescale(b, p1, p0)
            if op in ("+",):
                return ("V", add(a, b))
            if op == "-":
                return ("V", sub(a, b))
            if op in ("*", "/", "%"):
                return ("V", I.arith(op, a, b, "long"))
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return ("V", I.compare(op, a, b, "long"))
        if op in ("==", "!="):
            a, b = self.args(e)
            if "str" in (k0, k1) and len(pt) == 2:
                a, b = cstr(a, pt[0]), cstr(b, pt[1])
            if a[0] in ("it", "itr") or b[0] in ("it", "itr"):
                if a[0] == "itr" and b[0] == "itr" and a[1] == b[1]:
                    c = ("cmp", "==i", a[2], b[2])
                else:
                    c = self.it_eq(a, b)
            else:
                c = ("cmp", "==", a, b)
                if a[0] == "rit" or b[0] == "rit":
                    c = ("cmp", "==", a, b)
            return ("V", neg(c) if op == "!=" else c)
        if op == "-" and len(args) == 2:
            a, b = self.args(e)
            if a[0] == "it" and b[0] == "it":
                return ("V", sub(a[3], b[3]))
            return ("V", ("ap", "op-", a, b))
        if op == "+" and len(args) == 2:
            a, b = self.args(e)
            if b[0] == "it":
                return ("V", self.it_advance(b, a))
            return ("V", ("ap", "op+", a, b))
        if op in ("<", ">", "<=", ">="):
            a, b = self.args(e)
            if a[0] == "it" and b[0] == "it":
                return ("V", I.compare(op, a, b, "long"))
            return ("V", ("ap", "op" + op, a, b))
        return None

    def f_begin(self, e):
        return self.range_fn(e, True)

    def f_cbegin(self, e):
        return self.range_fn(e, True)

    def f_end(self, e):
        return self.range_fn(e, False)

    def f_cend(self, e):
        return self.range_fn(e, False)

    def range_fn(self, e, first):
        I = self.I
        a = e["args"][0]
        l = I.resolve(I.loc(a)) if I.is_lvalue(a) else I.tmp(I.val(a))
        return ("V", self.it(l, N(0) if first else size_of(I.read(l))))

    def f_size(self, e):
        return ("V", size_of(self.I.val(e["args"][0])))

    def f_empty(self, e):
        return ("V", ("cmp", "==i", size_of(self.I.val(e["args"][0])), N(0)))

    def f_next(self, e):
        a = self.args(e)
        return ("V", self.it_advance(a[0], a[1] if len(a) > 1 else N(1)))

    def f_prev(self, e):
        a = self.args(e)
        return ("V", self.it_advance(a[0], mulc(a[1], -1) if len(a) > 1 else N(-1)))

    def f_advance(self, e):
        I = self.I
        l = I.resolve(I.loc(e["args"][0]))
        I.write(l, self.it_advance(I.read(l), I.val(e["args"][1])))
        return ("V", VOID)

    def f_distance(self, e):
        a, b = self.args(e)
        if a[0] == "it" and b[0] == "it":
            return ("V", sub(b[3], a[3]))
        return ("V", ("ap", "distance", a, b))

    def f_move(self, e):
        I = self.I
        if len(e["args"]) == 3:
            return self.f_copy(e)
        a = e["args"][0]
        if I.is_lvalue(a):
            return ("L", I.resolve(I.loc(a)))
        return ("V", I.val(a))

    f_forward = f_move

    def f_as_const(self, e):
        return self.f_move(e)

    def f_ref(self, e):
        I = self.I
        l = I.resolve(I.loc(e["args"][0]))
        return ("V", ("ptr", l[0], l[1]))

    f_cref = f_ref

    def f_addressof(self, e):
        return self.f_ref(e)

    def f_swap(self, e):
        I = self.I
        l, o = I.resolve(I.loc(e["args"][0])), I.resolve(I.loc(e["args"][1]))
        a, b = I.read(l), I.read(o)
        I.write(l, b)
        I.write(o, a)
        return ("V", VOID)

    def f_exchange(self, e):
        I = self.I
        l = I.resolve(I.loc(e["args"][0]))
        old = I.read(l)
        I.write(l, I.val(e["args"][1]))
        return ("V", old)

    def f_to_string(self, e):
        v = self.I.val(e["args"][0])
        if v[0] == "nzb":
            v = v[1]
        return ("V", tostr(v))

    def parse_num(self, e):
        from interp import ThrowEx

        I = self.I
        v = I.val(e["args"][0])
        for a in e["args"][1:]:
            I.val(a)
        if v[0] == "tostr":
            return ("V", v[1])
        if v[0] == "str":
            m = re.match(r"\s*[+-]?\d+", v[1])
            if m:
                return ("V", N(int(m.group(0))))
            raise ThrowEx("std::invalid_argument", None, "number expected")
        atom = ("numeric", v)
        if not I.branch(atom):
            ty = ("std::invalid_argument", "std::out_of_range")[I.choose(2)]
            raise ThrowEx(ty, None, "%s of a string that is not a number (%s)" % (e["fn"]["n"], show(v)))
        return ("V", ("ap", "num", v))

    f_stoul = f_stoull = f_stoi = f_stol = f_stoll = lambda self, e: self.parse_num(e)

    def f_strtoul(self, e):
        I = self.I
        v = I.val(e["args"][0])
        if len(e["args"]) > 1:
            p = I.val(e["args"][1])
            if p[0] == "ptr":
                I.write((p[1], p[2]), ("ap", "endptr", v), quiet=True)
        if v[0] == "str" and v[1].strip().isdigit():
            return ("V", N(int(v[1])))
        return ("V", ("ap", "num", v))

    f_strtoull = f_strtol = f_strtoll = f_strtoul

    def f_strcmp(self, e):
        a = [cstr(x[1] if x[0] == "zdata" else x, "char *") for x in self.args(e)]
        return ("V", ("strcmp", a[0], a[1]))

    def f_strlen(self, e):
        v = self.I.val(e["args"][0])
        if v[0] == "zdata":
            v = v[1]
        return ("V", size_of(cstr(v, "char *")))

    def f_isdigit(self, e):
        return ("V", ("ap", "isdigit", self.I.val(e["args"][0])))

    def f_make_pair(self, e):
        a = self.args(e)
        return ("V", rec("std::pair", {"first": a[0], "second": a[1]}))

    def f_get(self, e):
        I = self.I
        t = (e["fn"].get("targs") or ["0"])[0]
        a = e["args"][0]
        f = "first" if t == "0" else "second"
        if I.is_lvalue(a):
            l = I.resolve(I.loc(a))
            return ("L", (l[0], l[1] + (("f", f),)))
        return ("V", fld(I.val(a), f))

    def f_tie(self, e):
        return ("V", ("ap", "tie", *self.args(e)))

    # ---- object creation
    def make(self, ty, vals):
        """value of type ty built from argument values"""
        I = self.I
        k = self.kind_of(ty)
        r = I.prog.rec(ty)
        if r is not None:
            h = I.alloc(VOID)
            self.make_at((h, ()), ty, vals)
            return I.read((h, ()))
        if k == "str":
            if len(vals) == 2 and vals[0][0] == "zdata":
                return zbytes(vals[0][1], vals[1])
            if len(vals) == 2 and vals[0][0] == "it":
                return self.str_range(vals[0], vals[1])
            if len(vals) == 1:
                return vals[0]
            if not vals:
                return S("")
            if len(vals) == 2 and vals[1] == size_of(vals[0]):
                return vals[0]
            return ("ap", "str.make", *vals)
        if not vals:
            return self.default_value(ty)
        if len(vals) == 1:
            return vals[0]
        if k == "pair":
            return rec("std::pair", {"first": vals[0], "second": vals[1]})
        if k == "seq" and vals[0][0] == "it":
            return self.range_value(vals[0], vals[1])
        return ("ap", "make:" + strip_type(ty), *vals)

    def make_at(self, l, ty, vals, exprs=None):
        I = self.I
        r = I.prog.rec(ty)
        if r is None:
            I.write(l, self.make(ty, vals), quiet=True)
            return
        # copy
        if len(vals) == 1 and vals[0][0] == "rec" and vals[0][1] == r["q"]:
            I.write(l, vals[0], quiet=True)
            return
        cands = []
        for m in r["methods"]:
            f = m["fn"]
            if f["kind"] != "ctor":
                continue
            full = I.prog.fns.get(f["usr"])
            n = len(f.get("pm", ""))
            if n == len(vals) and not f.get("cm"):
                cands.append((f, full))
        cands = self.rank(cands, vals)
        if cands:
            f, full = cands[0]
            args = [("L", I.tmp(v)) for v in vals]
            pm = f.get("pm", "")
            for i, a in enumerate(exprs or []):
                # references to the caller's objects
                if i < len(pm) and pm[i] == "r" and i < len(args) and I.is_lvalue(a):
                    args[i] = ("L", I.resolve(I.loc(a)))
            I.construct_repo(l, f, args, r["ty"])
            return
        # more parameters than arguments: default arguments are not visible here
        if not vals:
            I.init_object(l, r, {})
            return
        if len(vals) == 1:
            I.write(l, vals[0], quiet=True)
            return
        I.write(l, ("ap", "make:" + r["q"], *vals), quiet=True)

    def rank(self, cands, vals):
        def score(c):
            f, full = c
            s = 0
            for t, v in zip(f.get("pt") or [], vals):
                k = self.kind_of(t)
                if v[0] == "rec":
                    s += 2 if strip_type(t) == v[1] or tmpl_name(t) == v[1] else -1
                elif v[0] == "str":
                    s += 1 if k == "str" or "char" in t else -1
                elif v[0] == "seq":
                    s += 1 if k == "seq" else -1
                elif v[0] == "map":
                    s += 1 if k in ("map", "mmap") else -1
            return -s

        return sorted(cands, key=score)

    def f_make_shared(self, e):
        I = self.I
        ty = (e["fn"].get("targs") or [""])[0]
        vals = [self.marg(a) for a in e["args"]]
        if I.hooks is not None:
            r = I.hooks.make_shared(I, ty, vals, e)
            if r is not NotImplemented:
                return ("V", r)
        h = I.alloc(VOID)
        if self.kind_of(ty) and I.prog.rec(ty) is None:
            I.st.store[h] = self.make(ty, vals) if vals else self.default_value(ty)
            if self.kind_of(ty) == "seq" and len(vals) == 1 and vals[0][0] == "n":
                I.st.store[h] = EMPTYSEQ if vals[0][1] == 0 else ("resized", EMPTYSEQ, vals[0])
        else:
            self.make_at((h, ()), ty, vals, e["args"])
        return ("V", ("ptr", h, ()))

    f_make_unique = f_make_shared
    f_allocate_shared = f_make_shared

    def cast_ptr(self, e):
        return ("V", self.I.val(e["args"][0]))

    f_static_pointer_cast = f_dynamic_pointer_cast = f_const_pointer_cast = cast_ptr

    def f_bind(self, e):
        a = self.args(e)
        out = []
        for x in a[1:]:
            m = re.match(r".*placeholders::_(\d+)$", x[1]) if x[0] == "sym" else None
            out.append(("ph", int(m.group(1)) - 1) if m else x)
        return ("V", ("bind", a[0], tuple(out)))

    # ---- algorithms
    def each(self, e, first, last, body, kind="seq", inplace=False):
        """iterate [first,last); body(element location)"""
        I = self.I
        if first[0] == "it" and last[0] == "it":
            l = (first[1], first[2])
            c = I.read(l)
            if c[0] == "map" or self.map_iterator(e):
                if first[3] == N(0) and last[3] in (size_of(c), size_of(I.as_map(c))):
                    return I.iterate(e, l, body, kind="mmap" if c in self.multis else "map")
                if first[3][0] == "lb" and last[3] == add(first[3], size_of(("eqr",) + first[3][1:])):
                    return I.iterate(e, I.tmp(("eqr",) + first[3][1:]), body)
                from interp import Limit

                raise Limit("part of a map")
            return I.iterate(e, l, body, lo=first[3], hi=last[3], inplace=inplace)
        if first[0] == "itr" and last[0] == "itr" and first[1] == last[1]:
            return I.iterate(e, I.tmp(first[1]), body, lo=first[2], hi=last[2])
        if first[0] == "rit" and last[0] == "rit":
            l = (first[1], first[2])
            return I.iterate(e, l, body)
        from interp import Limit

        raise Limit("iterator range not understood")

    def map_iterator(self, e):
        """does the algorithm run over a map (by the type of its iterators)?"""
        a = (e.get("args") or [None])[0]
        if a is None:
            return False
        t = a.get("ty") or a.get("t") or ""
        return ("_Rb_tree" in t or "_Node_" in t) and "pair<" in t

    def elem_pos(self, first, el):
        """iterator for an element location produced by each()"""
        if el[1] and el[1][-1][0] == "i":
            return ("it", el[0], el[1][:-1], el[1][-1][1])
        if el[1] and el[1][-1][0] == "e":
            return ("it", el[0], el[1][:-1], ("key", el[1][-1][1]))
        return None

    def search(self, e, first, last, test):
        from interp import BreakEx

        I = self.I

        def body(el):
            if I.branch(I.truth(test(el))):
                raise BreakEx(("found", el))

        r, v = self.each(e, first, last, body, inplace=True)
        if r == "break":
            p = self.elem_pos(first, v[1])
            if p is None:
                p = ("itr", ("seq", (("one", I.read(v[1])),)), N(0))
            return ("V", p)
        return ("V", last)

    def inv(self, f, el):
        I = self.I
        r = I.invoke(f, [("L", el)])
        return I.read(r[1]) if r[0] == "L" else r[1]

    def f_find(self, e):
        I = self.I
        a = self.args(e)
        r = self.search(e, a[0], a[1], lambda el: ("cmp", "==", I.read(el), a[2]))
        if r == ("V", a[1]) and a[0][0] == "it" and a[1][0] == "it" and a[2][0] == "at":
            # an element of the very range searched cannot be missing
            c = I.read((a[0][1], a[0][2]))
            if a[2][1] == c and a[0][3] == N(0) and a[1][3] == size_of(c):
                from interp import Infeasible

                raise Infeasible()
        return r

    def f_find_if(self, e):
        a = self.args(e)
        return self.search(e, a[0], a[1], lambda el: self.inv(a[2], el))

    def f_find_if_not(self, e):
        a = self.args(e)
        return self.search(e, a[0], a[1], lambda el: neg(self.I.truth(self.inv(a[2], el))))

    def quantify(self, e, stop_on, result_on_stop):
        from interp import BreakEx

        I = self.I
        a = self.args(e)

        def body(el):
            if I.branch(I.truth(self.inv(a[2], el))) == stop_on:
                raise BreakEx()

        r, _ = self.each(e, a[0], a[1], body)
        return ("V", ("b", result_on_stop if r == "break" else not result_on_stop))

    def f_any_of(self, e):
        return self.quantify(e, True, True)

    def f_all_of(self, e):
        return self.quantify(e, False, False)

    def f_none_of(self, e):
        return self.quantify(e, True, False)

    def f_for_each(self, e):
        a = self.args(e)
        self.each(e, a[0], a[1], lambda el: self.inv(a[2], el) and None)
        return ("V", a[2])

    def f_count_if(self, e):
        return self.counting(e, lambda el, a: self.inv(a[2], el))

    def f_count(self, e):
        return self.counting(e, lambda el, a: ("cmp", "==", self.I.read(el), a[2]))

    def counting(self, e, test):
        I = self.I
        a = self.args(e)
        cell = (("v", I.frame.fid, "count@%d" % e.get("L", 0)), ())
        I.write(cell, N(0))

        def body(el):
            if I.branch(I.truth(test(el, a))):
                I.write(cell, add(I.read(cell), N(1)))

        self.each(e, a[0], a[1], body)
        return ("V", I.read(cell))

    def f_accumulate(self, e):
        I = self.I
        a = self.args(e)
        cell = (("v", I.frame.fid, "sum@%d" % e.get("L", 0)), ())
        I.write(cell, a[2])

        def body(el):
            if len(a) > 3:
                r = I.invoke(a[3], [("V", I.read(cell)), ("L", el)])
                v = I.read(r[1]) if r[0] == "L" else r[1]
            else:
                x = I.read(el)
                cur = I.read(cell)
                v = cat(cur, x) if cur[0] in ("str", "cat") else add(cur, x)
            I.write(cell, v)

        self.each(e, a[0], a[1], body)
        return ("V", I.read(cell))

    def out_write(self, o, parts, at_off):
        """write parts through an output iterator; returns the advanced iterator"""
        I = self.I
        if o[0] == "backins":
            l = (o[1], o[2])
            I.write(l, mk_seq(parts_of(I.read(l)) + tuple(parts)))
            return o
        if o[0] == "frontins":
            l = (o[1], o[2])
            I.write(l, mk_seq(tuple(reversed(parts)) + parts_of(I.read(l))))
            return o
        if o[0] == "it":
            l = (o[1], o[2])
            c = I.read(l)
            val = mk_seq(tuple(parts))
            n = size_of(val)
            if o[3] == N(0) and size_of(c) == n:
                I.write(l, val)
            else:
                q = I.st.facts.q_lt(size_of(c), add(o[3], n))
                if q is True:
                    I.event("hazard", why="write past the end of a container", term=o[3])
                    self.crash("algorithm writes past the end of its destination")
                if c[0] == "resized" and c[1] == EMPTYSEQ and o[3] == N(0):
                    if q is None:
                        I.event("hazard", why="destination may be too small", term=n)
                    I.write(l, mk_seq(tuple(parts) + (("all", ("resized", EMPTYSEQ, sub(c[2], n))),)))
                else:
                    I.write(l, ("ap", "overwrite", c, o[3], val))
            return self.it_advance(o, n)
        return o

    def f_back_inserter(self, e):
        l = self.I.resolve(self.I.loc(e["args"][0]))
        return ("V", ("backins", l[0], l[1]))

    def f_front_inserter(self, e):
        l = self.I.resolve(self.I.loc(e["args"][0]))
        return ("V", ("frontins", l[0], l[1]))

    def f_inserter(self, e):
        I = self.I
        l = I.resolve(I.loc(e["args"][0]))
        p = I.val(e["args"][1])
        return ("V", ("backins", l[0], l[1]))

    def f_copy(self, e):
        a = self.args(e)
        if a[0][0] != "it":
            self.I.event("ext", q="std::copy", args=tuple(a), obj=None)
            return ("V", a[2])
        rv = self.range_value(a[0], a[1])
        if a[2][0] in ("backins", "it", "frontins"):
            return ("V", self.out_write(a[2], (("all", rv),) if rv[0] != "seq" else rv[1], None))
        return ("V", a[2])

    def f_copy_if(self, e):
        I = self.I
        a = self.args(e)
        if a[2][0] == "backins":
            l = (a[2][1], a[2][2])

            def body(el):
                if I.branch(I.truth(self.inv(a[3], el))):
                    I.write(l, mk_seq(parts_of(I.read(l)) + (("one", I.read(el)),)))

            self.each(e, a[0], a[1], body)
            return ("V", a[2])
        return None

    def f_copy_n(self, e):
        a = self.args(e)
        b = self.it_advance(a[0], a[1])
        rv = self.range_value(a[0], b)
        return ("V", self.out_write(a[2], (("all", rv),) if rv[0] != "seq" else rv[1], None))

    def f_transform(self, e):
        I = self.I
        a = self.args(e)
        if len(a) == 4 and a[2][0] == "backins":
            l = (a[2][1], a[2][2])

            def body(el):
                v = self.inv(a[3], el)
                I.write(l, mk_seq(parts_of(I.read(l)) + (("one", v),)))

            self.each(e, a[0], a[1], body)
            return ("V", a[2])
        return None

    def f_remove(self, e):
        I = self.I
        if len(e["args"]) != 3:
            return None
        a = self.args(e)
        if a[0][0] != "it":
            return None
        l = (a[0][1], a[0][2])
        c = I.read(l)
        kept = self.without(c, a[2])
        I.write(l, mk_seq(parts_of(kept) + (("all", ("junk", c, a[2])),)))
        return ("V", ("it", l[0], l[1], size_of(kept)))

    def f_remove_if(self, e):
        I = self.I
        a = self.args(e)
        if a[0][0] != "it":
            return None
        l = (a[0][1], a[0][2])
        c = I.read(l)
        keep, drop = self.filter(e, l, c, a[2])
        I.write(l, mk_seq(parts_of(keep) + (("all", ("junk", c, drop)),)))
        return ("V", ("it", l[0], l[1], size_of(keep)))

    def partition(self, e, stable):
        I = self.I
        a = self.args(e)
        if a[0][0] != "it":
            return None
        l = (a[0][1], a[0][2])
        c = I.read(l)
        no, yes = self.filter(e, l, c, a[2])
        I.write(l, mk_seq(parts_of(yes) + parts_of(no)))
        return ("V", ("it", l[0], l[1], size_of(yes)))

    def f_partition(self, e):
        return self.partition(e, False)

    def f_stable_partition(self, e):
        return self.partition(e, True)

    def sorting(self, e, name):
        I = self.I
        a = self.args(e)
        if a[0][0] != "it":
            return None
        l = (a[0][1], a[0][2])
        c = I.read(l)
        whole = a[0][3] == N(0) and a[1][3] == size_of(c)
        I.event("sort", loc=l, how=name, cmp=a[2] if len(a) > 2 else VOID, whole=whole)
        if not whole:
            name = "part-" + name
        if parts_of(c) and not (len(parts_of(c)) == 1 and parts_of(c)[0][0] == "one"):
            I.write(l, ("perm", c, name, a[2] if len(a) > 2 else VOID), quiet=True)
        return ("V", VOID)

    def f_sort(self, e):
        return self.sorting(e, "sort")

    def f_stable_sort(self, e):
        return self.sorting(e, "stable_sort")

    def f_reverse(self, e):
        return self.sorting(e, "reverse")

    def f_rotate(self, e):
        I = self.I
        a = self.args(e)
        if len(a) == 3 and all(x[0] == "it" and x[1:3] == a[0][1:3] and x[3][0] != "key" for x in a):
            l = (a[0][1], a[0][2])
            c = I.read(l)
            if c[0] not in ("map", "set"):
                lo, mid, hi = a[0][3], a[1][3], a[2][3]
                n = size_of(c)
                I.event("sort", loc=l, how="rotate", cmp=VOID, whole=False)
                parts = ((N(0), lo), (mid, hi), (lo, mid), (hi, n))
                I.write(l, mk_seq(tuple(("all", mk_slice2(c, x, y)) for x, y in parts if x != y)))
                return ("V", ("it", l[0], l[1], add(lo, sub(hi, mid))))
        return self.sorting(e, "rotate")

    def f_min_element(self, e):
        return self.extremum(e, "min")

    def f_max_element(self, e):
        return self.extremum(e, "max")

    def extremum(self, e, name):
        I = self.I
        a = self.args(e)
        if a[0][0] != "it":
            return None
        l = (a[0][1], a[0][2])
        c = I.read(l)
        if I.branch(("cmp", "==i", sub(a[1][3], a[0][3]), N(0))):
            return ("V", a[1])
        p = ("ap", name + "pos", c, a[2] if len(a) > 2 else VOID)
        I.st.facts.set_lt(p, N(0), False)
        I.st.facts.set_lt(p, size_of(c), True)
        I.event("extremum", loc=l, how=name, cmp=a[2] if len(a) > 2 else VOID, pos=p)
        return ("V", ("it", l[0], l[1], p))

    def f_equal(self, e):
        return ("V", ("ap", "equal", *self.args(e)))

    def f_max(self, e):
        return self.minmax(e, False)

    def f_min(self, e):
        return self.minmax(e, True)

    def minmax(self, e, mn):
        I = self.I
        a = self.args(e)
        if len(a) != 2:
            return ("V", ("ap", "min" if mn else "max", *a))
        lt = I.branch(("cmp", "<", a[0], a[1]))
        return ("V", a[0] if lt == mn else a[1])

    # ---- chrono
    def f_duration_cast(self, e):
        I = self.I
        v = I.val(e["args"][0])
        src = self.period((e["fn"].get("pt") or [""])[0])
        dst = self.period(e["fn"]["rt"])
        if src and dst:
            return ("V", self.rescale(v, src, dst, True))
        return ("V", ("ap", "duration_cast", v))

    def f_zero(self, e):
        return ("V", N(0)) if "chrono::duration" in e["fn"].get("cls", "") else None

    def f_now(self, e):
        I = self.I
        cls = e["fn"].get("cls", "")
        n = I.st.fresh("now")
        I.event("now", clock=cls, n=n)
        return ("V", ("now", cls, n))

    def f_to_ulong(self, e):
        return None


def mk_slice2(c, lo, hi):
    """slice whose bounds may coincide with part boundaries of a compound sequence"""
    if c[0] != "seq":
        return mk_slice(c, lo, hi)
    pos = N(0)
    out = []
    inside = False
    started = False
    ended = False
    for p in c[1]:
        if pos == lo and not started:
            started = inside = True
        if pos == hi and started and not ended:
            ended = True
            inside = False
        if inside:
            out.append(p)
        pos = add(pos, N(1) if p[0] == "one" else size_of(p[1]))
    if pos == lo and not started:
        started = ended = True
    if pos == hi and started and not ended:
        ended = True
    if started and ended:
        return mk_seq(tuple(out))
    return mk_slice(c, lo, hi)
