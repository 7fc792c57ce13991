"""Provenance terms: the abstract values of the analysis.  A term names where a value came from (a literal, a field of
an argument, an element of a collection, the result of a library function, ...), never a concrete runtime value.

Terms are nested tuples:
  ('str',s) ('n',i) ('b',x) ('null',) ('void',)      literals
  ('sym',name)                                        an unknown input
  ('fld',t,f)                                         field of an unknown object
  ('drf',p)                                           object behind an unknown pointer
  ('ap',op,a...)                                      result of a pure function
  ('lin',c,((t,k),...))                               integer c + sum k*t
  ('size',coll) ('at',coll,i) ('slice',coll,lo,hi)    sequences
  ('mg',map,key) ('ky',map,i) ('has',map,key)         associative containers
  ('ix',inst) ('phi',inst,cell)                       loop symbols
  ('ptr',root,steps)                                  pointer to a known storage location
  ('alias',root,steps)                                C++ reference
  ('rec',cls,((f,v),...))                             object with known fields
  ('seq',parts)                                       sequence made of ('one',v) and ('all',coll)
  ('map',base,entries,multi)                          associative container: base plus later entries (key,value|DEL)
  ('it',root,steps,pos)                               iterator
  ('clo',id,caps,this)                                lambda
  ('cat',parts)                                       string concatenation
  ('cmp',op,a,b) ('not',t) ('ite',c,a,b)              conditions
"""

NULL = ("null",)
VOID = ("void",)
TRUE = ("b", True)
FALSE = ("b", False)
DEL = ("del",)
EMPTYSEQ = ("seq", ())


def S(s):
    return ("str", s)


def N(i):
    return ("n", int(i))


def sym(n):
    return ("sym", n)


def is_const(t):
    return t[0] in ("str", "n", "b", "null", "chr", "enum")


def fld(t, f):
    if t[0] == "rec":
        for k, v in t[2]:
            if k == f:
                return v
        base = t[3] if len(t) > 3 else None
        return ("fld", base if base is not None else ("sym", "uninit:" + t[1]), f)
    if t[0] == "ite":
        return ite(t[1], fld(t[2], f), fld(t[3], f))
    return ("fld", t, f)


def rec(cls, fields, base=None):
    return ("rec", cls, tuple(sorted(fields.items())), base)


def rec_set(t, f, v, cls=None):
    if t[0] == "rec":
        d = dict(t[2])
        d[f] = v
        return ("rec", t[1], tuple(sorted(d.items())), t[3] if len(t) > 3 else None)
    return ("rec", cls or "?", ((f, v),), t)


def ite(c, a, b):
    if a == b:
        return a
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    return ("ite", c, a, b)


# ---------------------------------------------------------------- integers
def lin_parts(t):
    if t[0] == "n":
        return t[1], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    if t[0] == "b":
        return int(t[1]), {}
    if t[0] == "chr":
        return t[1], {}
    if t[0] == "enum":
        return t[2], {}
    return 0, {t: 1}


def mk_lin(c, d):
    items = tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=repr))
    if not items:
        return ("n", c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return ("lin", c, items)


def add(a, b, k=1):
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    d = dict(d1)
    for t, v in d2.items():
        d[t] = d.get(t, 0) + k * v
    return mk_lin(c1 + k * c2, d)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    c, d = lin_parts(a)
    return mk_lin(c * k, {t: v * k for t, v in d.items()})


def lin_split(t):
    """t = c + key, key normalised so that its first coefficient is positive -> (c, sign, key or None)"""
    c, d = lin_parts(t)
    d = {k: v for k, v in d.items() if v}
    if not d:
        return c, 1, None
    items = tuple(sorted(d.items(), key=repr))
    sign = 1 if items[0][1] > 0 else -1
    return c, sign, tuple((k, v * sign) for k, v in items)


# ---------------------------------------------------------------- sequences
def parts_of(t):
    """sequence value -> tuple of parts"""
    if t[0] == "seq":
        return t[1]
    if t[0] == "void" or t == NULL:
        return ()
    return (("all", t),)


def mk_seq(parts):
    out = []
    for p in parts:
        if p[0] == "all":
            c = p[1]
            if c[0] == "seq":
                out.extend(c[1])
                continue
            if c[0] == "slice" and c[2] == c[3]:
                continue
            if (
                out
                and c[0] == "slice"
                and out[-1][0] == "all"
                and out[-1][1][0] == "slice"
                and out[-1][1][1] == c[1]
                and out[-1][1][3] == c[2]
            ):
                out[-1] = ("all", mk_slice(c[1], out[-1][1][2], c[3]))
                continue
        out.append(p)
    if len(out) == 1 and out[0][0] == "all":
        return out[0][1]
    return ("seq", tuple(out))


def size_of(t):
    if t[0] == "seq":
        s = N(0)
        for p in t[1]:
            s = add(s, N(1) if p[0] == "one" else size_of(p[1]))
        return s
    if t[0] == "slice":
        return sub(t[3], t[2])
    if t[0] in ("perm", "upd"):
        return size_of(t[1])
    if t[0] == "erase":
        return sub(size_of(t[1]), N(1))
    if t[0] == "str":
        return N(len(t[1]))
    if t[0] == "resized":
        return t[2]
    if t[0] == "map" and t[1] == ("empty",) and not any(e[1] == DEL for e in t[2]):
        keys = [e[0] for e in t[2]]
        if t[3] or all(is_const(k) for k in keys):
            return N(len(t[2]) if t[3] else len(set(keys)))
    if t[0] == "map" and not t[2] and t[1] != ("empty",):
        return ("size", t[1])
    return ("size", t)


def mk_slice(c, lo, hi):
    if lo == N(0) and hi == size_of(c):
        return c
    if lo == hi:
        return EMPTYSEQ
    if c[0] == "slice":
        return mk_slice(c[1], add(c[2], lo), add(c[2], hi))
    if c[0] == "seq" and len(c[1]) > 1:
        # cut at the boundaries of parts
        pos, starts = N(0), []
        for p in c[1]:
            starts.append(pos)
            pos = add(pos, N(1) if p[0] == "one" else size_of(p[1]))
        starts.append(pos)
        i = [k for k, x in enumerate(starts) if x == lo]
        j = [k for k, x in enumerate(starts) if x == hi]
        if i and j and j[-1] >= i[0]:
            return mk_seq(c[1][i[0] : j[-1]])
    if c[0] == "seq" and lo[0] == "n":
        # drop known leading elements
        parts = list(c[1])
        k = lo[1]
        off = 0
        while k > 0 and parts and parts[0][0] == "one":
            parts.pop(0)
            k -= 1
            off += 1
        if off:
            return mk_slice(mk_seq(parts), N(k), sub(hi, N(off)))
    if c[0] == "seq" and lo == N(0):
        # cut known trailing elements
        parts = list(c[1])
        d = sub(size_of(c), hi)
        if d[0] == "n" and d[1] > 0:
            k = d[1]
            while k > 0 and parts and parts[-1][0] == "one":
                parts.pop()
                k -= 1
            if k == 0:
                return mk_seq(parts)
    return ("slice", c, lo, hi)


def at(c, i):
    """element i of a sequence value; None-free: falls back to ('at',c,i)"""
    if c[0] == "seq":
        parts = c[1]
        if i[0] == "n" and i[1] >= 0:
            k = i[1]
            for p in parts:
                if p[0] == "one":
                    if k == 0:
                        return p[1]
                    k -= 1
                else:
                    if p is parts[-1]:
                        return at(p[1], N(k))
                    break
        off = sub(i, size_of(c))
        if off[0] == "n" and off[1] < 0:
            k = -off[1]
            for p in reversed(parts):
                if p[0] == "one":
                    if k == 1:
                        return p[1]
                    k -= 1
                else:
                    break
        # symbolic index: skip known head
        head = 0
        for p in parts:
            if p[0] != "one":
                break
            head += 1
        if head and head == len(parts) - 1 and parts[-1][0] == "all":
            j = sub(i, N(head))
            if "phi" in repr(j) or "ix" in repr(j):
                return at(parts[-1][1], j)
    if c[0] == "slice":
        return at(c[1], add(c[2], i))
    if c[0] == "upd":
        if c[2] == i:
            return c[3]
        if sub(c[2], i)[0] == "n":
            return at(c[1], i)
    if c[0] == "erase":
        d = sub(i, c[2])
        if d[0] == "n":
            return at(c[1], i if d[1] < 0 else add(i, N(1)))
    return ("at", c, i)


# ---------------------------------------------------------------- strings
def cat(*ps):
    out = []
    for p in ps:
        sub_ = p[1] if p[0] == "cat" else (p,)
        for q in sub_:
            if q[0] == "str":
                if q[1] == "":
                    continue
                if out and out[-1][0] == "str":
                    out[-1] = S(out[-1][1] + q[1])
                    continue
            out.append(q)
    if not out:
        return S("")
    if len(out) == 1 and out[0][0] == "str":
        return out[0]
    if len(out) == 1:
        return out[0]
    return ("cat", tuple(out))


def tostr(t):
    if t[0] == "n":
        return S(str(t[1]))
    if t[0] == "b":
        return S("1" if t[1] else "0")
    return ("tostr", t)


def neg(t):
    if t[0] == "b":
        return ("b", not t[1])
    if t[0] == "not":
        return t[1]
    return ("not", t)


# ---------------------------------------------------------------- generic walks
def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def contains(t, pred):
    if not isinstance(t, tuple) or not t:
        return False
    if pred(t):
        return True
    for x in t:
        if isinstance(x, tuple) and contains(x, pred):
            return True
    return False


def mentions(t, s):
    if t == s:
        return True
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple) and mentions(x, s):
                return True
    return False


def subst(t, m):
    """replace subterms by the mapping m (dict), rebuilding through the simplifying constructors"""
    if t in m:
        return m[t]
    if not isinstance(t, tuple) or not t:
        return t
    if not any(isinstance(x, tuple) for x in t):
        return t
    n = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    if n == t:
        return t
    return rebuild(n)


def rebuild(n):
    k = n[0]
    if k == "lin":
        c = n[1]
        r = N(c)
        for t, v in n[2]:
            r = add(r, mulc(t, v))
        return r
    if k == "fld":
        return fld(n[1], n[2])
    if k == "at":
        return at(n[1], n[2])
    if k == "size":
        return size_of(n[1])
    if k == "slice":
        return mk_slice(n[1], n[2], n[3])
    if k == "seq":
        return mk_seq(n[1])
    if k == "cat":
        return cat(*n[1])
    if k == "tostr":
        return tostr(n[1])
    if k == "not":
        return neg(n[1])
    return n


def show(t, depth=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if depth > 9:
        return "…"
    d = depth + 1
    if k == "str":
        return '"%s"' % t[1]
    if k in ("n", "b"):
        return str(t[1])
    if k == "null":
        return "null"
    if k == "sym":
        return t[1]
    if k == "fld":
        return "%s.%s" % (show(t[1], d), t[2])
    if k == "drf":
        return "*%s" % show(t[1], d)
    if k == "ap":
        return "%s(%s)" % (t[1], ", ".join(show(x, d) for x in t[2:]))
    if k == "lin":
        r = " + ".join((show(x, d) if v == 1 else "%d*%s" % (v, show(x, d))) for x, v in t[2])
        return "(%s%s)" % (r, (" %+d" % t[1]) if t[1] else "")
    if k == "size":
        return "|%s|" % show(t[1], d)
    if k == "at":
        return "%s[%s]" % (show(t[1], d), show(t[2], d))
    if k == "slice":
        return "%s[%s..%s)" % tuple(show(x, d) for x in t[1:4])
    if k == "mg":
        return "%s{%s}" % (show(t[1], d), show(t[2], d))
    if k == "ix":
        return "i@%s" % (t[1],)
    if k == "phi":
        return "φ%s:%s" % (t[1], t[2])
    if k == "ptr":
        return "&%s%s" % (show_root(t[1]), show_steps(t[2]))
    if k == "rec":
        return "%s{%s}" % (t[1], ", ".join("%s=%s" % (f, show(v, d)) for f, v in t[2]))
    if k == "seq":
        return "[%s]" % ", ".join((show(p[1], d) if p[0] == "one" else "…" + show(p[1], d)) for p in t[1])
    if k == "map":
        return "%s+{%s}" % (show(t[1], d), ", ".join("%s:%s" % (show(a, d), show(b, d)) for a, b in t[2]))
    if k == "cat":
        return " ++ ".join(show(x, d) for x in t[1])
    if k == "tostr":
        return "str(%s)" % show(t[1], d)
    if k == "cmp":
        return "(%s %s %s)" % (show(t[2], d), t[1], show(t[3], d))
    if k == "not":
        return "!%s" % show(t[1], d)
    if k == "clo":
        return "λ%s" % t[1]
    if isinstance(k, str):
        return "%s(%s)" % (k, ", ".join(show(x, d) for x in t[1:]))
    return "(%s)" % ", ".join(show(x, d) for x in t)


def show_root(r):
    if r[0] == "p":
        return "*" + show(r[1])
    return ":".join(str(x) for x in r)


def show_steps(st):
    out = ""
    for s in st:
        if s[0] == "f":
            out += "." + s[1]
        else:
            out += "[%s]" % show(s[1])
    return out


# ---------------------------------------------------------------- facts
class Infeasible(Exception):
    pass


INF = float("inf")


UNSIGNED = set()  # names of fields whose declared type is unsigned everywhere they are declared (filled by Interp)


class Facts:
    """What is known on the current path: truth of atoms, intervals of linear expressions."""

    __slots__ = ("atoms", "bnd", "neq", "eqc")

    def __init__(self):
        self.atoms = {}
        self.bnd = {}
        self.neq = {}
        self.eqc = {}

    def copy(self):
        f = Facts()
        f.atoms = dict(self.atoms)
        f.bnd = dict(self.bnd)
        f.neq = dict(self.neq)
        f.eqc = dict(self.eqc)
        return f

    # ---- integers
    def term_bounds(self, t):
        lo, hi = -INF, INF
        if t[0] in ("size", "ix"):
            lo = 0
        elif t[0] == "fld" and t[2] in UNSIGNED:
            lo = 0
        elif t[0] == "ap" and (t[1] in ("u", "str.find", "str.size", "sz") or (t[1] == "cfg" and t[2][1] in UNSIGNED)):
            lo = 0
        if t[0] == "size" and t[1][0] == "cat":
            lo = sum(len(p[1]) for p in t[1][1] if p[0] == "str")
        b = self.bnd.get(((t, 1),))
        if b:
            lo, hi = max(lo, b[0]), min(hi, b[1])
        return lo, hi

    def bounds(self, t):
        c, sign, key = lin_split(t)
        if key is None:
            return c, c
        lo = hi = 0
        for x, k in key:
            a, b = self.term_bounds(x)
            if k > 0:
                lo, hi = lo + k * a, hi + k * b
            else:
                lo, hi = lo + k * b, hi + k * a
        b = self.bnd.get(key)
        if b:
            lo, hi = max(lo, b[0]), min(hi, b[1])
        if sign < 0:
            lo, hi = -hi, -lo
        return lo + c, hi + c

    def tighten(self, t, lo, hi):
        c, sign, key = lin_split(t)
        if key is None:
            if c < lo or c > hi:
                raise Infeasible()
            return
        lo, hi = lo - c, hi - c
        if sign < 0:
            lo, hi = -hi, -lo
        old = self.bnd.get(key, (-INF, INF))
        base = self.bounds(mk_lin(0, dict(key)))
        nlo, nhi = max(lo, old[0], base[0]), min(hi, old[1], base[1])
        ne = self.neq.get(key)
        if ne:
            while nlo in ne:
                nlo += 1
            while nhi in ne:
                nhi -= 1
        if nlo > nhi:
            raise Infeasible()
        self.bnd[key] = (nlo, nhi)

    def q_lt(self, a, b):
        """a < b ? True/False/None"""
        lo, hi = self.bounds(sub(a, b))
        if hi < 0:
            return True
        if lo >= 0:
            return False
        if a[0] == "n" and b[0] not in ("n", "lin"):
            # through one other term: x < b with x >= 0
            for key, (klo, khi) in self.bnd.items():
                if len(key) != 2:
                    continue
                for (x, kx), (y, ky) in ((key[0], key[1]), (key[1], key[0])):
                    if y != b or kx != -ky or abs(kx) != 1:
                        continue
                    xlo = self.term_bounds(x)[0]
                    low = xlo - khi if ky < 0 else xlo + klo
                    if a[1] < low:
                        return True
        c, sign, key = lin_split(sub(a, b))
        if key is not None and len(self.bnd) > 1 and len(key) <= 2 and all(abs(k) == 1 for _, k in key):
            if len(key) == 2 and key[0][1] == key[1][1]:
                return None
            ZERO = None
            xs = [t for t, k in key if k * sign > 0] or [ZERO]
            ys = [t for t, k in key if k * sign < 0] or [ZERO]
            if self.chain(xs[0], ys[0], -1 - c):
                return True
            if self.chain(ys[0], xs[0], c):
                return False
            if -c * sign in self.neq.get(key, ()) and self.chain(xs[0], ys[0], -c):
                return True
        return None

    def chain(self, x, y, want):
        """is x - y <= want, through a chain of known differences?"""
        adj = {}
        for key, (lo, hi) in self.bnd.items():
            if len(key) == 2:
                (p, kp), (q, kq) = key
                if kp == 1 and kq == -1:
                    pass
                elif kp == -1 and kq == 1:
                    p, q = q, p
                else:
                    continue
            elif len(key) == 1 and abs(key[0][1]) == 1:
                p, q = (key[0][0], None) if key[0][1] == 1 else (None, key[0][0])
            else:
                continue
            # lo <= p - q <= hi
            if hi < INF:
                adj.setdefault(p, []).append((q, hi))
            if lo > -INF:
                adj.setdefault(q, []).append((p, -lo))
        if x not in adj:
            return False
        best = {x: 0}
        front = {x}
        for _ in range(4):
            nxt = set()
            for u in front:
                for v, w in adj.get(u, ()):
                    if best[u] + w < best.get(v, INF):
                        best[v] = best[u] + w
                        nxt.add(v)
            if best.get(y, INF) <= want:
                return True
            front = nxt
            if not front:
                break
        return False

    def q_eqi(self, a, b):
        d = sub(a, b)
        if d == N(0):
            return True
        lo, hi = self.bounds(d)
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        c, sign, key = lin_split(d)
        if key is not None:
            ne = self.neq.get(key)
            if ne and (-c * sign) in ne:
                return False
        return None

    def set_lt(self, a, b, pol):
        d = sub(a, b)
        if pol:
            self.tighten(d, -INF, -1)
        else:
            self.tighten(d, 0, INF)

    def learn_find(self, d, pol):
        """consequences of where a string was found for the length of the string searched"""
        c, ts = lin_parts(d)
        if len(ts) != 1:
            return
        ((t, k),) = ts.items()
        if t[0] != "ap" or t[1] not in ("str.find", "str.rfind", "str.find_first_of", "str.find_last_of") or k not in (1, -1):
            return
        n = size_of(t[3]) if t[1] in ("str.find", "str.rfind") else N(1)
        v = -c * k
        if pol and 0 <= v < 2**63:
            self.tighten(sub(size_of(t[2]), n), v, INF)
        elif not pol and v == 2**64 - 1:
            self.tighten(sub(sub(size_of(t[2]), n), t), 0, INF)

    def set_eqi(self, a, b, pol):
        d = sub(a, b)
        self.learn_find(d, pol)
        if pol:
            self.tighten(d, 0, 0)
        else:
            c, sign, key = lin_split(d)
            if key is None:
                if c == 0:
                    raise Infeasible()
                return
            v = -c * sign
            s = self.neq.get(key, frozenset())
            self.neq[key] = s | {v}
            lo, hi = self.bounds(mk_lin(0, dict(key)))
            if lo == hi == v:
                raise Infeasible()
            if lo == v or hi == v:
                self.tighten(mk_lin(0, dict(key)), lo, hi)

    # ---- generic atoms
    def known(self, atom):
        return self.atoms.get(atom)

    def norm_eq(self, a, b):
        """-> True/False or (atom, pol)"""
        if a == b:
            return True
        if a == NULL or b == NULL:
            x = b if a == NULL else a
            if x[0] in ("ptr", "clo", "fnp", "str", "seq", "map"):
                return False
            return (("nz", x), False)
        if is_const(a) and is_const(b):
            return a == b
        if a[0] == "ptr" and b[0] == "ptr":
            return a == b
        for x, y in ((a, b), (b, a)):
            if x[0] == "ptr" and x[1][0] == "h" and y[0] in ("sym", "fld", "at", "mg", "ky", "ap", "phi"):
                return False
            if x[0] == "cat" and y[0] == "str":
                ps = x[1]
                if ps[0][0] == "str" and not y[1].startswith(ps[0][1]):
                    return False
                if ps[-1][0] == "str" and not y[1].endswith(ps[-1][1]):
                    return False
                if sum(len(p[1]) for p in ps if p[0] == "str") > len(y[1]):
                    return False
        x, y = sorted((a, b), key=repr)
        return (("eq", x, y), True)

    def ptr_index(self, a, b):
        """pointers to elements of the same container: the two positions"""
        if a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1] and len(a[2]) == len(b[2]) and a != b:
            d = [(x, y) for x, y in zip(a[2], b[2]) if x != y]
            if len(d) == 1 and d[0][0][0] == d[0][1][0] == "i":
                return d[0][0][1], d[0][1][1]
        return None

    def q_eq(self, a, b):
        pi = self.ptr_index(a, b)
        if pi is not None:
            return self.q_eqi(*pi)
        r = self.norm_eq(a, b)
        if r is True or r is False:
            return r
        atom, pol = r
        v = self.atoms.get(atom)
        if v is not None:
            return v == pol
        if atom[0] == "eq":
            x, y = atom[1], atom[2]
            for p, q in ((x, y), (y, x)):
                if is_const(q):
                    k = self.eqc.get(p)
                    if k is not None:
                        return k == q
            kx, ky = self.eqc.get(x), self.eqc.get(y)
            if kx is not None and ky is not None:
                return kx == ky
            # pointers: one known null and the other known non-null
            nx, ny = self.atoms.get(("nz", x)), self.atoms.get(("nz", y))
            if x[0] == "ptr":
                nx = True
            if y[0] == "ptr":
                ny = True
            if nx is not None and ny is not None and nx != ny:
                return False
        return None

    def set_eq(self, a, b, val):
        pi = self.ptr_index(a, b)
        if pi is not None:
            return self.set_eqi(pi[0], pi[1], val)
        r = self.norm_eq(a, b)
        if r is True or r is False:
            if r != val:
                raise Infeasible()
            return
        k = self.q_eq(a, b)
        if k is not None and k != val:
            raise Infeasible()
        atom, pol = r
        self.atoms[atom] = val == pol
        if atom[0] == "eq":
            x, y = atom[1], atom[2]
            if is_const(x):
                x, y = y, x
            if val and is_const(y):
                self.eqc[x] = y
            if y[0] == "str":
                self.learn_str(x, y[1], val)

    def learn_str(self, x, c, val):
        """consequences of a string comparison for the length of the string"""
        if val:
            self.tighten(size_of(x), len(c), len(c))
            if x[0] == "ap" and x[1] == "substr":
                self.tighten(sub(size_of(x[2]), x[3]), len(c), INF)
        elif c == "":
            self.tighten(size_of(x), 1, INF)

    def q(self, t):
        """truth of a condition term: True/False/None"""
        k = t[0]
        if k == "b":
            return t[1]
        if k == "n":
            return t[1] != 0
        if k == "null":
            return False
        if k in ("ptr", "clo", "fnp"):
            return True
        if k == "not":
            v = self.q(t[1])
            return None if v is None else not v
        if k == "cmp":
            if t[1] == "<":
                return self.q_lt(t[2], t[3])
            if t[1] == "==i":
                return self.q_eqi(t[2], t[3])
            if t[1] == "==":
                return self.q_eq(t[2], t[3])
        v = self.atoms.get(("nz", t))
        if v is not None:
            return v
        lo, hi = self.bounds(t)
        if lo > 0 or hi < 0:
            return True
        if lo == hi == 0:
            return False
        return None

    def assume(self, t, val):
        k = t[0]
        if k in ("b", "n", "null", "ptr", "clo", "fnp"):
            if self.q(t) != val:
                raise Infeasible()
            return
        if k == "not":
            return self.assume(t[1], not val)
        if k == "cmp":
            if t[1] == "<":
                return self.set_lt(t[2], t[3], val)
            if t[1] == "==i":
                return self.set_eqi(t[2], t[3], val)
            if t[1] == "==":
                return self.set_eq(t[2], t[3], val)
        q = self.q(t)
        if q is not None and q != val:
            raise Infeasible()
        self.atoms[("nz", t)] = val

    def set_atom(self, atom, val):
        v = self.atoms.get(atom)
        if v is not None and v != val:
            raise Infeasible()
        self.atoms[atom] = val
