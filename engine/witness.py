"""Is a particular string compatible with what a path assumes about it?

The facts of a path are evaluated at the string, term by term; a term outside the vocabulary (anything but text
operations of known meaning on the string in question) leaves the answer open. Used to turn a suspicious path into a
definite violation: the path is one that a named input takes."""
from terms import *

BIG = 2**64 - 1


class Open(Exception):
    pass


def value(t, env):
    """value of a term in an environment term -> str/int/bool; Open if it is not determined by the environment"""
    if t in env:
        return env[t]
    k = t[0]
    if k in ("str", "n", "b"):
        return t[1]
    if k == "chr":
        return chr(t[1])
    if k == "size":
        try:
            return len(items(t[1], env))
        except Open:
            return len(text(t[1], env))
    if k in ("add", "sub", "lin"):
        c, d = lin_parts(t)
        if len(d) == 1 and t in d:
            raise Open()
        return sum((n * integer(x, env) for x, n in d.items()), c) & BIG
    if k == "cat":
        return "".join(text(x, env) for x in t[1])
    if k == "not":
        return not value(t[1], env)
    if k == "cmp":
        a, b = value(t[2], env), value(t[3], env)
        if type(a) != type(b):
            raise Open()
        return a < b if t[1] == "<" else a == b
    if k == "strcmp":
        a, b = text(t[1], env), text(t[2], env)
        return (a > b) - (a < b)
    if k == "ap":
        f = t[1]
        if f == "substr":
            s, pos, n = text(t[2], env), integer(t[3], env), integer(t[4], env)
            if pos > len(s):
                raise Open()
            return s[pos : pos + n]
        if f in ("str.find", "str.rfind"):
            s, x, pos = text(t[2], env), text(t[3], env), integer(t[4], env)
            r = s.find(x, pos) if f == "str.find" else s.rfind(x, 0, min(pos, len(s)) + len(x))
            return r if r >= 0 else BIG
        if f in ("str.find_first_of", "str.find_last_of", "str.find_first_not_of"):
            s, x, pos = text(t[2], env), text(t[3], env), integer(t[4], env)
            ix = [i for i, c in enumerate(s) if (c in x) != (f == "str.find_first_not_of")]
            ix = [i for i in ix if i <= pos] if f == "str.find_last_of" else [i for i in ix if i >= pos]
            return (ix[-1] if f == "str.find_last_of" else ix[0]) if ix else BIG
        if f == "char":
            s, i = text(t[2], env), integer(t[3], env)
            if i < len(s):
                return s[i]
            raise Open()
        if f in ("char.front", "char.back"):
            s = text(t[2], env)
            if s:
                return s[0 if f == "char.front" else -1]
    raise Open()


def items(t, env):
    """a list value, element by element (elements of the environment's lists are their indices)"""
    if t in env:
        if not isinstance(env[t], tuple):
            raise Open()
        return env[t]
    k = t[0]
    if k == "seq":
        out = ()
        for p in t[1]:
            out += items(p[1], env) if p[0] == "all" else (item(p[1], env),)
        return out
    if k in ("slice", "erase", "upd", "rev", "without"):
        c = items(t[1], env)
        if k == "slice":
            a, b = integer(t[2], env), integer(t[3], env)
            if not a <= b <= len(c):
                raise Open()
            return c[a:b]
        if k == "rev":
            return c[::-1]
        if k == "without":
            v = item(t[2], env)
            return tuple(x for x in c if x != v)
        i = integer(t[2], env)
        if i >= len(c):
            raise Open()
        return c[:i] + c[i + 1 :] if k == "erase" else c[:i] + (item(t[3], env),) + c[i + 1 :]
    if k == "perm" and t[2] == "reverse":
        return items(t[1], env)[::-1]
    raise Open()


def item(t, env):
    if t in env:
        return env[t]
    if t[0] == "at":
        c, i = items(t[1], env), integer(t[2], env)
        if i < len(c):
            return c[i]
    raise Open()


def text(t, env):
    v = value(t, env)
    if not isinstance(v, str):
        raise Open()
    return v


def integer(t, env):
    v = value(t, env)
    if isinstance(v, bool) or not isinstance(v, int):
        raise Open()
    return v


def admits(f, env, first=False):
    """does the path with these facts admit the environment? (about the environment's terms only) True/False/None

    first: the path is a loop iteration, and the question is about the first one: nothing is in the collections it fills"""
    open_ = False

    def involved(t):
        return any(contains(t, lambda x: x == e) for e in env)

    for a, v in f.atoms.items():
        if not involved(a) or (first and not v and a[0] == "nz" and a[1][0] == "has" and a[1][1][0] == "phi"):
            continue
        try:
            if a[0] == "eq":
                x, y = value(a[1], env), value(a[2], env)
                if type(x) != type(y):
                    raise Open()
                ok = (x == y) == v
            elif a[0] == "nz":
                ok = bool(value(a[1], env)) == v
            else:
                raise Open()
            if not ok:
                return False
        except Open:
            open_ = True
    for key, (lo, hi) in f.bnd.items():
        if not any(involved(t) for t, _ in key):
            continue
        try:
            n = sum(k * integer(t, env) for t, k in key)
            if not lo <= n <= hi:
                return False
        except Open:
            open_ = True
    for key, vs in f.neq.items():
        if not any(involved(t) for t, _ in key):
            continue
        try:
            if sum(k * integer(t, env) for t, k in key) in vs:
                return False
        except Open:
            open_ = True
    return None if open_ else True
