"""Program database: what clang's type checker resolved for every function of /repo/src (see extract/extract.cpp)."""
import concurrent.futures
import glob
import json
import os
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BRK_REPO", "/repo")
EXTRACT = os.path.join(VERIF, "build", "brk-extract")


class AnalysisBroken(Exception):
    """The analysis could not be carried out (not a verdict about the code)."""


def base_flags(repo):
    return [
        "-std=c++17",
        "-DFMT_HEADER_ONLY",
        "-I" + os.path.join(repo, "vendor/cppzmq"),
        "-I" + os.path.join(repo, "vendor/spdlog/include"),
        "-resource-dir",
        "/usr/lib/llvm-18/lib/clang/18",
        "-w",
        "-ferror-limit=0",
    ]


def sources(repo):
    src = os.path.join(repo, "src")
    out = sorted(glob.glob(os.path.join(src, "**", "*.cpp"), recursive=True))
    return out


def instantiation_unit(repo):
    """The class template single_queue_manager is only instantiated by broker_core.cpp (not built here), so a
    translation unit of ours instantiates it explicitly."""
    hdr = os.path.join(repo, "src/queuing/single_queue_manager.h")
    if not os.path.exists(hdr):
        return None
    return '#include "%s"\ntemplate class single_queue_manager<>;\n' % hdr


def ensure_extractor():
    if os.path.exists(EXTRACT):
        src = os.path.join(VERIF, "extract", "extract.cpp")
        if os.path.getmtime(EXTRACT) >= os.path.getmtime(src):
            return
    r = subprocess.run(["bash", os.path.join(VERIF, "setup.sh")], capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(EXTRACT):
        raise AnalysisBroken("cannot build the extractor: " + r.stderr[-800:])


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.fns = {}  # usr -> function
        self.by_q = {}  # qualified name -> [function]
        self.recs = {}  # qualified name -> record
        self.vars = {}  # qualified name -> variable
        self.overriders = {}  # usr -> [usr]
        self.units = []
        self.errors = {}

    def load(self, only=None):
        ensure_extractor()
        root = os.path.join(os.path.realpath(self.repo), "src")
        with tempfile.TemporaryDirectory(prefix="brk") as tmp:
            jobs = []
            for s in sources(self.repo):
                if only and not only(os.path.relpath(s, self.repo)):
                    continue
                jobs.append((s, []))
            inst = instantiation_unit(self.repo)
            if inst is not None and (not only or only("src/queuing/single_queue_manager.h")):
                p = os.path.join(tmp, "inst_single_queue_manager.cpp")
                with open(p, "w") as f:
                    f.write(inst)
                jobs.append((p, []))

            def run(job):
                s, extra = job
                out = os.path.join(tmp, s.replace("/", "_") + ".json")
                flags = list(base_flags(self.repo)) + extra
                if s.endswith("broker_core.cpp"):
                    # spdlog 0.x names this file uses and the installed spdlog 1.x no longer has
                    flags += ["-include", os.path.join(VERIF, "extract", "spdlog_compat.h")]
                r = subprocess.run(
                    [EXTRACT, "--root", root, "--out", out, s, "--"] + flags, capture_output=True, text=True
                )
                if not os.path.exists(out):
                    return s, None, r.stderr
                with open(out) as f:
                    return s, json.load(f), r.stderr

            with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
                for s, d, err in ex.map(run, jobs):
                    rel = os.path.relpath(s, self.repo) if s.startswith(self.repo) else os.path.basename(s)
                    if d is None:
                        raise AnalysisBroken("%s was not analysed: %s" % (rel, err[-400:]))
                    if d["errors"]:
                        self.errors[rel] = err
                        if not rel.endswith("broker_core.cpp"):
                            raise AnalysisBroken("%s does not compile: %s" % (rel, err[:1500]))
                    self.units.append(rel)
                    self.add(d)
        self.link()
        return self

    def add(self, d):
        for f in d["fns"]:
            usr = f["fn"]["usr"]
            if usr not in self.fns:
                self.fns[usr] = f
        for r in d["recs"]:
            key = r["ty"]
            if key not in self.recs:
                self.recs[key] = r
        for v in d["vars"]:
            self.vars.setdefault(v["q"], v)

    def link(self):
        self.by_q = {}
        for f in self.fns.values():
            self.by_q.setdefault(f["fn"]["q"], []).append(f)
        self.overriders = {}
        for r in self.recs.values():
            for m in r["methods"]:
                for o in m["ov"]:
                    self.overriders.setdefault(o, []).append(m["fn"]["usr"])

    def rec(self, ty):
        """Record by canonical type string (const, reference and pointer stripped)."""
        return self.recs.get(strip_type(ty))

    def rec_by_q(self, q):
        for r in self.recs.values():
            if r["q"] == q:
                return r
        return None

    def methods_named(self, cls_q, name):
        return [f for f in self.fns.values() if f["fn"].get("cls") == cls_q and f["fn"]["n"] == name]

    def fn_named(self, q):
        return self.by_q.get(q, [])

    def subclasses(self, q):
        out = []
        for r in self.recs.values():
            for b in r["bases"]:
                if b == q or strip_type(b) == q:
                    out.append(r)
                    out.extend(self.subclasses(r["ty"]))
        return out


def strip_type(t):
    t = (t or "").strip()
    changed = True
    while changed:
        changed = False
        if t.startswith("const "):
            t = t[6:].strip()
            changed = True
        for suf in ("&&", "&", "*", " const"):
            if t.endswith(suf):
                t = t[: -len(suf)].strip()
                changed = True
    return t


def tmpl_name(t):
    """'std::vector<int>' -> 'std::vector'"""
    t = strip_type(t)
    i = t.find("<")
    return (t[:i] if i >= 0 else t).replace("__cxx11::", "")


def tmpl_args(t):
    t = strip_type(t)
    i = t.find("<")
    if i < 0:
        return []
    body = t[i + 1 : t.rfind(">")]
    out, depth, cur = [], 0, ""
    for ch in body:
        if ch == "<" or ch == "(":
            depth += 1
        elif ch == ">" or ch == ")":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
