"""Verdicts of the rules: every obligation is ok, violated or undecided; only definite violations raise an alarm."""
import json
import os
import re
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.okc = {}
        self.samples = []
        self.bads = []
        self.und = []
        self.analysed = {}
        self.t0 = time.time()

    def ok(self, rule, what=None, n=1):
        self.okc[rule] = self.okc.get(rule, 0) + n
        if what and len(self.samples) < 12 and not any(s["rule"] == rule for s in self.samples):
            self.samples.append({"rule": rule, "obligation": what})

    def bad(self, rule, what, where="", detail=None):
        key = re.sub(r"[^A-Za-z0-9]+", "-", "%s %s" % (rule, what)).strip("-")[:160]
        for b in self.bads:
            if b["key"] == key:
                b["count"] += 1
                return
        self.bads.append({"rule": rule, "what": what, "where": where, "key": key, "detail": detail or [], "count": 1})

    def undecided(self, rule, what, where=""):
        for u in self.und:
            if u["rule"] == rule and u["what"] == what:
                return
        self.und.append({"rule": rule, "what": what, "where": where})

    def expect(self, cond, rule, what, where="", detail=None, msg=None):
        """cond True / False / None (unknown)"""
        if cond is True:
            self.ok(rule, what)
        elif cond is None:
            self.undecided(rule, msg or what, where)
        else:
            self.bad(rule, msg or what, where, detail)

    def count(self, **kw):
        for k, v in kw.items():
            self.analysed[k] = self.analysed.get(k, 0) + v


def known_findings():
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def finish(rep, rules_text, assumptions, tier, seed, prog_info):
    """writes evidence and replay, prints verdict lines, returns the exit code"""
    kn = [k for k in known_findings() if k[0] == rep.pid]
    new = []
    for b in rep.bads:
        hit = [k for k in kn if k[1] == b["key"]]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (rep.pid, hit[0][2]))
        else:
            new.append(b)
    nok = sum(rep.okc.values())
    ev = {
        "property": rep.pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": rules_text,
            "obligations": nok + len(rep.und) + sum(b["count"] for b in rep.bads),
            "discharged": nok,
            "undecided": rep.und[:40],
            "by_rule": rep.okc,
            "analysed": {**prog_info, **rep.analysed},
            "samples": rep.samples,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - rep.t0, 3),
        "violations": len(new),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", rep.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for u in rep.und[:20]:
        print("undecided: %s: %s %s" % (u["rule"], u["what"], u["where"]))
    if new:
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, rep.pid + ".txt")
        with open(path, "w") as f:
            for b in new:
                f.write("property %s\nrule      %s\nviolation %s\nat        %s\nkey       %s\n" % (rep.pid, b["rule"], b["what"], b["where"], b["key"]))
                for l in b["detail"]:
                    f.write("    %s\n" % l)
                f.write("\n")
        for b in new:
            print("%s: %s [%s] %s" % (b["where"], b["what"], b["rule"], rep.pid))
        print("VIOLATION property=%s replay=%s" % (rep.pid, path))
        return 1
    print("%s: %d obligations discharged, %d undecided" % (rep.pid, nok, len(rep.und)))
    return 0
