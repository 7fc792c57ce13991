"""Modular view of the program for the analysis of the handler: calls into the worker registry see the registry's
contract, written as a reference implementation (ref/worker_registry.json), instead of whatever the current
implementation looks like.  That the current one satisfies the contract is decided by rules_registry.py."""
import copy
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
CLS = "worker_registry"


def calls_of(x, out):
    if isinstance(x, dict):
        f = x.get("fn")
        if isinstance(f, dict) and f.get("cls") == CLS:
            out.add(f["n"])
        for v in x.values():
            calls_of(v, out)
    elif isinstance(x, list):
        for v in x:
            calls_of(v, out)


def with_contracts(prog):
    with open(os.path.join(HERE, "ref", CLS + ".json")) as f:
        ref = json.load(f)
    r = prog.rec_by_q(CLS)
    if r is None:
        return prog
    used = set()
    for f in prog.fns.values():
        if f["fn"].get("cls") != CLS:
            calls_of(f.get("body"), used)
    used -= {CLS, "~" + CLS}
    mine = {}
    for f in prog.fns.values():
        if f["fn"].get("cls") == CLS and f["fn"]["n"] in ref["fns"]:
            mine.setdefault(f["fn"]["n"], []).append(f)
    if not used <= set(ref["fns"]):
        return prog  # a richer interface than the contract knows
    for n in used:
        fs = mine.get(n, [])
        if len(fs) != 1 or fs[0]["fn"]["pt"] != ref["fns"][n]["fn"]["pt"] or fs[0]["fn"]["rt"] != ref["fns"][n]["fn"]["rt"]:
            return prog
    p = copy.copy(prog)
    p.fns = dict(prog.fns)
    p.recs = dict(prog.recs)
    for n, fs in mine.items():
        if len(fs) == 1 and fs[0]["fn"]["pt"] == ref["fns"][n]["fn"]["pt"]:
            g = dict(ref["fns"][n])
            g["fn"] = fs[0]["fn"]
            p.fns[fs[0]["fn"]["usr"]] = g
    for k, x in prog.recs.items():
        if x["q"] == CLS:
            y = dict(x)
            y["fields"] = ref["rec"]["fields"]
            p.recs[k] = y
    p.link()
    return p
