#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decides one property on /repo's current source."""
import os
import signal
import sys
import traceback

sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from interp import Limit  # noqa: E402
from ir import AnalysisBroken, Program  # noqa: E402
from report import Report, finish  # noqa: E402


class OutOfTime(BaseException):
    pass


def out_of_time(*_):
    raise OutOfTime()


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER") or ("thorough" if "--thorough" in argv else "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    import catalogue

    rep = Report(pid)
    try:
        prog = Program().load()
        info = {"translation_units": len(prog.units), "functions": len(prog.fns)}
        ctx = catalogue.Ctx(prog)
        ctx.tier = tier
        signal.signal(signal.SIGALRM, out_of_time)
        signal.alarm(700)
        try:
            for fn in catalogue.CHECKS[pid]:
                try:
                    fn(ctx, rep)
                except (AnalysisBroken, OutOfTime):
                    raise
                except (Exception, RecursionError) as e:
                    # a construct the rules did not foresee: nothing is claimed about it
                    traceback.print_exc(file=sys.stderr)
                    rep.undecided(getattr(fn, "__name__", "rule"), "the analysis failed: %s" % repr(e)[:200])
        except OutOfTime:
            rep.undecided("analysis", "the analysis takes too long")
        signal.alarm(0)
    except AnalysisBroken as e:
        print("analysis impossible: %s" % e)
        return 2
    text, assumptions = catalogue.explain(pid)
    return finish(rep, text, assumptions, tier, seed, info)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
