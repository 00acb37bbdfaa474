"""One worker process: runs its share of each leg's cases. Usage:
   python -B -m vf.worker PROP TIER SEED IDX N OUT"""
import hashlib
import os
import pickle
import resource
import signal
import sys
import time
import traceback
import warnings

from . import core


class _Stop(KeyboardInterrupt):
    pass


def arm(seconds):
    signal.setitimer(signal.ITIMER_PROF, seconds)


def disarm():
    signal.setitimer(signal.ITIMER_PROF, 0)


def _on_prof(signum, frame):
    raise core.CaseTimeout()


def derive(*parts):
    h = hashlib.blake2b("|".join(map(str, parts)).encode(), digest_size=7).digest()
    return int.from_bytes(h, "big")


def timed(leg, case, stats):
    arm(leg.cpu_limit)
    try:
        msg = core.run_case(leg, case, stats)
    except core.CaseTimeout:
        msg = "%s: did not finish within %.0f s of CPU time" % (leg.name, leg.cpu_limit)
    finally:
        disarm()
    return msg


def run_leg(prop, leg, tier, seed, idx, n, stats, failures, t_end):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    total = leg.quick if tier == "quick" else leg.thorough
    count = max(1, (total + n - 1) // n)
    best = {}

    def record(case, msg, hang=False):
        r = repr(case)
        if "case" not in best or len(r) <= len(best["repr"]):
            best.update(case=case, repr=r, msg=msg)
        if "first" not in best:
            best["first"] = time.monotonic()
            best["orig"] = r
        best["hang"] = hang

    for i, ex in enumerate(leg.examples):
        if i % n != idx:
            continue
        msg = timed(leg, ex, stats)
        if msg:
            failures.append({"leg": leg.name, "case": repr(ex), "msg": msg, "orig": repr(ex), "fixed_example": True})
            return

    shrink_budget = 40.0

    def body(case):
        now = time.monotonic()
        if "first" in best:
            if now - best["first"] > shrink_budget:
                if repr(case) == best["repr"]:
                    raise core.Failed(best["msg"])
                return
        elif now > t_end:
            stats["capped"] = True
            raise _Stop()
        msg = timed(leg, case, stats)
        if msg:
            hang = "CPU time" in msg
            record(case, msg, hang)
            if hang:
                raise _Stop()
            raise core.Failed(msg)

    strat = leg.strategy()
    test = given(strat)(body)
    test = settings(max_examples=count, database=None, deadline=None, derandomize=False,
                    phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
                    report_multiple_bugs=False, verbosity=Verbosity.quiet, print_blob=False)(test)
    test = hypothesis.seed(derive(seed, prop.id, leg.name, idx))(test)
    try:
        test()
    except _Stop:
        pass
    except core.HarnessError:
        raise
    except core.Failed:
        pass
    except BaseException as e:  # Flaky etc.: our own record is what counts
        if "case" not in best:
            raise
        best["flaky"] = "%s: %s" % (type(e).__name__, str(e)[:200])
    if "case" in best:
        repro = None
        if not best.get("hang"):
            repro = any(core.run_case(leg, best["case"], core.new_stats()) for _ in range(3))
        failures.append({"leg": leg.name, "case": best["repr"], "msg": best["msg"], "orig": best["orig"],
                         "flaky": best.get("flaky"), "reproduced": repro})


def main():
    pid, tier, seed, idx, n, out = sys.argv[1:7]
    seed, idx, n = int(seed), int(idx), int(n)
    wall = float(os.environ.get("VF_WALL", "300"))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))
    except Exception:
        pass
    t0 = time.monotonic()
    res = {"ok": False}
    try:
        core.setup_path()
        warnings.simplefilter("ignore")
        signal.signal(signal.SIGPROF, _on_prof)
        from .registry import load
        prop = load(pid)
        failures, stats = [], core.new_stats()
        for leg in prop.legs:
            run_leg(prop, leg, tier, seed, idx, n, stats, failures, t0 + wall)
            if failures:
                break
        res = {"ok": True, "stats": stats, "failures": failures, "wall": time.monotonic() - t0}
    except core.Gap as e:
        res = {"ok": True, "gap_load": str(e), "stats": core.new_stats(), "failures": [], "wall": time.monotonic() - t0}
    except BaseException as e:  # noqa
        # importing the code under test may itself fail
        where = core._innermost(e.__traceback__)
        if isinstance(e, (ImportError, AttributeError)) and where and where[0] in ("repo", "shim"):
            # a module the code under test needs is not available here
            res = {"ok": True, "gap_load": "%s: %s" % (type(e).__name__, e), "stats": core.new_stats(),
                   "failures": [], "wall": time.monotonic() - t0}
        else:
            res = {"ok": False, "error": traceback.format_exc(), "where": where[0] if where else None}
    with open(out, "wb") as f:
        pickle.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
