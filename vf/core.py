"""Framework: properties, legs, per-case execution, verdicts.

A *property* is a list of *legs*.  A leg is a Hypothesis strategy that produces
plain-literal cases (anything whose repr() evaluates back to it) together with a
check function ``check(case, ctx)`` which exercises /repo's code on that case and
raises ``Violation`` when the property's oracle disagrees.
"""
import hashlib
import os
import sys
import traceback
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIMS = os.path.join(ROOT, "shims")


class Violation(Exception):
    """The oracle disagrees with the code under test."""


class Gap(BaseException):
    """The case cannot be decided by this harness (e.g. a stand-in library lacks
    an API the code under test uses): inconclusive, never a violation."""


class Discard(BaseException):
    """The generated case is outside the property's domain."""


class CaseTimeout(BaseException):
    """One case used far more CPU time than any case ever needs."""


class HarnessError(BaseException):
    """The harness itself is broken."""


class Failed(Exception):
    """Raised to Hypothesis for every kind of failure (one origin => one bug)."""


class Leg:
    def __init__(self, name, strategy, check, quick, thorough=None, examples=(), rule=None,
                 cpu_limit=30.0):
        self.name = name
        self.strategy = strategy          # zero-argument callable -> strategy
        self.check = check
        self.quick = quick                # total cases over all workers
        self.thorough = thorough if thorough is not None else quick * 20
        self.examples = list(examples)    # fixed cases run first by worker 0
        self.cpu_limit = cpu_limit
        self.rule = rule


class Prop:
    def __init__(self, id, legs, rule, assumptions=(), workers=8):
        self.id = id
        self.legs = legs
        self.rule = rule
        self.assumptions = list(assumptions)
        self.workers = workers


class Ctx:
    """Handed to the check of one case."""

    def __init__(self, stats):
        self._stats = stats
        self.is_nontrivial = False

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def label(self, name, cond=True):
        if cond:
            c = self._stats["classes"]
            c[name] = c.get(name, 0) + 1

    def count(self, name, k=1):
        c = self._stats["counters"]
        c[name] = c.get(name, 0) + k

    def fail(self, msg):
        raise Violation(msg)

    def require(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def discard(self):
        raise Discard()


def new_stats():
    return {"evaluations": 0, "classes": {}, "counters": {}, "gaps": 0, "gap_msgs": {},
            "discards": 0, "nontrivial": set(), "samples": [], "capped": False, "sample_seen": 0}


def case_hash(case):
    return hashlib.blake2b(repr(case).encode(), digest_size=8).hexdigest()


def parse_case(text):
    env = {"__builtins__": {}, "nan": float("nan"), "inf": float("inf"), "set": set, "frozenset": frozenset}
    return eval(text, env)  # replay files written by this harness


def _walk(tb):
    while tb is not None:
        yield tb
        tb = tb.tb_next


def _innermost(tb):
    """Path of the innermost frame that belongs to /repo, shims or the harness."""
    last = None
    try:
        frames = traceback.extract_tb(tb)
    except Exception:  # a frame without position information
        frames = [traceback.FrameSummary(t.tb_frame.f_code.co_filename, t.tb_lineno or 0, t.tb_frame.f_code.co_name, lookup_line=False) for t in _walk(tb)]
    for fr in frames:
        fn = fr.filename
        if fn.startswith(REPO + os.sep):
            last = ("repo", fr)
        elif fn.startswith(SHIMS + os.sep):
            last = ("shim", fr)
        elif fn.startswith(ROOT + os.sep):
            last = ("harness", fr)
    return last


def run_case(leg, case, stats):
    """Returns None if the case passed (or was inconclusive), else a message."""
    ctx = Ctx(stats)
    try:
        leg.check(case, ctx)
    except Violation as e:
        return "%s: %s" % (leg.name, e)
    except CaseTimeout:
        return "%s: did not finish within %.0f s of CPU time (normal cases take milliseconds)" % (leg.name, leg.cpu_limit)
    except Gap as e:
        stats["gaps"] += 1
        k = str(e)[:200]
        stats["gap_msgs"][k] = stats["gap_msgs"].get(k, 0) + 1
        return None
    except Discard:
        stats["discards"] += 1
        return None
    except MemoryError:
        return "%s: ran out of memory on a tiny input" % leg.name
    except Exception as e:  # noqa
        where = _innermost(e.__traceback__)
        kind = where[0] if where else "harness"
        text = "%s: %s" % (type(e).__name__, e)
        loc = "%s:%s in %s" % (where[1].filename, where[1].lineno, where[1].name) if where else "?"
        # the harness was given, say, a tuple instead of a table: the result is wrong, nothing is missing
        wrong = kind == "harness" and isinstance(e, AttributeError) and type(getattr(e, "obj", e)).__module__ in ("builtins", "numpy") and not isinstance(e.obj, (type, types.ModuleType, types.FunctionType, types.MethodType))
        if isinstance(e, ImportError) or (
                kind != "repo" and not wrong and isinstance(e, (AttributeError, NameError, NotImplementedError))):
            stats["gaps"] += 1
            k = ("%s at %s" % (text, loc))[:300]
            stats["gap_msgs"][k] = stats["gap_msgs"].get(k, 0) + 1
            return None
        return "%s: unexpected %s (%s)" % (leg.name, text, loc)
    finally:
        stats["evaluations"] += 1
        if ctx.is_nontrivial:
            stats["nontrivial"].add(case_hash(case))
            stats["sample_seen"] += 1
            r = repr(case)
            # the first non-trivial case, later ones (the early cases are the smallest), and one of each further leg
            seen = [x["leg"] for x in stats["samples"]]
            if len(r) < 1500 and (leg.name not in seen or stats["sample_seen"] in (12, 40, 150, 600)) and len(seen) < 8:
                stats["samples"].append({"leg": leg.name, "case": r})
    return None


def expect_raises(ctx, exc_types, fn, what):
    """fn() must raise one of exc_types; anything else is a violation."""
    try:
        res = fn()
    except exc_types as e:
        return e
    except Violation:
        raise
    except Exception as e:  # noqa
        raise Violation("%s: expected %s, got %s: %s" % (
            what, "/".join(t.__name__ for t in (exc_types if isinstance(exc_types, tuple) else (exc_types,))),
            type(e).__name__, e))
    raise Violation("%s: expected %s, but it was accepted (returned %r)" % (
        what, "/".join(t.__name__ for t in (exc_types if isinstance(exc_types, tuple) else (exc_types,))), type(res).__name__))


def setup_path():
    sys.dont_write_bytecode = True
    for p in (SHIMS, REPO):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, REPO)
    sys.path.insert(0, SHIMS)


def many_rows(base, sizes=(300, 1100, 2600)):
    """Cases of the strategy `base`, with (many) more rows."""
    from hypothesis import strategies as st
    return st.tuples(base, st.sampled_from(sizes)).map(lambda t: dict(t[0], n=t[1]))
