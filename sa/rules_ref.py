"""Rules decided by comparing value-graph summaries of the package with those of the reference description."""
import os
import sys
import signal
import time

from . import source, compare
from .registry import check, Result
from .term import Unsup

TECH = "value-graph comparison: predicated data-flow summaries (loops closed symbolically) of the package code and of " \
       "a reference description, brought to a normal form and compared term by term"
NOTE = "All inputs, data sizes and dual values; public method sequence as listed in the evidence. Constructs outside " \
       "the summariser are reported as undecided, never as an alarm."


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout("time limit of the analysis")


START = time.time()


def guarded(fn, secs, total=750):
    """(value, None) or (None, reason)."""
    if not os.environ.get("SA_DEV"):
        secs = max(1, min(secs, int(START + total - time.time())))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(secs)
    try:
        return fn(), None
    except (Unsup, Timeout) as e:
        return None, str(e) or type(e).__name__
    except source.Broken:
        raise
    except (RecursionError, AssertionError, KeyError, TypeError, AttributeError, ValueError, IndexError,
            ZeroDivisionError, OverflowError) as e:
        if os.environ.get("SA_TB"):
            import traceback
            sys.__stderr__.write(traceback.format_exc()[-1500:])
        return None, "the analysis failed: %s: %s" % (type(e).__name__, e)
    finally:
        signal.alarm(0)


def where(prog, spec):
    """(file, line) of 'Class.method' or a function."""
    try:
        if "." in spec:
            c, m = spec.split(".")
            f = prog.method(prog.cls(c), m)
            return (f.mod.path, f.node.lineno)
        for m in prog.mods.values():
            if spec in m.funcs and not m.name.startswith("spec"):
                return (m.path, m.funcs[spec].node.lineno)
    except (source.Broken, AttributeError):
        pass
    return ("", 0)


def decide(r, prog, title, scenario, instances, select, anchor, rule, secs=240, tries=60):
    """Runs one scenario and adds what concerns the property to r."""
    holder = {}

    def run():
        A, B = scenario(prog)
        holder["A"], holder["B"] = A, B
        c = compare.Cmp(A, B, instances, tries=tries)
        c.run()
        return c
    c, why = guarded(run, secs)
    at = where(prog, anchor if isinstance(anchor, str) else list(anchor.values())[0])
    if c is None:
        r.unsure("%s: %s" % (title, why), at, rule)
        return None

    def pos(name):
        if isinstance(anchor, str):
            return at
        for k, v in anchor.items():
            if name.startswith(k):
                return where(prog, v)
        return at
    n = 0
    for name in c.same:
        if select(name):
            n += 1
    for name, msg in c.diffs:
        if select(name) or name in ("number of solver calls", "exception"):
            r.bad("%s: %s: %s" % (title, name, msg), pos(name), rule)
    for name, msg in c.unsure:
        if select(name) or name == "exception":
            r.unsure("%s: %s: %s" % (title, name, msg), pos(name), rule)
    cov = r.coverage
    cov.setdefault("scenarios", []).append(title)
    cov["obligations_proved_identical"] = cov.get("obligations_proved_identical", 0) + n
    I = c.code.I
    cov.setdefault("functions_summarised", [])
    cov["functions_summarised"] = sorted(set(cov["functions_summarised"]) | I.visited)
    cov["statements_summarised"] = cov.get("statements_summarised", 0) + I.steps
    notes = cov.setdefault("assertions_not_understood", 0)
    cov["assertions_not_understood"] = notes + len(I.notes)
    return c


def rule(*ids, text, parts, extra=None):
    """parts: list of (title, scenario, instances, select, anchor)"""
    @check(*ids, technique=TECH, note=NOTE)
    def run(pid, prog, tier):
        r = Result()
        load_specs(prog)
        r.coverage["rule_applied"] = text
        for title, scenario, instances, select, anchor in parts:
            decide(r, prog, title, scenario, instances, select, anchor, text, tries=60 if tier == "quick" else 300)
        if extra:
            extra(r, prog, text)
        r.explanation = "Each observation (coefficient family, constraint family, returned value, exception condition) " \
                        "of the package is one obligation: its normal form must be the one of the reference."
        return r
    return run


def load_specs(prog):
    base = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec")
    for f in sorted(os.listdir(base)):
        if f.endswith(".py") and f != "__init__.py":
            k = "spec:" + f[:-3]
            if k not in prog.mods:
                with open(os.path.join(base, f)) as fh:
                    prog.mods[k] = source.Module(k, k, fh.read())
