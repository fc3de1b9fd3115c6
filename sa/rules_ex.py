"""Experiment driver rules."""
from fractions import Fraction

from . import scen_dt as sd, scen_ex as sc, sepa
from .registry import check, Result
from .rules_ref import TECH, NOTE, decide, load_specs, guarded, where

E1 = "each documented option, short and long, sets one setting to its value, and that setting reaches what it is documented for"


@check("E01", technique="option-table data flow: summaries of the option loop for every single accepted option, and backward slices from the "
                        "places the settings are used",
       note="Every documented option on its own, with any value; later options of one call are handled by the same loop body.")
def options(pid, prog, tier):
    r = Result()
    load_specs(prog)
    at = where(prog, "main")
    z, why = guarded(lambda: sc.options(prog), 200)
    r.coverage["rule_applied"] = E1
    if z is None:
        r.unsure(why, at, E1)
        return r
    bad, open_, facts = z
    for m in bad:
        r.bad(m, at, E1)
    for m in open_:
        r.unsure(m, at, E1)
    r.coverage["options"] = facts
    r.explanation = "Each documented option is one obligation: accepted, effective, same effect of the long form, reaches its use."
    return r


class Clocks(sepa.Val):
    """Valuation with non-decreasing clock readings."""

    def __init__(self, readings, syms):
        super().__init__(0, syms)
        self.readings = readings

    def ev_f(self, t, env):
        if t.a[0] == "clock":
            return self.readings[min(int(self.num(self.ev(t.a[1], env))), len(self.readings) - 1)]
        return super().ev_f(t, env)


GAPS = [Fraction(x) for x in (0, Fraction(1, 1000), Fraction(1, 2), 1, 3, 10, 1000)]
E2 = "for a positive user limit L the limit handed on is in (0, L]; for any other user limit it is not positive"


@check("E02", technique="backward slice of the driver from the classifier's time limit, summarised as a piecewise linear form of the user's limit "
                        "and the clock readings and evaluated around its breakpoints",
       note="Integer limits from -2 to 10 and 600, every preprocessing duration of the grid; the form is piecewise linear in both.")
def limit(pid, prog, tier):
    r = Result()
    load_specs(prog)
    at = where(prog, "main")
    z, why = guarded(lambda: sc.limit(prog), 200)
    r.coverage["rule_applied"] = E2
    if not z:
        r.unsure(why or "no time limit is handed to the classifier", at, E2)
        return r
    n = 0
    for o, v, _ in z:
        bad = {}
        try:
            for l in list(range(-2, 11)) + [600]:
                for g in GAPS:
                    x = Clocks([1000 + g * k for k in range(40)], {"number given": l}).ev(v, {})
                    n += 1
                    if g == 0:
                        still = x > 0
                    if l > 0 and x <= 0:
                        kind = "a limit used up by preprocessing becomes no limit" if still else "a limit becomes no limit"
                    elif l > 0 and x > l:
                        kind = "the limit is extended"
                    elif l <= 0 and x > 0:
                        kind = "no limit becomes a limit"
                    else:
                        continue
                    bad.setdefault(kind, "limit %d, %s s between clock readings: %s" % (l, float(g), float(x)))
        except (sepa.Undef, TypeError, ValueError) as e:
            r.unsure("%s: value is not understood: %s" % (o, e), at, E2)
            continue
        for kind, example in bad.items():
            r.bad("option %s: %s" % (o, kind), at, E2 + "; e.g. " + example)
    r.coverage["valuations"] = n
    r.explanation = "The slice's value is evaluated for each limit and duration."
    return r


E3 = "the limits on candidate splits handed to the reduction are at least one for every depth"


@check("E03", technique="backward slice of the driver from the limits handed to the reduction of candidate splits, evaluated for every depth",
       note="Depths 1 to 30.")
def quota(pid, prog, tier):
    r = Result()
    load_specs(prog)
    at = where(prog, "main")
    z, why = guarded(lambda: sc.quota(prog), 200)
    r.coverage["rule_applied"] = E3
    if not z:
        r.unsure(why or "no reduction found", at, E3)
        return r
    n = 0
    for p, v, _ in z:
        try:
            for d in range(1, 31):
                x = Clocks([Fraction(k) for k in range(40)], {"number given": d}).ev(v, {})
                n += 1
                if x < 1:
                    r.bad("%s is %s for trees of depth %d" % (p, x, d), at, E3)
                    break
        except (sepa.Undef, TypeError, ValueError) as e:
            r.unsure("%s: value is not understood: %s" % (p, e), at, E3)
    r.coverage["valuations"] = n
    r.explanation = "Each limit is one obligation per depth."
    return r


E4 = "the driver's path test, split sides and row preprocessing are those of the reference (left branch iff value <= threshold)"


@check("E04", technique=TECH, note=NOTE)
def driver_rows(pid, prog, tier):
    r = Result()
    load_specs(prog)
    tries = 60 if tier == "quick" else 300
    decide(r, prog, "driver's path test", sc.follows, sd.instances_side, lambda n: True, "row_satisfies_path", E4, tries=tries)
    decide(r, prog, "driver's split sides", sc.rows_of_splits, sd.instances_side, lambda n: True, "add_rows_to_splits", E4, tries=tries)
    decide(r, prog, "driver's row preprocessing", sc.plain, sd.instances_rows, lambda n: True, "preprocess", E4, tries=tries)
    r.coverage["rule_applied"] = E4
    r.explanation = "Each observation (side set, path test, row attribute) is one obligation."
    return r
