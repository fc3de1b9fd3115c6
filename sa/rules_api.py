"""Estimator interface rules."""
from . import scen_api as sc
from .registry import check, Result
from .rules_ref import TECH, decide, load_specs, guarded, where

T8 = "after construction every constructor argument is the attribute of the same name"


@check("C08", technique=TECH, note="Every estimator class of the package and every constructor argument, of unrestricted value.")
def kept(pid, prog, tier):
    r = Result()
    load_specs(prog)
    for c in sc.estimators(prog):
        decide(r, prog, c.name, sc.kept(c.name), sc.instances, lambda n: True, c.name + ".__init__", T8)
    r.coverage["rule_applied"] = T8
    r.explanation = "Each (class, argument) pair is one obligation: the attribute's value after construction is the argument itself."
    return r


T10 = "no training step changes a list passed to the constructor: every list-changing operation reached acts on another list"


@check("C10", technique="effect analysis: value-graph summaries of every training step, recording each in-place change of a list "
                        "together with the list it acts on (aliases are resolved by the summaries)",
       note="All inputs; constructor, master problem, pricing and prediction steps. Constructs outside the summariser are undecided.")
def untouched(pid, prog, tier):
    r = Result()
    load_specs(prog)
    z, why = guarded(lambda: sc.changes(prog), 400)
    r.coverage["rule_applied"] = T10
    if z is None:
        r.unsure(why, where(prog, "DTreeClassifier.__init__"), T10)
        return r
    found, open_, done = z
    for title, at, name, what in found:
        r.bad("%s: %s of the caller's list %s" % (title, what, name), where(prog, at), T10)
    for title, at, why in open_:
        r.unsure("%s: %s" % (title, why), where(prog, at), T10)
    r.coverage["steps_without_change"] = done
    r.explanation = "Each training step is one obligation."
    return r
