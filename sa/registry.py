"""Property id -> checker."""
from . import source

CHECKS = {}


class Result:
    def __init__(self):
        self.violations = []     # dicts: file, line, message, rule
        self.undecided = []      # same
        self.coverage = {}
        self.assumptions = []
        self.explanation = ""

    def bad(self, message, where=("", 0), rule=""):
        self.violations.append(dict(file=where[0], line=where[1], message=message, rule=rule))

    def unsure(self, message, where=("", 0), rule=""):
        self.undecided.append(dict(file=where[0], line=where[1], message=message, rule=rule))


def check(*ids, technique="", note=""):
    def deco(f):
        for i in ids:
            CHECKS[i] = dict(fn=f, technique=technique, note=note)
        return f
    return deco


def load():
    from . import rules_fit, rules_bdr, rules_dt, rules_api, rules_tune, rules_ex   # noqa: F401
    return CHECKS
