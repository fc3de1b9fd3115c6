"""Reference descriptions of the parameter tuner."""
import math


class Values:
    """All values pushed since the last clear."""

    def __init__(self):
        self.values = []

    def push(self, x):
        self.values.append(x)

    def clear(self):
        self.values = []

    def num_data_values(self):
        return len(self.values)

    def mean(self):
        return sum(self.values) / len(self.values)

    def variance(self):
        n = len(self.values)
        if n < 2:
            return 0.0
        m = sum(self.values) / n
        return sum((v - m) * (v - m) for v in self.values) / (n - 1)


def step(variance):
    return math.sqrt(variance)


def scores(optimal, feasible, wall, limit, objective, bound):
    """(time score, gap)"""
    if optimal:
        return wall / limit, 0
    if feasible and objective * bound >= 0:
        return 1, abs(objective - bound) / max(abs(objective), abs(bound))
    return 1, 1
