"""Vocabulary of the contracts."""
import z3
from z3 import Int, Ints, And, Or, Not, Implies, If, Exists, Select, Store, IntVal, BoolVal
from engine import *
from engine import ForAll

ROWS = z3.ArraySort(INT, z3.ArraySort(INT, INT))
ARR = z3.ArraySort(INT, INT)


def cell(t, r, c):
    return Select(Select(t.data, r), c)


def sorted_by(t, c, strict=False):
    p, q = Ints("p!s q!s")
    return ForAll([p, q], Implies(And(0 <= p, p < q, q < t.n), cell(t, p, c) <= cell(t, q, c)),
                  patterns=[z3.MultiPattern(Select(t.data, p), Select(t.data, q))])


def nonneg(t):
    """cells are unsigned 64-bit values"""
    p, q = Ints("p!n q!n")
    return ForAll([p, q], And(cell(t, p, q) >= 0, cell(t, p, q) < 2 ** 64), patterns=[cell(t, p, q)])
