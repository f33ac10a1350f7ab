"""Callee contracts shared by several properties (each is proved wherever it is used)."""
from specs.common import *
from vc.contracts import Contract
fl = lambda c, a: scale(fdiv(a, c.one), c.one)
N1 = lambda c: c.f < c.n - 1
floor_op = Op('callee_floor', 'a:T', 'T', 'return eirin::floor(mk<N>(a)).internal_value();', None, lambda c, r, a: [('largest integer not above', eq(r, fl(c, a)))], when=N1)
Contract('floor', '%N eirin::floor%T(', 'v', floor_op, fn=fl)
