"""A model of pint: unit(si factor), qty(magnitude, si factor of its unit)."""
from fractions import Fraction as F
from .terms import *
from . import terms as _t

_PRE = {'': 1, 'kilo': 1000, 'centi': F(1, 100), 'milli': F(1, 1000), 'micro': F(1, 10 ** 6), 'nano': F(1, 10 ** 9), 'deci': F(1, 10)}
_SH = {'': 1, 'k': 1000, 'c': F(1, 100), 'm': F(1, 1000), 'u': F(1, 10 ** 6), 'n': F(1, 10 ** 9), 'd': F(1, 10)}
TABLE = {}
for _p, _f in _PRE.items():
    for _n in ('meter', 'meters', 'metre', 'metres'):
        TABLE[_p + _n] = ('L', num(_f))
    for _n in ('radian', 'radians'):
        TABLE[_p + _n] = ('A', num(_f))
    for _n in ('degree', 'degrees'):
        TABLE[_p + _n] = ('A', mul(num(_f * F(1, 180)), PI))
for _p, _f in _SH.items():
    TABLE[_p + 'm'] = ('L', num(_f))
    TABLE[_p + 'rad'] = ('A', num(_f))
TABLE.update({'micron': TABLE['micrometer'], 'microns': TABLE['micrometer'], 'deg': TABLE['degree'],
              'arcminute': ('A', mul(num(F(1, 10800)), PI)), 'arcsecond': ('A', mul(num(F(1, 648000)), PI)),
              'angstrom': ('L', num(F(1, 10 ** 10))), 'inch': ('L', num(F(254, 10000))), 'foot': ('L', num(F(3048, 10000))), 'feet': ('L', num(F(3048, 10000))),
              'dimensionless': ('1', ONE)})

REG = mk('call', 'pint.UnitRegistry', (), ())


def is_reg(t):
    return t.op == 'call' and t.args[0] == 'pint.UnitRegistry'


def unit_of(s):
    """the unit named by the string term"""
    if s.op in ('unit',):
        return s
    if s.op == 'qty':
        return mk('unit', mul(s.args[0], s.args[1])) if s.args[0] is not ONE else mk('unit', s.args[1])
    if s.op == 'str' and s.args[0] in TABLE:
        return mk('unit', TABLE[s.args[0]][1])
    return mk('unit', mk('si', s))


def q(m, u):
    return mk('qty', m, u.args[0])


def isq(t):
    return t.op in ('qty', 'unit')


def qmul(x, y):
    if x.op == 'unit' and y.op == 'unit':
        return mk('unit', mul(x.args[0], y.args[0]))
    if y.op == 'unit' and x.op == 'qty':
        return mk('qty', x.args[0], mul(x.args[1], y.args[0]))
    if x.op == 'unit' and y.op == 'qty':
        return mk('qty', y.args[0], mul(x.args[0], y.args[1]))
    if y.op == 'unit':
        return mk('qty', x, y.args[0])
    if x.op == 'unit':
        return mk('qty', y, x.args[0])
    if x.op == 'qty' and y.op == 'qty':
        return mk('qty', mul(x.args[0], y.args[0]), mul(x.args[1], y.args[1]))
    if x.op == 'qty':
        return mk('qty', mul(x.args[0], y), x.args[1])
    return mk('qty', mul(x, y.args[0]), y.args[1])


def qdiv(x, y):
    inv = mk('unit', div(ONE, y.args[0])) if y.op == 'unit' else mk('qty', div(ONE, y.args[0]), div(ONE, y.args[1])) if y.op == 'qty' else div(ONE, y)
    return qmul(x, inv)


def qadd(x, y, s):
    if x.op == 'qty' and y.op == 'qty':
        c = mul(y.args[0], div(y.args[1], x.args[1]))
        return mk('qty', add(x.args[0], c) if s > 0 else sub(x.args[0], c), x.args[1])
    return top('sum of a quantity and a number')


def qto(x, u):
    u = unit_of(u)
    if x.op == 'unit':
        x = mk('qty', ONE, x.args[0])
    return mk('qty', mul(x.args[0], div(x.args[1], u.args[0])), u.args[0])


def plain(x):
    """the magnitude a numpy trigonometric function uses"""
    return mul(x.args[0], x.args[1])


def method(t, name, at, kt):
    """method call on a registry, quantity or unit; None: not modelled"""
    a0 = at[0] if at else (list(kt.values()) or [None])[0]
    if is_reg(t):
        if name in ('parse_expression', 'Unit', 'parse_units', '__getitem__', '__getattr__', '__call__', 'get_base_units'):
            if name in ('parse_units', 'Unit', '__getattr__'):
                return unit_of(a0)
            u = unit_of(a0)
            return mk('qty', ONE, u.args[0])
        if name == 'Quantity':
            if len(at) > 1:
                return qmul(at[0], unit_of(at[1]))
            return None
        return None
    if name in ('to', 'm_as', 'ito'):
        r = qto(t, a0)
        return r.args[0] if name == 'm_as' else r
    if name == 'to_base_units':
        return mk('qty', plain(t), ONE)
    return None


def attr(t, name):
    if is_reg(t):
        if name in ('load_definitions', 'define', 'Quantity', 'parse_expression', 'parse_units', 'Unit'):
            return None
        return unit_of(const(name))
    if t.op == 'qty':
        if name in ('magnitude', 'm'):
            return t.args[0]
        if name in ('units', 'u', 'unit'):
            return mk('unit', t.args[1])
    return None


def has_q(t):
    return t.op in ('qty', 'unit') or t.op == 'ite' and (has_q(t.args[1]) or has_q(t.args[2]))


REBUILD.update({'si': lambda s: unit_of(s).args[0]})
