"""Contracts of functions that many properties call."""
from core import *
from engine import *
get_n_samples = Contract('get_n_samples', [Itp('d', 'a'), Itp('d', 'b'), Sc('m')], [('whole rows', lambda e: And(e.a <= e.b, e.m > 0, mod(e.b - e.a, e.m) == 0))],
    [('number of rows', lambda e: And(e.result == div(e.b - e.a, e.m), mul(e.result, e.m) == e.b - e.a))], objs=dict(d=VecOf(RE)), result=SZ)
auto_distance = Contract('auto_distance', [Itp('p', 'p0'), Itp('p', 'p1'), Itp('q', 'q0'), Itp('q', 'q1')],
    [('ranges of equal length within their sequences', lambda e: And(e.p0 <= e.p1, e.q1 - e.q0 == e.p1 - e.p0))],
    [('distance of the two rows', lambda e: e.result == DIST(ROW(e.p.el, e.p0, e.p1 - e.p0), ROW(e.q.el, e.q0, e.p1 - e.p0)))], objs=dict(p=VecOf(RE), q=VecOf(RE)), result=RE,
    trusted='auto_distance computes a fixed function DIST of the two rows (its value is established in P01)')
