"""Saturation functions (Gardner, Van Genuchten)."""
from tdyver.harness import *
from tdyver.normal import diff

SRCS = ['src/materials/tdycharacteristiccurves.c']


def gardner_law(m, alpha, Sr, Pc):
    return (1 - Sr) * exp(-alpha * Pc / m) + Sr


def vg_law(m, alpha, Sr, Pc):
    n = 1 / (1 - m)
    return (1 - Sr) * (1 + (alpha * Pc)**n)**(-m) + Sr


def params(v):
    m, alpha, Sr, Pc = v.real('m'), v.real('alpha'), v.real('Sr'), v.real('Pc')
    v.requires(and_(rle(R(0), Sr), rlt(Sr, R(1))), 'residual saturation in [0,1)')
    v.requires(rlt(R(0), alpha), 'alpha > 0')
    v.requires(rlt(R(0), m), 'm > 0')
    return m, alpha, Sr, Pc


def common(v, st, S, dS, d2S, law, Pc, Sr, regions, nd):
    wet, dry = regions
    v.ensure(st, implies(wet, req(S, R(1))), 'saturated where the capillary pressure is not positive')
    v.ensure(st, implies(dry, req(S, law)), 'S follows the retention law')
    v.ensure(st, rle(Sr, S), 'S is at least the residual saturation')
    v.ensure(st, rle(S, R(1)), 'S is at most 1')
    if nd >= 1:
        # d/dP = - d/dPc
        v.ensure(st, implies(dry, req(dS, neg(diff(law, Pc)))), 'dS/dP is the derivative of S')
        v.ensure(st, implies(wet, req(dS, R(0))), 'dS/dP = 0 where saturated')
        v.ensure(st, rle(R(0), dS), 'S does not decrease with pressure')
    if nd >= 2:
        v.ensure(st, implies(dry, req(d2S, diff(diff(law, Pc), Pc))), 'd2S/dP2 is the second derivative of S')
        v.ensure(st, implies(wet, req(d2S, R(0))), 'd2S/dP2 = 0 where saturated')


def gardner(nd):
    def f(newv):
        v = newv()
        m, alpha, Sr, Pc = params(v)
        n = v.real('n')
        S, dS, d2S = (v.array(x, 'R', 1) for x in ('S', 'dS', 'd2S'))
        outs = v.call('PressureSaturation_Gardner', n, m, alpha, Sr, Pc, S, dS if nd >= 1 else NULL, d2S if nd >= 2 else NULL)
        for st, r in outs:
            common(v, st, S.now(st, 0), dS.now(st, 0), d2S.now(st, 0), gardner_law(m, alpha, Sr, Pc), Pc, Sr, (rlt(Pc, R(0)), rle(R(0), Pc)), nd)
            v.ensure(st, implies(req(Pc, R(0)), req(S.now(st, 0), R(1))), 'continuous at zero capillary pressure')
    return f


def vg(nd):
    def f(newv):
        v = newv()
        m, alpha, Sr, Pc = params(v)
        v.requires(rlt(m, R(1)), 'Van Genuchten m < 1')
        S, dS, d2S = (v.array(x, 'R', 1) for x in ('S', 'dS', 'd2S'))
        outs = v.call('PressureSaturation_VanGenuchten', m, alpha, Sr, Pc, S, dS if nd >= 1 else NULL, d2S if nd >= 2 else NULL)
        for st, r in outs:
            common(v, st, S.now(st, 0), dS.now(st, 0), d2S.now(st, 0), vg_law(m, alpha, Sr, Pc), Pc, Sr, (rle(Pc, R(0)), rlt(R(0), Pc)), nd)
    return f


def units(tier):
    return [('Gardner, %d derivatives' % d, gardner(d)) for d in (2, 1, 0)] + [('Van Genuchten, %d derivatives' % d, vg(d)) for d in (2, 1, 0)]
