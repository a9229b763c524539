"""Relative permeability functions (Irmay, Mualem with cubic smoothing)."""
from tdyver.harness import *
from tdyver.normal import diff

SRCS = ['src/materials/tdycharacteristiccurves.c']


def mualem_law(m, Se):
    return Se**R(0.5) * (1 - (1 - Se**(1 / m))**m)**2


def irmay(nd):
    def f(newv):
        v = newv()
        m, Se = v.real('m'), v.real('Se')
        v.requires(rlt(R(0), m), 'm > 0')
        v.requires(rlt(R(0), Se), 'effective saturation > 0')
        k, d = v.array('Kr', 'R', 1), v.array('dKr', 'R', 1)
        for st, r in v.call('RelativePermeability_Irmay', m, Se, k, d if nd else NULL):
            K_ = k.now(st, 0)
            sat, uns = rle(R(1), Se), rlt(Se, R(1))
            v.ensure(st, implies(sat, req(K_, R(1))), 'kr = 1 at full saturation')
            v.ensure(st, implies(uns, req(K_, Se**m)), 'kr = Se^m')
            v.ensure(st, rle(R(0), K_), 'kr >= 0')
            v.ensure(st, rle(K_, R(1)), 'kr <= 1')
            if nd:
                v.ensure(st, implies(uns, req(d.now(st, 0), diff(Se**m, Se))), 'dkr/dSe is the derivative of kr')
                v.ensure(st, implies(sat, req(d.now(st, 0), R(0))), 'dkr/dSe = 0 at full saturation')
                v.ensure(st, rle(R(0), d.now(st, 0)), 'kr does not decrease with Se')
    return f


def mualem_pre(v):
    m, Se = v.real('m'), v.real('Se')
    v.requires(and_(rlt(R(0), m), rlt(m, R(1))), '0 < m < 1')
    v.requires(rlt(R(0), Se), 'effective saturation > 0')
    return m, Se


def unsmoothed(nd):
    def f(newv):
        v = newv()
        m, Se = mualem_pre(v)
        k, d = v.array('Kr', 'R', 1), v.array('dKr', 'R', 1)
        for st, r in v.call('RelativePermeability_Mualem_Unsmoothed', m, Se, k, d if nd else NULL):
            K_ = k.now(st, 0)
            law = mualem_law(m, Se)
            sat, uns = rle(R(1), Se), rlt(Se, R(1))
            v.ensure(st, implies(sat, req(K_, R(1))), 'kr = 1 at full saturation')
            v.ensure(st, implies(uns, req(K_, law)), 'kr follows the Mualem law')
            v.ensure(st, rle(R(0), K_), 'kr >= 0')
            v.ensure(st, rle(K_, R(1)), 'kr <= 1')
            if nd:
                v.ensure(st, implies(uns, req(d.now(st, 0), diff(law, Se))), 'dkr/dSe is the derivative of kr')
                v.ensure(st, implies(sat, req(d.now(st, 0), R(0))), 'dkr/dSe = 0 at full saturation')
    return f


def mualem(newv):
    v = newv()
    m, Se = mualem_pre(v)
    x0, x1, dx = v.real('x0'), v.real('x1'), v.real('dx')
    v.requires(rlt(R(0), dx), 'smoothing scale dx > 0')
    c = v.array('coeffs', 'R', 4, readonly=True)
    k, d = v.array('Kr', 'R', 1), v.array('dKr', 'R', 1)
    for st, r in v.call('RelativePermeability_Mualem', m, x0, x1, dx, c, Se, k, d):
        K_ = k.now(st, 0)
        xt = (Se - x0) / dx
        cubic = c[0] + c[1] * xt + c[2] * xt**2 + c[3] * xt**3
        law = mualem_law(m, Se)
        lo, hi = and_(rle(Se, x1), rlt(Se, R(1))), rlt(x1, Se)
        v.ensure(st, implies(hi, req(K_, cubic)), 'above the cutoff kr is the smoothing cubic')
        v.ensure(st, implies(lo, req(K_, law)), 'up to the cutoff kr follows the Mualem law')
        v.ensure(st, implies(hi, req(d.now(st, 0), diff(cubic, Se))), 'dkr/dSe is the derivative of the cubic')
        v.ensure(st, implies(lo, req(d.now(st, 0), diff(law, Se))), 'dkr/dSe is the derivative of the Mualem law')


def smoothing(newv):
    """the coefficients make the cubic interpolate value and slope at both ends"""
    v = newv()
    m = v.real('m')
    x0, x1, x2, dx = v.real('x0'), v.real('x1'), v.real('x2'), v.real('dx')
    v.requires(and_(rlt(R(0), m), rlt(m, R(1))), '0 < m < 1')
    v.requires(and_(rlt(R(0), x1), rlt(x1, R(1)), rlt(x1, x2)), 'smoothing interval 0 < x1 < 1, x1 < x2')
    v.requires(rlt(R(0), dx), 'smoothing scale dx > 0')
    c = v.array('coeffs', 'R', 4)
    outs = v.call('RelativePermeability_Mualem_GetSmoothingCoeffs', m, x0, x1, x2, dx, c, errors_ok=True)
    X = v.real('X')
    for st, r in outs:
        v.ensure(st, ieq(r, I(0)), 'reports success')
        a = [c.now(st, i) for i in range(4)]
        f = lambda x: a[0] + a[1] * ((x - x0) / dx) + a[2] * ((x - x0) / dx)**2 + a[3] * ((x - x0) / dx)**3
        df = lambda x: (a[1] + 2 * a[2] * ((x - x0) / dx) + 3 * a[3] * ((x - x0) / dx)**2) / dx
        law = mualem_law(m, x1)
        v.ensure(st, req(f(x2), R(1)), 'smoothing meets kr = 1 at the upper end')
        v.ensure(st, req(df(x2), R(0)), 'smoothing has zero slope at the upper end')
        v.ensure(st, req(f(x1), law), 'smoothing is continuous with the Mualem law at the cutoff')
        v.ensure(st, req(df(x1), diff(law, x1)), 'smoothing has the slope of the Mualem law at the cutoff')
        for A, b, s, dt in v.ex.dgesv:
            v.ensure(st, req(dt * dt, ((x2 - x1) / dx)**8 / dx**4), 'the interpolation system is regular (an error is reported only if x1 = x2)')


def units(tier):
    return [('Irmay', irmay(1)), ('Irmay without derivative', irmay(0)), ('Mualem', unsmoothed(1)), ('Mualem without derivative', unsmoothed(0)),
            ('smoothed Mualem', mualem), ('smoothing coefficients', smoothing)]
