"""Equations of state of water and brine."""
from tdyver.harness import *
from tdyver.normal import diff

SRCS = ['src/materials/tdyeos.c']


def setup(newv, dt=None, vt=None, et=None):
    v = newv()
    f = {}
    if dt is not None:
        f['density_type'] = v.prog.enum(dt)
    if vt is not None:
        f['viscosity_type'] = v.prog.enum(vt)
    if et is not None:
        f['enthalpy_type'] = v.prog.enum(et)
    e = v.struct('eos', 'EOS', f, readonly=True)
    a, b, c = (v.array(n, 'R', 1) for n in ('out', 'dout', 'd2out'))
    return v, e, a, b, c, v.real('P'), v.real('T'), v.real('S')


def bw_density(P, T, S):
    p = P * 1e-6
    pw = 1 + 1e-6 * (-80 * T - 3.3 * T**2 + 0.00175 * T**3 + 489 * p - 2 * T * p + 0.016 * T**2 * p
                     - 1.3e-5 * T**3 * p - 0.333 * p**2 - 0.002 * T * p**2)
    return 1000 * (pw + S * (0.668 + 0.44 * S + 1e-6 * (300 * p - 2400 * p * S + T * (80 + 3 * T - 3300 * S - 13 * p + 47 * p * S))))


def dens_const(newv):
    v, e, a, b, c, P, Tt, S = setup(newv, 'WATER_DENSITY_CONSTANT')
    for st, r in v.call('EOSComputeWaterDensity', e, P, Tt, S, a, b, c):
        v.ensure(st, ieq(r, I(0)), 'reports success')
        v.ensure(st, req(a.now(st, 0), R(998.0)), 'constant density is 998 kg/m3')
        v.ensure(st, req(b.now(st, 0), R(0)), 'd rho/dP = 0')
        v.ensure(st, req(c.now(st, 0), R(0)), 'd2 rho/dP2 = 0')
    return v


def dens_exp(newv):
    v, e, a, b, c, P, Tt, S = setup(newv, 'WATER_DENSITY_EXPONENTIAL')
    Q = v.real('Q')
    for st, r in v.call('EOSComputeWaterDensity', e, P, Tt, S, a, b, c):
        v.ensure(st, ieq(r, I(0)), 'reports success')
        rho, d1, d2 = a.now(st, 0), b.now(st, 0), c.now(st, 0)
        p0 = R(101325)
        above, below = rle(p0, P), rlt(P, p0)
        law = R(997.16) * exp(R(1e-8) * (P - p0))
        v.ensure(st, implies(above, req(rho, law)), 'rho = rho0 exp(c (P - P0)) above the reference pressure')
        v.ensure(st, implies(below, req(rho, R(997.16))), 'rho = rho0 below the reference pressure')
        v.ensure(st, implies(above, req(d1, diff(law, P))), 'd rho/dP is the derivative of rho')
        v.ensure(st, implies(above, req(d2, diff(diff(law, P), P))), 'd2 rho/dP2 is the second derivative of rho')
        v.ensure(st, implies(below, and_(req(d1, R(0)), req(d2, R(0)))), 'derivatives vanish where rho is constant')
        v.ensure(st, rlt(R(0), rho), 'rho is positive')
        v.ensure(st, rle(R(0), d1), 'rho does not decrease with pressure')
    return v


def dens_bw(newv):
    v, e, a, b, c, P, Tt, S = setup(newv, 'WATER_DENSITY_BATZLE_AND_WANG')
    for st, r in v.call('EOSComputeWaterDensity', e, P, Tt, S, a, b, c):
        v.ensure(st, ieq(r, I(0)), 'reports success')
        law = bw_density(P, Tt, S)
        v.ensure(st, req(a.now(st, 0), law), 'rho follows the Batzle-Wang correlation')
        v.ensure(st, req(b.now(st, 0), diff(law, P)), 'd rho/dP is the derivative of rho')
        v.ensure(st, req(c.now(st, 0), diff(diff(law, P), P)), 'd2 rho/dP2 is the second derivative of rho')
    return v


def visc_const(newv):
    v, e, a, b, c, P, Tt, S = setup(newv, vt='WATER_VISCOSITY_CONSTANT')
    for st, r in v.call('EOSComputeWaterViscosity', e, P, Tt, S, a, b, c):
        v.ensure(st, ieq(r, I(0)), 'reports success')
        v.ensure(st, req(a.now(st, 0), R(9.94e-4)), 'constant viscosity is 9.94e-4 Pa s')
        v.ensure(st, and_(req(b.now(st, 0), R(0)), req(c.now(st, 0), R(0))), 'derivatives vanish')
    return v


def visc_bw(newv):
    v, e, a, b, c, P, Tt, S = setup(newv, vt='WATER_VISCOSITY_BATZLE_AND_WANG')
    v.requires(rlt(R(0), S), 'brine viscosity: salt fraction S > 0')
    v.requires(rlt(R(0), Tt), 'brine viscosity: temperature T > 0 (degrees C)')
    for st, r in v.call('EOSComputeWaterViscosity', e, P, Tt, S, a, b, c):
        v.ensure(st, ieq(r, I(0)), 'reports success')
        law = 1e-3 * (0.1 + 0.333 * S + (1.65 + 91.9 * S**3) * exp(-(0.42 * (S**R(0.8) - 0.17)**2 + 0.045) * Tt**R(0.8)))
        v.ensure(st, req(a.now(st, 0), law), 'viscosity follows the Batzle-Wang correlation')
        v.ensure(st, and_(req(b.now(st, 0), diff(law, P)), req(c.now(st, 0), diff(diff(law, P), P))), 'pressure derivatives are those of the viscosity')
        v.ensure(st, rlt(R(0), a.now(st, 0)), 'viscosity is positive')
    return v


def enth(newv):
    v, e, a, b, c, P, Tt, S = setup(newv, et='WATER_ENTHALPY_CONSTANT')
    for st, r in v.call('EOSComputeWaterEnthalpy', e, Tt, P, a, b, c):
        v.ensure(st, ieq(r, I(0)), 'reports success')
        v.ensure(st, req(a.now(st, 0), R(1.8890)), 'constant enthalpy')
        v.ensure(st, and_(req(b.now(st, 0), R(0)), req(c.now(st, 0), R(0))), 'derivatives vanish')
    return v


def salt(newv):
    v, e, a, b, c, P, Tt, S = setup(newv)
    psi, mw, den = v.real('Psi'), v.real('mw'), v.real('den')
    v.requires(rle(R(0), psi * mw), 'salt fraction: concentration times molecular weight is not negative')
    for st, r in v.call('EOSComputeSalinityFraction', e, psi, mw, den, a):
        v.ensure(st, ieq(r, I(0)), 'reports success')
        m = a.now(st, 0)
        v.ensure(st, req(m, psi * mw / (psi * mw + 999)), 'mass fraction is salt over salt plus water')
        v.ensure(st, rle(R(0), m), 'mass fraction is at least 0')
        v.ensure(st, rlt(m, R(1)), 'mass fraction is below 1')
    return v


def unknown(fname, field, known):
    def f(newv):
        v, e, a, b, c, P, Tt, S = setup(newv)
        t = e.get(field)
        for n in known:
            v.requires(not_(ieq(t, I(v.prog.enum(n)))))
        v.must_fail(fname, *((e, P, Tt, S, a, b, c) if 'Enthalpy' not in fname else (e, Tt, P, a, b, c)),
                    text='an unknown model is reported as an error')
        return v
    return f


def units(tier):
    return [('constant density', dens_const), ('exponential density', dens_exp), ('Batzle-Wang density', dens_bw),
            ('constant viscosity', visc_const), ('Batzle-Wang viscosity', visc_bw), ('constant enthalpy', enth),
            ('salt mass fraction', salt),
            ('unknown density model', unknown('EOSComputeWaterDensity', 'density_type', ['WATER_DENSITY_CONSTANT', 'WATER_DENSITY_EXPONENTIAL', 'WATER_DENSITY_BATZLE_AND_WANG'])),
            ('unknown viscosity model', unknown('EOSComputeWaterViscosity', 'viscosity_type', ['WATER_VISCOSITY_CONSTANT', 'WATER_VISCOSITY_BATZLE_AND_WANG'])),
            ('unknown enthalpy model', unknown('EOSComputeWaterEnthalpy', 'enthalpy_type', ['WATER_ENTHALPY_CONSTANT']))]
