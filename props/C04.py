"""Each point is evaluated with its own model and parameters."""
from tdyver.harness import *
from tdyver.normal import diff
from . import C02, C03

SRCS = ['src/materials/tdycharacteristiccurves.c', 'src/tdymemory.c']


def model_struct(v, cname, npars):
    """a model whose point lists are valid; a point index appears once at most"""
    N = v.int('N')
    v.requires(ile(I(0), N))
    sizes, pts, par = {}, {}, {}
    for t in (0, 1):
        n = sizes[t] = v.int('n%d' % t)
        v.requires(ile(I(0), n))
        pts[t] = v.array('points%d' % t, 'I', n, readonly=True)
        par[t] = v.array('params%d' % t, 'R', npars[t] * n, readonly=True)
    k = fresh('k', 'I')
    for t in (0, 1):
        p = pts[t].at(k)
        v.requires(forall(k, I(0), sizes[t], and_(ile(I(0), p), ilt(p, N),
                                                  ieq(app('owner', (p,), 'I'), I(t)), ieq(app('position', (p,), 'I'), k))),
                   'the point lists hold valid point indices, each at most once over both models')
    s = v.struct('model', cname)
    for t in (0, 1):
        s.set('num_points[%d]' % t, sizes[t])
        s.set('points[%d]' % t, pts[t])
        s.set('parameters[%d]' % t, par[t])
    return s, sizes, pts, par, N


def at_point(law, x, val):
    """value, first and second derivative of law(x) at x = val"""
    f = law(x)
    out = []
    for _ in range(3):
        out.append(subst(f, {x: val}))
        f = diff(f, x)
    return out


def sat_expect(t, p, Sr, Pc):
    x = sym('x', 'R')
    if t == 0:
        l = at_point(lambda x: C02.gardner_law(p[1], p[2], Sr, x), x, Pc)
        wet = rlt(Pc, R(0))
    else:
        l = at_point(lambda x: C02.vg_law(p[0], p[1], Sr, x), x, Pc)
        wet = rle(Pc, R(0))
    return ite(wet, R(1), l[0]), ite(wet, R(0), neg(l[1])), ite(wet, R(0), l[2])


def sat_compute(t):
    def f(newv):
        v = newv()
        s, sizes, pts, par, N = model_struct(v, 'Saturation', (3, 2))
        Sr, Pc = v.array('Sr', 'R', N, readonly=True), v.array('Pc', 'R', N, readonly=True)
        S, dS, d2S = (v.array(x, 'R', N) for x in ('S', 'dS', 'd2S'))
        k = v.int('k')
        v.requires(and_(ile(I(0), k), ilt(k, sizes[t])))
        p = [par[t].at((3, 2)[t] * k + i) for i in range((3, 2)[t])]
        if t == 1:
            v.requires(and_(rlt(R(0), p[0]), rlt(p[0], R(1)), rlt(R(0), p[1])), 'Van Genuchten parameters: 0 < m < 1, alpha > 0')
        else:
            v.requires(rlt(R(0), p[1]), 'Gardner m > 0')
        for st, r in v.call('SaturationCompute', s, Sr, Pc, S, dS, d2S):
            v.ensure(st, ieq(r, I(0)), 'reports success')
            j = pts[t].at(k)
            e = sat_expect(t, p, Sr.at(j), Pc.at(j))
            v.ensure(st, req(S.now(st, j), e[0]), 'the saturation of the k-th point uses its own parameters, residual saturation and pressure')
            v.ensure(st, req(dS.now(st, j), e[1]), 'first derivative at the k-th point')
            v.ensure(st, req(d2S.now(st, j), e[2]), 'second derivative at the k-th point')
    return f


def sat_frame(newv):
    v = newv()
    s, sizes, pts, par, N = model_struct(v, 'Saturation', (3, 2))
    Sr, Pc = v.array('Sr', 'R', N, readonly=True), v.array('Pc', 'R', N, readonly=True)
    S, dS, d2S = (v.array(x, 'R', N) for x in ('S', 'dS', 'd2S'))
    q, k = v.int('q'), fresh('k', 'I')
    for t in (0, 1):
        v.requires(forall(k, I(0), sizes[t], not_(ieq(pts[t].at(k), q))))
    for st, r in v.call('SaturationCompute', s, Sr, Pc, S, dS, d2S):
        for a in (S, dS, d2S):
            v.ensure(st, req(a.now(st, q), a.at(q)), 'a point without a model is left alone')


def perm_expect(t, p, Se):
    """(kr, dkr/dSe, precondition on the parameters)"""
    x = sym('x', 'R')
    if t == 0:
        l = at_point(lambda x: x**p[0], x, Se)
        return ite(rle(R(1), Se), R(1), l[0]), ite(rle(R(1), Se), R(0), l[1])
    l = at_point(lambda x: C03.mualem_law(p[0], x), x, Se)
    xt = lambda x: (x - p[1]) / p[4]
    c = at_point(lambda x: p[5] + p[6] * xt(x) + p[7] * xt(x)**2 + p[8] * xt(x)**3, x, Se)
    return (ite(rlt(p[2], Se), c[0], ite(rle(R(1), Se), R(1), l[0])), ite(rlt(p[2], Se), c[1], ite(rle(R(1), Se), R(0), l[1])))


def perm_pre(v, t, p, Se):
    v.requires(rlt(R(0), Se), 'effective saturation > 0')
    v.requires(rlt(R(0), p[0]))
    if t == 1:
        v.requires(and_(rlt(p[0], R(1)), rlt(R(0), p[4])), 'Mualem parameters: 0 < m < 1, smoothing scale > 0')


def perm_compute(t):
    def f(newv):
        v = newv()
        s, sizes, pts, par, N = model_struct(v, 'RelativePermeability', (1, 9))
        Se = v.array('Se', 'R', N, readonly=True)
        Kr, dKr = (v.array(x, 'R', N) for x in ('Kr', 'dKr'))
        k = v.int('k')
        v.requires(and_(ile(I(0), k), ilt(k, sizes[t])))
        p = [par[t].at((1, 9)[t] * k + i) for i in range((1, 9)[t])]
        j = pts[t].at(k)
        perm_pre(v, t, p, Se.at(j))
        for st, r in v.call('RelativePermeabilityCompute', s, Se, Kr, dKr):
            v.ensure(st, ieq(r, I(0)), 'reports success')
            e = perm_expect(t, p, Se.at(j))
            v.ensure(st, req(Kr.now(st, j), e[0]), 'the relative permeability of the k-th point uses its own parameters and saturation')
            v.ensure(st, req(dKr.now(st, j), e[1]), 'derivative at the k-th point')
    return f


def perm_frame(newv):
    v = newv()
    s, sizes, pts, par, N = model_struct(v, 'RelativePermeability', (1, 9))
    Se = v.array('Se', 'R', N, readonly=True)
    Kr, dKr = (v.array(x, 'R', N) for x in ('Kr', 'dKr'))
    q, k = v.int('q'), fresh('k', 'I')
    for t in (0, 1):
        v.requires(forall(k, I(0), sizes[t], not_(ieq(pts[t].at(k), q))))
    for st, r in v.call('RelativePermeabilityCompute', s, Se, Kr, dKr):
        for a in (Kr, dKr):
            v.ensure(st, req(a.now(st, q), a.at(q)), 'a point without a model is left alone')


def with_maps(v, s, sizes, pts, built):
    """the lookup tables of the model: not built yet, or built earlier and in step with the lists"""
    for t in (0, 1):
        if not built:
            s.set('point_maps[%d]' % t, NULL)
            continue
        pres = lambda key, t=t: ite(and_(ieq(app('owner', (key,), 'I'), I(t)), ile(I(0), app('position', (key,), 'I')),
                                         ilt(app('position', (key,), 'I'), sizes[t]),
                                         ieq(pts[t].at(app('position', (key,), 'I')), key)), I(1), I(0))
        p = petsc.kh_make(v.ex, v.st, 'map%d' % t, present=pres, vals=lambda sl: app('position', (fdiv_i(sl, I(2)),), 'I'), size=sizes[t])
        s.set('point_maps[%d]' % t, p)


def on_points(cname, fname, npars, t, built, inside=True):
    sat = cname == 'Saturation'

    def f(newv):
        v = newv()
        s, sizes, pts, par, N = model_struct(v, cname, npars)
        with_maps(v, s, sizes, pts, built)
        n, i = v.int('n'), v.int('i')
        v.requires(and_(ile(I(0), i), ilt(i, n)))
        qs = v.array('query', 'I', n, readonly=True)
        ins = [v.array(x, 'R', n, readonly=True) for x in (('Sr', 'Pc') if sat else ('Se',))]
        outs = [v.array(x, 'R', n) for x in (('S', 'dS', 'd2S') if sat else ('Kr', 'dKr'))]
        if inside:
            k = v.int('k')
            v.requires(and_(ile(I(0), k), ilt(k, sizes[t]), ieq(qs.at(i), pts[t].at(k))))
            p = [par[t].at(npars[t] * k + m) for m in range(npars[t])]
            if not sat:
                perm_pre(v, t, p, ins[0].at(i))
                e = perm_expect(t, p, ins[0].at(i))
            else:
                if t == 1:
                    v.requires(and_(rlt(R(0), p[0]), rlt(p[0], R(1)), rlt(R(0), p[1])), 'Van Genuchten parameters: 0 < m < 1, alpha > 0')
                else:
                    v.requires(rlt(R(0), p[1]), 'Gardner m > 0')
                e = sat_expect(t, p, ins[0].at(i), ins[1].at(i))
        else:
            kk = fresh('k', 'I')
            for tt in (0, 1):
                v.requires(forall(kk, I(0), sizes[tt], not_(ieq(pts[tt].at(kk), qs.at(i)))))
        for st, r in v.call(fname, s, n, qs, *(ins + outs)):
            v.ensure(st, ieq(r, I(0)), 'reports success')
            for a, x, nm in zip(outs, e if inside else [a.at(i) for a in outs], ('value', 'first derivative', 'second derivative')):
                v.ensure(st, req(a.now(st, i), x), '%s at the i-th requested point is that of its own model' % nm if inside else '%s of a point without a model is left alone' % nm)
    return f


def set_type(cname, fname, npars, t, built, new):
    def f(newv):
        v = newv()
        s, sizes, pts, par, N = model_struct(v, cname, npars)
        with_maps(v, s, sizes, pts, built)
        if new:
            s.set('points[%d]' % t, NULL)
            s.set('parameters[%d]' % t, NULL)
            s.set('num_points[%d]' % t, I(0))
        n = v.int('n')
        v.requires(ile(I(0), n))
        ps = v.array('newpoints', 'I', n, readonly=True)
        pr = v.array('newparams', 'R', npars[t] * n, readonly=True)
        k, m = v.int('k'), v.int('m')
        for st, r in v.call(fname, s, I(t), n, ps, pr):
            v.ensure(st, ieq(r, I(0)), 'reports success')
            v.ensure(st, ieq(s.get('num_points[%d]' % t, st), n), 'the number of points is recorded')
            for tt in (0, 1):
                v.ensure(st, peq(s.get('point_maps[%d]' % tt, st), NULL), 'lookup tables of earlier point lists are dropped')
            o = 1 - t
            for x in ('num_points', 'points', 'parameters'):
                v.ensure(st, eq(s.get('%s[%d]' % (x, o), st), s.get('%s[%d]' % (x, o))), 'the other model keeps its points and parameters')
            q = s.get('points[%d]' % t, st)
            v.ensure(st, v.load(st, q, 'I', k), ps.at(k), 'points are copied', pc=[ile(I(0), k), ilt(k, n)])
            q = s.get('parameters[%d]' % t, st)
            v.ensure(st, v.load(st, q, 'R', m), pr.at(m), 'parameters are copied', pc=[ile(I(0), m), ilt(m, npars[t] * n)])
            if not new:
                for a in (pts[t], par[t]):
                    v.ensure(st, a.freed(st), 'the arrays of the earlier assignment are released')
    return f


def bad_type(cname, fname, npars):
    def f(newv):
        v = newv()
        s, sizes, pts, par, N = model_struct(v, cname, npars)
        n, t = v.int('n'), v.int('t')
        v.requires(and_(ile(I(0), n), or_(ilt(t, I(0)), ilt(I(1), t))))
        v.must_fail(fname, s, t, n, v.array('newpoints', 'I', n, readonly=True), v.array('newparams', 'R', None, readonly=True),
                    text='a model type that does not exist is refused')
    return f


def units(tier):
    u = [('saturation of every point, Gardner', sat_compute(0)), ('saturation of every point, Van Genuchten', sat_compute(1)),
         ('saturation frame', sat_frame),
         ('relative permeability of every point, Irmay', perm_compute(0)), ('relative permeability of every point, Mualem', perm_compute(1)),
         ('relative permeability frame', perm_frame)]
    for cname, fname, npars in (('Saturation', 'SaturationComputeOnPoints', (3, 2)), ('RelativePermeability', 'RelativePermeabilityComputeOnPoints', (1, 9))):
        for built in (False, True):
            for t in (0, 1):
                u.append(('%s on requested points, model %d, tables %s' % (cname, t, 'built' if built else 'not built'), on_points(cname, fname, npars, t, built)))
            u.append(('%s on points without model, tables %s' % (cname, 'built' if built else 'not built'), on_points(cname, fname, npars, 0, built, False)))
    for cname, fname, npars in (('Saturation', 'SaturationSetType', (3, 2)), ('RelativePermeability', 'RelativePermeabilitySetType', (1, 9))):
        for t in (0, 1):
            for built in (False, True):
                for new in (False, True):
                    u.append(('%s: assigning model %d, tables %s, %s' % (cname, t, 'built' if built else 'not built', 'first time' if new else 'again'),
                              set_type(cname, fname, npars, t, built, new)))
        u.append(('%s: unknown model type' % cname, bad_type(cname, fname, npars)))
    return u
