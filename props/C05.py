"""Material properties and conditions: what was set is what is evaluated, and contexts are released."""
from tdyver.harness import *

SRCS = ['src/tdycore.c', 'src/tdyconditions.c', 'src/materials/tdymaterialproperties.c', 'src/tdymemory.c']

SCALARS = ['Porosity', 'ResidualSaturation', 'SoilDensity', 'SoilSpecificHeat', 'SalineMolecularWeight']
TENSORS = ['Permeability', 'ThermalConductivity', 'SalineDiffusivity']
FIELD = {'Porosity': 'porosity', 'ResidualSaturation': 'residual_saturation', 'SoilDensity': 'soil_density', 'SoilSpecificHeat': 'soil_specific_heat',
         'SalineMolecularWeight': 'saline_molecular_weight', 'Permeability': 'permeability', 'ThermalConductivity': 'thermal_conductivity',
         'SalineDiffusivity': 'saline_diffusivity'}
COND = {'Forcing': ('forcing', 'compute_forcing'), 'EnergyForcing': ('energy_forcing', 'compute_energy_forcing'),
        'SalinitySource': ('salinity_source', 'compute_salinity_source'), 'BoundaryPressure': ('boundary_pressure', 'compute_boundary_pressure'),
        'BoundaryPressureType': ('boundary_pressure_type', 'assign_boundary_pressure_type'),
        'BoundaryVelocity': ('boundary_velocity', 'compute_boundary_velocity'), 'BoundaryTemperature': ('boundary_temperature', 'compute_boundary_temperature'),
        'BoundarySalineConcentration': ('boundary_saline_conc', 'compute_boundary_saline_conc')}


def user_models(width, sort='R', ret=False):
    """a user function: the value of entry j at the points handed to it; and destructors that record their argument"""
    def f(ex, fr, x, st, a, fp=None):
        k = 1 if len(a) == 4 else 0           # with context
        n, xs, out = a[k:]
        calls = st.ghost.get('usercalls', ())
        st.ghost['usercalls'] = calls + ((tuple(a),),)
        petsc.store_range(ex, st, out, mul(I(width), n), sort, lambda i: app('uservalue', (i,), sort), ex.where(fr, x))
        return [(st, I(0) if ret else None)]

    def d(nm):
        def g(ex, fr, x, st, a, fp=None):
            st.ghost['dtor ' + nm] = st.ghost.get('dtor ' + nm, ()) + ((a[0],),)
            return [(st, I(0))]
        return g
    m = {'user_function': f}
    for nm in list(FIELD.values()) + [c[0] for c in COND.values()]:
        m['dtor_' + nm] = d(nm)
    return m


UF = mk('fptr', ('user_function', ''), 'P')


def setup(v, dim=3, old=False):
    """a dycore whose registries are empty, or (old) all filled with contexts that have destructors"""
    mp, cs, tdy = v.struct('matprop', 'MaterialProp') if False else None, None, None
    mp = material(v, dim, old)
    cs = conditions(v, old)
    tdy = v.struct('tdy', '_p_TDy')
    tdy.set('matprop', mp)
    tdy.set('conditions', cs)
    return tdy, mp, cs


def material(v, dim, old):
    mp = v.struct('matprop', 'MaterialProp')
    mp.set('dim', I(dim))
    for q, f in FIELD.items():
        mp.set(f + '_context', v.opaque('old_' + f) if old else NULL)
        mp.set('compute_' + f, mk('fptr', ('old_fn_' + f, ''), 'P') if old else NULL)
        mp.set(f + '_dtor', mk('fptr', ('dtor_' + f, ''), 'P') if old else NULL)
    return mp


def conditions(v, old):
    cs = v.struct('conditions', 'Conditions')
    for q, (f, fn) in COND.items():
        cs.set(f + '_context', v.opaque('old_' + f) if old else NULL)
        cs.set(fn, mk('fptr', ('old_fn_' + f, ''), 'P') if old else NULL)
        cs.set(f + '_dtor', mk('fptr', ('dtor_' + f, ''), 'P') if old else NULL)
    return cs


def others_kept(v, st, mp, cs, but):
    for q, f in FIELD.items():
        if q != but:
            for x in (f + '_context', 'compute_' + f, f + '_dtor'):
                v.ensure(st, mp.get(x, st), mp.get(x), 'the other material properties keep their settings')
    for q, (f, fn) in COND.items():
        if q != but:
            for x in (f + '_context', fn, f + '_dtor'):
                v.ensure(st, cs.get(x, st), cs.get(x), 'the other conditions keep their settings')


def released_once(v, st, f, text):
    d = st.ghost.get('dtor ' + f, ())
    v.ensure(st, B(len(d) == 1 and d[0][0].op == 'ptr' and d[0][0].args[0] == 'old_' + f), text)


def evaluate_set(q, setter, kind, dim, isfun):
    """set a material property, then evaluate it at n points"""
    def f(newv):
        width = {'scalar': 1, 'iso': 1, 'diag': 3, 'full': dim * dim}[kind]
        v = newv(models=user_models(width))
        tdy, mp, cs = setup(v, dim, old=True)
        c = None
        if isfun:
            arg = UF
        elif kind in ('scalar', 'iso'):
            arg = c = v.real('value')
        else:
            c = v.array('value', 'R', 3 if kind == 'diag' else 9, readonly=True)
            arg = c
        for st, r in v.call(setter, tdy, arg):
            v.ensure(st, ieq(r, I(0)), 'reports success')
            others_kept(v, st, mp, cs, q)
            released_once(v, st, FIELD[q], 'the earlier context of the property is released, once')
            v.st = st
        has, = v.call('MaterialPropHas' + q, mp)
        v.ensure(has[0], not_(ieq(tm.lift(has[1], 'I') if has[1].sort == 'I' else ite(has[1], I(1), I(0)), I(0))), 'the property is known to be set')
        n = v.int('n')
        v.requires(ile(I(0), n))
        x = v.array('x', 'R', dim * n, readonly=True)
        size = 1 if kind == 'scalar' else dim * dim
        out = v.array('out', 'R', size * n, init=(lambda k: R(0)) if kind in ('iso', 'diag') else None)
        i = v.int('i')
        v.requires(and_(ile(I(0), i), ilt(i, n)))
        for st, r in v.call('MaterialPropCompute' + q, mp, n, x, out):
            v.ensure(st, ieq(r, I(0)), 'reports success')
            for j in range(size):
                row, col = divmod(j, dim)
                if kind == 'scalar':
                    e = app('uservalue', (i,), 'R') if isfun else c
                elif kind == 'iso':
                    e = R(0) if row != col else app('uservalue', (i,), 'R') if isfun else c
                elif kind == 'diag':
                    e = R(0) if row != col else app('uservalue', (3 * i + row,), 'R') if isfun else c.at(I(row))
                else:
                    e = app('uservalue', (size * i + j,), 'R') if isfun else c.at(I(j))
                v.ensure(st, req(out.now(st, size * i + j), e), 'entry (%d,%d) at every point is the one that was set' % (row, col))
            if isfun:
                uc = st.ghost.get('usercalls', ())
                v.ensure(st, B(len(uc) == 1), 'the function is called once')
                if len(uc) == 1:
                    v.ensure(st, and_(ieq(uc[0][0][0], n), peq(uc[0][0][1], x.ptr)), 'the function is called with the points given')
    return f


def condition_set(q, setter, isfun):
    def f(newv):
        sort = 'I' if q == 'BoundaryPressureType' else 'R'
        v = newv(models=user_models(1, sort))
        tdy, mp, cs = setup(v, 3, old=True)
        c = v.real('value')
        for st, r in v.call(setter, tdy if setter.startswith('TDy') else cs, UF if isfun else c):
            v.ensure(st, ieq(r, I(0)), 'reports success')
            others_kept(v, st, mp, cs, q)
            released_once(v, st, COND[q][0], 'the earlier context of the condition is released, once')
            v.st = st
        has, = v.call('ConditionsHas' + q, cs)
        v.ensure(has[0], not_(ieq(has[1] if has[1].sort == 'I' else ite(has[1], I(1), I(0)), I(0))), 'the condition is known to be set')
        n = v.int('n')
        v.requires(ile(I(0), n))
        x = v.array('x', 'R', 3 * n, readonly=True)
        out = v.array('out', sort, n)
        i = v.int('i')
        v.requires(and_(ile(I(0), i), ilt(i, n)))
        for st, r in v.call('ConditionsAssignBoundaryPressureType' if sort == 'I' else 'ConditionsCompute' + q, cs, n, x, out):
            v.ensure(st, ieq(r, I(0)), 'reports success')
            v.ensure(st, eq(out.now(st, i), app('uservalue', (i,), sort) if isfun else c), 'the value at every point is the one that was set')
            if isfun:
                uc = st.ghost.get('usercalls', ())
                v.ensure(st, B(len(uc) == 1), 'the function is called once')
                if len(uc) == 1:
                    v.ensure(st, and_(ieq(uc[0][0][0], n), peq(uc[0][0][1], x.ptr)), 'the function is called with the points given')
    return f


def raw_set(q, isc):
    """the general setters with a context, then evaluation with that context"""
    def f(newv):
        v = newv(models=user_models(1, 'I' if q == 'BoundaryPressureType' else 'R', ret=True))
        mp, cs = material(v, 3, True), conditions(v, True)
        fld = COND[q][0] if isc else FIELD[q]
        ctx = v.opaque('ctx')
        dt = mk('fptr', ('dtor_new', ''), 'P')
        obj = cs if isc else mp
        for st, r in v.call(('ConditionsSet' if isc else 'MaterialPropSet') + q, obj, ctx, UF, dt):
            v.ensure(st, ieq(r, I(0)), 'reports success')
            others_kept(v, st, mp, cs, q)
            released_once(v, st, fld, 'the earlier context is released, once')
            v.ensure(st, obj.get(fld + '_dtor', st), dt, 'the destructor is kept for later')
            v.st = st
        n = v.int('n')
        v.requires(ile(I(0), n))
        x = v.array('x', 'R', 3 * n, readonly=True)
        sort = 'I' if q == 'BoundaryPressureType' else 'R'
        out = v.array('out', sort, n)
        nm = ('ConditionsAssignBoundaryPressureType' if sort == 'I' else 'ConditionsCompute' + q) if isc else 'MaterialPropCompute' + q
        for st, r in v.call(nm, obj, n, x, out):
            uc = st.ghost.get('usercalls', ())
            v.ensure(st, B(len(uc) == 1), 'the function is called once')
            if len(uc) == 1:
                a = uc[0][0]
                v.ensure(st, and_(peq(a[0], ctx), ieq(a[1], n), peq(a[2], x.ptr), peq(a[3], out.ptr)), 'the function gets its own context, the points and the result array')
    return f


def unset(newv):
    v = newv()
    mp, cs = material(v, 3, False), conditions(v, False)
    for q in FIELD:
        (st, r), = v.call('MaterialPropHas' + q, mp)
        v.ensure(st, ieq(r if r.sort == 'I' else ite(r, I(1), I(0)), I(0)), 'a property that was never set is reported as absent')
        n = v.int('n')
        out = v.array('out', 'R', n)
        k = v.int('k')
        for st, r in v.call('MaterialPropCompute' + q, mp, n, v.array('x', 'R', n, readonly=True), out):
            v.ensure(st, req(out.now(st, k), out.at(k)), 'evaluating a property that was never set changes nothing')
    for q in COND:
        (st, r), = v.call('ConditionsHas' + q, cs)
        v.ensure(st, ieq(r if r.sort == 'I' else ite(r, I(1), I(0)), I(0)), 'a condition that was never set is reported as absent')


def destroy(isc):
    def f(newv):
        v = newv(models=user_models(1))
        o = conditions(v, True) if isc else material(v, 3, True)
        for st, r in v.call('ConditionsDestroy' if isc else 'MaterialPropDestroy', o):
            v.ensure(st, ieq(r, I(0)), 'reports success')
            for fld in ([c[0] for c in COND.values()] if isc else FIELD.values()):
                released_once(v, st, fld, 'the context of every setting is released, once')
            v.ensure(st, B(any(p.args[0] == o.o.name for (p,) in st.ghost.get('freed', ()) if p.op == 'ptr')), 'the registry itself is released')
    return f


def create(newv):
    v = newv()
    pm, pc = v.array('pm', 'P', 1), v.array('pc', 'P', 1)
    dim = v.int('dim')
    for st, r in v.call('MaterialPropCreate', dim, pm):
        v.ensure(st, ieq(r, I(0)), 'reports success')
        di, k = v.prog.struct('MaterialProp')
        fl = di.fields(k)
        q = pm.now(st, 0)
        v.ensure(st, v.load(st, q, 'I', off=fl['dim'][0]), dim, 'the dimension is recorded')
        for f in FIELD.values():
            for x in (f + '_context', 'compute_' + f, f + '_dtor'):
                v.ensure(st, v.load(st, q, 'P', off=fl[x][0]), NULL, 'a new registry is empty')
    for st, r in v.call('ConditionsCreate', pc):
        di, k = v.prog.struct('Conditions')
        fl = di.fields(k)
        q = pc.now(st, 0)
        for f, fn in COND.values():
            for x in (f + '_context', fn, f + '_dtor'):
                v.ensure(st, v.load(st, q, 'P', off=fl[x][0]), NULL, 'a new registry is empty')


def units(tier):
    u = []
    for q in SCALARS:
        u.append(('constant %s' % q, evaluate_set(q, 'TDySetConstant' + q, 'scalar', 3, False)))
        u.append(('%s function' % q, evaluate_set(q, 'TDySet%sFunction' % q, 'scalar', 3, True)))
    for q in TENSORS:
        for kind, nm in (('iso', 'Isotropic'), ('diag', 'Diagonal'), ('full', 'Tensor')):
            for dim in (2, 3):
                u.append(('constant %s %s, %dD' % (nm, q, dim), evaluate_set(q, 'TDySetConstant%s%s' % (nm, q), kind, dim, False)))
                u.append(('%s %s function, %dD' % (nm, q, dim), evaluate_set(q, 'TDySet%s%sFunction' % (nm, q), kind, dim, True)))
    for q in COND:
        if q != 'SalinitySource':
            u.append(('%s function' % q, condition_set(q, 'TDySet%sFunction' % q, True)))
        u.append(('%s with context' % q, raw_set(q, True)))
        if q in ('BoundaryPressure', 'BoundaryVelocity', 'BoundaryTemperature', 'BoundarySalineConcentration'):
            u.append(('constant %s' % q, condition_set(q, 'ConditionsSetConstant' + q, False)))
    for q in FIELD:
        u.append(('%s with context' % q, raw_set(q, False)))
    u += [('nothing set', unset), ('destroy conditions', destroy(True)), ('destroy material properties', destroy(False)), ('new registries', create)]
    return u
