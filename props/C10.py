"""Multi-point flux: law of the flux and assembly of the residual."""
from tdyver.normal import diff
from .mpfao import *

SRCS = SRCS + ['src/fv/mpfao/tdympfao_th_ts.c', 'src/fv/mpfao/tdympfao_snes_salinity.c', 'src/fv/mpfao/tdympfao_ts_dae.c', 'src/fv/mpfao/tdympfao_ts_transientvar.c']
VERT = {'richards': 'TDyMPFAOIFunction_Vertices', 'th': 'TDyMPFAOIFunction_Vertices_TH', 'salinity': 'TDyMPFAOIFunction_Vertices_Salinity'}


def problem(v, writable=(), **k):
    s = Shape(v, writable, **k)
    nloc = v.int('num_cells_local')
    s.mesh.set('num_cells_local', nloc)
    loc = s.facts(nloc)
    tdy = v.struct('tdy', '_p_TDy', readonly=True)
    tdy.set('context', s.ctx)
    tdy.set('matprop', v.opaque('matprop'))
    v.requires(not_(req(tdy.get('dtime'), R(0))), 'the time step is not zero')
    c = v.int('c')
    v.requires(and_(ile(I(0), c), ilt(c, s.nc), loc(c)))
    return s, nloc, loc, tdy, c


def vertices(eqs):
    def f(newv):
        v = newv()
        s, nloc, loc, tdy, c = problem(v)
        getdm(v)
        dof = 1 if eqs == 'richards' else 2
        u, r = v.vec('U', dof * s.nc, True), v.vec('R', dof * nloc)
        other = None
        if eqs != 'richards':
            other = v.vec('second T times P', 4 * s.nf, True)
            s.ctx.set('Temp_TtimesP_vec' if eqs == 'th' else 'TtimesPsi_vec', other.handle)
        for st, ret in v.call(VERT[eqs], u.handle, r.handle, tdy):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            x, j = fresh('x', 'I'), fresh('j', 'I')
            f, sub = s.row(x, j)
            on = and_(not_(ieq(s.vertex_is_local.at(x), I(0))), not_(ieq(s.face_is_local.at(f), I(0))))
            for d, fl in enumerate(law(s, eqs, f, sub, other)):
                out = ite(and_(on, ieq(s.up(f), c)), fl, R(0)) - ite(and_(on, ieq(s.dn(f), c)), fl, R(0))
                want = r.at(dof * c + d) + tm.sum_(x, I(0), s.nv, tm.sum_(j, I(0), s.nrows(x), out))
                v.ensure(st, req(r.now(st, dof * c + d), want), 'adds to a local cell what leaves through its subfaces, minus what enters')
    return f


def law(s, eqs, f, sub, other):
    if eqs == 'richards':
        return [s.flux(f, sub)]
    up, dn, k = s.up(f), s.dn(f), 4 * f + sub
    den = (s.side(up, 'rho') + s.side(dn, 'rho')) * R(0.5)
    tp, tq = s.TP.at(k), other.at(k)
    if eqs == 'th':
        EPS = R(2.2204460492503131e-16)
        clip = lambda t: ite(rlt(absr(t), EPS), R(0), t)
        tp, tq = clip(tp), clip(tq)
    U = ite(rlt(tp, R(0)), up, dn)
    q = -(s.side(U, 'Kr') / s.side(U, 'vis') * tp)
    if eqs == 'th':
        return [den * q, den * q * s.side(U, 'h') - tq]
    return [den * q - den * den * s.side(U, 'Kr') / s.side(U, 'vis') * s.G.at(k), den * q - den * tq]


def getdm(v):
    def g(ex, fr, x, st, a):
        ex.store(st, a[1], v.opaque('dm'), 8, ex.where(fr, x))
        return [(st, I(0))]
    v.ex.contracts['TDyGetDM'] = g

    def dim(ex, fr, x, st, a):
        ex.store(st, a[1], I(3), 4, ex.where(fr, x))
        return [(st, I(0))]
    v.ex.models['DMGetDimension'] = dim
    v.ex.models['DMRestoreLocalVector'] = lambda ex, fr, x, st, a: [(st, I(0))]


STATE = ('rho', 'S', 'Kr', 'vis', 'drho_dP', 'dS_dP', 'drho_dT', 'dS_dT', 'u', 'du_dP', 'du_dT', 'h')
MASS = ('rho', 'S')


def contracts(v, s, eqs, tdy, nloc, source, uloc, dof, names=STATE, keep=None):
    """of the steps of a residual evaluation; each is proved by units of its own"""
    ex = v.ex
    stage = {n: v.ghost(n, 'I', I(0)) for n in ('cells', 'pressure', 'second', 'boundary', 'TP', 'TQ')}
    mats = {}
    for n in ('Trans_mat', 'Temp_Trans_mat', 'Psi_Trans_mat', 'P_vec', 'Temp_P_vec', 'Psi_vec'):
        mats[n] = v.opaque(n)
        s.ctx.set(n, mats[n])
    second = v.opaque('second T times P')
    s.ctx.set('Temp_TtimesP_vec' if eqs == 'th' else 'TtimesPsi_vec', second)
    local = uloc if isinstance(uloc, (list, tuple)) else [uloc]
    entry = lambda i: app('iterate', (i,), 'R')

    def is_iterate(st, h, w, stride=None):
        k = fresh('k', 'I')
        a = [l for l in local if l.handle is h]
        ex.oblige('pre', st, B(bool(a)), w + ' given the local vector of the iterate')
        if a:
            ex.oblige('pre', st, forall(k, I(0), dof * s.nc, req(a[0].now(st, k), entry(k))), w + ' uses the current iterate')

    def g2l(ex, fr, x, st, a):
        w = ex.where(fr, x)
        t = [l for l in local if l.handle is a[2]]
        ex.oblige('pre', st, and_(or_(*[peq(a[1], q.handle) for q in source]), B(bool(t))), w + ' scatters the solution to the local vector')
        src = [q for q in source if q.handle is a[1]]
        if src and t:
            i = fresh('i', 'I')
            val = src[0].now(st, i)
            petsc.store_range(ex, st, t[0].ptr, dof * s.nc, 'R', lambda k: ite(ilt(k, dof * nloc), subst(val, {i: k}), app('ghost value', (k,), 'R')), w)
        return [(st, I(0))]
    ex.contracts['TDyGlobalToLocal'] = g2l
    entry = lambda i: ite(ilt(i, dof * nloc), source[0].at(i), app('ghost value', (i,), 'R'))
    getdm(v)

    def upd(ex, fr, x, st, a):
        w = ex.where(fr, x)
        k = fresh('k', 'I')
        ex.oblige('pre', st, and_(peq(a[0], tdy.ptr), ieq(a[2], s.nc)), w + ' updates all cells')
        val = v.load(st, a[1], 'R', k)
        ex.oblige('pre', st, forall(k, I(0), dof * s.nc, req(val, entry(k))), w + ' updates the state with the given solution')
        stage['cells'].set(st, 1)
        for q in ('pressure', 'second', 'boundary', 'TP', 'TQ'):
            stage[q].set(st, 0)
        for n in names:
            petsc.store_range(ex, st, s.c[n].ptr, s.nc, 'R', lambda i: app('new ' + n, (i,), 'R'), w)
        return [(st, I(0))]
    ex.contracts['TDyUpdateState'] = upd

    def setb(which):
        def c(ex, fr, x, st, a):
            w = ex.where(fr, x)
            ex.oblige('pre', st, peq(a[0], tdy.ptr), w + ' arguments')
            is_iterate(st, a[1], w)
            stage[which].set(st, 1)
            if which == 'pressure':
                stage['boundary'].set(st, 0)
            stage['TP' if which == 'pressure' else 'TQ'].set(st, 0)
            return [(st, I(0))]
        return c
    ex.contracts['TDyMPFAO_SetBoundaryPressure'] = setb('pressure')
    ex.contracts['TDyMPFAO_SetBoundaryTemperature'] = setb('second')
    ex.contracts['TDyMPFAO_SetBoundarySalineConcentration'] = setb('second')

    def ubs(ex, fr, x, st, a):
        w = ex.where(fr, x)
        ex.oblige('pre', st, and_(peq(a[0], tdy.ptr), ieq(stage['pressure'].get(st), I(1))), w + ' after the boundary pressure')
        stage['boundary'].set(st, 1)
        return [(st, I(0))]
    ex.contracts['TDyMPFAOUpdateBoundaryState'] = ubs

    def matmult(ex, fr, x, st, a):
        w = ex.where(fr, x)
        first = and_(peq(a[0], mats['Trans_mat']), peq(a[1], mats['P_vec']), peq(a[2], s.TP.handle))
        A, X = ('Temp_Trans_mat', 'Temp_P_vec') if eqs == 'th' else ('Psi_Trans_mat', 'Psi_vec')
        snd = and_(peq(a[0], mats[A]), peq(a[1], mats[X]), peq(a[2], second))
        ex.oblige('pre', st, or_(first, snd), w + ' applies the transmissibilities to the values they belong to')
        if a[2] is s.TP.handle:
            ex.oblige('pre', st, and_(ieq(stage['cells'].get(st), I(1)), ieq(stage['pressure'].get(st), I(1))), w + ' cell and boundary pressures are those of the iterate')
            stage['TP'].set(st, 1)
        else:
            ex.oblige('pre', st, and_(ieq(stage['cells'].get(st), I(1)), ieq(stage['second'].get(st), I(1))), w + ' cell and boundary values are those of the iterate')
            stage['TQ'].set(st, 1)
        return [(st, I(0))]
    ex.models['MatMult'] = matmult

    def vert(ex, fr, x, st, a):
        w = ex.where(fr, x)
        is_iterate(st, a[0], w)
        need = ['cells', 'boundary', 'TP'] + (['TQ'] if eqs != 'richards' else [])
        for n in need:
            ex.oblige('pre', st, ieq(stage[n].get(st), I(1)), w + ' state of the current iterate: ' + n)
        ex.oblige('pre', st, peq(a[2], tdy.ptr), w + ' arguments')
        rr = ex.vecs[a[1].args[0]]
        i = fresh('i', 'I')
        old = ex.read(st, rr, 0, 'R', i)
        petsc.store_range(ex, st, rr.ptr(), dof * nloc, 'R', lambda k: subst(old, {i: k}) + app('net outflow', (k,), 'R'), w)
        return [(st, I(0))]
    ex.contracts[VERT[eqs]] = vert
    return stage


def new(s, n, c):
    return app('new ' + n, (c,), 'R') if n in STATE else s.c[n].at(c)


def rest(s, tdy, c, mode, up, soln):
    """storage and source terms of the equations of cell c"""
    a = lambda n: new(s, n, c)
    V, dt = s.volume.at(c), tdy.get('dtime')
    x, y = fresh('x', 'R'), fresh('y', 'R')
    mass = (a('rho') + a('drho_dP') * x + a('drho_dT') * y) * a('porosity') * (a('S') + a('dS_dP') * x + a('dS_dT') * y)
    D = lambda t, z: tm.subst(diff(t, z), {x: R(0), y: R(0)})
    if mode == 'ts':
        return [D(mass, x) * up.at(c) * V - a('source_sink') * V]
    if mode == 'th':
        rock = a('rho_soil') * a('c_soil')
        en = mass * (a('u') + a('du_dP') * x + a('du_dT') * y) + rock * (R(1) - a('porosity')) * (soln.at(2 * c + 1) + y)
        pt, tt = up.at(2 * c), up.at(2 * c + 1)
        return [(D(mass, x) * pt + D(mass, y) * tt) * V - a('source_sink') * V, (D(en, x) * pt + D(en, y) * tt) * V - a('energy_source_sink') * V]
    m = a('rho') * a('porosity') * a('S') * V / dt
    if mode == 'snes':
        return [m - up.at(c) - a('source_sink')]
    if mode == 'salinity':
        return [m - up.at(2 * c) - a('source_sink'), m * soln.at(2 * c + 1) - up.at(2 * c + 1) - a('salinity_source_sink')]


def assembly(fname, eqs, mode):
    def f(newv):
        v = newv()
        s, nloc, loc, tdy, c = problem(v, STATE)
        dof = 1 if eqs == 'richards' else 2
        u, r, uloc = v.vec('U', dof * nloc, True), v.vec('R', dof * nloc), v.vec('U local', dof * s.nc)
        tdy.set('soln_loc', uloc.handle)
        up = v.vec('U_t', dof * nloc, True)
        tdy.set('accumulation_prev', up.handle)
        k = fresh('k', 'I')
        v.requires(forall(k, I(0), nloc, loc(k)), 'the local cells are numbered before the ghost cells')
        locals_ = [uloc]
        if mode == 'salinity':
            tmp = v.vec('work vector', dof * s.nc)
            locals_.append(tmp)

            def glv(ex, fr, x, st, a):
                ex.store(st, a[1], tmp.handle, 8, ex.where(fr, x))
                return [(st, I(0))]
            v.ex.models['DMGetLocalVector'] = glv
        if mode == 'th':
            def strat(ex, fr, x, st, a):
                ex.oblige('pre', st, ieq(a[1], I(0)), ex.where(fr, x) + ' cells')
                ex.store(st, a[2], v.int('cStart'), 4, '')
                ex.store(st, a[3], v.int('cStart') + nloc, 4, '')
                return [(st, I(0))]
            v.ex.models['DMPlexGetHeightStratum'] = strat
        contracts(v, s, eqs, tdy, nloc, [u], locals_, dof)
        args = [v.opaque('snes'), u.handle, r.handle, tdy] if mode in ('snes', 'salinity') else [v.opaque('ts'), v.real('t'), u.handle, up.handle, r.handle, tdy]
        for st, ret in v.call(fname, *args):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            for d, t in enumerate(rest(s, tdy, c, mode, up, u)):
                v.ensure(st, req(r.now(st, dof * c + d), app('net outflow', (dof * c + d,), 'R') + t),
                         'residual of a local cell: change of what it stores, plus what leaves, minus what enters and its source')
    return f


def before_step(fname, eqs):
    """the stored quantities at the beginning of an implicit step"""
    def f(newv):
        v = newv()
        s, nloc, loc, tdy, c = problem(v, STATE)
        dof = 1 if eqs == 'richards' else 2
        sprev, uloc, prev = v.vec('soln_prev', dof * nloc, True), v.vec('U local', dof * s.nc), v.vec('accumulation', dof * nloc)
        tdy.set('soln_prev', sprev.handle)
        tdy.set('soln_loc', uloc.handle)
        tdy.set('accumulation_prev', prev.handle)
        contracts(v, s, eqs, tdy, nloc, [sprev], uloc, dof)
        for st, ret in v.call(fname, tdy):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            a = lambda n: new(s, n, c)
            m = a('rho') * a('porosity') * a('S') * s.volume.at(c) / tdy.get('dtime')
            v.ensure(st, req(prev.now(st, dof * c), m), 'the stored mass of a local cell at the last accepted solution, over the time step')
            if dof == 2:
                v.ensure(st, req(prev.now(st, 2 * c + 1), m * sprev.at(2 * c + 1)), 'the stored salt of a local cell at the last accepted solution, over the time step')
    return f


def no_work(v):
    def glv(ex, fr, x, st, a):
        return [(st, I(0))]
    v.ex.models['TSGetDM'] = lambda ex, fr, x, st, a: [(ex.store(st, a[1], v.opaque('dm'), 8, '') or st, I(0))]


def stored(newv):
    """mass as a function of the solution, for time integrators that take the stored quantity"""
    v = newv()
    s, nloc, loc, tdy, c = problem(v, STATE)
    u, uloc, m = v.vec('U', nloc, True), v.vec('U local', s.nc), v.vec('M', nloc)
    tdy.set('soln_loc', uloc.handle)
    tdy.set('soln', v.vec('soln', nloc).handle)
    contracts(v, s, 'richards', tdy, nloc, [u], uloc, 1)
    for st, ret in v.call('TDyMPFAOTransientVariable', v.opaque('ts'), u.handle, m.handle, tdy):
        v.ensure(st, ieq(ret, I(0)), 'reports success')
        a = lambda n: new(s, n, c)
        v.ensure(st, req(m.now(st, c), a('rho') * a('porosity') * a('S') * s.volume.at(c)), 'stored mass of a local cell')


def from_stored(newv):
    v = newv()
    s, nloc, loc, tdy, c = problem(v, STATE)
    u, r, uloc, mt = v.vec('U', nloc, True), v.vec('R', nloc), v.vec('U local', s.nc), v.vec('M_t', nloc, True)
    tdy.set('soln_loc', uloc.handle)
    no_work(v)
    contracts(v, s, 'richards', tdy, nloc, [u], uloc, 1)
    for st, ret in v.call('TDyMPFAOIFunction_TransientVariable', v.opaque('ts'), v.real('t'), u.handle, mt.handle, r.handle, tdy):
        v.ensure(st, ieq(ret, I(0)), 'reports success')
        v.ensure(st, req(r.now(st, c), app('net outflow', (c,), 'R') + mt.at(c) - s.c['source_sink'].at(c) * s.volume.at(c)),
                 'residual of a local cell: rate of its stored mass, plus what leaves, minus what enters and its source')


def gather(newv):
    """a component of a vector"""
    v = newv()
    n, bs, stride = v.int('n'), v.int('bs'), v.int('component')
    v.requires(and_(ile(I(0), n), ile(I(1), bs), ile(I(0), stride), ilt(stride, bs)))
    A = v.opaque('A')
    out = v.array('out', 'P', 1)
    made = v.opaque('made')
    size = v.ghost('size', 'I', I(-1))
    got = v.ghost('component gathered', 'I', I(-1))

    def setint(val):
        def m(ex, fr, x, st, a):
            ex.oblige('pre', st, peq(a[0], A), ex.where(fr, x) + ' of the given vector')
            ex.store(st, a[1], val, 4, '')
            return [(st, I(0))]
        return m
    v.ex.models['VecGetLocalSize'] = setint(n * bs)
    v.ex.models['VecGetBlockSize'] = setint(bs)

    def create(ex, fr, x, st, a):
        ex.store(st, a[1], made, 8, ex.where(fr, x))
        return [(st, I(0))]
    v.ex.models['VecCreate'] = create

    def sizes(ex, fr, x, st, a):
        ex.oblige('pre', st, peq(a[0], made), ex.where(fr, x) + ' of the new vector')
        size.set(st, a[1])
        return [(st, I(0))]
    v.ex.models['VecSetSizes'] = sizes
    v.ex.models['VecSetFromOptions'] = lambda ex, fr, x, st, a: [(st, I(0))]

    def sg(ex, fr, x, st, a):
        ex.oblige('pre', st, and_(peq(a[0], A), peq(a[2], made), ieq(a[3], I(v.prog.enum('INSERT_VALUES')))), ex.where(fr, x) + ' from the given vector to the new one')
        got.set(st, a[1])
        return [(st, I(0))]
    v.ex.models['VecStrideGather'] = sg
    for st, ret in v.call('ExtractSubVectors', A, stride, out):
        v.ensure(st, ieq(ret, I(0)), 'reports success')
        v.ensure(st, and_(ieq(size.get(st), n), ieq(got.get(st), stride)), 'a new vector with the entries of that component')


def dae(newv):
    """pressure and stored mass as two unknowns per cell"""
    v = newv()
    s, nloc, loc, tdy, c = problem(v, STATE)
    u, r, uloc, ut = v.vec('U', 2 * nloc, True), v.vec('R', 2 * nloc), v.vec('U local', 2 * s.nc), v.vec('U_t', 2 * nloc, True)
    tdy.set('soln_loc', uloc.handle)
    parts = {}
    for n, cnt in (('P', s.nc), ('M', s.nc), ('R_P', nloc), ('R_M', nloc)):
        parts[n] = v.vec(n, cnt)
    no_work(v)
    ex = v.ex
    contracts(v, s, 'richards', tdy, nloc, [u], [parts['P']], 1)
    entry = lambda i: ite(ilt(i, 2 * nloc), u.at(i), app('ghost value', (i,), 'R'))

    def g2l(ex, fr, x, st, a):
        w = ex.where(fr, x)
        ex.oblige('pre', st, and_(peq(a[1], u.handle), peq(a[2], uloc.handle)), w + ' scatters the solution to the local vector')
        petsc.store_range(ex, st, uloc.ptr, 2 * s.nc, 'R', entry, w)
        return [(st, I(0))]
    ex.contracts['TDyGlobalToLocal'] = g2l

    def sub(ex, fr, x, st, a):
        w = ex.where(fr, x)
        n = {(uloc.handle, 0): 'P', (uloc.handle, 1): 'M', (r.handle, 0): 'R_P', (r.handle, 1): 'R_M'}.get((a[0], a[1].args[0] if a[1].op == 'num' else None))
        ex.oblige('pre', st, B(n is not None), w + ' a component of a vector with two unknowns per cell')
        if n is None:
            return []
        src = uloc if n in ('P', 'M') else r
        k = fresh('k', 'I')
        val = src.now(st, 2 * k + a[1])
        petsc.store_range(ex, st, parts[n].ptr, s.nc if src is uloc else nloc, 'R', lambda i: subst(val, {k: i}), w)
        ex.store(st, a[2], parts[n].handle, 8, w)
        return [(st, I(0))]
    ex.contracts['ExtractSubVectors'] = sub

    def destroyed(ex, fr, x, st, a):
        return [(st, I(0))]
    ex.models['VecDestroy'] = destroyed
    ghost = lambda k: ite(ilt(2 * k, 2 * nloc), u.at(2 * k), app('ghost value', (2 * k,), 'R'))

    def upd(ex, fr, x, st, a):
        w = ex.where(fr, x)
        k = fresh('k', 'I')
        ex.oblige('pre', st, and_(peq(a[0], tdy.ptr), ieq(a[2], s.nc)), w + ' updates all cells')
        ex.oblige('pre', st, forall(k, I(0), s.nc, req(v.load(st, a[1], 'R', k), ghost(k))), w + ' updates the state with the pressures')
        for n in STATE:
            petsc.store_range(ex, st, s.c[n].ptr, s.nc, 'R', lambda i: app('new ' + n, (i,), 'R'), w)
        upd0.set(st, 1)
        return [(st, I(0))]
    upd0 = v.ghost('updated', 'I', I(0))
    ex.contracts['TDyUpdateState'] = upd

    def steps(name, need, done):
        g = v.ghost(name, 'I', I(0))

        def m(ex, fr, x, st, a):
            w = ex.where(fr, x)
            if name == 'pressure':
                ex.oblige('pre', st, peq(a[1], parts['P'].handle), w + ' of the pressures')
            if name == 'TP':
                ex.oblige('pre', st, and_(peq(a[0], s.ctx.get('Trans_mat')), peq(a[1], s.ctx.get('P_vec')), peq(a[2], s.TP.handle)), w + ' applies the transmissibilities')
            if name == 'fluxes':
                ex.oblige('pre', st, and_(peq(a[0], parts['P'].handle), peq(a[1], parts['R_P'].handle)), w + ' of the pressures')
                o = parts['R_P']
                i = fresh('i', 'I')
                old = o.now(st, i)
                petsc.store_range(ex, st, o.ptr, nloc, 'R', lambda k: subst(old, {i: k}) + app('net outflow', (k,), 'R'), w)
            for q in need:
                ex.oblige('pre', st, ieq(q.get(st), I(1)), w + ' after the steps it depends on')
            g.set(st, 1)
            return [(st, I(0))]
        return g, m
    gp, ex.contracts['TDyMPFAO_SetBoundaryPressure'] = steps('pressure', [], None)
    gb, ex.contracts['TDyMPFAOUpdateBoundaryState'] = steps('boundary', [gp], None)
    gt, ex.models['MatMult'] = steps('TP', [gp, upd0], None)
    gv, ex.contracts['TDyMPFAOIFunction_Vertices'] = steps('fluxes', [gb, gt, upd0], None)
    for st, ret in v.call('TDyMPFAOIFunction_DAE', v.opaque('ts'), v.real('t'), u.handle, ut.handle, r.handle, tdy):
        v.ensure(st, ieq(ret, I(0)), 'reports success')
        a = lambda n: new(s, n, c)
        V = s.volume.at(c)
        v.ensure(st, req(r.now(st, 2 * c), ut.at(2 * c + 1) * V - a('source_sink') * V + app('net outflow', (c,), 'R')),
                 'residual of a local cell: rate of its stored mass, plus what leaves, minus what enters and its source')
        v.ensure(st, req(r.now(st, 2 * c + 1), u.at(2 * c + 1) - a('rho') * a('porosity') * a('S')),
                 'the second unknown is the mass stored per volume')


def units(tier):
    return [('fluxes through the subfaces', vertices('richards')),
            ('fluxes of mass and energy', vertices('th')),
            ('fluxes of mass and salt', vertices('salinity')),
            ('residual, time integrator', assembly('TDyMPFAOIFunction', 'richards', 'ts')),
            ('residual, implicit step', assembly('TDyMPFAOSNESFunction', 'richards', 'snes')),
            ('residual of mass and energy', assembly('TDyMPFAOIFunction_TH', 'th', 'th')),
            ('residual of mass and salt', assembly('TDyMPFAOSNESFunction_Salinity', 'salinity', 'salinity')),
            ('stored mass before a step', before_step('TDyMPFAOSNESPreSolve', 'richards')),
            ('stored mass and salt before a step', before_step('TDyMPFAOSNESPreSolve_Salinity', 'salinity')),
            ('stored mass', stored),
            ('residual from the stored mass', from_stored),
            ('component of a vector', gather),
            ('residual with the stored mass as an unknown', dae),
            ]
