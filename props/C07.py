"""Two-point flux law and assembly of the residual: mass is conserved."""
from tdyver.harness import *
from .fvtpf import *


def residual(fname, boundary, seepage=False):
    def f(newv):
        v = newv()
        s = Shape(v)
        face = v.int('face')
        v.requires(and_(ile(I(0), face), ilt(face, s.nf), s.two_cells(face)))
        d, u = s.face_geometry(face)
        cu, cd = s.up(face), s.dn(face)
        v.requires(s.isc(cd))
        s.positive_perm(cd)
        v.requires(rlt(R(0), s.c['vis'].at(cd)), 'viscosity is positive')
        if boundary:
            b = -cu - 1
            v.requires(s.isb(b), 'the up side of a boundary face is the boundary point -id-1')
            v.requires(rlt(R(0), s.b['vis_bnd'].at(b)), 'viscosity is positive')
            up, kup = bnd_side(s, b), cd
        else:
            v.requires(s.isc(cu))
            s.positive_perm(cu)
            v.requires(rlt(R(0), s.c['vis'].at(cu)), 'viscosity is positive')
            up, kup = cell_side(s, cu), cu
        res = v.array('Res', 'R', 1)
        for st, r in v.call(fname, s.ctx, v.opaque('dm'), v.opaque('matprop'), face, res):
            v.ensure(st, ieq(r, I(0)), 'reports success')
            v.ensure(st, req(res.now(st, 0), flux(s, face, up, cell_side(s, cd), kup, cd, d, u, seepage)), 'the mass flux from the up side to the down side')
    return f


def flow_contracts(v, s, nloc, with_state=True):
    """contracts of the functions the assembly calls; each is proved by its own units"""
    ex = v.ex
    cellst, bp, bs = v.ghost('cell state', 'I', I(0)), v.ghost('boundary pressure', 'I', I(0)), v.ghost('boundary state', 'I', I(0))

    def need(ex, fr, x, st, what, g, one=1):
        ex.oblige('pre', st, ieq(g.get(st), I(one)), '%s %s' % (ex.where(fr, x), what))

    def flux_of(name, boundary, slots):
        def c(ex, fr, x, st, a):
            w = ex.where(fr, x)
            f = a[3]
            if with_state:
                need(ex, fr, x, st, 'uses the state of the current iterate', cellst)
                if boundary:
                    need(ex, fr, x, st, 'uses the boundary state of the current iterate', bs)
            ex.oblige('pre', st, and_(peq(a[0], s.ctx.ptr), ile(I(0), f), ilt(f, s.nf)), w + ' valid face')
            if boundary:
                ex.oblige('pre', st, s.isb(-s.up(f) - 1), w + ' the up side is a boundary point')
            for p, nm in zip(a[4:], slots):
                ex.store(st, p, app(nm, (f,), 'R'), 8, w)
            return [(st, I(0))]
        ex.contracts[name] = c
    return cellst, bp, bs, flux_of


def mesh_facts(v, s, nloc):
    f, c = fresh('f', 'I'), fresh('c', 'I')
    loc = lambda c: not_(ieq(s.cell_local.at(c), I(0)))
    v.requires(forall(f, I(0), s.nf, s.two_cells(f)), 'every face has two adjacent slots, each a cell or a boundary point')
    v.requires(forall(f, I(0), s.nf, and_(ilt(s.up(f), s.nc), ilt(s.dn(f), s.nc))))
    v.requires(forall(f, I(0), s.nf, implies(and_(not_(ieq(s.face_is_local.at(f), I(0))), not_(ieq(s.face_is_internal.at(f), I(0)))),
                                             and_(ile(I(0), s.up(f)), ile(I(0), s.dn(f))))), 'an internal face has a cell on both sides')
    v.requires(forall(f, I(0), s.nf, implies(and_(not_(ieq(s.face_is_local.at(f), I(0))), ieq(s.face_is_internal.at(f), I(0))),
                                             and_(ile(I(0), s.dn(f)), s.isb(-s.up(f) - 1), loc(s.dn(f)), ile(I(0), s.face_bc_type.at(f)), ile(s.face_bc_type.at(f), I(2))))),
               'a boundary face has a boundary point up, a local cell down and a known type of condition')
    v.requires(forall(c, I(0), s.nc, implies(loc(c), ilt(c, nloc))), 'the local cells are numbered before the ghost cells')
    v.requires(and_(ile(I(0), nloc), ile(nloc, s.nc)))
    return loc


STATE = ('rho', 'S')


def new_state(ex, s, st, w):
    """what the update of the state leaves in the arrays the accumulation reads"""
    for n in STATE:
        petsc.store_range(ex, st, s.c[n].ptr, s.nc, 'R', lambda i: app('new ' + n, (i,), 'R'), w)


def state_contracts(v, s, tdy, u, uloc, cellst, bp, bs):
    ex = v.ex

    def g2l(ex, fr, x, st, a):
        w = ex.where(fr, x)
        ex.oblige('pre', st, and_(peq(a[1], u.handle), peq(a[2], uloc.handle)), w + ' scatters the iterate to the local vector')
        petsc.store_range(ex, st, uloc.ptr, s.nc, 'R', lambda i: app('iterate', (i,), 'R'), w)
        return [(st, I(0))]
    ex.contracts['TDyGlobalToLocal'] = g2l

    def getdm(ex, fr, x, st, a):
        ex.store(st, a[1], v.opaque('dm'), 8, ex.where(fr, x))
        return [(st, I(0))]
    ex.contracts['TDyGetDM'] = getdm

    def upd(ex, fr, x, st, a):
        w = ex.where(fr, x)
        k = fresh('k', 'I')
        ex.oblige('pre', st, and_(peq(a[0], tdy.ptr), ieq(a[2], s.nc)), w + ' updates all cells')
        val = v.load(st, a[1], 'R', k)
        ex.oblige('pre', st, forall(k, I(0), s.nc, req(val, app('iterate', (k,), 'R'))), w + ' updates the state with the current iterate')
        cellst.set(st, 1)
        new_state(ex, s, st, w)
        return [(st, I(0))]
    ex.contracts['TDyUpdateState'] = upd

    def sbp(ex, fr, x, st, a):
        w = ex.where(fr, x)
        k = fresh('k', 'I')
        ex.oblige('pre', st, and_(peq(a[0], tdy.ptr), peq(a[1], uloc.handle)), w + ' arguments')
        ex.oblige('pre', st, forall(k, I(0), s.nc, req(uloc.now(st, k), app('iterate', (k,), 'R'))), w + ' uses the current iterate')
        bp.set(st, 1)
        bs.set(st, 0)
        return [(st, I(0))]
    ex.contracts['TDyFVTPFSetBoundaryPressure'] = sbp

    def ubs(ex, fr, x, st, a):
        w = ex.where(fr, x)
        ex.oblige('pre', st, ieq(bp.get(st), I(1)), w + ' after the boundary pressure')
        bs.set(st, 1)
        return [(st, I(0))]
    ex.contracts['TDyFVTPFUpdateBoundaryState'] = ubs


def tdy_shape(v, s):
    tdy = v.struct('tdy', '_p_TDy', readonly=True)
    tdy.set('context', s.ctx)
    tdy.set('matprop', v.opaque('matprop'))
    v.requires(not_(req(tdy.get('dtime'), R(0))), 'the time step is not zero')
    return tdy


def assembly(newv):
    v = newv()
    s = Shape(v, writable=STATE)
    nloc = v.int('num_cells_local')
    s.mesh.set('num_cells_local', nloc)
    loc = mesh_facts(v, s, nloc)
    tdy = tdy_shape(v, s)
    u, r, uloc, prev = v.vec('U', nloc, True), v.vec('R', nloc), v.vec('U local', s.nc), v.vec('accumulation before', nloc, True)
    tdy.set('soln_loc', uloc.handle)
    tdy.set('accumulation_prev', prev.handle)
    cellst, bp, bs, flux_of = flow_contracts(v, s, nloc)
    state_contracts(v, s, tdy, u, uloc, cellst, bp, bs)
    flux_of('RichardsResidual', False, ['flux'])
    flux_of('RichardsBCResidual', True, ['bcflux'])
    flux_of('RichardsSeepageBCResidual', True, ['seepflux'])
    c = v.int('c')
    v.requires(and_(ile(I(0), c), ilt(c, s.nc), loc(c)))
    DIR, NEU = v.prog.enum('DIRICHLET_BC'), v.prog.enum('NEUMANN_BC')
    for st, ret in v.call('TDyFVTPFSNESFunction', v.opaque('snes'), u.handle, r.handle, tdy):
        v.ensure(st, ieq(ret, I(0)), 'reports success')
        f = fresh('f', 'I')
        fl = app('flux', (f,), 'R')
        isloc = not_(ieq(s.face_is_local.at(f), I(0)))
        inner = not_(ieq(s.face_is_internal.at(f), I(0)))
        out = ite(and_(isloc, inner, ieq(s.up(f), c)), fl, R(0)) - ite(and_(isloc, inner, ieq(s.dn(f), c)), fl, R(0))
        bt = s.face_bc_type.at(f)
        bfl = ite(ieq(bt, I(DIR)), app('bcflux', (f,), 'R'), app('seepflux', (f,), 'R'))
        bout = ite(and_(isloc, not_(inner), not_(ieq(bt, I(NEU))), ieq(s.dn(f), c)), bfl, R(0))
        a = lambda n: app('new ' + n, (c,), 'R') if n in STATE else s.c[n].at(c)
        acc = a('rho') * a('porosity') * a('S') * s.volume.at(c) / tdy.get('dtime')
        want = tm.sum_(f, I(0), s.nf, out) - tm.sum_(f, I(0), s.nf, bout) + acc - prev.at(c) - a('source_sink')
        v.ensure(st, req(r.now(st, c), want), 'residual of a local cell: what it stores, minus what it stored, plus what leaves, minus what enters and its source')


def before_step(fname):
    def f(newv):
        v = newv()
        s = Shape(v, writable=STATE)
        nloc = v.int('num_cells_local')
        s.mesh.set('num_cells_local', nloc)
        loc = mesh_facts(v, s, nloc)
        tdy = tdy_shape(v, s)
        soln, sprev, uloc, prev = v.vec('soln', nloc), v.vec('soln_prev', nloc, True), v.vec('U local', s.nc), v.vec('accumulation', nloc)
        tdy.set('soln', soln.handle)
        tdy.set('soln_prev', sprev.handle)
        tdy.set('soln_loc', uloc.handle)
        tdy.set('accumulation_prev', prev.handle)
        ex = v.ex

        def g2l(ex, fr, x, st, a):
            w = ex.where(fr, x)
            ex.oblige('pre', st, peq(a[2], uloc.handle), w + ' scatters to the local vector')
            src = sprev if a[1] is sprev.handle else soln
            ex.oblige('pre', st, peq(a[1], src.handle), w + ' scatters a solution')
            i = fresh('i', 'I')
            val = src.now(st, i)
            petsc.store_range(ex, st, uloc.ptr, s.nc, 'R', lambda k: ite(ilt(k, nloc), subst(val, {i: k}), app('ghost value', (k,), 'R')), w)
            return [(st, I(0))]
        ex.contracts['TDyGlobalToLocal'] = g2l

        def upd(ex, fr, x, st, a):
            w = ex.where(fr, x)
            k = fresh('k', 'I')
            ex.oblige('pre', st, and_(peq(a[0], tdy.ptr), ieq(a[2], s.nc)), w + ' updates all cells: the curves are evaluated on all of them')
            o, off = ex.objs[a[1].args[0]], a[1].args[-1]
            ex.oblige('pre', st, ile(s.nc, o.count() if o.count is not None else s.nc), w + ' a pressure for every cell')
            val = v.load(st, a[1], 'R', k)
            ex.oblige('pre', st, forall(k, I(0), nloc, req(val, sprev.at(k))), w + ' the state of the last accepted solution')
            new_state(ex, s, st, w)
            return [(st, I(0))]
        ex.contracts['TDyUpdateState'] = upd
        c = v.int('c')
        v.requires(and_(ile(I(0), c), ilt(c, s.nc), loc(c)))
        for st, ret in v.call(fname, tdy):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            a = lambda n: app('new ' + n, (c,), 'R') if n in STATE else s.c[n].at(c)
            v.ensure(st, req(prev.now(st, c), a('rho') * a('porosity') * a('S') * s.volume.at(c) / tdy.get('dtime')),
                     'the stored mass of a local cell at the last accepted solution, over the current time step')
            k = fresh('k', 'I')
            want = sprev.at(k) if fname.endswith('TimeCut') else soln.at(k)
            v.ensure(st, forall(k, I(0), nloc, req(soln.now(st, k), want)), 'the iterate starts from the last accepted solution' if fname.endswith('TimeCut') else 'leaves the solution')
    return f


def accumulation(newv):
    v = newv()
    s = Shape(v)
    c, dt = v.int('cell'), v.real('dtime')
    v.requires(and_(s.isc(c), not_(req(dt, R(0)))))
    acc = v.array('accum', 'R', 1)
    a = lambda n: s.c[n].at(c)
    for st, r in v.call('TDyFVTPFSNESAccumulation', c, dt, s.ctx, acc):
        v.ensure(st, ieq(r, I(0)), 'reports success')
        v.ensure(st, req(acc.now(st, 0), a('rho') * a('porosity') * a('S') * s.volume.at(c) / dt), 'density x porosity x saturation x volume, over the time step')


def units(tier):
    return [('flux through an internal face', residual('RichardsResidual', False)),
            ('flux through a face with prescribed pressure', residual('RichardsBCResidual', True)),
            ('flux through a seepage face', residual('RichardsSeepageBCResidual', True, True)),
            ('stored mass', accumulation),
            ('stored mass before a step', before_step('TDyFVTPFSNESPreSolve')),
            ('stored mass after a time step is cut', before_step('TDyFVTPFSNESTimeCut')),
            ('assembly of the residual', assembly)]
