"""Multi-point flux: the Jacobian is the derivative of the residual."""
from tdyver.normal import diff
from .mpfao import *
from tdyver import petsc
from tdyver.exec import Unsupported, Content, K
from .C10 import problem, getdm, contracts

SRCS = SRCS + ['src/fv/mpfao/tdympfao_th_ts.c', 'src/tdydiscretization.c']


def entry_facts(v, s, loc):
    f, x, j = fresh('f', 'I'), fresh('x', 'I'), fresh('j', 'I')
    at = lambda p: and_(ile(I(0), p), loc(p))
    v.requires(forall(f, I(0), s.nf, implies(or_(at(s.up(f)), at(s.dn(f))), not_(ieq(s.face_is_local.at(f), I(0))))), 'a face of a local cell is local')
    s.stencil_facts()


def dflux(s, f, sub, k, T, rows=None):
    """derivative of the mass flux by the pressure of cell k, which the pressure drop follows with slope T"""
    y = fresh('y', 'R')
    c = lambda n, p: s.c[n].at(p)

    def side(p, n, d):
        return s.side(p, n) + ite(ieq(p, k), d, R(0)) * y
    up, dn = s.up(f), s.dn(f)
    q = 4 * f + sub
    tp, g = s.TP.at(q), s.G.at(q)
    base = (s.side(up, 'rho') + s.side(dn, 'rho')) * R(0.5)
    U = ite(rlt(tp + base * g, R(0)), up, dn)
    den = (side(up, 'rho', c('drho_dP', k)) + side(dn, 'rho', c('drho_dP', k))) * R(0.5)
    mob = side(U, 'Kr', c('dKr_dS', k) * c('dS_dP', k)) / side(U, 'vis', c('dvis_dP', k))
    d = tm.subst(diff(-(den * mob * (tp + T * y + den * g)), y), {y: R(0)})
    SEEP, NEU = v_enum(s.v, 'SEEPAGE_BC'), v_enum(s.v, 'NEUMANN_BC')
    blocked = and_(ilt(U, I(0)), ieq(s.bc, SEEP), rle(s.b['P_bnd'].at(-U - 1), s.Pref))
    closed = and_(ieq(s.bc, NEU), or_(ilt(up, I(0)), ilt(dn, I(0))))
    return ite(or_(blocked, closed), R(0), d)


def vertices(newv):
    v = newv()
    s, nloc, loc, tdy, c = problem(v)
    entry_facts(v, s, loc)
    u, A = v.vec('U', s.nc, True), v.mat('A', s.nc)
    k = v.int('k')
    v.requires(and_(ile(I(0), k), ilt(k, s.nc)))
    for st, ret in v.call('TDyMPFAOIJacobian_Vertices', u.handle, A.handle, tdy):
        v.ensure(st, ieq(ret, I(0)), 'reports success')
        x, j, i = fresh('x', 'I'), fresh('j', 'I'), fresh('i', 'I')
        f, sub = s.row(x, j)
        d = dflux(s, f, sub, k, s.Trans.at(x, j, i))
        out = ite(ieq(s.up(f), c), d, R(0)) - ite(ieq(s.dn(f), c), d, R(0))
        entry = ite(ieq(s.stencil(x, i), k), out, R(0))
        want = A.at(c, k) + tm.sum_(x, I(0), s.nv, tm.sum_(j, I(0), s.nrows(x), tm.sum_(i, I(0), s.ncols(x), entry)))
        v.ensure(st, req(A.now(st, c, k), want), 'entry of a local row: derivative of what leaves the cell')


EPS = R(2.2204460492503131e-16)


def clip(t):
    return ite(rlt(absr(t), EPS), R(0), t)


def blocked_matrix(v, row, col, eq, wrt):
    """the entry of equation eq of cell row and unknown wrt of cell col, of a matrix filled with two by two blocks that are given column by
    column (see the unit on the creation of the matrix)"""
    A, entry = v.opaque('A'), v.array('entry', 'R', 1)

    def m(ex, fr, x, st, a):
        w = ex.where(fr, x)
        one = lambda t: t.op == 'num' and t.args[0] == 1
        if a[0] is not A or not one(a[1]) or not one(a[3]) or a[6].op != 'num' or a[6].args[0] != 2:
            raise Unsupported('block insertion')
        r, c = ex.load(st, a[2], 'I', 4, w), ex.load(st, a[4], 'I', 4, w)
        val = ex.load(st, ex.padd(a[5], I(8 * (2 * wrt + eq))), 'R', 8, w)
        n = v.nblocks
        ex.oblige('bounds', st, and_(ilt(r, n), ilt(c, n)), w + ' index in the local numbering')
        old = ex.load(st, entry.p(0), 'R', 8, w)
        ex.store(st, entry.p(0), old + ite(and_(ieq(r, row), ieq(c, col)), val, R(0)), 8, w)
        return [(st, I(0))]
    v.ex.models['MatSetValuesBlockedLocal'] = m
    return A, entry


def dflux_th(s, f, sub, other, k, T, TT, eq, wrt):
    """derivative of the flux of mass (0) or energy (1) by the pressure (0) or temperature (1) of cell k"""
    y = fresh('y', 'R')
    c = lambda n: s.c[n].at(k)
    z = 'dT' if wrt else 'dP'

    def side(p, n, d):
        return s.side(p, n) + ite(ieq(p, k), d, R(0)) * y
    up, dn = s.up(f), s.dn(f)
    q = 4 * f + sub
    tp, tq = clip(s.TP.at(q)), clip(other.at(q))
    U = ite(rlt(tp, R(0)), up, dn)
    den = (side(up, 'rho', c('drho_' + z)) + side(dn, 'rho', c('drho_' + z))) * R(0.5)
    mob = side(U, 'Kr', c('dKr_dS') * c('dS_' + z)) / side(U, 'vis', c('dvis_' + z))
    m = -(den * mob * (tp + (R(0) if wrt else T * y)))
    e = m * side(U, 'h', c('dh_' + z)) - (tq + (TT * y if wrt else R(0)))
    return clip(tm.subst(diff((m, e)[eq], y), {y: R(0)}))


def vertices_th(eq, wrt, inner):
    def f(newv):
        v = newv()
        s, nloc, loc, tdy, c = problem(v)
        getdm(v)
        entry_facts(v, s, loc)
        f = fresh("f", "I")
        v.requires(forall(f, I(0), s.nf, or_(ile(I(0), s.up(f)), ile(I(0), s.dn(f)))), "a face has a cell on at least one side")
        if inner:
            f, x, j = fresh('f', 'I'), fresh('x', 'I'), fresh('j', 'I')
            of = lambda f: or_(ieq(s.up(f), c), ieq(s.dn(f), c))
            v.requires(forall(f, I(0), s.nf, implies(of(f), and_(ile(I(0), s.up(f)), ile(I(0), s.dn(f))))), 'the faces of the cell lie between two cells')
            corner = lambda x: and_(ilt(I(0), s.vertex_num_boundary_faces.at(x)), ilt(s.ncols(x), I(2)))
            v.requires(forall(x, I(0), s.nv, forall(j, I(0), s.nrows(x), implies(corner(x), not_(of(s.row(x, j)[0]))))), 'the faces of the cell touch no vertex that only one cell touches')
        other = v.vec('second T times P', 4 * s.nf, True)
        s.ctx.set('Temp_TtimesP_vec', other.handle)
        TT = s.trans('Temp_Trans')
        u = v.vec('U', 2 * s.nc, True)
        k = v.int('k')
        v.requires(and_(ile(I(0), k), ilt(k, s.nc)))
        v.nblocks = s.nc
        A, a = blocked_matrix(v, c, k, eq, wrt)
        for st, ret in v.call('TDyMPFAOIJacobian_Vertices_TH', u.handle, A, tdy):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            x, j, i = fresh('x', 'I'), fresh('j', 'I'), fresh('i', 'I')
            f, sub = s.row(x, j)
            d = dflux_th(s, f, sub, other, k, s.Trans.at(x, j, i), TT.at(x, j, i), eq, wrt)
            out = ite(ieq(s.up(f), c), d, R(0)) - ite(ieq(s.dn(f), c), d, R(0))
            entry = ite(ieq(s.stencil(x, i), k), out, R(0))
            want = a.at(0) + tm.sum_(x, I(0), s.nv, tm.sum_(j, I(0), s.nrows(x), tm.sum_(i, I(0), s.ncols(x), entry)))
            v.ensure(st, req(a.now(st, 0), want), 'entry of a local row: derivative of what leaves the cell')
    return f


def second(s, a, eqs):
    """stored mass and energy near the current state, as functions of pressure and temperature increments x and y; the second derivatives by
    the temperature, and the mixed ones, are those the code takes: zero"""
    x, y, temp = fresh('x', 'R'), fresh('y', 'R'), fresh('T', 'R')
    half = R(0.5) * x * x
    rho, S = a('rho') + a('drho_dP') * x + a('d2rho_dP2') * half, a('S') + a('dS_dP') * x + a('d2S_dP2') * half
    if eqs == 'th':
        rho, S = rho + a('drho_dT') * y, S + a('dS_dT') * y
    mass = rho * a('porosity') * S
    en = mass * (a('u') + a('du_dP') * x + a('du_dT') * y) + a('rho_soil') * a('c_soil') * (R(1) - a('porosity')) * (temp + y)
    return x, y, mass, en


def storage(newv):
    v = newv()
    s, nloc, loc, tdy, c = problem(v)
    u, ut, A = v.vec('U', s.nc, True), v.vec('U_t', s.nc, True), v.mat('A', s.nc)
    k, shift = v.int('k'), v.real('shift')
    v.requires(and_(ile(I(0), k), ilt(k, s.nc)))
    for st, ret in v.call('TDyMPFAOIJacobian_Accumulation', u.handle, ut.handle, shift, A.handle, tdy):
        v.ensure(st, ieq(ret, I(0)), 'reports success')
        x, _, m, _ = second(s, lambda n: s.c[n].at(c), 'richards')
        at = lambda t: tm.subst(t, {x: R(0)})
        d = (shift * at(diff(m, x)) + at(diff(diff(m, x), x)) * ut.at(c)) * s.volume.at(c)
        v.ensure(st, req(A.now(st, c, k), A.at(c, k) + ite(ieq(k, c), d, R(0))), 'entry of a local row: derivative of the rate of the stored mass')


def storage_th(eq, wrt):
    def f(newv):
        v = newv()
        s, nloc, loc, tdy, c = problem(v)
        getdm(v)
        cells_of(v, s.nc)
        u, ut = v.vec('U', 2 * s.nc, True), v.vec('U_t', 2 * s.nc, True)
        k, shift = v.int('k'), v.real('shift')
        v.requires(and_(ile(I(0), k), ilt(k, s.nc)))
        v.nblocks = s.nc
        A, e = blocked_matrix(v, c, k, eq, wrt)
        v.ex.models['MatAssemblyBegin'] = v.ex.models['MatAssemblyEnd'] = lambda ex, fr, x, st, a: [(st, I(0))]
        for st, ret in v.call('TDyMPFAOIJacobian_Accumulation_TH', u.handle, ut.handle, shift, A, tdy):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            x, y, m, en = second(s, lambda n: s.c[n].at(c), 'th')
            q, z = (m, en)[eq], (x, y)[wrt]
            at = lambda t: tm.subst(t, {x: R(0), y: R(0)})
            rate = diff(q, x) * ut.at(2 * c) + diff(q, y) * ut.at(2 * c + 1)
            d = (shift * at(diff(q, z)) + at(diff(rate, z))) * s.volume.at(c)
            v.ensure(st, req(e.now(st, 0), e.at(0) + ite(ieq(k, c), d, R(0))), 'entry of a local row: derivative of the rate of what is stored')
    return f


def cells_of(v, n):
    def strat(ex, fr, x, st, a):
        ex.oblige('pre', st, ieq(a[1], I(0)), ex.where(fr, x) + ' cells')
        ex.store(st, a[2], v.int('cStart'), 4, '')
        ex.store(st, a[3], v.int('cStart') + n, 4, '')
        return [(st, I(0))]
    v.ex.models['DMPlexGetHeightStratum'] = strat


def parts(v, s, tdy, dof, nloc, U, uloc, Ut, utloc, shift, M, names):
    """contracts of what the evaluation of a Jacobian is made of"""
    ex = v.ex
    getdm(v)
    ghost = lambda q: (lambda i: ite(ilt(i, dof * nloc), q.at(i), app('ghost value of ' + q.o.name, (i,), 'R')))

    def g2l(off):
        def m(ex, fr, x, st, a):
            w = ex.where(fr, x)
            src = [q for q in (U, Ut) if q is not None and q.handle is a[1]]
            dst = [q for q in (uloc, utloc) if q is not None and q.handle is a[off]]
            ex.oblige('pre', st, B(bool(src and dst)), w + ' scatters a global vector to a local one')
            if off == 3:
                ex.oblige('pre', st, and_(peq(a[0], v.opaque('dm')), ieq(a[2], I(v.prog.enum('INSERT_VALUES')))), w + ' replaces the values')
            if src and dst:
                petsc.store_range(ex, st, dst[0].ptr, dof * s.nc, 'R', ghost(src[0]), w)
            return [(st, I(0))]
        return m
    ex.contracts['TDyGlobalToLocal'] = g2l(2)
    ex.models['DMGlobalToLocalBegin'] = ex.models['DMGlobalToLocal'] = g2l(3)

    def glv(ex, fr, x, st, a):
        ex.store(st, a[1], utloc.handle, 8, ex.where(fr, x))
        return [(st, I(0))]
    ex.models['DMGetLocalVector'] = glv
    ex.models['MatAssemblyBegin'] = ex.models['MatAssemblyEnd'] = lambda ex, fr, x, st, a: [(st, I(0))]

    def filled(st, h, want, w, what):
        i = fresh('i', 'I')
        q = [q for q in (uloc, utloc) if q is not None and q.handle is h]
        ex.oblige('pre', st, B(bool(q)), w + ' given a local vector')
        if q:
            ex.oblige('pre', st, forall(i, I(0), dof * s.nc, req(q[0].now(st, i), ghost(want)(i))), w + what)

    def add(st, name):
        pl = ex.plane(st, M.o, 0, 'R', 8)
        st.mem[(M.o.name, 0)] = Content(pl.base + app(name, (K(0), K(1)), 'R'))

    def vert(ex, fr, x, st, a):
        w = ex.where(fr, x)
        filled(st, a[0], U, w, ' at the given solution')
        ex.oblige('pre', st, and_(peq(a[1], M.handle), peq(a[2], tdy.ptr)), w + ' arguments')
        add(st, 'derivative of the net outflow')
        return [(st, I(0))]
    ex.contracts[names[0]] = vert

    def acc(ex, fr, x, st, a):
        w = ex.where(fr, x)
        filled(st, a[0], U, w, ' at the given solution')
        filled(st, a[1], Ut, w, ' at the given rates')
        ex.oblige('pre', st, and_(req(a[2], shift), peq(a[3], M.handle), peq(a[4], tdy.ptr)), w + ' arguments')
        add(st, 'derivative of the stored rate')
        return [(st, I(0))]
    if len(names) > 1:
        ex.contracts[names[1]] = acc


def whole(fname, dof, names):
    def f(newv):
        v = newv()
        s, nloc, loc, tdy, c = problem(v)
        U, uloc, Ut, utloc = v.vec('U', dof * nloc, True), v.vec('U local', dof * s.nc), v.vec('U_t', dof * nloc, True), v.vec('U_t local', dof * s.nc)
        tdy.set('soln_loc', uloc.handle)
        M, A = v.mat('B', dof * s.nc), v.opaque('A')
        shift = v.real('shift')
        parts(v, s, tdy, dof, nloc, U, uloc, Ut, utloc, shift, M, names)
        k, d, e = v.int('k'), v.int('d'), v.int('e')
        v.requires(and_(ile(I(0), k), ilt(k, s.nc), ile(I(0), d), ilt(d, I(dof)), ile(I(0), e), ilt(e, I(dof))))
        for st, ret in v.call(fname, v.opaque('ts'), v.real('t'), U.handle, Ut.handle, shift, A, M.handle, tdy):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            r, q = dof * c + d, dof * k + e
            v.ensure(st, req(M.now(st, r, q), app('derivative of the net outflow', (r, q), 'R') + app('derivative of the stored rate', (r, q), 'R')),
                     'entry of a local row: derivative of every term of the residual, at the given solution, rates and shift')
    return f


def step(newv):
    v = newv()
    s, nloc, loc, tdy, c = problem(v)
    U, uloc = v.vec('U', nloc, True), v.vec('U local', s.nc)
    tdy.set('soln_loc', uloc.handle)
    M, A = v.mat('B', s.nc), v.opaque('A')
    parts(v, s, tdy, 1, nloc, U, uloc, None, None, None, M, ['TDyMPFAOIJacobian_Vertices'])
    k = v.int('k')
    v.requires(and_(ile(I(0), k), ilt(k, s.nc)))
    for st, ret in v.call('TDyMPFAOSNESJacobian', v.opaque('snes'), U.handle, A, M.handle, tdy):
        v.ensure(st, ieq(ret, I(0)), 'reports success')
        x, _, m, _ = second(s, lambda n: s.c[n].at(c), 'richards')
        d = tm.subst(diff(m * s.volume.at(c) / tdy.get('dtime'), x), {x: R(0)})
        v.ensure(st, req(M.now(st, c, k), app('derivative of the net outflow', (c, k), 'R') + ite(ieq(k, c), d, R(0))),
                 'entry of a local row: derivative of every term of the residual, at the given solution')


def created(newv):
    v = newv()
    disc, tdydm = v.struct('discretization', 'TDyDiscretizationType', readonly=True), v.struct('tdydm', 'TDyDM', readonly=True)
    dm, made = v.opaque('dm'), v.opaque('made')
    disc.set('tdydm', tdydm)
    tdydm.set('dm', dm)
    v.requires(ieq(tdydm.get('dmtype'), I(v.prog.enum('PLEX_TYPE'))), 'the mesh is held by a DMPlex')
    out = v.array('out', 'P', 1)
    by_row = v.ghost('values given row by row', 'I', I(1))
    ROW = v.prog.enum('MAT_ROW_ORIENTED')

    def create(ex, fr, x, st, a):
        w = ex.where(fr, x)
        ex.oblige('pre', st, peq(a[0], dm), w + ' of the mesh')
        by_row.set(st, I(1))
        ex.store(st, a[1], made, 8, w)
        return [(st, I(0))]
    v.ex.models['DMCreateMatrix'] = create

    def option(ex, fr, x, st, a):
        ex.oblige('pre', st, peq(a[0], made), ex.where(fr, x) + ' of the new matrix')
        by_row.set(st, ite(ieq(a[1], I(ROW)), a[2], by_row.get(st)))
        return [(st, I(0))]
    v.ex.models['MatSetOption'] = option
    for st, ret in v.call('TDyDiscretizationCreateJacobianMatrix', disc, out):
        v.ensure(st, ieq(ret, I(0)), 'reports success')
        v.ensure(st, and_(peq(out.now(st, 0), made), ieq(by_row.get(st), I(0))), 'a matrix of the mesh, which takes blocks column by column')


def units(tier):
    r = [('derivative of the fluxes through the subfaces', vertices),
         ('derivative of the flux of mass by pressure, any face', vertices_th(0, 0, False)),
         ('derivative of the rate of the stored mass', storage),
         ('Jacobian, time integrator', whole('TDyMPFAOIJacobian', 1, ['TDyMPFAOIJacobian_Vertices', 'TDyMPFAOIJacobian_Accumulation'])),
         ('Jacobian, implicit step', step),
         ('Jacobian of mass and energy', whole('TDyMPFAOIJacobian_TH', 2, ['TDyMPFAOIJacobian_Vertices_TH', 'TDyMPFAOIJacobian_Accumulation_TH'])),
         ('layout of the matrix', created)]
    for eq, a in enumerate(('mass', 'energy')):
        for wrt, b in enumerate(('pressure', 'temperature')):
            r.append(('derivative of the flux of %s by %s, inner faces' % (a, b), vertices_th(eq, wrt, True)))
            r.append(('derivative of the rate of the stored %s by %s' % (a, b), storage_th(eq, wrt)))
    return r
