"""The Jacobian of the two-point flux method is the derivative of its residual."""
from tdyver.harness import *
from tdyver.normal import diff
from .fvtpf import *
from .C07 import mesh_facts, tdy_shape


def moved(side, drho, dkr, dvis, x):
    """the side after its pressure moved by x, to first order"""
    return Side(side.P + x, side.S, side.rho + drho * x, side.Kr + dkr * x, side.vis + dvis * x)


def jacobian(fname, boundary, seepage=False):
    def f(newv):
        v = newv()
        s = Shape(v)
        face = v.int('face')
        v.requires(and_(ile(I(0), face), ilt(face, s.nf), s.two_cells(face)))
        d, u = s.face_geometry(face)
        cu, cd = s.up(face), s.dn(face)
        v.requires(s.isc(cd))
        s.positive_perm(cd)
        v.requires(rlt(R(0), s.c['vis'].at(cd)), 'viscosity is positive')
        if boundary:
            b = -cu - 1
            v.requires(s.isb(b), 'the up side of a boundary face is the boundary point -id-1')
            v.requires(rlt(R(0), s.b['vis_bnd'].at(b)), 'viscosity is positive')
            up, kup = bnd_side(s, b), cd
        else:
            v.requires(s.isc(cu))
            s.positive_perm(cu)
            v.requires(rlt(R(0), s.c['vis'].at(cu)), 'viscosity is positive')
            up, kup = cell_side(s, cu), cu
        x = fresh('x', 'R')

        def law(which):
            def m(side, c, on):
                if not on:
                    return side
                a = lambda n: s.c[n].at(c)
                return moved(side, a('drho_dP'), a('dKr_dS') * a('dS_dP'), a('dvis_dP'), x)
            q = flux(s, face, m(up, cu, which == 'up'), m(cell_side(s, cd), cd, which == 'dn'), kup, cd, d, u, seepage)
            return tm.subst(diff(q, x), {x: R(0)})
        w = weights(up, cell_side(s, cd), d)
        rho = w * up.rho + (R(1) - w) * s.c['rho'].at(cd)
        dphi = up.P - s.c['pressure'].at(cd) - rho * (s.g[0] * u[0] + s.g[1] * u[1] + s.g[2] * u[2]) * (d[0] + d[1])
        if seepage:
            v.requires(not_(req(dphi, R(0))), 'away from the pressure difference at which a seepage face starts to draw')
        outs = [v.array(n, 'R', 1) for n in (['Jdn'] if boundary else ['Jup', 'Jdn'])]
        for st, r in v.call(fname, s.ctx, v.opaque('dm'), v.opaque('matprop'), face, *outs):
            v.ensure(st, ieq(r, I(0)), 'reports success')
            if not boundary:
                v.ensure(st, req(outs[0].now(st, 0), law('up')), 'derivative of the flux by the pressure on the up side')
            v.ensure(st, req(outs[-1].now(st, 0), law('dn')), 'derivative of the flux by the pressure on the down side')
    return f


def accumulation(newv):
    v = newv()
    s = Shape(v)
    c, dt = v.int('cell'), v.real('dtime')
    v.requires(and_(s.isc(c), not_(req(dt, R(0)))))
    J = v.array('J', 'R', 1)
    x = fresh('x', 'R')
    a = lambda n: s.c[n].at(c)
    law = (a('rho') + a('drho_dP') * x) * a('porosity') * (a('S') + a('dS_dP') * x) * s.volume.at(c) / dt
    for st, r in v.call('TDyFVTPFSNESJacobianAccumulation', c, dt, s.ctx, J):
        v.ensure(st, ieq(r, I(0)), 'reports success')
        v.ensure(st, req(J.now(st, 0), tm.subst(diff(law, x), {x: R(0)})), 'derivative of the stored mass by the pressure')


def assembly(newv):
    v = newv()
    s = Shape(v)
    nloc = v.int('num_cells_local')
    s.mesh.set('num_cells_local', nloc)
    loc = mesh_facts(v, s, nloc)
    tdy = tdy_shape(v, s)
    u = v.vec('U', nloc, True)
    Bm = v.mat('B', s.nc)
    ex = v.ex

    def part(name, boundary, slots):
        def c(ex, fr, x, st, a):
            w = ex.where(fr, x)
            f = a[3]
            ex.oblige('pre', st, and_(peq(a[0], s.ctx.ptr), ile(I(0), f), ilt(f, s.nf)), w + ' valid face')
            if boundary:
                ex.oblige('pre', st, s.isb(-s.up(f) - 1), w + ' the up side is a boundary point')
            for p, nm in zip(a[4:], slots):
                ex.store(st, p, app(nm, (f,), 'R'), 8, w)
            return [(st, I(0))]
        ex.contracts[name] = c
    part('RichardsJacobian', False, ['dflux_up', 'dflux_dn'])
    part('RichardsBCJacobian', True, ['dbcflux'])
    part('RichardsSeepageBCJacobian', True, ['dseepflux'])

    def acc(ex, fr, x, st, a):
        w = ex.where(fr, x)
        ex.oblige('pre', st, and_(s.isc(a[0]), req(a[1], tdy.get('dtime')), peq(a[2], s.ctx.ptr)), w + ' of a cell of this mesh, over this time step')
        ex.store(st, a[3], app('dstored', (a[0],), 'R'), 8, w)
        return [(st, I(0))]
    ex.contracts['TDyFVTPFSNESJacobianAccumulation'] = acc

    def getdm(ex, fr, x, st, a):
        ex.store(st, a[1], v.opaque('dm'), 8, ex.where(fr, x))
        return [(st, I(0))]
    ex.contracts['TDyGetDM'] = getdm
    c, k = v.int('c'), v.int('k')
    v.requires(and_(ile(I(0), c), ilt(c, s.nc), loc(c), ile(I(0), k), ilt(k, s.nc)))
    DIR, NEU = v.prog.enum('DIRICHLET_BC'), v.prog.enum('NEUMANN_BC')
    for st, ret in v.call('TDyFVTPFSNESJacobian', v.opaque('snes'), u.handle, Bm.handle, Bm.handle, tdy):
        v.ensure(st, ieq(ret, I(0)), 'reports success')
        f = fresh('f', 'I')
        isloc = not_(ieq(s.face_is_local.at(f), I(0)))
        inner = not_(ieq(s.face_is_internal.at(f), I(0)))
        d = ite(ieq(s.up(f), k), app('dflux_up', (f,), 'R'), R(0)) + ite(ieq(s.dn(f), k), app('dflux_dn', (f,), 'R'), R(0))
        out = ite(and_(isloc, inner, ieq(s.up(f), c)), d, R(0)) - ite(and_(isloc, inner, ieq(s.dn(f), c)), d, R(0))
        bt = s.face_bc_type.at(f)
        bd = ite(ieq(bt, I(DIR)), app('dbcflux', (f,), 'R'), app('dseepflux', (f,), 'R'))
        bout = ite(and_(isloc, not_(inner), not_(ieq(bt, I(NEU))), ieq(s.dn(f), c), ieq(k, c)), bd, R(0))
        want = tm.sum_(f, I(0), s.nf, out) - tm.sum_(f, I(0), s.nf, bout) + ite(ieq(k, c), app('dstored', (c,), 'R'), R(0))
        v.ensure(st, req(Bm.now(st, c, k), want), 'entry of a local row: derivative of every term of the residual of this cell')


def units(tier):
    return [('derivative of the flux through an internal face', jacobian('RichardsJacobian', False)),
            ('derivative of the flux through a face with prescribed pressure', jacobian('RichardsBCJacobian', True)),
            ('derivative of the flux through a seepage face', jacobian('RichardsSeepageBCJacobian', True, True)),
            ('derivative of the stored mass', accumulation),
            ('assembly of the Jacobian', assembly)]
