"""The state of cells and boundary faces follows from the unknowns."""
from tdyver.harness import *
from tdyver.petsc import model, ok

SRCS = ['src/fv/fvtpf/tdyfvtpf_snes.c', 'src/fv/fvtpf/tdyfvtpf.c', 'src/fv/mpfao/tdympfao.c', 'src/fv/mpfao/tdympfao_utils.c', 'src/tdyutils.c', 'src/fv/share/tdymesh.c']

OUT = ['Kr', 'dKr_dS', 'S', 'dS_dP', 'd2S_dP2', 'rho', 'drho_dP', 'd2rho_dP2', 'vis', 'dvis_dP', 'd2vis_dP2']
BOUT = ['Kr_bnd', 'dKr_dS_bnd', 'S_bnd', 'dS_dP_bnd', 'd2S_dP2_bnd']
CTX_TYPE = {'fvtpf': 'TDyFVTPF', 'mpfao': 'TDyMPFAO'}


def R_(name, *args):
    return app(name, args, 'R')


def curve_contracts(v, s, n):
    """contracts of the curve evaluations (proved in C04) and of the equations of state (C01)"""
    ex = v.ex

    def covers(ex, st, p, count, w, what):
        o = ex.objs.get(p.args[0]) if p.op == 'ptr' else None
        if o is None or o.count is None:
            raise Unsupported('%s: unknown extent of %s' % (w, what))
        ex.oblige('pre', st, and_(ile(I(0), p.args[-1]), ile(p.args[-1] + 8 * count, 8 * o.count(*p.args[1:-1]))) if o.stride == 8 else FALSE,
                  '%s an entry of %s for every point' % (w, what))

    def rd(st, p, i):
        return v.load(st, p, 'R', i)

    def sat(ex, fr, x, st, a):
        w = ex.where(fr, x)
        ex.oblige('pre', st, peq(a[0], s.sat), w + ' the saturation curves of this problem')
        for p, what in zip(a[1:], ('residual saturation', 'capillary pressure', 'saturation', 'derivative', 'second derivative')):
            covers(ex, st, p, n, w, what)
        i = fresh('i', 'I')
        sr, pc = rd(st, a[1], i), rd(st, a[2], i)
        for p, nm in zip(a[3:], ('sat', 'dsat', 'd2sat')):
            petsc.store_range(ex, st, p, n, 'R', lambda k, nm=nm: R_(nm, k, subst(sr, {i: k}), subst(pc, {i: k})), w)
        return [(st, I(0))]
    ex.contracts['SaturationCompute'] = sat

    def kr(ex, fr, x, st, a):
        w = ex.where(fr, x)
        ex.oblige('pre', st, peq(a[0], s.rel), w + ' the permeability curves of this problem')
        for p, what in zip(a[1:], ('effective saturation', 'relative permeability', 'derivative')):
            covers(ex, st, p, n, w, what)
        i = fresh('i', 'I')
        se = rd(st, a[1], i)
        for p, nm in zip(a[2:], ('kr', 'dkr')):
            petsc.store_range(ex, st, p, n, 'R', lambda k, nm=nm: R_(nm, k, subst(se, {i: k})), w)
        return [(st, I(0))]
    ex.contracts['RelativePermeabilityCompute'] = kr

    def on_points(names, nin):
        def c(ex, fr, x, st, a):
            w = ex.where(fr, x)
            ex.oblige('pre', st, peq(a[0], s.sat if names[0] == 'sat' else s.rel), w + ' the curves of this problem')
            m, pts = a[1], a[2]
            i = fresh('i', 'I')
            pt = v.load(st, pts, 'I', i)
            ex.oblige('pre', st, forall(i, I(0), m, and_(ile(I(0), pt), ilt(pt, n))), w + ' points of this problem')
            ins = [rd(st, p, i) for p in a[3:3 + nin]]
            for p, nm in zip(a[3 + nin:], names):
                petsc.store_range(ex, st, p, m, 'R', lambda k, nm=nm: R_(nm, subst(pt, {i: k}), *[subst(z, {i: k}) for z in ins]), w)
            return [(st, I(0))]
        return c
    ex.contracts['SaturationComputeOnPoints'] = on_points(('sat', 'dsat', 'd2sat'), 2)
    ex.contracts['RelativePermeabilityComputeOnPoints'] = on_points(('kr', 'dkr'), 1)

    def eosf(names, nin):
        def c(ex, fr, x, st, a):
            w = ex.where(fr, x)
            ex.oblige('pre', st, peq(a[0], s.eos), w + ' the equation of state of this problem')
            for p, nm in zip(a[1 + nin:], names):
                ex.store(st, p, R_(nm, *a[1:1 + nin]), 8, w)
            return [(st, I(0))]
        return c
    ex.contracts['EOSComputeWaterDensity'] = eosf(('density', 'ddensity', 'd2density'), 3)
    ex.contracts['EOSComputeWaterViscosity'] = eosf(('viscosity', 'dviscosity', 'd2viscosity'), 3)
    ex.contracts['EOSComputeWaterEnthalpy'] = eosf(('enthalpy', 'denthalpy_dp', 'denthalpy_dt'), 2)
    ex.contracts['EOSComputeSalinityFraction'] = eosf(('salt fraction',), 3)


class Problem:
    def __init__(self, v, kind):
        self.v, self.kind = v, kind
        self.ctx = v.struct(kind, CTX_TYPE[kind], readonly=True)
        self.mesh = v.struct('mesh', 'TDyMesh', readonly=True)
        self.ctx.set('mesh', self.mesh)
        self.nc, self.nf, self.nb = v.int('num_cells'), v.int('num_faces'), v.int('num_boundary_faces')
        for n in (self.nc, self.nf, self.nb):
            v.requires(ile(I(0), n))
        self.mesh.set('num_cells', self.nc)
        self.mesh.set('num_faces', self.nf)
        self.mesh.set('num_boundary_faces', self.nb)
        self.c, self.b = {}, {}
        self.cell('Sr', True)
        self.sat, self.rel, self.eos = v.opaque('saturation'), v.opaque('rel_perm'), v.opaque('eos')
        self.cc = v.struct('curves', 'CharacteristicCurves', readonly=True)
        self.cc.set('saturation', self.sat)
        self.cc.set('rel_perm', self.rel)
        self.Pref, self.Tref = self.ctx.get('Pref'), self.ctx.get('Tref')

    def cell(self, name, readonly=False, k=1):
        a = self.c[name] = self.v.array(name, 'R', k * self.nc, readonly=readonly)
        self.ctx.set(name, a)
        return a

    def bnd(self, name, readonly=False):
        a = self.b[name] = self.v.array(name, 'R', self.nb, readonly=readonly)
        self.ctx.set(name, a)
        return a

    def faces(self):
        v = self.v
        nid = self.nid = v.int('num_face_cell_ids')
        self.face_cells = v.array('face_cell_ids', 'I', nid, readonly=True)
        self.offset = v.array('face_cell_offset', 'I', self.nf + 1, readonly=True)
        self.inner = v.array('face_is_internal', 'I', self.nf, readonly=True)
        self.fx = v.array('face_centroid', 'R', 3 * self.nf, readonly=True)
        self.mesh.set('faces.cell_ids', self.face_cells)
        self.mesh.set('faces.cell_offset', self.offset)
        self.mesh.set('faces.is_internal', self.inner)
        self.mesh.set('faces.centroid', self.fx)
        f = fresh('f', 'I')
        a, b = self.side(f, 0), self.side(f, 1)
        bdry = ieq(self.inner.at(f), I(0))
        v.requires(forall(f, I(0), self.nf, and_(ile(I(0), self.offset.at(f)), ile(self.offset.at(f) + 2, nid))), 'every face has two adjacent slots')
        v.requires(forall(f, I(0), self.nf, implies(bdry, or_(and_(ile(I(0), a), ilt(a, self.nc), self.isb(-b - 1)), and_(ile(I(0), b), ilt(b, self.nc), self.isb(-a - 1), ilt(a, I(0)))))),
                   'a boundary face has a cell on one side and a boundary point on the other')
        v.requires(forall(f, I(0), self.nf, implies(bdry, ieq(app('face of point', (self.point(f),), 'I'), f))), 'every boundary face has its own boundary point')
        v.requires(ile(tm.sum_(f, I(0), self.nf, ite(bdry, I(1), I(0))), self.nb), 'the boundary faces are counted')

    def side(self, f, i):
        return self.face_cells.at(self.offset.at(f) + I(i))

    def isb(self, b):
        return and_(ile(I(0), b), ilt(b, self.nb))

    def cell_of(self, f):
        return ite(ile(I(0), self.side(f, 0)), self.side(f, 0), self.side(f, 1))

    def point(self, f):
        return ite(ile(I(0), self.side(f, 0)), -self.side(f, 1) - 1, -self.side(f, 0) - 1)


def cell_state(kind, fname, eqs):
    def f(newv):
        v = newv()
        s = Problem(v, kind)
        for n in OUT:
            s.cell(n)
        s.cell('K0', True, 9)
        s.cell('K', False, 9)
        dof = 2 if eqs in ('th', 'salinity') else 1
        U = v.array('U', 'R', dof * s.nc, readonly=True)
        vecs = {}
        if kind == 'fvtpf':
            s.cell('pressure')
        else:
            s.cell('m_nacl', eqs != 'salinity')
            v.array('cell_centroid', 'R', 3 * s.nc, readonly=True)
            s.mesh.set('cells.centroid', v.ex.objs['cell_centroid'].ptr())
            vecs['P'] = v.vec('P', s.nc + s.nb)
            s.ctx.set('P_vec', vecs['P'].handle)
            if eqs == 'th':
                s.cell('Kappa0', True, 9)
                for n, k in (('Kappa', 9), ('h', 1), ('dh_dP', 1), ('dh_dT', 1), ('u', 1), ('du_dP', 1), ('du_dT', 1)):
                    s.cell(n, False, k)
                vecs['T'] = v.vec('T', s.nc + s.nb)
                s.ctx.set('Temp_P_vec', vecs['T'].handle)
            if eqs == 'salinity':
                s.cell('mu_saline', True)
                vecs['Psi'] = v.vec('Psi', s.nc + s.nb)
                s.ctx.set('Psi_vec', vecs['Psi'].handle)
        curve_contracts(v, s, s.nc)
        c, j = v.int('c'), v.int('j')
        v.requires(and_(ile(I(0), c), ilt(c, s.nc), ile(I(0), j), ilt(j, I(9))))
        sr = s.c['Sr'].at(c)
        v.requires(rlt(sr, R(1)), 'residual saturation below one')
        if eqs == 'th':
            v.requires(rlt(R(0), R_('density', U.at(dof * c), s.Tref, s.c['m_nacl'].at(c))), 'the density is positive')
        for st, r in v.call(fname, s.ctx, v.opaque('dm'), s.eos, v.opaque('matprop'), s.cc, s.nc, U):
            P = U.at(dof * c)
            now = lambda n: s.c[n].now(st, c)
            v.ensure(st, ieq(r, I(0)), 'reports success')
            pc = s.Pref - P
            S = R_('sat', c, sr, pc)
            v.ensure(st, req(now('S'), S), 'saturation at the capillary pressure of the cell')
            v.ensure(st, req(now('dS_dP'), R_('dsat', c, sr, pc)), 'its derivative')
            v.ensure(st, req(now('d2S_dP2'), R_('d2sat', c, sr, pc)), 'its second derivative')
            se = (S - sr) / (R(1) - sr)
            v.ensure(st, req(now('Kr'), R_('kr', c, se)), 'relative permeability at the effective saturation of the cell')
            v.ensure(st, req(now('dKr_dS'), R_('dkr', c, se) / (R(1) - sr)), 'its derivative by the saturation')
            v.ensure(st, req(s.c['K'].now(st, 9 * c + j), s.c['K0'].at(9 * c + j) * R_('kr', c, se)), 'permeability is intrinsic times relative permeability')
            salt = R(0)
            if kind == 'mpfao':
                salt = s.c['m_nacl'].at(c)
            if eqs == 'salinity':
                salt = R_('salt fraction', U.at(2 * c + 1), s.c['mu_saline'].at(c), s.c['rho'].at(c))
                v.ensure(st, req(now('m_nacl'), salt), 'salt fraction from the concentration of the cell')
                v.ensure(st, req(vecs['Psi'].now(st, c), U.at(2 * c + 1)), 'concentration of the cell for the flux')
            for n, l in (('rho', 'density'), ('vis', 'viscosity')):
                for pre, post, q in (('', '', ''), ('d', '_dP', 'd'), ('d2', '_dP2', 'd2')):
                    v.ensure(st, req(now(pre + n + post), R_(q + l, P, s.Tref, salt)), '%s%s at the pressure of the cell' % (q, l))
            if kind == 'fvtpf':
                v.ensure(st, req(now('pressure'), P), 'pressure of the cell for the flux')
            else:
                v.ensure(st, req(vecs['P'].now(st, c), P), 'pressure of the cell for the flux')
            if eqs == 'th':
                T = U.at(2 * c + 1)
                v.ensure(st, req(vecs['T'].now(st, c), T), 'temperature of the cell for the flux')
                for n, l in (('h', 'enthalpy'), ('dh_dP', 'denthalpy_dp'), ('dh_dT', 'denthalpy_dt')):
                    v.ensure(st, req(now(n), R_(l, T, P)), l + ' at the temperature and pressure of the cell')
                v.ensure(st, req(now('u'), R_('enthalpy', T, P) - P / R_('density', P, s.Tref, salt)), 'internal energy')
                rho = R_('density', P, s.Tref, salt)
                v.ensure(st, req(now('du_dT'), R_('denthalpy_dt', T, P)), 'internal energy by temperature')
                v.ensure(st, req(now('du_dP') * rho * rho, (R_('denthalpy_dp', T, P) * rho - R(1)) * rho + P * R_('ddensity', P, s.Tref, salt)), 'internal energy by pressure')
                v.ensure(st, req(s.c['Kappa'].now(st, 9 * c + j), s.c['Kappa0'].at(9 * c + j)), 'thermal conductivity')
            b = fresh('b', 'I')
            for n in vecs:
                v.ensure(st, forall(b, s.nc, s.nc + s.nb, req(vecs[n].now(st, b), vecs[n].at(b))), 'the boundary entries stay')
    return f


def boundary_state(kind, fname):
    def f(newv):
        v = newv()
        s = Problem(v, kind)
        s.faces()
        for n in BOUT:
            s.bnd(n)
        s.bnd('P_bnd', True)
        tdy = v.struct('tdy', '_p_TDy', readonly=True)
        tdy.set('context', s.ctx)
        tdy.set('cc', s.cc)
        curve_contracts(v, s, s.nc)
        f = v.int('f')
        v.requires(and_(ile(I(0), f), ilt(f, s.nf), ieq(s.inner.at(f), I(0))))
        c, p = s.cell_of(f), s.point(f)
        sr = s.c['Sr'].at(c)
        k = fresh('k', 'I')
        v.requires(forall(k, I(0), s.nc, rlt(s.c['Sr'].at(k), R(1))), 'residual saturation below one')
        for st, r in v.call(fname, tdy):
            pc = s.Pref - s.b['P_bnd'].at(p)
            now = lambda n: s.b[n].now(st, p)
            v.ensure(st, ieq(r, I(0)), 'reports success')
            S = R_('sat', c, sr, pc)
            se = (S - sr) / (R(1) - sr)
            v.ensure(st, req(now('S_bnd'), S), 'saturation at the boundary pressure with the curve of the adjacent cell')
            v.ensure(st, req(now('dS_dP_bnd'), R_('dsat', c, sr, pc)), 'its derivative')
            v.ensure(st, req(now('d2S_dP2_bnd'), R_('d2sat', c, sr, pc)), 'its second derivative')
            v.ensure(st, req(now('Kr_bnd'), R_('kr', c, se)), 'relative permeability with the curve of the adjacent cell')
            v.ensure(st, req(now('dKr_dS_bnd'), R_('dkr', c, se) / (R(1) - sr)), 'its derivative by the saturation')
    return f


def boundary_value(kind, fname, what, field, vec, comp, dof, th=None):
    def f(newv):
        v = newv()
        s = Problem(v, kind)
        s.faces()
        out = s.bnd(field)
        tdy = v.struct('tdy', '_p_TDy', readonly=True)
        tdy.set('context', s.ctx)
        cond = v.struct('conditions', 'Conditions', readonly=True)
        tdy.set('conditions', cond)
        ul = v.vec('Ul', dof * s.nc, True)
        has = v.int('has')
        ex = v.ex
        ex.contracts['ConditionsHas' + what] = lambda ex, fr, x, st, a: [(st, has)]

        def comp_(ex, fr, x, st, a):
            w = ex.where(fr, x)
            ex.oblige('pre', st, and_(peq(a[0], cond.ptr), ieq(a[1], I(1))), w + ' one point')
            ex.store(st, a[3], R_('prescribed', *[v.load(st, a[2], 'R', i) for i in range(3)]), 8, w)
            return [(st, I(0))]
        ex.contracts['ConditionsCompute' + what] = comp_

        def getdm(ex, fr, x, st, a):
            ex.store(st, a[1], v.opaque('dm'), 8, ex.where(fr, x))
            return [(st, I(0))]
        ex.contracts['TDyGetDM'] = getdm

        def dim(ex, fr, x, st, a):
            ex.store(st, a[1], I(3), 4, ex.where(fr, x))
            return [(st, I(0))]
        ex.contracts['DMGetDimension'] = dim

        def stratum(ex, fr, x, st, a):
            ex.store(st, a[2], I(0), 4, ex.where(fr, x))
            ex.store(st, a[3], s.nc, 4, ex.where(fr, x))
            return [(st, I(0))]
        ex.contracts['DMPlexGetHeightStratum'] = stratum
        pv = None
        if vec:
            pv = v.vec(vec, s.nc + s.nb)
            s.ctx.set(vec, pv.handle)
            s.ctx.set('Temp_subc_Gmatrix', v.opaque('Temp G') if th == 'th' else NULL)
            s.ctx.set('Psi_subc_Gmatrix', v.opaque('Psi G') if th == 'salinity' else NULL)
        f = v.int('f')
        v.requires(and_(ile(I(0), f), ilt(f, s.nf), ieq(s.inner.at(f), I(0))))
        c, p = s.cell_of(f), s.point(f)
        for st, r in v.call(fname, tdy, ul.handle):
            v.ensure(st, ieq(r, I(0)), 'reports success')
            x = [s.fx.at(3 * f + i) for i in range(3)]
            want = ite(ieq(has, I(0)), ul.at(dof * c + comp), R_('prescribed', *x))
            v.ensure(st, req(out.now(st, p), want), 'the prescribed value at the centroid of the face, or that of the adjacent cell')
            if vec:
                v.ensure(st, req(pv.now(st, s.nc + p), want), 'the same value for the flux')
                k = fresh('k', 'I')
                v.ensure(st, forall(k, I(0), s.nc, req(pv.now(st, k), pv.at(k))), 'the cell entries stay')
    return f


def units(tier):
    u = [('state of the cells, two-point flux', cell_state('fvtpf', 'TDyUpdateState_Richards_FVTPF', 'richards')),
         ('state of the cells, Richards', cell_state('mpfao', 'TDyUpdateState_Richards_MPFAO', 'richards')),
         ('state of the cells, heat', cell_state('mpfao', 'TDyUpdateState_TH_MPFAO', 'th')),
         ('state of the cells, salinity', cell_state('mpfao', 'TDyUpdateState_Salinity_MPFAO', 'salinity')),
         ('boundary pressure, two-point flux', boundary_value('fvtpf', 'TDyFVTPFSetBoundaryPressure', 'BoundaryPressure', 'P_bnd', None, 0, 1))]
    for eqs, dof in (('richards', 1), ('th', 2), ('salinity', 2)):
        u.append(('boundary pressure, ' + eqs, boundary_value('mpfao', 'TDyMPFAO_SetBoundaryPressure', 'BoundaryPressure', 'P_bnd', 'P_vec', 0, dof, eqs)))
    u += [('boundary temperature', boundary_value('mpfao', 'TDyMPFAO_SetBoundaryTemperature', 'BoundaryTemperature', 'T_bnd', 'Temp_P_vec', 1, 2, 'th')),
          ('boundary concentration', boundary_value('mpfao', 'TDyMPFAO_SetBoundarySalineConcentration', 'BoundarySalineConcentration', 'Psi_bnd', 'Psi_vec', 1, 2, 'salinity')),
          ('state of the boundary, two-point flux', boundary_state('fvtpf', 'TDyFVTPFUpdateBoundaryState')),
          ('state of the boundary', boundary_state('mpfao', 'TDyMPFAOUpdateBoundaryState'))]
    return u
