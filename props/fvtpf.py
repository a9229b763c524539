"""Shapes and laws shared by the two-point flux (FV-TPF) properties."""
from tdyver.harness import *
from tdyver.petsc import model, ok

SRCS = ['src/fv/fvtpf/tdyfvtpf_snes.c', 'src/fv/fvtpf/tdyfvtpf.c', 'src/tdyutils.c', 'src/fv/share/tdymesh.c']
EPS = R(1e-8)

CELL = ['Kr', 'dKr_dS', 'S', 'dS_dP', 'd2S_dP2', 'Sr', 'pressure', 'rho', 'drho_dP', 'd2rho_dP2', 'vis', 'dvis_dP', 'd2vis_dP2', 'porosity', 'source_sink']
BND = ['P_bnd', 'Kr_bnd', 'dKr_dS_bnd', 'S_bnd', 'dS_dP_bnd', 'd2S_dP2_bnd', 'rho_bnd', 'vis_bnd']


class Shape:
    """a flow context on a mesh of any size"""

    def __init__(self, v, readonly=True, writable=()):
        self.v = v
        ro = lambda n: readonly and n not in writable
        self.nc, self.nf, self.nb = v.int('num_cells'), v.int('num_faces'), v.int('num_boundary_faces')
        for n in (self.nc, self.nf, self.nb):
            v.requires(ile(I(0), n))
        self.ctx = v.struct('fvtpf', 'TDyFVTPF', readonly=ro('ctx'))
        self.mesh = v.struct('mesh', 'TDyMesh', readonly=ro('mesh'))
        self.ctx.set('mesh', self.mesh)
        self.mesh.set('num_cells', self.nc)
        self.mesh.set('num_faces', self.nf)
        self.mesh.set('num_boundary_faces', self.nb)
        self.c, self.b = {}, {}
        for n in CELL:
            self.c[n] = v.array(n, 'R', self.nc, readonly=ro(n))
            self.ctx.set(n, self.c[n])
        for n in BND:
            self.b[n] = v.array(n, 'R', self.nb, readonly=ro(n))
            self.ctx.set(n, self.b[n])
        self.K0 = v.array('K0', 'R', 9 * self.nc, readonly=ro('K0'))
        self.K = v.array('K', 'R', 9 * self.nc, readonly=ro('K'))
        self.ctx.set('K0', self.K0)
        self.ctx.set('K', self.K)
        self.volume = v.array('volume', 'R', self.nc, readonly=True)
        self.mesh.set('cells.volume', self.volume)
        self.cell_local = v.array('cell_is_local', 'I', self.nc, readonly=True)
        self.mesh.set('cells.is_local', self.cell_local)
        nid = self.nid = v.int('num_face_cell_ids')
        self.face_cells = v.array('face_cell_ids', 'I', nid, readonly=True)
        self.offset = v.array('face_cell_offset', 'I', self.nf + 1, readonly=True)
        self.mesh.set('faces.cell_ids', self.face_cells)
        self.mesh.set('faces.cell_offset', self.offset)
        for n in ('is_local', 'is_internal', 'bc_type'):
            a = v.array('face_' + n, 'I', self.nf, readonly=ro('face_' + n))
            setattr(self, 'face_' + n, a)
            self.mesh.set('faces.' + n, a)
        self.area = v.array('projected_area', 'R', self.nf, readonly=True)
        self.mesh.set('faces.projected_area', self.area)
        dist = v.array('dist_up_dn', 'R', 2, nparams=1, readonly=True)
        unit = v.array('unit_vec_up_dn', 'R', 3, nparams=1, readonly=True)
        self.dist, self.unit = dist, unit
        self.mesh.set('faces.dist_up_dn', v.ptr_table('dist_up_dn_rows', self.nf, lambda k: dist.p(k)))
        self.mesh.set('faces.unit_vec_up_dn', v.ptr_table('unit_vec_up_dn_rows', self.nf, lambda k: unit.p(k)))
        self.g = [self.ctx.get('gravity[%d]' % i) for i in range(3)]
        self.Pref = self.ctx.get('Pref')

    def up(self, f):
        return self.face_cells.at(self.offset.at(f))

    def dn(self, f):
        return self.face_cells.at(self.offset.at(f) + I(1))

    def two_cells(self, f):
        """the face has two adjacent slots"""
        return and_(ile(I(0), self.offset.at(f)), ile(self.offset.at(f) + 2, self.nid))

    def isc(self, c):
        return and_(ile(I(0), c), ilt(c, self.nc))

    def isb(self, b):
        return and_(ile(I(0), b), ilt(b, self.nb))

    def face_geometry(self, f):
        v = self.v
        d = [self.dist.at(f, i) for i in range(2)]
        u = [self.unit.at(f, i) for i in range(3)]
        v.requires(and_(rle(R(0), d[0]), rlt(R(0), d[1])), 'distances from the cell centres to the face are not negative and not both zero')
        v.requires(rlt(R(0), u[0] * u[0] + u[1] * u[1] + u[2] * u[2]), 'the unit vector between the cell centres is not zero')
        return d, u

    def positive_perm(self, c):
        for k in range(3):
            self.v.requires(rlt(R(0), self.K0.at(9 * c + 4 * k)), 'the diagonal of the intrinsic permeability is positive')

    def perm_along(self, c, u):
        s = R(0)
        for k in range(3):
            s = s + u[k] * u[k] / self.K0.at(9 * c + 4 * k)
        return R(1) / s


class Side:
    """the state on one side of a face"""

    def __init__(self, P, S, rho, Kr, vis, drho=None, dmob=None):
        self.P, self.S, self.rho, self.Kr, self.vis = P, S, rho, Kr, vis
        self.drho, self.dmob = drho, dmob


def cell_side(s, c):
    a = lambda n: s.c[n].at(c)
    return Side(a('pressure'), a('S'), a('rho'), a('Kr'), a('vis'))


def bnd_side(s, b):
    a = lambda n: s.b[n].at(b)
    return Side(a('P_bnd'), a('S_bnd'), a('rho_bnd'), a('Kr_bnd'), a('vis_bnd'))


def geometry_factor(s, f, kup, kdn, d, u):
    """distance-weighted harmonic mean of the permeabilities along the line of centres"""
    Ku, Kd = s.perm_along(kup, u), s.perm_along(kdn, u)
    return Ku * Kd / (d[0] * Kd + d[1] * Ku)


def weights(up, dn, d):
    w = d[1] / (d[0] + d[1])
    return ite(rlt(up.S, EPS), R(0), ite(rlt(dn.S, EPS), R(1), w))


def flux(s, f, up, dn, kup, kdn, d, u, seepage=False):
    """mass flux through the face from the up side to the down side"""
    D = geometry_factor(s, f, kup, kdn, d, u)
    w = weights(up, dn, d)
    rho = w * up.rho + (R(1) - w) * dn.rho
    gz = (s.g[0] * u[0] + s.g[1] * u[1] + s.g[2] * u[2]) * (d[0] + d[1])
    dphi = up.P - dn.P - rho * gz
    if seepage:
        dphi = ite(and_(rlt(R(0), dphi), rlt(up.P - s.Pref, EPS)), R(0), dphi)
    mob = ite(rle(R(0), dphi), up.Kr / up.vis, dn.Kr / dn.vis)
    q = D * mob * dphi * s.area.at(f) * rho
    return ite(and_(rle(up.Kr, EPS), rle(dn.Kr, EPS)), R(0), q)
