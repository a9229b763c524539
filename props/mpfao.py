"""Shapes and laws shared by the multi-point flux (MPFA-O) properties."""
from tdyver.harness import *
from tdyver.petsc import model, ok

SRCS = ['src/fv/mpfao/tdympfao_ts.c', 'src/fv/mpfao/tdympfao_snes.c', 'src/tdyutils.c', 'src/fv/share/tdymesh.c']

CELL = ['Kr', 'dKr_dS', 'S', 'dS_dP', 'd2S_dP2', 'dS_dT', 'Sr', 'rho', 'drho_dP', 'd2rho_dP2', 'drho_dT', 'vis', 'dvis_dP', 'd2vis_dP2', 'dvis_dT',
        'porosity', 'source_sink', 'energy_source_sink', 'salinity_source_sink', 'h', 'dh_dP', 'dh_dT', 'u', 'du_dP', 'du_dT', 'rho_soil', 'c_soil', 'm_nacl',
        'D_saline', 'mu_saline']
BND = ['P_bnd', 'T_bnd', 'Psi_bnd', 'Kr_bnd', 'dKr_dS_bnd', 'S_bnd', 'dS_dP_bnd', 'd2S_dP2_bnd', 'rho_bnd', 'vis_bnd', 'h_bnd']


class Shape:
    """a flow context on a mesh of any size and connectivity"""

    def __init__(self, v, writable=()):
        self.v = v
        ro = lambda n: n not in writable
        self.nc, self.nf, self.nb, self.nv = v.int('num_cells'), v.int('num_faces'), v.int('num_boundary_faces'), v.int('num_vertices')
        for n in (self.nc, self.nf, self.nb, self.nv):
            v.requires(ile(I(0), n))
        self.ctx = v.struct('mpfao', 'TDyMPFAO', readonly=ro('ctx'))
        self.mesh = m = v.struct('mesh', 'TDyMesh', readonly=ro('mesh'))
        self.ctx.set('mesh', m)
        m.set('num_cells', self.nc)
        m.set('num_faces', self.nf)
        m.set('num_boundary_faces', self.nb)
        m.set('num_vertices', self.nv)
        self.c, self.b = {}, {}
        for n in CELL:
            self.c[n] = v.array(n, 'R', self.nc, readonly=ro(n))
            self.ctx.set(n, self.c[n])
        for n in BND:
            self.b[n] = v.array(n, 'R', self.nb, readonly=ro(n))
            self.ctx.set(n, self.b[n])
        for n in ('K', 'K0', 'Kappa', 'Kappa0'):
            a = v.array(n, 'R', 9 * self.nc, readonly=ro(n))
            setattr(self, n, a)
            self.ctx.set(n, a)
        self.volume = v.array('volume', 'R', self.nc, readonly=True)
        m.set('cells.volume', self.volume)
        self.cell_local = v.array('cell_is_local', 'I', self.nc, readonly=True)
        m.set('cells.is_local', self.cell_local)
        nid = self.nid = v.int('num_face_cell_ids')
        self.face_cells = v.array('face_cell_ids', 'I', nid, readonly=True)
        self.cell_offset = v.array('face_cell_offset', 'I', self.nf + 1, readonly=True)
        m.set('faces.cell_ids', self.face_cells)
        m.set('faces.cell_offset', self.cell_offset)
        for n in ('is_local', 'is_internal', 'bc_type'):
            a = v.array('face_' + n, 'I', self.nf, readonly=ro('face_' + n))
            setattr(self, 'face_' + n, a)
            m.set('faces.' + n, a)
        self.nvf, self.nvc = v.int('num_vertex_face_ids'), v.int('num_vertex_cell_ids')
        for n, cnt in (('is_local', self.nv), ('num_faces', self.nv), ('num_boundary_faces', self.nv), ('num_internal_cells', self.nv),
                       ('face_offset', self.nv + 1), ('internal_cell_offset', self.nv + 1), ('boundary_face_offset', self.nv + 1),
                       ('face_ids', self.nvf), ('subface_ids', self.nvf), ('internal_cell_ids', self.nvc), ('subcell_ids', self.nvc)):
            a = v.array('vertex_' + n, 'I', cnt, readonly=True)
            setattr(self, 'vertex_' + n, a)
            m.set('vertices.' + n, a)
        self.TP, self.G = v.vec('TtimesP', 4 * self.nf, 'TP' not in writable), v.vec('gravity flux', 4 * self.nf, 'G' not in writable)
        self.ctx.set('TtimesP_vec', self.TP.handle)
        self.ctx.set('GravDisVec', self.G.handle)
        self.Pref, self.Tref, self.bc = self.ctx.get('Pref'), self.ctx.get('Tref'), self.ctx.get('bc_type')

    def stencil_facts(self):
        """the cells around a vertex, and the transmissibilities of its subfaces"""
        v, x, i = self.v, fresh('x', 'I'), fresh('i', 'I')
        v.requires(forall(x, I(0), self.nv, and_(ile(I(0), self.vertex_num_internal_cells.at(x)), ile(I(0), self.vertex_internal_cell_offset.at(x)),
                                                 ile(self.vertex_internal_cell_offset.at(x) + self.ncols(x), self.nvc))), 'the cells of a vertex lie within the cell list')
        v.requires(forall(i, I(0), self.nvc, and_(ile(I(0), self.vertex_internal_cell_ids.at(i)), ilt(self.vertex_internal_cell_ids.at(i), self.nc))), 'the cells around a vertex exist')
        self.Trans = self.trans('Trans')

    def trans(self, name):
        """transmissibilities by vertex, subface of the vertex and cell of the vertex"""
        v = self.v
        a = v.array(name, 'R', None, nparams=2, readonly=True)
        rows = v.array(name + '_rows', 'P', None, nparams=1, init=lambda x, j: a.p(x, j), readonly=True)
        self.ctx.set(name, v.ptr_table(name + '_vertices', self.nv, lambda x: rows.p(x)))
        return a

    def stencil(self, x, i):
        return self.vertex_internal_cell_ids.at(self.vertex_internal_cell_offset.at(x) + i)

    def ncols(self, x):
        return self.vertex_num_internal_cells.at(x)

    def up(self, f):
        return self.face_cells.at(self.cell_offset.at(f))

    def dn(self, f):
        return self.face_cells.at(self.cell_offset.at(f) + I(1))

    def isc(self, c):
        return and_(ile(I(0), c), ilt(c, self.nc))

    def isb(self, b):
        return and_(ile(I(0), b), ilt(b, self.nb))

    def point(self, p):
        """a cell, or a boundary point numbered -b-1"""
        return and_(ilt(p, self.nc), ile(I(0), p + self.nb))

    def row(self, x, r):
        """face and subface of row r of vertex x"""
        o = self.vertex_face_offset.at(x) + r
        return self.vertex_face_ids.at(o), self.vertex_subface_ids.at(o)

    def nrows(self, x):
        return self.vertex_num_faces.at(x)

    def facts(self, nloc):
        v = self.v
        f, x, r, c = fresh('f', 'I'), fresh('x', 'I'), fresh('r', 'I'), fresh('c', 'I')
        v.requires(forall(f, I(0), self.nf, and_(ile(I(0), self.cell_offset.at(f)), ile(self.cell_offset.at(f) + 2, self.nid),
                                                 self.point(self.up(f)), self.point(self.dn(f)))), 'every face has two adjacent slots, each a cell or a boundary point')
        v.requires(forall(x, I(0), self.nv, and_(ile(I(0), self.vertex_num_boundary_faces.at(x)), ile(self.vertex_num_boundary_faces.at(x), self.vertex_num_faces.at(x)),
                                                 ile(I(0), self.vertex_face_offset.at(x)), ile(self.vertex_face_offset.at(x) + self.vertex_num_faces.at(x), self.nvf))),
                   'the faces of a vertex lie within the face list, boundary faces among them')
        v.requires(forall(r, I(0), self.nvf, and_(ile(I(0), self.vertex_face_ids.at(r)), ilt(self.vertex_face_ids.at(r), self.nf),
                                                  ile(I(0), self.vertex_subface_ids.at(r)), ilt(self.vertex_subface_ids.at(r), I(4)))), 'the faces of a vertex exist, with up to four subfaces each')
        loc = lambda c: not_(ieq(self.cell_local.at(c), I(0)))
        v.requires(forall(c, I(0), self.nc, implies(loc(c), ilt(c, nloc))), 'the local cells are numbered before the ghost cells')
        v.requires(and_(ile(I(0), nloc), ile(nloc, self.nc)))
        vis = lambda a, n: forall(c, I(0), n, rlt(R(0), a.at(c)))
        v.requires(vis(self.c['vis'], self.nc), 'viscosity is positive')
        v.requires(vis(self.b['vis_bnd'], self.nb), 'viscosity is positive')
        return loc

    def side(self, p, n):
        """value of a quantity at a cell or boundary point"""
        return ite(ile(I(0), p), self.c[n].at(p), self.b[n + '_bnd'].at(-p - 1))

    def flux(self, f, sub, tp=None, den_up=None):
        """mass flux through a subface, from its up to its down side"""
        up, dn = self.up(f), self.dn(f)
        k = 4 * f + sub
        tp, g = tp or self.TP.at(k), self.G.at(k)
        den = (self.side(up, 'rho') + self.side(dn, 'rho')) * R(0.5)
        head = tp + den * g
        U = ite(rlt(head, R(0)), up, dn)
        mob = self.side(U, 'Kr') / self.side(U, 'vis')
        SEEP = v_enum(self.v, 'SEEPAGE_BC')
        blocked = and_(ilt(U, I(0)), ieq(self.bc, SEEP), rle(self.b['P_bnd'].at(-U - 1), self.Pref))
        return ite(blocked, R(0), -(den * mob * head))


def v_enum(v, n):
    return I(v.prog.enum(n))
