"""Multi-point flux: the discrete fluxes."""
from .mpfao import *
import random
from tdyver.solve import Prover
from .C10 import getdm

SRCS = ['src/fv/mpfao/tdympfao.c', 'src/fv/mpfao/tdympfao_utils.c', 'src/fv/mpfao/tdyregion.c', 'src/fv/share/tdymesh.c', 'src/fv/share/tdymeshplex.c', 'src/tdyutils.c', 'src/tdymemory.c']

EPS = R(2.2204460492503131e-16)
A3 = range(3)


class Geometry(Shape):
    """mesh with the geometry of cells, faces and subcells (the part of a cell at one of its vertices, with three subfaces)"""

    def __init__(self, v, writable=()):
        super().__init__(v, writable)
        m = self.mesh
        self.ns = v.int('num_subcells_total')
        v.requires(ile(I(0), self.ns))
        arr = self.table
        arr('cells.num_subcells', self.nc, 'I')
        arr('cells.centroid', 3 * self.nc)
        arr('faces.centroid', 3 * self.nf)
        arr('faces.normal', 3 * self.nf)
        arr('faces.area', self.nf)
        for n in ('num_faces', 'num_nu_vectors'):
            arr('subcells.' + n, self.ns, 'I', lambda k: I(3))
        for n in ('face_offset', 'nu_vector_offset'):
            arr('subcells.' + n, self.ns + 1, 'I', lambda k: 3 * k)
        for n in ('face_ids', 'is_face_up', 'face_unknown_idx', 'face_flux_idx', 'vertex_ids'):
            arr('subcells.' + n, 3 * self.ns, 'I')
        arr('subcells.face_area', 3 * self.ns)
        arr('subcells.T', self.ns)
        for n in ('nu_vector', 'nu_star_vector'):
            arr('subcells.' + n, 9 * self.ns)

    def table(self, field, n, sort='R', init=None):
        a = self.v.array(field.replace('.', '_'), sort, n, readonly=True, init=init)
        setattr(self, field.replace('.', '_'), a)
        self.mesh.set(field, a)
        return a

    def geometry_facts(self):
        v, c, s, q = self.v, fresh('c', 'I'), fresh('s', 'I'), fresh('q', 'I')
        n = self.cells_num_subcells.at(c)
        v.requires(forall(c, I(0), self.nc, and_(ile(I(0), n), forall(s, I(0), n, and_(ile(I(0), c * n + s), ilt(c * n + s, self.ns))))), 'the subcells of a cell are numbered from its number times its number of subcells')
        v.assumed.append('a subcell has three subfaces')
        v.requires(forall(q, I(0), 3 * self.ns, and_(ile(I(0), self.subcells_face_ids.at(q)), ilt(self.subcells_face_ids.at(q), self.nf))), 'the faces of a subcell exist')

    def subcell(self, c, s):
        return c * self.cells_num_subcells.at(c) + s

    def vec(self, a, k):
        return [a.at(3 * k + d) for d in A3]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def gmatrices(v, s, names):
    """the coefficients of a subcell: cell, subcell, subface, subface"""
    out = {}
    for n in ('subc_Gmatrix', 'Temp_subc_Gmatrix', 'Psi_subc_Gmatrix'):
        if n not in names:
            s.ctx.set(n, NULL)
            continue
        a = v.array(n, 'R', 3, nparams=3)
        rows = v.array(n + '_rows', 'P', 3, nparams=2, init=lambda c, q, i, a=a: a.p(c, q, i), readonly=True)
        subs = v.array(n + '_subcells', 'P', lambda c: s.cells_num_subcells.at(c), nparams=1, init=lambda c, q, rows=rows: rows.p(c, q), readonly=True)
        s.ctx.set(n, v.ptr_table(n + '_cells', s.nc, lambda c, subs=subs: subs.p(c)))
        out[n] = a
    return out


TENSOR = {'subc_Gmatrix': 'K0', 'Temp_subc_Gmatrix': 'Kappa0', 'Psi_subc_Gmatrix': 'D_saline'}


def gmatrix(names):
    def unit(newv):
        v = newv()
        v.ex.models['DMGetDimension'] = lambda ex, fr, x, st, a: [(ex.store(st, a[1], I(3), 4, '') or st, I(0))]
        s = Geometry(v)
        D = v.array('D_saline_tensor', 'R', 9 * s.nc, readonly=True)
        s.ctx.set('D_saline', D)
        s.geometry_facts()
        tens = {'K0': s.K0, 'Kappa0': s.Kappa0, 'D_saline': D}
        G = gmatrices(v, s, names)
        v.requires(ieq(s.ctx.get('gmatrix_method'), v_enum(v, 'MPFAO_GMATRIX_DEFAULT')))
        c, q = v.int('c'), v.int('q')
        v.requires(and_(ile(I(0), c), ilt(c, s.nc), ile(I(0), q), ilt(q, s.cells_num_subcells.at(c))))
        b = [v.real('b%d' % d) for d in A3]
        for st, ret in v.call('ComputeGMatrix', s.ctx, v.opaque('dm'), v.opaque('matprop')):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            k = s.subcell(c, q)
            for n in names:
                for i in A3:
                    f = s.subcells_face_ids.at(3 * k + i)
                    nrm = s.vec(s.faces_normal, f)
                    Kn = [sum((nrm[a] * tens[TENSOR[n]].at(9 * c + 3 * a + d) for a in A3), R(0)) for d in A3]
                    for j in A3:
                        want = s.subcells_face_area.at(3 * k + i) * dot(Kn, s.vec(s.subcells_nu_vector, 3 * k + j)) / s.subcells_T.at(k)
                        v.ensure(st, req(v.load(st, G[n].p(c, q, i), 'R', j), want), '%s: coefficient of subface %d for the value on subface %d' % (n, i, j))
    return unit


def length(a):
    return tm.sqrt(dot(a, a))



def adjacent(s, v):
    f = fresh('f', 'I')
    nid = s.nid
    v.requires(forall(f, I(0), s.nf, and_(ile(I(0), s.cell_offset.at(f)), ile(s.cell_offset.at(f) + 2, nid), s.point(s.up(f)), s.point(s.dn(f)),
                                          or_(ile(I(0), s.up(f)), ile(I(0), s.dn(f))))), 'every face has a cell on at least one side')


def two_point(names):
    def unit(newv):
        v = newv()
        v.ex.models['DMGetDimension'] = lambda ex, fr, x, st, a: [(ex.store(st, a[1], I(3), 4, '') or st, I(0))]
        s = Geometry(v)
        D = v.array('D_saline_tensor', 'R', 9 * s.nc, readonly=True)
        s.ctx.set('D_saline', D)
        s.geometry_facts()
        adjacent(s, v)
        tens = {'K0': s.K0, 'Kappa0': s.Kappa0, 'D_saline': D}
        G = gmatrices(v, s, names)
        v.requires(ieq(s.ctx.get('gmatrix_method'), v_enum(v, 'MPFAO_GMATRIX_TPF')))
        c, q = v.int('c'), v.int('q')
        v.requires(and_(ile(I(0), c), ilt(c, s.nc), ile(I(0), q), ilt(q, s.cells_num_subcells.at(c))))
        for st, ret in v.call('ComputeGMatrix', s.ctx, v.opaque('dm'), v.opaque('matprop')):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            k = s.subcell(c, q)
            for i in A3:
                f = s.subcells_face_ids.at(3 * k + i)
                nrm = s.vec(s.faces_normal, f)
                nb = ite(ieq(s.up(f), c), s.dn(f), s.up(f))
                inner = ile(I(0), nb)
                xc = s.vec(s.cells_centroid, c)
                xn = [ite(inner, a, b) for a, b in zip(s.vec(s.cells_centroid, nb), s.vec(s.faces_centroid, f))]
                d = sub(xc, xn)
                l = length(d)
                u = [e / l for e in d]
                perm = lambda p: R(1) / sum((u[e] * u[e] / s.K0.at(9 * p + 4 * e) for e in A3), R(0))
                K = (perm(c) + perm(ite(inner, nb, c))) * R(0.5)
                dist = ite(inner, l * R(0.5), l)
                for j in A3:
                    want = s.subcells_face_area.at(3 * k + i) * dot(nrm, u) * K / dist if i == j else R(0)
                    v.ensure(st, req(v.load(st, G['subc_Gmatrix'].p(c, q, i), 'R', j), want), 'coefficient of subface %d for the value on subface %d' % (i, j))
                    for name in names[1:]:
                        tensor = tens[TENSOR[name]]
                        Kn = [sum((nrm[a] * tensor.at(9 * c + 3 * a + e) for a in A3), R(0)) for e in A3]
                        want = s.subcells_face_area.at(3 * k + i) * dot(Kn, s.vec(s.subcells_nu_star_vector, 3 * k + j)) / s.subcells_T.at(k) if i == j else R(0)
                        v.ensure(st, req(v.load(st, G[name].p(c, q, i), 'R', j), want), 'second unknown: coefficient of subface %d for the value on subface %d' % (i, j))
    return unit


def find_subface(newv):
    v = newv()
    s = Geometry(v)
    c, x, f = v.int('c'), v.int('x'), v.int('f')
    n = s.table('cells.num_vertices', s.nc, 'I')
    off = s.table('cells.vertex_offset', s.nc + 1, 'I')
    v.requires(and_(ile(I(0), c), ilt(c, s.nc), ile(I(0), off.at(c)), ieq(off.at(c + 1), off.at(c) + n.at(c))))
    N = 3 * n.at(c)
    v.requires(and_(ile(I(0), c * N), ile(c * N + N, 3 * s.ns)))
    out = v.array('result', 'I', 1)
    k = v.int('k')
    here = lambda k: and_(ieq(s.subcells_face_ids.at(k), f), ieq(s.subcells_vertex_ids.at(k), x))
    v.requires(and_(ile(c * N, k), ilt(k, c * N + N), here(k)), 'the face is one of those of the cell at the vertex')
    for st, ret in v.call('TDyMeshGetSubcellIDGivenCellIdVertexIdFaceId', s.mesh, c, x, f, out):
        r = out.now(st, 0)
        v.ensure(st, and_(ieq(ret, I(0)), ile(c * N, r), ilt(r, c * N + N)), 'a subface of the cell')
        v.ensure(st, here(r), 'the subface of this face at this vertex')


def direction(s, f):
    """unit vector from the up to the down side of a face, its length, and the distances of both sides to the face"""
    up, dn = s.up(f), s.dn(f)
    xf = s.vec(s.faces_centroid, f)
    side = lambda p: [ite(ile(I(0), p), a, b) for a, b in zip(s.vec(s.cells_centroid, p), xf)]
    d = sub(side(dn), side(up))
    l = length(d)
    return [e / l for e in d], length(sub(side(up), xf)), length(sub(side(dn), xf))


def tensors(s, f):
    """permeability on both sides of a face, that of the cell for a boundary face"""
    up, dn = s.up(f), s.dn(f)
    U, D = ite(ile(I(0), up), up, dn), ite(ile(I(0), dn), dn, up)
    return [[s.K0.at(9 * p + e) for e in range(9)] for p in (U, D)]


def inverse(m):
    c = lambda a, b, d, e: m[a] * m[b] - m[d] * m[e]
    cof = [c(4, 8, 5, 7), c(2, 7, 1, 8), c(1, 5, 2, 4), c(5, 6, 3, 8), c(0, 8, 2, 6), c(2, 3, 0, 5), c(3, 7, 4, 6), c(1, 6, 0, 7), c(0, 4, 1, 3)]
    det = m[0] * cof[0] + m[1] * cof[3] + m[2] * cof[6]
    return [x / det for x in cof]


def face_problem(newv):
    v = newv()
    s = Geometry(v)
    adjacent(s, v)
    f = v.int('f')
    v.requires(and_(ile(I(0), f), ilt(f, s.nf)))
    return v, s, f, v.array('out', 'R', 3)


def tpf_permeability(newv):
    v, s, f, out = face_problem(newv)
    u, du, dd = direction(s, f)
    Ku, Kd = tensors(s, f)
    ku, kd = [R(1) / sum((u[e] * u[e] / K[4 * e] for e in A3), R(0)) for K in (Ku, Kd)]
    w = du / (du + dd)
    for st, ret in v.call('ComputeFacePermeabilityValueTPF', s.ctx, v.opaque('matprop'), I(3), f, out):
        v.ensure(st, ieq(ret, I(0)), 'reports success')
        v.ensure(st, req(out.now(st, 0), ku * kd / (w * kd + (R(1) - w) * ku)), 'harmonic mean of the permeabilities along the connection, by distance')


def up_down(newv):
    v, s, f, out = face_problem(newv)
    u, du, dd = direction(s, f)
    for st, ret in v.call('ComputeUpDownUnitVector', s.ctx, f, out):
        v.ensure(st, ieq(ret, I(0)), 'reports success')
        for d in A3:
            v.ensure(st, req(out.now(st, d), u[d]), 'component %d' % d)


def permeability(newv):
    """the tensor on the face, through the contract of the inverse of a matrix (C06)"""
    v, s, f, out = face_problem(newv)
    _, du, dd = direction(s, f)
    u = [app('direction %d' % d, (f,), 'R') for d in A3]
    v.ex.contracts['ComputeUpDownUnitVector'] = unitvec
    Ku, Kd = tensors(s, f)
    transpose = lambda m: [m[3 * (e % 3) + e // 3] for e in range(9)]
    Ku, Kd = transpose(Ku), transpose(Kd)
    w = du / (du + dd)
    inv = lambda m, e: app('inverse %d' % e, tuple(m), 'R')
    of = lambda name: [v.real('%s_%d' % (name, e)) for e in range(9)]
    iu, id_, K = of('inverse_up'), of('inverse_dn'), of('inverse_of_mean')
    known = [(Ku, iu), (Kd, id_), ([w * a + (R(1) - w) * b for a, b in zip(iu, id_)], K)]

    def inverse(ex, fr, x, st, a):
        """names for the inverses of the matrices that the specification speaks of"""
        wh = ex.where(fr, x)
        m = [ex.load(st, ex.padd(a[0], I(8 * e)), 'R', 8, wh) for e in range(9)]
        pr = Prover()
        out = next((o for t, o in known if all(pr.prove_eq(st.facts(), x, y) for x, y in zip(m, t))), None)
        for e in range(9):
            ex.store(st, ex.padd(a[1], I(8 * e)), out[e] if out else inv(m, e), 8, wh)
        return [(st, I(0))]
    v.ex.contracts['ComputeInverseOf3by3Matrix'] = inverse
    K = [ite(rlt(k, R(0)), R(0), ite(rlt(k, EPS), R(0), k)) for k in K]
    n = s.vec(s.faces_normal, f)
    for st, ret in v.call('ComputeFacePermeabilityValueMPFAO', s.ctx, v.opaque('matprop'), I(3), f, out):
        v.ensure(st, ieq(ret, I(0)), 'reports success')
        v.ensure(st, req(out.now(st, 0), sum((n[a] * K[3 * a + b] * u[b] for a in A3 for b in A3), R(0))), 'harmonic mean of the tensors by distance, along the connection and across the face')


def unitvec(ex, fr, y, st, a):
    """the direction of a face"""
    w = ex.where(fr, y)
    for d in A3:
        ex.store(st, ex.padd(a[2], I(8 * d)), app('direction %d' % d, (a[1],), 'R'), 8, w)
    return [(st, I(0))]


def gravity(method):
    def unit(newv):
        v = newv()
        v.ex.models['DMGetDimension'] = lambda ex, fr, x, st, a: [(ex.store(st, a[1], I(3), 4, '') or st, I(0))]
        s = Geometry(v, writable=('G',))
        adjacent(s, v)
        s.facts(v.int('nloc'))
        v.requires(ieq(s.ctx.get('gmatrix_method'), v_enum(v, method)))
        g = [absr(v.load(v.st, s.ctx.addr('gravity'), 'R', d)) for d in A3]
        x, r, k, c = fresh('x', 'I'), fresh('r', 'I'), v.int('k'), fresh('c', 'I')
        where = lambda k: (app('vertex of subface', (k,), 'I'), app('row of subface', (k,), 'I'))
        f, sb = s.row(x, r)
        v.requires(forall(x, I(0), s.nv, forall(r, I(0), s.nrows(x), and_(ieq(where(4 * f + sb)[0], x), ieq(where(4 * f + sb)[1], r)))), 'no two vertices share a subface')
        v.ex.inverse = [lambda k: where(k)[0], lambda k: where(k)[1]]
        v.requires(forall(x, I(0), s.nv, ieq(s.vertex_face_offset.at(x + 1), s.vertex_face_offset.at(x) + s.nrows(x))))
        piece = lambda c, x, f: app('subface of cell', (c, x, f), 'I')

        def find(ex, fr, y, st, a):
            w = ex.where(fr, y)
            q = piece(a[1], a[2], a[3])
            st.assume(and_(ile(I(0), q), ilt(q, 3 * s.ns)))
            ex.store(st, a[4], q, 4, w)
            return [(st, I(0))]
        v.ex.contracts['TDyMeshGetSubcellIDGivenCellIdVertexIdFaceId'] = find
        perm = lambda f: app('face permeability', (f,), 'R')

        def value(ex, fr, y, st, a):
            ex.store(st, a[4], perm(a[3]), 8, ex.where(fr, y))
            return [(st, I(0))]
        v.ex.contracts['ComputeFacePermeabilityValue' + ('TPF' if 'TPF' in method else 'MPFAO')] = value

        v.ex.contracts['ComputeUpDownUnitVector'] = unitvec
        v.requires(and_(ile(I(0), k), ilt(k, 4 * s.nf)))
        for st, ret in v.call('ComputeGravityDiscretization', s.ctx, v.opaque('dm'), v.opaque('matprop')):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            x, r = where(k)
            f, sb = s.row(x, r)
            up, dn = s.up(f), s.dn(f)
            own = and_(ile(I(0), x), ilt(x, s.nv), ile(I(0), r), ilt(r, s.nrows(x)), ieq(4 * f + sb, k), not_(ieq(s.vertex_is_local.at(x), I(0))), not_(ieq(s.face_is_local.at(f), I(0))),
                       not_(and_(ieq(s.bc, v_enum(v, 'NEUMANN_BC')), or_(ilt(up, I(0)), ilt(dn, I(0))))))
            cell = ite(ilt(up, I(0)), dn, up)
            u = [app('direction %d' % d, (f,), 'R') for d in A3]
            area = s.subcells_face_area.at(piece(cell, x, f))
            if 'TPF' in method:
                area = area * dot(s.vec(s.faces_normal, f), u)
            v.ensure(st, req(s.G.now(st, k), ite(own, area * perm(f) * dot(g, u), s.G.at(k))), 'area, permeability of the face and gravity along the connection; other entries unchanged')
    return unit


class Star:
    """the cells around one vertex: columns around a vertical line, in one or two levels. The numbers of cells, faces,
    subcells and boundary faces, the orientation of faces and the order of the cells are arbitrary but fixed."""

    def __init__(self, ring, closed, levels, seed):
        rnd = random.Random(seed)
        cells = [(r, l) for r in range(ring) for l in range(levels)]
        rnd.shuffle(cells)
        n = len(cells)
        self.cells = cells
        faces = []          # (side, side) with sides a cell or None
        for r in range(ring if closed else ring - 1):
            for l in range(levels):
                faces.append([(r, l), ((r + 1) % ring, l)])
        if not closed:
            for l in range(levels):
                faces.append([(0, l), None])
                faces.append([(ring - 1, l), None])
        for r in range(ring):
            faces.append([(r, 0), (r, 1) if levels == 2 else None])
        rnd.shuffle(faces)
        for f in faces:
            rnd.shuffle(f)
        self.faces = faces
        of = {c: [i for i, f in enumerate(faces) if c in f] for c in cells}
        for c in cells:
            rnd.shuffle(of[c])
            assert len(of[c]) == 3
        self.of = of
        inner = [i for i, f in enumerate(faces) if None not in f]
        rnd.shuffle(inner)
        self.inner = inner
        bnd = [i for c in cells for i in of[c] if None in faces[i]]
        self.bup = [i for i in bnd if faces[i][0] is not None]
        self.bdn = [i for i in bnd if faces[i][0] is None]
        self.bnd = bnd                                       # in the order their values come as columns
        self.unknown = {f: k for k, f in enumerate(inner + bnd)}
        self.flux = {f: k for k, f in enumerate(inner)}
        self.flux.update({f: len(inner) + k for k, f in enumerate(self.bup)})
        self.flux.update({f: len(inner) + k for k, f in enumerate(self.bdn)})
        self.rows = inner + self.bup + self.bdn
        self.cell_id = dict(zip(cells, rnd.sample(range(n + 3), n)))
        self.face_id = dict(zip(range(len(faces)), rnd.sample(range(len(faces) + 3), len(faces))))
        self.bnd_id = dict(zip(bnd, rnd.sample(range(len(bnd) + 2), len(bnd))))
        self.subcell = {c: rnd.randrange(8) for c in cells}
        self.subface = {f: rnd.randrange(4) for f in range(len(faces))}

    def side(self, f, k):
        c = self.faces[f][k]
        return -self.bnd_id[f] - 1 if c is None else self.cell_id[c]


def transmissibility(topology, bc, var, name, tpf=False, connected=False):
    def unit(newv):
        v = newv()
        S = Star(*topology)
        v.bounded = 'for a vertex with %d cells, numbers fixed' % len(S.cells)
        n, nf, nb = len(S.cells) + 3, len(S.faces) + 3, len(S.bnd) + 2
        ctx, m = v.struct('mpfao', 'TDyMPFAO'), v.struct('mesh', 'TDyMesh', readonly=True)
        ctx.set('mesh', m)
        m.set('num_cells', I(n)); m.set('num_faces', I(nf)); m.set('num_vertices', I(2))
        X = 1                       # the vertex; vertex 0 belongs to another process

        def table(field, vals):
            vals = list(vals)
            m.set(field, v.array(field, 'I', len(vals), readonly=True, init=lambda k: lookup(k, vals, 0, len(vals))))
        at = lambda N, d, default: [d.get(i, default) for i in range(N)]
        flat = lambda ls: [x for l in ls for x in l]
        table('vertices.is_local', [0, 1]); table('vertices.id', [0, 1])
        table('vertices.num_internal_cells', [1, len(S.cells)])
        table('vertices.num_boundary_faces', [0, len(S.bnd)])
        table('vertices.num_faces', [2, len(S.rows)])
        table('vertices.internal_cell_offset', [0, 1, 1 + len(S.cells)])
        table('vertices.subcell_offset', [0, 1, 1 + len(S.cells)])
        table('vertices.face_offset', [0, 2, 2 + len(S.rows)])
        table('vertices.internal_cell_ids', [0] + [S.cell_id[c] for c in S.cells])
        table('vertices.subcell_ids', [0] + [S.subcell[c] for c in S.cells])
        table('vertices.face_ids', [0, 1] + [S.face_id[f] for f in S.rows])
        table('vertices.subface_ids', [0, 0] + [S.subface[f] for f in S.rows])
        table('cells.num_subcells', [8] * n)
        table('subcells.num_faces', [3] * (8 * n))
        table('subcells.face_offset', [3 * k for k in range(8 * n + 1)])
        sub = {}
        for c in S.cells:
            k = 8 * S.cell_id[c] + S.subcell[c]
            for j, f in enumerate(S.of[c]):
                sub[3 * k + j] = (S.face_id[f], int(S.faces[f][0] == c), S.unknown[f], S.flux[f])
        for j, t in enumerate(('face_ids', 'is_face_up', 'face_unknown_idx', 'face_flux_idx')):
            table('subcells.' + t, [sub[k][j] if k in sub else 0 for k in range(24 * n)])
        fc, inner = {}, {}
        for f in range(len(S.faces)):
            fc[2 * S.face_id[f]], fc[2 * S.face_id[f] + 1] = S.side(f, 0), S.side(f, 1)
            inner[S.face_id[f]] = int(f in S.inner)
        table('faces.cell_ids', at(2 * nf, fc, -1))
        table('faces.cell_offset', [2 * k for k in range(nf + 1)])
        table('faces.is_internal', at(nf, inner, 1))
        table('faces.vertex_offset', [4 * k for k in range(nf + 1)])
        vert = {4 * S.face_id[f] + S.subface[f]: X for f in range(len(S.faces))}
        table('faces.vertex_ids', [vert.get(k, 2 + k) for k in range(4 * nf)])
        ctx.set('bc_type', I(v.prog.enum(bc)))
        ctx.set('gmatrix_method', I(v.prog.enum('MPFAO_GMATRIX_TPF' if tpf else 'MPFAO_GMATRIX_DEFAULT')))
        region = {}
        if connected:
            rnd = random.Random(7)
            region = {S.cell_id[c]: rnd.randrange(2) for c in S.cells}
            table('region_connected.cell_ids', [region.get(k, k) for k in range(n)])
            m.set('region_connected.num_cells', I(n))
        else:
            m.set('region_connected.num_cells', I(0))
        G = {}
        names = {'subc_Gmatrix': 'Trans', 'Temp_subc_Gmatrix': 'Temp_Trans', 'Psi_subc_Gmatrix': 'Psi_Trans'}
        mats, tables = {}, {}
        for g, t in names.items():
            if g not in ('subc_Gmatrix', var):
                ctx.set(g, NULL)
                continue
            G[g] = a = v.array(g, 'R', 3, nparams=3, readonly=True)
            r = v.array(g + '_rows', 'P', 3, nparams=2, init=lambda c, q, i, a=a: a.p(c, q, i), readonly=True)
            q = v.array(g + '_subcells', 'P', 8, nparams=1, init=lambda c, k, r=r: r.p(c, k), readonly=True)
            ctx.set(g, v.ptr_table(g + '_cells', n, lambda c, q=q: q.p(c)))
            tr = v.array(t, 'R', 2 + len(S.cells) + len(S.bnd), nparams=2)
            rows = v.array(t + '_rows', 'P', max(3, len(S.rows)), nparams=1, init=lambda x, j, tr=tr: tr.p(x, j), readonly=True)
            ctx.set(t, v.ptr_table(t + '_vertices', 2, lambda x, rows=rows: rows.p(x)))
            mats[g], tables[g] = v.mat(t + '_mat', None), tr
            ctx.set(t + '_mat', mats[g].handle)
        ok = lambda ex, fr, x, st, a: [(st, I(0))]
        for f in ('MatAssemblyBegin', 'MatAssemblyEnd'):
            v.ex.models[f] = ok
        v.ex.models['DMGetDimension'] = lambda ex, fr, x, st, a: [(ex.store(st, a[1], I(3), 4, '') or st, I(0))]
        v.ex.models['DMPlexGetDepthStratum'] = lambda ex, fr, x, st, a: [(ex.store(st, a[2], I(0), 4, '') or ex.store(st, a[3], I(nf), 4, '') or st, I(0))]
        solves = []

        def num(ex, st, p, w):
            t = ex.load(st, p, 'I', 4, w)
            if t.op != 'num':
                raise Unsupported('size of a linear system')
            return t.args[0]

        def getrf(ex, fr, x, st, a):
            w = ex.where(fr, x)
            N = num(ex, st, a[0], w)
            ex.oblige('precondition', st, and_(*[ieq(ex.load(st, p, 'I', 4, w), I(N)) for p in (a[1], a[3])]), w + ' square matrix')
            A = [[ex.load(st, ex.padd(a[2], I(8 * (i + N * j))), 'R', 8, w) for j in range(N)] for i in range(N)]
            for k in range(N * N):
                ex.store(st, ex.padd(a[2], I(8 * k)), app('factors %d' % len(solves), (I(k),), 'R'), 8, w)
            for k in range(N):
                ex.store(st, ex.padd(a[4], I(4 * k)), app('pivots %d' % len(solves), (I(k),), 'I'), 4, w)
            ex.store(st, a[5], I(0), 4, w)
            solves.append([A, None, None, a[2]])
            return [(st, NULL)]

        def getrs(ex, fr, x, st, a):
            w = ex.where(fr, x)
            N, R_ = num(ex, st, a[1], w), num(ex, st, a[2], w)
            A, _, _, p = solves[-1]
            fac = and_(*[req(ex.load(st, ex.padd(a[3], I(8 * k)), 'R', 8, w), app('factors %d' % (len(solves) - 1), (I(k),), 'R')) for k in range(N * N)],
                       *[ieq(ex.load(st, ex.padd(a[5], I(4 * k)), 'I', 4, w), app('pivots %d' % (len(solves) - 1), (I(k),), 'I')) for k in range(N)])
            ex.oblige('precondition', st, and_(fac, I_true(len(A) == N), *[ieq(ex.load(st, q, 'I', 4, w), I(N)) for q in (a[4], a[7])]), w + ' factors and sizes')
            B = [[ex.load(st, ex.padd(a[6], I(8 * (i + N * j))), 'R', 8, w) for j in range(R_)] for i in range(N)]
            sol = [[v.real('x%d_%d_%d' % (len(solves), i, j)) for j in range(R_)] for i in range(N)]
            for i in range(N):
                for j in range(R_):
                    ex.store(st, ex.padd(a[6], I(8 * (i + N * j))), sol[i][j], 8, w)
            ex.store(st, a[8], I(0), 4, w)
            solves[-1][1:3] = B, sol
            return [(st, NULL)]

        def gemm(ex, fr, x, st, a):
            w = ex.where(fr, x)
            M, N, Kk = [num(ex, st, a[i], w) for i in (2, 3, 4)]
            lda, ldb, ldc = [num(ex, st, a[i], w) for i in (7, 9, 12)]
            ld = lambda p, i: ex.load(st, ex.padd(p, I(8 * i)), 'R', 8, w)
            al, be = ld(a[5], 0), ld(a[10], 0)
            C = {(i, j): al * sum((ld(a[6], i + lda * k) * ld(a[8], k + ldb * j) for k in range(Kk)), R(0)) + (R(0) if be is R(0) else be * ld(a[11], i + ldc * j)) for i in range(M) for j in range(N)}
            for (i, j), t in C.items():
                ex.store(st, ex.padd(a[11], I(8 * (i + ldc * j))), t, 8, w)
            return [(st, NULL)]
        v.ex.contracts['dgetrf_'], v.ex.contracts['dgetrs_'], v.ex.contracts['dgemm_'] = getrf, getrs, gemm
        v.assumed.append('LAPACK: dgetrf and dgetrs solve the linear system they are given, dgemm multiplies')
        dirichlet = bc != 'NEUMANN_BC'
        ncol = len(S.cells) + (len(S.bnd) if dirichlet else 0)
        for st, ret in v.call('ComputeTransmissibilityMatrix', ctx, v.opaque('dm')):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            order = ['subc_Gmatrix'] + ([var] if var != 'subc_Gmatrix' else [])
            corner = len(S.cells) == 1
            if len(solves) != (0 if corner else len(order)):
                v.ensure(st, FALSE, 'one system of interface values for every unknown')
                continue
            for s_, g in enumerate(order):
                A, B, sol = solves[s_][:3] if not corner else ([], [], [])
                zero = [[sum((A[i][k] * sol[k][j] for k in range(len(A))), R(0)) - B[i][j] for j in range(ncol)] for i in range(len(A))]

                def interface(f, j):
                    """the value on face f for unit value in column j"""
                    k = S.unknown[f]
                    if f in S.inner:
                        return sol[k][j]
                    if dirichlet:
                        return R(1 if j == len(S.cells) + S.bnd.index(f) else 0)
                    return sol[k][j]

                def flux(c, f, j):
                    """flux along the normal of face f, by the gradient in cell c"""
                    i = S.of[c].index(f)
                    pc = R(1 if S.cells.index(c) == j else 0)
                    return -sum((G[g].at(S.cell_id[c], S.subcell[c], i, k) * (interface(h, j) - pc) for k, h in enumerate(S.of[c])), R(0))
                pr = Prover(z3_timeout=200)

                def given(t, j):
                    """t, less the equation of the linear system that it is the left hand side of"""
                    for i in range(len(A)):
                        for sg in (R(1), R(-1)):
                            if syntactic(pr, t, sg * zero[i][j]):
                                return t - sg * zero[i][j]
                    return t
                what = {'subc_Gmatrix': 'pressure', 'Temp_subc_Gmatrix': 'temperature', 'Psi_subc_Gmatrix': 'salt'}[g]
                for f in range(len(S.faces)):
                    row = 4 * S.face_id[f] + S.subface[f]
                    own = [c for c in S.faces[f] if c is not None]
                    between = connected and len({region[S.cell_id[c]] for c in own}) == 2
                    shut = not dirichlet and f not in S.inner
                    for j in range(ncol):
                        col = S.cell_id[S.cells[j]] if j < len(S.cells) else n + S.bnd_id[S.bnd[j - len(S.cells)]]
                        was = mats[g].at(row, col)
                        if between:
                            v.ensure(st, req(mats[g].now(st, row, col), R(0)), '%s: face %d between regions, column %d' % (what, f, j))
                        elif shut:
                            v.ensure(st, req(mats[g].now(st, row, col), was), '%s: closed boundary face %d, column %d' % (what, f, j))
                            if not corner:
                                v.ensure(st, req(given(flux(own[0], f, j), j), R(0)), '%s: no flux through closed face %d, column %d' % (what, f, j))
                        else:
                            now = mats[g].now(st, row, col) - was
                            kept = now if j >= len(S.cells) else v.load(st, tables[g].p(I(X), I(S.rows.index(f))), 'R', I(j))
                            v.ensure(st, req(kept, now), '%s: the table of face %d, column %d, agrees' % (what, f, j))
                            for c in own:
                                v.ensure(st, req(given_eq(pr, now, flux(c, f, j), zero, j), R(0)), '%s: flux through face %d by the gradient in cell %s, column %d' % (what, f, c, j))
                r, c = v.int('row'), v.int('col')
                other = and_(*[not_(and_(ieq(r, I(4 * S.face_id[f] + S.subface[f])), or_(*[ieq(c, I(k)) for k in
                             [S.cell_id[x] for x in S.cells] + ([n + S.bnd_id[b] for b in S.bnd] if dirichlet else [])]))) for f in range(len(S.faces))])
                v.ensure(st, implies(other, req(mats[g].now(st, r, c), mats[g].at(r, c))) if not connected else TRUE, '%s: no other entries' % what)
    return unit


def lookup(k, vals, a, b):
    """the entry of a fixed table, by bisection"""
    if all(x == vals[a] for x in vals[a:b]):
        return I(vals[a])
    d = {x - 3 * i for i, x in enumerate(vals[a:b], a)}
    if len(d) == 1:
        return 3 * k + next(iter(d))
    d = {x - 2 * i for i, x in enumerate(vals[a:b], a)}
    if len(d) == 1:
        return 2 * k + next(iter(d))
    m = (a + b) // 2
    return ite(ilt(k, I(m)), lookup(k, vals, a, m), lookup(k, vals, m, b))


def I_true(b):
    return TRUE if b else FALSE


def syntactic(pr, a, b):
    return bool(pr.prove_eq([], a, b))


def given_eq(pr, a, b, zero, j):
    """a - b, which is zero if both are equal, less an equation of the linear system when it is that equation"""
    d = a - b
    if syntactic(pr, a, b):
        return d
    for i in range(len(zero)):
        for sg in (R(1), R(-1)):
            if syntactic(pr, d, sg * zero[i][j]):
                return d - sg * zero[i][j]
    return d


def units(tier):
    return [('coefficients of a subcell: water', gmatrix(['subc_Gmatrix'])),
            ('coefficients of a subcell: water and heat', gmatrix(['subc_Gmatrix', 'Temp_subc_Gmatrix'])),
            ('coefficients of a subcell: water and salt', gmatrix(['subc_Gmatrix', 'Psi_subc_Gmatrix'])),
            ('two-point coefficients: water', two_point(['subc_Gmatrix'])),
            ('two-point coefficients: water and heat', two_point(['subc_Gmatrix', 'Temp_subc_Gmatrix'])),
            ('two-point coefficients: water and salt', two_point(['subc_Gmatrix', 'Psi_subc_Gmatrix'])),
            ('subface of a face at a vertex', find_subface),
            ('direction of a face', up_down),
            ('permeability of a face', permeability),
            ('permeability of a face, two-point', tpf_permeability),
            ('gravity flux', gravity('MPFAO_GMATRIX_DEFAULT')),
            ('gravity flux, two-point', gravity('MPFAO_GMATRIX_TPF')),
            ] + [('transmissibilities: %s, %s' % (n, what), transmissibility(t, bc, var, n, tpf, con)) for n, t, bc, var, tpf, con, what in STARS]


T, P = 'Temp_subc_Gmatrix', 'Psi_subc_Gmatrix'
STARS = [('1 cell at a corner', (1, False, 1, 1), 'DIRICHLET_BC', T, False, False, 'values given'),
         ('1 cell at a corner', (1, False, 1, 5), 'SEEPAGE_BC', P, False, False, 'seepage'),
         ('1 cell at a corner', (1, False, 1, 6), 'NEUMANN_BC', T, False, False, 'closed'),
         ('2 cells at an edge', (1, False, 2, 2), 'DIRICHLET_BC', T, False, False, 'values given'),
         ('2 cells at an edge', (2, False, 1, 3), 'SEEPAGE_BC', P, False, False, 'seepage'),
         ('2 cells at an edge', (2, False, 1, 4), 'NEUMANN_BC', T, False, False, 'closed'),
         ('2 cells at an edge', (1, False, 2, 7), 'DIRICHLET_BC', P, True, True, 'regions'),
         ('4 cells at a side', (2, False, 2, 8), 'DIRICHLET_BC', P, False, False, 'values given'),
         ('4 cells at a side', (4, True, 1, 9), 'SEEPAGE_BC', T, False, False, 'seepage'),
         ('4 cells at a side', (2, False, 2, 10), 'NEUMANN_BC', P, False, False, 'closed'),
         ('4 cells at a side', (4, True, 1, 11), 'NEUMANN_BC', T, True, True, 'regions'),
         ('6 prisms inside', (3, True, 2, 12), 'DIRICHLET_BC', P, False, False, 'values given'),
         ('8 cells inside', (4, True, 2, 13), 'DIRICHLET_BC', T, False, False, 'values given'),
         ('8 cells inside', (4, True, 2, 14), 'NEUMANN_BC', P, True, True, 'regions')]
