"""Geometry of faces and subcells."""
import itertools
from tdyver.harness import *
from tdyver import petsc
from .C06 import cross, dot, diff

SRCS = ['src/fv/share/tdymeshplex.c', 'src/fv/share/tdymesh.c', 'src/tdyutils.c', 'src/tdymemory.c']
A3 = range(3)


def ok0(f):
    def g(ex, fr, x, st, a):
        st = f(ex, st, a) or st
        return [(st, I(0))]
    return g


class Mesh:
    def __init__(self, v, writable=()):
        self.v, self.w = v, writable
        for n in ('num_cells', 'num_faces', 'num_vertices'):
            setattr(self, n, v.int(n))
            v.requires(ile(I(0), getattr(self, n)))
        self.mesh = v.struct('mesh', 'TDyMesh', readonly='mesh' not in writable)
        for n in ('num_cells', 'num_faces', 'num_vertices'):
            self.mesh.set(n, getattr(self, n))
        self.mesh.set('dim', I(3))
        nc, nf, nv = self.num_cells, self.num_faces, self.num_vertices
        ns = self.ns = v.int('num_subcells_total')
        v.requires(ile(I(0), ns))
        t = self.table
        t('cells.id', nc, 'I', lambda c: c)
        t('cells.num_subcells', nc, 'I')
        t('cells.num_vertices', nc, 'I')
        t('cells.vertex_offset', nc + 1, 'I')
        t('cells.vertex_ids', ns, 'I')
        t('cells.centroid', 3 * nc)
        t('vertices.coordinate', 3 * nv)
        for n in ('centroid', 'normal'):
            t('faces.' + n, 3 * nf)
        t('faces.area', nf)
        t('faces.num_vertices', nf, 'I')
        self.nfv = v.int('num_face_vertex_ids')
        t('faces.vertex_offset', nf + 1, 'I')
        t('faces.vertex_ids', self.nfv, 'I')
        t('faces.cell_offset', nf + 1, 'I', lambda f: 2 * f)
        t('faces.num_cells', nf, 'I', lambda f: I(2))
        t('faces.cell_ids', 2 * nf, 'I')
        for n in ('num_faces', 'num_nu_vectors', 'num_vertices'):
            t('subcells.' + n, ns, 'I', lambda k: I(3))
        for n in ('face_offset', 'nu_vector_offset', 'vertex_offset'):
            t('subcells.' + n, ns + 1, 'I', lambda k: 3 * k)
        for n in ('face_ids', 'vertex_ids'):
            self.block('subcells.' + n, ns, 3, 'I')
        self.block('subcells.face_area', ns, 3)
        self.block('subcells.T', ns, 1)
        for n in ('nu_vector', 'nu_star_vector', 'face_centroid'):
            self.block('subcells.' + n, ns, 9)
        for n in ('num_internal_cells', 'is_local', 'num_faces'):
            t('vertices.' + n, nv, 'I')
        self.nvf = v.int('num_vertex_face_ids')
        t('vertices.face_offset', nv + 1, 'I')
        t('vertices.face_ids', self.nvf, 'I')

    def table(self, field, n, sort='R', init=None):
        a = self.v.array(field.replace('.', '_'), sort, n, readonly=field not in self.w, init=init)
        setattr(self, field.replace('.', '_'), a)
        self.mesh.set(field, a)
        return a

    def block(self, field, n, size, sort='R'):
        """an array of n blocks of the same number of entries"""
        v, z = self.v, SZ[sort]
        a = v.array(field.replace('.', '_'), sort, n, readonly=field not in self.w, stride=z * size)
        a.o.fields = {z * i: ('v%d' % i, sort, z) for i in range(size)}
        a.entry = lambda st, k, i=0: v.ex.read(st or v.entry, a.o, z * i, sort, lift(k, 'I'))
        setattr(self, field.replace('.', '_'), a)
        self.mesh.set(field, a)
        return a

    def vec(self, a, k, st=None):
        return [(a.now(st, 3 * k + d) if st is not None else a.at(3 * k + d)) for d in A3]

    def in_range(self, a, n, lo, hi, doc):
        k = fresh('k', 'I')
        self.v.requires(forall(k, I(0), n, and_(ile(lo, a.at(k)), ilt(a.at(k), hi))), doc)


def opaque(name, n):
    """contract of a function of points with n results: what the results are is a unit of C06"""
    def f(ex, st, a):
        pts, outs = a[:-1], a[-1]
        x = tuple(ex.load(st, ex.padd(p, I(8 * d)), 'R', 8) if p.sort == 'P' else p for p in pts if p.sort == 'P' for d in A3)
        for d in range(n):
            ex.store(st, ex.padd(outs, I(8 * d)), app('%s %d' % (name, d), x, 'R'), 8, name)
    return ok0(f)


GEO = {'TDyUnitNormalToTriangle': ('unit normal of triangle', 3), 'TDyNormalToQuadrilateral': ('normal of quadrilateral', 3), 'TDyNormalToTriangle': ('normal of triangle', 3), 'TDyComputeVolumeOfTetrahedron': ('volume of tetrahedron', 1), 'TDyUnitNormalVectorJoiningTwoVertices': ('direction', 3)}


def geometry_contracts(v):
    for f, (n, k) in GEO.items():
        v.ex.contracts[f] = opaque(n, k)

    def length(ex, st, a):
        x = tuple(ex.load(st, ex.padd(p, I(8 * d)), 'R', 8) for p in a[:2] for d in A3)
        ex.store(st, a[3], app('distance', x, 'R'), 8, 'distance')
    v.ex.contracts['TDyComputeLength'] = ok0(length)


def geo(f, *pts):
    n, k = GEO[f]
    return [app('%s %d' % (n, d), tuple(y for p in pts for y in p), 'R') for d in range(k)]


# ------------------------------------------------------------------ subcells
OUT = ['subcells.' + n for n in ('face_ids', 'vertex_ids', 'face_area', 'T', 'nu_vector', 'nu_star_vector', 'face_centroid')]


def subcells(nsub):
    def unit(newv):
        v = newv()
        ex = v.ex
        m = Mesh(v, OUT)
        m.table('cells.num_subcells', m.num_cells, 'I', lambda c: I(nsub))
        ex.summarised.add(('SetupSubcells', 2))
        m.in_range(m.cells_vertex_ids, m.ns, I(0), m.num_vertices, 'the vertices of a cell exist')
        v.assumed.append('the cells of a face exist, or it is on the boundary')
        # contracts of the searches (units of their own)
        F3, NB = v.array('faces of a cell at a vertex', 'I', None, nparams=2), v.array('neighbours of a vertex in a face', 'I', None, nparams=2)
        faces3 = lambda c, x: [F3.at(c, x, I(i)) for i in A3]
        nbr = lambda f, x: [NB.at(f, x, I(i)) for i in (0, 1)]

        def face(st, f):
            st.assume(and_(ile(I(0), f), ilt(f, m.num_faces), ile(I(1), m.faces_num_vertices.at(f)), ieq(m.faces_vertex_offset.at(f + 1), m.faces_vertex_offset.at(f) + m.faces_num_vertices.at(f)),
                           *[ilt(m.faces_cell_ids.at(2 * f + j), m.num_cells) for j in (0, 1)]))

        def find3(ex, st, a):
            for i, g in enumerate(faces3(a[0], a[3])):
                face(st, g)
                ex.store(st, ex.padd(a[4], I(4 * i)), g, 4, 'faces of the cell at the vertex')
            ex.store(st, a[5], I(3), 4, '')
        ex.contracts['FindFaceIDsOfACellCommonToAVertex'] = ok0(find3)

        def nbrs(ex, st, a):
            for i, g in enumerate(nbr(a[1], a[2])):
                st.assume(and_(ile(I(0), g), ilt(g, m.num_vertices)))
                ex.store(st, ex.padd(a[3], I(4 * i)), g, 4, 'neighbours')
        ex.contracts['FindNeighboringVerticesOfAFace'] = ok0(nbrs)
        geometry_contracts(v)
        # the order of the three faces (unit of its own)
        G = v.array('ordered faces of a cell at a vertex', 'I', None, nparams=2)
        ordered = lambda c, x: [G.at(c, x, I(i)) for i in A3]

        def order(ex, st, a):
            c = idiv(a[0].args[-1], I(24))
            for i, g in enumerate(ordered(c, a[3])):
                face(st, g)
                ex.store(st, ex.padd(a[5], I(4 * i)), g, 4, 'ordered faces')
        ex.contracts['UpdateFaceOrientationAroundAVertex'] = ok0(order)

        def stratum(ex, st, a):
            ex.store(st, a[2], I(0), 4, '')
            ex.store(st, a[3], m.num_cells, 4, '')
        ex.models['DMPlexGetHeightStratum'] = ok0(stratum)
        one = fresh('maxcells', 'I')
        ex.contracts['TDyMaxNumberOfCellsSharingAVertex'] = lambda ex, fr, x, st, a: [(st, sym('max cells at a vertex', 'I'))]
        for n in ('TDyAllocate_IntegerArray_2D', 'TDyDeallocate_IntegerArray_2D', 'FindCellsAboveAndBelowVertices', 'DetermineUpwindFacesForSubcell_PlanarVerticalFaces'):
            ex.contracts[n] = ok0(lambda ex, st, a: None)
        v.assumed.append('the numbering of unknowns around a vertex leaves the geometry of subcells alone')
        c, q = fresh('c', 'I'), fresh('q', 'I')
        num = lambda c, q: nsub * c + q
        v.requires(ile(nsub * m.num_cells, m.ns))
        v.requires(forall(c, I(0), m.num_cells, and_(ile(I(0), m.cells_vertex_offset.at(c)), ile(m.cells_vertex_offset.at(c) + nsub, m.ns))), 'a cell has a vertex for each of its subcells')
        ex.inverse = [lambda k: fdiv_i(k, I(nsub)), lambda k: k - nsub * fdiv_i(k, I(nsub))]
        c, q = v.int('c'), v.int('q')
        v.requires(and_(ile(I(0), c), ilt(c, m.num_cells), ile(I(0), q), ilt(q, m.cells_num_subcells.at(c))))
        for st, ret in v.call('SetupSubcells', v.opaque('dm'), m.mesh):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            k = num(c, q)
            x = m.cells_vertex_ids.at(m.cells_vertex_offset.at(c) + q)
            F = [m.subcells_face_ids.entry(st, k, i) for i in A3]
            C = m.vec(m.cells_centroid, c)
            X = m.vec(m.vertices_coordinate, x)
            P = lambda f: m.vec(m.faces_centroid, f)
            for i in A3:
                v.ensure(st, ieq(F[i], ordered(c, x)[i]), 'face %d of the cell at the vertex' % i)
            F = ordered(c, x)
            v.ensure(st, req(m.subcells_T.entry(st, k), R(6) * geo('TDyComputeVolumeOfTetrahedron', C, *[P(f) for f in F])[0]), 'volume factor')
            for i in A3:
                v.ensure(st, ieq(m.subcells_vertex_ids.entry(st, k, i), x), 'vertex of subface %d' % i)
                v.ensure(st, req(m.subcells_face_area.entry(st, k, i), rdiv(m.faces_area.at(F[i]), i2r(m.faces_vertex_offset.at(F[i] + 1) - m.faces_vertex_offset.at(F[i])))), 'area of subface %d' % i)
                w = geo('TDyNormalToTriangle', C, P(F[(i + 1) % 3]), P(F[(i + 2) % 3]))
                for d in A3:
                    v.ensure(st, req(m.subcells_nu_vector.entry(st, k, 3 * i + d), w[d]), 'vector %d of the gradient' % i)
                    v.ensure(st, req(m.subcells_face_centroid.entry(st, k, 3 * i + d) * R(4),
                                     X[d] + P(F[i])[d] + sum(((X[d] + m.vec(m.vertices_coordinate, y)[d]) * R(0.5) for y in nbr(F[i], x)), R(0))), 'centre of subface %d' % i)
    return unit


# ------------------------------------------------------------------ parts of it
def find3(n, places):
    """bounded: the search counts as it goes"""
    def unit(newv):
        v = newv()
        v.bounded = 'vertices with at most 6 faces'
        m = Mesh(v)
        m.table('vertices.num_faces', m.num_vertices, 'I', lambda x: I(n))
        x, c = v.int('vertex'), v.int('cell')
        v.requires(and_(ile(I(0), x), ilt(x, m.num_vertices), ile(I(0), c), ile(I(0), m.vertices_face_offset.at(x)), ile(m.vertices_face_offset.at(x) + n, m.nvf)))
        at = [m.vertices_face_ids.at(m.vertices_face_offset.at(x) + j) for j in range(n)]
        for j, g in enumerate(at):
            v.requires(and_(ile(I(0), g), ilt(g, m.num_faces)))
            k = [m.faces_cell_ids.at(2 * g + i) for i in (0, 1)]
            v.requires(or_(ieq(k[0], c), ieq(k[1], c)) if j in places else and_(not_(ieq(k[0], c)), not_(ieq(k[1], c))))
        v.assumed.append('three faces of a cell meet at each of its vertices')
        out, num = v.array('found', 'I', 3), v.array('number', 'I', 1)
        for st, ret in v.call('FindFaceIDsOfACellCommonToAVertex', c, m.mesh.addr('faces'), m.mesh.addr('vertices'), x, out, num, expect=None):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            v.ensure(st, ieq(num.now(st, 0), I(3)), 'three faces')
            for i, j in enumerate(places):
                v.ensure(st, ieq(out.now(st, i), at[j]), 'the face of the cell at place %d' % j)
    return unit


def find_all(n):
    def unit(newv):
        for p in itertools.combinations(range(n), 3):
            find3(n, p)(newv)
    return unit


def neighbours(n):
    def unit(newv):
        v = newv()
        m = Mesh(v)
        f, x, j = v.int('face'), v.int('vertex'), v.int('place')
        v.requires(and_(ile(I(0), f), ilt(f, m.num_faces), ieq(m.faces_num_vertices.at(f), I(n)), ile(I(0), m.faces_vertex_offset.at(f)), ile(m.faces_vertex_offset.at(f) + n, m.nfv)))
        at = [m.faces_vertex_ids.at(m.faces_vertex_offset.at(f) + i) for i in range(n)]
        for i in range(n):
            for k in range(i):
                v.requires(not_(ieq(at[i], at[k])))
        v.assumed.append('the vertices of a face differ')
        out = v.array('neighbours', 'I', 2)
        for i in range(n):
            for st, ret in v.call('FindNeighboringVerticesOfAFace', m.mesh.addr('faces'), f, at[i], out, expect=None):
                v.ensure(st, ieq(ret, I(0)), 'reports success')
                v.ensure(st, ieq(out.now(st, 0), at[(i + 1) % n]), 'next vertex of the face after vertex %d' % i)
                v.ensure(st, ieq(out.now(st, 1), at[(i - 1) % n]), 'vertex of the face before vertex %d' % i)
    return unit


def order(newv):
    v = newv()
    m = Mesh(v)
    c, x = v.int('cell'), v.int('vertex')
    v.requires(and_(ile(I(0), x), ilt(x, m.num_vertices), ile(I(0), c), ilt(c, m.num_cells)))
    f = v.array('faces', 'I', 3)
    f0 = [f.at(i) for i in A3]
    for g in f0:
        v.requires(and_(ile(I(0), g), ilt(g, m.num_faces)))
    C, X = m.vec(m.cells_centroid, c), m.vec(m.vertices_coordinate, x)
    P = lambda g: m.vec(m.faces_centroid, g)
    side = lambda F: dot(cross(diff(P(F[1]), P(F[0])), diff(P(F[2]), P(F[0]))), diff(C, X))
    for st, ret in v.call('UpdateFaceOrientationAroundAVertex', m.cells_centroid.p(off=I(24) * c), m.mesh.addr('faces'), m.mesh.addr('vertices'), x, I(3), f, expect=None):
        v.ensure(st, ieq(ret, I(0)), 'reports success')
        F = [f.now(st, i) for i in A3]
        v.ensure(st, or_(and_(*[ieq(F[i], f0[i]) for i in A3]), and_(ieq(F[0], f0[0]), ieq(F[1], f0[2]), ieq(F[2], f0[1]))), 'the same three faces')
        s = side(f0)
        v.ensure(st, and_(implies(rlt(s, R(0)), ieq(F[1], f0[2])), implies(rlt(R(0), s), ieq(F[1], f0[1]))), 'the plane of their centres faces the centre of the cell')


def gradient(newv):
    v = newv()
    C = v.array('centre', 'R', 3, readonly=True)
    P = [v.array('p%d' % i, 'R', 3, readonly=True) for i in A3]
    el = lambda a: [a.at(I(d)) for d in A3]
    D = [diff(el(p), el(C)) for p in P]
    det = dot(cross(D[0], D[1]), D[2])
    N = []
    for i in A3:
        n = v.array('n%d' % i, 'R', 3)
        for st, ret in v.call('TDyNormalToTriangle', C, P[(i + 1) % 3], P[(i + 2) % 3], n):
            N.append([n.now(st, I(d)) for d in A3])
    V = v.array('volume', 'R', 1)
    for st, ret in v.call('TDyComputeVolumeOfTetrahedron', C, *P, V):
        b = [v.real('b%d' % d) for d in A3]
        for d in A3:
            s = sum((N[i][d] * dot(D[i], b) for i in A3), R(0))
            v.ensure(st, req(s, det * b[d]), 'the vectors applied to the differences of a linear function give its gradient, component %d' % d)
        T = V.now(st, I(0)) * R(6)
        v.ensure(st, and_(rle(R(0), T), req(T * T, det * det)), 'their factor is the volume')


# ------------------------------------------------------------------ faces
def orientation(n):
    def unit(newv):
        v = newv()
        ex = v.ex
        m = Mesh(v, ('faces.vertex_ids', 'faces.cell_ids', 'faces.normal'))
        nf = m.num_faces
        m.block('faces.vertex_ids', nf, n, 'I')
        m.block('faces.cell_ids', nf, 2, 'I')
        m.table('faces.vertex_offset', nf + 1, 'I', lambda f: n * f)
        m.table('faces.num_vertices', nf, 'I', lambda f: I(n))
        m.table('faces.centroid', 3 * nf)
        m.block('faces.normal', nf, 3)
        f = fresh('f', 'I')
        W = lambda f, i: m.faces_vertex_ids.entry(None, f, i)
        v.requires(forall(f, I(0), nf, and_(*[and_(ile(I(0), W(f, i)), ilt(W(f, i), m.num_vertices)) for i in range(n)])), 'the vertices of a face exist')
        cells = lambda f, st=None: [m.faces_cell_ids.entry(st, f, i) for i in (0, 1)]
        v.requires(forall(f, I(0), nf, and_(ile(I(0), cells(f)[0]), ilt(cells(f)[0], m.num_cells), ilt(cells(f)[1], m.num_cells))), 'the first cell of a face exists')
        geometry_contracts(v)
        f = v.int('face')
        v.requires(and_(ile(I(0), f), ilt(f, nf)))
        X = lambda y: m.vec(m.vertices_coordinate, y)
        for st, ret in v.call('UpdateCellOrientationAroundAFace', v.opaque('dm'), m.mesh):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            w = [W(f, i) for i in range(n)]
            c0, c1 = cells(f)
            if n == 4:
                u = [geo('TDyUnitNormalToTriangle', *[X(y) for y in t]) for t in (w[:3], w[1:])]
                swap = rlt(dot(*u), R(0))
                w = [w[0], w[1], ite(swap, w[3], w[2]), ite(swap, w[2], w[3])]
                N = [ite(swap, p, q) for p, q in zip(*[geo('TDyNormalToQuadrilateral', *[X(y) for y in z]) for z in ([W(f, 0), W(f, 1), W(f, 3), W(f, 2)], [W(f, i) for i in range(4)])])]
            else:
                N = geo('TDyUnitNormalToTriangle', *[X(y) for y in w])
            toward = dot(N, diff(m.vec(m.cells_centroid, c0), m.vec(m.faces_centroid, f)))
            back = and_(ilt(c1, I(0)), rle(toward, R(0)))
            first, second = cells(f, st)
            v.ensure(st, or_(and_(ieq(first, c0), ieq(second, c1)), and_(ieq(first, c1), ieq(second, c0))), 'the same two cells')
            v.ensure(st, implies(ilt(c1, I(0)), ilt(first, I(0))), 'the missing cell of a boundary face is the first')
            v.ensure(st, implies(and_(ile(I(0), c1), rlt(R(0), toward)), ieq(second, c0)), 'the normal points to the second cell')
            v.ensure(st, implies(and_(ile(I(0), c1), rlt(toward, R(0))), ieq(first, c0)), 'the normal points away from the first cell')
            M = [m.faces_normal.entry(st, f, d) for d in A3]
            for d in A3:
                v.ensure(st, req(M[d], ite(back, -N[d], N[d])), 'normal, component %d' % d)
            v.ensure(st, implies(ilt(c1, I(0)), rle(R(0), dot(M, diff(m.vec(m.cells_centroid, c0), m.vec(m.faces_centroid, f))))), 'the normal of a boundary face points inwards')
            for i in range(n):
                v.ensure(st, ieq(m.faces_vertex_ids.entry(st, f, i), ite(back, w[n - 1 - i], w[i])), 'vertex %d of the face, around its normal' % i)
    return unit


def attributes(boundary, n):
    def unit(newv):
        v = newv()
        ex = v.ex
        out = ('dist_wt_up', 'projected_area', 'dist_up_dn', 'unit_vec_up_dn')
        m = Mesh(v, ['faces.' + o for o in out])
        nf = m.num_faces
        for o in out[:2]:
            m.table('faces.' + o, nf)
        rows = {}
        for o, z in zip(out[2:], (2, 3)):
            a = rows[o] = v.array(o, 'R', lambda k, z=z: I(z), nparams=1)
            t = v.ptr_table(o + ' rows', nf, lambda k, a=a: a.p(k))
            m.mesh.set('faces.' + o, t)
        f = fresh('f', 'I')
        VO, VI, CI = m.faces_vertex_offset, m.faces_vertex_ids, m.faces_cell_ids
        v.requires(forall(f, I(0), nf, and_(ile(I(0), VO.at(f)), or_(ieq(VO.at(f + 1), VO.at(f) + 3), ieq(VO.at(f + 1), VO.at(f) + 4)), ile(VO.at(f + 1), m.nfv),
                                            ilt(CI.at(2 * f), m.num_cells), ile(I(0), CI.at(2 * f + 1)), ilt(CI.at(2 * f + 1), m.num_cells))),
                   'a face has three or four vertices; its second cell exists')
        m.in_range(VI, m.nfv, I(0), m.num_vertices, 'the vertices of a face exist')
        geometry_contracts(v)

        def plane(ex, st, a):
            x = tuple(ex.load(st, ex.padd(p, I(8 * d)), 'R', 8) for p in a[:3] for d in A3)
            for d in range(4):
                ex.store(st, ex.padd(a[3], I(8 * d)), app('plane %d' % d, x, 'R'), 8, 'plane')
        ex.contracts['ComputePlaneGeometry'] = ok0(plane)

        def meets(name, npts):
            def f(ex, st, a):
                x = tuple(ex.load(st, ex.padd(a[0], I(8 * d)), 'R', 8) for d in range(4)) + tuple(ex.load(st, ex.padd(p, I(8 * d)), 'R', 8) for p in a[1:1 + npts] for d in A3)
                for d in A3:
                    ex.store(st, ex.padd(a[1 + npts], I(8 * d)), app('%s %d' % (name, d), x, 'R'), 8, name)
            return ok0(f)
        ex.contracts['GeometryGetPlaneIntercept'] = meets('intercept', 2)
        ex.contracts['GeometryProjectPointOnPlane'] = meets('projection', 1)
        f = v.int('face')
        v.requires(and_(ile(I(0), f), ilt(f, nf)))
        up, dn = CI.at(2 * f), CI.at(2 * f + 1)
        v.requires(ilt(up, I(0)) if boundary else ile(I(0), up))
        v.requires(ieq(VO.at(f + 1), VO.at(f) + n))
        X = [m.vec(m.vertices_coordinate, VI.at(VO.at(f) + i)) for i in range(n)]
        A, B_ = m.vec(m.cells_centroid, up), m.vec(m.cells_centroid, dn)
        planes = [tuple(app('plane %d' % d, tuple(x for p in X[j:j + 3] for x in p), 'R') for d in range(4)) for j in range(n - 2)]
        for st, ret in v.call('ComputeGeoAttrOfFaces', m.mesh):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            d0, d1 = [rows['dist_up_dn'].now(st, f, I(i)) for i in (0, 1)]
            U = [rows['unit_vec_up_dn'].now(st, f, I(d)) for d in A3]
            if boundary:
                Z = [app('projection %d' % d, planes[0] + tuple(B_), 'R') for d in A3]
                v.ensure(st, req(d0, R(0)), 'distance to the boundary')
                L = diff(B_, Z)
                D = d1
            else:
                Z = [[app('intercept %d' % d, p + tuple(A) + tuple(B_), 'R') for d in A3] for p in planes]
                Z = Z[0] if n == 3 else [rdiv(p + q, R(2)) for p, q in zip(*Z)]
                a = diff(Z, A)
                v.ensure(st, and_(rle(R(0), d0), req(d0 * d0, dot(a, a))), 'distance from the first centre')
                L = diff(B_, A)
                D = None
            b = diff(B_, Z)
            v.ensure(st, and_(rle(R(0), d1), req(d1 * d1, dot(b, b))), 'distance to the second centre')
            v.requires(rlt(R(0), dot(L, L)))
            nz = rlt(R(0), dot(L, L))
            v.ensure(st, implies(nz, req(dot(U, U), R(1))), 'the direction has length one')
            for x in cross(U, L):
                v.ensure(st, implies(nz, req(x, R(0))), 'the direction is along the line')
            v.ensure(st, implies(nz, rlt(R(0), dot(U, L))), 'the direction is from the first to the second')
            v.ensure(st, req(m.faces_dist_wt_up.now(st, f), rdiv(d0, d0 + d1)), 'weight of the first cell')
            v.ensure(st, req(m.faces_projected_area.now(st, f), m.faces_area.at(f) * dot(U, m.vec(m.faces_normal, f))), 'projected area')
    return unit


def assign(newv):
    v = newv()
    ex = v.ex
    m = Mesh(v)
    ne = v.int('num_edges')
    v.requires(ile(I(0), ne))
    m.w = ('cells.volume', 'cells.centroid', 'vertices.coordinate', 'edges.centroid', 'edges.normal', 'faces.centroid', 'faces.area')
    m.table('cells.volume', m.num_cells)
    m.table('faces.area', m.num_faces)
    for n, z in (('cells.centroid', m.num_cells), ('vertices.coordinate', m.num_vertices), ('edges.centroid', ne), ('edges.normal', ne), ('faces.centroid', m.num_faces)):
        m.block(n, z, 3)
    start = {k: v.int(k + ' start') for k in ('cell', 'vertex', 'edge', 'face')}
    num = {'cell': m.num_cells, 'vertex': m.num_vertices, 'edge': ne, 'face': m.num_faces}
    for k in start:
        v.requires(ile(I(0), start[k]))
    ks = sorted(start)
    for i in range(4):
        for j in range(i):
            a, b = ks[i], ks[j]
            v.requires(or_(ile(start[a] + num[a], start[b]), ile(start[b] + num[b], start[a])))
    v.assumed.append('the points of a mesh are its cells, faces, edges and vertices, each numbered in one range')
    end = v.int('end')
    for k in ks:
        v.requires(ile(start[k] + num[k], end))

    def two(ex, st, a, lo, hi):
        ex.store(st, a[-2], lo, 4, '')
        ex.store(st, a[-1], hi, 4, '')
    ex.models['DMPlexGetChart'] = ok0(lambda ex, st, a: two(ex, st, a, I(0), end))
    ex.models['DMPlexGetHeightStratum'] = ok0(lambda ex, st, a: two(ex, st, a, start['cell'], start['cell'] + num['cell']))

    def depth(ex, st, a):
        k = {0: 'vertex', 1: 'edge', 2: 'face'}[a[1].args[0]]
        two(ex, st, a, start[k], start[k] + num[k])
    ex.models['DMPlexGetDepthStratum'] = ok0(depth)
    vol, xyz, nor = v.array('volumes', 'R', end, readonly=True), v.array('centres', 'R', 3 * end, readonly=True), v.array('normals', 'R', 3 * end, readonly=True)
    idx = {k: v.int(k) for k in ks}
    for k in ks:
        v.requires(implies(ilt(I(0), num[k]), and_(ile(I(0), idx[k]), ilt(idx[k], num[k]))))
    for st, ret in v.call('AssignGeometry', v.opaque('dm'), vol, xyz, nor, m.mesh):
        v.ensure(st, ieq(ret, I(0)), 'reports success')
        for k, f in (('cell', 'cells_centroid'), ('vertex', 'vertices_coordinate'), ('edge', 'edges_centroid'), ('face', 'faces_centroid')):
            for d in A3:
                v.ensure(st, implies(ilt(I(0), num[k]), req(getattr(m, f).entry(st, idx[k], d), xyz.at(3 * (start[k] + idx[k]) + d))), 'position of a ' + k)
        some = lambda k: ilt(I(0), num[k])
        v.ensure(st, implies(some('cell'), req(m.cells_volume.now(st, idx['cell']), vol.at(start['cell'] + idx['cell']))), 'volume of a cell')
        v.ensure(st, implies(some('face'), req(m.faces_area.now(st, idx['face']), vol.at(start['face'] + idx['face']))), 'area of a face')
        for d in A3:
            v.ensure(st, implies(some('edge'), req(m.edges_normal.entry(st, idx['edge'], d), nor.at(3 * (start['edge'] + idx['edge']) + d))), 'direction of an edge')


# ------------------------------------------------------------------ what a caller reads
def accessors(newv):
    v = newv()
    m = Mesh(v)
    v.requires(ilt(I(0), m.ns))
    sub, fac, ver, cel = [m.mesh.addr(n) for n in ('subcells', 'faces', 'vertices', 'cells')]
    k, i = v.int('subcell'), v.int('place')
    v.requires(and_(ile(I(0), k), ilt(k, m.ns), ile(I(0), i), ilt(i, I(3))))
    out = v.array('out', 'R', 3)
    for fn, f in (('TDySubCell_GetIthNuVector', 'subcells_nu_vector'), ('TDySubCell_GetIthNuStarVector', 'subcells_nu_star_vector'), ('TDySubCell_GetIthFaceCentroid', 'subcells_face_centroid')):
        a = getattr(m, f)
        for st, ret in v.call(fn, sub, k, i, I(3), out, expect=None):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            for d in A3:
                for j in A3:
                    v.ensure(st, implies(ieq(i, I(j)), req(out.now(st, d), a.entry(None, k, 3 * j + d))), '%s, component %d' % (f, d))
    g = v.int('face')
    for st, ret in v.call('TDySubCell_GetFaceIndexForAFace', sub, k, g, v.array('index', 'I', 1), errors_ok=True, expect=None):
        r = v.ex.objs['index']
        w = v.ex.read(st, r, 0, 'I', I(0))
        F = [m.subcells_face_ids.entry(None, k, j) for j in A3]
        v.ensure(st, or_(*[and_(ieq(w, I(j)), ieq(F[j], g)) for j in A3]), 'the place of the face in the subcell')
    v.ex.errors = []
    x = v.int('x')
    for fn, base, f, n in (('TDyFace_GetCentroid', fac, m.faces_centroid, m.num_faces), ('TDyFace_GetNormal', fac, m.faces_normal, m.num_faces),
                           ('TDyVertex_GetCoordinate', ver, m.vertices_coordinate, m.num_vertices), ('TDyCell_GetCentroid2', cel, m.cells_centroid, m.num_cells)):
        st0 = v.st
        v.st = st0.copy()
        v.requires(and_(ile(I(0), x), ilt(x, n)))
        for st, ret in v.call(fn, base, x, I(3), out):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            for d in A3:
                v.ensure(st, req(out.now(st, d), f.at(3 * x + d)), '%s, component %d' % (fn, d))
        v.st = st0


# ------------------------------------------------------------------ storage
VERTS, EDGES, FACES = (4, 5, 6, 8), (6, 8, 9, 12), (4, 5, 5, 6)


def stored(v, st, t, total, k, offsets, blocks, singles, counts):
    """lists of element k: from offset[k] to offset[k + 1], inside blocks of sufficient size"""
    ex = v.ex
    inside = and_(ile(I(0), k), ilt(k, total))
    for off, n in offsets:
        p = t.get(off, st)
        s1 = st.copy()
        s1.assume(and_(ile(I(0), k), ile(k, total)))
        v.ensure(s1, ieq(ex.load(s1, ex.padd(p, mul(I(4), k)), 'I', 4, off), mul(I(n), k)), '%s: start of the list of an element, end of the last' % off)
    for blk, n, sort, size in blocks + [(b, 1, srt, z) for b, srt, z in singles]:
        s1 = st.copy()
        j = v.int('entry')
        s1.assume(inside)
        s1.assume(and_(ile(I(0), j), ilt(j, I(n))))
        p = t.get(blk, s1)
        ex.load(s1, ex.padd(p, mul(I(size), add(mul(I(n), k), j))), sort, min(size, 8), 'room for an entry of %s:' % blk)
    for f, n in counts:
        s1 = st.copy()
        s1.assume(inside)
        v.ensure(s1, ieq(ex.load(s1, ex.padd(t.get(f, st), mul(I(4), k)), 'I', 4, f), k if n is None else I(n)), 'initial %s' % f)


def storage(kind, ct):
    def unit(newv):
        v = newv()
        n, k = v.int('n'), v.int('k')
        v.requires(ile(I(0), n))
        nv, ne, nf = VERTS[ct], EDGES[ct], FACES[ct]
        D = ('R', 8)
        if kind == 'cells':
            t = v.struct('storage', 'TDyCell')
            for st, ret in v.call('AllocateCells', n, I(ct), t):
                v.ensure(st, ieq(ret, I(0)), 'reports success')
                stored(v, st, t, n, k, [('vertex_offset', nv), ('edge_offset', ne), ('face_offset', nf), ('neighbor_offset', nf)],
                       [('vertex_ids', nv, 'I', 4), ('edge_ids', ne, 'I', 4), ('face_ids', nf, 'I', 4), ('neighbor_ids', nf, 'I', 4)],
                       [('volume',) + D, ('centroid', 'R', 24), ('natural_id', 'I', 4), ('global_id', 'I', 4), ('is_local', 'I', 4)],
                       [('id', None), ('num_vertices', nv), ('num_edges', ne), ('num_faces', nf), ('num_neighbors', nf), ('num_subcells', nv)])
        elif kind == 'subcells':
            t = v.struct('storage', 'TDySubcell')
            for st, ret in v.call('AllocateSubcells', n, I(nv), I(0), t):
                v.ensure(st, ieq(ret, I(0)), 'reports success')
                stored(v, st, t, mul(I(nv), n), k, [('nu_vector_offset', 3), ('face_offset', 3), ('vertex_offset', 8)],
                       [('nu_vector', 3, 'R', 24), ('nu_star_vector', 3, 'R', 24), ('face_centroid', 3, 'R', 24), ('variable_continuity_coordinates', 3, 'R', 24),
                        ('face_ids', 3, 'I', 4), ('is_face_up', 3, 'I', 4), ('face_unknown_idx', 3, 'I', 4), ('face_flux_idx', 3, 'I', 4), ('face_area', 3) + D, ('vertex_ids', 3, 'I', 4)],
                       [('T',) + D, ('type', 'I', 4)], [('id', None), ('num_nu_vectors', 3), ('num_faces', 3), ('num_vertices', 8)])
        elif kind == 'vertices':
            t = v.struct('storage', 'TDyVertex')
            c, f, e = v.int('cells per vertex'), v.int('faces per vertex'), v.int('edges per vertex')
            c, f, e = 8, 12, 6
            for st, ret in v.call('AllocateVertices', n, I(c), I(f), I(e), I(ct), t):
                v.ensure(st, ieq(ret, I(0)), 'reports success')
                stored(v, st, t, n, k, [('edge_offset', e), ('face_offset', f), ('internal_cell_offset', c), ('subcell_offset', f), ('boundary_face_offset', f)],
                       [('edge_ids', e, 'I', 4), ('face_ids', f, 'I', 4), ('subface_ids', f, 'I', 4), ('internal_cell_ids', c, 'I', 4), ('subcell_ids', f, 'I', 4), ('boundary_face_ids', f, 'I', 4)],
                       [('coordinate', 'R', 24), ('is_local', 'I', 4), ('global_id', 'I', 4)],
                       [('id', None), ('is_local', 0), ('num_internal_cells', 0), ('num_edges', 0), ('num_faces', 0), ('num_boundary_faces', 0)])
        elif kind == 'edges':
            t = v.struct('storage', 'TDyEdge')
            for st, ret in v.call('AllocateEdges', n, I(ct), t):
                v.ensure(st, ieq(ret, I(0)), 'reports success')
                m = (3, 4, 4, 4)[ct]
                stored(v, st, t, n, k, [('cell_offset', m)], [('cell_ids', m, 'I', 4), ('vertex_ids', 2, 'I', 4)],
                       [('length',) + D, ('centroid', 'R', 24), ('normal', 'R', 24), ('is_internal', 'I', 4), ('global_id', 'I', 4)], [('id', None), ('is_local', 0)])
        else:
            t = v.struct('storage', 'TDyFace')
            for st, ret in v.call('AllocateFaces', n, I(ct), t):
                v.ensure(st, ieq(ret, I(0)), 'reports success')
                m = (3, 4, 4, 4)[ct]
                stored(v, st, t, n, k, [('cell_offset', 2), ('edge_offset', m), ('vertex_offset', m)],
                       [('cell_ids', 2, 'I', 4), ('edge_ids', m, 'I', 4), ('vertex_ids', m, 'I', 4)],
                       [('area',) + D, ('projected_area',) + D, ('dist',) + D, ('dist_wt_up',) + D, ('centroid', 'R', 24), ('normal', 'R', 24)],
                       [('id', None), ('is_local', 0), ('is_internal', 0), ('num_vertices', 0), ('num_cells', 0), ('num_edges', m)])
                for f, w in (('dist_up_dn', 2), ('unit_vec_up_dn', 3)):
                    s1 = st.copy()
                    s1.assume(and_(ile(I(0), k), ilt(k, n)))
                    row = v.ex.load(s1, v.ex.padd(t.get(f, s1), mul(I(8), k)), 'P', 8, f)
                    for d in range(w):
                        v.ex.load(s1, v.ex.padd(row, I(8 * d)), 'R', 8, 'room for component %d of %s:' % (d, f))
    return unit


def units(tier):
    return ([('geometry of the points', assign), ('what is read of a geometry', accessors), *[('subcells of a cell with %d vertices' % n, subcells(n)) for n in (4, 6, 8)], ('gradient of a linear function', gradient), ('order of the faces of a subcell', order)]
            + [('faces of a cell at a vertex, %d faces' % n, find_all(n)) for n in (3, 4, 5, 6)]
            + [('neighbours in a face of %d vertices' % n, neighbours(n)) for n in (3, 4)]
            + [('orientation of faces of %d vertices' % n, orientation(n)) for n in (3, 4)]
            + [('attributes of a%s face of %d vertices' % (' boundary' if b else 'n inner', n), attributes(b, n)) for b in (False, True) for n in (3, 4)]
            + [('storage of %s, cells of %d vertices' % (k, VERTS[c]), storage(k, c)) for k in ('cells', 'subcells', 'vertices', 'edges', 'faces') for c in (2, 3)])
