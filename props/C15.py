"""Finite elements: the mixed multi-point elements (WY) and the BDM elements."""
from tdyver.harness import *
from tdyver import petsc

SRCS = ['src/fe/tdyfe.c', 'src/fe/tdywy.c', 'src/fe/tdybdm.c', 'src/tdyutils.c', 'src/tdymemory.c', 'src/tdycore.c']


def ok0(f):
    def g(ex, fr, x, st, a):
        st = f(ex, st, a) or st
        return [(st, I(0))]
    return g


def put(ex, st, p, i, t, sort='R', w=''):
    ex.store(st, ex.padd(p, mul(I(SZ[sort]), lift(i, 'I'))), t, SZ[sort], w)


def get(ex, st, p, i, sort='R', w='argument'):
    return ex.load(st, ex.padd(p, mul(I(SZ[sort]), lift(i, 'I'))), sort, SZ[sort], w)


def num(ex, st, p, w=''):
    t = ex.load(st, p, 'I', 4, w)
    if t.op != 'num':
        raise Unsupported('symbolic size for ' + w)
    return t.args[0]


def side(q, d):
    return 1 if (q >> d) & 1 else -1


def corners(dim):
    return range(2 ** dim)


# ------------------------------------------------------------------ LAPACK and BLAS
def lapack(v):
    """the factors of a matrix solve its systems and give its inverse; products"""
    facts = []

    def getrf(ex, fr, x, st, a):
        w = ex.where(fr, x)
        n = num(ex, st, a[0], w)
        ex.oblige('precondition', st, and_(*[ieq(ex.load(st, q, 'I', 4, w), I(n)) for q in (a[1], a[3])]), w + ' sizes')
        A = [[get(ex, st, a[2], i + n * j) for j in range(n)] for i in range(n)]
        for k in range(n * n):
            put(ex, st, a[2], k, app('factors %d' % len(facts), (I(k),), 'R'))
        for k in range(n):
            put(ex, st, a[4], k, app('pivots %d' % len(facts), (I(k),), 'I'), 'I')
        ex.store(st, a[5], I(0), 4, w)
        facts.append(A)
        return [(st, NULL)]

    def factors(ex, st, p, piv, n, w):
        t = get(ex, st, p, 0)
        if t.op != 'app' or not str(t.args[0]).startswith('factors '):
            raise Unsupported('factors of a matrix')
        k = int(str(t.args[0]).split()[1])
        ex.oblige('precondition', st, and_(I_true(len(facts[k]) == n), *[req(get(ex, st, p, i), app('factors %d' % k, (I(i),), 'R')) for i in range(n * n)],
                                           *[ieq(get(ex, st, piv, i, 'I'), app('pivots %d' % k, (I(i),), 'I')) for i in range(n)]), w + ' factors')
        return facts[k]

    def getrs(ex, fr, x, st, a):
        w = ex.where(fr, x)
        n, m = num(ex, st, a[1], w), num(ex, st, a[2], w)
        A = factors(ex, st, a[3], a[5], n, w)
        ex.oblige('precondition', st, and_(*[ieq(ex.load(st, q, 'I', 4, w), I(n)) for q in (a[4], a[7])]), w + ' sizes')
        B = [[get(ex, st, a[6], i + n * j) for j in range(m)] for i in range(n)]
        X = [[fresh('x%d_%d' % (i, j), 'R') for j in range(m)] for i in range(n)]
        for i in range(n):
            for j in range(m):
                put(ex, st, a[6], i + n * j, X[i][j])
        ex.store(st, a[8], I(0), 4, w)
        v.solved.append((A, B, X))
        return [(st, NULL)]

    def getri(ex, fr, x, st, a):
        w = ex.where(fr, x)
        n = num(ex, st, a[0], w)
        A = factors(ex, st, a[1], a[3], n, w)
        ex.oblige('precondition', st, and_(ieq(ex.load(st, a[2], 'I', 4, w), I(n)), ile(I(n), ex.load(st, a[5], 'I', 4, w))), w + ' sizes')
        X = [[fresh('inv%d_%d' % (i, j), 'R') for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(n):
                put(ex, st, a[1], i + n * j, X[i][j])
        for i in range(n):
            put(ex, st, a[4], i, fresh('work', 'R'))
        ex.store(st, a[6], I(0), 4, w)
        v.inverted.append((A, X))
        return [(st, NULL)]

    def gemm(ex, fr, x, st, a):
        w = ex.where(fr, x)
        M, N, K_ = [num(ex, st, a[i], w) for i in (2, 3, 4)]
        lda, ldb, ldc = [num(ex, st, a[i], w) for i in (7, 9, 12)]
        ta, tb = [ex.load(st, a[i], 'I', 1, w) for i in (0, 1)]
        if ta.op != 'num' or tb.op != 'num':
            raise Unsupported('gemm operation')
        ta, tb = [t.args[0] in (ord('T'), ord('t')) for t in (ta, tb)]
        al, be = get(ex, st, a[5], 0), get(ex, st, a[10], 0)
        fa = lambda i, k: get(ex, st, a[6], k + lda * i if ta else i + lda * k)
        fb = lambda k, j: get(ex, st, a[8], j + ldb * k if tb else k + ldb * j)
        C = {(i, j): al * sum((fa(i, k) * fb(k, j) for k in range(K_)), R(0)) + (R(0) if be is R(0) else be * get(ex, st, a[11], i + ldc * j)) for i in range(M) for j in range(N)}
        for (i, j), t in C.items():
            put(ex, st, a[11], i + ldc * j, t)
        return [(st, NULL)]
    v.solved, v.inverted = [], []
    v.ex.contracts.update({'dgetrf_': getrf, 'dgetrs_': getrs, 'dgetri_': getri, 'dgemm_': gemm})
    v.assumed.append('LAPACK and BLAS: dgetrf with dgetrs solves the system, with dgetri it inverts the matrix, dgemm multiplies')


def I_true(b):
    return TRUE if b else FALSE


def delta(i, j):
    return R(1 if i == j else 0)


def inverse_of(v, st, entry, T, n, text):
    """entry(i, j) is the inverse of T: the matrix inverted was T and the result is its inverse"""
    if len(v.inverted) != 1:
        v.ensure(st, FALSE, text)
        return
    A, X = v.inverted[0]
    for i in range(n):
        for j in range(n):
            v.ensure(st, req(A[i][j], T[i][j]), text + ': the matrix')
            v.ensure(st, req(entry(i, j), X[i][j]), text + ': its inverse')


def pullback(dim):
    def unit(newv):
        v = newv()
        lapack(v)
        K, D, J, out = v.array('K', 'R', dim * dim, readonly=True), v.array('DFinv', 'R', dim * dim, readonly=True), v.real('J'), v.array('Kappa', 'R', dim * dim)
        for st, ret in v.call('Pullback', K, D, out, J, I(dim)):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            T = [[J * sum((D.at(dim * i + a) * K.at(dim * a + b) * D.at(dim * j + b) for a in range(dim) for b in range(dim)), R(0)) for j in range(dim)] for i in range(dim)]
            inverse_of(v, st, lambda i, j: out.now(st, i + dim * j), T, dim, 'permeability on the reference cell')
    return unit


def inverse(dim):
    def unit(newv):
        v = newv()
        lapack(v)
        K = v.array('K', 'R', dim * dim)
        for st, ret in v.call('Inverse', K, I(dim)):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            inverse_of(v, st, lambda i, j: K.now(st, i + dim * j), [[K.at(i + dim * j) for j in range(dim)] for i in range(dim)], dim, 'inverse')
    return unit


def stencil(q, r):
    """the values on the faces around a vertex eliminated"""
    def unit(newv):
        v = newv()
        v.bounded = '%d faces and %d cells around a vertex' % (q, r)
        lapack(v)
        A, B, C, G, D = v.array('A', 'R', q * q), v.array('B', 'R', q * r, readonly=True), v.array('C', 'R', r * r), v.array('G', 'R', q), v.array('D', 'R', r)
        for st, ret in v.call('FormStencil', A, B, C, G, D, I(q), I(r)):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            for M, b, X in v.solved:
                for i in range(q):
                    for j in range(q):
                        v.ensure(st, req(M[i][j], A.at(i + q * j)), 'the system of the vertex')
            # the columns of B and G in the order of the solves
            sol = {}
            for M, b, X in v.solved:
                for j in range(len(X[0])):
                    col = [b[i][j] for i in range(q)]
                    for k in range(r):
                        if all(col[i] is B.at(i + q * k) for i in range(q)):
                            sol[k] = [X[i][j] for i in range(q)]
                    if all(col[i] is G.at(i) for i in range(q)):
                        sol['g'] = [X[i][j] for i in range(q)]
            for k in list(range(r)) + ['g']:
                if k not in sol:
                    v.ensure(st, FALSE, 'system solved for the pressure of every cell and on the boundary')
                    return
            for i in range(r):
                for j in range(r):
                    v.ensure(st, req(C.now(st, i + r * j), sum((B.at(k + q * i) * sol[j][k] for k in range(q)), R(0))), 'flux out of a cell by pressure')
                v.ensure(st, req(D.now(st, i), sum((B.at(k + q * i) * sol['g'][k] for k in range(q)), R(0))), 'flux out of a cell by pressure on the boundary')
    return unit


def recover(q):
    def unit(newv):
        v = newv()
        v.bounded = '%d faces around a vertex' % q
        lapack(v)
        A, F = v.array('A', 'R', q * q), v.array('F', 'R', q)
        for st, ret in v.call('RecoverVelocity', A, F, I(q)):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            if len(v.solved) != 1:
                v.ensure(st, FALSE, 'one system')
                return
            M, b, X = v.solved[0]
            for i in range(q):
                for j in range(q):
                    v.ensure(st, req(M[i][j], A.at(i + q * j)), 'the system of the vertex')
                v.ensure(st, req(b[i][0], F.at(i)), 'its right hand side')
                v.ensure(st, req(F.now(st, i), X[i][0]), 'its solution')
    return unit


# ------------------------------------------------------------------ elements of WY
def tdy_of(v, cname, **sizes):
    c = v.struct('element data', cname)
    tdy = v.struct('tdy', '_p_TDy', readonly=True)
    tdy.set('context', c)
    cond = v.opaque('conditions')
    tdy.set('conditions', cond)
    dm = v.opaque('dm')
    v.ex.contracts['TDyGetDM'] = ok0(lambda ex, st, a: ex.store(st, a[1], dm, 8, ''))
    return tdy, c, dm


def dm_contracts(v, dim, cells, faces=None, vertices=None):
    ex = v.ex
    ex.contracts['DMGetDimension'] = ok0(lambda ex, st, a: ex.store(st, a[1], I(dim), 4, ''))

    def height(ex, st, a):
        h = a[1].args[0]
        lo, hi = {0: cells, 1: faces}[h]
        for p, t in ((a[2], lo), (a[3], hi)):
            if p is not NULL:
                ex.store(st, p, t, 4, '')

    def depth(ex, st, a):
        lo, hi = {0: vertices}[a[1].args[0]]
        for p, t in ((a[2], lo), (a[3], hi)):
            if p is not NULL:
                ex.store(st, p, t, 4, '')
    ex.contracts['DMPlexGetHeightStratum'] = ex.models['DMPlexGetHeightStratum'] = ok0(height)
    ex.contracts['DMPlexGetDepthStratum'] = ex.models['DMPlexGetDepthStratum'] = ok0(depth)


def condition_contracts(v):
    """forcing and boundary pressure: functions of the place"""
    forced, fixed = v.int('has forcing'), v.int('has boundary pressure')
    v.ex.contracts['ConditionsHasForcing'] = lambda ex, fr, x, st, a: [(st, forced)]
    v.ex.contracts['ConditionsHasBoundaryPressure'] = lambda ex, fr, x, st, a: [(st, fixed)]
    for t in (forced, fixed):
        v.requires(and_(ile(I(0), t), ile(t, I(1))))

    def at(name):
        def f(ex, st, a):
            if a[1].op != 'num' or a[1].args[0] != 1:
                raise Unsupported('several points at once')
            xs = tuple(get(ex, st, a[2], i) for i in range(v.dim))
            put(ex, st, a[3], 0, app(name, xs, 'R'))
        return ok0(f)
    v.ex.contracts['ConditionsComputeForcing'] = at('forcing')
    v.ex.contracts['ConditionsComputeBoundaryPressure'] = at('boundary pressure')
    return forced, fixed


def geometry_fem(v, dim, nq):
    """the map of the reference cell at the points of the quadrature"""
    g = {n: v.array(n, 'R', None, nparams=1) for n in ('points', 'DF', 'DFinv', 'J')}

    def f(ex, st, a):
        c = a[1]
        for p, n, k in ((a[3], 'points', dim), (a[4], 'DF', dim * dim), (a[5], 'DFinv', dim * dim), (a[6], 'J', 1)):
            for i in range(nq * k):
                put(ex, st, p, i, g[n].at(c, I(i)))
    v.ex.contracts['DMPlexComputeCellGeometryFEM'] = ok0(f)
    v.assumed.append('DMPlexComputeCellGeometryFEM gives the map of a cell, its inverse and its determinant at the points of the quadrature')
    return g


def local_elements(dim):
    nq, d2 = 2 ** dim, dim * dim

    def unit(newv):
        v = newv()
        v.dim = dim
        ex = v.ex
        tdy, wy, dm = tdy_of(v, 'TDyWY')
        n = v.int('num_cells')
        v.requires(ile(I(0), n))
        dm_contracts(v, dim, (I(0), n))
        forced, _ = condition_contracts(v)
        g = geometry_fem(v, dim, nq)
        wy.set('ncv', I(nq))
        K = v.array('permeability', 'R', n, stride=8 * d2, readonly=True)
        K.o.fields = {8 * i: ('k%d' % i, 'R', 8) for i in range(d2)}
        A = v.array('Alocal', 'R', n, stride=8 * nq * d2)
        A.o.fields = {8 * i: ('a%d' % i, 'R', 8) for i in range(nq * d2)}
        F = v.array('Flocal', 'R', n)
        wy.set('K', K)
        wy.set('Alocal', A)
        wy.set('Flocal', F)
        kq = lambda Ks, Ds, J, i: app('Kinv %d' % i, tuple(Ks) + tuple(Ds) + (J,), 'R')

        def pull(ex, st, a):
            Ks, Ds = [get(ex, st, a[0], i) for i in range(d2)], [get(ex, st, a[1], i) for i in range(d2)]
            for i in range(d2):
                put(ex, st, a[2], i, kq(Ks, Ds, a[3], i))
        ex.contracts['Pullback'] = ok0(pull)
        c = v.int('c')
        v.requires(and_(ile(I(0), c), ilt(c, n)))
        e = fresh('c', 'I')
        v.requires(forall(e, I(0), n, and_(*[rle(R(0), g['J'].at(e, I(q))) for q in range(nq)])), 'no cell is turned inside out')
        for st, ret in v.call('TDyWYLocalElementCompute', tdy):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            Ks = [ex.read(v.entry, K.o, 8 * i, 'R', c) for i in range(d2)]
            for q in range(nq):
                Ds = [g['DFinv'].at(c, I(d2 * q + i)) for i in range(d2)]
                for i in range(dim):
                    for j in range(dim):
                        want = kq(Ks, Ds, g['J'].at(c, I(q)), i + dim * j) * R(side(q, i) * side(q, j))
                        v.ensure(st, req(ex.read(st, A.o, 8 * (q * d2 + i * dim + j), 'R', c) * R(4 ** (dim - 1)), want), 'inverse of the permeability between two faces at corner %d' % q)
            f = sum((app('forcing', tuple(g['points'].at(c, I(dim * q + i)) for i in range(dim)), 'R') * g['J'].at(c, I(q)) for q in range(nq)), R(0))
            v.ensure(st, req(F.now(st, c), ite(ieq(forced, I(0)), R(0), f)), 'what is added in a cell')
    return unit


# ------------------------------------------------------------------ elements of BDM
def basis(dim):
    """the functions of a cell, one for every corner and direction (of the face there)"""
    fn = {2: 'HdivBasisQuad', 3: 'HdivBasisHex'}[dim]
    n = dim * 2 ** dim

    def unit(newv):
        v = newv()
        st0 = v.st
        reference = v.array('identity', 'R', dim * dim, readonly=True, init=lambda k: ite(or_(*[ieq(k, I(i * (dim + 1))) for i in range(dim)]), R(1), R(0)))
        count = [0]

        def at(xs, DF=reference, J=R(1)):
            """the values at a point"""
            count[0] += 1
            v.st = st0.copy()
            X, B = v.array('x %d' % count[0], 'R', dim, readonly=True, init=lambda k: sel(xs, k)), v.array('B %d' % count[0], 'R', n * dim)
            outs = v.call(fn, X, B, DF, J)
            st, _ = outs[0]
            return st, [[B.now(st, dim * k + e) for e in range(dim)] for k in range(n)]

        def sel(xs, k):
            t = xs[-1]
            for i in range(len(xs) - 1):
                t = ite(ieq(k, I(i)), xs[i], t)
            return t
        x = [v.real('x%d' % i) for i in range(dim)]
        own = lambda k: (k // dim, k % dim)
        # at the corners: outward through the face of the direction at the corner, nothing elsewhere
        for q in corners(dim):
            st, b = at([R(side(q, e)) for e in range(dim)])
            for k in range(n):
                for e in range(dim):
                    v.ensure(st, req(b[k][e], R(side(q, e) if own(k) == (q, e) else 0)), 'flow of a function through a face at a corner')
        # through other faces nothing flows anywhere
        for e in range(dim):
            for s in (-1, 1):
                st, b = at([R(s) if i == e else x[i] for i in range(dim)])
                for k in range(n):
                    if not (own(k)[1] == e and side(own(k)[0], e) == s):
                        v.ensure(st, req(b[k][e], R(0)), 'flow of a function through another face')
        # the divergence is constant (difference quotients are exact for these degrees)
        h = v.real('h')
        D = [R(0)] * n
        for e in range(dim):
            for s in (-1, 1):
                st, b = at([x[i] + (R(s) * h if i == e else R(0)) for i in range(dim)])
                D = [D[k] + R(s) * b[k][e] for k in range(n)]
        for k in range(n):
            v.ensure(st, req(D[k], R(2) * h * R(1) * R(0.5 ** dim)), 'divergence of a function')
        # on a cell: the transform that keeps flows through faces
        DF, J = v.array('DF', 'R', dim * dim, readonly=True), v.real('J')
        st0.assume(not_(req(J, R(0))))
        _, b = at(x)
        st, B = at(x, DF, J)
        for k in range(n):
            for i in range(dim):
                v.ensure(st, req(B[k][i] * J, sum((DF.at(dim * i + j) * b[k][j] for j in range(dim)), R(0))), 'function on a cell')
    return unit


# ------------------------------------------------------------------ state and residual of WY
def state(newv):
    v = newv()
    ex = v.ex
    wy = v.struct('wy', 'TDyWY')
    n = v.int('num_cells')
    v.requires(ile(I(0), n))
    cc = v.struct('curves', 'CharacteristicCurves', readonly=True)
    a = {}
    for d in (2, 3):
        pass
    U = v.array('U', 'R', n)
    for k in ('S', 'dS_dP', 'd2S_dP2', 'Kr', 'dKr_dS', 'Sr', 'porosity'):
        a[k] = v.array(k, 'R', n, readonly=k in ('Sr', 'porosity'))
        wy.set(k, a[k])
    sat, kr = v.opaque('saturation'), v.opaque('rel_perm')
    cc.set('saturation', sat)
    cc.set('rel_perm', kr)

    def saturation(ex, st, x):
        for out, name in ((x[3], 'S'), (x[4], 'dS'), (x[5], 'd2S')):
            read = [petsc.block_reader(ex, st, p, n, 'R', 'curve') for p in (x[1], x[2])]
            petsc.store_range(ex, st, out, n, 'R', lambda i, name=name: app(name, (i, read[0](i), read[1](i)), 'R'), 'curve')

    def relperm(ex, st, x):
        read = petsc.block_reader(ex, st, x[1], n, 'R', 'curve')
        for out, name in ((x[2], 'Kr'), (x[3], 'dKr')):
            petsc.store_range(ex, st, out, n, 'R', lambda i, name=name: app(name, (i, read(i)), 'R'), 'curve')
    ex.contracts['SaturationCompute'], ex.contracts['RelativePermeabilityCompute'] = ok0(saturation), ok0(relperm)
    c = v.int('c')
    v.requires(and_(ile(I(0), c), ilt(c, n)))
    base = v.st
    for dim in (2, 3):
        v.st = base.copy()
        d2 = dim * dim
        K, K0 = v.array('K%dD' % dim, 'R', n * d2), v.array('K0%dD' % dim, 'R', n * d2, readonly=True)
        wy.set('K', K)
        wy.set('K0', K0)
        wy.set('dim', I(dim))
        for st, ret in v.call('TDyUpdateState_WY', wy, v.opaque('dm'), v.opaque('eos'), v.opaque('matprop'), cc, n, U):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            Sr, Pc = a['Sr'].at(c), wy.get('Pref') - U.at(c)
            st.assume(not_(req(Sr, R(1))))
            S = app('S', (c, Sr, Pc), 'R')
            Se = rdiv(S - Sr, R(1) - Sr)
            for name, want in (('S', S), ('dS_dP', app('dS', (c, Sr, Pc), 'R')), ('d2S_dP2', app('d2S', (c, Sr, Pc), 'R')), ('Kr', app('Kr', (c, Se), 'R')), ('dKr_dS', rdiv(app('dKr', (c, Se), 'R'), R(1) - Sr))):
                v.ensure(st, req(a[name].now(st, c), want), name)
            for j in range(d2):
                v.ensure(st, req(K.now(st, d2 * c + j), K0.at(d2 * c + j) * app('Kr', (c, Se), 'R')), 'permeability of a cell')


# ------------------------------------------------------------------ the system of a vertex
def ring(n, dim=2):
    """n cells around a vertex of the plane"""
    return [((k, 0), (k, (k + 1) % n)) for k in range(n)]


def around(name):
    """cells around a vertex: the faces of each"""
    if name in ('corner', 'side'):
        return {'corner': [[0, 1]], 'side': [[0, 1], [1, 2]]}[name]
    if name.startswith('ring'):
        n = int(name[4:])
        return [[k, (k + 1) % n] for k in range(n)]
    octants = [(x, y, z) for x in (0, 1) for y in (0, 1) for z in (0, 1)][:{'corner3': 1, 'edge3': 2, 'wall3': 4, 'inner3': 8}[name]]
    ids, cells = {}, []
    for o in octants:
        # the face between an octant and its neighbour in a direction
        cells.append([ids.setdefault((d,) + tuple(o[e] for e in range(3) if e != d), len(ids)) for d in range(3)])
    return cells


def constants(t):
    def init(k):
        if k.op == 'num':
            return I(t[k.args[0]])
        r = I(0)
        for i, x in t.items():
            r = ite(ieq(k, I(i)), I(x), r)
        return r
    return init


def label_contract(value):
    """values of the label of the boundary"""
    def named(ex, fr, x, st, a):
        name = ''
        while True:
            ch = ex.load(st, ex.padd(a[1], I(len(name))), 'I', 1, 'label')
            if ch.op != 'num' or ch.args[0] == 0:
                break
            name += chr(ch.args[0])
        ex.oblige('precondition', st, I_true(name == 'boundary'), 'the label of the boundary of every mesh')
        ex.store(st, a[3], value(a[2]), 4, '')
        return [(st, I(0))]
    return named


class Vertex:
    """a vertex, the cells around it and their faces; the values on them are arbitrary"""

    def __init__(self, v, name, seed):
        import random
        rng = random.Random(seed)
        self.v, ex = v, v.ex
        fs = around(name)
        self.dim = dim = v.dim = len(fs[0])
        self.nc, self.nf = len(fs), 1 + max(f for c in fs for f in c)
        nq = self.nq = 2 ** dim
        d2 = dim * dim
        self.cell0, self.vert, self.face0 = 0, 100, 200
        self.faces, self.sign, self.q = [], {}, []
        seen = {}
        for c, f in enumerate(fs):
            f = list(f)
            rng.shuffle(f)
            self.faces.append(f)
            self.q.append(rng.randrange(nq))
            for g in f:
                self.sign[c, g] = -self.sign[seen[g], g] if g in seen else rng.choice((-1, 1))
                seen.setdefault(g, c)
        self.cells_of = {g: [c for c in range(self.nc) if g in self.faces[c]] for g in range(self.nf)}
        order = [(self.vert, 0)] + [(self.face0 + g, 0) for g in rng.sample(range(self.nf), self.nf)] + [(c, 0) for c in rng.sample(range(self.nc), self.nc)]
        if dim == 3:
            order[1:1] = [(300 + k, 0) for k in range(3)]
        self.order = order
        self.rows = [p - self.face0 for p, _ in order if 200 <= p < 300]
        self.cols = [p for p, _ in order if p < 100]
        tdy, wy, dm = tdy_of(v, 'TDyWY')
        self.tdy, self.wy = tdy, wy
        n = self.nc
        dm_contracts(v, dim, (I(0), I(n)), (I(self.face0), I(self.face0 + self.nf)), (I(self.vert), I(self.vert + 1)))
        self.forced, self.fixed = condition_contracts(v)
        wy.set('ncv', I(nq))
        wy.set('nfv', I(2 ** (dim - 1)))
        self.A = v.array('Alocal', 'R', n * nq * d2, readonly=True)
        self.F = v.array('Flocal', 'R', n, readonly=True)
        self.V = v.array('V', 'R', 400, readonly=True)
        self.X = v.array('X', 'R', 400 * dim, readonly=True)
        wy.set('Alocal', self.A)
        wy.set('Flocal', self.F)
        wy.set('V', self.V)
        wy.set('X', self.X)
        vm, em = {}, {}
        for c in range(n):
            for q in range(nq):
                vm[c * nq + q] = self.vert if q == self.q[c] else 100 - 1 - q - 8 * c + 300
                for d in range(dim):
                    g = self.faces[c][d]
                    em[(c * nq + q) * dim + d] = self.sign[c, g] * (self.face0 + g) if q == self.q[c] else 399
        wy.set('vmap', v.array('vmap', 'I', n * nq, readonly=True, init=constants(vm)))
        wy.set('emap', v.array('emap', 'I', n * nq * dim, readonly=True, init=constants(em)))
        clo = v.array('closure', 'I', 2 * len(order), readonly=True, init=constants({2 * i + j: t for i, x in enumerate(order) for j, t in enumerate(x)}))

        def closure(ex, st, a):
            ex.oblige('precondition', st, and_(ieq(a[1], I(self.vert)), ieq(a[2], I(0))), 'what is around a vertex')
            ex.store(st, a[3], I(len(order)), 4, '')
            ex.store(st, a[4], clo.ptr, 8, '')
        ex.contracts['DMPlexGetTransitiveClosure'] = ok0(closure)
        ex.contracts['DMPlexRestoreTransitiveClosure'] = ok0(lambda ex, st, a: None)
        self.label = {g: v.int('label of face %d' % g) if len(self.cells_of[g]) == 1 else I(-1) for g in range(self.nf)}
        ex.contracts['DMGetLabelValue'] = label_contract(lambda f: self.label[f.args[0] - self.face0])
        ex.contracts['TDyWYLocalElementCompute'] = ok0(lambda ex, st, a: None)
        self.glob = {c: 10 + 3 * c for c in range(n)}
        if n > 1:
            k = rng.randrange(n)
            self.glob[k] = -self.glob[k] - 1

        def point(ex, st, a):
            ex.store(st, a[2], I(self.glob[a[1].args[0]]), 4, '')
            ex.store(st, a[3], I(self.glob[a[1].args[0]] + 1), 4, '')
        ex.contracts['DMPlexGetPointGlobal'] = ok0(point)
        ex.contracts['DMPlexGetPointLocal'] = ok0(lambda ex, st, a: (ex.store(st, a[2], a[1], 4, ''), ex.store(st, a[3], a[1] + I(1), 4, ''))[2:] or None)
        v.assumed.append('the elements around a vertex: unit of its own; the mesh gives the points around a vertex')

    def w(self):
        return R(0.5 ** (self.dim - 1))

    def matrix(self, g, h):
        """entry of the system of the vertex for two faces"""
        t = R(0)
        for c in range(self.nc):
            if g in self.faces[c] and h in self.faces[c]:
                i, j = self.faces[c].index(g), self.faces[c].index(h)
                t = t + self.A.at((c * self.nq + self.q[c]) * self.dim * self.dim + i * self.dim + j) * R(self.sign[c, g] * self.sign[c, h]) * self.V.at(self.face0 + g) * self.V.at(self.face0 + h)
        return t

    def flow(self, g, c):
        """what leaves a cell through a face for unit velocity"""
        return self.w() * R(self.sign[c, g]) * self.V.at(self.face0 + g) if g in self.faces[c] else R(0)

    def boundary(self, g):
        if len(self.cells_of[g]) > 1:
            return R(0)
        c, f = self.cells_of[g][0], self.face0 + g
        p = app('boundary pressure', tuple(self.X.at(f * self.dim + d) for d in range(self.dim)), 'R')
        return ite(and_(ieq(self.label[g], I(1)), not_(ieq(self.fixed, I(0)))), self.flow(g, c) * p, R(0))


SHAPES = ['corner', 'side', 'ring3', 'ring4', 'ring5', 'corner3', 'edge3', 'wall3', 'inner3']


def system(name, seed):
    def unit(newv):
        v = newv()
        ex = v.ex
        s = Vertex(v, name, seed)
        v.bounded = 'one vertex with %d cells and %d faces around it' % (s.nc, s.nf)
        nf, nc = s.nf, s.nc
        C = v.array('C', 'R', nc * nc, readonly=True)
        D = v.array('D', 'R', nc, readonly=True)
        calls = []

        def form(ex, st, a):
            calls.append(1)
            ex.oblige('precondition', st, and_(ieq(a[5], I(nf)), ieq(a[6], I(nc))), 'size of the system of the vertex')
            for i, g in enumerate(s.rows):
                for j, h in enumerate(s.rows):
                    ex.oblige('post', st, req(get(ex, st, a[0], i + nf * j), s.matrix(g, h)), 'inverse permeability between the velocities on two faces')
                for j, c in enumerate(s.cols):
                    ex.oblige('post', st, req(get(ex, st, a[1], i + nf * j), s.flow(g, c)), 'flow out of a cell through a face')
                ex.oblige('post', st, req(get(ex, st, a[3], i), s.boundary(g)), 'pressure on a face of the boundary')
            for i in range(nc * nc):
                put(ex, st, a[2], i, C.at(i))
            for i in range(nc):
                put(ex, st, a[4], i, D.at(i))
        ex.contracts['FormStencil'] = ok0(form)
        K = v.array('K', 'R', 50 * 50, init=lambda k: R(0))
        F = v.array('F', 'R', 50, init=lambda k: R(0))
        mh, vh = v.opaque('Mat'), v.opaque('Vec')

        def mset(ex, st, a):
            for i in range(a[1].args[0]):
                for j in range(a[3].args[0]):
                    r, c = get(ex, st, a[2], i, 'I'), get(ex, st, a[4], j, 'I')
                    if r.args[0] < 0 or c.args[0] < 0:
                        continue
                    k = 50 * r.args[0] + c.args[0]
                    put(ex, st, K.ptr, k, get(ex, st, K.ptr, k) + get(ex, st, a[5], i * a[3].args[0] + j))

        def vset(ex, st, a):
            for i in range(a[1].args[0]):
                r = get(ex, st, a[2], i, 'I')
                if r.args[0] >= 0:
                    put(ex, st, F.ptr, r.args[0], get(ex, st, F.ptr, r.args[0]) + get(ex, st, a[3], i))
        ex.contracts['MatSetValues'], ex.contracts['VecSetValues'] = ok0(mset), ok0(vset)
        for n in ('VecAssemblyBegin', 'VecAssemblyEnd', 'MatAssemblyBegin', 'MatAssemblyEnd'):
            ex.contracts[n] = ok0(lambda ex, st, a: None)
        for st, ret in v.call('TDyWYComputeSystem', s.tdy, mh, vh, expect=None):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            v.ensure(st, I_true(bool(calls)), 'the system of the vertex is solved')
            absC = [ite(rlt(C.at(i), R(0)), -C.at(i), C.at(i)) for i in range(nc * nc)]
            most = R(0)
            for x in absC:
                most = ite(rlt(most, x), x, most)
            for i, c in enumerate(s.cols):
                own = s.glob[c] >= 0
                r = s.glob[c] if own else -s.glob[c] - 1
                v.ensure(st, req(F.now(st, r), D.at(i) + s.F.at(c) if own else R(0)), 'right hand side of a cell')
                for j, e in enumerate(s.cols):
                    q = s.glob[e] if s.glob[e] >= 0 else -s.glob[e] - 1
                    k, t = i + nc * j, K.now(st, 50 * r + q)
                    if not own:
                        v.ensure(st, req(t, R(0)), 'row of a cell of another process')
                        continue
                    v.ensure(st, or_(req(t, C.at(k)), and_(req(t, R(0)), rlt(absC[k], R(1e-11) * most))), 'entry of two cells, or it is negligible')
    return unit


def velocities(name, seed):
    def unit(newv):
        v = newv()
        ex = v.ex
        s = Vertex(v, name, seed)
        v.bounded = 'one vertex with %d cells and %d faces around it' % (s.nc, s.nf)
        nf, nc, dim = s.nf, s.nc, s.dim
        U = v.vec('pressure', 3 * nc, readonly=True)
        local = v.opaque('section')
        calls = []
        ex.contracts['TDyGlobalToLocal'] = ok0(lambda ex, st, a: ex.oblige('precondition', st, I_true(a[1] is gh), 'the pressure given'))
        gh = v.opaque('U')
        ex.contracts['DMGetLocalVector'] = ok0(lambda ex, st, a: ex.store(st, a[1], U.handle, 8, ''))
        ex.contracts['DMRestoreLocalVector'] = ok0(lambda ex, st, a: None)
        ex.contracts['DMGetLocalSection'] = ok0(lambda ex, st, a: ex.store(st, a[1], local, 8, ''))
        ex.contracts['PetscSectionGetOffset'] = ok0(lambda ex, st, a: ex.store(st, a[2], a[1] * I(3), 4, ''))
        W = v.array('velocity', 'R', nf, readonly=True)

        def solve(ex, st, a):
            calls.append(1)
            ex.oblige('precondition', st, ieq(a[2], I(nf)), 'size of the system of the vertex')
            for i, g in enumerate(s.rows):
                for j, h in enumerate(s.rows):
                    ex.oblige('post', st, req(get(ex, st, a[0], i + nf * j), s.matrix(g, h)), 'inverse permeability between the velocities on two faces')
                want = sum((s.flow(g, c) * U.at(3 * c) for c in range(nc)), R(0)) - s.boundary(g)
                ex.oblige('post', st, req(get(ex, st, a[1], i), want), 'difference of pressure over a face')
            for i in range(nf):
                put(ex, st, a[1], i, W.at(i))
        ex.contracts['RecoverVelocity'] = ok0(solve)
        nv = 2 ** (dim - 1)
        import random
        rng = random.Random(seed)
        at = {g: rng.randrange(nv) for g in range(nf)}
        table = {nv * g + k: s.vert if k == at[g] else 399 - k for g in range(nf) for k in range(nv)}
        s.wy.set('fmap', v.array('fmap', 'I', nv * nf, readonly=True, init=constants(table)))
        vel = v.array('vel', 'R', nv * nf)
        s.wy.set('vel', vel)
        for st, ret in v.call('TDyWYRecoverVelocity', s.tdy, gh, expect=None):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            v.ensure(st, I_true(bool(calls)), 'the system of the vertex is solved')
            for i, g in enumerate(s.rows):
                for k in range(nv):
                    v.ensure(st, req(vel.now(st, nv * g + k), W.at(i) if k == at[g] else vel.at(nv * g + k)), 'velocity on a face at a vertex')
    return unit


# ------------------------------------------------------------------ what a cell loses in time
def residual(dim):
    nf, nv = 2 * dim, 2 ** (dim - 1)

    def unit(newv):
        v = newv()
        v.dim = dim
        ex = v.ex
        tdy, wy, dm = tdy_of(v, 'TDyWY')
        n, m = v.int('num_cells'), v.int('num_faces')
        f0 = v.int('first_face')
        v.requires(and_(ile(I(0), n), ile(I(0), m), ile(n, f0)))
        ctx = v.opaque('ts')
        ex.contracts['TSGetDM'] = ok0(lambda ex, st, a: ex.store(st, a[1], dm, 8, ''))
        dm_contracts(v, dim, (I(0), n), (f0, f0 + m))
        wy.set('nfv', I(nv))
        X, N = [v.array(k, 'R', f0 + m, stride=8 * dim, readonly=True) for k in ('centroid', 'normal')]
        for a, k in ((X, 'x'), (N, 'n')):
            a.o.fields = {8 * i: ('%s%d' % (k, i), 'R', 8) for i in range(dim)}
        V = v.array('volume', 'R', f0 + m, readonly=True)
        vel = v.array('vel', 'R', m, stride=8 * nv, readonly=True)
        vel.o.fields = {8 * i: ('vel%d' % i, 'R', 8) for i in range(nv)}
        F = v.array('Flocal', 'R', n, readonly=True)
        por, dS = v.array('porosity', 'R', n, readonly=True), v.array('dS_dP', 'R', n, readonly=True)
        for k, a in (('X', X), ('N', N), ('V', V), ('vel', vel), ('Flocal', F), ('porosity', por), ('dS_dP', dS)):
            wy.set(k, a)
        P, D, R_ = v.vec('pressure', n), v.vec('rate', n, readonly=True), v.vec('residual', n)
        U = v.opaque('U')
        order = []
        c = v.int('c')
        v.requires(and_(ile(I(0), c), ilt(c, n)))
        ex.contracts['DMGetLocalVector'] = ok0(lambda ex, st, a: ex.store(st, a[1], P.handle, 8, ''))
        ex.contracts['DMRestoreLocalVector'] = ok0(lambda ex, st, a: None)

        def scatter(ex, st, a):
            ex.oblige('precondition', st, I_true(a[1] is U and a[2] is P.handle), 'the pressure given')
            order.append('pressure')
        ex.contracts['TDyGlobalToLocal'] = ok0(scatter)

        def step(name):
            def f(ex, st, a):
                order.append(name)
                if name == 'state':
                    ex.oblige('precondition', st, and_(ieq(a[2], n), req(get(ex, st, a[1], c), P.at(c))), 'state of every cell')
            return ok0(f)
        for k, name in (('TDyUpdateState', 'state'), ('TDyWYLocalElementCompute', 'elements'), ('TDyWYRecoverVelocity', 'velocities')):
            ex.contracts[k] = step(name)
        cones = v.array('cone', 'I', n, stride=4 * nf, readonly=True)
        cones.o.fields = {4 * i: ('cone of a cell %d' % i, 'I', 4) for i in range(nf)}
        nodes = v.array('nodes', 'I', m, stride=4 * nv, readonly=True)
        of_face = lambda t: 'cone of a cell' in str(t)

        def size(ex, st, a):
            ex.store(st, a[2], I(nv if of_face(a[1]) else nf), 4, '')

        def cone(ex, st, a):
            face = of_face(a[1])
            ex.store(st, a[2], ex.padd(nodes.ptr, mul(I(4 * nv), a[1] - f0)) if face else ex.padd(cones.ptr, mul(I(4 * nf), a[1])), 8, '')
        ex.contracts['DMPlexGetConeSize'], ex.contracts['DMPlexGetCone'] = ok0(size), ok0(cone)
        e = fresh('c', 'I')
        v.requires(forall(e, I(0), n, and_(*[and_(ile(f0, ex.read(v.entry, cones.o, 4 * i, 'I', e)), ilt(ex.read(v.entry, cones.o, 4 * i, 'I', e), f0 + m)) for i in range(nf)])), 'faces of a cell')
        own = lambda c: app('number of a cell in the whole mesh', (c,), 'I')
        ex.contracts['DMPlexGetPointGlobal'] = ok0(lambda ex, st, a: (ex.store(st, a[2], own(a[1]), 4, ''), ex.store(st, a[3], own(a[1]) + I(1), 4, ''))[2:] or None)
        for st, ret in v.call('TDyWYResidual', ctx, v.real('t'), U, D.handle, R_.handle, tdy):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            v.ensure(st, I_true(order == ['pressure', 'state', 'elements', 'velocities']), 'saturation, permeability and velocity follow the pressure given')
            out = R(0)
            for i in range(nf):
                f = ex.read(v.entry, cones.o, 4 * i, 'I', c)
                s = sum((ex.read(v.entry, N.o, 8 * d, 'R', f) * (ex.read(v.entry, X.o, 8 * d, 'R', f) - ex.read(v.entry, X.o, 8 * d, 'R', c)) for d in range(dim)), R(0))
                s = ite(rlt(s, R(0)), R(-1), ite(rlt(R(0), s), R(1), R(0)))
                out = out + s * V.at(f) * sum((ex.read(v.entry, vel.o, 8 * k, 'R', f - f0) for k in range(nv)), R(0))
            want = por.at(c) * dS.at(c) * D.at(c) + rdiv(out, R(nv)) - F.at(c)
            v.ensure(st, req(R_.now(st, c), ite(ilt(own(c), I(0)), R_.at(c), want)), 'what a cell stores, loses and is given')
    return unit


# ------------------------------------------------------------------ the system of the BDM elements
def energy(dim):
    """the product of two vectors over a tensor; the distance to a plane"""
    def unit(newv):
        v = newv()
        K, a, b, c = [v.array(k, 'R', n, readonly=True) for k, n in (('K', dim * dim), ('a', dim), ('b', dim), ('c', dim))]
        for st, ret in v.call('TDyKDotADotB', K, a, b, I(dim)):
            one, other = [sum((K.at(k(i, j)) * a.at(j) * b.at(i) for i in range(dim) for j in range(dim)), R(0)) for k in (lambda i, j: dim * i + j, lambda i, j: dim * j + i)]
            v.ensure(st, or_(req(ret, one), req(ret, other)), 'product over a tensor, by rows or by columns')
        for st, ret in v.call('TDyADotBMinusC', a, b, c, I(dim)):
            v.ensure(st, req(ret, sum((a.at(i) * (b.at(i) - c.at(i)) for i in range(dim)), R(0))), 'distance to a plane')
        for st, ret in v.call('TDyL1norm', a, b, I(dim)):
            v.ensure(st, req(ret, sum((ite(rlt(a.at(i), b.at(i)), b.at(i) - a.at(i), a.at(i) - b.at(i)) for i in range(dim)), R(0))), 'distance of two places')
        for st, ret in v.call('TDyADotB', a, b, I(dim)):
            v.ensure(st, req(ret, sum((a.at(i) * b.at(i) for i in range(dim)), R(0))), 'product of vectors')
    return unit


def bdm_system(dim, rule):
    nv, d2 = 2 ** dim, dim * dim
    nl, nf = dim * nv + 1, 2 * dim
    nq = (2 if rule == 'lumped' else 3) ** dim

    def unit(newv):
        v = newv()
        v.dim = dim
        ex = v.ex
        tdy, bdm, dm = tdy_of(v, 'TDyBDM')
        n = v.int('num_cells')
        v.requires(ile(I(0), n))
        dm_contracts(v, dim, (I(0), n))
        forced, fixed = condition_contracts(v)
        g = geometry_fem(v, dim, nq)
        bdm.set('ncv', I(nv))
        bdm.set('qtype', I(0 if rule == 'lumped' else 1))
        K = v.array('permeability', 'R', n, stride=8 * d2, readonly=True)
        K.o.fields = {8 * i: ('k%d' % i, 'R', 8) for i in range(d2)}
        M = v.array('LtoG', 'I', n, stride=4 * nl, readonly=True)
        M.o.fields = {4 * i: ('LtoG %d' % i, 'I', 4) for i in range(nl)}
        O = v.array('orient', 'I', n, stride=4 * nl, readonly=True)
        O.o.fields = {4 * i: ('orient %d' % i, 'I', 4) for i in range(nl)}
        bdm.set('K', K)
        bdm.set('LtoG', M)
        bdm.set('orient', O)
        place, weight = v.array('place', 'R', nq * dim, readonly=True), v.array('weight', 'R', nq, readonly=True)
        rules = []

        def gauss(ex, st, a):
            h = v.opaque('rule %d' % len(rules))
            ex.store(st, a[5], h, 8, '')
            rules.append([h, a[0].args[0]])
            ex.oblige('precondition', st, and_(ieq(a[1], I(1)), ieq(a[2], I(3)), req(a[3], R(-1)), req(a[4], R(1))), 'rule of Gauss on the reference cell')
            ex.oblige('precondition', st, I_true(rule == 'full'), 'rule chosen')
        ex.contracts['PetscDTGaussTensorQuadrature'] = ok0(gauss)
        def create(ex, fr, x, st, a):
            h = v.opaque('rule %d' % len(rules))
            ex.store(st, a[1], h, 8, '')
            rules.append([h, None])
            ex.oblige('precondition', st, I_true(rule == 'lumped'), 'rule chosen')
            return [(st, I(0))]
        ex.contracts['PetscQuadratureCreate'] = create

        def set_rule(ex, st, a):
            for r in rules:
                if r[0] is a[0]:
                    r[1] = a[1].args[0]
        ex.contracts['SetQuadrature'] = ok0(set_rule)

        def data(ex, st, a):
            r = [r for r in rules if r[0] is a[0]]
            if not r:
                raise Unsupported('unknown rule')
            if r[0][1] == dim:
                for p, t in ((a[3], I(nq)), (a[4], place.ptr), (a[5], weight.ptr)):
                    if p is not NULL:
                        ex.store(st, p, t, 4 if t is not place.ptr and t is not weight.ptr else 8, '')
            else:
                for p, t in ((a[3], I(nq)), (a[4], NULL), (a[5], NULL)):
                    if p is not NULL:
                        ex.store(st, p, t, 8 if t is NULL else 4, '')
        ex.contracts['PetscQuadratureGetData'] = ok0(data)
        ex.contracts['PetscQuadratureDestroy'] = ok0(lambda ex, st, a: None)
        geometry = ex.contracts['DMPlexComputeCellGeometryFEM']

        def with_rule(ex, fr, x, st, a):
            ex.oblige('precondition', st, I_true(any(r[0] is a[2] and r[1] == dim for r in rules)), 'rule of the cell')
            return geometry(ex, fr, x, st, a)
        ex.contracts['DMPlexComputeCellGeometryFEM'] = with_rule
        inv = lambda Ks, i: app('inverse %d' % i, tuple(Ks), 'R')

        def invert(ex, st, a):
            ex.oblige('precondition', st, ieq(a[1], I(dim)), 'size of the tensor')
            Ks = [get(ex, st, a[0], i) for i in range(d2)]
            for i in range(d2):
                put(ex, st, a[0], i, inv(Ks, i))
        ex.contracts['Inverse'] = ok0(invert)

        def hdiv(ex, st, a):
            args = tuple(get(ex, st, a[0], i) for i in range(dim)) + tuple(get(ex, st, a[2], i) for i in range(d2)) + (a[3],)
            for i in range(nv * d2):
                put(ex, st, a[1], i, app('function %d' % i, args, 'R'))
        ex.contracts['HdivBasisQuad' if dim == 2 else 'HdivBasisHex'] = ok0(hdiv)

        def product(ex, fr, x, st, a):
            t = tuple(get(ex, st, a[0], i) for i in range(d2)) + tuple(get(ex, st, p, i) for p in (a[1], a[2]) for i in range(dim))
            return [(st, app('energy', t, 'R'))]
        ex.contracts['TDyKDotADotB'] = product
        cones = v.array('cone', 'I', n, stride=4 * nf, readonly=True)
        cones.o.fields = {4 * i: ('cone of a cell %d' % i, 'I', 4) for i in range(nf)}
        ex.contracts['DMPlexGetConeSize'] = ok0(lambda ex, st, a: ex.store(st, a[2], I(nf), 4, ''))
        ex.contracts['DMPlexGetCone'] = ok0(lambda ex, st, a: ex.store(st, a[2], ex.padd(cones.ptr, mul(I(4 * nf), a[1])), 8, ''))
        ex.contracts['DMGetLabelValue'] = label_contract(lambda f: app('label', (f,), 'I'))
        flux = lambda i, f, c: app('pressure on the boundary %d' % i, (f, c), 'R')

        def boundary(ex, st, a):
            for i in range(nl - 1):
                put(ex, st, a[5], i, get(ex, st, a[5], i) - flux(i, a[3], a[4]))
        ex.contracts['IntegratePressureBoundary'] = ok0(boundary)
        own = lambda c: app('number of a cell in the whole mesh', (c,), 'I')
        cell = [None]

        def point(ex, st, a):
            cell[0] = a[1]
            ex.store(st, a[2], own(a[1]), 4, '')
            ex.store(st, a[3], own(a[1]) + I(1), 4, '')
        ex.contracts['DMPlexGetPointGlobal'] = ok0(point)
        kh, fh = v.opaque('Mat'), v.opaque('Vec')
        done = {k: v.array('done ' + k, 'R', n, init=lambda k: R(0)) for k in ('matrix', 'vector')}

        def mset(ex, st, a):
            c = cell[0]
            rd = lambda o, i, s='R': ex.read(v.entry, o, (8 if s == 'R' else 4) * i, s, c)
            ex.oblige('precondition', st, and_(ieq(a[1], I(nl)), ieq(a[3], I(nl)), *[ieq(get(ex, st, p, i, 'I'), rd(M.o, i, 'I')) for p in (a[2], a[4]) for i in range(nl)]), 'rows and columns of the cell')
            Ki = [inv([rd(K.o, i) for i in range(d2)], j) for j in range(d2)]
            J = [g['J'].at(c, I(q)) for q in range(nq)]
            fun = [tuple(place.at(dim * q + i) for i in range(dim)) + tuple(g['DF'].at(c, I(d2 * q + i)) for i in range(d2)) + (J[q],) for q in range(nq)]
            vec = lambda q, r: tuple(app('function %d' % (dim * r + i), fun[q], 'R') for i in range(dim))
            o = [rd(O.o, i, 'I') for i in range(nl)]
            oR = [i2r(t) for t in o]
            for r in range(nl):
                for s in range(nl):
                    t = get(ex, st, a[5], nl * r + s)
                    if r < nl - 1 and s < nl - 1:
                        want = oR[r] * oR[s] * sum((weight.at(q) * J[q] * app('energy', tuple(Ki) + vec(q, r) + vec(q, s), 'R') for q in range(nq)), R(0))
                        other = oR[r] * oR[s] * sum((weight.at(q) * J[q] * app('energy', tuple(Ki) + vec(q, s) + vec(q, r), 'R') for q in range(nq)), R(0))
                        ex.oblige('post', st, or_(req(t, want), req(t, other)), 'inverse permeability between two velocities')
                    elif r < nl - 1 or s < nl - 1:
                        ex.oblige('post', st, req(t, -oR[min(r, s)]), 'what leaves the cell')
                    else:
                        ex.oblige('post', st, req(t, R(0)), 'no storage')
            put(ex, st, done['matrix'].ptr, c, get(ex, st, done['matrix'].ptr, c) + R(1))
        ex.contracts['MatSetValues'] = ok0(mset)

        def vset(ex, st, a):
            c = cell[0]
            rd = lambda o, i, s='R': ex.read(v.entry, o, (8 if s == 'R' else 4) * i, s, c)
            ex.oblige('precondition', st, and_(ieq(a[1], I(nl)), *[ieq(get(ex, st, a[2], i, 'I'), rd(M.o, i, 'I')) for i in range(nl)]), 'rows of the cell')
            for r in range(nl - 1):
                p = R(0)
                for k in range(nf):
                    f = rd(cones.o, k, 'I')
                    p = p + ite(and_(ieq(app('label', (f,), 'I'), I(1)), not_(ieq(fixed, I(0)))), -flux(r, f, c), R(0))
                ex.oblige('post', st, req(get(ex, st, a[3], r), p * i2r(rd(O.o, r, 'I'))), 'pressure on the boundary')
            f = sum((app('forcing', tuple(g['points'].at(c, I(dim * q + i)) for i in range(dim)), 'R') * g['J'].at(c, I(q)) * weight.at(q) for q in range(nq)), R(0))
            ex.oblige('post', st, req(get(ex, st, a[3], nl - 1), ite(ieq(forced, I(0)), R(0), -f)), 'what is added in a cell')
            put(ex, st, done['vector'].ptr, c, get(ex, st, done['vector'].ptr, c) + R(1))
        ex.contracts['VecSetValues'] = ok0(vset)
        for k in ('VecAssemblyBegin', 'VecAssemblyEnd', 'MatAssemblyBegin', 'MatAssemblyEnd'):
            ex.contracts[k] = ok0(lambda ex, st, a: None)
        c = v.int('c')
        v.requires(and_(ile(I(0), c), ilt(c, n)))
        for st, ret in v.call('TDyBDMComputeSystem', tdy, kh, fh):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            for k in done:
                v.ensure(st, req(done[k].now(st, c), ite(ilt(own(c), I(0)), R(0), R(1))), 'every cell of this process once: ' + k)
    return unit


# ------------------------------------------------------------------ maps and storage
def setup(method, dim):
    nv, nf, d2 = 2 ** dim, 2 ** (dim - 1), dim * dim
    nl = dim * nv + 1

    def unit(newv):
        v = newv()
        v.dim = dim
        ex = v.ex
        name = {'WY': 'TDyWY', 'BDM': 'TDyBDM'}[method]
        c = v.struct('element data', name)
        dm, disc, prop_ = v.opaque('dm'), v.opaque('discretization'), v.opaque('matprop')
        cc = v.struct('curves', 'CharacteristicCurves', readonly=True)
        ex.contracts['TDyDiscretizationGetDM'] = ok0(lambda ex, st, a: ex.store(st, a[1], dm, 8, ''))
        n, m, nn, ne = [v.int(k) for k in ('num_cells', 'num_faces', 'num_vertices', 'num_edges')]
        # cells, vertices, faces, edges in the order of the mesh
        v0 = n
        f0 = n + nn
        e0 = f0 + m if dim == 3 else f0
        pe = e0 + (ne if dim == 3 else m)
        for t in (n, m, nn, ne):
            v.requires(ile(I(1), t))
        if dim == 2:
            v.requires(ieq(ne, m))
        ex.contracts['DMGetDimension'] = ok0(lambda ex, st, a: ex.store(st, a[1], I(dim), 4, ''))

        def span(lo, hi):
            def f(ex, st, p, q):
                for x, t in ((p, lo), (q, hi)):
                    if x is not NULL:
                        ex.store(st, x, t, 4, '')
            return f
        strata = {('h', 0): span(I(0), n), ('h', 1): span(f0, f0 + m), ('d', 0): span(v0, f0), ('d', 1): span(e0, e0 + ne)}
        for k, s in (('DMPlexGetHeightStratum', 'h'), ('DMPlexGetDepthStratum', 'd')):
            ex.contracts[k] = ex.models[k] = ok0(lambda ex, st, a, s=s: strata[s, a[1].args[0]](ex, st, a[2], a[3]))
        ex.contracts['DMPlexGetChart'] = ok0(lambda ex, st, a: span(I(0), pe)(ex, st, a[1], a[2]))
        cs, xv = v.opaque('coordinates section'), v.vec('coordinates', 3 * nn * I(dim), readonly=True)
        ex.contracts['DMGetCoordinateSection'] = ok0(lambda ex, st, a: ex.store(st, a[1], cs, 8, ''))
        ex.contracts['DMGetCoordinatesLocal'] = ok0(lambda ex, st, a: ex.store(st, a[1], xv.handle, 8, ''))
        off = lambda p: (p - v0) * I(dim)
        ex.contracts['PetscSectionGetOffset'] = ok0(lambda ex, st, a: ex.store(st, a[2], off(a[1]), 4, ''))
        geo = lambda k, p, d=0: app('%s %d' % (k, d), (p,), 'R')

        def fvm(ex, st, a):
            put(ex, st, a[2], 0, geo('volume', a[1]))
            for d in range(dim):
                put(ex, st, a[3], d, geo('centroid', a[1], d))
                put(ex, st, a[4], d, geo('normal', a[1], d))
        ex.contracts['DMPlexComputeCellGeometryFVM'] = ok0(fvm)
        ex.contracts['TDyGetNumberOfCellVertices'] = lambda ex, fr, x, st, a: [(st, I(nv))]
        ex.contracts['TDyGetNumberOfFaceVertices'] = lambda ex, fr, x, st, a: [(st, I(nf))]
        for k in ('PetscObjectGetComm', 'PetscQuadratureCreate', 'SetQuadrature', 'PetscSectionSetNumFields', 'PetscSectionSetFieldName', 'PetscSectionSetFieldComponents',
                  'PetscSectionSetUp', 'DMSetSection', 'DMSetLocalSection', 'PetscSectionDestroy', 'DMGetGlobalSection', 'DMSetBasicAdjacency', 'PetscSectionViewFromOptions'):
            ex.contracts[k] = ok0(lambda ex, st, a: None)
        sec = v.opaque('section')
        ex.contracts['PetscSectionCreate'] = ok0(lambda ex, st, a: ex.store(st, a[1], sec, 8, ''))
        chart = []
        ex.contracts['PetscSectionSetChart'] = ok0(lambda ex, st, a: ex.oblige('precondition', st, and_(ieq(a[1], I(0)), ieq(a[2], pe)), 'unknowns on any point of the mesh'))
        dof = {k: v.array('unknowns ' + k, 'I', pe, init=lambda k: I(0)) for k in ('all', 'pressure', 'velocity')}

        def field(ex, st, a):
            if a[2].op != 'num':
                raise Unsupported('field')
            put(ex, st, dof[('pressure', 'velocity')[a[2].args[0]]].ptr, a[1], a[3], 'I')
        ex.contracts['PetscSectionSetFieldDof'] = ok0(field)
        ex.contracts['PetscSectionSetDof'] = ok0(lambda ex, st, a: put(ex, st, dof['all'].ptr, a[1], a[2], 'I'))
        vmap = v.array('vmap', 'I', n, stride=4 * nv, readonly=True)
        vmap.o.fields = {4 * i: ('vmap %d' % i, 'I', 4) for i in range(nv)}
        emap = v.array('emap', 'I', n, stride=4 * nv * dim, readonly=True)
        emap.o.fields = {4 * i: ('emap %d' % i, 'I', 4) for i in range(nv * dim)}
        E = lambda c, k: ex.read(v.entry, emap.o, 4 * k, 'I', c)
        W = lambda c, k: ex.read(v.entry, vmap.o, 4 * k, 'I', c)
        got = {}

        def vm(ex, st, a):
            ex.oblige('precondition', st, ieq(a[1], I(nv)), 'corners of a cell')
            got['X'] = a[2]
            ex.store(st, a[3], vmap.ptr, 8, '')

        def em(ex, st, a):
            ex.oblige('precondition', st, and_(ieq(a[1], I(nv)), I_true(a[4] is vmap.ptr)), 'corners of a cell')
            ex.store(st, a[5], emap.ptr, 8, '')
        ex.contracts['CreateCellVertexMap'], ex.contracts['CreateCellVertexDirFaceMap'] = ok0(vm), ok0(em)
        # the closure of a face: itself, its edges, its vertices
        size = {2: 3, 3: 9}[dim]
        clo = v.array('closure of a face', 'I', pe, stride=8 * size, readonly=True)
        clo.o.fields = {4 * i: ('closure %d' % i, 'I', 4) for i in range(2 * size)}
        node = lambda f, k: ex.read(v.entry, clo.o, 8 * (size - nf + k), 'I', f)

        def closure(ex, st, a):
            ex.oblige('precondition', st, and_(ile(f0, a[1]), ilt(a[1], f0 + m), ieq(a[2], I(1))), 'a face')
            ex.store(st, a[3], I(size), 4, '')
            ex.store(st, a[4], ex.padd(clo.ptr, mul(I(8 * size), a[1])), 8, '')
            f = a[1]
            for k in range(size - nf):
                p = ex.read(v.entry, clo.o, 8 * k, 'I', f)
                st.assume(and_(ieq(p, f), ile(f0, p), ilt(p, f0 + m)) if k == 0 else and_(ile(e0, p), ilt(p, e0 + ne)))
            for k in range(nf):
                st.assume(and_(ile(v0, node(f, k)), ilt(node(f, k), f0)))
        ex.contracts['DMPlexGetTransitiveClosure'] = ok0(closure)
        ex.contracts['DMPlexRestoreTransitiveClosure'] = ok0(lambda ex, st, a: None)
        glob = lambda p: app('number in the whole mesh', (p,), 'I')
        ex.contracts['DMPlexGetPointGlobal'] = ok0(lambda ex, st, a: (ex.store(st, a[2], glob(a[1]), 4, ''), ex.store(st, a[3], glob(a[1]) + I(1), 4, ''))[2:] or None)
        e = fresh('c', 'I')
        iabs = lambda t: ite(ilt(t, I(0)), -t, t)
        v.requires(forall(e, I(0), n, and_(*[and_(ile(f0, iabs(E(e, k))), ilt(iabs(E(e, k)), f0 + m)) for k in range(nv * dim)])), 'faces of a cell')
        if method == 'BDM':
            v.requires(forall(e, I(0), n, and_(*[or_(*[ieq(node(iabs(E(e, q * dim + d)), k), W(e, q)) for k in range(nf)]) for q in range(nv) for d in range(dim)])), 'a corner of a cell is a corner of its faces there')
        perm = lambda i: app('permeability given', (i,), 'R')

        def given(fun, k):
            def f(ex, st, a):
                ex.oblige('precondition', st, and_(I_true(a[0] is prop_), ieq(a[1], n)), 'properties of every cell')
                got['place of properties'] = a[2]
                ex.oblige('precondition', st, I_true(str(a[2]) == str(got.get('X'))), 'properties at the centres of the cells')
                petsc.store_range(ex, st, a[3], n * I(k), 'R', fun, 'property')
            return ok0(f)
        ex.contracts['MaterialPropComputePermeability'] = given(perm, d2)
        ex.contracts['MaterialPropComputePorosity'] = given(lambda i: app('porosity given', (i,), 'R'), 1)
        k = v.int('k')
        v.requires(and_(ile(I(0), k), ilt(k, n)))
        f = v.int('f')
        v.requires(and_(ile(f0, f), ilt(f, f0 + m)))
        p = v.int('p')
        v.requires(and_(ile(I(0), p), ilt(p, pe)))
        called = []
        if method == 'WY':
            sat, kr = v.opaque('saturation'), v.opaque('rel_perm')
            cc.set('saturation', sat)
            cc.set('rel_perm', kr)
            coef = lambda i: app('smoothing %d' % i, tuple(c.get(x, v.entry) for x in ('vangenuchten_m', 'mualem_poly_x0', 'mualem_poly_x1', 'mualem_poly_x2', 'mualem_poly_dx')), 'R')

            def smooth(ex, st, a):
                for i in range(4):
                    put(ex, st, a[5], i, app('smoothing %d' % i, tuple(a[:5]), 'R'))
            ex.contracts['RelativePermeability_Mualem_GetSmoothingCoeffs'] = ok0(smooth)

            def curve(kind, h, params):
                def g(ex, st, a):
                    called.append(kind)
                    ex.oblige('precondition', st, and_(I_true(a[0] is h), ieq(a[2], n), ieq(get(ex, st, a[3], k, 'I'), k), *[req(get(ex, st, a[4], k * I(len(params)) + I(i)), t) for i, t in enumerate(params)]), 'curve of every cell: ' + kind)
                return ok0(g)
            par = [c.get(x, v.entry) for x in ('vangenuchten_m', 'vangenuchten_alpha')]
            ex.contracts['SaturationSetType'] = curve('saturation', sat, par)
            ex.contracts['RelativePermeabilitySetType'] = curve('permeability', kr, [par[0]] + [c.get('mualem_poly_' + x, v.entry) for x in ('x0', 'x1', 'x2', 'dx')] + [coef(i) for i in range(4)])
        for st, ret in v.call('TDySetup_' + method, c, disc, v.opaque('eos'), prop_, cc, v.opaque('conditions')):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            rd = lambda a, i, s='R': v.load(st, c.get(a, st), s, i)
            corner = and_(ile(v0, p), ilt(p, f0))
            edge = and_(ile(e0, p), ilt(p, e0 + ne)) if dim == 3 else FALSE
            v.ensure(st, or_(corner, edge, req(rd('V', p), geo('volume', p))), 'volume of a cell, area of a face')
            for d in range(dim):
                v.ensure(st, or_(edge, req(rd('X', p * I(dim) + I(d)), ite(corner, xv.at(off(p) + I(d)), geo('centroid', p, d)))), 'centre of a cell or a face, place of a vertex')
                v.ensure(st, or_(corner, edge, req(rd('N', p * I(dim) + I(d)), geo('normal', p, d))), 'normal of a face')
            for i in range(nf):
                v.ensure(st, ieq(rd('fmap', (f - f0) * I(nf) + I(i), 'I'), node(f, i)), 'corners of a face')
            for d in range(dim):
                for s in (0, 1):
                    v.ensure(st, ieq(rd('faces', k * I(2 * dim) + I(2 * d + s), 'I'), iabs(E(k, s * 2 ** d * dim + d))), 'face of a cell on a side')
            for i in range(d2):
                v.ensure(st, req(rd('K', k * I(d2) + I(i)), perm(k * I(d2) + I(i))), 'permeability of a cell')
            v.ensure(st, ieq(c.get('ncv', st), I(nv)), 'corners of a cell')
            cell, face = ilt(p, n), and_(ile(f0, p), ilt(p, f0 + m))
            on = I(2 ** (dim - 1)) if method == 'BDM' else I(0)
            v.ensure(st, ieq(dof['all'].now(st, p), ite(cell, I(1), ite(face, on, I(0)))), 'unknowns on a point')
            v.ensure(st, ieq(dof['pressure'].now(st, p), ite(cell, I(1), I(0))), 'one pressure in each cell')
            v.ensure(st, ieq(dof['velocity'].now(st, p), ite(face, on, I(0))), 'velocities on each face')
            if method == 'WY':
                v.ensure(st, ieq(c.get('nfv', st), I(nf)), 'corners of a face')
                v.ensure(st, ieq(c.get('dim', st), I(dim)), 'dimension')
                v.ensure(st, req(rd('porosity', k), app('porosity given', (k,), 'R')), 'porosity of a cell')
                for i in range(d2):
                    v.ensure(st, req(rd('K0', k * I(d2) + I(i)), perm(k * I(d2) + I(i))), 'intrinsic permeability of a cell')
                v.ensure(st, I_true(sorted(called) == ['permeability', 'saturation']), 'curves of the cells')
            else:
                abs_ = lambda t: ite(ilt(t, I(0)), -(t + I(1)), t)
                v.ensure(st, ieq(rd('LtoG', k * I(nl) + I(nl - 1), 'I'), abs_(glob(k))), 'place of the pressure of a cell')
                for q in range(nv):
                    for d in range(dim):
                        t = E(k, q * dim + d)
                        g = iabs(t)
                        at = rd('LtoG', k * I(nl) + I(q * dim + d), 'I') - abs_(glob(g))
                        v.ensure(st, or_(*[and_(ieq(at, I(i)), ieq(node(g, i), W(k, q))) for i in range(nf)]), 'place of a velocity: the corner of its face')
                        v.ensure(st, ieq(rd('orient', k * I(nl) + I(q * dim + d), 'I'), ite(ilt(t, I(0)), I(-1), I(1))), 'orientation of a face')
    return unit


def face_pressure(dim):
    """the pressure on a face of the boundary, for each place of the face in its cell"""
    nv, d2 = 2 ** dim, dim * dim
    nq = 3 ** (dim - 1)

    def unit(newv):
        for d in range(dim):
            for s in (0, 1):
                v = newv()
                v.dim = dim
                ex = v.ex
                bdm = v.struct('element data', 'TDyBDM')
                dm, cond = v.opaque('dm'), v.opaque('conditions')
                condition_contracts(v)
                n = v.int('num_points')
                c, f = v.int('c'), v.int('f')
                v.requires(and_(ile(I(0), c), ilt(c, f), ilt(f, n)))
                ex.contracts['DMGetDimension'] = ok0(lambda ex, st, a: ex.store(st, a[1], I(dim), 4, ''))
                X, N = [v.array(k, 'R', n, stride=8 * dim, readonly=True) for k in ('centroid', 'normal')]
                for a, k in ((X, 'x'), (N, 'n')):
                    a.o.fields = {8 * i: ('%s%d' % (k, i), 'R', 8) for i in range(dim)}
                emap = v.array('emap', 'I', n, stride=4 * nv * dim, readonly=True)
                emap.o.fields = {4 * i: ('emap %d' % i, 'I', 4) for i in range(nv * dim)}
                bdm.set('ncv', I(nv))
                bdm.set('X', X)
                bdm.set('N', N)
                bdm.set('emap', emap)
                E = lambda k: ex.read(v.entry, emap.o, 4 * k, 'I', c)
                for q in range(nv):
                    for e in range(dim):
                        t = E(q * dim + e)
                        same = or_(ieq(t, f), ieq(-t, f))
                        v.requires(same if e == d and (q >> d) & 1 == s else not_(same))
                place, weight = v.array('place', 'R', nq * (dim - 1), readonly=True), v.array('weight', 'R', nq, readonly=True)
                rule, one = v.opaque('rule of the face'), v.opaque('one point')
                at = [None]

                def gauss(ex, st, a):
                    ex.oblige('precondition', st, and_(ieq(a[0], I(dim - 1)), ieq(a[1], I(1)), ieq(a[2], I(3)), req(a[3], R(-1)), req(a[4], R(1))), 'rule of Gauss on a face')
                    ex.store(st, a[5], rule, 8, '')

                def data(ex, st, a):
                    ex.oblige('precondition', st, I_true(a[0] is rule), 'rule of the face')
                    for p, t, w in ((a[3], I(nq), 4), (a[4], place.ptr, 8), (a[5], weight.ptr, 8)):
                        if p is not NULL:
                            ex.store(st, p, t, w, '')
                fJ = lambda q: app('area of the face', (f, I(q)), 'R')

                def setdata(ex, st, a):
                    ex.oblige('precondition', st, and_(I_true(a[0] is one), ieq(a[1], I(dim)), ieq(a[3], I(1))), 'one point')
                    at[0] = a[4]
                ex.contracts['PetscDTGaussTensorQuadrature'] = ok0(gauss)
                ex.contracts['PetscQuadratureGetData'] = ok0(data)
                ex.contracts['PetscQuadratureCreate'] = ok0(lambda ex, st, a: ex.store(st, a[1], one, 8, ''))
                ex.contracts['PetscQuadratureSetData'] = ok0(setdata)
                ex.contracts['PetscQuadratureDestroy'] = ok0(lambda ex, st, a: None)
                where = lambda k, pt, i: app('%s %d' % (k, i), (c,) + tuple(pt), 'R')

                def geometry(ex, st, a):
                    if a[2] is rule:
                        ex.oblige('precondition', st, ieq(a[1], f), 'the face')
                        for q in range(nq):
                            put(ex, st, a[6], q, fJ(q))
                        return
                    ex.oblige('precondition', st, and_(ieq(a[1], c), I_true(a[2] is one)), 'the cell')
                    pt = [get(ex, st, at[0], i) for i in range(dim)]
                    for p, k, m in ((a[3], 'point', dim), (a[4], 'DF', d2), (a[5], 'DFinv', d2), (a[6], 'J', 1)):
                        for i in range(m):
                            put(ex, st, p, i, where(k, pt, i))
                ex.contracts['DMPlexComputeCellGeometryFEM'] = ok0(geometry)

                def hdiv(ex, st, a):
                    args = tuple(get(ex, st, a[0], i) for i in range(dim)) + tuple(get(ex, st, a[2], i) for i in range(d2)) + (a[3],)
                    for i in range(nv * d2):
                        put(ex, st, a[1], i, app('function %d' % i, args, 'R'))
                ex.contracts['HdivBasisQuad' if dim == 2 else 'HdivBasisHex'] = ok0(hdiv)
                G = v.array('g', 'R', nv * dim)
                for st, ret in v.call('IntegratePressureBoundary', bdm, dm, cond, f, c, G):
                    v.ensure(st, ieq(ret, I(0)), 'reports success')
                    x = lambda a, p, e: ex.read(v.entry, a.o, 8 * e, 'R', p)
                    out = sum((x(N, f, e) * (x(X, f, e) - x(X, c, e)) for e in range(dim)), R(0))
                    nrm = [ite(rlt(out, R(0)), -x(N, f, e), x(N, f, e)) for e in range(dim)]
                    for i in range(nv * dim):
                        t = R(0)
                        for q in range(nq):
                            rest = [place.at(q * (dim - 1) + j) for j in range(dim - 1)]
                            pt = rest[:d] + [R(2 * s - 1)] + rest[d:]
                            arg = tuple(pt) + tuple(where('DF', pt, k) for k in range(d2)) + (where('J', pt, 0),)
                            g = app('boundary pressure', tuple(where('point', pt, k) for k in range(dim)), 'R')
                            t = t + g * sum((app('function %d' % (dim * i + e), arg, 'R') * nrm[e] for e in range(dim)), R(0)) * weight.at(q) * fJ(q)
                        v.ensure(st, req(G.now(st, i), G.at(i) - t), 'pressure on the face in direction %d, side %d' % (d, s))
    return unit


def rule(dim):
    """the rule of the corners"""
    def unit(newv):
        v = newv()
        ex = v.ex
        nv = 2 ** dim
        seen = []

        def setdata(ex, st, a):
            seen.append(1)
            ex.oblige('post', st, and_(ieq(a[1], I(dim)), ieq(a[2], I(1)), ieq(a[3], I(nv))), 'size of the rule')
            for q in range(nv):
                ex.oblige('post', st, and_(req(get(ex, st, a[5], q), R(1)), *[req(get(ex, st, a[4], q * dim + d), R(side(q, d))) for d in range(dim)]), 'corner %d with weight one' % q)
        ex.contracts['PetscQuadratureSetData'] = ok0(setdata)
        for st, ret in v.call('SetQuadrature', v.opaque('rule'), I(dim)):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            v.ensure(st, I_true(bool(seen)), 'the rule is set')
    return unit


def corner_map(dim, seed):
    nv = 2 ** dim

    def unit(newv):
        import random
        rng = random.Random(seed)
        v = newv()
        v.dim = dim
        v.bounded = 'two cells, the points around them in a given order'
        ex = v.ex
        dm = v.opaque('dm')
        cells = 2
        dm_contracts(v, dim, (I(0), I(cells)), vertices=(I(10), I(40)))
        X = v.array('X', 'R', 40 * dim, readonly=True)
        g = geometry_fem(v, dim, nv)
        for k in ('PetscQuadratureCreate', 'SetQuadrature', 'PetscQuadratureDestroy', 'DMPlexRestoreTransitiveClosure'):
            ex.contracts[k] = ok0(lambda ex, st, a: None)
        vert = [rng.sample(range(10, 40), nv) for _ in range(cells)]
        clo = {c: [c] + rng.sample(range(50, 80), nv + 2) + vert[c] for c in range(cells)}
        arr = {p: v.array('closure of %d' % p, 'I', 2 * len(t), readonly=True, init=constants({2 * i + j: (x if j == 0 else 0) for i, x in enumerate(t) for j in (0, 1)})) for p, t in clo.items()}

        def closure(ex, st, a):
            ex.oblige('precondition', st, ieq(a[2], I(1)), 'what bounds a point')
            p = a[1].args[0]
            ex.store(st, a[3], I(len(clo[p])), 4, '')
            ex.store(st, a[4], arr[p].ptr, 8, '')
        ex.contracts['DMPlexGetTransitiveClosure'] = ok0(closure)
        dist = lambda a, b: app('distance', tuple(a) + tuple(b), 'R')
        ex.contracts['TDyL1norm'] = lambda ex, fr, x, st, a: [(st, dist([get(ex, st, a[0], i) for i in range(dim)], [get(ex, st, a[1], i) for i in range(dim)]))]
        out = v.array('out', 'P', 1)
        for st, ret in v.call('CreateCellVertexMap', dm, I(nv), X, out):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            p = v.load(st, out.ptr, 'P')
            for c in range(cells):
                for q in range(nv):
                    t = v.load(st, p, 'I', I(c * nv + q))
                    near = {w: rle(dist([g['points'].at(I(c), I(dim * q + d)) for d in range(dim)], [X.at(w * dim + d) for d in range(dim)]), R(1e-12)) for w in vert[c]}
                    v.ensure(st, or_(and_(*[not_(x) for x in near.values()]), *[and_(x, ieq(t, I(w))) for w, x in near.items()]), 'the vertex at a corner of a cell')
    return unit


def face_map(dim, seed):
    """the face of a cell at a corner across a direction, with its orientation"""
    nv = 2 ** dim

    def unit(newv):
        import random
        rng = random.Random(seed)
        v = newv()
        v.dim = dim
        ex = v.ex
        v.bounded = 'two cells, the points around them in a given order'
        dm = v.opaque('dm')
        nf = 2 * dim
        cells = 2
        dm_contracts(v, dim, (I(0), I(cells)), (I(50), I(80)), (I(10), I(40)))
        vert = [rng.sample(range(10, 40), nv) for _ in range(cells)]
        face = [rng.sample(range(50 + 12 * c, 60 + 12 * c), nf) for c in range(cells)]
        corners_of = lambda k: [q for q in range(nv) if (q >> (k // 2)) & 1 == k % 2]
        clo = {}
        for c in range(cells):
            pts = rng.sample(face[c], nf) + ([90, 91] if dim == 3 else []) + rng.sample(vert[c], nv)
            clo[c] = [c] + pts
            for k in range(nf):
                vs = [vert[c][q] for q in corners_of(k)]
                rng.shuffle(vs)
                clo[face[c][k]] = [face[c][k]] + ([95, 96] if dim == 3 else []) + vs
        arr = {p: v.array('closure of %d' % p, 'I', 2 * len(t), readonly=True, init=constants({2 * i + j: (x if j == 0 else 0) for i, x in enumerate(t) for j in (0, 1)})) for p, t in clo.items()}

        def closure(ex, st, a):
            ex.oblige('precondition', st, ieq(a[2], I(1)), 'what bounds a point')
            p = a[1].args[0]
            ex.store(st, a[3], I(len(clo[p])), 4, '')
            ex.store(st, a[4], arr[p].ptr, 8, '')
        ex.contracts['DMPlexGetTransitiveClosure'] = ok0(closure)
        ex.contracts['DMPlexRestoreTransitiveClosure'] = ok0(lambda ex, st, a: None)
        X, N = v.array('X', 'R', 100 * dim, readonly=True), v.array('N', 'R', 100 * dim, readonly=True)
        vm = v.array('vmap', 'I', cells * nv, readonly=True, init=constants({c * nv + q: vert[c][q] for c in range(cells) for q in range(nv)}))
        out = v.array('out', 'P', 1)
        for st, ret in v.call('CreateCellVertexDirFaceMap', dm, I(nv), X, N, vm, out):
            v.ensure(st, ieq(ret, I(0)), 'reports success')
            p = v.load(st, out.ptr, 'P')
            for c in range(cells):
                for q in range(nv):
                    for d in range(dim):
                        f = face[c][2 * d + ((q >> d) & 1)]
                        away = sum((N.at(f * dim + k) * (X.at(f * dim + k) - X.at(c * dim + k)) for k in range(dim)), R(0))
                        v.ensure(st, ieq(v.load(st, p, 'I', I((c * nv + q) * dim + d)), ite(rlt(away, R(0)), I(-f), I(f))), 'face at a corner across a direction, negative if it points into the cell')
    return unit


def units(tier):
    u = [('state of the cells', state)]
    u += [('rule of the corners, %dD' % d, rule(d)) for d in (1, 2, 3)]
    for d in (2, 3):
        u += [('permeability on the reference cell, %dD' % d, pullback(d)), ('inverse, %dD' % d, inverse(d)), ('elements, %dD' % d, local_elements(d)), ('functions of a cell, %dD' % d, basis(d)), ('balance of a cell in time, %dD' % d, residual(d))]
    for d in (2, 3):
        u += [('maps and storage of %s, %dD' % (k, d), setup(k, d)) for k in ('WY',)]
        u += [('pressure on a face, %dD' % d, face_pressure(d)), ('corners of the cells, %dD' % d, corner_map(d, 60 + d)), ('faces at the corners, %dD' % d, face_map(d, 70 + d))]
        u += [('products, %dD' % d, energy(d))] + [('BDM system, %dD, %s' % (d, r), bdm_system(d, r)) for r in ('lumped', 'full') if d == 2 or r == 'lumped' or tier != 'quick']
    u += [('stencil of a vertex, %d faces, %d cells' % s, stencil(*s)) for s in ((2, 1), (3, 2), (4, 4), (3, 1), (5, 2), (5, 5), (8, 4), (12, 8))]
    u += [('velocities at a vertex, %d faces' % s, recover(s)) for s in (2, 3, 4, 5, 8, 12)]
    u += [('system of a vertex, %s' % n, system(n, i)) for i, n in enumerate(SHAPES) if n != 'inner3' or tier != 'quick'] + [('velocities of a vertex, %s' % n, velocities(n, 40 + i)) for i, n in enumerate(SHAPES)]
    return u
