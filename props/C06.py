"""Geometry kernel: vectors, areas, volumes, normals, planes, 3x3 matrices."""
import math
from fractions import Fraction
from tdyver.harness import *

SRCS = ['src/tdyutils.c']


def vec(v, n, k=3, ro=True):
    return v.array(n, 'R', k, readonly=ro)


def el(a, st=None):
    return [a.now(st, I(i)) if st is not None else a.at(I(i)) for i in range(3)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def diff(a, b):
    return [a[i] - b[i] for i in range(3)]


def one(v, *a):
    (st, r), = v.call(*a)
    v.ensure(st, ieq(r, I(0)), 'reports success')
    return st


def products(newv):
    v = newv()
    a, b = vec(v, 'a'), vec(v, 'b')
    c, d = vec(v, 'c', ro=False), vec(v, 'd', 1, False)
    A, B_ = el(a), el(b)
    st = one(v, 'TDyCrossProduct', a, b, c)
    C = el(c, st)
    v.ensure(st, req(dot(C, A), R(0)), 'the cross product is normal to the first factor')
    v.ensure(st, req(dot(C, B_), R(0)), 'the cross product is normal to the second factor')
    v.ensure(st, req(dot(C, C), dot(A, A) * dot(B_, B_) - dot(A, B_) * dot(A, B_)), 'its length is the area spanned (Lagrange identity)')
    v.ensure(st, req(C[2], A[0] * B_[1] - A[1] * B_[0]), 'the factors and their product are right-handed')
    st = one(v, 'TDyDotProduct', a, b, d)
    v.ensure(st, req(d.now(st, 0), dot(A, B_)), 'dot product')
    st = one(v, 'Norm', a, d)
    v.ensure(st, rle(R(0), d.now(st, 0)), 'the norm is not negative')
    v.ensure(st, req(d.now(st, 0) * d.now(st, 0), dot(A, A)), 'the norm squared is the sum of squares')
    st = one(v, 'TDyCreateVecJoiningTwoVertices', a, b, c)
    for i in range(3):
        v.ensure(st, req(c.now(st, I(i)), B_[i] - A[i]), 'vector from the first to the second point')


def length(dim):
    def f(newv):
        v = newv()
        a, b = vec(v, 'a'), vec(v, 'b')
        d = vec(v, 'd', 1, False)
        st = one(v, 'TDyComputeLength', a, b, I(dim), d)
        D = diff(el(a), el(b))[:dim]
        s = R(0)
        for x in D:
            s = s + x * x
        v.ensure(st, rle(R(0), d.now(st, 0)), 'the distance is not negative')
        v.ensure(st, req(d.now(st, 0) * d.now(st, 0), s), 'the distance squared is the sum of the squared differences')
    return f


def unit(newv):
    v = newv()
    a = vec(v, 'a', ro=False)
    A = el(a)
    v.requires(rlt(R(0), dot(A, A)), 'the vector is not zero')
    st = one(v, 'ConvertToUnitVector', a)
    U = el(a, st)
    v.ensure(st, req(dot(U, U), R(1)), 'the result has length one')
    for x in cross(U, A):
        v.ensure(st, req(x, R(0)), 'the direction is kept')
    v.ensure(st, rlt(R(0), dot(U, A)), 'the orientation is kept')


def unit_join(newv):
    v = newv()
    a, b, n = vec(v, 'a'), vec(v, 'b'), vec(v, 'n', ro=False)
    D = diff(el(b), el(a))
    v.requires(rlt(R(0), dot(D, D)), 'the points differ')
    st = one(v, 'TDyUnitNormalVectorJoiningTwoVertices', a, b, n)
    U = el(n, st)
    v.ensure(st, req(dot(U, U), R(1)), 'the result has length one')
    for x in cross(U, D):
        v.ensure(st, req(x, R(0)), 'it points along the line from the first to the second point')
    v.ensure(st, rlt(R(0), dot(U, D)), 'it points from the first to the second point')


def triangle(newv):
    v = newv()
    p = [vec(v, 'p%d' % i) for i in range(3)]
    ar, n = vec(v, 'area', 1, False), vec(v, 'n', ro=False)
    P = [el(q) for q in p]
    a, b = diff(P[1], P[0]), diff(P[2], P[0])
    st = one(v, 'TDyTriangleArea', p[0], p[1], p[2], ar)
    lag = dot(a, a) * dot(b, b) - dot(a, b) * dot(a, b)
    v.ensure(st, rle(R(0), ar.now(st, 0)), 'the area is not negative')
    v.ensure(st, req(R(4) * ar.now(st, 0) * ar.now(st, 0), lag), 'area of the triangle')
    A1 = ar.now(st, 0)
    st = one(v, 'TDyTriangleArea', p[2], p[0], p[1], ar)
    v.ensure(st, req(ar.now(st, 0) * ar.now(st, 0), A1 * A1), 'the area does not depend on the first corner')
    st = one(v, 'TDyTriangleArea', p[1], p[0], p[2], ar)
    v.ensure(st, req(ar.now(st, 0) * ar.now(st, 0), A1 * A1), 'the area does not depend on the sense')
    st = one(v, 'TDyNormalToTriangle', p[0], p[1], p[2], n)
    N = el(n, st)
    v.ensure(st, and_(req(dot(N, a), R(0)), req(dot(N, b), R(0))), 'the normal is normal to the edges')
    v.ensure(st, req(dot(N, N), lag), 'the length of the normal is twice the area')
    v.ensure(st, req(N[2], a[0] * b[1] - a[1] * b[0]), 'the normal and the sense of the corners are right-handed')
    st = one(v, 'TDyUnitNormalToTriangle', p[0], p[1], p[2], n)
    v.ensure(st, and_(req(dot(el(n, st), a) , R(0)), req(dot(el(n, st), b), R(0))), 'the unit normal is normal to the edges')


def unit_triangle(newv):
    v = newv()
    p = [vec(v, 'p%d' % i) for i in range(3)]
    n = vec(v, 'n', ro=False)
    P = [el(q) for q in p]
    a, b = diff(P[1], P[0]), diff(P[2], P[0])
    C = cross(a, b)
    v.requires(rlt(R(0), dot(C, C)), 'the corners are not on one line')
    st = one(v, 'TDyUnitNormalToTriangle', p[0], p[1], p[2], n)
    N = el(n, st)
    v.ensure(st, req(dot(N, N), R(1)), 'the result has length one')
    v.ensure(st, req(dot(N, C), tm.sqrt(dot(C, C))), 'the normal and the sense of the corners are right-handed')


def parallelogram(newv):
    """area and normal of every parallelogram"""
    v = newv()
    o, e, g = [[v.real('%s%d' % (n, i)) for i in range(3)] for n in 'oeg']
    corner = [o, [o[i] + e[i] for i in range(3)], [o[i] + e[i] + g[i] for i in range(3)], [o[i] + g[i] for i in range(3)]]
    p = []
    for k in range(4):
        a = v.array('p%d' % k, 'R', 3, readonly=True, init=lambda i, c=corner[k]: ite(ieq(i, I(0)), c[0], ite(ieq(i, I(1)), c[1], c[2])))
        p.append(a)
    ar = vec(v, 'area', 1, False)
    lag = dot(e, e) * dot(g, g) - dot(e, g) * dot(e, g)
    st = one(v, 'TDyQuadrilateralArea', p[0], p[1], p[2], p[3], ar)
    v.ensure(st, rle(R(0), ar.now(st, 0)), 'the area is not negative')
    v.ensure(st, req(ar.now(st, 0) * ar.now(st, 0), lag), 'area of a parallelogram')


def quad_normal(newv):
    v = newv()
    p = [vec(v, 'p%d' % i) for i in range(4)]
    P = [el(q) for q in p]
    n = vec(v, 'n', ro=False)
    c = [(P[0][i] + P[1][i] + P[2][i] + P[3][i]) / R(4) for i in range(3)]
    for k in range(4):
        C = cross(diff(P[k], c), diff(P[(k + 1) % 4], c))
        v.requires(rlt(R(0), dot(C, C)), 'no three corners and centre on one line')
    st = one(v, 'TDyNormalToQuadrilateral', p[0], p[1], p[2], p[3], n)
    for i in range(3):
        s = R(0)
        for k in range(4):
            C = cross(diff(P[k], c), diff(P[(k + 1) % 4], c))
            s = s + C[i] / tm.sqrt(dot(C, C))
        v.ensure(st, req(n.now(st, I(i)), s / R(4)), 'mean of the unit normals of the four triangles around the centre')


def quad_area(newv):
    v = newv()
    p = [vec(v, 'p%d' % i) for i in range(4)]
    P = [el(q) for q in p]
    ar = vec(v, 'area', 1, False)
    c = [(P[0][i] + P[1][i] + P[2][i] + P[3][i]) / R(4) for i in range(3)]
    st = one(v, 'TDyQuadrilateralArea', p[0], p[1], p[2], p[3], ar)
    s = R(0)
    for k in range(4):
        C = cross(diff(P[k], c), diff(P[(k + 1) % 4], c))
        s = s + R(1) / R(2) * tm.sqrt(dot(C, C))
    v.ensure(st, req(ar.now(st, 0), s), 'sum of the areas of the four triangles around the centre')


def tetra(fn):
    def f(newv):
        v = newv()
        p = [vec(v, 'p%d' % i) for i in range(4)]
        P = [el(q) for q in p]
        vol = vec(v, 'volume', 1, False)
        a, b, c = [diff(P[k], P[0]) for k in (1, 2, 3)]
        det = dot(a, cross(b, c))
        st = one(v, fn, *p, vol)
        V = vol.now(st, 0)
        v.ensure(st, rle(R(0), V), 'the volume is not negative')
        v.ensure(st, req(R(36) * V * V, det * det), 'the volume is a sixth of the absolute determinant of the edges')
    return f


def matrix(newv):
    v = newv()
    a = vec(v, 'a', 9, False)
    inv, d = vec(v, 'inv', 9, False), vec(v, 'det', 1, False)
    A = [a.at(I(i)) for i in range(9)]
    det = dot(A[0:3], cross(A[3:6], A[6:9]))
    st = one(v, 'ComputeDeterminantOf3by3Matrix', a, d)
    v.ensure(st, req(d.now(st, 0), det), 'determinant')
    for i in range(9):
        v.ensure(st, req(a.now(st, I(i)), A[i]), 'the matrix itself is left as it was')
    v.requires(not_(req(det, R(0))), 'the matrix is regular')
    st = one(v, 'ComputeInverseOf3by3Matrix', a, inv)
    N = [inv.now(st, I(i)) for i in range(9)]
    for i in range(3):
        for j in range(3):
            s = A[3 * i] * N[j] + A[3 * i + 1] * N[3 + j] + A[3 * i + 2] * N[6 + j]
            v.ensure(st, req(s, R(1 if i == j else 0)), 'matrix times inverse is the identity, entry (%d,%d)' % (i, j))
    for i in range(9):
        v.ensure(st, req(a.now(st, I(i)), A[i]), 'the matrix itself is left as it was')


def plane(newv):
    v = newv()
    p = [vec(v, 'p%d' % i) for i in range(3)]
    pl = vec(v, 'plane', 4, False)
    P = [el(q) for q in p]
    st = one(v, 'ComputePlaneGeometry', *p, pl)
    L = [pl.now(st, I(i)) for i in range(4)]
    for q in P:
        v.ensure(st, req(dot(L[:3], q) + L[3], R(0)), 'the three points are in the plane')
    C = cross(diff(P[1], P[0]), diff(P[2], P[0]))
    v.ensure(st, req(dot(L[:3], L[:3]), dot(C, C)), 'the plane is not degenerate unless the points are on one line')


def intercept(newv):
    v = newv()
    pl = vec(v, 'plane', 4)
    a, b, x = vec(v, 'a'), vec(v, 'b'), vec(v, 'x', ro=False)
    L = [pl.at(I(i)) for i in range(4)]
    A, B_ = el(a), el(b)
    v.requires(not_(req(dot(L[:3], diff(A, B_)), R(0))), 'the line is not parallel to the plane')
    st = one(v, 'GeometryGetPlaneIntercept', pl, a, b, x)
    X = el(x, st)
    v.ensure(st, req(dot(L[:3], X) + L[3], R(0)), 'the intercept is in the plane')
    for c in cross(diff(X, A), diff(B_, A)):
        v.ensure(st, req(c, R(0)), 'the intercept is on the line')


def project(newv):
    v = newv()
    pl = vec(v, 'plane', 4)
    a, x = vec(v, 'a'), vec(v, 'x', ro=False)
    L = [pl.at(I(i)) for i in range(4)]
    A = el(a)
    v.requires(rlt(R(0), dot(L[:3], L[:3])), 'the plane is not degenerate')
    st = one(v, 'GeometryProjectPointOnPlane', pl, a, x)
    X = el(x, st)
    v.ensure(st, req(dot(L[:3], X) + L[3], R(0)), 'the projection is in the plane')
    for c in cross(diff(X, A), L[:3]):
        v.ensure(st, req(c, R(0)), 'the projection is along the normal')


def theta(newv):
    v = newv()
    x, y = v.real('x'), v.real('y')
    t = vec(v, 'theta', 1, False)
    st = one(v, 'ComputeTheta', x, y, t)
    T = t.now(st, 0)
    pi = R(math.pi)

    def close(a, b):
        e = R(Fraction(1, 10 ** 14))
        return and_(rle(a - b, e), rle(b - a, e))
    at = tm.fn('atan', y / x)
    z = R(0)
    v.ensure(st, implies(and_(rlt(z, x), rle(z, y)), close(T, at)), 'first quadrant')
    v.ensure(st, implies(and_(rlt(z, x), rlt(y, z)), close(T - at, R(2) * pi)), 'fourth quadrant')
    v.ensure(st, implies(rlt(x, z), close(T - at, pi)), 'second and third quadrant')
    v.ensure(st, implies(and_(req(x, z), rlt(z, y)), close(T, pi / R(2))), 'upwards')
    v.ensure(st, implies(and_(req(x, z), rlt(y, z)), close(T, R(Fraction(3, 2)) * pi)), 'downwards')


def in_list(newv):
    v = newv()
    n = v.int('n')
    v.requires(ile(I(1), n))
    l = v.array('list', 'I', n, readonly=True)
    j = v.int('j')
    v.requires(and_(ile(I(0), j), ilt(j, n)))
    val = v.int('value')
    v.requires(ieq(l.at(j), val), 'the value is in the list')
    for st, r in v.call('TDyReturnIndexInList', l, n, val, expect=None):
        v.ensure(st, and_(ile(I(0), r), ilt(r, n)), 'the index is inside the list')
        v.ensure(st, ieq(l.at(r), val), 'the value is at the index returned')
        v.ensure(st, ile(r, j), 'it is the first such index')


def not_in_list(newv):
    v = newv()
    n = v.int('n')
    v.requires(ile(I(0), n))
    val = v.int('value')
    l = v.array('list', 'I', n, readonly=True)
    k = v.int('k')
    v.requires(forall(k, I(0), n, not_(ieq(l.at(k), val))))
    v.must_fail('TDyReturnIndexInList', l, n, val, text='a value that is not in the list is an error')


def units(tier):
    return [('vector products', products), ('length 1D', length(1)), ('length 2D', length(2)), ('length 3D', length(3)), ('unit vector', unit), ('unit vector between points', unit_join),
            ('triangle', triangle), ('unit normal of a triangle', unit_triangle), ('quadrilateral area', quad_area), ('parallelogram', parallelogram),
            ('quadrilateral normal', quad_normal), ('tetrahedron volume', tetra('TDyComputeVolumeOfTetrahedron')), ('tetrahedron volume (custom mesh)', tetra('VolumeofTetrahedron')),
            ('3x3 matrix', matrix), ('plane through points', plane), ('line and plane', intercept), ('projection on a plane', project), ('angle', theta),
            ('position in a list', in_list), ('value not in a list', not_in_list)]
