"""Contracts assumed for PETSc, MPI and libc.  These are the trusted external
contracts; each use is counted and reported in the evidence."""
from .terms import *
from . import ir
from .exec import Unsupported, Obj, K, Content
from .solve import CTX, relevant

M = {}
DOC = {}


def model(*names, doc=''):
    def d(f):
        for n in names:
            M[n] = f
            DOC[n] = doc
        return f
    return d


def ok(st):
    return [(st, I(0))]


def noeffect(*names, doc='returns 0, no effect on the data under verification'):
    for n in names:
        M[n] = lambda ex, fr, x, st, a: ok(st)
        DOC[n] = doc


noeffect('PetscLogEventBegin', 'PetscLogEventEnd', 'PetscPrintf', 'PetscFPrintf', 'printf', 'fprintf', 'PetscInfo_Private',
         'VecAssemblyBegin', 'VecAssemblyEnd', 'MatAssemblyBegin', 'MatAssemblyEnd', 'PetscHeaderDestroy_Private',
         'PetscObjectSetName', 'PetscSynchronizedPrintf', 'PetscSynchronizedFlush', 'VecView', 'MatView', 'PetscViewerDestroy',
         'PetscStackPushNoCheck', 'TDyEnterProfilingStage', 'TDyExitProfilingStage', 'fflush', 'puts', 'putchar',
         'TDyDebugEnterFunction', 'PetscLogFlops', 'PetscObjectStateIncrease', 'VecLockReadPush', 'VecLockReadPop')


@model('TDyGetTimer', doc='profiling timer registry: returns an event id, no effect on the data')
def _timer(ex, fr, x, st, a):
    return ok(st)


@model('PetscError', doc='error exit: the path ends with an error reported to the caller')
def _err(ex, fr, x, st, a):
    if not ex.mute:
        ex.errors.append((st.facts(), ex.where(fr, x)))
    return []


M['MPI_Abort'] = M['abort'] = M['exit'] = M['PetscEnd'] = _err
M['__assert_fail'] = _err


def fnmath(n, f):
    M[n] = lambda ex, fr, x, st, a: [(st, f(*a))]
    DOC[n] = 'mathematical function on the reals'


fnmath('llvm.pow.f64', power)
fnmath('pow', power)
fnmath('llvm.exp.f64', exp)
fnmath('exp', exp)
fnmath('llvm.log.f64', log)
fnmath('log', log)
fnmath('llvm.sqrt.f64', sqrt)
fnmath('sqrt', sqrt)
fnmath('llvm.fabs.f64', absr)
fnmath('fabs', absr)
fnmath('llvm.floor.f64', floor_r)
fnmath('floor', floor_r)
for _n in ('sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'log10', 'round', 'ceil'):
    fnmath(_n, lambda *a, n=_n: fn(n, *a))
    fnmath('llvm.%s.f64' % _n, lambda *a, n=_n: fn(n, *a))
fnmath('llvm.abs.i32', lambda a, b=None: ite(ilt(a, I(0)), neg(a), a))
fnmath('abs', lambda a: ite(ilt(a, I(0)), neg(a), a))
M['llvm.stacksave.p0'] = lambda ex, fr, x, st, a: [(st, mk('fptr', ('stack',) + tuple(n for n in fr.vlas if any(k[0] == n for k in st.mem)), 'P'))]


def stackrestore(ex, fr, x, st, a):
    # variable length arrays created since go out of scope
    if a[0].op == 'fptr' and a[0].args[0] == 'stack':
        for k in [k for k in st.mem if k[0] in fr.vlas and k[0] not in a[0].args[1:]]:
            del st.mem[k]
    return [(st, None)]


M['llvm.stackrestore.p0'] = stackrestore


# --------------------------------------------------------------- raw memory
def parts(ex, p):
    if p.op != 'ptr':
        raise Unsupported('memory block at unspecified pointer %s' % show(p, 3))
    return ex._ptr_parts(p)


def set_range(ex, st, p, nbytes, valf, where, residues=None):
    """store valf(sort) in every element of [p, p+nbytes)"""
    o, params, off = parts(ex, p)
    s = o.stride
    c0, items = isplit(off)
    if any(k % s for m, k in items) or c0 % s:
        # part of one element (struct member)
        if nbytes.op == 'num' and off.op == 'num':
            lo, hi = off.args[0], off.args[0] + nbytes.args[0]
            fl = o.fields
            for r, (nm, sort, size) in fl.items():
                if lo <= r < hi:
                    ex.store(st, mk('ptr', (o.name,) + tuple(params) + (I(r),), 'P'), valf(sort), size, where)
            return
        raise Unsupported('memory block inside %s' % o.name)
    lo = fdiv_i(off, I(s))
    if nbytes.op == 'num' and nbytes.args[0] % s:
        if nbytes.args[0] < s and off.op == 'num':
            for r, (nm, sort, size) in o.fields.items():
                if r < nbytes.args[0]:
                    ex.store(st, mk('ptr', (o.name,) + tuple(params) + (add(off, I(r)),), 'P'), valf(sort), size, where)
            return
        raise Unsupported('partial element in memory block')
    cnt = fdiv_i(nbytes, I(s)) if nbytes.op == 'num' or nbytes.op == 'ipoly' or s == 1 else fdiv_i(nbytes, I(s))
    if cnt.op == 'ifloordiv':
        raise Unsupported('memory block of %s bytes over elements of %d' % (show(nbytes, 3), s))
    hi = add(lo, cnt)
    # bounds
    if o.count is not None and not ex.mute and ex.check_bounds:
        n = o.count(*params)
        if n is not None:
            ex.oblige('bounds', st, or_(ile(cnt, I(0)), and_(ile(I(0), lo), ile(hi, n))), '%s block write %s' % (where, o.name))
    res = set(o.types) | set(o.fields)
    for k in st.mem:
        if k[0] == o.name:
            res.add(k[1])
    if not res:
        res = {0}
        o.types[0] = (getattr(o, 'elem', None) or guess(o))
    for r in sorted(res):
        if r in o.fields:
            sort, size = o.fields[r][1:]
        elif r in o.types:
            sort, size = o.types[r]
        else:
            sort, size = st.mem[(o.name, r)].base.sort, 8
        c = ex.plane(st, o, r, sort, size)
        v = valf(sort)
        if o.nparams == 0 and lo.op == 'num' and cnt.op == 'num' and cnt.args[0] <= 256:
            ov = dict(c.over)
            for i in range(lo.args[0], lo.args[0] + cnt.args[0]):
                ov[i] = v
            st.mem[(o.name, r)] = Content(c.base, ov)
        else:
            b = ex.flush(c) if o.nparams == 0 else c.base
            k = K(o.nparams)
            g = and_(ile(lo, k), ilt(k, hi))
            for i, pr in enumerate(params):
                g = and_(g, ieq(K(i), pr))
            st.mem[(o.name, r)] = Content(ite(g, v, b))


def guess(o):
    return ('R', 8) if o.stride == 8 else ('I', o.stride)


def zero(sort):
    return {'R': R(0), 'I': I(0), 'P': NULL}[sort]


@model('llvm.memset.p0.i64', 'memset', doc='fills the block with the byte value (0 supported)')
def _memset(ex, fr, x, st, a):
    v = a[1]
    if v.op != 'num' or v.args[0] not in (0,):
        raise Unsupported('memset with a non-zero byte')
    set_range(ex, st, a[0], a[2], zero, ex.where(fr, x))
    return [(st, a[0])]


@model('PetscMemzero', doc='zeroes the block')
def _pmz(ex, fr, x, st, a):
    set_range(ex, st, a[0], a[1], zero, ex.where(fr, x))
    return ok(st)


def restride(ex, st, o, s):
    """the element size of a block whose elements have not been looked at yet"""
    if o.kind == 'heap' and o.stride > s > 0 and o.stride % s == 0 and s >= 4 and not o.types and not any(k[0] == o.name for k in st.mem):
        nb, lc = o.nbytes, o.lc

        def count(*ps):
            n = fdiv_i(nb, I(s))
            return subst(n, dict(zip(lc, ps))) if lc else n
        o.stride = s
        o.count = count


def store_range(ex, st, p, cnt, sort, fn, where):
    """element i of the block at p becomes fn(i), 0 <= i < cnt"""
    o, params, off = parts(ex, p)
    size = {'R': 8, 'I': 4, 'P': 8}[sort]
    if o.kind == 'heap':
        restride(ex, st, o, size)
    s = o.stride
    c0, items = isplit(off)
    if s != size or c0 % s or any(k % s for m, k in items):
        if cnt.op == 'num' and cnt.args[0] <= 64:
            for i in range(cnt.args[0]):
                ex.store(st, ex.padd(p, I(i * size)), fn(I(i)), size, where)
            return
        raise Unsupported('block of %s in %s' % (sort, o.name))
    lo = fdiv_i(off, I(s))
    if o.readonly:
        ex.oblige('frame', st, FALSE, '%s writes %s' % (where, o.name))
    if o.count is not None and not ex.mute and ex.check_bounds:
        n = o.count(*params)
        if n is not None:
            ex.oblige('bounds', st, or_(ile(cnt, I(0)), and_(ile(I(0), lo), ile(add(lo, cnt), n))), '%s block write %s' % (where, o.name))
    c = ex.plane(st, o, 0, sort, size)
    if o.nparams == 0 and lo.op == 'num' and cnt.op == 'num' and cnt.args[0] <= 256:
        ov = dict(c.over)
        for i in range(cnt.args[0]):
            ov[lo.args[0] + i] = fn(I(i))
        st.mem[(o.name, 0)] = Content(c.base, ov)
        return
    b = ex.flush(c) if o.nparams == 0 else c.base
    k = K(o.nparams)
    g = and_(ile(lo, k), ilt(k, add(lo, cnt)))
    for i, pr in enumerate(params):
        g = and_(g, ieq(K(i), pr))
    st.mem[(o.name, 0)] = Content(ite(g, fn(sub(k, lo)), b))


def copy_range(ex, st, d, s, nbytes, where):
    od, pd, offd = parts(ex, d)
    os_, ps, offs = parts(ex, s)
    restride(ex, st, od, os_.stride)
    restride(ex, st, os_, od.stride)
    sd, ss = od.stride, os_.stride
    if sd != ss or any(t.op == 'num' and t.args[0] % sd for t in (offd, offs, nbytes)):
        # same-layout small blocks: copy by known scalars
        if nbytes.op == 'num' and nbytes.args[0] <= 4096:
            n = nbytes.args[0]
            res = {}
            for o, off in ((os_, offs), (od, offd)):
                for r, t in list(o.types.items()) + [(r, f[1:]) for r, f in o.fields.items()]:
                    z = t[1]
                    if o.stride <= 8:
                        for b in range(0, n, o.stride):
                            res.setdefault(b, t)
                    elif off.op == 'num':
                        q = r - off.args[0]
                        if 0 <= q < n:
                            res.setdefault(q, t)
            if not res and ss <= 8:
                res = {b: guess(os_) for b in range(0, n, ss)}
            elif not res and sd <= 8:
                res = {b: guess(od) for b in range(0, n, sd)}
            for b, (sort, size) in sorted(res.items()):
                v = ex.load(st, ex.padd(s, I(b)), sort, size, where)
                ex.store(st, ex.padd(d, I(b)), v, size, where)
            return
        raise Unsupported('block copy between layouts')
    lo_d, lo_s = fdiv_i(offd, I(sd)), fdiv_i(offs, I(ss))
    cnt = fdiv_i(nbytes, I(sd))
    if any(I(sd) * q is not t for q, t in ((cnt, nbytes), (lo_d, offd), (lo_s, offs))):
        raise Unsupported('block copy size')
    for o, lo, params, w in ((od, lo_d, pd, 'write'), (os_, lo_s, ps, 'read')):
        if o.count is not None and not ex.mute and ex.check_bounds:
            n = o.count(*params)
            if n is not None:
                ex.oblige('bounds', st, or_(ile(cnt, I(0)), and_(ile(I(0), lo), ile(add(lo, cnt), n))), '%s block %s %s' % (where, w, o.name))
    if od.readonly:
        ex.oblige('frame', st, FALSE, '%s writes %s' % (where, od.name))
    res = {}
    for o in (os_, od):
        for r, t in o.types.items():
            res[r] = t
        for r, f in o.fields.items():
            res[r] = f[1:]
    if not res:
        res = {0: guess(od)}
    for r, (sort, size) in sorted(res.items()):
        cs = ex.plane(st, os_, r, sort, size)
        cd = ex.plane(st, od, r, sort, size)
        if od.nparams == 0 and lo_d.op == 'num' and cnt.op == 'num' and cnt.args[0] <= 256:
            ov = dict(cd.over)
            for i in range(cnt.args[0]):
                ov[lo_d.args[0] + i] = ex.sel(os_, cs, ps, add(lo_s, I(i)))
            st.mem[(od.name, r)] = Content(cd.base, ov)
        else:
            b = ex.flush(cd) if od.nparams == 0 else cd.base
            k = K(od.nparams)
            g = and_(ile(lo_d, k), ilt(k, add(lo_d, cnt)))
            for i, pr in enumerate(pd):
                g = and_(g, ieq(K(i), pr))
            v = ex.sel(os_, cs, ps, add(sub(k, lo_d), lo_s))
            st.mem[(od.name, r)] = Content(ite(g, v, b))


@model('llvm.memcpy.p0.p0.i64', 'memcpy', 'llvm.memmove.p0.p0.i64', 'memmove', doc='copies the block')
def _memcpy(ex, fr, x, st, a):
    copy_range(ex, st, a[0], a[1], a[2], ex.where(fr, x))
    return [(st, a[0])]


@model('PetscMemcpy', doc='copies the block')
def _pmemcpy(ex, fr, x, st, a):
    copy_range(ex, st, a[0], a[1], a[2], ex.where(fr, x))
    return ok(st)


# --------------------------------------------------------------- allocation
def alloc(ex, fr, x, st, nbytes, zeroed, tag=None):
    where = ex.where(fr, x)
    nm = ex.site(st, fr, 'heap', '%s%s' % (where, '' if tag is None else '.%s' % tag))
    lc = tuple(fr.loopctx)
    np_ = len(lc)
    o = ex.objs.get(nm)
    if o is None or o.nparams != np_:
        o = Obj(nm, np_, stride=None, kind='heap')
        ex.objs[nm] = o
    o.nbytes = nbytes
    o.zeroed = zeroed
    o.lc = lc
    # the element layout is fixed at the first use
    def init(res, sort, size, kargs, nm=nm):
        if o.zeroed:
            return zero(sort)
        return app('undef:%s.%s' % (nm, res), kargs, sort) if True else None
    o.init = init
    if o.stride is None:
        o.stride = heap_stride(nbytes)
    bs = o.stride

    def count(*ps):
        n = fdiv_i(o.nbytes, I(bs))
        if o.lc:
            n = subst(n, dict(zip(o.lc, ps)))
        return n
    o.count = count
    st.dead = st.dead - {nm}
    return mk('ptr', (nm,) + lc + (I(0),), 'P')


def heap_stride(nbytes):
    """element size: gcd of the coefficients of the byte count"""
    c, items = isplit(nbytes)
    from math import gcd
    g = abs(c)
    for m, k in items:
        g = gcd(g, abs(k))
    if not items:
        return max(1, c)        # a single struct (or a constant-size array): refined by fields
    return g or 1


@model('PetscMallocA', doc='allocates disjoint blocks, optionally zeroed; never fails')
def _mallocA(ex, fr, x, st, a):
    n = a[0].args[0]
    z = a[1]
    zeroed = not (z is FALSE or (z.op == 'num' and z.args[0] == 0))
    rest = a[5:]
    for i in range(n):
        size, out = rest[2 * i], rest[2 * i + 1]
        p = alloc(ex, fr, x, st, size, zeroed, i)
        elem_from(ex, st, p, out)
        ex.store(st, out, p, 8, ex.where(fr, x))
    return ok(st)


def elem_from(ex, st, p, out):
    pass


@model('malloc', doc='allocates a block; never fails')
def _malloc(ex, fr, x, st, a):
    return [(st, alloc(ex, fr, x, st, a[0], False))]


@model('calloc', doc='allocates a zeroed block; never fails')
def _calloc(ex, fr, x, st, a):
    return [(st, alloc(ex, fr, x, st, mul(a[0], a[1]), True))]


def do_free(ex, fr, x, st, p):
    if p.op == 'ptr':
        o, params, off = ex._ptr_parts(p)
        ex.oblige('free', st, ieq(off, I(0)), ex.where(fr, x) + ' frees ' + o.name)
        if o.kind == 'local':
            ex.oblige('free', st, FALSE, ex.where(fr, x) + ' frees a local')
        fl = st.ghost.get('freed', ())
        st.ghost['freed'] = fl + ((p,),)
        if o.nparams == 0:
            if o.name in st.dead:
                ex.oblige('double-free', st, FALSE, ex.where(fr, x))
            st.dead = st.dead | {o.name}


@model('free', doc='releases the block')
def _free(ex, fr, x, st, a):
    do_free(ex, fr, x, st, a[0])
    return [(st, None)]


def _trfree(ex, fr, x, st, a, fp=None):
    do_free(ex, fr, x, st, a[0])
    return ok(st)


M['@PetscTrFree'] = _trfree
DOC['@PetscTrFree'] = 'releases the block (PetscFree)'


def _trmalloc(ex, fr, x, st, a, fp=None):
    # (*PetscTrMalloc)(size, clear, line, func, file, void **ptr)
    z = a[1]
    zeroed = not (z is FALSE or (z.op == 'num' and z.args[0] == 0))
    p = alloc(ex, fr, x, st, a[0], zeroed)
    ex.store(st, a[5], p, 8, ex.where(fr, x))
    return ok(st)


M['@PetscTrMalloc'] = _trmalloc
DOC['@PetscTrMalloc'] = 'allocates a block (PetscMalloc)'


def det(A):
    """determinant by cofactors along the sparsest column"""
    n = len(A)
    if n == 1:
        return A[0][0]
    zero = lambda t: t.op == 'num' and t.args[0] == 0
    j = max(range(n), key=lambda j: sum(1 for i in range(n) if zero(A[i][j])))
    r = R(0)
    for i in range(n):
        if zero(A[i][j]):
            continue
        m = det([[A[p][q] for q in range(n) if q != j] for p in range(n) if p != i])
        t = mul(A[i][j], m)
        r = add(r, t) if (i + j) % 2 == 0 else sub(r, t)
    return r


@model('dgesv_', doc='LAPACK: with info=0 solves A x = b (column major) exactly; info>0 exactly when A is singular; A and ipiv overwritten')
def _dgesv(ex, fr, x, st, a):
    w = ex.where(fr, x)
    n, nrhs, lda, ldb = (ex.load(st, a[i], 'I', 4, w) for i in (0, 1, 3, 6))
    if any(t.op != 'num' for t in (n, nrhs, lda, ldb)) or nrhs.args[0] != 1:
        raise Unsupported('dgesv with symbolic sizes')
    n, lda = n.args[0], lda.args[0]
    A = [[ex.load(st, ex.padd(a[2], I(8 * (i + j * lda))), 'R', 8, w) for j in range(n)] for i in range(n)]
    b = [ex.load(st, ex.padd(a[5], I(8 * i)), 'R', 8, w) for i in range(n)]
    d = det(A)
    sol = []
    for j in range(n):
        Aj = [[b[i] if q == j else A[i][q] for q in range(n)] for i in range(n)]
        sol.append(rdiv(det(Aj), d))
    ex.__dict__.setdefault('dgesv', []).append((A, b, sol, d))
    for j in range(n):
        ex.store(st, ex.padd(a[5], I(8 * j)), sol[j], 8, w)
        ex.store(st, ex.padd(a[4], I(4 * j)), ex.fresh(st, fr, 'ipiv%d' % j, w, 'I'), 4, w)
        for i in range(n):
            ex.store(st, ex.padd(a[2], I(8 * (i + j * lda))), ex.fresh(st, fr, 'lu%d.%d' % (i, j), w, 'R'), 8, w)
    ex.store(st, a[7], ite(req(d, R(0)), I(1), I(0)), 4, w)
    return [(st, I(0))]


# --------------------------------------------------------------- khash maps
KH_DOC = 'khash map contract: put makes a key present, get finds the slot of a present key and the end otherwise; slots of different keys differ'


def kh_make(ex, st, nm, present=None, vals=None, size=None):
    """a map object; slots are named 2*key, the end is -1"""
    o = ex.objs.get(nm)
    if o is None:
        o = Obj(nm, 0, stride=40, kind='heap', count=lambda *p: I(1))
        o.fields = {0: ('n_buckets', 'I', 4), 4: ('size', 'I', 4), 16: ('flags', 'P', 8), 24: ('keys', 'P', 8), 32: ('vals', 'P', 8)}
        ex.objs[nm] = o
        pv = Obj(nm + '.present', 0, stride=4, kind='heap')
        pv.init = (lambda res, s, z, k: present(k[0])) if present else (lambda res, s, z, k: I(0))
        ex.objs[pv.name] = pv
        vv = Obj(nm + '.vals', 0, stride=4, kind='heap')
        if vals:
            vv.init = lambda res, s, z, k: vals(k[0])
        ex.objs[vv.name] = vv
    for n in (nm, nm + '.present', nm + '.vals'):
        st.dead = st.dead - {n}
        for k in [k for k in st.mem if k[0] == n]:
            del st.mem[k]
    st.mem[(nm, 0)] = Content(I(-1))
    st.mem[(nm, 4)] = Content(I(0) if size is None else size)
    st.mem[(nm, 32)] = Content(ex.objs[nm + '.vals'].ptr())
    return o.ptr()


def kh_name(p):
    if p.op != 'ptr':
        raise Unsupported('hash map at unspecified pointer %s' % show(p, 3))
    return p.args[0]


def _kh_init(ex, fr, x, st, a):
    return [(st, kh_make(ex, st, ex.site(st, fr, 'khash', ex.where(fr, x))))]


def _kh_put(ex, fr, x, st, a):
    w = ex.where(fr, x)
    nm = kh_name(a[0])
    key = a[1]
    pv = ex.objs[nm + '.present']
    pp = pv.ptr(off=mul(I(4), key))
    old = ex.load(st, pp, 'I', 4, w)
    ex.store(st, a[2], ite(ieq(old, I(0)), I(1), I(0)), 4, w)
    ex.store(st, pp, I(1), 4, w)
    f = ex.fresh(st, fr, 'khsize', w, 'I')
    ex.store(st, ex.objs[nm].ptr(off=I(4)), ite(ilt(f, I(1)), I(1), f), 4, w)
    return [(st, mul(I(2), key))]


def _kh_get(ex, fr, x, st, a):
    nm = kh_name(a[0])
    pv = ex.objs[nm + '.present']
    p = ex.load(st, pv.ptr(off=mul(I(4), a[1])), 'I', 4, ex.where(fr, x))
    return [(st, ite(ieq(p, I(0)), I(-1), mul(I(2), a[1])))]


def _kh_destroy(ex, fr, x, st, a):
    if a[0].op == 'ptr':
        st.dead = st.dead | {a[0].args[0]}
    return [(st, None)]


PREFIX = {'kh_init_': _kh_init, 'kh_put_': _kh_put, 'kh_get_': _kh_get, 'kh_destroy_': _kh_destroy}
for _p in PREFIX:
    DOC[_p] = KH_DOC


def by_prefix(name):
    for p, f in PREFIX.items():
        if name.startswith(p):
            return p, f
    return None


# --------------------------------------------------------------- vectors and matrices
# A Vec handle is an object registered in ex.vecs: name -> data object (the local
# part of the vector, one block).  A Mat handle is registered in ex.mats: name ->
# object indexed by (row, column) in local numbering.

def vec_data(ex, p):
    if p.op != 'ptr' or p.args[0] not in ex.__dict__.get('vecs', {}):
        raise Unsupported('vector handle %s' % show(p, 3))
    return ex.vecs[p.args[0]]


def vec_len(o):
    return o.count()


@model('VecGetArray', 'VecGetArrayRead', 'VecGetArrayWrite', doc='gives access to the local entries of the vector')
def _vga(ex, fr, x, st, a):
    o = vec_data(ex, a[0])
    ex.store(st, a[1], o.ptr(), 8, ex.where(fr, x))
    return ok(st)


@model('VecRestoreArray', 'VecRestoreArrayRead', 'VecRestoreArrayWrite', doc='ends the access; the pointer is reset')
def _vra(ex, fr, x, st, a):
    w = ex.where(fr, x)
    o = vec_data(ex, a[0])
    p = ex.load(st, a[1], 'P', 8, w)
    ex.oblige('restore', st, peq(p, o.ptr()), w + ' restores the array of the same vector')
    ex.store(st, a[1], NULL, 8, w)
    return ok(st)


@model('VecZeroEntries', doc='all entries become zero')
def _vz(ex, fr, x, st, a):
    o = vec_data(ex, a[0])
    store_range(ex, st, o.ptr(), vec_len(o), 'R', lambda i: R(0), ex.where(fr, x))
    return ok(st)


@model('VecSet', doc='all entries take the value')
def _vset(ex, fr, x, st, a):
    o = vec_data(ex, a[0])
    store_range(ex, st, o.ptr(), vec_len(o), 'R', lambda i: a[1], ex.where(fr, x))
    return ok(st)


@model('VecCopy', doc='y := x')
def _vcopy(ex, fr, x, st, a):
    s, d = vec_data(ex, a[0]), vec_data(ex, a[1])
    w = ex.where(fr, x)
    ex.oblige('pre', st, ieq(vec_len(s), vec_len(d)), w + ' vectors have the same layout')
    copy_range(ex, st, d.ptr(), s.ptr(), mul(I(8), vec_len(d)), w)
    return ok(st)


def mat_data(ex, p):
    if p.op != 'ptr' or p.args[0] not in ex.__dict__.get('mats', {}):
        raise Unsupported('matrix handle %s' % show(p, 3))
    return ex.mats[p.args[0]]


@model('MatZeroEntries', doc='all entries become zero')
def _mz(ex, fr, x, st, a):
    o = mat_data(ex, a[0])
    if o.readonly:
        ex.oblige('frame', st, FALSE, ex.where(fr, x) + ' writes ' + o.name)
    st.mem[(o.name, 0)] = Content(R(0))
    return ok(st)


@model('MatSetValues', doc='adds to or replaces entries; negative indices are skipped')
def _msv(ex, fr, x, st, a):
    return _msvl(ex, fr, x, st, a)


@model('MatZeroRows', doc='the entries of the rows given become zero (or the value given on the diagonal)')
def _mzr(ex, fr, x, st, a):
    w = ex.where(fr, x)
    o = mat_data(ex, a[0])
    if o.readonly:
        ex.oblige('frame', st, FALSE, w + ' writes ' + o.name)
    if a[1].op != 'num':
        raise Unsupported('MatZeroRows with symbolic number of rows')
    for i in range(a[1].args[0]):
        r = ex.load(st, ex.padd(a[2], I(4 * i)), 'I', 4, w)
        c = ex.plane(st, o, 0, 'R', 8)
        base = ex.flush(c) if o.nparams == 0 else c.base
        st.mem[(o.name, 0)] = Content(ite(and_(ieq(K(0), r), ile(I(0), r)), ite(ieq(K(0), K(1)), a[3], R(0)), base))
    return ok(st)


@model('MatSetValuesLocal', doc='adds to or replaces entries given in local numbering; negative indices are skipped')
def _msvl(ex, fr, x, st, a):
    w = ex.where(fr, x)
    o = mat_data(ex, a[0])
    nr, nc = a[1], a[3]
    if nr.op == 'num' and nc.op != 'num':
        return msvl_rows(ex, st, o, nr.args[0], nc, a, w)
    if nr.op != 'num' or nc.op != 'num' or nr.args[0] * nc.args[0] > 64:
        raise Unsupported('MatSetValuesLocal with symbolic block size')
    nr, nc = nr.args[0], nc.args[0]
    md = a[6]
    if md.op != 'num' or md.args[0] not in (1, 2):
        raise Unsupported('insert mode')
    for i in range(nr):
        r = ex.load(st, ex.padd(a[2], I(4 * i)), 'I', 4, w)
        for j in range(nc):
            c = ex.load(st, ex.padd(a[4], I(4 * j)), 'I', 4, w)
            v = ex.load(st, ex.padd(a[5], I(8 * (i * nc + j))), 'R', 8, w)
            p = mk('ptr', (o.name, r, mul(I(8), c)), 'P')
            if o.rows is not None:
                ex.oblige('bounds', st, and_(ilt(r, o.rows), ilt(c, o.rows)), w + ' index in the local numbering')
            old = ex.load(st, p, 'R', 8, w)
            g = and_(ile(I(0), r), ile(I(0), c))
            ex.store(st, p, v if md.args[0] == 1 else add(old, v), 8, w, None if g is TRUE or not CTX.sat(ex.rel(st, g), (not_(g),)) else g)
    return ok(st)


def block_reader(ex, st, p, cnt, sort, where):
    """function giving element i of the block of cnt elements at p"""
    o, params, off = parts(ex, p)
    size = {'R': 8, 'I': 4, 'P': 8}[sort]
    if o.kind == 'heap':
        restride(ex, st, o, size)
    lo = fdiv_i(off, I(o.stride))
    if o.stride != size or lo.op == 'ifloordiv':
        raise Unsupported('block of %s in %s' % (sort, o.name))
    if o.count is not None and not ex.mute and ex.check_bounds:
        n = o.count(*params)
        if n is not None:
            ex.oblige('bounds', st, or_(ile(cnt, I(0)), and_(ile(I(0), lo), ile(add(lo, cnt), n))), '%s block read %s' % (where, o.name))
    return lambda i: ex.read(st, o, 0, sort, *params, add(lo, i))


def msvl_rows(ex, st, o, nr, nc, a, w):
    md = a[6]
    if md.op != 'num' or md.args[0] != 2:
        raise Unsupported('inserting a row of symbolic length')
    cols = block_reader(ex, st, a[4], nc, 'I', w)
    for i in range(nr):
        r = ex.load(st, ex.padd(a[2], I(4 * i)), 'I', 4, w)
        vals = block_reader(ex, st, ex.padd(a[5], mul(I(8 * i), nc)), nc, 'R', w)
        j = fresh('j', 'I')
        if o.rows is not None:
            ex.oblige('bounds', st, and_(ilt(r, o.rows), forall(j, I(0), nc, ilt(cols(j), o.rows))), w + ' index in the local numbering')
        k0, k1 = K(0), K(1)
        c = ex.plane(st, o, 0, 'R', 8)
        z = sum_(j, I(0), nc, ite(ieq(cols(j), k1), vals(j), R(0)))
        g = and_(ieq(k0, r), ile(I(0), k0), ile(I(0), k1))
        st.mem[(o.name, 0)] = Content(ite(g, add(c.base, z), c.base))
    return ok(st)
