"""Hash-consed terms for the verification conditions.

Sorts: 'I' mathematical integer, 'R' mathematical real, 'B' boolean, 'P' pointer.
Integer terms are kept as canonical polynomials, so equal linear indices are
the same object.  Real terms keep the shape of the program; their identities
are decided by normal.py.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'fs', '__weakref__')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):  # for sorting only
        return self.id < o.id

    # operator sugar for specifications
    def __add__(self, o): return add(self, lift(o, self.sort))
    def __radd__(self, o): return add(lift(o, self.sort), self)
    def __sub__(self, o): return sub(self, lift(o, self.sort))
    def __rsub__(self, o): return sub(lift(o, self.sort), self)
    def __mul__(self, o): return mul(self, lift(o, self.sort))
    def __rmul__(self, o): return mul(lift(o, self.sort), self)
    def __truediv__(self, o): return rdiv(self, lift(o, 'R'))
    def __rtruediv__(self, o): return rdiv(lift(o, 'R'), self)
    def __neg__(self): return neg(self)
    def __pow__(self, o): return power(self, lift(o, 'R'))


_tab = {}
_cnt = [0]


def mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        _cnt[0] += 1
        t.id = _cnt[0]
        t.fs = None
        _tab[k] = t
    return t


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(repr(x))
    raise TypeError(x)


def I(n): return mk('num', (int(n),), 'I')
def R(x): return mk('num', (frac(x),), 'R')


TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')
NULL = mk('null', (), 'P')


def B(b): return TRUE if b else FALSE


def lift(x, sort='R'):
    if isinstance(x, T):
        if x.sort == sort:
            return x
        if sort == 'R' and x.sort == 'I':
            return i2r(x)
        raise TypeError('sort %s expected: %r' % (sort, x))
    if isinstance(x, bool):
        return B(x)
    if sort == 'I':
        return I(x)
    if sort == 'R':
        return R(x)
    raise TypeError(x)


def sym(name, sort): return mk('sym', (name,), sort)


_fresh = {}


def fresh(prefix, sort):
    n = _fresh.get(prefix, 0)
    _fresh[prefix] = n + 1
    return sym('%s#%d' % (prefix, n), sort)


def app(f, args, sort): return mk('app', (f,) + tuple(args), sort)


def is_num(t): return t.op == 'num'
def numv(t): return t.args[0]


# ---------------------------------------------------------------- integers
# canonical: num | atom | ipoly(((mono, coef), ...)) ; mono = ((atom,exp),...)
def _ip(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'ipoly':
        return dict(t.args)
    return {((t, 1),): 1}


def _mkip(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return I(0)
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return I(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    return mk('ipoly', tuple(items), 'I')


def _iadd(a, b, s=1):
    if s == 1 and b.op == 'num':
        if b.args[0] == 0:
            return a
        if a.op == 'num':
            return I(a.args[0] + b.args[0])
    d = _ip(a)
    for m, c in _ip(b).items():
        d[m] = d.get(m, 0) + s * c
    return _mkip(d)


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))


def _imul(a, b):
    if a.op == 'num' and b.op == 'num':
        return I(a.args[0] * b.args[0])
    # push constants through ite-free polynomials
    d = {}
    for m1, c1 in _ip(a).items():
        for m2, c2 in _ip(b).items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _mkip(d)


def ipoly_items(t):
    """list of (monomial, coef) of an integer term"""
    return list(_ip(t).items())


def isplit(t):
    """(constant, [(mono, coef)])"""
    d = _ip(t)
    c = d.pop((), 0)
    return c, list(d.items())


def idiv(a, b):
    """C truncating division"""
    if b.op == 'num' and b.args[0] != 0:
        q = b.args[0]
        if a.op == 'num':
            v = abs(a.args[0]) // abs(q)
            return I(v if (a.args[0] >= 0) == (q > 0) else -v)
        if q == 1:
            return a
        d = _ip(a)
        if all(c % q == 0 for c in d.values()):
            return _mkip({m: c // q for m, c in d.items()})
    return mk('idiv', (a, b), 'I')


def imod(a, b):
    if b.op == 'num' and b.args[0] != 0:
        if a.op == 'num':
            return sub(a, mul(b, idiv(a, b)))
        q = b.args[0]
        if q in (1, -1):
            return I(0)
        if all(c % q == 0 for c in _ip(a).values()):
            return I(0)
    return mk('imod', (a, b), 'I')


def fdiv_i(a, b):
    """floor division by a positive constant (used by loop summaries)"""
    if b.op == 'num':
        q = b.args[0]
        if a.op == 'num':
            return I(a.args[0] // q)
        d = _ip(a)
        if all(c % q == 0 for c in d.values()):
            return _mkip({m: c // q for m, c in d.items()})
        # split the divisible part
        div = {m: c for m, c in d.items() if m != () and c % q == 0}
        if div:
            rest = {m: c for m, c in d.items() if m not in div}
            c0 = rest.get((), 0)
            if set(rest) <= {()}:
                div2 = {m: c // q for m, c in div.items()}
                div2[()] = c0 // q
                return _mkip(div2)
    return mk('ifloordiv', (a, b), 'I')


def fmod_i(a, b):
    return sub(a, mul(b, fdiv_i(a, b)))


# ---------------------------------------------------------------- arithmetic
def add(a, b):
    if a.sort == 'I' and b.sort == 'I':
        if a.op == 'ite' and b.op == 'num':
            pass
        return _iadd(a, b)
    a = lift(a); b = lift(b)
    if a.op == 'num':
        if b.op == 'num':
            return R(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
    elif b.op == 'num' and b.args[0] == 0:
        return a
    return mk('add', (a, b), 'R')


def sub(a, b):
    if a.sort == 'I' and b.sort == 'I':
        return _iadd(a, b, -1)
    a = lift(a); b = lift(b)
    if a is b:
        return R(0)
    if b.op == 'num':
        if a.op == 'num':
            return R(a.args[0] - b.args[0])
        if b.args[0] == 0:
            return a
    if a.op == 'num' and a.args[0] == 0:
        return neg(b)
    return mk('sub', (a, b), 'R')


def neg(a):
    if a.sort == 'I':
        return _imul(I(-1), a)
    if a.op == 'num':
        return R(-a.args[0])
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', (a,), 'R')


def mul(a, b):
    if a.sort == 'I' and b.sort == 'I':
        return _imul(a, b)
    a = lift(a); b = lift(b)
    for x, y in ((a, b), (b, a)):
        if x.op == 'num':
            if y.op == 'num':
                return R(x.args[0] * y.args[0])
            if x.args[0] == 0:
                return R(0)
            if x.args[0] == 1:
                return y
            if x.args[0] == -1:
                return neg(y)
    return mk('mul', (a, b), 'R')


def rdiv(a, b):
    a = lift(a); b = lift(b)
    if b.op == 'num' and b.args[0] != 0:
        if a.op == 'num':
            return R(a.args[0] / b.args[0])
        if b.args[0] == 1:
            return a
    if a.op == 'num' and a.args[0] == 0:
        return R(0)
    return mk('div', (a, b), 'R')


def fn(name, *args):
    return mk('fn', (name,) + tuple(lift(a) for a in args), 'R')


def power(a, b):
    a = lift(a); b = lift(b)
    if b.op == 'num':
        e = b.args[0]
        if e == 0:
            return R(1)
        if e == 1:
            return a
        if a.op == 'num' and e.denominator == 1 and abs(e) < 64 and (a.args[0] != 0 or e > 0):
            return R(a.args[0] ** int(e))
        if a.op == 'num' and a.args[0] == 0 and e > 0:
            return a
    if a.op == 'num' and a.args[0] == 1:
        return R(1)
    return fn('pow', a, b)


def exp(a):
    a = lift(a)
    if a.op == 'num' and a.args[0] == 0:
        return R(1)
    return fn('exp', a)


def log(a):
    a = lift(a)
    if a.op == 'num' and a.args[0] == 1:
        return R(0)
    return fn('log', a)


def sqrt(a):
    a = lift(a)
    if a.op == 'num':
        f = a.args[0]
        if f >= 0:
            from math import isqrt
            p, q = isqrt(f.numerator), isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return R(Fraction(p, q))
    return power(a, R(Fraction(1, 2)))


def absr(a):
    a = lift(a)
    if a.op == 'num':
        return R(abs(a.args[0]))
    return ite(rlt(a, R(0)), neg(a), a)


def fmax(a, b):
    a = lift(a); b = lift(b)
    return ite(rlt(a, b), b, a)


def fmin(a, b):
    a = lift(a); b = lift(b)
    return ite(rlt(b, a), b, a)


def i2r(a):
    if a.sort == 'R':
        return a
    if a.op == 'num':
        return R(a.args[0])
    if a.op == 'ite':
        return ite(a.args[0], i2r(a.args[1]), i2r(a.args[2]))
    if a.op == 'ipoly':
        r = None
        for m, c in a.args:
            t = R(c)
            for at, e in m:
                x = i2r(at) if at.op == 'ite' else mk('i2r', (at,), 'R')
                for _ in range(e):
                    t = mul(t, x)
            r = t if r is None else add(r, t)
        return r
    return mk('i2r', (a,), 'R')


def r2i(a):
    """C conversion double -> integer (truncation)"""
    if a.op == 'num':
        v = a.args[0]
        return I(int(v))
    if a.op == 'i2r':
        return a.args[0]
    if a.op == 'ite':
        return ite(a.args[0], r2i(a.args[1]), r2i(a.args[2]))
    return mk('r2i', (a,), 'I')


def floor_r(a):
    if a.op == 'num':
        return R(a.args[0].__floor__())
    if a.op == 'i2r':
        return a
    return fn('floor', a)


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'rlt':
        return rle(a.args[1], a.args[0])
    if a.op == 'rle':
        return rlt(a.args[1], a.args[0])
    if a.op == 'ile0':
        return ile0(sub(I(1), a.args[0]))   # not(p<=0) == p>=1 == 1-p<=0
    return mk('not', (a,), 'B')


def and_(*xs):
    s = []
    seen = set()
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == 'and':
            st.extend(x.args[::-1])
            continue
        if x in seen:
            continue
        seen.add(x)
        s.append(x)
    for x in s:
        if x.op in ('not', 'rlt', 'rle', 'ile0') and not_(x) in seen:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk('and', tuple(s), 'B')


def or_(*xs):
    s = []
    seen = set()
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == 'or':
            st.extend(x.args[::-1])
            continue
        if x in seen:
            continue
        seen.add(x)
        s.append(x)
    for x in s:
        if not_(x) in seen:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return mk('or', tuple(s), 'B')


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if a is FALSE:
        return not_(b)
    if b is TRUE:
        return a
    if b is FALSE:
        return not_(a)
    return mk('iff', (a, b), 'B')


def ile0(p):
    if p.op == 'num':
        return B(p.args[0] <= 0)
    if p.op == 'ite':
        x, y = ile0(p.args[1]), ile0(p.args[2])
        if x in (TRUE, FALSE) or y in (TRUE, FALSE):
            return bite(p.args[0], x, y)
    c, items = isplit(p)
    if len(items) == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        (m, k) = items[0]
        t = m[0][0]
        if t.op == 'ite' and t.args[1].op == 'num' and t.args[2].op == 'num':
            return bite(t.args[0], B(k * t.args[1].args[0] + c <= 0), B(k * t.args[2].args[0] + c <= 0))
    if items:
        from math import gcd
        g = 0
        for _, k in items:
            g = gcd(g, abs(k))
        if g > 1:
            # sum k_i t_i + c <= 0  <=> sum (k_i/g) t_i <= floor(-c/g)
            d = {m: k // g for m, k in items}
            d[()] = -((-c) // g)
            p = _mkip(d)
    return mk('ile0', (p,), 'B')


def ieq0(p):
    if p.op == 'num':
        return B(p.args[0] == 0)
    c, items = isplit(p)
    if len(items) == 1:
        m, k = items[0]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite':
            t = m[0][0]
            if t.args[1].op == 'num' or t.args[2].op == 'num':
                x = ieq0(add(mul(I(k), t.args[1]), I(c)))
                y = ieq0(add(mul(I(k), t.args[2]), I(c)))
                if x in (TRUE, FALSE) or y in (TRUE, FALSE):
                    return bite(t.args[0], x, y)
    from math import gcd
    g = 0
    for _, k in items:
        g = gcd(g, abs(k))
    if g > 1:
        if c % g:
            return FALSE
        p = _mkip(dict([(m, k // g) for m, k in items] + [((), c // g)]))
    # sign normalise on the first item
    c, items = isplit(p)
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    if items[0][1] < 0:
        p = neg(p)
    return mk('ieq0', (p,), 'B')


def ieq(a, b): return ieq0(sub(a, b))
def ile(a, b): return ile0(sub(a, b))
def ilt(a, b): return ile0(add(sub(a, b), I(1)))


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE:
        return or_(c, b)
    if a is FALSE:
        return and_(not_(c), b)
    if b is TRUE:
        return or_(not_(c), a)
    if b is FALSE:
        return and_(c, a)
    return or_(and_(c, a), and_(not_(c), b))


def _distr(a):
    return a.op == 'ite' and a.args[1].op == 'num' and a.args[2].op == 'num'


def rlt(a, b):
    a = lift(a); b = lift(b)
    if a is b:
        return FALSE
    if a.op == 'num' and b.op == 'num':
        return B(a.args[0] < b.args[0])
    if a.op == 'i2r' and b.op == 'i2r':
        return ilt(a.args[0], b.args[0])
    if b.op == 'num' and _distr(a):
        return bite(a.args[0], rlt(a.args[1], b), rlt(a.args[2], b))
    if a.op == 'num' and _distr(b):
        return bite(b.args[0], rlt(a, b.args[1]), rlt(a, b.args[2]))
    return mk('rlt', (a, b), 'B')


def rle(a, b):
    a = lift(a); b = lift(b)
    if a is b:
        return TRUE
    if a.op == 'num' and b.op == 'num':
        return B(a.args[0] <= b.args[0])
    if a.op == 'i2r' and b.op == 'i2r':
        return ile(a.args[0], b.args[0])
    if b.op == 'num' and _distr(a):
        return bite(a.args[0], rle(a.args[1], b), rle(a.args[2], b))
    if a.op == 'num' and _distr(b):
        return bite(b.args[0], rle(a, b.args[1]), rle(a, b.args[2]))
    return mk('rle', (a, b), 'B')


def req(a, b):
    a = lift(a); b = lift(b)
    if a is b:
        return TRUE
    if a.op == 'num' and b.op == 'num':
        return B(a.args[0] == b.args[0])
    if a.id > b.id:
        a, b = b, a
    return mk('req', (a, b), 'B')


def rgt(a, b): return rlt(b, a)
def rge(a, b): return rle(b, a)


def peq(a, b):
    if a is b:
        return TRUE
    if a.op == 'ite':
        return bite(a.args[0], peq(a.args[1], b), peq(a.args[2], b))
    if b.op == 'ite':
        return bite(b.args[0], peq(a, b.args[1]), peq(a, b.args[2]))
    if a.op == 'ptr' and b.op == 'ptr':
        if a.args[0] != b.args[0]:
            return FALSE
        return and_(*[ieq(x, y) for x, y in zip(a.args[1:], b.args[1:])])
    if {a.op, b.op} <= {'ptr', 'null', 'fptr'}:
        if a.op == b.op == 'fptr':
            return B(a.args[0] == b.args[0])
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('peq', (a, b), 'B')


def eq(a, b):
    if not isinstance(a, T):
        a = lift(a, b.sort)
    if not isinstance(b, T):
        b = lift(b, a.sort)
    if a.sort == 'B' or b.sort == 'B':
        if a.sort == 'I':
            a = not_(ieq0(a))
        if b.sort == 'I':
            b = not_(ieq0(b))
        return iff(a, b)
    if a.sort == 'P' or b.sort == 'P':
        return peq(a, b)
    if a.sort == 'I' and b.sort == 'I':
        return ieq(a, b)
    return req(a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return bite(c, a, b)
    if a.sort != b.sort:
        if {a.sort, b.sort} == {'I', 'R'}:
            a = lift(a); b = lift(b)
        else:
            raise TypeError('ite sorts %s %s: %r %r' % (a.sort, b.sort, a, b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', (c, a, b), a.sort)


# ---------------------------------------------------------------- binders
def sum_(n, lo, hi, body):
    """sum of body for n in [lo, hi) (0 when hi<=lo)"""
    body = body
    if body.op == 'num' and body.args[0] == 0:
        return body
    if lo.op == 'num' and hi.op == 'num' and hi.args[0] - lo.args[0] <= 64:
        r = I(0) if body.sort == 'I' else R(0)
        for k in range(lo.args[0], hi.args[0]):
            r = add(r, subst(body, {n: I(k)}))
        return r
    d = sub(hi, lo)
    if d.op == 'num':
        v = d.args[0]
        if v <= 64:
            r = I(0) if body.sort == 'I' else R(0)
            for k in range(0, v):
                r = add(r, subst(body, {n: add(lo, I(k))}))
            return r
    if n not in free_syms(body):
        # constant summand: not simplified for hi<lo
        pass
    # canonical bound name by depth
    b = sym('%%b%d' % _bdepth(body), 'I')
    body = subst(body, {n: b})
    return mk('sum', (b, lo, hi, body), body.sort)


def forall(n, lo, hi, body):
    """for all n in [lo,hi): body"""
    if body is TRUE:
        return TRUE
    if lo is not None and hi is not None:
        d = sub(hi, lo)
        if d.op == 'num' and d.args[0] <= 16:
            return and_(*[subst(body, {n: add(lo, I(k))}) for k in range(max(0, d.args[0]))])
    b = sym('%%b%d' % _bdepth(body), 'I')
    body = subst(body, {n: b})
    return mk('forall', (b, lo, hi, body), 'B')


def _bdepth(t):
    seen = {}

    def go(t):
        r = seen.get(t)
        if r is not None:
            return r
        if t.op in ('sum', 'forall'):
            r = max(int(t.args[0].args[0][2:]) + 1, *[go(x) for x in t.args[1:]])
        else:
            r = 0
            for x in kids(t):
                v = go(x)
                if v > r:
                    r = v
        seen[t] = r
        return r
    return go(t)


# ---------------------------------------------------------------- traversal
def kids(t):
    op = t.op
    if op in ('num', 'sym', 'true', 'false', 'null', 'fptr'):
        return ()
    if op == 'ipoly':
        return [a for m, c in t.args for a, e in m]
    if op in ('app', 'fn', 'ptr', 'bvop'):
        return t.args[1:]
    return t.args


_EMPTY = frozenset()


def free_syms(t):
    """set of free sym terms and of ('app', name) tags"""
    r = t.fs
    if r is not None:
        return r
    op = t.op
    if op == 'sym':
        r = frozenset((t,))
    elif op in ('num', 'true', 'false', 'null', 'fptr'):
        r = _EMPTY
    else:
        s = set()
        for k in kids(t):
            s |= free_syms(k)
        if op == 'app':
            s.add(t.args[0])
        if op in ('sum', 'forall'):
            s.discard(t.args[0])
        r = frozenset(s)
    t.fs = r
    return r


def rebuild(t, f):
    """rebuild t with children mapped by f (smart constructors)"""
    op = t.op
    a = t.args
    if op in ('num', 'sym', 'true', 'false', 'null', 'fptr'):
        return t
    if op == 'ipoly':
        r = I(0)
        for m, c in a:
            x = I(c)
            for at, e in m:
                y = f(at)
                for _ in range(e):
                    x = _imul(x, y)
            r = _iadd(r, x)
        return r
    if op == 'app':
        return mk('app', (a[0],) + tuple(f(x) for x in a[1:]), t.sort)
    if op == 'ptr':
        return mk('ptr', (a[0],) + tuple(f(x) for x in a[1:]), 'P')
    if op == 'bvop':
        return bvop(a[0], *[f(x) for x in a[1:]])
    if op == 'fn':
        xs = [f(x) for x in a[1:]]
        n = a[0]
        if n == 'pow':
            return power(*xs)
        if n == 'exp':
            return exp(*xs)
        if n == 'log':
            return log(*xs)
        if n == 'floor':
            return floor_r(*xs)
        return fn(n, *xs)
    if op == 'sum':
        return sum_(a[0], f(a[1]), f(a[2]), f(a[3]))
    if op == 'forall':
        return forall(a[0], None if a[1] is None else f(a[1]), None if a[2] is None else f(a[2]), f(a[3]))
    if op == 'ite':
        c = f(a[0])
        if c is TRUE:
            return f(a[1])
        if c is FALSE:
            return f(a[2])
        return ite(c, f(a[1]), f(a[2]))
    g = _ctor[op]
    return g(*[f(x) for x in a])


def bvop(name, *args):
    if all(x.op == 'num' for x in args):
        v = [x.args[0] for x in args]
        if name == 'and':
            return I(v[0] & v[1])
        if name == 'or':
            return I(v[0] | v[1])
        if name == 'xor':
            return I(v[0] ^ v[1])
        if name == 'shl':
            return I(v[0] << v[1])
        if name in ('lshr', 'ashr'):
            return I(v[0] >> v[1])
    if name == 'shl' and args[1].op == 'num':
        return mul(args[0], I(1 << args[1].args[0]))
    return mk('bvop', (name,) + tuple(args), 'I')


_ctor = {
    'add': add, 'sub': sub, 'neg': neg, 'mul': mul, 'div': rdiv, 'i2r': i2r, 'r2i': r2i,
    'idiv': idiv, 'imod': imod, 'ifloordiv': fdiv_i,
    'not': not_, 'and': and_, 'or': or_, 'iff': iff, 'ile0': ile0, 'ieq0': ieq0,
    'rlt': rlt, 'rle': rle, 'req': req, 'peq': peq,
}


def subst(t, m, fmap=None):
    """substitute symbols (dict sym->term) and optionally functions
    (dict name -> python function of argument terms)"""
    keys = set(m)
    if fmap:
        keys |= set(fmap)
    memo = {}

    def go(t):
        if not (keys & free_syms(t)):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'sym':
            r = m.get(t, t)
        elif t.op == 'app' and fmap and t.args[0] in fmap:
            r = fmap[t.args[0]](*[go(x) for x in t.args[1:]])
        elif t.op in ('sum', 'forall'):
            b = t.args[0]
            # avoid capture
            cap = any(b in free_syms(v) for k, v in m.items() if k in free_syms(t)) if b not in m else False
            if b in m:
                m2 = {k: v for k, v in m.items() if k is not b}
                nb = t.args[3]
                body = subst(nb, m2, fmap)
                lo = t.args[1] if t.args[1] is None else go(t.args[1])
                hi = t.args[2] if t.args[2] is None else go(t.args[2])
                r = (sum_ if t.op == 'sum' else forall)(b, lo, hi, body)
            else:
                nb = fresh('bv', 'I') if (cap or fmap) else b
                body = t.args[3] if nb is b else subst(t.args[3], {b: nb})
                lo = t.args[1] if t.args[1] is None else go(t.args[1])
                hi = t.args[2] if t.args[2] is None else go(t.args[2])
                r = (sum_ if t.op == 'sum' else forall)(nb, lo, hi, go(body))
        else:
            r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)


def atoms_where(t, pred, into_binders=False):
    seen = set()
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            out.append(x)
        if x.op in ('sum', 'forall') and not into_binders:
            st.extend(k for k in x.args[1:3] if k is not None)
            continue
        st.extend(k for k in kids(x) if k is not None)
    return out


def show(t, depth=12):
    if t is None:
        return '-'
    if depth <= 0:
        return '...'
    op, a = t.op, t.args
    d = depth - 1
    s = lambda x: show(x, d)
    if op == 'num':
        v = a[0]
        if isinstance(v, Fraction) and v.denominator != 1:
            return repr(float(v))
        return str(v)
    if op == 'sym':
        return a[0]
    if op in ('true', 'false', 'null'):
        return op
    if op == 'fptr':
        return '&' + a[0]
    if op == 'ipoly':
        r = []
        for m, c in a:
            f = ['%s%s' % (s(x), '^%d' % e if e > 1 else '') for x, e in m]
            if c != 1 or not f:
                f = [str(c)] + f
            r.append('*'.join(f))
        return '(' + ' + '.join(r) + ')'
    if op == 'app':
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if op == 'ptr':
        return '&%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if op in ('fn', 'bvop'):
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    b = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'rlt': '<', 'rle': '<=', 'req': '==', 'iff': '<=>', 'peq': '=='}
    if op in b:
        return '(%s %s %s)' % (s(a[0]), b[op], s(a[1]))
    if op == 'neg':
        return '-' + s(a[0])
    if op == 'ile0':
        return '(%s <= 0)' % s(a[0])
    if op == 'ieq0':
        return '(%s == 0)' % s(a[0])
    if op in ('and', 'or'):
        return '(' + (' & ' if op == 'and' else ' | ').join(s(x) for x in a) + ')'
    if op == 'not':
        return '!' + s(a[0])
    if op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(s(x) for x in a)
    if op in ('sum', 'forall'):
        return '%s(%s in [%s,%s): %s)' % (op, a[0].args[0], s(a[1]), s(a[2]), s(a[3]))
    return '%s(%s)' % (op, ', '.join(s(x) for x in a))
