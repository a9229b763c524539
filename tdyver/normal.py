"""Normal forms: deciding real identities.

A real term is normalised to a Laurent polynomial whose atoms are symbols,
applications, and canonicalised powers/exponentials; a compound polynomial in
a denominator (or under a non-integer power) is itself an atom, and the zero
test clears it.  Identities decided here are identities of real-analytic
expressions wherever both sides are defined.
"""
from fractions import Fraction
from math import floor
from .terms import *
from . import terms as tm

ONE = Fraction(1)


class NFError(Exception):
    pass


class NF:
    """normaliser with a positivity oracle and a step budget"""

    def __init__(self, positive=None, budget=400000):
        self.positive_fn = positive
        self.memo = {}
        self.keys = {}
        self.kinfo = {}
        self.budget = budget
        self.poscache = {}

    # atoms are interned to integers
    def atom(self, key, info):
        k = self.keys.get(key)
        if k is None:
            k = len(self.keys)
            self.keys[key] = k
            self.kinfo[k] = info
        return k

    def tick(self, n=1):
        self.budget -= n
        if self.budget < 0:
            raise NFError('normal form too large')

    # ---- polynomial operations (dict mono->Fraction)
    def padd(self, p, q, s=1):
        if len(p) < len(q) and s == 1:
            p, q = q, p
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + s * c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        self.tick(len(q))
        return r

    def mmul(self, a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for k, e in b:
            v = d.get(k, 0) + e
            if v == 0:
                del d[k]
            else:
                d[k] = v
        return tuple(sorted(d.items()))

    def pmul(self, p, q):
        r = {}
        self.tick(len(p) * len(q))
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self.mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        return r

    def ppow(self, p, n):
        r = {(): ONE}
        while n:
            if n & 1:
                r = self.pmul(r, p)
            n >>= 1
            if n:
                p = self.pmul(p, p)
        return r

    def const(self, c):
        return {(): Fraction(c)} if c else {}

    def freeze(self, p):
        return tuple(sorted(p.items()))

    def monic(self, p):
        """(content c, monomial m, q) with p = c*m*q, q primitive-ish"""
        items = sorted(p.items())
        # common monomial
        com = None
        for m, c in items:
            d = dict(m)
            if com is None:
                com = d
            else:
                com = {k: min(e, d[k]) for k, e in com.items() if k in d}
                # keep only common factors of equal sign
                com = {k: e for k, e in com.items() if e != 0}
        # negative exponents on absent atoms are not common
        lead = items[0][1]
        cm = tuple(sorted(com.items())) if com else ()
        inv = tuple((k, -e) for k, e in cm)
        q = {self.mmul(m, inv): c / lead for m, c in items}
        # re-normalise the leading coefficient after division
        it2 = sorted(q.items())
        l2 = it2[0][1]
        if l2 != 1:
            q = {m: c / l2 for m, c in it2}
            lead = lead * l2
        return lead, cm, q

    def pos(self, k):
        r = self.poscache.get(k)
        if r is None:
            info = self.kinfo[k]
            if info[0] in ('exp', 'pw'):
                r = True
            elif info[0] == 'cst':
                r = info[1] > 0
            elif self.positive_fn is None:
                r = False
            else:
                t = self.info_term(info)
                r = False if t is None else bool(self.positive_fn(t))
            self.poscache[k] = r
        return r

    def info_term(self, info):
        if info[0] == 't':
            return info[1]
        if info[0] == 'poly':
            return info[2]
        return None

    # ---- terms
    def nf(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._nf(t)
            self.memo[t] = r
        return r

    def leaf(self, t):
        k = self.atom(('t', t), ('t', t))
        return {((k, ONE),): ONE}

    def _nf(self, t):
        op = t.op
        a = t.args
        if t.sort == 'I':
            if op == 'num':
                return self.const(a[0])
            if op == 'ipoly':
                r = {}
                for m, c in a:
                    x = self.const(c)
                    for at, e in m:
                        for _ in range(e):
                            x = self.pmul(x, self.nf(at))
                    r = self.padd(r, x)
                return r
            if op == 'sum':
                return self.nf_sum(t)
            return self.leaf(tm.mk('i2r', (t,), 'R'))
        if op == 'num':
            return self.const(a[0])
        if op == 'add':
            return self.padd(self.nf(a[0]), self.nf(a[1]))
        if op == 'sub':
            return self.padd(self.nf(a[0]), self.nf(a[1]), -1)
        if op == 'neg':
            return {m: -c for m, c in self.nf(a[0]).items()}
        if op == 'mul':
            return self.pmul(self.nf(a[0]), self.nf(a[1]))
        if op == 'div':
            return self.pmul(self.nf(a[0]), self.inv(self.nf(a[1]), a[1]))
        if op == 'i2r':
            x = a[0]
            if x.op in ('ipoly', 'sum'):
                return self.nf(x)
            return self.leaf(t)
        if op == 'fn':
            n = a[0]
            if n == 'pow':
                return self.power(self.nf(a[1]), self.nf(a[2]), a[1])
            if n == 'exp':
                r = {(): ONE}
                for m, c in self.nf(a[1]).items():
                    k = self.atom(('exp', m), ('exp', m))
                    r = self.pmul(r, {((k, c),): ONE})
                return r
            if n == 'log':
                p = self.nf(a[1])
                if len(p) == 1:
                    (m, c), = p.items()
                    if c > 0 and all(self.pos(k) for k, _ in m):
                        r = {}
                        if c != 1:
                            k = self.atom(('logc', c), ('logc', c))
                            r[((k, ONE),)] = ONE
                        for k, e in m:
                            info = self.kinfo[k]
                            if info[0] == 'exp':
                                r = self.padd(r, {info[1]: e})
                            else:
                                kk = self.atom(('log', k), ('log', k))
                                r = self.padd(r, {((kk, ONE),): Fraction(e)})
                        return r
                k = self.atom(('fn', n, self.freeze(p)), ('t', t))
                return {((k, ONE),): ONE}
            key = ('fn', n) + tuple(self.freeze(self.nf(x)) for x in a[1:])
            k = self.atom(key, ('t', t))
            return {((k, ONE),): ONE}
        if op == 'sum':
            return self.nf_sum(t)
        return self.leaf(t)

    def nf_sum(self, t):
        b, lo, hi, body = t.args
        p = self.nf(body)
        bs = b
        r = {}
        for m, c in p.items():
            dep = []
            ind = []
            for k, e in m:
                (dep if self.depends(k, bs) else ind).append((k, e))
            key = ('sum', lo, hi, bs, tuple(dep))
            k = self.atom(key, ('sum', lo, hi, bs, tuple(dep)))
            r = self.padd(r, {self.mmul(tuple(ind), ((k, ONE),)): c})
        return r

    def depends(self, k, b):
        info = self.kinfo[k]
        if info[0] == 't':
            return b in free_syms(info[1])
        if info[0] in ('exp',):
            return any(self.depends(x, b) for x, _ in info[1])
        if info[0] == 'pw':
            return any(self.depends(x, b) for x, _ in info[2]) or self.depends(info[1], b)
        if info[0] == 'poly':
            return any(self.depends(x, b) for m, _ in info[1] for x, _ in m)
        if info[0] == 'log':
            return self.depends(info[1], b)
        if info[0] == 'sum':
            return b in free_syms(info[1]) or b in free_syms(info[2]) or any(self.depends(x, b) for x, _ in info[4])
        return False

    def inv(self, p, t=None):
        if not p:
            raise NFError('division by zero')
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((k, -e) for k, e in m): 1 / c}
        c, m, q = self.monic(p)
        if len(q) == 1:
            (m2, c2), = q.items()
            mm = self.mmul(m, m2)
            return {tuple((k, -e) for k, e in mm): 1 / (c * c2)}
        k = self.polyatom(q, t)
        mm = self.mmul(tuple((kk, -e) for kk, e in m), ((k, -ONE),))
        return {mm: 1 / c}

    def polyatom(self, q, t):
        fz = self.freeze(q)
        return self.atom(('poly', fz), ('poly', fz, t))

    def power(self, p, e, bt):
        # constant integer exponent
        if not e:
            return {(): ONE}
        if len(e) == 1 and () in e and e[()].denominator == 1:
            n = int(e[()])
            if n >= 0:
                if n > 40:
                    raise NFError('power')
                return self.ppow(p, n)
            return self.ppow(self.inv(p, bt), -n)
        if not p:
            # 0**e : only for e>0; leave opaque
            k = self.atom(('pow0', self.freeze(e)), ('pow0', self.freeze(e)))
            return {((k, ONE),): ONE}
        factors = []   # (atom, exponent)
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0 and all(self.pos(k) for k, _ in m):
                if c != 1:
                    factors.append((self.atom(('cst', c), ('cst', c)), ONE))
                factors += list(m)
            else:
                factors = [(self.polyatom(p, bt), ONE)]
        else:
            c, m, q = self.monic(p)
            if c > 0 and all(self.pos(k) for k, _ in m):
                if c != 1:
                    factors.append((self.atom(('cst', c), ('cst', c)), ONE))
                factors += list(m)
                factors.append((self.polyatom(q, None if (c != 1 or m) else bt), ONE))
            elif c < 0 and all(self.pos(k) for k, _ in m):
                if c != -1:
                    factors.append((self.atom(('cst', -c), ('cst', -c)), ONE))
                factors += list(m)
                factors.append((self.polyatom({mm: -cc for mm, cc in q.items()}, None), ONE))
            else:
                factors = [(self.polyatom(p, bt), ONE)]
        r = {(): ONE}
        for k, x in factors:
            info = self.kinfo[k]
            for em, ec in e.items():
                if em == ():
                    r = self.pmul(r, {((k, x * ec),): ONE})
                else:
                    if info[0] == 'pw':
                        base, m0 = info[1], info[2]
                        mm = self.mmul(m0, em)
                        if mm == ():
                            r = self.pmul(r, {((base, x * ec),): ONE})
                            continue
                        kk = self.atom(('pw', base, mm), ('pw', base, mm))
                    elif info[0] == 'exp':
                        mm = self.mmul(info[1], em)
                        kk = self.atom(('exp', mm), ('exp', mm))
                    else:
                        kk = self.atom(('pw', k, em), ('pw', k, em))
                    r = self.pmul(r, {((kk, x * ec),): ONE})
        return self.fixcst(r)

    def fixcst(self, p):
        """fold integer powers of constants"""
        r = {}
        for m, c in p.items():
            mm = []
            for k, e in m:
                info = self.kinfo[k]
                if info[0] == 'cst':
                    n = floor(e)
                    c = c * info[1] ** n
                    if e != n:
                        mm.append((k, e - n))
                else:
                    mm.append((k, e))
            mm = tuple(mm)
            r[mm] = r.get(mm, 0) + c
        return r

    def clear(self, p):
        """multiply by the compound denominators, expand compound bases"""
        for _ in range(40):
            p = self.fixcst(p)
            polys = {}
            for m in p:
                for k, e in m:
                    if self.kinfo[k][0] == 'poly':
                        f = floor(e)
                        polys.setdefault(k, []).append(f)
            todo = None
            for k, fl in polys.items():
                absent = any(all(kk != k for kk, _ in m) for m in p)
                lo = min(fl + ([0] if absent else []))
                if lo != 0 or max(fl) != 0:
                    # prefer atoms not inside others
                    if todo is None or k > todo[0]:
                        todo = (k, lo)
            if todo is None:
                return p
            k, lo = todo
            q = dict(self.kinfo[k][1])
            r = {}
            cache = {}
            for m, c in p.items():
                e = dict(m).get(k, Fraction(0))
                f = floor(e)
                n = f - lo
                mm = [(kk, ee) for kk, ee in m if kk != k]
                if e != f:
                    mm.append((k, e - f))
                mm = tuple(sorted(mm))
                if n not in cache:
                    cache[n] = self.ppow(q, n)
                r = self.padd(r, self.pmul({mm: c}, cache[n]))
            p = r
            if not p:
                return p
        return p

    def is_zero(self, p, scale=None):
        if not p:
            return True
        p = self.clear(p)
        if not p:
            return True
        return False

    def equal(self, a, b, tol=Fraction(1, 10**11)):
        pa, pb = self.nf(a), self.nf(b)
        d = self.padd(pa, pb, -1)
        if not d:
            return True
        d = self.clear(d)
        if not d:
            return True
        # rounding of folded constants: compare with the uncancelled size
        ca, cb = self.clear(dict(pa)), self.clear(dict(pb))
        if set(ca) == set(cb):
            for m in ca:
                x, y = ca[m], cb[m]
                if abs(x - y) > tol * max(abs(x), abs(y)):
                    return False
            return True
        return False


# ---------------------------------------------------------------- derivative
def diff(t, x, fderiv=None):
    """derivative of a real term with respect to the real symbol x;
    fderiv: name -> function(args, i) giving the partial of an application"""
    memo = {}
    keys = {x} | (set(fderiv) if fderiv else set())

    def d(t):
        if not (keys & free_syms(t)):
            return R(0)
        r = memo.get(t)
        if r is None:
            r = _d(t)
            memo[t] = r
        return r

    def _d(t):
        op, a = t.op, t.args
        if t is x:
            return R(1)
        if op == 'add':
            return add(d(a[0]), d(a[1]))
        if op == 'sub':
            return sub(d(a[0]), d(a[1]))
        if op == 'neg':
            return neg(d(a[0]))
        if op == 'mul':
            return add(mul(d(a[0]), a[1]), mul(a[0], d(a[1])))
        if op == 'div':
            return rdiv(sub(mul(d(a[0]), a[1]), mul(a[0], d(a[1]))), mul(a[1], a[1]))
        if op == 'ite':
            return ite(a[0], d(a[1]), d(a[2]))
        if op == 'fn':
            n = a[0]
            if n == 'exp':
                return mul(t, d(a[1]))
            if n == 'log':
                return rdiv(d(a[1]), a[1])
            if n == 'pow':
                b, e = a[1], a[2]
                r = mul(mul(e, power(b, sub(e, R(1)))), d(b))
                de = d(e)
                if not (de.op == 'num' and de.args[0] == 0):
                    r = add(r, mul(mul(t, log(b)), de))
                return r
            raise NFError('diff ' + n)
        if op == 'sum':
            return sum_(a[0], a[1], a[2], d(a[3]))
        if op == 'i2r':
            return R(0)
        if op == 'app':
            return R(0) if not fderiv or a[0] not in fderiv else fderiv[a[0]](a[1:], d)
        if op == 'sym':
            return R(0)
        raise NFError('diff ' + op)
    return d(t)


# ---------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


def evaluate(t, env, funcs, limit=2000000):
    """numeric value; env: sym->number, funcs(name,args,sort)->number"""
    import math
    cnt = [0]
    base = {}

    def ev(t, bound, memo):
        r = memo.get(t)
        if r is not None:
            return r
        cnt[0] += 1
        if cnt[0] > limit:
            raise EvalError('limit')
        r = _ev(t, bound, memo)
        memo[t] = r
        return r

    def _ev(t, bound, memo):
        op, a = t.op, t.args
        g = lambda x: ev(x, bound, memo)
        if op == 'num':
            return int(a[0]) if t.sort == 'I' else float(a[0])
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'sym':
            if t in bound:
                return bound[t]
            v = env.get(t)
            if v is None:
                v = funcs(a[0], (), t.sort)
                env[t] = v
            return v
        if op == 'ipoly':
            s = 0
            for m, c in a:
                x = c
                for at, e in m:
                    x *= g(at) ** e
                s += x
            return s
        if op == 'app':
            return funcs(a[0], tuple(g(x) for x in a[1:]), t.sort)
        if op == 'add':
            return g(a[0]) + g(a[1])
        if op == 'sub':
            return g(a[0]) - g(a[1])
        if op == 'neg':
            return -g(a[0])
        if op == 'mul':
            return g(a[0]) * g(a[1])
        if op == 'div':
            y = g(a[1])
            if y == 0:
                raise EvalError('div0')
            return g(a[0]) / y
        if op == 'i2r':
            return float(g(a[0]))
        if op == 'r2i':
            return int(g(a[0]))
        if op == 'idiv':
            x, y = g(a[0]), g(a[1])
            if y == 0:
                raise EvalError('div0')
            q = abs(x) // abs(y)
            return q if (x >= 0) == (y > 0) else -q
        if op == 'imod':
            x, y = g(a[0]), g(a[1])
            if y == 0:
                raise EvalError('div0')
            q = abs(x) // abs(y)
            q = q if (x >= 0) == (y > 0) else -q
            return x - y * q
        if op == 'ifloordiv':
            return g(a[0]) // g(a[1])
        if op == 'bvop':
            x = [g(y) for y in a[1:]]
            return {'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q,
                    'shl': lambda p, q: p << q, 'lshr': lambda p, q: p >> q, 'ashr': lambda p, q: p >> q}[a[0]](*x)
        if op == 'fn':
            n = a[0]
            x = [g(y) for y in a[1:]]
            try:
                if n == 'pow':
                    if x[0] == 0 and x[1] <= 0:
                        raise EvalError('pow0')
                    if x[0] < 0 and x[1] != int(x[1]):
                        raise EvalError('powneg')
                    return x[0] ** x[1]
                if n == 'floor':
                    return float(math.floor(x[0]))
                return getattr(math, n)(*x)
            except (ValueError, OverflowError, ZeroDivisionError) as e:
                raise EvalError(str(e))
        if op == 'ite':
            return g(a[1]) if g(a[0]) else g(a[2])
        if op == 'not':
            return not g(a[0])
        if op == 'and':
            return all(g(x) for x in a)
        if op == 'or':
            return any(g(x) for x in a)
        if op == 'iff':
            return bool(g(a[0])) == bool(g(a[1]))
        if op == 'ile0':
            return g(a[0]) <= 0
        if op == 'ieq0':
            return g(a[0]) == 0
        if op == 'rlt':
            return g(a[0]) < g(a[1])
        if op == 'rle':
            return g(a[0]) <= g(a[1])
        if op == 'req':
            x, y = g(a[0]), g(a[1])
            return x == y or abs(x - y) <= 1e-9 * max(abs(x), abs(y))
        if op in ('sum', 'forall'):
            b, lo, hi, body = a
            if lo is None:
                rng = range(-3, 8)
            else:
                lo, hi = g(lo), g(hi)
                if hi - lo > 5000:
                    raise EvalError('range')
                rng = range(lo, hi)
            if op == 'sum':
                s = 0 if t.sort == 'I' else 0.0
                for k in rng:
                    b2 = dict(bound)
                    b2[b] = k
                    s += ev(body, b2, {})
                return s
            for k in rng:
                b2 = dict(bound)
                b2[b] = k
                if not ev(body, b2, {}):
                    return False
            return True
        if op == 'peq':
            return g(a[0]) == g(a[1])
        if op == 'null':
            return 0
        if op == 'ptr':
            return ('ptr', a[0]) + tuple(g(x) for x in a[1:])
        if op == 'fptr':
            return ('fptr', a[0])
        raise EvalError('eval ' + op)
    return ev(t, {}, base)
