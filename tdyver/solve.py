"""z3 back end and the equality prover built on normal.py."""
import math
import time, random
from fractions import Fraction
import z3
from .terms import *
from . import terms as tm
from .normal import NF, NFError, evaluate, EvalError

STATS = {'z3_queries': 0, 'z3_time': 0.0, 'nf_calls': 0, 'nf_time': 0.0, 'cvc5_queries': 0, 'cvc5_time': 0.0}

SORT = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}
PS = z3.DeclareSort('Ptr')
SORT['P'] = PS


class Tr:
    """translator to z3.  mode 'lin' abstracts nonlinear real products."""

    def __init__(self, mode='lin'):
        self.mode = mode
        self.memo = {}
        self.funs = {}
        self.pows = []      # fn terms met
        self.defs = []      # side conditions
        self.ptrs = {}

    def fun(self, name, argsorts, sort):
        k = (name, tuple(argsorts), sort)
        f = self.funs.get(k)
        if f is None:
            f = z3.Function(name, *[SORT[s] for s in argsorts], SORT[sort])
            self.funs[k] = f
        return f

    def var(self, key, sort):
        return z3.Const(key, SORT[sort])

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.tr(t)
            self.memo[t] = r
        return r

    def tr(self, t):
        op, a, g = t.op, t.args, self
        if op == 'num':
            return z3.IntVal(a[0]) if t.sort == 'I' else z3.RealVal(str(a[0]))
        if op == 'sym':
            return z3.Const(a[0], SORT[t.sort])
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'ipoly':
            s = []
            for m, c in a:
                x = None
                for at, e in m:
                    for _ in range(e):
                        x = g(at) if x is None else x * g(at)
                x = z3.IntVal(c) if x is None else (x if c == 1 else c * x)
                s.append(x)
            return z3.Sum(s) if len(s) > 1 else s[0]
        if op == 'app':
            if len(a) == 1:
                return z3.Const(a[0], SORT[t.sort])
            return self.fun(a[0], [x.sort for x in a[1:]], t.sort)(*[g(x) for x in a[1:]])
        if op == 'add':
            return g(a[0]) + g(a[1])
        if op == 'sub':
            return g(a[0]) - g(a[1])
        if op == 'neg':
            return -g(a[0])
        if op == 'mul':
            if self.mode == 'lin' and not (is_num(a[0]) or is_num(a[1])):
                return self.opaque(t)
            return g(a[0]) * g(a[1])
        if op == 'div':
            if is_num(a[1]):
                return g(a[0]) / g(a[1])
            if self.mode == 'lin':
                return self.opaque(t)
            q = z3.Real('q!%d' % t.id)
            d = g(a[1])
            self.defs.append(z3.Implies(d != 0, q * d == g(a[0])))
            return q
        if op == 'i2r':
            return z3.ToReal(g(a[0]))
        if op == 'r2i':
            x = g(a[0])
            return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        if op == 'idiv':
            x, y = g(a[0]), g(a[1])
            return z3.If(x >= 0, x / y, -((-x) / y))
        if op == 'imod':
            x, y = g(a[0]), g(a[1])
            return z3.If(x >= 0, x % y, -((-x) % y))
        if op == 'ifloordiv':
            return g(a[0]) / g(a[1])
        if op == 'bvop':
            return self.fun('bv_' + a[0], ['I'] * (len(a) - 1), 'I')(*[g(x) for x in a[1:]])
        if op == 'fn':
            if a[0] == 'floor':
                return z3.ToReal(z3.ToInt(g(a[1])))
            if a[0] == 'pow' and self.mode != 'lin' and is_num(a[2]) and a[2].args[0] in (2, 3, 4):
                x = g(a[1])
                return math.prod([x] * int(a[2].args[0] - 1), start=x)
            v = self.fun('fn_' + a[0], ['R'] * (len(a) - 1), 'R')(*[g(x) for x in a[1:]])
            self.pows.append((t, v))
            return v
        if op == 'ite':
            return z3.If(g(a[0]), g(a[1]), g(a[2]))
        if op == 'not':
            return z3.Not(g(a[0]))
        if op == 'and':
            return z3.And([g(x) for x in a])
        if op == 'or':
            return z3.Or([g(x) for x in a])
        if op in ('iff', 'req', 'peq'):
            return g(a[0]) == g(a[1])
        if op == 'ile0':
            return g(a[0]) <= 0
        if op == 'ieq0':
            return g(a[0]) == 0
        if op == 'rlt':
            return g(a[0]) < g(a[1])
        if op == 'rle':
            return g(a[0]) <= g(a[1])
        if op == 'forall':
            b, lo, hi, body = a
            nb = z3.Int('%s!%d' % (b.args[0], t.id))
            sub = Tr(self.mode)
            sub.funs = self.funs
            sub.memo = {b: nb}
            bz = sub(body)
            if sub.defs or sub.pows:
                # nonlinear under a binder: keep opaque
                return z3.Bool('fa!%d' % t.id)
            rng = []
            if lo is not None:
                rng = [g(lo) <= nb, nb < g(hi)]
            return z3.ForAll([nb], z3.Implies(z3.And(rng), bz) if rng else bz)
        if op == 'sum':
            return self.opaque(t)
        if op in ('ptr', 'null', 'fptr'):
            if op == 'ptr' and len(a) > 1:
                return self.fun('ptr_' + a[0], ['I'] * (len(a) - 1), 'P')(*[g(x) for x in a[1:]])
            return z3.Const('%s_%s' % (op, a[0] if a else ''), PS)
        raise NotImplementedError('z3 ' + op)

    def opaque(self, t):
        fs = free_syms(t)
        bs = sorted((s for s in fs if not isinstance(s, str) and s in self.memo and s.args[0].startswith('%b')), key=lambda s: s.id)
        if bs:
            return self.fun('t!%d' % t.id, ['I'] * len(bs), t.sort)(*[self.memo[b] for b in bs])
        return z3.Const('t!%d' % t.id, SORT[t.sort])

    def axioms(self):
        """facts about the transcendental atoms met so far"""
        out = []
        done = 0
        while done < len(self.pows) and done < 60:
            t, v = self.pows[done]
            done += 1
            n = t.args[0]
            if n == 'pow':
                x, e = self(t.args[1]), self(t.args[2])
                out += [z3.Implies(x > 0, v > 0),
                        z3.Implies(z3.And(x == 0, e > 0), v == 0),
                        z3.Implies(z3.And(x >= 0, e > 0), v >= 0),
                        z3.Implies(z3.And(x > 0, x < 1, e > 0), v < 1),
                        z3.Implies(z3.And(x > 0, x < 1, e < 0), v > 1),
                        z3.Implies(z3.And(x > 1, e > 0), v > 1),
                        z3.Implies(z3.And(x > 1, e < 0), v < 1),
                        z3.Implies(x == 1, v == 1),
                        z3.Implies(z3.And(e == 0, x > 0), v == 1)]
                if is_num(t.args[2]) and t.args[2].args[0] == 2:
                    out.append(v >= 0)
                if is_num(t.args[2]) and t.args[2].args[0] == Fraction(1, 2):
                    out.append(z3.Implies(x >= 0, v * v == x))
            elif n == 'exp':
                x = self(t.args[1])
                out += [v > 0, v >= 1 + x, z3.Implies(x > 0, v > 1), z3.Implies(x < 0, v < 1), z3.Implies(x == 0, v == 1)]
            elif n == 'log':
                x = self(t.args[1])
                out += [z3.Implies(x > 1, v > 0), z3.Implies(z3.And(x > 0, x < 1), v < 0), z3.Implies(x == 1, v == 0)]
        return out + self.defs


def _check(solver):
    t0 = time.time()
    r = solver.check()
    STATS['z3_queries'] += 1
    STATS['z3_time'] += time.time() - t0
    return r


class Ctx:
    """incremental path context: quick feasibility"""

    def __init__(self, timeout=400):
        self.tr = Tr('lin')
        self.s = z3.SolverFor('ALL') if False else z3.Solver()
        self.s.set('timeout', timeout)
        self.cache = {}

    def sat(self, pc, extra=()):
        """False if the conjunction is certainly infeasible"""
        fs = frozenset(list(pc) + list(extra))
        if FALSE in fs:
            return False
        r = self.cache.get(fs)
        if r is not None:
            return r
        for f in fs:
            if f.op in ('not', 'rlt', 'rle', 'ile0') and not_(f) in fs:
                self.cache[fs] = False
                return False
        # relevance: keep it simple, send everything
        self.s.push()
        n0 = len(self.tr.defs)
        for f in fs:
            if f.op != 'forall':
                self.s.add(self.tr(f))
        r = _check(self.s) != z3.unsat
        self.s.pop()
        self.cache[fs] = r
        return r

    def implied(self, pc, c):
        return not self.sat(pc, (not_(c),))

    def decide(self, pc, c):
        """TRUE/FALSE/None"""
        if c in (TRUE, FALSE):
            return c
        if c in pc:
            return TRUE
        if not_(c) in pc:
            return FALSE
        if not self.sat(pc, (not_(c),)):
            return TRUE
        if not self.sat(pc, (c,)):
            return FALSE
        return None


CTX = Ctx()

# function-definition axioms: name -> f(args)->Bool term (instantiated on demand)
FUN_AXIOMS = {}


def with_axioms(fs, rounds=2):
    """instantiate registered axioms for the applications occurring in fs"""
    fs = list(fs)
    if not FUN_AXIOMS:
        return fs
    seen = set()
    for _ in range(rounds):
        new = []
        for f in fs:
            for t in atoms_where(f, lambda x: x.op == 'app' and x.args[0] in FUN_AXIOMS):
                if t in seen or any(x.op == 'sym' and x.args[0].startswith('%b') for x in free_syms(t) if not isinstance(x, str)):
                    continue
                seen.add(t)
                ax = axiom_of(t)
                if ax is not TRUE:
                    new.append(ax)
        if not new:
            break
        fs += new
    return fs


class Res:
    def __init__(self, status, backend='', model=None, detail=''):
        self.status = status     # 'proved' | 'refuted' | 'unknown'
        self.backend = backend
        self.model = model
        self.detail = detail

    def __bool__(self):
        return self.status == 'proved'

    def __repr__(self):
        return '%s[%s]%s' % (self.status, self.backend, ' ' + self.detail if self.detail else '')


def z3_prove(pc, goal, timeout=4000, mode='full'):
    tr = Tr(mode)
    s = z3.Solver()
    s.set('timeout', timeout)
    fs = list(pc) + [not_(goal)]
    for f in fs:
        s.add(tr(f))
    for x in tr.axioms():
        s.add(x)
    r = _check(s)
    if r == z3.unsat:
        return Res('proved', 'z3')
    if r == z3.sat:
        return Res('unknown', 'z3', s.model())
    return Res('unknown', 'z3', None, 'timeout')


def relevant(pc, goal, rounds=3):
    """facts sharing symbols with the goal (transitively)"""
    syms = set(x for x in free_syms(goal))
    out = []
    rest = list(pc)
    for _ in range(rounds):
        nxt = []
        added = False
        for f in rest:
            if free_syms(f) & syms:
                out.append(f)
                added = True
            else:
                nxt.append(f)
        rest = nxt
        if not added:
            break
        for f in out:
            syms |= free_syms(f)
    return out


def triggers(fa):
    """applications in the body of a forall that determine the bound variable:
    [(name, position, coef, rest)] with argument == coef*b + rest"""
    b, body = fa.args[0], fa.args[3]
    out = []
    for t in atoms_where(body, lambda x: x.op == 'app', into_binders=False):
        for i, a in enumerate(t.args[1:]):
            if not isinstance(a, T) or a.sort != 'I' or b not in free_syms(a):
                continue
            if a is b:
                out.append((t, i, 1, I(0)))
                continue
            c, items = isplit(a)
            k = None
            for m, q in items:
                if len(m) == 1 and m[0][0] is b and m[0][1] == 1:
                    k = q
                elif any(b in free_syms(x) for x, e in m):
                    k = None
                    break
            if k is not None:
                out.append((t, i, k, sub(a, mul(I(k), b))))
    return out


_trig = {}


def instances(fa, ground, limit=60):
    """instances of a forall at the applications found in ground (a dict name->apps)"""
    tr = _trig.get(fa)
    if tr is None:
        tr = _trig[fa] = triggers(fa)
    b, lo, hi, body = fa.args
    vals = []
    for pat, i, k, rest in tr:
        for g in ground.get(pat.args[0], ()):
            if len(g.args) != len(pat.args):
                continue
            # the other arguments must agree when they do not mention b
            ok = True
            for j, (x, y) in enumerate(zip(pat.args[1:], g.args[1:])):
                if j != i and b not in free_syms(x) and x is not y:
                    ok = False
            if not ok:
                continue
            v = sub(g.args[1 + i], rest)
            if k != 1:
                v = fdiv_i(v, I(k))
                if v.op == 'ifloordiv':
                    continue
            if v not in vals:
                vals.append(v)
    out = []
    for v in vals[:limit]:
        x = _inst.get((fa, v))
        if x is None:
            x = subst(body, {b: v})
            if lo is not None:
                x = implies(and_(ile(lo, v), ilt(v, hi)), x)
            _inst[(fa, v)] = x
        out.append(x)
    return out


_inst = {}
_axc = {}


def axiom_of(t):
    f = FUN_AXIOMS[t.args[0]]
    r = _axc.get((f, t))
    if r is None:
        r = _axc[(f, t)] = f(t.args[1:])
    return r


# counting sums and the enumeration of the indices they count -------------
NTH = {}          # name -> (n, other symbols, condition)
_nth = {}


def counting(t):
    """sum of 0/1 from 0: (condition body, upper bound)"""
    if t.op != 'sum' or t.sort != 'I' or t.args[1] is not I(0):
        return None
    b, lo, hi, body = t.args
    if body.op == 'ite' and body.args[1] is I(1) and body.args[2] is I(0):
        return body, hi
    if body.op == 'ite' and body.args[1] is I(0) and body.args[2] is I(1):
        return body, hi
    return None


def nth(k, c, n):
    """the k-th index (from 0) at which c holds"""
    syms = sorted([s for s in free_syms(c) if not isinstance(s, str) and s is not n], key=lambda t: t.args[0])
    x = sym('%nth', 'I')
    key = subst(c, {n: x})
    nm = _nth.get(key)
    if nm is None:
        nm = _nth[key] = 'nth %d' % len(_nth)
        NTH[nm] = (n, tuple(syms), c)
    return app(nm, (k,) + tuple(syms), 'I')


def nth_parts(t):
    n, syms, c = NTH[t.args[0]]
    m = dict(zip(syms, t.args[2:]))
    c = subst(c, m) if m else c
    return n, c, (lambda hi: sum_(n, I(0), hi, ite(c, I(1), I(0))))


def counting_facts(sums, nths, seen):
    out = []

    def put(key, f):
        if key not in seen:
            seen.add(key)
            if f is not TRUE:
                out.extend(f.args if f.op == 'and' else (f,))
    for s in sums:
        body, hi = counting(s)
        put((s,), and_(ile(I(0), s), implies(ile(I(0), hi), ile(s, hi)), implies(ile(hi, I(0)), ieq(s, I(0)))))
    for s in sums:
        for t in sums:
            if s is t or s.args[3] is not t.args[3]:
                continue
            hs, ht = s.args[2], t.args[2]
            put((s, t), and_(implies(ile(hs, ht), ile(s, t)),
                             implies(and_(ile(I(0), hs), ilt(hs, ht)), ile(add(s, subst(s.args[3], {s.args[0]: hs})), t))))
    for j in nths:
        n, c, cnt = nth_parts(j)
        k = j.args[1]
        probe = cnt(sym('%hi', 'I'))
        for s in sums:
            if s.args[3] is not probe.args[3]:
                continue
            hi = s.args[2]
            put((j, s), and_(implies(and_(ile(I(0), k), ilt(k, s)), and_(ile(I(0), j), ilt(j, hi), subst(c, {n: j}), ieq(cnt(j), k))),
                             implies(and_(ile(I(0), hi), subst(c, {n: hi}), ieq(k, s)), ieq(j, hi))))
    return out


def match_index(c, n, ground):
    """ground values of n at which the applications of c occur"""
    vals = []
    for pat, i, k, rest in triggers(mk('forall', (n, None, None, c), 'B')):
        if k != 1:
            continue
        for g in ground.get(pat.args[0], ()):
            if len(g.args) == len(pat.args) and all(j == i or n in free_syms(x) or x is y for j, (x, y) in enumerate(zip(pat.args[1:], g.args[1:]))):
                v = sub(g.args[1 + i], rest)
                if v not in vals and not atoms_where(v, lambda x: x.op == 'app' and x.args[0] in NTH):
                    vals.append(v)
    return vals[:6]


_hyps = {}


def hyps(pc, goal, rounds=3, keep_forall=False):
    """the facts relevant to goal, with the axioms of defined functions and the
    instances of the universally quantified facts at the terms that occur"""
    key = (tuple(pc), goal, keep_forall)
    r = _hyps.get(key)
    if r is not None:
        return r
    fs = relevant(pc, goal, rounds)
    have = set(fs)
    seen_ax, seen_inst, seen_cnt = set(), set(), set()
    sums, nths = {}, {}
    fas = [f for f in fs if f.op == 'forall']
    ground = {}
    todo = [goal] + [f for f in fs if f.op != 'forall']
    for rnd in range(4):
        newapps = []
        for f in todo:
            for t in atoms_where(f, lambda x: x.op == 'app'):
                l = ground.setdefault(t.args[0], [])
                if t not in l:
                    if len(l) < 40:
                        l.append(t)
                    newapps.append(t)
            for t in atoms_where(f, lambda x: x.op == 'sum' and counting(x)):
                sums.setdefault(t)
        new = []
        if sums:
            for t in newapps:
                if t.args[0] in NTH:
                    nths.setdefault(t)
            for t in list(nths):
                n, c, cnt = nth_parts(t)
                for v in match_index(c, n, ground) if rnd < 2 else ():
                    x = cnt(v)
                    if counting(x):
                        sums.setdefault(x)
                        y = app(t.args[0], (x,) + t.args[2:], 'I')
                        l = ground.setdefault(y.args[0], [])
                        if y not in l and len(l) < 40:
                            l.append(y)
                        nths.setdefault(y)
            new += counting_facts(list(sums)[:12], list(nths)[:16], seen_cnt)
        for t in newapps:
            if t.args[0] in FUN_AXIOMS and t not in seen_ax:
                seen_ax.add(t)
                ax = axiom_of(t)
                for x in (ax.args if ax.op == 'and' else (ax,)):
                    if x is not TRUE:
                        new.append(x)
        for x in new:
            if x.op == 'forall':
                fas.append(x)
        for fa in fas:
            for x in instances(fa, ground):
                if x is not TRUE and x not in seen_inst:
                    seen_inst.add(x)
                    new += list(x.args) if x.op == 'and' else [x]
        # facts that have become relevant
        if new and rnd < 2:
            syms = set()
            for x in new:
                syms |= free_syms(x)
            for f in pc:
                if f not in have and (free_syms(f) & syms):
                    have.add(f)
                    new.append(f)
                    if f.op == 'forall':
                        fas.append(f)
        new = [x for x in new if x not in have or x in pc]
        have |= set(new)
        fs = fs + [x for x in new if x not in fs]
        todo = [x for x in new if x.op != 'forall']
        if not todo:
            break
        if len(fs) > 400:
            break
    if not keep_forall:
        fs = [f for f in fs if f.op != 'forall']
    if len(_hyps) > 20000:
        _hyps.clear()
    _hyps[key] = fs
    return fs


def pc_rewrites(pc):
    """oriented equalities of the path condition: list of (lhs term, rhs term)"""
    rw = {}
    for f in pc:
        if f.op == 'ieq0':
            c, items = isplit(f.args[0])
            best = None
            for m, k in items:
                if len(m) == 1 and m[0][1] == 1 and abs(k) == 1:
                    at = m[0][0]
                    if at in rw:
                        continue
                    rest = sub(f.args[0], mul(I(k), at))
                    rhs = mul(I(-k), rest)
                    if _occurs(at, rhs):
                        continue
                    pri = (len(free_syms(at)), at.id)
                    pr2 = (0 if at.op != 'sym' else 1, at.id)
                    if best is None or pr2 > best[0]:
                        best = (pr2, at, rhs)
            if best:
                rw[best[1]] = best[2]
        elif f.op == 'req':
            for x, y in ((f.args[0], f.args[1]), (f.args[1], f.args[0])):
                if x.op in ('sym', 'app') and x not in rw and not _occurs(x, y):
                    rw[x] = y
                    break
        elif f.op == 'peq':
            for x, y in ((f.args[0], f.args[1]), (f.args[1], f.args[0])):
                if x.op in ('sym', 'app') and x not in rw and not _occurs(x, y):
                    rw[x] = y
                    break
    return rw


def _occurs(x, t):
    return bool(atoms_where(t, lambda y: y is x, into_binders=True))


def replace(t, m, depth=0):
    """replace whole subterms (dict term->term), bottom-up through constructors"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t in m:
            r = m[t]
        elif t.op in ('sum', 'forall'):
            r = rebuild(t, go)
        else:
            r = rebuild(t, go)
            if r is not t and r in m:
                r = m[r]
        memo[t] = r
        return r
    return go(t)


def replace_fix(t, m, n=4):
    for _ in range(n):
        r = replace(t, m)
        if r is t:
            return r
        t = r
    return t


def onepoint(t, memo={}):
    """a sum of terms that vanish unless the index has one given value is that term"""
    r = memo.get(t)
    if r is None:
        r = t if not t.args else rebuild(t, onepoint)
        if r.op == 'sum' and r.sort != 'P':
            n, lo, hi, body = r.args
            e = index_given(body, n)
            if e is not None:
                z = I(0) if body.sort == 'I' else R(0)
                r = ite(and_(ile(lo, e), ilt(e, hi)), subst(body, {n: e}), z)
        memo[t] = r
    return r


def index_given(body, n):
    """the only value of n at which body may not vanish"""
    zero = lambda x: x.op == 'num' and x.args[0] == 0
    while body.op == 'ite':
        c, a, b = body.args
        if zero(b):
            body = a
        elif zero(a):
            c, body = not_(c), b
        else:
            return None
        for g in (c.args if c.op == 'and' else (c,)):
            if g.op == 'ieq0' and n in free_syms(g):
                k, items = isplit(g.args[0])
                for m, q in items:
                    if len(m) == 1 and m[0][0] is n and m[0][1] == 1 and q in (1, -1):
                        rest = sub(g.args[0], mul(I(q), n))
                        if n not in free_syms(rest):
                            return neg(rest) if q == 1 else rest
    return None


POS = {}


def positions(c):
    """comparisons of plain index variables in a condition"""
    if c not in POS:
        if c.op in ('and', 'or', 'not', 'iff'):
            POS[c] = [y for x in c.args for y in positions(x)]
        else:
            POS[c] = []
            if c.op == 'ieq0':
                p = c.args[0]
                if p.op == 'sym' or p.op == 'ipoly' and all(at.op == 'sym' for m, _ in p.args for at, e in m):
                    POS[c] = [c]
    return POS[c]


def find_cond(t):
    """an ite condition outside binders, preferring conditions without ite inside"""
    best = None
    for x in atoms_where(t, lambda y: y.op == 'ite'):
        c = x.args[0]
        if best is None or c.id < best.id:
            best = c
    if best is None:
        return None
    pos = None
    for x in atoms_where(t, lambda y: y.op == 'ite'):
        for a in positions(x.args[0]):
            if pos is None or a.id < pos.id:
                pos = a
    if pos is not None:
        return pos
    # descend into boolean structure to an atomic condition
    c = best
    while c.op in ('and', 'or', 'not', 'iff'):
        c = c.args[0]
    inner = find_cond(c)
    return inner if inner is not None else c


class Local:
    """incremental solver over the facts relevant to one equality, with models as filters"""

    def __init__(self, facts, timeout=300):
        self.s = z3.Solver()
        self.s.set('timeout', timeout)
        self.tr = CTX.tr
        for f in facts:
            if f.op != 'forall':
                self.s.add(self.tr(f))
        self.models = []
        self.dead = False       # facts contradictory
        r = _check(self.s)
        if r == z3.unsat:
            self.dead = True
        elif r == z3.sat:
            self.models.append(self.s.model())
        self.stack = []

    def push(self, f):
        self.s.push()
        self.stack.append((self.models, self.dead))
        z = self.tr(f)
        self.s.add(z)
        self.models = [m for m in self.models if z3.is_true(m.eval(z, model_completion=True))]

    def pop(self):
        self.models, self.dead = self.stack.pop()
        self.s.pop()

    def possible(self, f):
        """False only if facts and f are certainly contradictory"""
        if self.dead:
            return False
        z = self.tr(f)
        for m in self.models:
            if z3.is_true(m.eval(z, model_completion=True)):
                return True
        self.s.push()
        self.s.add(z)
        r = _check(self.s)
        if r == z3.sat:
            self.models.append(self.s.model())
        self.s.pop()
        return r != z3.unsat

    def implied(self, f):
        return f is TRUE or not self.possible(not_(f))

    def decide(self, c):
        if c in (TRUE, FALSE):
            return c
        if not self.possible(not_(c)):
            return TRUE
        if not self.possible(c):
            return FALSE
        return None


class _Probe:
    def __init__(self, seed):
        import random
        self.rng = random.Random(seed)
        self.tab = {}

    def __call__(self, name, args, sort):
        k = (name, args)
        v = self.tab.get(k)
        if v is None:
            r = self.rng
            v = r.randint(0, 6) if sort == 'I' else (r.random() < .5) if sort == 'B' else ('sp', len(self.tab)) if sort == 'P' else r.uniform(0.1, 1.9)
            self.tab[k] = v
        return v


_PROBES = [_Probe(7), _Probe(11)]
_PVAL = {}


def probe_value(t):
    """values of a real term at fixed random points (a filter, never a proof)"""
    from .normal import evaluate, EvalError
    r = _PVAL.get(t)
    if r is None:
        try:
            r = [evaluate(t, {}, p, 20000) for p in _PROBES]
            if any(isinstance(x, complex) or x != x for x in r):
                r = False
        except (EvalError, OverflowError, ZeroDivisionError, ValueError, TypeError, KeyError):
            r = False
        _PVAL[t] = r
    return r or None


def close_value(a, b):
    return all(abs(x - y) <= 1e-7 * max(abs(x), abs(y), 1e-12) for x, y in zip(a, b))


def nested(t):
    """conditions already decided by an enclosing conditional, in its branches"""
    memo = {}

    def go(x):
        if not x.args or x.op == 'num':
            return x
        if x in memo:
            return memo[x]
        if x.op == 'ite':
            c = x.args[0]
            y = ite(go(c), go(replace(x.args[1], {c: TRUE, not_(c): FALSE})), go(replace(x.args[2], {c: FALSE, not_(c): TRUE})))
        elif x.op in ('forall', 'sum'):
            y = x
        else:
            kids = [k for k in atoms_where(x, lambda z: z.op == 'ite', into_binders=False)]
            m = {k: go(k) for k in kids if k is not x}
            y = replace(x, m) if any(k is not z for k, z in m.items()) else x
        memo[x] = y
        return y
    return go(t)


class Prover:
    def __init__(self, max_leaves=600, z3_timeout=4000):
        self.max_leaves = max_leaves
        self.z3_timeout = z3_timeout
        self.leaves = 0
        self.failed_leaf = None
        self.brief = False

    # --------------------------------------------------------- equalities
    def prove_eq(self, pc, a, b, depth=0):
        if a is b:
            return Res('proved', 'syntactic')
        pc = list(pc)
        self.leaves = 0
        r = self._eq(pc, a, b, depth)
        if not r and r.detail == 'too many cases':
            a2, b2 = nested(a), nested(b)
            if a2 is b2:
                return Res('proved', 'syntactic')
            if (a2, b2) != (a, b):
                r2 = self._leaf(pc, a2, b2, depth, self.local(pc, a2, b2))
                if r2:
                    return r2
                self.leaves = 0
                r = self._eq(pc, a2, b2, depth)
        return r

    def local(self, pc, a, b):
        return Local(hyps(pc, mk('pair', (a, b), 'B')))

    def _simpl(self, t, facts):
        m = {}
        for f in facts:
            if f.op == 'and':
                for g in f.args:
                    m[g] = TRUE
                    m[not_(g)] = FALSE
                continue
            m[f] = TRUE
            m[not_(f)] = FALSE
        m.pop(TRUE, None)
        m.pop(FALSE, None)
        return replace(t, m)

    def _eq(self, pc, a, b, depth, L=None):
        if a is b:
            return Res('proved', 'syntactic')
        c = find_cond_pair(a, b)
        if L is None:
            L = self.local(pc, a, b)
            if not L.dead and self.congruent(L, a, b, [4000], {}):
                return Res('proved', 'z3', None, 'congruence')
        if L.dead:
            return Res('proved', 'z3')
        if c is not None:
            # decided?
            d = L.decide(c)
            if d is None and c.op in ('req', 'rlt', 'rle'):
                d = self.nf_decide(pc, c, L)
            if d is not None:
                m = {c: d, not_(c): not_(d)}
                return self._eq(pc, replace(a, m), replace(b, m), depth, L)
            self.leaves += 1
            if self.leaves > self.max_leaves:
                return Res('unknown', 'split', None, 'too many cases')
            r = None
            for v in (TRUE, FALSE):
                m = {c: v, not_(c): not_(v)}
                f = c if v is TRUE else not_(c)
                L.push(f)
                try:
                    r = self._eq(pc + [f], replace(a, m), replace(b, m), depth, L)
                finally:
                    L.pop()
                if not r:
                    return r
            return r
        return self._leaf(pc, a, b, depth, L)

    def congruent(self, L, a, b, budget, memo):
        """equal by congruence, conditions being settled by the path"""
        if a is b:
            return True
        if a.sort != b.sort or (a.op == 'num' and b.op == 'num'):
            return False
        if (a, b) in memo:
            return memo[(a, b)]
        budget[0] -= 1
        if budget[0] < 0:
            return False
        r = self._congruent(L, a, b, budget, memo)
        memo[(a, b)] = r
        return r

    def _congruent(self, L, a, b, budget, memo):
        if a.sort == 'B':
            if a.op == b.op and a.op in ('and', 'or', 'not', 'req', 'rlt', 'rle', 'peq') and len(a.args) == len(b.args) and \
                    all(self.congruent(L, x, y, budget, memo) for x, y in zip(a.args, b.args)):
                return True
            if a.op in ('rlt', 'rle', 'req') or b.op in ('rlt', 'rle', 'req') or a.op == 'forall' or b.op == 'forall':
                return False
            return not L.possible(and_(a, not_(b))) and not L.possible(and_(b, not_(a)))
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite' and not (y.op == 'ite' and y.args[0] is x.args[0]):
                d = L.decide(x.args[0])
                if d is not None:
                    return self.congruent(L, x.args[1] if d is TRUE else x.args[2], y, budget, memo)
        if a.op == 'ite' and b.op == 'ite':
            c = a.args[0]
            if not self.congruent(L, c, b.args[0], budget, memo):
                return False
            for f, i in ((c, 1), (not_(c), 2)):
                L.push(f)
                try:
                    if not self.congruent(L, a.args[i], b.args[i], budget, {}):
                        return False
                finally:
                    L.pop()
            return True
        if a.op != b.op or len(a.args) != len(b.args):
            return False
        if a.op == 'sum':
            if not (self.congruent(L, a.args[1], b.args[1], budget, memo) and self.congruent(L, a.args[2], b.args[2], budget, memo)):
                return False
            n = fresh('sn', 'I')
            L.push(and_(ile(a.args[1], n), ilt(n, a.args[2])))
            try:
                return self.congruent(L, subst(a.args[3], {a.args[0]: n}), subst(b.args[3], {b.args[0]: n}), budget, {})
            finally:
                L.pop()
        if a.op in ('add', 'sub', 'mul', 'div', 'neg', 'app', 'i2r'):
            for x, y in zip(a.args, b.args):
                if x is y:
                    continue
                if not isinstance(x, T) or not isinstance(y, T) or not self.congruent(L, x, y, budget, memo):
                    return False
            return True
        return False

    def nf_decide(self, pc, c, L):
        """a comparison settled by bounds on the path, up to ring rewriting and the equalities on the path"""
        if not any((f.args[0] if f.op == 'not' else f).op in ('req', 'rlt', 'rle') for f in pc):
            return None
        rw = pc_rewrites(pc)

        def parts(g):
            """g says: t - k (compared with) 0"""
            x, y = lift(g.args[0]), lift(g.args[1])
            if y.op == 'num':
                return x, y.args[0], 1
            if x.op == 'num':
                return y, x.args[0], -1
            return sub(x, y), 0, 1
        t, k, s0 = parts(c)
        t = replace_fix(t, rw)
        v = None

        def positive(t):
            t = lift(t)
            return L.implied(rlt(R(0), t)) or not CTX.sat(hyps(pc, t), (rle(t, R(0)),))
        lo, hi, ne = (-math.inf, False), (math.inf, False), []      # (bound, strict)
        for f in reversed(pc):
            neg_ = f.op == 'not'
            g = f.args[0] if neg_ else f
            if g.op not in ('req', 'rlt', 'rle'):
                continue
            if v is None:
                v = probe_value(t)
                if v is None:
                    return None
            e, q, s1 = parts(g)
            for _ in range(8):
                z = find_cond_pair(e, e)
                if z is None:
                    break
                d = L.decide(z)
                if d is None:
                    break
                e = replace(e, {z: d, not_(z): not_(d)})
            e = replace_fix(e, rw)
            w = probe_value(e)
            if w is None:
                continue
            same, opp = close_value(v, w), close_value(v, [-x for x in w])
            if not (same or opp):
                continue
            try:
                if t is not e and not NF(positive).equal(t, e if same else neg(e)):
                    continue
            except NFError:
                continue
            if not same:
                q, s1 = -q, -s1
            # s1 * (t - q) (compared with) 0
            if g.op == 'req':
                if neg_:
                    ne.append(q)
                else:
                    lo, hi = max(lo, (q, False)), min(hi, (q, False), key=lambda b: (b[0], not b[1]))
                continue
            strict = g.op == 'rlt'
            if neg_:
                s1, strict = -s1, not strict
            if s1 > 0:
                hi = min(hi, (q, strict), key=lambda b: (b[0], not b[1]))
            else:
                lo = max(lo, (q, strict))
        if v is None:
            return None
        lo, hi = (lo[0], lo[1] or lo[0] in ne), (hi[0], hi[1] or hi[0] in ne)

        def below(b):       # t < b or (b[1] false) t <= b certainly
            return hi[0] < b[0] or (hi[0] == b[0] and (hi[1] or not b[1]))

        def above(b):
            return lo[0] > b[0] or (lo[0] == b[0] and (lo[1] or not b[1]))
        if c.op == 'req':
            if below((k, True)) or above((k, True)) or k in ne:
                return FALSE
            if lo == hi == (k, False):
                return TRUE
            return None
        strict = c.op == 'rlt'
        yes, no = (below, above) if s0 > 0 else (above, below)
        if yes((k, strict)):
            return TRUE
        if no((k, not strict)):
            return FALSE
        return None

    def _leaf(self, pc, a, b, depth, L=None):
        if a is b:
            return Res('proved', 'syntactic')
        if L is None:
            L = self.local(pc, a, b)
        r = self._leaf1(pc, a, b, depth, L)
        if not r and L.stack:
            # with the instances at the case conditions
            L2 = self.local(pc, a, b)
            if L2.dead:
                return Res('proved', 'z3')
            r = self._leaf1(pc, a, b, depth, L2)
        return r

    def _leaf1(self, pc, a, b, depth, L):
        rw = pc_rewrites(pc)
        if FUN_AXIOMS:
            rw.update(self.witness(pc, a, b, L))
        if rw:
            a2, b2 = replace_fix(a, rw), replace_fix(b, rw)
            if a2 is b2:
                return Res('proved', 'rewrite')
            if find_cond_pair(a2, b2) is not None:
                return self._eq([f for f in pc], a2, b2, depth + 1) if depth < 6 else Res('unknown', 'nf', None, 'loop')
        else:
            a2, b2 = a, b
        for _ in range(4):
            u = self.unify(pc, a2, b2, L)
            if not u:
                break
            a2, b2 = replace(a2, u), replace(b2, u)
            if a2 is b2:
                return Res('proved', 'rewrite')
            if find_cond_pair(a2, b2) is not None:
                return self._eq(pc, a2, b2, depth + 1) if depth < 6 else Res('unknown', 'nf', None, 'loop')
        if a.sort == 'P':
            r = z3_prove(hyps(pc, peq(a, b)), peq(a, b), self.z3_timeout)
            if not r:
                r.detail = 'pointers %s != %s' % (show(a, 4), show(b, 4))
                r.leaf = (pc, a, b)
            return r
        t0 = time.time()
        STATS['nf_calls'] += 1

        def positive(t):
            t = lift(t)
            return L.implied(rlt(R(0), t)) or not CTX.sat(hyps(pc, t), (rle(t, R(0)),))
        nf = NF(positive)
        try:
            try:
                ok = nf.equal(a2, b2)
            finally:
                STATS['nf_time'] += time.time() - t0
            if ok:
                return Res('proved', 'ring normal form')
            # sums: combine and prove the summand pointwise
            r = self.sums(pc, nf, a2, b2, depth)
            if r is not None and r:
                return r
        except NFError as e:
            r = None
        g = eq(a, b)
        z = z3_prove(hyps(pc, g), g, self.z3_timeout)
        if z:
            return z
        z.leaf = (pc, a, b)
        z.detail = (z.detail + ' leaf: %s != %s' % (show(a2, 6)[:600], show(b2, 6)[:600])).strip()
        return z

    def witness(self, pc, a, b, L):
        """equalities between last-writer witnesses and other index terms"""
        ws = {}
        for t in (a, b):
            for x in atoms_where(t, lambda y: y.op == 'app' and y.args[0] in FUN_AXIOMS):
                ws[x] = 1
        if not ws:
            return {}
        rw = {}
        idx = {}
        for t in (a, b):
            for x in atoms_where(t, lambda y: y.op == 'app' and y.sort in 'IRP'):
                for g in x.args[1:]:
                    if isinstance(g, T) and g.sort == 'I' and g.op != 'num':
                        idx[g] = 1
                        for q in atoms_where(g, lambda y: y.op in ('sym', 'app') and y.sort == 'I'):
                            idx[q] = 1
        for w in sorted(ws, key=lambda t: -t.id):
            N = w.args[-1]
            cands = [app(w.args[0], list(w.args[1:-1]) + [sub(N, I(1))], 'I'), sub(N, I(1))]
            cands += [q for q in idx if q is not w and not _occurs(w, q) and q not in rw][:12]
            for q in cands:
                g = ieq(w, q)
                if g in (TRUE, FALSE):
                    continue
                if L.implied(g):
                    if q.op == 'app' and q.args[0] == w.args[0] and q.id > w.id and q in ws:
                        if w not in rw and q not in rw:
                            rw[q] = w
                    else:
                        rw[w] = q
                    break
        return rw

    def unify(self, pc, a, b, L, limit=200):
        """index terms that are provably equal: one representative for the applications that differ in them"""
        groups = {}
        for t in (a, b):
            for x in atoms_where(t, lambda y: y.op == 'app' and len(y.args) > 1):
                if not any(not isinstance(s, str) and s.args[0].startswith('%b') for s in free_syms(x)):
                    groups.setdefault(x.args[0], {})[x] = 1
        rw, tried = {}, {}
        for nm, xs in groups.items():
            xs = sorted(xs, key=lambda t: t.id)
            for i in range(len(xs)):
                for j in range(i):
                    x, y = xs[i], xs[j]
                    if x in rw or y in rw or len(x.args) != len(y.args):
                        continue
                    dif = [(p, q) for p, q in zip(x.args[1:], y.args[1:]) if p is not q]
                    g = and_(*[eq(p, q) for p, q in dif])
                    if g is FALSE or any(p.sort != 'I' for p, q in dif):
                        continue
                    if g not in tried:
                        if len(tried) > limit:
                            continue
                        tried[g] = L.implied(g)
                    if tried[g]:
                        rw[x] = y
        return rw

    def sums(self, pc, nf, a, b, depth):
        if depth > 4:
            return None
        d = linear_sums(sub(lift(a), lift(b)))
        if d is None:
            return None
        rest, sums = d
        groups = {}
        for coef, s in sums:
            groups.setdefault((s.args[1], s.args[2]), []).append((coef, s))
        # merge ranges that are provably equal
        keys = list(groups)
        for i in range(len(keys)):
            for j in range(i + 1, len(keys)):
                if keys[i] in groups and keys[j] in groups:
                    if not CTX.sat(hyps(pc, and_(ieq(keys[i][0], keys[j][0]), ieq(keys[i][1], keys[j][1]))),
                                   (not_(and_(ieq(keys[i][0], keys[j][0]), ieq(keys[i][1], keys[j][1]))),)):
                        groups[keys[i]] += groups.pop(keys[j])
        last = None
        for (lo, hi), lst in groups.items():
            n = fresh('sn', 'I')
            body = R(0)
            for coef, s in lst:
                body = add(body, mul(coef, lift(subst(s.args[3], {s.args[0]: n}))))
            p = Prover(self.max_leaves, self.z3_timeout)
            r = p._eq(list(pc) + [ile(lo, n), ilt(n, hi)], body, R(0), depth + 1)
            if not r:
                return r
            last = r
        if not groups:
            return None
        if rest.op == 'num' and rest.args[0] == 0:
            return Res('proved', 'summand ' + last.backend)
        r = self._leaf(pc, rest, R(0), depth + 1)
        return r

    # --------------------------------------------------------- general
    def prove(self, pc, goal, depth=0):
        if goal is TRUE:
            return Res('proved', 'trivial')
        if goal.op == 'and':
            last = Res('proved', 'trivial')
            for g in goal.args:
                r = self.prove(pc, g, depth)
                if not r:
                    return r
                last = r
            return last
        if goal in pc:
            return Res('proved', 'hypothesis')
        if goal.op == 'forall':
            b, lo, hi, body = goal.args
            n = fresh('fa', 'I')
            ex = [] if lo is None else [ile(lo, n), ilt(n, hi)]
            return self.prove(list(pc) + ex, subst(body, {b: n}), depth)
        if goal.op == 'or' and any(g.op in ('req', 'ieq0', 'forall', 'peq', 'and') for g in goal.args):
            # a -> b style: assume the negation of the other disjuncts
            eqs = [g for g in goal.args if g.op in ('req', 'forall', 'peq', 'and')] or [g for g in goal.args if g.op == 'ieq0']
            if len(eqs) >= 1:
                e = eqs[-1]
                others = [not_(g) for g in goal.args if g is not e]
                fl = []
                for o in others:
                    fl += list(o.args) if o.op == 'and' else [o]
                if not CTX.sat(hyps(list(pc) + fl, goal), fl):
                    return Res('proved', 'z3')
                r = self.prove(list(pc) + fl, e, depth + 1)
                if r or len(eqs) == 1:
                    return r
        if goal.op == 'req':
            return self.prove_eq(pc, onepoint(goal.args[0]), onepoint(goal.args[1]))
        if goal.op == 'peq':
            return self.prove_eq(pc, goal.args[0], goal.args[1])
        if goal.op == 'ieq0':
            r = z3_prove(hyps(pc, goal), goal, 1500, 'lin')
            if r:
                return r
            return self.prove_eq(pc, goal.args[0], I(0))
        f = hyps(pc, goal)
        r = z3_prove(f, goal, min(1500, self.z3_timeout), 'lin')
        if r:
            return r
        r2 = z3_prove(f, goal, self.z3_timeout, 'full')
        if r2:
            return r2
        # case split on ite conditions
        if depth < 12:
            c = find_cond(goal)
            if c is not None:
                last = None
                for v in (TRUE, FALSE):
                    ff = c if v is TRUE else not_(c)
                    if not CTX.sat(hyps(pc, ff), (ff,)):
                        continue
                    m = {c: v, not_(c): not_(v)}
                    r = self.prove(list(pc) + [ff], replace(goal, m), depth + 1)
                    if not r:
                        return r
                    last = r
                return last or Res('proved', 'z3')
        r3 = None if self.brief else cvc5_prove(f, goal, self.z3_timeout)
        if r3:
            return r3
        r2.leaf = (pc, goal, TRUE)
        r2.detail = (r2.detail + ' goal: ' + show(goal, 8)[:600]).strip()
        return r2


def find_cond_pair(a, b):
    x, y = find_cond(a), find_cond(b)
    if x is None:
        return y
    if y is None:
        return x
    return x if x.id < y.id else y


def linear_sums(t):
    """t == rest + sum coef_i * Sum_i, with coef free of sums; None if not linear"""
    if not atoms_where(t, lambda x: x.op == 'sum'):
        return t, []
    op, a = t.op, t.args
    if op == 'sum':
        return R(0), [(R(1), t)]
    if op == 'i2r':
        if a[0].op == 'sum':
            return R(0), [(R(1), a[0])]
        return None
    if op in ('add', 'sub'):
        x, y = linear_sums(a[0]), linear_sums(a[1])
        if x is None or y is None:
            return None
        if op == 'sub':
            return sub(x[0], y[0]), x[1] + [(neg(c), s) for c, s in y[1]]
        return add(x[0], y[0]), x[1] + y[1]
    if op == 'neg':
        x = linear_sums(a[0])
        return None if x is None else (neg(x[0]), [(neg(c), s) for c, s in x[1]])
    if op == 'mul':
        x, y = linear_sums(a[0]), linear_sums(a[1])
        if x is None or y is None:
            return None
        if x[1] and y[1]:
            return None
        if y[1]:
            x, y = y, x
        return mul(x[0], y[0]), [(mul(c, y[0]), s) for c, s in x[1]]
    if op == 'div':
        x = linear_sums(a[0])
        if x is None or linear_sums(a[1]) is None or linear_sums(a[1])[1]:
            return None
        return rdiv(x[0], a[1]), [(rdiv(c, a[1]), s) for c, s in x[1]]
    return None


def cvc5_prove(pc, goal, timeout=4000):
    """second opinion through SMT-LIB"""
    try:
        import cvc5
        tr = Tr('full')
        s = z3.Solver()
        for f in list(pc) + [not_(goal)]:
            s.add(tr(f))
        for x in tr.axioms():
            s.add(x)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        t0 = time.time()
        slv = cvc5.Solver()
        slv.setOption('tlimit-per', str(timeout))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        res = None
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            o = cmd.invoke(slv, sm)
            if o.strip() in ('sat', 'unsat', 'unknown'):
                res = o.strip()
        STATS['cvc5_queries'] += 1
        STATS['cvc5_time'] += time.time() - t0
        if res == 'unsat':
            return Res('proved', 'cvc5')
    except Exception as e:
        return Res('unknown', 'cvc5', None, str(e)[:200])
    return Res('unknown', 'cvc5')
