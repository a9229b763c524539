"""Contracts: preconditions as memory shapes, postconditions over exit states."""
import time, random, tempfile, shutil, os, sys, traceback
from .terms import *
from . import terms as tm
from . import ir, build, petsc
from .exec import Exec, Program, State, Obj, K, Content, Unsupported, Budget, Oblig
from .solve import CTX, Prover, Res, STATS, relevant, with_axioms, z3_prove, replace, hyps, FUN_AXIOMS
from .normal import evaluate, EvalError

SZ = {'R': 8, 'I': 4, 'P': 8}


def all_hyps(pc):
    """everything on the path, with axioms and instances"""
    return hyps(pc, mk('and', tuple(f for f in pc if f.op != 'forall'), 'B') if pc else TRUE, rounds=8)


class Arr:
    """spec-side handle of an array (or family of arrays)"""

    def __init__(self, v, o, sort):
        self.v, self.o, self.sort = v, o, sort

    @property
    def ptr(self):
        return self.o.ptr() if self.o.nparams == 0 else None

    def p(self, *params, off=None):
        return self.o.ptr(*params, off=off)

    def at(self, *idx):
        """entry value"""
        return self.v.ex.read(self.v.entry, self.o, 0, self.sort, *idx)

    def now(self, st, *idx):
        return self.v.ex.read(st, self.o, 0, self.sort, *idx)

    def freed(self, st):
        """was the block released on the way to st?"""
        return B(any(q.args[0] == self.o.name for (q,) in st.ghost.get('freed', ()) if q.op == 'ptr'))

    def __getitem__(self, idx):
        return self.at(*(idx if isinstance(idx, tuple) else (idx,)))


class Struct:
    def __init__(self, v, o, fields):
        self.v, self.o, self.f = v, o, fields

    @property
    def ptr(self):
        return self.o.ptr()

    def fld(self, name):
        off, kind, tk, n = self.f[name]
        return off, kind

    def get(self, name, st=None, idx=None):
        off, kind = self.fld(name)
        st = st or self.v.entry
        if self.o.nparams == 0 and idx is None:
            return self.v.ex.read(st, self.o, off, kind, I(0))
        return self.v.ex.read(st, self.o, off, kind, *(idx if isinstance(idx, (tuple, list)) else (idx,)))

    def addr(self, name):
        return self.o.ptr(off=I(self.fld(name)[0]))

    def set(self, name, val):
        off, kind = self.fld(name)
        if isinstance(val, Arr):
            val = val.o.ptr()
        elif isinstance(val, Struct):
            val = val.ptr
        elif not isinstance(val, T):
            val = lift(val, kind)
        st = self.v.st
        st.mem[(self.o.name, off)] = Content(val)

    def setf(self, name, fun):
        """plane of an array of structs: fun(K..)->Term"""
        off, kind = self.fld(name)
        self.v.st.mem[(self.o.name, off)] = Content(fun(*[K(i) for i in range(self.o.nparams + 1)]))


class Ghost:
    def __init__(self, v, o, sort):
        self.v, self.o, self.sort = v, o, sort

    def get(self, st):
        return self.v.ex.read(st, self.o, 0, self.sort, I(0))

    def set(self, st, val):
        c = self.v.ex.plane(st, self.o, 0, self.sort, SZ[self.sort])
        st.mem[(self.o.name, 0)] = Content(c.base, {0: lift(val, self.sort) if not isinstance(val, T) else val})


class V:
    """one verification unit: a function of /repo under a contract"""

    def __init__(self, prog, unit, models=None, contracts=None, timeout=6000, max_leaves=2000):
        m = dict(petsc.M)
        if models:
            m.update(models)
        self.prog = prog
        self.unit = unit
        self.ex = Exec(prog, m, contracts or {})
        self.ex.prefix = petsc.by_prefix
        self.st = State()
        self.timeout = timeout
        self.listed = ()
        self.max_leaves = max_leaves
        self.results = []       # (kind, text, Res, pc, goal)
        self.assumed = []
        self.bounded = None     # the bound, for a unit that stands in for a proof
        self.entry = self.st
        self.covers = 0
        self.targets = set()
        self.shape_names = set()

    # ---- precondition
    def requires(self, t, doc=None):
        self.st.assume(t)
        if doc:
            self.assumed.append(doc)

    def real(self, n): return sym(n, 'R')
    def int(self, n): return sym(n, 'I')

    def array(self, name, sort, count, nparams=0, readonly=False, stride=None, init=None):
        def cnt(*p):
            if callable(count):
                return count(*p)
            return count
        if count is not None and not isinstance(count, T) and not callable(count):
            count = I(count)
        o = Obj(name, nparams, stride or SZ[sort], cnt if count is not None else None, 'shape', readonly=readonly)
        o.fields = {0: ('v', sort, SZ[sort])}
        if init is not None:
            o.init = lambda res, s, size, kargs: init(*kargs)
        self.ex.objs[name] = o
        self.shape_names.add(name)
        return Arr(self, o, sort)

    def struct(self, name, cname, vals=None, count=1, nparams=0, readonly=False):
        di, k = self.prog.struct(cname)
        f = di.fields(k)
        size = di.sizeof(k)
        cnt = I(count) if isinstance(count, int) else count
        o = Obj(name, nparams, size, lambda *p: cnt, 'shape', readonly=readonly)
        for path, (off, kind, tk, n) in f.items():
            if kind in 'RIP':
                z = 8 if kind in 'RP' else max(1, di.sizeof(tk)) if tk is not None else 4
                o.fields[off] = (path, kind, z)
        self.ex.objs[name] = o
        self.shape_names.add(name)
        s = Struct(self, o, f)
        for n, v in (vals or {}).items():
            s.set(n, v)
        return s

    def opaque(self, name):
        o = Obj(name, 0, 1, None, 'shape')
        self.ex.objs[name] = o
        self.shape_names.add(name)
        return o.ptr()

    def ptr_table(self, name, count, target):
        """array of pointers: target(index)->pointer term"""
        a = self.array(name, 'P', count, init=lambda k: target(k))
        return a

    def external(self, name, ptr):
        """a pointer variable of a library"""
        o = Obj('@' + name, 0, 8, lambda *p: I(1), 'global')
        o.readonly = True
        o.gvals = None
        o.init = lambda res, sort, size, kargs: ptr
        self.ex.objs[o.name] = o

    def vec(self, name, count, readonly=False):
        """a PETSc vector; the handle (its entries: .data)"""
        a = self.array(name, 'R', count, readonly=readonly)
        p = self.opaque('Vec ' + name)
        self.ex.__dict__.setdefault('vecs', {})['Vec ' + name] = a.o
        a.handle = p
        return a

    def mat(self, name, rows, readonly=False):
        """a PETSc matrix in local numbering; entries .at(row, col)"""
        a = self.array(name, 'R', None, nparams=1, readonly=readonly)
        a.o.rows = rows
        p = self.opaque('Mat ' + name)
        self.ex.__dict__.setdefault('mats', {})['Mat ' + name] = a.o
        a.handle = p
        return a

    def ghost(self, name, sort='I', init=None):
        """a specification variable"""
        o = Obj('ghost ' + name, 0, SZ[sort], lambda *p: I(1), 'shape')
        o.fields = {0: ('v', sort, SZ[sort])}
        self.ex.objs[o.name] = o
        g = Ghost(self, o, sort)
        if init is not None:
            g.set(self.st, init)
        return g

    # ---- execution
    def call(self, fname, *args, expect=1, errors_ok=False, allow_none=False):
        self.entry = self.st
        st = self.st.copy()
        # keep the lazily created entry planes consistent
        f = self.prog.func(fname)
        if len(f.params) != len(args):
            raise Unsupported('%s now takes %d arguments' % (fname, len(f.params)))
        self.fname = fname
        self.targets.add(fname)
        self.argterms = args
        if not CTX.sat(st.facts()):
            raise Unsupported('vacuous precondition for ' + fname)
        self.covers += 1
        av = []
        for (t, n), a in zip(f.params, args):
            if isinstance(a, Arr):
                a = a.ptr
            elif isinstance(a, Struct):
                a = a.ptr
            elif not isinstance(a, T):
                a = lift(a, {'double': 'R'}.get(t.k, 'I')) if t.k != 'ptr' else a
            av.append(a)
        self.callargs = av
        outs = self.ex.exec_func(f, av, st, ())
        self.outs = outs
        self.errors_ok = errors_ok
        if not errors_ok:
            for pc, where in self.ex.errors:
                self.ex.obligs.append(Oblig('no-error', pc, FALSE, '%s reports no error' % where))
            self.ex.errors = []
        # exits whose path condition (with all instances) is contradictory are not exits
        outs = [o for o in outs if CTX.sat(all_hyps(o[0].facts()))]
        if not outs and not allow_none:
            raise Unsupported('%s never returns normally under its precondition' % fname)
        if expect is not None and len(outs) > expect:
            raise Unsupported('%s: %d exit states' % (fname, len(outs)))
        return outs

    def must_fail(self, fname, *args, text=''):
        """every path reports an error (PetscError) - none returns normally"""
        n0 = len(self.ex.errors)
        outs = self.call(fname, *args, expect=None, errors_ok=True, allow_none=True)
        for st, r in outs:
            self.ex.obligs.append(Oblig('error-reported', st.facts(), FALSE, text))
        if len(self.ex.errors) == n0 and not outs:
            raise Unsupported('no path through ' + fname)
        if not outs:
            self.ex.obligs.append(Oblig('error-reported', [], TRUE, text))
        self.ex.errors = []

    def returns0(self, outs):
        for st, r in outs:
            self.ensure(st, ieq(r, I(0)), 'returns 0')

    def load(self, st, p, sort, idx=0, off=0):
        """spec-level read through a pointer value"""
        self.ex.mute += 1
        try:
            return self.ex.load(st, self.ex.padd(p, add(mul(I(SZ[sort]), lift(idx, 'I')), I(off))), sort, SZ[sort], 'spec')
        finally:
            self.ex.mute -= 1

    def ensure(self, st, goal, *more, kind='post', pc=()):
        if len(more) == 2:
            goal, text = eq(goal, more[0]), more[1]
        else:
            text, = more
        if not isinstance(goal, T):
            goal = B(goal)
        self.ex.obligs.append(Oblig(kind, st.facts() + list(pc), goal, text))

    # ---- discharge
    def discharge(self):
        out = []
        seen = {}
        failed, t0 = 0, time.time()
        for o in self.ex.obligs:
            if o.res is None:
                key = (frozenset(o.pc), o.goal)
                if key in seen:
                    o.res = seen[key]
                else:
                    # once many have failed, less is tried for the rest
                    timeout = self.timeout if failed < 12 else 500
                    pr = Prover(self.max_leaves, timeout)
                    pr.brief = failed >= 12
                    if failed >= 60 or failed >= 4 and time.time() - t0 > 60:
                        o.res = Res('unknown', '', None, 'not attempted: many others of this unit failed')
                    elif o.goal is FALSE:
                        fs = all_hyps(o.pc)
                        o.res = Res('proved', 'z3') if not CTX.sat(fs) else z3_prove(fs, FALSE, timeout)
                    else:
                        o.res = pr.prove(o.pc, o.goal)
                    seen[key] = o.res
                    failed += not o.res and '[%s] %s' % (o.kind, o.where) not in self.listed
            out.append(o)
        return out


# ------------------------------------------------------------ refutation
class Sampler:
    """random assignments for the free symbols and functions of a formula"""

    def __init__(self, rng, ints=(0, 6), reals=None, fixed=None):
        self.rng = rng
        self.env = {}
        self.tab = {}
        self.ints = ints
        self.fixed = fixed or {}
        self.ptrs = {}
        self.scale = rng.choice([1.0, 1.0, 1.0, 10.0])
        self.wide = rng.random() < 0.35

    def val(self, sort):
        r = self.rng
        if sort == 'I':
            return r.randint(*self.ints)
        if sort == 'B':
            return r.random() < .5
        if sort == 'P':
            self.ptrs[len(self.ptrs)] = 1
            return ('sp', len(self.ptrs))
        if self.wide and r.random() < 0.6:
            return float('%.4g' % (r.choice([1, 1, 1, -1]) * 10 ** r.uniform(-4, 9)))
        k = r.random()
        if k < 0.6:
            return round(r.uniform(0.05, 1.5) * self.scale, 4)
        if k < 0.9:
            return round(r.uniform(-2, 2) * self.scale, 4)
        return float(r.choice([0, 1, -1, 2, 0.5]))

    def __call__(self, name, args, sort):
        k = (name, args)
        v = self.tab.get(k)
        if v is None:
            v = self.fixed.get(k)
            if v is None:
                v = self.val(sort)
            self.tab[k] = v
        return v


def expand(t, N, side, memo):
    """quantifiers and sums over ranges of at most N values, written out"""
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ('forall', 'sum'):
        b, lo, hi, body = t.args
        lo, hi = expand(lo, N, side, memo), expand(hi, N, side, memo)
        r = TRUE if t.op == 'forall' else I(0) if t.sort == 'I' else R(0)
        for j in range(N):
            k = add(lo, I(j))
            x = expand(subst(body, {b: k}), N, side, memo)
            g = ilt(k, hi)
            if t.op == 'forall':
                r = and_(r, implies(g, x))
            else:
                r = add(r, ite(g, x, I(0) if t.sort == 'I' else R(0)))
        if not any(x.args[0].startswith('%') for x in list(free_symbols(lo)) + list(free_symbols(hi))):
            side.append(ile(hi, add(lo, I(N))))
    elif any(isinstance(x, T) for x in t.args) and has_binder(t):
        r = rebuild(t, lambda x: expand(x, N, side, memo) if isinstance(x, T) else x)
    else:
        r = t
    memo[t] = r
    return r


def free_symbols(t):
    return [x for x in free_syms(t) if isinstance(x, T) and x.op == 'sym']


def has_binder(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = t.op in ('forall', 'sum') or any(has_binder(x, memo) for x in subterms(t))
        memo[t] = r
    return r


def subterms(t):
    if t.op == 'ipoly':
        return [at for m, c in t.args for at, e in m]
    return [x for x in t.args if isinstance(x, T)]


def z3_seed(facts, leafgoal, want, timeout=4000, N=None, seed=0):
    """a z3 model of the path condition, used as a starting point"""
    import z3
    from .solve import Tr
    tr = Tr('lin')
    s = z3.Solver()
    s.set('timeout', timeout)
    s.set('random_seed', seed)
    if N is not None:
        side, memo = [], {}
        facts = [expand(f, N, side, memo) for f in facts]
        want = None if want is None else expand(want, N, side, memo)
        facts += side
    for f in facts:
        if not has_binder(f):
            s.add(tr(f))
    if want is not None and not has_binder(want):
        s.add(tr(want))
    s.add(*tr.defs)
    if s.check() == z3.sat:
        return tr, s.model()
    return None


def refute(o, rng, tries=300, want=None):
    """search a numeric assignment that satisfies the path condition and
    falsifies the goal; returns a description or None"""
    import z3
    leaf = getattr(o.res, 'leaf', None)
    pc, goal = o.pc, o.goal
    cands = [(pc, goal)]
    if leaf is not None:
        lpc, a, b = leaf
        cands.insert(0, (lpc, eq(a, b) if a.sort != 'B' else (a if b is TRUE else iff(a, b))))
    best = None
    t0 = time.time()
    for lpc, g in cands:
        rel = relevant(list(lpc), g, rounds=6)
        rel += [x for x in hyps(lpc, g) if x not in rel]
        need = [f for f in rel]
        neg = not_(g)
        seeds = []
        quantified = any(has_binder(f) for f in need + [g])
        for N in ((2, 3) if quantified else ()):
            for k in range(3):
                try:
                    zs = z3_seed(need, g, neg if g is not FALSE and k < 2 else None, N=N, seed=k)
                except Exception:
                    zs = None
                if zs is not None:
                    seeds.append(zs)
        if not seeds:
            zs = z3_seed(need, g, neg if g is not FALSE else None)
            if zs is None:
                zs = z3_seed(need, g, None)
            if zs is not None:
                seeds.append(zs)
        t0 = time.time()
        for t in range(tries):
            if time.time() - t0 > 20:
                break
            sm = Sampler(rng)
            if seeds and t % 4 != 3:
                tr, md = seeds[t % len(seeds)]
                sm.model = md
                sm = ModelSampler(rng, tr, md, 0.0 if t < len(seeds) else 0.15 if t % 2 else 0.5, list(need) + [g], keep=quantified and t % 5 > 0)
            try:
                ok = True
                for f in need:
                    if not evaluate(f, sm.env, sm, 20000):
                        ok = False
                        break
                if not ok:
                    continue
                if g is FALSE:
                    return describe(sm, g, o)
                if evaluate(g, sm.env, sm, 200000) is False and robust_false(g, sm):
                    return describe(sm, g, o)
            except (EvalError, OverflowError, ZeroDivisionError, TypeError, KeyError):
                continue
    return None


def robust_false(g, sm):
    if g.op == 'req':
        x = evaluate(g.args[0], sm.env, sm)
        y = evaluate(g.args[1], sm.env, sm)
        if isinstance(x, complex) or isinstance(y, complex):
            return False
        return abs(x - y) > 1e-6 * max(abs(x), abs(y), 1e-12)
    if g.op in ('rlt', 'rle'):
        x = evaluate(g.args[0], sm.env, sm)
        y = evaluate(g.args[1], sm.env, sm)
        return x - y > 1e-9 * max(abs(x), abs(y)) if g.op == 'rle' else x - y >= 0
    return True


class ModelSampler(Sampler):
    def __init__(self, rng, tr, md, noise, fs, keep=False):
        super().__init__(rng)
        self.keep = keep        # integers and truth values are those of the model
        self.tr, self.md, self.noise = tr, md, noise

    def __call__(self, name, args, sort):
        k = (name, args)
        v = self.tab.get(k)
        if v is not None:
            return v
        v = None
        if (self.keep and sort != 'R') or self.rng.random() >= self.noise:
            try:
                import z3
                if not args:
                    c = z3.Const(name, {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[sort])
                    x = self.md.eval(c, model_completion=False)
                else:
                    fd = None
                    for (n, ss, s), f in self.tr.funs.items():
                        if n == name and len(ss) == len(args):
                            fd = f
                    if fd is None:
                        raise KeyError
                    if self.md[fd] is None:
                        raise KeyError
                    x = self.md.eval(fd(*[z3.IntVal(a) for a in args]), model_completion=False)
                if z3.is_int_value(x):
                    v = x.as_long()
                elif z3.is_rational_value(x):
                    v = float(x.as_fraction())
                elif z3.is_true(x) or z3.is_false(x):
                    v = z3.is_true(x)
            except Exception:
                v = None
        if v is None:
            v = self.val(sort)
        if sort == 'R':
            v = float(v)
        self.tab[k] = v
        return v


def describe(sm, g, o):
    d = {'symbols': {}, 'functions': {}}
    for (n, a), v in sm.tab.items():
        if a:
            d['functions']['%s(%s)' % (n, ','.join(map(str, a)))] = v if not isinstance(v, tuple) else str(v)
        else:
            d['symbols'][n] = v if not isinstance(v, tuple) else str(v)
    if g.op in ('req', 'rlt', 'rle'):
        try:
            d['lhs'] = evaluate(g.args[0], sm.env, sm)
            d['rhs'] = evaluate(g.args[1], sm.env, sm)
        except Exception:
            pass
    d['tab'] = sm.tab
    return d
