"""Symbolic executor over the LLVM IR of the real sources.

Produces, for a function under a precondition, the exit state(s) as terms over
the entry state, together with the proof obligations met on the way (memory
safety, callee preconditions, loop-invariant preservation, unreachability of
error exits).  Loops whose trip count is symbolic are handled by inductive
summaries (loops.py); calls to functions under contract use the contract.
"""
import struct
from fractions import Fraction
from .terms import *
from . import terms as tm
from . import ir
from .solve import CTX, Prover, Res, relevant, with_axioms, replace, hyps


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


def K(i):
    return sym('$K%d' % i, 'I')


class Obj:
    """a memory object, or a family of disjoint objects indexed by parameters"""

    def __init__(self, name, nparams=0, stride=None, count=None, kind='shape', init=None, fields=None, readonly=False, size=None):
        self.name = name
        self.nparams = nparams
        self.stride = stride          # byte size of one element
        self.count = count            # function(params)->Term number of elements, or None
        self.kind = kind              # shape | local | heap | global
        self.init = init              # function(res, sort, size, kargs)->Term
        self.fields = fields or {}    # residue -> (name, sort, size)
        self.readonly = readonly
        self.types = {}               # residue -> (sort,size) as used

    def ptr(self, *params, off=None):
        return mk('ptr', (self.name,) + tuple(lift(p, 'I') for p in params) + (I(0) if off is None else lift(off, 'I'),), 'P')


class Content:
    __slots__ = ('base', 'over')

    def __init__(self, base, over=None):
        self.base = base
        self.over = over or {}


class State:
    __slots__ = ('pc', 'mem', 'dead', 'ghost')

    def __init__(self):
        self.pc = ()        # tuple of (term, is_branch)
        self.mem = {}
        self.dead = frozenset()
        self.ghost = {}

    def copy(self):
        s = State()
        s.pc = self.pc
        s.mem = dict(self.mem)
        s.dead = self.dead
        s.ghost = dict(self.ghost)
        return s

    def facts(self):
        return [t for t, _ in self.pc]

    def assume(self, t, branch=False):
        if t is TRUE:
            return
        if t.op == 'and':
            for x in t.args:
                self.assume(x, branch)
            return
        for x, _ in self.pc:
            if x is t:
                return
        self.pc = self.pc + ((t, branch),)


class Oblig:
    def __init__(self, kind, pc, goal, where, group=''):
        self.kind = kind
        self.pc = pc
        self.goal = goal
        self.where = where
        self.group = group
        self.res = None

    def __repr__(self):
        return '[%s] %s: %s' % (self.kind, self.where, show(self.goal, 5)[:200])


SORTOF = {'double': 'R', 'float': 'R', 'ptr': 'P', 'i1': 'I', 'i8': 'I', 'i16': 'I', 'i32': 'I', 'i64': 'I', 'i128': 'I'}


class Frame:
    def __init__(self, f, uid, stack, loopctx):
        self.f = f
        self.uid = uid
        self.stack = stack
        self.active = set()
        self.loopctx = loopctx
        self.locals = []
        self.names = {}     # alloca register -> object names
        self.vlas = []


class Program:
    def __init__(self, mods):
        self.mods = mods
        self.defs = {}
        for m in mods.values():
            for n, f in m.funcs.items():
                if not f.internal:
                    self.defs.setdefault(n, f)
        self.di = {}
        self.internal = {}
        for m in mods.values():
            for n, f in m.funcs.items():
                if f.internal:
                    self.internal.setdefault(n, f)

    def lookup(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None:
            return f
        return self.defs.get(name)

    def func(self, name):
        f = self.defs.get(name) or self.internal.get(name)
        if f is None:
            raise Unsupported('function %s not found in the sources' % name)
        return f

    def debug(self, mod):
        d = self.di.get(mod.name)
        if d is None:
            d = self.di[mod.name] = ir.DI(mod)
        return d

    def struct(self, name):
        """(DI, key) for a source-level struct name, any module"""
        for m in self.mods.values():
            d = self.debug(m)
            try:
                k = d.find_struct(name)
                if k is not None and 'elements:' in d.m[k]:
                    return d, k
            except KeyError:
                continue
        raise Unsupported('struct %s not found' % name)

    def enum(self, name):
        for m in self.mods.values():
            d = self.debug(m)
            e = getattr(d, '_enums', None)
            if e is None:
                e = d._enums = d.enums()
            if name in e:
                return e[name]
        raise Unsupported('enumerator %s not found' % name)


class Exec:
    MAXUNROLL = 300

    def __init__(self, prog, models=None, contracts=None, check_bounds=True):
        self.prog = prog
        self.objs = {}
        self.models = models or {}
        self.contracts = contracts or {}
        self.obligs = []
        self.errors = []        # error exits: (pc, where)
        self.mute = 0
        self.nframes = 0
        self.check_bounds = check_bounds
        self.bound_cache = set()
        self.used = {}          # functions executed
        self.used_models = {}
        self.used_contracts = {}
        self.loops_summarised = 0
        self.loops_unrolled = 0
        self.summarised = set()    # (function, nesting depth) of loops to summarise even if they could be unrolled
        self.steps = 0
        self.max_steps = 3000000
        self.loop_hints = []
        self.merge_rets = True
        self.havocs = []
        self.depth = 0
        self.trace = False
        self.exploring = 0
        self.inverse = []           # by depth of nesting: the iteration of a loop that writes a location
        self.candidates = []        # invariants stated by the specification: (text, fn(ex, state) -> formula)
        self.prefix = None
        self.sitenames = {}

    # ------------------------------------------------------------ objects
    def new_obj(self, name, **kw):
        o = Obj(name, **kw)
        self.objs[name] = o
        return o

    def plane(self, st, o, res, sort, size):
        key = (o.name, res)
        c = st.mem.get(key)
        if c is None:
            t = o.types.get(res)
            if t is None:
                o.types[res] = (sort, size)
            kargs = [K(i) for i in range(o.nparams + 1)]
            base = None
            if o.init is not None:
                base = o.init(res, sort, size, kargs)
            if base is None:
                fld = o.fields.get(res)
                nm = '%s.%s' % (o.name, fld[0] if fld else res)
                if o.nparams == 0 and self.single(o):
                    base = sym(nm, sort)
                else:
                    base = app(nm, kargs, sort)
            c = Content(base)
            st.mem[key] = c
        if c.base.sort != sort:
            raise Unsupported('access of sort %s to %s holding %s' % (sort, key, c.base.sort))
        return c

    def single(self, o):
        if o.count is None or o.nparams:
            return False
        c = o.count()
        return c is not None and c.op == 'num' and c.args[0] == 1

    def sel(self, o, c, params, idx):
        if c.over:
            if idx.op == 'num':
                v = c.over.get(idx.args[0])
                if v is not None:
                    return v
                return self.sel0(o, c.base, params, idx)
            r = self.sel0(o, c.base, params, idx)
            for k, v in c.over.items():
                r = ite(ieq(idx, I(k)), v, r)
            return r
        return self.sel0(o, c.base, params, idx)

    def sel0(self, o, base, params, idx):
        m = {K(i): p for i, p in enumerate(params)}
        m[K(len(params))] = idx
        return subst(base, m)

    def flush(self, c):
        if not c.over:
            return c.base
        b = c.base
        k0 = K(0)
        for k, v in c.over.items():
            b = ite(ieq(k0, I(k)), v, b)
        return b

    def locate(self, o, off, size):
        """[(guard, residue, index)]"""
        s = o.stride
        c0, items = isplit(off)
        if o.kind == 'heap' and not o.types and s > 8 and any(k % s for m, k in items) and hasattr(o, 'nbytes'):
            from .petsc import restride
            restride(self, State(), o, size)
            s = o.stride
        bad = [(m, k) for m, k in items if k % s]
        if not bad:
            res = c0 % s
            idx = fdiv_i(sub(off, I(res)), I(s))
            return [(None, res, idx)]
        return None

    def _ptr_parts(self, p):
        name = p.args[0]
        o = self.objs.get(name)
        if o is None:
            raise Unsupported('unknown object ' + name)
        return o, p.args[1:-1], p.args[-1]

    def bounds(self, st, o, params, idx, res, size, where, write):
        if o.name in st.dead:
            self.oblige('use-after-scope', st, FALSE, where)
        if o.readonly and write:
            self.oblige('frame', st, FALSE, '%s writes %s' % (where, o.name))
        if self.mute or not self.check_bounds:
            return
        if o.count is None:
            return
        n = o.count(*params)
        if n is None:
            return
        g = and_(ile(I(0), idx), ilt(idx, n))
        if g is TRUE:
            return
        key = (g, st.pc)
        if key in self.bound_cache:
            return
        self.bound_cache.add(key)
        self.oblige('bounds', st, g, '%s %s %s' % (where, 'write' if write else 'read', o.name))

    def oblige(self, kind, st, goal, where):
        if self.mute or goal is TRUE:
            return
        self.obligs.append(Oblig(kind, st.facts(), goal, where))

    def load(self, st, p, sort, size, where=''):
        if p.op == 'ite':
            c = p.args[0]
            d = CTX.decide(hyps(st.facts(), c), c)
            if d is TRUE:
                return self.load(st, p.args[1], sort, size, where)
            if d is FALSE:
                return self.load(st, p.args[2], sort, size, where)
            out = []
            for q, f in ((p.args[1], c), (p.args[2], not_(c))):
                s2 = st.copy()
                s2.assume(f, True)
                out.append(self.load(s2, q, sort, size, where))
                for k, v in s2.mem.items():
                    st.mem.setdefault(k, v)
            return ite(c, out[0], out[1])
        if p.op != 'ptr':
            if p.op == 'null':
                self.oblige('null-dereference', st, FALSE, where)
                return fresh('nulld', sort)
            raise Unsupported('load through unspecified pointer %s at %s' % (show(p, 4), where))
        o, params, off = self._ptr_parts(p)
        loc = self.locate(o, off, size)
        if loc is None:
            return self.load_split(st, o, params, off, sort, size, where)
        (_, res, idx), = loc
        self.bounds(st, o, params, idx, res, size, where, False)
        c = self.plane(st, o, res, sort, size)
        return self.sel(o, c, params, idx)

    def split_offsets(self, st, o, off, where):
        """a symbolic index inside a struct: enumerate its few values"""
        s = o.stride
        c0, items = isplit(off)
        bad = [(m, k) for m, k in items if k % s]
        if len(bad) == 1 and len(bad[0][0]) == 1 and bad[0][0][0][1] == 1:
            t = bad[0][0][0][0]
            vals = []
            facts = hyps(st.facts(), t)
            rest = None
            lo, hi = None, None
            for v in range(-1, 33):
                if CTX.sat(facts, (ieq(t, I(v)),)):
                    vals.append(v)
            out = FALSE
            if not CTX.sat(facts, (or_(ilt(t, I(-1)), ilt(I(32), t)),)) and vals and len(vals) <= 16:
                return t, vals
        raise Unsupported('symbolic offset %s in %s at %s' % (show(off, 4), o.name, where))

    def load_split(self, st, o, params, off, sort, size, where):
        t, vals = self.split_offsets(st, o, off, where)
        r = None
        for v in vals:
            p = mk('ptr', (o.name,) + tuple(params) + (subst1(off, t, I(v)),), 'P')
            x = self.load(st, p, sort, size, where)
            r = x if r is None else ite(ieq(t, I(v)), x, r)
        return r

    def store(self, st, p, v, size, where='', guard=None):
        if p.op == 'ite':
            c = p.args[0]
            g = guard
            self.store(st, p.args[1], v, size, where, c if g is None else and_(g, c))
            self.store(st, p.args[2], v, size, where, not_(c) if g is None else and_(g, not_(c)))
            return
        if p.op != 'ptr':
            if p.op == 'null':
                self.oblige('null-dereference', st, FALSE if guard is None else not_(guard), where)
                return
            raise Unsupported('store through unspecified pointer %s at %s' % (show(p, 4), where))
        o, params, off = self._ptr_parts(p)
        loc = self.locate(o, off, size)
        if loc is None:
            t, vals = self.split_offsets(st, o, off, where)
            for x in vals:
                q = mk('ptr', (o.name,) + tuple(params) + (subst1(off, t, I(x)),), 'P')
                g = ieq(t, I(x))
                self.store(st, q, v, size, where, g if guard is None else and_(guard, g))
            return
        (_, res, idx), = loc
        if guard is None:
            self.bounds(st, o, params, idx, res, size, where, True)
        else:
            s2 = st.copy()
            s2.assume(guard, True)
            self.bounds(s2, o, params, idx, res, size, where, True)
        c = self.plane(st, o, res, v.sort, size)
        if guard is not None:
            v = ite(guard, v, self.sel(o, c, params, idx))
        if o.nparams == 0 and idx.op == 'num':
            ov = dict(c.over)
            ov[idx.args[0]] = v
            st.mem[(o.name, res)] = Content(c.base, ov)
            return
        base = self.flush(c) if o.nparams == 0 else c.base
        g = ieq(K(o.nparams), idx)
        for i, pr in enumerate(params):
            g = and_(g, ieq(K(i), pr))
        st.mem[(o.name, res)] = Content(ite(g, v, base))

    def read(self, st, o, res, sort, *idx):
        """spec-level read without obligations"""
        o = self.objs[o] if isinstance(o, str) else o
        c = self.plane(st, o, res, sort, 8)
        idx = [lift(i, 'I') for i in idx]
        if len(idx) == o.nparams:
            idx.append(I(0))
        return self.sel(o, c, tuple(idx[:-1]), idx[-1])

    # ------------------------------------------------------------ merging
    def merge(self, outs):
        """outs: list of (st, env, ret).  Returns a shorter list."""
        if len(outs) <= 1:
            return outs
        # common prefix of the path conditions
        pcs = [o[0].pc for o in outs]
        n = 0
        m = min(len(p) for p in pcs)
        while n < m and all(p[n] is pcs[0][n] or p[n] == pcs[0][n] for p in pcs[1:]):
            n += 1
        com = pcs[0][:n]
        sels = []
        for p in pcs:
            sels.append(and_(*[t for t, b in p[n:] if b]))
        res = State()
        res.pc = com
        ok = or_(*sels)
        # complementary selectors: drop
        if len(sels) == 2 and not_(sels[0]) is sels[1]:
            ok = TRUE
        elif ok is not TRUE and not CTX.sat(hyps([t for t, _ in com], ok), (not_(ok),)):
            ok = TRUE
        if ok is not TRUE:
            res.assume(ok, True)
        for s, p in zip(sels, pcs):
            for t, b in p[n:]:
                if not b:
                    res.assume(implies(s, t))
        # shorten selectors: strip conjuncts common to all
        use = sels[:-1]

        def comb(vals):
            r = vals[-1]
            for s, v in zip(reversed(use), reversed(vals[:-1])):
                r = ite(s, v, r)
            return r
        # remove parts of the selector shared by every one
        parts = [set(s.args) if s.op == 'and' else {s} for s in sels]
        shared = set.intersection(*parts)
        if shared:
            use = [and_(*[x for x in (s.args if s.op == 'and' else (s,)) if x not in shared]) for s in sels][:-1]
        keys = set()
        for o in outs:
            keys |= set(o[0].mem)
        dead = set()
        for o in outs:
            dead |= o[0].dead
        res.dead = frozenset(dead)
        for k in keys:
            if k[0] in dead:
                continue
            cs = [o[0].mem.get(k) for o in outs]
            ob = self.objs[k[0]]
            present = [c for c in cs if c is not None]
            if any(c is None for c in cs):
                srt = present[0].base.sort
                cs2 = []
                for o, c in zip(outs, cs):
                    if c is None:
                        c = self.plane(State(), ob, k[1], srt, 8)
                    cs2.append(c)
                cs = cs2
            c0 = cs[0]
            if all(c is c0 for c in cs):
                res.mem[k] = c0
                continue
            if len({c.base.sort for c in cs}) != 1:
                return outs
            base = comb([c.base for c in cs]) if any(c.base is not c0.base for c in cs) else c0.base
            over = {}
            ks = set()
            for c in cs:
                ks |= set(c.over)
            for i in ks:
                vals = [c.over[i] if i in c.over else self.sel0(ob, c.base, (), I(i)) for c in cs]
                v0 = vals[0]
                over[i] = v0 if all(v is v0 for v in vals) else comb(vals)
            res.mem[k] = Content(base, over)
        gk = set()
        for o in outs:
            gk |= set(o[0].ghost)
        for g in gk:
            vals = [o[0].ghost.get(g) for o in outs]
            if isinstance(g, tuple) and g[0] == 'occ':
                res.ghost[g] = max(v or 0 for v in vals)
                continue
            if all(v == vals[0] for v in vals):
                res.ghost[g] = vals[0]
            elif any(not isinstance(v, T) for v in vals):
                return outs
            else:
                res.ghost[g] = comb(vals)
        envs = [o[1] for o in outs]
        env = None
        if envs[0] is not None:
            env = {}
            e0 = envs[0]
            for k, v in e0.items():
                vals = [e.get(k) for e in envs]
                if any(x is None for x in vals):
                    continue
                if all(x is v for x in vals):
                    env[k] = v
                elif all(isinstance(x, T) and x.sort == v.sort for x in vals):
                    env[k] = comb(vals)
        rets = [o[2] for o in outs]
        ret = rets[0]
        if any(r is not ret for r in rets):
            if any(r is None for r in rets) or len({r.sort for r in rets}) != 1:
                return outs
            ret = comb(rets)
        return [(res, env, ret)]

    # ------------------------------------------------------------ values
    def const_global(self, st, mod, name):
        g = mod.globals.get(name)
        f = self.prog.lookup(mod, name)
        if g is None and (f is not None or name in mod.decls):
            if f is not None and f.internal:
                return mk('fptr', (name, mod.name), 'P')
            return mk('fptr', (name, ''), 'P')
        if g is None:
            raise Unsupported('global ' + name)
        gm = mod
        if g['ext']:
            # defined elsewhere?
            for m in self.prog.mods.values():
                g2 = m.globals.get(name)
                if g2 is not None and not g2['ext'] and not g2['internal']:
                    g, gm = g2, m
                    break
        on = '@%s:%s' % (gm.name, name) if g['internal'] else '@' + name
        if on not in self.objs:
            p = ir.P(g['text'])
            t = p.type()
            init = None
            if not g['ext']:
                try:
                    init = p.value(t)
                except Exception:
                    init = None
            try:
                size = gm.size(t)
            except Exception:
                size = 8
            hom = self.homog(gm, t) if t.k != 'opaque' else None
            o = Obj(on, 0, stride=(hom[1] if hom else size), kind='global')
            cnt = size // o.stride if o.stride else 1
            o.count = lambda *a, c=cnt: I(c)
            if g['const']:
                o.readonly = True
            if init is not None and (g['const'] or True):
                vals = {}
                self.flat_init(gm, t, init, 0, vals)
                o.gvals = vals
                if not g['const']:
                    o.gvals = None   # mutable globals: unconstrained at entry
            else:
                o.gvals = None
            if o.gvals is not None:
                def mkinit(o):
                    def f(res, sort, size, kargs):
                        base = R(0) if sort == 'R' else I(0) if sort == 'I' else NULL
                        for off, v in o.gvals.items():
                            if off % o.stride == res and isinstance(v, T) and v.sort == sort:
                                base = ite(ieq(kargs[0], I(off // o.stride)), v, base)
                        return base
                    return f
                o.init = mkinit(o)
            self.objs[on] = o
        return self.objs[on].ptr()

    def flat_init(self, mod, t, v, off, out):
        t = mod.resolve(t)
        if v[0] == 'zero' or v[0] == 'undef':
            if mod.size(t) <= 8192:
                for o, s in mod.scalars(t, off):
                    if s.k in SORTOF:
                        out[o] = {'R': R(0), 'I': I(0), 'P': NULL}[SORTOF[s.k]]
            return
        if v[0] == 'str':
            t8 = v[1][2:-1] if v[1].startswith('c"') else v[1]
            i = k = 0
            while i < len(t8):
                if t8[i] == '\\':
                    if t8[i + 1] == '\\':
                        c, i = 92, i + 2
                    else:
                        c, i = int(t8[i + 1:i + 3], 16), i + 3
                else:
                    c, i = ord(t8[i]), i + 1
                out[off + k] = I(c)
                k += 1
            return
        if v[0] == 'agg':
            if t.k == 'arr':
                s = mod.size(t.a[1])
                for i, (et, ev) in enumerate(v[1]):
                    self.flat_init(mod, et, ev, off + i * s, out)
            else:
                offs, _ = mod.layout(t)
                for o, (et, ev) in zip(offs, v[1]):
                    self.flat_init(mod, et, ev, off + o, out)
            return
        out[off] = self.const(None, mod, t, v)

    def homog(self, mod, t):
        """(sort, size) when the type is a homogeneous aggregate of one scalar kind"""
        t = mod.resolve(t)
        n = 0
        while t.k == 'arr':
            t = mod.resolve(t.a[1])
        if t.k == 'struct':
            sc = mod.scalars(t)
            kinds = {s.k for _, s in sc}
            if len(kinds) == 1 and sc[0][1].k in SORTOF and len(sc) > 1:
                z = mod.size(sc[0][1])
                if z * len(sc) == mod.size(t):
                    return SORTOF[sc[0][1].k], z
            return None
        if t.k in SORTOF:
            return SORTOF[t.k], mod.size(t)
        return None

    def const(self, st, mod, t, v):
        k = v[0]
        if k == 'int':
            if t is not None and t.k == 'i1':
                return B(v[1] != 0)
            return I(v[1])
        if k == 'float':
            f = v[1]
            if f != f or f in (float('inf'), float('-inf')):
                return sym('const_%r' % f, 'R')
            return R(f)
        if k == 'null':
            return NULL
        if k == 'bool':
            return B(v[1])
        if k == 'zero':
            return {'R': R(0), 'I': I(0), 'P': NULL}[SORTOF[t.k]]
        if k == 'undef':
            s = 'B' if t is not None and t.k == 'i1' else SORTOF[t.k] if t is not None and t.k in SORTOF else 'I'
            return fresh('undef', s)
        if k == 'glob':
            return self.const_global(st, mod, v[1])
        if k == 'gep':
            b = self.const(st, mod, None, v[2])
            return self.gep(mod, v[1], b, [self.const(st, mod, t2, x) for t2, x in v[3]])
        if k == 'cast':
            x = self.const(st, mod, v[2], v[3])
            if v[1] == 'inttoptr' and x.op == 'num':
                return NULL if x.args[0] == 0 else mk('fptr', ('int%d' % x.args[0], ''), 'P')
            return x
        raise Unsupported('constant %r' % (v,))

    def val(self, st, env, mod, t, v):
        if v[0] == 'reg':
            return env[v[1]]
        return self.const(st, mod, t, v)

    def gep(self, mod, bt, base, idx):
        off = mul(idx[0], I(mod.size(bt))) if not (idx[0].op == 'num' and idx[0].args[0] == 0) else I(0)
        t = bt
        for x in idx[1:]:
            t = mod.resolve(t)
            if t.k == 'struct':
                offs, _ = mod.layout(t)
                i = x.args[0]
                off = add(off, I(offs[i]))
                t = t.a[i]
            elif t.k == 'arr':
                off = add(off, mul(x, I(mod.size(t.a[1]))))
                t = t.a[1]
            else:
                raise Unsupported('gep into %r' % t)
        self.layout_hint(base, mod.size(bt))
        return self.padd(base, off)

    def layout_hint(self, p, s):
        """pointer arithmetic in steps of s: the element size of a block not looked at yet"""
        if p.op == 'ptr' and s >= 4:
            o = self.objs.get(p.args[0])
            if o is not None and o.kind == 'heap' and not o.types and o.stride is not None and o.stride > s and o.stride % s == 0 and hasattr(o, 'nbytes') \
                    and isplit(o.nbytes)[1]:
                from .petsc import restride
                restride(self, State(), o, s)

    def padd(self, p, off):
        if off.op == 'num' and off.args[0] == 0:
            return p
        if p.op == 'ite':
            return ite(p.args[0], self.padd(p.args[1], off), self.padd(p.args[2], off))
        if p.op == 'ptr':
            return mk('ptr', p.args[:-1] + (add(p.args[-1], off),), 'P')
        if p.op == 'null':
            return mk('ptr', ('<null>', off), 'P')
        raise Unsupported('pointer arithmetic on unspecified pointer %s' % show(p, 4))

    def site(self, st, fr, tag, where):
        """deterministic name of a program point occurrence"""
        k = ('occ', tag, fr.stack, where)
        c = st.ghost.get(k, 0)
        st.ghost[k] = c + 1
        nm = '%s@%s|%s' % (tag, '/'.join(fr.stack[-3:]) , where)
        # the short name must identify the full call stack
        full = (fr.stack, tag, where)
        reg = self.sitenames.setdefault(nm, [])
        if full not in reg:
            reg.append(full)
        if reg.index(full):
            nm += '~%d' % reg.index(full)
        return nm if c == 0 else '%s#%d' % (nm, c)

    def fresh(self, st, fr, tag, where, sort):
        """an unknown value: a function of the enclosing loop counters"""
        nm = self.site(st, fr, tag, where)
        if fr.loopctx:
            return app(nm, fr.loopctx, sort)
        return sym(nm, sort)

    # ------------------------------------------------------------ running
    def call(self, name, args, st=None):
        f = self.prog.func(name)
        return self.exec_func(f, args, st or State(), ())

    def exec_func(self, f, args, st, stack, loopctx=()):
        ir.finalize(f)
        if self.depth > 60:
            raise Unsupported('recursion in ' + f.name)
        if not self.mute:
            self.used[f.name] = self.used.get(f.name, 0) + 1
        self.nframes += 1
        fr = Frame(f, self.nframes, stack + (f.name,), loopctx)
        env = {}
        for (t, n), a in zip(f.params, args):
            env[n] = a
        if len(args) < len(f.params):
            raise Unsupported('argument count for ' + f.name)
        self.depth += 1
        try:
            outs = self.run(fr, f.entry, st, env, frozenset())
        finally:
            self.depth -= 1
        rets = []
        for kind, blk, s, e, r in outs:
            assert kind == 'ret', (kind, blk, f.name)
            for n in fr.locals:
                for k in [k for k in s.mem if k[0] == n]:
                    del s.mem[k]
            s.dead = s.dead | frozenset(fr.locals)
            rets.append((s, None, r))
        if len(rets) > 1 and self.merge_rets:
            rets = self.merge(rets)
        # forget the locals altogether (frame names are unique)
        for s, _, _ in rets:
            s.dead = s.dead - frozenset(fr.locals)
        for n in fr.locals:
            self.objs.pop(n, None)
        return [(s, r) for s, _, r in rets]

    def edge(self, fr, frm, to, st, env):
        """phi nodes on the edge"""
        new = {}
        for ins in fr.f.blocks[to]:
            if ins.op != 'phi':
                break
            for v, b in ins.a[1]:
                if b == frm:
                    new[ins.dst] = self.val(st, env, fr.f.mod, ins.a[0], v)
                    break
            else:
                raise Unsupported('phi')
        if new:
            env = dict(env)
            env.update(new)
        return env

    def run(self, fr, blk, st, env, stops, start=False):
        """outcomes: (kind, block, state, env, ret); kind 'stop' or 'ret'"""
        outs = []
        while True:
            if blk in stops and not start:
                outs.append(('stop', blk, st, env, None))
                return outs
            if blk in fr.f.loops and blk not in fr.active:
                from .loops import exec_loop
                lo = exec_loop(self, fr, blk, st, env)
                nxt = []
                for o in lo:
                    if o[0] == 'ret':
                        outs.append(o)
                    else:
                        nxt.append(o)
                # group by exit block
                groups = {}
                for o in nxt:
                    groups.setdefault(o[1], []).append((o[2], o[3], None))
                work = []
                for b, l in groups.items():
                    for s, e, _ in self.merge(l):
                        work.append((b, s, e))
                if not work:
                    return outs
                if len(work) > 1:
                    # several exit blocks: run each up to their common post-dominator
                    J = self.common_pdom(fr.f, [w[0] for w in work], fr.f.loops[blk])
                    st2 = stops | ({J} if J else set())
                    joined = []
                    for b, s, e in work:
                        for o in self.run(fr, b, s, e, st2):
                            if o[0] == 'stop' and o[1] == J and J not in stops:
                                joined.append((o[2], o[3], None))
                            else:
                                outs.append(o)
                    if not joined:
                        return outs
                    ms = self.merge(joined)
                    for s, e, _ in ms[1:]:
                        outs += self.run(fr, J, s, e, stops, True)
                    blk, st, env = J, ms[0][0], ms[0][1]
                    start = True
                    continue
                blk, st, env = work[0]
                start = False
                continue
            start = False
            r = self.block(fr, blk, 0, st, env)
            # r: list of (st, env, terminator)
            if not r:
                return outs
            for s2, e2, _ in r[1:]:
                outs += self.term(fr, blk, s2, e2, stops)
            st, env, _ = r[0]
            # terminator of the first
            nx = self.term(fr, blk, st, env, stops, True)
            if isinstance(nx, list):
                return outs + nx
            more, blk, st, env, start = nx
            outs += more

    def common_pdom(self, f, blocks, body):
        def chain(b):
            c = [b]
            while f.ipdom.get(c[-1]):
                c.append(f.ipdom[c[-1]])
            return c
        c0 = chain(blocks[0])
        for x in c0:
            if all(x in chain(b) for b in blocks[1:]):
                return x
        return None

    def term(self, fr, blk, st, env, stops, tail=False):
        f = fr.f
        t = f.blocks[blk][-1]
        if t.op == 'ret':
            rv = None if t.a[1] is None else self.val(st, env, f.mod, t.a[0], t.a[1])
            if rv is not None and rv.sort == 'B':
                rv = ite(rv, I(1), I(0))
            return [('ret', None, st, env, rv)]
        if t.op == 'unreachable':
            return []
        if t.op == 'br' and t.a[0] is None:
            env = self.edge(fr, blk, t.a[1], st, env)
            if tail:
                return [], t.a[1], st, env, False
            return self.run(fr, t.a[1], st, env, stops)
        if t.op == 'br':
            c = tobool(self.val(st, env, f.mod, None, t.a[0]))
            alts = [(c, t.a[1]), (not_(c), t.a[2])]
        else:
            v = self.val(st, env, f.mod, t.a[0], t.a[1])
            byb = {}
            neg = TRUE
            for k, b in t.a[3]:
                g = ieq(v, I(k))
                byb[b] = or_(byb.get(b, FALSE), g)
                neg = and_(neg, not_(g))
            byb[t.a[2]] = or_(byb.get(t.a[2], FALSE), neg)
            alts = [(g, b) for b, g in byb.items()]
        feas = []
        for g, b in alts:
            if g is FALSE:
                continue
            if g is not TRUE and not CTX.sat(self.rel(st, g), (g,)):
                continue
            feas.append((g, b))
            if g is TRUE:
                break
        if not feas:
            return []
        if len(feas) == 1:
            g, b = feas[0]
            env = self.edge(fr, blk, b, st, env)
            if tail:
                return [], b, st, env, False
            return self.run(fr, b, st, env, stops)
        J = f.ipdom[blk]
        s2 = stops | ({J} if J is not None else set())
        joined, outs = [], []
        for g, b in feas:
            s = st.copy()
            s.assume(g, True)
            e = self.edge(fr, blk, b, s, env)
            for o in self.run(fr, b, s, e, s2):
                if o[0] == 'stop' and o[1] == J:
                    joined.append((o[2], o[3], None))
                else:
                    outs.append(o)
        if not joined:
            return outs
        ms = self.merge(joined)
        if J in stops:
            return outs + [('stop', J, s, e, None) for s, e, _ in ms]
        for s, e, _ in ms[1:]:
            outs += self.run(fr, J, s, e, stops, False)
        if tail:
            return outs, J, ms[0][0], ms[0][1], False
        return outs + self.run(fr, J, ms[0][0], ms[0][1], stops)

    def rel(self, st, g):
        return hyps(st.facts(), g)

    def block(self, fr, blk, i, st, env):
        ins = fr.f.blocks[blk]
        n = len(ins) - 1
        env = dict(env)
        while i < n:
            x = ins[i]
            i += 1
            if x.op == 'phi':
                continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget('step budget')
            if x.op == 'call':
                outs = self.do_call(fr, x, st, env)
                if not outs:
                    return []
                if len(outs) > 1:
                    res = []
                    for s, r in outs:
                        e = env if x.dst is None else dict(env, **{x.dst: r})
                        res += self.block(fr, blk, i, s, e)
                    return res
                st, r = outs[0]
                if x.dst is not None:
                    if r is None:
                        raise Unsupported('void result used: %r' % x)
                    env[x.dst] = r
                continue
            self.instr(fr, x, st, env)
        return [(st, env, None)]

    def where(self, fr, x):
        loc = ''
        if x is not None and x.dbg is not None:
            m = fr.f.mod.meta.get(x.dbg, '')
            k = m.find('line: ')
            if k >= 0:
                loc = m[k + 6:].split(',')[0].split(')')[0]
        return '%s:%s' % (fr.f.name, loc)

    def instr(self, fr, x, st, env):
        op, a = x.op, x.a
        mod = fr.f.mod
        V = lambda t, v: env[v[1]] if v[0] == 'reg' else self.const(st, mod, t, v)
        if op == 'load':
            p = V(None, a[1])
            k = a[0].k
            if k not in SORTOF:
                raise Unsupported('load of %r' % a[0])
            r = self.load(st, p, SORTOF[k], mod.size(a[0]), self.where(fr, x))
            if k == 'i1':
                r = not_(ieq0(r))
            env[x.dst] = r
        elif op == 'store':
            v = V(a[0], a[1])
            if v.sort == 'B':
                v = ite(v, I(1), I(0))
            if a[0].k not in SORTOF:
                raise Unsupported('store of %r' % a[0])
            self.store(st, V(None, a[2]), v, mod.size(a[0]), self.where(fr, x))
        elif op == 'getelementptr':
            env[x.dst] = self.gep(mod, a[0], V(None, a[1]), [toint(V(t, v)) for t, v in a[2]])
        elif op == 'alloca':
            t, n = a
            cnt = I(1) if n is None else toint(V(n[0], n[1]))
            name = '%s.%s/%d' % (fr.f.name, x.dst, fr.uid)
            k = 0
            while name in self.objs and name not in fr.locals:
                k += 1
                name = '%s.%s/%d.%d' % (fr.f.name, x.dst, fr.uid, k)
            hom = self.homog(mod, t)
            size = mod.size(t)
            o = Obj(name, 0, stride=hom[1] if hom else max(size, 1), kind='local')
            tot = mul(cnt, I(size // o.stride)) if size else I(0)
            o.count = lambda *p, c=tot: c

            def init(res, sort, size, kargs, name=name, one=(tot.op == 'num' and tot.args[0] == 1)):
                if one:
                    return sym('undef:%s@%s' % (name, res), sort)
                return app('undef:%s@%s' % (name, res), kargs, sort)
            o.init = init
            # a new activation of the same alloca (VLA in a loop) starts undefined
            for kk in [kk for kk in st.mem if kk[0] == name]:
                del st.mem[kk]
            self.objs[name] = o
            if name not in fr.locals:
                fr.locals.append(name)
                fr.names.setdefault(x.dst, []).append(name)
            if n is not None and name not in fr.vlas:
                fr.vlas.append(name)
            env[x.dst] = o.ptr()
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            env[x.dst] = self.intop(op, a[0], V(a[0], a[1]), V(a[0], a[2]))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            p, q = V(a[0], a[1]), V(a[0], a[2])
            env[x.dst] = {'fadd': add, 'fsub': sub, 'fmul': mul, 'fdiv': rdiv}[op](p, q)
        elif op == 'fneg':
            env[x.dst] = neg(V(a[0], a[1]))
        elif op == 'icmp':
            env[x.dst] = self.icmp(a[0], a[1], V(a[1], a[2]), V(a[1], a[3]))
        elif op == 'fcmp':
            p, q = V(a[1], a[2]), V(a[1], a[3])
            k = a[0][1:] if a[0] not in ('ord', 'uno', 'true', 'false') else a[0]
            if k == 'ord':
                r = TRUE
            elif k == 'uno':
                r = FALSE
            else:
                r = {'eq': req(p, q), 'ne': not_(req(p, q)), 'lt': rlt(p, q), 'le': rle(p, q), 'gt': rlt(q, p), 'ge': rle(q, p)}[k]
            env[x.dst] = r
        elif op in ('sext', 'zext', 'trunc'):
            v = V(a[0], a[1])
            if v.sort == 'B':
                v = ite(v, I(1), I(0)) if op == 'zext' else ite(v, I(-1), I(0)) if op == 'sext' else v
            elif a[2].k == 'i1':
                v = not_(ieq0(imod(v, I(2)))) if v.op != 'ite' else not_(ieq0(v))
            elif op == 'trunc' and v.op == 'num':
                bits = int(a[2].k[1:])
                u = v.args[0] & ((1 << bits) - 1)
                v = I(u - (1 << bits) if u >> (bits - 1) else u)
            elif op == 'zext' and v.op == 'num' and v.args[0] < 0:
                v = I(v.args[0] & ((1 << int(a[0].k[1:])) - 1))
            env[x.dst] = v
        elif op in ('sitofp', 'uitofp'):
            v = V(a[0], a[1])
            env[x.dst] = i2r(toint(v))
        elif op in ('fptosi', 'fptoui'):
            env[x.dst] = r2i(V(a[0], a[1]))
        elif op in ('fpext', 'fptrunc', 'bitcast'):
            env[x.dst] = V(a[0], a[1])
        elif op == 'select':
            env[x.dst] = ite(tobool(V(None, a[0])), V(a[1], a[2]), V(a[1], a[3]))
        elif op == 'ptrtoint':
            v = V(a[0], a[1])
            env[x.dst] = app('addr', (), 'I') if False else mk('ptrint', (v,), 'I') if v is not NULL else I(0)
        elif op == 'inttoptr':
            v = V(a[0], a[1])
            if v.op == 'num':
                env[x.dst] = NULL if v.args[0] == 0 else mk('fptr', ('int%d' % v.args[0], ''), 'P')
            elif v.op == 'ptrint':
                env[x.dst] = v.args[0]
            else:
                raise Unsupported('inttoptr')
        else:
            raise Unsupported('instruction %s' % op)

    def intop(self, op, t, p, q):
        if p.sort == 'B' or q.sort == 'B':
            if t.k == 'i1':
                p, q = tobool(p), tobool(q)
                if op == 'xor':
                    return not_(p) if q is TRUE else not_(iff(p, q))
                if op == 'and':
                    return and_(p, q)
                if op == 'or':
                    return or_(p, q)
            p, q = toint(p), toint(q)
        if op == 'add':
            return add(p, q)
        if op == 'sub':
            return sub(p, q)
        if op == 'mul':
            return mul(p, q)
        if op in ('sdiv', 'udiv'):
            return dist2(idiv, p, q)
        if op in ('srem', 'urem'):
            return dist2(imod, p, q)
        if op == 'shl' and q.op == 'num':
            return mul(p, I(1 << q.args[0]))
        return bvop(op, p, q)

    def icmp(self, pr, t, p, q):
        if t.k == 'ptr':
            r = peq(p, q)
            if pr == 'eq':
                return r
            if pr == 'ne':
                return not_(r)
            if p.op == q.op == 'ptr' and p.args[:-1] == q.args[:-1]:
                return self.icmp(pr, ir.prim('i64'), p.args[-1], q.args[-1])
            raise Unsupported('pointer comparison')
        if p.sort == 'B' or q.sort == 'B':
            p, q = toint(p), toint(q)
        if pr == 'eq':
            return ieq(p, q)
        if pr == 'ne':
            return not_(ieq(p, q))
        k = pr[1:]
        return {'lt': ilt(p, q), 'le': ile(p, q), 'gt': ilt(q, p), 'ge': ile(q, p)}[k]

    # ------------------------------------------------------------ calls
    def do_call(self, fr, x, st, env):
        rt, callee, args = x.a
        mod = fr.f.mod
        if callee[0] == 'glob':
            name = callee[1]
            av = self.callargs(fr, name, st, env, args)
            return self.invoke(fr, x, mod, name, av, st, args)
        fp = self.val(st, env, mod, None, callee)
        av = self.callargs(fr, None, st, env, args)
        return self.invoke_ptr(fr, x, fp, av, st, args)

    def callargs(self, fr, name, st, env, args):
        out = []
        for t, v in args:
            if v[0] == 'meta' or t is None or t.k == 'metadata':
                out.append(None)
                continue
            a = self.val(st, env, fr.f.mod, t, v)
            out.append(a)
        return out

    def invoke_ptr(self, fr, x, fp, av, st, args):
        if fp.op == 'ite':
            outs = []
            for g, q in ((fp.args[0], fp.args[1]), (not_(fp.args[0]), fp.args[2])):
                if not CTX.sat(self.rel(st, g), (g,)):
                    continue
                s = st.copy()
                s.assume(g, True)
                outs += self.invoke_ptr(fr, x, q, av, s, args)
            if len(outs) > 1:
                return [(s, r) for s, _, r in self.merge([(s, None, r) for s, r in outs])]
            return outs
        if fp.op == 'fptr':
            m = self.prog.mods.get(fp.args[1]) or fr.f.mod
            return self.invoke(fr, x, m, fp.args[0], av, st, args)
        key = fp.args[0] if fp.op in ('sym', 'app') else None
        if key and key not in self.models and key.startswith('@') and key.endswith('.0'):
            key = key[:-2]      # the value of a global function pointer
        if key in self.models:
            self.note_model(key)
            return self.models[key](self, fr, x, st, av, fp)
        if fp.op == 'null':
            self.oblige('null-call', st, FALSE, self.where(fr, x))
            return []
        # indirect call through a global variable such as PetscTrFree
        raise Unsupported('indirect call through %s at %s' % (show(fp, 3), self.where(fr, x)))

    def note_model(self, n):
        if not self.mute:
            self.used_models[n] = self.used_models.get(n, 0) + 1

    def invoke(self, fr, x, mod, name, av, st, args):
        c = self.contracts.get(name)
        if c is not None:
            if not self.mute:
                self.used_contracts[name] = self.used_contracts.get(name, 0) + 1
            return c(self, fr, x, st, av)
        m = self.models.get(name)
        if m is not None:
            self.note_model(name)
            return m(self, fr, x, st, av)
        if self.prefix is not None:
            pm = self.prefix(name)
            if pm is not None:
                self.note_model(pm[0])
                return pm[1](self, fr, x, st, av)
        f = self.prog.lookup(mod, name)
        if f is not None:
            return self.exec_func(f, av, st, fr.stack, fr.loopctx)
        raise Unsupported('external function %s at %s' % (name, self.where(fr, x)))


def subst1(t, a, v):
    """replace atom a in an integer polynomial"""
    return replace(t, {a: v})


def tobool(v):
    if v.sort == 'B':
        return v
    return not_(ieq0(v))


def toint(v):
    if v.sort == 'B':
        return ite(v, I(1), I(0))
    return v


def dist2(f, p, q):
    if p.op == 'ite':
        return ite(p.args[0], dist2(f, p.args[1], q), dist2(f, p.args[2], q))
    return f(p, q)
