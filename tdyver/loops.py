"""Inductive summaries of loops.

A loop whose controlling condition folds to a constant is executed iteration by
iteration.  Any other loop is replaced by an inductive invariant: for every
modified cell and array plane a closed form in the iteration counter n is
guessed from one symbolic iteration (induction variable, running sum, value of
the last iteration, last conditional assignment, element-wise map, scatter
accumulation, prefix sum).  The guess is then *checked*: the body is executed
from fractions import Fraction
from the generalised state and the prover must show that it leads to the same
closed form at n+1 (initiation holds by construction, the closed form at n=0
being the entry value).  What cannot be shown is forgotten (havoc) - sound, and
the obligations that depend on it then fail to be discharged.
"""
from math import gcd
from .terms import *
from . import terms as tm
from .solve import CTX, Prover, relevant, with_axioms, replace, hyps, FUN_AXIOMS, counting, nth, z3_prove
from .exec import *
from .exec import Content, State, K

LOOPMAX = 220


def exec_loop(ex, fr, h, st, env):
    """outcomes ('stop', exit block, st, env, None) / ('ret', ...)"""
    f = fr.f
    body = f.loops[h]
    exits = set()
    for b in body:
        for s in f.succ[b]:
            if s not in body:
                exits.add(s)
    stops = frozenset(exits | {h})
    outs = []
    fr.active.add(h)
    try:
        cur = [(st, env)]
        it = 0
        while cur:
            nxt = []
            for s, e in cur:
                if (f.name, len(fr.active)) in ex.summarised or not header_folds(ex, fr, h, s, e, body):
                    o = summarise(ex, fr, h, s, e, stops, body)
                    outs += o
                    continue
                for o in ex.run(fr, h, s.copy(), e, stops, True):
                    if o[0] == 'stop' and o[1] == h:
                        nxt.append((o[2], o[3], None))
                    else:
                        outs.append(o)
            cur = [(s, e) for s, e, _ in ex.merge(nxt)]
            it += 1
            if it > LOOPMAX:
                raise Unsupported('loop in %s does not terminate within %d iterations' % (f.name, LOOPMAX))
        if it > 1 and not ex.mute:
            ex.loops_unrolled += 1
        return outs
    finally:
        fr.active.discard(h)


def header_folds(ex, fr, h, st, env, body):
    """does one pass through the header decide the loop by constants?"""
    f = fr.f
    t = f.blocks[h][-1]
    if t.op != 'br' or t.a[0] is None:
        return probe(ex, fr, h, st, env, body)
    ex.mute += 1
    try:
        s = st.copy()
        r = ex.block(fr, h, 0, s, env)
        if len(r) != 1:
            return False
        c = tobool(ex.val(r[0][0], r[0][1], f.mod, None, t.a[0]))
        direct = (t.a[1] not in body) or (t.a[2] not in body)
        if c in (TRUE, FALSE):
            if direct:
                return True
            return probe(ex, fr, h, st, env, body) if not direct else True
        if direct:
            # infeasible first iteration is also fine
            cont = c if t.a[1] in body else not_(c)
            return not CTX.sat(ex.rel(st, cont), (cont,))
        return probe(ex, fr, h, st, env, body)
    finally:
        ex.mute -= 1


def probe(ex, fr, h, st, env, body):
    """one iteration yields only back edges or only exits"""
    f = fr.f
    exits = set(s for b in body for s in f.succ[b] if s not in body)
    ex.mute += 1
    nerr = len(ex.errors)
    try:
        outs = ex.run(fr, h, st.copy(), env, frozenset(exits | {h}), True)
    finally:
        ex.mute -= 1
        del ex.errors[nerr:]
    back = sum(1 for o in outs if o[0] == 'stop' and o[1] == h)
    return back == 0 or back == len(outs)


# ---------------------------------------------------------------------------
def extract_delta(a, v):
    """a == v + delta with delta free of v; None if not of that shape"""
    if a is v:
        return I(0) if v.sort == 'I' else R(0)
    if v.sort == 'I':
        if a.op == 'ite':
            x, y = extract_delta(a.args[1], v), extract_delta(a.args[2], v)
            if x is None or y is None or dep(a.args[0], v):
                return None
            return ite(a.args[0], x, y)
        d = sub(a, v)
        if not dep(d, v):
            return d
        # v + ite(c, ..)
        return None
    op, g = a.op, a.args
    if op == 'add':
        for p, q in ((g[0], g[1]), (g[1], g[0])):
            if not dep(q, v):
                x = extract_delta(p, v)
                if x is not None:
                    return add(x, q)
        return None
    if op == 'sub' and not dep(g[1], v):
        x = extract_delta(g[0], v)
        return None if x is None else sub(x, g[1])
    if op == 'ite' and not dep(g[0], v):
        x, y = extract_delta(g[1], v), extract_delta(g[2], v)
        return None if x is None or y is None else ite(g[0], x, y)
    return None


def less(a, x):
    """a == x + less(a, x), by structure; None if not of that shape"""
    if a is x:
        return R(0)
    g = a.args
    if a.op == 'add':
        for p, q in ((g[0], g[1]), (g[1], g[0])):
            d = less(p, x)
            if d is not None:
                return add(d, q)
    elif a.op == 'sub':
        d = less(g[0], x)
        return None if d is None else sub(d, g[1])
    elif a.op == 'ite':
        p = less(g[1], x)
        q = None if p is None else less(g[2], x)
        return None if q is None else ite(g[0], p, q)
    return None


def accumulated(a, cur, nxt, n):
    """what one more iteration adds, as executed and as the closed form A0 + sum has it"""
    if cur.sort != 'R' or cur.op != 'add' or nxt.op != 'add' or cur.args[0] is not nxt.args[0]:
        return None
    x, y = cur.args[1], nxt.args[1]
    if x.op != 'sum' or y.op != 'sum' or x.args[2] is not n or x.args[3] is not y.args[3] or x.args[0] is not y.args[0] or x.args[1] is not y.args[1]:
        return None
    if sub(y.args[2], n) is not I(1) or x.args[1] is not I(0):
        return None
    d = less(a, cur)
    return None if d is None else (d, subst(x.args[3], {x.args[0]: n}))


def dep(t, v):
    if v.op == 'sym':
        return v in free_syms(t)
    if v.op == 'app':
        if v.args[0] not in free_syms(t):
            return False
        return bool(atoms_where(t, lambda x: x is v, into_binders=True))
    return bool(atoms_where(t, lambda x: x is v, into_binders=True))


def cases_of(t, leaf, guard=TRUE):
    """[(guard, value)] of the ite tree, leaving out the unchanged leaf"""
    if t is leaf:
        return []
    if t.op == 'ite':
        c = t.args[0]
        return cases_of(t.args[1], leaf, and_(guard, c)) + cases_of(t.args[2], leaf, and_(guard, not_(c)))
    if guard is FALSE:
        return []
    return [(guard, t)]


def same_location(t, nm, leaf, ks, eqs):
    """reads of the plane nm at indices equal to the location ks, given polynomials that vanish"""
    if nm not in free_syms(t):
        return t
    if t.op == 'app' and t.args[0] == nm:
        if t is leaf or len(t.args) != len(leaf.args):
            return t
        ok = all(vanishes(sub(k, a), eqs) for k, a in zip(ks, t.args[1:]))
        return leaf if ok else t
    if t.op == 'ite':
        c = t.args[0]
        return ite(c, same_location(t.args[1], nm, leaf, ks, eqs + [x.args[0] for x in conjuncts(c) if x.op == 'ieq0']),
                   same_location(t.args[2], nm, leaf, ks, eqs + [x.args[0] for x in conjuncts(not_(c)) if x.op == 'ieq0']))
    if t.op in ('add', 'sub', 'mul', 'div', 'neg'):
        return rebuild(t, lambda x: same_location(x, nm, leaf, ks, eqs) if isinstance(x, T) else x)
    rw = {y: leaf for y in atoms_where(t, lambda y: y.op == 'app' and y.args[0] == nm) if y is not leaf and len(y.args) == len(leaf.args)
          and all(vanishes(sub(k, a), eqs) for k, a in zip(ks, y.args[1:]))}
    return replace(t, rw) if rw else t


def vanishes(d, eqs):
    """d is a rational combination of polynomials that vanish"""
    def vec(p):
        c, items = isplit(p)
        r = {m: Fraction(k) for m, k in items}
        if c:
            r[()] = Fraction(c)
        return r

    def elim(r, rows):
        for piv, q in rows:
            if piv in r:
                f = r[piv] / q[piv]
                for m, k in q.items():
                    x = r.get(m, 0) - f * k
                    if x:
                        r[m] = x
                    else:
                        r.pop(m, None)
        return r
    t = vec(d)
    if not t:
        return True
    rows = []
    for p in eqs[:24]:
        r = elim(vec(p), rows)
        piv = next((m for m in r if m != ()), None)
        if piv is not None:
            rows.append((piv, r))
    return not elim(t, rows)


def conjuncts(g):
    return list(g.args) if g.op == 'and' else [g]


def solve_for(p, n):
    """p == 0 linear in n: (quotient term, side condition) or None"""
    if n not in free_syms(p):
        return None
    c, items = isplit(p)
    coef = None
    for m, k in items:
        if len(m) == 1 and m[0][0] is n and m[0][1] == 1:
            coef = k
        elif any(n in free_syms(a) for a, e in m):
            return None
    if coef is None:
        return None
    rest = sub(p, mul(I(coef), n))
    # coef*n + rest == 0
    if coef == 1:
        return neg(rest), TRUE
    if coef == -1:
        return rest, TRUE
    if coef > 0:
        num = neg(rest)
        q = fdiv_i(num, I(coef))
    else:
        num = rest
        q = fdiv_i(num, I(-coef))
    return q, ieq(mul(I(abs(coef)), q), num)


class Fail(Exception):
    pass


def summarise(ex, fr, h, st, env, stops, body):
    f = fr.f
    n = fresh('n', 'I')
    where = '%s loop at %s' % (f.name, loop_line(fr, h, body))
    site = ex.site(st, fr, 'loop', h)
    ex.mute += 1
    nerr = len(ex.errors)
    try:
        S = Summary(ex, fr, h, st, env, stops, n, where, body)
        S.site = site
        S.discover()
        S.drop_unread()
        S.classify()
        good = False
        S.annotate()
        for attempt in range(10 + len(S.kept)):
            r = S.check()
            if r:
                good = True
                break
        if not good:
            raise Unsupported('no inductive summary for ' + where)
    finally:
        ex.mute -= 1
        del ex.errors[nerr:]
    if not ex.mute:
        ex.loops_summarised += 1
        for kind, cell, res in S.proved + S.kept_proved:
            o = Oblig('invariant', [], TRUE, '%s: %s %s preserved' % (where, kind, cell))
            o.res = res
            ex.obligs.append(o)
        for x in S.dropped:
            ex.havocs.append('%s: %s' % (where, x))
    # final run, from the generalised state, recording obligations
    g = S.state()
    outs = []
    n0 = len(ex.obligs)
    old = fr.loopctx
    fr.loopctx = old + (n,)
    try:
        for o in ex.run(fr, h, g, env, stops, True):
            if o[0] == 'stop' and o[1] == h:
                continue
            outs.append(o)
    finally:
        fr.loopctx = old
    return [close_exit(ex, o, S) for o in outs]


def loop_line(fr, h, body):
    ls = []
    for b in body:
        for x in fr.f.blocks[b]:
            if x.dbg is not None:
                m = fr.f.mod.meta.get(x.dbg, '')
                k = m.find('line: ')
                if k >= 0:
                    try:
                        ls.append(int(m[k + 6:].split(',')[0].split(')')[0]))
                    except ValueError:
                        pass
    ls = [l for l in ls if l]
    return str(min(ls)) if ls else h


def close_exit(ex, o, S):
    """determine n at the exit when the path condition fixes it"""
    kind, blk, st, env, ret = o
    n = S.n
    facts = st.facts()
    cands = []
    for c in S.cont_conj:
        # c: ile0(p) with p linear in n, coefficient +1
        if c.op == 'ile0':
            s = solve_for(c.args[0], n)
            if s is not None and s[1] is TRUE:
                cands.append(add(s[0], I(1)))     # n <= s  fails first at s+1
        elif c.op == 'not' and c.args[0].op == 'ieq0':
            s = solve_for(c.args[0].args[0], n)
            if s is not None and s[1] is TRUE:
                cands.append(s[0])
    cands.append(I(0))
    for U in cands:
        if n in free_syms(U):
            continue
        for V in (U, ite(ile(I(0), U), U, I(0))):
            g = ieq(n, V)
            fs = hyps(facts, g)
            if not CTX.sat(fs, (not_(g),)):
                m = {n: V}
                s2 = state_subst(st, m)
                e2 = {k: (subst(v, m) if v is not None else None) for k, v in env.items()} if env is not None else None
                r2 = subst(ret, m) if ret is not None else None
                # tidy the path condition: the counter facts are now about V
                return (kind, blk, s2, e2, r2)
    v = app('cnt ' + S.site, S.outer, 'I') if S.outer else sym('cnt ' + S.site, 'I')
    m = {n: v}
    return (kind, blk, state_subst(st, m), {k: (subst(v2, m) if v2 is not None else None) for k, v2 in env.items()} if env is not None else None,
            subst(ret, m) if ret is not None else None)


def state_subst(st, m):
    keys = set(m)
    s = State()
    s.dead = st.dead
    s.ghost = {k: subst(v, m) if isinstance(v, T) else v for k, v in st.ghost.items()}
    pc = []
    for t, b in st.pc:
        t2 = subst(t, m) if keys & free_syms(t) else t
        if t2 is not TRUE:
            pc.append((t2, b))
    s.pc = tuple(pc)
    for k, c in st.mem.items():
        base = subst(c.base, m) if keys & free_syms(c.base) else c.base
        if c.over and any(keys & free_syms(v) for v in c.over.values()):
            s.mem[k] = Content(base, {i: subst(v, m) for i, v in c.over.items()})
        elif base is not c.base:
            s.mem[k] = Content(base, c.over)
        else:
            s.mem[k] = c
    return s


def constants(t, v):
    """a number, or v, in every case"""
    if t.op == 'ite':
        return constants(t.args[1], v) and constants(t.args[2], v)
    return t is v or t.op == 'num'


def stated(facts, g):
    h = hyps(facts, g)
    r = z3_prove(h, g, 1500, 'lin')
    if r or not r.detail and r.model is None:
        return r
    return z3_prove(h, g, 1500) if products(g) else r


def products(t, seen=None):
    seen = set() if seen is None else seen
    if id(t) in seen:
        return False
    seen.add(id(t))
    if t.op == 'mul' and t.sort == 'R' and sum(a.op != 'num' for a in t.args) > 1:
        return True
    return any(isinstance(a, T) and products(a, seen) for a in t.args)


class Summary:
    def __init__(self, ex, fr, h, st, env, stops, n, where, body):
        self.ex, self.fr, self.h, self.st, self.env, self.stops, self.n = ex, fr, h, st, env, stops, n
        self.where = where
        self.outer = tuple(fr.loopctx)
        # locals overwritten before they are read, in the loop and after it
        self.deadl = {n for d in fr.f.dead_at[h] for n in fr.names.get(d, ())}
        self.st = self.bury(st)
        # arrays of the function that only the loop uses
        self.inner = {n for d, bs in fr.f.used_in.items() if bs <= set(body) for n in fr.names.get(d, ())}
        self.dead = set()
        self.cells = {}      # (key, idx) -> entry value
        self.planes = {}     # key -> entry Content
        self.gh = {}
        self.ptr_any = set()
        self.pstep = {}      # pointer cell -> step: the offset is entry offset + step*k
        self.proved = []
        self.dropped = set()
        self.bad = set()
        self.contf = None
        self.cont_conj = []

    def annotate(self):
        """the invariants stated by the specification which hold when the loop is entered"""
        self.kept, self.kept_proved = [], []
        if self.back is None or not self.ex.candidates or self.ex.exploring:
            return
        ex = self.ex
        cands = list(ex.candidates)
        for key, i in self.cells:
            o = ex.objs[key[0]]
            if o.kind == 'local' and self.cells[(key, i)].sort == 'I' and constants(ex.sel(o, self.back.mem[key], (), I(i)), self.hv[(key, i)]):
                # what a flag of the function stands for
                flag = lambda ex, st, o=o, key=key, i=i: ieq(ex.sel(o, st.mem[key], (), I(i)), I(0))
                nm = o.name.split('/')[0]
                for text, fn in ex.candidates:
                    cands.append(('%s unless %s' % (text, nm), lambda ex, st, fn=fn, flag=flag: implies(flag(ex, st), fn(ex, st))))
                    cands.append(('%s if %s' % (text, nm), lambda ex, st, fn=fn, flag=flag: or_(flag(ex, st), fn(ex, st))))
        for text, fn in cands:
            g = fn(self.ex, self.st)
            if g is TRUE or stated(self.st.facts(), g):
                self.kept.append((text, fn))
            elif self.ex.trace:
                print('LOOP', self.where, 'invariant does not hold on entry:', text)

    def bury(self, st):
        ks = [k for k in st.mem if k[0] in self.deadl]
        if ks:
            st = st.copy()
            for k in ks:
                del st.mem[k]
        return st

    # -- the generic pre-state of an iteration
    def havoc_state(self):
        s = self.st.copy()
        self.hv = {}
        self.hp = {}
        for (key, idx), v0 in self.cells.items():
            if v0.sort == 'P' and (key, idx) not in self.ptr_any and v0.op == 'ptr':
                o = fresh('hvo', 'I')
                s_ = self.pstep.get((key, idx))
                if s_ is None:
                    s_ = self.pstep[(key, idx)] = self.ex.objs[v0.args[0]].stride or 1
                v = mk('ptr', v0.args[:-1] + (add(v0.args[-1], mul(I(s_), o)),), 'P')
                self.hv[(key, idx)] = o
            else:
                v = fresh('hv', v0.sort)
                self.hv[(key, idx)] = v
            c = s.mem[key]
            ov = dict(c.over)
            ov[idx] = v
            s.mem[key] = Content(c.base, ov)
        for key, c0 in self.planes.items():
            o = self.ex.objs[key[0]]
            nm = fresh('hvp', 'I').args[0]
            self.hp[key] = nm
            s.mem[key] = Content(app(nm, [K(i) for i in range(o.nparams + 1)], c0.base.sort))
        return s

    def run_once(self, s):
        ex = self.ex
        old = self.fr.loopctx
        self.fr.loopctx = old + (self.n,)
        try:
            outs = ex.run(self.fr, self.h, s, self.env, self.stops, True)
        finally:
            self.fr.loopctx = old
        back = [(self.bury(o[2]), o[3], None) for o in outs if o[0] == 'stop' and o[1] == self.h]
        if not back:
            return None
        m = ex.merge(back)
        if len(m) != 1:
            raise Unsupported('paths through the body do not merge: ' + self.where)
        return m[0][0]

    def discover(self):
        ex = self.ex
        for rnd in range(14):
            s = self.havoc_state()
            pre = {k: c for k, c in s.mem.items()}
            ex.exploring += 1
            try:
                b = self.run_once(s.copy())
            finally:
                ex.exploring -= 1
            if b is None:
                self.back = None
                return
            new = False
            for key, c in b.mem.items():
                if key[0] not in ex.objs:
                    continue
                p = pre.get(key)
                o = ex.objs[key[0]]
                if p is None:
                    # first touched inside the loop
                    p = ex.plane(self.st, o, key[1], c.base.sort, 8)
                    if key[0] in [] :
                        pass
                if c is p:
                    continue
                if key in self.planes:
                    continue
                if c.base is not p.base:
                    self.promote(key)
                    new = True
                    continue
                for i in set(c.over) | set(p.over):
                    a = c.over[i] if i in c.over else ex.sel0(o, c.base, (), I(i))
                    q = p.over[i] if i in p.over else ex.sel0(o, p.base, (), I(i))
                    if a is q:
                        continue
                    if (key, i) not in self.cells:
                        c0 = self.st.mem.get(key)
                        if c0 is None:
                            c0 = ex.plane(self.st, o, key[1], c.base.sort, 8)
                        self.cells[(key, i)] = ex.sel(o, c0, (), I(i))
                        new = True
                    elif a.sort == 'P' and (key, i) not in self.ptr_any:
                        v0 = self.cells[(key, i)]
                        if v0.op == 'ptr' and not (a.op == 'ptr' and a.args[:-1] == v0.args[:-1]):
                            self.ptr_any.add((key, i))
                            new = True
                        elif v0.op == 'ptr':
                            s_ = self.pstep.get((key, i), 1)
                            c_, it_ = isplit(sub(a.args[-1], v0.args[-1]))
                            g = s_
                            for k_ in [c_] + [k for _, k in it_]:
                                g = gcd(g, abs(k_))
                            if g != s_:
                                self.pstep[(key, i)] = g
                                new = True
            for g, v in b.ghost.items():
                pass
            if not new:
                self.back = b
                return
        raise Unsupported('modified set does not stabilise: ' + self.where)

    def promote(self, key):
        ex = self.ex
        o = ex.objs[key[0]]
        c0 = self.st.mem.get(key)
        if c0 is None:
            raise Unsupported('plane')
        self.planes[key] = Content(ex.flush(c0) if o.nparams == 0 else c0.base)
        for k in [k for k in self.cells if k[0] == key]:
            del self.cells[k]

    def drop_unread(self):
        """arrays that only the loop uses, and whose contents no iteration takes over from the one before"""
        b = self.back
        if b is None or not self.inner:
            return
        ex = self.ex
        syms = {}       # array -> symbols of its contents at the start of the iteration
        for (key, i), x in self.hv.items():
            if key[0] in self.inner:
                syms.setdefault(key[0], set()).add(x)
        for key, nm in self.hp.items():
            if key[0] in self.inner:
                syms.setdefault(key[0], set()).add(nm)
        if not syms:
            return
        reads = {}
        for key, c in b.mem.items():
            if key[0] in ex.objs:
                r = reads.setdefault(key[0], set())
                r |= free_syms(c.base)
                for v in c.over.values():
                    r |= free_syms(v)
        cond = set()
        for t, _ in b.pc:
            cond |= free_syms(t)
        for v in b.ghost.values():
            if isinstance(v, T):
                cond |= free_syms(v)
        dead = {o for o, s in syms.items() if not s & cond}
        while True:
            live = set().union(*[r for o, r in reads.items() if o not in dead])
            d2 = {o for o in dead if not syms[o] & live}
            if d2 == dead:
                break
            dead = d2
        self.dead = dead
        self.bad |= {c for c in self.cells if c[0][0] in dead} | {k for k in self.planes if k[0] in dead}

    # -- closed forms
    def classify(self):
        self.closed = {}      # cell -> term in n
        self.closedp = {}     # key -> term in n and K
        self.aux_facts = []
        self.inv = {}         # key -> the iteration named by the specification
        self.mapq = {}        # key -> the iteration that writes a location, for element-wise maps
        if self.back is None:
            return
        ex, n, b = self.ex, self.n, self.back
        unres = set(self.cells)
        unresp = set(self.planes)
        sub_ = {}     # hv symbol -> term
        fsub = {}     # hp function name -> python function
        hsyms = {}
        for c in self.cells:
            hsyms[self.hv[c]] = c
        hfun = {nm: k for k, nm in self.hp.items()}

        def after_cell(c):
            key, i = c
            o = ex.objs[key[0]]
            t = ex.sel(o, b.mem[key], (), I(i))
            if c not in self.ptr_any and self.cells[c].op == 'ptr' and self.cells[c].sort == 'P':
                t = fdiv_i(sub(t.args[-1], self.cells[c].args[-1]), I(self.pstep[c]))
            return subst(t, sub_, fsub)

        def after_plane(key):
            o = ex.objs[key[0]]
            c = b.mem[key]
            t = ex.flush(c) if o.nparams == 0 else c.base
            return subst(t, sub_, fsub)

        def pend(t):
            fs = free_syms(t)
            return {x for x in fs if (x in hsyms and hsyms[x] in unres) or (isinstance(x, str) and x in hfun and hfun[x] in unresp)}

        def setc(c, val):
            self.closed[c] = val
            sub_[self.hv[c]] = val
            unres.discard(c)

        def setp(key, val):
            self.closedp[key] = val
            nk = ex.objs[key[0]].nparams + 1
            fsub[self.hp[key]] = (lambda *a, v=val, nk=nk: subst(v, {K(i): a[i] for i in range(nk)}))
            unresp.discard(key)

        if ex.candidates:
            # the specification states the invariants
            self.bad |= set(self.cells) | set(self.planes)
        for c in [c for c in self.cells if c in self.bad]:
            setc(c, self.havoc_cell(c))
        for k in [k for k in self.planes if k in self.bad]:
            setp(k, self.havoc_plane(k))
        progress = True
        rounds = 0
        while (unres or unresp) and rounds < 40:
            rounds += 1
            progress = False
            for c in sorted(unres, key=str):
                if c in self.bad:
                    continue
                v = self.hv[c]
                v0 = self.cells[c]
                isoff = v0.sort == 'P' and c not in self.ptr_any and v0.op == 'ptr'
                if isoff:
                    v0 = I(0)
                a = after_cell(c)
                p = pend(a)
                if p - {v}:
                    continue
                r = self.closed_scalar(a, v, v0, n, v in p, c)
                if r is not None:
                    setc(c, r)
                    progress = True
            for key in sorted(unresp, key=str):
                if key in self.bad:
                    continue
                t = after_plane(key)
                nm = self.hp[key]
                p = pend(t)
                if p - {nm}:
                    continue
                r = self.closed_plane(key, t, nm)
                if r is not None:
                    setp(key, r)
                    progress = True
            if not progress and self.mutual(unresp, hfun, setp, after_plane, pend):
                continue
            if not progress:
                # break a cycle: give up on one item that only depends on itself or on others
                c = self.victim(unres, unresp)
                if c is None:
                    break
                kind, x = c
                if kind == 'c':
                    v0 = self.cells[x]
                    isoff = v0.sort == 'P' and x not in self.ptr_any and v0.op == 'ptr'
                    self.bad.add(x)
                    setc(x, self.havoc_cell(x))
                else:
                    self.bad.add(x)
                    setp(x, self.havoc_plane(x))

    def mutual(self, unresp, hfun, setp, after_plane, pend):
        """arrays updated element by element from each other: optimistically, an element still holds its entry value when its iteration comes"""
        ex = self.ex
        todo = [k for k in sorted(unresp, key=str) if k not in self.bad]
        entry = {}
        for k in todo:
            nk = ex.objs[k[0]].nparams + 1
            entry[self.hp[k]] = (lambda *a, v=self.planes[k].base, nk=nk: subst(v, {K(i): a[i] for i in range(nk)}))
        found = {}
        for key in todo:
            nm = self.hp[key]
            t = subst(after_plane(key), {}, {k: f for k, f in entry.items() if k != nm})
            if pend(t) - {nm}:
                continue
            r = self.closed_plane(key, t, nm)
            if r is not None and key in self.mapq:
                found[key] = r
        for key, r in found.items():
            setp(key, r)
        return bool(found)

    def victim(self, unres, unresp):
        if unresp:
            # prefer planes: scalars depending on them then resolve
            bads = [k for k in sorted(unresp, key=str)]
            cs = [c for c in sorted(unres, key=str)]
            # a scalar that depends on itself only
            for c in cs:
                return ('c', c)
            return ('p', bads[0])
        for c in sorted(unres, key=str):
            return ('c', c)
        return None

    def keyname(self, key):
        return '%s.%s' % (key[0], key[1])

    def havoc_cell(self, x):
        """unknown, but the entry value at n=0"""
        n = self.n
        v0 = self.cells[x]
        isoff = v0.sort == 'P' and x not in self.ptr_any and v0.op == 'ptr'
        s = app('lv %s %s %s' % (self.site, self.keyname(x[0]), x[1]), self.outer + (n,), 'I' if isoff else v0.sort)
        if x[0][0] in self.dead or self.ex.candidates:
            return s
        self.dropped.add('value of %s' % (x,))
        return ite(ile(n, I(0)), I(0) if isoff else v0, s)

    def havoc_plane(self, key):
        ex, n = self.ex, self.n
        o = ex.objs[key[0]]
        ks = [K(i) for i in range(o.nparams + 1)]
        A0 = self.planes[key].base
        s = app('lvp %s %s' % (self.site, self.keyname(key)), tuple(ks) + self.outer + (n,), A0.sort)
        if key[0] in self.dead or self.ex.candidates:
            return s
        self.dropped.add('contents of %s' % (key,))
        return ite(ile(n, I(0)), A0, s)

    def closed_scalar(self, a, v, v0, n, selfdep, cell):
        if a is v:
            return v0
        if not selfdep:
            return ite(ile(I(1), n), subst(a, {n: sub(n, I(1))}), v0)
        if v.sort in ('I', 'R'):
            d = extract_delta(a, v)
            if d is not None:
                if n not in free_syms(d):
                    return add(v0, mul(d, n if v.sort == 'I' else i2r(n)))
                m = fresh('m', 'I')
                return add(v0, sum_(m, I(0), n, subst(d, {n: m})))
        # conditional assignment: ite tree with leaves v or independent values
        cs = cases_of(a, v)
        if cs and all(not dep(val, v) and not dep(g, v) for g, val in cs):
            anyc = or_(*[g for g, _ in cs])
            wf = 'w %s %s %s' % (self.site, self.keyname(cell[0]), cell[1])
            w = app(wf, self.outer + (n,), 'I')
            val = cs[-1][1]
            for g, x in reversed(cs[:-1]):
                val = ite(g, x, val)
            # w(n): last iteration before n in which the assignment happened, or -1
            m = fresh('m', 'I')
            FUN_AXIOMS[wf] = make_last_axiom(wf, anyc, n, self.outer)
            # w(n+1) in terms of w(n)
            vw = subst(val, {n: w})
            return ite(ile(w, I(-1)), v0, vw)
        # guarded by own value (e.g. flags): leaves v or constants
        return None

    def closed_plane(self, key, t, nm):
        ex, n = self.ex, self.n
        o = ex.objs[key[0]]
        ks = [K(i) for i in range(o.nparams + 1)]
        leaf = app(nm, ks, t.sort)
        A0 = self.planes[key].base
        cs = cases_of(t, leaf)
        if not cs:
            return A0
        # a read at the location under consideration, seen through the guards
        def here(g):
            return [c.args[0] for c in conjuncts(g) if c.op == 'ieq0' and nm not in free_syms(c)]
        cs = [(and_(*[same_location(c, nm, leaf, ks, here(g)) if nm in free_syms(c) else c for c in conjuncts(g)]), same_location(val, nm, leaf, ks, here(g))) for g, val in cs]

        def reads_other(x):
            return [y for y in atoms_where(x, lambda z: z.op == 'app' and z.args[0] == nm, into_binders=True) if y is not leaf]
        # guards must not look at the plane itself
        if any(nm in free_syms(g) for g, _ in cs):
            return self.self_guard(key, t, nm, leaf, A0, cs)
        sols = []
        for g, val in cs:
            best = None
            for c in conjuncts(g):
                if c.op == 'ieq0':
                    s = solve_for(c.args[0], n)
                    if s is not None and any(k in free_syms(s[0]) for k in ks):
                        best = s
                        break
            sols.append(best)
        # 1. element-wise: each location is written in at most one iteration
        if all(s is not None for s in sols):
            others = [reads_other(val) for _, val in cs]
            if not any(others):
                return self.map_form(cs, sols, leaf, A0, key)
            r = self.prefix_form(key, cs, sols, nm, leaf, A0, ks)
            if r is not None:
                return r
            # optimistic: the other locations still hold their entry values
            o2 = {}
            for ys in others:
                for y in ys:
                    o2[y] = subst(A0, {k: x for k, x in zip(ks, y.args[1:])})
            cs2 = [(g, replace(val, o2)) for g, val in cs]
            return self.map_form(cs2, sols, leaf, A0, key)
        r = self.compact_form(cs, leaf, A0, ks, nm)
        if r is not None:
            return r
        # 2. accumulation
        ds = []
        for g, val in cs:
            d = extract_delta(val, leaf)
            if d is None or nm in free_syms(d):
                ds = None
                break
            ds.append(d)
        if ds is not None and t.sort in ('I', 'R'):
            m = fresh('m', 'I')
            tot = None
            for (g, _), d in zip(cs, ds):
                z = I(0) if t.sort == 'I' else R(0)
                x = ite(g, d, z)
                tot = x if tot is None else add(tot, x)
            return add(A0, sum_(m, I(0), n, subst(tot, {n: m})))
        if ds is None and ex.trace:
            print('NOFORM', key, [([show(c, 5) for c in conjuncts(g)], [show(y, 6) for y in reads_other(v)]) for g, v in cs if extract_delta(v, leaf) is None or nm in free_syms(extract_delta(v, leaf))][:2])
        # 3. rewritten every iteration (guard does not move)
        if all(n not in free_syms(g) for g, _ in cs) and all(nm not in free_syms(v) for _, v in cs):
            r = A0
            for g, val in reversed(cs):
                r = ite(and_(g, ile(I(1), n)), subst(val, {n: sub(n, I(1))}), r)
            return r
        # 4. scattered assignment: the specification names the iteration that writes a location ...
        if ex.inverse and len(self.outer) < len(ex.inverse) and all(nm not in free_syms(v) for _, v in cs):
            q = ex.inverse[len(self.outer)](*ks)
            self.inv[key] = q
            return self.map_form(cs, [(q, TRUE)] * len(cs), leaf, A0, key)
        # ... or last writer, as an uninterpreted function of the location
        if all(nm not in free_syms(v) for _, v in cs):
            anyc = or_(*[g for g, _ in cs])
            wf = 'w %s %s' % (self.site, self.keyname(key))
            w = app(wf, tuple(ks) + self.outer + (n,), 'I')
            FUN_AXIOMS[wf] = make_last_axiom(wf, anyc, n, tuple(ks) + self.outer)
            val = cs[-1][1]
            for g, x in reversed(cs[:-1]):
                val = ite(g, x, val)
            return ite(ile(w, I(-1)), A0, subst(val, {n: w}))
        return None

    def compact_form(self, cs, leaf, A0, ks, nm):
        """entries appended at a counter: A[v0 + number of earlier m with C(m)] = x(n) whenever C(n)"""
        n = self.n
        if len(ks) != 1 or any(nm in free_syms(val) for _, val in cs):
            return None
        k, pos, rest = ks[0], None, []
        for g, val in cs:
            found = None
            for c in conjuncts(g):
                if c.op == 'ieq0' and k in free_syms(c):
                    p = c.args[0]
                    for t in atoms_where(p, lambda x: x.op == 'sum' and x.args[2] is n, into_binders=False):
                        if counting(t):
                            for d in (add(p, t), sub(t, p)):
                                q = sub(k, d) if d is not None else None
                                if q is not None and not ({k, n} & free_syms(q)):
                                    found = (c, t, q)
            if found is None or (pos is not None and (pos[1] is not found[1] or pos[2] is not found[2])):
                return None
            pos = found
            rest.append(and_(*[c for c in conjuncts(g) if c is not found[0]]))
        _, t, v0 = pos
        body, _ = counting(t)
        C = subst(body.args[0] if body.args[1] is I(1) else not_(body.args[0]), {t.args[0]: n})
        if any(k in free_syms(g) for g in rest):
            return None
        anyc = or_(*rest)
        facts = self.st.facts() + [ile(I(0), n)]
        if not CTX.implied(facts, implies(C, anyc)) or not CTX.implied(facts, implies(anyc, C)):
            return None
        j = nth(sub(k, v0), C, n)
        val = cs[-1][1]
        for g, (_, x) in reversed(list(zip(rest[:-1], cs[:-1]))):
            val = ite(g, x, val)
        return ite(and_(ile(v0, k), ilt(k, add(v0, t))), subst(val, {n: j, k: k}), A0)

    def self_guard(self, key, t, nm, leaf, A0, cs):
        """element-wise update whose guard reads the element itself"""
        n = self.n
        sols = []
        for g, val in cs:
            best = None
            for c in conjuncts(g):
                if c.op == 'ieq0' and nm not in free_syms(c):
                    s = solve_for(c.args[0], n)
                    if s is not None:
                        best = s
                        break
            if best is None:
                return None
            sols.append(best)
        return self.map_form(cs, sols, leaf, A0, key)

    def map_form(self, cs, sols, leaf, A0, key):
        n = self.n
        self.mapq[key] = {q for q, side in sols}
        r = A0
        m0 = {leaf: A0}
        for (g, val), (q, side) in reversed(list(zip(cs, sols))):
            gg = and_(side, ile(I(0), q), ilt(q, n), subst(replace(g, m0), {n: q}))
            vv = subst(replace(val, m0), {n: q})
            r = ite(gg, vv, r)
        return r

    def prefix_form(self, key, cs, sols, nm, leaf, A0, ks):
        """A[w(n)] = A[w(n)-1] + delta(n), w(n) = n + c"""
        n = self.n
        if len(cs) != 1 or len(ks) != 1:
            return None
        (g, val), (q, side) = cs[0], sols[0]
        if side is not TRUE:
            return None
        k = ks[0]
        c = sub(k, q)        # w(n) = n + c
        if k in free_syms(c) or n in free_syms(c):
            return None
        if conjuncts(g) != [ieq(k, add(n, c))]:
            return None
        prev = app(nm, [sub(add(n, c), I(1))], val.sort)
        val2 = subst(val, {k: add(n, c)})
        d = extract_delta(val2, prev)
        if d is None or nm in free_syms(d):
            return None
        m = fresh('m', 'I')
        start = sub(c, I(1))
        tot = add(subst(A0, {k: start}), sum_(m, I(0), add(sub(k, c), I(1)), subst(d, {n: m})))
        return ite(and_(ile(c, k), ilt(k, add(n, c))), tot, A0)

    # -- the generalised state at counter value x
    def state(self, x=None, facts=True):
        n = self.n
        x = n if x is None else x
        m = {} if x is n else {n: x}
        s = self.st.copy()
        for (key, idx), v0 in self.cells.items():
            cl = self.closed.get((key, idx))
            if cl is None:
                cl = v0
            elif v0.sort == 'P' and (key, idx) not in self.ptr_any and v0.op == 'ptr':
                cl = mk('ptr', v0.args[:-1] + (add(v0.args[-1], mul(I(self.pstep[(key, idx)]), cl)),), 'P')
            if m:
                cl = subst(cl, m)
            c = s.mem[key]
            ov = dict(c.over)
            ov[idx] = cl
            s.mem[key] = Content(c.base, ov)
        for key, c0 in self.planes.items():
            cl = self.closedp.get(key, c0.base)
            s.mem[key] = Content(subst(cl, m) if m else cl)
        if facts:
            s.assume(ile(I(0), x))
            if self.contf is not None:
                s.assume(implies(ile(I(1), x), subst(self.contf, {n: sub(x, I(1))})))
                mm = fresh('m', 'I')
                res = self.cont_rest
                if res is not TRUE:
                    s.assume(forall(mm, I(0), x, subst(res, {n: mm})))
            for text, fn in self.kept:
                s.assume(fn(self.ex, s))
        return s

    def check(self):
        """one round: execute the body from the generalised state, prove preservation"""
        ex, n = self.ex, self.n
        if self.back is None:
            self.contf = FALSE
            self.cont_rest = TRUE
            self.cont_conj = []
            return True
        # continuation condition
        self.contf = None
        s = self.state()
        n0 = len(s.pc)
        b = self.run_once(s)
        if b is None:
            # the body never reaches the back edge from the generalised state (n>=0)
            self.contf = FALSE
            self.cont_rest = TRUE
            self.cont_conj = []
            return True
        pref = s.pc
        conj = [t for t, br in b.pc[len(pref):] if br]
        # keep only facts that speak about stable things
        self.cont_conj = conj
        self.contf = and_(*conj)
        rest = []
        for c in conj:
            if c.op == 'ile0' and linear_in(c.args[0], n):
                continue
            rest.append(c)
        self.cont_rest = and_(*rest)
        s = self.state()
        before = dict(s.mem)
        for key in self.inv:
            s.mem[key] = Content(app('entry %s %s' % (self.site, self.keyname(key)), [K(i) for i in range(ex.objs[key[0]].nparams + 1)], self.planes[key].base.sort))
        b = self.run_once(s)
        if b is None:
            return True
        nxt = self.state(add(n, I(1)), facts=False)
        proved = []
        facts = [t for t, _ in b.pc]
        pr = Prover(max_leaves=200, z3_timeout=1500)
        simp = {ile(I(0), n): TRUE, ile0(neg(n)): TRUE, not_(ile(I(0), n)): FALSE}
        n1 = add(n, I(1))

        def peel(t):
            rw = {}
            for x in atoms_where(t, lambda y: y.op == 'sum'):
                b_, lo, hi, bd = x.args
                if hi is n1 and lo.op == 'num' and lo.args[0] == 0:
                    rw[x] = add(sum_(b_, lo, n, bd), subst(bd, {b_: n}))
            return replace(t, rw) if rw else t
        again = False
        self.kept_proved = []
        if self.kept:
            g = and_(*[fn(ex, b) for _, fn in self.kept])
            r = z3_prove(facts, g, 3000, 'lin')
            if r:
                self.kept_proved = [('stated invariant', text, r) for text, _ in self.kept]
        for item in list(self.kept) if not self.kept_proved else ():
            g = item[1](ex, b)
            r = Res('proved', 'hypothesis') if g is TRUE or g in facts else stated(facts, g)
            if r:
                self.kept_proved.append(('stated invariant', item[0], r))
            else:
                if ex.trace:
                    print('LOOP', self.where, 'invariant not preserved:', item[0], str(r)[:300])
                self.kept.remove(item)
                again = True
        if again:
            return False
        for c, v0 in list(self.cells.items()):
            key, i = c
            if c in self.bad:
                continue
            o = ex.objs[key[0]]
            a = replace(ex.sel(o, b.mem[key], (), I(i)), simp)
            q = replace(ex.sel(o, nxt.mem[key], (), I(i)), simp)
            d = accumulated(a, replace(ex.sel(o, before[key], (), I(i)), simp), q, n)
            a, q = d or (a, peel(q))
            if a is q:
                proved.append(('cell', c, Res('proved', 'syntactic')))
                continue
            r = pr.prove_eq(facts, a, q)
            if not r:
                if ex.trace:
                    print('LOOP', self.where, 'cell', c, 'not preserved', r, '\n  after', show(a, 6), '\n  next ', show(q, 6))
                self.dropc(c)
                again = True
            else:
                proved.append(('cell', c, r))
        for key in list(self.planes):
            if key in self.bad:
                continue
            o = ex.objs[key[0]]
            ks = [fresh('k', 'I') for _ in range(o.nparams + 1)]
            m = {K(i): k for i, k in enumerate(ks)}
            cb = b.mem[key]
            a = replace(subst(ex.flush(cb) if o.nparams == 0 else cb.base, m), simp)
            q = replace(subst(nxt.mem[key].base, m), simp)
            d = accumulated(a, replace(subst(before[key].base, m), simp), q, n)
            a, q = d or (a, peel(q))
            if a is q:
                proved.append(('plane', key, Res('proved', 'syntactic')))
                continue
            # locations inside the object only
            ff = list(facts)
            if o.count is not None:
                ct = o.count(*ks[:-1])
                if ct is not None:
                    ff += [ile(I(0), ks[-1]), ilt(ks[-1], ct)]
            r = self.prove_inverse(pr, key, ff, a, q, m, ks) if key in self.inv else self.prove_map(pr, key, ff, a, q, m, ks) or pr.prove_eq(ff, a, q)
            if not r:
                if ex.trace:
                    print('LOOP', self.where, 'plane', key, 'not preserved', r, '\n  after', show(a, 7), '\n  next ', show(q, 7))
                self.dropp(key)
                again = True
            else:
                proved.append(('plane', key, r))
        if again:
            # forgetting one item may invalidate others: recompute them all
            self.classify()
            return False
        self.proved = proved
        return True

    def prove_inverse(self, pr, key, facts, a, b, m, ks):
        """the iteration that writes a location is named by the specification: any write by this iteration is to a location
        of this iteration, so others are as before; and those of this iteration hold what the closed form says"""
        n = self.n
        if self.ex.exploring:
            return Res('proved', 'exploring')       # the proof comes with the generalised state
        q = subst(self.inv[key], m)
        leaf = app('entry %s %s' % (self.site, self.keyname(key)), ks, a.sort)
        cs = cases_of(a, leaf)
        for g, _ in cs:
            r = pr.prove(facts + [g], ieq(q, n))
            if not r:
                return r
        if leaf.args[0] in free_syms(replace(a, {leaf: self.planes[key].base})):
            return Res('unknown', 'reads other locations')
        cur = subst(self.closedp[key], m)
        if replace(b, {ile(q, n): ilt(q, n)}) is not replace(cur, {ile(I(0), n): TRUE}):
            return Res('unknown', 'closed form')
        A0 = subst(self.planes[key].base, m)
        a1, b1, f1 = replace(replace(a, {leaf: A0}), {q: n}), replace(b, {q: n}), [replace(f, {q: n}) for f in facts]
        return Res('proved', 'by location') if a1 is b1 else pr.prove_eq(f1, a1, b1)

    def prove_map(self, pr, key, facts, a, b, m, ks):
        """element-wise maps: the location written by iteration n and the others, separately"""
        n = self.n
        qs = self.mapq.get(key)
        if not qs or len(qs) != 1:
            return None
        q = subst(next(iter(qs)), m)
        sol = None
        for k in ks:
            if k in free_syms(q):
                s = solve_for(sub(q, n), k)
                if s is not None and s[1] is TRUE:
                    sol = {k: s[0]}
                    break
        if sol is None:
            return None
        # other locations
        a2 = replace(a, {ieq(q, n): FALSE, not_(ieq(q, n)): TRUE})
        b2 = replace(b, {ile(q, n): ilt(q, n), ieq(q, n): FALSE})
        if a2 is not b2:
            r = pr.prove_eq(facts + [not_(ieq(q, n))], a2, b2)
            if not r:
                return r
        simp = {ile(I(0), n): TRUE}
        a1, b1 = replace(subst(a, sol), simp), replace(subst(b, sol), simp)
        if a1 is b1:
            return Res('proved', 'syntactic')
        return pr.prove_eq([subst(f, sol) for f in facts], a1, b1)

    def dropc(self, c):
        self.bad.add(c)

    def dropp(self, key):
        self.bad.add(key)


def linear_in(p, n):
    c, items = isplit(p)
    for m, k in items:
        if any(n in free_syms(a) for a, e in m):
            if not (len(m) == 1 and m[0][0] is n and m[0][1] == 1):
                return False
            if k < 0:
                return False
    return True


def make_last_axiom(wf, cond, n, ks=()):
    """w(ks..., N): the last m in [0,N) with cond(m, ks), or -1"""
    def ax(args):
        N = args[-1]
        m0 = {k: a for k, a in zip(ks, args[:-1])}
        w = app(wf, args, 'I')
        c = subst(cond, m0) if m0 else cond
        b = fresh('m', 'I')
        # recurrence with N-1 (matches the preservation step)
        prev = app(wf, list(args[:-1]) + [sub(N, I(1))], 'I')
        return and_(ile(I(-1), w), or_(ilt(w, N), ile(w, I(-1))),
                    or_(ile(w, I(-1)), and_(ile(I(0), w), subst(c, {n: w}))),
                    forall(b, add(w, I(1)), N, not_(subst(c, {n: b}))),
                    implies(ile(N, I(0)), ieq(w, I(-1))),
                    implies(and_(ile(I(1), N), subst(c, {n: sub(N, I(1))})), ieq(w, sub(N, I(1)))),
                    implies(and_(ile(I(1), N), not_(subst(c, {n: sub(N, I(1))}))), ieq(w, prev)))
    return ax
