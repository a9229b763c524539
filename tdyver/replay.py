"""Replay of a counterexample on the compiled sources.

The module that defines the function is compiled to a shared library from the
same LLVM IR; the memory described by the precondition is built from the
counterexample, the real function is called, and its results are compared with
what the verifier says they are.  'confirmed' means: the real code produced
exactly the values for which the failed obligation is false."""
import os, re, subprocess, sys, json, tempfile, shutil, ctypes, struct as _st
from .terms import *
from . import build as bld
from .exec import K, Content
from .normal import evaluate, EvalError

CAP = 4096


class Tab:
    def __init__(self, tab):
        self.tab = dict(tab)
        self.unknown = set()

    def __call__(self, name, args, sort):
        k = (name, args)
        if k not in self.tab:
            self.tab[k] = {'R': 0.5, 'I': 0, 'B': False}.get(sort, ('sp', 0))
        return self.tab[k]


def so_for(v, target, tmp):
    mods = [m for m in v.prog.mods]
    outs = []
    for s in mods:
        o = os.path.join(tmp, s.replace('/', '_') + '.ll')
        bld.compile_ir(s, o)
        t = open(o).read()
        t = re.sub(r'^define (internal|hidden) (.*@%s\()' % re.escape(target), r'define \2', t, flags=re.M)
        t = re.sub(r'^declare hidden ', 'declare ', t, flags=re.M)
        open(o, 'w').write(t)
        outs.append(o)
    so = os.path.join(tmp, 'r.so')
    r = subprocess.run(['clang', '-w', '-O0', '-shared', '-fPIC', '-Wl,-z,lazy', '-Wl,--unresolved-symbols=ignore-all', '-o', so] + outs +
                       ['-L' + bld.PETSC + '/lib', '-lm'], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('link: ' + r.stderr[-300:])
    # data symbols of other modules and of PETSc: weak, zero
    ext = set()
    for o in outs:
        ext |= set(re.findall(r'^@([\w.]+) = external ', open(o).read(), flags=re.M))
    if ext:
        c = os.path.join(tmp, 'stubs.c')
        with open(c, 'w') as f:
            for n in sorted(ext):
                if n not in ('stdout', 'stderr', 'stdin'):
                    f.write('__attribute__((weak)) char %s[4096];\n' % n)
        r = subprocess.run(['clang', '-w', '-O0', '-shared', '-fPIC', '-Wl,-z,lazy', '-Wl,--unresolved-symbols=ignore-all', '-o', so] + outs + [c] +
                           ['-L' + bld.PETSC + '/lib', '-lm'], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('link: ' + r.stderr[-300:])
    return so


def entry_content(ex, st, o, res):
    c = st.mem.get((o.name, res))
    if c is not None:
        return c
    if res in o.types:
        return ex.plane(st, o, res, o.types[res][0], o.types[res][1])
    return None


def replay(v, ob, tab):
    if ob.kind not in ('post', 'no-error'):
        return {'status': 'not available', 'why': 'obligation inside the function'}
    allowed = {'PetscError', 'TDyGetTimer'}
    bad = [m for m in v.ex.used_models if not (m in allowed or m.startswith('llvm.') or m in ('pow', 'exp', 'log', 'sqrt', 'fabs', 'floor', 'PetscMemzero', 'PetscMemcpy', 'printf', 'fprintf', 'PetscFPrintf'))]
    if bad or v.ex.used_contracts:
        return {'status': 'not available', 'why': 'the function calls %s' % ', '.join((bad + list(v.ex.used_contracts))[:4])}
    T_ = Tab(tab)
    ev = lambda t: evaluate(t, {}, T_, 500000)
    objs, plan = {}, {'objs': [], 'args': [], 'target': v.fname}
    addr_of = {}

    def instances(o):
        if o.nparams == 0:
            return [()]
        rng = range(0, 8)
        r = [()]
        for _ in range(o.nparams):
            r = [x + (i,) for x in r for i in rng]
        return r[:512]
    shapes = [o for o in v.ex.objs.values() if o.kind == 'shape' and o.name in v.shape_names]
    for o in shapes:
        for ps in instances(o):
            n = 64
            if o.count is not None:
                c = o.count(*[I(p) for p in ps])
                if c is not None:
                    n = int(ev(c))
            n = max(0, min(n, CAP))
            addr_of[(o.name, ps)] = len(plan['objs'])
            plan['objs'].append({'name': o.name, 'size': n * o.stride, 'cells': [], 'check': []})

    def value(t, sort):
        if sort == 'P':
            return ptrval(t)
        x = ev(t)
        return float(x) if sort == 'R' else int(x)

    def ptrval(t):
        while t.op == 'ite':
            t = t.args[1] if ev(t.args[0]) else t.args[2]
        if t.op == 'ptr':
            ps = tuple(int(ev(x)) for x in t.args[1:-1])
            i = addr_of.get((t.args[0], ps))
            return None if i is None else [i, int(ev(t.args[-1]))]
        return None

    def cell(o, c, ps, i, sort):
        t = v.ex.sel(o, c, tuple(I(p) for p in ps), I(i))
        return value(t, sort)
    st0 = v.entry
    for o in shapes:
        rs = {}
        for r, f in o.fields.items():
            rs[r] = f[1:]
        for r, t in o.types.items():
            rs.setdefault(r, t)
        for r, (sort, size) in sorted(rs.items()):
            c = st0.mem.get((o.name, r))
            if c is None:
                if r in o.types or o.stride <= 8:
                    c = v.ex.plane(st0, o, r, sort, size)
                else:
                    continue
            for ps in instances(o):
                e = plan['objs'][addr_of[(o.name, ps)]]
                for i in range(min(e['size'] // o.stride, 512)):
                    try:
                        e['cells'].append((i * o.stride + r, sort, size, cell(o, c, ps, i, c.base.sort)))
                    except (EvalError, KeyError):
                        pass
    f = v.prog.func(v.fname)
    for (t, n), a in zip(f.params, v.callargs):
        s = {'double': 'R', 'ptr': 'P'}.get(t.k, 'I')
        plan['args'].append((s, t.k, value(a, s)))
    out = None
    for st, r in v.outs:
        if all(ev(x) for x in st.facts()):
            out = (st, r)
            break
    if out is None and ob.kind == 'post':
        return {'status': 'not available', 'why': 'no exit state matches'}
    if out:
        st, r = out
        plan['ret'] = None if r is None else value(r, r.sort)
        for (on, res), c in st.mem.items():
            o = v.ex.objs.get(on)
            if o is None or on not in v.shape_names or st0.mem.get((on, res)) is c or c.base.sort == 'P':
                continue
            size = o.fields[res][2] if res in o.fields else o.types.get(res, (0, 8))[1]
            for ps in instances(o):
                e = plan['objs'][addr_of[(on, ps)]]
                for i in range(min(e['size'] // o.stride, 512)):
                    try:
                        e['check'].append((i * o.stride + res, c.base.sort, size, cell(o, c, ps, i, c.base.sort)))
                    except (EvalError, KeyError, OverflowError, ZeroDivisionError):
                        pass
    tmp = tempfile.mkdtemp(prefix='tdyrep-')
    try:
        plan['so'] = so_for(v, v.fname, tmp)
        pj = os.path.join(tmp, 'plan.json')
        json.dump(plan, open(pj, 'w'))
        env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        r = subprocess.run([sys.executable, '-m', 'tdyver.replay', pj], capture_output=True, text=True, timeout=60, env=env)
        if ob.kind == 'no-error':
            if r.returncode != 0:
                return {'status': 'confirmed', 'why': 'the call aborts (exit %d)' % r.returncode}
            d = json.loads(r.stdout.strip().splitlines()[-1])
            return {'status': 'confirmed' if d['ret'] else 'differs', 'why': 'the call returns %s' % d['ret']}
        if r.returncode != 0:
            return {'status': 'not available', 'why': 'run failed (%d) %s' % (r.returncode, r.stderr[-200:])}
        return json.loads(r.stdout.strip().splitlines()[-1])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(path):
    plan = json.load(open(path))
    for l in ('libpetsc.so',):
        ctypes.CDLL(os.path.join(bld.PETSC, 'lib', l), mode=ctypes.RTLD_GLOBAL) if os.path.exists(os.path.join(bld.PETSC, 'lib', l)) else None
    lib = ctypes.CDLL(plan['so'], mode=os.RTLD_LAZY)
    bufs = [ctypes.create_string_buffer(o['size'] + 64) for o in plan['objs']]
    ad = [ctypes.addressof(b) for b in bufs]
    fmt = {('R', 8): '<d', ('R', 4): '<f', ('P', 8): '<Q', ('I', 1): '<b', ('I', 2): '<h', ('I', 4): '<i', ('I', 8): '<q'}

    def p(x):
        return 0 if x is None else ad[x[0]] + x[1]
    for o, b in zip(plan['objs'], bufs):
        for off, sort, size, val in o['cells']:
            _st.pack_into(fmt[(sort, size)], b, off, p(val) if sort == 'P' else val)
    args = []
    for s, k, val in plan['args']:
        args.append(ctypes.c_void_p(p(val)) if s == 'P' else ctypes.c_double(val) if s == 'R' else (ctypes.c_long(val) if k == 'i64' else ctypes.c_int(val)))
    f = getattr(lib, plan['target'])
    f.restype = ctypes.c_int
    ret = f(*args)
    diffs, n = [], 0
    for o, b in zip(plan['objs'], bufs):
        for off, sort, size, val in o['check']:
            g = _st.unpack_from(fmt[(sort, size)], b, off)[0]
            n += 1
            if sort == 'R':
                ok = abs(g - val) <= 1e-9 * max(abs(g), abs(val), 1e-30) or (g != g and val != val)
            else:
                ok = g == val
            if not ok:
                diffs.append((o['name'], off, val, g))
    print(json.dumps({'status': 'confirmed' if not diffs else 'differs', 'ret': ret, 'compared': n, 'differences': diffs[:5]}))


if __name__ == '__main__':
    main(sys.argv[1])
