"""Parser for the textual LLVM IR that clang emits from /repo's sources."""
import re, struct
from fractions import Fraction


class Type:
    __slots__ = ('k', 'a')

    def __init__(self, k, a=None):
        self.k = k
        self.a = a

    def __repr__(self):
        return '%s%s' % (self.k, '' if self.a is None else self.a)


PRIM = {}


def prim(k):
    if k not in PRIM:
        PRIM[k] = Type(k)
    return PRIM[k]


class Module:
    def __init__(self, name):
        self.name = name
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.meta = {}
        self._sz = {}
        self.di_struct = None

    # layout (x86-64)
    def align(self, t):
        k = t.k
        if k == 'arr':
            return self.align(t.a[1])
        if k == 'named':
            t = self.structs[t.a]
            k = t.k
        if k == 'struct':
            return max([self.align(x) for x in t.a] or [1])
        return min(self.size(t), 16) or 1

    def size(self, t):
        k = t.k
        if k == 'ptr' or k == 'double' or k == 'i64':
            return 8
        if k == 'i32' or k == 'float':
            return 4
        if k in ('i8', 'i1'):
            return 1
        if k == 'i16':
            return 2
        if k == 'i128' or k == 'x86_fp80':
            return 16
        if k == 'arr':
            return t.a[0] * self.size(t.a[1])
        if k == 'named':
            n = t.a
            if n not in self._sz:
                st = self.structs[n]
                self._sz[n] = self.size(st)
            return self._sz[n]
        if k == 'struct':
            return self.layout(t)[1]
        if k == 'opaque':
            return 1
        raise ValueError('size of %r' % t)

    def layout(self, t):
        if t.k == 'named':
            t = self.structs[t.a]
        off = 0
        offs = []
        mx = 1
        for x in t.a:
            a = self.align(x)
            mx = max(mx, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        off = (off + mx - 1) // mx * mx
        return offs, off

    def resolve(self, t):
        return self.structs[t.a] if t.k == 'named' else t

    def scalars(self, t, base=0):
        """[(offset, scalar type)] of a type"""
        t = self.resolve(t)
        if t.k == 'struct':
            out = []
            offs, _ = self.layout(t)
            for o, x in zip(offs, t.a):
                out += self.scalars(x, base + o)
            return out
        if t.k == 'arr':
            s = self.size(t.a[1])
            if t.a[0] > 4096:
                return [(base, t)]
            out = []
            for i in range(t.a[0]):
                out += self.scalars(t.a[1], base + i * s)
            return out
        return [(base, t)]


class Func:
    def __init__(self):
        self.blocks = {}
        self.order = []


class Instr:
    __slots__ = ('op', 'dst', 'a', 'dbg')

    def __init__(self, op, dst, a, dbg=None):
        self.op = op
        self.dst = dst
        self.a = a
        self.dbg = dbg

    def __repr__(self):
        return '%s = %s %r' % (self.dst, self.op, self.a)


_attr = set('''noundef nonnull noalias nocapture readonly writeonly readnone immarg signext zeroext
returned inreg noreturn nounwind nofree nsw nuw exact inbounds fast nnan ninf nsz arcp contract afn reassoc
writable dead_on_unwind local_unnamed_addr unnamed_addr volatile tail musttail notail disjoint nneg'''.split())


class P:
    """tiny recursive parser over a string"""
    tok = re.compile(r'\s*(%"[^"]*"|@"[^"]*"|%[\w.$-]+|@[\w.$-]+|c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|!"[^"]*"|![\w.]*|0x[KH]?[0-9A-Fa-f]+|-?\d+\.\d+e[+-]\d+|-?\d+\.\d+|-?\d+|[A-Za-z_][\w.]*|\.\.\.|<\{|\}>|[\[\]{}()<>,=*#|:])')

    def __init__(self, s):
        self.t = self.tok.findall(s)
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %s got %s in %s' % (x, y, ' '.join(self.t)))

    def skip_attrs(self):
        while True:
            p = self.peek()
            if p in _attr:
                self.i += 1
            elif p in ('align', 'dereferenceable', 'dereferenceable_or_null', 'captures', 'memory', 'sret', 'byval', 'range'):
                self.i += 1
                if p == 'align' and self.peek() != '(':
                    self.i += 1
                elif self.peek() == '(':
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
            elif p == '#':
                self.i += 2
            else:
                return

    def type(self):
        x = self.next()
        if x == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            r = Type('arr', (n, t))
        elif x in ('{', '<{'):
            el = []
            while self.peek() not in ('}', '}>'):
                el.append(self.type())
                self.eat(',')
            self.next()
            r = Type('struct', el)
        elif x == '<':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect('>')
            r = Type('arr', (n, t))
        elif x.startswith('%'):
            r = Type('named', x[1:].strip('"'))
        else:
            r = prim(x)
        # function type
        if self.peek() == '(':
            self.next()
            while self.peek() != ')':
                if self.eat('...'):
                    continue
                self.type()
                self.eat(',')
            self.next()
        return r

    def value(self, ty):
        x = self.next()
        if x.startswith('%'):
            return ('reg', x[1:].strip('"'))
        if x.startswith('@'):
            return ('glob', x[1:].strip('"'))
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x == 'true':
            return ('bool', True)
        if x == 'false':
            return ('bool', False)
        if x == 'getelementptr':
            self.skip_attrs()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            b = self.value(None)
            idx = []
            while self.eat(','):
                self.skip_attrs()
                t = self.type()
                idx.append((t, self.value(t)))
            self.expect(')')
            return ('gep', bt, b, idx)
        if x in ('inttoptr', 'ptrtoint', 'bitcast'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', x, t, v, t2)
        if x == '[':
            out = []
            while self.peek() != ']':
                t = self.type()
                out.append((t, self.value(t)))
                self.eat(',')
            self.next()
            return ('agg', out)
        if x in ('{', '<{'):
            out = []
            while self.peek() not in ('}', '}>'):
                t = self.type()
                out.append((t, self.value(t)))
                self.eat(',')
            self.next()
            return ('agg', out)
        if x.startswith('c"'):
            return ('str', x[2:-1])
        if x.startswith('0x'):
            if x[2] in 'KH':
                return ('undef',)
            f = struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0]
            return ('float', f)
        if ty is not None and ty.k in ('double', 'float'):
            return ('float', float(x))
        try:
            return ('int', int(x))
        except ValueError:
            raise SyntaxError('value %s in %s' % (x, ' '.join(self.t)))


_dbg = re.compile(r', !(dbg|tbaa|srcloc|llvm\.loop|prof|range|nosanitize|nonnull|noundef|align) !(\d+)')


def parse_instr(line):
    dbg = None
    m = re.search(r'!dbg !(\d+)', line)
    if m:
        dbg = int(m.group(1))
    line = _dbg.sub('', line)
    dst = None
    m = re.match(r'\s*%("[^"]*"|[\w.$-]+) = (.*)$', line)
    if m:
        dst = m.group(1).strip('"')
        line = m.group(2)
    line = line.strip()
    p = P(line)
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    a = None
    if op == 'alloca':
        t = p.type()
        n = None
        if p.eat(','):
            if p.peek() != 'align':
                nt = p.type()
                n = (nt, p.value(nt))
        a = (t, n)
    elif op == 'load':
        p.skip_attrs()
        t = p.type()
        p.expect(',')
        p.type()
        a = (t, p.value(None))
    elif op == 'store':
        p.skip_attrs()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.type()
        a = (t, v, p.value(None))
    elif op == 'getelementptr':
        p.skip_attrs()
        bt = p.type()
        p.expect(',')
        p.type()
        b = p.value(None)
        idx = []
        while p.eat(','):
            p.skip_attrs()
            t = p.type()
            idx.append((t, p.value(t)))
        a = (bt, b, idx)
    elif op == 'call':
        p.skip_attrs()
        rt = p.type()
        p.skip_attrs()
        callee = p.value(None)
        p.expect('(')
        args = []
        while p.peek() != ')':
            if p.peek() == 'metadata':
                # metadata argument
                p.next()
                if p.peek() and p.peek().startswith('!'):
                    k = p.next()
                    args.append((None, ('meta', k)))
                    if p.peek() == '(':
                        d = 0
                        while True:
                            x = p.next()
                            d += (x == '(') - (x == ')')
                            if d == 0:
                                break
                else:
                    t = p.type()
                    args.append((t, p.value(t)))
            else:
                t = p.type()
                p.skip_attrs()
                args.append((t, p.value(t)))
            p.eat(',')
        a = (rt, callee, args)
    elif op == 'br':
        if p.peek() == 'label':
            p.next()
            a = (None, p.next()[1:].strip('"'), None)
        else:
            p.type()
            c = p.value(None)
            p.expect(','); p.expect('label')
            x = p.next()[1:].strip('"')
            p.expect(','); p.expect('label')
            a = (c, x, p.next()[1:].strip('"'))
    elif op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(','); p.expect('label')
        d = p.next()[1:].strip('"')
        p.expect('[')
        cases = []
        while p.peek() != ']':
            t2 = p.type()
            c = p.value(t2)
            p.expect(','); p.expect('label')
            cases.append((c[1], p.next()[1:].strip('"')))
        a = (t, v, d, cases)
    elif op == 'ret':
        t = p.type()
        a = (t, None if t.k == 'void' else p.value(t))
    elif op == 'unreachable':
        a = ()
    elif op == 'phi':
        p.skip_attrs()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            inc.append((v, p.next()[1:].strip('"')))
            p.expect(']')
            if not p.eat(','):
                break
        a = (t, inc)
    elif op in ('icmp', 'fcmp'):
        p.skip_attrs()
        pr = p.next()
        t = p.type()
        x = p.value(t)
        p.expect(',')
        a = (pr, t, x, p.value(t))
    elif op == 'select':
        p.skip_attrs()
        p.type(); c = p.value(None); p.expect(',')
        t = p.type(); x = p.value(t); p.expect(',')
        p.type(); y = p.value(t)
        a = (c, t, x, y)
    elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        p.skip_attrs()
        t = p.type()
        x = p.value(t)
        p.expect(',')
        a = (t, x, p.value(t))
    elif op == 'fneg':
        p.skip_attrs()
        t = p.type()
        a = (t, p.value(t))
    elif op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc'):
        p.skip_attrs()
        t = p.type()
        v = p.value(t)
        p.expect('to')
        a = (t, v, p.type())
    elif op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        a = (t, v, idx)
    elif op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t2 = p.type()
        w = p.value(t2)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        a = (t, v, t2, w, idx)
    elif op == 'va_arg':
        a = ()
    else:
        raise SyntaxError('instruction ' + line)
    return Instr(op, dst, a, dbg)


def parse_module(path, name=None):
    mod = Module(name or path)
    cur = None
    blk = None
    pend = None
    for line in open(path):
        line = line.rstrip('\n')
        if cur is None:
            if line.startswith('%'):
                m = re.match(r'%("[^"]*"|[\w.$-]+) = type (.*)$', line)
                body = m.group(2)
                n = m.group(1).strip('"')
                mod.structs[n] = Type('opaque') if body == 'opaque' else P(body).type()
            elif line.startswith('@'):
                m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)$', line)
                rest = _dbg.sub('', m.group(2))
                n = m.group(1).strip('"')
                ext = False
                words = rest.split(' ')
                i = 0
                link = None
                while words[i] in ('private', 'internal', 'external', 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'hidden', 'common', 'weak', 'global', 'constant', 'linkonce_odr', 'thread_local', 'default', 'protected'):
                    if words[i] in ('external',):
                        ext = True
                    if words[i] in ('private', 'internal'):
                        link = 'internal'
                    i += 1
                    if words[i - 1] in ('global', 'constant'):
                        break
                const = words[i - 1] == 'constant'
                mod.globals[n] = dict(text=' '.join(words[i:]), ext=ext, internal=link == 'internal', const=const, parsed=None)
            elif line.startswith('define'):
                cur = Func()
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', line)
                cur.name = m.group(1).strip('"')
                cur.internal = ' internal ' in line[:m.start()] or ' private ' in line[:m.start()]
                cur.mod = mod
                s = line[m.end() - 1:]
                p = P(s)
                p.expect('(')
                params = []
                while p.peek() != ')':
                    if p.eat('...'):
                        continue
                    t = p.type()
                    p.skip_attrs()
                    params.append((t, p.next()[1:].strip('"')))
                    p.eat(',')
                cur.params = params
                hd = line[:m.start()].split()
                cur.ret_text = hd[-1]
                m2 = re.search(r'!dbg !(\d+)', line)
                cur.dbg = int(m2.group(1)) if m2 else None
                blk = None
            elif line.startswith('declare'):
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', line)
                mod.decls.add(m.group(1).strip('"'))
            elif line.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', line)
                if m:
                    mod.meta[int(m.group(1))] = m.group(2)
        else:
            if line == '}':
                mod.funcs[cur.name] = cur
                cur = None
                continue
            if not line.strip() or line.lstrip().startswith(';'):
                continue
            if not line.startswith(' '):
                m = re.match(r'("[^"]*"|[\w.$-]+):', line)
                blk = m.group(1).strip('"')
                cur.blocks[blk] = []
                cur.order.append(blk)
                continue
            if pend is not None:
                pend += ' ' + line.strip()
                if line.strip().startswith(']'):
                    cur.blocks[blk].append(pend)
                    pend = None
                continue
            if line.lstrip().startswith('switch') and not line.rstrip().endswith(']') and ']' not in line:
                pend = line
                continue
            if blk is None:
                blk = '%entry%'
                cur.blocks[blk] = []
                cur.order.append(blk)
            cur.blocks[blk].append(line)
    return mod


def finalize(f):
    """parse the instructions of a function on first use; build CFG facts"""
    if getattr(f, 'ready', False):
        return f
    for b in f.order:
        ins = []
        for l in f.blocks[b]:
            if 'call void @llvm.dbg.' in l or '@llvm.lifetime' in l:
                continue
            ins.append(parse_instr(l))
        f.blocks[b] = ins
    f.entry = f.order[0]
    succ = {}
    for b in f.order:
        t = f.blocks[b][-1]
        if t.op == 'br':
            s = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
        elif t.op == 'switch':
            s = [t.a[2]] + [x for _, x in t.a[3]]
        else:
            s = []
        succ[b] = list(dict.fromkeys(s))
    f.succ = succ
    # reachable
    reach = set()
    st = [f.entry]
    while st:
        b = st.pop()
        if b in reach:
            continue
        reach.add(b)
        st.extend(succ[b])
    f.reach = reach
    pred = {b: [] for b in reach}
    for b in reach:
        for s in succ[b]:
            pred[s].append(b)
    f.pred = pred
    order = [b for b in f.order if b in reach]
    # dominators
    f.dom = domsets(order, f.entry, pred)
    # natural loops (merged by header)
    loops = {}
    for b in order:
        for s in succ[b]:
            if s in f.dom[b]:
                body = {s, b}
                st = [b] if b != s else []
                while st:
                    x = st.pop()
                    for q in pred[x]:
                        if q not in body:
                            body.add(q)
                            st.append(q)
                loops.setdefault(s, set()).update(body)
    f.loops = loops
    # post-dominators with a virtual exit
    EXIT = '%exit%'
    rs = {b: list(succ[b]) or [EXIT] for b in order}
    # blocks that cannot reach an exit: connect
    rp = {b: [] for b in order + [EXIT]}
    for b in order:
        for s in rs[b]:
            rp[s].append(b)
    # post-order from EXIT
    allb = order + [EXIT]
    pd = domsets_rev(allb, EXIT, rs)
    f.ipdom = {}
    for b in order:
        c = pd[b] - {b}
        # immediate: the one post-dominated by all the others
        best = None
        for x in c:
            if c <= pd[x] | {x}:
                if all((y in pd[x]) for y in c):
                    best = x
                    break
        f.ipdom[b] = best if best != EXIT else None
    liveness(f, order)
    f.ready = True
    return f


def regs(x):
    """registers an instruction mentions"""
    out = []

    def walk(a):
        if isinstance(a, tuple) and len(a) >= 2 and a[0] == 'reg':
            out.append(a[1])
        elif isinstance(a, (tuple, list)):
            for y in a:
                walk(y)
    walk(x.a)
    return out


def liveness(f, order):
    """scalar locals whose address is only loaded from and stored to; the blocks at whose entry they are live"""
    size = {}
    for b in order:
        for x in f.blocks[b]:
            if x.op == 'alloca' and x.a[1] is None and x.a[0].k in ('i1', 'i8', 'i16', 'i32', 'i64', 'ptr', 'double', 'float'):
                size[x.dst] = x.a[0].k
    for b in order:
        for x in f.blocks[b]:
            if x.op == 'alloca':
                continue
            ok = None
            if x.op == 'load' and x.a[1][0] == 'reg' and size.get(x.a[1][1]) == x.a[0].k:
                ok = x.a[1][1]
            elif x.op == 'store' and x.a[2][0] == 'reg' and size.get(x.a[2][1]) == x.a[0].k and x.a[1] != x.a[2]:
                ok = x.a[2][1]
            for r in regs(x):
                if r != ok and r in size:
                    del size[r]
    use, kill = {}, {}
    for b in order:
        u, k = set(), set()
        for x in f.blocks[b]:
            if x.op == 'load' and x.a[1][0] == 'reg' and x.a[1][1] in size:
                if x.a[1][1] not in k:
                    u.add(x.a[1][1])
            elif x.op == 'store' and x.a[2][0] == 'reg' and x.a[2][1] in size:
                k.add(x.a[2][1])
        use[b], kill[b] = u, k
    live = {b: set(use[b]) for b in order}
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            n = use[b] | (set().union(*[live[s] for s in f.succ[b]]) - kill[b]) if f.succ[b] else use[b]
            if n != live[b]:
                live[b] = n
                ch = True
    f.dead_at = {b: frozenset(set(size) - live[b]) for b in order}
    # arrays and structs: the blocks that use them, unless their address is stored
    f.used_in = {}
    for b in order:
        for x in f.blocks[b]:
            if x.op == 'alloca' and x.dst not in size and x.a[1] is None:
                f.used_in[x.dst] = set()
    root = {r: {r} for r in f.used_in}
    ch = True
    while ch:
        ch = False
        for b in order:
            for x in f.blocks[b]:
                if x.op == 'alloca':
                    continue
                rs = [r for r in regs(x) if r in root]
                if not rs:
                    continue
                if x.op == 'store' and x.a[1][0] == 'reg' and x.a[1][1] in root:
                    for o in root[x.a[1][1]]:
                        f.used_in.pop(o, None)
                if x.dst is None or x.op in ('load', 'icmp', 'fcmp') or (x.op == 'call' and getattr(x.a[0], 'k', None) != 'ptr'):
                    continue
                t = set().union(*[root[r] for r in rs])
                if not t <= root.get(x.dst, set()):
                    root.setdefault(x.dst, set()).update(t)
                    ch = True
    for b in order:
        for x in f.blocks[b]:
            if x.op != 'alloca':
                for r in regs(x):
                    for o in root.get(r, ()):
                        if o in f.used_in:
                            f.used_in[o].add(b)


def domsets(order, entry, pred):
    # bitset iteration
    idx = {b: i for i, b in enumerate(order)}
    full = (1 << len(order)) - 1
    d = {b: full for b in order}
    d[entry] = 1 << idx[entry]
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == entry:
                continue
            n = full
            for p in pred[b]:
                n &= d[p]
            n |= 1 << idx[b]
            if n != d[b]:
                d[b] = n
                ch = True
    return {b: {x for x in order if d[b] >> idx[x] & 1} for b in order}


def domsets_rev(allb, exit_, succ):
    idx = {b: i for i, b in enumerate(allb)}
    full = (1 << len(allb)) - 1
    d = {b: full for b in allb}
    d[exit_] = 1 << idx[exit_]
    rev = allb[::-1]
    ch = True
    while ch:
        ch = False
        for b in rev:
            if b == exit_:
                continue
            n = full
            for s in succ[b]:
                n &= d[s]
            n |= 1 << idx[b]
            if n != d[b]:
                d[b] = n
                ch = True
    return {b: {x for x in allb if d[b] >> idx[x] & 1} for b in allb}


# ------------------------------------------------------------- debug info
class DI:
    """struct layouts by source names from the debug metadata"""

    def __init__(self, mod):
        self.m = mod.meta
        self.structs = {}
        self.typedefs = {}
        for k, v in self.m.items():
            if 'DICompositeType(tag: DW_TAG_structure_type' in v:
                n = self.attr(v, 'name')
                if n and 'elements:' in v:
                    self.structs[n] = k
            elif 'DIDerivedType(tag: DW_TAG_typedef' in v:
                n = self.attr(v, 'name')
                if n:
                    self.typedefs[n] = k

    def attr(self, v, a):
        m = re.search(r'[(, ]%s: ("([^"]*)"|[^,)]+)' % a, v)
        if not m:
            return None
        return m.group(2) if m.group(2) is not None else m.group(1)

    def ref(self, v, a):
        x = self.attr(v, a)
        if x is None or not x.startswith('!'):
            return None
        return int(x[1:])

    def strip(self, k):
        """skip typedefs and qualifiers"""
        while k is not None:
            v = self.m[k]
            if re.search(r'tag: DW_TAG_(typedef|const_type|volatile_type|restrict_type)', v):
                k = self.ref(v, 'baseType')
            else:
                return k
        return None

    def find_struct(self, name):
        if name in self.structs:
            return self.structs[name]
        if name in self.typedefs:
            k = self.strip(self.typedefs[name])
            if k is not None and 'DW_TAG_structure_type' in self.m[k]:
                return k
            if k is not None and 'pointer_type' in self.m[k]:
                k = self.strip(self.ref(self.m[k], 'baseType'))
                return k
        raise KeyError('struct %s not in debug info' % name)

    def fields(self, k, prefix='', base=0):
        """flattened {path: (offset bytes, kind, type key, count)}"""
        out = {}
        v = self.m[k]
        el = self.ref(v, 'elements')
        ids = [int(x) for x in re.findall(r'!(\d+)', self.m[el])]
        for i in ids:
            mv = self.m[i]
            if 'DW_TAG_member' not in mv:
                continue
            n = self.attr(mv, 'name') or ''
            off = int(self.attr(mv, 'offset') or 0) // 8 + base
            self._field(out, prefix + n, off, self.ref(mv, 'baseType'))
        return out

    def _field(self, out, path, off, tk):
        tk = self.strip(tk)
        v = self.m[tk] if tk is not None else ''
        if 'DW_TAG_structure_type' in v:
            out[path] = (off, 'struct', tk, 1)
            if 'elements:' in v:
                out.update(self.fields(tk, path + '.', off))
            return
        if 'DW_TAG_array_type' in v:
            el = self.ref(v, 'elements')
            cnt = []
            for x in re.findall(r'!(\d+)', self.m[el]):
                m = re.search(r'count: (\d+)', self.m[int(x)])
                cnt.append(int(m.group(1)) if m else 0)
            n = 1
            for c in cnt:
                n *= c
            bt = self.strip(self.ref(v, 'baseType'))
            sz = int(self.attr(v, 'size') or 0) // 8
            es = sz // n if n else 0
            out[path] = (off, 'array', tk, n)
            for i in range(min(n, 512)):
                self._field(out, '%s[%d]' % (path, i), off + i * es, bt)
            return
        out[path] = (off, self.kind(tk), tk, 1)

    def kind(self, tk):
        if tk is None:
            return 'void'
        v = self.m[tk]
        if 'pointer_type' in v:
            return 'P'
        if 'enumeration_type' in v:
            return 'I'
        if 'DIBasicType' in v:
            n = self.attr(v, 'name')
            return 'R' if n in ('double', 'float') else 'I'
        return '?'

    def enums(self):
        out = {}
        for k, v in self.m.items():
            if v.startswith('!DIEnumerator('):
                m = re.search(r'name: "([^"]+)", value: (-?\d+)', v)
                if m:
                    out[m.group(1)] = int(m.group(2))
        return out

    def sizeof(self, k):
        return int(self.attr(self.m[self.strip(k)], 'size') or 0) // 8
