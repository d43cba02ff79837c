"""Parser for the subset of textual LLVM IR (clang 18, opaque pointers) that
clang -O0 + sroa produces for the code under verification.  The IR is produced
from /repo's current sources on every run; nothing is hand written."""
import re
import subprocess

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<comment>;[^\n]*)
 | (?P<loc>[%@](?:"(?:[^"])*"|[-$._A-Za-z0-9]+))
 | (?P<cstr>c"(?:[^"])*")
 | (?P<str>"(?:[^"])*")
 | (?P<meta>![-$._A-Za-z0-9]*)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<flt>-?\d+\.\d+(?:e[+-]?\d+)?)
 | (?P<num>-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[A-Za-z_$.][-A-Za-z0-9_$.]*)
 | (?P<punct>[\[\](){}<>,=*|:])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError('lex: ' + s[pos:pos + 60])
        k = m.lastgroup
        if k not in ('ws', 'comment'):
            out.append((k, m.group()))
        pos = m.end()
    return out


ATTR_WORDS = set('''noundef nonnull dereferenceable dereferenceable_or_null align signext zeroext inreg
 noalias nocapture readonly readnone writeonly writable returned sret byval dead_on_unwind nest
 immarg swiftself noreturn nounwind range nofree captures initializes allocptr allocalign elementtype dead_on_return'''.split())


class P:
    """token stream"""
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise SyntaxError('expected %r got %r in %s' % (v, self.peek(), ' '.join(x[1] for x in self.t)))

    def done(self):
        return self.i >= len(self.t)


_type_cache = {}


def intern(t):
    return _type_cache.setdefault(t, t)


def parse_type(p):
    tok = p.next()
    if tok == 'void':
        t = ('void',)
    elif tok == 'ptr':
        t = ('ptr',)
        if p.peek() == 'addrspace':
            p.next(); p.expect('('); p.next(); p.expect(')')
    elif tok in ('double', 'float', 'x86_fp80', 'half', 'fp128'):
        t = ('fp', tok)
    elif tok == 'label':
        t = ('label',)
    elif tok == 'metadata':
        t = ('metadata',)
    elif tok == 'opaque':
        t = ('opaque',)
    elif tok == '[':
        n = int(p.next()); p.expect('x')
        e = parse_type(p); p.expect(']')
        t = ('arr', n, e)
    elif tok == '<':
        if p.peek() == '{':
            p.next()
            fs = []
            while not p.accept('}'):
                fs.append(parse_type(p)); p.accept(',')
            p.expect('>')
            t = ('struct', tuple(fs), True)
        else:
            n = int(p.next()); p.expect('x')
            e = parse_type(p); p.expect('>')
            t = ('vec', n, e)
    elif tok == '{':
        fs = []
        while not p.accept('}'):
            fs.append(parse_type(p)); p.accept(',')
        t = ('struct', tuple(fs), False)
    elif tok[0] == '%':
        t = ('named', tok)
    elif re.match(r'i\d+$', tok):
        t = ('i', int(tok[1:]))
    else:
        raise SyntaxError('type? ' + tok + ' in ' + ' '.join(x[1] for x in p.t))
    t = intern(t)
    # function type (vararg calls): T (args...)
    if p.peek() == '(' and p.kind() == 'punct' and getattr(p, 'allow_fn', False):
        pass
    return t


def skip_attrs(p):
    out = []
    while True:
        k = p.peek()
        if k is None:
            return out
        if p.kind() == 'attr':
            p.next(); continue
        if p.kind() == 'str':
            p.next()
            if p.accept('='):
                p.next()
            continue
        if k in ATTR_WORDS:
            out.append(p.next())
            if p.peek() == '(':
                depth = 0
                while True:
                    x = p.next()
                    if x == '(':
                        depth += 1
                    elif x == ')':
                        depth -= 1
                        if depth == 0:
                            break
            elif k == 'align' and p.kind() == 'num':
                p.next()
            continue
        return out


CONST_EXPR = {'getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'add', 'sub'}


def parse_value(p, ty):
    """Returns an operand: ('loc',name) ('glob',name) ('int',v) ('null',) ('undef',)
    ('zero',) ('agg',[(ty,op)]) ('str',bytes) ('gep',base_ty,[(ty,op)...]) ('fp',x)"""
    k = p.kind()
    tok = p.peek()
    if k == 'loc':
        p.next()
        return ('loc', tok) if tok[0] == '%' else ('glob', tok)
    if k == 'num':
        p.next()
        if ty[0] == 'fp':
            return ('fp', float(tok))
        return ('int', int(tok))
    if k in ('hex', 'flt'):
        p.next()
        if ty[0] == 'i':
            return ('int', int(tok, 16))
        return ('fp', tok)
    if tok == 'true':
        p.next(); return ('int', 1)
    if tok == 'false':
        p.next(); return ('int', 0)
    if tok == 'null':
        p.next(); return ('null',)
    if tok in ('undef', 'poison'):
        p.next(); return ('undef',)
    if tok == 'zeroinitializer':
        p.next(); return ('zero',)
    if k == 'cstr':
        p.next()
        s = tok[2:-1]
        b = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)
        return ('str', b.encode('latin1'))
    if tok in ('{', '[', '<'):
        close = {'{': '}', '[': ']', '<': '>'}[tok]
        p.next()
        if tok == '<' and p.peek() == '{':
            p.next(); close = '}'
        es = []
        while not p.accept(close):
            t = parse_type(p)
            es.append((t, parse_value(p, t)))
            p.accept(',')
        if tok == '<' and close == '}':
            p.expect('>')
        return ('agg', es)
    if tok == 'getelementptr':
        p.next()
        p.accept('inbounds')
        while p.peek() in ('inrange',) or p.peek() == 'nusw' or p.peek() == 'nuw':
            p.next()
            if p.peek() == '(' and p.t[p.i + 1][0] == 'num':
                while p.next() != ')':
                    pass
        p.expect('(')
        bt = parse_type(p)
        ops = []
        while p.accept(','):
            p.accept('inrange')
            t = parse_type(p)
            ops.append((t, parse_value(p, t)))
        p.expect(')')
        return ('gep', bt, ops)
    if tok in ('inttoptr', 'ptrtoint', 'bitcast'):
        p.next(); p.expect('(')
        t = parse_type(p)
        v = parse_value(p, t)
        p.expect('to')
        t2 = parse_type(p)
        p.expect(')')
        return ('cast', tok, t, v, t2)
    if tok in ('sub', 'add'):
        op = p.next()
        while p.peek() in ('nuw', 'nsw'):
            p.next()
        p.expect('(')
        t = parse_type(p); a = parse_value(p, t); p.expect(',')
        t2 = parse_type(p); b = parse_value(p, t2); p.expect(')')
        return ('cbin', op, t, a, b)
    raise SyntaxError('value? %r in %s' % (tok, ' '.join(x[1] for x in p.t)))


class Instr:
    __slots__ = ('op', 'dst', 'a', 'text', 'line')

    def __init__(self, op, dst, a, text):
        self.op = op
        self.dst = dst
        self.a = a
        self.text = text

    def __repr__(self):
        return self.text.strip()


class Block:
    __slots__ = ('name', 'instrs', 'succs', 'fn', 'phis', 'is_assert')


class Function:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'body', 'module', 'dname', 'loops', 'vararg')


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.functions = {}
        self.decls = {}
        self.aliases = {}

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = max(1, (t[1] + 7) // 8)
            a = 1
            while a < n:
                a *= 2
            return min(a, 16)
        if k == 'ptr':
            return 8
        if k == 'fp':
            return {'double': 8, 'float': 4, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t[1]]
        if k in ('arr',):
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'struct':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] or [1])
        raise ValueError(t)

    def size(self, t):
        key = ('sz', t)
        c = _size_cache.setdefault(id(self), {})
        if t in c:
            return c[t]
        r = self._size(t)
        c[t] = r
        return r

    def _size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = max(1, (t[1] + 7) // 8)
            a = self.align(t)
            return (n + a - 1) // a * a
        if k == 'ptr':
            return 8
        if k == 'fp':
            return {'double': 8, 'float': 4, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t[1]]
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'struct':
            off = 0
            for f in t[1]:
                if not t[2]:
                    a = self.align(f)
                    off = (off + a - 1) // a * a
                off += self.size(f)
            if not t[2]:
                a = self.align(t)
                off = (off + a - 1) // a * a
            return off
        raise ValueError(t)

    def field_off(self, t, idx):
        t = self.resolve(t)
        if t[0] == 'struct':
            off = 0
            for i, f in enumerate(t[1]):
                if not t[2]:
                    a = self.align(f)
                    off = (off + a - 1) // a * a
                if i == idx:
                    return off, f
                off += self.size(f)
        if t[0] in ('arr', 'vec'):
            return idx * self.size(t[2]), t[2]
        raise ValueError((t, idx))


_size_cache = {}

CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'}


def parse_call(p):
    p.accept('tail'); p.accept('musttail'); p.accept('notail')
    p.expect('call')
    while p.peek() in FLAGS or p.peek() in ('fastcc', 'ccc', 'coldcc'):
        p.next()
    skip_attrs(p)
    rt = parse_type(p)
    vararg = False
    if p.peek() == '(':
        depth = 0
        while True:
            x = p.next()
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0:
                    break
        vararg = True
    callee = parse_value(p, ('ptr',))
    p.expect('(')
    args = []
    while not p.accept(')'):
        t = parse_type(p)
        at = skip_attrs(p)
        if t[0] == 'metadata':
            # skip the metadata operand
            depth = 0
            while True:
                if p.peek() == ')' and depth == 0:
                    break
                if p.peek() == ',' and depth == 0:
                    break
                x = p.next()
                if x == '(':
                    depth += 1
                if x == ')':
                    depth -= 1
            args.append((t, ('undef',), ()))
        else:
            args.append((t, parse_value(p, t), tuple(at)))
        p.accept(',')
    return rt, callee, args


def parse_instr(line, mod):
    toks = tokenize(line)
    p = P(toks, mod)
    dst = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        dst = p.next(); p.next()
    op = p.peek()
    if op in ('call', 'tail', 'musttail', 'notail'):
        rt, callee, args = parse_call(p)
        return Instr('call', dst, (rt, callee, args), line)
    op = p.next()
    if op == 'ret':
        t = parse_type(p)
        if t[0] == 'void':
            return Instr('ret', None, (t, None), line)
        return Instr('ret', None, (t, parse_value(p, t)), line)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Instr('br', None, (None, None, p.next()), line)
        t = parse_type(p)
        c = parse_value(p, t); p.expect(',')
        p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
        return Instr('condbr', None, (c, a, b), line)
    if op == 'switch':
        t = parse_type(p); v = parse_value(p, t); p.expect(','); p.expect('label'); d = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = parse_type(p); cv = parse_value(p, ct); p.expect(','); p.expect('label')
            cases.append((cv, p.next()))
        return Instr('switch', None, (t, v, d, cases), line)
    if op == 'unreachable':
        return Instr('unreachable', None, None, line)
    if op == 'alloca':
        p.accept('inalloca')
        t = parse_type(p)
        n = None
        if p.accept(','):
            if p.peek() != 'align':
                ct = parse_type(p); n = (ct, parse_value(p, ct))
        return Instr('alloca', dst, (t, n), line)
    if op == 'load':
        p.accept('volatile')
        t = parse_type(p); p.expect(',')
        pt = parse_type(p); v = parse_value(p, pt)
        return Instr('load', dst, (t, v), line)
    if op == 'store':
        p.accept('volatile')
        t = parse_type(p); v = parse_value(p, t); p.expect(',')
        pt = parse_type(p); a = parse_value(p, pt)
        return Instr('store', None, (t, v, a), line)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = parse_type(p)
        ops = []
        while p.accept(','):
            t = parse_type(p)
            ops.append((t, parse_value(p, t)))
        return Instr('gep', dst, (bt, ops), line)
    if op == 'icmp' or op == 'fcmp':
        while p.peek() in FLAGS:
            p.next()
        pred = p.next(); t = parse_type(p); a = parse_value(p, t); p.expect(','); b = parse_value(p, t)
        return Instr(op, dst, (pred, t, a, b), line)
    if op in BINOPS:
        fl = set()
        while p.peek() in FLAGS:
            fl.add(p.next())
        t = parse_type(p); a = parse_value(p, t); p.expect(','); b = parse_value(p, t)
        return Instr('bin', dst, (op, frozenset(fl), t, a, b), line)
    if op == 'fneg':
        while p.peek() in FLAGS:
            p.next()
        t = parse_type(p); a = parse_value(p, t)
        return Instr('fneg', dst, (t, a), line)
    if op in CASTS:
        while p.peek() in FLAGS:
            p.next()
        t = parse_type(p); v = parse_value(p, t); p.expect('to'); t2 = parse_type(p)
        return Instr('cast', dst, (op, t, v, t2), line)
    if op == 'phi':
        t = parse_type(p)
        inc = []
        while True:
            p.expect('[')
            v = parse_value(p, t); p.expect(','); b = p.next(); p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
            if p.kind() == 'meta':
                break
        return Instr('phi', dst, (t, inc), line)
    if op == 'select':
        t = parse_type(p); c = parse_value(p, t); p.expect(',')
        t1 = parse_type(p); a = parse_value(p, t1); p.expect(',')
        t2 = parse_type(p); b = parse_value(p, t2)
        return Instr('select', dst, (t, c, t1, a, b), line)
    if op == 'extractvalue':
        t = parse_type(p); v = parse_value(p, t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr('extractvalue', dst, (t, v, idx), line)
    if op == 'insertvalue':
        t = parse_type(p); v = parse_value(p, t); p.expect(',')
        t2 = parse_type(p); v2 = parse_value(p, t2)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr('insertvalue', dst, (t, v, t2, v2, idx), line)
    if op == 'freeze':
        t = parse_type(p)
        return Instr('freeze', dst, (t, parse_value(p, t)), line)
    # anything else is refused when (and only when) it is executed
    return Instr('unsupported', dst, op, line)


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    lazy = []
    while i < n:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            name, rest = ln.split(' = type ', 1)
            p = P(tokenize(rest), m)
            m.types[name.strip()] = parse_type(p)
        elif ln.startswith('@'):
            mm = re.match(r'(@(?:"[^"]*"|[-$._A-Za-z0-9]+)) = (.*)', ln)
            name, rest = mm.group(1), mm.group(2)
            if ' alias ' in rest:
                tgt = re.findall(r'@(?:"[^"]*"|[-$._A-Za-z0-9]+)', rest)
                m.aliases[name] = tgt[-1]
            else:
                m.globals[name] = rest
        elif ln.startswith('define '):
            hdr = ln
            body = []
            i += 1
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            fn = parse_header(hdr, m)
            fn.body = body
            m.functions[fn.name] = fn
        elif ln.startswith('declare '):
            fn = parse_header(ln, m)
            fn.body = None
            m.decls[fn.name] = fn
        i += 1
    return m


def parse_header(hdr, m):
    mm = re.search(r'@("[^"]*"|[-$._A-Za-z0-9]+)\(', hdr)
    name = '@' + mm.group(1)
    fn = Function()
    fn.name = name
    fn.module = m
    fn.blocks = None
    fn.loops = None
    fn.dname = None
    pre = hdr[:mm.start()]
    # return type: last type before name
    toks = tokenize(pre)
    p = P(toks, m)
    p.next()  # define/declare
    SKIP = {'dso_local', 'linkonce_odr', 'internal', 'weak_odr', 'available_externally', 'hidden', 'private', 'external', 'weak',
            'unnamed_addr', 'local_unnamed_addr', 'noundef', 'fastcc', 'extern_weak'}
    while p.peek() in SKIP or p.peek() in ATTR_WORDS:
        if p.peek() in ATTR_WORDS:
            skip_attrs(p)
        else:
            p.next()
    fn.ret = parse_type(p)
    rest = hdr[mm.end():]
    p = P(tokenize(re.sub(r'\{\s*$', '', rest)), m)
    params = []
    fn.vararg = False
    while not p.accept(')'):
        if p.accept('...'):
            fn.vararg = True
            continue
        t = parse_type(p)
        at = skip_attrs(p)
        nm = None
        if p.kind() == 'loc':
            nm = p.next()
        params.append((t, nm, tuple(at)))
        p.accept(',')
    fn.params = params
    return fn


def body_of(fn):
    """parse the blocks of a function on first use"""
    if fn.blocks is not None:
        return fn
    fn.blocks = {}
    fn.order = []
    cur = None
    pending = ''
    nunnamed = sum(1 for t, nm, at in fn.params if nm is None)
    for ln in fn.body:
        s = ln.strip()
        if not s or s.startswith(';'):
            continue
        mm = re.match(r'^("[^"]*"|[-$._A-Za-z0-9]+):', ln)
        if mm and not ln.startswith(' '):
            cur = Block()
            cur.name = '%' + mm.group(1)
            cur.instrs = []
            cur.fn = fn
            fn.blocks[cur.name] = cur
            fn.order.append(cur.name)
            continue
        if cur is None:
            cur = Block()
            cur.name = '%entry0'
            cur.instrs = []
            cur.fn = fn
            fn.blocks[cur.name] = cur
            fn.order.append(cur.name)
        if pending:
            s = pending + ' ' + s
            pending = ''
        if s.startswith('switch') and ']' not in s:
            pending = s
            continue
        # strip trailing metadata
        s2 = re.sub(r'(, ![-\w.]+ ![-\w.]+)+$', '', s)
        s2 = re.sub(r'(, ![-\w.]+ ![-\w.]+)+', '', s2) if ', !' in s2 and 'call' not in s2 else s2
        cur.instrs.append(parse_instr(s2, fn.module))
    for b in fn.blocks.values():
        t = b.instrs[-1]
        if t.op == 'br':
            b.succs = [t.a[2]]
        elif t.op == 'condbr':
            b.succs = [t.a[1], t.a[2]]
        elif t.op == 'switch':
            b.succs = [t.a[2]] + [x[1] for x in t.a[3]]
        else:
            b.succs = []
        b.phis = [x for x in b.instrs if x.op == 'phi']
        b.instrs = [x for x in b.instrs if x.op != 'phi']
        b.is_assert = any(x.op == 'call' and x.a[1][0] == 'glob' and x.a[1][1] == '@__assert_fail' for x in b.instrs)
    find_loops(fn)
    return fn


def find_loops(fn):
    """natural loops by header: {header: set(blocks)} (via dominators)."""
    seen, st = {fn.order[0]}, [fn.order[0]]
    while st:
        for x in fn.blocks[st.pop()].succs:
            if x not in seen:
                seen.add(x)
                st.append(x)
    order = [b for b in fn.order if b in seen]
    preds = {b: [] for b in order}
    for b in order:
        for s in fn.blocks[b].succs:
            preds[s].append(b)
    dom = {b: set(order) for b in order}
    dom[order[0]] = {order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [dom[x] for x in preds[b]]
            nd = set.intersection(*ps) if ps else set()
            nd = nd | {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    loops = {}
    for b in order:
        for s in fn.blocks[b].succs:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    fn.loops = loops


def demangle(names):
    names = list(names)
    inp = '\n'.join(n.lstrip('@').strip('"') for n in names)
    out = subprocess.run(['c++filt'], input=inp, capture_output=True, text=True).stdout.split('\n')
    return dict(zip(names, out))
