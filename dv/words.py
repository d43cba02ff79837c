"""Word-level view of walnut::BigInt: contracts of BigIntWords (the container)
and the reading of an integer as the value of its word array.

A BigIntWords object is a 24-byte cell WH(rid); region rid is an array of n >= 1
64-bit words, n symbolic.  value = V(A,n) - [A[n-1] >= 2^63] * P(n)."""
import z3
from . import poly
from .poly import Poly, cmp0, abs_term, ABS_BY_ID
from .contracts import Contracts, cstr, zof
from .engine import (IV, Ptr, ZV, UNDEF, const, Not, And, Or, tobool, Unsupported, SymArr, Split, Region)
from .wprover import V, P, Up, B, AS, to_poly, is_fn, WProver, has_vp
from .solver import Solver

H = B >> 1
NMAX = 1 << 40


class WH:
    __slots__ = ('rid',)

    def __init__(self, rid):
        self.rid = rid

    def __repr__(self):
        return 'words(%d)' % self.rid


class WSolver(Solver):
    """obligations over V/P go to the word prover, the rest as usual"""

    def __init__(self, **kw):
        Solver.__init__(self, **kw)
        self.wp = WProver()

    def feasible(self, pc, c):
        if has_vp(c):
            # decided at value level only when it matters
            return True
        return Solver.feasible(self, [x for x in pc if not has_vp(x)], c)

    def implied_const(self, pc, p):
        pc = [x for x in pc if not has_vp(x)]
        s = self._solver(self.t_lin)
        for x in pc:
            s.add(x)
        if s.check() != z3.sat:
            return None
        v = s.model().eval(p.z3(), model_completion=True)
        if not z3.is_int_value(v):
            return None
        s.add(p.z3() != v)
        return v.as_long() if s.check() == z3.unsat else None

    def _prove(self, st, goal):
        gv = goal is not False and has_vp(goal)
        if not gv:
            pc = [x for x in st.pc if not has_vp(x)]
            s = self._solver(self.t_lin)
            for x in pc:
                s.add(x)
            s.add(z3.BoolVal(True) if goal is False else z3.Not(goal))
            if s.check() == z3.unsat:
                self._note('z3-linear')
                return 'proved', 'z3-linear', None
        r, b = self.wp.prove(st.pc, goal)
        if r != 'proved' and gv:
            # the one-word operands apart
            ns = lengths(goal)
            if 0 < len(ns) <= 2:
                r = 'proved'
                for k in range(1 << len(ns)):
                    cs = [(n == 1) if k >> j & 1 else (n >= 2) for j, n in enumerate(ns)]
                    r, b = self.wp.prove(st.pc + cs, goal)
                    if r != 'proved':
                        break
        if r == 'proved':
            self._note(b)
            return 'proved', b, None
        return 'unknown', b, None


def lengths(f):
    """the lengths of operands mentioned in f"""
    out, seen, todo = [], set(), [f]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 0 and x.decl().name().startswith('n_'):
            out.append(x)
        q = ABS_BY_ID.get(x.get_id())
        if q is not None:
            todo.extend(poly.atom_term(a) for k in q.m for a in k)
        todo.extend(x.children())
    return sorted(out, key=str)


def sel(e, st, arr, idx):
    while True:
        if z3.is_store(arr):
            d = idx - to_poly(arr.arg(1))
            c = cmp0(d, '==')
            if not isinstance(c, bool):
                c2 = e.decide(st, c)
                if c2 is None:
                    raise Split(c)
                c = c2
            if c == 'dead':
                return Poly.var(z3.Select(arr, idx.z3()))
            if c:
                return to_poly(arr.arg(2))
            arr = arr.arg(0)
            continue
        if is_fn(arr, 'Up'):
            c = cmp0(idx - to_poly(arr.arg(1)), '<')
            if not isinstance(c, bool):
                c2 = e.decide(st, c)
                if c2 is None:
                    raise Split(c)
                c = c2
            if c == 'dead':
                return Poly.var(z3.Select(arr, idx.z3()))
            arr = arr.arg(0) if c else arr.arg(2)
            continue
        t = z3.Select(arr, idx.z3())
        st.assume(t >= 0)
        st.assume(t <= B - 1)
        return Poly.var(t)


def fresh_arr(e, name):
    e.fresh_n += 1
    return z3.Const('%s!%d' % (name, e.fresh_n), AS)


def new_words(e, st, arr, n, name='words'):
    rid = st.new_region(None, name, 'words')
    r = st.mem[rid]
    r.arr = SymArr(8, n, {0: [8, 'i', arr, 0, B - 1]})
    return rid


BOUND = None        # bounded mode: the largest number of words of an operand


def sel_const(arr, i):
    """word i (a constant) of an array built with constant indices, or None"""
    while True:
        if z3.is_store(arr):
            k = to_poly(arr.arg(1))
            if not k.is_const():
                return None
            if k.cval() == i:
                return to_poly(arr.arg(2))
            arr = arr.arg(0)
        elif is_fn(arr, 'Up'):
            k = to_poly(arr.arg(1))
            if not k.is_const():
                return None
            arr = arr.arg(0) if i < k.cval() else arr.arg(2)
        elif z3.is_const_array(arr):
            return to_poly(arr.arg(0))
        else:
            return Poly.var(z3.Select(arr, z3.IntVal(i)))


def vterm(arr, n):
    if n.is_const() and n.cval() == 0:
        return Poly.const(0)
    if BOUND and n.is_const():
        t = Poly.const(0)
        for i in range(n.cval()):
            x = sel_const(arr, i)
            if x is None:
                break
            t = t + x * (B ** i)
        else:
            return t
    return Poly.var(V(arr, n.z3()))


def pterm(n):
    if n.is_const() and n.cval() >= 0:
        return Poly.const(B ** n.cval())
    return Poly.var(P(n.z3()))


def words_of(e, st, p, moved_ok=False):
    r = st.mem.get(p.rid)
    if r is None or p.rid == 0:
        raise Unsupported('integer through %r' % (p,))
    if r.kind == 'freed':
        e.fail(st, 'use after free of ' + str(r.name))
    if not isinstance(p.off, int):
        raise Unsupported('integer at a symbolic offset')
    c = r.cells.get(p.off)
    if c is None:
        e.fail(st, 'use of an unconstructed integer')
        return None
    if c[1] == 'moved':
        e.fail(st, 'use of a moved-from integer')
        return None
    if not isinstance(c[1], WH):
        raise Unsupported('not an integer: %r' % (c,))
    return c[1].rid


def region(e, st, p):
    rid = words_of(e, st, p)
    if rid is None:
        raise Unsupported('integer not available')
    return st.mem[rid]


def aval(e, st, p):
    a = region(e, st, p).arr
    return a.fields[0][2], a.n


def setw(e, st, p, arr, n, name='words', free_old=True):
    r = st.wr(p.rid)
    if r.kind == 'freed':
        e.fail(st, 'use after free of ' + str(r.name))
    old = r.cells.get(p.off)
    if old is not None and isinstance(old[1], WH) and free_old:
        st.wr(old[1].rid).kind = 'freed'
    e.put(r, p.off, 24, WH(new_words(e, st, arr, n, name)))


def sign_bit(e, st, arr, n):
    """0 or 1; splits the path when undecided"""
    top = sel(e, st, arr, n - 1)
    c = cmp0(top - H, '>=')
    if not isinstance(c, bool):
        d = e.quick(st, c)
        if d is None:
            d = e.decide(st, c)
            if d is None:
                raise Split(c)
            if d == 'dead':
                d = True
        c = d
    return 1 if c else 0


def value(e, st, arr, n):
    return vterm(arr, n) - pterm(n) * sign_bit(e, st, arr, n)


def canonical_formula(arr, n):
    """every word count n: the top word cannot be dropped"""
    hi, lo = z3.Select(arr, (n - 1).z3()), z3.Select(arr, (n - 2).z3())
    return z3.Or(tobool(cmp0(n - 1, '==')),
                 z3.And(hi >= 0, hi < B, lo >= 0, lo < B, z3.Not(z3.And(hi == 0, lo < H)), z3.Not(z3.And(hi == B - 1, lo >= H))))


def make_sym(e, st, name, canonical=True):
    n = e.fresh('n_' + name)
    st.assume(n >= 1)
    st.assume(n <= NMAX)
    arr = fresh_arr(e, 'a_' + name)
    n = Poly.var(n)
    if canonical:
        st.assume(canonical_formula(arr, n))
    return arr, n


def bounded_make(e, st, a, z, k, canonical, last=False):
    """an operand of exactly k words"""
    arr = fresh_arr(e, 'a_in')
    for i in range(k):
        t = z3.Select(arr, z3.IntVal(i))
        st.assume(t >= 0)
        st.assume(t <= B - 1)
    n = Poly.const(k)
    if canonical:
        st.assume(canonical_formula(arr, n))
    setw(e, st, a[0], arr, n)
    c = cmp0(Poly.var(z3.Select(arr, z3.IntVal(k - 1))) - H, '>=')
    s2 = st.fork()
    s2.assume(c)
    s2.assume(cmp0(z, '<'))
    s2.assume(cmp0(vterm(arr, n) - pterm(n) - z, '=='))
    e.push(s2)
    st.assume(Not(c))
    st.assume(cmp0(z, '>='))
    st.assume(cmp0(vterm(arr, n) - z, '=='))
    if not last:
        e.push(st)


def make_words():
    C = Contracts()
    W = 'walnut::BigIntWords::'
    WT = 'walnut::BigIntWords'

    def num(e, st, v):
        return e.unsigned(st, v)[0]

    def ctor0(e, st, a, dst):
        setw(e, st, a[0], z3.Store(fresh_arr(e, 'w'), z3.IntVal(0), z3.IntVal(0)), Poly.const(1), free_old=False)
    C.add(W + 'BigIntWords()', ctor0)

    def ctor_int(e, st, a, dst):
        n = e.signed(st, a[1])[0]
        e.require(st, cmp0(n - 1, '>='), 'BigIntWords has at least one word')
        setw(e, st, a[0], z3.Store(fresh_arr(e, 'w'), z3.IntVal(0), z3.IntVal(0)), n, free_old=False)
    C.add(W + 'BigIntWords(int)', ctor_int)

    def copy(e, st, a, dst):
        arr, n = aval(e, st, a[1])
        setw(e, st, a[0], Up(arr, n.z3(), fresh_arr(e, 'w')), n, free_old=False)
    C.add(W + 'BigIntWords(%s const&)' % WT, copy)

    def copyn(e, st, a, dst):
        arr, n = aval(e, st, a[1])
        k = num(e, st, a[2])
        e.require(st, cmp0(k - 1, '>='), 'BigIntWords has at least one word')
        e.require(st, cmp0(k - n, '<='), 'copied words exist')
        setw(e, st, a[0], Up(arr, k.z3(), fresh_arr(e, 'w')), k, free_old=False)
    C.add(W + 'BigIntWords(%s const&, unsigned long)' % WT, copyn)

    def ext(e, st, a, dst):
        used, cp = num(e, st, a[1]), num(e, st, a[2])
        arr, n = aval(e, st, a[3])
        e.require(st, cmp0(cp - 1, '>='), 'BigIntWords has at least one word')
        e.require(st, And(cmp0(cp - n, '<='), cmp0(cp - used, '<=')), 'copied words exist')
        setw(e, st, a[0], Up(arr, cp.z3(), z3.K(z3.IntSort(), z3.IntVal(0))), used, free_old=False)
    C.add(W + 'BigIntWords(unsigned long, unsigned long, %s const&)' % WT, ext)

    def mark_moved(e, st, p):
        r = st.wr(p.rid)
        e.put(r, p.off, 24, 'moved')

    def move(e, st, a, dst):
        rid = words_of(e, st, a[1])
        e.put(st.wr(a[0].rid), a[0].off, 24, WH(rid))
        mark_moved(e, st, a[1])
    C.add(W + 'BigIntWords(%s&&)' % WT, move)

    def dtor(e, st, a, dst):
        r = st.wr(a[0].rid)
        c = r.cells.get(a[0].off)
        if c is not None and isinstance(c[1], WH):
            st.wr(c[1].rid).kind = 'freed'
        if c is not None:
            del r.cells[a[0].off]
    C.add(W + '~BigIntWords()', dtor)

    def size(d):
        def h(e, st, a, dst):
            arr, n = aval(e, st, a[0])
            n = n - d
            e.ret(st, dst, const(64, n.cval()) if n.is_const() else IV(64, n, 1 - d, NMAX * 4))
        return h
    C.add(W + 'size() const', size(0))
    C.add(W + 'extra_size() const', size(1))

    def first(e, st, a, dst):
        e.ret(st, dst, Ptr(words_of(e, st, a[0]), 0))
    C.add(W + 'first() const', first)
    C.add(W + 'first()', first)

    def index(e, st, a, dst):
        rid = words_of(e, st, a[0])
        i = num(e, st, a[1])
        n = st.mem[rid].arr.n
        e.require(st, And(cmp0(i, '>='), cmp0(i - n, '<')), 'word index in range')
        off = i * 8
        e.ret(st, dst, Ptr(rid, off.cval() if off.is_const() else off))
    C.add(W + 'operator[](unsigned long) const', index)
    C.add(W + 'operator[](unsigned long)', index)

    def grow(e, st, p, k, fill=None):
        arr, n = aval(e, st, p)
        e.require(st, cmp0(k - 1, '>='), 'BigIntWords has at least one word')
        c = cmp0(k - n, '<=')
        if not isinstance(c, bool):
            c = e.decide(st, c)
        if c is not True:
            arr = Up(arr, n.z3(), fill if fill is not None else fresh_arr(e, 'w'))
        setw(e, st, p, arr, k)

    C.add(W + 'resize(unsigned long)', lambda e, st, a, dst: grow(e, st, a[0], num(e, st, a[1])))

    def resize_init(e, st, a, dst):
        # the container only grows in this form
        arr, n = aval(e, st, a[0])
        k = num(e, st, a[1])
        v = num(e, st, a[2])
        c = cmp0(k - n, '>=')
        if not isinstance(c, bool):
            d = e.decide(st, c)
            if d is None:
                raise Split(c)
            c = d
        if c:
            grow(e, st, a[0], k, z3.K(z3.IntSort(), abs_term(v)))
    C.add(W + 'resize(unsigned long, walnut::BigUIntWord)', resize_init)

    def rwc(e, st, a, dst):
        k = num(e, st, a[1])
        e.require(st, cmp0(k - 1, '>='), 'BigIntWords has at least one word')
        setw(e, st, a[0], fresh_arr(e, 'w'), k)
    C.add(W + 'resize_without_copy(unsigned long)', rwc)

    def push(e, st, a, dst):
        v = num(e, st, a[1])
        arr, n = aval(e, st, a[0])
        setw(e, st, a[0], z3.Store(Up(arr, n.z3(), fresh_arr(e, 'w')), n.z3(), abs_term(v)), n + 1)
    C.add(W + 'push_back(walnut::BigUIntWord)', push)

    def assign(e, st, a, dst):
        arr, n = aval(e, st, a[1])
        k = num(e, st, a[2])
        e.require(st, And(cmp0(k - 1, '>='), cmp0(k - n, '<=')), 'assigned words exist')
        if isinstance(st.mem[a[0].rid].cells.get(a[0].off, (0, 0))[1], WH) and \
                st.mem[a[0].rid].cells[a[0].off][1].rid == words_of(e, st, a[1]):
            # self assignment of all words keeps them; of fewer it truncates
            grow(e, st, a[0], k)
            return
        setw(e, st, a[0], Up(arr, k.z3(), fresh_arr(e, 'w')), k)
    C.add(W + 'Assign(%s const&, unsigned long)' % WT, assign)

    def opassign(e, st, a, dst):
        arr, n = aval(e, st, a[1])
        if a[0].rid == a[1].rid and a[0].off == a[1].off:
            e.ret(st, dst, a[0])
            return
        setw(e, st, a[0], Up(arr, n.z3(), fresh_arr(e, 'w')), n)
        e.ret(st, dst, a[0])
    C.add(W + 'operator=(%s const&)' % WT, opassign)

    # ---- the specification's reading of an integer
    def zmaker(canonical):
        def zmake(e, st, a, dst):
            z = zof(e, st, a[1])
            if BOUND:
                for k in range(BOUND, 1, -1):
                    s2 = st.fork()
                    bounded_make(e, s2, a, z, k, canonical)
                return bounded_make(e, st, a, z, 1, canonical, last=True)
            arr, n = make_sym(e, st, 'in', canonical=canonical)
            setw(e, st, a[0], arr, n)
            st.assume(z3.Select(arr, (n - 1).z3()) >= 0)
            st.assume(z3.Select(arr, (n - 1).z3()) <= B - 1)
            c = cmp0(Poly.var(z3.Select(arr, (n - 1).z3())) - H, '>=')
            s2 = st.fork()
            s2.assume(c)
            # the sign of z follows from V < P
            s2.assume(cmp0(z, '<'))
            s2.assume(cmp0(vterm(arr, n) - pterm(n) - z, '=='))
            e.push(s2)
            st.assume(Not(c))
            st.assume(cmp0(z, '>='))
            st.assume(cmp0(vterm(arr, n) - z, '=='))
        return zmake
    C.add('vpz_make', zmaker(True))
    C.add('vpz_make_raw', zmaker(False))

    def zofp(e, st, a, dst):
        arr, n = aval(e, st, a[0])
        e.ret(st, dst, ZV(value(e, st, arr, n)))
    C.add('vpz_of', zofp)

    def canon(e, st, a, dst):
        arr, n = aval(e, st, a[0])
        if arr.num_args() == 0:
            return e.ret(st, dst, canonical_formula(arr, n))
        c = cmp0(n - 1, '==')
        if not isinstance(c, bool):
            d = e.decide(st, c)
            if d is None:
                raise Split(c)
            c = d
        if c:
            return e.ret(st, dst, True)
        hi, lo = sel(e, st, arr, n - 1), sel(e, st, arr, n - 2)
        bad = Or(And(cmp0(hi, '=='), cmp0(lo - H, '<')), And(cmp0(hi - (B - 1), '=='), cmp0(lo - H, '>=')))
        e.ret(st, dst, Not(bad))
    C.add('vpz_canonical', canon)

    def used(e, st, a, dst):
        arr, n = aval(e, st, a[0])
        e.ret(st, dst, ZV(n))
    C.add('vpz_words', used)

    def pow2(e, st, a, dst):
        k = e.unsigned(st, a[0])[0]
        if k.is_const():
            return e.ret(st, dst, ZV(Poly.const(1 << k.cval())))
        raise Unsupported('symbolic power of two')
    C.add('vpz_pow2', pow2)

    # pow2 of 64*q + s, s concrete
    def pow2w(e, st, a, dst):
        q = e.unsigned(st, a[0])[0]
        s = e.unsigned(st, a[1])[0]
        if not s.is_const():
            raise Unsupported('symbolic power of two')
        e.ret(st, dst, ZV(pterm(q) * (1 << s.cval())))
    C.add('vpz_pow2w', pow2w)
    return C


def fresh_value(e, st, p, val, sbit, canonical=True, nmax=None, name='res'):
    """the integer at p becomes a fresh canonical array with the given value and
    sign bit (contract of a function whose body is verified elsewhere)"""
    arr, n = make_sym(e, st, name, canonical=canonical)
    if nmax is not None:
        st.assume(cmp0(n - nmax, '<='))
    top = Poly.var(z3.Select(arr, (n - 1).z3()))
    st.assume(cmp0(top, '>='))
    st.assume(cmp0(top - (B - 1), '<='))
    c = cmp0(top - H, '>=')
    st.assume(c if sbit else Not(c))
    st.assume(cmp0(vterm(arr, n) - pterm(n) * sbit - val, '=='))
    setw(e, st, p, arr, n)


def make_trim():
    """contract of BigInt::Trim, proved by harness trim in a01.cc"""
    C = Contracts()

    def trim(e, st, a, dst):
        arr, n = aval(e, st, a[0])
        s = sign_bit(e, st, arr, n)
        v = vterm(arr, n) - pterm(n) * s
        fresh_value(e, st, a[0], v, s, nmax=n, name='trim')
    C.add('walnut::BigInt::Trim()', trim)
    return C


def fresh_signed(e, st, p, val, name='res'):
    """the integer at p becomes a canonical array whose value is val"""
    s2 = st.fork()
    s2.assume(cmp0(val, '<'))
    fresh_value(e, s2, p, val, 1, name=name)
    e.push(s2)
    st.assume(cmp0(val, '>='))
    fresh_value(e, st, p, val, 0, name=name)


def make_arith(which):
    """contracts of the arithmetic of BigInt that harnesses a01/a02 prove: exact
    value, canonical representation, operands unchanged"""
    C = Contracts()
    BI = 'walnut::BigInt const&'

    def val(e, st, p):
        return value(e, st, *aval(e, st, p))
    ops = {'Add': lambda x, y: x + y, 'Subtract': lambda x, y: x - y, 'Multiply': lambda x, y: x * y}
    for nm, f in ops.items():
        if nm not in which:
            continue

        def h(e, st, a, dst, f=f, nm=nm):
            v = f(val(e, st, a[1]), val(e, st, a[2]))
            fresh_signed(e, st, a[0], v, name=nm.lower())
        C.add('walnut::BigInt::%s(%s) const' % (nm, BI), h)
    for o, f in (('+', ops['Add']), ('-', ops['Subtract'])):
        if o + '=' not in which:
            continue

        def h(e, st, a, dst, f=f):
            v = f(val(e, st, a[0]), val(e, st, a[1]))
            s2 = st.fork()
            s2.assume(cmp0(v, '<'))
            fresh_value(e, s2, a[0], v, 1)
            e.ret(s2, dst, a[0])
            e.push(s2)
            st.assume(cmp0(v, '>='))
            fresh_value(e, st, a[0], v, 0)
            e.ret(st, dst, a[0])
        C.add('walnut::BigInt::operator%s=(%s)' % (o, BI), h)
    return C


# ------------------------------------------------------------ raw containers
HEAD = 8            # the capacity precedes the extra words


def make_container(bound=None):
    """storage of BigIntWords as it is: one inline word, a count and a pointer
    behind a capacity to further words; used to prove the bodies of BigIntWords"""
    C = Contracts()

    def words_region(e, st, n, name):
        rid = st.new_region(None, name, 'heap')
        st.mem[rid].arr = SymArr(8, n, {0: [8, 'i', fresh_arr(e, 'x'), 0, B - 1]}, HEAD)
        return rid

    def malloc(e, st, a, dst):
        k = e.unsigned(st, a[0])[0]
        if any(c % 8 for c in k.m.values()):
            raise Unsupported('allocation of a fraction of a word')
        n = Poly({m: c // 8 for m, c in k.m.items()}) - 1
        e.require(st, cmp0(n, '>='), 'room for the capacity in an allocation')
        e.ret(st, dst, Ptr(words_region(e, st, n, 'extra words'), 0))
    C.add('malloc', malloc)

    def size(e, st, a, dst):
        """any number of words"""
        if bound:
            for k in range(1, bound):
                s2 = st.fork()
                e.ret(s2, dst, const(64, k))
                e.push(s2)
            return e.ret(st, dst, const(64, bound))
        e.ret(st, dst, e.fresh_iv(st, 64, cstr(e, st, a[0]), 1, NMAX))
    C.add('vpw_size', size)

    def ghost(e, st, a, dst):
        e.ghost_k = e.unsigned(st, a[0])[0] - 1
    C.add('vpw_watch', ghost)

    def make(e, st, a, dst):
        """any container that satisfies the class invariant"""
        p = a[0]

        def common(s):
            e.put(s.wr(p.rid), p.off, 8, e.fresh_iv(s, 64, 'first'))
        s2 = st.fork()
        common(s2)
        rr = s2.wr(p.rid)
        e.put(rr, p.off + 8, 8, const(64, 0))
        e.put(rr, p.off + 16, 8, Ptr(0, 0))
        e.push(s2)

        def build(s, cap, n):
            common(s)
            rid = words_region(e, s, cap, 'extra words of an operand')
            s.wr(rid).cells[0] = (8, IV(64, cap, 0, NMAX) if not cap.is_const() else const(64, cap.cval()))
            rr = s.wr(p.rid)
            e.put(rr, p.off + 8, 8, IV(64, n, 0, NMAX) if not n.is_const() else const(64, n.cval()))
            e.put(rr, p.off + 16, 8, Ptr(rid, HEAD))
        if bound:
            todo = [(c, k) for c in range(1, bound + 1) for k in range(c + 1)]
            for c, k in todo[1:]:
                s2 = st.fork()
                build(s2, Poly.const(c), Poly.const(k))
                e.push(s2)
            return build(st, Poly.const(todo[0][0]), Poly.const(todo[0][1]))
        cap, n = Poly.var(e.fresh('cap')), Poly.var(e.fresh('n_extra'))
        st.assume(cmp0(cap - 1, '>='))
        st.assume(cmp0(cap - NMAX, '<='))
        st.assume(cmp0(n, '>='))
        st.assume(cmp0(n - cap, '<='))
        build(st, cap, n)
    C.add('vpw_make', make)

    def valid(e, st, a, dst):
        """the class invariant: the extra words are in storage that this object
        alone owns, and there is room for them"""
        r = st.mem[a[0].rid]
        o = a[0].off
        x, n = r.cells[o + 16][1], e.unsigned(st, r.cells[o + 8][1])[0]
        if x.rid == 0:
            return e.ret(st, dst, cmp0(n, '=='))
        h = st.mem.get(x.rid)
        if h is None or h.kind != 'heap' or h.arr is None or not (isinstance(x.off, int) and x.off == HEAD) or 0 not in h.cells:
            return e.ret(st, dst, False)
        for rid, rr in st.mem.items():
            for off, (s, v) in rr.cells.items():
                if isinstance(v, Ptr) and v.rid == x.rid and (rid, off) != (a[0].rid, o + 16) and rr.name in OWNERS:
                    return e.ret(st, dst, False)
        cap = e.unsigned(st, h.cells[0][1])[0]
        e.ret(st, dst, And(And(cmp0(n - cap, '<='), cmp0(cap - h.arr.n, '==')), cmp0(n, '>=')))
    C.add('vpw_valid', valid)
    return C


OWNERS = ('%w1', '%w2', '%w3')
