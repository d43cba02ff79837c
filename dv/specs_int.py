"""Loop invariants for the functions of walnut::BigInt.

Keyed by (function, loop ordinal).  V(A,i) is the value of the first i words of
array A, P(i) = 2^(64 i)."""
from .poly import Poly, cmp0
from .loops import Loop, SpecError

V, P = Loop.V, Loop.P
BI = 'walnut::BigInt::'
SPECS = {}


def spec(*fns, n=0):
    def d(f):
        for x in fns:
            SPECS[(x, n)] = f
        return f
    return d


def lt(L, a, b):
    return L.decide(cmp0(a - b, '<'))


def contrib(L, a, n, s, i):
    """value of the first i words of the sign-extended array"""
    if L.decide(cmp0(i - n, '<=')):
        return V(a, i)
    return V(a, n) + (P(i) - P(n)) * s


def addsub(op, inplace):
    """common loop shape of Add / Subtract / += / -="""
    def loop(k):
        def f(L):
            i, c = L.u('i'), L.bit('carry')
            (A, na), (Bb, nb) = L.w0('this'), L.w0('other')
            R, nr = L.w('this' if inplace else 'agg.result')
            m = na if L.decide(cmp0(na - nb, '<=')) else nb
            x = nb if m is na else na
            L.eq('result has one more word than the longer operand', nr, x + 1)
            sa, sb = L.sign0('this'), L.sign0('other')
            if k == 0:
                L.le('index', i, m)
                va, vb = V(A, i), V(Bb, i)
            elif k == 1:
                L.le('index lower', m, i)
                L.le('index', i, x if x is na else m)
                va = V(A, i)
                vb = V(Bb, i) if x is nb else V(Bb, nb) + (P(i) - P(nb)) * sb
            else:
                L.le('index lower', na, i)
                L.le('index', i, x)
                if x is na:
                    L.eq('index is final', i, x)
                    va = V(A, i)
                    vb = V(Bb, nb) + (P(i) - P(nb)) * sb
                else:
                    va = V(A, na) + (P(i) - P(na)) * sa
                    vb = V(Bb, i)
            if op == '+':
                L.eq('partial sum', V(R, i) + P(i) * c, va + vb)
            else:
                L.eq('partial difference', V(R, i) - P(i) * c, va - vb)
            if inplace:
                L.below('this', i)
            L.variant(x - i)
        return f
    return loop


CR = '(walnut::BigInt const&)'
for _fn, _op, _in in ((BI + 'Add' + CR + ' const', '+', False), (BI + 'Subtract' + CR + ' const', '-', False),
                      (BI + 'operator+=' + CR, '+', True), (BI + 'operator-=' + CR, '-', True)):
    for _k in range(3):
        SPECS[(_fn, _k)] = addsub(_op, _in)(_k)


@spec(BI + 'Negate()')
def negate(L):
    i, c = L.u('i'), L.bit('carry')
    A, n = L.w0('this')
    R, nr = L.w('this')
    L.le('index', i, n)
    L.eq('same number of words', nr, n)
    L.eq('partial complement', V(R, i) + P(i) * c, P(i) - V(A, i))
    L.below('this', i)
    L.variant(n - i)


@spec(BI + 'operator++()')
def incr(L):
    i = L.u('i')
    A, n = L.w0('this')
    R, nr = L.w('this')
    L.le('index', i, n - 1)
    L.eq('same number of words', nr, n)
    L.eq('every lower word was all ones', V(A, i), P(i) - 1)
    L.eq('every lower word became zero', V(R, i), Poly.const(0))
    L.below('this', i)
    L.variant(n - i)


@spec(BI + 'operator--()')
def decr(L):
    i = L.u('i')
    A, n = L.w0('this')
    R, nr = L.w('this')
    L.le('index', i, n - 1)
    L.eq('same number of words', nr, n)
    L.eq('every lower word was zero', V(A, i), Poly.const(0))
    L.eq('every lower word became all ones', V(R, i), P(i) - 1)
    L.below('this', i)
    L.variant(n - i)


@spec(BI + 'Trim()')
def trim(L):
    i = L.u('i')
    A, n0 = L.w0('this')
    R, n = L.w('this')
    s = L.sign0('this')
    L.le('index', Poly.const(1), i)
    L.eq('index is the last word', n, i + 1)
    L.le('only shrinks', n, n0)
    L.eq('check is the last word', L.u('check'), L.sel(R, i))
    sr = 1 if L.decide(cmp0(L.sel(R, i) - (1 << 63), '>=')) else 0
    L.eq('sign kept', Poly.const(s), Poly.const(sr))
    L.eq('value kept', V(R, n) - P(n) * s, V(A, n0) - P(n0) * s)
    L.variant(i)


MS = BI + 'MultiplySlow' + CR + ' const'


@spec(MS, n=0)
def mul0(L):
    i, k, add = L.u('i'), L.u('k'), L.mem('add')
    (A, na), (Bb, nb) = L.w0('this'), L.w0('other')
    R, nr = L.w('agg.result')
    L.eq('room for the product', nr, na + nb)
    L.le('index', i, na)
    L.eq('both indices advance together', i, k)
    L.eq('partial product of the lowest word', V(R, i) + add * P(i), L.sel(Bb, Poly.const(0)) * V(A, i))
    L.variant(na - i)


@spec(MS, n=1)
def mul1(L):
    j, k = L.u('j'), L.u('k')
    (A, na), (Bb, nb) = L.w0('this'), L.w0('other')
    R, nr = L.w('agg.result')
    L.eq('room for the product', nr, na + nb)
    L.le('index', j, nb)
    L.le('index positive', Poly.const(1), j)
    L.eq('k is the last written word', k + 1, na + j)
    L.eq('partial product', V(R, na + j), V(A, na) * V(Bb, j))
    L.variant(nb - j)


@spec(MS, n=2)
def mul2(L):
    i, j, k, add, c = L.u('i'), L.u('j'), L.u('k'), L.mem('add'), L.bit('carry')
    (A, na), (Bb, nb) = L.w0('this'), L.w0('other')
    R, nr = L.w('agg.result')
    R0, _ = L.we('agg.result')
    L.eq('room for the product', nr, na + nb)
    L.le('index', i, na)
    L.eq('both indices advance together', j + i, k)
    L.eq('partial row', V(R, k) + (add + c) * P(k), V(R0, k) + L.sel(Bb, j) * V(A, i) * P(j))
    L.below('agg.result', k)
    L.variant(na - i)


@spec(BI + 'SubtractLeftShiftedMasked(walnut::BigInt const&, unsigned long, long)')
def sublsm(L):
    i, j, c = L.u('i'), L.u('j'), L.bit('carry')
    sh = L.u('shift_left_words')
    m = 0 if L.decide(cmp0(L.u('mask'), '==')) else 1
    if m:
        L.eq('mask is 0 or all ones', L.u('mask'), Poly.const((1 << 64) - 1))
    (A, na), (Bb, nb) = L.w0('this'), L.w0('other')
    R, nr = L.w('this')
    L.eq('length kept', nr, na)
    L.le('index', i, nb)
    L.eq('both indices advance together', j, i + sh)
    L.eq('partial difference', V(R, j) - P(j) * c, V(A, j) - V(Bb, i) * P(sh) * m)
    L.below('this', j)
    L.variant(nb - i)


def compare_loop(L):
    """words above the index are equal; the index may have wrapped below zero"""
    (A, n), (Bb, nb) = L.w('this'), L.w('other')
    i = L.u('i')
    L.eq('same number of words', n, nb)
    if L.decide(cmp0(i - n, '>=')):
        L.eq('index wrapped below zero', i, Poly.const((1 << 64) - 1))
        L.eq('all words are equal', V(A, n), V(Bb, n))
        L.eq('the lowest words are equal', L.sel(A, Poly.const(0)), L.sel(Bb, Poly.const(0)))
        L.variant(Poly.const(0))
    else:
        L.eq('words above the index are equal', V(A, n) - V(A, i + 1), V(Bb, n) - V(Bb, i + 1))
        L.variant(i + 1)


def equal_loop(L):
    (A, n), (Bb, nb) = L.w('this'), L.w('other')
    i = L.u('i')
    L.eq('same number of words', n, nb)
    L.le('index', i, n - 1)
    L.eq('words above the index are equal', V(A, n) - V(A, i + 1), V(Bb, n) - V(Bb, i + 1))
    L.variant(i)


for _o in ('==', '!='):
    SPECS[(BI + 'operator%s%s const' % (_o, CR), 0)] = equal_loop
for _o in ('<', '<=', '>', '>='):
    SPECS[(BI + 'operator%s%s const' % (_o, CR), 0)] = compare_loop
SPECS[(BI + 'Compare' + CR + ' const', 0)] = compare_loop
SPECS[(BI + 'LessThan(bool, walnut::BigInt const&) const', 0)] = compare_loop


@spec(BI + 'GetHash() const')
def hash_loop(L):
    i = L.u('i')
    A, n = L.w('this')
    L.le('index', i, n)
    L.variant(n - i)


SHL = BI + 'operator<<(unsigned long) const'


def shift_of(L):
    """words and bits of the shift; the bit part is concrete on every path"""
    q, s = L.e.divmod_const(L.st, L.u('shift'), 64, 0, (1 << 64) - 1)
    s = L.e.implied_const(L.st, s)
    if not s.is_const():
        raise SpecError('bit part of the shift not known')
    return q, s.cval()


@spec(SHL, n=0)
def shl_zero(L):
    i = L.u('i')
    out, s = shift_of(L)
    R, nr = L.w('agg.result')
    A, n = L.w0('this')
    L.le('index', i, out)
    L.eq('room for the shifted words', nr, n + out + (1 if s else 0))
    L.eq('low words are zero', V(R, i), Poly.const(0))
    L.variant(out - i)


SPECS[(SHL, 2)] = shl_zero


@spec(SHL, n=1)
def shl_bits(L):
    i, out = L.u('in'), L.u('out')
    q, s = shift_of(L)
    R, nr = L.w('agg.result')
    A, n = L.w0('this')
    prev = L.mem('prev')
    L.eq('both indices advance together', out, i + q)
    L.le('index', i, n)
    L.eq('room for the shifted words', nr, n + 1 + q)
    if L.decide(cmp0(i, '==')):
        L.eq('no previous word', prev, Poly.const(0))
        hi = Poly.const(0)
    else:
        L.eq('previous word', prev, L.sel(A, i - 1))
        hi = L.e.divmod_const(L.st, prev, 1 << (64 - s), 0, (1 << 64) - 1)[0]
    L.eq('shifted words so far', V(R, out), (V(A, i) * (1 << s) - hi * P(i)) * P(q))
    L.variant(n - i)


@spec(SHL, n=3)
def shl_words(L):
    i, out = L.u('in'), L.u('out')
    R, nr = L.w('agg.result')
    A, n = L.w0('this')
    q, s = shift_of(L)
    L.eq('both indices advance together', out, i + q)
    L.le('index', i, n)
    L.eq('room for the shifted words', nr, n + q)
    L.eq('shifted words so far', V(R, out), V(A, i) * P(q))
    L.variant(n - i)


@spec(BI + 'max_value(unsigned long)', n=0)
def maxv(L):
    i = L.u('i')
    R, nr = L.w('agg.result')
    L.le('index', i, nr - 1)
    L.eq('low words are all ones', V(R, i), P(i) - 1)
    L.variant(nr - i)


@spec(BI + 'min_value(unsigned long)', n=0)
def minv(L):
    i = L.u('i')
    R, nr = L.w('agg.result')
    L.le('index', i, nr - 1)
    L.eq('low words are zero', V(R, i), Poly.const(0))
    L.variant(nr - i)


# ------------------------------------------------------------ BigIntWords
# Every loop copies or fills words upwards from index 0; the watched index k of
# the harness is arbitrary, so what is stated of word k holds of every word.
BW = 'walnut::BigIntWords::'


def k_of(L):
    k = getattr(L.e, 'ghost_k', None)
    if k is None:
        raise SpecError('no watched index')
    return k


def copied(L, i, bound, dst, dst0, src0):
    k = k_of(L)
    L.le('index', i, bound)
    if dst is not None:
        if lt(L, k, i):
            L.watched('word copied', dst, src0)
        elif dst0 is not None:
            L.watched('word not yet touched', dst, dst0)
    L.variant(bound - i)


def copy_loop(src, bound):
    def f(L):
        copied(L, L.u('i'), bound(L), L.extra('this'), L.extra('this', L.saved['mem']), L.extra(src, L.saved['mem']))
    return f


WC = 'walnut::BigIntWords const&'
SPECS[(BW + 'BigIntWords(%s)' % WC, 0)] = copy_loop('other', lambda L: L.count('other'))
SPECS[(BW + 'BigIntWords(%s, unsigned long)' % WC, 0)] = copy_loop('other', lambda L: L.count('this'))
SPECS[(BW + 'Assign(%s, unsigned long)' % WC, 0)] = copy_loop('other', lambda L: L.u('used') - 1)
SPECS[(BW + 'BigIntWords(unsigned long, unsigned long, %s)' % WC, 0)] = copy_loop('from', lambda L: L.u('copy_words') - 1)


@spec(BW + 'BigIntWords(unsigned long, unsigned long, %s)' % WC, n=1)
def extend_fill(L):
    i, k = L.u('i'), k_of(L)
    m, n = L.u('copy_words') - 1, L.count('this')
    D, S = L.extra('this'), L.extra('from', L.saved['mem'])
    L.le('index lower', m, i)
    L.le('index', i, n)
    if D is not None:
        if lt(L, k, m):
            L.watched('word copied', D, S)
        elif lt(L, k, i):
            L.watched('word cleared', D, Poly.const(0))
    L.variant(n - i)


@spec(BW + 'resize(unsigned long)', BW + 'resize(unsigned long, walnut::BigUIntWord)')
def resize_copy(L):
    x = L.field('new_extra') if L.hasptr('new_extra') else L.field('call')
    D, D0 = L.xarr(x, L.st.mem), L.xarr(x, L.saved['mem'])
    copied(L, L.u('i'), L.count('this'), D, D0, L.extra('this', L.saved['mem']))


@spec(BW + 'resize(unsigned long, walnut::BigUIntWord)', n=1)
def resize_fill(L):
    k, i = k_of(L), L.count('this')
    i0 = L.count('this', L.saved['mem'])
    D, D0 = L.extra('this'), L.extra('this', L.saved['mem'])
    n = L.u('used_words') - 1
    L.le('size only grows', i0, i)
    if lt(L, i0, n):
        L.le('size', i, n)
    else:
        L.eq('size', i, i0)
    if D is not None:
        if lt(L, k, i0):
            L.watched('word kept', D, D0)
        elif lt(L, k, i):
            L.watched('word filled', D, L.u('init'))
    L.variant(n - i)
