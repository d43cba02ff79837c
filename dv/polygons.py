"""Convex polygons with any number of vertices: what is assumed of them, the
contracts of the search functions at their call sites, and the loop invariants.

Polygon and line.  Unrolled position u(i) of vertex i is i - m modulo n for an
unknown m.  Convexity, for the direction of the line's normal, means that there
are 1 <= a <= b < c <= n such that edge u rises for u in [0,a), is level in [a,b),
falls in [b,c) and is level in [c,n).  Hence the vertices are, by position,
    [0,p1) negative, [p1,p2) on the line, [p2,p3) positive, [p3,p4) on the line,
    [p4,n) negative
with the restrictions of `zones` below.  These facts are assumed of a vertex when
it is first read; nothing else is assumed of the coordinates."""
import z3
from .contracts import geometry_contracts
from .engine import IV, Ptr, SymArr, ZV, const, Not, And, Or, tobool, Unsupported, Split
from .poly import Poly, cmp0, abs_term

AI = z3.ArraySort(z3.IntSort(), z3.IntSort())
NV = 1 << 40


def iv(p):
    return IV(64, p, 0, NV * 4)


def zones(n, mode):
    m, a, b, c, p1, p2, p3, p4, q, q2 = z3.Ints('m a b c p1 p2 p3 p4 q q2')
    f = [m >= 0, m < n, 1 <= a, a <= b, b < c, c <= n]
    both = z3.And(1 <= p1, p1 <= p2, p2 <= p1 + 1, p2 <= a, b < p3, p3 <= p4, p4 <= p3 + 1, p4 <= c)
    touch_min = z3.And(p1 == 0, p2 == 1, p3 == c, p4 == n)
    above = z3.And(p1 == 0, p2 == 0, p3 == n, p4 == n)
    touch_max = z3.And(p1 == a, p2 == b + 1, p3 == p2, p4 == p2)
    below = z3.And(p1 == n, p2 == n, p3 == n, p4 == n)
    f.append(z3.Or(both, touch_min, above, touch_max, below))
    if mode & 1:
        # first position from which a vertex is not higher (lower) than vertex 0
        f += [b < q, q <= c, 1 <= q2, q2 <= a]
    return dict(m=m, a=a, b=b, c=c, p1=p1, p2=p2, p3=p3, p4=p4, q=q, q2=q2), f


class G:
    """the polygon of the harness (there is one)"""

    def __init__(self):
        pass


def pos_of(e, st, i):
    """position u of vertex index i (a polynomial)"""
    g = e.poly
    k = ('pos', i.key())
    r = st.ghost.get(k)
    if r is None:
        u = e.fresh('u')
        t, m, n = i.z3(), g.z['m'], g.n
        st.assume(z3.And(u >= 0, u < n))
        st.assume(z3.Implies(z3.And(t >= 0, t < n), z3.Or(z3.And(t >= m, u == t - m), z3.And(t < m, u == t - m + n))))
        r = st.ghost[k] = u
    return r


def on(g, u, s, flip=False):
    """vertex position u is on side s"""
    z = g.z
    if flip:
        s = -s
    if s < 0:
        return z3.Or(u < z['p1'], u >= z['p4'])
    if s > 0:
        return z3.And(u >= z['p2'], u < z['p3'])
    return z3.Or(z3.And(z['p1'] <= u, u < z['p2']), z3.And(z['p3'] <= u, u < z['p4']))


def slope(g, u, s, flip=False):
    z = g.z
    if flip:
        s = -s
    if s > 0:
        return u < z['a']
    if s < 0:
        return z3.And(z['b'] <= u, u < z['c'])
    return z3.Or(z3.And(z['a'] <= u, u < z['b']), z['c'] <= u)


def sgn_iff(p, pos, neg):
    """p > 0 iff pos, p < 0 iff neg"""
    return [tobool(cmp0(p, '>')) == pos, tobool(cmp0(p, '<')) == neg]


def field(g, st, k, i):
    a = st.mem[g.rid].arr
    return Poly.var(z3.Select(a.fields[g.off[k]][2], i.z3()))


def facts(e, st, rid, i):
    """what is known of vertex and edge i"""
    g = e.poly
    k = ('facts', i.key())
    if k in st.ghost:
        return st.ghost[k]
    if g.mode & 2:
        # one name for an index that is known to be another one
        for j in st.ghost.get('indices', ()):
            c = cmp0(i - j, '!=')
            if c is False or (c is not True and not e.solver.feasible(st.pc, c)):
                st.ghost[k] = j
                return j
        st.ghost['indices'] = st.ghost.get('indices', ()) + (i,)
    st.ghost[k] = i
    t = i.z3()
    W = field(g, st, 3, i)
    st.assume(cmp0(W, '!='))
    if g.mode & 2:
        for s, ranges in st.ghost.get('ranges', []):
            member(e, st, s, ranges, i)
        return i
    u = pos_of(e, st, i)
    d1, d2 = (g.dim + 1) % 3, (g.dim + 2) % 3
    h = g.x * field(g, st, d1, i) + g.y * field(g, st, d2, i)
    s = h - g.d * W
    for w, q in (('>', s), ('<', -s)):
        st.assume(z3.Implies(tobool(cmp0(W, w)), z3.And(sgn_iff(q, on(g, u, 1), on(g, u, -1)))))
    for x in sgn_iff(s * W, on(g, u, 1), on(g, u, -1)):
        st.assume(x)
    r = g.x * field(g, st, 4 + d1, i) + g.y * field(g, st, 4 + d2, i)
    for x in sgn_iff(r, slope(g, u, 1), slope(g, u, -1)):
        st.assume(x)
    if g.mode & 1 and i.key() != Poly.const(0).key():
        o = Poly.const(0)
        facts(e, st, rid, o)
        u0 = pos_of(e, st, o)
        W0 = field(g, st, 3, o)
        h0 = g.x * field(g, st, d1, o) + g.y * field(g, st, d2, o)
        K = h * W0 - h0 * W
        up, down = slope(g, u0, 1), slope(g, u0, -1)
        gt = z3.And(u0 < u, u < g.z['q'])
        lt = z3.Or(u0 < u, u < g.z['q2'])
        same = tobool(cmp0(W, '>')) == tobool(cmp0(W0, '>'))
        for c, q in ((same, K), (z3.Not(same), -K)):
            st.assume(z3.Implies(z3.And(c, up), tobool(cmp0(q, '>')) == gt))
            st.assume(z3.Implies(z3.And(c, down), tobool(cmp0(q, '<')) == lt))
    return i


# --------------------------------------------------------------- contracts
def orient(e, st, h):
    """is the line at h the polygon's line (False) or its opposite (True)"""
    g = e.poly
    x, y, d = (e.getz(st, Ptr(h.rid, h.off + o - g.lineoff[0])) for o in g.lineoff)
    if x == g.x and y == g.y and d == g.d:
        return False
    if x == -g.x and y == -g.y and d == -g.d:
        return True
    raise Unsupported('another line')


def orient_v(e, st, v):
    g = e.poly
    x, y = (e.getz(st, Ptr(v.rid, v.off + o - g.lineoff[0])) for o in g.lineoff[:2])
    if x == g.x and y == g.y:
        return False
    if x == -g.x and y == -g.y:
        return True
    raise Unsupported('another direction')


def fresh_index(e, st, name, lim=1):
    t = e.fresh(name)
    st.assume(z3.And(t >= 0, t < lim * e.poly.n))
    return Poly.var(t)


def modn(e, st, i, k=2):
    """i modulo n, if 0 <= i < k n"""
    g = e.poly
    r = e.fresh('mod')
    t = i.z3()
    st.assume(z3.And(r >= 0, r < g.n))
    st.assume(z3.Implies(z3.And(t >= 0, t < k * g.n), z3.Or([t == r + j * g.n for j in range(k)])))
    return Poly.var(r)


def prev(e, st, i):
    g = e.poly
    r = e.fresh('prev')
    t = i.z3()
    st.assume(z3.Or(z3.And(t == 0, r == g.n - 1), z3.And(t > 0, r == t - 1)))
    return Poly.var(r)


def nxt(e, st, i):
    g = e.poly
    r = e.fresh('next')
    t = i.z3()
    st.assume(z3.Or(z3.And(t == g.n - 1, r == 0), z3.And(t < g.n - 1, r == t + 1)))
    return Poly.var(r)


def uns(e, st, v):
    return e.unsigned(st, v)[0]


def type_of(e, st, u, flip, dom):
    """fresh int: the side (in dom) of the vertex at position u"""
    g = e.poly
    t = e.fresh('type')
    st.assume(z3.Or([t == s for s in dom]))
    for s in dom:
        st.assume((t == s) == on(g, u, s, flip))
    return IV(32, Poly.var(t), -1, 1)


def search_contracts(C):
    P = 'walnut::ConvexPolygon<walnut::EdgeInfoRoot>::'

    def opposite(e, st, a, dst):
        g = e.poly
        if not a[2].p.is_const() or a[2].p.cval() != g.dim:
            raise Unsupported('another coordinate is dropped')
        f = orient_v(e, st, a[1])
        r = []
        for s in (1, -1):
            i = fresh_index(e, st, 'same' if s > 0 else 'opp')
            st.assume(slope(g, pos_of(e, st, i), s, f))
            r.append(iv(i))
        e.ret(st, dst, r)
    C.add(P + 'GetOppositeEdgeIndicesBisect(walnut::Vector2 const&, int) const', opposite)

    def pos_side(e, st, a, dst, neg=False):
        g = e.poly
        f = orient(e, st, a[1]) != neg
        same, opp = (uns(e, st, x) for x in a[3:5])
        if neg:
            same, opp = opp, same
        for x, s in ((same, 1), (opp, -1)):
            e.require(st, And(cmp0(x - Poly.var(g.n), '<'), True), 'precondition: edge index')
            e.require(st, slope(g, pos_of(e, st, x), s, f), 'precondition: edge direction')
        i = fresh_index(e, st, 'side', 2)
        j = modn(e, st, i)
        u = pos_of(e, st, j)
        t = type_of(e, st, u, f, (-1, 0, 1))
        # without a vertex on the positive side: the first of the closest ones,
        # and the index is reduced
        first = z3.And(slope(g, pos_of(e, st, prev(e, st, j)), 1, f), z3.Not(slope(g, u, 1, f)), i.z3() < g.n)
        st.assume(z3.Or(t.p.z3() > 0, first))
        # it is after one index, up to the other
        x, y, ti = same.z3(), opp.z3(), i.z3()
        st.assume(z3.Or(ti < g.n, z3.And(y < x, ti - g.n <= y)))
        st.assume(z3.Or(ti >= g.n, z3.And(x < ti, z3.Or(ti <= y, y < x)), z3.And(y < x, ti <= y)))
        if neg:
            t = IV(32, -t.p, -1, 1)
        e.ret(st, dst, [t, iv(i)])
    C.add(P + 'GetPosSideVertex(walnut::HalfSpace2 const&, int, unsigned long, unsigned long) const', pos_side)
    C.add(P + 'GetNegSideVertex(walnut::HalfSpace2 const&, int, unsigned long, unsigned long) const',
          lambda e, st, a, dst: pos_side(e, st, a, dst, True))

    def last_neg(e, st, a, dst, flip=False):
        # a: this, line, dim, negative side index, type, positive side index
        g = e.poly
        f = orient(e, st, a[1]) != flip
        neg, pos = uns(e, st, a[3]), uns(e, st, a[5])
        ty = e.signed(st, a[4])[0]
        if flip:
            ty = -ty
        for x in (neg, pos):
            e.require(st, And(cmp0(x, '>='), cmp0(x - Poly.var(g.n) * 2, '<')), 'precondition: index')
        un = pos_of(e, st, modn(e, st, neg))
        up = pos_of(e, st, modn(e, st, pos))
        e.require(st, z3.And([(ty.z3() == s) == on(g, un, s, f) for s in (-1, 0)] + [z3.Or(ty.z3() == -1, ty.z3() == 0)]),
                  'precondition: side of the first index')
        e.require(st, on(g, up, 1, f), 'precondition: side of the second index')
        e.require(st, cmp0(pos + Poly.var(g.n) - neg, '>='), 'precondition: distance of the indices')
        i = fresh_index(e, st, 'last')
        u = pos_of(e, st, i)
        t = type_of(e, st, u, f, (-1, 0))
        st.assume(on(g, pos_of(e, st, nxt(e, st, i)), 1, f))
        if flip:
            t = IV(32, -t.p, 0, 1)
        e.ret(st, dst, [t, iv(i)])
    C.add(P + 'GetLastNegSideVertex(walnut::HalfSpace2 const&, int, unsigned long, int, unsigned long) const', last_neg)
    C.add(P + 'GetLastPosSideVertex(walnut::HalfSpace2 const&, int, unsigned long, unsigned long, int) const',
          lambda e, st, a, dst: last_neg(e, st, a[:3] + [a[4], a[5], a[3]], dst, True))
    return C


# ranges as FindSplitRanges... returns them: the vertices strictly on the sides
def within(r, t, n):
    lo, hi = r
    return z3.Or([z3.And(lo <= t + k * n, t + k * n < hi) for k in range(3)])


def member(e, st, s, r, i):
    """vertex i is in the ranges iff it is strictly on that side of the line"""
    g = e.poly
    x, y, d = s
    W = field(g, st, 3, i)
    d1, d2 = (g.dim + 1) % 3, (g.dim + 2) % 3
    q = x * field(g, st, d1, i) + y * field(g, st, d2, i) - d * W
    neg, pos = (within(t, i.z3(), g.n) for t in r)
    for w, v in (('>', q), ('<', -q)):
        st.assume(z3.Implies(tobool(cmp0(W, w)), z3.And(sgn_iff(v, pos, neg))))
    for v in sgn_iff(q * W, pos, neg):
        st.assume(v)


def ranges_contracts(C):
    P = 'walnut::ConvexPolygon<walnut::EdgeInfoRoot>::'

    def find(e, st, a, dst):
        # a: result, this, line, dim
        g = e.poly
        if not a[3].p.is_const() or a[3].p.cval() != g.dim:
            raise Unsupported('another coordinate is dropped')
        s = tuple(e.getz(st, Ptr(a[2].rid, a[2].off + o - g.lineoff[0])) for o in g.lineoff)
        e.require(st, Or(cmp0(s[0], '!='), cmp0(s[1], '!=')), 'precondition: the line is valid')
        r = [e.fresh(x) for x in ('neg_first', 'neg_second', 'pos_first', 'pos_second')]
        n = g.n
        for x in r:
            st.assume(z3.And(x >= 0, x <= 2 * n))
        for lo, hi in (r[:2], r[2:]):
            st.assume(z3.And(lo <= hi, hi <= lo + n))
        mod = [modn(e, st, Poly.var(x), 3).z3() for x in r]
        two = z3.And(r[0] != r[1], r[2] != r[3])
        for x, y in ((1, 2), (3, 0)):
            st.assume(z3.Implies(two, z3.Or(mod[x] == mod[y], z3.And(mod[x] + 1 == mod[y]), z3.And(mod[x] == n - 1, mod[y] == 0))))
        rr = ((r[0], r[1]), (r[2], r[3]))
        reg = st.wr(a[0].rid)
        for k, x in enumerate(r):
            e.put(reg, a[0].off + 8 * k, 8, iv(Poly.var(x)))
        L = list(st.ghost.get('ranges', []))
        L.append((s, rr))
        st.ghost['ranges'] = L
        for i in st.ghost.get('indices', ()):
            member(e, st, s, rr, i)
    for f in ('Bisect', 'Linear'):
        C.add(P + 'FindSplitRanges%s(walnut::HalfSpace2 const&, int) const' % f, find)
    return C


def make_polygon(bound=None):
    C = geometry_contracts()

    def make(e, st, a, dst):
        g = e.poly = st.ghost['polygon'] = G()
        vec, edge, size, flds = a[:4]
        size = uns(e, st, size).cval()
        g.mode = e.signed(st, a[8])[0].cval()
        g.dim = e.signed(st, a[4])[0].cval()
        g.lineoff = [p.off for p in a[5:8]]
        g.x, g.y, g.d = (e.getz(st, p) for p in a[5:8])
        g.n = z3.Int('n')
        if bound:
            k = bound_choice(e, st, 3, bound)
            st.assume(g.n == k)
        st.assume(g.n >= 3)
        st.assume(g.n <= NV)
        g.off = []
        r = st.mem[flds.rid]
        for k in range(10):
            p = r.cells[flds.off + 8 * k][1]
            g.off.append(p.off - edge.off)
        base, *qs = [r.cells[flds.off + 8 * k][1] for k in range(10, 14)]
        g.pointoff = [p.off - base.off for p in qs]
        names = ('X', 'Y', 'Z', 'W', 'DX', 'DY', 'DZ', 'MX', 'MY', 'MZ')
        g.rid = st.new_region(None, 'edges', 'heap')
        st.mem[g.rid].arr = SymArr(size, Poly.var(g.n), {o: [24, 'z', z3.Const(nm, AI), None, None] for o, nm in zip(g.off, names)})
        st.mem[g.rid].arr.hook = facts
        v = st.wr(vec.rid)
        e.put(v, vec.off, 8, Ptr(g.rid, 0))
        for o in (8, 16):
            e.put(v, vec.off + o, 8, Ptr(g.rid, Poly.var(g.n) * Poly.const(size)))
        g.z, f = zones(g.n, g.mode)
        if not g.mode & 2:
            for x in f:
                st.assume(x)
    C.add('vpp_make', make)

    def index(e, st, a, dst):
        t = e.fresh('index')
        st.assume(z3.And(t >= 0, t < NV))
        e.ret(st, dst, iv(Poly.var(t)))
    C.add('vpp_index', index)

    def compare(e, st, a, dst):
        # verified by the harness line_compare
        g = e.poly
        x, y, d = (e.getz(st, Ptr(a[0].rid, a[0].off + o - g.lineoff[0])) for o in g.lineoff)
        px, py, w = (e.getz(st, Ptr(a[1].rid, a[1].off + o)) for o in g.pointoff)
        e.ret(st, dst, e.sign_value(st, (x * px + y * py - d * w) * w, 32, 'unit'))
    if not bound:
        C.add('walnut::HalfSpace2::Compare(walnut::HomoPoint2 const&) const', compare)
    # destruction of all edges (destroying integers has no effect here)
    C.addrx(r'void std::_Destroy<walnut::AssignableWrapper<walnut::ConvexPolygonEdge<.*', lambda e, st, a, dst: None)
    C.addrx(r'walnut::ConvexPolygon<.*>::IsValidState\(\) const', lambda e, st, a, dst: e.ret(st, dst, const(1, 1)))
    return C


def bound_choice(e, st, lo, hi):
    for k in range(lo, hi):
        c = e.poly.n == k
        d = e.decide(st, c)
        if d is True or d == 'dead':
            return k
        if d is None:
            raise Split(c)
    return hi


# --------------------------------------------------------- loop invariants
CP = 'walnut::ConvexPolygon<walnut::EdgeInfoRoot>::'
SPECS = {}


def spec(name, n=0):
    def d(f):
        SPECS[(CP + name, n)] = f
        return f
    return d


def first_dir(L):
    e, st = L.e, L.st
    return pos_of(e, st, Poly.const(0))


@spec('GetOppositeEdgeIndicesBisect(walnut::Vector2 const&, int) const', 0)
def opp_before(L):
    e, st, g = L.e, L.st, L.e.poly
    b = L.u('before')
    L.le('index', Poly.const(1), b)
    L.le('index below the number of vertices', b, Poly.var(g.n) - 1)
    level_from(L, b + 1, Poly.var(g.n), 'the edges after it are level')
    L.variant(b)


@spec('GetOppositeEdgeIndicesBisect(walnut::Vector2 const&, int) const', 1)
def opp_after(L):
    g = L.e.poly
    a = L.u('after')
    L.le('index', Poly.const(1), a)
    L.le('index below the number of vertices', a, Poly.var(g.n) - 1)
    level_from(L, Poly.const(0), a, 'the edges before it are level')
    L.variant(Poly.var(g.n) - a)


def level_from(L, i, j, label):
    """edges i..j-1 are level; edge 0 is"""
    g = L.e.poly
    u0 = pos_of(L.e, L.st, Poly.const(0))
    z = g.z
    # positions of the run, relative to vertex 0
    ti, tj = i.z3(), j.z3()
    lo, hi = u0 + ti, u0 + tj      # hi exclusive
    n = g.n
    ok = [z3.And(z['a'] <= lo - k * n, hi - k * n <= z['b']) for k in (0, 1)]
    ok += [z3.And(z['c'] <= lo - k * n, hi - k * n <= n) for k in (0, 1)]
    L.inv(label, z3.Or(ti >= tj, *ok))


@spec('GetOppositeEdgeIndicesBisect(walnut::Vector2 const&, int) const', 2)
def opp_bisect(L):
    e, st, g = L.e, L.st, L.e.poly
    lo, hi = L.u('begin'), L.u('end')
    u0 = pos_of(e, st, Poly.const(0))
    L.le('begin', Poly.const(1), lo)
    L.le('end', hi, Poly.var(g.n))
    z, n = g.z, g.n
    up = L.decide(slope(g, u0, 1))
    if up:
        L.inv('the falling edges are in the range', z3.And(lo.z3() <= z['b'] - u0, hi.z3() >= z['c'] - u0))
    else:
        L.inv('edge 0 falls', slope(g, u0, -1))
        L.inv('the rising edges are in the range', z3.And(lo.z3() <= n - u0, hi.z3() >= n - u0 + z['a']))
    L.variant(hi - lo)


def flip_of(L):
    for nm in ('half_space', 'v'):
        p = L.fr.regs.get('%' + nm)
        if isinstance(p, Ptr):
            return orient(L.e, L.st, p) if nm == 'half_space' else orient_v(L.e, L.st, p)
    raise Unsupported('no line')


def idx_mod(e, st, x):
    """x modulo n, split into cases"""
    g = e.poly
    n = Poly.var(g.n)
    for k in range(3):
        c = cmp0(x - n * (k + 1), '<')
        d = e.quick(st, c)
        if d is None:
            d = e.decide(st, c)
        if d is None:
            raise Split(c)
        if d is True or d == 'dead':
            return x - n * k
    raise Unsupported('index out of range')


def extreme(L):
    e, st, g = L.e, L.st, L.e.poly
    f = flip_of(L)
    lo, hi = L.u('begin'), L.u('end')
    z, n = g.z, g.n
    L.le('begin', Poly.const(0), lo)
    L.inv('end below twice the number of vertices', hi.z3() < 2 * n)
    L.inv('range not empty', z3.And(lo.z3() < hi.z3(), hi.z3() - lo.z3() < n))
    u = pos_of(e, st, modn(e, st, lo))
    U = u + (hi - lo).z3()
    if not f:
        L.inv('the first edge rises', slope(g, u, 1))
        L.inv('the highest vertex is in the range', z3.And(z['a'] <= U, U <= z['c']))
    else:
        L.inv('the first edge falls', slope(g, u, -1))
        L.inv('the lowest vertex is in the range', z3.And(z['c'] <= U, U <= n + z['a']))
    L.variant(hi - lo)


@spec('GetPosSideVertex(walnut::HalfSpace2 const&, int, unsigned long, unsigned long) const')
def pos_side_loop(L):
    x, y = (L.e.unsigned(L.st, L.fr.regs['%' + nm])[0].z3() for nm in ('same_dir_index', 'opp_dir_index'))
    lo, hi, n = L.u('begin').z3(), L.u('end').z3(), L.e.poly.n
    L.inv('between the edges', z3.And(x <= lo, z3.Or(z3.And(x < y, hi <= y), z3.And(y < x, hi <= y + n))))
    extreme(L)


spec('GetExtremeIndexBisect(walnut::Vector2 const&, int) const')(extreme)


@spec('GetLastNegSideVertex(walnut::HalfSpace2 const&, int, unsigned long, int, unsigned long) const')
def last_neg_loop(L):
    e, st, g = L.e, L.st, L.e.poly
    f = flip_of(L)
    lo, hi = L.u('begin'), L.u('end')
    t = L.e.signed(st, L.iv('begin_type'))[0]
    z, n = g.z, g.n
    L.le('begin', Poly.const(0), lo)
    L.inv('end bounded', hi.z3() < 3 * n)
    L.inv('range not empty', z3.And(lo.z3() < hi.z3(), hi.z3() - lo.z3() < n))
    u = pos_of(e, st, modn(e, st, lo, 3))
    L.inv('side of begin', z3.And(on(g, u, -1, f) == (t.z3() == -1), on(g, u, 0, f) == (t.z3() == 0), t.z3() <= 0, t.z3() >= -1))
    U = u + (hi - lo).z3()
    # end is in the next run of positive vertices
    if not f:
        L.inv('end is on the positive side', z3.Or(z3.And(u < z['p2'], z['p2'] <= U, U < z['p3']),
                                                   z3.And(u >= z['p3'], n + z['p2'] <= U, U < n + z['p3'])))
    else:
        L.inv('end is on the positive side',
              z3.Or(z3.And(z['p2'] <= u, u < z['p4'], z['p4'] <= U, U < n + z['p1']),
                    z3.And(u < z['p2'], u >= z['p1'], z['p4'] <= U, U < n + z['p1'])))
    L.variant(hi - lo)


def run(L, s, i, j, label):
    """vertices i..j-1 (0 <= i, j <= i + n, i < n) are all on side s"""
    e, st, g = L.e, L.st, L.e.poly
    z, n = g.z, g.n
    u = pos_of(e, st, i)
    U = u + (j - i).z3()
    if s < 0:
        ok = [z['p1'] == n, z3.And(u < z['p1'], U <= z['p1']), z3.And(u >= z['p4'], U <= n + z['p1'])]
    elif s > 0:
        ok = [z3.And(z['p2'] == 0, z['p3'] == n), z3.And(z['p2'] <= u, U <= z['p3'])]
    else:
        ok = [z3.And(z['p1'] <= u, U <= z['p2']), z3.And(z['p3'] <= u, U <= z['p4']),
              z3.And(z['p3'] <= u, z['p4'] == n, z['p1'] == 0, U <= n + z['p2'])]
    L.inv(label, z3.Or(j.z3() <= i.z3(), *ok))


LINEAR = 'FindSplitRangesLinear(walnut::HalfSpace2 const&, int) const'


def cellv(L, name, off):
    p = L.fr.regs['%' + name]
    c = L.st.mem[p.rid].cells.get(p.off + off)
    return uns(L.e, L.st, c[1])


def first_side(L):
    """the side `first_side` points to the range of"""
    ps = [p for k, p in L.fr.regs.items() if k.startswith('%first_side') and isinstance(p, Ptr)]
    if len(ps) != 1 or ps[0].off not in (0, 16):
        raise Unsupported('which side comes first')
    return -1 if ps[0].off == 0 else 1


def result(L, side, k):
    """result.neg_range / pos_range: k 0 first, 1 second"""
    return cellv(L, 'agg.result', (0 if side < 0 else 16) + 8 * k)


def in_bounds(L, i, incl=False):
    g = L.e.poly
    L.le('index', Poly.const(0), i)
    L.le('index below the number of vertices', i, Poly.var(g.n) - (0 if incl else 1))


@spec(LINEAR, 0)
def lin0(L):
    i = L.u('index')
    L.le('index at least 1', Poly.const(1), i)
    in_bounds(L, i)
    run(L, 0, Poly.const(0), i, 'the vertices before it are on the line')
    L.variant(Poly.var(L.e.poly.n) - i)


@spec(LINEAR, 1)
def lin1(L):
    i = L.u('index')
    s = first_side(L)
    f = result(L, s, 0)
    in_bounds(L, i)
    L.le('start', f, i)
    run(L, s, f, i + 1, 'the vertices of the first side')
    L.variant(Poly.var(L.e.poly.n) - i)


@spec(LINEAR, 2)
def lin2(L):
    i = L.u('index')
    s = first_side(L)
    g = result(L, s, 1)
    in_bounds(L, i)
    L.le('start', g, i)
    run(L, 0, g, i + 1, 'the vertices on the line')
    L.variant(Poly.var(L.e.poly.n) - i)


@spec(LINEAR, 3)
def lin3(L):
    i = L.u('index')
    s = -first_side(L)
    f = result(L, s, 0)
    in_bounds(L, i)
    L.le('start', f, i)
    run(L, s, f, i + 1, 'the vertices of the second side')
    L.variant(Poly.var(L.e.poly.n) - i)


@spec(LINEAR, 4)
def lin4(L):
    i = L.u('index')
    s = first_side(L)
    L.le('index at least 1', Poly.const(1), i)
    in_bounds(L, i, True)
    run(L, s, Poly.const(0), i, 'the vertices of the first side')
    L.variant(Poly.var(L.e.poly.n) - i)


@spec(LINEAR, 5)
def lin5(L):
    lin2(L)


@spec(LINEAR, 6)
def lin6(L):
    lin3(L)


@spec(LINEAR, 7)
def lin7(L):
    i = L.u('index')
    s = -first_side(L)
    g = result(L, s, 1)
    c = L.e.signed(L.st, L.iv('compare'))[0]
    in_bounds(L, i)
    L.le('start', g, i)
    run(L, 0, g, i, 'the vertices on the line')
    facts(L.e, L.st, None, i)
    u = pos_of(L.e, L.st, i)
    L.inv('side of the current vertex', z3.And([(c.z3() == k) == on(L.e.poly, u, k) for k in (-1, 0, 1)] + [c.z3() >= -1, c.z3() <= 1]))
    L.inv('not on the second side', z3.Not(on(L.e.poly, u, s)))
    L.variant(Poly.var(L.e.poly.n) - i)


BISECT = 'FindSplitRangesBisect(walnut::HalfSpace2 const&, int) const'


@spec(BISECT, 0)
def skip_pos(L):
    skip(L, -1)


@spec(BISECT, 1)
def skip_neg(L):
    skip(L, 1)


def skip(L, s):
    """do { ++index; } while (on the line): all vertices from the first closest
    one to index are on the line"""
    e, st, g = L.e, L.st, L.e.poly
    i = L.u('index')
    z, n = g.z, g.n
    # the first such vertex is second - n of the range being built
    f = result(L, -1 if s > 0 else 1, 1) - Poly.var(n)
    L.le('index', f, i)
    L.le('index bounded', i, f + Poly.var(n) - 1)
    run(L, 0, f, i + 1, 'the vertices up to the index are on the line')
    L.variant(f + Poly.var(n) - i)
