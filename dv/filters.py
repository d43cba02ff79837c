"""Lists of polyhedron ids and what is known of each polyhedron in a node of the
tree: contracts for the harness of the boolean filters."""
import z3
from .contracts import Contracts
from .engine import Ptr, SymArr, const, Not, And, Or, tobool, Unsupported
from .poly import Poly, cmp0, abs_term

AI = z3.ArraySort(z3.IntSort(), z3.IntSort())
NIDS = 1 << 40


def _vec(e, st, p, rid, n, stride):
    r = st.wr(p.rid)
    e.put(r, p.off, 8, Ptr(rid, 0))
    for o in (8, 16):
        e.put(r, p.off + o, 8, Ptr(rid, n * Poly.const(stride)))


def make_filters(bound=None):
    C = Contracts()

    def length_of(e, st, name):
        """any length (within the bound: each one on a path of its own)"""
        n = e.fresh(name)
        st.assume(n >= 0)
        st.assume(n <= (bound if bound else NIDS))
        return Poly.var(n)

    def ids(e, st, a, dst):
        n = length_of(e, st, 'n_ids')
        I = z3.Const('ids', AI)
        rid = st.new_region(None, 'list of ids', 'heap')
        st.mem[rid].arr = SymArr(8, n, {0: [8, 'i', I, 0, (1 << 64) - 1]})
        _vec(e, st, a[0], rid, n, 8)
        e.filter = getattr(e, 'filter', {})
        e.filter.update(I=I, n=n)
    C.add('vpf_make_ids', ids)

    def info(e, st, a, dst):
        m = length_of(e, st, 'n_info')
        H, B, W = (z3.Const(x, AI) for x in ('interior', 'border', 'winding'))
        rid = st.new_region(None, 'content info', 'heap')
        st.mem[rid].arr = SymArr(24, m, {0: [8, 'i', H, 0, (1 << 64) - 1], 8: [8, 'i', B, 0, (1 << 64) - 1],
                                         16: [8, 'i', W, -(1 << 63), (1 << 63) - 1]})
        _vec(e, st, a[0], rid, m, 24)
        e.filter = getattr(e, 'filter', {})
        e.filter.update(m=m, H=H, B=B, W=W)
    C.add('vpf_make_info', info)

    def anyof(e, st, a, dst):
        kind, which = (e.unsigned(st, x)[0].cval() for x in a[:2])
        F = e.filter
        fold(e, st, F, kind, which, F['n'])
        for k in range(1, (bound or 0) + 1):
            fold(e, st, F, kind, which, Poly.const(k))
        # what holds of some id before position 1 holds of some id of the list
        fold(e, st, F, kind, which, Poly.const(1))
        g = G(kind, which)
        st.assume(z3.Implies(z3.And(g(z3.IntVal(1)), F['n'].z3() >= 1), g(F['n'].z3())))
        e.ret(st, dst, G(kind, which)(F['n'].z3()))
    C.add('vpf_any', anyof)

    def length(e, st, a, dst):
        from .engine import IV
        e.ret(st, dst, IV(64, e.filter['n'], 0, NIDS))
    C.add('vpf_ids', length)
    return C


# kinds: 0 a point is inside where the winding number is > 0; 1 (subtraction): so
# for the first id, and >= 0 for the others
TRUE, FALSE, OPEN, NOW, NOTNOW = range(5)
NAMES = ['definitely inside', 'definitely outside', 'undecided', 'inside now', 'outside now']


def G(kind, which):
    return z3.Function('any_%d_%d' % (kind, which), z3.IntSort(), z3.BoolSort())


def term(F, kind, which, j):
    """what the specification says about the id at position j"""
    i = z3.Select(F['I'], j)
    m = F['m'].z3()
    known = i < m
    W, H, B = (z3.Select(F[x], i) for x in 'WHB')
    if kind == 0:
        now = z3.And(known, W > 0)
    else:
        now = z3.If(j == 0, z3.And(known, W > 0), z3.Or(z3.Not(known), W >= 0))
    opn = z3.And(known, z3.Or(H != 0, B != 0))
    return [z3.And(now, z3.Not(opn)), z3.And(z3.Not(now), z3.Not(opn)), opn, now, z3.Not(now)][which]


def fold(e, st, F, kind, which, i):
    """definition of `some id before position i is ...` at i"""
    g = G(kind, which)
    t = i.z3()
    st.assume(z3.Not(g(z3.IntVal(0))))
    st.assume(g(t) == z3.If(t <= 0, z3.BoolVal(False), z3.Or(g(t - 1), term(F, kind, which, t - 1))))


def filter_loop(kind, conj, first):
    def f(L):
        F = L.e.filter
        i = L.index('i')
        for w in range(5):
            fold(L.e, L.st, F, kind, w, i)
        g = [G(kind, w)(i.z3()) for w in range(5)]
        L.le('position', Poly.const(first), i)
        L.le('position in the list', i, F['n'])
        now, opn = L.boolat(('total', 'retval', 'result'), 0), L.boolat(('total', 'retval', 'result'), 1)
        now, opn = tobool(now), tobool(opn)
        L.iff('verdict so far', now, z3.Not(g[NOTNOW]) if conj else g[NOW])
        L.iff('undecided so far', opn, z3.And(g[OPEN], z3.Not(g[FALSE if conj else TRUE])))
        for now_, def_ in ((NOW, TRUE), (NOTNOW, FALSE)):
            L.inv('what is so now is definitely so or undecided', z3.Implies(g[now_], z3.Or(g[OPEN], g[def_])))
            L.inv('what is definitely so is so now', z3.Implies(g[def_], g[now_]))
        L.variant(F['n'] - i)
    return f


SIG = '::operator()(std::vector<walnut::BSPContentInfo, std::allocator<walnut::BSPContentInfo> > const&)'
SPECS = {
    ('walnut::UnionIdsFilter' + SIG, 0): filter_loop(0, False, 0),
    ('walnut::IntersectIdsFilter' + SIG, 0): filter_loop(0, True, 0),
    ('walnut::SubtractIdsFilter' + SIG, 0): filter_loop(1, True, 1),
}
