"""Contracts used at call sites.

`BIGINT` is the contract of walnut::BigInt at the level of mathematical
integers: every operation is described by its exact integer meaning.  The same
statements are what the arithmetic properties (A..) prove about the bodies in
big_int.h / big_int.cpp; here callers are checked against the contract only.

`VP` gives the meaning of the specification vocabulary of cpp/vp.h.
"""
import re
import z3
from .poly import Poly, cmp0, abs_term, canon
from .engine import (Park, IV, Ptr, ZV, FnV, FV, UNDEF, NULL, const, Not, And, Or, tobool, Unsupported)


class Contracts:
    def __init__(self):
        self.exact = {}
        self.rx = []
        self.cache = {}

    def get(self, dn):
        h = self.cache.get(dn, 0)
        if h != 0:
            return h
        h = self.exact.get(dn)
        if h is None:
            for r, f in self.rx:
                m = r.match(dn)
                if m:
                    h = f
                    break
        self.cache[dn] = h
        return h

    def match(self, dn):
        return None

    def add(self, name, f):
        self.exact[name] = f

    def addrx(self, rx, f):
        self.rx.append((re.compile(rx + r'$'), f))

    def merge(self, o):
        self.exact.update(o.exact)
        self.rx.extend(o.rx)
        return self


def cstr(e, st, p):
    r = st.mem.get(p.rid)
    out = []
    o = p.off
    while True:
        c = r.cells.get(o)
        if c is None:
            # a zero-initialised or packed cell
            break
        s, v = c
        val = v.p.cval() % (1 << (8 * s))
        bs = val.to_bytes(s, 'little')
        z = bs.find(b'\0')
        if z >= 0:
            out.append(bs[:z])
            break
        out.append(bs)
        o += s
    return b''.join(out).decode('latin1')


def zof(e, st, v):
    if isinstance(v, ZV):
        return v.p
    if isinstance(v, IV):
        raise Unsupported('integer used as a ghost value')
    raise Unsupported('ghost value %r' % (v,))


# ------------------------------------------------------------------ vp_* API
def make_vp():
    C = Contracts()

    def assume(e, st, a, dst):
        c = e.as_bool(st, a[0])
        if c is False:
            return False
        if c is True:
            return
        st.assume(c)
        if not e.solver.feasible(st.pc[:-1] if st.pc and st.pc[-1] is c else st.pc, c):
            return False
    C.add('vp_assume', assume)

    def ensure(e, st, a, dst):
        c = e.as_bool(st, a[0])
        e.require(st, c, cstr(e, st, a[1]))
    C.add('vp_ensure', ensure)

    def by(e, st, a, dst):
        g, hs = e.as_bool(st, a[0]), [e.as_bool(st, x) for x in a[2:]]
        l = cstr(e, st, a[1])
        for h in hs:
            if h is not True:
                e.require(st, h, l + ' (a premise)')
        e.require_by(st, g, l, [h for h in hs if h is not True])
    C.add('vp_by', by)

    def cover(e, st, a, dst):
        l = cstr(e, st, a[0])
        e.cover(st, l)
    C.add('vp_cover', cover)

    def slice_(e, st, a, dst):
        if e.parts is not None:
            e.parts.append((st, None))
            raise Park()
    C.add('vp_slice', slice_)
    C.add('vp_native', lambda e, st, a, dst: e.ret(st, dst, False))

    def vint(e, st, a, dst):
        nm = cstr(e, st, a[0])
        lo, hi = e.signed(st, a[1])[0].cval(), e.signed(st, a[2])[0].cval()
        v = e.fresh_iv(st, 64, nm, lo, hi)
        st.inputs.append((nm, 'int', v.p.z3()))
        e.ret(st, dst, v)
    C.add('vp_int', vint)

    def vu64(e, st, a, dst):
        nm = cstr(e, st, a[0])
        v = e.fresh_iv(st, 64, nm)
        st.inputs.append((nm, 'u64', v.p.z3()))
        e.ret(st, dst, v)
    C.add('vp_u64', vu64)

    def vbool(e, st, a, dst):
        nm = cstr(e, st, a[0])
        e.fresh_n += 1
        b = z3.Bool('%s!%d' % (nm, e.fresh_n))
        st.inputs.append((nm, 'bool', b))
        e.ret(st, dst, b)
    C.add('vp_bool', vbool)

    def vchoice(e, st, a, dst):
        nm = cstr(e, st, a[0])
        n = e.signed(st, a[1])[0].cval()
        for i in range(1, n):
            s2 = st.fork()
            s2.inputs.append((nm, 'choice', i))
            e.ret(s2, dst, const(32, i))
            e.push(s2)
        st.inputs.append((nm, 'choice', 0))
        e.ret(st, dst, const(32, 0))
    C.add('vp_choice', vchoice)

    def split(e, st, a, dst):
        c = e.as_bool(st, a[0])
        if isinstance(c, bool):
            return e.ret(st, dst, c)
        return e.fork_values(st, [(c, True), (Not(c), False)], dst)
    C.add('vp_split', split)

    def b2(f):
        def h(e, st, a, dst):
            e.ret(st, dst, f(e.as_bool(st, a[0]), e.as_bool(st, a[1])))
        return h
    C.add('vp_and', b2(lambda x, y: And(x, y)))
    C.add('vp_or', b2(lambda x, y: Or(x, y)))
    C.add('vp_implies', b2(lambda x, y: Or(Not(x), y)))

    def iff(x, y):
        if isinstance(x, bool):
            return y if x else Not(y)
        if isinstance(y, bool):
            return x if y else Not(x)
        if z3.eq(x, y):
            return True
        return x == y
    C.add('vp_iff', b2(iff))
    C.add('vp_not', lambda e, st, a, dst: e.ret(st, dst, Not(e.as_bool(st, a[0]))))

    def bite(e, st, a, dst):
        c, x, y = [e.as_bool(st, v) for v in a]
        if isinstance(c, bool):
            e.ret(st, dst, x if c else y)
        else:
            e.ret(st, dst, And(Or(Not(c), x), Or(c, y)))
    C.add('vp_ite', bite)

    # ghost integers
    def zvar(e, st, a, dst):
        nm = cstr(e, st, a[0])
        t = e.fresh(nm)
        st.inputs.append((nm, 'z', t))
        e.ret(st, dst, ZV(Poly.var(t)))
    C.add('vpz_var', zvar)
    C.add('vpz_const', lambda e, st, a, dst: e.ret(st, dst, ZV(e.signed(st, a[0])[0])))
    C.add('vpz_u64', lambda e, st, a, dst: e.ret(st, dst, ZV(e.unsigned(st, a[0])[0])))
    C.add('vpz_add', lambda e, st, a, dst: e.ret(st, dst, ZV(zof(e, st, a[0]) + zof(e, st, a[1]))))
    C.add('vpz_sub', lambda e, st, a, dst: e.ret(st, dst, ZV(zof(e, st, a[0]) - zof(e, st, a[1]))))
    C.add('vpz_mul', lambda e, st, a, dst: e.ret(st, dst, ZV(zof(e, st, a[0]) * zof(e, st, a[1]))))
    C.add('vpz_lt', lambda e, st, a, dst: e.ret(st, dst, cmp0(zof(e, st, a[0]) - zof(e, st, a[1]), '<')))
    C.add('vpz_le', lambda e, st, a, dst: e.ret(st, dst, cmp0(zof(e, st, a[0]) - zof(e, st, a[1]), '<=')))
    C.add('vpz_eq', lambda e, st, a, dst: e.ret(st, dst, cmp0(zof(e, st, a[0]) - zof(e, st, a[1]), '==')))

    def zite(e, st, a, dst):
        c = e.as_bool(st, a[0])
        x, y = zof(e, st, a[1]), zof(e, st, a[2])
        if isinstance(c, bool):
            return e.ret(st, dst, ZV(x if c else y))
        return e.fork_values(st, [(c, ZV(x)), (Not(c), ZV(y))], dst)
    C.add('vpz_ite', zite)

    C.add('vpz_of', lambda e, st, a, dst: e.ret(st, dst, ZV(e.getz(st, a[0]))))
    C.add('vpz_make', lambda e, st, a, dst: e.setz(st, a[0], zof(e, st, a[1])))

    def alloc(e, st, a, dst):
        n = e.unsigned(st, a[0])[0]
        n = n.cval() if n.is_const() else None
        rid = st.new_region(n, 'harness object', 'mem')
        e.ret(st, dst, Ptr(rid, 0))
    C.add('vp_alloc', alloc)

    def isfreed(e, st, a, dst):
        e.ret(st, dst, st.mem[a[0].rid].kind == 'freed')
    C.add('vp_is_freed', isfreed)
    C.add('vp_live_allocs', lambda e, st, a, dst: e.ret(st, dst, const(64, sum(1 for r in st.mem.values() if r.kind == 'heap'))))
    return C


# ------------------------------------------------------------ allocation etc.
def make_runtime():
    C = Contracts()

    def new(e, st, a, dst):
        n = e.unsigned(st, a[0])[0]
        rid = st.new_region(n.cval() if n.is_const() else None, 'heap', 'heap')
        e.ret(st, dst, Ptr(rid, 0))
    for n in ('operator new(unsigned long)', 'operator new[](unsigned long)', 'malloc'):
        C.add(n, new)
    C.add('operator new(unsigned long, std::nothrow_t const&)', new)

    def delete(e, st, a, dst):
        p = a[0]
        if p.rid == 0:
            return
        r = st.wr(p.rid)
        if r.kind == 'freed':
            e.fail(st, 'double free')
            return
        if r.kind != 'heap' or p.off != 0:
            e.fail(st, 'delete of a non-heap pointer')
            return
        r.kind = 'freed'
    for n in ('operator delete(void*)', 'operator delete[](void*)', 'operator delete(void*, unsigned long)',
              'operator delete[](void*, unsigned long)', 'free'):
        C.add(n, delete)

    def afail(e, st, a, dst):
        e.fail(st, 'assert in ' + e.dn.get(st.frames[-1].fn.name, ''))
        return False
    C.add('__assert_fail', afail)

    def throw(e, st, a, dst):
        e.fail(st, 'throw/abort')
        return False
    for n in ('abort', 'std::terminate()', '__cxa_pure_virtual'):
        C.add(n, throw)
    C.addrx(r'std::__throw_\w+\(.*\)', throw)
    C.add('__cxa_atexit', lambda e, st, a, dst: e.ret(st, dst, const(32, 0)))
    C.addrx(r'std::ios_base::Init::~?Init\(\)', lambda e, st, a, dst: None)
    return C


# ------------------------------------------------------------------- BigInt
def sign_term(e, st, p):
    return tobool(cmp0(p, '<')), tobool(cmp0(p, '=='))


def make_bigint():
    C = Contracts()
    B = r'walnut::BigInt::'
    BI = 'walnut::BigInt const&'

    def sret(f):
        def h(e, st, a, dst):
            e.setz(st, a[0], f(e, st, a[1:]))
        return h

    def z(e, st, v):
        return e.getz(st, v)

    def si(e, st, v):
        if isinstance(v, (bool, z3.BoolRef)):
            v = e.bool_iv(st, v, 8)
        return e.signed(st, v)[0]

    # constructors
    C.add('walnut::BigInt::BigInt()', lambda e, st, a, dst: e.setz(st, a[0], Poly.const(0)))
    for t in ('int', 'long', 'short', 'signed char', 'long long'):
        h = lambda e, st, a, dst: e.setz(st, a[0], si(e, st, a[1]))
        C.add('walnut::BigInt::BigInt(%s)' % t, h)
        C.addrx(r'walnut::BigInt::BigInt<%s, [^()]*>\(%s\)' % (t, t), h)
    for t in ('unsigned int', 'unsigned long', 'bool', 'unsigned char', 'unsigned short', 'unsigned long long'):
        # BigInt(unsigned long) stores the word as is: values >= 2^63 read back negative
        h = lambda e, st, a, dst: e.setz(st, a[0], si(e, st, a[1]) if not isinstance(a[1], IV) or a[1].w == 64 else e.unsigned(st, a[1])[0])
        C.addrx(r'walnut::BigInt::BigInt<%s, [^()]*>\(%s\)' % (t, t), h)
    copy = lambda e, st, a, dst: e.setz(st, a[0], z(e, st, a[1]))
    C.add('walnut::BigInt::BigInt(%s)' % BI, copy)

    def move(e, st, a, dst):
        v = z(e, st, a[1])
        e.setz(st, a[0], v)
    C.add('walnut::BigInt::BigInt(walnut::BigInt&&)', move)
    C.add('walnut::BigInt::~BigInt()', lambda e, st, a, dst: None)

    def assign(e, st, a, dst):
        e.setz(st, a[0], z(e, st, a[1]))
        e.ret(st, dst, a[0])
    C.add('walnut::BigInt::operator=(%s)' % BI, assign)
    C.add('walnut::BigInt::operator=(walnut::BigInt&&)', assign)

    def assign_i(e, st, a, dst):
        e.setz(st, a[0], si(e, st, a[1]))
        e.ret(st, dst, a[0])
    C.add('walnut::BigInt::operator=(long)', assign_i)

    # value-returning (sret) binary operations
    ops = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}
    for o, f in ops.items():
        C.add('walnut::BigInt::operator%s(%s) const' % (o, BI), sret(lambda e, st, a, f=f: f(z(e, st, a[0]), z(e, st, a[1]))))
        for t in ('int', 'long'):
            C.add('walnut::BigInt::operator%s(%s) const' % (o, t), sret(lambda e, st, a, f=f: f(z(e, st, a[0]), si(e, st, a[1]))))
        nm = {'+': 'Add', '-': 'Subtract', '*': 'Multiply'}[o]
        C.add('walnut::BigInt::%s(%s) const' % (nm, BI), sret(lambda e, st, a, f=f: f(z(e, st, a[0]), z(e, st, a[1]))))

        def comp(e, st, a, dst, f=f):
            e.setz(st, a[0], f(z(e, st, a[0]), z(e, st, a[1])))
            e.ret(st, dst, a[0])
        C.add('walnut::BigInt::operator%s=(%s)' % (o, BI), comp)

        def compi(e, st, a, dst, f=f):
            e.setz(st, a[0], f(z(e, st, a[0]), si(e, st, a[1])))
            e.ret(st, dst, a[0])
        C.add('walnut::BigInt::operator%s=(int)' % o, compi)
    C.add('walnut::operator*(int, %s)' % BI, sret(lambda e, st, a: si(e, st, a[0]) * z(e, st, a[1])))

    def addmul(sgn):
        def h(e, st, a, dst):
            e.setz(st, a[0], z(e, st, a[0]) + (z(e, st, a[1]) * z(e, st, a[2])) * sgn)
            e.ret(st, dst, a[0])
        return h
    C.add('walnut::BigInt::AddMultiply(%s, %s)' % (BI, BI), addmul(1))
    C.add('walnut::BigInt::SubtractMultiply(%s, %s)' % (BI, BI), addmul(-1))
    C.add('walnut::BigInt::Determinant(%s, %s, %s, %s)' % (BI, BI, BI, BI), sret(
        lambda e, st, a: z(e, st, a[0]) * z(e, st, a[3]) - z(e, st, a[1]) * z(e, st, a[2])))
    C.add('walnut::BigInt::operator-() const', sret(lambda e, st, a: -z(e, st, a[0])))
    C.add('walnut::BigInt::Negate()', lambda e, st, a, dst: e.setz(st, a[0], -z(e, st, a[0])))

    def incdec(d):
        def h(e, st, a, dst):
            e.setz(st, a[0], z(e, st, a[0]) + d)
            e.ret(st, dst, a[0])
        return h
    C.add('walnut::BigInt::operator++()', incdec(1))
    C.add('walnut::BigInt::operator--()', incdec(-1))

    def zabs(e, st, a, dst):
        p = z(e, st, a[1])
        return e.fork_values(st, [(cmp0(p, '>='), p), (cmp0(p, '<'), -p)], None, apply=lambda s, v: e.setz(s, a[0], v))
    C.add('walnut::BigInt::abs() const', zabs)

    def getabs(e, st, a, dst):
        p = z(e, st, a[1])

        def ap(s, v):
            e.setz(s, a[0], v[0])
            e.store(s, a[2], ('i', 8), const(8, v[1]))
        return e.fork_values(st, [(cmp0(p, '>='), (p, 0)), (cmp0(p, '<'), (-p, 1))], None, apply=ap)
    C.add('walnut::BigInt::GetAbs(bool&) const', getabs)

    # comparisons
    cm = {'<': '<', '<=': '<=', '>': '>', '>=': '>=', '==': '==', '!=': '!='}
    for o in cm:
        C.add('walnut::BigInt::operator%s(%s) const' % (o, BI),
              lambda e, st, a, dst, o=o: e.ret(st, dst, cmp0(z(e, st, a[0]) - z(e, st, a[1]), o)))
        C.add('walnut::BigInt::operator%s(int) const' % o,
              lambda e, st, a, dst, o=o: e.ret(st, dst, cmp0(z(e, st, a[0]) - si(e, st, a[1]), o)))
        # demangler prints "operator< (" with a space in some versions
        C.add('walnut::BigInt::operator%s (%s) const' % (o, BI), C.exact['walnut::BigInt::operator%s(%s) const' % (o, BI)])

    def lessthan(e, st, a, dst):
        f = e.as_bool(st, a[1])
        d = z(e, st, a[0]) - z(e, st, a[2])
        lt, gt = cmp0(d, '<'), cmp0(d, '>')
        if isinstance(f, bool):
            return e.ret(st, dst, gt if f else lt)
        e.ret(st, dst, And(Or(Not(f), gt), Or(f, lt)))
    C.add('walnut::BigInt::LessThan(bool, %s) const' % BI, lessthan)

    def compare(e, st, a, dst):
        d = z(e, st, a[0]) - z(e, st, a[1])
        e.ret(st, dst, e.sign_value(st, d, 32, 'unit'))
    C.add('walnut::BigInt::Compare(%s) const' % BI, compare)

    def getsign(e, st, a, dst):
        e.ret(st, dst, e.sign_value(st, z(e, st, a[0]), 64, 'any'))
    C.add('walnut::BigInt::GetSign() const', getsign)

    C.add('walnut::BigInt::IsZero() const', lambda e, st, a, dst: e.ret(st, dst, cmp0(z(e, st, a[0]), '==')))
    C.add('walnut::BigInt::IsNegative() const', lambda e, st, a, dst: e.ret(st, dst, cmp0(z(e, st, a[0]), '<')))

    def absmult(e, st, a, dst):
        p = z(e, st, a[0])
        return e.fork_values(st, [(cmp0(p, '>='), const(32, 1)), (cmp0(p, '<'), const(32, -1))], dst)
    C.add('walnut::BigInt::GetAbsMult() const', absmult)

    def absmult2(e, st, a, dst):
        p, q = z(e, st, a[0]), z(e, st, a[1])
        n1, n2 = cmp0(p, '<'), cmp0(q, '<')
        d = z3.Xor(tobool(n1), tobool(n2))
        d = z3.simplify(d) if (isinstance(n1, bool) or isinstance(n2, bool)) else d
        return e.fork_values(st, [(Not(d), const(32, 1)), (d, const(32, -1))], dst)
    C.add('walnut::BigInt::GetAbsMult(%s) const' % BI, absmult2)

    def sgnext(e, st, a, dst):
        p = z(e, st, a[0])
        return e.fork_values(st, [(cmp0(p, '>='), const(64, 0)), (cmp0(p, '<'), const(64, -1))], dst)
    C.add('walnut::BigInt::SignExtension() const', sgnext)

    # HasSameSign: the sign *words* xor'ed are >= 0, i.e. both negative or both
    # non-negative.  HasDifferentSign is its negation.
    def same(neg):
        def h(e, st, a, dst):
            p, q = z(e, st, a[0]), z(e, st, a[1])
            n1, n2 = cmp0(p, '<'), cmp0(q, '<')
            if isinstance(n1, bool):
                r = n2 if n1 else Not(n2)
            elif isinstance(n2, bool):
                r = n1 if n2 else Not(n1)
            else:
                r = (n1 == n2)
            e.ret(st, dst, Not(r) if neg else r)
        return h
    C.add('walnut::BigInt::HasSameSign(%s) const' % BI, same(False))
    C.add('walnut::BigInt::HasDifferentSign(%s) const' % BI, same(True))

    # truncated division
    def tdiv(e, st, p, q):
        e.require(st, cmp0(q, '!='), 'division by a nonzero integer')
        if q.is_const() and p.is_const():
            x, y = p.cval(), q.cval()
            if y == 0:
                return Poly.const(0), Poly.const(0)
            k = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return Poly.const(k), Poly.const(x - k * y)
        key = ('tdiv', p.key(), q.key())
        r0 = st.ghost.get(key)
        if r0 is not None:
            return r0
        k, r = e.fresh('quo'), e.fresh('rem')
        kp, rp = Poly.var(k), Poly.var(r)
        st.assume(cmp0(kp * q + rp - p, '=='))
        pn, pz = sign_term(e, st, p)
        qn, qz = sign_term(e, st, q)
        st.assume(z3.Implies(pn, r <= 0))
        st.assume(z3.Implies(z3.Not(pn), r >= 0))
        lt1, lt2 = tobool(cmp0(rp - q, '<')), tobool(cmp0(-rp - q, '<'))
        gt1, gt2 = tobool(cmp0(rp + q, '<')), tobool(cmp0(q - rp, '<'))
        st.assume(z3.Implies(z3.Not(qn), z3.And(lt1, lt2)))
        st.assume(z3.Implies(qn, z3.And(gt1, gt2)))
        st.ghost[key] = (kp, rp)
        return kp, rp
    e_div = lambda e, st, a: tdiv(e, st, z(e, st, a[0]), z(e, st, a[1]))
    C.add('walnut::BigInt::operator/(%s) const' % BI, sret(lambda e, st, a: e_div(e, st, a)[0]))
    C.add('walnut::BigInt::operator%%(%s) const' % BI, sret(lambda e, st, a: e_div(e, st, a)[1]))
    C.add('walnut::BigInt::operator/(int) const', sret(lambda e, st, a: tdiv(e, st, z(e, st, a[0]), si(e, st, a[1]))[0]))

    def divassign(e, st, a, dst):
        e.setz(st, a[0], tdiv(e, st, z(e, st, a[0]), z(e, st, a[1]))[0])
        e.ret(st, dst, a[0])
    C.add('walnut::BigInt::operator/=(%s)' % BI, divassign)

    def divrem(e, st, a, dst):
        k, r = tdiv(e, st, z(e, st, a[1]), z(e, st, a[2]))
        e.setz(st, a[3], r)
        e.setz(st, a[0], k)
    C.add('walnut::BigInt::DivideRemainder(%s, walnut::BigInt*) const' % BI, divrem)

    # gcd: nonzero unless both zero, divides both (sign unspecified here)
    def gcd(e, st, a, dst):
        p, q = z(e, st, a[1]), z(e, st, a[2])
        g, k1, k2 = e.fresh('gcd'), e.fresh('gk'), e.fresh('gk')
        gp = Poly.var(g)
        st.assume(cmp0(gp * Poly.var(k1) - p, '=='))
        st.assume(cmp0(gp * Poly.var(k2) - q, '=='))
        st.assume((g == 0) == z3.And(tobool(cmp0(p, '==')), tobool(cmp0(q, '=='))))
        e.setz(st, a[0], gp)
    C.add('walnut::BigInt::GetGreatestCommonDivisor(%s) const' % BI, gcd)

    # shifts by a constant
    def shl(e, st, a, dst):
        k = e.unsigned(st, a[2])[0]
        if not k.is_const():
            raise Unsupported('shift by a symbolic amount')
        e.setz(st, a[0], z(e, st, a[1]) * (1 << k.cval()))
    C.add('walnut::BigInt::operator<<(unsigned long) const', shl)

    # hash: an uninterpreted function of the value
    H = z3.Function('bigint_hash', z3.IntSort(), z3.IntSort())

    def hsh(e, st, a, dst):
        t = H(abs_term(z(e, st, a[0])))
        st.assume(t >= 0)
        st.assume(t < (1 << 64))
        e.ret(st, dst, IV(64, Poly.var(t), 0, (1 << 64) - 1))
    C.add('walnut::BigInt::GetHash() const', hsh)

    # conversions to floating point are left uninterpreted
    def todouble(e, st, a, dst):
        e.ret(st, dst, UNDEF)
    C.add('walnut::BigInt::operator double() const', todouble)
    C.add('walnut::BigInt::operator long double() const', todouble)

    def max_value(e, st, a, dst):
        k = e.unsigned(st, a[1])[0]
        if not k.is_const():
            raise Unsupported('max_value of a symbolic width')
        e.setz(st, a[0], Poly.const((1 << k.cval()) - 1))

    def min_value(e, st, a, dst):
        k = e.unsigned(st, a[1])[0]
        if not k.is_const():
            raise Unsupported('min_value of a symbolic width')
        e.setz(st, a[0], Poly.const(-(1 << k.cval())))
    C.add('walnut::BigInt::max_value(unsigned long)', max_value)
    C.add('walnut::BigInt::min_value(unsigned long)', min_value)

    def toint(e, st, a, dst):
        p = z(e, st, a[0])
        t = abs_term(p)
        e.require(st, And(cmp0(p + (1 << 63), '>='), cmp0(p - ((1 << 63) - 1), '<=')), 'ToInt of a one-word integer')
        e.ret(st, dst, IV(32, p, -(1 << 63), (1 << 63) - 1))
    C.add('walnut::BigInt::ToInt() const', toint)
    return C


def std_contracts():
    C = Contracts()
    C.merge(make_vp())
    C.merge(make_runtime())
    return C


def geometry_contracts():
    return std_contracts().merge(make_bigint())


NOTES = {
    'geometry': ['calls into walnut::BigInt are checked against the exact-integer contract of dv/contracts.py (make_bigint); '
                 'the bodies are the subject of the A properties'],
    'std': [],
}


def container_contracts(bound=None):
    from . import words
    return std_contracts().merge(words.make_container(bound))


def filter_contracts(bound=None):
    from . import filters
    return geometry_contracts().merge(filters.make_filters(bound))


def words_contracts(trim=True, arith=()):
    from . import words
    C = std_contracts().merge(words.make_words())
    if trim:
        C.merge(words.make_trim())
    if arith:
        C.merge(words.make_arith(arith))
    return C


NOTES['words'] = [
    'BigIntWords (the word container) is used through its contract in dv/words.py: a resizable array of 64-bit words; '
    'its bodies are the subject of the raw-memory harnesses',
    'operands have at most 2^40 words']
NOTES['words_filter'] = ['lists have at most 2^40 elements']
NOTES['words_container'] = ['containers have at most 2^40 words']
def children_contracts():
    from .engine import Or
    from .poly import cmp0
    C = geometry_contracts()
    C.addrx(r'walnut::ConvexPolygon<.*>::IsValidState\(\) const', lambda e, st, a, dst: e.ret(st, dst, const(1, 1)))

    def line_valid(e, st, a, dst):
        # only asserted: lines are assumed, and required, to have a direction
        d = [e.getz(st, Ptr(a[0].rid, a[0].off + o)) for o in (0, 24, 48)]
        e.require(st, Or(*[cmp0(x, '!=') for x in d]), 'the line has a direction')
        e.ret(st, dst, const(1, 1))
    C.add('walnut::PluckerLine::IsValid() const', line_valid)
    return C


def polygon_contracts(kind=None, bound=None):
    from . import polygons
    C = polygons.make_polygon(bound)
    if kind == 'search':
        polygons.search_contracts(C)
    if kind == 'ranges':
        polygons.ranges_contracts(C)
    return C


NOTES['polygon'] = NOTES['geometry'] + ['polygons have at most 2^40 vertices']
SETS = {'geometry': geometry_contracts,
        'polygon': polygon_contracts,
        'polygon_children': children_contracts,
        'polygon_search': lambda: polygon_contracts('search'),
        'polygon_ranges': lambda: polygon_contracts('ranges'),
        'polygon_bounded5': lambda: polygon_contracts(None, 5),
        'polygon_search_bounded5': lambda: polygon_contracts('search', 5),
        'polygon_ranges_bounded5': lambda: polygon_contracts('ranges', 5), 'std': std_contracts, 'words': words_contracts,
        'words_filter': filter_contracts,
        'words_bounded_f3': lambda: filter_contracts(3),
        'words_container': container_contracts,
        'words_bounded_c3': lambda: container_contracts(3),
        'words_bounded2': lambda: words_contracts(False),
        'words_bounded3': lambda: words_contracts(False),
        'words_notrim': lambda: words_contracts(False),
        'words_sum': lambda: words_contracts(arith=('Add', 'Subtract', '+=', '-=')),
        'words_arith': lambda: words_contracts(arith=('Add', 'Subtract', '+=', '-=', 'Multiply'))}
