"""Verification-condition generator: symbolic execution of the LLVM IR that
clang emits for /repo's current sources.  Calls to functions that have a
contract are replaced by the contract, all other calls are executed from their
real body; loops are either executed until the path condition ends them or cut
by an inductive invariant (see loops.py).  Every vp_ensure, every assert() in
the code, every signed overflow and every loop-invariant step is an obligation
handed to a solver."""
import math
import time
import z3
from . import llir
from .poly import Poly, cmp0, abs_term, expand_defs, atom, _atoms

class Unsupported(Exception):
    pass


class PathLimit(Exception):
    pass


class Split(Exception):
    """fork mode: the value of cond is needed; both outcomes become paths"""

    def __init__(self, cond):
        self.cond = cond


class Park(Exception):
    """the path is set aside for a slice of the run"""


class Restart(Exception):
    """a loop modifies more memory than assumed so far"""


# ------------------------------------------------------------------ values
class IV:
    """machine integer: the bit pattern is congruent to p modulo 2^w and the
    mathematical value p lies in [lo,hi]"""
    __slots__ = ('w', 'p', 'lo', 'hi')

    def __init__(self, w, p, lo, hi):
        self.w = w
        self.p = p
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return 'i%d(%r)' % (self.w, self.p)


def const(w, v):
    return IV(w, Poly.const(v), v, v)


class Ptr:
    __slots__ = ('rid', 'off')

    def __init__(self, rid, off):
        self.rid = rid
        self.off = off

    def __repr__(self):
        return 'ptr(%s,%s)' % (self.rid, self.off)


NULL = Ptr(0, 0)


class ZV:
    """ghost mathematical integer (handle value used by contracts)"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return 'Z(%r)' % (self.p,)


class FnV:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class FV:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Region:
    __slots__ = ('rid', 'size', 'cells', 'owner', 'arr', 'name', 'kind', 'ro')

    def __init__(self, rid, size, name, kind='mem'):
        self.rid = rid
        self.size = size
        self.cells = {}
        self.owner = None
        self.arr = None       # SymArr for symbolic indices
        self.name = name
        self.kind = kind
        self.ro = False

    def copy(self):
        r = Region(self.rid, self.size, self.name, self.kind)
        r.cells = dict(self.cells)
        r.arr = self.arr.copy() if self.arr is not None else None
        r.ro = self.ro
        return r


class SymArr:
    """array of n elements of `stride` bytes, each with scalar fields held in a
    z3 array per field: fields: {fieldoff: [size, kind, z3array, lo, hi]}"""
    __slots__ = ('stride', 'n', 'fields', 'base', 'hook')

    def __init__(self, stride, n, fields, base=0, hook=None):
        self.hook = hook      # hook(e, st, rid, index) -> index, when an element is read
        self.stride = stride
        self.n = n
        self.fields = fields
        self.base = base

    def copy(self):
        return SymArr(self.stride, self.n, {k: list(v) for k, v in self.fields.items()}, self.base, self.hook)


class Frame:
    __slots__ = ('fn', 'regs', 'block', 'idx', 'prev', 'dst', 'loopstate', 'retty', 'callid', 'onret')

    def __init__(self, fn):
        self.fn = fn
        self.regs = {}
        self.block = None
        self.idx = 0
        self.prev = None
        self.dst = None
        self.loopstate = {}
        self.retty = None
        self.onret = None

    def copy(self):
        f = Frame(self.fn)
        f.regs = dict(self.regs)
        f.block = self.block
        f.idx = self.idx
        f.prev = self.prev
        f.dst = self.dst
        f.loopstate = {k: (dict(v) if isinstance(v, dict) else v) for k, v in self.loopstate.items()}
        f.onret = self.onret
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'pcset', 'nreg', 'ghost', 'token', 'steps', 'trace', 'inputs', 'depth')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.pcset = {}
        self.nreg = 1
        self.ghost = {}
        self.token = object()
        self.steps = 0
        self.trace = []
        self.inputs = []
        self.depth = 0

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcset = dict(self.pcset)
        s.nreg = self.nreg
        s.ghost = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in self.ghost.items()}
        self.token = object()      # both sides must copy regions before writing
        s.token = object()
        s.steps = self.steps
        s.trace = list(self.trace)
        s.inputs = list(self.inputs)
        return s

    def wr(self, rid):
        r = self.mem.get(rid)
        if r is None:
            raise Unsupported('write to unknown region %r' % rid)
        if r.owner is not self.token:
            r = r.copy()
            r.owner = self.token
            self.mem[rid] = r
        return r

    def new_region(self, size, name, kind='mem'):
        rid = self.nreg
        self.nreg += 1
        r = Region(rid, size, name, kind)
        r.owner = self.token
        self.mem[rid] = r
        return rid

    def assume(self, c):
        if c is True:
            return True
        if c is False:
            return False
        if z3.is_and(c):
            ok = True
            for x in c.children():
                ok = self.assume(x) and ok
            return ok
        if c.get_id() not in self.pcset:
            self.pc.append(c)
            self.pcset[c.get_id()] = c
        return True


def Not(c):
    if c is True:
        return False
    if c is False:
        return True
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def And(*cs):
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs):
        return False
    if not cs:
        return True
    if len(cs) == 1:
        return cs[0]
    return z3.And(*cs)


def Or(*cs):
    cs = [c for c in cs if c is not False]
    if any(c is True for c in cs):
        return True
    if not cs:
        return False
    if len(cs) == 1:
        return cs[0]
    return z3.Or(*cs)


def tobool(c):
    if isinstance(c, bool):
        return z3.BoolVal(c)
    return c


def const_off(p):
    return isinstance(p, int)


class Obligation:
    __slots__ = ('label', 'status', 'backend', 'time', 'model', 'where', 'goal')

    def __init__(self, label, status, backend, t, model=None, where='', goal=''):
        self.label = label
        self.status = status
        self.backend = backend
        self.time = t
        self.model = model
        self.where = where
        self.goal = goal


class Engine:
    def __init__(self, module, contracts, solver, opts=None):
        self.m = module
        self.contracts = contracts        # demangled name -> handler
        self.solver = solver
        self.o = dict(max_paths=20000, max_steps=400000, check_nsw=True, max_unroll=64, time=600)
        if opts:
            self.o.update(opts)
        names = list(module.functions) + list(module.decls)
        self.dn = llir.demangle(names)
        self.obls = []
        self.executed = {}
        self.contract_used = {}
        self.paths = 0
        self.fresh_n = 0
        self.globals = {}
        self.loop_specs = {}
        self.errors = []
        self.invuse = {}
        self.by_cache = {}
        self.covers = {}
        self.fork = bool(self.o.get('fork'))
        self.parts = None
        self.loop_mods = self.o.get('loop_mods')
        if self.loop_mods is None:
            self.loop_mods = {}
        self.unproved_stop = self.o.get('max_fail', 6)
        self.deadline = None

    # ------------------------------------------------------------ fresh
    def fresh(self, name):
        self.fresh_n += 1
        return z3.Int('%s!%d' % (name, self.fresh_n))

    def fresh_iv(self, st, w, name, lo=None, hi=None):
        if lo is None:
            lo, hi = 0, (1 << w) - 1
        t = self.fresh(name)
        st.assume(t >= lo)
        st.assume(t <= hi)
        return IV(w, Poly.var(t), lo, hi)

    # ------------------------------------------------------------ ints
    def unsigned(self, st, v):
        """Poly equal to the unsigned value"""
        if isinstance(v, IV):
            w = v.w
            M = 1 << w
            if v.lo >= 0 and v.hi < M:
                return v.p, v.lo, v.hi
            if v.p.is_const():
                c = v.p.cval() % M
                return Poly.const(c), c, c
            if v.lo >= -M and v.hi < 0:
                return v.p + M, v.lo + M, v.hi + M
            if v.lo >= M and v.hi < 2 * M:
                return v.p - M, v.lo - M, v.hi - M
            if v.lo >= -M and v.hi < M:
                c = self.quick(st, cmp0(v.p, '<'))
                if c is True:
                    return v.p + M, 0, M - 1
                if c is False:
                    return v.p, 0, M - 1
                if self.fork:
                    raise Split(cmp0(v.p, '<'))
                t = z3.If(tobool(cmp0(v.p, '<')), abs_term(v.p) + M, abs_term(v.p))
                return Poly.var(t), 0, M - 1
            if v.lo >= 0 and v.hi < 2 * M:
                c = self.quick(st, cmp0(v.p - M, '>='))
                if c is True:
                    return v.p - M, 0, M - 1
                if c is False:
                    return v.p, 0, M - 1
                if self.fork:
                    raise Split(cmp0(v.p - M, '>='))
                t = z3.If(tobool(cmp0(v.p - M, '>=')), abs_term(v.p) - M, abs_term(v.p))
                return Poly.var(t), 0, M - 1
            # general: quotient / remainder
            q, r = self.divmod_const(st, v.p, M, v.lo, v.hi)
            return r, 0, M - 1
        raise Unsupported('unsigned of %r' % (v,))

    def signed(self, st, v):
        w = v.w
        M = 1 << w
        H = M >> 1
        if v.lo >= -H and v.hi < H:
            return v.p, v.lo, v.hi
        if v.p.is_const():
            c = (v.p.cval() + H) % M - H
            return Poly.const(c), c, c
        if v.lo >= H and v.hi < M:
            return v.p - M, v.lo - M, v.hi - M
        if v.lo >= 0 and v.hi < M:
            c = self.quick(st, cmp0(v.p - H, '>='))
            if c is True:
                return v.p - M, -H, H - 1
            if c is False:
                return v.p, -H, H - 1
            if self.fork:
                raise Split(cmp0(v.p - H, '>='))
            t = z3.If(tobool(cmp0(v.p - H, '>=')), abs_term(v.p) - M, abs_term(v.p))
            return Poly.var(t), -H, H - 1
        q, r = self.divmod_const(st, v.p + H, M, v.lo + H, v.hi + H)
        return r - H, -H, H - 1

    def divmod_const(self, st, p, d, lo, hi):
        """floor quotient and remainder of p by the positive constant d"""
        if p.is_const():
            return Poly.const(p.cval() // d), Poly.const(p.cval() % d)
        key = ('dm', p.key(), d)
        e = st.ghost.get(key)
        if e is not None:
            return e
        # split off multiples of d
        qs, rs = {}, {}
        for k, v in p.m.items():
            if v % d == 0:
                qs[k] = v // d
            else:
                rs[k] = v
        q0, r0 = Poly(qs), Poly(rs)
        if r0.is_const():
            c = r0.cval()
            return q0 + c // d, Poly.const(c % d)
        g = math.gcd(r0.content(), d)
        if g > 1:
            # (g x) mod (g y) = g (x mod y)
            qp, rp = self.divmod_const(st, Poly({k: v // g for k, v in r0.m.items()}), d // g, lo // g, hi // g)
            res = (q0 + qp, rp * g)
            st.ghost[key] = res
            return res
        q = self.fresh('q')
        r = self.fresh('r')
        qp, rp = Poly.var(q), Poly.var(r)
        st.assume(cmp0(qp * d + rp - r0, '=='))
        st.assume(r >= 0)
        st.assume(r <= d - 1)
        res = (q0 + qp, rp)
        st.ghost[key] = res
        return res

    def quick(self, st, c):
        """cheap syntactic / path-condition test"""
        if c is True or c is False:
            return c
        if c.get_id() in st.pcset:
            return True
        n = Not(c)
        if n is not True and n is not False and n.get_id() in st.pcset:
            return False
        if z3.is_and(c) or z3.is_or(c):
            unit = z3.is_and(c)
            rs = [self.quick(st, x) for x in c.children()]
            if (not unit) in rs:
                return not unit
            if None not in rs:
                return unit
        return None

    def decide(self, st, c):
        r = self.quick(st, c)
        if r is not None:
            return r
        t = self.solver.feasible(st.pc, c)
        f = self.solver.feasible(st.pc, Not(c))
        if t and f:
            return None
        if t:
            st.assume(c)
            return True
        if f:
            st.assume(Not(c))
            return False
        return 'dead'

    # ------------------------------------------------------------ binops
    def binop(self, st, op, flags, t, a, b):
        if t[0] == 'fp':
            return self.fbin(op, a, b)
        if t[0] != 'i':
            raise Unsupported('binop type %r' % (t,))
        w = t[1]
        if w == 1:
            A, B = self.as_bool(st, a), self.as_bool(st, b)
            if op == 'and':
                return And(A, B)
            if op == 'or':
                return Or(A, B)
            if op in ('xor', 'add', 'sub'):
                if isinstance(A, bool):
                    return Not(B) if A else B
                if isinstance(B, bool):
                    return Not(A) if B else A
                return z3.Xor(A, B)
            raise Unsupported('i1 ' + op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
                d = self.offp(a.off) - self.offp(b.off)
                if d.is_const():
                    return const(w, d.cval())
                return IV(w, d, -(1 << 62), 1 << 62)
            raise Unsupported('pointer arithmetic %s' % op)
        if a is UNDEF or b is UNDEF:
            return self.fresh_iv(st, w, 'undef')
        if isinstance(a, (bool, z3.BoolRef)):
            a = self.bool_iv(st, a, w)
        if isinstance(b, (bool, z3.BoolRef)):
            b = self.bool_iv(st, b, w)
        if not isinstance(a, IV) or not isinstance(b, IV):
            raise Unsupported('binop %s on %r %r' % (op, a, b))
        M = 1 << w
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in flags:
                pa, la, ha = self.signed(st, a)
                pb, lb, hb = self.signed(st, b)
            else:
                # keep whatever representative is at hand
                pa, la, ha = a.p, a.lo, a.hi
                pb, lb, hb = b.p, b.lo, b.hi
                if op == 'mul':
                    pa, la, ha = self.norm(st, a)
                    pb, lb, hb = self.norm(st, b)
            if op == 'add':
                p, lo, hi = pa + pb, la + lb, ha + hb
            elif op == 'sub':
                p, lo, hi = pa - pb, la - hb, ha - lb
            else:
                p = pa * pb
                c = [la * lb, la * hb, ha * lb, ha * hb]
                lo, hi = min(c), max(c)
            if p.is_const():
                lo = hi = p.cval()
            if 'nsw' in flags:
                H = M >> 1
                if lo < -H or hi >= H:
                    if self.o['check_nsw']:
                        self.require(st, And(cmp0(p + H, '>='), cmp0(p - (H - 1), '<=')), 'no signed overflow in ' + op)
                    lo, hi = max(lo, -H), min(hi, H - 1)
                return IV(w, p, lo, hi)
            if hi - lo > (1 << (w + 8)) or lo < -(1 << (w + 8)) or hi > (1 << (w + 8)):
                if op != 'mul':
                    p, lo, hi = self.unsigned(st, IV(w, p, lo, hi))
            return IV(w, p, lo, hi)
        if op in ('udiv', 'urem'):
            pa, la, ha = self.unsigned(st, a)
            pb, lb, hb = self.unsigned(st, b)
            if pb.is_const():
                d = pb.cval()
                if d == 0:
                    raise Unsupported('division by zero')
                if ha < d:
                    return const(w, 0) if op == 'udiv' else IV(w, pa, la, ha)
                q, r = self.divmod_const(st, pa, d, la, ha)
                return IV(w, q, la // d, ha // d) if op == 'udiv' else IV(w, r, 0, min(d - 1, ha))
            # symbolic divisor
            self.require(st, cmp0(pb, '!='), 'divisor nonzero')
            key = ('ud', pa.key(), pb.key())
            e = st.ghost.get(key)
            K = self.o.get('quotients_below')
            if e is None and K and not self.solver.feasible(st.pc, cmp0(pa - pb * K, '>=')):
                q, r = self.fresh('q'), self.fresh('r')
                st.assume(r >= 0)
                st.assume(cmp0(Poly.var(r) - pb, '<'))
                st.assume(z3.Or([z3.And(q == k, cmp0(pa - pb * k - Poly.var(r), '==')) for k in range(K)]))
                e = st.ghost[key] = (Poly.var(q), Poly.var(r))
            if e is None and self.fork and self.o.get('small_quotients'):
                for k in range(self.o['small_quotients']):
                    c = cmp0(pa - pb * (k + 1), '<')
                    d = self.quick(st, c)
                    if d is None:
                        raise Split(c)
                    if d is True:
                        e = st.ghost[key] = (Poly.const(k), pa - pb * k)
                        break
            if e is None:
                q = self.fresh('q'); r = self.fresh('r')
                qp, rp = Poly.var(q), Poly.var(r)
                st.assume(cmp0(qp * pb + rp - pa, '=='))
                st.assume(r >= 0)
                st.assume(cmp0(rp - pb, '<'))
                st.assume(q >= 0)
                st.assume(cmp0(qp - pa, '<='))
                st.ghost[key] = (qp, rp)
            else:
                qp, rp = e
            return IV(w, qp, 0, ha) if op == 'udiv' else IV(w, rp, 0, min(hb - 1, ha))
        if op in ('sdiv', 'srem'):
            pa, la, ha = self.signed(st, a)
            pb, lb, hb = self.signed(st, b)
            if pa.is_const() and pb.is_const() and pb.cval() != 0:
                x, y = pa.cval(), pb.cval()
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return const(w, q) if op == 'sdiv' else const(w, x - q * y)
            H = M >> 1
            if la >= 0 and lb > 0:
                return self.binop(st, 'udiv' if op == 'sdiv' else 'urem', flags, t, IV(w, pa, la, ha), IV(w, pb, lb, hb))
            if pb.is_const() and pb.cval() > 0:
                d = pb.cval()
                c = self.decide(st, cmp0(pa, '>='))
                if c is True:
                    return self.binop(st, 'udiv' if op == 'sdiv' else 'urem', flags, t, IV(w, pa, 0, max(ha, 0)), b)
                if c is False:
                    q, r = self.divmod_const(st, -pa, d, max(0, -ha), max(0, -la))
                    return IV(w, -q, -(-la // d), 0) if op == 'sdiv' else IV(w, -r, -(d - 1), 0)
                # truncated division through the absolute value
                q = self.fresh('q'); r = self.fresh('r')
                qp, rp = Poly.var(q), Poly.var(r)
                st.assume(cmp0(qp * d + rp - pa, '=='))
                x = abs_term(pa)
                st.assume(z3.Implies(x >= 0, z3.And(r >= 0, r < d)))
                st.assume(z3.Implies(x < 0, z3.And(r <= 0, r > -d)))
                return IV(w, qp, min(-(-la // d), 0), max(ha // d, 0)) if op == 'sdiv' else IV(w, rp, -(d - 1), d - 1)
            self.require(st, cmp0(pb, '!='), 'divisor nonzero')
            self.require(st, Or(cmp0(pb + 1, '!='), cmp0(pa + H, '!=')), 'no signed overflow in ' + op)
            q = self.fresh('q'); r = self.fresh('r')
            qp, rp = Poly.var(q), Poly.var(r)
            st.assume(cmp0(qp * pb + rp - pa, '=='))
            x, y = abs_term(pa), abs_term(pb)
            st.assume(z3.Implies(x >= 0, z3.And(r >= 0, z3.Implies(y > 0, r < y), z3.Implies(y < 0, r < -y))))
            st.assume(z3.Implies(x < 0, z3.And(r <= 0, z3.Implies(y > 0, -r < y), z3.Implies(y < 0, -r < -y))))
            return IV(w, qp, -H, H - 1) if op == 'sdiv' else IV(w, rp, -H, H - 1)
        if op == 'shl':
            pb, lb, hb = self.unsigned(st, b)
            pb = self.implied_const(st, pb)
            pa, la, ha = self.norm(st, a)
            if pb.is_const():
                k = pb.cval()
                if k >= w:
                    raise Unsupported('oversized shift')
                return self.renorm(st, IV(w, pa * (1 << k), la << k, ha << k))
            pw = self.pow2(st, pb, lb, min(hb, w - 1))
            p, lo, hi = self.unsigned(st, a)
            return self.renorm(st, IV(w, p * pw, 0, hi << min(hb, w - 1)))
        if op == 'lshr':
            pb, lb, hb = self.unsigned(st, b)
            pb = self.implied_const(st, pb)
            pa, la, ha = self.unsigned(st, a)
            if pb.is_const():
                k = pb.cval()
                if k >= w:
                    raise Unsupported('oversized shift')
                q, r = self.divmod_const(st, pa, 1 << k, la, ha)
                return IV(w, q, la >> k, ha >> k)
            self.require(st, cmp0(pb - w, '<'), 'shift amount in range')
            pw = self.pow2(st, pb, lb, min(hb, w - 1))
            q, r = self.divmod_sym(st, pa, pw)
            return IV(w, q, 0, ha)
        if op == 'ashr':
            pb, lb, hb = self.unsigned(st, b)
            pb = self.implied_const(st, pb)
            pa, la, ha = self.signed(st, a)
            if pb.is_const():
                k = pb.cval()
                if k >= w:
                    raise Unsupported('oversized shift')
                if k == w - 1:
                    c = cmp0(pa, '<')
                    d = self.quick(st, c)
                    if la >= 0 or ha < 0:
                        return const(w, -1 if ha < 0 else 0)
                    if d is not None:
                        return const(w, -1 if d else 0)
                    if self.fork:
                        raise Split(c)
                    return IV(w, Poly.var(z3.If(c, z3.IntVal(-1), z3.IntVal(0))), -1, 0)
                q, r = self.divmod_const(st, pa, 1 << k, la, ha)
                return IV(w, q, la >> k, ha >> k)
            self.require(st, cmp0(pb - w, '<'), 'shift amount in range')
            pw = self.pow2(st, pb, lb, min(hb, w - 1))
            q, r = self.divmod_sym(st, pa, pw)
            return IV(w, q, min(la, -1) if la < 0 else 0, max(ha, 0))
        if op in ('and', 'or', 'xor'):
            return self.bitop(st, op, w, a, b)
        raise Unsupported('binop ' + op)

    def implied_const(self, st, p):
        """p when the path condition leaves it one value"""
        if self.fork and not p.is_const():
            v = self.solver.implied_const(st.pc, p)
            if v is not None:
                return Poly.const(v)
        return p

    def pow2(self, st, pb, lo, hi):
        raise Unsupported('symbolic shift')

    def divmod_sym(self, st, p, d):
        raise Unsupported('symbolic divmod')

    def norm(self, st, v):
        """some representative with small range"""
        M = 1 << v.w
        if -M <= v.lo and v.hi <= M:
            return v.p, v.lo, v.hi
        return self.unsigned(st, v)

    def renorm(self, st, v):
        lim = 1 << (v.w + 8)
        if v.hi - v.lo > lim or v.lo < -lim or v.hi > lim:
            p, lo, hi = self.unsigned(st, v)
            return IV(v.w, p, lo, hi)
        return v

    def bitop(self, st, op, w, a, b):
        M = 1 << w
        if b.p.is_const() and a.p.is_const():
            x, y = a.p.cval() % M, b.p.cval() % M
            r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
            return const(w, r)
        if a.p.is_const():
            a, b = b, a
        if b.p.is_const():
            c = b.p.cval() % M
            if op == 'and':
                if c == M - 1:
                    return a
                if c == 0:
                    return const(w, 0)
                if c & (c + 1) == 0:      # low mask
                    q, r = self.divmod_const(st, self.norm(st, a)[0], c + 1, 0, 0)
                    return IV(w, r, 0, c)
                # high mask 1..10..0
                inv = (M - 1) ^ c
                if inv & (inv + 1) == 0:
                    p, lo, hi = self.unsigned(st, a)
                    q, r = self.divmod_const(st, p, inv + 1, 0, 0)
                    return IV(w, q * (inv + 1), 0, c)
                runs = []
                i = 0
                while c >> i:
                    if (c >> i) & 1:
                        j = i
                        while (c >> j) & 1:
                            j += 1
                        runs.append((i, j - i))
                        i = j
                    else:
                        i += 1
                if len(runs) <= 2:
                    p, lo, hi = self.unsigned(st, a)
                    t = Poly.const(0)
                    for i, n in runs:
                        q = p
                        if i:
                            q, _ = self.divmod_const(st, p, 1 << i, lo, hi)
                        _, r2 = self.divmod_const(st, q, 1 << n, lo >> i, hi >> i)
                        t = t + r2 * (1 << i)
                    return IV(w, t, 0, c)
            if op == 'xor':
                if c == 0:
                    return a
                if c == M - 1:
                    return IV(w, -1 - a.p, -1 - a.hi, -1 - a.lo)
                if c == M >> 1:
                    p, lo, hi = self.norm(st, a)
                    return IV(w, p + c, lo + c, hi + c)
            if op == 'or':
                if c == 0:
                    return a
                if c == M - 1:
                    return const(w, -1)
                if c == 1:
                    if a.lo >= -1 and a.hi <= 1:
                        # -1|1=-1, 0|1=1, 1|1=1
                        if a.lo >= 0:
                            return const(w, 1)
                        neg = cmp0(a.p, '<')
                        d = self.quick(st, neg)
                        if d is not None:
                            return const(w, -1 if d else 1)
                        if self.fork:
                            raise Split(neg)
                        return IV(w, Poly.var(z3.If(neg, z3.IntVal(-1), z3.IntVal(1))), -1, 1)
                    q, r = self.divmod_const(st, self.norm(st, a)[0], 2, 0, 0)
                    p, lo, hi = self.norm(st, a)
                    return IV(w, p + 1 - r, lo, hi + 1)
        if op == 'or':
            # no common bits: the sum
            for x, y in ((a, b), (b, a)):
                t = y.hi.bit_length()
                if y.lo >= 0 and t < w and x.p.content() % (1 << t) == 0:
                    p, lo, hi = self.unsigned(st, x)
                    return IV(w, p + y.p, max(lo, 0) + y.lo, min(hi + y.hi, M - 1))
        # small symbolic ranges: enumerate
        ra, rb = a.hi - a.lo, b.hi - b.lo
        if ra <= 4 and rb <= 4:
            t = None
            ta, tb = abs_term(a.p), abs_term(b.p)
            vals = []
            for x in range(a.lo, a.hi + 1):
                for y in range(b.lo, b.hi + 1):
                    X, Y = x, y
                    r = {'and': X & Y, 'or': X | Y, 'xor': X ^ Y}[op]
                    vals.append(r)
                    cnd = z3.And(ta == x, tb == y)
                    t = z3.IntVal(r) if t is None else z3.If(cnd, z3.IntVal(r), t)
            return IV(w, Poly.var(t), min(vals), max(vals))
        # sign bit only: xor/and/or of two signed values, result known up to sign
        pa, la, ha = self.signed(st, a)
        pb, lb, hb = self.signed(st, b)
        H = M >> 1
        # a function of the two operands, otherwise described by the facts below
        r = z3.Function('bit_%s%d' % (op, w), z3.IntSort(), z3.IntSort(), z3.IntSort())(abs_term(pa), abs_term(pb))
        st.assume(r >= -H)
        st.assume(r < H)
        sa, sb = tobool(cmp0(pa, '<')), tobool(cmp0(pb, '<'))
        neg = {'and': z3.And(sa, sb), 'or': z3.Or(sa, sb), 'xor': z3.Xor(sa, sb)}[op]
        st.assume((r < 0) == neg)
        ta, tb = abs_term(pa), abs_term(pb)
        if op == 'and':
            st.assume(z3.Implies(z3.Or(ta == 0, tb == 0), r == 0))
            st.assume(z3.Implies(ta == -1, r == tb))
            st.assume(z3.Implies(tb == -1, r == ta))
            st.assume(z3.Implies(z3.And(ta >= 0), z3.And(r >= 0, r <= ta)))
            st.assume(z3.Implies(z3.And(tb >= 0), z3.And(r >= 0, r <= tb)))
        elif op == 'or':
            st.assume((r == 0) == z3.And(ta == 0, tb == 0))
            st.assume(z3.Implies(ta == -1, r == -1))
            st.assume(z3.Implies(tb == -1, r == -1))
            st.assume(z3.Implies(ta == 0, r == tb))
            st.assume(z3.Implies(tb == 0, r == ta))
            st.assume(z3.Implies(z3.And(ta >= 0, tb >= 0), z3.And(r >= ta, r >= tb, r <= ta + tb)))
        else:
            st.assume((r == 0) == (ta == tb))
            st.assume(z3.Implies(ta == 0, r == tb))
            st.assume(z3.Implies(tb == 0, r == ta))
            st.assume(z3.Implies(ta == -1, r == -1 - tb))
            st.assume(z3.Implies(tb == -1, r == -1 - ta))
        return IV(w, Poly.var(r), -H, H - 1)

    def fbin(self, op, a, b):
        if isinstance(a, FV) and isinstance(b, FV):
            rm = z3.RNE()
            if op == 'fadd':
                return FV(z3.fpAdd(rm, a.t, b.t))
            if op == 'fsub':
                return FV(z3.fpSub(rm, a.t, b.t))
            if op == 'fmul':
                return FV(z3.fpMul(rm, a.t, b.t))
            if op == 'fdiv':
                return FV(z3.fpDiv(rm, a.t, b.t))
        raise Unsupported('floating point')

    def as_bool(self, st, v):
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if isinstance(v, IV):
            p, lo, hi = self.unsigned(st, v)
            if v.w == 1 or hi <= 1:
                return cmp0(p, '!=')
            q, r = self.divmod_const(st, p, 2, lo, hi)
            return cmp0(r, '!=')
        if v is UNDEF:
            self.fresh_n += 1
            return z3.Bool('ub!%d' % self.fresh_n)
        raise Unsupported('bool of %r' % (v,))

    def bool_iv(self, st, b, w):
        if isinstance(b, bool):
            return const(w, int(b))
        d = self.quick(st, b)
        if d is not None:
            return const(w, int(d))
        if self.fork:
            raise Split(b)
        return IV(w, Poly.var(z3.If(b, z3.IntVal(1), z3.IntVal(0))), 0, 1)

    def icmp(self, st, pred, t, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.pcmp(st, pred, a, b)
        if isinstance(a, FnV) or isinstance(b, FnV):
            same = isinstance(a, FnV) and isinstance(b, FnV) and a.name == b.name
            return same if pred == 'eq' else (not same)
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            A, B = self.as_bool(st, a), self.as_bool(st, b)
            if pred in ('eq', 'ne'):
                if isinstance(B, bool):
                    r = A if B else Not(A)
                elif isinstance(A, bool):
                    r = B if A else Not(B)
                else:
                    r = A == B
                return r if pred == 'eq' else Not(r)
            a, b = self.bool_iv(st, A, 8), self.bool_iv(st, B, 8)
        if a is UNDEF or b is UNDEF:
            self.fresh_n += 1
            return z3.Bool('ub!%d' % self.fresh_n)
        if isinstance(a, ZV) or isinstance(b, ZV):
            raise Unsupported('icmp on ghost')
        if pred in ('eq', 'ne'):
            M = 1 << a.w
            d = a.p - b.p
            lo, hi = a.lo - b.hi, a.hi - b.lo
            if d.is_const():
                r = d.cval() % M == 0
                return r if pred == 'eq' else not r
            if lo > -M and hi < M:
                return cmp0(d, '==' if pred == 'eq' else '!=')
            pa = self.unsigned(st, a)[0]
            pb = self.unsigned(st, b)[0]
            return cmp0(pa - pb, '==' if pred == 'eq' else '!=')
        f = self.unsigned if pred[0] == 'u' else self.signed
        pa, la, ha = f(st, a)
        pb, lb, hb = f(st, b)
        op = {'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<='}[pred[1:]]
        if op == '<' and ha < lb or op == '<=' and ha <= lb or op == '>' and la > hb or op == '>=' and la >= hb:
            return True
        if op == '<' and la >= hb or op == '<=' and la > hb or op == '>' and ha <= lb or op == '>=' and ha < lb:
            return False
        return cmp0(pa - pb, op)

    def pcmp(self, st, pred, a, b):
        if isinstance(a, IV) and a.p.is_const() and a.p.cval() == 0:
            a = NULL
        if isinstance(b, IV) and b.p.is_const() and b.p.cval() == 0:
            b = NULL
        if a is UNDEF or b is UNDEF or not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported('pointer compare %r %r' % (a, b))
        if pred in ('eq', 'ne'):
            if a.rid != b.rid:
                return pred == 'ne'
            d = self.offp(a.off) - self.offp(b.off)
            return cmp0(d, '==' if pred == 'eq' else '!=')
        if a.rid != b.rid:
            raise Unsupported('pointer order across objects')
        d = self.offp(a.off) - self.offp(b.off)
        op = {'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<='}[pred[1:]]
        return cmp0(d, op)

    @staticmethod
    def offp(o):
        return Poly.const(o) if isinstance(o, int) else o

    # ------------------------------------------------------------ memory
    def addoff(self, off, d):
        """off, d: int or Poly"""
        if isinstance(off, int) and isinstance(d, int):
            return off + d
        r = self.offp(off) + self.offp(d)
        return r.cval() if r.is_const() else r

    def load(self, st, p, t):
        t = self.m.resolve(t)
        if t[0] in ('struct', 'arr'):
            out = []
            n = len(t[1]) if t[0] == 'struct' else t[1]
            for i in range(n):
                o, ft = self.m.field_off(t, i)
                out.append(self.load(st, Ptr(p.rid, self.addoff(p.off, o)), ft))
            return out
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        if p.rid == 0:
            self.fail(st, 'null dereference')
            return UNDEF
        r = st.mem.get(p.rid)
        if r is None:
            raise Unsupported('load of unknown region %r' % (p,))
        if r.kind == 'freed':
            self.fail(st, 'use after free of ' + str(r.name))
        sz = self.m.size(t)
        if r.arr is not None:
            v = self.arr_load(st, r, p, sz, t)
            if v is not None:
                return v
        if not isinstance(p.off, int):
            raise Unsupported('symbolic offset in %s' % r.name)
        if r.size is not None and (p.off < 0 or p.off + sz > r.size):
            self.fail(st, 'out-of-bounds read of ' + str(r.name))
            return UNDEF
        c = r.cells.get(p.off)
        if c is None:
            # part of a larger int cell?
            for o, (s, v) in r.cells.items():
                if o <= p.off < o + s:
                    return self.subload(st, o, s, v, p.off, sz, t)
            # several smaller cells -> combine
            return self.undef_of(st, t)
        s, v = c
        if s == sz:
            return self.retype(st, v, t)
        if s > sz:
            return self.subload(st, p.off, s, v, p.off, sz, t)
        # combine consecutive smaller int cells
        parts = []
        o = p.off
        while o < p.off + sz:
            c = r.cells.get(o)
            if c is None or not isinstance(c[1], (IV, bool, z3.BoolRef)):
                if c is None and t[0] == 'i':
                    # uninitialised padding: arbitrary bytes
                    nxt = min([k for k in r.cells if k > o] + [p.off + sz])
                    fv = self.fresh_iv(st, 8 * (nxt - o), 'pad')
                    parts.append((o - p.off, fv))
                    o = nxt
                    continue
                raise Unsupported('mixed load')
            v = c[1]
            if isinstance(v, (bool, z3.BoolRef)):
                v = self.bool_iv(st, v, 8 * c[0])
            parts.append((o - p.off, v))
            o += c[0]
        tot = Poly.const(0)
        hi = 0
        for k, v in parts:
            pp, lo, h = self.unsigned(st, v)
            tot = tot + pp * (1 << (8 * k))
            hi += h << (8 * k)
        return IV(8 * sz, tot, 0, hi)

    def subload(self, st, o, s, v, off, sz, t):
        if isinstance(v, IV) and t[0] == 'i':
            p, lo, hi = self.unsigned(st, v)
            k = off - o
            q, r = self.divmod_const(st, p, 1 << (8 * k), lo, hi)
            q2, r2 = self.divmod_const(st, q, 1 << (8 * sz), lo >> (8 * k), hi >> (8 * k))
            return IV(8 * sz, r2, 0, (1 << (8 * sz)) - 1)
        if v is UNDEF:
            return self.undef_of(st, t)
        raise Unsupported('partial load of %r' % (v,))

    def undef_of(self, st, t):
        return UNDEF

    def retype(self, st, v, t):
        if t[0] == 'i' and isinstance(v, IV) and v.w != t[1]:
            if t[1] == 1:
                return self.as_bool(st, v)
            return IV(t[1], v.p, v.lo, v.hi)
        if t[0] == 'i' and t[1] > 1 and isinstance(v, (bool, z3.BoolRef)):
            return self.bool_iv(st, v, t[1])
        return v

    def store(self, st, p, t, v):
        t = self.m.resolve(t)
        if t[0] in ('struct', 'arr'):
            n = len(t[1]) if t[0] == 'struct' else t[1]
            for i in range(n):
                o, ft = self.m.field_off(t, i)
                self.store(st, Ptr(p.rid, self.addoff(p.off, o)), ft, UNDEF if v is UNDEF else v[i])
            return
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        if p.rid == 0:
            self.fail(st, 'null dereference (store)')
            return
        r0 = st.mem.get(p.rid)
        if r0 is not None and r0.kind == 'freed':
            self.fail(st, 'use after free of ' + str(r0.name))
        r = st.wr(p.rid)
        sz = self.m.size(t)
        if r.arr is not None and self.arr_store(st, r, p, sz, t, v):
            return
        if not isinstance(p.off, int):
            raise Unsupported('symbolic offset store in %s' % r.name)
        if r.size is not None and (p.off < 0 or p.off + sz > r.size):
            self.fail(st, 'out-of-bounds write of ' + str(r.name))
            return
        self.put(r, p.off, sz, v)

    def put(self, r, off, sz, v):
        # drop overlapped cells
        c = r.cells.get(off)
        if c is not None and c[0] == sz:
            r.cells[off] = (sz, v)
            return
        for o in [o for o, (s, _) in r.cells.items() if o < off + sz and off < o + s]:
            s, old = r.cells[o]
            del r.cells[o]
            if isinstance(old, IV) and old.p.is_const() and s > sz:
                # split a constant cell into bytes around the write
                val = old.p.cval() % (1 << (8 * s))
                for k in range(s):
                    if not (off <= o + k < off + sz):
                        r.cells[o + k] = (1, const(8, (val >> (8 * k)) & 255))
        r.cells[off] = (sz, v)

    def arr_index(self, st, r, p):
        a = r.arr
        off = self.offp(p.off) - a.base
        # off = stride*idx + field
        fld = off.m.get((), 0) % a.stride
        rest = off - fld
        q = {}
        for k, v in rest.m.items():
            if v % a.stride:
                raise Unsupported('array offset %r stride %d' % (off, a.stride))
            q[k] = v // a.stride
        return Poly(q), fld

    def arr_load(self, st, r, p, sz, t):
        if isinstance(p.off, int) and p.off < r.arr.base:
            return None
        idx, fld = self.arr_index(st, r, p)
        a = r.arr
        if fld not in a.fields:
            raise Unsupported('array field %d of %s' % (fld, r.name))
        f = a.fields[fld]
        self.require(st, And(cmp0(idx, '>='), cmp0(idx - a.n, '<')), 'index in bounds of ' + str(r.name))
        if r.kind == 'words' or (r.kind == 'heap' and a.base):
            from .words import sel
            p = sel(self, st, f[2], idx)
            if p.is_const():
                return self.retype(st, const(8 * f[0], p.cval()), t)
            return self.retype(st, IV(8 * f[0], p, 0, (1 << (8 * f[0])) - 1), t)
        return self.arr_value(st, f, z3.Select(f[2], idx.z3()), t)

    def arr_value(self, st, f, term, t):
        kind = f[1]
        if kind == 'z':
            return ZV(Poly.var(term))
        if kind == 'i':
            st.assume(term >= f[3])
            st.assume(term <= f[4])
            v = IV(8 * f[0], Poly.var(term), f[3], f[4])
            return self.retype(st, v, t)
        raise Unsupported('array field kind')

    def arr_store(self, st, r, p, sz, t, v):
        if isinstance(p.off, int) and p.off < r.arr.base:
            return False
        idx, fld = self.arr_index(st, r, p)
        a = r.arr
        if fld not in a.fields:
            raise Unsupported('array store field %d of %s' % (fld, r.name))
        f = a.fields[fld]
        self.require(st, And(cmp0(idx, '>='), cmp0(idx - a.n, '<')), 'index in bounds of ' + str(r.name))
        if f[1] == 'i':
            if isinstance(v, (bool, z3.BoolRef)):
                v = self.bool_iv(st, v, 8 * f[0])
            if v is UNDEF:
                v = self.fresh_iv(st, 8 * f[0], 'undef')
            if f[3] >= 0:
                pp, lo, hi = self.unsigned(st, v)
            else:
                pp, lo, hi = self.signed(st, v)
            f[2] = z3.Store(f[2], idx.z3(), abs_term(pp))
            f[3], f[4] = min(f[3], lo), max(f[4], hi)
            return True
        if f[1] == 'z':
            f[2] = z3.Store(f[2], idx.z3(), abs_term(v.p))
            return True
        raise Unsupported('array field kind')

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        rs = st.mem.get(s.rid)
        rd = st.wr(d.rid)
        if n == 8 and (rs.arr is not None or rd.arr is not None):
            self.store(st, d, ('i', 64), self.load(st, s, ('i', 64)))
            return
        if rs.arr is not None or rd.arr is not None or not isinstance(d.off, int) or not isinstance(s.off, int):
            raise Unsupported('memcpy of symbolic array')
        cells = [(o, c) for o, c in rs.cells.items() if s.off <= o and o + c[0] <= s.off + n]
        part = [(o, c) for o, c in rs.cells.items() if o < s.off + n and s.off < o + c[0] and not (s.off <= o and o + c[0] <= s.off + n)]
        if part:
            raise Unsupported('memcpy splits a cell')
        for o in [o for o, (z, _) in rd.cells.items() if o < d.off + n and d.off < o + z]:
            del rd.cells[o]
        for o, c in cells:
            rd.cells[d.off + o - s.off] = c

    # BigInt ghost cell
    def getz(self, st, p):
        if p.rid == 0:
            self.fail(st, 'null dereference')
        r = st.mem[p.rid]
        if r.kind == 'freed':
            self.fail(st, 'use after free of ' + str(r.name))
        if r.arr is not None:
            idx, fld = self.arr_index(st, r, p)
            f = r.arr.fields.get(fld)
            if f is None or f[1] != 'z':
                raise Unsupported('array integer field %d of %s' % (fld, r.name))
            self.require(st, And(cmp0(idx, '>='), cmp0(idx - r.arr.n, '<')), 'index in bounds of ' + str(r.name))
            if r.arr.hook is not None:
                idx = r.arr.hook(self, st, p.rid, idx)
            return Poly.var(z3.Select(f[2], idx.z3()))
        if not isinstance(p.off, int):
            raise Unsupported('symbolic offset')
        c = r.cells.get(p.off)
        if c is None or not isinstance(c[1], ZV):
            if c is not None and c[1] == 'moved':
                self.fail(st, 'read of a moved-from integer')
                return Poly.var(self.fresh('moved'))
            self.fail(st, 'read of an uninitialised integer at %s+%s' % (r.name, p.off))
            return Poly.var(self.fresh('uninit'))
        return c[1].p

    def setz(self, st, p, poly):
        r = st.wr(p.rid)
        if r.kind == 'freed':
            self.fail(st, 'use after free of ' + str(r.name))
        if r.arr is not None:
            idx, fld = self.arr_index(st, r, p)
            f = r.arr.fields.get(fld)
            self.require(st, And(cmp0(idx, '>='), cmp0(idx - r.arr.n, '<')), 'index in bounds of ' + str(r.name))
            f[2] = z3.Store(f[2], idx.z3(), abs_term(poly))
            return
        if not isinstance(p.off, int):
            raise Unsupported('symbolic offset')
        if r.size is not None and p.off + 24 > r.size:
            self.fail(st, 'out-of-bounds write of ' + str(r.name))
            return
        self.put(r, p.off, 24, ZV(poly))

    # ------------------------------------------------------------ obligations
    def where(self, st):
        return ' < '.join(self.dn.get(f.fn.name, f.fn.name) for f in reversed(st.frames[-4:]))

    def require(self, st, cond, label):
        """obligation: cond holds on this path; assumed afterwards"""
        t0 = time.time()
        if cond is True:
            self.obls.append(Obligation(label, 'proved', 'syntactic', 0.0))
            return True
        if cond is not False and cond.get_id() in st.pcset:
            self.obls.append(Obligation(label, 'proved', 'syntactic', 0.0))
            return True
        status, backend, model = self.solver.prove(st, cond)
        ob = Obligation(label, status, backend, time.time() - t0, model, self.where(st), '' if status == 'proved' else str(cond)[:400])
        if status != 'proved':
            ob.model = self.inputs_model(st, model)
        self.obls.append(ob)
        if status != 'proved' and len([o for o in self.obls if o.status != 'proved']) >= self.unproved_stop:
            raise PathLimit('stopped after %d unproved obligations' % self.unproved_stop)
        st.assume(cond)
        return status == 'proved'

    def require_by(self, st, cond, label, hyps):
        """like require, with few premises (and one proof per such problem)"""
        if cond is not True and cond is not False and False not in hyps and cond.get_id() not in st.pcset:
            key = (cond.get_id(), tuple(sorted(h.get_id() for h in hyps)))
            r = self.by_cache.get(key)
            if r is None:
                t0 = time.time()
                s = State()
                for h in hyps:
                    s.assume(h)
                inc, self.solver.inc = self.solver.inc, None
                try:
                    ok, backend, _ = self.solver.prove(s, cond)
                finally:
                    self.solver.inc = inc
                r = self.by_cache[key] = (ok, backend, time.time() - t0, cond, hyps)
            if r[0] == 'proved':
                self.obls.append(Obligation(label, 'proved', r[1], r[2], None, self.where(st), ''))
                st.assume(cond)
                return True
        return self.require(st, cond, label)

    def fail(self, st, label):
        return self.require(st, False, label)

    def sign_value(self, st, p, w, mode):
        """a w-bit integer whose sign is the sign of p (and otherwise arbitrary;
        mode 'unit': in {-1,0,1})"""
        if mode == 'unit' and p.is_const():
            c = p.cval()
            return const(w, (c > 0) - (c < 0))
        key = ('sgn', mode, w, p.key())
        v = st.ghost.get(key)
        if v is not None:
            return v
        t = self.fresh('sgn')
        H = 1 << (w - 1)
        lo, hi = (-1, 1) if mode == 'unit' else (-H, H - 1)
        st.assume(t >= lo)
        st.assume(t <= hi)
        st.assume((t < 0) == tobool(cmp0(p, '<')))
        st.assume((t == 0) == tobool(cmp0(p, '==')))
        v = IV(w, Poly.var(t), lo, hi)
        st.ghost[key] = v
        return v

    def cover(self, st, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    def inputs_model(self, st, model):
        if model is None:
            return None
        out = []
        for name, kind, term in st.inputs:
            try:
                if isinstance(term, bool):
                    out.append((name, kind, str(int(term))))
                    continue
                if isinstance(term, int):
                    out.append((name, kind, str(term)))
                    continue
                v = model.eval(term, model_completion=True)
                if z3.is_int_value(v):
                    out.append((name, kind, str(v.as_long())))
                elif z3.is_true(v) or z3.is_false(v):
                    out.append((name, kind, '1' if z3.is_true(v) else '0'))
                elif z3.is_bv_value(v):
                    out.append((name, kind, str(v.as_long())))
                elif z3.is_rational_value(v):
                    out.append((name, kind, str(v)))
                else:
                    return None
            except z3.Z3Exception:
                return None
        return out

    # ------------------------------------------------------------ execution
    def operand(self, st, fr, t, op):
        k = op[0]
        if k == 'loc':
            return fr.regs[op[1]]
        if k == 'int':
            tt = t
            if tt[0] == 'i' and tt[1] == 1:
                return bool(op[1] & 1)
            return const(tt[1], op[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            if t[0] == 'struct':
                return [self.operand(st, fr, x, op) for x in t[1]]
            return UNDEF
        if k == 'glob':
            return self.global_addr(st, op[1])
        if k == 'zero':
            return self.zero_of(t)
        if k == 'fp':
            return FV(self.fpconst(op[1]))
        if k == 'gep':
            base = self.operand(st, fr, op[2][0][0], op[2][0][1])
            return self.gep(st, fr, op[1], base, op[2][1:])
        if k == 'cast':
            return self.cast(st, op[1], op[2], self.operand(st, fr, op[2], op[3]), op[4])
        if k == 'agg':
            return [self.operand(st, fr, self.m.resolve(et), ev) for et, ev in op[1]]
        raise Unsupported('operand %r' % (op,))

    def fpconst(self, x):
        if isinstance(x, float):
            return z3.FPVal(x, z3.Float64())
        if isinstance(x, str) and x.startswith('0x'):
            import struct
            return z3.FPVal(struct.unpack('>d', int(x, 16).to_bytes(8, 'big'))[0], z3.Float64())
        return z3.FPVal(float(x), z3.Float64())

    def zero_of(self, t):
        t = self.m.resolve(t)
        if t[0] == 'i':
            return False if t[1] == 1 else const(t[1], 0)
        if t[0] == 'ptr':
            return NULL
        if t[0] == 'fp':
            return FV(z3.FPVal(0.0, z3.Float64()))
        if t[0] == 'struct':
            return [self.zero_of(x) for x in t[1]]
        if t[0] == 'arr':
            return [self.zero_of(t[2]) for _ in range(t[1])]
        raise Unsupported('zero of %r' % (t,))

    def global_addr(self, st, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.functions or name in self.m.decls:
            return FnV(name)
        key = ('g', name)
        rid = st.ghost.get(key)
        if rid is None:
            rid = st.new_region(None, name, 'global')
            st.ghost[key] = rid
            self.init_global(st, rid, name)
        return Ptr(rid, 0)

    def init_global(self, st, rid, name):
        text = self.m.globals.get(name)
        if text is None:
            return
        toks = llir.tokenize(text)
        p = llir.P(toks, self.m)
        skip = {'private', 'internal', 'linkonce_odr', 'unnamed_addr', 'local_unnamed_addr', 'dso_local', 'hidden', 'weak_odr', 'external',
                'comdat', 'weak', 'thread_local', 'available_externally', 'common', 'appending', 'extern_weak'}
        ext = False
        while p.peek() in skip:
            if p.peek() == 'external':
                ext = True
            p.next()
        kind = p.next()     # constant / global
        if kind not in ('constant', 'global') or ext:
            return
        try:
            t = llir.parse_type(p)
            v = llir.parse_value(p, t)
        except (SyntaxError, IndexError):
            return
        st.mem[rid].size = self.m.size(t)
        if v[0] == 'str':
            for i, ch in enumerate(v[1]):
                st.mem[rid].cells[i] = (1, const(8, ch))
            return
        fr = Frame(None)
        try:
            val = self.operand(st, fr, self.m.resolve(t), v)
            self.store(st, Ptr(rid, 0), t, val)
        except Unsupported:
            pass

    def gep(self, st, fr, bt, base, ops):
        if base is UNDEF:
            return UNDEF
        if not isinstance(base, Ptr):
            raise Unsupported('gep on %r' % (base,))
        off = base.off
        t = bt
        first = True
        for ot, ov in ops:
            v = self.operand(st, fr, ot, ov)
            if isinstance(v, (bool, z3.BoolRef)):
                v = self.bool_iv(st, v, 8)
            if first:
                sz = self.m.size(t)
                off = self.addoff(off, self.scale(st, v, sz))
                first = False
                continue
            rt = self.m.resolve(t)
            if rt[0] == 'struct':
                o, t = self.m.field_off(rt, v.p.cval())
                off = self.addoff(off, o)
            else:
                t = rt[2]
                off = self.addoff(off, self.scale(st, v, self.m.size(t)))
        return Ptr(base.rid, off)

    def scale(self, st, v, sz):
        if not isinstance(v, IV):
            raise Unsupported('gep index %r' % (v,))
        if v.p.is_const():
            w = v.w
            c = v.p.cval()
            c = (c + (1 << (w - 1))) % (1 << w) - (1 << (w - 1))
            return c * sz
        p, lo, hi = self.signed(st, v)
        return p * sz

    def cast(self, st, op, t, v, t2):
        t2 = self.m.resolve(t2)
        if v is UNDEF:
            return UNDEF
        if op in ('bitcast', 'ptrtoint', 'inttoptr'):
            if op == 'ptrtoint' and isinstance(v, Ptr) and v.rid == 0 and isinstance(v.off, int):
                return const(t2[1], v.off)
            if op == 'inttoptr' and isinstance(v, IV) and v.p.is_const():
                return Ptr(0, v.p.cval())
            return v
        if op == 'trunc':
            if t2[1] == 1:
                if isinstance(v, (bool, z3.BoolRef)):
                    return v
                return self.as_bool(st, v) if (v.lo >= 0 and v.hi <= 1) else self.odd(st, v)
            if isinstance(v, IV):
                return IV(t2[1], v.p, v.lo, v.hi) if abs(v.lo) < 1 << (t2[1] + 8) and abs(v.hi) < 1 << (t2[1] + 8) else \
                    self.unsigned_iv(st, IV(t2[1], v.p, v.lo, v.hi))
            if isinstance(v, (bool, z3.BoolRef)):
                return self.bool_iv(st, v, t2[1])
            raise Unsupported('trunc of %r' % (v,))
        if op == 'zext':
            if isinstance(v, (bool, z3.BoolRef)):
                return self.bool_iv(st, v, t2[1])
            if not isinstance(v, IV):
                raise Unsupported('zext of %r' % (v,))
            p, lo, hi = self.unsigned(st, v)
            return IV(t2[1], p, lo, hi)
        if op == 'sext':
            if isinstance(v, (bool, z3.BoolRef)):
                b = self.bool_iv(st, v, t2[1])
                return IV(t2[1], -b.p, -b.hi, -b.lo)
            if not isinstance(v, IV):
                raise Unsupported('sext of %r' % (v,))
            p, lo, hi = self.signed(st, v)
            return IV(t2[1], p, lo, hi)
        if op in ('sitofp', 'uitofp') and isinstance(v, IV) and v.p.is_const():
            p, lo, hi = (self.signed if op[0] == 's' else self.unsigned)(st, v)
            return FV(z3.FPVal(float(p.cval()), z3.Float64()))
        raise Unsupported('cast ' + op)

    def unsigned_iv(self, st, v):
        p, lo, hi = self.unsigned(st, v)
        return IV(v.w, p, lo, hi)

    def odd(self, st, v):
        q, r = self.divmod_const(st, v.p, 2, v.lo, v.hi)
        return cmp0(r, '!=')

    # ---- main loop
    def call_function(self, st, name, args, dst=None, onret=None):
        fn = llir.body_of(self.m.functions[name])
        fr = Frame(fn)
        fr.dst = dst
        fr.onret = onret
        for (t, nm, at), v in zip(fn.params, args):
            fr.regs[nm] = v
        self.executed[name] = self.executed.get(name, 0) + 1
        if self.loop_specs and (self.dn.get(name, name), 0) in self.loop_specs:
            fr.loopstate['fnmem'] = dict(st.mem)
            st.token = object()
        st.frames.append(fr)
        if len(st.frames) > 200:
            raise Unsupported('recursion too deep')
        self.enter(st, fr, fn.order[0])

    def enter(self, st, fr, bname):
        """transfer control to block; evaluates phis.  Returns False if path ends."""
        prev = fr.block
        b = fr.fn.blocks[bname]
        vals = []
        for ph in b.phis:
            t, inc = ph.a
            for v, pb in inc:
                if pb == prev:
                    vals.append((ph.dst, self.operand(st, fr, t, v)))
                    break
            else:
                raise Unsupported('phi without incoming edge')
        loop = bname in fr.fn.loops
        if loop:
            spec = self.loop_specs.get((self.dn.get(fr.fn.name, fr.fn.name), self.loop_index(fr.fn, bname)))
            back = prev in fr.fn.loops[bname]
            if spec is None:
                spec = self.find_loop_spec(fr.fn, bname)
            if spec is not None:
                if self.parts is not None:
                    # partition point: the slice resumes here (see run)
                    self.parts.append((st, bname))
                    return False
                from . import loops
                return loops.loop_cut(self, st, fr, b, bname, dict(vals), spec, back)
            # plain unrolling with a guard
            k = ('unroll', bname)
            if back:
                fr.loopstate[k] = fr.loopstate.get(k, 0) + 1
                if fr.loopstate[k] > self.o['max_unroll']:
                    raise Unsupported('loop without invariant exceeds unroll bound in ' + self.dn.get(fr.fn.name, fr.fn.name))
            else:
                fr.loopstate[k] = 0
        for d, v in vals:
            fr.regs[d] = v
        fr.prev = prev
        fr.block = bname
        fr.idx = 0
        return True

    def loop_index(self, fn, bname):
        hs = [b for b in fn.order if b in fn.loops]
        return hs.index(bname)

    def find_loop_spec(self, fn, bname):
        return None

    def run(self, name, setup=None):
        st = State()
        self.work = [st]
        self.deadline = time.time() + self.o['time']
        st0 = st
        if setup:
            args = setup(self, st)
        else:
            args = []
        part = self.o.get('part')
        try:
            if part:
                # everything up to the first annotated loop of every path is
                # run by every slice (reported by slice 0); the states found
                # there are dealt out
                self.parts = []
                self.call_function(st, name, args)
                while self.work:
                    st = self.work.pop()
                    self.run_path(st)
                todo, self.parts = self.parts, None
                if part[0]:
                    self.obls, self.paths, self.covers, self.executed, self.contract_used = [], 0, {k: 0 for k in self.covers}, {}, {}
                for st, bname in todo[part[0]::part[1]]:
                    self.poly = st.ghost.get('polygon')
                    if bname is None or self.enter(st, st.frames[-1], bname) is not False:
                        self.work.append(st)
                    while self.work:
                        st = self.work.pop()
                        self.run_path(st)
            else:
                self.call_function(st, name, args)
            deal = self.o.get('deal')
            if deal:
                # bounded mode: a few paths from the oldest forks on, then the
                # open states are dealt out; slice 0 reports the common paths
                k = 0
                while self.work and k < 24:
                    st = self.work.pop(0)
                    self.run_path(st)
                    k += 1
                if deal[0]:
                    self.obls, self.paths, self.covers, self.executed, self.contract_used = [], 0, {k: 0 for k in self.covers}, {}, {}
                todo = self.work[deal[0]::deal[1]]
                self.work = []
                for x in todo:
                    self.work.append(x)
                    while self.work:
                        st = self.work.pop()
                        self.run_path(st)
            while self.work:
                st = self.work.pop()
                self.run_path(st)
        except Restart:
            raise
        except Split as e:
            self.errors.append('unsupported: case split outside a step [%s]' % self.where(st))
        except PathLimit as e:
            self.errors.append(str(e))
        except Unsupported as e:
            self.errors.append('unsupported: %s [%s]' % (e, self.where(st)))
        except (KeyError, AttributeError, TypeError, IndexError, AssertionError, RecursionError, z3.Z3Exception, SyntaxError) as e:
            import traceback
            self.errors.append('engine: %s: %s [%s]\n%s' % (type(e).__name__, e, self.where(st), traceback.format_exc()[-1500:]))

    def run_path(self, st):
        self.poly = st.ghost.get('polygon')
        while True:
            if not st.frames:
                self.paths += 1
                if self.paths > self.o['max_paths']:
                    raise PathLimit('too many paths')
                return
            if time.time() > self.deadline:
                raise PathLimit('time limit')
            fr = st.frames[-1]
            b = fr.fn.blocks[fr.block]
            ins = b.instrs[fr.idx]
            fr.idx += 1
            st.steps += 1
            if st.steps > self.o['max_steps']:
                raise PathLimit('too many steps on a path')
            if not self.fork:
                try:
                    r = self.step(st, fr, ins)
                except Park:
                    return
            else:
                depth, idx, blk = len(st.frames), fr.idx, fr.block
                try:
                    r = self.step(st, fr, ins)
                except Park:
                    return
                except Split as x:
                    if len(st.frames) != depth or fr.block != blk:
                        raise Unsupported('case split inside a transition')
                    fr.idx = idx - 1
                    r = self.do_split(st, x.cond)
            if r is False:
                return

    def do_split(self, st, c):
        if c is True or c is False:
            raise Unsupported('degenerate case split')
        ft = self.solver.feasible(st.pc, c)
        ff = self.solver.feasible(st.pc, Not(c))
        if ft and ff:
            s2 = st.fork()
            s2.assume(Not(c))
            self.push(s2)
            st.assume(c)
        elif ft:
            st.assume(c)
        elif ff:
            st.assume(Not(c))
        else:
            return False

    def step(self, st, fr, ins):
        op = ins.op
        a = ins.a
        if op == 'call':
            return self.do_call(st, fr, ins)
        if op == 'gep':
            base = self.operand(st, fr, a[1][0][0], a[1][0][1])
            fr.regs[ins.dst] = self.gep(st, fr, a[0], base, a[1][1:])
            return
        if op == 'load':
            p = self.operand(st, fr, ('ptr',), a[1])
            fr.regs[ins.dst] = self.load(st, p, a[0])
            return
        if op == 'store':
            v = self.operand(st, fr, self.m.resolve(a[0]), a[1])
            p = self.operand(st, fr, ('ptr',), a[2])
            self.store(st, p, a[0], v)
            return
        if op == 'br':
            return self.enter(st, fr, a[2])
        if op == 'condbr':
            c = self.as_bool(st, self.operand(st, fr, ('i', 1), a[0]))
            return self.branch(st, fr, c, a[1], a[2])
        if op == 'ret':
            v = None
            if a[1] is not None:
                v = self.operand(st, fr, self.m.resolve(a[0]), a[1])
            st.frames.pop()
            if fr.onret is not None:
                return fr.onret(self, st, v)
            if st.frames and fr.dst is not None:
                st.frames[-1].regs[fr.dst] = v
            if not st.frames:
                st.ghost['ret'] = v
            return
        if op == 'bin':
            x = self.operand(st, fr, a[2], a[3])
            y = self.operand(st, fr, a[2], a[4])
            fr.regs[ins.dst] = self.binop(st, a[0], a[1], a[2], x, y)
            return
        if op == 'icmp':
            x = self.operand(st, fr, a[1], a[2])
            y = self.operand(st, fr, a[1], a[3])
            fr.regs[ins.dst] = self.icmp(st, a[0], a[1], x, y)
            return
        if op == 'cast':
            v = self.operand(st, fr, a[1], a[2])
            fr.regs[ins.dst] = self.cast(st, a[0], a[1], v, a[3])
            return
        if op == 'select':
            c = self.as_bool(st, self.operand(st, fr, ('i', 1), a[1]))
            x = self.operand(st, fr, a[2], a[3])
            y = self.operand(st, fr, a[2], a[4])
            return self.select(st, fr, ins.dst, c, x, y)
        if op == 'alloca':
            rid = st.new_region(self.m.size(a[0]) if a[1] is None else None, ins.dst)
            fr.regs[ins.dst] = Ptr(rid, 0)
            return
        if op == 'switch':
            return self.switch(st, fr, a)
        if op == 'extractvalue':
            v = self.operand(st, fr, self.m.resolve(a[0]), a[1])
            for i in a[2]:
                v = v[i] if v is not UNDEF else UNDEF
            fr.regs[ins.dst] = v
            return
        if op == 'insertvalue':
            v = self.operand(st, fr, self.m.resolve(a[0]), a[1])
            e = self.operand(st, fr, self.m.resolve(a[2]), a[3])
            if v is UNDEF:
                v = [UNDEF] * len(self.m.resolve(a[0])[1])
            fr.regs[ins.dst] = self.insert(v, e, a[4])
            return
        if op == 'freeze':
            v = self.operand(st, fr, a[0], a[1])
            fr.regs[ins.dst] = v
            return
        if op == 'unreachable':
            self.fail(st, 'unreachable code')
            return False
        if op == 'fcmp':
            x = self.operand(st, fr, a[1], a[2])
            y = self.operand(st, fr, a[1], a[3])
            fr.regs[ins.dst] = self.fcmp(a[0], x, y)
            return
        if op == 'fneg':
            x = self.operand(st, fr, a[0], a[1])
            fr.regs[ins.dst] = FV(z3.fpNeg(x.t))
            return
        raise Unsupported('instruction ' + ins.text.strip())

    def fcmp(self, pred, x, y):
        if not isinstance(x, FV) or not isinstance(y, FV):
            raise Unsupported('fcmp')
        d = {'oeq': z3.fpEQ, 'olt': z3.fpLT, 'ole': z3.fpLEQ, 'ogt': z3.fpGT, 'oge': z3.fpGEQ}
        if pred in d:
            return z3.simplify(d[pred](x.t, y.t))
        if pred == 'une':
            return z3.simplify(z3.Not(z3.fpEQ(x.t, y.t)))
        raise Unsupported('fcmp ' + pred)

    def insert(self, v, e, idx):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            v[idx[0]] = self.insert(v[idx[0]], e, idx[1:])
        return v

    def select(self, st, fr, dst, c, x, y):
        if c is True or c is False:
            fr.regs[dst] = x if c else y
            return
        q = self.quick(st, c)
        if q is not None:
            fr.regs[dst] = x if q else y
            return
        if isinstance(x, (bool, z3.BoolRef)) and isinstance(y, (bool, z3.BoolRef)):
            if x is True:
                fr.regs[dst] = Or(c, y)
            elif x is False:
                fr.regs[dst] = And(Not(c), y)
            elif y is True:
                fr.regs[dst] = Or(Not(c), x)
            elif y is False:
                fr.regs[dst] = And(c, x)
            else:
                fr.regs[dst] = z3.If(c, tobool(x), tobool(y))
            return
        # fork
        return self.fork_values(st, [(c, x), (Not(c), y)], dst)

    def fork_values(self, st, alts, dst, apply=None):
        """continue with each feasible alternative; dst register of top frame"""
        live = []
        for c, v in alts:
            if c is False:
                continue
            if c is True or self.solver.feasible(st.pc, c):
                live.append((c, v))
        if not live:
            return False
        for c, v in live[1:]:
            s2 = st.fork()
            s2.assume(c)
            if dst is not None:
                s2.frames[-1].regs[dst] = v
            if apply:
                apply(s2, v)
            self.push(s2)
        c, v = live[0]
        st.assume(c)
        if dst is not None:
            st.frames[-1].regs[dst] = v
        if apply:
            apply(st, v)
        return

    def push(self, st):
        if len(self.work) > 5000:
            raise PathLimit('too many pending paths')
        self.work.append(st)

    def branch(self, st, fr, c, tb, fb):
        if c is True:
            return self.enter(st, fr, tb)
        if c is False:
            return self.enter(st, fr, fb)
        bt, bf = fr.fn.blocks[tb], fr.fn.blocks[fb]
        if bf.is_assert and not bt.is_assert:
            self.require(st, c, 'assert in ' + self.dn.get(fr.fn.name, fr.fn.name))
            return self.enter(st, fr, tb)
        if bt.is_assert and not bf.is_assert:
            self.require(st, Not(c), 'assert in ' + self.dn.get(fr.fn.name, fr.fn.name))
            return self.enter(st, fr, fb)
        q = self.quick(st, c)
        if q is None:
            ft = self.solver.feasible(st.pc, c)
            ff = self.solver.feasible(st.pc, Not(c))
        else:
            ft, ff = q, not q
        if ft and ff:
            s2 = st.fork()
            s2.assume(Not(c))
            if self.enter(s2, s2.frames[-1], fb) is not False:
                self.push(s2)
            st.assume(c)
            return self.enter(st, fr, tb)
        if ft:
            st.assume(c)
            return self.enter(st, fr, tb)
        if ff:
            st.assume(Not(c))
            return self.enter(st, fr, fb)
        return False

    def switch(self, st, fr, a):
        t, v, d, cases = a
        x = self.operand(st, fr, t, v)
        M = 1 << t[1]
        if isinstance(x, (bool, z3.BoolRef)):
            x = self.bool_iv(st, x, t[1])
        alts = []
        rest = True
        for cv, lab in cases:
            c = self.icmp(st, 'eq', t, x, const(t[1], cv[1]))
            alts.append((And(c, rest), lab))
            rest = And(rest, Not(c))
        alts.append((rest, d))
        live = [(c, l) for c, l in alts if c is not False and (c is True or self.solver.feasible(st.pc, c))]
        if not live:
            return False
        for c, l in live[1:]:
            s2 = st.fork()
            s2.assume(c)
            if self.enter(s2, s2.frames[-1], l) is not False:
                self.push(s2)
        st.assume(live[0][0])
        return self.enter(st, fr, live[0][1])

    def do_call(self, st, fr, ins):
        rt, callee, args = ins.a
        if callee[0] == 'glob':
            name = self.m.aliases.get(callee[1], callee[1])
        else:
            f = self.operand(st, fr, ('ptr',), callee)
            if not isinstance(f, FnV):
                raise Unsupported('indirect call through %r' % (f,))
            name = f.name
        if name.startswith('@llvm.'):
            vals = [self.operand(st, fr, self.m.resolve(t), v) if t[0] != 'metadata' else None for t, v, at in args]
            return self.intrinsic(st, fr, ins, name, vals)
        vals = []
        for t, v, at in args:
            x = self.operand(st, fr, self.m.resolve(t), v)
            vals.append(x)
        return self.invoke(st, name, vals, ins.dst)

    def invoke(self, st, name, vals, dst):
        dn = self.dn.get(name, name)
        h = self.contracts.get(dn)
        if h is None:
            h = self.contracts.match(dn)
        if h is not None:
            self.contract_used[dn] = self.contract_used.get(dn, 0) + 1
            r = h(self, st, vals, dst)
            if r is False:
                return False
            return
        if name in self.m.functions:
            self.call_function(st, name, vals, dst)
            return
        raise Unsupported('call to external function without contract: ' + dn)

    def ret(self, st, dst, v):
        if dst is not None:
            st.frames[-1].regs[dst] = v

    def intrinsic(self, st, fr, ins, name, v):
        n = name[6:]
        if n.startswith(('lifetime', 'dbg', 'experimental.noalias', 'assume', 'stacksave', 'stackrestore', 'prefetch')):
            return
        if n.startswith(('memcpy', 'memmove')):
            if not (isinstance(v[2], IV) and v[2].p.is_const()):
                raise Unsupported('memcpy of symbolic size')
            self.memcpy(st, v[0], v[1], v[2].p.cval())
            return
        if n.startswith('memset'):
            cnt = v[2].p
            if not cnt.is_const():
                raise Unsupported('memset')
            r = st.wr(v[0].rid)
            cnt = cnt.cval()
            bv = v[1].p.cval() & 255
            for k in list(r.cells):
                if v[0].off <= k < v[0].off + cnt:
                    del r.cells[k]
            o = 0
            while o < cnt:
                step = 8 if (v[0].off + o) % 8 == 0 and cnt - o >= 8 else 1
                val = const(8 * step, int.from_bytes(bytes([bv]) * step, 'little'))
                r.cells[v[0].off + o] = (step, val if bv or step == 1 else val)
                o += step
            return
        if n.startswith('trap') or n.startswith('ubsantrap'):
            self.fail(st, 'trap')
            return False
        if n.startswith(('umax', 'umin', 'smax', 'smin')):
            t = ('i', v[0].w)
            c = self.icmp(st, {'u': 'u', 's': 's'}[n[0]] + ('gt' if n[1:4] == 'max' else 'lt'), t, v[0], v[1])
            return self.select(st, fr, ins.dst, c, v[0], v[1])
        if n.startswith('abs'):
            p, lo, hi = self.signed(st, v[0])
            w = v[0].w
            self.require(st, cmp0(p + (1 << (w - 1)), '!='), 'no signed overflow in abs')
            return self.select(st, fr, ins.dst, cmp0(p, '<'), IV(w, -p, max(-hi, 0), -lo), IV(w, p, max(lo, 0), max(hi, 0)))
        if '.with.overflow' in n:
            w = v[0].w
            s = n[0] == 's'
            f = self.signed if s else self.unsigned
            pa, la, ha = f(st, v[0])
            pb, lb, hb = f(st, v[1])
            k = n[1:4]
            if k == 'add':
                p, lo, hi = pa + pb, la + lb, ha + hb
            elif k == 'sub':
                p, lo, hi = pa - pb, la - hb, ha - lb
            else:
                p = pa * pb
                c = [la * lb, la * hb, ha * lb, ha * hb]
                lo, hi = min(c), max(c)
            mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            ov = Or(cmp0(p - mn, '<') if lo < mn else False, cmp0(p - (mx + 1), '>=') if hi > mx else False)
            fr.regs[ins.dst] = [self.renorm(st, IV(w, p, lo, hi)), ov]
            return
        if n.startswith('expect'):
            fr.regs[ins.dst] = v[0]
            return
        if n.startswith('is.constant'):
            fr.regs[ins.dst] = False
            return
        if n.startswith('objectsize'):
            raise Unsupported('objectsize')
        if n.startswith('fabs'):
            fr.regs[ins.dst] = FV(z3.fpAbs(v[0].t))
            return
        if self.fork and n.startswith(('ctlz', 'cttz')):
            fr.regs[ins.dst] = const(v[0].w, self.bit_scan(st, v[0], n.startswith('ctlz')))
            return
        h = self.contracts.get('llvm.' + n)
        if h is not None:
            return h(self, st, v, ins.dst)
        raise Unsupported('intrinsic ' + name)

    def bit_scan(self, st, a, leading):
        """the number of leading / trailing zeros; one path per answer"""
        w = a.w
        p, lo, hi = self.unsigned(st, a)

        def yes(c):
            d = self.decide(st, c)
            if d is None:
                raise Split(c)
            return d
        if leading:
            x, y = 0, w                     # 2^(x-1) <= p < 2^y
            while x < y:
                m = (x + y) // 2
                if yes(cmp0(p - (1 << m), '<')):
                    y = m
                else:
                    x = m + 1
            return w - x
        for k in range(w):
            _, r = self.divmod_const(st, p, 2 << k, lo, hi)
            if not yes(cmp0(r, '==')):
                return k
        return w
