"""Back ends.  Stage 1: linear abstraction (nonlinear polynomials opaque) in z3.
Stage 2: definitions added, z3 nonlinear integers; stage 3: relaxation to reals
(nlsat, complete for polynomial arithmetic); stage 4: cvc5; for equalities also
ideal membership (Groebner basis over Q)."""
import os
import subprocess
import tempfile
import time
import z3
from . import poly
from .poly import expand_defs


class Solver:
    def __init__(self, t_lin=4000, t_nl=8000, t_cvc=10, t_feas=150, want_models=True, inc=False):
        self.inc = z3.Solver() if inc else None
        self.inc_ids = []     # ids of what is asserted in inc (and the terms)
        self.inc_scopes = []  # number of assertions at each push
        self.t_lin = t_lin
        self.t_nl = t_nl
        self.t_cvc = t_cvc
        self.t_feas = t_feas
        self.stats = {}
        self.time = 0.0
        self.fcache = {}
        self.want_models = want_models
        self.nfeas = 0
        self.hints = []       # functions(pc, goal) -> extra lemmas

    def _solver(self, timeout):
        s = z3.SolverFor('QF_AUFLIA') if False else z3.Solver()
        s.set('timeout', timeout)
        return s

    def inc_check(self, pc, c, timeout):
        """satisfiability of pc & c with a solver kept between the queries"""
        s = self.inc
        k = 0
        ids = self.inc_ids
        for (i, _), x in zip(ids, pc):
            if i != x.get_id():
                break
            k += 1
        while len(self.inc_ids) > k:
            s.pop()
            del self.inc_ids[self.inc_scopes.pop():]
        if len(self.inc_ids) < len(pc):
            # one scope per dozen of assertions
            i = len(self.inc_ids)
            while i < len(pc):
                s.push()
                self.inc_scopes.append(i)
                for x in pc[i:i + 12]:
                    s.add(x)
                    self.inc_ids.append((x.get_id(), x))
                i += 12
        s.set('timeout', timeout)
        s.push()
        s.add(c)
        r = s.check()
        m = s.model() if r == z3.sat else None
        s.pop()
        return r, m

    def feasible(self, pc, c):
        """False only when pc & c is unsatisfiable"""
        key = (tuple(x.get_id() for x in pc), c.get_id())
        r = self.fcache.get(key)
        if r is not None:
            return r[0]
        self.nfeas += 1
        t0 = time.time()
        if self.inc is not None:
            r, _ = self.inc_check(pc, c, self.t_feas)
            if r != z3.unsat and len(pc) < 60:
                s = self._solver(self.t_feas)
                for x in pc:
                    s.add(x)
                s.add(c)
        else:
            s = self._solver(self.t_feas)
            for x in pc:
                s.add(x)
            s.add(c)
            r = s.check()
        self.time += time.time() - t0
        res = r != z3.unsat
        if res and len(pc) < 60:
            # cheap second look with sign reasoning for products
            defs = expand_defs(list(pc) + [c])
            lem = product_lemmas(defs)
            if lem:
                for l in lem:
                    s.add(l)
                if s.check() == z3.unsat:
                    res = False
        self.fcache[key] = (res, pc[:] if len(pc) < 400 else None, c)
        return res

    def prove(self, st, goal):
        t0 = time.time()
        try:
            return self._prove(st, goal)
        finally:
            self.time += time.time() - t0

    def _note(self, b):
        self.stats[b] = self.stats.get(b, 0) + 1

    def _prove(self, st, goal):
        pc = st.pc
        ng = z3.BoolVal(True) if goal is False else z3.Not(goal)
        if goal is False:
            ng = z3.BoolVal(True)
        if self.inc is not None and self.inc_check(pc, ng, self.t_lin)[0] == z3.unsat:
            self._note('z3-linear')
            return 'proved', 'z3-linear', None
        s = self._solver(self.t_lin)
        for x in pc:
            s.add(x)
        s.add(ng)
        r = s.check()
        if r == z3.unsat:
            self._note('z3-linear')
            return 'proved', 'z3-linear', None
        model = s.model() if r == z3.sat else None
        defs = expand_defs(list(pc) + [ng])
        if r == z3.sat and not defs:
            return 'refuted', 'z3', model
        # product sign lemmas
        lem = product_lemmas(defs)
        if lem:
            for l in lem:
                s.add(l)
            if s.check() == z3.unsat:
                self._note('z3-linear+sign')
                return 'proved', 'z3-linear+sign', None
        if ideal_proves(pc, goal, defs):
            self._note('groebner')
            return 'proved', 'groebner', None
        # pure polynomial: reals first (complete), then integers
        exprs = list(pc) + [ng]
        sub = [(v, q.z3()) for v, q in defs]
        ex2 = exprs
        for _ in range(3):
            ex2 = [z3.substitute(e, *sub) for e in ex2]
        res = real_check(ex2, self.t_nl)
        if res == 'unsat':
            self._note('z3-nlsat')
            return 'proved', 'z3-nlsat', None
        s2 = self._solver(self.t_nl)
        for e in ex2:
            s2.add(e)
        r = s2.check()
        if r == z3.unsat:
            self._note('z3-nia')
            return 'proved', 'z3-nia', None
        if r == z3.sat:
            return 'refuted', 'z3-nia', s2.model()
        r = cvc5_check(ex2, self.t_cvc)
        if r == 'unsat':
            self._note('cvc5')
            return 'proved', 'cvc5', None
        # small-model search for a counterexample
        m = small_model(ex2)
        if m is not None:
            return 'refuted', 'z3-small', m
        return 'unknown', 'timeout', None


def small_model(exprs):
    vs = int_vars(exprs)
    for b in (2, 5):
        s = z3.Solver()
        s.set('timeout', 3000)
        for e in exprs:
            s.add(e)
        for v in vs:
            s.add(v >= -b, v <= b)
        if s.check() == z3.sat:
            return s.model()
    return None


def int_vars(exprs):
    seen = set()
    out = []
    st = list(exprs)
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and z3.is_int(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(e)
        st.extend(e.children())
    return out


def product_lemmas(defs):
    """sign of an opaque polynomial that is a single monomial or factors into
    polynomials that also occur: P = c*x*y*..."""
    out = []
    for v, q in defs:
        # q = c * (monomial content) * rest
        common = None
        for k in q.m:
            c = {}
            for a in k:
                c[a] = c.get(a, 0) + 1
            common = c if common is None else {a: min(n, c[a]) for a, n in common.items() if a in c}
        if not common:
            continue
        rest = {}
        for k, c in q.m.items():
            l = list(k)
            for a, n in common.items():
                for _ in range(n):
                    l.remove(a)
            rest[tuple(l)] = c
        rest = poly.Poly(rest)
        fs = []
        for a, n in common.items():
            fs.extend([poly.atom_term(a)] * (1 if n % 2 else 2))
        if rest.is_const():
            out.append(sign_product(v, fs, rest.cval()))
        else:
            rc, f = poly.canon(rest)
            out.append(sign_product(v, fs + [poly.abs_term(rc)], f))
    # factor pairs: P_i == P_j * P_k
    if 3 <= len(defs) <= 40:
        ks = {}
        for v, q in defs:
            ks[q.key()] = v
        for i, (v1, q1) in enumerate(defs):
            for v2, q2 in defs[i:]:
                if q1.degree() + q2.degree() > 12:
                    continue
                if len(q1.m) * len(q2.m) > 400:
                    continue
                p, f = poly.canon(q1 * q2)
                if p.key() in ks:
                    out.append(sign_product(ks[p.key()], [v1, v2], f))
    for v, q in defs:
        # even powers
        if all(len(k) % 2 == 0 and all(k[i] == k[i + 1] for i in range(0, len(k), 2)) and c > 0 for k, c in q.m.items()):
            out.append(v >= 0)
            if all(len(k) > 0 for k in q.m):
                out.append((v == 0) == z3.And(*[z3.Or(*[poly.atom_term(a) == 0 for a in set(k)]) for k in q.m]))
    return out


def remove1(k, a):
    l = list(k)
    l.remove(a)
    return l


def sign_product(v, fs, c):
    neg = z3.BoolVal(c < 0)
    for f in fs:
        neg = z3.Xor(neg, f < 0)
    zero = z3.Or(*[f == 0 for f in fs])
    return z3.And((v == 0) == zero, z3.Implies(z3.Not(zero), (v < 0) == neg))


def real_check(exprs, timeout):
    """relax Int to Real; sound for unsat.  Only pure arithmetic/boolean terms."""
    cache = {}
    vars_ = {}

    def conv(e):
        i = e.get_id()
        if i in cache:
            return cache[i]
        k = e.decl().kind() if z3.is_app(e) else None
        ch = e.children()
        if z3.is_int_value(e):
            r = z3.RealVal(e.as_long())
        elif z3.is_int(e) and k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) or (z3.is_int(e) and k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD)):
            r = vars_.setdefault(i, z3.Real('r!%d' % len(vars_)))
        else:
            cs = [conv(c) for c in ch]
            if k == z3.Z3_OP_ADD:
                r = z3.Sum(cs)
            elif k == z3.Z3_OP_MUL:
                r = cs[0]
                for c in cs[1:]:
                    r = r * c
            elif k == z3.Z3_OP_SUB:
                r = cs[0]
                for c in cs[1:]:
                    r = r - c
            elif k == z3.Z3_OP_UMINUS:
                r = -cs[0]
            elif k == z3.Z3_OP_LE:
                r = cs[0] <= cs[1]
            elif k == z3.Z3_OP_LT:
                # integers: a < b
                r = cs[0] < cs[1]
            elif k == z3.Z3_OP_GE:
                r = cs[0] >= cs[1]
            elif k == z3.Z3_OP_GT:
                r = cs[0] > cs[1]
            elif k == z3.Z3_OP_EQ:
                r = cs[0] == cs[1]
            elif k == z3.Z3_OP_DISTINCT:
                r = z3.Distinct(*cs)
            elif k == z3.Z3_OP_ITE:
                r = z3.If(cs[0], cs[1], cs[2])
            elif k == z3.Z3_OP_NOT:
                r = z3.Not(cs[0])
            elif k == z3.Z3_OP_AND:
                r = z3.And(*cs)
            elif k == z3.Z3_OP_OR:
                r = z3.Or(*cs)
            elif k == z3.Z3_OP_XOR:
                r = z3.Xor(cs[0], cs[1])
            elif k == z3.Z3_OP_IMPLIES:
                r = z3.Implies(cs[0], cs[1])
            elif k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE) or (z3.is_bool(e) and k == z3.Z3_OP_UNINTERPRETED and not ch):
                r = e
            else:
                raise ValueError(e.decl().name())
        cache[i] = r
        return r
    try:
        es = [conv(e) for e in exprs]
    except (ValueError, z3.Z3Exception):
        return 'n/a'
    t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'qfnra-nlsat')
    g = z3.Goal()
    s = t.solver()
    s.set('timeout', timeout)
    for e in es:
        s.add(e)
    try:
        r = s.check()
    except z3.Z3Exception:
        return 'unknown'
    return str(r)


def cvc5_check(exprs, timeout):
    s = z3.Solver()
    for e in exprs:
        s.add(e)
    txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        fn = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), '--nl-cov', fn], capture_output=True, text=True, timeout=timeout + 5)
        out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
    except (subprocess.TimeoutExpired, FileNotFoundError):
        out = 'unknown'
    finally:
        os.unlink(fn)
    return out


def eq_polys(pc):
    return [x for x in pc if z3.is_eq(x) and z3.is_int(x.arg(0))]


def z3_to_poly(e):
    """z3 arithmetic term -> Poly (opaque P! expanded)"""
    k = e.decl().kind() if z3.is_app(e) else None
    if z3.is_int_value(e):
        return poly.Poly.const(e.as_long())
    if k == z3.Z3_OP_ADD:
        r = poly.Poly.const(0)
        for c in e.children():
            r = r + z3_to_poly(c)
        return r
    if k == z3.Z3_OP_MUL:
        r = poly.Poly.const(1)
        for c in e.children():
            r = r * z3_to_poly(c)
        return r
    if k == z3.Z3_OP_SUB:
        cs = e.children()
        r = z3_to_poly(cs[0])
        for c in cs[1:]:
            r = r - z3_to_poly(c)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -z3_to_poly(e.children()[0])
    q = poly.ABS_BY_ID.get(e.get_id())
    if q is not None:
        return q
    return poly.Poly.var(e)


def split_disj(goal):
    return [goal]


def ideal_proves(pc, goal, defs):
    """goal is an equation (or pc contains the negation of one) that lies in the
    ideal generated by the equations of the path condition"""
    if goal is False or goal is True:
        goals = []
    elif z3.is_eq(goal) and z3.is_int(goal.arg(0)):
        goals = [goal]
    else:
        goals = []
    # disequalities assumed on the path: refuting one proves anything
    goals += [x.arg(0) for x in pc if z3.is_not(x) and z3.is_eq(x.arg(0)) and z3.is_int(x.arg(0).arg(0))]
    hyps = [z3_to_poly(x.arg(0)) - z3_to_poly(x.arg(1)) for x in eq_polys(pc)]
    hyps = [h for h in hyps if h.m]
    if not goals or not hyps or len(hyps) > 8:
        return False
    gs = [z3_to_poly(g.arg(0)) - z3_to_poly(g.arg(1)) for g in goals]
    if any(not g.m for g in gs):
        return True
    if any(in_span(hyps, g) for g in gs):
        return True
    import signal

    class TO(Exception):
        pass

    def onalarm(*_):
        raise TO()
    try:
        import sympy
        from sympy import groebner, symbols
        at = sorted({a for p in hyps + gs for k in p.m for a in k})
        if len(at) > 16:
            return False
        sy = {a: sympy.Symbol('x%d' % a) for a in at}

        def conv(p):
            return sum(c * sympy.Mul(*[sy[a] for a in k]) for k, c in p.m.items())
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(6)
        try:
            gb = groebner([conv(h) for h in hyps], *[sy[a] for a in at], order='grevlex')
            for g in gs:
                if gb.contains(conv(g)):
                    return True
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
    except TO:
        return False
    except Exception:
        return False
    return False


PRIME = (1 << 61) - 1


def divide(t, u):
    """monomial t / u, or None (monomials are sorted tuples of atoms)"""
    t = list(t)
    for a in u:
        if a not in t:
            return None
        t.remove(a)
    return tuple(t)


def in_span(hyps, g, cap=1500):
    """g = sum of (polynomial multiples of the hyps), with multipliers found among
    the monomials that can cancel: linear algebra modulo a prime, the combination
    is then checked exactly"""
    from fractions import Fraction
    cols, target, new = {}, set(), set(g.m)
    for _ in range(3):
        target |= new
        nxt = set()
        for i, h in enumerate(hyps):
            for u in h.m:
                for t in new:
                    mu = divide(t, u)
                    if mu is None or (i, mu) in cols:
                        continue
                    v = h * poly.Poly({mu: 1})
                    cols[(i, mu)] = v.m
                    nxt |= set(v.m)
                    if len(cols) > cap:
                        return False
        new = nxt - target
        if not new:
            break
        r = solve_span(cols, g.m)
        if r is not None:
            break
    else:
        r = None
    if not new:
        r = solve_span(cols, g.m)
    if r is None:
        return False
    acc = {}
    for k, c in r.items():
        c = rational(c)
        if c is None:
            return False
        for mm, x in cols[k].items():
            acc[mm] = acc.get(mm, Fraction(0)) + c * x
    for mm, x in g.m.items():
        acc[mm] = acc.get(mm, Fraction(0)) - x
    return all(x == 0 for x in acc.values())


def rational(c):
    from fractions import Fraction
    a, b, x, y = PRIME, 0, c % PRIME, 1
    while x > (1 << 29):
        q = a // x
        a, x = x, a - q * x
        b, y = y, b - q * y
    if y == 0 or abs(y) > (1 << 29):
        return None
    return Fraction(x, y)


def solve_span(cols, g):
    rows = {}           # pivot monomial -> (row, combination)

    def reduce(v, comb):
        while True:
            t = None
            for k in v:
                if k in rows:
                    t = k
                    break
            if t is None:
                return v, comb
            c = v[t]
            rv, rc = rows[t]
            for k, x in rv.items():
                y = (v.get(k, 0) - c * x) % PRIME
                if y:
                    v[k] = y
                else:
                    v.pop(k, None)
            for k, x in rc.items():
                y = (comb.get(k, 0) - c * x) % PRIME
                if y:
                    comb[k] = y
                else:
                    comb.pop(k, None)
    for key, v in cols.items():
        v, comb = reduce({k: x % PRIME for k, x in v.items()}, {key: 1})
        if not v:
            continue
        t = next(iter(v))
        inv = pow(v[t], PRIME - 2, PRIME)
        v = {k: x * inv % PRIME for k, x in v.items()}
        comb = {k: x * inv % PRIME for k, x in comb.items()}
        # keep the rows reduced
        for t2, (v2, c2) in rows.items():
            c = v2.get(t)
            if c:
                for k, x in v.items():
                    y = (v2.get(k, 0) - c * x) % PRIME
                    if y:
                        v2[k] = y
                    else:
                        v2.pop(k, None)
                for k, x in comb.items():
                    y = (c2.get(k, 0) - c * x) % PRIME
                    if y:
                        c2[k] = y
                    else:
                        c2.pop(k, None)
        rows[t] = (v, comb)
    v, comb = reduce({k: x % PRIME for k, x in g.items()}, {})
    if v:
        return None
    return {k: -x % PRIME for k, x in comb.items()}
