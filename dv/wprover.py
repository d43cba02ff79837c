"""Prover for obligations about word arrays.

Terms: V(A,k) = sum_{j<k} A[j]*B^j,  P(k) = B^k  (B = 2^64),  Up(R,k,A) = the
array that is R below k and A from k on.  The prover brings every V/P/Select
term to a normal form relative to provably equal indices, eliminates variables
with unit-coefficient equations and hands the rest, with one integer variable
per monomial and instances of the axioms

    0 <= V(A,k) <= P(k)-1,  P(k) >= 1,  x <= y -> P(x) <= P(y),
    g >= 0 -> g*P >= 0,  0 <= x <= X and 0 <= y <= Y -> (X-x)*(Y-y) >= 0 ...

to z3's linear integer arithmetic.  Every rewriting step is an equality under
the path condition, every lemma is a theorem of integer arithmetic."""
import time
import z3
from . import poly
from .poly import Poly, cmp0

B = 1 << 64
IS = z3.IntSort()
AS = z3.ArraySort(IS, IS)
V = z3.Function('V', AS, IS, IS)
P = z3.Function('P', IS, IS)
Up = z3.Function('Up', AS, IS, AS, AS)

_has = {}


def has_vp(e):
    """does e mention V or P (memoised on ast id; terms are kept alive)"""
    r = _has.get(e.get_id())
    if r is not None:
        return r[0]
    res = False
    if z3.is_app(e):
        d = e.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() > 0 and d.name() in ('V', 'P'):
            res = True
        else:
            q = poly.ABS_BY_ID.get(e.get_id())
            if q is not None:
                res = any(has_vp(poly.atom_term(a)) for k in q.m for a in k)
            else:
                for c in e.children():
                    if has_vp(c):
                        res = True
                        break
    _has[e.get_id()] = (res, e)
    return res


def kind(e):
    return e.decl().kind()


def is_fn(e, n):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() == n


_zp = {}


def to_poly(e):
    r = _zp.get(e.get_id())
    if r is not None:
        return r[0]
    k = kind(e)
    if z3.is_int_value(e):
        r = Poly.const(e.as_long())
    elif k == z3.Z3_OP_ADD:
        r = Poly.const(0)
        for c in e.children():
            r = r + to_poly(c)
    elif k == z3.Z3_OP_MUL:
        r = Poly.const(1)
        for c in e.children():
            r = r * to_poly(c)
    elif k == z3.Z3_OP_SUB:
        cs = e.children()
        r = to_poly(cs[0])
        for c in cs[1:]:
            r = r - to_poly(c)
    elif k == z3.Z3_OP_UMINUS:
        r = -to_poly(e.children()[0])
    else:
        q = poly.ABS_BY_ID.get(e.get_id())
        r = q if q is not None else Poly.var(e)
    _zp[e.get_id()] = (r, e)
    return r


def subst_poly(p, m):
    """simultaneous substitution of atoms by polys"""
    if not any(a in m for k in p.m for a in k):
        return p
    r = Poly({})
    for k, c in p.m.items():
        t = Poly.const(c)
        rest = []
        for a in k:
            if a in m:
                t = t * m[a]
            else:
                rest.append(a)
        if rest:
            t = t * Poly({tuple(rest): 1})
        r = r + t
    return r


class Fail(Exception):
    pass


class WProver:
    def __init__(self, timeout=8000):
        self.timeout = timeout
        self.time = 0.0
        self.dump = None

    # ------------------------------------------------------------------
    def prove(self, pc, goal):
        """'proved' / 'unknown'"""
        self.pc = list(pc)
        self.lin = z3.Solver()
        self.lin.set('timeout', 2000)
        for c in pc:
            if not has_vp(c):
                self.lin.add(c)
        if self.lin.check() == z3.unsat:
            return 'proved', 'z3-linear'
        self.deccache = {}
        forms = list(pc)
        ng = z3.BoolVal(True) if goal is False else z3.Not(goal)
        self.raw = {}
        # pass 1: polynomials of all arithmetic atoms, V reduced to base arrays
        self.atoms = {}
        for f in forms + [ng]:
            self.collect(f)
        # pass 2: index classes
        self.classes()
        # pass 3: canonical polynomials
        self.canon_at = {}
        polys = {}
        for i, (e, op, p) in self.atoms.items():
            polys[i] = self.canonical(p)
        self.rulev = None
        if self.rules:
            for i in polys:
                polys[i] = self.rw(polys[i])
        # eliminate variables with the top level equations
        eqs = []
        for f in forms:
            if z3.is_eq(f) and f.get_id() in self.atoms:
                eqs.append(polys[f.get_id()])
            if z3.is_not(f) and False:
                pass
        eqs += self.class_eqs
        # quotients that the linear facts determine
        qs = set()
        for p in polys.values():
            for k in p.m:
                if len(k) >= 2:
                    qs.update(a for a in k if poly._names[a].startswith('q!'))
        if qs and self.lin.check() == z3.sat:
            mdl = self.lin.model()
            for a in sorted(qs)[:12]:
                v = mdl.eval(poly.atom_term(a), model_completion=True)
                if z3.is_int_value(v) and abs(v.as_long()) <= B and self.dec(poly.atom_term(a) == v) is True:
                    eqs.append(Poly({(a,): 1}) - v.as_long())
            same = {}
            for a in sorted(qs)[:12]:
                v = mdl.eval(poly.atom_term(a), model_completion=True)
                if z3.is_int_value(v):
                    for b in same.setdefault(v.as_long(), []):
                        if self.dec(poly.atom_term(a) == poly.atom_term(b)) is True:
                            eqs.append(Poly({(a,): 1}) - Poly({(b,): 1}))
                            break
                    else:
                        same[v.as_long()].append(a)
        sub = self.eliminate(eqs)
        self.bounds = self.const_bounds(forms, polys)
        fixed = {}
        for a, (lo, hi) in self.const_bounds(forms, {i: subst_poly(p, sub) for i, p in polys.items()}).items():
            if lo is not None and lo == hi and a not in sub and a not in [poly.atom(v) for v in self.pvar.values()]:
                fixed[a] = Poly.const(lo)
        if fixed:
            for a in list(sub):
                sub[a] = subst_poly(sub[a], fixed)
            sub.update(fixed)
        for i in polys:
            polys[i] = self.rw(subst_poly(polys[i], sub))
        # disequalities/goals that are now trivial
        s = z3.Solver()
        s.set('timeout', self.timeout)
        self.monos = {}
        self.polys = polys
        cache = {}
        for f in forms + [ng]:
            s.add(self.lift(f, cache))
        for l in self.lemmas():
            s.add(l)
        r = s.check()
        if self.dump and r != z3.unsat:
            self.show(s, polys, sub)
        if r == z3.unsat:
            return 'proved', 'z3-words'
        return ('refuted' if r == z3.sat else 'unknown'), 'z3-words'

    def show(self, s, polys, sub):
        print('---- elimination')
        for a, p in sub.items():
            print('   ', poly._names[a], ':=', p)
        print('---- atoms')
        for i, (e, op, p) in self.atoms.items():
            print('   ', op, polys[i])
        for k, v in self.canon_at.items():
            if isinstance(k, tuple) and k[0] == 'V':
                print('   ', v[1], '=', 'V of', v[2])
        print('---- classes')
        for i, c in enumerate(self.cls):
            print('   ', i, c)
        try:
            print(s.model())
        except z3.Z3Exception as x:
            print(x)

    # ------------------------------------------------------------ oracle
    def dec(self, c):
        """True: implied; False: negation implied; None"""
        if isinstance(c, bool):
            return c
        k = c.get_id()
        if k in self.deccache:
            return self.deccache[k][0]
        r = None
        self.lin.push()
        self.lin.add(z3.Not(c))
        if self.lin.check() == z3.unsat:
            r = True
        self.lin.pop()
        if r is None:
            self.lin.push()
            self.lin.add(c)
            if self.lin.check() == z3.unsat:
                r = False
            self.lin.pop()
        self.deccache[k] = (r, c)
        return r

    # ------------------------------------------------------------ pass 1
    def collect(self, f):
        seen = set()
        st = [f]
        while st:
            e = st.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            k = kind(e)
            if z3.is_bool(e):
                if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or (k == z3.Z3_OP_EQ and z3.is_int(e.arg(0))):
                    if i not in self.atoms:
                        op = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>', z3.Z3_OP_EQ: '=='}[k]
                        p = self.reduce(to_poly(e.arg(0)) - to_poly(e.arg(1)))
                        self.atoms[i] = (e, op, p)
                else:
                    st.extend(e.children())

    def reduce(self, p):
        m = {}
        for k in p.m:
            for a in k:
                if a not in m:
                    r = self.reduce_atom(a)
                    if r is not None:
                        m[a] = r
        return subst_poly(p, m)

    def reduce_atom(self, a):
        if a in self.raw:
            return self.raw[a]
        t = poly.atom_term(a)
        r = None
        if is_fn(t, 'V'):
            r = self.reduceV(t.arg(0), to_poly(t.arg(1)))
        elif z3.is_select(t):
            r = self.reduceS(t.arg(0), to_poly(t.arg(1)))
        elif kind(t) == z3.Z3_OP_ITE:
            c = self.dec(t.arg(0))
            if c is True:
                r = self.reduce(to_poly(t.arg(1)))
            elif c is False:
                r = self.reduce(to_poly(t.arg(2)))
        self.raw[a] = r
        return r

    def reduceS(self, arr, k):
        while True:
            if z3.is_store(arr):
                j = to_poly(arr.arg(1))
                c = self.dec(cmp0(k - j, '=='))
                if c is True:
                    return self.reduce(to_poly(arr.arg(2)))
                if c is False:
                    arr = arr.arg(0)
                    continue
            elif is_fn(arr, 'Up'):
                c = self.dec(cmp0(k - to_poly(arr.arg(1)), '<'))
                if c is True:
                    arr = arr.arg(0)
                    continue
                if c is False:
                    arr = arr.arg(2)
                    continue
            return Poly.var(z3.Select(arr, k.z3()))

    def reduceV(self, arr, k):
        if z3.is_store(arr):
            j = to_poly(arr.arg(1))
            c = self.dec(cmp0(j - k, '<'))
            if c is True and self.dec(cmp0(j, '>=')) is True:
                return self.reduceV(arr.arg(0), k) + (self.reduce(to_poly(arr.arg(2))) - self.reduceS(arr.arg(0), j)) * Poly.var(P(j.z3()))
            if c is False:
                return self.reduceV(arr.arg(0), k)
        elif is_fn(arr, 'Up'):
            j = to_poly(arr.arg(1))
            c = self.dec(cmp0(k - j, '<='))
            if c is True:
                return self.reduceV(arr.arg(0), k)
            if (c is False or self.dec(cmp0(j - k, '<=')) is True) and self.dec(cmp0(j, '>=')) is True:
                return self.reduceV(arr.arg(0), j) + self.reduceV(arr.arg(2), k) - self.reduceV(arr.arg(2), j)
        return Poly.var(V(arr, k.z3()))

    # ------------------------------------------------------------ pass 2
    def idx_terms(self):
        out = {}
        for i, (e, op, p) in self.atoms.items():
            for k in p.m:
                for a in k:
                    t = poly.atom_term(a)
                    if is_fn(t, 'V') or z3.is_select(t):
                        q = to_poly(t.arg(1))
                        out[q.key()] = q
                    elif is_fn(t, 'P'):
                        q = to_poly(t.arg(0))
                        out[q.key()] = q
        return out

    def classes(self):
        """partition of the index terms: same class iff the difference is a
        provable constant; member = base + off, base >= 0, off >= 0"""
        terms = sorted(self.idx_terms().values(), key=lambda q: (len(q.m), str(q.key())))
        self.cls = []          # [poly, {key: off}]
        self.cof = {}
        self.class_eqs = []
        model = None
        if self.lin.check() == z3.sat:
            model = self.lin.model()
        zero = Poly.const(0)
        reps = [(zero, {})]
        for q in terms:
            done = False
            for ci, (r, mem) in enumerate(reps):
                d = q - r
                if d.is_const():
                    mem[q.key()] = d.cval()
                    done = True
                    break
                if model is None:
                    continue
                try:
                    v = model.eval(d.z3(), model_completion=True).as_long()
                except (AttributeError, z3.Z3Exception):
                    continue
                if self.dec(cmp0(d - v, '==')) is True:
                    mem[q.key()] = v
                    self.class_eqs.append(d - v)
                    done = True
                    break
            if not done:
                reps.append((q, {q.key(): 0}))
        for ci, (r, mem) in enumerate(reps):
            if ci == 0:
                self.cls.append(['const', 0, mem, None])
                for k, o in mem.items():
                    self.cof[k] = (0, o)
                continue
            offs = sorted(set(mem.values()))
            base = None
            for o in offs:
                if self.dec(cmp0(r + o, '>=')) is True:
                    base = o
                    break
            if base is None:
                base = offs[-1]
            self.cls.append([r + base, base, mem, None])
            for k, o in mem.items():
                self.cof[k] = (ci, o - base)
        self.pvar = {}
        # P of a sum of two bases: P_c = P_a P_b B^d, or P_a P_b = P_c B^-d
        self.rules = {}
        n = len(self.cls)
        vals = {}
        if model is not None:
            for ci in range(1, n):
                v = model.eval(self.cls[ci][0].z3(), model_completion=True)
                vals[ci] = v.as_long() if z3.is_int_value(v) else None
        for ci in range(1, n):
            for a in range(1, n):
                for b in range(a, n):
                    if ci in (a, b) or self.cls[a][3] or self.cls[b][3] or self.cls[ci][3]:
                        continue
                    d = self.cls[ci][0] - self.cls[a][0] - self.cls[b][0]
                    if d.is_const():
                        v = d.cval()
                    else:
                        if None in (vals.get(ci), vals.get(a), vals.get(b)):
                            continue
                        v = vals[ci] - vals[a] - vals[b]
                        if abs(v) > 6 or self.dec(cmp0(d - v, '==')) is not True:
                            continue
                    if v >= 0:
                        self.cls[ci][3] = (a, b, v)
                    else:
                        self.rules[(a, b)] = (ci, -v)

    def rw(self, p):
        """rewrite products of powers"""
        if not self.rules:
            return p
        if self.rulev is None:
            self.rulev = {}
            for (a, b), (c, d) in self.rules.items():
                if a in self.pvar and b in self.pvar:
                    pc = self.P_(c, 0)
                    self.rulev[(poly.atom(self.pvar[a]), poly.atom(self.pvar[b]))] = (pc, B ** d)
        for _ in range(8):
            out, ch = Poly({}), False
            for k, c in p.m.items():
                hit = None
                for (x, y), (pc, f) in self.rulev.items():
                    if x in k and y in k and (x != y or k.count(x) > 1):
                        hit = (x, y, pc, f)
                        break
                if hit is None:
                    out = out + Poly({k: c})
                else:
                    r = list(k)
                    r.remove(hit[0])
                    r.remove(hit[1])
                    out = out + Poly({tuple(r): c}) * hit[2] * hit[3]
                    ch = True
            p = out
            if not ch:
                break
        return p

    def P_(self, ci, off):
        """P(base_ci + off), off >= 0"""
        if ci == 0:
            return Poly.const(B ** off)
        f = self.cls[ci][3]
        if f is not None:
            return self.P_(f[0], 0) * self.P_(f[1], 0) * (B ** (f[2] + off))
        v = self.pvar.get(ci)
        if v is None:
            v = z3.Int('P@%d' % ci)
            self.pvar[ci] = v
        return Poly.var(v) * (B ** off)

    # ------------------------------------------------------------ pass 3
    def canonical(self, p):
        m = {}
        for k in p.m:
            for a in k:
                if a not in m:
                    r = self.canon_atom(a)
                    if r is not None:
                        m[a] = r
        return subst_poly(p, m)

    def canon_atom(self, a):
        if a in self.canon_at:
            return self.canon_at[a]
        t = poly.atom_term(a)
        r = None
        if is_fn(t, 'P'):
            ci, off = self.cof[to_poly(t.arg(0)).key()]
            if off >= 0:
                r = self.P_(ci, off)
        elif z3.is_select(t):
            ci, off = self.cof[to_poly(t.arg(1)).key()]
            r = self.S_(t.arg(0), ci, off)
        elif is_fn(t, 'V'):
            ci, off = self.cof[to_poly(t.arg(1)).key()]
            if off >= 0:
                r = self.Vbase(t.arg(0), ci)
                for j in range(off):
                    r = r + self.S_(t.arg(0), ci, j) * self.P_(ci, j)
        self.canon_at[a] = r
        return r

    def S_(self, arr, ci, off):
        key = ('S', arr.get_id(), ci, off)
        v = self.canon_at.get(key)
        if v is None:
            t = z3.Int('S@%s@%d@%d' % (arr.get_id(), ci, off))
            v = (Poly.var(t), t, arr)
            self.canon_at[key] = v
        return v[0]

    def Vbase(self, arr, ci):
        if ci == 0:
            return Poly.const(0)
        key = ('V', arr.get_id(), ci)
        v = self.canon_at.get(key)
        if v is None:
            t = z3.Int('V@%s@%d' % (arr.get_id(), ci))
            v = (Poly.var(t), t, arr)
            self.canon_at[key] = v
        return v[0]

    # ------------------------------------------------------------ elimination
    def eliminate(self, eqs):
        sub = {}
        todo = [e for e in eqs if e.m]
        pats = set(poly.atom(v) for v in self.pvar.values())
        progress = True
        while progress and todo:
            progress = False
            rest = []
            for e in sorted(todo, key=lambda q: len(q.m)):
                e = subst_poly(e, sub)
                if not e.m or e.is_const():
                    if e.m:
                        rest.append(e)
                    continue
                occ = {}
                for k in e.m:
                    for a in set(k):
                        occ[a] = occ.get(a, 0) + 1
                best = None
                for k, c in e.m.items():
                    if len(k) == 1 and c in (1, -1) and occ[k[0]] == 1 and k[0] not in pats:
                        a = k[0]
                        n = poly._names[a]
                        # prefer ghost and quotient variables, then V, then words
                        rank = 0 if n.startswith('r!') else 1 if not n.startswith(('S@', 'V@', 'q!')) else 2 if n.startswith('V@') else 3 if n.startswith('q!') else 4
                        cand = (rank, -a)
                        if best is None or cand < best[0]:
                            best = (cand, a, c)
                if best is None:
                    rest.append(e)
                    continue
                _, a, c = best
                r = Poly({k: v for k, v in e.m.items() if k != (a,)})
                r = r * (-1 if c == 1 else 1)
                one = {a: r}
                for x in list(sub):
                    sub[x] = subst_poly(sub[x], one)
                sub[a] = r
                progress = True
            todo = rest
        # keep the defining equation of eliminated words through their bounds
        self.sub = sub
        return sub

    # ------------------------------------------------------------ LIA
    def mono(self, k):
        if len(k) == 1:
            self.monos.setdefault(k, poly.atom_term(k[0]))
            return poly.atom_term(k[0])
        v = self.monos.get(k)
        if v is None:
            v = z3.Int('M@%s' % '_'.join(map(str, k)))
            self.monos[k] = v
        return v

    def linear(self, p):
        ts = []
        for k, c in p.m.items():
            if not k:
                ts.append(z3.IntVal(c))
            elif c == 1:
                ts.append(self.mono(k))
            else:
                ts.append(z3.IntVal(c) * self.mono(k))
        return z3.Sum(ts) if ts else z3.IntVal(0)

    def cmp(self, p, op):
        p = self.rw(p)
        if p.is_const():
            c = p.cval()
            return z3.BoolVal({'<': c < 0, '<=': c <= 0, '==': c == 0, '>': c > 0, '>=': c >= 0}[op])
        # normalise: divide by content
        g = Poly({k: v for k, v in p.m.items() if k}).content()
        t = self.linear(p)
        return {'<': t < 0, '<=': t <= 0, '==': t == 0, '>': t > 0, '>=': t >= 0}[op]

    def lift(self, f, cache):
        i = f.get_id()
        if i in cache:
            return cache[i]
        if i in self.atoms:
            r = self.cmp(self.polys[i], self.atoms[i][1])
        elif not f.children():
            r = f
        else:
            cs = [self.lift(c, cache) for c in f.children()]
            k = kind(f)
            if k == z3.Z3_OP_AND:
                r = z3.And(*cs)
            elif k == z3.Z3_OP_OR:
                r = z3.Or(*cs)
            elif k == z3.Z3_OP_NOT:
                r = z3.Not(cs[0])
            elif k == z3.Z3_OP_IMPLIES:
                r = z3.Implies(cs[0], cs[1])
            elif k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
                r = cs[0] == cs[1]
            elif k == z3.Z3_OP_XOR:
                r = z3.Xor(cs[0], cs[1])
            elif k == z3.Z3_OP_ITE:
                r = z3.If(cs[0], cs[1], cs[2])
            elif k == z3.Z3_OP_DISTINCT and len(cs) == 2:
                r = z3.Not(cs[0] == cs[1])
            else:
                r = z3.Bool('opaque!%d' % i)
        cache[i] = r
        return r

    def lemmas(self):
        out = []
        pv = {poly.atom(v): ci for ci, v in self.pvar.items()}
        # the variables behind V and S
        ub = {}
        for key, v in list(self.canon_at.items()):
            if isinstance(key, tuple) and key[0] == 'V':
                a = poly.atom(v[1])
                p = self.P_(key[2], 0)
                ub[a] = p - 1
            elif isinstance(key, tuple) and key[0] == 'S':
                ub[poly.atom(v[1])] = Poly.const(B - 1)
        pv = {poly.atom(v): ci for ci, v in self.pvar.items()}
        for a, u in list(ub.items()):
            x = subst_poly(Poly({(a,): 1}), self.sub)
            out.append(self.cmp(x, '>='))
            out.append(self.cmp(subst_poly(u, self.sub) - x, '>='))
        # products with powers
        names = set(self.monos)
        prods = []
        atoms = [(self.polys[i], op) for i, (e, op, p) in self.atoms.items()]
        seen = set()
        for p, op in atoms + [(subst_poly(Poly({(a,): 1}), self.sub), '>=') for a in ub] + \
                [(subst_poly(u - Poly({(a,): 1}), self.sub), '>=') for a, u in ub.items() if u.is_const()]:
            if p.is_const() or p.degree() > 2:
                continue
            if any(x in pv for k in p.m for x in k):
                continue
            for pa in pv:
                pp = Poly({(pa,): 1})
                g = p * pp
                if (g.key(), op) in seen:
                    continue
                if not all(k == (pa,) or k in self.monos for k in g.m):
                    continue
                seen.add((g.key(), op))
                prods.append((p, op, g, pp))
        for p, op, g, pp in prods:
            if op in ('<', '>='):
                out.append(z3.Implies(self.cmp(p, '>='), self.cmp(g, '>=')))
                out.append(z3.Implies(self.cmp(p + 1, '<='), self.cmp(g + pp, '<=')))
            elif op in ('<=', '>'):
                out.append(z3.Implies(self.cmp(p, '<='), self.cmp(g, '<=')))
                out.append(z3.Implies(self.cmp(p - 1, '>='), self.cmp(g - pp, '>=')))
            else:
                out.append(z3.Implies(self.cmp(p, '=='), self.cmp(g, '==')))
                out.append(z3.Implies(self.cmp(p + 1, '<='), self.cmp(g + pp, '<=')))
                out.append(z3.Implies(self.cmp(p - 1, '>='), self.cmp(g - pp, '>=')))
        # products of bounded factors: every corner product is >= 0
        lob = {}
        for a in ub:
            lo, hi = self.bounds.get(a, (None, None))
            lob[a] = Poly.const(max(lo or 0, 0))
            if hi is not None and (not ub[a].is_const() or hi < ub[a].cval()):
                ub[a] = Poly.const(hi)
        for a, (lo, hi) in self.bounds.items():
            if a not in ub and a not in pv and lo is not None and hi is not None:
                lob[a], ub[a] = Poly.const(lo), Poly.const(hi)
        # word*word products: sharper bounds implied by the linear facts
        sterm = {}
        for key, v in self.canon_at.items():
            if isinstance(key, tuple) and key[0] == 'S':
                sterm[poly.atom(v[1])] = z3.Select(v[2], (self.cls[key[2]][0] + key[3]).z3()) if key[2] else z3.Select(v[2], z3.IntVal(key[3]))
        for k in list(self.monos):
            sk = [x for x in k if x in sterm]
            if len(sk) < 2:
                continue
            for x in sk:
                t = sterm.pop(x, None)
                if t is None:
                    continue
                for c in (1 << 31, 1 << 32, 1 << 63):
                    if self.dec(t <= c - 1) is True:
                        if ub[x].is_const() and ub[x].cval() > c - 1:
                            ub[x] = Poly.const(c - 1)
                        break
                    if c < 1 << 63 and self.dec(t <= c) is True:
                        if ub[x].is_const() and ub[x].cval() > c:
                            ub[x] = Poly.const(c)
                        break
                for c in (1 << 31, 1 << 32, 1 << 63):
                    if self.dec(t >= B - c) is True:
                        if lob[x].cval() < B - c:
                            lob[x] = Poly.const(B - c)
                        break
        done = set()
        for rnd in range(2):
            for k in list(self.monos):
                if len(k) < 2 or k in done:
                    continue
                done.add(k)
                ps = [x for x in k if x in pv]
                bs = [x for x in k if x in ub]
                if len(ps) + len(bs) != len(k) or len(bs) > 3 or len(k) > 5:
                    continue
                if len(bs) == 0:
                    if len(k) == 2:
                        x, y = Poly({(k[0],): 1}), Poly({(k[1],): 1})
                        out.append(self.cmp((x - 1) * (y - 1), '>='))
                    else:
                        out.append(self.cmp(Poly({k: 1}) - 1, '>='))
                    continue
                pm = Poly({tuple(sorted(ps)): 1}) if ps else Poly.const(1)
                corners = [pm]
                for x in bs:
                    X = Poly({(x,): 1})
                    corners = [c * g for c in corners for g in (X - lob[x], ub[x] - X)]
                for c in corners:
                    out.append(self.cmp(subst_poly(c, self.sub), '>='))
                if len(ps) == 1:
                    # P >= 1
                    pm = Poly({(ps[0],): 1}) - 1
                    for x in bs[:1] if len(bs) == 1 else []:
                        X = Poly({(x,): 1})
                        out.append(self.cmp(subst_poly(pm * (X - lob[x]), self.sub), '>='))
                        if ub[x].is_const():
                            out.append(self.cmp(subst_poly(pm * (ub[x] - X), self.sub), '>='))
            break
        # powers
        pl = list(self.pvar.items())
        for i, (ci, v) in enumerate(pl):
            out.append(v >= 1)
            r = self.cls[ci][0]
            c = self.dec(cmp0(r - 1, '>='))
            if c is True:
                out.append(v >= B)
            elif c is None:
                out.append(z3.Implies(self.lin_idx(r - 1, '>='), v >= B))
                out.append(z3.Implies(self.lin_idx(r, '=='), v == 1))
            else:
                out.append(v == 1)
            for cj, w in pl[i + 1:]:
                s = self.cls[cj][0]
                for a, b, x, y in ((r, s, v, w), (s, r, w, v)):
                    lt = self.dec(cmp0(a - b, '<'))
                    if lt is True:
                        out.append(x * B <= y)
                        continue
                    le = self.dec(cmp0(a - b, '<='))
                    if le is True:
                        out.append(x <= y)
                    elif le is None:
                        out.append(z3.Implies(self.lin_idx(a - b, '<='), x <= y))
                        out.append(z3.Implies(self.lin_idx(a - b, '<'), x * B <= y))
        # values: more words, larger value
        vs = [(k, v) for k, v in self.canon_at.items() if isinstance(k, tuple) and k[0] == 'V']
        for i, (k1, v1) in enumerate(vs):
            for k2, v2 in vs[i + 1:]:
                if k1[1] != k2[1]:
                    continue
                r, s = self.cls[k1[2]][0], self.cls[k2[2]][0]
                x, y = [subst_poly(Poly({(poly.atom(v[1]),): 1}), self.sub) for v in (v1, v2)]
                le = self.dec(cmp0(r - s, '<='))
                if le is True:
                    out.append(self.cmp(x - y, '<='))
                elif le is False:
                    out.append(self.cmp(x - y, '>='))
        return out

    def const_bounds(self, forms, polys):
        """constant bounds of variables given by top-level facts"""
        out = {}
        neg = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': None}
        for f in forms:
            g, sgn = f, True
            if z3.is_not(f):
                g, sgn = f.arg(0), False
            i = g.get_id()
            if i not in self.atoms:
                continue
            op = self.atoms[i][1]
            if not sgn:
                op = neg[op]
            p = polys[i]
            kc = [(k, c) for k, c in p.m.items() if k]
            if op is None or len(kc) != 1 or len(kc[0][0]) != 1:
                continue
            k, c = kc[0]
            d = p.m.get((), 0)
            # c*x + d op 0
            if c < 0:
                c, d, op = -c, -d, {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '=='}[op]
            b = out.setdefault(k[0], [None, None])
            lo = hi = None
            if op == '==' and d % c == 0:
                lo = hi = -d // c
            elif op == '>=':
                lo = -(d // c)
            elif op == '>':
                lo = -d // c + 1
            elif op == '<=':
                hi = -d // c
            elif op == '<':
                hi = -(d // c) - 1
            if lo is not None and (b[0] is None or lo > b[0]):
                b[0] = lo
            if hi is not None and (b[1] is None or hi < b[1]):
                b[1] = hi
        return out

    def lin_idx(self, p, op):
        p = subst_poly(p, self.sub)
        return self.cmp(p, op)
