"""Exact integer polynomials over hash-consed atoms (atoms are z3 Int terms:
symbolic inputs, array selects, quotients...).  All mathematical-integer values
the verifier manipulates are kept in this normal form, so two expressions that
are equal as polynomials are the same object up to dictionary equality."""
import z3
from math import gcd

_atoms = []          # index -> z3 term
_atom_ids = {}       # z3 ast id -> index
_names = []


def atom(term, name=None):
    k = term.get_id()
    i = _atom_ids.get(k)
    if i is None:
        i = len(_atoms)
        _atoms.append(term)
        _atom_ids[k] = i
        _names.append(name or str(term))
    return i


def atom_term(i):
    return _atoms[i]


class Poly:
    __slots__ = ('m', '_h', '_z')

    def __init__(self, m):
        self.m = m
        self._h = None
        self._z = None

    @staticmethod
    def const(c):
        return Poly({(): c}) if c else Poly({})

    @staticmethod
    def var(term):
        return Poly({(atom(term),): 1})

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def cval(self):
        return self.m.get((), 0)

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __hash__(self):
        return hash(self.key())

    def __add__(self, o):
        if isinstance(o, int):
            o = Poly.const(o)
        if len(o.m) > len(self.m):
            self, o = o, self
        r = dict(self.m)
        for k, v in o.m.items():
            n = r.get(k, 0) + v
            if n:
                r[k] = n
            else:
                r.pop(k, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        if isinstance(o, int):
            o = Poly.const(o)
        r = dict(self.m)
        for k, v in o.m.items():
            n = r.get(k, 0) - v
            if n:
                r[k] = n
            else:
                r.pop(k, None)
        return Poly(r)

    def __rsub__(self, o):
        return Poly.const(o) - self

    def __mul__(self, o):
        if isinstance(o, int):
            return Poly({k: v * o for k, v in self.m.items()}) if o else Poly({})
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = tuple(sorted(k1 + k2)) if k1 and k2 else (k1 or k2)
                n = r.get(k, 0) + v1 * v2
                if n:
                    r[k] = n
                else:
                    r.pop(k, None)
        return Poly(r)

    __rmul__ = __mul__

    def degree(self):
        return max([len(k) for k in self.m] or [0])

    def content(self):
        g = 0
        for v in self.m.values():
            g = gcd(g, v)
        return g

    def z3(self):
        if self._z is None:
            ts = []
            for k, v in sorted(self.m.items()):
                t = None
                for a in k:
                    t = _atoms[a] if t is None else t * _atoms[a]
                if t is None:
                    t = z3.IntVal(v)
                elif v != 1:
                    t = z3.IntVal(v) * t
                ts.append(t)
            if not ts:
                self._z = z3.IntVal(0)
            elif len(ts) == 1:
                self._z = ts[0]
            else:
                self._z = z3.Sum(ts)
        return self._z

    def __repr__(self):
        def mono(k, v):
            s = '*'.join(_names[a] for a in k)
            return (str(v) if not s else (s if v == 1 else '%d*%s' % (v, s)))
        return ' + '.join(mono(k, v) for k, v in sorted(self.m.items())) or '0'


# ---- comparison atoms.  A polynomial of degree >= 2 is represented in the
# propositional/linear query by one opaque integer P_k (canonical up to content
# and sign); its definition is added only when the linear query does not settle
# the obligation.
_absvars = {}    # canonical key -> (z3 Int var, Poly)
ABS_BY_ID = {}   # z3 id -> Poly


def canon(p):
    """returns (canonical poly, positive/negative factor)"""
    g = p.content()
    if g == 0:
        return p, 1
    lead = p.key()[-1][1]
    s = 1 if lead > 0 else -1
    f = g * s
    return Poly({k: v // f for k, v in p.m.items()}), f


def abs_term(p):
    """z3 linear term for p (opaque variable for the nonlinear part)."""
    lin = {}
    non = {}
    for k, v in p.m.items():
        (non if len(k) >= 2 else lin)[k] = v
    if not non:
        return p.z3()
    q, f = canon(Poly(non))
    kk = q.key()
    e = _absvars.get(kk)
    if e is None:
        v = z3.Int('P!%d' % len(_absvars))
        e = (v, q)
        _absvars[kk] = e
        ABS_BY_ID[v.get_id()] = q
    t = e[0] if f == 1 else z3.IntVal(f) * e[0]
    if lin:
        t = t + Poly(lin).z3()
    return t


def cmp0(p, op):
    """z3 Bool (or python bool) for  p op 0, op in '<','<=','==','!=','>','>='."""
    if p.is_const():
        c = p.cval()
        return {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0, '>': c > 0, '>=': c >= 0}[op]
    if p.degree() >= 2:
        q, f = canon_full(p)
        if q.degree() >= 2 and f < 0:
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
        p = q
    elif len(p.m) >= 1:
        g = Poly({k: v for k, v in p.m.items() if k}).content()
        lead = p.key()[-1][1]
        if lead < 0:
            p = -p
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
    t = abs_term_atom(p)
    zero = z3.IntVal(0)
    if op == '<':
        return t < zero
    if op == '<=':
        return t <= zero
    if op == '==':
        return t == zero
    if op == '!=':
        return z3.Not(t == zero)
    if op == '>':
        return t > zero
    return t >= zero


def canon_full(p):
    return canon(p)


def abs_term_atom(p):
    if p.degree() < 2:
        return p.z3()
    return abs_term(p)


def expand_defs(exprs):
    """definitions P_k == poly for every opaque variable occurring in exprs"""
    seen = set()
    defs = []
    st = list(exprs)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        q = ABS_BY_ID.get(i)
        if q is not None:
            defs.append((e, q))
        st.extend(e.children())
    return defs
