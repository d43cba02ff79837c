"""Cutting loops with inductive invariants.

A loop specification is a Python function spec(L) registered for (demangled
function, loop ordinal).  It calls L.inv(label, cond) for every conjunct,
L.below(name, idx) for word arrays that are only changed below idx, and
L.variant(measure).  Establishing the invariant on entry and re-establishing it
on every back edge are obligations; memory that the body changes is found by
comparing the state at the back edge with the state at the cut, and havocked."""
import re
import z3
from .poly import Poly, cmp0
from .engine import (IV, Ptr, ZV, UNDEF, const, Not, And, Or, Unsupported, Split, Restart)
from . import words as W
from .wprover import Up, to_poly, is_fn


class SpecError(Exception):
    pass


class Loop:
    def __init__(self, e, st, fr, vals, saved, phase):
        self.e = e
        self.st = st
        self.fr = fr
        self.vals = vals
        self.saved = saved
        self.phase = phase
        self.invs = []
        self.belows = []
        self.var = None

    # ---- variables
    def iv(self, name):
        """integer variable: loop phi, register or local memory.  A renamed
        variable is recognised when it is the only candidate of its kind."""
        rx = re.compile(r'%%%s\d*(\.sroa\.\d+|\.\d+|\.coerce|\.copyload)*$' % re.escape(name))
        for d, v in self.vals.items():
            if rx.match(d):
                return v
        best = None
        for d, v in self.fr.regs.items():
            if rx.match(d):
                best = (d, v)
        if best is None:
            w = {'i': 64, 'carry': 1}.get(name, 0)
            cand = [v for d, v in self.vals.items() if (isinstance(v, IV) and v.w == w) or
                    (w == 1 and isinstance(v, (bool, z3.BoolRef)))]
            if w == 1 and not cand:
                for d, v in self.fr.regs.items():
                    if isinstance(v, Ptr) and v.rid in self.st.mem:
                        r = self.st.mem[v.rid]
                        if r.size == 1 and list(r.cells) == [0] and isinstance(r.cells[0][1], (IV, bool, z3.BoolRef)):
                            cand.append(r.cells[0][1])
            if len(cand) != 1:
                raise SpecError('no variable ' + name)
            return cand[0]
        v = best[1]
        if isinstance(v, Ptr):
            r = self.st.mem[v.rid]
            c = r.cells.get(v.off)
            if c is None:
                raise SpecError('variable %s has no value' % name)
            return c[1]
        return v

    def mem(self, name):
        """value of the word-sized local object `name` (the last one if several)"""
        rx = re.compile(r'%%%s\d*$' % re.escape(name))
        best = None
        for d, v in self.fr.regs.items():
            if rx.match(d) and isinstance(v, Ptr) and v.rid in self.st.mem:
                c = self.st.mem[v.rid].cells.get(v.off)
                if c is not None and isinstance(c[1], IV):
                    best = c[1]
        if best is None:
            raise SpecError('no local ' + name)
        return self.e.unsigned(self.st, best)[0]

    def u(self, name):
        v = self.iv(name)
        if isinstance(v, (bool, z3.BoolRef)):
            v = self.e.bool_iv(self.st, v, 8)
        return self.e.unsigned(self.st, v)[0]

    def has(self, name):
        try:
            self.iv(name)
            return True
        except SpecError:
            return False

    def bit(self, name):
        """value of a bool variable as a concrete 0/1 (splits the path)"""
        v = self.iv(name)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, z3.BoolRef):
            return int(self.decide(v))
        p = v.p
        if p.is_const():
            return p.cval()
        d = self.decide(cmp0(p, '=='))
        if not d:
            self.st.assume(cmp0(p - 1, '=='))
        return 0 if d else 1

    def ptr(self, name):
        v = self.fr.regs.get('%' + name)
        if not isinstance(v, Ptr):
            raise SpecError('no object ' + name)
        return v

    def decide(self, c):
        if isinstance(c, bool):
            return c
        d = self.e.quick(self.st, c)
        if d is None:
            d = self.e.decide(self.st, c)
        if d is None:
            raise Split(c)
        return d is True or d == 'dead'

    def w(self, name, mem=None):
        """(array, length) of the integer object `name` (this, other, result)"""
        p = self.ptr(name)
        return self.wp(p, mem)

    def wp(self, p, mem=None):
        mem = self.st.mem if mem is None else mem
        r = mem.get(p.rid)
        c = r.cells.get(p.off)
        if c is None or not isinstance(c[1], W.WH):
            raise SpecError('not an integer')
        a = mem[c[1].rid].arr
        return a.fields[0][2], a.n

    def w0(self, name):
        """at function entry"""
        return self.w(name, self.fr.loopstate['fnmem'])

    def we(self, name):
        """at loop entry"""
        return self.w(name, self.saved['mem'])

    def sign0(self, name):
        a, n = self.w0(name)
        return W.sign_bit(self.e, self.st, a, n)

    def sel(self, arr, i):
        return W.sel(self.e, self.st, arr, i)

    V = staticmethod(W.vterm)
    P = staticmethod(W.pterm)

    # ---- specification
    def inv(self, label, c):
        self.invs.append((label, c))

    def eq(self, label, a, b):
        self.inv(label, cmp0(a - b, '=='))

    def le(self, label, a, b):
        self.inv(label, cmp0(a - b, '<='))

    def below(self, name, idx):
        p = self.ptr(name)
        self.belows.append((name, idx))
        ent, n = self.wp(p, self.saved['mem'])
        if self.phase == 'cut':
            r = self.st.mem[p.rid]
            rid = r.cells[p.off][1].rid
            reg = self.st.wr(rid)
            f = reg.arr.fields[0]
            f[2] = Up(f[2], idx.z3(), ent)
            self.st.token = object()
        elif self.phase == 'back':
            arr, n = self.wp(p)
            self.inv('words of %s from the current index on are untouched' % name, self.tail_same(arr, idx, ent))

    def tail_same(self, arr, idx, ent):
        while True:
            if arr.eq(ent):
                return True
            if z3.is_store(arr):
                if not self.decide(cmp0(to_poly(arr.arg(1)) - idx, '<')):
                    return False
                arr = arr.arg(0)
                continue
            if is_fn(arr, 'Up'):
                if not self.decide(cmp0(to_poly(arr.arg(1)) - idx, '<=')):
                    return False
                arr = arr.arg(2)
                continue
            return False

    # ---- iterators and booleans in memory
    def index(self, name):
        """position of the loop: an integer variable `name`, or the iterator of a
        range-for"""
        rx = re.compile(r'%__begin\d*(\.sroa\.\d+)*$')
        for d, v in list(self.vals.items()) + list(self.fr.regs.items()):
            if rx.match(d) and isinstance(v, Ptr) and v.rid in self.st.mem:
                r = self.st.mem[v.rid]
                if r.arr is None:
                    c = r.cells.get(v.off)
                    if c is None or not isinstance(c[1], Ptr):
                        continue
                    v = c[1]
                    r = self.st.mem[v.rid]
                    if r.arr is None:
                        continue
                i, fld = self.e.arr_index(self.st, r, v)
                if fld:
                    raise SpecError('iterator between elements')
                return i
        return self.u(name)

    def boolat(self, names, off):
        for name in names:
            rx = re.compile(r'%%%s\d*$' % re.escape(name))
            for d, v in self.fr.regs.items():
                if rx.match(d) and isinstance(v, Ptr) and v.rid in self.st.mem:
                    c = self.st.mem[v.rid].cells.get(v.off + off)
                    if c is None:
                        continue
                    if isinstance(c[1], (bool, z3.BoolRef)):
                        return c[1]
                    v = self.e.unsigned(self.st, c[1])[0]
                    self.inv('0 or 1', Or(cmp0(v, '=='), cmp0(v - 1, '==')))
                    return cmp0(v, '!=')
        raise SpecError('no variable ' + names[0])

    def iff(self, label, a, b):
        self.inv(label, And(Or(Not(a), b), Or(Not(b), a)))

    # ---- raw containers: `extra` is the pointer to the words after the first
    def extra(self, name, mem=None):
        """array and its length of the words after the first, or None"""
        mem = self.st.mem if mem is None else mem
        p = self.ptr(name)
        x = mem[p.rid].cells[p.off + 16][1]
        if not isinstance(x, Ptr):
            raise SpecError('no container')
        return self.xarr(x, mem)

    def xarr(self, x, mem):
        if x.rid == 0 or mem.get(x.rid) is None or mem[x.rid].arr is None:
            return None
        return mem[x.rid].arr.fields[0][2]

    def count(self, name, mem=None):
        mem = self.st.mem if mem is None else mem
        p = self.ptr(name)
        return self.e.unsigned(self.st, mem[p.rid].cells[p.off + 8][1])[0]

    def field(self, name):
        """pointer held by the local variable `name`"""
        rx = re.compile(r'%%%s\d*(\.sroa\.\d+|\.addr)*$' % re.escape(name))
        for d, v in self.fr.regs.items():
            if rx.match(d) and isinstance(v, Ptr):
                c = self.st.mem[v.rid].cells.get(v.off) if v.rid in self.st.mem else None
                return c[1] if c is not None and isinstance(c[1], Ptr) and self.st.mem[v.rid].arr is None else v
        raise SpecError('no pointer ' + name)

    def hasptr(self, name):
        try:
            self.field(name)
            return True
        except SpecError:
            return False

    def watched(self, label, arr, want):
        if arr is not None and want is not None and not self.decide(cmp0(self.e.ghost_k, '<')):
            if not isinstance(want, Poly):
                want = self.sel(want, self.e.ghost_k)
            self.eq(label, self.sel(arr, self.e.ghost_k), want)

    def variant(self, p):
        self.var = p


def names_of(e, st):
    """rid -> key, for everything reachable from registers of the active frames"""
    out = {}
    n = len(st.frames)
    for d in range(n - 1, -1, -1):
        fr = st.frames[d]
        for nm in sorted(fr.regs):
            v = fr.regs[nm]
            if isinstance(v, Ptr) and v.rid not in out and v.rid in st.mem:
                out[v.rid] = ('m', n - 1 - d, nm)
    return out


def ctype(v):
    if isinstance(v, IV):
        return ('i', v.w)
    if isinstance(v, (bool, z3.BoolRef)):
        return ('b', 1)
    if isinstance(v, W.WH):
        return ('wh', 24)
    if isinstance(v, ZV):
        return ('z', 24)
    if isinstance(v, Ptr):
        return ('ptr', 8)
    if v is UNDEF:
        return ('undef', 0)
    return ('?', 0)


def diff(e, st, cut, M, names, done):
    """add to M what changed since the cut; True if something was new.  `names`
    are the names memory had at the cut, `done` what was havocked there."""
    new = False
    for rid, reg in cut.items():
        cur = st.mem.get(rid)
        if cur is reg or cur is None:
            continue
        if reg.arr is not None:
            if any(not cur.arr.fields[f][2].eq(reg.arr.fields[f][2]) for f in reg.arr.fields if f):
                raise Unsupported('loop writes fields of an array')
            if not cur.arr.fields[0][2].eq(reg.arr.fields[0][2]):
                # which object owns it
                k = None
                for r2, key in names.items():
                    rr = cut.get(r2)
                    if rr is None:
                        continue
                    for o, (s, v) in rr.cells.items():
                        if isinstance(v, (W.WH, Ptr)) and v.rid == rid:
                            k = ('w',) + key[1:] + (o,)
                            break
                    if k:
                        break
                if k is None and rid in names:
                    k = ('a',) + names[rid][1:]
                if k is None:
                    raise Unsupported('loop writes words that no variable names')
                if k not in M:
                    M[k] = True
                    new = True
                elif rid not in done:
                    raise Unsupported('memory changed by a loop is not havocked')
            if cur.cells is reg.cells or all(o in reg.cells and same(reg.cells[o][1], c[1]) for o, c in cur.cells.items()):
                if cur.kind != reg.kind and reg.kind != 'words':
                    raise Unsupported('loop frees memory')
                continue
            raise Unsupported('loop writes next to an array')
        key = names.get(rid)
        offs = {}
        for o in set(reg.cells) | set(cur.cells):
            a, b = reg.cells.get(o), cur.cells.get(o)
            if a is b or (a is not None and b is not None and same(a[1], b[1])):
                continue
            v = b[1] if b is not None and b[1] is not UNDEF else (a[1] if a is not None else UNDEF)
            s = b[0] if b is not None else a[0]
            offs[o] = (s, ctype(v))
        if reg.kind != cur.kind and not offs and reg.kind != 'words':
            raise Unsupported('loop frees memory')
        if not offs:
            continue
        if key is None:
            raise Unsupported('loop writes memory that no variable names (%s)' % reg.name)
        ent = M.setdefault(key, {})
        for o, t in offs.items():
            if o in ent and (rid, o) not in done:
                raise Unsupported('memory changed by a loop is not havocked')
            if t[1][0] == 'ptr' and (a is None or b is None or a[1].rid != b[1].rid):
                raise Unsupported('loop makes a pointer point to another object')
            if ent.get(o) != t and (o not in ent or t[1][0] not in ('undef',)):
                if o in ent and ent[o][1][0] != 'undef':
                    if ent[o] == ('havoc',):
                        continue
                ent[o] = t
                new = True
    return new


def same(a, b):
    if a is b:
        return True
    if isinstance(a, IV) and isinstance(b, IV):
        return a.w == b.w and a.p == b.p
    if isinstance(a, ZV) and isinstance(b, ZV):
        return a.p == b.p
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.rid == b.rid and a.off == b.off
    if isinstance(a, W.WH) and isinstance(b, W.WH):
        return a.rid == b.rid
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef):
        return a.eq(b)
    return False


def havoc(e, st, M):
    done = set()
    for key in sorted(M, key=str):
        n = len(st.frames)
        d = n - 1 - key[1]
        if d < 0:
            continue
        p = st.frames[d].regs.get(key[2])
        if not isinstance(p, Ptr) or p.rid not in st.mem:
            continue
        if key[0] in 'wa':
            c = st.mem[p.rid].cells.get(key[3]) if key[0] == 'w' else (8, p)
            if c is None or not isinstance(c[1], (W.WH, Ptr)) or c[1].rid not in st.mem or st.mem[c[1].rid].arr is None:
                continue
            reg = st.wr(c[1].rid)
            reg.arr.fields[0][2] = W.fresh_arr(e, 'h')
            done.add(c[1].rid)
            continue
        reg = st.wr(p.rid)
        for o, (s, t) in M[key].items():
            done.add((p.rid, o))
        for o, (s, t) in sorted(M[key].items()):
            if t[0] == 'i':
                e.put(reg, o, s, e.fresh_iv(st, t[1], 'h'))
            elif t[0] == 'b':
                e.put(reg, o, s, e.fresh_iv(st, 8, 'h', 0, 1))
            elif t[0] == 'z':
                e.put(reg, o, s, ZV(Poly.var(e.fresh('h'))))
            elif t[0] == 'wh':
                arr, nn = W.make_sym(e, st, 'h', canonical=False)
                W.setw(e, st, Ptr(p.rid, o), arr, nn)
                reg = st.wr(p.rid)
            elif t[0] == 'ptr':
                c = reg.cells.get(o)
                if c is None or not isinstance(c[1], Ptr) or c[1].rid not in st.mem or st.mem[c[1].rid].arr is None:
                    raise Unsupported('loop modifies a pointer')
                a = st.mem[c[1].rid].arr
                k = e.fresh('at')
                e.put(reg, o, s, Ptr(c[1].rid, Poly.var(k) * Poly.const(a.stride) + Poly.const(a.base)))
            elif t[0] == 'undef':
                e.put(reg, o, s, UNDEF)
            else:
                raise Unsupported('loop modifies a value of kind %s' % (t,))
    return done


def loop_cut(e, st, fr, b, bname, vals, spec, back):
    fname = e.dn.get(fr.fn.name, fr.fn.name)
    short = fname.split('(')[0]
    ck = ('cut', bname)
    M = e.loop_mods.setdefault((fname, bname), {})
    if back:
        saved = fr.loopstate[ck]
        L = Loop(e, st, fr, vals, saved, 'back')
        spec(L)
        for label, c in L.invs:
            e.require(st, c, 'loop invariant of %s kept: %s' % (short, label))
        if L.var is not None and saved.get('variant') is not None:
            e.require(st, And(cmp0(L.var - saved['variant'], '<'), cmp0(saved['variant'], '>=')), 'loop of %s makes progress' % short)
        if diff(e, st, saved['cut'], M, saved['names'], saved['done']):
            raise Restart()
        e.paths += 1
        return False
    saved = dict(mem=dict(st.mem), vals=dict(vals))
    L = Loop(e, st, fr, vals, saved, 'entry')
    spec(L)
    st.token = object()
    for label, c in L.invs:
        e.require(st, c, 'loop invariant of %s on entry: %s' % (short, label))
    new = {}
    for d, v in vals.items():
        if isinstance(v, IV):
            new[d] = e.fresh_iv(st, v.w, d.strip('%'))
        elif isinstance(v, (bool, z3.BoolRef)):
            e.fresh_n += 1
            new[d] = z3.Bool('%s!%d' % (d.strip('%'), e.fresh_n))
        else:
            raise Unsupported('loop variable %s' % d)
    names = names_of(e, st)
    done = havoc(e, st, M)
    prev = fr.block

    def settle(s):
        """assume the invariant, splitting as its evaluation needs; True if alive"""
        while True:
            f = s.frames[-1]
            L = Loop(e, s, f, new, saved, 'cut')
            mem0 = dict(s.mem)
            s.token = object()
            try:
                spec(L)
            except Split as x:
                s.mem = mem0
                s.token = object()
                ft = e.solver.feasible(s.pc, x.cond)
                ff = e.solver.feasible(s.pc, Not(x.cond))
                if ft and ff:
                    s2 = s.fork()
                    s2.assume(Not(x.cond))
                    if settle(s2):
                        e.push(s2)
                    s.assume(x.cond)
                elif ft:
                    s.assume(x.cond)
                elif ff:
                    s.assume(Not(x.cond))
                else:
                    return False
                continue
            for label, c in L.invs:
                if c is False:
                    return False
                if c is not True:
                    s.assume(c)
            s.token = object()
            f.loopstate[ck] = dict(mem=saved['mem'], vals=saved['vals'], cut=dict(s.mem), variant=L.var, names=names, done=done)
            for d, v in new.items():
                f.regs[d] = v
            f.prev = prev
            f.block = bname
            f.idx = 0
            return True
    return True if settle(st) else False
