"""Verification-condition generator over the LLVM IR of the real code.

Functions are executed symbolically, callee by callee; a callee with a contract (a hook for a trusted library function, or
a summary of a function that has its own obligations) is replaced by that contract. Loops are cut at their header: the
loop-carried state is generalised to functions of the iteration number, whose closed forms / recurrences / invariants are
established by induction (base and step are checked by the solver), so there is no bound on the number of iterations.
"""
import json
import os
import re
import time
from fractions import Fraction

import z3

from terms import *

FRESH0 = 10 ** 9
I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()
INT_BITS = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128}
SIZES = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8, 'double': 8, 'float': 4, 'str': 32}


class Abort(Exception):
    pass


class Entry:
    __slots__ = ('ts', 'ty', 'ref', 'off', 'val', 'guard', 'fn', 'line')

    def __init__(self, ts, ty, ref, off, val, guard=True, fn=None):
        self.ts = ts
        self.ty = ty
        self.ref = ref
        self.off = off
        self.val = val
        self.guard = guard
        self.fn = fn


class Memory:
    __slots__ = ('cells', 'entries', 'byref')

    def __init__(self):
        self.cells = {}  # (ref, off) -> (ty, val, ts)
        self.entries = []
        self.byref = {}  # concrete ref -> tuple of offsets

    def copy(self):
        m = Memory()
        m.cells = dict(self.cells)
        m.entries = list(self.entries)
        m.byref = dict(self.byref)
        return m

    def setcell(self, ref, off, ty, val, ts):
        k = (ref, off)
        if k not in self.cells:
            self.byref[ref] = self.byref.get(ref, ()) + (off,)
        self.cells[k] = (ty, val, ts)


class State:
    __slots__ = ('pc', 'pcids', 'mem', 'regs', 'exc', 'stack', 'epoch')

    def __init__(self):
        self.pc = []
        self.pcids = set()
        self.mem = Memory()
        self.regs = {}
        self.exc = None
        self.stack = ()
        self.epoch = 0

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.pcids = set(self.pcids)
        s.mem = self.mem.copy()
        s.regs = dict(self.regs)
        s.exc = self.exc
        s.stack = self.stack
        s.epoch = self.epoch
        return s

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                self.pc.append(z3.BoolVal(False))
            return
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        if z3.is_true(c) or c.get_id() in self.pcids:
            return
        self.pcids.add(c.get_id())
        self.pc.append(c)


class Obligation:
    def __init__(self, name, status, t, backend, where, model=None, reason=''):
        self.name = name
        self.status = status  # proved, refuted, unknown
        self.time = t
        self.backend = backend
        self.where = where
        self.model = model
        self.reason = reason


class Fn:
    def __init__(self, name, d):
        self.name = name
        self.dem = d['dem']
        self.ret = d['ret']
        self.args = d['args']
        self.nounwind = d['nounwind']
        self.decl = d['decl'] or d['cut']
        self.file = d.get('file', '')
        self.line = d.get('line', 0)
        self.blocks = {}
        self.loops = {}
        if not self.decl:
            for b in d['blocks']:
                self.blocks[b['b']] = b['is']
            self.entry = d['blocks'][0]['b']
            for l in d['loops']:
                l['blocks'] = set(l['blocks'])
                self.loops[l['header']] = l


class Engine:
    def __init__(self, module, hooks, deadline=120.0, trace=False):
        d = module
        self.fns = {k: Fn(k, v) for k, v in d['functions'].items()}
        self.globals = d['globals']
        self.types = d['types']
        self.hooks = hooks
        self.hookcache = {}
        self.summaries = []
        self.ts = 0
        self.nfresh = 0
        self.nreg = 0
        self.fnids = {}
        self.fnnames = {}
        self.gids = {}
        self.gnames = {}
        self.ginit = {}
        self.strids = {}
        self.strs = []
        self.intern('')
        self.regions = {}
        self.stride = {}
        self.base_over = {}
        self.loopctx = []  # list of z3 constants: the iteration numbers of the enclosing generic loops
        self.obls = []
        self.covers = {}
        self.deadline = time.time() + deadline
        self.solver = z3.Solver()
        self.solver.set('timeout', 1500)
        self.lits = {}
        self.funcs_used = set()
        self.contracts_used = set()
        self.assumptions = set()
        self.trace = trace
        self.goal_timeout = 20000
        self.ninstr = 0
        self.truth_memo = {}
        self.load_memo = None
        self.silent = 0  # >0: obligations are not emitted (discovery passes)
        self.solver_time = 0.0
        self.regionname = {}
        self.axioms = []
        self.owner_axioms = set()
        self.invariants_proved = 0
        self.termset = {}
        self.defids = {}
        self.probe = None
        self.cstrs = {}
        self.iterbuf = {}
        self.cur_iter = None
        self.minfo = {}

    # ------------------------------------------------------------------ names and fresh symbols
    def intern(self, s):
        if s not in self.strids:
            self.strids[s] = len(self.strs)
            self.strs.append(s)
        return self.strids[s]

    def fresh(self, name, sort='I'):
        self.nfresh += 1
        so = {'I': I, 'R': R, 'B': B}[sort]
        nm = f'{name}!{self.nfresh}'
        if self.loopctx:
            return z3.Function(nm, *([I] * len(self.loopctx)), so)(*self.loopctx)
        return z3.Const(nm, so)

    def fresh_ty(self, name, ty):
        if ty == 'ptr':
            return Ptr(self.fresh(name + '.r'), self.fresh(name + '.o'))
        if ty in ('double', 'float', 'fp80'):
            return self.fresh(name, 'R')
        if ty == 'i1':
            return self.fresh(name, 'B')
        if ty in INT_BITS or ty == 'str':
            return self.fresh(name)
        if ty.startswith('{'):
            return tuple(self.fresh_ty(name, t) for t in split_struct(ty))
        raise Unsupported('fresh value of type ' + ty)

    def new_region(self, size=None, name='obj'):
        self.nreg += 1
        r = FRESH0 + self.nreg
        self.regions[r] = size
        self.regionname[r] = name
        return r

    def fnptr(self, name):
        if name not in self.fnids:
            self.fnids[name] = -1000000 - len(self.fnids)
            self.fnnames[self.fnids[name]] = name
        return Ptr(self.fnids[name], 0)

    def gptr(self, name):
        if name not in self.gids:
            self.gids[name] = -2000000 - len(self.gids)
            self.gnames[self.gids[name]] = name
        return Ptr(self.gids[name], 0)

    def tick(self):
        self.ts += 1
        return self.ts

    # ------------------------------------------------------------------ memory
    def is_old(self, leaf):
        if isinstance(leaf, int):
            return leaf == 0
        n = leaf.decl().name()
        return n.startswith('pr_') or n.startswith('in_') or n.startswith('undef.r')

    def may_alias(self, r1, r2):
        """False: certainly different objects; True: same term; None: undecided"""
        if same(r1, r2):
            return True
        l1, l2 = ref_leaves(r1), ref_leaves(r2)
        for a in l1:
            for b in l2:
                if isinstance(a, int) and isinstance(b, int):
                    if a == b and a != 0:
                        return None
                elif isinstance(a, int):
                    if a == 0 or self.is_old(b):
                        continue
                    return None
                elif isinstance(b, int):
                    if b == 0 or self.is_old(a):
                        continue
                    return None
                else:
                    if self.distinct_terms(a, b):
                        continue
                    return None
        return False

    def distinct_terms(self, a, b):
        na, nb = a.decl().name(), b.decl().name()
        # a freshly allocated object of a loop iteration is no object of the initial heap
        if na.startswith('al_') and self.is_old(b) or nb.startswith('al_') and self.is_old(a):
            return True
        # well-formedness of the initial heap: element buffers belong to one container each (owner axiom)
        ia, ib = a.get_id() in self.stride, b.get_id() in self.stride
        if (ia and self.is_old(b) and not ib) or (ib and self.is_old(a) and not ia):
            return True
        if ia and ib and self.stride[a.get_id()][1] != self.stride[b.get_id()][1]:
            return True
        return False

    def strideof(self, ref):
        if isinstance(ref, int):
            s = self.stride.get(ref)
        else:
            s = self.stride.get(ref.get_id())
        return s[1] if s else None

    def set_stride(self, ref, s):
        self.stride[ref if isinstance(ref, int) else ref.get_id()] = (ref, s)

    def base(self, st, ty, ref, off):
        """value of the initial heap"""
        key = (ref if isinstance(ref, int) else ref.get_id(), off if isinstance(off, int) else off.get_id())
        ov = self.base_over.get(key)
        if ov is not None and ov[0] == ty:
            return ov[1]
        if isinstance(ref, int) and ref < 0 and ref in self.gnames:
            v = self.global_init(self.gnames[ref], off, ty)
            if v is not None:
                return v
        s = self.strideof(ref)
        if not s and isinstance(off, z3.ExprRef):
            off = lift(off)
            if isinstance(off, z3.ExprRef) and off.decl().kind() == z3.Z3_OP_ITE:
                c = off.arg(0)
                return ite(c, self.base(st, ty, ref, _un(off.arg(1))), self.base(st, ty, ref, _un(off.arg(2))))
        rz = toz(ref)
        if s:
            k, f = divmod_c(off, s)
            if isinstance(f, int):
                suf, args = f'_s{s}_f{f}', (rz, toz(k))
            else:
                suf, args = '', (rz, toz(off))
        elif isinstance(off, int):
            suf, args = f'_o{off}', (rz,)
        else:
            suf, args = '', (rz, toz(off))
        sorts = [I] * len(args)
        if ty == 'ptr':
            t = z3.Function('pr_' + suf, *sorts, I)(*args)
            self.fact(st, z3.And(t >= 0, t < FRESH0))
            it = self.iterbuf.get(ref.get_id()) if isinstance(ref, z3.ExprRef) else None
            if it is not None:
                po = z3.Function('po_' + suf, *sorts, I)(*args)
                self.set_stride(t, it[1])
                self.termset[t.get_id()] = t
                return Ptr(t, mulc(po, it[1]))
            return Ptr(t, 0)
        if ty in ('double', 'float', 'fp80'):
            return z3.Function(f'm_{ty}' + suf, *sorts, R)(*args)
        t = z3.Function(f'm_{ty}' + suf, *sorts, I)(*args)
        b = INT_BITS.get(ty)
        if b == 8:
            st.assume(z3.And(t >= -128, t <= 127))
        elif b == 32:
            st.assume(z3.And(t >= -2 ** 31, t < 2 ** 31))
        elif b == 16:
            st.assume(z3.And(t >= -2 ** 15, t < 2 ** 15))
        return t

    def global_init(self, name, off, ty):
        g = self.globals.get(name)
        if g is None or 'init' not in g:
            return None
        if name not in self.ginit:
            cells = {}
            flat_ = g['flat']
            vals = []
            self.flatten_const(g['init'], vals, flat_)
            if len(vals) == len(flat_):
                for (o, t), v in zip(flat_, vals):
                    cells[o] = (t, v)
            elif g['init'][0] == 'str':
                bs = bytes.fromhex(g['init'][1])
                for o, b in enumerate(bs):
                    cells[o] = ('i8', b if b < 128 else b - 256)
            self.ginit[name] = (cells, g)
        cells, g = self.ginit[name]
        if not isinstance(off, int):
            # symbolic index into a constant table
            r = None
            for o, (t, v) in sorted(cells.items(), reverse=True):
                if t == ty:
                    vv = v if not callable(v) else v()
                    r = vv if r is None else ite(eq(off, o), vv, r)
            return r
        if off in cells:
            t, v = cells[off]
            return self.convert(v() if callable(v) else v, t, ty)
        if g['init'][0] == 'zero':
            return self.zero(ty)
        return None

    def flatten_const(self, c, out, flat_):
        k = c[0]
        if k == 'agg':
            for x in c[2]:
                self.flatten_const(x, out, flat_)
        elif k == 'zero':
            for t in flat_types(c[1]):
                out.append(self.zero(t))
        elif k == 'str':
            for b in bytes.fromhex(c[1]):
                out.append(b if b < 128 else b - 256)
        elif k == 'undef':
            for t in flat_types(c[1]):
                out.append(self.zero(t))
        else:
            out.append(lambda c=c: self.const(c))

    def zero(self, ty):
        if ty == 'ptr':
            return NULL
        if ty in ('double', 'float', 'fp80'):
            return Fraction(0)
        if ty == 'i1':
            return False
        if ty.startswith('{'):
            return tuple(self.zero(t) for t in split_struct(ty))
        if ty.startswith('<') or ty.startswith('['):
            n, t = re.match(r'[<\[](\d+)x(.*)[>\]]$', ty).groups()
            return tuple(self.zero(t) for _ in range(int(n)))
        return 0

    def convert(self, v, frm, to):
        if frm == to or v is None:
            return v
        if frm == 'i1' and to == 'i8':
            return ite(v, 1, 0)
        if frm == 'i8' and to == 'i1':
            return self.truth(v)
        s1, s2 = SIZES.get(frm), SIZES.get(to)
        if s1 == s2:
            if to == 'ptr' and not isinstance(v, Ptr):
                if isinstance(v, int):
                    return Ptr(0, v)
                raise Unsupported(f'reinterpretation of {frm} as {to}')
            if frm == 'ptr' and to.startswith('i'):
                return v  # integer register holding an address
            if frm == 'i64' and to == 'double' or frm == 'double' and to == 'i64':
                if is_c(v) and v == 0:
                    return self.zero(to)
                return ('bits', frm, v) if not (isinstance(v, tuple) and v and v[0] == 'bits') else v[2]
        if isinstance(v, tuple) and v and v[0] == 'bits':
            return v[2]
        if isinstance(v, int) and to in INT_BITS and frm in INT_BITS and s2 < s1:
            m = v & (2 ** INT_BITS[to] - 1)
            return m - 2 ** INT_BITS[to] if m >= 2 ** (INT_BITS[to] - 1) else m
        if frm in INT_BITS and to in INT_BITS and s2 < s1 and not isinstance(v, (Ptr, tuple)):
            return self.trunc(v, INT_BITS[frm], INT_BITS[to])
        raise Unsupported(f'reinterpretation of {frm} as {to}')

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return bool(v & 1)
        if isinstance(v, z3.BoolRef):
            return v
        if v.decl().kind() == z3.Z3_OP_ITE:
            m = self.truth_memo.get(v.get_id())
            if m is None:
                if len(self.truth_memo) > 100000:
                    self.truth_memo.clear()
                m = (ite(v.arg(0), self.truth(_un(v.arg(1))), self.truth(_un(v.arg(2)))), v)
                self.truth_memo[v.get_id()] = m
            return m[0]
        return toz(v) != 0

    def load(self, st, ty, p):
        if self.load_memo is not None:
            if isinstance(p, Ptr):
                # reads of the same place within one read
                k = (id(st), ty, p.ref if isinstance(p.ref, int) else ('z', p.ref.get_id()),
                     p.off if isinstance(p.off, int) else ('z', p.off.get_id()))
                m = self.load_memo.get(k)
                if m is None:
                    n = self.npruned
                    m = (self.load1(st, ty, p), p)
                    if n == self.npruned:
                        self.load_memo[k] = m
                return m[0]
            return self.load1(st, ty, p)
        self.load_memo = {}
        try:
            return self.load1(st, ty, p)
        finally:
            self.load_memo = None

    def load1(self, st, ty, p):
        if isinstance(p, int):
            p = Ptr(0, p)
        if not isinstance(p, Ptr):
            raise Unsupported('load through a non-pointer')
        ref = p.ref
        if isinstance(ref, z3.ExprRef) and ref.decl().kind() == z3.Z3_OP_ITE:
            c = ref.arg(0)
            o1 = o2 = p.off
            if isinstance(p.off, z3.ExprRef) and p.off.decl().kind() == z3.Z3_OP_ITE and same(p.off.arg(0), c):
                o1, o2 = _un(p.off.arg(1)), _un(p.off.arg(2))
            a, b = Ptr(_un(ref.arg(1)), o1), Ptr(_un(ref.arg(2)), o2)
            if a.ref == 0 if isinstance(a.ref, int) else False:
                return self.load(st, ty, b)
            if b.ref == 0 if isinstance(b.ref, int) else False:
                return self.load(st, ty, a)
            return self.load_alt(st, ty, c, a, b)
        if isinstance(p.off, z3.ExprRef):
            lo = lift(p.off)
            if lo is not p.off:
                p = Ptr(ref, lo)
        if isinstance(p.off, z3.ExprRef) and p.off.decl().kind() == z3.Z3_OP_ITE:
            return self.load_alt(st, ty, p.off.arg(0), Ptr(ref, _un(p.off.arg(1))), Ptr(ref, _un(p.off.arg(2))))
        if ty.startswith('{') or ty.startswith('[') or ty.startswith('<'):
            raise Unsupported('aggregate load ' + ty)
        if ty in ('i16', 'i32', 'i64') and isinstance(ref, int) and isinstance(p.off, int) and ref >= FRESH0:
            parts = self.raw_parts(st, ref, p.off, SIZES[ty])
            if parts:
                return ('raw', parts)
        return self.read(st, ty, ref, p.off, None)

    load_conds = ()
    npruned = 0

    def load_alt(self, st, ty, c, a, b):
        """load from one of two places; a place the path condition excludes need not make sense"""
        under = self.load_conds
        self.load_conds = under + (c,)
        try:
            va = self.load(st, ty, a)
        except Unsupported:
            if self.feasible(st, self.load_conds):
                raise
            self.load_conds = under
            self.npruned += bool(under)
            return self.load(st, ty, b)
        finally:
            self.load_conds = under
        self.load_conds = under + (b_not(c),)
        try:
            vb = self.load(st, ty, b)
        except Unsupported:
            if self.feasible(st, self.load_conds):
                raise
            self.npruned += bool(under)
            return va
        finally:
            self.load_conds = under
        return self.choose(st, c, va, vb)

    def choose(self, st, c, va, vb):
        """the value under a condition or else another; if the two cannot be combined, one of them has to be excluded"""
        try:
            return ite(c, va, vb)
        except Unsupported:
            r = vb if not self.feasible(st, self.load_conds + (c,)) else \
                va if not self.feasible(st, self.load_conds + (b_not(c),)) else None
            if r is None:
                raise
            self.npruned += 1
            return r

    def raw_parts(self, st, ref, off, n):
        """several smaller cells read at once (a class passed in a register): the cells"""
        offs = [o for o in st.mem.byref.get(ref, ()) if off <= o < off + n]
        if not offs or all(SIZES.get(st.mem.cells[(ref, o)][0], 0) >= n for o in offs):
            return None
        if len(offs) == 1 and offs[0] == off and isinstance(st.mem.cells[(ref, off)][1], int) and \
                st.mem.cells[(ref, off)][0] != 'i8':
            return None
        out = []
        end = off
        for o in sorted(offs):
            t = st.mem.cells[(ref, o)][0]
            if o < end or o + SIZES.get(t, 99) > off + n:
                return None
            end = o + SIZES[t]
            out.append((o - off, t, self.read(st, t, ref, o, None)))
        return tuple(out)

    def read(self, st, ty, ref, off, before):
        """read at (ref, off), looking only at writes older than timestamp `before`"""
        mem = st.mem
        cell = None
        cts = -1
        if isinstance(ref, int) and isinstance(off, int):
            cell = mem.cells.get((ref, off))
            if cell is not None and before is not None and cell[2] >= before:
                raise Unsupported('read of an overwritten cell behind a summarised write')
            if cell is not None:
                cts = cell[2]
        for e in reversed(mem.entries):
            if before is not None and e.ts >= before:
                continue
            if e.ts < cts:
                break
            if e.ty is not None and e.ty != ty:
                if not (SIZES.get(e.ty) == SIZES.get(ty)):
                    continue
                if {e.ty, ty} != {'ptr', 'i64'}:
                    continue
            al = self.may_alias(e.ref, ref)
            if al is False:
                continue
            if e.fn is not None:
                older = lambda t=ty, r=ref, o=off, ts=e.ts: self.read(st, t, r, o, ts)
                v = e.fn(st, ty, ref, off, older)
                if al is True:
                    return v
                return ite(eq(e.ref, ref), v, older())
            c = b_and(e.guard, True if al is True else eq(e.ref, ref), eq(e.off, off))
            if c is False:
                continue
            try:
                v = self.convert(e.val, e.ty, ty)
            except Unsupported:
                if c is True or self.feasible(st, self.load_conds + (c,)):
                    raise
                self.npruned += bool(self.load_conds)
                continue
            if c is True:
                return v
            return self.choose(st, c, v, self.read(st, ty, ref, off, e.ts))
        if cell is not None:
            return self.convert(cell[1], cell[0], ty)
        if isinstance(ref, int):
            offs = mem.byref.get(ref)
            if offs and not isinstance(off, int):
                # symbolic offset into an object with individually written cells
                r = None
                cand = []
                for o in offs:
                    t, v, ts = mem.cells[(ref, o)]
                    if before is not None and ts >= before:
                        continue
                    if t == ty:
                        d = sub(off, o)
                        cand.append((o, v))
                if cand:
                    r = self.base(st, ty, ref, off)
                    for o, v in cand:
                        r = ite(eq(off, o), v, r)
                    return r
            if offs and isinstance(off, int) and ty in INT_BITS:
                # part of a wider constant cell
                for o in offs:
                    t, v, ts = mem.cells[(ref, o)]
                    if o <= off < o + SIZES.get(t, 0) and t in INT_BITS and off + SIZES[ty] <= o + SIZES[t]:
                        if isinstance(v, int):
                            b = v >> (8 * (off - o))
                            m = b & (2 ** (8 * SIZES[ty]) - 1)
                            return m - 2 ** (8 * SIZES[ty]) if m >= 2 ** (8 * SIZES[ty] - 1) else m
        return self.base(st, ty, ref, off)

    def store(self, st, ty, p, v, guard=True):
        if isinstance(p, int):
            p = Ptr(0, p)
        if not isinstance(p, Ptr):
            raise Unsupported('store through a non-pointer')
        ref, off = p.ref, p.off
        if isinstance(ref, z3.ExprRef) and ref.decl().kind() == z3.Z3_OP_ITE:
            c = ref.arg(0)
            o1 = o2 = off
            if isinstance(off, z3.ExprRef) and off.decl().kind() == z3.Z3_OP_ITE and same(off.arg(0), c):
                o1, o2 = _un(off.arg(1)), _un(off.arg(2))
            for cc, rr, oo in ((c, _un(ref.arg(1)), o1), (b_not(c), _un(ref.arg(2)), o2)):
                if isinstance(rr, int) and rr == 0:
                    continue
                self.store(st, ty, Ptr(rr, oo), v, b_and(guard, cc))
            return
        if isinstance(off, z3.ExprRef):
            off = lift(off)
            if off.decl().kind() == z3.Z3_OP_ITE if isinstance(off, z3.ExprRef) else False:
                c = off.arg(0)
                self.store(st, ty, Ptr(ref, _un(off.arg(1))), v, b_and(guard, c))
                self.store(st, ty, Ptr(ref, _un(off.arg(2))), v, b_and(guard, b_not(c)))
                return
        if isinstance(v, tuple) and v and v[0] == 'raw':
            if isinstance(ref, int) and isinstance(off, int):
                for o in [o for o in st.mem.byref.get(ref, ()) if off <= o < off + SIZES[ty]]:
                    del st.mem.cells[(ref, o)]
                st.mem.byref[ref] = tuple(o for o in st.mem.byref.get(ref, ()) if not (off <= o < off + SIZES[ty]))
            for o, t, w in v[1]:
                self.store(st, t, p + o, w, guard)
            return
        if isinstance(v, tuple) and not (v and v[0] == 'bits'):
            raise Unsupported('aggregate store')
        if isinstance(ref, int) and isinstance(off, int):
            if guard is not True:
                v = ite(guard, v, self.read(st, ty, ref, off, None))
            st.mem.setcell(ref, off, ty, v, self.tick())
            if ref < FRESH0:
                st.epoch += 1
            return
        if not isinstance(ref, int) or ref < FRESH0:
            if not all(isinstance(l, int) and l >= FRESH0 for l in ref_leaves(ref)):
                st.epoch += 1
        st.mem.entries.append(Entry(self.tick(), ty, ref, off, v, guard))

    def add_closure(self, st, ref, fn, ty=None):
        e = Entry(self.tick(), ty, ref, 0, None, True, fn)
        st.mem.entries.append(e)
        if not isinstance(ref, int) or ref < FRESH0:
            st.epoch += 1
        return e

    def memcpy(self, st, dst, src, n):
        if not isinstance(n, int):
            return self.memcpy_sym(st, dst, src, n)
        if n > 4096:
            raise Unsupported('large memcpy')
        vals = []
        if isinstance(src.ref, int) and isinstance(src.off, int) and src.ref >= FRESH0 and \
                not any(self.may_alias(e.ref, src.ref) is not False for e in st.mem.entries):
            for o in sorted(st.mem.byref.get(src.ref, ())):
                if src.off <= o < src.off + n:
                    t, v, ts = st.mem.cells[(src.ref, o)]
                    vals.append((o - src.off, t, v))
        elif isinstance(src.ref, int) and src.ref in self.gnames:
            g = self.globals.get(self.gnames[src.ref], {})
            for o, t in g.get('flat', []):
                if isinstance(src.off, int) and src.off <= o < src.off + n:
                    vals.append((o - src.off, t, self.load(st, t, src + (o - src.off))))
        else:
            for o in range(0, n, 8):
                if o + 8 <= n:
                    for t in ('i64', 'ptr', 'double', 'str'):
                        vals.append((o, t, ('copy', t)))
                for q in range(o, min(o + 8, n), 4):
                    if q + 4 <= n:
                        vals.append((q, 'i32', ('copy', 'i32')))
                for q in range(o, min(o + 8, n)):
                    vals.append((q, 'i8', ('copy', 'i8')))
            # a copy of typed memory of unknown layout: the destination reads through to the source snapshot
            snap = st.mem.copy()
            d0, s0 = dst, src
            eng = self

            def fn(s2, ty, ref, off, older, snap=snap, d0=d0, s0=s0, n=n):
                rel = sub(off, d0.off)
                inr = b_and(le(0, rel), lt(rel, n))
                if inr is False:
                    return older()
                tmp = s2.copy()
                tmp.mem = snap
                v = eng.load(tmp, ty, s0 + rel)
                for c in tmp.pc[len(s2.pc):]:
                    s2.assume(c)
                if inr is True:
                    return v
                return ite(inr, v, older())
            if isinstance(dst.ref, int) and isinstance(dst.off, int):
                for o in [o for o in st.mem.byref.get(dst.ref, ()) if dst.off <= o < dst.off + n]:
                    del st.mem.cells[(dst.ref, o)]
                st.mem.byref[dst.ref] = tuple(o for o in st.mem.byref.get(dst.ref, ())
                                              if not (dst.off <= o < dst.off + n))
            self.add_closure(st, dst.ref, fn)
            return
        for o, t, v in vals:
            self.store(st, t, dst + o, v)

    def memcpy_sym(self, st, dst, src, n):
        snap = st.mem.copy()
        eng = self
        s = self.strideof(src.ref)
        if s and isinstance(dst.ref, int) and not self.strideof(dst.ref):
            self.set_stride(dst.ref, s)

        def fn(s2, ty, ref, off, older, snap=snap, d0=dst, s0=src, n=n):
            rel = sub(off, d0.off)
            inr = b_and(le(0, rel), lt(rel, n))
            if inr is False:
                return older()
            tmp = s2.copy()
            tmp.mem = snap
            v = eng.load(tmp, ty, s0 + rel)
            for c in tmp.pc[len(s2.pc):]:
                s2.assume(c)
            return v if inr is True else ite(inr, v, older())
        self.add_closure(st, dst.ref, fn)

    # ------------------------------------------------------------------ solver
    def lit(self, c):
        i = c.get_id()
        r = self.lits.get(i)
        if r is None:
            b = z3.Bool(f'pc#{len(self.lits)}')
            self.solver.add(z3.Implies(b, c))
            r = (b, c)
            self.lits[i] = r
        return r[0]

    def feasible(self, st, extra=()):
        if time.time() > self.deadline:
            raise Unsupported('time limit of the verification condition generator')
        asm = []
        for c in list(st.pc) + [x for x in extra if not isinstance(x, bool)]:
            if z3.is_false(c):
                return False
            if has_quant(c):
                continue
            asm.append(self.lit(c))
        for x in extra:
            if x is False:
                return False
        t = time.time()
        r = self.solver.check(*asm)
        self.solver_time += time.time() - t
        return r != z3.unsat

    def branch(self, st, c):
        """list of (state, bool)"""
        if isinstance(c, bool):
            return [(st, c)]
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        nc = b_not(c)
        if c.get_id() in st.pcids:
            return [(st, True)]
        if isinstance(nc, z3.ExprRef) and nc.get_id() in st.pcids:
            return [(st, False)]
        t = self.feasible(st, (c,))
        f = self.feasible(st, (nc,))
        out = []
        if t and f:
            s2 = st.copy()
            s2.assume(nc)
            st.assume(c)
            return [(st, True), (s2, False)]
        if t:
            st.assume(c)
            return [(st, True)]
        if f:
            st.assume(nc)
            return [(st, False)]
        return out

    def decide(self, st, c):
        """True/False if c is decided in st, else None"""
        if isinstance(c, bool):
            return c
        if not self.feasible(st, (b_not(c),)):
            return True
        if not self.feasible(st, (c,)):
            return False
        return None

    def prove(self, st, goal, name, where=''):
        """emit a proof obligation: path condition => goal"""
        if self.silent:
            return
        t0 = time.time()
        if goal is True:
            self.obls.append(Obligation(name, 'proved', 0.0, 'trivial', where))
            return
        g = toz(goal)
        status, model, reason, backend = self.check_valid(st.pc, g)
        if status == 'refuted' and self.abstracted([g] + [c for c in st.pc if c.get_id() not in self.factids]):
            status, reason = 'unknown', 'depends on a value that a trusted contract leaves open'
        dt = time.time() - t0
        self.solver_time += dt
        self.obls.append(Obligation(name, status, dt, backend, where, model, reason))
        # after a failed obligation, go on as if it held, to report independent failures only
        st.assume(g)

    def abstracted(self, ts):
        """symbols of results that the trusted contracts do not determine"""
        seen = set()
        todo = list(ts)
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                todo.append(t.body())
                continue
            if not z3.is_app(t):
                continue
            n = t.decl().name()
            if n.startswith(('str!', 'moved!', 'streamtext!', 'undef', 'stream!')):
                return True
            todo += t.children()
        return False

    def check_valid(self, pc, g, timeout=None, quick=False):
        def attempt(ms, mbqi):
            s = z3.Solver()
            s.set('timeout', ms)
            if not mbqi:
                s.set('smt.mbqi', False)
            for c in self.axioms:
                s.add(c)
            for c in pc:
                s.add(c)
            s.add(z3.Not(g))
            return s.check(), s
        t = timeout or self.goal_timeout
        if quick:
            r, s = attempt(min(t, 400), False)
            return ('proved' if r == z3.unsat else 'unknown'), None, '', 'z3'
        quant = has_quant(g) or any(has_quant(c) for c in pc)
        full = pc
        if any(c.get_id() in self.defids for c in full):
            pc = [c for c in full if c.get_id() not in self.defids]
            r, _ = attempt(min(t, 2500), True)
            pc = full
            if r == z3.unsat:
                return 'proved', None, '', 'z3'
        r, s = attempt(min(t, 6000), True)
        if r == z3.unsat:
            return 'proved', None, '', 'z3'
        if r == z3.sat:
            if os.environ.get('VF_DUMP') and timeout is None:
                open(os.environ['VF_DUMP'], 'w').write(s.sexpr())
                os._exit(1)
            return 'refuted', s.model(), 'sat', 'z3'
        reason = s.reason_unknown()
        rel = self.relevant(full, g)
        if len(rel) < len(full):
            pc = rel
            r, _ = attempt(min(t, 4000), True)
            if r == z3.unsat:
                return 'proved', None, '', 'z3'
        pc = full
        if os.environ.get('VF_DUMP') and timeout is None:
            open(os.environ['VF_DUMP'], 'w').write(s.sexpr())
            os._exit(1)
        if quant:
            r, _ = attempt(min(t, 5000), False)
            if r == z3.unsat:
                return 'proved', None, '', 'z3(ematching)'
        if timeout is None:
            st = self.cvc5(pc, g)
            if st == 'unsat':
                return 'proved', None, '', 'cvc5'
            r, s = attempt(t, True)
            if r == z3.unsat:
                return 'proved', None, '', 'z3'
            if r == z3.sat:
                return 'refuted', s.model(), 'sat', 'z3'
        m = None
        try:
            m = s.model()
        except z3.Z3Exception:
            pass
        return 'unknown', m, reason, 'z3'

    def relevant(self, pc, g):
        """the part of the path condition that is connected with the goal by common constants"""
        syms = [(c, self.constants(c)) for c in pc]
        have = set(self.constants(g))
        out = set()
        while True:
            more = [c for c, s in syms if c.get_id() not in out and s & have]
            if not more:
                return [c for c in pc if c.get_id() in out]
            for c in more:
                out.add(c.get_id())
                have |= self.constants(c)

    def constants(self, t):
        memo = self.__dict__.setdefault('_constants', {})
        r = memo.get(t.get_id())
        if r is None:
            r = set()
            todo, seen = [t], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    todo.append(x.body())
                elif z3.is_app(x):
                    if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        r.add(x.decl().name())
                    todo += x.children()
            memo[t.get_id()] = r
            self.termset[t.get_id()] = t
        return r

    def cvc5(self, pc, g, secs=15):
        import subprocess
        import tempfile
        s = z3.Solver()
        for c in self.axioms + list(pc):
            s.add(c)
        s.add(z3.Not(g))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
            f.write(txt)
            f.flush()
            try:
                r = subprocess.run(['cvc5', f'--tlimit={secs * 1000}', f.name], capture_output=True, text=True,
                                   timeout=secs + 5)
            except subprocess.TimeoutExpired:
                return 'timeout'
        return r.stdout.strip().split('\n')[0]

    # ------------------------------------------------------------------ values
    def const(self, c):
        k = c[0]
        if k == 'i':
            v = int(c[1])
            if c[2] == 1:
                return v != 0
            return v
        if k == 'f':
            if c[1] == 'inf':
                return self.INF()
            if c[1] == '-inf':
                return neg(self.INF())
            if c[1] == 'nan':
                return z3.Real('NAN')
            return Fraction(float.fromhex(c[1]))
        if k == 'null':
            return NULL
        if k == 'undef':
            if c[1] in ('i1',):
                return False
            if c[1].startswith('{') or c[1].startswith('<') or c[1].startswith('['):
                return self.zero(c[1])
            return self.zero(c[1])
        if k == 'g':
            return self.gptr(c[1])
        if k == 'fn':
            return self.fnptr(c[1])
        if k == 'gep':
            return self.const(c[1]) + c[2]
        if k == 'zero':
            return self.zero(c[1])
        if k == 'agg':
            return tuple(self.const(x) for x in c[2])
        if k == 'cast':
            return self.const(c[2])
        if k == 'md':
            return None
        raise Unsupported(f'constant {c}')

    def INF(self):
        x = z3.Real('INFINITY')
        if not getattr(self, '_inf', False):
            self._inf = True
            self.axioms.append(x > z3.RealVal(2) ** 1024)
            self.solver.add(x > z3.RealVal(2) ** 1024)
        return x

    def val(self, st, o):
        if o[0] == 'v':
            try:
                return st.regs[o[1]]
            except KeyError:
                raise Unsupported('use of an undefined register')
        return self.const(o)

    def trunc(self, v, fb, tb):
        if isinstance(v, tuple) and v and v[0] == 'raw':
            for o, t, w in v[1]:
                if o == 0 and INT_BITS.get(t, 0) >= tb:
                    return self.trunc(w, INT_BITS[t], tb) if INT_BITS[t] > tb else w
            raise Unsupported('truncation of raw bytes')
        if isinstance(v, (bool, z3.BoolRef)):
            v = ite(v, 1, 0)
        if tb == 1:
            return self.truth(v)
        if isinstance(v, int):
            m = v & (2 ** tb - 1)
            return m - 2 ** tb if m >= 2 ** (tb - 1) else m
        if isinstance(v, Ptr):
            raise Unsupported('truncated pointer')
        return wrap(v, tb)

    # ------------------------------------------------------------------ calls
    def call_name(self, st, name, args, ins=None):
        f = self.fns.get(name)
        if f is None:
            raise Unsupported('call of unknown function ' + name)
        for rx, fn in self.summaries:
            if rx.search(f.dem):
                self.contracts_used.add(f.dem)
                return fn(self, st, f, args, ins)
        h = self.hookcache.get(name, 0)
        if h == 0:
            h = None
            for rx, fn in self.hooks:
                if rx.search(f.dem):
                    h = fn
                    break
            self.hookcache[name] = h
        if h is not None:
            r = h(self, st, f, args, ins)
            if r is not NotImplemented:
                self.contracts_used.add(f.dem)
                return r
        if f.decl:
            raise Unsupported('no contract for external function ' + f.dem)
        return self.exec_func(st, f, args)

    def exec_func(self, st, f, args):
        if len(st.stack) > 120:
            raise Unsupported('recursion too deep in ' + f.dem)
        if st.stack.count(f.name) > 6:
            raise Unsupported('recursive function ' + f.dem)
        self.funcs_used.add(f.name)
        saved = st.regs
        npc = len(st.pc)
        st.regs = {}
        st.stack = st.stack + (f.name,)
        for a, v in zip(f.args, args):
            st.regs[a['id']] = v
        latches, exits, outs = self.exec_region(st, f, f.entry, None, None, None)
        res = []
        for s, kind, v in outs:
            s.regs = dict(saved)
            s.stack = s.stack[:-1]
            if kind == 'exc' and f.nounwind:
                continue  # std::terminate
            res.append((s, kind, v))
        return self.merge_outcomes(res, npc)

    def merge_outcomes(self, outs, npc):
        rets = [o for o in outs if o[1] == 'ret']
        rest = [o for o in outs if o[1] != 'ret']
        if len(rets) <= 1:
            return outs
        try:
            m = self.merge_states([o[0] for o in rets], [o[2] for o in rets], npc)
        except Unsupported:
            return outs
        if m is None:
            return outs
        return [(m[0], 'ret', m[1])] + rest

    def merge_states(self, states, vals, npc):
        base_pc = states[0].pc[:npc]
        # common prefix must be identical
        for s in states:
            for a, b in zip(base_pc, s.pc[:npc]):
                if a.get_id() != b.get_id():
                    return None
        sufs = [s.pc[npc:] for s in states]
        common = set(x.get_id() for x in sufs[0])
        for sf in sufs[1:]:
            common &= set(x.get_id() for x in sf)
        conds = []
        for sf in sufs:
            conds.append([x for x in sf if x.get_id() not in common])
        # facts about fresh heap terms (ranges) are valid everywhere: keep them as plain facts
        facts = []
        for i, c in enumerate(conds):
            keep = []
            for x in c:
                if self.is_fact(x) or x.get_id() in self.defids:
                    facts.append(x)
                else:
                    keep.append(x)
            conds[i] = keep
        st = states[0].copy()
        st.pc = list(base_pc)
        st.pcids = set(x.get_id() for x in base_pc)
        for x in sufs[0]:
            if x.get_id() in common:
                st.assume(x)
        for x in facts:
            st.assume(x)
        gs = [b_and(*c) if c else True for c in conds]
        if any(has_quant(g) for g in gs) or any(sum(1 for _ in c) > 12 for c in conds):
            sel = [self.fresh('sel', 'B') for _ in gs]
            st.assume(z3.Or(*[z3.And(b, toz(g), *[z3.Not(o) for o in sel if o is not b]) for b, g in zip(sel, gs)]))
            gs = sel
        else:
            st.assume(b_or(*gs))
        # values
        v = vals[-1]
        for g, x in zip(reversed(gs[:-1]), reversed(vals[:-1])):
            v = ite(g, x, v) if not (x is None and v is None) else None
        # memory: cells
        keys = {}
        for s in states:
            for k in s.mem.cells:
                keys[k] = None
        mem = Memory()
        nent = min(len(s.mem.entries) for s in states)
        p = 0
        while p < nent and all(s.mem.entries[p] is states[0].mem.entries[p] for s in states):
            p += 1
        extra = any(len(s.mem.entries) > p for s in states)
        ts = self.tick()
        tmax = ts
        newcells = {}
        for k in keys:
            cs = [s.mem.cells.get(k) for s in states]
            if all(c is cs[0] for c in cs):
                newcells[k] = cs[0]
                continue
            tys = set(c[0] for c in cs if c is not None)
            if len(tys) > 1:
                # incompatible types: dead in some branch
                if k[0] >= FRESH0 and any(c is None for c in cs):
                    pass
                return None
            ty = tys.pop()
            vs = []
            for s, c in zip(states, cs):
                if c is not None and not extra:
                    vs.append(c[1])
                else:
                    vs.append(self.read_soft(s, ty, k[0], k[1]))
            r = vs[-1]
            for g, x in zip(reversed(gs[:-1]), reversed(vs[:-1])):
                if x is None:
                    continue
                r = x if r is None else ite(g, x, r)
            newcells[k] = (ty, r, max((c[2] for c in cs if c is not None)))
        for k, c in newcells.items():
            mem.cells[k] = c
            mem.byref[k[0]] = mem.byref.get(k[0], ()) + (k[1],)
        mem.entries = list(states[0].mem.entries[:p])
        if extra:
            # an entry that several of the states share is in force under the disjunction of their guards; entries of
            # different states never get the same timestamp (reads look for writes older than a timestamp)
            tail = []
            shared = {}
            for g, s in zip(gs, states):
                for e in s.mem.entries[p:]:
                    shared.setdefault(id(e), (e, []))[1].append(g)
            for e, guards in shared.values():
                g = b_or(*guards)
                self.nmerge = getattr(self, 'nmerge', 0) + 1
                ts = e.ts + self.nmerge * 1e-8
                if e.fn is None:
                    tail.append(Entry(ts, e.ty, e.ref, e.off, e.val, b_and(g, e.guard)))
                else:
                    def fn(s2, ty, ref, off, older, e=e, g=g):
                        o = older()
                        v = e.fn(s2, ty, ref, off, older)
                        return ite(g, v, o)
                    tail.append(Entry(ts, e.ty, e.ref, e.off, e.val, True, fn))
            tail.sort(key=lambda e: e.ts)
            mem.entries += tail
        st.mem = mem
        st.epoch = max(s.epoch for s in states) + (1 if any(s.epoch != states[0].epoch for s in states) else 0)
        st.exc = None
        return st, v

    def read_soft(self, s, ty, ref, off):
        if (ref, off) in s.mem.cells or ref < FRESH0 or s.mem.entries:
            try:
                return self.read(s, ty, ref, off, None)
            except Unsupported:
                return None
        return None

    def is_fact(self, x):
        """range facts about the initial heap hold on every path"""
        if not isinstance(x, z3.ExprRef) or has_quant(x):
            return False
        if x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            return x.get_id() in self.factids
        return x.get_id() in self.factids

    @property
    def factids(self):
        f = self.__dict__.get('_factids')
        if f is None:
            f = self.__dict__['_factids'] = set()
        return f

    def fact(self, st, c):
        """assume a fact that is valid on every path (definition of a fresh symbol, well-formedness)"""
        if isinstance(c, bool):
            return
        if z3.is_and(c):
            for x in c.children():
                self.fact(st, x)
            return
        self.factids.add(c.get_id())
        self.termset[c.get_id()] = c
        st.assume(c)

    # ------------------------------------------------------------------ statements
    def exec_region(self, st0, f, block, prev, region, header):
        latches, exits, outs = [], [], []
        work = [(st0, block, prev, True)]
        while work:
            st, b, prv, first = work.pop()
            if not first:
                if region is not None:
                    if b == header:
                        latches.append((st, prv))
                        continue
                    if b not in region:
                        exits.append((st, prv, b))
                        continue
            if b in f.loops and not (first and b == header):
                conts, os_ = self.run_loop(st, f, f.loops[b], prv)
                outs += os_
                for s, frm, to in conts:
                    work.append((s, to, frm, False))
                continue
            # phis
            ins = f.blocks[b]
            i = 0
            if not (first and b == header):
                newv = []
                while i < len(ins) and ins[i]['op'] == 'phi':
                    for v, pb in ins[i]['in']:
                        if pb == prv:
                            newv.append((ins[i]['id'], self.val(st, v)))
                            break
                    i += 1
                for k, v in newv:
                    st.regs[k] = v
            else:
                while i < len(ins) and ins[i]['op'] == 'phi':
                    i += 1
            self.exec_block(st, f, b, i, work, outs)
        return latches, exits, outs

    def exec_block(self, st, f, b, i, work, outs):
        stack = [(st, i)]
        ins = f.blocks[b]
        while stack:
            st, i = stack.pop()
            while True:
                x = ins[i]
                op = x['op']
                self.ninstr += 1
                if op in ('call', 'invoke'):
                    rs = self.do_call(st, f, x)
                    inv = op == 'invoke'
                    for s, kind, v in rs:
                        if kind == 'ret':
                            if 'id' in x:
                                s.regs[x['id']] = v
                            if inv:
                                work.append((s, x['normal'], b, False))
                            else:
                                stack.append((s, i + 1))
                        elif kind == 'exc':
                            if inv:
                                s.exc = v
                                work.append((s, x['unwind'], b, False))
                            else:
                                outs.append((s, 'exc', v))
                        else:
                            outs.append((s, kind, v))
                    break
                if op == 'br':
                    if 'cond' not in x:
                        work.append((st, x['succ'][0], b, False))
                        break
                    c = self.val(st, x['cond'])
                    if self.probe is not None and self.probestack:
                        pf, pb = self.probestack[-1]
                        if pf == f.name and b in pb and not (x['succ'][0] in pb and x['succ'][1] in pb):
                            self.probe.append((f.name, b, isinstance(c, bool)))
                    for s, t in self.branch(st, c):
                        work.append((s, x['succ'][0] if t else x['succ'][1], b, False))
                    break
                if op == 'switch':
                    v = self.val(st, x['cond'])
                    rest = st
                    done = False
                    for cv, tb in x['cases']:
                        if isinstance(v, (bool, z3.BoolRef)):
                            c = v if cv else b_not(v)
                        else:
                            c = eq(v, cv)
                        nxt = None
                        for s, t in self.branch(rest, c):
                            if t:
                                work.append((s, tb, b, False))
                            else:
                                nxt = s
                        if nxt is None:
                            done = True
                            break
                        rest = nxt
                    if not done:
                        work.append((rest, x['def'], b, False))
                    break
                if op == 'ret':
                    v = self.val(st, x['ops'][0]) if x['ops'] else None
                    outs.append((st, 'ret', v))
                    break
                if op == 'unreachable':
                    break
                if op == 'resume':
                    outs.append((st, 'exc', st.exc))
                    break
                r = self.simple(st, x)
                if 'id' in x:
                    st.regs[x['id']] = r
                i += 1

    def do_call(self, st, f, x):
        c = x['callee']
        if c[0] == 'asm':
            return [(st, 'ret', None)]
        args = [self.val(st, a) for a in x['args']]
        if c[0] == 'fn':
            name = c[1]
            if name.startswith('llvm.'):
                return self.intrinsic(st, name, args, x)
            return self.call_name(st, name, args, x)
        p = self.val(st, c)
        if not isinstance(p, Ptr):
            raise Unsupported('indirect call through a non-pointer')
        ls = ref_leaves(p.ref)
        out = []
        for l in ls:
            if isinstance(l, int) and l in self.fnnames:
                s = st if len(ls) == 1 else st.copy()
                if len(ls) > 1:
                    cnd = eq(p.ref, l)
                    if not self.feasible(s, (cnd,)):
                        continue
                    s.assume(cnd)
                out += self.call_name(s, self.fnnames[l], args, x)
            else:
                s = st if len(ls) == 1 else st.copy()
                cnd = eq(p.ref, l)
                if cnd is False or (cnd is not True and not self.feasible(s, (cnd,))):
                    continue
                h = self.virtual_hook
                if h is not None:
                    r = h(self, s, p, args, x)
                    if r is not None:
                        out += r
                        continue
                raise Unsupported('indirect call of an unknown function')
        return out

    virtual_hook = None

    def intrinsic(self, st, name, a, x):
        def ret(v=None):
            return [(st, 'ret', v)]
        n = name.split('.')
        k = n[1]
        if k in ('lifetime', 'dbg', 'assume', 'experimental', 'stackrestore', 'prefetch', 'invariant', 'donothing'):
            return ret()
        if k == 'expect':
            return ret(a[0])
        if k in ('memcpy', 'memmove'):
            cf = self.fns[st.stack[-1]].dem
            if isinstance(a[2], int) and a[2] <= 64 and a[2] % 8 == 0 and \
                    re.match(r'Eigen::(PlainObjectBase<Eigen::Matrix<|Matrix<|DenseStorage<)double, [234].*\(Eigen::', cf):
                vs = [self.load(st, 'double', a[1] + o) for o in range(0, a[2], 8)]
                for o, v in zip(range(0, a[2], 8), vs):
                    self.store(st, 'double', a[0] + o, v)
                return ret()
            self.memcpy(st, a[0], a[1], a[2])
            return ret()
        if k == 'memset':
            if a[1] == 0 and isinstance(a[2], int):
                p = a[0]
                for o in range(0, a[2]):
                    pass
                if isinstance(p.ref, int) and isinstance(p.off, int):
                    for o in [o for o in st.mem.byref.get(p.ref, ()) if p.off <= o < p.off + a[2]]:
                        del st.mem.cells[(p.ref, o)]
                    st.mem.byref[p.ref] = tuple(o for o in st.mem.byref.get(p.ref, ())
                                                if not (p.off <= o < p.off + a[2]))
                nn = a[2]

                def fn(s2, ty, ref, off, older, p=p, nn=nn):
                    rel = sub(off, p.off)
                    inr = b_and(le(0, rel), lt(rel, nn))
                    if inr is False:
                        return older()
                    z = self.zero(ty)
                    return z if inr is True else ite(inr, z, older())
                self.add_closure(st, p.ref, fn)
                return ret()
            if isinstance(a[2], int) and a[2] <= 64:
                for o in range(a[2]):
                    self.store(st, 'i8', a[0] + o, a[1])
                return ret()
            raise Unsupported('memset')
        if k in ('umax', 'umin', 'smax', 'smin'):
            bits = INT_BITS[n[2]]
            c = self.icmp(k[0] + 'gt' if k.endswith('max') else k[0] + 'lt', a[0], a[1], bits)
            return ret(ite(c, a[0], a[1]))
        if k in ('fabs',):
            return ret(rabs(a[0]))
        if k == 'abs':
            return ret(ite(lt(a[0], 0), neg(a[0]), a[0]))
        if k == 'fmuladd' or k == 'fma':
            return ret(add(self.fmul(a[0], a[1]), a[2]))
        if k == 'sqrt':
            return ret(self.ufun_sqrt(st, a[0]))
        if k in ('sin', 'cos', 'pow', 'exp', 'log', 'floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint', 'copysign'):
            return ret(self.ufun(k, *a))
        if k in ('maxnum', 'minnum', 'maximum', 'minimum'):
            c = lt(a[0], a[1])
            return ret(ite(c, a[1], a[0]) if k.startswith('max') else ite(c, a[0], a[1]))
        if k == 'is' and n[2] == 'constant':  # the text does not depend on what the compiler knows
            return ret(False)
        if k == 'is':  # llvm.is.fpclass
            return ret(self.fpclass(a[0], a[1]))
        if k == 'eh':
            if n[2] == 'typeid':
                return ret(self.typeid(a[0]))
        if k == 'trap':
            return []
        if k == 'stacksave':
            return ret(NULL)
        if k == 'va_start':
            raise Unsupported('varargs')
        if k == 'ctpop':
            raise Unsupported('ctpop')
        if k in ('bswap', 'ctlz', 'cttz'):
            raise Unsupported(k)
        if k == 'umul' or k == 'uadd' or k == 'smul' or k == 'sadd':
            v = mul(a[0], a[1]) if k.endswith('mul') else add(a[0], a[1])
            return ret((v, False))
        raise Unsupported('intrinsic ' + name)

    def fpclass(self, v, mask):
        inf = z3.Real('INFINITY') if getattr(self, '_inf', False) else None
        r = False
        if mask & 0x200:
            r = b_or(r, eq(v, self.INF()))
        if mask & 0x4:
            r = b_or(r, eq(v, neg(self.INF())))
        fin = b_and(lt(v, self.INF()), lt(neg(self.INF()), v))
        if mask & 0x1f8:
            if (mask & 0x1f8) != 0x1f8:
                raise Unsupported('is.fpclass')
            r = b_or(r, fin)
        return r

    def typeid(self, p):
        if isinstance(p, Ptr) and isinstance(p.ref, int) and p.ref in self.gnames:
            return 1000 + (-2000000 - p.ref)
        raise Unsupported('typeid')

    def ufun(self, name, *args):
        if all(is_c(a) for a in args):
            import math
            try:
                if name in ('sin', 'cos', 'exp', 'log', 'floor', 'ceil') and len(args) == 1:
                    if name in ('floor', 'ceil'):
                        return Fraction(getattr(math, name)(args[0]))
            except ValueError:
                pass
        if name in ('floor', 'ceil', 'round', 'trunc'):
            x = toz(toreal(args[0]))
            if name == 'floor':
                return z3.ToReal(z3.ToInt(x))
            if name == 'ceil':
                return -z3.ToReal(z3.ToInt(-x))
        f = z3.Function('fn_' + name, *([R] * len(args)), R)
        return f(*[toz(toreal(a)) for a in args])

    def ufun_sqrt(self, st, x):
        if is_c(x):
            import math
            if x >= 0:
                n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
                if n * n == x.numerator and d * d == x.denominator:
                    return Fraction(n, d)
        v = self.ufun('sqrt', x)
        xz = toz(toreal(x))
        self.fact(st, z3.Implies(xz >= 0, z3.And(v >= 0, v * v == xz)))
        return v

    def fmul(self, a, b):
        return mul(a, b)

    def icmp(self, pred, a, b, bits=64):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = Ptr(0, a)
            if not isinstance(b, Ptr):
                b = Ptr(0, b)
            if pred in ('eq', 'ne'):
                r = self.ptr_eq(a, b)
                return r if pred == 'eq' else b_not(r)
            # ordering of addresses is only meaningful within one object
            if same(a.ref, b.ref):
                a, b = a.off, b.off
            else:
                o = self.ufun_addr(a), self.ufun_addr(b)
                a, b = o
            pred = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred)
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            if pred == 'eq':
                return iff(self.truth(a), self.truth(b))
            if pred == 'ne':
                return b_not(iff(self.truth(a), self.truth(b)))
            a, b = ite(self.truth(a), 1, 0), ite(self.truth(b), 1, 0)
            pred = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred)
        if pred == 'eq':
            return eq(a, b)
        if pred == 'ne':
            return b_not(eq(a, b))
        if pred[0] == 'u':
            return self.ucmp(pred[1:], a, b, bits)
        return {'slt': lambda: lt(a, b), 'sle': lambda: le(a, b), 'sgt': lambda: lt(b, a),
                'sge': lambda: le(b, a)}[pred]()

    def ufun_addr(self, p):
        return add(z3.Function('addr', I, I)(toz(p.ref)), p.off)

    def ucmp(self, op, a, b, bits):
        if op in ('gt', 'ge'):
            a, b = b, a
            op = 'lt' if op == 'gt' else 'le'
        f = lt if op == 'lt' else le
        M = 2 ** bits
        if nonneg(b) and (not is_c(b)):
            return f(a, b) if nonneg(a) else b_and(le(0, a), f(a, b))
        if nonneg(a) and not is_c(a) and not is_c(b):
            return b_or(lt(b, 0), f(a, b))

        def u(x):
            if isinstance(x, int):
                return x % M
            return None
        ua, ub = u(a), u(b)
        if ua is not None and ub is not None:
            return f(ua, ub)
        if isinstance(b, int) and b >= 0:  # a <u const
            return b_and(le(0, a), f(a, b))
        if isinstance(a, int) and a >= 0:  # const <u b
            return b_or(lt(b, 0), f(a, b))
        # general: negative values are large
        return b_or(b_and(le(0, a), le(0, b), f(a, b)), b_and(lt(a, 0), lt(b, 0), f(a, b)),
                    b_and(le(0, a), lt(b, 0)))

    def ptr_eq(self, a, b):
        al = self.may_alias(a.ref, b.ref)
        if al is False:
            # null pointers are equal to each other
            la, lb = ref_leaves(a.ref), ref_leaves(b.ref)
            z = (any(isinstance(x, int) and x == 0 or self.can_null(x) for x in la) and
                 any(isinstance(x, int) and x == 0 or self.can_null(x) for x in lb))
            if not z:
                return False
            return b_and(eq(a.ref, b.ref), eq(a.off, b.off))
        if al is True:
            return eq(a.off, b.off)
        return b_and(eq(a.ref, b.ref), eq(a.off, b.off))

    def can_null(self, leaf):
        return not isinstance(leaf, int)

    def simple(self, st, x):
        op = x['op']
        V = lambda o: self.val(st, o)
        if op == 'alloca':
            n = V(x['cnt'])
            if not isinstance(n, int):
                raise Unsupported('variable length array')
            return Ptr(self.new_region(x['size'] * n, x.get('aty', 'local')), 0)
        if op == 'load':
            ty = x['ty']
            p = V(x['p'])
            if 'flat' in x:
                return unflatten(ty, [self.load(st, t, p + o) for o, t in x['flat']])
            if ty.startswith('<'):
                n, t = re.match(r'<(\d+)x(.*)>$', ty).groups()
                return tuple(self.load(st, t, p + k * SIZES[t]) for k in range(int(n)))
            v = self.load(st, ty, p)
            if ty == 'i1':
                v = self.truth(v)
            if 'bool' in x and isinstance(v, z3.ArithRef):
                st.assume(z3.And(v >= 0, v <= 1))  # the object representation of a bool
            return v
        if op == 'store':
            ty = x['vty']
            p = V(x['p'])
            v = V(x['val'])
            if ty.startswith('<'):
                n, t = re.match(r'<(\d+)x(.*)>$', ty).groups()
                for k in range(int(n)):
                    self.store(st, t, p + k * SIZES[t], v[k])
                return
            if ty.startswith('{'):
                o = 0
                for t, w in zip(split_struct(ty), v):
                    sz = SIZES[t]
                    o = (o + sz - 1) // sz * sz
                    self.store(st, t, p + o, w)
                    o += sz
                return
            self.store(st, ty, p, v)
            return
        if op == 'getelementptr':
            if 'off' not in x:
                raise Unsupported('gep')
            p = V(x['p'])
            if not isinstance(p, Ptr):
                if isinstance(p, int):
                    p = Ptr(0, p)
                else:
                    raise Unsupported('gep on a non-pointer')
            off = add(p.off, x['off'])
            for o, sc, ty in x['vars']:
                v = V(o)
                if isinstance(v, (bool, z3.BoolRef)):
                    v = ite(v, -1, 0)
                if isinstance(v, Ptr):
                    if not (isinstance(v.ref, int) and v.ref == 0):
                        raise Unsupported('an address as an index')
                    v = v.off
                off = add(off, mulc(v, sc))
            return Ptr(p.ref, off)
        if op == 'icmp':
            a, b = V(x['ops'][0]), V(x['ops'][1])
            return self.icmp(x['pred'], a, b, INT_BITS.get(x['oty'], 64))
        if op == 'fcmp':
            a, b = V(x['ops'][0]), V(x['ops'][1])
            p = x['pred']
            if p == 'true':
                return True
            if p == 'false':
                return False
            if p == 'ord':
                return True
            if p == 'uno':
                return False
            k = p[1:]
            if k == 'eq':
                return eq(a, b)
            if k == 'ne':
                return b_not(eq(a, b))
            return {'lt': lambda: lt(a, b), 'le': lambda: le(a, b), 'gt': lambda: lt(b, a), 'ge': lambda: le(b, a)}[k]()
        if op == 'select':
            c = V(x['ops'][0])
            return ite(c, V(x['ops'][1]), V(x['ops'][2]))
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                  'fpext', 'fptrunc', 'freeze', 'addrspacecast'):
            v = V(x['ops'][0])
            if op in ('ptrtoint', 'bitcast', 'freeze', 'fpext', 'fptrunc', 'addrspacecast'):
                if op == 'bitcast' and x['ty'] != x['oty']:
                    return self.convert(v, x['oty'], x['ty'])
                return v
            if op == 'inttoptr':
                return v if isinstance(v, Ptr) else Ptr(0, v)
            if op == 'trunc':
                return self.trunc(v, INT_BITS[x['oty']], INT_BITS[x['ty']])
            if op == 'zext':
                fb = INT_BITS[x['oty']]
                if fb == 1:
                    return ite(self.truth(v), 1, 0)
                return unsigned(v, fb)
            if op == 'sext':
                if x['oty'] == 'i1':
                    return ite(self.truth(v), -1, 0)
                return v
            if op in ('sitofp', 'uitofp'):
                if x['oty'] == 'i1':
                    return ite(self.truth(v), Fraction(1), Fraction(0))
                if op == 'uitofp':
                    v = unsigned(v, INT_BITS[x['oty']])
                return toreal(v)
            if op in ('fptosi', 'fptoui'):
                if is_c(v):
                    return int(v)
                vz = toz(v)
                return z3.If(vz >= 0, z3.ToInt(vz), -z3.ToInt(-vz))
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            return self.arith(st, op, V(x['ops'][0]), V(x['ops'][1]), x)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
            vs = [V(o) for o in x['ops']]
            if x['ty'].startswith('<'):
                if op == 'fneg':
                    return tuple(neg(a) for a in vs[0])
                return tuple(self.farith(st, op, a, b) for a, b in zip(*vs))
            if op == 'fneg':
                return neg(vs[0])
            return self.farith(st, op, *vs)
        if op == 'extractvalue':
            v = V(x['ops'][0])
            for i in x['idx']:
                v = v[i]
            return v
        if op == 'insertvalue':
            a = V(x['ops'][0])
            return setnested(a, x['idx'], V(x['ops'][1]))
        if op == 'extractelement':
            v, i = V(x['ops'][0]), V(x['ops'][1])
            return v[i]
        if op == 'insertelement':
            v, w, i = (V(o) for o in x['ops'])
            return v[:i] + (w,) + v[i + 1:]
        if op == 'shufflevector':
            a, b = V(x['ops'][0]), V(x['ops'][1])
            c = a + b
            return tuple(c[max(i, 0)] for i in x['mask'])
        if op == 'landingpad':
            return self.landingpad(st, x)
        if op == 'fence':
            return None
        if op == 'atomicrmw':
            p, v = V(x['ops'][0]), V(x['ops'][1])
            old = self.load(st, x['ty'], p)
            n = {'add': lambda: add(old, v), 'sub': lambda: sub(old, v), 'xchg': lambda: v}.get(x['rmw'])
            if n is None:
                raise Unsupported('atomicrmw')
            self.store(st, x['ty'], p, n())
            self.assumptions.add('atomic operations are executed as sequential operations (single thread)')
            return old
        if op == 'cmpxchg':
            p, e, n = (V(o) for o in x['ops'])
            ty = x['ty'].strip('{}').split(',')[0]
            old = self.load(st, ty, p)
            c = eq(old, e) if not isinstance(old, Ptr) else self.ptr_eq(old, e)
            self.store(st, ty, p, ite(c, n, old))
            self.assumptions.add('atomic operations are executed as sequential operations (single thread)')
            return (old, c)
        raise Unsupported('instruction ' + op)

    def farith(self, st, op, a, b):
        if op == 'fadd':
            return add(a, b)
        if op == 'fsub':
            return sub(a, b)
        if op == 'fmul':
            return self.fmul(a, b)
        if op == 'fdiv':
            if is_c(b):
                if b == 0:
                    return self.ufun('div0', a)
                return mulc(toreal(a), 1 / Fraction(b))
            q = self.divs.get((toz(a).get_id(), b.get_id()))
            if q is None:
                q = toz(toreal(a)) / b
                self.divs[(toz(a).get_id(), b.get_id())] = q
                self.termset[toz(a).get_id()] = toz(a)
                self.termset[b.get_id()] = b
            self.fact(st, z3.Implies(b != 0, q * b == toz(toreal(a))))
            return q
        if op == 'frem':
            return self.ufun('fmod', a, b)
        raise Unsupported(op)

    divs = {}

    def arith(self, st, op, a, b, x):
        ty = x['ty']
        bits = INT_BITS.get(ty)
        if ty == 'i1':
            a, b = self.truth(a), self.truth(b)
            if op in ('and', 'mul'):
                return b_and(a, b)
            if op == 'or':
                return b_or(a, b)
            if op in ('xor', 'add', 'sub'):
                return b_not(iff(a, b))
            raise Unsupported('i1 ' + op)
        if bits is None:
            raise Unsupported(f'{op} on {ty}')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if not same(a.ref, b.ref):
                    al = self.may_alias(a.ref, b.ref)
                    if al is False:
                        if isinstance(a.ref, int) and a.ref == -77:
                            return 2 ** 62  # capacity is never exhausted
                        c = b_and(eq(a.ref, 0), eq(b.ref, 0))
                        if c is False:
                            raise Unsupported('subtraction of unrelated pointers')
                        st.assume(c)
                    else:
                        st.assume(eq(a.ref, b.ref))  # otherwise undefined behaviour
                return sub(a.off, b.off)
            if op == 'sub' and isinstance(a, Ptr):
                return Ptr(a.ref, sub(a.off, b))
            if op == 'add':
                return Ptr(a.ref, add(a.off, b)) if isinstance(a, Ptr) else Ptr(b.ref, add(a, b.off))
            if op == 'and' and isinstance(a, Ptr) and isinstance(b, int):
                raise Unsupported('pointer masking')
            raise Unsupported('pointer arithmetic ' + op)
        if isinstance(a, (bool, z3.BoolRef)):
            a = ite(a, 1, 0)
        if isinstance(b, (bool, z3.BoolRef)):
            b = ite(b, 1, 0)
        if isinstance(a, tuple) and a and a[0] == 'raw' and op == 'lshr' and isinstance(b, int) and b % 8 == 0:
            return ('raw', tuple((o - b // 8, t, w) for o, t, w in a[1] if o >= b // 8))
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported('arithmetic on raw bits')
        if isinstance(a, int) and isinstance(b, int):
            r = const_arith(op, a, b, bits)
            if r is None:
                raise Unsupported('undefined ' + op)
            return r
        nw = bits >= 64 or x.get('nsw')
        if op == 'add':
            if not nw and bits == 32 and isinstance(b, int) and b == 1:
                self.assumptions.add('counters of type unsigned int are incremented less than 2^32 times')
                nw = True
            r = add(a, b)
            return r if nw else wrap(r, bits)
        if op == 'sub':
            r = sub(a, b)
            return r if nw else wrap(r, bits)
        if op == 'mul':
            r = mul(a, b)
            return r if nw else wrap(r, bits)
        if op == 'shl' and isinstance(b, int):
            r = mulc(a, 2 ** b)
            return r if nw else wrap(r, bits)
        if op == 'sdiv':
            if isinstance(b, int) and b > 0:
                # exact pointer differences, otherwise truncating division
                q = divc_exact(a, b)
                if is_exact(a, b):
                    return q
                az = toz(a)
                return z3.If(az >= 0, az / b, -((-az) / b))
            raise Unsupported('sdiv')
        if op == 'udiv' and isinstance(b, int) and b > 0:
            if is_exact(a, b):
                return divc_exact(a, b)
            return z3.If(toz(a) >= 0, toz(a) / b, (toz(a) + 2 ** bits) / b)
        if op == 'urem' and isinstance(b, int) and b > 0:
            return z3.If(toz(a) >= 0, toz(a) % b, (toz(a) + 2 ** bits) % b)
        if op == 'srem' and isinstance(b, int) and b > 0:
            az = toz(a)
            return z3.If(az >= 0, az % b, -((-az) % b))
        if op in ('udiv', 'urem'):
            az, bz = toz(a), toz(b)
            return az / bz if op == 'udiv' else az % bz
        if op == 'ashr' and isinstance(b, int):
            if is_exact(a, 2 ** b):
                return divc_exact(a, 2 ** b)
            return toz(a) / (2 ** b)
        if op == 'lshr' and isinstance(b, int):
            az = toz(a)
            return z3.If(az >= 0, az / (2 ** b), (az + 2 ** bits) / (2 ** b))
        if op == 'and':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return 0
                if b > 0 and (b & (b + 1)) == 0:
                    return toz(a) % (b + 1)
                if b > 0 and (b & (b - 1)) == 0:
                    return mulc((toz(a) / b) % 2, b)
        if op == 'or' and isinstance(b, int) and b == 0:
            return a
        if op == 'xor':
            if isinstance(b, int) and b == -1:
                return sub(-1, a)
            if isinstance(b, int) and b in (0,):
                return a
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            if bits <= 32:
                az, bz = z3.Int2BV(toz(a), bits), z3.Int2BV(toz(b), bits)
                r = {'and': lambda: az & bz, 'or': lambda: az | bz, 'xor': lambda: az ^ bz, 'shl': lambda: az << bz,
                     'lshr': lambda: z3.LShR(az, bz), 'ashr': lambda: az >> bz}[op]()
                return z3.BV2Int(r, True)
            return z3.Function('bit_' + op, I, I, I)(toz(a), toz(b))
        raise Unsupported(op)

    # ------------------------------------------------------------------ exceptions
    STDBASE = {
        'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error',
        'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error',
        'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception',
        'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
        'std::bad_alloc': 'std::exception', 'std::bad_cast': 'std::exception', 'std::bad_weak_ptr': 'std::exception',
        'std::bad_function_call': 'std::exception',
    }

    ZTI = {'_ZTISt12out_of_range': 'std::out_of_range', '_ZTISt16invalid_argument': 'std::invalid_argument',
           '_ZTISt12length_error': 'std::length_error', '_ZTISt11logic_error': 'std::logic_error',
           '_ZTISt13runtime_error': 'std::runtime_error', '_ZTISt9exception': 'std::exception',
           '_ZTISt9bad_alloc': 'std::bad_alloc', '_ZTISt8bad_cast': 'std::bad_cast',
           '_ZTISt17bad_function_call': 'std::bad_function_call', '_ZTISt12bad_weak_ptr': 'std::bad_weak_ptr'}

    def exc_derives(self, t, base):
        if t == base:
            return True
        if t in self.ZTI.values():
            b = self.STDBASE.get(t)
            return b is not None and self.exc_derives(b, base)
        g = self.globals.get(t)
        if t in self.ZTI:
            return self.exc_derives(self.ZTI[t], base)
        if base in self.ZTI:
            if self.exc_derives(t, self.ZTI[base]):
                return True
        if g and 'init' in g and g['init'][0] == 'agg':
            for x in g['init'][2][2:]:
                if x[0] == 'g' and self.exc_derives(x[1], base):
                    return True
        return False

    def exc_name(self, p):
        if isinstance(p, Ptr) and isinstance(p.ref, int) and p.ref in self.gnames:
            return self.gnames[p.ref]
        return None

    def landingpad(self, st, x):
        ty, obj = st.exc
        for k, c in x['clauses']:
            if k == 'catch':
                if c[0] == 'null':
                    return (obj, 999)
                if c[0] == 'g' and (self.exc_derives(ty, c[1]) or
                                    (c[1] in self.ZTI and self.exc_derives(ty, self.ZTI[c[1]]))):
                    return (obj, self.typeid(self.gptr(c[1])))
        return (obj, 0)

    # ------------------------------------------------------------------ loops
    def run_loop(self, st, f, L, prev):
        """returns (continuations [(state, from, to)], outcomes)"""
        from loops import LoopRunner
        return LoopRunner(self, f, L).run(st, prev)


def _un(t):
    from terms import _unz
    return _unz(t)


NONNEG = ('veclen', 'it!', 'cnt!', 'idx!', 'strlen', 'maplen')


def nonneg(t):
    if is_c(t):
        return t >= 0
    if isinstance(t, (bool, Ptr)) or not isinstance(t, z3.ExprRef):
        return False
    c, d = lin(t)
    if c < 0:
        return False
    for tm, co in d.values():
        if co < 0:
            return False
        if tm.decl().kind() == z3.Z3_OP_ITE:
            if not (nonneg(_un(tm.arg(1))) and nonneg(_un(tm.arg(2)))):
                return False
        elif not tm.decl().name().startswith(NONNEG):
            return False
    return True


def is_exact(a, k):
    if is_c(a):
        return a % k == 0
    c, d = lin(a)
    return c % k == 0 and all(co % k == 0 for _, co in d.values())


def rabs(a):
    if is_c(a):
        return abs(a)
    return ite(lt(a, Fraction(0)), neg(a), a)


def wrap(v, bits):
    if isinstance(v, int):
        m = v & (2 ** bits - 1)
        return m - 2 ** bits if m >= 2 ** (bits - 1) else m
    h = 2 ** (bits - 1)
    if v.decl().kind() == z3.Z3_OP_ITE and all(isinstance(_un(v.arg(i)), int) for i in (1, 2)):
        return ite(v.arg(0), wrap(_un(v.arg(1)), bits), wrap(_un(v.arg(2)), bits))
    vz = toz(v)
    return z3.If(z3.And(vz >= -h, vz < h), vz, ((vz + h) % (2 ** bits)) - h)


def unsigned(v, bits):
    if isinstance(v, int):
        return v % (2 ** bits)
    if isinstance(v, (bool, z3.BoolRef)):
        return ite(v, 1, 0)
    if isinstance(v, Ptr) or bits >= 64 or nonneg(v):
        return v
    if v.decl().kind() == z3.Z3_OP_ITE and all(isinstance(_un(v.arg(i)), int) and _un(v.arg(i)) >= 0 for i in (1, 2)):
        return v
    return z3.If(toz(v) >= 0, toz(v), toz(v) + 2 ** bits)


def const_arith(op, a, b, bits):
    M = 2 ** bits

    def s(v):
        v %= M
        return v - M if v >= M // 2 else v
    ua, ub = a % M, b % M
    if op == 'add':
        return s(a + b)
    if op == 'sub':
        return s(a - b)
    if op == 'mul':
        return s(a * b)
    if op == 'and':
        return s(ua & ub)
    if op == 'or':
        return s(ua | ub)
    if op == 'xor':
        return s(ua ^ ub)
    if op == 'shl':
        return s(ua << ub) if ub < bits else 0
    if op == 'lshr':
        return s(ua >> ub)
    if op == 'ashr':
        return s(a >> ub)
    if b == 0:
        return None
    if op == 'sdiv':
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    if op == 'udiv':
        return s(ua // ub)
    if op == 'srem':
        q = abs(a) % abs(b)
        return q if a >= 0 else -q
    if op == 'urem':
        return s(ua % ub)


def split_struct(ty):
    assert ty[0] == '{'
    out, depth, cur = [], 0, ''
    for ch in ty[1:-1]:
        if ch in '{[<':
            depth += 1
        if ch in '}]>':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


def flat_types(ty):
    if ty.startswith('{'):
        r = []
        for t in split_struct(ty):
            r += flat_types(t)
        return r
    if ty.startswith('[') or ty.startswith('<'):
        n, t = re.match(r'[<\[](\d+)x(.*)[>\]]$', ty).groups()
        return flat_types(t) * int(n)
    return [ty]


def unflatten(ty, vals):
    def go(t):
        if t.startswith('{'):
            return tuple(go(u) for u in split_struct(t))
        if t.startswith('['):
            n, u = re.match(r'\[(\d+)x(.*)\]$', t).groups()
            return tuple(go(u) for _ in range(int(n)))
        return vals.pop(0)
    return go(ty)


def setnested(a, idx, v):
    if not idx:
        return v
    i = idx[0]
    return a[:i] + (setnested(a[i], idx[1:], v),) + a[i + 1:]
