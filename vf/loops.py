"""Loops: concrete unrolling where the number of iterations is a constant, otherwise a summary by induction over the
iteration number n. Loop-carried values become functions of n (closed forms where the difference of consecutive values is
constant, recurrences otherwise), writes of earlier iterations are read back through their (inverted) index function, and
the fact that the earlier iterations did not leave the loop becomes a quantified history assumption."""
import math
from fractions import Fraction

import z3

from terms import *
from terms import _unz
import engine as en

UNROLL_MAX = 80


class Var:
    def __init__(self, kind, key, ty, init):
        self.kind = kind  # phi, cell, loc
        self.key = key
        self.ty = ty
        self.init = init
        self.cls = None  # None, 'const', ('lin', c), ('cnt', g, fn), 'rec'
        self.refmode = 'opt'  # pointers: reference assumed invariant
        self.val = None


def conj(xs):
    return b_and(*xs) if xs else True


class LoopRunner:
    def __init__(self, eng, f, L):
        self.e = eng
        self.f = f
        self.L = L
        self.h = L['header']
        self.blocks = L['blocks']
        self.phis = [x for x in f.blocks[self.h] if x['op'] == 'phi']

    # ------------------------------------------------------------------
    def phi_values(self, st, prv):
        out = {}
        for x in self.phis:
            for v, pb in x['in']:
                if pb == prv:
                    out[x['id']] = self.e.val(st, v)
                    break
        return out

    def run(self, st, prev):
        e = self.e
        init = self.phi_values(st, prev)
        for k, v in init.items():
            st.regs[k] = v
        r = self.unroll(st)
        if r is not None:
            return r
        try:
            return self.summary(st, init)
        except Unsupported:
            r = self.few_iterations(st)
            if r is None:
                raise
            return r

    def few_iterations(self, st0):
        """the loop if its path condition excludes more than a few iterations"""
        e = self.e
        for silent in (1, 0):
            conts, outs, states = [], [], [st0.copy()]
            for it in range(3):
                nxt = []
                for s in states:
                    e.silent += silent
                    try:
                        lat, ex, os_ = e.exec_region(s.copy(), self.f, self.h, None, self.blocks, self.h)
                    except Unsupported:
                        return None
                    finally:
                        e.silent -= silent
                    conts += ex
                    outs += os_
                    for l, frm in lat:
                        if e.check_valid(l.pc, z3.BoolVal(False), 4000)[0] == 'proved':
                            continue
                        for k, v in self.phi_values(l, frm).items():
                            l.regs[k] = v
                        nxt.append(l)
                states = nxt
                if not states:
                    break
                if len(states) > 6:
                    return None
            if states:
                return None
        return conts, outs

    # ------------------------------------------------------------------ constant loops
    def unroll(self, st0):
        e = self.e
        conts, outs = [], []
        states = [st0.copy()]
        for it in range(UNROLL_MAX):
            nxt = []
            for s in states:
                npc = len(s.pc)
                probe = e.probe
                e.probe = []
                e.probestack = getattr(e, 'probestack', [])
                e.probestack.append((self.f.name, self.blocks))
                if it == 0:
                    e.silent += 1
                try:
                    s1 = s.copy()
                    lat, ex, os_ = e.exec_region(s1, self.f, self.h, None, self.blocks, self.h)
                    mine = [c for (fn, b, c) in e.probe if fn == self.f.name]
                finally:
                    e.probe = probe
                    e.probestack.pop()
                    if it == 0:
                        e.silent -= 1
                if it == 0:
                    if not any(mine) and lat:
                        return None
                    if e.silent == 0:
                        # redo with obligations
                        e.probestack.append((self.f.name, self.blocks))
                        probe = e.probe
                        e.probe = []
                        try:
                            lat, ex, os_ = e.exec_region(s.copy(), self.f, self.h, None, self.blocks, self.h)
                        finally:
                            e.probe = probe
                            e.probestack.pop()
                conts += ex
                outs += os_
                lv = []
                for l, frm in lat:
                    vals = self.phi_values(l, frm)
                    lv.append((l, vals))
                if len(lv) > 1:
                    ids = sorted(lv[0][1])
                    m = e.merge_states([l for l, _ in lv], [tuple(v[i] for i in ids) for _, v in lv], npc)
                    if m is not None:
                        ms, mv = m
                        # registers that differ are dead after the merge (they are defined in the body)
                        ms.regs = dict(s.regs)
                        lv = [(ms, dict(zip(ids, mv)))]
                for l, vals in lv:
                    for k, v in vals.items():
                        l.regs[k] = v
                    nxt.append(l)
            states = nxt
            if not states:
                return conts, outs
            if len(states) > 24:
                raise Unsupported('too many paths in an unrolled loop of ' + self.f.dem[:80])
        if UNROLL_MAX and it == UNROLL_MAX - 1:
            return None
        return conts, outs

    # ------------------------------------------------------------------ summaries
    def summary(self, st0, init):
        e = self.e
        n = e.fresh('it')
        self.n = n
        self.mark = e.nreg
        vars_ = {}
        for x in self.phis:
            v = init[x['id']]
            vars_[('phi', x['id'])] = Var('phi', x['id'], x['ty'], v)
        writes = []
        self.writes = writes
        self.funs = {}
        self.st0 = st0
        e.silent += 1
        try:
            for rnd in range(14):
                res = self.onepass(st0, vars_, [], hist=None, extra=())
                lat = res[3]
                if lat is None:
                    # never continues: the body runs at most once
                    break
                changed = self.classify(st0, vars_, lat, res)
                if not changed:
                    break
            else:
                raise Unsupported('loop summary does not converge in ' + self.f.dem[:80] + str(self.why)[:600])
            if lat is None:
                e.silent -= 1
                try:
                    s = st0.copy()
                    l2, ex, os_ = e.exec_region(s, self.f, self.h, None, self.blocks, self.h)
                finally:
                    e.silent += 1
                return ex, os_
            # writes at loop-dependent locations
            wr = self.find_writes(st0, vars_, lat)
            if wr:
                res = self.onepass(st0, vars_, wr, hist=None, extra=())
                lat = res[3]
                if lat is None:
                    raise Unsupported('loop without continuation')
                if self.classify(st0, vars_, lat, res):
                    raise Unsupported('loop summary changed by its own writes ' + str(self.why))
                wr2 = self.find_writes(st0, vars_, lat)
                self.link_writes(wr, wr2)
            facts, cont = self.history(st0, vars_, lat, wr)
            inv = self.invariants(st0, vars_, lat, wr, facts, cont)
        finally:
            e.silent -= 1
        res = self.onepass(st0, vars_, wr, hist=(facts, cont), extra=inv)
        lats, ex, os_ = res[0], res[1], res[2]
        return ex, os_

    def value(self, v):
        """value of a loop-carried variable at the header of iteration n"""
        e, n = self.e, self.n
        c = v.cls
        if c == 'const':
            return v.init
        if isinstance(c, tuple) and c[0] == 'lin':
            if isinstance(v.init, Ptr):
                return Ptr(v.init.ref, add(v.init.off, times(n, c[1])))
            return add(v.init, times(z3.ToReal(n) if c[2] else n, c[1]))
        if isinstance(c, tuple) and c[0] == 'cnt':
            d = mulc(c[2](n), c[1])
            if isinstance(v.init, Ptr):
                return Ptr(v.init.ref, add(v.init.off, d))
            return add(v.init, d)
        if isinstance(c, tuple) and c[0] == 'sum':
            return add(v.init, c[2](n))
        # recurrence: uninterpreted function of n
        if v.val is None:
            save = e.loopctx
            e.loopctx = save + [n]
            try:
                if isinstance(v.init, Ptr) and v.refmode == 'opt':
                    sd = e.strideof(v.init.ref)
                    if sd:
                        v.q = e.fresh('q')
                        v.val = Ptr(v.init.ref, add(v.init.off, mulc(v.q, sd)))
                    else:
                        v.val = Ptr(v.init.ref, e.fresh('o'))
                    v.sd = sd
                else:
                    v.val = e.fresh_ty('x', self.vty(v))
            finally:
                e.loopctx = save
        return v.val

    def vty(self, v):
        if isinstance(v.init, Ptr):
            return 'ptr'
        if isinstance(v.init, (bool, z3.BoolRef)):
            return 'i1'
        return v.ty

    def header_state(self, st0, vars_, writes):
        e = self.e
        s = st0.copy()
        for v in vars_.values():
            val = self.value(v)
            if v.kind == 'phi':
                s.regs[v.key] = val
            elif v.kind == 'cell':
                ref, off = v.key
                s.mem.setcell(ref, off, v.ty, val, e.tick())
            else:
                ref, off = v.key[0], v.key[1]
                s.mem.entries.append(en.Entry(e.tick(), v.ty, ref, off, val))
        if any(v.kind != 'phi' and not (isinstance(v.key[0], int) and v.key[0] >= en.FRESH0) for v in vars_.values()) \
                or writes:
            s.epoch += 1
        if writes:
            self.add_writes(s, writes)
        return s

    def onepass(self, st0, vars_, writes, hist, extra):
        e, n = self.e, self.n
        s = self.header_state(st0, vars_, writes)
        s.assume(n >= 0)
        e.factids.add((n >= 0).get_id())
        for v in vars_.values():
            if isinstance(v.cls, tuple) and v.cls[0] == 'cnt':
                c = v.cls[2]
                hi = max(ref_leaves_num(v.cls[3])) // v.cls[1]
                x = z3.And(c(n) >= 0, c(n) <= hi * n)
                s.assume(x)
                e.factids.add(x.get_id())
        if hist is not None:
            for x in hist[0]:
                # holds on other paths too, where the loop is taken to have made no iteration (definitional extension)
                e.defids[x.get_id()] = x
                s.assume(x)
        for x in extra:
            s.assume(x)
        self.hdr = s.copy()
        npc = len(s.pc)
        save = e.loopctx
        e.loopctx = save + [n]
        try:
            lats, ex, os_ = e.exec_region(s, self.f, self.h, None, self.blocks, self.h)
        finally:
            e.loopctx = save
        if not lats:
            return lats, ex, os_, None
        lv = [(l, self.phi_values(l, frm)) for l, frm in lats]
        ids = [x['id'] for x in self.phis]
        if len(lv) == 1:
            ls, vals = lv[0][0], tuple(lv[0][1][i] for i in ids)
        else:
            save = e.loopctx
            e.loopctx = save + [n]
            try:
                m = e.merge_states([l for l, _ in lv], [tuple(v[i] for i in ids) for _, v in lv], npc)
            finally:
                e.loopctx = save
            if m is None:
                raise Unsupported('paths of a loop body cannot be merged in ' + self.f.dem[:80])
            ls, vals = m
        self.npc = npc
        return lats, ex, os_, (ls, dict(zip(ids, vals)), npc)

    def is_new(self, ref):
        return isinstance(ref, int) and ref > en.FRESH0 + self.mark

    def classify(self, st0, vars_, lat, res):
        """updates classifications and adds newly modified memory cells; True if something changed"""
        e, n = self.e, self.n
        ls, phis, npc = lat
        changed = False
        self.why = []
        self.vars = vars_
        # modified cells
        for key, c in ls.mem.cells.items():
            if self.is_new(key[0]):
                continue
            h = self.hdr.mem.cells.get(key)
            if h is c or ('cell', key) in vars_:
                continue
            if h is not None and same(h[1], c[1]) and h[0] == c[0]:
                continue
            init = self.initial(st0, c[0], key, c[1])
            vars_[('cell', key)] = Var('cell', key, c[0], init)
            self.why.append(('newcell', key, c[0]))
            changed = True
        if changed:
            for v in vars_.values():
                v.val = None
            return True
        for v in vars_.values():
            if v.kind == 'phi':
                nx = phis[v.key]
            elif v.kind == 'cell':
                c = ls.mem.cells.get(v.key)
                nx = e.convert(c[1], c[0], v.ty) if c is not None else v.init
            else:
                nx = e.read(ls, v.ty, v.key[0], v.key[1], None)
            v.next = nx
            cur = self.value(v)
            if v.cls in (None, 'rec'):
                c = None if getattr(v, 'demoted', False) else self.delta(v, cur, nx)
                if c is not None:
                    v.cls = c
                    self.why.append(('cls', v.kind, v.key, c))
                    changed = True
            else:
                # closed form must be re-established
                if v.cls == 'const':
                    ok = same(nx, v.init) or self.delta(v, v.init, nx) == 'const'
                else:
                    nc = self.delta(v, cur, nx)
                    ok = nc is not None and self.samecls(v.cls, nc)
                    if not ok and nc is not None and nc != 'const' and v.cls[0] in ('sum', 'cnt') and nc[0] == 'lin' \
                            and not getattr(v, 'upgraded', False):
                        v.upgraded = True
                        v.cls = nc
                        changed = ok = True
                        self.why.append(('upgrade', v.kind, v.key, nc))
                    if ok and v.cls[0] in ('cnt', 'sum'):
                        if not same(v.cls[2](z3.IntVal(0)), nc[2](z3.IntVal(0))) or \
                                not same(toz(v.cls[3]), toz(nc[3])):
                            self.why.append(('step', v.kind, v.key, v.cls[3], nc[3]))
                            changed = True
                            v.cls = nc
                if not ok:
                    if isinstance(v.init, Ptr) and v.refmode == 'opt':
                        v.refmode = 'full'
                    self.why.append(('rec', v.kind, v.key, v.cls, v.init, nx))
                    v.cls = 'rec'
                    v.demoted = True
                    v.val = None
                    changed = True
        if changed:
            for v in vars_.values():
                if v.cls is None:
                    v.val = None
        else:
            for v in vars_.values():
                if v.cls is None:
                    v.cls = 'rec'
                if isinstance(v.init, Ptr) and v.cls == 'rec' and v.refmode == 'opt':
                    nx = v.next
                    if not (isinstance(nx, Ptr) and same(nx.ref, v.init.ref) and
                            (not v.sd or exact_ite(sub(nx.off, v.init.off), v.sd))):
                        v.refmode = 'full'
                        v.val = None
                        self.why.append(('refmode', v.kind, v.key, v.init, nx))
                        changed = True
        if not changed:
            # stores to symbolic locations that do not depend on n
            for x in ls.mem.entries[len(self.hdr.mem.entries):]:
                if x.fn is not None or self.is_new(x.ref):
                    continue
                if uses(x.ref, n) or uses(x.off, n) or self.uses_rec(vars_, x.ref) or self.uses_rec(vars_, x.off):
                    continue
                k = ('loc', x.ref if isinstance(x.ref, int) else x.ref.get_id(),
                     x.off if isinstance(x.off, int) else x.off.get_id(), x.ty)
                if k not in vars_:
                    init = e.read(st0, x.ty, x.ref, x.off, None)
                    v = Var('loc', (x.ref, x.off), x.ty, init)
                    vars_[k] = v
                    self.why.append(('newloc', k))
                    changed = True
            if changed:
                for v in vars_.values():
                    if v.cls in (None, 'rec'):
                        v.val = None
        return changed

    def initial(self, st0, ty, key, sample):
        e = self.e
        c = st0.mem.cells.get(key)
        if c is not None:
            try:
                return e.convert(c[1], c[0], ty)
            except Unsupported:
                pass
        if key[0] >= en.FRESH0 and not any(e.may_alias(x.ref, key[0]) is not False for x in st0.mem.entries):
            # uninitialised before the loop
            return e.fresh_ty('undef', ty if ty != 'bits' else 'i64')
        return e.read(st0, ty, key[0], key[1], None)

    def uses_rec(self, vars_, t):
        for v in vars_.values():
            if v.cls in (None, 'rec') and v.val is not None:
                for x in ([v.val.ref, v.val.off] if isinstance(v.val, Ptr) else [v.val]):
                    if isinstance(x, z3.ExprRef) and not same(x, v.init.ref if isinstance(v.init, Ptr) else None) \
                            and uses(t, x):
                        return True
        return False

    def samecls(self, a, b):
        if a == 'const' or b == 'const':
            return a == b
        if a[0] == 'lin' and b[0] == 'lin':
            return same(a[1], b[1])
        if a[0] == 'cnt' and b[0] == 'cnt':
            return True
        if a[0] == 'sum' and b[0] == 'sum':
            return True
        return False

    def delta(self, v, cur, nx):
        """closed form of the step, or None"""
        if isinstance(cur, Ptr) != isinstance(nx, Ptr):
            if isinstance(cur, Ptr) and is_c(nx) and nx == 0:
                nx = NULL
            else:
                return None
        if isinstance(cur, Ptr):
            if not same(cur.ref, nx.ref):
                return None
            if isinstance(v.init, Ptr) and not same(v.init.ref, cur.ref) and v.refmode == 'full':
                # reference itself invariant
                return None
            d = self.delta0(cur.off, nx.off, False)
            if d is not None and d[0] == 'sum':
                return None
            return d
        if isinstance(cur, (bool, z3.BoolRef)) or isinstance(nx, (bool, z3.BoolRef)):
            return 'const' if same(cur, nx) else None
        if isinstance(cur, tuple) or isinstance(nx, tuple):
            return 'const' if same(cur, nx) else None
        real = isinstance(v.init, Fraction) or (isinstance(v.init, z3.ExprRef) and v.init.sort() == en.R)
        return self.delta0(cur, nx, real)

    def delta0(self, cur, nx, real):
        if same(cur, nx):
            return 'const'
        d = sub(nx, cur)
        if is_c(d):
            if d == 0:
                return 'const'
            return ('lin', d, real)
        if real:
            return self.sumcls(cur, d, real)
        # conditional constant steps
        dl = lift(d)
        leaves = ref_leaves_num(dl)
        if leaves is not None and not uses(dl, self.n) and not self.uses_rec(self.vars, dl):
            return ('lin', dl, real)
        if leaves is None or any(x < 0 for x in leaves):
            return self.sumcls(cur, d, real)
        # the step must not depend on the counter itself in a way we cannot name: any condition is fine
        g = 0
        for x in leaves:
            g = math.gcd(g, x)
        if g == 0:
            return 'const'
        return ('cnt', g, self.canon('cnt', divc_exact_ite(dl, g), en.I), dl)

    def canon(self, kind, step, so):
        """function symbol of an accumulation, shared by all loops with the same steps in the same context"""
        e, n = self.e, self.n
        cn = z3.Int('CANON')
        ctx = list(self.outer_ctx())
        key = (kind, z3.substitute(toz(step), (n, cn)).sexpr(), so.name(), tuple(c.sexpr() for c in ctx))
        if not hasattr(e, 'sumfns'):
            e.sumfns = {}
        if key not in e.sumfns:
            e.nfresh += 1
            fn = z3.Function(f'{kind}!{e.nfresh}', *([en.I] * (len(ctx) + 1)), so)
            e.sumfns[key] = lambda k, fn=fn, ctx=ctx: fn(*ctx, toz(k))
        return e.sumfns[key]

    def sumcls(self, cur, d, real):
        """accumulation of a term that does not depend on the accumulator"""
        e, n = self.e, self.n
        if not uses(toz(d), n) or uses(toz(d), toz(cur)):
            return None
        for x in self.cursyms(cur):
            if uses(toz(d), x):
                return None
        return ('sum', 1, self.canon('sum', d, en.R if real else en.I), d)

    def cursyms(self, cur):
        if isinstance(cur, z3.ExprRef):
            c, d = lin(cur)
            return [t for t, _ in d.values()]
        return []

    # ------------------------------------------------------------------ writes
    def find_writes(self, st0, vars_, lat):
        e, n = self.e, self.n
        ls = lat[0]
        out = []
        for x in ls.mem.entries[len(self.hdr.mem.entries):]:
            if self.is_new(x.ref):
                continue
            if x.fn is not None:
                if getattr(x, 'loopdead', False):
                    continue
                raise Unsupported('nested summarised writes in a loop of ' + self.f.dem[:80])
            dep = uses(x.ref, n) or uses(x.off, n) or self.uses_rec(vars_, x.ref) or self.uses_rec(vars_, x.off)
            if not dep:
                continue
            if uses(x.ref, n):
                raise Unsupported('loop writes to changing objects in ' + self.f.dem[:80])
            c, d = lin(x.off)
            w = {'ty': x.ty, 'ref': x.ref, 'off': x.off, 'val': x.val, 'guard': x.guard, 'mode': None}
            if n.get_id() in d and not any(uses(tm, n) for k, (tm, co) in d.items() if k != n.get_id()):
                co = d[n.get_id()][1]
                d2 = {k: t for k, t in d.items() if k != n.get_id()}
                w['mode'] = 'lin'
                w['c'] = co
                w['o0'] = from_lin(c, d2)
            else:
                # counter
                for v in vars_.values():
                    if isinstance(v.cls, tuple) and v.cls[0] == 'cnt':
                        t = v.cls[2](n)
                        if t.get_id() in d and not any(uses(tm, n) for k, (tm, co) in d.items() if k != t.get_id()):
                            d2 = {k: q for k, q in d.items() if k != t.get_id()}
                            w['mode'] = 'cnt'
                            w['c'] = d[t.get_id()][1]
                            w['o0'] = from_lin(c, d2)
                            w['var'] = v
                            break
            if w['mode'] is None:
                raise Unsupported('loop writes at irregular locations in ' + self.f.dem[:80])
            if self.has_new(w['val']):
                raise Unsupported('loop stores objects it allocates in ' + self.f.dem[:80])
            out.append(w)
        return out

    def has_new(self, v):
        if isinstance(v, Ptr):
            return self.has_new(v.ref)
        if isinstance(v, int) and not isinstance(v, bool):
            return self.is_new(v)
        if isinstance(v, z3.ExprRef):
            return any(isinstance(l, int) and self.is_new(l) for l in ref_leaves(v)) if v.sort() == en.I else False
        return False

    def add_writes(self, s, ws):
        """memory effect of the iterations before n; of several writes to a location the latest iteration wins, and within
        an iteration the later write"""
        e, n = self.e, self.n
        groups = []
        for w in ws:
            if 'W' not in w:
                save = e.loopctx
                e.loopctx = save + [n]
                try:
                    w['W'] = e.fresh_ty('w', 'i1' if isinstance(w['val'], (bool, z3.BoolRef)) else w['ty'])
                    w['G'] = True if w['guard'] is True else e.fresh_ty('g', 'i1')
                    w['linked'] = None
                finally:
                    e.loopctx = save
            for g in groups:
                if same(g[0]['ref'], w['ref']):
                    g.append(w)
                    break
            else:
                for g in groups:
                    if e.may_alias(g[0]['ref'], w['ref']) is not False:
                        raise Unsupported('loop writes to objects that may be the same in ' + self.f.dem[:80])
                groups.append([w])
        for g in groups:
            self.add_group(s, g)

    def add_group(self, s, g):
        e, n = self.e, self.n

        def fn(s2, ty, ref, off, older, g=tuple(g)):
            bound = n
            hits = []
            for w in g:
                if ty != w['ty'] and not {ty, w['ty']} == {'ptr', 'i64'}:
                    continue
                rel = sub(off, w['o0'])
                c = w['c']
                if c < 0:
                    q, r = divmod_c(neg(rel), -c)
                else:
                    q, r = divmod_c(rel, c)
                if isinstance(r, int) and r != 0:
                    continue
                cond = True if isinstance(r, int) else eq(r, 0)
                if w['mode'] == 'lin':
                    k = q
                    inr = b_and(cond, le(0, k), lt(k, bound))
                else:
                    cnt = w['var'].cls[2]
                    inr = b_and(cond, le(0, q), lt(q, cnt(bound)))
                    if inr is not False and not isinstance(inr, bool) and not e.feasible(s2, (inr,)):
                        continue
                    k = self.src(s2, w, q, bound)
                if inr is False:
                    continue
                if not isinstance(inr, bool) and not e.feasible(s2, (inr,)):
                    continue
                val, guard = self.wval(w, k)
                inr = b_and(inr, guard)
                if inr is False:
                    continue
                hits.append((inr, k, val))
            if not hits:
                return older()
            inr, bk, bv = hits[0]
            for i2, k2, v2 in hits[1:]:
                take = b_and(i2, b_or(b_not(inr), le(bk, k2)))
                bv = v2 if take is True else ite(take, v2, bv)
                bk = k2 if take is True else ite(take, k2, bk)
                inr = b_or(inr, i2)
            return bv if inr is True else ite(inr, bv, older())
        tys = {w['ty'] for w in g}
        e.add_closure(s, g[0]['ref'], fn, tys.pop() if len(tys) == 1 else None)

    def wval(self, w, k):
        n = self.n
        kz = toz(k)
        if w['linked'] is not None:
            v = subst(w['linked'][0], [(n, kz)])
            g = subst(w['linked'][1], [(n, kz)]) if w['mode'] == 'lin' else True
            return v, g
        return subst(w['W'], [(n, kz)]), (True if w['mode'] != 'lin' or w['G'] is True else subst(w['G'], [(n, kz)]))

    def src(self, s2, w, q, bound):
        """iteration that wrote element q of a conditional append"""
        e = self.e
        v = w['var']
        if 'src' not in v.__dict__:
            e.nfresh += 1
            outer = list(e.loopctx) if False else list(self.outer_ctx())
            fn = z3.Function(f'src!{e.nfresh}', *([en.I] * (len(outer) + 1)), en.I)
            v.src = lambda k, fn=fn, outer=outer: fn(*outer, toz(k))
        t = v.src(q)
        cnt = v.cls[2]
        step = v.cls[3]
        n = self.n
        stp = subst(step, [(n, t)])
        qz = toz(q)
        e.fact(s2, z3.Implies(z3.And(qz >= 0, qz < cnt(bound)),
                              z3.And(t >= 0, t < bound, cnt(t) == qz, toz(stp) > 0)))
        return t

    def outer_ctx(self):
        # loop context in which this loop runs
        return [x for x in self.e.loopctx if not same(x, self.n)]

    def link_writes(self, wr, wr2):
        if len(wr) != len(wr2):
            raise Unsupported('unstable loop writes')
        for a, b in zip(wr, wr2):
            if a['mode'] != b['mode'] or a['ty'] != b['ty'] or not same(a['o0'], b['o0']):
                raise Unsupported('unstable loop writes')
            v, g = b['val'], b['guard']
            if a['G'] is True and g is not True and a['mode'] == 'lin':
                raise Unsupported('unstable loop writes')
            if any(uses_decl(v, w['W']) or uses_decl(g, w['W']) or (w['G'] is not True and (uses_decl(v, w['G']) or
                   uses_decl(g, w['G']))) for w in wr):
                # value depends on earlier writes: keep the function, define it by recurrence
                a['rec'] = (v, g)
            else:
                a['linked'] = (v, g)
            a['val'], a['guard'] = v, g

    # ------------------------------------------------------------------ history
    def history(self, st0, vars_, lat, wr):
        """facts at the header of iteration n about the earlier iterations"""
        e, n = self.e, self.n
        ls, phis, npc = lat
        suf = ls.pc[npc:]
        self.suf = suf
        cont = conj([x for x in suf])
        facts = []
        j = z3.Int(f'j!{e.nfresh}')
        e.nfresh += 1

        def forall(body, extra_pat=None):
            if isinstance(body, bool):
                return None
            b = subst(body, [(n, j)])
            if isinstance(b, bool):
                return None
            for c in offsets(body, n)[:2]:
                # the same fact with the terms indexed from 0: they are found by matching
                b2 = subst(body, [(n, j - c)])
                if not isinstance(b2, bool):
                    facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= c, j < n + c), z3.simplify(b2))))
            return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), b))
        # split into separate quantified facts
        for x in suf:
            if x.get_id() in e.factids and not uses(x, n):
                facts.append(z3.Implies(n > 0, x))
                continue
            if not uses(x, n):
                facts.append(z3.Implies(n > 0, x))
                continue
            q = forall(x)
            if q is not None:
                facts.append(q)
        # the last completed iteration, explicitly
        nm1 = n - 1
        for x in suf:
            if uses(x, n) and not has_quant(x):
                facts.append(z3.Implies(n > 0, toz(subst(x, [(n, nm1)]))))
        for v in vars_.values():
            if v.cls == 'rec':
                facts += self.rec_facts(v, forall)
            elif isinstance(v.cls, tuple) and v.cls[0] == 'cnt':
                cnt = v.cls[2]
                step = v.cls[3]
                g = v.cls[1]
                leaves = ref_leaves_num(step)
                hi = max(leaves) // g
                st = subst(step, [(n, j)])
                facts.append(cnt(0) == 0)
                facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n),
                                                       cnt(j + 1) == cnt(j) + toz(divc_exact_ite(st, g))),
                                       patterns=[cnt(j)]))
                facts.append(z3.And(cnt(n) >= 0, cnt(n) <= hi * n))
                k = z3.Int(f'k!{e.nfresh}')
                e.nfresh += 1
                facts.append(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j <= k, k <= n), cnt(j) <= cnt(k)),
                                       patterns=[z3.MultiPattern(cnt(j), cnt(k))]))
                facts.append(z3.Implies(n > 0, cnt(n) == cnt(n - 1) + toz(divc_exact_ite(subst(step, [(n, nm1)]), g))))
                facts += self.cnt_witnesses(v, cnt, step, g, hi)
                if hasattr(v, 'src') and hi == 1:
                    hit = z3.And(j >= 0, j < n, toz(st) > 0)
                    facts.append(z3.ForAll([j], z3.Implies(hit, z3.And(v.src(cnt(j)) == j, cnt(j) < cnt(n))),
                                           patterns=[cnt(j)]))
                    for kk in e.index_terms:
                        facts.append(z3.Implies(z3.And(kk >= 0, kk < n, toz(subst(step, [(n, kk)])) > 0),
                                                z3.And(v.src(cnt(kk)) == kk, cnt(kk) < cnt(n), cnt(kk) >= 0)))
            elif isinstance(v.cls, tuple) and v.cls[0] == 'sum':
                S = v.cls[2]
                d = self.delta_sum(v)
                facts.append(S(0) == 0)
                dj = toz(subst(d, [(n, j)]))
                facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), S(j + 1) == S(j) + dj), patterns=[S(j)]))
                facts.append(z3.Implies(n > 0, S(n) == S(n - 1) + toz(subst(d, [(n, nm1)]))))
                k = z3.Int(f'k!{e.nfresh}')
                e.nfresh += 1
                if e.check_valid(list(self.hdr.pc) + suf, toz(d) >= 0, 2000)[0] == 'proved':
                    facts.append(S(n) >= 0)
                    facts.append(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j <= k, k <= n), S(j) <= S(k)),
                                           patterns=[z3.MultiPattern(S(j), S(k))]))
        for w in wr:
            if 'rec' in w:
                W = w['W']
                val, grd = w['rec']
                for a, b in pairs_of(W, val) + ([] if w['G'] is True else [(w['G'], grd)]):
                    q = forall(eqv(a, b))
                    if q is not None:
                        facts.append(q)
        return [x for x in facts if x is not None], cont

    def cnt_witnesses(self, v, cnt, step, g, hi):
        """a count that is not zero (not full, not equal to another count) has an iteration that shows why; valid by
        induction over the number of iterations"""
        e, n = self.e, self.n
        out = []
        ctx = list(self.outer_ctx())
        m = z3.Int(f'm!{e.nfresh}')
        e.nfresh += 1
        stp = lambda s, nn, k: toz(divc_exact_ite(subst(s, [(nn, k)]), g))

        def wit(cond, what, pats):
            fn = z3.Function(f'wit!{e.nfresh}', *([en.I] * (len(ctx) + 1)), en.I)
            e.nfresh += 1
            w = lambda k: fn(*ctx, k)
            body = lambda k: z3.Implies(cond(k), z3.And(w(k) >= 0, w(k) < k, what(w(k))))
            out.append(body(n))
            out.append(z3.ForAll([m], z3.Implies(z3.And(m >= 0, m <= n), body(m)), patterns=pats))
        out.append(z3.ForAll([m], z3.Implies(z3.And(m >= 0, m <= n), z3.And(cnt(m) >= 0, cnt(m) <= hi * m)),
                             patterns=[cnt(m)]))
        wit(lambda k: cnt(k) > 0, lambda w: stp(step, n, w) > 0, [cnt(m)])
        wit(lambda k: cnt(k) < hi * k, lambda w: stp(step, n, w) < hi, [cnt(m)])
        if not hasattr(e, 'counts'):
            e.counts = []
        if not ctx:
            for c2, s2, g2, n2 in e.counts[-3:]:
                st2 = lambda w, s2=s2, n2=n2, g2=g2: toz(divc_exact_ite(subst(s2, [(n2, w)]), g2))
                if same(cnt(n), c2(n)):
                    continue
                wit(lambda k, c2=c2: cnt(k) != c2(k), lambda w: stp(step, n, w) != st2(w), [cnt(m), c2(m)])
            e.counts.append((cnt, step, g, n))
        return out

    def delta_sum(self, v):
        cur = self.value(v)
        if isinstance(cur, Ptr):
            return sub(v.next.off, cur.off)
        return sub(v.next, cur)

    def rec_facts(self, v, forall):
        e, n = self.e, self.n
        out = []
        cur, nx = self.value(v), v.next
        prs = pairs_of(cur, nx)
        inits = pairs_of(cur, v.init)
        if isinstance(cur, Ptr) and v.refmode == 'opt' and v.sd:
            prs = [(v.q, div_ite(sub(nx.off, v.init.off), v.sd))]
            inits = [(v.q, 0)]
        for (a, b), (_, i0) in zip(prs, inits):
            if isinstance(a, z3.ExprRef) and uses(a, n):
                a0 = subst(a, [(n, z3.IntVal(0))])
                out.append(toz(eqv(a0, i0)))
                # a at j+1 equals b at j
                a1 = subst(a, [(n, n + 1)])
                q = forall(eqv(a1, b))
                if q is not None:
                    out.append(q)
                out.append(z3.Implies(n > 0, toz(eqv(a, subst(b, [(n, n - 1)])))))
                out += self.patterns(v, a, b, i0)
        return out

    def patterns(self, v, a, b, i0):
        """closed consequences of frequent recurrences, each valid by induction"""
        e, n = self.e, self.n
        out = []
        j = z3.Int(f'j!{e.nfresh}')
        e.nfresh += 1
        if isinstance(a, z3.BoolRef) or isinstance(b, (bool, z3.BoolRef)):
            return self.flag(a, b, i0, j)
        # last writer: b = ite(c, w, a) (nested)
        if isinstance(b, z3.ExprRef) and b.decl().kind() == z3.Z3_OP_ITE:
            c, t, f = b.arg(0), _unz(b.arg(1)), _unz(b.arg(2))
            if same(t, a):
                c, t, f = b_not(c), f, t
            if same(f, a) and not uses(toz(t), a):
                num = not isinstance(a, z3.BoolRef)
                if num:
                    mm = self.minmax(v, a, c, t, i0, j)
                    out += mm
                last = z3.Function(f'last!{e.nfresh}', *([en.I] * (len(self.outer_ctx()) + 1)), en.I)
                e.nfresh += 1
                l = last(*self.outer_ctx(), n)
                cl = subst(c, [(n, l)])
                tl = subst(t, [(n, l)])
                cj = subst(c, [(n, j)])
                out.append(z3.And(l >= -1, l < n))
                out.append(z3.Implies(l == -1, toz(eqv(a, i0))))
                out.append(z3.Implies(l >= 0, z3.And(toz(cl), toz(eqv(a, tl)))))
                out.append(z3.ForAll([j], z3.Implies(z3.And(j > l, j < n, j >= 0), z3.Not(toz(cj)))))
                if num and mm:
                    new, rel, strict = self.mm
                    nl, nj = subst(new, [(n, l)]), subst(new, [(n, j)])
                    r = rel(nl, nj)
                    if strict:
                        r = b_and(r, b_not(eq(nl, nj)))
                    out.append(z3.Implies(l >= 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < l), toz(r)))))
        return out

    def flag(self, a, b, i0, j):
        """a truth value that never returns once changed: it holds for a prefix (suffix) of the iterations"""
        e, n = self.e, self.n
        out = []
        for up in (True, False):
            hold = a if up else z3.Not(a)
            nxt = toz(b) if up else z3.Not(toz(b))
            if e.check_valid(list(self.hdr.pc) + self.suf + [hold], nxt, 1500)[0] != 'proved':
                continue
            at = lambda k: subst(hold, [(n, k)])
            last = z3.Function(f'flip!{e.nfresh}', *([en.I] * (len(self.outer_ctx()) + 1)), en.I)
            e.nfresh += 1
            l = last(*self.outer_ctx(), n)
            init = toz(i0) if up else z3.Not(toz(i0))
            # not yet: never before; otherwise there is the iteration that changed it
            out.append(z3.Implies(z3.Not(hold), z3.And(z3.Not(init), z3.ForAll([j], z3.Implies(
                z3.And(j >= 0, j <= n), z3.Not(at(j)))))))
            nl = subst(nxt, [(n, l)])
            out.append(z3.Implies(z3.And(hold, z3.Not(init)), z3.And(l >= 0, l < n, z3.Not(at(l)), nl)))
            out.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= n, at(j)), hold)))
        return out

    def minmax(self, v, a, c, t, i0, j):
        """a' = t if key(t) < key(a): afterwards key(a) <= key(t(j)) for all earlier j. Valid by induction because < is a
        strict order on numbers and the key is a function of the candidate alone (checked by the solver)"""
        e, n = self.e, self.n
        out = []
        dec = c.decl().kind()
        neg_ = False
        if z3.is_not(c):
            c = c.arg(0)
            dec = c.decl().kind()
            neg_ = True
        if dec not in (z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_GE):
            return out
        p, q = c.arg(0), c.arg(1)
        # which side mentions the current value
        if uses(q, a) and not uses(p, a):
            new, old, flip = p, q, False
        elif uses(p, a) and not uses(q, a):
            new, old, flip = q, p, True
        else:
            return out
        # new as a function of the candidate: substitute the iteration at which the candidate is the current value
        ok = False
        if same(_unz(new), t) and same(_unz(old), a):
            ok = True
            oldof = lambda x: x
        else:
            c0, d0 = lin(t)
            if n.get_id() in d0 and d0[n.get_id()][1] == 1 and len([1 for k in d0 if k != n.get_id() and
                                                                     uses(d0[k][0], n)]) == 0:
                h = sub(a, sub(t, n))
                g = z3.substitute(new, (n, toz(h)))
                if e.check_valid([], g == old, 1000)[0] == 'proved':
                    ok = True
        if not ok:
            return out
        # order: the candidate replaces the current value if  new R old  (R in <, <=, >, >=)
        less = dec in (z3.Z3_OP_LT, z3.Z3_OP_LE)
        if flip:
            less = not less
        if neg_:
            less = not less
        new_j = subst(new, [(n, j)])
        old_i0 = subst(old, [(a, toz(i0))])
        rel = (lambda x, y: le(x, y)) if less else (lambda x, y: le(y, x))
        out.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), toz(rel(old, new_j)))))
        out.append(toz(rel(old, old_i0)))
        strict = (dec in (z3.Z3_OP_LT, z3.Z3_OP_GT)) != neg_
        self.mm = (new, rel, strict)
        return out

    def invariants(self, st0, vars_, lat, wr, facts, cont):
        """Houdini: simple candidate inequalities for recurrences, kept if inductive"""
        e, n = self.e, self.n
        cands = []
        for v in vars_.values():
            if v.cls != 'rec':
                continue
            cur, nx = self.value(v), v.next
            prs, inits = pairs_of(cur, nx), pairs_of(cur, v.init)
            if isinstance(cur, Ptr) and v.refmode == 'opt' and v.sd:
                prs = [(v.q, div_ite(sub(nx.off, v.init.off), v.sd))]
                inits = [(v.q, 0)]
            for (a, b), (_, i0) in zip(prs, inits):
                if not isinstance(a, z3.ExprRef) or isinstance(a, z3.BoolRef) or not uses(a, n):
                    continue
                if isinstance(b, (bool, z3.BoolRef)) or isinstance(i0, (bool, z3.BoolRef)):
                    continue
                for rel in (le, lambda x, y: le(y, x)):
                    cands.append((rel(a, i0), rel(b, i0), rel(i0, i0)))
                z = Fraction(0) if a.sort() == en.R else 0
                if not (is_c(i0) and i0 == 0):
                    cands.append((le(z, a), le(z, b), le(z, i0)))
        keep = []
        for cur, nxt, ini in cands:
            if isinstance(cur, bool):
                continue
            if ini is not True and e.check_valid(st0.pc, toz(ini), 1500, True)[0] != 'proved':
                continue
            keep.append((cur, nxt))
        for _ in range(4):
            bad = []
            base = list(self.hdr.pc) + [toz(c) for c, _ in keep] + lat[0].pc[self.npc:]
            for i, (c, nx) in enumerate(keep):
                if nx is True:
                    continue
                if e.check_valid(base, toz(nx), 1500, True)[0] != 'proved':
                    bad.append(i)
            if not bad:
                break
            keep = [k for i, k in enumerate(keep) if i not in bad]
        else:
            keep = []
        out = []
        j = z3.Int(f'j!{e.nfresh}')
        e.nfresh += 1
        for c, _ in keep:
            out.append(toz(c))
            e.invariants_proved += 1
        return out


def offsets(t, n):
    """symbolic c such that t has a function applied to n + c"""
    out, seen, todo = [], set(), [t]
    plain = False
    while todo:
        x = todo.pop()
        if not z3.is_expr(x) or x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        todo += x.children()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for a in x.children():
                if z3.is_int(a) and uses(a, n) and z3.is_add(a) or z3.eq(a, n):
                    c = z3.simplify(a - n)
                    if uses(c, n):
                        continue
                    if z3.is_int_value(c):
                        plain = True
                    elif not any(z3.eq(c, o) for o in out):
                        out.append(c)
    return [] if plain else out


def times(n, c):
    """n * c for a numeric c or an ite tree with numeric leaves"""
    c = _unz(c) if isinstance(c, z3.ExprRef) else c
    if is_c(c):
        return mulc(n, c)
    return ite(c.arg(0), times(n, c.arg(1)), times(n, c.arg(2)))


def ref_leaves_num(t):
    """numeric leaves of an ite tree, or None"""
    if isinstance(t, int) and not isinstance(t, bool):
        return [t]
    t2 = _unz(t)
    if isinstance(t2, int) and not isinstance(t2, bool):
        return [t2]
    if isinstance(t, z3.ExprRef) and t.decl().kind() == z3.Z3_OP_ITE:
        a = ref_leaves_num(_unz(t.arg(1)))
        b = ref_leaves_num(_unz(t.arg(2)))
        if a is None or b is None:
            return None
        return a + b
    return None


def divc_exact_ite(t, g):
    t = _unz(t)
    if isinstance(t, int):
        return t // g
    return ite(t.arg(0), divc_exact_ite(t.arg(1), g), divc_exact_ite(t.arg(2), g))


def exact_ite(t, s):
    if is_c(t):
        return t % s == 0
    t = lift(t)
    if isinstance(t, z3.ExprRef) and t.decl().kind() == z3.Z3_OP_ITE:
        return exact_ite(_unz(t.arg(1)), s) and exact_ite(_unz(t.arg(2)), s)
    return en.is_exact(t, s)


def div_ite(t, s):
    if is_c(t):
        return t // s
    t = lift(t)
    if isinstance(t, z3.ExprRef) and t.decl().kind() == z3.Z3_OP_ITE:
        return ite(t.arg(0), div_ite(_unz(t.arg(1)), s), div_ite(_unz(t.arg(2)), s))
    return divc_exact(t, s)


def pairs_of(a, b):
    if isinstance(a, Ptr):
        if not isinstance(b, Ptr):
            b = Ptr(0, b)
        return [(a.ref, b.ref), (a.off, b.off)]
    if isinstance(a, tuple):
        r = []
        for x, y in zip(a, b):
            r += pairs_of(x, y)
        return r
    return [(a, b)]


def eqv(a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return b_and(*[eq(x, y) for x, y in pairs_of(a, b)])
    return eq(a, b)


def uses_decl(v, W):
    """does v contain an application of the function symbol(s) of W"""
    names = set()
    for x in ([W.ref, W.off] if isinstance(W, Ptr) else [W]):
        if isinstance(x, z3.ExprRef):
            names.add(x.decl().name())
    if isinstance(v, Ptr):
        return uses_decl(v.ref, W) or uses_decl(v.off, W)
    if not isinstance(v, z3.ExprRef):
        return False
    seen = set()
    st = [v]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            st.append(t.body())
            continue
        if z3.is_app(t) and t.decl().name() in names:
            return True
        st.extend(t.children())
    return False


def SIZESOF(t):
    return en.SIZES.get(t)
