"""Term layer: integers are Python ints or z3 Int terms kept in linear normal form, booleans are Python bools or z3
Bools, reals are Python Fractions or z3 Reals, pointers are (object reference, byte offset) pairs."""
from fractions import Fraction
import math

import z3

z3.set_param('smt.random_seed', 1)


class Unsupported(Exception):
    """The verifier cannot express this construct (never a verdict about the code)."""


_lin_cache = {}
_keep = []


def is_c(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def lin(t):
    """(const, {id: (term, coef)}) of an Int/Real term"""
    if is_c(t):
        return (t, {})
    if isinstance(t, bool):
        return (int(t), {})
    i = t.get_id()
    r = _lin_cache.get(i)
    if r is not None:
        return r[1]
    k = t.decl().kind()
    if z3.is_int_value(t):
        res = (t.as_long(), {})
    elif z3.is_rational_value(t):
        res = (t.as_fraction(), {})
    elif k == z3.Z3_OP_ADD:
        c, d = 0, {}
        for ch in t.children():
            c2, d2 = lin(ch)
            c += c2
            for a, (tm, co) in d2.items():
                if a in d:
                    n = d[a][1] + co
                    if n == 0:
                        del d[a]
                    else:
                        d[a] = (tm, n)
                else:
                    d[a] = (tm, co)
        res = (c, d)
    elif k == z3.Z3_OP_SUB:
        chs = t.children()
        c, d = lin(chs[0])
        d = dict(d)
        for ch in chs[1:]:
            c2, d2 = lin(ch)
            c -= c2
            for a, (tm, co) in d2.items():
                n = (d[a][1] if a in d else 0) - co
                if n == 0:
                    d.pop(a, None)
                else:
                    d[a] = (tm, n)
        res = (c, d)
    elif k == z3.Z3_OP_UMINUS:
        c, d = lin(t.arg(0))
        res = (-c, {a: (tm, -co) for a, (tm, co) in d.items()})
    elif k == z3.Z3_OP_MUL and t.num_args() == 2 and (z3.is_int_value(t.arg(0)) or z3.is_rational_value(t.arg(0))):
        f = t.arg(0).as_long() if z3.is_int_value(t.arg(0)) else t.arg(0).as_fraction()
        c, d = lin(t.arg(1))
        res = (c * f, {a: (tm, co * f) for a, (tm, co) in d.items()}) if f != 0 else (0, {})
    else:
        res = (0, {i: (t, 1)})
    _lin_cache[i] = (t, res)
    return res


def _num(v, real):
    if real:
        return z3.RealVal(str(v))
    return z3.IntVal(int(v))


def from_lin(c, d, real=False):
    if not d:
        if real:
            return Fraction(c)
        return int(c)
    ts = []
    for a in sorted(d):
        tm, co = d[a]
        ts.append(tm if co == 1 else _num(co, real) * tm)
    if c != 0:
        ts.append(_num(c, real))
    r = ts[0] if len(ts) == 1 else z3.Sum(ts) if False else z3.Sum(*ts)
    _lin_cache[r.get_id()] = (r, (c, d))
    return r


def _isreal(*xs):
    for x in xs:
        if isinstance(x, Fraction):
            return True
        if isinstance(x, z3.ExprRef) and x.sort().kind() == z3.Z3_REAL_SORT:
            return True
    return False


def add(a, b):
    if is_c(a) and is_c(b):
        return a + b
    if is_c(b) and b == 0:
        return a
    if is_c(a) and a == 0:
        return b
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    d = dict(d1)
    for k, (tm, co) in d2.items():
        n = (d[k][1] if k in d else 0) + co
        if n == 0:
            d.pop(k, None)
        else:
            d[k] = (tm, n)
    return from_lin(c1 + c2, d, _isreal(a, b))


def mulc(a, f):
    if is_c(a):
        return a * f
    if f == 0:
        return Fraction(0) if _isreal(a) else 0
    if f == 1:
        return a
    c, d = lin(a)
    return from_lin(c * f, {k: (tm, co * f) for k, (tm, co) in d.items()}, _isreal(a))


def neg(a):
    return mulc(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if is_c(a):
        return mulc(b, a)
    if is_c(b):
        return mulc(a, b)
    # canonical order for commutativity
    if a.get_id() > b.get_id():
        a, b = b, a
    return a * b


def toz(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    return x


def toreal(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    if x.sort().kind() == z3.Z3_REAL_SORT:
        return x
    return z3.ToReal(x)


def divc_exact(a, k):
    """a / k for a known to be a multiple of k"""
    if k == 1:
        return a
    if is_c(a):
        return a // k
    c, d = lin(a)
    if c % k == 0 and all(co % k == 0 for _, co in d.values()):
        return from_lin(c // k, {i: (tm, co // k) for i, (tm, co) in d.items()})
    return toz(a) / k


def divmod_c(a, k):
    """floor division and modulus by positive constant"""
    if is_c(a):
        return divmod(a, k)
    c, d = lin(a)
    q = {}
    r = {}
    for i, (tm, co) in d.items():
        if co % k == 0:
            q[i] = (tm, co // k)
        else:
            r[i] = (tm, co)
    if not r:
        cq, cr = divmod(c, k)
        return from_lin(cq, q), cr
    return toz(a) / k, toz(a) % k


_eq_memo = {}


def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, z3.BoolRef)) or isinstance(b, z3.BoolRef):
        return iff(a, b)
    if is_c(a) and is_c(b):
        return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.get_id() == b.get_id():
        return True
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    if len(d1) == len(d2) and all(k in d2 and d2[k][1] == v[1] for k, v in d1.items()):
        return c1 == c2
    if _isreal(a, b):
        return toz(toreal(a)) == toz(toreal(b))
    if isinstance(c1, int) and isinstance(c2, int) and c1 != c2:
        g = 0
        for k in set(d1) | set(d2):
            co = (d1[k][1] if k in d1 else 0) - (d2[k][1] if k in d2 else 0)
            if not isinstance(co, int):
                g = 1
                break
            g = math.gcd(g, co)
        if g > 1 and (c1 - c2) % g:
            return False
    # push equality through ite of constants
    for x, y in ((a, b), (b, a)):
        if is_c(y) and isinstance(x, z3.ExprRef) and x.decl().kind() == z3.Z3_OP_ITE:
            k = (x.get_id(), y)
            m = _eq_memo.get(k)
            if m is None:
                if len(_eq_memo) > 100000:
                    _eq_memo.clear()
                m = _eq_memo[k] = (ite(x.arg(0), eq(_unz(x.arg(1)), y), eq(_unz(x.arg(2)), y)), x)
            return m[0]
    return toz(a) == toz(b)


def _unz(t):
    if isinstance(t, z3.ExprRef):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return t.as_fraction()
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    return t


def _cmp(a, b, strict):
    if is_c(a) and is_c(b):
        return a < b if strict else a <= b
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    if len(d1) == len(d2) and all(k in d2 and d2[k][1] == v[1] for k, v in d1.items()):
        return c1 < c2 if strict else c1 <= c2
    if _isreal(a, b):
        a, b = toreal(a), toreal(b)
    return toz(a) < toz(b) if strict else toz(a) <= toz(b)


def lt(a, b):
    return _cmp(a, b, True)


def le(a, b):
    return _cmp(a, b, False)


def b_not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(*xs):
    out = []
    seen = set()
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*xs):
    out = []
    seen = set()
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def implies(a, b):
    return b_or(b_not(a), b)


def iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else b_not(b)
    if isinstance(b, bool):
        return a if b else b_not(a)
    if a.get_id() == b.get_id():
        return True
    return a == b


def same(a, b):
    """syntactic identity of values"""
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return same(a.ref, b.ref) and same(a.off, b.off)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.get_id() == b.get_id()
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return False
    if type(a) != type(b) and (isinstance(a, (bool, Ptr, tuple, str)) or isinstance(b, (bool, Ptr, tuple, str))):
        return False
    return a == b


class Ptr:
    __slots__ = ('ref', 'off')

    def __init__(self, ref, off=0):
        self.ref = ref
        self.off = off

    def __add__(self, k):
        return Ptr(self.ref, add(self.off, k))

    def __repr__(self):
        return f'Ptr({self.ref},{self.off})'


NULL = Ptr(0, 0)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if same(a, b):
        return a
    if z3.is_not(c):
        return ite(c.arg(0), b, a)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not isinstance(a, Ptr):
            a = Ptr(0, a)
        if not isinstance(b, Ptr):
            b = Ptr(0, b)
        return Ptr(ite(c, a.ref, b.ref), ite(c, a.off, b.off))
    if isinstance(a, tuple):
        if isinstance(b, tuple) and a and b and isinstance(a[0], str) and isinstance(b[0], str) and a[0] == b[0] == 'raw':
            # bytes of a register: cells that only one side has are unspecified on the other
            da, db = {(o, t): w for o, t, w in a[1]}, {(o, t): w for o, t, w in b[1]}
            return ('raw', tuple((o, t, ite(c, da.get((o, t)), db.get((o, t)))) for o, t in sorted(set(da) | set(db))))
        if not isinstance(b, tuple) or len(a) != len(b):
            raise Unsupported('ite of different aggregates')
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a if b is None else b
    if isinstance(b, tuple):
        raise Unsupported('ite of different aggregates')
    if isinstance(a, z3.ExprRef) and a.decl().kind() == z3.Z3_OP_ITE and same(a.arg(0), c):
        a = _unz(a.arg(1))
        if same(a, b):
            return a
    if isinstance(b, z3.ExprRef) and b.decl().kind() == z3.Z3_OP_ITE and same(b.arg(0), c):
        b = _unz(b.arg(2))
        if same(a, b):
            return a
    ab = isinstance(a, (bool, z3.BoolRef))
    bb = isinstance(b, (bool, z3.BoolRef))
    if ab and bb:
        if isinstance(a, bool) and isinstance(b, bool):
            return c if a else b_not(c)
        if isinstance(a, bool):
            return b_or(c, b) if a else b_and(b_not(c), b)
        if isinstance(b, bool):
            return b_or(b_not(c), a) if b else b_and(c, a)
        return z3.If(c, a, b)
    if ab:
        a = ite(a, 1, 0)
    if bb:
        b = ite(b, 1, 0)
    if _isreal(a, b):
        return z3.If(c, toz(toreal(a)), toz(toreal(b)))
    return z3.If(c, toz(a), toz(b))


_leaf_cache = {}


def ref_leaves(t):
    """leaves of the ite tree of a reference term: Python ints and z3 terms"""
    if isinstance(t, int):
        return (t,)
    i = t.get_id()
    r = _leaf_cache.get(i)
    if r is not None:
        return r[1]
    if z3.is_int_value(t):
        out = (t.as_long(),)
    elif t.decl().kind() == z3.Z3_OP_ITE:
        a = ref_leaves(t.arg(1))
        b = ref_leaves(t.arg(2))
        out = a + tuple(x for x in b if not any(same(x, y) for y in a))
    else:
        out = (t,)
    _leaf_cache[i] = (t, out)
    return out


_hasq = {}


def has_quant(t):
    if isinstance(t, bool) or not isinstance(t, z3.ExprRef):
        return False
    i = t.get_id()
    r = _hasq.get(i)
    if r is not None:
        return r[1]
    if z3.is_quantifier(t):
        v = True
    else:
        v = any(has_quant(c) for c in t.children())
    _hasq[i] = (t, v)
    return v


def subst(v, pairs):
    if isinstance(v, Ptr):
        return Ptr(subst(v.ref, pairs), subst(v.off, pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, z3.ExprRef):
        r = z3.substitute(v, pairs)
        if r.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT):
            return from_lin(*renorm(r), real=(r.sort().kind() == z3.Z3_REAL_SORT))
        return _unz(r)
    return v


def renorm(t):
    return lin(t)


def uses(v, const):
    """does value v contain the z3 constant"""
    if isinstance(v, Ptr):
        return uses(v.ref, const) or uses(v.off, const)
    if isinstance(v, tuple):
        return any(uses(x, const) for x in v)
    if not isinstance(v, z3.ExprRef):
        return False
    seen = set()
    st = [v]
    cid = const.get_id()
    while st:
        t = st.pop()
        i = t.get_id()
        if i == cid:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            st.append(t.body())
        else:
            st.extend(t.children())
    return False


_lift_cache = {}


def lift(t, budget=64):
    """equivalent term with the case distinctions at the top and linear leaves"""
    if is_c(t) or not isinstance(t, z3.ExprRef):
        return t
    i = (t.get_id(), budget)
    r = _lift_cache.get(i)
    if r is not None:
        return r[1]
    c, d = lin(t)
    at = None
    for a in sorted(d):
        if d[a][0].decl().kind() == z3.Z3_OP_ITE:
            at = d[a][0]
            break
    if at is None or (len(d) == 1 and c == 0 and d[at.get_id()][1] == 1 and not _nested(at)):
        res = t
    elif budget <= 1:
        res = t
    else:
        cond = at.arg(0)
        tv = _under(c, d, cond, True)
        fv = _under(c, d, cond, False)
        res = ite(cond, lift(tv, budget // 2), lift(fv, budget // 2))
    _lift_cache[i] = (t, res)
    return res


def _nested(at):
    for k in (1, 2):
        x = at.arg(k)
        if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_ADD, z3.Z3_OP_MUL):
            return True
    return False


def _pick(t, cond, val):
    while isinstance(t, z3.ExprRef) and t.decl().kind() == z3.Z3_OP_ITE and same(t.arg(0), cond):
        t = _unz(t.arg(1) if val else t.arg(2))
    return t


def _under(c, d, cond, val):
    real = any(_isreal(tm) for tm, _ in d.values())
    acc = Fraction(c) if real else c
    for a in sorted(d):
        tm, co = d[a]
        acc = add(acc, mulc(_pick(tm, cond, val), co))
    return acc
