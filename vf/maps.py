"""Trusted contracts of std::map / std::unordered_map: a map is a ghost value (a term) kept in the map object.

Initial maps: the elements are an array of nodes, one per key; midx(M, k) is the position of the element with key k, or the
number of elements if there is none. Updates build new map values on top (insert: fresh node; erase). Key equality is the
equality of the key type (strings by content); the order of keys is not modelled.
"""
import re

import z3

from engine import B, FRESH0, I, R, SIZES, wrap
from terms import *

STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
SIZES['map'] = 48


def targs(s):
    """template arguments of a name ending at the matching '>' ; returns (args, rest)"""
    i = s.index('<')
    d, cur, out = 0, '', []
    for j in range(i, len(s)):
        c = s[j]
        if c in '<([':
            d += 1
            if d == 1:
                continue
        elif c in '>)]' and s[j - 1] != '-':
            d -= 1
            if d == 0:
                out.append(cur.strip())
                return out, s[j + 1:]
        elif c == ',' and d == 1:
            out.append(cur.strip())
            cur = ''
            continue
        cur += c
    raise Unsupported('template name')


class Kind:
    pass


INTKEY = {'long': 'i64', 'unsigned long': 'i64', 'int': 'i32', 'unsigned int': 'i32'}


def kind(E, dem):
    c = E.__dict__.setdefault('mapkinds', {})
    args, rest = targs(dem)
    un = dem.startswith('std::unordered')
    k = (un, args[0], args[1])
    if k in c:
        return c[k], rest
    K = Kind()
    K.loa = False
    K.key, K.val = args[0], args[1]
    K.un = un
    K.pair = f'std::pair<{K.key} const, {K.val}>'
    if K.key == STR:
        K.kty = 'str'
    elif K.key in INTKEY:
        K.kty = INTKEY[K.key]
    elif K.key.endswith('*'):
        K.kty = 'ptr'
    elif K.key in E.types and not E.types[K.key].get('mem') and E.types[K.key]['size'] in (4, 8):
        K.kty = {4: 'i32', 8: 'i64'}[E.types[K.key]['size']]
    elif K.key == f'std::pair<{STR}, {STR}>' and K.key in E.types:
        mo = {m[0]: m[1] for m in E.types[K.key]['mem']}
        K.kty = (('str', mo['first']), ('str', mo['second']))
    elif K.key == 'lanelet::ConstLaneletOrArea':
        # boost::variant<ConstLanelet, ConstArea>: kind, data, orientation (of lanelets only)
        K.kty = (('i32', 0), ('ptr', 8), ('i8', 24))
        K.loa = True
    else:
        raise Unsupported('map with keys of type ' + K.key[:60])
    t = E.types.get(K.pair)
    if t is None:
        raise Unsupported('layout of ' + K.pair[:80])
    offs = {m[0]: m[1] for m in t['mem']}
    base = 8 if un else 32
    K.base = base
    K.koff = base + offs['first']
    K.voff = base + offs['second']
    K.psize = t['size']
    K.S = base + t['size'] + (8 if un and K.key == STR else 0)
    for n, tt in E.types.items():
        if n.startswith('std::_Rb_tree_node<' if not un else 'std::__detail::_Hash_node<') and \
                n[n.index('<') + 1:].startswith(K.pair + (',' if un else '>')):
            K.S = tt['size']
    K.S = (K.S + 7) // 8 * 8
    c[k] = K
    return K, rest


def flat(E, t, seen=()):
    """can a value of this type be copied bitwise as far as the model is concerned"""
    return not re.search(r'std::(vector|map|unordered_map|multimap|set|deque|list)<', t)


# ------------------------------------------------------------------ map values
def newmap(E, st, p, info):
    t = z3.Int(f'mapv!{len(E.__dict__.setdefault("minfo", {}))}')
    E.minfo[t.get_id()] = info
    E.termset[t.get_id()] = t
    if p is not None:
        E.store(st, 'map', p, t)
    return t


def empty(E, st, p, K):
    r = E.new_region(None, 'nodes')
    E.set_stride(r, K.S)
    return newmap(E, st, p, ('empty', Ptr(r, 0)))


def info(E, st, M, K):
    d = E.__dict__.setdefault('minfo', {})
    i = d.get(M.get_id())
    if i is not None:
        return i
    if not M.decl().name().startswith('m_map'):
        raise Unsupported('map changed in a loop')
    buf = z3.Function('pr_mbuf', I, I)(M)
    ln = z3.Function('maplen', I, I)(M)
    E.fact(st, z3.And(buf > 0, buf < FRESH0, ln >= 0, M >= 0))
    E.fact(st, z3.Function('owner', I, I)(buf) == -1 - M)
    E.set_stride(buf, K.S)
    i = ('base', Ptr(buf, 0), ln, M)
    d[M.get_id()] = i
    E.termset[M.get_id()] = M
    return i


def mval(E, st, p):
    M = E.load(st, 'map', p)
    if not isinstance(M, z3.ExprRef):
        raise Unsupported('map value')
    return M


def is_ite(M):
    return M.decl().kind() == z3.Z3_OP_ITE


def mfacts(E, st, M, K):
    """facts on initial maps are needed on every path that looks at them"""
    ln = z3.Function('maplen', I, I)(M)
    buf = z3.Function('pr_mbuf', I, I)(M)
    E.fact(st, z3.And(buf > 0, buf < FRESH0, ln >= 0, M >= 0))
    E.fact(st, z3.Function('owner', I, I)(buf) == -1 - M)


def lookup(E, st, M, k, K):
    if is_ite(M):
        f1, p1 = lookup(E, st, M.arg(1), k, K)
        f2, p2 = lookup(E, st, M.arg(2), k, K)
        return ite(M.arg(0), f1, f2), ite(M.arg(0), p1, p2)
    i = info(E, st, M, K)
    if i[0] == 'empty':
        return False, i[1]
    if i[0] in ('base', 'copy'):
        _, buf, ln, M0 = i[:4]
        mfacts(E, st, M0, K)
        if isinstance(k, tuple):
            if not K.loa:
                raise Unsupported('lookup in an arbitrary map with pairs as keys')
            kz = [toz(k[0]), ptrkey(k[1]), toz(k[2])]
            idx = z3.Function('midxloa', I, I, I, I, I)(M0, *kz)
            b0 = z3.Function('pr_mbuf', I, I)(M0)
            E.fact(st, z3.And(idx >= 0, idx <= ln))
            cell = loakey(E, st, K, Ptr(b0, mulc(idx, K.S)), base=True)
            E.fact(st, z3.Implies(idx < ln, z3.And(*[toz(eq(c, z)) for c, z in zip(cell, kz)])))
            z, c1 = kz[1], cell[1]
            if z.decl().name() == c1.decl().name() and z.num_args() == 2 and same(z.arg(0), b0):
                # the key of an element of the map
                j = z.arg(1)
                cj = loakey(E, st, K, Ptr(b0, mulc(j, K.S)), base=True)
                E.fact(st, z3.Implies(z3.And(j >= 0, j < ln, *[toz(eq(c, z)) for c, z in zip(cj, kz)]), idx == j))
            return lt(idx, ln), Ptr(buf.ref, mulc(idx, K.S))
        kz = ptrkey(k) if K.kty == 'ptr' else toz(k)
        idx = z3.Function('midx', I, I, I)(M0, kz)
        b0 = z3.Function('pr_mbuf', I, I)(M0)
        cell = E.base(st, K.kty, b0, add(mulc(idx, K.S), K.koff))
        cell = ptrkey(cell) if K.kty == 'ptr' else cell
        E.fact(st, z3.And(idx >= 0, idx <= ln))
        E.fact(st, z3.Implies(idx < ln, cell == kz))
        if isinstance(kz, z3.ExprRef) and kz.decl().name() == cell.decl().name() and kz.num_args() == 2 and \
                same(kz.arg(0), b0):
            j = kz.arg(1)
            E.fact(st, z3.Implies(z3.And(j >= 0, j < ln), idx == j))
        return lt(idx, ln), Ptr(buf.ref, mulc(idx, K.S))
    if i[0] == 'ins':
        _, M0, k0, node = i
        f, p = lookup(E, st, M0, k, K)
        c = keq(E, k, k0)
        return ite(c, True, f), ite(c, node, p)
    if i[0] == 'del':
        _, M0, k0 = i
        f, p = lookup(E, st, M0, k, K)
        c = keq(E, k, k0)
        return ite(c, False, f), ite(c, end(E, st, M0, K), p)
    raise Unsupported('map value')


def ptrkey(k):
    if isinstance(k, Ptr):
        if not (isinstance(k.off, int) and k.off == 0):
            raise Unsupported('map key with an offset')
        return toz(k.ref)
    return toz(k)


def loakey(E, st, K, p, base=False):
    def ld(t, o):
        return E.base(st, t, p.ref, add(p.off, K.koff + o)) if base else E.load(st, t, p + o)
    w, d, v = [ld(t, o) for t, o in K.kty]
    if base:
        d = ptrkey(d)
    return (w, d, ite(eq(w, 0), v, 0))


def loadkey(E, st, K, p):
    if K.loa:
        return loakey(E, st, K, p)
    if isinstance(K.kty, tuple):
        return tuple(E.load(st, t, p + o) for t, o in K.kty)
    return E.load(st, K.kty, p)


def storekey(E, st, K, p, k):
    if isinstance(K.kty, tuple):
        for (t, o), v in zip(K.kty, k):
            E.store(st, t, p + o, v)
    else:
        E.store(st, K.kty, p, k)


def keq(E, a, b):
    if isinstance(a, tuple):
        return b_and(*[keq(E, x, y) for x, y in zip(a, b)])
    if isinstance(a, Ptr):
        return E.ptr_eq(a, b)
    return eq(a, b)


def end(E, st, M, K):
    if is_ite(M):
        return ite(M.arg(0), end(E, st, M.arg(1), K), end(E, st, M.arg(2), K))
    i = info(E, st, M, K)
    if i[0] == 'empty':
        return i[1]
    if i[0] in ('base', 'copy'):
        mfacts(E, st, i[3], K)
        return Ptr(i[1].ref, mulc(i[2], K.S))
    return end(E, st, i[1], K)


def size(E, st, M, K):
    if is_ite(M):
        return ite(M.arg(0), size(E, st, M.arg(1), K), size(E, st, M.arg(2), K))
    i = info(E, st, M, K)
    if i[0] == 'empty':
        return 0
    if i[0] in ('base', 'copy'):
        mfacts(E, st, i[3], K)
        return i[2]
    if i[0] == 'ins':
        return add(size(E, st, i[1], K), 1)
    return sub(size(E, st, i[1], K), 1)


def begin(E, st, M, K):
    if is_ite(M):
        return ite(M.arg(0), begin(E, st, M.arg(1), K), begin(E, st, M.arg(2), K))
    i = info(E, st, M, K)
    if i[0] in ('empty', 'base', 'copy'):
        if i[0] == 'base':
            mfacts(E, st, i[3], K)
        return i[1]
    # single inserts into an empty map
    if i[0] == 'ins' and not is_ite(i[1]) and info(E, st, i[1], K)[0] == 'empty':
        return i[3]
    raise Unsupported('iteration over a changed map')


def zero_region(E, st, p):
    def fn(s2, ty, ref, off, older):
        return E.zero(ty) if ty != 'str' else E.intern('')
    E.add_closure(st, p.ref, fn)


def default_value(E, st, p, t):
    from hooks import new_buffer, vec_esz
    if t.startswith('std::vector<'):
        b = new_buffer(E, vec_esz(E, t))
        E.store(st, 'ptr', p, b)
        E.store(st, 'ptr', p + 8, b)
        from hooks import NEVER
        E.store(st, 'ptr', p + 16, Ptr(NEVER, 0))
        return
    if not flat(E, t):
        raise Unsupported('default value of ' + t[:60])


def node_with(E, st, K, k, valuecopy):
    """fresh node with key k"""
    n = E.new_region(None, 'node')
    E.set_stride(n, K.S)
    p = Ptr(n, 0)
    if valuecopy is None:
        zero_region(E, st, p)
        storekey(E, st, K, p + K.koff, k)
        default_value(E, st, p + K.voff, K.val)
    else:
        src, n_ = valuecopy
        E.memcpy(st, p + K.voff, src, n_)
        storekey(E, st, K, p + K.koff, k)
    return p


def do_insert(E, st, mp, K, k, valuecopy, overwrite=False):
    M = mval(E, st, mp)
    f, p = lookup(E, st, M, k, K)
    if f is not True:
        d = E.decide(st, f) if not isinstance(f, bool) else f
        if d is not None:
            f = d
    if f is True:
        return p, False
    n = node_with(E, st, K, k, valuecopy)
    M2 = newmap(E, st, None, ('ins', M, k, n))
    if f is False:
        E.store(st, 'map', mp, M2)
        return n, True
    E.store(st, 'map', mp, ite(f, M, M2))
    return ite(f, p, n), b_not(f)


def copymap(E, st, dst, M, K):
    """copy of a map: own nodes with the same contents"""
    def cp(M):
        if is_ite(M):
            return ite(M.arg(0), cp(M.arg(1)), cp(M.arg(2)))
        i = info(E, st, M, K)
        if i[0] == 'empty':
            return empty(E, st, None, K)
        if i[0] in ('base', 'copy'):
            if not flat(E, K.val):
                raise Unsupported('copy of a map of ' + K.val[:60])
            r = E.new_region(None, 'nodes')
            E.set_stride(r, K.S)
            snap = st.mem.copy()
            src = i[1]

            def fn(s2, ty, ref, off, older, snap=snap, src=src):
                tmp = s2.copy()
                tmp.mem = snap
                v = E.load(tmp, ty, Ptr(src.ref, off))
                for c in tmp.pc[len(s2.pc):]:
                    s2.assume(c)
                return v
            E.add_closure(st, r, fn)
            return newmap(E, st, None, ('copy', Ptr(r, 0), i[2], i[3]))
        if i[0] == 'ins':
            n = node_with(E, st, K, i[2], (i[3] + K.voff, K.S - K.voff))
            return newmap(E, st, None, ('ins', cp(i[1]), i[2], n))
        return newmap(E, st, None, ('del', cp(i[1]), i[2]))
    if not flat(E, K.val):
        i = None if is_ite(M) else info(E, st, M, K)
        if i is None or i[0] != 'empty':
            raise Unsupported('copy of a map of ' + K.val[:60])
    M2 = cp(M)
    E.store(st, 'map', dst, M2)
    return M2


def vsize(E, K):
    return K.psize - (K.voff - K.base)


def h_tmap(E, st, f, a, ins):
    # member templates: the name starts with the return type
    d = 0
    for i, c in enumerate(f.dem):
        if c in '<(':
            d += 1
        elif c in '>)':
            d -= 1
        elif c == ' ' and d == 0 and re.match(r'std::(unordered_)?map<', f.dem[i + 1:]):
            return h_map(E, st, f, a, ins, f.dem[i + 1:])
    return NotImplemented


def h_map(E, st, f, a, ins, dem=None):
    from hooks import ret, throw
    K, rest = kind(E, dem or f.dem)
    if not rest.startswith('::'):
        return NotImplemented
    m = re.match(r'^::(~?[\w]+|operator=|operator\[\])(<.*?>)?\((.*)$', rest.replace('operator[]', 'operator[]'))
    name = rest[2:]
    name = name[:len('operator[]')] if name.startswith('operator[]') else re.match(r'~?\w+(=)?', name).group(0)
    par = rest[rest.index('(') + 1:]
    E.assumptions.add('std::map / std::unordered_map behave as finite maps with stable nodes (their internals are trusted)')
    cls = 'unordered_map' if K.un else 'map'
    if name.startswith('~'):
        return ret(st)
    if name == cls:
        if par.startswith(')'):
            empty(E, st, a[0], K)
            return ret(st)
        if par.startswith('std::' + cls) and '&&)' in par:
            M = mval(E, st, a[1])
            E.store(st, 'map', a[0], M)
            empty(E, st, a[1], K)
            return ret(st)
        if par.startswith('std::' + cls):
            copymap(E, st, a[0], mval(E, st, a[1]), K)
            return ret(st)
        if par.startswith('std::initializer_list'):
            empty(E, st, a[0], K)
            if not isinstance(a[2], int) or a[2] > 32:
                raise Unsupported('initializer list')
            for j in range(a[2]):
                el = a[1] + j * K.psize
                k = loadkey(E, st, K, el + (K.koff - K.base))
                do_insert(E, st, a[0], K, k, (el + (K.voff - K.base), vsize(E, K)))
            return ret(st)
        raise Unsupported('map constructor')
    if name == 'operator=':
        if same(a[0].ref, a[1].ref) and same(a[0].off, a[1].off):
            return ret(st, a[0])
        if '&&)' in par:
            M = mval(E, st, a[1])
            E.store(st, 'map', a[0], M)
            empty(E, st, a[1], K)
        elif par.startswith('std::initializer_list'):
            raise Unsupported('map operator=')
        else:
            copymap(E, st, a[0], mval(E, st, a[1]), K)
        return ret(st, a[0])
    if name == 'clear':
        empty(E, st, a[0], K)
        return ret(st)
    if name == 'reserve' or name == 'rehash':
        return ret(st)
    if name == 'swap':
        x, y = mval(E, st, a[0]), mval(E, st, a[1])
        E.store(st, 'map', a[0], y)
        E.store(st, 'map', a[1], x)
        return ret(st)
    M = mval(E, st, a[0])
    if name in ('end', 'cend'):
        return ret(st, end(E, st, M, K))
    if name in ('begin', 'cbegin'):
        return ret(st, begin(E, st, M, K))
    if name == 'size':
        return ret(st, size(E, st, M, K))
    if name == 'empty':
        return ret(st, eq(size(E, st, M, K), 0))
    if name in ('find', 'count', 'at'):
        k = loadkey(E, st, K, a[1])
        fnd, p = lookup(E, st, M, k, K)
        if name == 'find':
            return ret(st, p)
        if name == 'count':
            return ret(st, ite(fnd, 1, 0))
        out = []
        for s, t in E.branch(st, fnd):
            out += ret(s, p + K.voff) if t else throw(s, 'std::out_of_range')
        return out
    if name == 'operator[]':
        k = loadkey(E, st, K, a[1])
        p, _ = do_insert(E, st, a[0], K, k, None)
        return ret(st, p + K.voff)
    if name in ('insert', 'emplace', 'insert_or_assign', 'try_emplace', 'emplace_hint'):
        hint = par.startswith(('std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator', 'std::__detail::_Node')) 
        if name == 'emplace_hint':
            raise Unsupported('emplace_hint')
        args = a[1:]
        if hint:
            args = a[2:]
        if name == 'insert':
            if len(args) != 1 or 'std::pair<' not in par:
                raise Unsupported('map insert')
            el = args[0]
            if '&&' not in par and not flat(E, K.val):
                raise Unsupported('insertion of a copy of ' + K.val[:60])
            k = loadkey(E, st, K, el + (K.koff - K.base))
            p, isnew = do_insert(E, st, a[0], K, k, (el + (K.voff - K.base), vsize(E, K)))
        elif name == 'emplace':
            tas, _ = targs(rest[rest.index('emplace'):rest.index('(')]) if '<' in rest[:rest.index('(')] else ([], '')
            strip = [re.sub(r'( const)?&+$| const$', '', x) for x in tas]
            if len(args) == 2 and len(strip) == 2 and strip[0] == K.key and strip[1] == K.val:
                if not flat(E, K.val) and tas[1].endswith('&'):
                    raise Unsupported('insertion of a copy of ' + K.val[:60])
                k = loadkey(E, st, K, args[0])
                p, isnew = do_insert(E, st, a[0], K, k, (args[1], vsize(E, K)))
            elif len(args) == 2 and strip[0] == K.key and strip[1] in INTKEY and K.val in INTKEY:
                k = loadkey(E, st, K, args[0])
                tmp = Ptr(E.new_region(None, 'value'), 0)
                v = E.load(st, INTKEY[strip[1]], args[1])
                w = {'i32': 32, 'i64': 64}[INTKEY[K.val]]
                E.store(st, INTKEY[K.val], tmp, wrap(v, w) if INTKEY[strip[1]] != INTKEY[K.val] else v)
                p, isnew = do_insert(E, st, a[0], K, k, (tmp, vsize(E, K)))
            elif len(args) == 1 and strip[0].startswith('std::pair<') and strip[0].endswith(K.val + '>'):
                el = args[0]
                k = loadkey(E, st, K, el + (K.koff - K.base))
                p, isnew = do_insert(E, st, a[0], K, k, (el + (K.voff - K.base), vsize(E, K)))
            else:
                raise Unsupported('map emplace')
        else:
            raise Unsupported('map ' + name)
        if f.ret == 'ptr':
            return ret(st, p)
        return ret(st, (p, ite(isnew, 1, 0)))
    if name == 'erase':
        if par.startswith(('std::_Rb_tree', 'std::__detail::_Node')):
            if len(a) > 2:
                raise Unsupported('map erase of a range')
            k = loadkey(E, st, K, a[1] + K.koff)
            newmap(E, st, a[0], ('del', M, k))
            nx = E.fresh('next')
            return ret(st, Ptr(nx, E.fresh('nexto')))
        k = loadkey(E, st, K, a[1])
        fnd, p = lookup(E, st, M, k, K)
        M2 = newmap(E, st, None, ('del', M, k))
        E.store(st, 'map', a[0], ite(fnd, M2, M))
        return ret(st, ite(fnd, 1, 0))
    raise Unsupported('map operation ' + name)


def h_incr(E, st, f, a, ins):
    from hooks import ret
    p = a[0]
    s = [E.strideof(r) for r in ref_leaves(p.ref)]
    if not s or any(x is None or x != s[0] for x in s):
        raise Unsupported('increment of a map iterator')
    d = s[0] if 'increment' in f.dem else -s[0]
    return ret(st, p + d)


def h_nodeincr(E, st, f, a, ins):
    from hooks import ret
    p = E.load(st, 'ptr', a[0])
    s = [E.strideof(r) for r in ref_leaves(p.ref)]
    if not s or any(x is None or x != s[0] for x in s):
        raise Unsupported('increment of a map iterator')
    E.store(st, 'ptr', a[0], p + s[0])
    return ret(st)


def register(hook):
    hook(r'^std::(unordered_)?map<')(h_map)
    hook(r'^std::pair<.*> std::(unordered_)?map<.*>::emplace<')(h_tmap)
    hook(r'^std::_Rb_tree_(in|de)crement\(')(h_incr)
    hook(r'^std::__detail::_Node_iterator_base<.*>::_M_incr\(\)')(h_nodeincr)
