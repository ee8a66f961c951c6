"""Trusted contracts of library functions (libstdc++, C++ runtime) and the specification API (vf_*).

A hook replaces the body of a library function by its contract. Everything listed here is part of the trusted base.
"""
import re
from fractions import Fraction

import z3

from terms import *
from engine import (B, FRESH0, I, R, Engine, Entry, Obligation, SIZES, split_struct)

HOOKS = []
CUTS = []


def hook(rx, cut=True):
    def deco(f):
        HOOKS.append((re.compile(rx), f))
        if cut:
            CUTS.append(rx)
        return f
    return deco


def ret(st, v=None):
    return [(st, 'ret', v)]


def throw(st, ty):
    return [(st, 'exc', (ty, NULL))]


S = r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'
STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'


# ------------------------------------------------------------------ runtime
@hook(r'^operator new(\[\])?\(unsigned long')
def h_new(E, st, f, a, ins):
    if E.loopctx:
        return ret(st, alloc_in_loop(E, st, a[0]))
    return ret(st, Ptr(E.new_region(a[0] if isinstance(a[0], int) else None, 'heap'), 0))


def alloc_in_loop(E, st, size):
    """allocation inside a generic iteration: a fresh object per iteration"""
    return Ptr(E.new_region(size if isinstance(size, int) else None, 'heap'), 0)


@hook(r'^operator delete')
def h_delete(E, st, f, a, ins):
    return ret(st)


@hook(r'^__cxa_allocate_exception')
def h_allocexc(E, st, f, a, ins):
    return ret(st, Ptr(E.new_region(None, 'exception'), 0))


@hook(r'^__cxa_(free_exception|end_catch)')
def h_nop0(E, st, f, a, ins):
    return ret(st)


@hook(r'^__cxa_begin_catch')
def h_begin_catch(E, st, f, a, ins):
    return ret(st, a[0])


@hook(r'^__cxa_throw')
def h_throw(E, st, f, a, ins):
    n = E.exc_name(a[1])
    return [(st, 'exc', (n, a[0]))]


@hook(r'^__cxa_rethrow')
def h_rethrow(E, st, f, a, ins):
    return [(st, 'exc', st.exc)]


@hook(r'^__cxa_guard_acquire')
def h_guard(E, st, f, a, ins):
    return ret(st, 1)


@hook(r'^__cxa_(guard_release|guard_abort|atexit)|^__cxa_call_unexpected')
def h_nop1(E, st, f, a, ins):
    return ret(st, 0 if 'atexit' in f.dem else None)


@hook(r'^(std::terminate|__assert_fail|abort|__clang_call_terminate|std::__glibcxx_assert_fail|boost::assertion_failed)')
def h_abort(E, st, f, a, ins):
    E.assumptions.add('a failed assert() / std::terminate ends the execution (such executions are not covered)')
    return []


THROWS = {'out_of_range': 'std::out_of_range', 'length_error': 'std::length_error', 'logic_error': 'std::logic_error',
          'invalid_argument': 'std::invalid_argument', 'runtime_error': 'std::runtime_error',
          'bad_alloc': 'std::bad_alloc', 'bad_cast': 'std::bad_cast', 'bad_function_call': 'std::bad_function_call',
          'bad_array_new_length': 'std::bad_alloc', 'bad_weak_ptr': 'std::bad_weak_ptr'}


@hook(r'^std::__throw_([a-z_]+)\(')
def h_stdthrow(E, st, f, a, ins):
    n = re.match(r'^std::__throw_(\w+?)(_fmt)?\(', f.dem).group(1)
    if n in ('length_error', 'bad_alloc', 'bad_array_new_length'):
        E.assumptions.add('allocation never fails and containers never exceed max_size()')
        return []
    return throw(st, THROWS[n])


@hook(r'^std::(runtime_error|logic_error|out_of_range|invalid_argument|exception|bad_cast|domain_error|range_error)::')
def h_stdexc(E, st, f, a, ins):
    if '::what(' in f.dem:
        return ret(st, Ptr(E.fresh('what'), 0))
    return ret(st)


@hook(r'::~[A-Za-z_0-9]+\(\)( |$|\[)')
def h_dtor(E, st, f, a, ins):
    E.assumptions.add('destructors have no effect on objects that stay alive')
    return ret(st, a[0] if f.ret == 'ptr' else None)


@hook(r'^void std::_Destroy|^std::_Destroy|^void std::__destroy_at|^void std::destroy_at')
def h_destroy(E, st, f, a, ins):
    return ret(st)


@hook(r'::(destroy|_M_deallocate|deallocate|_M_destroy)(<[^(]*>)?\(')
def h_dealloc(E, st, f, a, ins):
    return ret(st)


# ------------------------------------------------------------------ shared_ptr reference counts
@hook(r'^std::_Sp_counted_base<.*>::(_M_add_ref_copy|_M_release|_M_weak_add_ref|_M_weak_release|_M_add_ref_lock|_M_release_last_use)')
def h_refcnt(E, st, f, a, ins):
    if f.ret != 'void':
        E.assumptions.add('weak references are not expired (the referenced objects are alive)')
        return ret(st, True)
    return ret(st)


@hook(r'^std::__shared_count<.*>::__shared_count\(std::__weak_count<.*> const&(, std::nothrow_t const&)?\)')
def h_lock(E, st, f, a, ins):
    E.assumptions.add('weak references are not expired (the referenced objects are alive)')
    v = E.load(st, 'ptr', a[1])
    E.store(st, 'ptr', a[0], v)
    return ret(st)


@hook(r'^std::__(shared|weak)_count<.*>::_M_get_use_count')
def h_usecount(E, st, f, a, ins):
    v = E.load(st, 'ptr', a[0])
    return ret(st, ite(E.ptr_eq(v, NULL), 0, 1))


@hook(r'^std::_Sp_locker::_Sp_locker|^std::_Sp_locker::~')
def h_locker(E, st, f, a, ins):
    return ret(st)


@hook(r'^std::_Sp_counted_base<.*>::_Sp_counted_base\(\)')
def h_spbase(E, st, f, a, ins):
    return ret(st)


# ------------------------------------------------------------------ maps
import maps  # noqa: E402
maps.register(hook)


# ------------------------------------------------------------------ boost::lexical_cast
@hook(r'boost::lexical_cast<[^,]*, (std::__cxx11::basic_string<.*>|char const\*)>\(')
def h_lexcast(E, st, f, a, ins):
    """parsing of a text as T: a partial function of the text"""
    E.assumptions.add('boost::lexical_cast<T>(text) is a partial function of the text, throws bad_lexical_cast outside its domain')
    t = re.search(r'lexical_cast<([^,]*), ', f.dem).group(1)
    if f.args and 'sret' in f.args[0]:
        raise Unsupported('lexical_cast to ' + t)
    v = sget(E, st, a[0])
    ok = z3.Function('parses_as_' + t, I, B)(toz(v))
    so = {'double': R, 'float': R}.get(f.ret, I)
    r = z3.Function('parse_as_' + t, I, so)(toz(v))
    if f.ret == 'i1':
        r = z3.Function('parse_as_' + t, I, B)(toz(v))
    out = []
    for s, c in E.branch(st, ok):
        out += ret(s, r) if c else [(s, 'exc', ('_ZTIN5boost16bad_lexical_castE', Ptr(E.new_region(None, 'exception'), 0)))]
    return out


@hook(r'^lanelet::Attribute::(as(Bool|Velocity)\(\) const$|Attribute\(boost::units::quantity<)', cut=False)
def h_attr_as(E, st, f, a, ins):
    """used instead of the body where Attribute.cpp is not part of the module: interpretations are partial functions of the
    text (C04), the text of a velocity reads back as the velocity"""
    if not f.decl:
        return NotImplemented
    E.assumptions.add('Attribute::asBool/asVelocity: partial functions of the text (decided by C04)')
    vok, vel = z3.Function('is_velocity', I, B), z3.Function('velocity_of', I, R)
    if '::Attribute(' in f.dem:
        v = E.load(st, 'double', a[1]) if isinstance(a[1], Ptr) else a[1]
        t = E.fresh('str')
        E.fact(st, t >= 0)
        E.fact(st, vok(t))
        E.fact(st, vel(t) == toz(v))
        sset(E, st, a[0], t)
        E.store(st, 'ptr', a[0] + 32, NULL)
        E.store(st, 'ptr', a[0] + 40, NULL)
        return ret(st)
    if 'asBool' in f.dem:
        t = toz(sget(E, st, a[0]))
        b = z3.Function('is_bool', I, B)(t)
        return ret(st, ('raw', ((0, 'i8', ite(b, 1, 0)), (1, 'i8', ite(z3.Function('bool_of', I, B)(t), 1, 0)))))
    t = toz(sget(E, st, a[1]))
    E.store(st, 'i8', a[0], ite(vok(t), 1, 0))
    E.store(st, 'double', a[0] + 8, vel(t))
    return ret(st)


# ------------------------------------------------------------------ modular contracts chosen by a harness (VF_MODULAR)
def lanelet_key(E, st, p):
    return [toz(E.load(st, 'ptr', p).ref), toz(ite(E.truth(E.load(st, 'i8', p + 16)), 1, 0))]


@hook(r'lanelet::geometry::follows<lanelet::ConstLanelet, lanelet::ConstLanelet>\(', cut=False)
def h_follows(E, st, f, a, ins):
    if 'vfm_follows' not in E.fns:
        return NotImplemented
    E.assumptions.add('geometry::follows: a relation of two lanelets (decided by C11)')
    ks = lanelet_key(E, st, a[0]) + lanelet_key(E, st, a[1])
    return ret(st, z3.Function('follows', I, I, I, I, B)(*ks))


@hook(r'^std::__detail::_List_node_base::_M_hook\(')
def h_list_hook(E, st, f, a, ins):
    """links a node in front of another one (libstdc++, compiled library)"""
    prev = E.load(st, 'ptr', a[1] + 8)
    E.store(st, 'ptr', a[0], a[1])
    E.store(st, 'ptr', a[0] + 8, prev)
    E.store(st, 'ptr', prev, a[0])
    E.store(st, 'ptr', a[1] + 8, a[0])
    return ret(st)


@hook(r'double lanelet::geometry::approximatedLength2d<lanelet::ConstLanelet>\(|'
      r'::type boost::geometry::perimeter<lanelet::CompoundPolygon2d>\(', cut=False)
def h_lengths(E, st, f, a, ins):
    """a length of the lanelet (of the outline of the area), which is not negative"""
    if 'vfm_lengths' not in E.fns:
        return NotImplemented
    E.assumptions.add('approximatedLength2d(lanelet) (decided by C10), boost::geometry::perimeter(outline): a number determined by '
                      'the lanelet (the lines of the outline), not negative')
    if 'approximated' in f.dem:
        r = z3.Function('lanelet_length', I, I, R)(*lanelet_key(E, st, a[0]))
    else:
        r = z3.Function('outline_length', I, R)(toz(E.load(st, 'ptr', a[0]).ref))
    E.fact(st, r >= 0)
    return ret(st, r)


@hook(r'^lanelet::LaneletSequenceData::LaneletSequenceData\(std::vector<lanelet::ConstLanelet', cut=False)
def h_seqdata(E, st, f, a, ins):
    if not f.decl:
        return NotImplemented
    E.assumptions.add('LaneletSequence: has the lanelets it is made of (decided by C12)')
    vec_wf(E, st, a[1], 24)
    for o in (0, 8, 16):
        E.store(st, 'ptr', a[0] + o, E.load(st, 'ptr', a[1] + o))
        E.store(st, 'ptr', a[1] + o, NULL)
    return ret(st)


# ------------------------------------------------------------------ std::vector: well-formedness of initial objects
NEVER = -77


def vec_esz(E, dem):
    m = re.match(r'^std::(?:vector|_Vector_base)<(.*)$', dem)
    if not m:
        return None
    # full template name up to the matching '>'
    i = dem.index('<')
    d = 0
    for j in range(i, len(dem)):
        if dem[j] == '<':
            d += 1
        elif dem[j] == '>' and dem[j - 1] != '-':
            d -= 1
            if d == 0:
                break
    inner = dem[i:j + 1]
    for n in ('std::vector' + inner, 'std::_Vector_base' + inner):
        t = E.types.get(n)
        if t and t['tp'] and t['tp'][0][1]:
            return t['tp'][0][1]
    e = first_targ(inner[1:-1])
    if e.endswith('*'):
        return 8
    if e in E.types:
        return E.types[e]['size']
    return {'double': 8, 'int': 4, 'long': 8, 'unsigned long': 8, 'float': 4, 'char': 1, 'unsigned int': 4}.get(e)


def first_targ(s):
    d = 0
    for k, c in enumerate(s):
        if c in '<([':
            d += 1
        elif c in '>)]' and s[k - 1] != '-':
            d -= 1
        elif c == ',' and d == 0:
            return s[:k]
    return s


def is_base_cell(E, st, p, ty='ptr'):
    """does the cell still have its initial (symbolic) value"""
    v = E.load(st, ty, p)
    leaves = ref_leaves(v.ref)
    return v, leaves


def iter_stride(E, dem):
    """vectors of map iterators: size of the nodes the iterators point to"""
    m = re.match(r'^std::(?:vector|_Vector_base)<std::_Rb_tree_(?:const_)?iterator<', dem)
    if m:
        ta, _ = maps.targs(dem[m.end() - 1:])
        t = E.types.get('std::_Rb_tree_node<' + ta[0] + '>')
        if t:
            return t['size']
    return None


def vec_wf(E, st, p, esz):
    """initial vectors are well formed: [start, finish) is an element buffer of its own"""
    refs = ref_leaves(p.ref)
    for r in refs:
        if isinstance(r, int) and (r >= FRESH0 or r == 0):
            continue
        if isinstance(r, int) and r < 0:
            continue
        if not isinstance(r, int) and not (E.is_old(r)):
            continue
        off = p.off
        if isinstance(off, z3.ExprRef) and off.decl().kind() == z3.Z3_OP_ITE:
            offs = ref_leaves(off)
        else:
            offs = (off,)
        for o in offs:
            vec_wf1(E, st, r, o, esz)


def vec_wf1(E, st, r, o, esz):
    start = E.base(st, 'ptr', r, o)
    buf = start.ref
    if isinstance(buf, int):
        return
    o2 = add(o, 8)
    key = (r if isinstance(r, int) else r.get_id(), o2 if isinstance(o2, int) else o2.get_id())
    ln = z3.Function('veclen', I, I)(buf)
    E.fact(st, z3.And(ln >= 0, buf > 0))
    if key in E.base_over:
        return
    E.set_stride(buf, esz)
    if E.cur_iter:
        E.iterbuf[buf.get_id()] = (buf, E.cur_iter)
    E.base_over[key] = ('ptr', Ptr(buf, mulc(ln, esz)), (r, o2))
    o3 = add(o, 16)
    key = (r if isinstance(r, int) else r.get_id(), o3 if isinstance(o3, int) else o3.get_id())
    E.base_over[key] = ('ptr', Ptr(NEVER, 0), (r, o3))
    # every element buffer belongs to one vector
    ow = z3.Function('owner', I, I)
    owo = z3.Function('owneroff', I, I)
    E.fact(st, z3.And(ow(buf) == toz(r), owo(buf) == toz(o)))


def new_buffer(E, esz):
    r = E.new_region(None, 'buffer')
    if esz:
        E.set_stride(r, esz)
    return Ptr(r, 0)


@hook(r'^std::_Vector_base<.*>::_Vector_impl_data::_Vector_impl_data\(\)$')
def h_vecinit(E, st, f, a, ins):
    esz = vec_esz(E, f.dem)
    b = new_buffer(E, esz)
    E.store(st, 'ptr', a[0], b)
    E.store(st, 'ptr', a[0] + 8, b)
    E.store(st, 'ptr', a[0] + 16, Ptr(NEVER, 0))
    return ret(st)


@hook(r'^std::_Vector_base<.*>::_Vector_impl_data::_Vector_impl_data\(std::_Vector_base<.*&&\)$')
def h_vecmove(E, st, f, a, ins):
    esz = vec_esz(E, f.dem)
    vec_wf(E, st, a[1], esz)
    for o in (0, 8, 16):
        E.store(st, 'ptr', a[0] + o, E.load(st, 'ptr', a[1] + o))
    b = new_buffer(E, esz)
    E.store(st, 'ptr', a[1], b)
    E.store(st, 'ptr', a[1] + 8, b)
    E.store(st, 'ptr', a[1] + 16, Ptr(NEVER, 0))
    return ret(st)


@hook(r'^std::_Vector_base<.*>::_M_create_storage')
def h_veccreate(E, st, f, a, ins):
    esz = vec_esz(E, f.dem)
    b = new_buffer(E, esz)
    E.store(st, 'ptr', a[0], b)
    E.store(st, 'ptr', a[0] + 8, b)
    E.store(st, 'ptr', a[0] + 16, Ptr(NEVER, 0))
    return ret(st)


@hook(r'^std::_Vector_base<.*>::_M_allocate\(')
def h_vecalloc(E, st, f, a, ins):
    return ret(st, new_buffer(E, vec_esz(E, f.dem)))


@hook(r'^std::vector<.*>::(reserve|shrink_to_fit)\(')
def h_reserve(E, st, f, a, ins):
    return ret(st)


@hook(r'^std::vector<.*>::(max_size|_S_max_size|_S_check_init_len|_M_check_len)\(')
def h_maxsize(E, st, f, a, ins):
    n = 2 ** 62
    if '_S_check_init_len' in f.dem:
        return ret(st, a[0])
    if '_M_check_len' in f.dem:
        raise Unsupported('reallocation')
    return ret(st, n)


@hook(r'^std::vector<.*>::(capacity)\(')
def h_capacity(E, st, f, a, ins):
    return ret(st, 2 ** 62)


def vec_get(E, st, p, esz):
    vec_wf(E, st, p, esz)
    s = E.load(st, 'ptr', p)
    e = E.load(st, 'ptr', p + 8)
    return s, divc_exact(sub(e.off, s.off), esz)


@hook(r'^std::vector<.*>::clear\(\)$')
def h_vecclear(E, st, f, a, ins):
    esz = vec_esz(E, f.dem)
    vec_wf(E, st, a[0], esz)
    s = E.load(st, 'ptr', a[0])
    E.store(st, 'ptr', a[0] + 8, s)
    return ret(st)


@hook(r'^std::vector<.*>::(_M_erase|erase)\(', cut=True)
def h_vecerase(E, st, f, a, ins):
    esz = vec_esz(E, f.dem)
    if 'erase(' in f.dem and '::erase(' in f.dem:
        # iterator arguments arrive as pointers (one register each) or through an sret-free class of one pointer
        pass
    vec_wf(E, st, a[0], esz)
    s = E.load(st, 'ptr', a[0])
    e = E.load(st, 'ptr', a[0] + 8)
    pos = a[1]
    last = a[2] if len(a) > 2 else pos + esz
    snap = st.mem.copy()
    gap = sub(last.off, pos.off)
    p0 = pos.off

    def fn(s2, ty, ref, off, older, snap=snap):
        c = le(p0, off)
        if c is False:
            return older()
        tmp = s2.copy()
        tmp.mem = snap
        v = E.load(tmp, ty, Ptr(ref, add(off, gap)))
        for x in tmp.pc[len(s2.pc):]:
            s2.assume(x)
        return v if c is True else ite(c, v, older())
    E.add_closure(st, s.ref, fn)
    E.store(st, 'ptr', a[0] + 8, Ptr(e.ref, sub(e.off, gap)))
    return ret(st, pos)


@hook(r'^(__gnu_cxx::__normal_iterator<.*> )?std::(_V2::)?rotate<__gnu_cxx::__normal_iterator<')
def h_rotate(E, st, f, a, ins):
    """std::rotate on a vector: the elements from the second iterator on come first, then those before it"""
    first, mid, last = a[-3:]
    snap = st.mem.copy()
    lo, hi = first.off, last.off
    d, n = sub(mid.off, lo), sub(hi, lo)

    def fn(s2, ty, ref, off, older, snap=snap):
        c = b_and(le(lo, off), lt(off, hi))
        if c is False:
            return older()
        tmp = s2.copy()
        tmp.mem = snap
        src = add(off, d)
        v = E.load(tmp, ty, Ptr(ref, ite(lt(src, hi), src, sub(src, n))))
        for x in tmp.pc[len(s2.pc):]:
            s2.assume(x)
        return v if c is True else ite(c, v, older())
    E.add_closure(st, first.ref, fn)
    return ret(st, add_off(E, first, sub(n, d)))


def add_off(E, p, d):
    return Ptr(p.ref, add(p.off, d))


@hook(r'^std::vector<.*>::(_M_insert_aux|_M_insert_rval|_M_fill_insert|_M_default_append|_M_assign_aux|_M_fill_assign)(<.*>)?\(', cut=False)
def h_vecuns(E, st, f, a, ins):
    if '_M_insert_aux' in f.dem or '_M_insert_rval' in f.dem:
        return NotImplemented
    if '_M_fill_insert' in f.dem or '_M_default_append' in f.dem:
        return NotImplemented
    return NotImplemented


@hook(r'^std::vector<', cut=False)
def h_vec(E, st, f, a, ins):
    esz = vec_esz(E, f.dem)
    if esz is None:
        return NotImplemented
    E.cur_iter = iter_stride(E, f.dem)
    ctor = re.search(r'::vector\(', f.dem)
    th = 0
    if f.args and 'sret' in f.args[0]:
        th = 1
    for k, x in enumerate(a):
        if k < th or not isinstance(x, Ptr):
            continue
        if k == th and ctor:
            continue
        if k == th or 'std::vector<' in f.dem.split('(', 1)[-1] and k == th + 1:
            vec_wf(E, st, x, esz)
    E.cur_iter = None
    return NotImplemented


@hook(r'std::_Vector_base<.*>::_Vector_impl_data::(_M_copy_data|_M_swap_data)', cut=False)
def h_vec2(E, st, f, a, ins):
    esz = vec_esz(E, f.dem)
    if esz:
        for x in a[:2]:
            vec_wf(E, st, x, esz)
    return NotImplemented


# ------------------------------------------------------------------ std::string
def sget(E, st, p):
    v = E.load(st, 'str', p)
    return v


def sset(E, st, p, v):
    E.store(st, 'str', p, v)


def cstr(E, st, p):
    """identity of the text a char const* points to"""
    if isinstance(p, Ptr):
        if isinstance(p.ref, z3.ExprRef) and p.ref.decl().kind() == z3.Z3_OP_ITE:
            c = p.ref.arg(0)
            from engine import _un
            o1 = o2 = p.off
            if isinstance(p.off, z3.ExprRef) and p.off.decl().kind() == z3.Z3_OP_ITE and same(p.off.arg(0), c):
                o1, o2 = _un(p.off.arg(1)), _un(p.off.arg(2))
            return ite(c, cstr(E, st, Ptr(_un(p.ref.arg(1)), o1)), cstr(E, st, Ptr(_un(p.ref.arg(2)), o2)))
        if isinstance(p.ref, int) and p.ref in E.gnames and isinstance(p.off, int):
            g = E.globals.get(E.gnames[p.ref])
            if g and 'init' in g and g['init'][0] == 'str':
                b = bytes.fromhex(g['init'][1])[p.off:]
                return E.intern(b.split(b'\0')[0].decode('latin1'))
            if g and 'init' in g and g['init'][0] == 'zero':
                return E.intern('')
        if isinstance(p.ref, int) and p.ref in E.cstrs:
            return E.cstrs[p.ref]
        t = z3.Function('cstr', I, I, I)(toz(p.ref), toz(p.off))
        E.fact(st, t >= 0)
        return t
    raise Unsupported('char pointer')


def fstr(E, st, name, *args):
    t = z3.Function(name, *([I] * (len(args) + 1)))(*[toz(x) for x in args])
    E.fact(st, t >= 0)
    return t


def slen(E, st, v):
    if isinstance(v, int):
        return len(E.strs[v])
    if v.decl().kind() == z3.Z3_OP_ITE:
        from engine import _un
        return ite(v.arg(0), slen(E, st, _un(v.arg(1))), slen(E, st, _un(v.arg(2))))
    t = z3.Function('strlen', I, I)(v)
    E.fact(st, z3.And(t >= 0, (t == 0) == (v == E.intern(''))))
    return t


def concat(E, st, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return E.intern(E.strs[a] + E.strs[b])
    if isinstance(a, int) and E.strs[a] == '':
        return b
    if isinstance(b, int) and E.strs[b] == '':
        return a
    from engine import _un
    # normal form: right associative, literals merged
    if isinstance(a, z3.ExprRef) and a.decl().name() == 'concat':
        return concat(E, st, _un(a.arg(0)), concat(E, st, _un(a.arg(1)), b))
    if isinstance(a, int) and isinstance(b, z3.ExprRef) and b.decl().name() == 'concat' and isinstance(_un(b.arg(0)), int):
        return concat(E, st, E.intern(E.strs[a] + E.strs[_un(b.arg(0))]), _un(b.arg(1)))
    t = fstr(E, st, 'concat', a, b)
    E.fact(st, toz(slen(E, st, t)) == toz(slen(E, st, a)) + toz(slen(E, st, b)))
    return t


@hook(S + r'basic_string\(')
def h_sctor(E, st, f, a, ins):
    args = f.dem.split('::basic_string(', 1)[1]
    if args.startswith(')'):
        sset(E, st, a[0], E.intern(''))
    elif args.startswith('std::__cxx11::basic_string') or args.startswith(STR):
        if re.match(r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&\)', args):
            sset(E, st, a[0], sget(E, st, a[1]))
        elif re.match(r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>&&\)', args):
            v = sget(E, st, a[1])
            sset(E, st, a[0], v)
            sset(E, st, a[1], E.intern(''))
        else:
            vs = [sget(E, st, a[1])] + [x for x in a[2:] if not isinstance(x, Ptr)]
            if len(vs) == 2:
                vs.append(-1)
            sset(E, st, a[0], fstr(E, st, 'substr', *vs))
    elif args.startswith('char const*, std::allocator'):
        sset(E, st, a[0], cstr(E, st, a[1]))
    elif args.startswith('char const*)'):
        sset(E, st, a[0], cstr(E, st, a[1]))
    elif args.startswith('char const*, unsigned long') and isinstance(a[2], int) and isinstance(cstr(E, st, a[1]), int) \
            and a[2] <= len(E.strs[cstr(E, st, a[1])]):
        sset(E, st, a[0], E.intern(E.strs[cstr(E, st, a[1])][:a[2]]))
    elif args.startswith('std::initializer_list') or True:
        vs = []
        for x in a[1:]:
            if isinstance(x, Ptr):
                vs += [x.ref, x.off]
            else:
                vs.append(x)
        sset(E, st, a[0], E.fresh('str'))
    return ret(st)


@hook(S + r'basic_string<')
def h_sctor2(E, st, f, a, ins):
    if 'char const*, std::allocator<char> const&' in f.dem.split('::basic_string<', 1)[1]:
        if '<std::allocator<char>, void>(char const*' in f.dem or '<std::allocator<char>>(char const*' in f.dem:
            sset(E, st, a[0], cstr(E, st, a[1]))
            return ret(st)
    if '(char const*, std::allocator' in f.dem:
        sset(E, st, a[0], cstr(E, st, a[1]))
        return ret(st)
    sset(E, st, a[0], E.fresh('str'))
    return ret(st)


@hook(S + r'operator=\(')
def h_sassign(E, st, f, a, ins):
    arg = f.dem.split('operator=(', 1)[1]
    if arg.startswith('char const*'):
        sset(E, st, a[0], cstr(E, st, a[1]))
    elif arg.startswith('std::__cxx11::basic_string'):
        v = sget(E, st, a[1])
        sset(E, st, a[0], v)
        if '&&' in arg and not same(a[0], a[1]):
            sset(E, st, a[1], E.fresh('moved'))
    else:
        raise Unsupported(f.dem)
    return ret(st, a[0])


@hook(S + r'(operator\+=|append)\(')
def h_sappend(E, st, f, a, ins):
    arg = f.dem.split('(', 1)[1]
    v = sget(E, st, a[0])
    if arg.startswith('char const*)'):
        w = cstr(E, st, a[1])
    elif arg.startswith('std::__cxx11::basic_string') and len(a) == 2:
        w = sget(E, st, a[1])
    else:
        w = E.fresh('str')
    sset(E, st, a[0], concat(E, st, v, w))
    return ret(st, a[0])


@hook(r'^' + STR + r' std::operator\+<')
def h_splus(E, st, f, a, ins):
    arg = f.dem.split('std::operator+<', 1)[1].split('(', 1)[1]
    parts = []
    depth = 0
    cur = ''
    for ch in arg[:arg.rindex(')')]:
        if ch == '<':
            depth += 1
        if ch == '>':
            depth -= 1
        if ch == ',' and depth == 0:
            parts.append(cur.strip())
            cur = ''
        else:
            cur += ch
    parts.append(cur.strip())
    vs = []
    for t, x in zip(parts, a[1:]):
        if t.startswith('char const*'):
            vs.append(cstr(E, st, x))
        elif t.startswith('std::__cxx11'):
            vs.append(sget(E, st, x))
        else:
            vs.append(E.fresh('str'))
    sset(E, st, a[0], concat(E, st, vs[0], vs[1]))
    return ret(st)


@hook(S + r'(size|length)\(\)')
def h_ssize(E, st, f, a, ins):
    return ret(st, slen(E, st, sget(E, st, a[0])))


@hook(S + r'empty\(\)')
def h_sempty(E, st, f, a, ins):
    return ret(st, eq(sget(E, st, a[0]), E.intern('')))


@hook(S + r'clear\(\)')
def h_sclear(E, st, f, a, ins):
    sset(E, st, a[0], E.intern(''))
    return ret(st)


@hook(S + r'reserve\(')
def h_sreserve(E, st, f, a, ins):
    return ret(st)


@hook(S + r'(c_str|data)\(\)')
def h_cstr(E, st, f, a, ins):
    v = sget(E, st, a[0])
    r = E.new_region(None, 'chars')
    E.cstrs[r] = v
    return ret(st, Ptr(r, 0))


@hook(S + r'substr\(')
def h_substr(E, st, f, a, ins):
    sset(E, st, a[0], fstr(E, st, 'substr', sget(E, st, a[1]), a[2], a[3]))
    return ret(st)


@hook(S + r'(find|rfind|find_first_of|find_last_of|find_first_not_of)\(')
def h_sfind(E, st, f, a, ins):
    n = f.dem.split('(')[0].split('::')[-1]
    vs = []
    arg = f.dem.split('(', 1)[1]
    vs.append(sget(E, st, a[0]))
    if arg.startswith('char const*'):
        vs.append(cstr(E, st, a[1]))
    elif arg.startswith('std::'):
        vs.append(sget(E, st, a[1]))
    else:
        vs.append(a[1])
    vs += a[2:]
    pre = n in ('find', 'rfind') and len(vs) == 3 and isinstance(vs[2], int) and vs[2] == 0 and not arg.startswith('char,')
    t = z3.Function('str_' + n, *([I] * (len(vs) + 1)))(*[toz(x) for x in vs])
    E.fact(st, t >= -1)
    if pre:
        E.fact(st, (t == 0) == toz(prefix(E, st, vs[0], vs[1])))
    return ret(st, t)


def scmp(E, st, a, b):
    if isinstance(a, int) and isinstance(b, int):
        x, y = E.strs[a], E.strs[b]
        return (x > y) - (x < y)
    for x, y, sgn in ((a, b, 1), (b, a, -1)):
        if isinstance(x, z3.ExprRef) and x.decl().kind() == z3.Z3_OP_ITE:
            from engine import _un
            p, q = _un(x.arg(1)), _un(x.arg(2))
            if sgn == 1:
                return ite(x.arg(0), scmp(E, st, p, y), scmp(E, st, q, y))
            return ite(x.arg(0), scmp(E, st, y, p), scmp(E, st, y, q))
    f = z3.Function('strcmp', I, I, I)
    t = f(toz(a), toz(b))
    E.fact(st, (t == 0) == (toz(a) == toz(b)))
    E.fact(st, z3.And(t >= -1, t <= 1, f(toz(b), toz(a)) == -t))
    return t


def prefix(E, st, s, t):
    """t is a prefix of s"""
    from engine import _un
    if isinstance(s, int) and isinstance(t, int):
        return E.strs[s].startswith(E.strs[t])
    if same(s, t):
        return True
    if isinstance(t, int) and E.strs[t] == '':
        return True
    for x, g in ((s, lambda v: prefix(E, st, v, t)), (t, lambda v: prefix(E, st, s, v))):
        if isinstance(x, z3.ExprRef) and x.decl().kind() == z3.Z3_OP_ITE:
            return ite(x.arg(0), g(_un(x.arg(1))), g(_un(x.arg(2))))
    if isinstance(t, int) and isinstance(s, z3.ExprRef) and s.decl().name() == 'concat':
        h = _un(s.arg(0))
        if isinstance(h, int):
            a, b = E.strs[h], E.strs[t]
            if len(b) <= len(a):
                return a.startswith(b)
            return prefix(E, st, _un(s.arg(1)), E.intern(b[len(a):])) if b.startswith(a) else False
    F = z3.Function('prefix', I, I, B)
    sz, tz = toz(s), toz(t)
    r = F(sz, tz)
    E.fact(st, z3.Implies(r, toz(slen(E, st, s)) >= toz(slen(E, st, t))))
    if isinstance(t, int):
        seen = E.__dict__.setdefault('prefixes', {}).setdefault(sz.get_id(), {})
        E.termset[sz.get_id()] = sz
        for o in list(seen):
            x, y = E.strs[t], E.strs[o]
            if x.startswith(y):
                E.fact(st, z3.Implies(r, F(sz, z3.IntVal(o))))
            elif y.startswith(x):
                E.fact(st, z3.Implies(F(sz, z3.IntVal(o)), r))
            else:
                E.fact(st, z3.Not(z3.And(r, F(sz, z3.IntVal(o)))))
        seen[t] = True
        lits = E.__dict__.setdefault('eqlits', {})
        for k, txt in list(enumerate(E.strs)) if len(E.strs) < 400 else []:
            E.fact(st, z3.Implies(sz == k, r == txt.startswith(E.strs[t])))
    return r


@hook(S + r'(starts_with)\(')
def h_sstarts(E, st, f, a, ins):
    arg = f.dem.split('starts_with(', 1)[1]
    return ret(st, prefix(E, st, sget(E, st, a[0]), cstr(E, st, a[1]) if arg.startswith('char const*') else sget(E, st, a[1])))


@hook(S + r'compare\(')
def h_scompare(E, st, f, a, ins):
    arg = f.dem.split('compare(', 1)[1]
    if arg.startswith('char const*)'):
        return ret(st, scmp(E, st, sget(E, st, a[0]), cstr(E, st, a[1])))
    if len(a) == 2:
        return ret(st, scmp(E, st, sget(E, st, a[0]), sget(E, st, a[1])))
    vs = [sget(E, st, a[0])]
    for x in a[1:]:
        if isinstance(x, Ptr):
            vs.append(cstr(E, st, x) if 'char const*' in arg else sget(E, st, x))
        else:
            vs.append(x)
    t = z3.Function('str_compare', *([I] * (len(vs) + 1)))(*[toz(x) for x in vs])
    if len(vs) == 4 and is_c(vs[1]) and vs[1] == 0 and same(toz(vs[2]), toz(slen(E, st, vs[3]))):
        t = E.fresh('cmp')
        p = prefix(E, st, vs[0], vs[3])
        if p is True:
            return ret(st, 0)
        E.fact(st, (t == 0) == toz(p))
    return ret(st, t)


@hook(r'std::operator(==|!=|<|>|<=|>=)<char, std::char_traits<char>, std::allocator<char>>\(|'
      r'std::operator(==|!=)<char>\(')
def h_sop(E, st, f, a, ins):
    op = re.search(r'std::operator(==|!=|<=|>=|<|>)<char', f.dem).group(1)
    arg = f.dem.split('(', 1)[1]
    if arg.startswith('char const*'):
        x, y = cstr(E, st, a[0]), sget(E, st, a[1])
    elif 'char const*)' in arg:
        x, y = sget(E, st, a[0]), cstr(E, st, a[1])
    else:
        x, y = sget(E, st, a[0]), sget(E, st, a[1])
    if op == '==':
        return ret(st, eq(x, y))
    if op == '!=':
        return ret(st, b_not(eq(x, y)))
    c = scmp(E, st, x, y)
    return ret(st, {'<': lt(c, 0), '>': lt(0, c), '<=': le(c, 0), '>=': le(0, c)}[op])


@hook(r'^(strcmp|std::strcmp)')
def h_strcmp(E, st, f, a, ins):
    return ret(st, scmp(E, st, cstr(E, st, a[0]), cstr(E, st, a[1])))


@hook(S + r'(operator\[\]|at|front|back|begin|end|cbegin|cend|insert|erase|replace|push_back|pop_back|resize|swap|find_last_not_of)\(')
def h_sother(E, st, f, a, ins):
    raise Unsupported('string operation ' + f.dem.split('(')[0][-40:])


@hook(r'^std::__cxx11::to_string\(')
def h_tostring(E, st, f, a, ins):
    v = a[1]
    if isinstance(v, (z3.BoolRef, bool)):
        v = ite(v, 1, 0)
    if isinstance(v, Fraction) or isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_REAL_SORT:
        t = z3.Function('str_of_real', R, I)(toz(v))
        E.fact(st, t >= 0)
    else:
        t = fstr(E, st, 'str_of_int', v)
        u = z3.Function('int_of_str', I, I)
        E.fact(st, u(t) == toz(v))
    sset(E, st, a[0], t)
    return ret(st)


@hook(r'^std::(__cxx11::)?basic_(o|i)?stringstream|^std::basic_ostream|^std::ostream|operator<<[(]|^std::basic_ios|^std::ios_base|^std::locale')
def h_stream(E, st, f, a, ins):
    """text output only builds messages; its result is an arbitrary string"""
    if '::str() const' in f.dem:
        sset(E, st, a[0], E.fresh('streamtext'))
        return ret(st)
    if f.ret == 'ptr':
        return ret(st, a[0])
    if f.ret == 'void':
        return ret(st)
    return ret(st, E.fresh_ty('stream', f.ret))


# ------------------------------------------------------------------ specification API
def vname(E, st, p):
    v = cstr(E, st, p)
    return E.strs[v] if isinstance(v, int) else f'id{v}'


@hook(r'^vf_assume$')
def v_assume(E, st, f, a, ins):
    c = E.truth(a[0])
    if c is False:
        return []
    st.assume(c)
    if not E.feasible(st):
        return []
    return ret(st)


@hook(r'^vf_assert$')
def v_assert(E, st, f, a, ins):
    E.prove(st, E.truth(a[0]), vname(E, st, a[1]))
    return ret(st)


@hook(r'^vf_cover$')
def v_cover(E, st, f, a, ins):
    n = vname(E, st, a[0])
    if not E.silent:
        if n not in E.covers or not E.covers[n]:
            E.covers[n] = E.feasible(st)
    return ret(st)


@hook(r'^vf_index$')
def v_index(E, st, f, a, ins):
    """arbitrary index in [0, n)"""
    k = E.fresh('idx')
    E.index_terms.append(k)
    st.assume(z3.And(k >= 0, k < toz(a[0])))
    if not E.feasible(st):
        return []
    return ret(st, k)


@hook(r'^vf_any_(int|bool|real|id)$')
def v_any(E, st, f, a, ins):
    n = f.dem
    if n.endswith('bool'):
        return ret(st, E.fresh('any', 'B'))
    if n.endswith('real'):
        return ret(st, E.fresh('any', 'R'))
    return ret(st, E.fresh('any'))


def intval(E, v):
    if not isinstance(v, (bool, int, z3.ExprRef)) and v is not None:
        raise Unsupported(f'integer expected: {str(v)[:200]}')
    if v is None:
        raise Unsupported('use of an undefined value')
    return v if not isinstance(v, (bool, z3.BoolRef)) else ite(v, 1, 0)


@hook(r'^vf_pred$')
def v_pred(E, st, f, a, ins):
    return ret(st, z3.Function('vf_pred', I, I, z3.BoolSort())(*[toz(x) for x in [intval(E, y) for y in a[:2]]]))


@hook(r'^vf_any_string$')
def v_anystr(E, st, f, a, ins):
    v = E.fresh('anystr')
    E.fact(st, v >= 0)
    sset(E, st, a[0], v)
    return ret(st)


@hook(r'^vf_distinct$')
def v_distinct(E, st, f, a, ins):
    """separate objects"""
    st.assume(b_not(eq(a[0].ref, a[1].ref)))
    return ret(st)


# ------------------------------------------------------------------ Eigen fixed size storage (plain double arrays)
@hook(r'^Eigen::DenseStorage<double, [0-9]+, [0-9-]+, [0-9-]+, [0-9]+>::(DenseStorage|operator=)\(Eigen::DenseStorage<double, [0-9]+, [^)]*(&|&&)\)')
def h_eigcopy(E, st, f, a, ins):
    n = int(re.search(r'DenseStorage<double, (\d+)', f.dem).group(1))
    vs = [E.load(st, 'double', a[1] + 8 * i) for i in range(n)]
    for i, v in enumerate(vs):
        E.store(st, 'double', a[0] + 8 * i, v)
    return ret(st, a[0] if f.ret == 'ptr' else None)


# ------------------------------------------------------------------ atomic access to shared_ptr (sequential semantics)
@hook(r'std::atomic_load(_explicit)?<.*>\(std::(__)?shared_ptr<.*> const\*')
def h_atomload(E, st, f, a, ins):
    E.assumptions.add('atomic accesses of shared pointers are executed in sequential order (no concurrent access)')
    for o in (0, 8):
        E.store(st, 'ptr', a[0] + o, E.load(st, 'ptr', a[1] + o))
    return ret(st)


@hook(r'std::atomic_store(_explicit)?<.*>\(std::(__)?shared_ptr<')
def h_atomstore(E, st, f, a, ins):
    E.assumptions.add('atomic accesses of shared pointers are executed in sequential order (no concurrent access)')
    for o in (0, 8):
        E.store(st, 'ptr', a[0] + o, E.load(st, 'ptr', a[1] + o))
    return ret(st)


# ------------------------------------------------------------------ assumed contract: calculateCenterline
@hook(r'^lanelet::\(anonymous namespace\)::calculateCenterline\(')
def h_calccl(E, st, f, a, ins):
    """the computed centerline is an object determined by data and direction of both bounds, with an invalid id (search in
    boost r-trees; the geometric part is checked bounded)"""
    E.assumptions.add('calculateCenterline (boost::geometry r-tree search) returns a line determined by the bounds, with id 0')
    vs = []
    for x in a[1:3]:
        d = E.load(st, 'ptr', x)
        inv = E.truth(E.load(st, 'i8', x + 16))
        vs += [d.ref, ite(E.truth(inv), 1, 0)]
    r = z3.Function('centerline_of', I, I, I, I, I)(*[toz(v) for v in vs])
    E.fact(st, z3.And(r > 0, r < FRESH0))
    E.fact(st, toz(E.base(st, 'i64', r, 0)) == 0)
    o = Ptr(E.new_region(24, 'heap'), 0)
    cb = E.fresh('cb')
    E.fact(st, z3.And(cb > 0, cb < FRESH0))
    E.store(st, 'ptr', o, Ptr(r, 0))
    E.store(st, 'ptr', o + 8, Ptr(cb, 0))
    E.store(st, 'i8', o + 16, 0)
    E.store(st, 'ptr', a[0], o)
    E.store(st, 'ptr', a[0] + 8, Ptr(cb, 0))
    return ret(st)


# ------------------------------------------------------------------ boost::variant
@hook(r'^boost::variant<.*>::using_backup\(\) const$')
def h_variant_backup(E, st, f, a, ins):
    """the alternatives used in /repo are nothrow movable: a variant is never in its backup state"""
    w = E.load(st, 'i32', a[0])
    if not isinstance(w, int):
        st.assume(w >= 0)
    return ret(st, False)


# ------------------------------------------------------------------ libm and GeographicLib (C13)
def _libm(E, st, name, x):
    """libm functions are uninterpreted, with the mathematical facts that relate them (HALFPI is the double M_PI / 2)"""
    v = E.ufun(name, x)
    xz, vz = toz(toreal(x)), toz(toreal(v))
    fn = lambda n, t: z3.Function('fn_' + n, R, R)(t)
    hp = toz(Fraction(3.141592653589793) / 2)
    if name == 'tan':
        E.fact(st, z3.Implies(z3.And(xz > 0, xz < hp), z3.And(vz > 0, fn('atan', vz) == xz)))
    elif name == 'log':
        E.fact(st, z3.Implies(xz > 0, fn('exp', vz) == xz))
    elif name == 'exp':
        E.fact(st, z3.And(vz > 0, fn('log', vz) == xz))
    elif name == 'cos':
        E.fact(st, z3.Implies(z3.And(xz > -hp, xz < hp), vz > 0))
    elif name == 'atan':
        E.fact(st, fn('tan', vz) == xz)
    return v


@hook(r'^(std::)?(tan|atan|log|exp|cos)\((double)\)|^(tan|atan|log|exp|cos|sin|pow|atan2|asin|acos|hypot)$')
def h_libm(E, st, f, a, ins):
    n = re.sub(r'^std::|\(.*', '', f.dem)
    E.assumptions.add('libm functions behave as the real functions they are named after')
    if n in ('tan', 'atan', 'log', 'exp', 'cos'):
        return ret(st, _libm(E, st, n, a[0]))
    return ret(st, E.ufun(n, *a))


GEOERR = '_ZTIN13GeographicLib13GeographicErrE'
GEOTRUST = 'GeographicLib computes its projections as functions of its arguments; it reports errors by GeographicErr and then leaves the results alone'


def _geo(E, name, args, sort=None):
    zs = [toz(x) if not isinstance(x, bool) else z3.BoolVal(x) for x in args]
    return z3.Function('geo_' + name, *([z.sort() for z in zs] + [R if sort is None else sort]))(*zs)


def _geo_out(E, st, name, args, outs):
    """outs: [(pointer, type, label)]; two outcomes: an error, or results"""
    E.assumptions.add(GEOTRUST)
    bad = _geo(E, name + '_refuses', args, B)
    res = []
    for s, c in E.branch(st, bad):
        if c:
            res.append((s, 'exc', (GEOERR, Ptr(E.new_region(None, 'library exception'), 0))))
            continue
        _geo_store(E, s, name, args, outs)
        res.append((s, 'ret', None))
    return res


def _geo_store(E, st, name, args, outs):
    for p, ty, label in outs:
        if ty == 'bool':
            E.store(st, 'i8', p, ite(_geo(E, name + '_' + label, args, B), 1, 0))
        else:
            E.store(st, ty, p, _geo(E, name + '_' + label, args, R if ty == 'double' else I))


def _reals(*xs):
    return [toreal(x) for x in xs]


def _flag(x):
    return b_not(eq(x, 0)) if not isinstance(x, bool) and not (isinstance(x, z3.ExprRef) and z3.is_bool(x)) else x


@hook(r'^GeographicLib::UTMUPS::Forward\(double, double, int&, bool&, (double&, ){4}int, bool\)')
def h_utm_forward(E, st, f, a, ins):
    return _geo_out(E, st, 'utmforward', _reals(a[0], a[1]) + [a[8], _flag(a[9])],
                    [(a[2], 'i32', 'zone'), (a[3], 'bool', 'north'), (a[4], 'double', 'x'), (a[5], 'double', 'y')])


@hook(r'^GeographicLib::UTMUPS::Reverse\(int, bool, double, double, (double&, ){4}bool\)')
def h_utm_reverse(E, st, f, a, ins):
    return _geo_out(E, st, 'utmreverse', [a[0], _flag(a[1])] + _reals(a[2], a[3]) + [_flag(a[8])],
                    [(a[4], 'double', 'lat'), (a[5], 'double', 'lon')])


@hook(r'^GeographicLib::UTMUPS::Transfer\(')
def h_utm_transfer(E, st, f, a, ins):
    return _geo_out(E, st, 'utmtransfer', [a[0], _flag(a[1])] + _reals(a[2], a[3]) + [a[4], _flag(a[5])],
                    [(a[6], 'double', 'x'), (a[7], 'double', 'y'), (a[8], 'i32', 'zone')])


@hook(r'^GeographicLib::Geocentric::WGS84\(')
def h_wgs84(E, st, f, a, ins):
    E.assumptions.add(GEOTRUST)
    p = E.__dict__.get('wgs84')
    if p is None:
        p = E.__dict__['wgs84'] = Ptr(E.new_region(56, 'global'), 0)
    return ret(st, p)


@hook(r'^GeographicLib::Geocentric::Int(Forward|Reverse)\(')
def h_geocentric(E, st, f, a, ins):
    E.assumptions.add(GEOTRUST)
    n = 'geocentric' + ('forward' if 'Forward' in f.dem else 'reverse')
    _geo_store(E, st, n, _reals(*a[1:4]), [(a[4], 'double', '0'), (a[5], 'double', '1'), (a[6], 'double', '2')])
    return ret(st)


@hook(r'^GeographicLib::LocalCartesian::Reset\(')
def h_lc_reset(E, st, f, a, ins):
    E.assumptions.add(GEOTRUST)
    for i in range(3):
        E.store(st, 'double', a[0] + (56 + 8 * i), toreal(a[1 + i]))
    return ret(st)


@hook(r'^GeographicLib::LocalCartesian::Int(Forward|Reverse)\(')
def h_localcartesian(E, st, f, a, ins):
    E.assumptions.add(GEOTRUST)
    n = 'localcartesian' + ('forward' if 'Forward' in f.dem else 'reverse')
    org = [E.load(st, 'double', a[0] + (56 + 8 * i)) for i in range(3)]
    _geo_store(E, st, n, org + _reals(*a[1:4]), [(a[4], 'double', '0'), (a[5], 'double', '1'), (a[6], 'double', '2')])
    return ret(st)


def exception_virtual(E, st, p, args, ins):
    """the only virtual function that is called on exceptions of libraries is what()"""
    if args and isinstance(args[0], Ptr) and isinstance(args[0].ref, int) and E.regionname.get(args[0].ref) == 'library exception' \
            and ins['ty'] == 'ptr' and len(args) == 1:
        return ret(st, Ptr(E.new_region(None, 'text'), 0))
    return None


Engine.virtual_hook = staticmethod(exception_virtual)
