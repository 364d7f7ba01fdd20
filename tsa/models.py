"""Transfer functions for the standard library (and the events of the I/O traits).

A model is fn(interp, state, call) -> [(state, value)] or None (decline).  A call that panics records
an obligation and has no successor.
"""
import re
from .terms import *
from .mem import *
from . import terms as T
from . import mem as M

MODELS = {}
PATTERNS = []
ENTRIES = []
CMP = ('Less', 'Equal', 'Greater')


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def pattern(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


EFFECT_TRAITS = ('alloc::io::read::Read::', 'core::io::write::Write::', 'core::io::seek::Seek::', 'std::io::')


def is_effect(call):
    d = call.df
    if d.startswith('std::fs::File::open') or d.startswith('std::fs::File::create') or d == 'std::fs::OpenOptions::open':
        return True
    return False


def val(st, v):
    """the value a reference designates"""
    return st.simp(st.read(place_of(v)))


def derefs(ip, st, v, tyid):
    """peel references according to the type"""
    while ip.F.types[tyid]['k'] == 'ref' or ip.F.types[tyid]['k'] == 'adt' and ip.F.types[tyid]['path'] == 'alloc::boxed::Box':
        t = ip.F.types[tyid]
        inner = t['t'] if t['k'] == 'ref' else t['args'][0]
        v = st.simp(ip.typed(st.read(place_of(v)), inner))
        tyid = inner
    return v, tyid


def pcall(ip, call, name=None, args=None, deep_in=None):
    """a pure opaque application"""
    st = deep_in
    a = []
    for i, x in enumerate(args if args is not None else call.args):
        a.append(ip.deep(st, x, call.argtys[i] if args is None and i < len(call.argtys) else None) if st is not None else x)
    r = raw('call', name or call.name_key(), None, tuple(a))
    return ip.typed_tree(r, call.destty)


def opt(c, v):
    return ite(c, some(v), none()) if c.op == 'bool' else raw_ite_opt(c, v)


def raw_ite_opt(c, v):
    r = ite(c, some(v), none())
    set_adt(r, 'core::option::Option')
    return r


# ------------------------------------------------------------------ panics
@pattern(r'^core::panicking::|^core::option::(expect_failed|unwrap_failed)|^core::result::unwrap_failed|^core::slice::index::slice_|^core::str::slice_error_fail|^alloc::alloc::handle_alloc_error|^std::process::(abort|exit)|^core::cell::panic_|^std::panicking::')
def m_panic(ip, st, call):
    ip.oblige('panic', call.df, st, None)
    return []


@model('core::hint::unreachable_unchecked')
def m_unreach(ip, st, call):
    return []


@model('core::hint::must_use', 'core::convert::identity', 'core::hint::black_box', 'core::mem::ManuallyDrop::<T>::new')
def m_ident(ip, st, call):
    return [(st, call.args[0])]


@model('core::mem::drop', 'core::mem::forget')
def m_drop(ip, st, call):
    return [(st, unit())]


@model('core::mem::replace')
def m_replace(ip, st, call):
    st = st.copy()
    p = place_of(call.args[0])
    old = st.read(p)
    st.write(p, call.args[1])
    return [(st, old)]


@model('core::mem::take')
def m_take(ip, st, call):
    st = st.copy()
    p = place_of(call.args[0])
    old = st.read(p)
    t = ip.F.types[call.argtys[0]]['t']
    d = default_of(ip, st, t, call)
    if d is None:
        return None
    st.write(p, d)
    return [(st, old)]


@model('core::mem::swap')
def m_swap(ip, st, call):
    st = st.copy()
    p, q = place_of(call.args[0]), place_of(call.args[1])
    a, b = st.read(p), st.read(q)
    st.write(p, b)
    st.write(q, a)
    return [(st, unit())]


# ------------------------------------------------------------------ sizes
PRIM = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'u128': 16, 'i128': 16,
        'usize': 8, 'isize': 8, 'f32': 4, 'f64': 8, 'bool': 1, 'char': 4}


def size_of(ip, tyid):
    t = ip.F.types[tyid]
    if t['s'] in PRIM:
        return num(PRIM[t['s']])
    if t['k'] == 'array' and isinstance(t.get('len'), int):
        return mul(num(t['len']), size_of(ip, t['t']))
    if t['k'] == 'tuple' and not t['ts']:
        return num(0)
    return set_ty(raw('size_of', t['s']), 'usize')


@model('core::mem::size_of', 'core::intrinsics::size_of')
def m_size_of(ip, st, call):
    a = call.callee['args']
    return [(st, size_of(ip, a[0]))]


@model('core::mem::size_of_val', 'core::intrinsics::size_of_val')
def m_size_of_val(ip, st, call):
    t = ip.F.types[call.callee['args'][0]]
    if t['k'] == 'slice':
        return [(st, mul(length(val(st, call.args[0])), size_of(ip, t['t'])))]
    if t['k'] == 'str':
        return [(st, length(val(st, call.args[0])))]
    return [(st, size_of(ip, call.callee['args'][0]))]


# ------------------------------------------------------------------ defaults / clone / eq
def default_of(ip, st, tyid, call):
    t = ip.F.types[tyid]
    k = t['k']
    if k == 'int':
        return num(0)
    if k == 'bool':
        return boolean(False)
    if k == 'float':
        return raw('bits', '0', t['s'])
    if k == 'tuple':
        xs = [default_of(ip, st, x, call) for x in t['ts']]
        return None if any(x is None for x in xs) else tup(*xs)
    if k == 'adt':
        p = t['path']
        if p == 'alloc::vec::Vec':
            return seq()
        if p == 'alloc::string::String':
            return raw('str', '')
        if p in ('alloc::collections::btree::map::BTreeMap', 'std::collections::hash::map::HashMap', 'alloc::collections::btree::set::BTreeSet', 'std::collections::hash::set::HashSet'):
            return raw('mempty')
        if p == 'core::option::Option':
            return none()
        if p == 'core::marker::PhantomData':
            return adt(p, 0, ())
    return None


@model('core::default::Default::default')
def m_default(ip, st, call):
    i = call.callee.get('inst')
    if i is not None and ip.F.insts[i].get('body') and ip.F.insts[i]['local']:
        return None
    v = default_of(ip, st, call.destty, call)
    if v is None:
        return [(st, pcall(ip, call))]
    return [(st, v)]


@model('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'alloc::string::String::clone')
def m_clone(ip, st, call):
    i = call.callee.get('inst')
    if i is not None:
        inst = ip.F.insts[i]
        if inst['local'] and inst.get('body') and inst['path'] not in ip.F.derived_paths:
            return None
    v = val(st, call.args[0])
    return [(st, v)]


@model('core::clone::Clone::clone_from')
def m_clone_from(ip, st, call):
    st = st.copy()
    st.write(place_of(call.args[0]), val(st, call.args[1]))
    return [(st, unit())]


@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def m_eq(ip, st, call):
    i = call.callee.get('inst')
    ne = call.df.endswith('::ne')
    ta, tb = call.callee['args'][0], call.callee['args'][1] if len(call.callee['args']) > 1 else call.callee['args'][0]
    if i is not None:
        inst = ip.F.insts[i]
        if inst['local'] and inst.get('body') and inst['path'] not in ip.F.derived_paths:
            return None
    a, ta = derefs(ip, st, st.read(place_of(call.args[0])), ta)
    b, tb = derefs(ip, st, st.read(place_of(call.args[1])), tb)
    ip.typed(a, ta)
    ip.typed(b, tb)
    if ip.F.types[ta]['k'] == 'float':
        c = raw('fcmp', 'Eq', a, b)
    else:
        c = veq(deep_val(ip, st, a), deep_val(ip, st, b))
    return [(st, mk_not2(c) if ne else c)]


def deep_val(ip, st, v):
    if v.op == 'adt':
        return adt(v.a[0], v.a[1], tuple(ip.deep(st, x) for x in v.a[2]))
    if v.op == 'seq':
        return seq(*[ip.deep(st, x) for x in v.a[0]])
    return v


def cmp_ord(ip, st, a, b, ty):
    k = ip.F.types[ty]['k']
    if k == 'int':
        P = 'core::cmp::Ordering'
        r = ite(lt(a, b), adt(P, 0, ()), ite(eq(a, b), adt(P, 1, ()), adt(P, 2, ())))
        set_adt(r, P)
        return r
    return set_adt(raw('ord3', a, b), 'core::cmp::Ordering')


@model('core::cmp::Ord::cmp', 'core::cmp::PartialOrd::partial_cmp')
def m_cmp(ip, st, call):
    i = call.callee.get('inst')
    if i is not None:
        inst = ip.F.insts[i]
        if inst['local'] and inst.get('body') and inst['path'] not in ip.F.derived_paths:
            return None
    ta = call.callee['args'][0]
    a, t1 = derefs(ip, st, st.read(place_of(call.args[0])), ta)
    b, _ = derefs(ip, st, st.read(place_of(call.args[1])), ta)
    r = cmp_ord(ip, st, a, b, t1)
    return [(st, some(r) if call.df.endswith('partial_cmp') else r)]


@model('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def m_plt(ip, st, call):
    ta = call.callee['args'][0]
    a, t1 = derefs(ip, st, st.read(place_of(call.args[0])), ta)
    b, _ = derefs(ip, st, st.read(place_of(call.args[1])), ta)
    if ip.F.types[t1]['k'] != 'int':
        return [(st, raw('pord', call.name, a, b))]
    f = {'lt': lambda: lt(a, b), 'le': lambda: le(a, b), 'gt': lambda: lt(b, a), 'ge': lambda: le(b, a)}[call.name]
    return [(st, f())]


@model('core::cmp::Ord::min', 'core::cmp::min', 'core::intrinsics::integer_min', 'core::cmp::Ord::max', 'core::cmp::max', 'core::intrinsics::integer_max')
def m_minmax(ip, st, call):
    a, b = call.args
    if ip.F.types[call.destty]['k'] != 'int':
        return [(st, raw('call', call.df, None, (a, b)))]
    r = (mk_min if 'min' in call.name else mk_max)(a, b)
    return [(st, set_ty(r, ip.F.types[call.destty]['n']))]


@model('core::cmp::Ord::clamp')
def m_clamp(ip, st, call):
    a, lo, hi = call.args
    return [(st, mk_min(mk_max(a, lo), hi))]


# ------------------------------------------------------------------ numbers
INTRX = r'^core::num::<impl ([ui](?:8|16|32|64|128|size))>::(\w+)$'


@pattern(INTRX)
def m_int(ip, st, call):
    ty, op = re.match(INTRX, call.df).groups()
    a = call.args[0] if call.args else None
    b = call.args[1] if len(call.args) > 1 else None
    lo, hi = INT[ty]
    n = PRIM[ty]
    if op in ('from_le_bytes', 'from_be_bytes'):
        return [(st, unbytes(a, op[5:7], ty, n))]
    if op in ('to_le_bytes', 'to_be_bytes'):
        return [(st, tobytes(a, op[3:5], ty, n))]
    if op in ('from_ne_bytes', 'to_ne_bytes'):
        return [(st, unbytes(a, 'ne', ty, n) if op[0] == 'f' else tobytes(a, 'ne', ty, n))]
    for x in (a, b):
        if x is not None and x.op not in ('adt',) and op not in ('pow', 'checked_pow', 'shl', 'shr', 'checked_shl'):
            set_ty(x, ty)
    ar = {'add': add, 'sub': sub, 'mul': mul}
    m = re.match(r'^(checked|saturating|wrapping|overflowing|unchecked|strict)_(\w+)$', op)
    if m:
        kind, bop = m.groups()
        if bop in ar:
            v = ar[bop](a, b)
            inr = and_(le(v, num(hi)), le(num(lo), v))
            if kind == 'checked':
                return [(st, raw_ite_opt(inr, v) if inr.op != 'bool' else opt(inr, v))]
            if kind == 'saturating':
                if bop == 'sub' and lo == 0:
                    r = satsub(a, b)
                else:
                    r = v if ip.fits(st, v, ty) else mk_max(num(lo), mk_min(v, num(hi))) if lo else mk_min(v, num(hi))
                return [(st, set_ty(r, ty))]
            if kind == 'wrapping':
                return [(st, v if ip.fits(st, v, ty) else trunc(ty, v))]
            if kind == 'overflowing':
                return [(st, tup(v if ip.fits(st, v, ty) else trunc(ty, v), mk_not2(inr)))]
            return [(st, v)]
        if bop in ('div', 'div_euclid', 'rem', 'rem_euclid') and kind == 'checked' and lo == 0:
            v = (div if bop.startswith('div') else rem)(a, b)
            if v.op not in ('int', 'poly'):
                set_ty(v, ty)
            c = mk_not2(eq0(b))
            return [(st, opt(c, v))]
    if op in ('div_euclid', 'rem_euclid'):
        z = mk_not2(eq0(b))
        okk = ip.prove(st, z)
        ip.oblige('div', 'divisor %s non-zero' % show(b), st, okk, z)
        if okk is not True:
            st = st.copy()
            if not st.assume(z, True):
                return []
        v = raw(op, a, b) if lo else (div if op[0] == 'd' else rem)(a, b)
        set_ty(v, ty)
        return [(st, v)]
    if op == 'div_ceil' and lo == 0:
        z = mk_not2(eq0(b))
        ip.oblige('div', 'divisor %s non-zero' % show(b), st, ip.prove(st, z), z)
        st = st.copy()
        if not st.assume(z, True):
            return []
        v = div(sub(add(a, b), num(1)), b)
        if v.op not in ('int', 'poly'):
            set_ty(v, ty)
        return [(st, v)]
    if op == 'abs_diff':
        return [(st, set_ty(mk_max(sub(a, b), sub(b, a)), ty))]
    if op == 'pow' and is_int(b) and 0 <= b.a[0] <= 4:
        v = num(1)
        for _ in range(b.a[0]):
            v = mul(v, a)
        if not ip.fits(st, v, ty):
            ip.oblige('Overflow(Mul)', show(v), st, None)
        return [(st, v)]
    if op == 'is_power_of_two' or op == 'count_ones' or op == 'leading_zeros' or op == 'trailing_zeros':
        return [(st, pcall(ip, call))]
    if op in ('min_value', 'max_value'):
        return [(st, num(lo if op[:3] == 'min' else hi))]
    if op == 'is_multiple_of':
        return [(st, eq0(rem(a, b)))]
    return None


def unbytes(a, e, ty, n):
    if a.op == 'bytes' and a.a[0] == e and a.a[1] == ty:
        return a.a[2]
    if n == 1:
        e = 'x'
    if e in ('le', 'be') and ty[0] in 'iu' and a.op == 'seq' and len(a.a[0]) == n and all(x.op == 'int' for x in a.a[0]):
        k = int.from_bytes(bytes(x.a[0] & 255 for x in a.a[0]), 'little' if e == 'le' else 'big', signed=ty[0] == 'i')
        return num(k)
    r = raw('unbytes', e, ty, a)
    return set_ty(r, ty)


def tobytes(x, e, ty, n):
    if n == 1:
        e = 'x'
    if x.op == 'unbytes' and x.a[0] == e and x.a[1] == ty:
        return x.a[2]
    r = raw('bytes', e, ty, x)
    LEN[r] = n
    return r


BYTELEN = {'8': 1, '16': 2, '32': 4, '64': 8, '128': 16}
SIZES = {'usize': 8, 'isize': 8}


def nbytes(ty):
    return SIZES.get(ty) or BYTELEN[ty[1:]]


REBUILD['bytes'] = lambda e, ty, x: tobytes(x, e, ty, nbytes(ty))
REBUILD['unbytes'] = lambda e, ty, a: unbytes(a, e, ty, nbytes(ty))


@pattern(r'^core::f(32|64)::<impl f\d+>::(to|from)_(le|be)_bytes$')
def m_fbytes(ip, st, call):
    m = re.match(r'^core::f(32|64)::<impl f\d+>::(to|from)_(le|be)_bytes$', call.df)
    ty, n = 'f' + m.group(1), int(m.group(1)) // 8
    a = call.args[0]
    if m.group(2) == 'to':
        return [(st, tobytes(a, m.group(3), ty, n))]
    return [(st, unbytes(a, m.group(3), ty, n))]


@pattern(r'^core::f(32|64)::<impl f\d+>::(to|from)_bits$')
def m_fbits(ip, st, call):
    return [(st, pcall(ip, call))]


# ------------------------------------------------------------------ Vec / slices / arrays
VEC = 'alloc::vec::Vec::<T'


def upd_place(st, ref_, f):
    st = st.copy()
    p = place_of(ref_)
    st.write(p, f(st.simp(st.read(p))))
    return st


def alloc_obl(ip, st, n, call, what):
    ip.oblige('alloc', '%s of %s elements' % (what, show(n)), st, True if upper(n) is not None and upper(n) <= 4096 else None, n)


@model('alloc::vec::Vec::<T>::new', 'alloc::string::String::new')
def m_vec_new(ip, st, call):
    return [(st, raw('str', '') if 'String' in call.df else seq())]


@model('alloc::vec::Vec::<T>::with_capacity', 'alloc::string::String::with_capacity')
def m_vec_cap(ip, st, call):
    alloc_obl(ip, st, call.args[0], call, 'with_capacity')
    return [(st, raw('str', '') if 'String' in call.df else seq())]


@model('alloc::vec::Vec::<T, A>::reserve', 'alloc::vec::Vec::<T, A>::reserve_exact', 'alloc::string::String::reserve')
def m_vec_reserve(ip, st, call):
    alloc_obl(ip, st, call.args[1], call, 'reserve')
    return [(st, unit())]


@model('alloc::vec::Vec::<T, A>::try_reserve', 'alloc::vec::Vec::<T, A>::try_reserve_exact')
def m_vec_try_reserve(ip, st, call):
    c = raw('call', 'alloc_ok', None, (call.args[1], call.site and raw('at', call.site)))
    e = raw('call', 'alloc_err', None, ())
    r = ite(c, ok(unit()), err(e))
    set_adt(r, 'core::result::Result')
    return [(st, r)]


@model('alloc::vec::Vec::<T, A>::push')
def m_vec_push(ip, st, call):
    return [(upd_place(st, call.args[0], lambda v: cat(v, seq(call.args[1]))), unit())]


@model('alloc::string::String::push_str')
def m_str_push(ip, st, call):
    s = val(st, call.args[1])
    return [(upd_place(st, call.args[0], lambda v: cat(v, s)), unit())]


@model('alloc::string::String::push')
def m_str_pushc(ip, st, call):
    c = call.args[1]
    s = raw('str', c.a[0]) if c.op == 'char' else raw('chr', c)
    return [(upd_place(st, call.args[0], lambda v: cat(v, s)), unit())]


@model('alloc::vec::Vec::<T, A>::extend_from_slice', 'alloc::vec::Vec::<T, A>::append')
def m_vec_ext(ip, st, call):
    s = val(st, call.args[1])
    st = upd_place(st, call.args[0], lambda v: cat(v, s))
    if call.name == 'append':
        st.write(place_of(call.args[1]), seq())
    return [(st, unit())]


@model('alloc::vec::Vec::<T, A>::clear', 'alloc::string::String::clear')
def m_vec_clear(ip, st, call):
    return [(upd_place(st, call.args[0], lambda v: seq()), unit())]


@model('alloc::vec::Vec::<T, A>::truncate')
def m_vec_trunc(ip, st, call):
    n = call.args[1]
    return [(upd_place(st, call.args[0], lambda v: slice_(v, num(0), mk_min(length(v), n))), unit())]


@model('alloc::vec::Vec::<T, A>::pop')
def m_vec_pop(ip, st, call):
    p = place_of(call.args[0])
    v = val(st, call.args[0])
    n = length(v)
    out = []
    for s, d in st.branch(eq0(n)):
        if d:
            out.append((s, none()))
        else:
            s = s.copy()
            s.write(p, slice_(v, num(0), sub(n, num(1))))
            out.append((s, some(index(v, sub(n, num(1))))))
    return out


@model('alloc::vec::Vec::<T, A>::set_len')
def m_set_len(ip, st, call):
    n = call.args[1]
    p = place_of(call.args[0])
    old = val(st, call.args[0])
    ip.oblige('set_len', 'set_len(%s)' % show(n), st, None, n)
    st = st.copy()
    if is_int(n, 0):
        st.write(p, seq())
    elif length(old) is n:
        pass
    else:
        u = raw('uninit', call.site, n)
        st.write(p, u if is_int(length(old), 0) else raw('s', cat(old, u), num(0), n))
    return [(st, unit())]


@model('alloc::vec::from_elem')
def m_from_elem(ip, st, call):
    alloc_obl(ip, st, call.args[1], call, 'vec![_; n]')
    n = call.args[1]
    if is_int(n) and 0 <= n.a[0] <= 8:
        return [(st, seq(*([call.args[0]] * n.a[0])))]
    return [(st, raw('rep', call.args[0], n))]


@model('alloc::vec::Vec::<T, A>::resize')
def m_resize(ip, st, call):
    n = call.args[1]
    alloc_obl(ip, st, n, call, 'resize')

    def f(v):
        l = length(v)
        if is_int(l, 0):
            return raw('rep', call.args[2], n)
        return ite(le(l, n), cat(v, raw('rep', call.args[2], satsub(n, l))), slice_(v, num(0), n))
    return [(upd_place(st, call.args[0], f), unit())]


@model('alloc::vec::Vec::<T, A>::into_boxed_slice', 'alloc::boxed::Box::<T>::new', 'alloc::slice::<impl [T]>::into_vec')
def m_box(ip, st, call):
    if call.df.endswith('::new'):
        st = st.copy()
        r = ('T', call.site, 'box')
        st.mem[r] = call.args[0]
        return [(st, mk_ref((r, ())))]
    return [(st, call.args[0])]


@model('alloc::boxed::Box::<T>::new_uninit')
def m_box_uninit(ip, st, call):
    st = st.copy()
    r = ('T', call.site, 'box')
    st.mem[r] = raw('uninit', call.site, num(0))
    return [(st, mk_ref((r, ())))]


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def m_box_vec(ip, st, call):
    v = val(st, call.args[0])
    while v.op not in M.SEQ:
        if v.op == 'upd':
            v = v.a[2]
        elif v.op == 'adt' and len(v.a[2]) == 1:
            v = v.a[2][0]
        else:
            break
    return [(st, v)]


@model('alloc::slice::<impl [T]>::to_vec', 'alloc::string::ToString::to_string', 'alloc::str::<impl str>::to_owned',
       'alloc::string::String::into_bytes', 'alloc::str::<impl str>::into_string', 'alloc::string::String::into_boxed_str')
def m_to_vec(ip, st, call):
    if call.name == 'to_string':
        t = ip.F.types[call.callee['args'][0]]
        while t['k'] == 'ref':
            t = ip.F.types[t['t']]
        if not (t['k'] == 'str' or t['s'] in ('alloc::string::String', 'std::string::String')):
            return [(st, pcall(ip, call, 'to_string:' + t['s'], deep_in=st))]
    return [(st, val(st, call.args[0]) if ip.F.types[call.argtys[0]]['k'] == 'ref' else call.args[0])]


@model('alloc::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'alloc::string::String::len',
       'alloc::collections::btree::map::BTreeMap::<K, V, A>::len', 'alloc::collections::btree::set::BTreeSet::<T, A>::len',
       'std::collections::hash::map::HashMap::<K, V, S, A>::len')
def m_len(ip, st, call):
    return [(st, length(val(st, call.args[0])))]


@model('alloc::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty', 'alloc::string::String::is_empty',
       'alloc::collections::btree::map::BTreeMap::<K, V, A>::is_empty', 'alloc::collections::btree::set::BTreeSet::<T, A>::is_empty')
def m_is_empty(ip, st, call):
    return [(st, eq0(length(val(st, call.args[0]))))]


@model('alloc::vec::Vec::<T, A>::capacity')
def m_capacity(ip, st, call):
    return [(st, set_ty(raw('capacity', val(st, call.args[0])), 'usize'))]


@model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice',
       'alloc::string::String::as_str', 'alloc::string::String::as_bytes', 'core::str::<impl str>::as_bytes', 'core::borrow::Borrow::borrow',
       'core::borrow::BorrowMut::borrow_mut', 'core::slice::<impl [T]>::as_ref', 'alloc::string::String::as_mut_str', 'core::array::<impl [T; N]>::as_slice', 'core::array::<impl [T; N]>::as_mut_slice')
def m_deref(ip, st, call):
    i = call.callee.get('inst')
    if i is not None and ip.F.insts[i]['local'] and ip.F.insts[i].get('body'):
        return None
    if call.name in ('deref', 'deref_mut') and ip.F.types[call.callee['args'][0]]['k'] == 'adt' and ip.F.types[call.callee['args'][0]]['path'] == 'alloc::boxed::Box':
        return [(st, st.read(place_of(call.args[0])))]
    return [(st, call.args[0])]


@model('core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut')
def m_asref(ip, st, call):
    i = call.callee.get('inst')
    if i is not None and ip.F.insts[i]['local'] and ip.F.insts[i].get('body'):
        return None
    t = ip.F.types[call.callee['args'][0]]
    if t['k'] == 'param':
        return [(st, mk_ref((('C', ip.typed(raw('call', call.name_key(), None, (ip.deep(st, call.args[0], call.argtys[0]),)), ip.F.types[call.destty]['t'])), ())))]
    v = call.args[0]
    tid = call.callee['args'][0]
    while ip.F.types[tid]['k'] == 'ref':
        v = st.read(place_of(v))
        tid = ip.F.types[tid]['t']
    return [(st, v)]


def range_bounds(ip, st, rng, tyid, n):
    """(lo, hi) of a range value used to index a sequence of length n"""
    p = ip.F.types[tyid].get('path', '')
    if p.endswith('::Range'):
        return project(rng, ('f', 0)), project(rng, ('f', 1))
    if p.endswith('::RangeFrom'):
        return project(rng, ('f', 0)), n
    if p.endswith('::RangeTo'):
        return num(0), project(rng, ('f', 0))
    if p.endswith('::RangeFull'):
        return num(0), n
    if p.endswith('::RangeInclusive'):
        return project(rng, ('f', 0)), add(project(rng, ('f', 1)), num(1))
    if p.endswith('::RangeToInclusive'):
        return num(0), add(project(rng, ('f', 0)), num(1))
    return None


@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def m_index(ip, st, call):
    i = call.callee.get('inst')
    if i is not None and ip.F.insts[i]['local'] and ip.F.insts[i].get('body'):
        return None
    ct, it = call.callee['args'][0], call.callee['args'][1]
    cpath = ip.F.types[ct].get('path', '')
    if 'Map' in cpath:
        kt = ip.F.types[it]
        key = val(st, call.args[1]) if kt['k'] == 'ref' else call.args[1]
        p = place_of(call.args[0])
        m = val(st, call.args[0])
        c = map_has(m, key)
        okk = ip.prove(st, c)
        ip.oblige('index', 'key %s present' % show(key), st, okk, c)
        st = st.copy()
        if okk is not True and not st.assume(c, True):
            return []
        return [(st, mk_ref((p[0], add_proj(p[1], ('k', key)))))]
    v = val(st, call.args[0])
    n = length(v)
    p = place_of(call.args[0])
    isstr = ip.F.types[ct]['k'] == 'str' or cpath.endswith('::String')
    if ip.F.types[it]['k'] == 'int':
        idx = call.args[1]
        set_ty(idx, 'usize')
        c = lt(idx, n)
        okk = ip.prove(st, c)
        ip.oblige('index', '%s < %s' % (show(idx), show(n)), st, okk, c)
        if okk is False:
            return []
        st = st.copy()
        if okk is not True and not st.assume(c, True):
            return []
        return [(st, mk_ref((p[0], add_proj(p[1], ('i', st.simp(idx))))))]
    b = range_bounds(ip, st, call.args[1], it, n)
    if b is None:
        return None
    lo, hi = b
    c1, c2 = le(lo, hi), le(hi, n)
    st = st.copy()
    for c in (c1, c2):
        okk = ip.prove(st, c)
        ip.oblige('slice', show(c), st, okk, c)
        if okk is False:
            return []
        if okk is not True and not st.assume(c, True):
            return []
    if isstr:
        for x in (lo, hi):
            if not (is_int(x, 0) or x is n):
                ip.oblige('charboundary', '%s of %s' % (show(x), show(v)), st, None, (v, x))
    return [(st, mk_ref((p[0], add_proj(p[1], ('s', lo, None if hi is n else hi)))))]


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut', 'core::str::<impl str>::get')
def m_get(ip, st, call):
    v = val(st, call.args[0])
    n = length(v)
    p = place_of(call.args[0])
    it = call.argtys[1]
    if ip.F.types[it]['k'] == 'int':
        idx = call.args[1]
        set_ty(idx, 'usize')
        c = lt(idx, n)
        r = mk_ref((p[0], add_proj(p[1], ('i', idx))))
    else:
        b = range_bounds(ip, st, call.args[1], it, n)
        if b is None:
            return None
        lo, hi = b
        c = and_(le(lo, hi), le(hi, n))
        r = mk_ref((p[0], add_proj(p[1], ('s', lo, None if hi is n else hi))))
    return [(st, opt(c, r))]


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut')
def m_first(ip, st, call):
    v = val(st, call.args[0])
    n = length(v)
    p = place_of(call.args[0])
    i = num(0) if 'first' in call.name else sub(n, num(1))
    return [(st, opt(mk_not2(eq0(n)), mk_ref((p[0], add_proj(p[1], ('i', i))))))]


@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut', 'core::str::<impl str>::split_at')
def m_split_at(ip, st, call):
    v = val(st, call.args[0])
    n = length(v)
    k = call.args[1]
    c = le(k, n)
    okk = ip.prove(st, c)
    ip.oblige('slice', show(c), st, okk, c)
    st = st.copy()
    if okk is False or okk is None and not st.assume(c, True):
        return []
    p = place_of(call.args[0])
    return [(st, tup(mk_ref((p[0], add_proj(p[1], ('s', num(0), k)))), mk_ref((p[0], add_proj(p[1], ('s', k, None))))))]


@model('core::slice::<impl [T]>::contains')
def m_contains(ip, st, call):
    v = val(st, call.args[0])
    x = val(st, call.args[1])
    bv = set_ty(raw('K', call.site), 'usize')
    c = veq(index(v, bv), x)
    b, cb = bind(mk_not2(c), bv)
    return [(st, mk_not2(all_(length(v), b, cb)))]


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def m_copyfrom(ip, st, call):
    s = val(st, call.args[1])
    d = val(st, call.args[0])
    c = eq(length(s), length(d))
    okk = ip.prove(st, c)
    ip.oblige('copy_from_slice', show(c), st, okk, c)
    st = st.copy()
    if okk is False or okk is None and not st.assume(c, True):
        return []
    st.write(place_of(call.args[0]), s)
    return [(st, unit())]


@model('core::slice::<impl [T]>::fill')
def m_fill(ip, st, call):
    return [(upd_place(st, call.args[0], lambda v: raw('rep', call.args[1], length(v))), unit())]


@model('core::slice::<impl [T]>::swap')
def m_sswap(ip, st, call):
    p = place_of(call.args[0])
    v = val(st, call.args[0])
    a, b = call.args[1:]
    for i in (a, b):
        c = lt(i, length(v))
        ip.oblige('index', show(c), st, ip.prove(st, c), c)
    st = st.copy()
    x, y = index(v, a), index(v, b)
    st.write((p[0], add_proj(p[1], ('i', a))), y)
    st.write((p[0], add_proj(p[1], ('i', b))), x)
    return [(st, unit())]


@pattern(r'^(core|alloc)::slice::<impl \[T\]>::(sort\w*|reverse|rotate_\w+)$')
def m_sort(ip, st, call):
    extra = tuple(x if x.op != 'ref' else val(st, x) for x in call.args[1:])

    def f(v):
        r = raw('sorted', call.name, v, extra)
        return r
    r = sorted_seq(ip, st, call, val(st, call.args[0]))
    if r is not None:
        s, v = r
        s = s.copy()
        s.write(place_of(call.args[0]), v)
        return [(s, unit())]
    st = upd_place(st, call.args[0], f)
    return [(st, unit())]


def sorted_seq(ip, st, call, v):
    """the sorted elements when there are few and every comparison is decided"""
    if v.op != 'seq' or len(v.a[0]) > 8:
        return None
    xs = list(v.a[0])
    if call.name == 'reverse':
        return st, seq(*reversed(xs))
    from . import iters as IT

    def arg(s, k):
        r = ('T', call.site, 'k%d' % k)
        s.mem[r] = xs[k]
        return mk_ref((r, ()))
    s = st.copy()
    order = []
    stable = 'unstable' not in call.name
    if 'by_key' in call.name or 'cached' in call.name:
        keys = []
        for k in range(len(xs)):
            r = IT.callf(ip, s, call.args[1], [arg(s, k)], CP.get(call.site, ('key', k)))
            if len(r) != 1:
                return None
            s, kv = r[0][0].copy(), r[0][1]
            keys.append(s.simp(kv))

        def less(a, b):
            return s.decide(lt(keys[a], keys[b])) if int_key(keys[a]) and int_key(keys[b]) else None
    elif 'by' in call.name:
        def less(a, b):
            r = IT.callf(ip, s, call.args[1], [arg(s, a), arg(s, b)], CP.get(call.site, ('cmp', a, b)))
            if len(r) != 1:
                return None
            o = r[0][0].simp(r[0][1])
            return s.decide(isvar(o, 0))
    elif call.name in ('sort', 'sort_unstable'):
        def less(a, b):
            return s.decide(lt(xs[a], xs[b])) if int_key(xs[a]) and int_key(xs[b]) else None
    else:
        return None
    for k in range(len(xs)):
        j = len(order)
        while j > 0:
            d = less(k, order[j - 1])
            if d is None:
                return None
            if not d:
                if not stable and less(order[j - 1], k) is not True:
                    return None
                break
            j -= 1
        order.insert(j, k)
    for k in range(len(xs)):
        s.mem.pop(('T', call.site, 'k%d' % k), None)
    return s, seq(*[xs[k] for k in order])


def int_key(t):
    return t.op in ('int', 'poly') or ty_of(t) is not None


# ------------------------------------------------------------------ maps
MAPP = r'^(?:alloc::collections::btree::map::BTreeMap|std::collections::hash::map::HashMap)::<.*>::(\w+)$'
SETP = r'^(?:alloc::collections::btree::set::BTreeSet|std::collections::hash::set::HashSet)::<.*>::(\w+)$'


@pattern(MAPP)
def m_map(ip, st, call):
    op = call.name
    if op == 'new':
        return [(st, raw('mempty'))]
    if not call.args:
        return None
    p = place_of(call.args[0])
    m = val(st, call.args[0])
    if op in ('get', 'get_mut', 'contains_key'):
        key, _ = derefs(ip, st, call.args[1], call.argtys[1])
        c = map_has(m, key)
        if op == 'contains_key':
            return [(st, c)]
        return [(st, opt(c, mk_ref((p[0], add_proj(p[1], ('k', key))))))]
    if op == 'insert':
        key = ip.deep(st, call.args[1])
        had = map_has(m, key)
        old = map_get(m, key)
        st = st.copy()
        st.write(p, raw('minsert', m, key, call.args[2]))
        r = ite(had, some(old), none())
        set_adt(r, 'core::option::Option')
        return [(st, r)]
    if op in ('iter', 'iter_mut', 'range', 'range_mut', 'keys', 'values', 'values_mut', 'into_keys', 'into_values'):
        if op.startswith('into'):
            src = raw('snap', m)
        extra = tuple(ip.deep(st, a) for a in call.args[1:])
        kind = {'iter': 'kv', 'iter_mut': 'kv', 'range': 'kv', 'range_mut': 'kv', 'keys': 'k', 'into_keys': 'k', 'values': 'v', 'values_mut': 'v', 'into_values': 'v'}[op]
        if m.op == 'omap' and not extra:
            return [(st, ENTRIES[0](call.args[0], m, kind))]
        return [(st, adt('#mapit', 0, (call.args[0], raw('sub', m, extra) if extra else m, num(0), raw('kind', kind))))]
    if op == 'clear':
        st = st.copy()
        st.write(p, raw('mempty'))
        return [(st, unit())]
    if op in ('remove', 'remove_entry', 'retain', 'entry', 'append', 'extend', 'pop_first', 'pop_last', 'split_off', 'or_insert'):
        return None
    if op in ('len', 'is_empty'):
        n = length(m)
        return [(st, n if op == 'len' else eq0(n))]
    return None


REBUILD['minsert'] = lambda m, k, v: raw('minsert', m, k, v)


@pattern(SETP)
def m_set(ip, st, call):
    op = call.name
    if op == 'new':
        return [(st, raw('mempty'))]
    if not call.args:
        return None
    p = place_of(call.args[0])
    m = val(st, call.args[0])
    if op == 'insert':
        key = ip.deep(st, call.args[1])
        had = map_has(m, key)
        st = st.copy()
        st.write(p, ite(had, m, raw('minsert', m, key, unit())))
        return [(st, mk_not2(had))]
    if op == 'contains':
        key, _ = derefs(ip, st, call.args[1], call.argtys[1])
        return [(st, map_has(m, key))]
    if op == 'iter':
        if m.op == 'omap':
            return [(st, ENTRIES[0](call.args[0], m, 'k'))]
        return [(st, adt('#mapit', 0, (call.args[0], m, num(0), raw('kind', 'k'))))]
    return None


# ------------------------------------------------------------------ strings
@model('alloc::string::String::from_utf8')
def m_from_utf8(ip, st, call):
    v = call.args[0]
    c = raw('utf8', v)
    r = ite(c, ok(v), err(raw('call', 'FromUtf8Error', None, (v,))))
    set_adt(r, 'core::result::Result')
    return [(st, r)]


@model('core::str::converts::from_utf8')
def m_sfrom_utf8(ip, st, call):
    v = call.args[0]
    c = raw('utf8', val(st, v))
    r = ite(c, ok(v), err(raw('call', 'Utf8Error', None, (val(st, v),))))
    set_adt(r, 'core::result::Result')
    return [(st, r)]


@pattern(r'^(?:core|alloc)::str::<impl str>::(starts_with|ends_with|contains|replace|find|rfind|trim|trim_matches|strip_prefix|strip_suffix|split|rsplit|splitn|split_once|rsplit_once|chars|char_indices|bytes|lines|to_lowercase|to_uppercase|trim_start_matches|trim_end_matches|replacen|matches|match_indices|is_char_boundary|eq_ignore_ascii_case|repeat|parse|split_inclusive|split_terminator)$')
def m_str(ip, st, call):
    op = call.name
    s = val(st, call.args[0])
    rest = []
    for a, ty in zip(call.args[1:], call.argtys[1:]):
        if ip.F.types[ty]['k'] == 'ref':
            a = derefs(ip, st, a, ty)[0]
        if a.op == 'char':
            a = raw('str', a.a[0])
        rest.append(a)
    rest = tuple(rest)
    if op in ('starts_with', 'ends_with', 'contains', 'is_char_boundary', 'eq_ignore_ascii_case'):
        if s.op == 'str' and rest and rest[0].op == 'str' and op != 'is_char_boundary':
            x, y = s.a[0], rest[0].a[0]
            return [(st, boolean({'starts_with': x.startswith(y), 'ends_with': x.endswith(y), 'contains': y in x}.get(op, False)))]
        return [(st, raw('strp', op, s, rest))]
    if op in ('replace', 'to_lowercase', 'to_uppercase', 'replacen', 'repeat'):
        return [(st, raw('strf', op, s, rest))]
    if op in ('strip_prefix', 'strip_suffix') and rest[0].op == 'str':
        c = raw('strp', 'starts_with' if 'prefix' in op else 'ends_with', s, rest)
        if s.op == 'str':
            c = boolean(s.a[0].startswith(rest[0].a[0]) if 'prefix' in op else s.a[0].endswith(rest[0].a[0]))
        k = length(rest[0])
        n = length(s)
        p = place_of(call.args[0])
        pr = ('s', k, None) if 'prefix' in op else ('s', num(0), sub(n, k))
        return [(st, opt(c, mk_ref((p[0], add_proj(p[1], pr)))))]
    if op in ('find', 'rfind'):
        has = raw('strp', 'contains', s, rest)
        pos = set_ty(raw('strpos', op, s, rest), 'usize')
        return [(st, opt(has, pos))]
    if op in ('split', 'rsplit', 'splitn', 'chars', 'char_indices', 'bytes', 'lines', 'matches', 'match_indices', 'split_inclusive', 'split_terminator'):
        src = raw('strit', op, s, rest)
        return [(st, adt('#op', 0, (src, num(0))))]
    if op in ('trim', 'trim_matches', 'trim_start_matches', 'trim_end_matches'):
        return [(st, mk_ref((('C', raw('strf', op, s, rest)), ())))]
    return [(st, ip.typed_tree(raw('strf', op, s, rest), call.destty))]


@model('alloc::fmt::format')
def m_format(ip, st, call):
    return [(st, fmt_text(call.args[0]))]


def fmt_text(a):
    return raw('fmttext', a)


@pattern(r'^core::fmt::rt::Argument::<.*>::(new_\w+|from_usize)$')
def m_fmtarg(ip, st, call):
    return [(st, raw('fmtarg', call.name, ip.deep(st, call.args[0], call.argtys[0])))]


@pattern(r'^core::fmt::Arguments::<.*>::(new\w*|from_str\w*)$')
def m_fmtargs(ip, st, call):
    return [(st, raw('fmtargs', tuple(ip.deep(st, a, t) for a, t in zip(call.args, call.argtys))))]


@pattern(r'^core::fmt::(Formatter|builders)')
def m_formatter(ip, st, call):
    return [(st, pcall(ip, call, args=()))]


@model('core::convert::From::from', 'core::convert::Into::into')
def m_from(ip, st, call):
    i = call.callee.get('inst')
    if i is not None and ip.F.insts[i].get('body'):
        return None
    to = ip.F.types[call.destty]
    frm = ip.F.types[call.argtys[0]]
    if to['s'] == frm['s']:
        return [(st, call.args[0])]
    if to['k'] == 'int' and frm['k'] == 'int':
        set_ty(call.args[0], frm['n'])
        return [(st, call.args[0])]
    if to['k'] == 'int' and frm['k'] == 'bool':
        return [(st, b2i(call.args[0]))]
    if to.get('path') in ('alloc::string::String', 'alloc::vec::Vec') and frm['k'] in ('ref',):
        return [(st, derefs(ip, st, call.args[0], call.argtys[0])[0])]
    if to.get('path') in ('alloc::string::String', 'alloc::vec::Vec') and (frm.get('path') == to.get('path') or frm['k'] == 'array' or frm.get('path') == 'alloc::string::String'):
        return [(st, call.args[0])]
    return [(st, pcall(ip, call, deep_in=st))]


@model('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def m_tryfrom(ip, st, call):
    i = call.callee.get('inst')
    if i is not None and ip.F.insts[i]['local'] and ip.F.insts[i].get('body'):
        return None
    to = ip.F.types[call.destty]
    okt = ip.F.types[to['args'][0]]
    frm = ip.F.types[call.argtys[0]]
    if okt['k'] == 'int' and frm['k'] == 'int':
        a = set_ty(call.args[0], frm['n'])
        lo, hi = INT[okt['n']]
        c = and_(le(a, num(hi)), le(num(lo), a))
        r = ite(c, ok(a), err(raw('call', 'TryFromIntError', None, ())))
        set_adt(r, 'core::result::Result')
        return [(st, r)]
    if okt['k'] in ('array', 'ref') and (frm['k'] == 'ref' or frm.get('path') == 'alloc::vec::Vec'):
        v = val(st, call.args[0]) if frm['k'] == 'ref' else call.args[0]
        at = okt if okt['k'] == 'array' else ip.F.types[okt['t']]
        if at['k'] == 'array' and isinstance(at.get('len'), int):
            c = eq(length(v), num(at['len']))
            r = ite(c, ok(v if okt['k'] == 'array' else call.args[0]), err(raw('call', 'TryFromSliceError', None, ())))
            set_adt(r, 'core::result::Result')
            return [(st, r)]
    if i is not None and ip.F.insts[i].get('body'):
        return None
    return [(st, pcall(ip, call, deep_in=st))]


# ------------------------------------------------------------------ io plumbing
@pattern(r'::io::buffered::(bufreader::BufReader|bufwriter::BufWriter)::<\w+>::(new|with_capacity)$')
def m_bufnew(ip, st, call):
    return [(st, ip.typed_tree(raw('call', call.df, None, (call.args[-1],)), call.destty))]


@pattern(r'::io::error::Error::(kind|raw_os_error|new|other)$|::io::error::.*from$')
def m_ioerr(ip, st, call):
    return [(st, pcall(ip, call, deep_in=st))]


@model('alloc::io::read::Read::read_exact', 'std::io::Read::read_exact')
def m_read_exact(ip, st, call):
    p = place_of(call.args[1])
    n = length(val(st, call.args[1]))
    name = call.name_key()
    res = ip.event(st, call, name, [call.args[0], n], (0,))
    out = []
    for s, v in res:
        b = raw('rdbytes', call.site, n, ip.kidx())
        s.write(p, b)
        out.append((s, v))
    return out


@model('alloc::io::read::Read::take', 'std::io::Read::take')
def m_io_take(ip, st, call):
    return [(st, adt('#iotake', 0, (call.args[0], call.args[1])))]


@model('alloc::io::read::Read::read_to_end', 'std::io::Read::read_to_end')
def m_read_to_end(ip, st, call):
    """a limited reader: the read of exactly the limit, or of fewer bytes at the end of the stream, or an error"""
    t = val(st, call.args[0])
    if t.op != 'adt' or t.a[0] != '#iotake':
        return None
    r, n = t.a[2]
    p = place_of(call.args[1])
    old = val(st, call.args[1])
    m = re.search(r'Take<(.*)>>$', call.name_key())
    res = ip.event(st, call, 'alloc::io::read::Read::read_exact<%s>' % (m.group(1) if m else '_'), [r, n])
    out = []
    for s, v in res:
        if r.op == 'ref':
            hv = raw('hv', 'read_to_end', call.site, ip.kidx(), 0)
            s.write(place_of(r), hv)
        for s2, good in s.branch(isvar(v, 0)):
            s2 = s2.copy()
            if good:
                b = raw('rdbytes', call.site, n, ip.kidx())
                s2.write(p, b if is_int(length(old), 0) else cat(old, b))
                out.append((s2, ok(n)))
                continue
            s3 = s2.copy()
            out.append((s2, err(project(v, ('v', 1, 0)))))
            k = ip.typed(raw('hv', 'short', call.site, ip.kidx(), 0), ip.F.types[call.destty]['args'][0])
            if s3.assume(le0(sub(add(k, num(1)), n)), True):
                b = raw('rdbytes', call.site, k, ip.kidx())
                s3.write(p, b if is_int(length(old), 0) else cat(old, b))
                out.append((s3, ok(k)))
    return out


# ------------------------------------------------------------------ Option/Result helpers not inlined
@model('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
def m_fn_call(ip, st, call):
    f = call.args[0]
    return ip.call_value(st, f, ip.untuple(call.args[1]), call.site, call.destty)


@model('core::ptr::NonNull::<T>::as_ptr', 'alloc::vec::Vec::<T, A>::as_ptr', 'alloc::vec::Vec::<T, A>::as_mut_ptr', 'core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr')
def m_asptr(ip, st, call):
    return [(st, raw('rawptr', call.args[0]))]


from . import iters  # noqa: E402,F401  (registers the iterator models)
from . import more  # noqa: E402,F401
from . import text  # noqa: E402,F401


# ---- NonZero<T> is represented by its integer
@model('core::num::nonzero::NonZero::<T>::new')
def nz_new(ip, st, call):
    v = call.args[0]
    return [(st, ite(T.eq0(v), none(), some(v)))]


@model('core::num::nonzero::NonZero::<T>::get', 'core::num::nonzero::NonZero::<T>::new_unchecked')
def nz_get(ip, st, call):
    return [(st, call.args[0])]


# ---- operator traits on references to primitive numbers (the impls only dereference and apply the operator)
OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr',
       'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}


@pattern(r'^core::ops::(arith|bit)::[A-Z]\w+::\w+$')
def m_refop(ip, st, call):
    name = call.name
    assign = name.endswith('_assign')
    base = OPS.get(name[:-7] if assign else name)
    if base is None and name in ('not', 'neg'):
        a, ty = derefs(ip, st, call.args[0], call.argtys[0])
        if ip.F.types[ty]['k'] not in ('int', 'bool') or name == 'neg':
            return None
        return [(st, ip.unop(st, 'Not', a, ty))]
    if base is None:
        return None
    a, ty = derefs(ip, st, call.args[0], call.argtys[0])
    b, tb = derefs(ip, st, call.args[1], call.argtys[1])
    k = ip.F.types[ty]['k']
    if k not in ('int', 'bool', 'float') or ip.F.types[tb]['k'] != k:
        return None
    if k == 'int' and base in ('Shl', 'Shr'):
        return None
    st = st.copy()
    if k == 'int' and base in ('Div', 'Rem'):
        c = mk_not2(eq0(b))
        okk = ip.prove(st, c)
        ip.oblige('DivisionByZero' if base == 'Div' else 'RemainderByZero', show(c), st, okk, c)
        if okk is False or not st.assume(c, True):
            return []
    if k == 'int' and base in ('Add', 'Sub', 'Mul'):
        r = ip.binop(st, base + 'WithOverflow', a, b, ty)
        v, o = project(r, ('f', 0)), project(r, ('f', 1))
        c = mk_not2(o)
        okk = ip.prove(st, c)
        ip.oblige('Overflow(%s)' % base, show(v), st, okk, c)
        if okk is False:
            return []
        if okk is not True and o.op == 'ovf':
            lo, hi = T.INT[o.a[1]]
            st.assume(le(o.a[0], num(hi)), True)
            st.assume(le(num(lo), o.a[0]), True)
    else:
        v = ip.binop(st, base, a, b, ty)
    if assign:
        st.write(place_of(call.args[0]), v)
        return [(st, unit())]
    return [(st, v)]
