"""Scalar codecs and the fixed tables of the format."""
from .. import mem as M
from .. import terms as T
from ..check import (Stop, cell, ev_name, event_type, expand, last, map_ev, modelled, norm_bytes, show, strip_generics, tyname)
from ..terms import num, raw

RULES = {}


def rule(name):
    def deco(f):
        RULES[name] = f
        return f
    return deco


# ------------------------------------------------------------------ C05
def written(ctx, fn, st):
    """the byte stream a raw writer produced on this path, or None"""
    out = []
    for e in expand(st.trace, st):
        if e.op == 'E' and ev_name(e) == 'write_all':
            out.append(e.a[3][1])
        else:
            what = ev_name(e) if e.op == 'E' else 'loop'
            if e.op == 'E' and what in ('write', 'write_vectored'):
                ctx.fail('%s:partial-write' % fn['path'], 'bytes are written with %s, which may write only part of them' % what, ctx.where(fn))
                return None
            ctx.unsure('%s: unexpected effect %s' % (fn['path'], what))
            return None
    return norm_bytes(M.cat(*out)) if out else M.seq()


def consume(ctx, fn, st, val, stream, fixlen):
    """feed `stream` to the reads of a path in order -> (value, facts, consumed) under that feeding"""
    pos = num(0)
    env = {}

    def f(x):
        if x.op == 'rdbytes':
            return env.get(x.a[0])
        return None

    def sub(t):
        t = map_ev(t, f)
        return fixlen(t)
    for e in expand(st.trace, st):
        if e.op == 'E' and ev_name(e) == 'read_exact':
            n = sub(e.a[3][1])
            piece = norm_bytes(M.slice_(stream, pos, T.add(pos, n)))
            env[e.a[1]] = piece
            pos = T.add(pos, n)
        else:
            what = ev_name(e) if e.op == 'E' else 'loop'
            if e.op == 'E' and what in ('read', 'read_to_end', 'read_to_string', 'read_vectored'):
                ctx.fail('%s:partial-read' % fn['path'], 'bytes are read with %s, which may return fewer or more than required' % what, ctx.where(fn))
                return None
            ctx.unsure('%s: unexpected effect %s' % (fn['path'], what))
            return None
    facts = [(sub(c), v) for c, v in st.facts.items()]
    return sub(val), facts, pos


def storage_impls(ctx):
    out = []
    for i in ctx.impls('TdmsStorageType'):
        ty = ctx.F.tys(i['self'])
        out.append((ty, i))
    return out


def m(ctx, ty, name):
    for f in ctx.F.fns:
        o = f.get('owner') or {}
        if f['name'] == name and o.get('kind') == 'traitimpl' and last(strip_generics(o['trait'])) == 'TdmsStorageType' and ctx.F.tys(o['self']) == ty:
            return f
    raise ctx.missing('TdmsStorageType::%s for %s' % (name, ty))


def same_value(ctx, ty, got, orig, order):
    """got == orig, up to the 80 significant bits of an extended float"""
    if got is orig:
        return True
    if M.veq(got, orig).op == 'bool':
        return M.veq(got, orig).a[0]
    if last(strip_generics(ty)) == 'ExtendedRaw':
        return ext_identity(got, orig, order)
    return None


def ext_identity(got, orig, order):
    """a 16 byte integer rebuilt from its ten low bytes, the other six being zero"""
    if got.op != 'adt' or len(got.a[2]) != 1:
        return None
    u = got.a[2][0]
    if u.op != 'unbytes' or u.a[0] != order or u.a[1] != 'u128':
        return None
    b = norm_bytes(u.a[2])
    inner = raw('f', orig, 0) if orig.op != 'adt' else orig.a[2][0]
    full = full_bytes(order, inner)
    lo, hi = (num(0), num(10)) if order == 'le' else (num(6), num(16))
    want = M.slice_(full, lo, hi)
    z = raw('rep', num(0), num(6))
    exp = M.cat(want, z) if order == 'le' else M.cat(z, want)
    return b is norm_bytes(exp)


def full_bytes(order, x):
    from .. import models
    return models.tobytes(x, order, 'u128', 16)


@rule('C05')
def c05(ctx):
    """For every implementation of the storage trait and both byte orders, the value decoded from the
    bytes the encoder emits is the original value on every success path (composition of the two abstract
    summaries), exactly the emitted bytes are consumed, multi-byte pieces carry the byte order of the
    method, and the only failures the decoder can report on those bytes are I/O and allocation failures."""
    for ty, imp in storage_impls(ctx):
        for o in ('le', 'be'):
            w, r = m(ctx, ty, 'write_' + o), m(ctx, ty, 'read_' + o)
            rw, rr = ctx.run(w), ctx.run(r)
            if rw is None or rr is None:
                continue
            key = 'codec:%s:%s' % (ty, o)
            slf = rw.deref(0)
            okw = rw.ok()
            if rw.err():
                ctx.fail(key + ':write-fails', 'the encoder can fail although every write succeeded', ctx.where(w))
                continue
            if not okw:
                ctx.unsure('%s: no success path in the encoder' % w['path'])
            for st, _ in okw:
                stream = written(ctx, w, st)
                if stream is None:
                    continue
                L = T.raw('len', slf)
                mp = {T.trunc('u32', M.length(slf)): M.length(slf)}
                wf = dict(st.facts)

                def fixlen(t, mp=mp, slf=slf, wf=wf):
                    t = T.subst(t, mp)
                    u = T.raw('utf8', slf)
                    if T.contains(t, lambda x: x is u):
                        t = T.subst(t, {u: T.boolean(True)})
                    return T.subst(t, {c: T.boolean(v) for c, v in wf.items()}) if wf else t
                if not modelled(stream):
                    ctx.unsure('%s: bytes written are not modelled' % w['path'])
                    continue
                orders(ctx, w, key, stream, o)
                total = fixlen(M.length(stream))
                for kind, exits in (('ok', rr.ok()), ('err', rr.err())):
                    for s2, v in exits:
                        c = consume(ctx, r, s2, v, stream, fixlen)
                        if c is None:
                            continue
                        val, facts, pos = c
                        if any(f.op == 'bool' and f.a[0] != b for f, b in facts):
                            continue      # not taken on these bytes
                        if kind == 'err':
                            if val.op == 'ev' or any(f.op == 'call' and f.a[0] == 'alloc_ok' and not b for f, b in facts):
                                continue
                            open_ = [f for f, b in facts if f.op != 'bool']
                            if open_ or not modelled(val):
                                ctx.unsure('%s: undecided error path %s' % (r['path'], [show(x) for x in open_]))
                            else:
                                ctx.fail(key + ':rejects', 'bytes produced by the encoder are rejected with %s' % show(val), ctx.where(r))
                            continue
                        if pos is not total:
                            d = T.eq(pos, total)
                            if d.op == 'bool' and not d.a[0]:
                                ctx.fail(key + ':length', 'the encoder writes %s bytes and the decoder reads %s' % (show(total), show(pos)), ctx.where(r))
                            else:
                                ctx.unsure('%s: cannot compare %s bytes read with %s written' % (r['path'], show(pos)[:80], show(total)[:80]))
                            continue
                        same = same_value(ctx, ty, val, slf, o) or st.simp(slf) is st.simp(val)
                        if not same and T.ty_of(slf) is None and val.op == 'bool' and ty == 'bool':
                            same = st.decide(slf) is val.a[0]
                        if same:
                            ctx.good('round trips', '%s %s: decode(encode(x)) = x' % (ty, o))
                        elif modelled(val):
                            ctx.fail(key + ':value', 'decoding the encoded bytes gives %s instead of the value' % show(val)[:300], ctx.where(r))
                        else:
                            ctx.unsure('%s: value not modelled: %s' % (r['path'], show(val)[:100]))
    ctx.floor('round trips', 32, exact=True)


def orders(ctx, fn, key, stream, o):
    for x in T.subterms(stream):
        if x.op == 'bytes' and x.a[0] != o and x.a[1] not in ('u8', 'i8'):
            ctx.fail(key + ':order', 'the %s method emits %s bytes' % (o, x.a[0]), ctx.where(fn))


# ------------------------------------------------------------------ tables
# The TDMS type codes and on-disk sizes published by NI ("TDMS File Format Internal Structure").
NI_TYPES = {
    'Void': (0, None), 'I8': (1, 1), 'I16': (2, 2), 'I32': (3, 4), 'I64': (4, 8), 'U8': (5, 1), 'U16': (6, 2), 'U32': (7, 4),
    'U64': (8, 8), 'SingleFloat': (9, 4), 'DoubleFloat': (10, 8), 'ExtendedFloat': (11, None),
    'SingleFloatWithUnit': (0x19, 4), 'DoubleFloatWithUnit': (0x1A, 8), 'ExtendedFloatWithUnit': (0x1B, None),
    'TdmsString': (0x20, None), 'Boolean': (0x21, 1), 'Timestamp': (0x44, 16), 'FixedPoint': (0x4F, None),
    'ComplexSingleFloat': (0x08000C, 8), 'ComplexDoubleFloat': (0x10000D, 16), 'DAQmxRawData': (0xFFFFFFFF, None),
}


def item(imp, name):
    for x in imp['items']:
        if x['name'] == name:
            return x
    return None


def const_variants(v):
    """variant indices in a constant `&[DataType]` / `DataType`"""
    if v is None:
        return None
    if v['c'] == 'ref':
        return const_variants(v['v'])
    if v['c'] in ('array', 'slice'):
        out = []
        for e in v['elems']:
            x = const_variants(e)
            if x is None:
                return None
            out += x
        return out
    if v['c'] == 'adt':
        return [v['variant']]
    return None


def const_int(v):
    return int(v['v']) if v and v.get('c') == 'int' else None


def type_const(ctx, imp, name):
    it = item(imp, name)
    return const_variants(it.get('value')) if it else None


def table(ctx, fn, adt, mk=None):
    """result of a one-argument `&self` method for every variant of the receiver -> {variant name: term}"""
    p, vs = ctx.variants(adt)
    out = {}
    for i, v in enumerate(vs):
        fields = tuple(raw('sym', 'x%d' % j, p, i) for j in range(len(v['fields'])))
        val = M.adt(p, i, fields)
        inst = ctx.F.insts[fn['inst']]
        ty = ctx.F.types[inst['body']['locals'][1][0]]
        arg = cell(val) if ty['k'] == 'ref' else val
        r = ctx.run(fn, args=[arg])
        if r is None:
            continue
        vals = {x for _, x in r.exits}
        if len(vals) == 1:
            out[v['name']] = (vals.pop(), fields)
        else:
            ctx.unsure('%s: %d results for %s' % (fn['path'], len(vals), v['name']))
    return out


@rule('C06')
def c06(ctx):
    """For every storage type the declared size of a value, the fixed element size used to step through raw
    data and the number of bytes both encoders emit are the same normal form, and the size table of the data
    type codes gives that size for every code the storage type can be read from."""
    p, vs = ctx.variants('DataType')
    names = [v['name'] for v in vs]
    tbl = table(ctx, ctx.inherent('DataType', 'size'), 'DataType')
    for ty, imp in storage_impls(ctx):
        key = 'size:%s' % ty
        sz = m(ctx, ty, 'size')
        fixed = const_int((item(imp, 'SIZE_BYTES') or {}).get('value'))
        varying = False
        for o in ('le', 'be'):
            w = m(ctx, ty, 'write_' + o)
            rw = ctx.run(w)
            if rw is None:
                continue
            for st, _ in rw.ok():
                stream = written(ctx, w, st)
                varying = varying or stream is None or not T.is_int(M.length(stream))
            rs = ctx.run(sz, args=rw.args[:1], tag='sz' + o)
            if rs is None or len(rs.exits) != 1:
                ctx.unsure('%s: several results' % sz['path'])
                continue
            want = rs.exits[0][1]
            for st, _ in rw.ok():
                stream = written(ctx, w, st)
                if stream is None:
                    continue
                n = M.length(stream)
                d = T.eq(n, want)
                if n is want:
                    ctx.good('encoded sizes', '%s %s: %s bytes = size()' % (ty, o, show(n)))
                elif d.op == 'bool' or modelled(n) and modelled(want):
                    ctx.fail(key + ':size-method', 'size() declares %s but write_%s emits %s bytes' % (show(want), o, show(n)), ctx.where(sz))
                else:
                    ctx.unsure('%s: cannot compare %s with %s' % (sz['path'], show(want)[:80], show(n)[:80]))
                if T.is_int(n):
                    if fixed is None:
                        ctx.unsure('%s: SIZE_BYTES is not a known constant' % ty)
                    elif n.a[0] != fixed:
                        ctx.fail(key + ':SIZE_BYTES', 'SIZE_BYTES is %s but write_%s emits %s bytes' % (fixed, o, show(n)), ctx.where(w))
                    else:
                        ctx.good('element sizes')
        if varying or fixed is None:
            continue
        sup = type_const(ctx, imp, 'SUPPORTED_TYPES')
        nat = type_const(ctx, imp, 'NATURAL_TYPE')
        if sup is None or nat is None:
            ctx.unsure('%s: supported types are not a constant' % ty)
            continue
        for v in sorted(set(sup) | set(nat)):
            t = tbl.get(names[v])
            if t is None:
                continue
            if T.is_int(t[0], fixed):
                ctx.good('type code sizes', '%s stored as %s: %d bytes per value' % (ty, names[v], fixed))
            elif modelled(t[0]):
                ctx.fail('%s:code:%s' % (key, names[v]), 'the size table gives %s bytes for %s but %s occupies %d' % (show(t[0]), names[v], ty, fixed), ctx.where(ctx.inherent('DataType', 'size')))
        if nat[0] not in sup:
            ctx.fail(key + ':natural', 'values are written as %s, which the type cannot be read from' % names[nat[0]], ty)
    for nm, (code, size) in NI_TYPES.items():
        if size is not None and nm in tbl and not T.is_int(tbl[nm][0], size) and modelled(tbl[nm][0]):
            ctx.fail('size:table:%s' % nm, 'a %s value occupies %d bytes in the file, the size table says %s' % (nm, size, show(tbl[nm][0])), ctx.where(ctx.inherent('DataType', 'size')))
        elif size is not None and nm in tbl:
            ctx.good('size table entries')
    ctx.floor('encoded sizes', 32, exact=True)
    ctx.floor('type code sizes', 18, exact=True)
    ctx.floor('size table entries', 16, exact=True)


@rule('C09')
def c09(ctx):
    """The flag word decoded from an integer and the flag word encoded to bytes use the same bit for the same
    flag, the published one; decided on the normal forms (each decoded field is a single-bit mask test; the
    encoding is evaluated for all 64 flag combinations), and the segment reader decodes the flag word
    little-endian whatever the byte order flag says."""
    BITS = {'contains_meta_data': 1, 'contains_new_object_list': 2, 'contains_raw_data': 3, 'data_is_interleaved': 5,
            'big_endian': 6, 'contains_daqmx_raw_data': 7}
    p, vs = ctx.variants('ToC')
    fields = vs[0]['fields']
    for f in BITS:
        if f not in fields:
            raise ctx.missing('ToC.%s' % f)
    fr = ctx.inherent('ToC', 'from_u32')
    r = ctx.run(fr)
    if r is not None:
        for st, v in r.exits:
            for i, f in enumerate(fields):
                if f not in BITS:
                    ctx.unsure('unknown flag %s' % f)
                    continue
                x = st.simp(M.project(v, ('f', i)))
                got = bit_of(x, r.args[0])
                wrong = truth_table(x, r.args[0], BITS[f]) if got is None else None
                if got is None and wrong is False:
                    got = BITS[f]
                if wrong:
                    ctx.fail('toc:read:%s' % f, 'flag %s is decoded as %s, which is %s for the flag word %#x' % (f, show(x)[:100], wrong[1], wrong[0]), ctx.where(fr))
                elif got is None:
                    ctx.unsure('%s: flag %s is decoded as %s' % (fr['path'], f, show(x)[:100]))
                elif got != BITS[f]:
                    ctx.fail('toc:read:%s' % f, 'flag %s is read from bit %s, the format puts it in bit %d' % (f, got, BITS[f]), ctx.where(fr))
                else:
                    ctx.good('flags decoded', '%s <- bit %d' % (f, got))
    ab = ctx.inherent('ToC', 'as_bytes')
    import itertools
    for combo in itertools.product((False, True), repeat=len(fields)):
        val = M.adt(p, 0, tuple(T.boolean(b) for b in combo))
        ra = ctx.run(ab, args=[cell(val)], unroll=12)
        if ra is None:
            break
        want = sum(1 << BITS[f] for f, b in zip(fields, combo) if b and f in BITS)
        for st, v in ra.exits:
            got = le_value(v)
            if got is None:
                ctx.unsure('%s: bytes not constant: %s' % (ab['path'], show(v)[:100]))
            elif got != want:
                ctx.fail('toc:write', 'flags %s are encoded as 0x%X instead of 0x%X' % ([f for f, b in zip(fields, combo) if b], got, want), ctx.where(ab))
            else:
                ctx.good('flag combinations encoded')
        if any(k == 'toc:write' for k, _, _ in ctx.viol):
            break
    # the writer emits exactly those four bytes, first byte first, whatever its own byte order
    w = ctx.method('TdmsMetaData', 'ToC', 'write')
    wr = ctx.args(w, 'self', 'writer')[1]
    for combo in itertools.product((False, True), repeat=len(fields)):
        val = M.adt(p, 0, tuple(T.boolean(b) for b in combo))
        rw = ctx.run(w, args=[cell(val), wr], unroll=12)
        if rw is None:
            break
        want = sum(1 << BITS[f] for f, b in zip(fields, combo) if b and f in BITS)
        for st, _ in rw.ok():
            got, wrong = [], None
            for e in expand(st.trace, st):
                x = st.simp(e.a[3][1]) if e.op == 'E' and ev_name(e) == 'write_value' else None
                if x is None or not T.is_int(x):
                    got = None
                    break
                if event_type(e) != 'u8':
                    wrong = event_type(e)
                got.append(x.a[0])
            if got is None:
                ctx.unsure('%s: unexpected effects %s' % (w['path'], [show(x)[:80] for x in st.trace]))
            elif wrong:
                ctx.fail('toc:emit', 'the flag word is emitted as a %s in the byte order of the writer, it is always little-endian' % wrong, ctx.where(w))
            elif got != [want >> 8 * k & 255 for k in range(4)]:
                ctx.fail('toc:emit', 'flags %s are emitted as the bytes %s instead of 0x%X little-endian' % ([f for f, b in zip(fields, combo) if b], got, want), ctx.where(w))
            else:
                ctx.good('flag word emission', None if any(combo) else 'ToC::write emits four bytes, least significant first')
        if any(k == 'toc:emit' for k, _, _ in ctx.viol):
            break
    # Segment::read decodes little endian
    sr = ctx.inherent('Segment', 'read')
    seen = []
    toc_u32 = lambda call: call.name == 'from_u32' and (call.ipath or '').endswith('from_u32') and 'ToC' in (call.ipath or '')

    def hook(ip, st, call):
        if 'ToC' in (call.ipath or call.df):
            seen.append(call.args[0])
        return None
    rr = ctx.run(sr, hooks={'from_u32': hook}, tag='toc', opaque=lambda c: c.name == 'read_segment')
    if rr is not None:
        if not seen:
            ctx.unsure('%s: the flag word is not decoded with from_u32' % sr['path'])
        for x in set(seen):
            if x.op == 'unbytes' and x.a[0] == 'le' and x.a[1] == 'u32' and x.a[2].op == 'rdbytes':
                ctx.good('flag word byte order', show(x))
            elif x.op == 'unbytes':
                ctx.fail('toc:order', 'the flag word is decoded as %s' % show(x), ctx.where(sr))
            else:
                ctx.unsure('%s: flag word is %s' % (sr['path'], show(x)[:80]))
    ctx.floor('flags decoded', 6, exact=True)
    ctx.floor('flag combinations encoded', 64, exact=True)
    ctx.floor('flag word emission', 64, exact=True)
    ctx.floor('flag word byte order', 1, exact=True)


def truth_table(x, v, bit):
    """x as a function of the bits of v it looks at (single-bit and mask tests), against bit `bit`:
    False when equal, (word, value) of a difference, None when x looks at v in another way"""
    import itertools
    masks = {}

    def look(t):
        if t.op == 'band' and t.a[0] is v and T.is_int(t.a[1]):
            masks[t] = t.a[1].a[0]
        elif t.op == 'band' and t.a[1] is v and T.is_int(t.a[0]):
            masks[t] = t.a[0].a[0]
        return False
    T.contains(x, look)
    bits = sorted({b for m in masks.values() for b in range(32) if m >> b & 1} | {bit})
    if not masks or len(bits) > 12:
        return None
    for combo in itertools.product((0, 1), repeat=len(bits)):
        word = sum(c << b for c, b in zip(combo, bits))
        r = T.subst(x, {t: num(word & m) for t, m in masks.items()})
        if r.op != 'bool':
            return None
        if r.a[0] != bool(word >> bit & 1):
            return word, r.a[0]
    return False


def bit_of(x, v):
    """k when x is the truth of bit k of v"""
    neg = False
    while x.op == 'not':
        neg, x = not neg, x.a[0]
    if x.op == 'eq0':
        y = x.a[0]
        if y.op == 'band' and y.a[0] is v or y.op == 'band' and y.a[1] is v:
            o = y.a[1] if y.a[0] is v else y.a[0]
            if neg and o.op == 'int' and o.a[0] > 0 and o.a[0] & (o.a[0] - 1) == 0:
                return o.a[0].bit_length() - 1
            if o.op == 'int' and not neg:
                return 'not 0x%X' % o.a[0]
            if o.op == 'int':
                return 'mask 0x%X' % o.a[0]
        # (v >> k) & 1
        if y.op == 'band':
            for a, b in ((y.a[0], y.a[1]), (y.a[1], y.a[0])):
                if a.op == 'shr' and a.a[0] is v and T.is_int(a.a[1]) and b.op == 'int' and b.a[0] > 0 and b.a[0] & (b.a[0] - 1) == 0 and neg:
                    return a.a[1].a[0] + b.a[0].bit_length() - 1
        # band(v, m) == m
        if y.op == 'poly' and not neg and len(y.a[1]) == 1:
            (mono, k), = y.a[1]
            if len(mono) == 1 and mono[0].op == 'band' and abs(k) == 1:
                b = mono[0]
                o = b.a[1] if b.a[0] is v else b.a[0] if b.a[1] is v else None
                if o is not None and o.op == 'int' and o.a[0] == abs(y.a[0]) and o.a[0] & (o.a[0] - 1) == 0:
                    return o.a[0].bit_length() - 1
                if b.a and any(q.op == 'shr' and q.a[0] is v and T.is_int(q.a[1]) for q in b.a) and any(T.is_int(q, 1) for q in b.a) and abs(y.a[0]) == 1:
                    q = [q for q in b.a if q.op == 'shr'][0]
                    return q.a[1].a[0]
    return None


def le_value(v):
    """the integer a constant byte array denotes in little-endian order"""
    if v.op == 'bytes' and v.a[0] in ('le', 'be') and v.a[2].op == 'int':
        n = v.a[2].a[0]
        return n if v.a[0] == 'le' else int.from_bytes(n.to_bytes(4, 'big'), 'little')
    if v.op == 'seq' and all(x.op == 'int' for x in v.a[0]):
        return sum(x.a[0] << (8 * i) for i, x in enumerate(v.a[0]))
    return None


def select(exits, mp, extra=None):
    """exits still possible when the atoms in mp take the given values"""
    out = []
    for st, v in exits:
        ok = True
        for c, b in st.facts.items():
            c2 = T.subst(c, mp)
            if c2.op == 'bool' and c2.a[0] != b:
                ok = False
                break
        if ok:
            out.append((st, T.subst(v, mp)))
    return out


def thresholds(exits, x):
    """the constants an integer x is compared with in the guards and results; None if x occurs otherwise"""
    ks = set()
    bad = []

    def scan(t):
        for y in T.subterms(t):
            if y.op in ('le0', 'eq0'):
                p = y.a[0]
                if p is x:
                    ks.add(0)
                elif p.op == 'poly' and len(p.a[1]) == 1 and p.a[1][0][0] == (x,):
                    k = p.a[1][0][1]
                    c = p.a[0]
                    ks.add(-c // k)
                    ks.add(-(c // k))
    for st, v in exits:
        for c in st.facts:
            scan(c)
        scan(v)
    return ks


def partition(exits, x, lo, hi):
    ks = thresholds(exits, x)
    pts = {lo, hi}
    for k in ks:
        for d in (-1, 0, 1):
            if lo <= k + d <= hi:
                pts.add(k + d)
    return sorted(pts)


@rule('C10')
def c10(ctx):
    """The data type enumeration has the published code for every type; the encoder writes that code as a
    32-bit value and the decoder maps exactly the published codes back to the same types and refuses every
    other code with an error naming it (decided over the finite partition of the 32-bit range induced by the
    comparisons in the decoder)."""
    p, vs = ctx.variants('DataType')
    codes = {}
    for i, v in enumerate(vs):
        nm, code = v['name'], int(v['discr']) & 0xFFFFFFFF
        codes[code] = (i, nm)
        if nm not in NI_TYPES:
            ctx.unsure('no published code known for %s' % nm)
        elif NI_TYPES[nm][0] != code:
            ctx.fail('code:%s' % nm, 'type %s has code 0x%X, the format defines 0x%X' % (nm, code, NI_TYPES[nm][0]), p)
        else:
            ctx.good('codes', '%s = 0x%X' % (nm, code))
    for nm in NI_TYPES:
        if nm not in [v['name'] for v in vs]:
            ctx.fail('code:missing:%s' % nm, 'type %s of the format is not known' % nm, p)
    w = ctx.method('TdmsMetaData', 'DataType', 'write')
    for i, v in enumerate(vs):
        rw = ctx.run(w, args=[cell(M.adt(p, i, ()))] + ctx.args(w, 'self', 'writer')[1:])
        if rw is None:
            break
        for st, _ in rw.ok():
            evs = [e for e in expand(st.trace, st)]
            if len(evs) == 1 and evs[0].op == 'E' and ev_name(evs[0]) == 'write_value':
                x = evs[0].a[3][1]
                if event_type(evs[0]) != 'u32':
                    ctx.fail('code:width', 'the type code is written as %s' % event_type(evs[0]), ctx.where(w))
                elif T.is_int(x) and x.a[0] & 0xFFFFFFFF == int(v['discr']) & 0xFFFFFFFF:
                    ctx.good('codes written')
                elif T.is_int(x):
                    ctx.fail('code:write:%s' % v['name'], 'type %s is written as 0x%X' % (v['name'], x.a[0]), ctx.where(w))
                else:
                    ctx.unsure('%s: code is %s' % (w['path'], show(x)[:80]))
            else:
                ctx.unsure('%s: unexpected effects' % w['path'])
    rd = ctx.method('TdmsMetaData', 'DataType', 'read')
    rr = ctx.run(rd)
    if rr is not None:
        src = set()
        for st, v in rr.exits:
            for e in expand(st.trace, st):
                if e.op == 'E' and ev_name(e) == 'read_value':
                    src.add((event_type(e), M.project(e.a[4], ('v', 0, 0))))
                else:
                    ctx.unsure('%s: unexpected effects' % rd['path'])
        if len(src) != 1:
            ctx.unsure('%s: reads %d values' % (rd['path'], len(src)))
        else:
            t, x = src.pop()
            if t != 'u32':
                ctx.fail('code:width', 'the type code is read as %s' % t, ctx.where(rd))
            else:
                pts = set(partition(rr.exits, x, 0, 2 ** 32 - 1)) | set(codes)
                for c in codes:      # neighbours and single-bit variations of every code
                    pts |= {k for k in (c - 1, c + 1) if 0 <= k < 2 ** 32} | {c ^ (1 << b) for b in range(32)}
                for c in sorted(pts):
                    for st, v in select(rr.exits, {x: num(c)}):
                        k = T.isvar(v, 0)
                        if k.op != 'bool':
                            ctx.unsure('%s: undecided for code 0x%X' % (rd['path'], c))
                        elif k.a[0] != (c in codes):
                            ctx.fail('code:read:%X' % c, 'code 0x%X is %s' % (c, 'accepted' if k.a[0] else 'refused'), ctx.where(rd))
                        elif k.a[0]:
                            y = M.project(v, ('v', 0, 0))
                            if y.op == 'adt' and y.a[1] == codes[c][0]:
                                ctx.good('codes read')
                            elif y.op == 'adt':
                                ctx.fail('code:read:%X' % c, 'code 0x%X is read as %s' % (c, show(y)), ctx.where(rd))
                            else:
                                ctx.unsure('%s: code 0x%X gives %s' % (rd['path'], c, show(y)[:60]))
                        else:
                            ctx.good('unknown code classes refused')
    ctx.floor('codes', 22, exact=True)
    ctx.floor('codes written', 22, exact=True)
    ctx.floor('codes read', 22, exact=True)
    ctx.floor('unknown code classes refused', 10)


# ------------------------------------------------------------------ C11
def natural(ctx, tystr):
    t = tystr.replace("&'a ", '').replace('&', '').strip()
    if t == 'str':
        t = 'std::string::String'
    for ty, imp in storage_impls(ctx):
        if ty == t:
            v = type_const(ctx, imp, 'NATURAL_TYPE')
            return v[0] if v else None
    return None


def value_of_err(v):
    return M.project(v, ('v', 1, 0))


@rule('C11')
def c11(ctx):
    """Every property value variant carries the type code natural to its payload type, is decoded from that
    code into the same variant, and the conversions from and to Rust values are total and exact: into a value
    selects that variant with the payload unchanged, out of a value succeeds with the payload for that variant
    and reports a type mismatch (actual type, requested type) for every other variant."""
    p, vs = ctx.variants('PropertyValue')
    dp, dvs = ctx.variants('DataType')
    dn = [v['name'] for v in dvs]
    ep, evs = ctx.variants('TdmsError')
    en = [v['name'] for v in evs]
    dt = table(ctx, ctx.inherent('PropertyValue', 'datatype'), 'PropertyValue')
    codes = {}
    for v in vs:
        if v['name'] in dt and dt[v['name']][0].op == 'adt':
            codes[v['name']] = dt[v['name']][0].a[1]
        elif v['name'] in dt:
            ctx.unsure('datatype of %s is %s' % (v['name'], show(dt[v['name']][0])[:80]))
    seen = {}
    for n, c in codes.items():
        if c in seen:
            ctx.fail('variant:dup:%s' % n, 'variants %s and %s share the type code %s' % (seen[c], n, dn[c]), p)
        seen[c] = n
    # decoding
    rd = ctx.method('TdmsMetaData', 'PropertyValue', 'read')
    dread = lambda call: call.name == 'read_meta' or (call.ipath or '').startswith('<io::data_types::DataType as') and call.name == 'read'
    rr = ctx.run(rd, opaque=lambda c: (c.name == 'read' and 'DataType' in (c.ipath or '')), tag='dt')
    if rr is not None:
        for st, v in rr.exits:
            evs_ = expand(st.trace, st)
            if not evs_ or evs_[0].op != 'E':
                ctx.unsure('%s: unexpected effects' % rd['path'])
                continue
        # codes that are nobody's natural code are decoded as the storage type that can be read from them
        todo = list(codes.items())
        for c in range(len(dvs)):
            if c in codes.values():
                continue
            who = None
            for ty, imp in storage_impls(ctx):
                if c in (type_const(ctx, imp, 'SUPPORTED_TYPES') or []):
                    nt = type_const(ctx, imp, 'NATURAL_TYPE')
                    who = [n for n, k in codes.items() if nt and k == nt[0]]
            todo.append((who[0] if who else None, c))
        for name, c in todo:
            got = []
            for st, v in rr.exits:
                tr = expand(st.trace, st)
                if not tr or tr[0].op != 'E':
                    continue
                x = M.project(tr[0].a[4], ('v', 0, 0))
                val = M.adt(dp, c, ())
                fs = [(T.subst(f, {x: val}), b) for f, b in st.facts.items()]
                if any(f.op == 'bool' and f.a[0] != b for f, b in fs):
                    continue
                got.append((st, T.subst(v, {x: val}), tr))
            vi = [w['name'] for w in vs].index(name) if name else None
            for st, v, tr in got:
                k = T.isvar(v, 0)
                if k.op != 'bool':
                    ctx.unsure('%s: undecided for %s' % (rd['path'], name))
                    continue
                y = M.project(v, ('v', 0, 0))
                if name is None:
                    if k.a[0] and y.op == 'adt':
                        ctx.fail('variant:accept:%s' % dn[c], 'a property of type %s, which has no value kind, is decoded as %s' % (dn[c], show(y)[:60]), ctx.where(rd))
                    elif k.a[0]:
                        ctx.unsure('%s: %s gives %s' % (rd['path'], dn[c], show(y)[:60]))
                    else:
                        ctx.good('types without a value refused')
                elif not k.a[0]:
                    ctx.fail('variant:read:%s' % dn[c], 'a property of type %s is refused' % dn[c], ctx.where(rd))
                elif y.op == 'adt' and y.a[1] == vi:
                    okp = True
                    if len(tr) > 1:
                        okp = len(y.a[2]) == 1 and y.a[2][0] is M.project(tr[-1].a[4], ('v', 0, 0)) and len(tr) == 2
                    if okp:
                        ctx.good('variants decoded', '%s -> %s' % (dn[c], name))
                    else:
                        ctx.unsure('%s: payload of %s' % (rd['path'], name))
                elif y.op == 'adt':
                    ctx.fail('variant:read:%s' % dn[c], 'type %s is decoded as %s' % (dn[c], show(y)[:60]), ctx.where(rd))
                else:
                    ctx.unsure('%s: %s gives %s' % (rd['path'], dn[c], show(y)[:60]))
    # conversions
    for f in ctx.F.fns:
        o = f.get('owner') or {}
        if o.get('kind') != 'traitimpl' or f['name'] not in ('from', 'try_from'):
            continue
        tr = last(strip_generics(o['trait']))
        slf = ctx.F.tys(o['self'])
        arg = ctx.F.tys(o['args'][1]) if len(o.get('args') or []) > 1 else ''
        if tr == 'From' and tyname(slf) == 'PropertyValue':
            nat = natural(ctx, arg)
            r = ctx.run(f)
            if r is None:
                continue
            for st, v in r.exits:
                if v.op != 'adt':
                    ctx.unsure('%s: result %s' % (f['path'], show(v)[:60]))
                    continue
                name = vs[v.a[1]]['name']
                if nat is not None and codes.get(name) is not None and codes[name] != nat:
                    ctx.fail('conv:from:%s' % arg, 'a %s becomes a %s property' % (arg, name), ctx.where(f))
                    continue
                a = r.args[0]
                want = [a, raw('*', a)]
                if nat is not None and not (len(v.a[2]) == 1 and st.simp(v.a[2][0]) in want):
                    if modelled(v):
                        ctx.fail('conv:from-value:%s' % arg, 'a %s is stored as %s' % (arg, show(v)[:100]), ctx.where(f))
                    else:
                        ctx.unsure('%s: payload %s' % (f['path'], show(v)[:80]))
                    continue
                if nat is None and name != 'Timestamp':
                    ctx.unsure('%s: no natural type' % f['path'])
                    continue
                ctx.good('conversions into a property', '%s -> %s' % (arg, name))
        if tr == 'TryFrom' and tyname(arg) == 'PropertyValue':
            nat = natural(ctx, slf)
            by_ref = arg.startswith('&')
            for i, vv in enumerate(vs):
                x = tuple(raw('sym', 'x%d' % j, p, i) for j in range(len(vv['fields'])))
                val = M.adt(p, i, x)
                r = ctx.run(f, args=[cell(val) if by_ref else val])
                if r is None:
                    break
                for st, v in r.exits:
                    key = 'conv:to:%s%s:%s' % ('&' if by_ref else '', slf, vv['name'])
                    k = T.isvar(v, 0)
                    match = codes.get(vv['name']) == nat if nat is not None else None
                    if nat is None and codes.get(vv['name']) != dn.index('Timestamp'):
                        match = False
                    if k.op != 'bool':
                        if match is not None:
                            ctx.unsure('%s: undecided for %s' % (f['path'], vv['name']))
                        continue
                    if match is None:
                        continue
                    if k.a[0] != match:
                        ctx.fail(key, 'converting a %s property to %s %s' % (vv['name'], slf, 'succeeds' if k.a[0] else 'is refused'), ctx.where(f))
                    elif match:
                        y = st.simp(M.project(v, ('v', 0, 0)))
                        y2 = st.simp(st.read(y.a[0])) if y.op == 'ref' else y
                        if y2 is x[0]:
                            ctx.good('conversions out of a property')
                        elif modelled(y2):
                            ctx.fail(key + ':value', 'converting a %s property to %s gives %s' % (vv['name'], slf, show(y2)[:80]), ctx.where(f))
                        else:
                            ctx.unsure('%s: value %s' % (f['path'], show(y2)[:60]))
                    else:
                        e = value_of_err(v)
                        ok_ = e.op == 'adt' and en[e.a[1]] == 'DataTypeMismatch'
                        if not ok_:
                            (ctx.fail if e.op == 'adt' else lambda *a: ctx.unsure(a[1]))(key + ':error', 'the mismatch is reported as %s' % show(e)[:80], ctx.where(f))
                            continue
                        a0, a1 = e.a[2]
                        if a0.op == 'adt' and a0.a[1] != codes.get(vv['name']):
                            ctx.fail(key + ':actual', 'the mismatch names %s as the actual type of a %s property' % (show(a0), vv['name']), ctx.where(f))
                        elif nat is not None and a1.op == 'adt' and a1.a[1] != nat:
                            ctx.fail(key + ':requested', 'the mismatch names %s as the requested type' % show(a1), ctx.where(f))
                        elif a0.op == 'adt':
                            ctx.good('mismatches reported')
                        else:
                            ctx.unsure('%s: error %s' % (f['path'], show(e)[:60]))
    ctx.floor('variants decoded', 20, exact=True)
    ctx.floor('types without a value refused', 2)
    ctx.floor('conversions into a property', 16, exact=True)
    ctx.floor('conversions out of a property', 30, exact=True)
    ctx.floor('mismatches reported', 400)
