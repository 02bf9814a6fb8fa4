"""Text: formatting macros and hexadecimal conversions as contents of byte terms.

A formatted text is an array of byte terms; digit i of the hexadecimal form of v is the term hexc(v, i, case).  The template of a formatting macro is decoded
from the constant the compiler emits (core::fmt::Arguments), and the fmt implementations of /repo it names are analysed; those of primitive integers and of the
fuel-types byte newtypes, and the inverse conversions, are contracts."""
import re
import terms
from terms import *
from models import content_len, sub_content, res_ok, res_err, idx_v, gated_opt, UNIT
from stdmodels import as_slice
import models
from interp import Unsupported
import facts

FMT = {'lower_hex': 'LowerHex', 'upper_hex': 'UpperHex', 'display': 'Display', 'debug': 'Debug', 'binary': 'Binary', 'octal': 'Octal'}
ALT, ZERO, HEXDBG = 1 << 23, 1 << 24, 3 << 25
ALIGN = 3 << 29


def chars(t):
    """the bytes of a content leaf, or None"""
    if t.op == 'str':
        return [INT(b) for b in t.args[0].encode()]
    if t.op == 'bstr':
        return [INT(b) for b in t.args[0]]
    if t.op == 'arr':
        return list(t.args)
    return None


def on_text(fn, v):
    """leafwise on a text, characters that are themselves conditional split up"""
    def f(t):
        if t.op == 'arr' and any(not isinstance(x, T) for x in t.args):
            return apply_n(lambda *cs: fn(mkT('arr', *cs, ty=t.ty)), *t.args)
        return fn(t)
    return map_leaves(f, v)


def concat(a, b):
    def f(x, y):
        p, q = chars(x), chars(y)
        if p is None or q is None:
            raise Unsupported('text of unknown layout')
        return mkT('arr', *(p + q), ty='alloc::string::String')
    return apply_n(f, a, b)


def hexc(v, i, upper):
    if v.op == 'int':
        return INT(ord(('%X' if upper else '%x') % ((v.args[0] >> (4 * i)) & 15)))
    t = mkT('hexc', v, i, upper, ty='u8')
    t.meta = ('bounds', 48, 102)
    return t


def _rb_hexc(t, f):
    nv = f(t.args[0])
    return t if nv is t.args[0] else map_leaves(lambda l: hexc(l, t.args[1], t.args[2]), nv)


terms.REBUILD['hexc'] = _rb_hexc


def hex_text(v, bits, width, zero, alt, upper, align):
    """the text of integer v"""
    if align not in (0, 3) and width and not zero:
        raise Unsupported('aligned number')
    pre = [INT(48), INT(120)] if alt else []
    maxd = bits // 4

    def leaf(l):
        def form(n):
            """when v has n digits"""
            w = max(width - len(pre), n)
            if zero:
                return mkT('arr', *(pre + [INT(48)] * (w - maxd) + [hexc(l, i, upper) for i in range(min(w, maxd) - 1, -1, -1)]), ty='alloc::string::String')
            return mkT('arr', *([INT(32)] * (w - n) + pre + [hexc(l, i, upper) for i in range(n - 1, -1, -1)]), ty='alloc::string::String')
        r = form(maxd)
        for n in range(maxd - 1, 0, -1):
            r = ite(lt(l, INT(16 ** n)), form(n), r)
        return r
    return map_leaves(leaf, v)


def m_argument(I, inst, a, st, dty):
    kind = inst.item[4:]
    ty = inst.gargs[-1] if inst.gargs else None
    if kind not in FMT or not hasattr(ty, 'name'):
        return NotImplemented
    return map_leaves(lambda r: mkT('fmtarg', kind, ty.name, r), a[0])


def m_args_new(I, inst, a, st, dty):
    t, xs = I.deref_read(st, a[0]), I.deref_read(st, a[1])
    if not (isinstance(t, T) and chars(t) is not None and isinstance(xs, T) and xs.op == 'arr'):
        raise Unsupported('formatting template')
    return mkT('fmtargs', t, xs)


def m_args_str(I, inst, a, st, dty):
    t = I.deref_read(st, as_slice(I, st, a[0]))
    return mkT('fmtargs', t, UNIT)


def pieces(t):
    """[(text,) or (argument index, flags, width, precision)]"""
    bs = [b.args[0] for b in chars(t)]
    out, i, arg = [], 0, 0
    while True:
        n = bs[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append((bytes(bs[i:i + n]),))
            i += n
        elif n == 0x80:
            k = bs[i] | bs[i + 1] << 8
            out.append((bytes(bs[i + 2:i + 2 + k]),))
            i += 2 + k
        else:
            f, w, p = 0x20 | ALIGN, None, None
            if n & 1:
                f = int.from_bytes(bytes(bs[i:i + 4]), 'little')
                i += 4
            if n & 2:
                w = bs[i] | bs[i + 1] << 8
                i += 2
            if n & 4:
                p = bs[i] | bs[i + 1] << 8
                i += 2
            if n & 8:
                arg = bs[i] | bs[i + 1] << 8
                i += 2
            if n & 48:
                raise Unsupported('dynamic width')
            out.append((arg, f, w, p))
            arg += 1


def formatter(buf, flags, width):
    return mkT('tup', buf, INT(flags), INT(-1 if width is None else width))


def fmt_parts(I, st, f):
    v = restrict(I.deref_read(st, f), st.cond)
    if not (isinstance(v, T) and v.op == 'tup' and len(v.args) == 3):
        raise Unsupported('formatter')
    return v.args[0], v.args[1].args[0], v.args[2].args[0]


def put(I, st, f, buf):
    _, fl, w = fmt_parts(I, st, f)
    I.write_loc(st, (f.args[0], f.args[1]), mkT('tup', buf, INT(fl), INT(w)))


def one_ref(v):
    if isinstance(v, T) and v.op == 'ref':
        return v
    raise Unsupported('gated formatter')


def run_args(I, st, buf, args, rty):
    """(text after formatting args behind buf, condition under which every fmt succeeded)"""
    if not (isinstance(args, T) and args.op == 'fmtargs'):
        raise Unsupported('formatting arguments')
    t, xs = args.args
    if xs is UNIT:
        return concat(buf, t), TRUE
    ok = TRUE
    for p in pieces(t):
        if len(p) == 1:
            buf = concat(buf, mkT('bstr', p[0]))
            continue
        arg, fl, w, _ = p
        x = xs.args[arg]
        kind, tyn, r = x.args
        ty = I.db.by_name.get(tyn)
        while ty is not None and ty.k == 'ref':
            r, ty = I.deref_read(st, r), ty.to
        width = w or 0
        if ty is not None and ty.k == 'int' and kind in ('lower_hex', 'upper_hex'):
            if ty.d['signed'] or fl & (1 << 21) or fl & 0x1fffff != 0x20 and not fl & ZERO:
                raise Unsupported('formatting of a number')
            buf = concat(buf, hex_text(I.deref_read(st, r), ty.d['bits'], width, bool(fl & ZERO), bool(fl & ALT), kind == 'upper_hex', fl >> 29 & 3))
            continue
        if ty is not None and ty.k == 'str' and kind == 'display' and not w:
            buf = concat(buf, I.deref_read(st, as_slice(I, st, r)))
            continue
        if ty is not None and ty.k == 'adt' and re.match(TYPES + '$', ty.name) and kind != 'binary' and kind != 'octal':
            buf = concat(buf, bytes_text(I, I.deref_read(st, r), ty, fl, width, kind == 'upper_hex'))
            continue
        i = I.db.by_iname.get('<%s as core::fmt::%s>::fmt' % (ty.name if ty is not None else tyn, FMT[kind]))
        if i is None:
            raise Unsupported('formatting of %s' % tyn)
        fr = I.temp_ref(st, formatter(buf, fl, w), 'fmt')
        res = I.call(i, [r, fr], st)
        buf = fmt_parts(I, st, fr)[0]
        ok = AND(ok, restrict(is_ok(res), st.cond))
    return buf, ok


def is_ok(v):
    def f(l):
        if l is UNDEF:
            return UNDEF
        return BOOL(l.args[1] == 0) if l.op == 'adt' else mk(var_enum(l, 2), (TRUE, FALSE))
    return map_leaves(f, v)


def fmt_result(I, dty, ok):
    if ok is not TRUE:
        raise Unsupported('formatting that fails')
    return res_ok(dty, UNIT)


def m_write_fmt(I, inst, a, st, dty):
    f = one_ref(restrict(a[0], st.cond))
    buf, ok = run_args(I, st, fmt_parts(I, st, f)[0], restrict(a[1], st.cond), dty)
    put(I, st, f, buf)
    return fmt_result(I, dty, ok)


def m_write_str(I, inst, a, st, dty):
    f = one_ref(restrict(a[0], st.cond))
    put(I, st, f, concat(fmt_parts(I, st, f)[0], I.deref_read(st, as_slice(I, st, a[1]))))
    return res_ok(dty, UNIT)


def m_alternate(I, inst, a, st, dty):
    return BOOL(bool(fmt_parts(I, st, one_ref(restrict(a[0], st.cond)))[1] & ALT))


def m_width(I, inst, a, st, dty):
    w = fmt_parts(I, st, one_ref(restrict(a[0], st.cond)))[2]
    return models.opt(I, dty, None if w < 0 else INT(w))


def m_format(I, inst, a, st, dty):
    buf, ok = run_args(I, st, mkT('arr', ty='alloc::string::String'), restrict(a[0], st.cond), None)
    I.oblige(st, ok, 'panic', 'a formatting implementation fails')
    return buf


def m_bytes_fmt(I, inst, a, st, dty):
    """fuel-types: the bytes of the newtype, two digits each, after 0x in the alternate form; another form when a width is given"""
    f = one_ref(restrict(a[1], st.cond))
    buf, fl, w = fmt_parts(I, st, f)
    put(I, st, f, concat(buf, bytes_text(I, I.deref_read(st, a[0]), inst.self_ty, fl, w, 'UpperHex' in inst.name)))
    return res_ok(dty, UNIT)


def bytes_text(I, x, ty, fl, w, up):
    if w > 0:
        raise Unsupported('byte newtype formatted to a width')
    b = I.field(x, 0, 0, ty.name)
    buf = mkT('arr', *([INT(48), INT(120)] if fl & ALT else []))
    for i in range(ty.field_tys(0)[0].d['len']):
        buf = concat(buf, map_leaves(lambda l: mkT('arr', hexc(l, 1, up), hexc(l, 0, up)), idx_v(I, b, INT(i))))
    return buf


def digits(cs):
    """value of a sequence of hexadecimal digit characters: ('bad',), None (unknown) or (value, [(index, digits of)])"""
    v, i = INT(0), 0
    while i < len(cs):
        c = cs[i]
        if c.op == 'int':
            try:
                d = int(chr(c.args[0]), 16)
            except ValueError:
                return ('bad',)
            v, i = add(mul(v, INT(16)), INT(d)), i + 1
        elif c.op == 'hexc':
            x, hi, _ = c.args
            j = i + 1
            lo = hi
            while j < len(cs) and cs[j].op == 'hexc' and cs[j].args[0] is x and cs[j].args[1] == lo - 1:
                lo -= 1
                j += 1
            bits = terms.TYBITS.get(x.ty, 64)
            w = x
            if 4 * (hi + 1) < bits:
                w = modulo(w, 16 ** (hi + 1))
            if lo:
                w = ediv(w, INT(16 ** lo))
            v, i = add(mul(v, INT(16 ** (hi - lo + 1))), w), j
        else:
            return None
    return (v,)


def modulo(x, m):
    return sub(x, mul(ediv(x, INT(m)), INT(m)))


def m_from_str_radix(I, inst, a, st, dty):
    if a[1] is not INT(16):
        return NotImplemented
    c = I.deref_read(st, as_slice(I, st, a[0]))
    ty = dty.field_tys(0)[0]
    ety = dty.field_tys(1)[0].name
    bits = ty.d['bits']

    def f(t):
        err = res_err(dty, mkT('app', 'ParseIntError', t, ty=ety))
        cs = chars(t)
        if cs is not None:
            if not cs:
                return err
            if cs[0] is INT(43) and len(cs) > 1:
                cs = cs[1:]
            r = digits(cs)
            if r == ('bad',):
                return err
            if r is not None:
                return ite(lt(r[0], INT(1 << bits)), res_ok(dty, r[0]), err)
        ok = as_cond(mkT('parses', t, a[1], ty.name, ty='bool'))
        return ite(ok, res_ok(dty, mkT('parsed', t, a[1], ty.name, ty=ty.name)), err)
    return on_text(f, c)


def m_bytes_from_str(I, inst, a, st, dty):
    """fuel-types: one leading 0x is skipped, then two digits per byte; what follows is ignored; anything else is an error"""
    c = I.deref_read(st, as_slice(I, st, a[0]))
    ty = dty.field_tys(0)[0]
    n = ty.field_tys(0)[0].d['len']

    def f(t):
        cs = chars(t)
        err = res_err(dty, mkT('app', 'invalid-byte', t, ty=dty.field_tys(1)[0].name))
        if cs is not None:
            if cs[:2] == [INT(48), INT(120)]:
                cs = cs[2:]
            if len(cs) < 2 * n:
                return err
            if all(x.op in ('int', 'hexc') for x in cs[:2 * n]):
                bs = [digits(cs[2 * i:2 * i + 2]) for i in range(n)]
                if ('bad',) in bs:
                    return err
                arr = models.mk_arr([b[0] for b in bs], ty.field_tys(0)[0].name)
                return res_ok(dty, mkT('adt', ty.name, 0, (arr,)))
        ok = as_cond(mkT('parses', t, INT(16), ty.name, ty='bool'))
        return ite(ok, res_ok(dty, mkT('parsed', t, INT(16), ty.name, ty=ty.name)), err)
    return on_text(f, c)


def m_trim_start(I, inst, a, st, dty):
    """trim_start_matches with a literal pattern on a known layout"""
    p = a[1]
    if isinstance(p, T) and p.op in ('ref', 'slice'):
        p = I.deref_read(st, as_slice(I, st, p))
    pat = ([INT(b) for b in chr(p.args[0]).encode()] if p.op == 'int' else chars(p)) if isinstance(p, T) else None
    sl = as_slice(I, st, a[0])
    c = I.deref_read(st, sl)
    if not pat or any(x.op != 'int' for x in pat) or any(chars(l) is None for l in leafset(c) if l is not UNDEF):
        q = I.freeze(st, a[1])

        def f(t, q):
            # any text, as the string trimmed ranges over all strings
            return mkT('trimmed' if t.op in ('sym', 'trimmed') else 'app', *([t, q] if t.op in ('sym', 'trimmed') else ['trim', t, q]), ty='str')
        v = apply_n(f, c, q)
        n = content_len(I, v)
        I.extra_facts.append((TRUE, map_leaves(lambda x: x, sub(content_len(I, c), n))))
        r = I.temp_ref(st, v)
        return map_leaves(lambda n: mkT('slice', r.args[0], (), INT(0), n), n)

    def cut(l):
        cs = chars(l)

        def at(k):
            m = TRUE
            for x, y in zip(cs[k:k + len(pat)], pat):
                m = AND(m, same_char(x, y))
            if len(cs) < k + len(pat) or m is FALSE:
                return INT(k)
            return ite(m, at(k + len(pat)), INT(k))
        return at(0)
    k = on_text(cut, c)
    return apply_n(lambda x, o: mkT('slice', x.args[0], x.args[1], add(x.args[2], o), sub(x.args[3], o)), sl, k)


def same_char(x, y):
    if x.op == 'hexc' and y.op == 'int':
        if chr(y.args[0]) not in ('0123456789ABCDEF' if x.args[2] else '0123456789abcdef'):
            return FALSE
        d = int(chr(y.args[0]), 16)
        r = digits([x])[0]
        return eq_int(r, INT(d))
    return eq_int(x, y)


TYPES = r'fuel_types::types::\w+'


def rules():
    """contracts for the analysis of formatting and parsing"""
    t = [(r'^core::fmt::rt::Argument::new_', m_argument), (r'^core::fmt::Arguments::new$', m_args_new), (r'^core::fmt::Arguments::from_str(_nonconst)?$', m_args_str),
         (r'^core::fmt::Formatter::write_fmt$', m_write_fmt), (r'^core::fmt::Formatter::write_str$', m_write_str),
         (r'^core::fmt::Formatter::alternate$', m_alternate), (r'^core::fmt::Formatter::width$', m_width), (r'^alloc::fmt::format$', m_format),
         (r'^core::num::<impl u(8|16|32|64)>::from_str_radix$', m_from_str_radix), (r'^core::str::<impl str>::trim_start_matches$', m_trim_start)]
    n = [(r'^<%s as core::fmt::(LowerHex|UpperHex|Display|Debug)>::fmt$' % TYPES, m_bytes_fmt), (r'^<%s as core::str::traits::FromStr>::from_str$' % TYPES, m_bytes_from_str),
         (r'^<%s as core::str::FromStr>::from_str$' % TYPES, m_bytes_from_str)]
    return [((lambda i, r=re.compile(rx): bool(r.search(i.key))), h) for rx, h in t] + [((lambda i, r=re.compile(rx): bool(r.search(i.name))), h) for rx, h in n]
