"""Meaning of the formatting machinery: the text written to a formatter, as a sequence of literal pieces and values."""
import ast
from . import terms as t
from .models import model, find_impl, tcat, deep
from .evalr import Agg, Undecided, pack, hasref, newid
from .terms import raw, BOT


def text(*xs):
    """concatenation"""
    r = xs[0]
    for x in xs[1:]:
        r = t.lift('text', _app, r, x)
    return r


def _app(a, b):
    ts = (list(a.args) if a.op == 'text' else [a]) + (list(b.args) if b.op == 'text' else [b])
    out = []
    for x in ts:
        if x is BOT:
            return BOT
        if x.op == 'str' and out and out[-1].op == 'str':
            out[-1] = raw('str', out[-1].args[0] + x.args[0])
        elif x.op == 'str' and x.args[0] == '':
            continue
        else:
            out.append(x)
    if len(out) > 1 and any(x.op == 'str' and x.args[0] == '' for x in out):
        out = [x for x in out if not (x.op == 'str' and x.args[0] == '')]
    if not out:
        return raw('str', '')
    if len(out) == 1:
        return out[0]
    return raw('text', *out)


EMPTY = raw('str', '')


def ref_to(ev, st, v):
    k = newid()
    st.env[('T', k)] = v
    return raw('pt', k)


def shown(ev, st, v, ty, trait):
    """text of a value"""
    if ty is not None:
        ty = deep(ev, ty)
    x = ev.ty(ty) if ty is not None else None
    while not isinstance(v, Agg) and hasref(v):
        w = ev.read_ref(st, v)
        if isinstance(w, Agg) or not hasref(w):
            break
        v = w
    if x is None:
        raise Undecided('text of a value of unknown type')
    k = x['k']
    if trait == 'Display':
        if k in ('float', 'int', 'uint', 'param', 'bool', 'char'):
            return t.fn('shown', ev.pval(st, v))
        if k == 'str' or (k == 'adt' and x['def'] == 'alloc::string::String'):
            return ev.pval(st, v)
        if k == 'adt':
            fn = find_impl(ev, 'core::fmt::Display', 'fmt', ty)
            if fn is not None and fn.body is not None:
                f = ref_to(ev, st, EMPTY)
                r = ev.call_body(st, fn, ev.F.body(fn), [v, f])
                if isinstance(r, Agg) or r is not t.ok(t.UNIT):
                    raise Undecided('printing can fail')
                return pack(ev.read_ref(st, f))
    try:
        w = ev.pval(st, v)
    except Undecided:
        w = raw('opaque')
    return t.fn('shown', raw('str', trait), w)


@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_exp', 'Argument::new_lower_hex', 'Argument::new_upper_hex')
def _(ev, st, a, c):
    # the type of the reference that is printed
    ty = c.argtys[0]
    return raw('fmtarg', a[0] if not isinstance(a[0], Agg) else ref_to(ev, st, a[0]), ty, c.name.split('new_')[1].capitalize())


@model('Argument::from_usize', 'Argument::none')
def _(ev, st, a, c):
    return raw('fmtarg', a[0] if a else BOT, None, 'Count')


@model('Arguments::new', 'Arguments::new_v1', 'Arguments::new_const', 'Arguments::new_v1_formatted')
def _(ev, st, a, c):
    return raw('fmtargs', *[pack(ev.val(st, x)) if not isinstance(x, str) else x for x in a])


@model('Arguments::from_str', 'Arguments::from_str_nonconst')
def _(ev, st, a, c):
    return raw('fmtargs', ev.pval(st, a[0]))


def pieces(x):
    """template -> list of str / argument number / None for an argument with options"""
    s = x.args[0]
    if not s.startswith('b"'):
        raise Undecided('format template')
    b = ast.literal_eval(s)
    out = []
    i = 0
    n = 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(b[i:i + c].decode())
            i += c
        elif c == 0x80:
            k = b[i] | b[i + 1] << 8
            i += 2
            out.append(b[i:i + k].decode())
            i += k
        elif c == 0xC0:
            out.append((n, None))
            n += 1
        else:
            opt = []
            k = n
            if c & 1:
                opt.append(('flags', bytes(b[i:i + 4])))
                i += 4
            if c & 2:
                opt.append(('width', bytes(b[i:i + 2]), bool(c & 16)))
                i += 2
            if c & 4:
                opt.append(('precision', bytes(b[i:i + 2]), bool(c & 32)))
                i += 2
            if c & 8:
                k = b[i] | b[i + 1] << 8
                i += 2
            out.append((k, tuple(opt) or None))
            n = k + 1
    return out


def render(ev, st, args):
    if isinstance(args, Agg) or not args.isT or args.op != 'fmtargs':
        raise Undecided('format arguments')
    if len(args.args) == 1:
        return args.args[0]
    tpl, vals = args.args[0], args.args[1]
    if tpl.op != 'constopq' or not (vals.isT and vals.op == 'cat'):
        raise Undecided('format template')
    vals = vals.args[1:]
    r = EMPTY
    for p in pieces(tpl):
        if isinstance(p, str):
            r = text(r, raw('str', p))
            continue
        i, opt = p
        v = vals[i]
        if v.op != 'fmtarg':
            raise Undecided('format argument')
        if opt is not None and any(x[0] != 'flags' and x[-1] for x in opt):
            raise Undecided('format argument with a computed width')
        s = shown(ev, st, v.args[0], v.args[1], v.args[2])
        if opt is not None:
            s = t.fn('formatted', raw('str', repr(opt)), s)
        r = text(r, s)
    return r


def emit(ev, st, f, s):
    while True:
        if isinstance(f, Agg) or not hasref(f):
            raise Undecided('output of a formatter that is not a place')
        w = ev.read_ref(st, f)
        if not isinstance(w, Agg) and hasref(w):
            f = w
            continue
        break
    if isinstance(w, Agg):
        raise Undecided('formatter')
    if ev.locks is None:
        # what is written does not matter when only locks are tracked
        ev.write_ref(st, f, text(w, s))
    return t.ok(t.UNIT)


@model('Formatter::write_fmt', 'Write::write_fmt')
def _(ev, st, a, c):
    return emit(ev, st, a[0], render(ev, st, pack(ev.val(st, a[1]))))


@model('Formatter::write_str', 'Write::write_str', 'Formatter::pad', 'String::push_str', 'Formatter::write_char', 'Write::write_char')
def _(ev, st, a, c):
    r = emit(ev, st, a[0], ev.pval(st, a[1]))
    return t.UNIT if c.name == 'String::push_str' else r


@model('Display::fmt')
def _(ev, st, a, c):
    return emit(ev, st, a[1], shown(ev, st, a[0], c.argtys[0], 'Display'))


@model('fmt::format', 'format::format_inner')
def _(ev, st, a, c):
    return render(ev, st, pack(ev.val(st, a[0])))
