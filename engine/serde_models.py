"""Models of the serde data format interface: a format that presents a given list of fields."""
from . import terms as t
from .models import model, find_impl, mkseq
from .evalr import Undecided, pack
from .terms import raw

DE = 'serde_core::de::'


class Input:
    """what the format presents: fields [(name, value term)], as a map or as a sequence; how fields are identified"""

    def __init__(self, fields, form='map', ident='str', names=()):
        self.fields = fields
        self.form = form
        self.ident = ident      # str / bytes / u64
        self.names = list(names)
        self.idx = None
        self.declared = []


def visit(ev, st, visitor, vty, method, args):
    for tr in (DE + 'Visitor', 'serde::de::Visitor'):
        fn = find_impl(ev, tr, method, vty)
        if fn is not None:
            return ev.call_body(st, fn, ev.F.body(fn), [visitor] + args)
    raise Undecided('no %s' % method)


@model('Deserializer::deserialize_struct', 'Deserializer::deserialize_map', 'Deserializer::deserialize_any')
def _(ev, st, a, c):
    inp = ev.serde
    vis, vty = a[-1], c.argtys[-1]
    if c.name.endswith('deserialize_struct'):
        inp.declared.append(ev.pval(st, a[2]))
    return visit(ev, st, vis, vty, 'visit_' + inp.form, [raw('serde', inp.form)])


@model('Deserializer::deserialize_identifier', 'Deserializer::deserialize_str', 'Deserializer::deserialize_string')
def _(ev, st, a, c):
    inp = ev.serde
    n = inp.idx
    if inp.ident == 'u64' and c.name.endswith('identifier'):
        return visit(ev, st, a[-1], c.argtys[-1], 'visit_u64', [t.num(inp.names.index(n))])
    if inp.ident == 'bytes' and c.name.endswith('identifier'):
        return visit(ev, st, a[-1], c.argtys[-1], 'visit_bytes', [mkseq([t.num(b) for b in n.encode()])])
    return visit(ev, st, a[-1], c.argtys[-1], 'visit_str', [raw('str', n)])


def pos(st):
    v = st.env.get(('T', 'serdepos'))
    return 0 if v is None else int(v.args[0])


@model('MapAccess::next_key')
def _(ev, st, a, c):
    inp = ev.serde
    i = pos(st)
    if i >= len(inp.fields):
        return t.ok(t.NONE)
    inp.idx = inp.fields[i][0]
    k = [x for x in c.targs if isinstance(x, int)][-1]
    fn = find_impl(ev, DE + 'Deserialize', 'deserialize', k)
    if fn is None:
        x = ev.ty(k)
        if x['k'] == 'adt' and x['def'].endswith('String'):
            return t.ok(t.some(raw('str', inp.idx)))
        raise Undecided('keys of type ' + ev.F.tstr(k))
    r = ev.call_body(st, fn, ev.F.body(fn), [raw('serde', 'key')])
    return t.lift('next_key', okval, pack(r))


def okval(v):
    if v.op == 'ctor' and v.args[0] == 'Ok':
        return t.ok(t.some(v.args[1]))
    return v


@model('MapAccess::next_value')
def _(ev, st, a, c):
    i = pos(st)
    st.env[('T', 'serdepos')] = t.num(i + 1)
    return t.ok(ev.serde.fields[i][1])


@model('MapAccess::next_entry')
def _(ev, st, a, c):
    raise Undecided('next_entry')


@model('SeqAccess::next_element')
def _(ev, st, a, c):
    i = pos(st)
    if i >= len(ev.serde.fields):
        return t.ok(t.NONE)
    st.env[('T', 'serdepos')] = t.num(i + 1)
    return t.ok(t.some(ev.serde.fields[i][1]))


@model('de::missing_field', 'Error::missing_field', 'Error::duplicate_field', 'Error::invalid_length', 'Error::invalid_value', 'Error::unknown_field',
       'Error::invalid_type')
def _(ev, st, a, c):
    e = raw('serde_error', c.name)
    return t.err(e) if c.name.startswith('de::') else e


# ---------------------------------------------------------------- writing
@model('Serializer::serialize_struct', 'Serializer::serialize_map')
def _(ev, st, a, c):
    return t.ok(raw('serde', 'writer'))


@model('SerializeStruct::serialize_field', 'SerializeMap::serialize_entry')
def _(ev, st, a, c):
    w = st.env.get(('T', 'serdeout'), t.EMPTYSEQ)
    st.env[('T', 'serdeout')] = t.push(w, t.struct('entry', [('name', ev.pval(st, a[-2])), ('value', ev.pval(st, a[-1]))]))
    return t.ok(t.UNIT)


@model('SerializeStruct::skip_field')
def _(ev, st, a, c):
    return t.ok(t.UNIT)


@model('SerializeStruct::end', 'SerializeMap::end')
def _(ev, st, a, c):
    return t.ok(t.UNIT)
