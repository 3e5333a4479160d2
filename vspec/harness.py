"""One harness per property: the code of /repo is called and its behaviour is
compared with the contracts (lay.py, dec.py).  The same text runs symbolically
(every input) and concretely (replay, cross-check)."""
import json

from vspec import dec, lay
from vspec.lay import UNSPEC


# ------------------------------------------------------------ C01, C02
def C01(env):
    """accepted iff well formed, known type, valid continuation number, layout"""
    line = env.line('line')
    r = env.subject()
    o = env.run(lambda: r.read(line))
    s = lay.reading(line)
    if s.accepted == UNSPEC:
        return
    if s.accepted:
        env.cover(s.code + ' ' + s.layout)
        env.ensure('a well formed record of a supported type is accepted', o.returned and o.value is True, o.describe())
    else:
        env.ensure('anything else is not accepted', not (o.returned and o.value), o.describe())


def C02(env):
    """reading any text returns a bool and never raises"""
    line = env.line('line')
    r = env.subject()
    o = env.run(lambda: r.read(line))
    env.ensure('read returns', o.returned, o.describe())
    env.ensure('read returns a bool', o.value is True or o.value is False, o.describe())
    if o.value is False:
        p = env.run(lambda: (r.primary(), r.hasCont()))
        env.ensure('a record that was rejected can still be asked for its status', p.returned, p.describe())


def accepted(env, line=None):
    """an accepted record and its reading, or None"""
    if line is None:
        line = env.line('line')
    r = env.subject()
    o = env.run(lambda: r.read(line))
    if not (o.returned and o.value is True):
        return None
    s = lay.reading(line)
    if s.accepted is not True:
        return None
    env.cover(s.code + ' ' + s.layout)
    return r, s, o


# ------------------------------------------------------------ C03
def C03(env):
    """every field: assigned name, assigned columns, assigned order"""
    line = env.line('line')
    s = lay.reading(line)
    if s.accepted is not True:
        return
    env.cover(s.code + ' ' + s.layout)
    r = env.subject()
    o = env.run(lambda: r.read(line))
    env.ensure('the record is read', o.returned and o.value is True, o.describe())
    env.other_record()
    exp = s.fields()
    names = [f.name for f in r.fields]
    env.ensure('the fields of the layout, in order', names == [e[0] for e in exp], s.code + ' ' + s.layout)
    for f, e in zip(r.fields, exp):
        env.ensure('value of a field is the text in its columns', f.value == lay.column(s.raw, e[1]),
                   s.code + ' ' + s.layout + ' ' + e[0])


# ------------------------------------------------------------ C04
def state(r):
    d = getattr(r, 'definition', -1)       # the type of the record, if it is known
    return [r.ident, r.raw, r.continuation, [[f.name, f.value] for f in r.fields], r.primary(), r.hasCont(),
            d if type(d) is int else type(d).__name__]


def C04(env):
    """whitespace around the record makes no difference"""
    line = env.line('line')
    body = env.body_of(line)
    a, b = env.Record(), env.Record()
    o = env.run(lambda: a.read(line))
    p = env.run(lambda: b.read(body))
    env.ensure('same outcome', o.kind == p.kind, o.describe() + ' / ' + p.describe())
    if not o.returned:
        return
    env.ensure('same verdict', o.value == p.value, o.describe() + ' / ' + p.describe())
    if p.value:
        x, y = env.run(lambda: state(a)), env.run(lambda: state(b))
        env.ensure('same record', x.kind == y.kind and (not x.returned or x.value == y.value), y.describe())
    env.ensure('same output', o.stdout() == p.stdout())


# ------------------------------------------------------------ C05
def C05(env):
    """type identification and the section code shown agree"""
    line = env.line('line')
    s = lay.reading(line)
    r = env.subject()
    if s.accepted is not True:
        if s.untyped:
            o = env.run(lambda: r.read(line))
            env.ensure('no type for a record that names none', not (o.returned and o.value), o.describe())
        return
    env.cover(s.code + ' ' + s.layout)
    o = env.run(lambda: r.read(line))
    env.ensure('the record is read', o.returned and o.value is True, o.describe())
    env.ensure('type from columns 5-6, else from columns 5 and 13', r.ident == s.code, s.code)
    col = s.raw[5] if s.code in lay.COL6 or (s.code == 'DB' and s.raw[4:6] == 'DB') else s.raw[12]
    sec = [f for f in r.fields if f.name == 'Section Code']
    env.ensure('one section code', len(sec) == 1, s.code)
    env.ensure('section code shown is section and subsection of the record', sec[0].value == s.raw[4] + col, s.code)
    if col == s.code[1]:
        d = env.run(lambda: sec[0].decode(r))
        env.ensure('and names the type', d.returned and d.value == dec.CODES['F004'][s.code], s.code)


# ------------------------------------------------------------ C06
def C06(env):
    """primary or continuation, and which layout"""
    line = env.line('line')
    s = lay.reading(line)
    r = env.subject()
    if s.accepted is not True:
        if s.code is not None and s.accepted is False:
            o = env.run(lambda: r.read(line))
            env.ensure('no layout for a record without one', not (o.returned and o.value), s.code)
        return
    env.cover(s.code + ' ' + s.layout)
    o = env.run(lambda: r.read(line))
    env.ensure('the record is read', o.returned and o.value is True, o.describe())
    env.ensure('continuation number', r.continuation == s.cont, s.code)
    p = env.run(lambda: r.primary())
    h = env.run(lambda: r.hasCont())
    env.ensure('primary iff 0, 1 or no number', p.returned_bool(s.cont == '0' or s.cont == '1'), s.code)
    env.ensure('has continuations iff 1', h.returned_bool(s.cont == '1'), s.code)
    exp = s.fields()
    env.ensure('layout of the application type', [f.name for f in r.fields] == [e[0] for e in exp],
               s.code + ' ' + s.layout)


# ------------------------------------------------------------ C07
def C07(env):
    """what was read before makes no difference"""
    line = env.line('line')
    a = env.used_record('before')
    b = env.Record()
    o = env.run(lambda: a.read(line))
    p = env.run(lambda: b.read(line))
    env.ensure('same outcome as a fresh record', o.kind == p.kind, o.describe() + ' / ' + p.describe())
    env.ensure('same output as a fresh record', o.stdout() == p.stdout())
    if o.returned:
        env.ensure('same verdict as a fresh record', o.value == p.value, o.describe() + ' / ' + p.describe())
        x, y = env.run(lambda: state(a)), env.run(lambda: state(b))
        env.ensure('same contents as a fresh record', x.kind == y.kind and (not x.returned or x.value == y.value))
        env.ensure('same attributes as a fresh record', env.same_attributes(a, b))
        env.ensure('as if nothing had been read before', env.as_in_a_fresh_process(a, line, o))
        was = env.snapshot(a)
        env.other_record()
        env.ensure('reading another record leaves this one as it was', env.snapshot(a) == was)


# ------------------------------------------------------------ C08
def C08(env):
    """json: every field, verbatim, under its own name"""
    x = accepted(env)
    if x is None:
        return
    r, s, _ = x
    single = env.choice('single_line', [True, False])
    output = env.choice('output', [False, True, None])
    if output is None:
        output = True
        o = env.run((lambda: r.json()) if single else (lambda: r.json(single_line=False)))
    else:
        o = env.run(lambda: r.json(output, single_line=single))
    env.ensure('json returns', o.returned, o.describe())
    d = env.loads(o.value)
    env.ensure('an object', d is not None)
    exp = s.fields()
    env.ensure('one entry per field', len(d) == len(exp), s.code + ' ' + s.layout)
    for e in exp:
        env.ensure('a field is present', e[0] in d, s.code + ' ' + e[0])
        env.ensure('its value is the text in its columns', d[e[0]] == lay.column(s.raw, e[1]), s.code + ' ' + e[0])
    env.ensure('printed iff asked', o.stdout() == (o.value + '\n' if output else ''))
    if single:
        env.ensure('on one line', env.one_line(o.value))


# ------------------------------------------------------------ C09
def C09(env):
    """decode: one row per field, in order"""
    x = accepted(env)
    if x is None:
        return
    r, s, _ = x
    output = env.choice('output', [False, True, None])
    env.abstract_decoders(r)
    rows = []
    bad = False
    for f in r.fields:
        d = env.run(lambda: f.decode(r))
        if not d.returned:
            bad = True
            break
        rows.append([f.name, "'" + f.value + "'", d.value])
    if output is None:
        output = True
        o = env.run(lambda: r.decode())
    else:
        o = env.run(lambda: r.decode(output))
    if bad:
        env.ensure('an invalid field raises ValueError', o.raised(ValueError), o.describe())
        return
    exp = s.fields()
    env.ensure('a row per field', len(rows) == len(exp), s.code)
    env.ensure('decode returns', o.returned, o.describe())
    for row, e in zip(rows, exp):
        env.ensure('name and value of the field', row[0] == e[0] and row[1] == "'" + lay.column(s.raw, e[1]) + "'",
                   s.code + ' ' + e[0])
    t = env.table(['Field', 'Value', 'Decoded'], rows)
    env.ensure('table of the fields', o.value == t, s.code + ' ' + s.layout)
    env.ensure('printed iff asked', env.ends_with(o, t + '\n') if output else not env.contains_text(o, t))


# ------------------------------------------------------------ C10 .. C15
def decoders(env, families):
    x = accepted(env)
    if x is None:
        return
    r, s, _ = x
    exp = s.fields()
    byname = {}
    for f in r.fields:
        byname.setdefault(f.name, f)
    for e in exp:
        kind = e[2]
        if dec.family(kind) not in families:
            continue
        what = s.code + ' ' + s.layout + ' ' + e[0]
        f = byname.get(e[0])
        env.ensure('the field is there', f is not None, what)
        v = lay.column(s.raw, e[1])
        env.ensure('the field holds its columns', f.value == v, what)
        env.decode_contract(f, r, v, (kind, s.code if kind == 'F007' else ''),
                            lambda rec: decoder_contract(env, f, rec, kind, v, s.code, what))


def decoder_contract(env, f, rec, kind, v, code, what):
    o = env.run(lambda: f.decode(rec))
    c = dec.spec(kind, v, code)
    if c[0] == '=':
        env.ensure('decoded text of ' + kind, o.returned and env.text(o.value) == c[1], what + ': ' + o.describe())
    elif c[0] == '!':
        env.ensure('invalid value of ' + kind + ' is refused', o.raised(ValueError), what + ': ' + o.describe())
    else:
        env.ensure('decoder of ' + kind + ' returns or raises ValueError', o.returned or o.raised(ValueError),
                   what + ': ' + o.describe())


def C10(env):
    decoders(env, ('coded',))


def C11(env):
    decoders(env, ('numeric',))


def C12(env):
    decoders(env, ('verbatim',))


def C14(env):
    decoders(env, ('compound',))


def C15(env):
    decoders(env, ('cycle',))


def C13(env):
    """a decoder returns or raises ValueError, nothing else"""
    line = env.line('line')
    r = env.subject()
    o = env.run(lambda: r.read(line))
    if not (o.returned and o.value is True):
        return
    for f in r.fields:
        env.decode_contract(f, r, f.value, 'total', lambda rec: total_contract(env, f, rec))


def total_contract(env, f, rec):
    o = env.run(lambda: f.decode(rec))
    env.ensure('decoding returns or raises ValueError', o.returned or o.raised(ValueError), o.describe())
    if o.returned:
        env.ensure('decoding returns a text or a number', isinstance(o.value, (str, int, float)), o.describe())


# ------------------------------------------------------------ C16
def C16(env):
    """parse: verdict returned, table printed iff asked"""
    line = env.line('line')
    output = env.choice('output', [True, False, None])
    r = env.Record()
    env.abstract_record_decode()
    a = env.run(lambda: r.read(line))
    d = env.run(lambda: r.decode(output is not False)) if a.returned and a.value else None
    o = env.run(lambda: env.pkg.parse(line, output) if output is not None else env.pkg.parse(line))
    if not a.returned:
        return
    if not a.value:
        env.ensure('False for a line that is not a record', o.returned_bool(False), o.describe())
        env.ensure('nothing but what reading prints', o.stdout() == a.stdout())
    elif d.returned:
        env.ensure('True for a record', o.returned_bool(True), o.describe())
        env.ensure('prints the table iff asked', o.stdout() == a.stdout() + d.stdout())
    else:
        env.ensure('an invalid field surfaces as ValueError', o.raised(ValueError), o.describe())


# ------------------------------------------------------------ C17, C18
def C17(env):
    """read_file: every line, once, in order"""
    output = env.choice('output', [True, False, None])
    env.read_file_contract(output)


def C20(env):
    """read_folder: every file of the folder, once"""
    env.read_folder_contract()


def C18(env):
    """search: exactly the matching records, in order, and their number"""
    if env.choice('part', env.parts()) == 'read':
        env.read_lemma()        # what the loop over the lines relies on
        return
    kind = env.choice('filters', ['text', 'list', 'list 0', 'list 1', 'list 2', 'list 3'])
    env.search_contract(kind)


# ------------------------------------------------------------ C19
def pure_contract(env, f, r, rec):
    was = env.snapshot(r)
    a = env.run(lambda: f.decode(rec))
    env.ensure('decoding a field leaves the record unchanged', env.snapshot(r) == was)
    b = env.run(lambda: f.decode(rec))
    env.ensure('decoding a field twice gives the same text', a.kind == b.kind and
               (not a.returned or env.text(a.value) == env.text(b.value)), a.describe())
    env.ensure('and the same output', a.stdout() == b.stdout())


def C19(env):
    """inspecting a record does not change it, nor any other record"""
    line = env.line('line')
    r = env.subject()
    o = env.run(lambda: r.read(line))
    if not o.returned:
        return
    for f in r.fields:
        env.decode_contract(f, r, f.value, 'pure', lambda rec: pure_contract(env, f, r, rec))
    env.abstract_decoders(r)
    was = env.snapshot(r)
    other = env.other_record()
    env.ensure('reading another record leaves this one as it was', env.snapshot(r) == was)
    owas = env.snapshot(other)
    single = env.choice('single_line', [True, False])
    ops = [lambda: r.primary(), lambda: r.hasCont(), lambda: r.json(False, single), lambda: r.decode(False),
           lambda: r.json(True, single), lambda: r.decode(True)]
    for op in ops:
        a = env.run(op)
        env.ensure('the record is unchanged', env.snapshot(r) == was)
        b = env.run(op)
        env.ensure('asking twice gives the same answer', a.kind == b.kind and (not a.returned or a.value == b.value))
        env.ensure('and the same output', a.stdout() == b.stdout())
    env.ensure('another record is unchanged', env.snapshot(other) == owas)
    env.ensure('other records are read and decoded as before', env.library_as_before())
