"""Contracts of the field decoders.

spec(kind, value, ident) is what the decoder of a field of that kind must do
with that value in a record of that type:
    ('=', text)   return a value whose text is exactly this
    ('!',)        raise ValueError
    ('?',)        unspecified (any value, or ValueError)
Kinds are named after the section of ARINC 424-18 chapter 5 (F023 is 5.23).
Texts are built digit by digit: no floating point in the specification."""
from vspec.tables import CODES, ROUTE_TYPE, WAYPOINT_DESC, WAYPOINT_TYPE, BOUNDARY_VIA, NAME_FORMAT

UNKNOWN = '<UNKNOWN>'
RAISE = ('!',)
ANY = ('?',)


def eq(t):
    return ('=', t)


def digits(v):
    """non-empty and only the ten ASCII digits"""
    return v.isascii() and v.isdecimal()


def blank(v):
    return v.strip() == ''


def lookup(table, code):
    return table[code] if code in table else None


# ------------------------------------------------------------ coded fields
# what an unassigned code is turned into
ELSE_RAISE = ('F002', 'F020', 'F108', 'F182', 'F270')
ELSE_VALUE = ('F049', 'F102', 'F112', 'F113', 'F117', 'F165')
ELSE_UNKNOWN = ('F003', 'F004', 'F101', 'F104', 'F106', 'F181', 'F198', 'F199')
ELSE_UNSUPPORTED = ('F177', 'F179')
BLANK_VALUE = ('F004', 'F106', 'F199')
CODED = ELSE_RAISE + ELSE_VALUE + ELSE_UNKNOWN + ELSE_UNSUPPORTED + ('F016', 'F021', 'F091')


def coded(kind, v):
    if kind == 'F021':
        w = v.strip()
        if w == '':
            return eq(w)
        if not w.isalpha():
            return RAISE
        m = lookup(CODES[kind], w)
        return eq(UNKNOWN if m is None else m)
    if kind in BLANK_VALUE and blank(v):
        return eq(v)
    m = lookup(CODES[kind], v)
    if m is not None:
        return eq(m)
    if kind == 'F270' and v == ' ':
        return eq(v)
    if kind in ELSE_RAISE:
        return RAISE
    if kind in ELSE_VALUE:
        return eq(v)
    if kind in ELSE_UNKNOWN:
        return eq(UNKNOWN)
    if kind in ELSE_UNSUPPORTED:
        return eq('Unsupported Value: "' + v + '"')
    if kind == 'F016':
        return eq(v + ' - Continuation')
    return eq('Unknown Application Type: ' + v)


# ------------------------------------------------------------ numeric fields
FEET = ('F029', 'F030', 'F048', 'F050', 'F053', 'F073', 'F086', 'F092', 'F123', 'F127', 'F147', 'F161', 'F184',
        'F209', 'F240')
NUMERIC = FEET + ('F026', 'F027', 'F034', 'F039', 'F045', 'F054', 'F062', 'F065', 'F072', 'F103', 'F135', 'F178',
                  'F269')
ZONES = 'MLKIHGFEDCBAZNOPQRSTUVWXY'      # M is GMT-12, Z is GMT, Y is GMT+12; J is not used


def unpad(d):
    """digits without leading zeros"""
    return str(int(d))


def tenths(d):
    return unpad(d[:-1] or '0') + '.' + d[-1:]


def hundredths(d):
    d = '00' + d
    return unpad(d[:-2]) + '.' + d[-2:]


def numeric(kind, v):
    if kind in FEET:
        if digits(v):
            return eq(unpad(v) + ' ft')
        return ANY if v.isnumeric() else eq(v)
    if kind == 'F054':        # hundreds of feet
        if digits(v):
            n = v.lstrip('0')
            return eq(n + '00 ft')
        return ANY if v.isnumeric() else eq(v)
    if kind in ('F045', 'F103'):
        if digits(v):
            return eq(hundredths(v))
        return ANY if v.isnumeric() else eq('BAD VALUE')
    if kind in ('F062', 'F135'):
        if digits(v):
            return eq(tenths(v))
        return ANY if v.isnumeric() else eq('BAD VALUE')
    if kind == 'F034':
        w = v.strip()
        if w == '':
            return eq(w)
        if digits(w):
            return eq(hundredths(w))
        return ANY if w.isnumeric() else RAISE
    if kind == 'F026':
        w = v.strip()
        if w == '':
            return eq(w)
        if not w.isalnum():
            return RAISE
        if w.endswith('T'):       # degrees true: shown as published
            return eq(w)
        return eq(tenths(w)) if digits(w) else ANY
    if kind == 'F027':
        w = v.strip()
        if w == '':
            return eq(w)
        if w[0] == 'T':
            return eq(tenths(w[1:]) + ' min') if digits(w[1:]) else ANY
        return eq(tenths(w) + ' nm') if digits(w) else ANY
    if kind == 'F039':
        if blank(v):
            return eq(v)
        if digits(v[1:]):
            n = unpad(v[1:])
            return eq('0' * (3 - len(n)) + n + ' ' + v[0])
        return ANY
    if kind == 'F065':            # minutes and tenths of a minute
        if blank(v):
            return eq(v)
        if digits(v):
            return eq(v[0] + 'm ' + str(int(v[1]) * 6) + 's')
        return ANY
    if kind == 'F072':
        if digits(v):
            return eq(v + ' knots (IAS)')
        if blank(v):
            return eq(v)
        return ANY if v.isnumeric() else RAISE
    if kind == 'F178':
        if v[0].isalpha() and v[1:].isnumeric():
            if v[0] not in ZONES:
                return RAISE
            if not digits(v[1:]):
                return ANY
            h = ZONES.index(v[0]) - 12
            return eq('GMT ' + ('+' if h >= 0 else '-') + str(abs(h)) + ':' + v[1:])
        return eq('Unsupported Value: "' + v + '"')
    if kind == 'F269':
        if blank(v):
            return eq(v)
        return eq(tenths(v)) if digits(v) else ANY
    raise AssertionError(kind)


# ------------------------------------------------------------ verbatim fields
def verbatim(kind, v):
    if kind == 'F043':
        return eq(v.strip())
    if kind == 'F008':
        return eq(v) if v.strip().isalnum() else RAISE
    if kind == 'F022':
        w = v.strip()
        return eq(w) if w == '' or w.isalpha() else RAISE
    if kind in ('F023', 'F024', 'F025'):
        w = v.strip()
        return eq(w) if w == '' or (w.isalnum() and len(w) <= 4) else RAISE
    return eq(v)


# ------------------------------------------------------------ compound and context-dependent fields
COMPOUND = ('F007', 'F010', 'F012', 'F017', 'F042', 'F082', 'F118', 'F196')
SEQUENCE = {1: 'MSA Table, TAA Table, Cruise Table - Sequence No. ',
            2: 'VHF Navaid Limitation Continuation Records - Sequence No. ',
            3: 'SID/STAR/Approach and Company Routes - Sequence No. ',
            4: 'Enroute Airways, Preferred Routes, FIR/UIR, and Restrictive Airspace - Sequence No. '}


def compound(kind, v, ident):
    if kind == 'F007':
        m = lookup(ROUTE_TYPE[ident], v) if ident in ROUTE_TYPE else None
        return eq(UNKNOWN if m is None else m)
    if kind == 'F010':
        return eq('Approach: ' + v[0] + ', Runway: ' + v[1:4])
    if kind == 'F012':
        n = len(v.strip())
        return eq(SEQUENCE[n] + v) if n in SEQUENCE else eq(v)
    if kind == 'F017':
        out = ''
        for i in range(4):
            m = lookup(WAYPOINT_DESC[i], v[i])
            if m is not None:
                out = out + m
        return eq(out.strip())
    if kind == 'F042':
        m = lookup(WAYPOINT_TYPE[0], v[0])
        if m is not None:
            return eq(m + v[1:] if v[0] == 'N' else m)
        m = lookup(WAYPOINT_TYPE[1], v[1])
        return eq('Unknown Waypoint Type' if m is None else m)
    if kind == 'F082':
        if v[1] == 'B':
            return eq('HI and LO Altitude')
        if v[1] == 'H':
            return eq('HI Altitude')
        if v[1] == 'L':
            return eq('LO Altitude')
        if v[1] == ' ':
            return eq('Terminal Use Only')
        return eq('RNAV') if v[0] == 'R' else RAISE
    if kind == 'F118':
        m = lookup(BOUNDARY_VIA, v[0])
        if m is None:
            return eq('Unsupported Value: "' + v + '"')
        return eq(m + ', End of description, return to origin point' if v[1] == 'E' else m)
    if kind == 'F196':
        m = lookup(NAME_FORMAT[0], v[0])
        if m is None:
            m = lookup(NAME_FORMAT[1], v[1])
        return eq('Unknown Name Format Indicator' if m is None else m)
    raise AssertionError(kind)


# ------------------------------------------------------------ cycle date
def cycle(v):
    """YYCC: two digits of the year, 51-99 in the twentieth century"""
    if not digits(v):
        return ANY
    return eq(('19' if v[:2] > '50' else '20') + v[:2] + ', Release ' + v[2:])


def family(kind):
    if kind in CODED:
        return 'coded'
    if kind in NUMERIC:
        return 'numeric'
    if kind in COMPOUND:
        return 'compound'
    if kind == 'F032':
        return 'cycle'
    return 'verbatim'


def spec(kind, v, ident):
    f = family(kind)
    if f == 'coded':
        return coded(kind, v)
    if f == 'numeric':
        return numeric(kind, v)
    if f == 'compound':
        return compound(kind, v, ident)
    if f == 'cycle':
        return cycle(v)
    return verbatim(kind, v)
