"""Contract of reading: what a line of text is, as a function of the line."""
import json
import os

with open(os.path.join(os.path.dirname(__file__), 'layout.json')) as _f:
    LAYOUT = json.load(_f)

CODES = list(LAYOUT)
# subsection column: record types whose Section Code comes from columns 5 and 6
COL6 = [c for c in CODES if any(f[1] == 'S6' for fs in LAYOUT[c]['layouts'].values() for f in fs)]

UNSPEC = 'unspecified'


class Reading:
    """accepted: True, False or UNSPEC (input outside the specified domain);
    for an accepted line: its type, continuation number and layout"""

    def __init__(self, accepted, raw='', code=None, cont=None, layout=None, app=None):
        self.accepted = accepted
        self.raw = raw
        self.code = code
        self.cont = cont
        self.layout = layout
        self.app = app
        self.untyped = False

    def primary(self):
        return self.cont == '0' or self.cont == '1'

    def fields(self):
        return LAYOUT[self.code]['layouts'][self.layout]


REJECT = Reading(False)
UNTYPED = Reading(False)
UNTYPED.untyped = True


def well_formed(body):
    """True / False / UNSPEC: S or T, 132 characters, nine numerals at the end"""
    if not (body.startswith('S') or body.startswith('T')):
        return False
    if len(body) != 132:
        return False
    tail = body[123:132]
    if tail.isascii():
        return tail.isdecimal()
    return UNSPEC if tail.isnumeric() else False


def find_type(body):
    a = body[4:6]
    for c in CODES:
        if a == c:
            return c
    b = body[4] + body[12]
    for c in CODES:
        if b == c:
            return c
    return None


def reading(line):
    body = line.strip()
    w = well_formed(body)
    if w is False:
        return REJECT
    if w == UNSPEC:
        return Reading(UNSPEC)
    code = find_type(body)
    if code is None:
        return UNTYPED
    ent = LAYOUT[code]
    if ent['cont'] is None:
        cont = '0'
        apps = ent['apps']['primary']
    else:
        cont = body[ent['cont']]
        if not cont.isalnum():
            return Reading(False, body, code, cont)
        if not cont.isascii():
            return Reading(UNSPEC)
        apps = ent['apps']['primary' if cont == '0' or cont == '1' else 'cont']
    layout = None
    app = None
    if ent['app'] is not None:
        app = body[ent['app'][0]:ent['app'][1]]
        for k in apps:
            if k != '*' and app == k:
                layout = apps[k]
                break
    if layout is None:
        if '*' not in apps:
            return Reading(False, body, code, cont)
        layout = apps['*']
    return Reading(True, body, code, cont, layout, app)


def column(body, where):
    """the characters a field is made of"""
    if where == 'S6':
        return body[4:6]
    if where == 'S13':
        return body[4] + body[12]
    if where == 'SNDB':
        return body[4:6] if body[4:6] == 'DB' else body[4] + body[12]
    return body[where[0]:where[1]]
