"""Seeded inputs for the concrete runs, drawn from the contracts: lines of every
record type and layout, values of every kind, damaged lines, files and folders,
and the text constants of the code under test."""
import ast
import os
import random

from vspec import dec, lay
from vspec.lay import LAYOUT
from vspec.tables import CODES, ROUTE_TYPE, WAYPOINT_DESC, WAYPOINT_TYPE, BOUNDARY_VIA, NAME_FORMAT

ALNUM = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
JUNK = ['\t', '\x00', '\x0b', '\x0c', '\x1c', '\x1f', '\x85', '\xa0', '\u2028', '\u00e9', '\u0660', '\u00b2', '\u00bd',
        '\u4e00', '\ud800', '\U0001f600', '\u3000', '"', "'", '\\', '{', '}', '%', '-', '+', '.', '/', '#', 'a', 'z']
PAD = ['', '', '', '\n', '\r\n', ' ', '  \n', '\t', '\x0c', '\x1c', '\x85', '\xa0', '\u2028', '\u3000', ' \t\r\n']

NAMES = ['a.txt', 'b', 'FAACIFP18', '.hidden', 'x.dat', 'a b.txt', 'README.md', 'z.TXT', '1', 'data.pc', 'caf\u00e9', 'backup~', '_x',
         'notes.csv', 'A.TXT', 'B', 'faacifp18', 'x.DAT', 'a', 'a.txt.1', '[a]', '*', '?', '%s', '-', '--help', '~', '$HOME', '\\', 'a\nb',
         ' ', ' a', 'a ', '...', '.a.swp', 'x.py', '__init__.py', 'Thumbs.db', 'x.gz', 'x.zip', 'x.json', '#x#', 'CON', '{x}', '\udc80', 'x' * 200]


def constants(root):
    """text constants of the code, up to 16 characters"""
    out = set()
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            try:
                with open(os.path.join(d, f), encoding='utf-8') as fh:
                    t = ast.parse(fh.read())
            except (SyntaxError, ValueError):
                continue
            for x in ast.walk(t):
                if isinstance(x, ast.Constant) and isinstance(x.value, str) and 0 < len(x.value) <= 16:
                    out.add(x.value)
                elif isinstance(x, ast.Constant) and isinstance(x.value, int) and not isinstance(x.value, bool):
                    out.add(str(x.value))
    return sorted(out)


class Gen:
    def __init__(self, seed, consts=()):
        self.r = random.Random(seed)
        self.consts = list(consts)
        self.short = {}
        for c in self.consts:
            self.short.setdefault(len(c), []).append(c)

    def text(self, n):
        r = self.r
        m = r.random()
        if m < 0.15:
            return ' ' * n
        if m < 0.45:
            k = r.randint(1, n)
            return ''.join(r.choice(ALNUM) for _ in range(k)).ljust(n)
        if m < 0.6:
            return ''.join(r.choice('0123456789') for _ in range(n))
        if m < 0.7:
            return ''.join(r.choice(ALNUM) for _ in range(n))
        if m < 0.8:
            k = r.randint(1, n)
            return ''.join(r.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ') for _ in range(k)).rjust(n)
        if m < 0.9:
            c = [x for k in range(1, n + 1) for x in self.short.get(k, ())]
            if c:
                x = r.choice(c)
                return x.ljust(n) if r.random() < 0.7 else x.rjust(n)
            return ' ' * n
        return ''.join(r.choice(JUNK) if r.random() < 0.3 else r.choice(ALNUM + '    ') for _ in range(n))

    def digits(self, n):
        r = self.r
        m = r.random()
        if m < 0.25:
            return '0' * n
        if m < 0.5:
            return str(r.randint(0, 99)).rjust(n, '0')[-n:]
        if m < 0.6:
            return '9' * n
        if m < 0.7:
            return str(r.randint(0, 9)).ljust(n, '0')[:n]
        return ''.join(r.choice('0123456789') for _ in range(n))

    def value(self, kind, n, code):
        r = self.r
        f = dec.family(kind)
        if r.random() < 0.12:
            return self.text(n)
        if f == 'coded':
            keys = [k for k in CODES[kind] if len(k) == n]
            if kind == 'F021':
                keys = [k.ljust(n) for k in CODES[kind]] + [k.rjust(n) for k in CODES[kind]]
            m = r.random()
            if keys and m < 0.7:
                return r.choice(keys)
            if m < 0.8:
                return ' ' * n
            if m < 0.9:
                return r.choice(ALNUM).ljust(n)
            return self.text(n)
        if f == 'numeric' or f == 'cycle':
            m = r.random()
            if m < 0.55:
                v = self.digits(n)
                if kind in ('F039', 'F178'):
                    v = r.choice('EWTMLKIHGFEDCBAZNOPQRSTUVWXYJ') + v[1:]
                elif kind == 'F027' and r.random() < 0.5:
                    v = 'T' + v[1:]
                elif kind == 'F026' and r.random() < 0.3:
                    v = v[:-1] + 'T'
                return v
            if m < 0.7:
                return ' ' * n
            if m < 0.8:
                k = r.randint(1, n)
                return self.digits(k).rjust(n) if r.random() < 0.5 else self.digits(k).ljust(n)
            if m < 0.87:
                return ('FL' + self.digits(n))[:n]
            if m < 0.94:
                x = r.choice(['inf', 'nan', '1e5', '1e9', '-5', '+5', '.5', '5.', '1_0', '0x1', '-0', '1e-', 'INF', '\u0661'])
                return x.ljust(n)[:n] if r.random() < 0.5 else x.rjust(n, '0')[:n]
            return self.text(n)
        if f == 'compound':
            m = r.random()
            if m > 0.8:
                return self.text(n)
            if kind == 'F007':
                t = ROUTE_TYPE.get(code)
                if t and m < 0.5:
                    return r.choice(sorted(t))
                return r.choice(ALNUM + ' ')
            if kind == 'F012':
                k = r.randint(0, n)
                return self.digits(k).rjust(n) if k and r.random() < 0.3 else (self.digits(k).ljust(n) if k else ' ' * n)
            if kind == 'F017':
                return ''.join(r.choice(sorted(WAYPOINT_DESC[i]) + [' ', 'Z', '?']) for i in range(4))
            if kind == 'F042':
                return (r.choice(sorted(WAYPOINT_TYPE[0]) + [' ', 'Z']) + r.choice(sorted(WAYPOINT_TYPE[1]) + [' ', 'Z']) +
                        r.choice(ALNUM + ' ')).ljust(n)[:n]
            if kind == 'F082':
                return (r.choice('RABC ') + r.choice('BHL RX')).ljust(n)[:n]
            if kind == 'F118':
                return r.choice(sorted(BOUNDARY_VIA) + ['X', ' ']) + r.choice('E X')
            if kind == 'F196':
                return (r.choice(sorted(NAME_FORMAT[0]) + [' ', 'X']) + r.choice(sorted(NAME_FORMAT[1]) + [' ', 'X'])).ljust(n)
            return self.text(n)
        if kind in ('F022', 'F023', 'F024', 'F025', 'F008'):
            m = r.random()
            if m < 0.7:
                k = r.randint(1, n)
                return ''.join(r.choice('ABCDXYZ' if m < 0.4 else ALNUM) for _ in range(k)).ljust(n)
        return self.text(n)

    def record(self, code=None, layout=None, col6=None, fill=1.0):
        """a record of that type; the choice of layout may be refused"""
        r = self.r
        code = code or r.choice(lay.CODES)
        ent = LAYOUT[code]
        group = None
        if layout is None:
            pairs = [(g, a, l) for g, d in ent['apps'].items() for a, l in d.items()]
            group, app, layout = r.choice(pairs)
        else:
            pairs = [(g, a, l) for g, d in ent['apps'].items() for a, l in d.items() if l == layout]
            group, app, layout = r.choice(pairs)
        c = [' '] * 132
        for name, where, kind in ent['layouts'][layout]:
            if isinstance(where, str) or r.random() > fill:
                continue
            a, b = where
            v = self.value(kind, b - a, code)
            c[a:b] = list((v + ' ' * (b - a))[:b - a])
        c[0] = r.choice('SSSST')
        if r.random() < 0.5:
            c[1:4] = list(r.choice(sorted(CODES['F003'])))
        c[4] = code[0]
        if col6 is None:
            col6 = code in lay.COL6 if r.random() < 0.8 else r.random() < 0.5
        if col6:
            c[5] = code[1]
        else:
            c[5] = ' ' if r.random() < 0.8 else r.choice(ALNUM + ' ')
            c[12] = code[1]
        if ent['cont'] is not None:
            if group == 'primary':
                c[ent['cont']] = r.choice('01')
            else:
                c[ent['cont']] = r.choice('23456789ABCDEFGHIJKLMNOPQRSTUVWXYZ')
            if ent['app'] is not None and app != '*':
                c[ent['app'][0]:ent['app'][1]] = list(app)
        c[123:132] = list(self.digits(9))
        return ''.join(c)

    def damage(self, line):
        """a line that is (usually) not a record, or a different one"""
        r = self.r
        m = r.randint(0, 12)
        i = r.randrange(132)
        if m == 0:
            return line[:i] + line[i + 1:]
        if m == 1:
            return line[:i] + r.choice(ALNUM + ' ') + line[i:]
        if m == 2:
            return r.choice(list(ALNUM) + JUNK + [' ', 's']) + line[1:]
        if m == 3:
            i = r.randrange(123, 132)
            return line[:i] + r.choice(list(ALNUM) + JUNK + [' ']) + line[i + 1:]
        if m == 4:
            return line[:4] + r.choice(ALNUM + ' ') + line[5:]
        if m == 5:
            return line[:5] + r.choice(ALNUM + ' ') + line[6:]
        if m == 6:
            return line[:12] + r.choice(ALNUM + ' ') + line[13:]
        if m == 7:
            i = r.choice([21, 38, 25, 26, 55, 69, 24, 19, 17, 29])
            return line[:i] + r.choice(list(ALNUM) + JUNK + [' ']) + line[i + 1:]
        if m == 8:
            i = r.choice([22, 39, 26, 27, 56, 70, 25, 20, 15, 16, 30])
            return line[:i] + r.choice(list(ALNUM) + JUNK + [' ']) + line[i + 1:]
        if m == 9:
            return r.choice(['', ' ', 'S', 'T', 'S' * 132, 'T' + '0' * 131, 'S' + ' ' * 122 + '123456789', 'HDR01'.ljust(132),
                             'HDR01FAACIFP18      001P013203974102308  14-MAR-2024  14:41:37  U.S.A. DOT FAA'.ljust(132),
                             '\n', line + line, line[::-1], line.lower(), line[:123], line[:131] + '\n', ' ' + line[1:]])
        if m == 10:
            return line[:i] + r.choice(JUNK) + line[i + 1:]
        if m == 11 and self.consts:
            x = r.choice(self.consts)
            i = r.randrange(0, max(1, 132 - len(x)))
            return (line[:i] + x + line[i + len(x):])[:132]
        return ''.join(r.choice(ALNUM + '     ') for _ in range(r.choice([131, 132, 133, 5, 60])))

    def line(self, p_bad=0.2):
        r = self.r
        l = self.record(fill=r.choice([1.0, 1.0, 0.7, 0.3, 0.0]))
        if r.random() < p_bad:
            l = self.damage(l)
        return r.choice(PAD) + l + r.choice(PAD) if r.random() < 0.3 else l

    def clean(self, code=None):
        """a record that decodes: fields blank or well formed, by trial"""
        return self.record(code, fill=self.r.choice([0.0, 0.2])).replace('\ud800', '?').replace('\n', ' ')

    def vary(self, line):
        """a line that differs a little from this one (an earlier cycle of it, say)"""
        r = self.r
        m = r.random()
        if len(line) < 20:
            return self.line()
        if m < 0.45:
            i = r.randrange(len(line))
            return line[:i] + self.other(line[i]) + line[i + 1:]
        if m < 0.6:
            k = r.randrange(5, len(line))
            return line[:k] + ''.join(self.other(c) for c in line[k:])
        if m < 0.7:
            k = r.randrange(13, len(line))
            return line[:4] + line[4:6] + ''.join(self.other(c) for c in line[6:12]) + line[12:k] + \
                ''.join(self.other(c) for c in line[k:])
        if m < 0.8:
            i = r.randrange(6, len(line))
            j = min(len(line), i + r.randint(2, 12))
            return line[:i] + ''.join(self.other(c) for c in line[i:j]) + line[j:]
        if m < 0.9:
            # the same values in a record of another type
            c = r.choice(lay.CODES)
            return line[:4] + c[0] + (c[1] if c in lay.COL6 else ' ') + line[6:12] + (line[12] if c in lay.COL6 else c[1]) + line[13:]
        return self.near(line)

    def near(self, line):
        """the same line, and a little more or less"""
        r = self.r
        m = r.randint(0, 7)
        if m < 2:
            return r.choice(PAD) + line.strip() + r.choice(PAD)
        if m == 2:
            return line.rstrip() + r.choice(list(ALNUM) + ['0' * 9, ' 1', '\n' + line])
        if m == 3:
            return r.choice(list(ALNUM) + ['S', 'T']) + line
        if m == 4:
            return line[:r.choice([131, 130, 123, 100])]
        if m == 5:
            return line.strip()[1:]
        if m == 6:
            return line.swapcase()
        return self.damage(line) if len(line) == 132 else line.strip()

    def other(self, c):
        r = self.r
        if '0' <= c <= '9':
            return str((int(c) + r.randint(1, 9)) % 10)
        if c == ' ':
            return r.choice(ALNUM)
        return r.choice([x for x in ALNUM + ' ' if x != c])

    def columns(self, line):
        """for every column: this line after one that differs in that column only;
        for every group of columns: after one that agrees in these only"""
        out = []
        for i in range(len(line)):
            if i in (0, 4):
                continue
            out.append({'line': line, 'history': [line[:i] + self.other(line[i]) + line[i + 1:]]})
        for _ in range(12):
            out.append({'line': line, 'history': [self.vary(line)]})
        for _ in range(24):
            out.append({'line': self.near(line), 'history': [line]})
        return out

    # ---- files
    def content(self, n=None, decodable=False):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 8, 12]) if n is None else n
        eol = r.choice(['\n', '\n', '\n', '\r\n', '\r'])
        out = []
        for i in range(n):
            m = r.random()
            if m < 0.6:
                l = self.clean() if decodable or r.random() < 0.7 else self.record()
            elif m < 0.7:
                l = ''
            elif m < 0.75:
                l = r.choice(['  ', '\t', '#', 'HDR', '\x0c', '\x1a'])
            elif m < 0.8 and out:
                l = r.choice(out)
            elif m < 0.86 and out:
                l = self.vary(r.choice(out))
            else:
                l = self.damage(self.record())
            l = l.replace('\n', ' ').replace('\r', ' ').replace('\ud800', '?')
            if r.random() < 0.15:
                l = r.choice([' ', '\t', '\x0c', '\u2028', '\xa0']) + l + r.choice([' ', '\x85', ''])
            if r.random() < 0.08 and len(l) > 40:
                i = r.randrange(30, len(l))
                l = l[:i] + r.choice(['\x0c', '\x0b', '\x1c', '\x1d', '\x1e', '\x85', '\u2028', '\u2029']) + l[i + 1:]
            out.append(l)
        t = eol.join(out)
        if out and r.random() < 0.1:
            t = ''.join(x + r.choice(['\n', '\r\n', '\r', '\n\n']) for x in out[:-1]) + out[-1]
        if out and r.random() < 0.7:
            t += eol
        if r.random() < 0.03:
            t = '\ufeff' + t
        return t

    def large(self):
        """a file of many lines, hardly any of them a record"""
        r = self.r
        a = [self.clean() for _ in range(6)]
        return r.choice(['\n' * 150000, '\n']) + a[0] + '\n' + ('x' * 99 + '\n') * 25000 + a[1] + '\n' + 'S' * 1000000 + '\n' + \
            '\r\n'.join(a[2:]) + '\n' + ' ' * 300000 + '\n' + a[1]

    def numbered(self, n):
        """n different records that decode"""
        return '\n'.join('S   D ' + ' ' * 15 + '0' + ' ' * 101 + '%09d' % i for i in range(n))

    def then(self, content):
        """what the same file holds later: the same, or some of it, or something else"""
        r = self.r
        ls = content.splitlines(True)
        return [r.choice([content, ''.join(x for x in ls if r.random() < 0.7), content + content, self.content(),
                          ''.join(self.vary(x) if r.random() < 0.4 and '\ud800' not in x else x for x in ls).replace('\ud800', '?')])
                for _ in range(r.choice([1, 1, 2]))]

    def filters(self, content):
        r = self.r

        def one():
            m = r.random()
            if m < 0.1:
                return ''
            if m < 0.6 and len(content) > 10:
                i = r.randrange(len(content) - 1)
                return content[i:i + r.randint(1, 8)].replace('\n', '').replace('\r', '')
            if m < 0.7:
                return r.choice(['S', 'S ', 'USA', ' ', '0', '1', 'zz', 'usa', 'sUSA', '\n', ' 0'])
            if m < 0.8 and len(content) > 132:
                ls = content.splitlines()
                return r.choice(ls)
            if m < 0.9 and len(content) > 140:
                # across two lines, with and without the line end
                i = r.randrange(100, len(content))
                return content[i - 5:i + 5]
            if m < 0.97 and len(content) > 10:
                i = r.randrange(len(content) - 1)
                x = content[i:i + r.randint(1, 8)].replace('\n', '').replace('\r', '')
                k = r.randint(0, len(x))
                return r.choice([x.lower(), x.swapcase(), x[:k] + r.choice(['.', '*', '?', '.*', '|', '[A-Z ]', '\\', '%', ',']) + x[k + 1:],
                                 '^' + x, x + '$', '(' + x + ')', x + ' ', ' ' + x, x[::-1], '"' + x + '"', x + '|' + x])
            return self.text(r.randint(1, 5))
        if r.random() < 0.4:
            return one()
        if r.random() < 0.08 and len(content) > 140:
            # many texts of one line, and perhaps one that is not in it
            l = r.choice(content.split('\n')).strip()
            i = [r.randrange(len(l) or 1) for _ in range(r.choice([8, 12, 20, 40, 120]))]
            a = [l[k:k + r.randint(1, 9)] for k in i]
            if r.random() < 0.5:
                a.insert(r.choice([len(a), len(a) - 1, r.randrange(len(a))]), 'zz')
            return a
        return [one() for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]


def data_lines(repo):
    out = []
    d = os.path.join(repo, 'data')
    for root, _, fs in os.walk(d):
        for f in sorted(fs):
            try:
                with open(os.path.join(root, f), encoding='utf-8', errors='replace') as fh:
                    out.extend(fh.readlines()[:400])
            except OSError:
                pass
    return out


def jobs(prop, seed, n, repo):
    """(pool of lines, list of inputs)"""
    g = Gen('%s %s' % (prop, seed), constants(os.path.join(repo, 'src')))
    more = 'bounded' in str(seed)
    lines = []
    # every layout of every type, section in either place
    rounds = max(1, n // 400)
    for _ in range(rounds):
        for code in lay.CODES:
            for l in LAYOUT[code]['layouts']:
                lines.append(g.record(code, l))
    data = data_lines(repo)
    g.r.shuffle(data)
    lines += data[:n // 10]
    while len(lines) < n:
        lines.append(g.line())
    pool = [g.line(0.15) for _ in range(300)] + data[:100]
    if prop == 'C17':
        out = [{'file': g.content(decodable=i % 2 == 0)} for i in range(n // 7)]
        for j in out:
            if g.r.random() < 0.3:
                j['then'] = g.then(j['file'])
        out.append({'file': '\n'.join(g.clean() for _ in range(3000)), 'output': False})
        out += [{'file': g.large()}, {'file': g.large(), 'output': False}, {'file': g.numbered(2500), 'output': True}]
        if more:
            out = [{'file': g.numbered(8000), 'output': True}, {'file': g.numbered(70000), 'output': False}] + out
        return pool, out
    if prop == 'C18':
        out = []
        for i in range(n // 6):
            c = g.content()
            out.append({'file': c, 'filter_value': g.filters(c)})
            if g.r.random() < 0.3:
                out[-1]['then'] = g.then(c)
        c = '\n'.join(g.clean() for _ in range(3000))
        out += [{'file': c, 'filter_value': f} for f in ('', 'S', '0', [], ['S', ' '])]
        out += [{'file': g.large(), 'filter_value': f} for f in ('', [], 'S')]
        if more:
            out = [{'file': g.numbered(70000), 'filter_value': f} for f in ('S', ['0', 'D'])] + out
        return pool, out
    if prop == 'C20':
        out = []
        for i in range(n // 8):
            k = g.r.choice([0, 1, 2, 3, 4, 4, 6, 9])
            names = g.r.sample(NAMES, k)
            if k > 1 and g.r.random() < 0.15:
                names = list(dict.fromkeys([names[1].swapcase()] + names[1:]))
            if i % 100 == 50:
                names = ['f%d' % x for x in range(40)]
            out.append({'folder': {m: g.content(g.r.choice([0, 1, 2]), decodable=g.r.random() < 0.8) for m in names},
                        'suffix': g.r.choice(['', '', '/'])})
            if g.r.random() < 0.2:
                sub = {'files': {m: g.content(1, decodable=True) for m in g.r.sample(NAMES, g.r.choice([0, 1, 2]))}}
                if g.r.random() < 0.4:
                    sub['link'] = True
                f = list(out[-1]['folder'].items())
                f.insert(g.r.randrange(len(f) + 1), (g.r.choice([m for m in NAMES if m not in names]), sub))
                out[-1]['folder'] = dict(f)
            if g.r.random() < 0.15:
                out[-1]['links'] = [m for m in names if g.r.random() < 0.5]
            if g.r.random() < 0.3:
                f = dict(out[-1]['folder'])
                for m in f:
                    if g.r.random() < 0.5 and isinstance(f[m], str):
                        f[m] = g.then(f[m])[0]
                out[-1]['then'] = [f]
        out.append({'folder': {'a': g.large(), 'b': g.content(2, True)}})
        if more:
            out.insert(0, {'folder': {'f%d' % x: t for x, t in enumerate(g.numbered(1500).split('\n'))}})
        return pool, out
    out = []
    for l in lines:
        j = {'line': l}
        m = g.r.random()
        if m < 0.08:
            j['history'] = [g.vary(l)]
        elif m < 0.12:
            j = {'line': g.near(l), 'history': [l]}
        elif m < 0.2:
            j['history'] = [g.vary(l), g.vary(l), l]
        elif m < 0.35:
            j['used'] = [g.vary(l)]
        elif m < 0.37:
            j = {'line': g.near(l), 'used': [l]}
        elif m < 0.42:
            j['used'] = [g.vary(l), g.line()]
        if prop == 'C03' and m > 0.7:
            j['other'] = g.vary(l)
        if prop == 'C07' and m < 0.6:
            j['before'] = [g.vary(l) for _ in range(g.r.choice([1, 1, 2]))]
            j['other'] = g.vary(l)
        if prop == 'C19' and m < 0.6:
            j['later'] = g.vary(l)
            j['other'] = g.vary(l)
        out.append(j)
    return pool, out


def after_others(prop, seed, inputs, repo, n=40000):
    """inputs (of paths that change state of the package), each after lines that differ from it a little"""
    g = Gen('%s %s history' % (prop, seed), constants(os.path.join(repo, 'src')))
    out = []
    for i in inputs:
        l = i.get('line')
        if not isinstance(l, str) or len(l) > 400:
            continue
        for j in g.columns(l):
            x = dict(i)
            x.update(j)
            if prop == 'C07':
                x['before'] = x.pop('history')
                x['other'] = x['before'][0]
            elif prop == 'C03' and g.r.random() < 0.5:
                x['other'] = x.pop('history')[0]
            elif prop == 'C19' and g.r.random() < 0.7:
                x['later'] = x.pop('history')[0]
            out.append(x)
    g.r.shuffle(out)
    return out[:n]
