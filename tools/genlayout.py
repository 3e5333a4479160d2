"""One-off: draft of the layout contract (vspec/layout.json) by probing the
code; the draft was then reviewed by hand against the ARINC 424-18 columns and
is a committed specification from there on -- no check runs this script."""
import json, string, sys
from arinc424.record import Record, records

U = [chr(0xE000 + i) for i in range(132)]


def line(code, sec13, cont, contcol, app, appcols):
    l = list(U)
    l[0] = 'S'
    l[123:132] = list('123456789')
    l[4], l[5] = code[0], code[1]
    if sec13:
        l[12] = code[1]
        l[5] = ' '
    if contcol is not None:
        l[contcol] = cont
    if appcols:
        for c, a in zip(appcols, app):
            l[c] = a
    return ''.join(l)


def locate(l, value, prefer13, base):
    cols = []
    for ch in value:
        c = [i for i in range(132) if l[i] == ch]
        cols.append(c)
    # contiguous run preferred
    for s in cols[0] if cols else []:
        if l[s:s + len(value)] == value:
            return [[s, s + len(value)]]
    out = []
    for c in cols:
        out.append([c[0], c[0] + 1])
    return out


def kind(f):
    return f.decode_fn.__name__.replace('field_', 'F')


out = {}
for code, d in records.items():
    if d is False:
        continue
    contcol = getattr(d, 'cont_idx', None)
    appcol = getattr(d, 'app_idx', None)
    width = len(d.application_type(''.join(U))) if appcol is not None and hasattr(d, 'application_type') else 1
    appcols = list(range(appcol, appcol + width)) if appcol is not None else None
    ent = {'cont': contcol, 'app': [appcols[0], appcols[-1] + 1] if appcols else None, 'layouts': {}, 'apps': {}}
    for mode in ('primary', 'cont'):
        if mode == 'cont' and contcol is None:
            continue
        apps = ['\ue7ff' * width] + list(string.printable[:95])
        if width == 2:
            apps = ['\ue7ff' * 2] + [a + b for a in string.printable[:95] for b in string.printable[:95]]
        if not appcols or code not in ('EU',) and mode == 'primary':
            apps = apps[:1]
        for a in apps:
            vs = []
            for sec13 in (False, True):
                l = line(code, sec13, '0' if mode == 'primary' else '2', contcol, a, appcols)
                r = Record()
                try:
                    import io, contextlib
                    with contextlib.redirect_stdout(io.StringIO()):
                        ok = r.read(l)
                except Exception as e:
                    print('EXC', code, mode, a, repr(e)); ok = False
                if not ok or r.ident != code:
                    vs.append(None)
                    continue
                fs = []
                for f in r.fields:
                    sl = locate(l, f.value, sec13, U)
                    if f.name == 'Application Type' and appcols and l[appcols[0]:appcols[-1] + 1] == f.value:
                        sl = [[appcols[0], appcols[-1] + 1]]
                    fs.append([f.name, sl, kind(f)])
                vs.append((l, fs))
            if vs[0] is None and vs[1] is None:
                continue
            # resolve the section code column from the two probes
            (l0, f0) = vs[0]
            fs = []
            for i, (n, sl, k) in enumerate(f0):
                if vs[1]:
                    n1, sl1, k1 = vs[1][1][i]
                    assert n1 == n and k1 == k, (code, n, n1)
                    if sl1 != sl:
                        print('DIFF', code, mode, repr(a), n, sl, sl1)
                fs.append([n, sl, k])
            key = json.dumps(fs)
            for name, x in ent['layouts'].items():
                if json.dumps(x) == key:
                    break
            else:
                name = '%s%s' % (mode, '' if a[0] == '\ue7ff' else ':' + a)
                ent['layouts'][name] = fs
            ent['apps'].setdefault(mode, {})['*' if a[0] == '\ue7ff' else a] = name
    out[code] = ent
for c, e in out.items():
    for m, d in e['apps'].items():
        if '*' in d:
            e['apps'][m] = {k: v for k, v in d.items() if k == '*' or v != d['*']}
    for n, fs in e['layouts'].items():
        for f in fs:
            if f[0] == 'Section Code':
                f[1] = {'[[4, 6]]': 'S6', '[[4, 5], [12, 13]]': 'S13'}[json.dumps(f[1])]
                if c == 'DB':
                    f[1] = 'SNDB'
            else:
                assert len(f[1]) == 1, (c, n, f)
                f[1] = f[1][0]
with open(sys.argv[1], 'w') as fh:
    fh.write('{\n')
    for i, (c, e) in enumerate(out.items()):
        fh.write('"%s": {"cont": %s, "app": %s, "apps": %s, "layouts": {\n' % (c, json.dumps(e['cont']), json.dumps(e['app']), json.dumps(e['apps'])))
        for j, (n, fs) in enumerate(e['layouts'].items()):
            fh.write('  "%s": [\n    ' % n + ',\n    '.join(json.dumps(f) for f in fs) + ']' + (',' if j < len(e['layouts']) - 1 else '') + '\n')
        fh.write('}}' + (',' if i < len(out) - 1 else '') + '\n')
    fh.write('}\n')
json.load(open(sys.argv[1]))
