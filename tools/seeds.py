# Planted changes (see mkseed.py). Each was written from the statement of a property and the code alone.
PRELUDE = '''import sys, os, io, json, tempfile, contextlib
import arinc424
from arinc424.record import Record
import arinc424.decoder as decoder


def line(cols, tail='123452301', first='S', area='USA'):
    """a record text: cols maps a start column (0-based) to text"""
    c = [' '] * 132
    c[0] = first
    c[1:4] = area
    c[123:] = tail
    for i, t in cols.items():
        c[i:i + len(t)] = t
    assert len(c) == 132
    return ''.join(c)


def rec(text):
    r = Record()
    with contextlib.redirect_stdout(io.StringIO()):
        ok = r.read(text)
    assert ok is True, 'refused'
    return r


def fields(r):
    return {f.name: f.value for f in r.fields}


def decoded(r, name):
    return [f.decode(r) for f in r.fields if f.name == name][0]


def out(fn, *a, **k):
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        fn(*a, **k)
    return s.getvalue()


def raises(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            fn(*a, **k)
        except BaseException as e:
            return type(e)
    return None


'''
AP = "{4: 'P', 12: 'A', 6: 'KJFKK6', 21: '0'}"
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


R, D, I = 'record.py', 'decoder.py', '__init__.py'

seed('c15-century', 'C15', [(D, 'if int(value[:2]) > 50 else', 'if int(value[:2]) >= 50 else')],
     "r = rec(line({4: 'D', 21: '0'}, tail='123455007'))\nassert decoded(r, 'Cycle Date') == '2050, Release 07', decoded(r, 'Cycle Date')\n",
     'a cycle date of the one boundary year 50', 'cycle 50xx decodes to 1950')

seed('c03-limitation-column', 'C03', [('definitions/VHFNavaid.py', 'r[62:68],      decoder.field_208', 'r[62:67],      decoder.field_208')],
     "r = rec(line({4: 'D', 21: '2', 22: 'L', 62: '123456'}))\nassert fields(r)['Distance Limitation (3)'] == '123456', fields(r)\n",
     'a VHF navaid limitation continuation (application type L) with a third sector', 'the sixth character of Distance Limitation (3) is lost')

seed('c03-msa-label', 'C03', [('definitions/MSA.py', '      self.id_name = "Airport Identifier"', '      MSA.id_name = "Airport Identifier"'),
                              ('definitions/MSA.py', '      self.id_name = "Heliport Identifier"', '      MSA.id_name = "Heliport Identifier"')],
     "r = rec(line({4: 'H', 12: 'S', 38: '0'}))\nassert 'Heliport Identifier' in fields(r), list(fields(r))\nr = rec(line({4: 'P', 12: 'S', 38: '0'}))\nassert 'Airport Identifier' in fields(r)\n",
     'heliport MSA record; the two definition objects share the label through the class and the last one constructed wins', 'the ident field of heliport MSA records is named Airport Identifier')

seed('c10-lowercase-section', 'C10', [(D, "  sections['UR'] = 'Restrictive Airspace'\n  return sections[value]", "  sections['UR'] = 'Restrictive Airspace'\n  return sections[value.upper()]")],
     "r = rec(line({4: 'E', 5: 'P', 27: '0', 38: '0', 36: 'pa'}))\nfor f in r.fields:\n    if f.decode_fn is decoder.field_004 and f.value != 'EP' and f.value.strip():\n        assert f.decode(r) == '<UNKNOWN>', (f.name, f.value, f.decode(r))\nassert decoder.field_004('pa', r) == '<UNKNOWN>'\n",
     'an unassigned section code in lower case', 'an unassigned code gets the meaning of an assigned one')

seed('c11-long-distance', 'C11', [(D, 'return "{:.1f} nm".format(float(value) / 10)', 'return "{:.1f} nm".format(float(value[-3:]) / 10)')],
     "r = rec(line({4: 'P', 12: 'D', 38: '0', 47: 'TF'}))\nfor f in r.fields:\n    if f.decode_fn is decoder.field_027:\n        f.value = '1234'\n        assert f.decode(r) == '123.4 nm', f.decode(r)\n        break\nelse:\n    raise SystemExit('no such field')\n",
     'a route distance of 100 nm or more', 'the leading digit of the distance is dropped')

seed('c14-circle-end', 'C14', [(D, "  if value[1] == 'E':\n    s += ', End", "  if value[1] == 'E' and value[0] not in 'CG':\n    s += ', End")],
     "for v in ('CE', 'GE', 'HE', 'RE', 'LE'):\n    assert decoder.field_118(v, Record()).endswith(', End of description, return to origin point'), v\n",
     'an airspace segment whose boundary via is a circle or great circle that ends the description', 'the end of description is not shown')

seed('c14-heliport-star', 'C14', [(D, "elif record.ident == 'PE' or record.ident == 'HE':", "elif record.ident in ('PE'):")],
     "r = rec(line({4: 'H', 12: 'E', 38: '0', 19: '7'}))\nassert decoded(r, 'Route Type') == 'Profile Descent Enroute Transition', decoded(r, 'Route Type')\n",
     'a heliport STAR record', 'the route type of heliport STARs is not decoded')

seed('c07-cached-fir', 'C07', [('definitions/FIRUIR.py', "    if primary:\n      return self.read_primary(line)\n", "    if primary:\n      key = line[:20]\n      if key not in self.seen:\n        self.seen[key] = self.read_primary(line)\n      return self.seen[key]\n"),
                               ('definitions/FIRUIR.py', "  name = 'FIR/UIR'\n", "  name = 'FIR/UIR'\n  seen = {}\n")],
     "a = line({4: 'UF', 6: 'EGTT', 15: '0010', 19: '0', 98: 'LONDON'})\nb = line({4: 'UF', 6: 'EGTT', 15: '0010', 19: '0', 98: 'SCOTTISH'}, tail='000012402')\nr = Record()\nassert r.read(a)\nassert r.read(b)\nassert fields(r)['FIR/UIR Name'].strip() == 'SCOTTISH', fields(r)\nassert fields(r)['Cycle Date'] == '2402'\n",
     'two FIR/UIR records with the same key columns but different content read one after the other (a second cycle of the same data)', 'the second record shows the fields of the first')

seed('c08-key-trim', 'C08', [(R, 'd.update({field.name: field.value})', 'd.update({field.name.strip(): field.value})')],
     "r = rec(line({4: 'TC', 49: '12345'}))\nj = json.loads(r.json(output=False))\nassert set(j) == {f.name for f in r.fields}, set(j) ^ {f.name for f in r.fields}\n",
     'a cruising table record, the one type with a field name that ends in a blank', 'the JSON key is not the field name')

seed('c09-zero', 'C09', [(R, '''field.decode(self)])''', '''field.decode(self) or field.value])''')],
     "r = rec(line({4: 'TC', 28: '0000', 32: '1799'}))\nt = r.decode(output=False)\nrow = [l for l in t.splitlines() if 'Course From' in l][0]\nassert row.split('|')[3].strip() == '0.0', row\n",
     'a field that decodes to the number 0.0 (course of north, 0000)', 'the row shows the raw digits instead of the decoded number')

seed('c16-silent-continuation', 'C16', [(I, '    r.decode(output)\n', '    if output or r.primary():\n      r.decode(output)\n')],
     "bad = line({4: 'D', 21: '2', 22: 'S', 74: 'Wxxxx'})\nassert raises(arinc424.parse, bad, True) is ValueError\nassert raises(arinc424.parse, bad, False) is ValueError\n",
     'a continuation record with an invalid field, parsed without output', 'no ValueError')

seed('c17-splitlines', 'C17', [(I, '''  with open(path) as f:
    for line in f.readlines():
      parse(line, output)''', '''  with open(path) as f:
    for line in f.read().splitlines():
      parse(line, output)''')],
     "d = tempfile.mkdtemp()\ntry:\n    t = line({4: 'PB', 93: 'GATE\\x0cNORTH'}) if False else line({4: 'D', 21: '0', 93: 'NAME\\x0cNORTH'})\n    p = os.path.join(d, 'f')\n    open(p, 'w').write(t + chr(10))\n    want = out(arinc424.parse, t)\n    assert out(arinc424.read_file, p) == want\n    assert want\nfinally:\n    import shutil\n    shutil.rmtree(d)\n",
     'a form feed, file separator, NEL or similar inside a free-text field', 'the record is cut in two and neither half is parsed')

seed('c17-blank-stops', 'C17', [(I, '''  with open(path) as f:
    for line in f.readlines():
      parse(line, output)''', '''  with open(path) as f:
    while line := f.readline().strip():
      parse(line, output)''')],
     "d = tempfile.mkdtemp()\ntry:\n    t = line({4: 'D', 21: '0'})\n    p = os.path.join(d, 'f')\n    open(p, 'w').write(t + chr(10) + chr(10) + t + chr(10))\n    assert out(arinc424.read_file, p) == out(arinc424.parse, t) * 2\nfinally:\n    import shutil\n    shutil.rmtree(d)\n",
     'a blank line in the middle of the file', 'everything after the blank line is skipped')

seed('c18-filter-trim', 'C18', [(I, 'if filters not in r.raw:', 'if filters.strip() not in r.raw:')],
     "d = tempfile.mkdtemp()\ntry:\n    p = os.path.join(d, 'f')\n    open(p, 'w').write(line({4: 'D', 21: '0', 13: 'ABCD'}) + chr(10) + line({4: 'D', 21: '0', 13: 'ABC '}) + chr(10))\n    o = out(arinc424.search, p, 'ABC ')\n    assert 'Found 1 records' in o, o\nfinally:\n    import shutil\n    shutil.rmtree(d)\n",
     'a filter text that starts or ends with a blank', 'records that do not contain the text are printed and counted')

seed('c18-tabs', 'C18', [(R, '    self.definition = records[self.ident]\n', '    self.raw, self.definition = line.expandtabs(1), records[self.ident]\n')],
     "d = tempfile.mkdtemp()\ntry:\n    p = os.path.join(d, 'f')\n    t = line({4: 'D', 21: '0', 93: 'A' + chr(9) + 'B'})\n    open(p, 'w').write(t + chr(10))\n    o = out(arinc424.search, p, 'A' + chr(9))\n    assert t in o and 'Found 1 records' in o, o\nfinally:\n    import shutil\n    shutil.rmtree(d)\n",
     'a record with a tab in its text', 'the record is not found by its text, and printed with a blank instead')

seed('c20-hidden', 'C20', [(I, '''  for file in os.scandir(path):
''', '''  for file in [f for f in os.scandir(path) if not f.name.startswith('.')]:
''')],
     "d = tempfile.mkdtemp()\ntry:\n    t = line({4: 'D', 21: '0'})\n    open(os.path.join(d, '.cycle2301'), 'w').write(t + chr(10))\n    assert out(arinc424.read_folder, d) == out(arinc424.parse, t)\nfinally:\n    import shutil\n    shutil.rmtree(d)\n",
     'a file whose name starts with a dot', 'the file is not read')

seed('c01-blank-frn', 'C01', [(R, "if line[-9:].isnumeric() is False:", "if line[-9:].replace(' ', '0', 5).isnumeric() is False:")],
     "r = Record()\nassert r.read(line({4: 'D', 21: '0'}, tail='     2301')) is False\nassert r.read(line({4: 'D', 21: '0'})) is True\n",
     'a record whose file record number is (partly) blank', 'a damaged record is accepted')

seed('c02-taa-raise', 'C02', [('definitions/TAA.py', "      case _:\n        return []", "      case _:\n        raise ValueError(f'TAA application type {application}')")],
     "assert raises(Record().read, line({4: 'P', 12: 'K', 29: '2', 30: 'X'})) is None\n",
     'a TAA continuation with an application type that is not defined', 'read raises instead of returning False')

seed('c04-leading', 'C04', [(R, '''  def validate(self, line):
    line = line.strip()''', '''  def validate(self, line):
    line = line.rstrip()''')],
     "t = line({4: 'D', 21: '0'})\nfor p in ('', ' ', chr(9), chr(0x2028)):\n    assert Record().read(p + t + p) is True, repr(p)\n",
     'whitespace in front of the record', 'the record is refused')

seed('c05-ident2', 'C05', [(R, '    identifier_2 = line[4] + line[12]', "    identifier_2 = line[4] + (line[12] if line[5] == ' ' else line[5])")],
     "r = rec(line({4: 'PX', 12: 'A', 21: '0'}))\nassert r.ident == 'PA'\n",
     'a subsection in column 13 with something in column 6', 'the record is refused')

seed('c06-app-case', 'C06', [('definitions/Waypoint.py', "    application = line[self.app_idx]\n    match", "    application = line[self.app_idx].upper()\n    match")],
     "r = Record()\nassert r.read(line({4: 'EA', 21: '2', 22: 'q'})) is False\n",
     'a waypoint continuation with a lower case application type', 'the record is laid out by the application type of the upper case letter')

seed('c12-name-blanks', 'C12', [(D, '''def field_043(value, record):
  return value.strip()''', '''def field_043(value, record):
  return ' '.join(value.split())''')],
     "r = rec(line({4: 'EA', 21: '0', 98: 'FOUR  MILE'}))\nassert decoded(r, 'Waypoint Name / Desc') == 'FOUR  MILE'\n",
     'a name with two blanks between words', 'the decoded name is rewritten')

seed('c13-signal-emission', 'C13', [(D, "  d = defaultdict(def_val)\n  d['3']", "  d = {}\n  d['3']")],
     "r = rec(line({4: 'P', 12: 'V', 25: '0'}))\nfor f in r.fields:\n    if f.decode_fn is decoder.field_199:\n        f.value = 'Z'\n        assert raises(f.decode, r) in (None, ValueError)\n        break\nelse:\n    raise SystemExit('no such field')\n",
     'a communication record with a signal emission that is not assigned', 'decoding fails with KeyError')

seed('c19-json-sort', 'C19', [(R, '''      data = json.dumps(d, sort_keys=True, indent=4''', '''      self.fields.sort(key=lambda f: f.name)
      data = json.dumps(d, sort_keys=True, indent=4''')],
     "r = rec(line({4: 'D', 21: '0'}))\na = r.decode(output=False)\nr.json(output=False, single_line=False)\nassert r.decode(output=False) == a\n",
     'asking for indented JSON before the table', 'the fields of the record are reordered')


# ---- state kept between calls, and sites that only fail together
seed('c14-memo-route', 'C14', [(D, '''  def decode(self, record):
    return self.decode_fn(self.value, record)''', '''  memo = {}

  def decode(self, record):
    key = (self.decode_fn, self.value)
    if key not in self.memo:
      self.memo[key] = self.decode_fn(self.value, record)
    return self.memo[key]''')],
     "a = rec(line({4: 'P', 12: 'D', 38: '0', 19: '4'}))\nassert decoded(a, 'Route Type') == 'RNAV SID Runway Transition'\nb = rec(line({4: 'P', 12: 'E', 38: '0', 19: '4'}))\nassert decoded(b, 'Route Type') == 'RNAV STAR Enroute Transition', decoded(b, 'Route Type')\n",
     'a SID and then a STAR record with the same route type letter, in one program', 'the route type of the second is shown with the meaning it has in the first')

seed('c11-sticky-minutes', 'C11', [(D, '''    if value[0] == 'T':
      return "{:.1f} min".format(float(value[1:]) / 10)
    else:
      return "{:.1f} nm".format(float(value) / 10)

  return value
''', '''    if value[0] == 'T':
      unit[0] = 'min'
      value = value[1:]
    return "{:.1f} {}".format(float(value) / 10, unit[0])

  return value
'''), (D, 'def field_027(value, record):', "def field_027(value, record, unit=['nm']):")],
     "def leg(v):\n    r = rec(line({4: 'P', 12: 'D', 38: '0'}))\n    f = [f for f in r.fields if f.decode_fn is decoder.field_027][0]\n    f.value = v\n    return f.decode(r)\nassert leg('0125') == '12.5 nm'\nassert leg('T010') == '1.0 min'\nassert leg('0125') == '12.5 nm', leg('0125')\n",
     'a leg given as a time, then one given as a distance', 'the distance is shown in minutes')

seed('c15-decade', 'C15', [(D, '''  year = "19" + value[:2] if int(value[:2]) > 50 else "20" + value[:2]
''', '''  year = centuries.setdefault(value[0], "19" if int(value[:2]) > 50 else "20") + value[:2]
'''), (D, '# 5.32 Cycle Date (CYCLE)\n', '# 5.32 Cycle Date (CYCLE)\ncenturies = {}\n\n\n')],
     "def cyc(v):\n    return decoded(rec(line({4: 'D', 21: '0'}, tail='12345' + v)), 'Cycle Date')\nassert cyc('5013') == '2050, Release 13'\nassert cyc('5101') == '1951, Release 01', cyc('5101')\n",
     'records of cycle 50xx and 51xx to 59xx in one program (the century is remembered per decade)', 'the century of the second is wrong')

seed('c12-interned-fix', 'C12', [(D, '''def field_013(value, record):
  return value
''', '''def field_013(value, record):
  return idents.setdefault(value.strip(), value)
'''), (D, '# 5.13 Fix Identifier (FIX IDENT)\n', '# 5.13 Fix Identifier (FIX IDENT)\nidents = {}\n\n\n')],
     "def fix(v):\n    r = rec(line({4: 'EA', 21: '0'}))\n    f = [f for f in r.fields if f.decode_fn is decoder.field_013][0]\n    f.value = v\n    return f.decode(r)\nassert fix('ABC  ') == 'ABC  '\nassert fix(' ABC ') == ' ABC ', repr(fix(' ABC '))\n",
     'the same identifier with different padding in two records', 'the second is rewritten to the first')

seed('c07-table-kept', 'C07', [(R, '''    table = PrettyTable(field_names=['Field', 'Value', 'Decoded'])
    table.align = 'l'
    for field in self.fields:
''', '''    table = getattr(self, 'table', None)
    if table is None:
      table = self.table = PrettyTable(field_names=['Field', 'Value', 'Decoded'])
      table.align = 'l'
    table.clear_rows()
    if len(table.rows) == 0 and not self.fields:
      return table.get_string()
    for field in self.fields:
'''), (R, '''    if output is True:
      print(table)
    return table.get_string()''', '''    if output is True:
      print(table)
    if self.continuation == '1':
      table.title = self.raw[6:12]
    return table.get_string()''')],
     "a = line({4: 'D', 21: '1', 6: 'KJFKK6'})\nb = line({4: 'D', 21: '0', 6: 'KLAXK2'})\nr = Record()\nassert r.read(a)\nr.decode(output=False)\nassert r.read(b)\nassert r.decode(output=False) == rec(b).decode(output=False)\n",
     'a record object that decoded a record with continuations and is then used for another', 'the table of the second carries the title of the first')

seed('c08-json-kept', 'C08', [(R, '''    d = {}
    for field in self.fields:
''', '''    d = self.__dict__.setdefault('values', {})
    for field in self.fields:
''')],
     "a = line({4: 'D', 21: '0'})\nb = line({4: 'TC'})\nr = Record()\nassert r.read(a)\nr.json(output=False)\nassert r.read(b)\nassert set(json.loads(r.json(output=False))) == {f.name for f in r.fields}\n",
     'a record object that gave JSON and is then used for a record of another type', 'the JSON of the second has entries of the first')

seed('c09-table-cache', 'C09', [(R, '''    table = PrettyTable(field_names=['Field', 'Value', 'Decoded'])
    table.align = 'l'
    for field in self.fields:
      table.add_row(''', '''    key = (self.ident, self.raw[:128])
    if key in tables:
      if output is True:
        print(tables[key])
      return tables[key].get_string()
    table = tables[key] = PrettyTable(field_names=['Field', 'Value', 'Decoded'])
    table.align = 'l'
    for field in self.fields:
      table.add_row('''), (R, '\n\nclass Record():\n', '\n\ntables = {}\n\n\nclass Record():\n')],
     "a = rec(line({4: 'D', 21: '0'}, tail='123452301'))\nb = rec(line({4: 'D', 21: '0'}, tail='123452302'))\nassert 'Release 01' in a.decode(output=False)\nassert 'Release 02' in b.decode(output=False)\n",
     'the same record in two cycles, decoded in one program', 'the table of the second is that of the first')

seed('c05-learned-alias', 'C05', [(R, '''    elif identifier_2 in records:
      self.ident = identifier_2
''', '''    elif identifier_2 in records:
      self.ident = identifier_2
      if identifier_1[1] != ' ':
        records[identifier_1] = records[identifier_2]
''')],
     "a = rec(line({4: 'PX', 12: 'A', 21: '0'}))\nassert a.ident == 'PA'\nb = rec(line({4: 'PX', 12: 'G', 21: '0'}))\nassert b.ident == 'PG', b.ident\n",
     'two records with the same stray character in column 6 and different subsections in column 13', 'the second is read as the type of the first')

seed('c17-last-chunk', 'C17', [(I, '''  with open(path) as f:
    for line in f.readlines():
      parse(line, output)''', '''  with open(path) as f:
    rest = ''
    while chunk := f.read(1 << 16):
      *lines, rest = (rest + chunk).split('\\n')
      for line in lines:
        parse(line, output)''')],
     "d = tempfile.mkdtemp()\ntry:\n    t = line({4: 'D', 21: '0'})\n    p = os.path.join(d, 'f')\n    open(p, 'w').write(t + chr(10) + t)\n    assert out(arinc424.read_file, p) == out(arinc424.parse, t) * 2\nfinally:\n    import shutil\n    shutil.rmtree(d)\n",
     'a file without a line end after its last record', 'the last record is not parsed')

seed('c18-duplicates', 'C18', [(I, '''    count = 0
    for line in f.readlines():
      r = Record()''', '''    count = 0
    for line in dict.fromkeys(f.readlines()):
      r = Record()''')],
     "d = tempfile.mkdtemp()\ntry:\n    p = os.path.join(d, 'f')\n    t = line({4: 'D', 21: '0', 13: 'ABCD'}) + chr(10)\n    open(p, 'w').write(t + t)\n    assert 'Found 2 records' in out(arinc424.search, p, 'ABCD')\nfinally:\n    import shutil\n    shutil.rmtree(d)\n",
     'the same record twice in a file', 'it is printed and counted once')

seed('c20-names-by-case', 'C20', [(I, '''  for file in os.scandir(path):
''', '''  for file in {f.name.casefold(): f for f in os.scandir(path)}.values():
''')],
     "d = tempfile.mkdtemp()\ntry:\n    t = line({4: 'D', 21: '0'})\n    for n in ('data.txt', 'DATA.TXT'):\n        open(os.path.join(d, n), 'w').write(t + chr(10))\n    assert out(arinc424.read_folder, d) == out(arinc424.parse, t) * 2\nfinally:\n    import shutil\n    shutil.rmtree(d)\n",
     'two files in a folder whose names differ in case only', 'one of them is not read')

seed('c16-swallowed', 'C16', [(I, '''    r.decode(output)
    return True
''', '''    try:
      r.decode(output)
    except ValueError:
      return r.primary()
    return True
''')],
     "bad = line({4: 'PC', 12: 'C', 21: '0', 74: 'Wxxxx'})\nassert raises(arinc424.parse, bad, False) is ValueError\n",
     'a record with an invalid field', 'the ValueError is lost')

seed('c13-infinite-distance', 'C13', [(D, '''      return "{:.1f} nm".format(float(value) / 10)
''', '''      return "{}.{} nm".format(*divmod(int(float(value)), 10))
''')],
     "r = rec(line({4: 'P', 12: 'D', 38: '0'}))\nf = [f for f in r.fields if f.decode_fn is decoder.field_027][0]\nfor v in ('INF ', '1E99', 'nan '):\n    f.value = v\n    assert raises(f.decode, r) in (None, ValueError), (v, raises(f.decode, r))\nf.value = '0125'\nassert f.decode(r) == '12.5 nm'\n",
     'a leg distance that reads INF', 'decoding fails with OverflowError')

seed('c02-surrogate', 'C02', [(R, '    if len(line) != 132:\n', '    if len(line.encode()) != 132:\n')],
     "for c in ('\\ud800', '\\udfff'):\n    assert raises(Record().read, line({4: 'D', 21: '0', 93: c})) is None\n",
     'a lone surrogate in the text (what reading a file with surrogateescape gives for an undecodable byte)', 'read raises UnicodeEncodeError')

seed('c04-strip-sets', 'C04', [(R, '''  def validate(self, line):
    line = line.strip()''', '''  def validate(self, line):
    line = line.strip(' \\t\\r\\n')''')],
     "t = line({4: 'D', 21: '0'})\nfor p in ('', ' ', chr(12), chr(0x2028)):\n    assert Record().read(p + t) is True, repr(p)\n",
     'a form feed (page break) or other rare whitespace in front of the record', 'reading strips it but validation does not: the record is refused')

seed('c19-decode-strips', 'C19', [(D, '''  def decode(self, record):
    return self.decode_fn(self.value, record)''', '''  def decode(self, record):
    if self.decode_fn is field_043:
      self.value = self.value.rstrip()
    return self.decode_fn(self.value, record)''')],
     "r = rec(line({4: 'EA', 21: '0', 98: 'FOURMILE'}))\na = r.json(output=False)\nr.decode(output=False)\nassert r.json(output=False) == a\n",
     'a waypoint record decoded before its JSON is asked for', 'the value of the name field changes')

seed('c06-sticky-primary', 'C06', [(R, '''    return self.continuation == '0' or self.continuation == '1'
''', '''    self.definition.last = self.continuation if self.continuation in '0123456789' else getattr(self.definition, 'last', '')
    return self.definition.last in ('0', '1')
''')],
     "a = rec(line({4: 'D', 21: '1'}))\nb = rec(line({4: 'D', 21: 'A', 22: 'S'}))\nassert b.primary() is False\n",
     'a continuation record numbered A to Z after a primary record of the same type', 'it is taken for a primary record')
seed('c01-validated', 'C01', [(R, '''    if self.validate(line) is False:
      return False
''', '''    if line[:132] not in valid:
      if self.validate(line) is False:
        return False
      valid.add(line[:132])
'''), (R, '\n\nclass Record():\n', '\n\nvalid = set()\n\n\nclass Record():\n')],
     "t = line({4: 'D', 21: '0'})\nassert Record().read(t)\nassert Record().read(t + 'X') is False\n",
     'a well formed record, and then the same text with something behind it', 'the overlong text is accepted')
seed('c10-section-memo', 'C10', [(D, '''  sections['UR'] = 'Restrictive Airspace'
  return sections[value]''', '''  sections['UR'] = 'Restrictive Airspace'
  known.update({k[0] + ' ': v for k, v in sections.items() if k == value and k[0] not in 'DER'})
  return known.get(value) or sections[value]'''), (D, '# 5.4 & 5.5 Section Code & Subsection Code\n', '# 5.4 & 5.5 Section Code & Subsection Code\nknown = {}\n\n\n')],
     "r = Record()\nassert decoder.field_004('T ', r) == '<UNKNOWN>'\nassert decoder.field_004('TC', r) != '<UNKNOWN>'\nassert decoder.field_004('T ', r) == '<UNKNOWN>', decoder.field_004('T ', r)\n",
     'a section code without subsection after one of the same section with it', 'the unassigned code gets the meaning of the assigned one')

seed('c16-parse-memo', 'C16', [(I, 'def parse(line, output=True):\n', '@functools.lru_cache(maxsize=1024)\ndef parse(line, output=True):\n'),
                               (I, 'import os\n', 'import functools\nimport os\n')],
     "t = line({4: 'D', 21: '0'})\na = out(arinc424.parse, t)\nassert a and out(arinc424.parse, t) == a\n",
     'the same line parsed twice in one program', 'the second time nothing is printed')

seed('c17-linecache', 'C17', [(I, '''  with open(path) as f:
    for line in f.readlines():
      parse(line, output)''', '''  for line in linecache.getlines(path):
    parse(line, output)'''), (I, 'import os\n', 'import linecache\nimport os\n')],
     "d = tempfile.mkdtemp()\ntry:\n    t = line({4: 'D', 21: '0'})\n    p = os.path.join(d, 'f')\n    open(p, 'w').write(t + chr(10))\n    assert out(arinc424.read_file, p) == out(arinc424.parse, t)\n    open(p, 'w').write(t + chr(10) + t + chr(10))\n    assert out(arinc424.read_file, p) == out(arinc424.parse, t) * 2\nfinally:\n    import shutil\n    shutil.rmtree(d)\n",
     'a file that is read, replaced by a new cycle and read again in one program', 'the old contents are parsed')

seed('c20-visited', 'C20', [(I, '''    read_file(os.path.join(path, file.name))''', '''    if file.inode() not in visited:
      visited.add(file.inode())
      read_file(os.path.join(path, file.name))'''), (I, 'def read_folder(path):', 'visited = set()\n\n\ndef read_folder(path):')],
     "d = tempfile.mkdtemp()\ntry:\n    t = line({4: 'D', 21: '0'})\n    p = os.path.join(d, 'f')\n    open(p, 'w').write(t + chr(10))\n    assert out(arinc424.read_folder, d) == out(arinc424.parse, t)\n    os.link(p, p + '2')\n    assert out(arinc424.read_folder, d) == out(arinc424.parse, t) * 2\nfinally:\n    import shutil\n    shutil.rmtree(d)\n",
     'a folder read twice in one program, or two hard links to one file in it', 'the second is skipped')

seed('c03-shared-list', 'C03', [('definitions/AirportGate.py', '''    if primary:
      return self.read_primary(line)

    application''', '''    if primary:
      self.fields[:] = self.read_primary(line)
      return self.fields

    application'''), ('definitions/AirportGate.py', "  name = 'Airport Gate'\n", "  name = 'Airport Gate'\n  fields = []\n")],
     "a = rec(line({4: 'P', 12: 'B', 21: '0', 13: 'GATE1'}))\nb = rec(line({4: 'P', 12: 'B', 21: '0', 13: 'GATE2'}))\nassert fields(a)['Gate Identifier'] == 'GATE1', fields(a)\n",
     'two airport gate records held at the same time', 'the first shows the fields of the second')

seed('c14-shared-buffer', 'C14', [(D, '''def field_017(value: str, record):
  s = io.StringIO()
''', '''def field_017(value: str, record, s=io.StringIO()):
  s.seek(0)
''')],
     "r = Record()\nassert decoder.field_017('E  M', r).splitlines() == ['Essential Waypoint', 'Published Missed Approach Point Fix']\nassert decoder.field_017('A   ', r) == 'Airport as Waypoint', decoder.field_017('A   ', r)\n",
     'a waypoint description that decodes to a longer text than the next one', 'the end of the longer text is left behind in the next')

seed('c18-exhausted', 'C18', [(I, '''  with open(file) as f:
    count = 0
''', '''  wanted = map(str, filters)
  with open(file) as f:
    count = 0
'''), (I, 'if all(map(r.raw.__contains__, filters)) is False:', 'if all(map(r.raw.__contains__, wanted)) is False:')],
     "d = tempfile.mkdtemp()\ntry:\n    p = os.path.join(d, 'f')\n    t = line({4: 'D', 21: '0', 13: 'ABCD'}) + chr(10) + line({4: 'D', 21: '0', 13: 'WXYZ'}) + chr(10)\n    open(p, 'w').write(t)\n    assert 'Found 1 records' in out(arinc424.search, p, ['ABCD'])\nfinally:\n    import shutil\n    shutil.rmtree(d)\n",
     'a list of filters and more than one record', 'from the second record on everything matches')

seed('c09-wrapped', 'C09', [(R, "    table.align = 'l'\n", "    table.align = 'l'\n    table.max_width['Value'] = 70\n")],
     "t = line({4: 'P', 12: 'B', 21: '2', 22: 'A', 23: 'N' * 69})\nassert 'N' * 69 in rec(t).decode(output=False)\nassert \"'\" + 'N' * 69 + \"'\" in rec(t).decode(output=False)\n",
     'a notes field of 69 characters, 71 with the quotes', 'the value is broken over two lines')

seed('c17-readlines-hint', 'C17', [(I, '''  with open(path) as f:
    for line in f.readlines():
      parse(line, output)''', '''  with open(path) as f:
    for line in f.readlines(1 << 20):
      parse(line, output)''')],
     "d = tempfile.mkdtemp()\ntry:\n    p = os.path.join(d, 'f')\n    t = line({4: 'D', 21: '0'}) + chr(10)\n    open(p, 'w').write(('x' * 99 + chr(10)) * 20000 + t)\n    assert out(arinc424.read_file, p) == out(arinc424.parse, t)\nfinally:\n    import shutil\n    shutil.rmtree(d)\n",
     'a file of more than a megabyte', 'the rest of the file is not read')

seed('c13-typeerror', 'C13', [(D, "{:03} {}\".format(int(value[1:]), value[0])", "{:03} {}\".format(int(value[1:]), ['East', 'West', 'True', 'Grid']['EWTG'.find(value[0])] if value[0] in 'EWTG' else value[-9])")],
     "r = rec(line({4: 'EA', 21: '0', 74: 'X0120'}))\nfor f in r.fields:\n    if f.decode_fn is decoder.field_039:\n        assert raises(f.decode, r) in (None, ValueError)\n",
     'a magnetic variation with another letter than E, W, T or G', 'decoding fails with IndexError')


seed('c20-tree', 'C20', [(I, '''  for file in os.scandir(path):
''', '''  for file in entries(path):
'''), (I, 'def read_folder(path):', '''def entries(path):
  for entry in os.scandir(path):
    if entry.is_dir():
      yield from entries(entry.path)
    else:
      yield entry


def read_folder(path):'''), (I, '    read_file(os.path.join(path, file.name))', '    read_file(file.path)')],
     "d = tempfile.mkdtemp()\ntry:\n    t = line({4: 'D', 21: '0'})\n    open(os.path.join(d, 'f'), 'w').write(t + chr(10))\n    os.mkdir(os.path.join(d, 'old'))\n    open(os.path.join(d, 'old', 'f'), 'w').write(t + chr(10))\n    assert out(arinc424.read_folder, d) == out(arinc424.parse, t)\nfinally:\n    import shutil\n    shutil.rmtree(d)\n",
     'a folder with a sub-folder that holds files', 'the files of the sub-folder are read as well')
