"""Behaviour-preserving rewrites of /repo, on which every check has to stay quiet (and should still prove).
   python3 tools/refactors.py [id ...]      prints, per rewrite and check: . proved, ~ undecided (bounded), V alarm"""
import os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, D, I = 'record.py', 'decoder.py', '__init__.py'
READ = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07']
DEC = ['C10', 'C11', 'C12', 'C13', 'C14', 'C15']
RS = []


def r(id, props, *edits):
    RS.append((id, props, edits))


def body(f, new):
    """replace a function of a file (from 'def f(' to the next top-level or same-level def)"""
    return ('def', f, new)


VAL_OLD = '''    line = line.strip()
    if line.startswith(('S', 'T')) is False:
      return False
    if len(line) != 132:
      return False
    if line[-9:].isnumeric() is False:
      return False
    return True
'''
r('val-and', READ, (R, VAL_OLD, '''    line = line.strip()
    return line.startswith(('S', 'T')) and len(line) == 132 and line[-9:].isnumeric()
'''))
r('val-all', READ, (R, VAL_OLD, '''    text = line.strip()
    checks = (
      len(text) == 132,
      text[:1] in ('S', 'T'),
      text[123:].isnumeric(),
    )
    return all(checks)
'''))
r('val-gen', READ, (R, VAL_OLD, '''    line = line.strip()
    if len(line) != 132 or line[0] not in 'ST':
      return False
    return all(c.isnumeric() for c in line[123:132])
'''))
r('val-regex', READ, (R, VAL_OLD, '''    line = line.strip()
    if not re.match('[ST]', line):
      return False
    return len(line) == 132 and line[-9:].isnumeric()
'''), (R, 'import json\n', 'import json\nimport re\n'))
r('val-const', READ, (R, VAL_OLD, '''    line = line.strip()
    for prefix in RECORD_TYPES:
      if line.startswith(prefix):
        break
    else:
      return False
    return len(line) == RECORD_LENGTH and line[-TAIL:].isnumeric()
'''), (R, 'def def_val():\n', 'RECORD_LENGTH = 132\nTAIL = 9\nRECORD_TYPES = frozenset("ST")\n\n\ndef def_val():\n'))

ID_OLD = '''    if identifier_1 in records:
      self.ident = identifier_1
    elif identifier_2 in records:
      self.ident = identifier_2
    else:
      return False
'''
r('id-loop', READ, (R, ID_OLD, '''    for candidate in (identifier_1, identifier_2):
      if candidate in records:
        self.ident = candidate
        break
    else:
      return False
'''))
r('id-next', READ, (R, ID_OLD, '''    found = next((i for i in (identifier_1, identifier_2) if i in records), None)
    if found is None:
      return False
    self.ident = found
'''))
r('id-get', READ, (R, ID_OLD + '''
    self.definition = records[self.ident]
''', '''    definition = records.get(identifier_1)
    self.ident = identifier_1
    if definition is None:
      definition = records.get(identifier_2)
      self.ident = identifier_2
    if definition is None:
      self.ident = ''
      return False
    self.definition = definition
'''))
r('id-helper', READ, (R, ID_OLD, '''    self.ident = self._identify(identifier_1, identifier_2)
    if not self.ident:
      return False
'''), (R, '  def read(self, line) -> bool:\n', '''  @staticmethod
  def _identify(*candidates):
    hits = [c for c in candidates if c in records]
    return hits[0] if hits else ''

  def read(self, line) -> bool:
'''))
r('id-try', READ, (R, ID_OLD + '''
    self.definition = records[self.ident]
''', '''    try:
      self.definition = RECORDS[identifier_1]
      self.ident = identifier_1
    except KeyError:
      try:
        self.definition = RECORDS[identifier_2]
        self.ident = identifier_2
      except KeyError:
        return False
'''), (R, 'class Record():\n', 'RECORDS = dict(records)\n\n\nclass Record():\n'))
r('reset-helper', READ, (R, '''    # forget anything left over from a previous read
    self.ident = ''
    self.raw = ''
    self.continuation = ''
    self.fields = []
    self.definition = -1

    if''', '''    self._reset()
    if'''), (R, '''  def __init__(self):
    self.ident = ''
    self.raw = ''
    self.continuation = ''
    self.fields = []
    self.definition = -1
''', '''  def __init__(self):
    self._reset()

  def _reset(self):
    self.ident = self.raw = self.continuation = ''
    self.fields = list()
    self.definition = -1
'''))
r('primary-in', READ + ['C19'], (R, '''    return self.continuation == '0' or self.continuation == '1'
''', '''    return self.continuation in ('0', '1')
'''), (R, '''    if self.primary() is False:
      return False
    return self.continuation == '1'
''', '''    return self.primary() and self.continuation == '1'
'''))
r('cont-helper', READ, (R, "      if self.continuation.isalnum() == False:\n", "      if not self._valid_continuation():\n"),
  (R, '  def read(self, line) -> bool:\n', '''  def _valid_continuation(self):
    return self.continuation.isalnum()

  def read(self, line) -> bool:
'''))
r('read-bool', READ, (R, '''    if not self.fields:
      return False

    return True
''', '''    return len(self.fields) > 0
'''))
r('read-split', READ, (R, '''    # read the record into a record object based on identifier
    self.fields = self.definition.read(line, self.primary())
''', '''    # read the record into a record object based on identifier
    is_primary = self.primary()
    reader = self.definition.read
    self.fields = [f for f in reader(self.raw, is_primary)]
'''))
r('records-dict', READ, (R, 'records = defaultdict(def_val)\n', 'records = {}\n'))
r('records-factory', READ, (R, '''  def __init__(self):
    self.ident''', '''  TYPES = {code: definition for code, definition in records.items()}

  def __init__(self):
    self.ident'''), (R, "    self.definition = records[self.ident]\n", "    self.definition = self.TYPES[self.ident]\n"))

JS = '''    d = {}
    for field in self.fields:
      d.update({field.name: field.value})
    if single_line:
      data = json.dumps(d)
    else:
      data = json.dumps(d, sort_keys=True, indent=4, separators=(',', ': '))
'''
r('json-comp', ['C08', 'C19'], (R, JS, '''    d = {field.name: field.value for field in self.fields}
    options = {} if single_line else dict(sort_keys=True, indent=4, separators=(',', ': '))
    data = json.dumps(d, **options)
'''))
r('json-zip', ['C08', 'C19'], (R, JS, '''    d = dict((field.name, field.value) for field in self.fields)
    data = json.dumps(d) if single_line else json.dumps(d, sort_keys=True, indent=4, separators=(',', ': '))
'''))
r('json-setitem', ['C08', 'C19'], (R, JS, '''    d = {}
    i = 0
    while i < len(self.fields):
      d[self.fields[i].name] = self.fields[i].value
      i += 1
    data = self._dump(d, single_line)
'''), (R, '  def json(self', '''  def _dump(self, d, single_line):
    if single_line:
      return json.dumps(d)
    return json.dumps(d, sort_keys=True, indent=4, separators=(',', ': '))

  def json(self'''))
DEOLD = '''    table = PrettyTable(field_names=['Field', 'Value', 'Decoded'])
    table.align = 'l'
    for field in self.fields:
      table.add_row([field.name, "'{}'".format(field.value), field.decode(self)])
    if output is True:
      print(table)
    return table.get_string()
'''
r('dec-rows', ['C09', 'C19', 'C16'], (R, DEOLD, '''    rows = [[field.name, f"'{field.value}'", field.decode(self)] for field in self.fields]
    table = PrettyTable()
    table.field_names = ['Field', 'Value', 'Decoded']
    table.align = 'l'
    table.add_rows(rows)
    if output is True:
      print(table)
    return table.get_string()
'''))
r('dec-str', ['C09', 'C19', 'C16'], (R, DEOLD, '''    table = PrettyTable(['Field', 'Value', 'Decoded'])
    table.align = 'l'
    for field in self.fields:
      value = "'" + field.value + "'"
      decoded = field.decode(self)
      table.add_row((field.name, value, decoded))
    text = table.get_string()
    if output is True:
      print(text)
    return text
'''))
r('dec-helper', ['C09', 'C19', 'C16'], (R, DEOLD, '''    table = self._table()
    if output is True:
      print(table)
    return table.get_string()

  def _table(self):
    table = PrettyTable(field_names=['Field', 'Value', 'Decoded'], align='l')
    for row in map(self._row, self.fields):
      table.add_row(row)
    return table

  def _row(self, field):
    return [field.name, "'%s'" % field.value, field.decode(self)]
'''))
PO = '''  r = Record()
  if r.read(line):
    r.decode(output)
    return True
  return False
'''
r('parse-early', ['C16', 'C17'], (I, PO, '''  record = Record()
  if not record.read(line):
    return False
  record.decode(output=output)
  return True
'''))
r('parse-var', ['C16', 'C17'], (I, PO, '''  r = Record()
  accepted = r.read(line)
  if accepted:
    _ = r.decode(output)
  return accepted
'''))
FO = '''  with open(path) as f:
    for line in f.readlines():
      parse(line, output)
'''
r('file-iter', ['C17', 'C20'], (I, FO, '''  with open(path) as f:
    for line in f:
      parse(line, output)
'''))
r('file-readline', ['C17', 'C20'], (I, FO, '''  with open(path, 'r') as f:
    while True:
      line = f.readline()
      if not line:
        break
      parse(line, output)
'''))
r('file-walrus', ['C17', 'C20'], (I, FO, '''  with open(path) as f:
    while line := f.readline():
      parse(line, output)
'''))
r('file-comp', ['C17', 'C20'], (I, FO, '''  with open(path) as f:
    lines = f.readlines()
  for line in lines:
    parse(line, output)
'''))
r('file-index', ['C17', 'C20'], (I, FO, '''  with open(path) as f:
    lines = f.readlines()
    i = 0
    while i < len(lines):
      parse(lines[i], output)
      i += 1
'''))
r('file-enum', ['C17', 'C20'], (I, FO, '''  with open(path) as f:
    for number, line in enumerate(f, start=1):
      parse(line, output)
'''))
r('file-split', ['C17', 'C20'], (I, FO, '''  with open(path) as f:
    for line in f.read().split('\\n'):
      parse(line, output)
'''))
r('file-gen', ['C17', 'C18', 'C20'], (I, FO, '''  for line in _lines(path):
    parse(line, output)
'''), (I, 'def search(', '''def _lines(path):
  with open(path) as f:
    yield from f


def search('''), (I, '''  with open(file) as f:
    count = 0
    for line in f.readlines():
''', '''  if True:
    count = 0
    for line in _lines(file):
'''))
r('file-listcomp', ['C17', 'C20'], (I, FO, '''  with open(path) as f:
    [parse(line, output) for line in f]
'''))
r('file-blank', ['C17', 'C20'], (I, FO, '''  with open(path) as f:
    for line in f:
      line = line.strip()
      if not line:
        continue
      parse(line, output)
'''))
r('file-close', ['C17', 'C20'], (I, FO, '''  f = open(path)
  try:
    for line in f.readlines():
      parse(line, output=output)
  finally:
    f.close()
'''))
r('file-path', ['C17', 'C20'], (I, FO, '''  with Path(path).open() as f:
    for line in f:
      parse(line, output)
'''), (I, 'import os\n', 'import os\nfrom pathlib import Path\n'))
SO = '''      r = Record()
      if r.read(line) is False:
        continue
      if isinstance(filters, str):
        if filters not in r.raw:
          continue
      elif isinstance(filters, list):
        if all(map(r.raw.__contains__, filters)) is False:
          continue
      print(r.raw)
      count = count + 1
'''
r('search-helper', ['C18'], (I, SO, '''      r = Record()
      if r.read(line) and _matches(r.raw, filters):
        print(r.raw)
        count += 1
'''), (I, 'def search(', '''def _matches(raw, filters):
  if isinstance(filters, str):
    return filters in raw
  if isinstance(filters, list):
    return all(f in raw for f in filters)
  return True


def search('''))
r('search-loop', ['C18'], (I, SO, '''      record = Record()
      if not record.read(line):
        continue
      wanted = [filters] if isinstance(filters, str) else filters if isinstance(filters, list) else []
      for text in wanted:
        if text not in record.raw:
          break
      else:
        print(record.raw)
        count += 1
'''))
r('search-any', ['C18'], (I, SO, '''      r = Record()
      if not r.read(line):
        continue
      if isinstance(filters, str) and r.raw.find(filters) == -1:
        continue
      if isinstance(filters, list) and any(f not in r.raw for f in filters):
        continue
      print(r.raw)
      count += 1
'''))
r('search-reuse', ['C18'], (I, '''    count = 0
    for line in f.readlines():
      r = Record()
''', '''    count = 0
    r = Record()
    for line in f:
'''))
r('search-end', ['C18'], (I, '''    print(colored(f"Found {count} records that contain {filters}", 'green' if count else 'red'))
''', '''  color = 'red' if count == 0 else 'green'
  message = "Found {} records that contain {}".format(count, filters)
  print(colored(message, color))
'''))
r('search-gen', ['C18'], (I, '''    count = 0
    for line in f.readlines():
''' + SO, '''    count = 0
    for r in _records(f):
      if isinstance(filters, str) and filters not in r.raw:
        continue
      if isinstance(filters, list) and not all(x in r.raw for x in filters):
        continue
      print(r.raw)
      count += 1
'''), (I, 'def search(', '''def _records(lines):
  for line in lines:
    r = Record()
    if r.read(line):
      yield r


def search('''))
S_OLD = """  with open(file) as f:
    count = 0
    for line in f.readlines():
""" + SO + """    print(colored(f"Found {count} records that contain {filters}", 'green' if count else 'red'))
"""
S_END = """  print(colored(f"Found {count} records that contain {filters}", 'green' if count else 'red'))
"""
S_HELP = """def _record(line):
  r = Record()
  return r if r.read(line) else None


def _matches(record, filters):
  if isinstance(filters, str):
    return filters in record.raw
  if isinstance(filters, list):
    for f in filters:
      if f not in record.raw:
        return False
  return True


def search("""
r('search-list', ['C18'], (I, S_OLD, """  with open(file) as f:
    lines = f.readlines()
  records = [_record(line) for line in lines]
  found = [r for r in records if r is not None and _matches(r, filters)]
  for r in found:
    print(r.raw)
  count = len(found)
""" + S_END), (I, 'def search(', S_HELP))
r('search-map', ['C18'], (I, S_OLD, """  count = 0
  with open(file) as f:
    for r in filter(None, map(_record, f)):
      if _matches(r, filters):
        print(r.raw)
        count += 1
""" + S_END), (I, 'def search(', S_HELP))
r('search-genexp', ['C18'], (I, S_OLD, """  count = 0
  with open(file) as f:
    records = (_record(line) for line in f)
    hits = (r.raw for r in records if r and _matches(r, filters))
    for count, raw in enumerate(hits, 1):
      print(raw)
""" + S_END), (I, 'def search(', S_HELP))
r('search-append', ['C18'], (I, S_OLD, """  found = []
  with open(file) as f:
    for line in f:
      r = _record(line)
      if r and _matches(r, filters):
        found.append(r.raw)
        print(r.raw)
  count = len(found)
""" + S_END), (I, 'def search(', S_HELP))
r('search-append2', ['C18'], (I, S_OLD, """  found = []
  with open(file) as f:
    for line in f:
      r = _record(line)
      if r and _matches(r, filters):
        found.append(r)
  for r in found:
    print(r.raw)
  count = len(found)
""" + S_END), (I, 'def search(', S_HELP))
r('search-bool', ['C18'], (I, S_OLD, """  count = 0
  with open(file) as f:
    while True:
      line = f.readline()
      if line == '':
        break
      r = Record()
      hit = r.read(line) and _matches(r, filters)
      if hit:
        print(r.raw)
      count += hit
""" + S_END), (I, 'def search(', S_HELP))
r('search-print1', ['C18'], (I, S_OLD, """  count = 0
  with open(file) as f:
    for line in f:
      r = _record(line)
      if r and _matches(r, filters):
        sys.stdout.write(r.raw + os.linesep)
        count += 1
""" + S_END), (I, 'def search(', S_HELP), (I, 'import os\n', 'import os\nimport sys\n'))
FL = '''  for file in os.scandir(path):
    if not file.is_file():
      continue
    read_file(os.path.join(path, file.name))
'''
r('folder-listdir', ['C20'], (I, FL, '''  for name in os.listdir(path):
    if os.path.isfile(os.path.join(path, name)):
      read_file(os.path.join(path, name))
'''))
r('folder-path', ['C20'], (I, FL, '''  with os.scandir(path) as entries:
    for entry in entries:
      if entry.is_file():
        read_file(entry.path)
'''))
r('folder-dirs', ['C20'], (I, FL, '''  for entry in os.scandir(path):
    if entry.is_dir():
      continue
    read_file(entry.path)
'''))
r('folder-filter', ['C20'], (I, FL, '''  for file in filter(lambda entry: entry.is_file(), os.scandir(path)):
    read_file(os.path.join(path, file.name))
'''))
r('folder-pathlib', ['C20'], (I, FL, '''  for file in Path(path).iterdir():
    if file.is_file():
      read_file(file)
'''), (I, 'import os\n', 'import os\nfrom pathlib import Path\n'))
r('folder-sorted', ['C20'], (I, FL, '''  names = sorted(entry.name for entry in os.scandir(path) if entry.is_file())
  for name in names:
    read_file(os.path.join(path, name), output=True)
'''))
r('folder-join', ['C20'], (I, FL, '''  for file in os.scandir(path):
    full = f"{path}{os.sep}{file.name}"
    if os.path.isfile(full):
      read_file(full)
'''))
r('folder-glob', ['C20'], (I, FL, '''  for root, dirs, files in os.walk(path):
    for name in files:
      read_file(os.path.join(root, name))
    break
'''))


# ---- decoder
def feet(t):
    t = t.replace('''return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value''', 'return _feet(value)')
    return t.replace('# 5.2 Record Type\n', '''def _feet(value):
  if not value.isnumeric():
    return value
  return "{} ft".format(value.lstrip('0') or '0')


# 5.2 Record Type
''')


r('dec-feet', DEC, (D, feet))
r('dec-feet-int', DEC, (D, lambda t: feet(t).replace('''return "{} ft".format(value.lstrip('0') or '0')''', '''return f"{int(value)} ft"''')))
r('dec-feet-strip', DEC, (D, lambda t: feet(t).replace('''  return "{} ft".format(value.lstrip('0') or '0')''', '''  i = 0
  while i < len(value) - 1 and value[i] == '0':
    i += 1
  return value[i:] + ' ft\'''')))


def sections(t):
    i = t.index("  sections = defaultdict(def_val)\n  sections['AS']")
    j = t.index('  return sections[value]', i)
    block = t[i:j]
    items = re.findall(r"sections\['(..)'\] = ('.*')\n", block)
    tab = '_SECTIONS = {\n' + ''.join("  '%s': %s,\n" % (a, b) for a, b in items) + '}\n\n\n'
    t = t[:i] + "  return _SECTIONS.get(value, '<UNKNOWN>')" + t[j + len('  return sections[value]'):]
    return t.replace('# 5.4 & 5.5 Section', tab + '# 5.4 & 5.5 Section')


r('dec-sections', DEC + ['C05'], (D, sections))


def match_to_dict(t):
    """every function that is one match with constant cases"""
    def rep(m):
        cases = re.findall(r"    case ('.*'):\n      return (.*)\n", m.group(2))
        default = re.search(r"    case _:\n      (.*)\n", m.group(2))
        if not default or 'raise' in default.group(1) or m.group(2).count('case') != len(cases) + 1:
            return m.group(0)
        return m.group(1) + '  table = {\n' + ''.join('    %s: %s,\n' % c for c in cases) + '  }\n  if value in table:\n    return table[value]\n  ' + default.group(1) + '\n'
    return re.sub(r"(def field_\d+\(value, record\):\n)  match value:\n((?:    .*\n)+)", rep, t)


r('dec-match', DEC, (D, match_to_dict))


def module_tables(t):
    """d = defaultdict(def_val); d[..] = .. moved to helper functions that are cached"""
    i = t.index("def field_101")
    j = t.index("  return d[value]", i)
    b = t[i:j]
    fn = b.replace('def field_101(value, record):', '@functools.lru_cache(maxsize=None)\ndef _comm_types():') + '  return d\n\n\n'
    t = t[:i] + fn + 'def field_101(value, record):\n  d = _comm_types()\n' + t[j:]
    return t.replace('import io\n', 'import functools\nimport io\n', 1)


r('dec-lru-table', DEC, (D, module_tables))


def wp(t):
    i = t.index('def field_017')
    j = t.index('# 5.18')
    b = t[i:j].replace('s = io.StringIO()', 's = []').replace("s.write(", "s.append(").replace("\\n')", "')").replace("return s.getvalue().strip()", "return '\\n'.join(s).strip()")
    return t[:i] + b + t[j:]


r('dec-wp-list', DEC, (D, wp))


def wp2(t):
    i = t.index('def field_017')
    j = t.index('# 5.18')
    b = t[i:j]
    tabs = []
    for m in re.finditer(r"  match value\[(\d)\]:\n((?:    .*\n)+)", b):
        tabs.append(dict(re.findall(r"case '(.)':\n\s+s.write\('(.*)\\n'\)", m.group(2))))
    src = '_DESC = (\n' + ''.join('  %r,\n' % x for x in tabs) + ')\n\n\n'
    return t[:i] + src + '''def field_017(value: str, record):
  parts = []
  for code, table in zip(value, _DESC):
    text = table.get(code)
    if text:
      parts.append(text)
  return '\\n'.join(parts)


''' + t[j:]


r('dec-wp-zip', DEC, (D, wp2))
r('dec-wp-comp', DEC, (D, lambda t: wp2(t).replace('''  parts = []
  for code, table in zip(value, _DESC):
    text = table.get(code)
    if text:
      parts.append(text)
  return '\\n'.join(parts)
''', '''  return '\\n'.join(_DESC[i][c] for i, c in enumerate(value[:4]) if c in _DESC[i])
''')))
r('dec-cycle', DEC, (D, '''  year = "19" + value[:2] if int(value[:2]) > 50 else "20" + value[:2]
  return '{}, Release {}'.format(year, value[2:])
''', '''  yy, release = value[:2], value[2:]
  century = 19 if int(yy) > 50 else 20
  return f'{century}{yy}, Release {release}'
'''))
r('dec-cycle2', DEC, (D, '''  year = "19" + value[:2] if int(value[:2]) > 50 else "20" + value[:2]
  return '{}, Release {}'.format(year, value[2:])
''', '''  short = int(value[0:2])
  year = 1900 + short if short > 50 else 2000 + short
  return '%d, Release %s' % (year, value[2:4])
'''))
r('dec-tz', DEC, (D, '''    x = 'MLKIHGFEDCBAZNOPQRSTUVWXY'.index(value[0]) - 12
    y = 'GMT +' + str(x) if x >= 0 else 'GMT ' + str(x)
    return y + ':' + str(value[1:])
''', '''    hours = _ZONES.index(value[0]) - 12
    return f'GMT {hours:+d}:{value[1:]}'
'''), (D, '# 5.178 Time Zone\n', "_ZONES = 'MLKIHGFEDCBAZNOPQRSTUVWXY'\n\n\n# 5.178 Time Zone\n"))
r('dec-tens', DEC, (D, lambda t: t.replace('"{:.1f}".format(float(value) / 10)', "'%.1f' % (float(value) / 10)").replace('return "{:.2f}".format(float(value)/100)', "return f'{float(value) / 100:.2f}'")))
r('dec-tens-int', DEC, (D, lambda t: t.replace('''  if (value.isnumeric()):
    return float(value)/10
''', '''  if value.isnumeric():
    return int(value) / 10
''')))
r('dec-27', DEC, (D, '''  value = value.strip()

  if len(value) > 0:
    if value[0] == 'T':
      return "{:.1f} min".format(float(value[1:]) / 10)
    else:
      return "{:.1f} nm".format(float(value) / 10)

  return value
''', '''  value = value.strip()
  if not value:
    return value
  unit = 'nm'
  number = value
  if value.startswith('T'):
    unit, number = 'min', value[1:]
  return f"{float(number) / 10:.1f} {unit}"
'''))
r('dec-7', DEC, (D, lambda t: t.replace("if record.ident == 'PD' or record.ident == 'HD'", "if record.ident in ('PD', 'HD')").replace("if record.ident == 'PE' or record.ident == 'HE'", "if record.ident[1:] == 'E' and record.ident[0] in 'PH'").replace('''  return d[value] if d[value] != "bad value" else value + " - BAD VALUE"''', '  return d[value]')))
r('dec-82', DEC, (D, lambda t: t.replace('''  wp = ''
  if value[1] == 'B':
    wp = wp + 'HI and LO Altitude'
  elif value[1] == 'H':
    wp = wp + 'HI Altitude'
  elif value[1] == 'L':
    wp = wp + 'LO Altitude'
  elif value[1] == ' ':
    wp = wp + 'Terminal Use Only'
  elif value[0] == 'R':
    wp = wp + 'RNAV'
  else:
    raise ValueError(f"Invalid Waypoint Usage: '{value}'")
  return wp
''', '''  altitude = {'B': 'HI and LO Altitude', 'H': 'HI Altitude', 'L': 'LO Altitude', ' ': 'Terminal Use Only'}
  first, second = value[0], value[1]
  try:
    return altitude[second]
  except KeyError:
    pass
  if first == 'R':
    return 'RNAV'
  raise ValueError(f"Invalid Waypoint Usage: '{value}'")
''')))
r('dec-ident', DEC, (D, lambda t: re.sub(r"  value = value.strip\(\)\n  if len\(value\) > 0:\n    if value.isalnum\(\) is False or len\(value\) > 4:\n      raise ValueError\((.*), value\)\n  return value\n", r"  return _short_ident(\1, value)\n", t).replace('# 5.2 Record Type\n', '''def _short_ident(message, value):
  text = value.strip()
  if not text:
    return text
  if len(text) > 4 or not all(c.isalnum() for c in text):
    raise ValueError(message, text)
  return text


# 5.2 Record Type
''')))
r('dec-verbatim', DEC + ['C03'], (D, lambda t: re.sub(r"def (field_(?!0?(?:09|14)\b)\d+)\(value, record\):\n  return value\n", r"def \1(value, record):\n  return verbatim(value)\n", t).replace('# 5.2 Record Type\n', 'def verbatim(value):\n  return value\n\n\n# 5.2 Record Type\n')))
r('dec-alias', DEC + ['C03'], (D, lambda t: re.sub(r"def (field_\d+)\(value, record\):\n  return value\n", r"\1 = _verbatim\n", t).replace('# 5.2 Record Type\n', 'def _verbatim(value, record):\n  return value\n\n\n# 5.2 Record Type\n')))
r('dec-lambda', DEC + ['C03'], (D, lambda t: re.sub(r"def (field_\d+)\(value, record\):\n  return value\n", r"\1 = lambda value, record: value\n", t)))
r('dec-factory', DEC, (D, lambda t: re.sub(r"def (field_\d+)\(value, record\):\n  return \(value.lstrip\('0'\) or '0'\) \+ \" ft\" if value.isnumeric\(\) else value\n", r"\1 = _with_unit('ft')\n", t).replace('# 5.2 Record Type\n', '''def _with_unit(unit):
  def decode(value, record):
    if value.isnumeric():
      return (value.lstrip('0') or '0') + ' ' + unit
    return value
  return decode


# 5.2 Record Type
''')))
r('field-dataclass', ['C03', 'C09', 'C12', 'C19', 'C07'], (D, '''class Field():

  def __init__(self, name, value, decode_fn):
    self.name = name
    self.value = value
    self.decode_fn = decode_fn

''', '''@dataclasses.dataclass
class Field():

  name: str
  value: str
  decode_fn: callable

'''), (D, 'import io\n', 'import dataclasses\nimport io\n'))
r('field-named', ['C03', 'C09', 'C12', 'C19', 'C07'], (D, '''class Field():

  def __init__(self, name, value, decode_fn):
    self.name = name
    self.value = value
    self.decode_fn = decode_fn

''', '''class Field(typing.NamedTuple):

  name: str
  value: str
  decode_fn: typing.Callable

'''), (D, 'import io\n', 'import typing\nimport io\n'))
r('field-slots', ['C03', 'C09', 'C12', 'C19', 'C07'], (D, '''class Field():

''', '''class Field():

  __slots__ = ('name', 'value', 'decode_fn')

'''))
# ---- definitions
V = 'definitions/VHFNavaid.py'


def dispatch(t):
    i = t.index('    application = line[self.app_idx]')
    j = t.index('  # 4.1.2.1')
    return t[:i] + '''    readers = {
      'A': self.read_cont,
      'L': self.read_lim,
      'P': self.read_flight_plan0,
      'S': self.read_sim,
    }
    reader = readers.get(self.application_type(line))
    return reader(line) if reader else []

''' + t[j:]


r('def-dispatch', READ, (V, dispatch))
r('def-ifs', READ, (V, lambda t: dispatch(t).replace('''    reader = readers.get(self.application_type(line))
    return reader(line) if reader else []
''', '''    for code, reader in readers.items():
      if line[self.app_idx] == code:
        return reader(line)
    return []
''')))
HEAD = re.compile(r'''      Field\("Record Type",.*\n(?:.*\n){7}''')


def head(t):
    n = [0]

    def rep(m):
        n[0] += 1
        return '      *self.head(r),\n'
    first = HEAD.search(t).group(0)
    t = HEAD.sub(rep, t)
    return t.replace('  # 4.1.2.1', '  def head(self, r):\n    return [\n' + first + '    ]\n\n  # 4.1.2.1', 1)


r('def-head', READ + ['C13'], (V, head))


def spec_table(t):
    """layouts as class-level tables of (name, slice, decoder)"""
    def conv(m):
        rows = re.findall(r'Field\((".*?"),\s+r\[(\d+)(?::(\d+))?\],\s+(decoder\.field_\d+)\)', m.group(2))
        return m.group(1) + '    return self.build(r, [\n' + ''.join('      (%s, %s, %s, %s),\n' % (n, a, b or int(a) + 1, f) for n, a, b, f in rows) + '    ])\n'
    t = re.sub(r'(  def read_\w+\(self, r\):\n)    return \[\n((?:.*\n)*?)    \](?:\n|$)', conv, t + '\n')
    return t.replace('  # 4.1.2.1', '''  @staticmethod
  def build(r, spec):
    fields = []
    for name, start, end, decode in spec:
      fields.append(Field(name, r[start:end], decode))
    return fields

  # 4.1.2.1''', 1)


r('def-table', READ + ['C13'], (V, spec_table))
r('def-table-comp', READ + ['C13'], (V, lambda t: spec_table(t).replace('''    fields = []
    for name, start, end, decode in spec:
      fields.append(Field(name, r[start:end], decode))
    return fields
''', '''    return [Field(name, value, decode) for name, value, decode in ((n, r[slice(a, b)], d) for n, a, b, d in spec)]
''')))


def msa_loop(t):
    i = t.index('      Field("Sector Bearing",  ')
    j = t.index('      Field("Magnetic/True Bearing",', i)
    t = t[:i] + '    ] + self.sectors(r) + [\n' + t[j:]
    return t.replace('  def read_primary(self, r):', '''  def sectors(self, r):
    out = []
    for i in range(7):
      suffix = '' if i == 0 else f' ({i + 1})'
      at = 42 + 11 * i
      out.append(Field('Sector Bearing' + suffix, r[at:at + 6], decoder.field_146))
      out.append(Field('Sector Altitude' + suffix, r[at + 6:at + 9], decoder.field_147))
      out.append(Field('Sector Radius' + suffix, r[at + 9:at + 11], decoder.field_145))
    return out

  def read_primary(self, r):''', 1)


r('def-msa-loop', READ + ['C13'], ('definitions/MSA.py', msa_loop))


def base_class(t):
    return t.replace('''class FIRUIR():
''', '''class Definition:

  def application_type(self, line):
    return line[self.app_idx]

  def read(self, line, primary):
    if primary:
      return self.read_primary(line)
    method = self.readers.get(line[self.app_idx])
    return getattr(self, method)(line) if method else []


class FIRUIR(Definition):

  readers = {'A': 'read_cont'}
''').replace('''  def application_type(self, line):
    return line[self.app_idx]

  def read(self, line, primary) -> list:

    if primary:
      return self.read_primary(line)

    application = line[self.app_idx]
    match application:
      case 'A':
        return self.read_cont(line)
      case _:
        return []

''', '')


r('def-base', READ + ['C13'], ('definitions/FIRUIR.py', base_class))
r('def-section', READ + ['C13'], ('definitions/Waypoint.py', lambda t: re.sub(r"r\[4:6\] if self.enroute is True else r\[4\]\+r\[12\],", "self.section(r),", t).replace('  def read(self, line, primary)', '''  def section(self, r):
    if self.enroute:
      return r[4:6]
    return ''.join((r[4], r[12]))

  def read(self, line, primary)''')))
r('def-gen', READ + ['C13'], ('definitions/GridMORA.py', lambda t: t.replace('    return [', '    return list(self.fields(r))\n\n  def fields(self, r):\n    yield from [')))
r('def-mora-loop', READ + ['C13'], ('definitions/GridMORA.py', lambda t: t[:t.index('      Field("MORA",')] + '''      *(Field("MORA" if n == 1 else "MORA (%d)" % n, r[a:a + 3], decoder.field_143)
        for n, a in zip([*range(1, 20), *range(21, 32)], range(30, 120, 3))),
''' + t[t.index('      Field("File Record No"'):]))


# ---- a second batch
JSON_OLD = """    d = {}
    for field in self.fields:
      d.update({field.name: field.value})
    if single_line:
      data = json.dumps(d)
    else:
      data = json.dumps(d, sort_keys=True, indent=4, separators=(',', ': '))
"""
r('json-opts', ['C08', 'C19', 'C07'], (R, JSON_OLD, """    options = {} if single_line else dict(sort_keys=True, indent=4, separators=(',', ': '))
    data = json.dumps(dict((f.name, f.value) for f in self.fields), **options)
"""))
r('json-items', ['C08', 'C19'], (R, JSON_OLD, """    d = dict.fromkeys(f.name for f in self.fields)
    for f in self.fields:
      d[f.name] = f.value
    data = json.dumps(d, indent=None if single_line else 4, sort_keys=not single_line,
                      separators=None if single_line else (',', ': '))
"""))
r('json-encoder', ['C08', 'C19'], (R, JSON_OLD, """    pairs = [(field.name, field.value) for field in self.fields]
    d = {name: value for name, value in pairs}
    kw = {}
    if not single_line:
      kw['sort_keys'], kw['indent'], kw['separators'] = True, 4, (',', ': ')
    data = json.dumps(d, **kw)
"""))
DEC_OLD = """    table = PrettyTable(field_names=['Field', 'Value', 'Decoded'])
    table.align = 'l'
    for field in self.fields:
      table.add_row([field.name, "'{}'".format(field.value), field.decode(self)])
    if output is True:
      print(table)
    return table.get_string()
"""
r('tab-addrows', ['C09', 'C19', 'C16'], (R, DEC_OLD, """    table = PrettyTable(['Field', 'Value', 'Decoded'])
    table.align = 'l'
    table.add_rows([f.name, f"'{f.value}'", f.decode(self)] for f in self.fields)
    text = table.get_string()
    if output is True:
      print(text)
    return text
"""))
r('tab-setnames', ['C09', 'C19', 'C16'], (R, DEC_OLD, """    table = PrettyTable()
    table.field_names = ['Field', 'Value', 'Decoded']
    table.align = 'l'
    rows = []
    for field in self.fields:
      rows.append((field.name, repr_value(field), field.decode(self)))
    for row in rows:
      table.add_row(list(row))
    text = str(table)
    if output is True:
      print(text)
    return text
"""), (R, "class Record():\n", "def repr_value(field):\n  return \"'\" + field.value + \"'\"\n\n\nclass Record():\n"))
r('tab-alignkw', ['C09', 'C19', 'C16'], (R, DEC_OLD, """    decoded = [(f, f.decode(self)) for f in self.fields]
    table = PrettyTable(field_names=['Field', 'Value', 'Decoded'], align='l')
    for f, text in decoded:
      table.add_row([f.name, "'%s'" % f.value, text])
    if output is True:
      print(table.get_string())
    return table.get_string()
"""))
r('prim-set', READ + ['C19'], (R, """    if self.definition == -1:
      return False
    return self.continuation == '0' or self.continuation == '1'
""", """    return self.definition != -1 and self.continuation in {'0', '1'}
"""), (R, """    if self.primary() is False:
      return False
    return self.continuation == '1'
""", """    return bool(self.primary() and self.continuation == '1')
"""))
r('read-getattr', READ, (R, "    if hasattr(self.definition, 'cont_idx'):\n", "    if getattr(self.definition, 'cont_idx', None) is not None:\n"),
  (R, "      if self.continuation.isalnum() == False:\n", "      if not self.continuation.isalnum():\n"),
  (R, "      if self.primary() is False:\n        if hasattr", "      if not self.primary():\n        if hasattr"))
r('read-inverted', READ, (R, """    self.fields = self.definition.read(line, self.primary())
    if not self.fields:
      return False

    return True
""", """    self.fields = self.definition.read(line, self.primary())
    return len(self.fields) > 0
"""))
r('read-order', READ, (R, """    # remove any surrounding whitespace
    line = line.strip()
    self.raw = line

    identifier_1 = line[4:6]
    identifier_2 = line[4] + line[12]
""", """    self.raw = line = line.strip()
    section, subsection, other = line[4], line[5], line[12]
    identifier_2 = ''.join((section, other))
    identifier_1 = ''.join([section, subsection])
"""))
r('read-deadcode', READ, (R, """          if (application_type not in self.definition.continuations) and not 'J':
            print(f'Unsupported {self.definition.name} Application Type: "{application_type}"')
            print(f'Supported application types for {self.definition.name} are: {self.definition.continuations}')
            print(f'Record: {self.raw}')
            return False
""", """          del application_type
"""))
r('read-print', READ, (R, """        print(f'Unsupported {self.definition.name} Continuation Record Number: "{self.continuation}"')
        print('Valid Continuation Record Numbers are 0, 1, 2 (through 9) A, B, C (through Z)')
        print(f'Record: {self.raw}')
        return False
""", """        print('Unsupported {} Continuation Record Number: "{}"'.format(self.definition.name, self.continuation),
              'Valid Continuation Record Numbers are 0, 1, 2 (through 9) A, B, C (through Z)',
              'Record: %s' % self.raw, sep='\\n')
        return False
"""))
r('sec-dict', ['C05', 'C10', 'C13', 'C14'], (D, lambda t: t.replace("  if (value.strip() == ''):\n", "  if not value.strip():\n")))
r('cont-dict', ['C10', 'C13', 'C12'], (D, """  match value:
    case '0':
      return 'Primary Record'
    case '1':
      return 'Primary Record (with Cont.)'
    case _:
      return str(value) + ' - Continuation'
""", """  return {'0': 'Primary Record', '1': 'Primary Record (with Cont.)'}.get(value, f'{value} - Continuation')
"""))
r('seq-table', ['C14', 'C13'], (D, """  match len(value.strip()):
    case 1:
      return f'MSA Table, TAA Table, Cruise Table - Sequence No. {value}'
    case 2:
      return f'VHF Navaid Limitation Continuation Records - Sequence No. {value}'
    case 3:
      return f'SID/STAR/Approach and Company Routes - Sequence No. {value}'
    case 4:
      return f'Enroute Airways, Preferred Routes, FIR/UIR, and Restrictive Airspace - Sequence No. {value}'
    case _:
      return value
""", """  kinds = [
    'MSA Table, TAA Table, Cruise Table',
    'VHF Navaid Limitation Continuation Records',
    'SID/STAR/Approach and Company Routes',
    'Enroute Airways, Preferred Routes, FIR/UIR, and Restrictive Airspace',
  ]
  n = len(value.strip())
  if not 1 <= n <= len(kinds):
    return value
  return '%s - Sequence No. %s' % (kinds[n - 1], value)
"""))
r('turn-dict', ['C10', 'C13'], (D, """  if value == 'R':
    return 'Right'
  elif value == 'L':
    return 'Left'
  # TODO check this
  elif value == 'E' or value == ' ':
    return 'Either'
  else:
    raise ValueError("Invalid Turn Direction:", value)
""", """  try:
    return TURNS[value]
  except KeyError:
    raise ValueError("Invalid Turn Direction:", value) from None
"""), (D, "# 5.20 Turn Direction (TURN DIR)\n", "TURNS = {'R': 'Right', 'L': 'Left', 'E': 'Either', ' ': 'Either'}\n\n\n# 5.20 Turn Direction (TURN DIR)\n"))
r('path-get', ['C10', 'C13', 'C19'], (D, """  if not value.isalpha():
    raise ValueError("Invalid Path and Termination:", value)

  return LegTypeDesc[value]
""", """  if value.isalpha():
    return LegTypeDesc.get(value, def_val())
  raise ValueError("Invalid Path and Termination:", value)
"""))
r('wp-tables', ['C14', 'C13', 'C19'], (D, """  match value[0]:
    case 'C':
      return "Combined Named Intersection and RNAV"
    case 'I':
      return 'Unnamed, Charted Intersection'
    case 'N':
      return 'NDB Navaid as Waypoint' + value[1:]
    case 'R':
      return 'Named Intersection'
    case 'U':
      return 'Uncharted Airway Intersection'
    case 'V':
      return 'VFR Waypoint'
    case 'W':
      return 'RNAV Waypoint'
  match value[1]:
""", """  first, second = value[0], value[1]
  kinds = {
    'C': "Combined Named Intersection and RNAV",
    'I': 'Unnamed, Charted Intersection',
    'N': 'NDB Navaid as Waypoint' + value[1:],
    'R': 'Named Intersection',
    'U': 'Uncharted Airway Intersection',
    'V': 'VFR Waypoint',
    'W': 'RNAV Waypoint',
  }
  if first in kinds:
    return kinds[first]
  match second:
"""))
r('course-split', ['C11', 'C13'], (D, """  if value.isalnum() is False or len(value) > 4:
    raise ValueError('Invalid Outbound Magnetic Course', value)

  # Handle the 'T' in the tenths position for degrees true
  if value.endswith('T'):
    return value
  else:
    return "{:.1f}".format(float(value) / 10)
""", """  if not (value.isalnum() and len(value) <= 4):
    raise ValueError('Invalid Outbound Magnetic Course', value)
  is_true = value[-1:] == 'T'
  return value if is_true else f"{float(value) / 10:.1f}"
"""))
r('freq-tern', ['C11', 'C13'], (D, """  if (value.isnumeric()):
    return "{:.2f}".format(float(value)/100)
  else:
    return "BAD VALUE"


# 5.46""", """  return "BAD VALUE" if not value.isnumeric() else "%.2f" % (float(value) / 100)


# 5.46"""))
r('var-split', ['C11', 'C13'], (D, """  return value if value.strip() == '' else "{:03} {}".format(int(value[1:]), value[0])
""", """  if value.isspace() or not value:
    return value
  direction, degrees = value[0], int(value[1:])
  return f"{degrees:03d} {direction}"
"""))
r('hundreds', ['C11', 'C13'], (D, """  if value.isnumeric():
    return value.lstrip('0')+"00" + " ft"
  else:
    return value


# 5.55""", """  if not value.isnumeric():
    return value
  hundreds = value
  while hundreds.startswith('0'):
    hundreds = hundreds[1:]
  return '{}00 ft'.format(hundreds)


# 5.55"""))
r('parse-not', ['C16', 'C17'], (I, """  r = Record()
  if r.read(line):
    r.decode(output)
    return True
  return False
""", """  record = Record()
  accepted = record.read(line)
  if not accepted:
    return False
  _ = record.decode(output=output)
  return accepted
"""))
r('file-lines', ['C17', 'C20'], (I, """  with open(path) as f:
    for line in f.readlines():
      parse(line, output)""", """  with open(path, 'r') as f:
    lines = f.readlines()
  for line in lines:
    parse(line, output=output)"""))
r('file-try', ['C17', 'C20'], (I, """  with open(path) as f:
    for line in f.readlines():
      parse(line, output)""", """  f = open(path)
  try:
    line = f.readline()
    while line != '':
      parse(line, output)
      line = f.readline()
  finally:
    f.close()"""))
r('file-each', ['C17', 'C20'], (I, """  with open(path) as f:
    for line in f.readlines():
      parse(line, output)""", """  def each(lines):
    for text in lines:
      parse(text, output)

  with open(path) as f:
    each(f)"""))
r('search-match', ['C18'], (I, """      if isinstance(filters, str):
        if filters not in r.raw:
          continue
      elif isinstance(filters, list):
        if all(map(r.raw.__contains__, filters)) is False:
          continue
      print(r.raw)
      count = count + 1
""", """      if not matches(r.raw, filters):
        continue
      count += 1
      print(r.raw)
"""), (I, "def search(file, filters):\n", """def matches(raw, filters):
  match filters:
    case str():
      return filters in raw
    case list():
      for text in filters:
        if text not in raw:
          return False
  return True


def search(file, filters):
"""))
r('search-norm', ['C18'], (I, """  with open(file) as f:
    count = 0
    for line in f.readlines():
""", """  needles = [filters] if isinstance(filters, str) else filters if isinstance(filters, list) else []
  count = 0
  with open(file) as f:
    for line in f:
"""), (I, """      if isinstance(filters, str):
        if filters not in r.raw:
          continue
      elif isinstance(filters, list):
        if all(map(r.raw.__contains__, filters)) is False:
          continue
""", """      if not all(n in r.raw for n in needles):
        continue
"""))
r('search-missing', ['C18'], (I, """        if all(map(r.raw.__contains__, filters)) is False:
          continue
""", """        missing = False
        for text in filters:
          if r.raw.find(text) < 0:
            missing = True
        if missing:
          continue
"""))
r('folder-with', ['C20'], (I, FL, '''  with os.scandir(path) as entries:
    files = [entry.path for entry in entries if entry.is_file()]
  for file in files:
    read_file(file)
'''))
r('folder-map', ['C20'], (I, FL, '''  names = [entry.name for entry in os.scandir(path) if entry.is_file()]
  for name in sorted(names):
    read_file(os.path.join(path, name), True)
'''))

r('search-append3', ['C18'], (I, S_OLD, '''  found = _find(file, filters)
  for text in found:
    print(text)
  count = len(found)
''' + S_END), (I, 'def search(', '''def _find(file, filters):
  matches = []
  with open(file) as f:
    for line in f:
      r = Record()
      if not r.read(line):
        continue
      if isinstance(filters, str):
        if filters not in r.raw:
          continue
      elif isinstance(filters, list):
        if not all(x in r.raw for x in filters):
          continue
      matches.append(r.raw)
  return matches


def search('''))
r('search-append4', ['C18'], (I, S_OLD, '''  recs = []
  with open(file) as f:
    for line in f:
      r = Record()
      if r.read(line):
        recs.append(r)
  wanted = [filters] if isinstance(filters, str) else filters
  found = []
  for rec in recs:
    missing = [x for x in wanted if x not in rec.raw]
    if not missing:
      found.append(rec)
      print(rec.raw)
  count = len(found)
''' + S_END))
r('file-append', ['C17'], (I, '''    for line in f.readlines():
      parse(line, output)''', '''    lines = []
    for line in f:
      lines.append(line.strip())
  for line in lines:
    parse(line, output)'''))
r('file-append2', ['C17'], (I, '''    for line in f.readlines():
      parse(line, output)''', '''    lines = f.readlines()
  kept = []
  for line in lines:
    if line.strip():
      kept.append(line)
  for line in kept:
    parse(line, output)'''))
r('folder-append', ['C20'], (I, FL, '''  files = []
  for entry in os.scandir(path):
    if entry.is_file():
      files.append(entry.path)
  files.sort()
  for file in files:
    read_file(file)
'''))

r('search-nonempty', ['C18'], (I, S_OLD, '''  count = 0
  with open(file) as f:
    for line in f:
      r = Record()
      if not r.read(line):
        continue
      if isinstance(filters, str):
        if filters not in r.raw:
          continue
      elif isinstance(filters, list) and filters:
        if not all(map(lambda x: x in r.raw, filters)):
          continue
      print(r.raw)
      count += 1
''' + S_END))

# ---- a third batch: less common language and library features
FEET29 = """def field_029(value, record):
  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
"""
r('feet-translate', ['C11'], (D, FEET29, """def field_029(value, record):
  if not value.isnumeric():
    return value
  number, unit = value.lstrip('0'), 'ft'
  return ' '.join([number if number else '0', unit])
"""))
r('feet-recursive', ['C11'], (D, FEET29, """def _trim(text):
  return _trim(text[1:]) if len(text) > 1 and text[0] == '0' else text


def field_029(value, record):
  return f'{_trim(value)} ft' if value.isnumeric() else value
"""))
r('feet-removeprefix', ['C11'], (D, FEET29, """def field_029(value, record):
  if not value.isnumeric():
    return value
  while value != '0' and value[:1] == '0' and len(value) > 1:
    value = value.removeprefix('0')
  return value + ' ft'
"""))
r('feet-partial', ['C11'], (D, FEET29, """def _unit(unit, text):
  return '%s %s' % (text, unit)


_feet = functools.partial(_unit, 'ft')


def field_029(value, record):
  return _feet(value.lstrip('0') or '0') if value.isnumeric() else value
"""), (D, 'import io\n', 'import functools\nimport io\n'))
r('feet-decorator', ['C11'], (D, FEET29, """def numeric_only(fn):
  @functools.wraps(fn)
  def wrapper(value, record):
    if not value.isnumeric():
      return value
    return fn(value, record)
  return wrapper


@numeric_only
def field_029(value, record):
  return (value.lstrip('0') or '0') + ' ft'
"""), (D, 'import io\n', 'import functools\nimport io\n'))
T26 = """  # Handle the 'T' in the tenths position for degrees true
  if value.endswith('T'):
    return value
  else:
    return "{:.1f}".format(float(value) / 10)
"""
r('tenth-fstring', ['C11'], (D, T26, """  # Handle the 'T' in the tenths position for degrees true
  return value if value[-1] == 'T' else f'{float(value) / 10:.1f}'
"""))
r('tenth-percent', ['C11'], (D, T26, """  true_course = value.endswith('T')
  return value if true_course else '%.1f' % (float(value) / 10)
"""))
r('tenth-nested', ['C11'], (D, T26, """  places = 1
  if value.endswith('T'):
    return value
  return f'{float(value) / 10 ** places:.{places}f}'
"""))
r('tenth-mul', ['C11'], (D, T26, """  if value.endswith('T'):
    return value
  degrees = float(value)
  degrees /= 10
  return format(degrees, '.1f')
"""))
TURN = """  if value == 'R':
    return 'Right'
  elif value == 'L':
    return 'Left'
  # TODO check this
  elif value == 'E' or value == ' ':
    return 'Either'
  else:
    raise ValueError("Invalid Turn Direction:", value)
"""
r('turn-match', ['C10', 'C14'], (D, TURN, """  match value:
    case 'R':
      text = 'Right'
    case 'L':
      text = 'Left'
    case 'E' | ' ':
      text = 'Either'
    case other:
      raise ValueError("Invalid Turn Direction:", other)
  return text
"""))
r('turn-pairs', ['C10', 'C14'], (D, TURN, """  for codes, text in (('R', 'Right'), ('L', 'Left'), ('E ', 'Either')):
    if value in tuple(codes):
      return text
  raise ValueError("Invalid Turn Direction:", value)
"""))
r('turn-enum', ['C10', 'C14'], (D, TURN, """  try:
    return Turn[value if value != ' ' else 'E'].value
  except KeyError:
    raise ValueError("Invalid Turn Direction:", value) from None
"""), (D, '# 5.20 Turn Direction (TURN DIR)\n', """class Turn(enum.Enum):
  R = 'Right'
  L = 'Left'
  E = 'Either'


# 5.20 Turn Direction (TURN DIR)
"""), (D, 'import io\n', 'import enum\nimport io\n'))
r('turn-mapping', ['C10', 'C14'], (D, TURN, """  if value not in TURNS:
    raise ValueError("Invalid Turn Direction:", value)
  return TURNS[value]
"""), (D, '# 5.20 Turn Direction (TURN DIR)\n', """TURNS = types.MappingProxyType({'R': 'Right', 'L': 'Left'} | dict.fromkeys('E ', 'Either'))


# 5.20 Turn Direction (TURN DIR)
"""), (D, 'import io\n', 'import io\nimport types\n'))
r('turn-chain', ['C10', 'C14'], (D, TURN, """  text = TURNS.get(value)
  if text is None:
    raise ValueError("Invalid Turn Direction:", value)
  return text
"""), (D, '# 5.20 Turn Direction (TURN DIR)\n', """TURNS = ChainMap({'R': 'Right'}, {'L': 'Left'}, {'E': 'Either', ' ': 'Either'})


# 5.20 Turn Direction (TURN DIR)
"""), (D, 'from collections import defaultdict\n', 'from collections import ChainMap, defaultdict\n'))
r('turn-viewget', ['C10', 'C14'], (D, TURN, """  text = TURNS.get(value)
  if text is None:
    raise ValueError("Invalid Turn Direction:", value)
  return text
"""), (D, '# 5.20 Turn Direction (TURN DIR)\n', """TURNS = types.MappingProxyType({'R': 'Right', 'L': 'Left', 'E': 'Either', ' ': 'Either'})


# 5.20 Turn Direction (TURN DIR)
"""), (D, 'import io\n', 'import io\nimport types\n'))
r('turn-enumval', ['C10', 'C14'], (D, TURN, """  try:
    return Turn(value if value != ' ' else 'E').name.capitalize()
  except ValueError:
    raise ValueError("Invalid Turn Direction:", value) from None
"""), (D, '# 5.20 Turn Direction (TURN DIR)\n', """class Turn(str, enum.Enum):
  RIGHT = 'R'
  LEFT = 'L'
  EITHER = 'E'


# 5.20 Turn Direction (TURN DIR)
"""), (D, 'import io\n', 'import enum\nimport io\n'))
LEG = """  if not value.isalpha():
    raise ValueError("Invalid Path and Termination:", value)

  return LegTypeDesc[value]
"""
r('leg-missing', ['C10', 'C19'], (D, LEG, """  if not value.isalpha():
    raise ValueError("Invalid Path and Termination:", value)

  try:
    return dict(LegTypeDesc)[value]
  except KeyError:
    return def_val()
"""))
r('leg-class', ['C10', 'C19'], (D, 'LegTypeDesc = defaultdict(def_val)\n', """class Table(dict):

  def __missing__(self, key):
    return def_val()


LegTypeDesc = Table()
"""))
r('leg-chain', ['C10', 'C19'], (D, LEG, """  if not value.isalpha():
    raise ValueError("Invalid Path and Termination:", value)
  if value in LegTypeDesc:
    return LegTypeDesc[value]
  return '<UNKNOWN>'
"""))
SEQ = """  match len(value.strip()):
    case 1:
      return f'MSA"""
r('seq-guard', ['C12'], (D, SEQ, """  size = len(value.strip())
  match size:
    case n if n == 1:
      return f'MSA"""))
MAG = """  return value if value.strip() == '' else "{:03} {}".format(int(value[1:]), value[0])
"""
r('mag-zfill', ['C11'], (D, MAG, """  if not value.strip():
    return value
  side, *digits = value
  return ' '.join((str(int(''.join(digits))).zfill(3), side))
"""))
r('mag-fstring', ['C11'], (D, MAG, """  if value.isspace() or not value:
    return value
  direction, amount = value[0], int(value[1:])
  return f'{amount:03} {direction}'
"""))
APP = """  return f"Approach: {value[0]}, Runway: {value[1:4]}"
"""
r('app-slice', ['C10', 'C12', 'C14'], (D, APP, """  runway = slice(1, 4)
  parts = {'Approach': value[0], 'Runway': value[runway]}
  return ', '.join(f'{k}: {v}' for k, v in parts.items())
"""))
r('app-format', ['C10', 'C12', 'C14'], (D, APP, """  return 'Approach: {0[0]}, Runway: {1}'.format(value, value[1:4])
"""))
r('field-call', ['C08', 'C10', 'C19'], (D, """  def decode(self, record):
    return self.decode_fn(self.value, record)
""", """  def __repr__(self):
    return f'{type(self).__name__}({self.name!r}, {self.value!r})'

  def __eq__(self, other):
    return isinstance(other, Field) and (self.name, self.value) == (other.name, other.value)

  def decode(self, record):
    decode = self.decode_fn
    return decode(self.value, record)
"""))
r('rec-props', READ + ['C08', 'C19'], (R, """  def hasCont(self):
    if self.primary() is False:
      return False
    return self.continuation == '1'
""", """  @property
  def length(self):
    return len(self.raw)

  @classmethod
  def from_line(cls, line):
    record = cls()
    return record if record.read(line) else None

  def __len__(self):
    return len(self.fields)

  def __bool__(self):
    return True

  def hasCont(self):
    return False if not self.primary() else self.continuation == '1'
"""))
r('rec-chained', READ, (R, """    return self.continuation == '0' or self.continuation == '1'
""", """    return self.continuation in ('0', '1')
"""))
r('rec-reset-tuple', READ + ['C19'], (R, """    self.ident = ''
    self.raw = ''
    self.continuation = ''
    self.fields = []
    self.definition = -1

    if self.validate""", """    self.ident = self.raw = self.continuation = ''
    self.fields, self.definition = [], -1

    if self.validate"""))
r('rec-reset-init', READ + ['C19'], (R, """    self.ident = ''
    self.raw = ''
    self.continuation = ''
    self.fields = []
    self.definition = -1

    if self.validate""", """    self.__init__()

    if self.validate"""))
r('rec-reset-vars', READ + ['C19'], (R, """    self.ident = ''
    self.raw = ''
    self.continuation = ''
    self.fields = []
    self.definition = -1

    if self.validate""", """    for name, blank in (('ident', ''), ('raw', ''), ('continuation', ''), ('definition', -1)):
      setattr(self, name, blank)
    self.fields = list()

    if self.validate"""))
r('rec-finally', READ, (R, """    self.fields = self.definition.read(line, self.primary())
    if not self.fields:
      return False

    return True
""", """    self.fields = self.definition.read(line, self.primary())
    return len(self.fields) > 0
"""))
r('tab-table', ['C08', 'C09', 'C17'], (R, """    for field in self.fields:
      table.add_row([field.name, "'{}'".format(field.value), field.decode(self)])
    if output is True:
      print(table)
    return table.get_string()
""", """    def row(field):
      return [field.name, f"'{field.value}'", field.decode(self)]

    for field in self.fields:
      table.add_row(row(field))
    text = table.get_string()
    if output is True:
      print(text)
    return text
"""))
r('json-indent', ['C16'], (R, """    d = {}
    for field in self.fields:
      d.update({field.name: field.value})
    if single_line:
      data = json.dumps(d)
    else:
      data = json.dumps(d, sort_keys=True, indent=4, separators=(',', ': '))
""", """    d = dict()
    for field in self.fields:
      d |= {field.name: field.value}
    data = json.dumps(d) if single_line else json.dumps(d, indent=4, separators=(',', ': '), sort_keys=True)
"""))
r('sect-helper', ['C10', 'C14'], (D, """def field_004(value, record):
  if (value.strip() == ''):
    return value
""", """def _blank(value):
  return not value.strip()


def field_004(value, record):
  if _blank(value):
    return value
"""))
WP17 = lambda t: t.replace("  s = io.StringIO()\n  match value[0]:\n    case 'A':\n      s.write('Airport", "  lines = []\n  match value[0]:\n    case 'A':\n      s.write('Airport").replace('s.write(', 'lines.append(').replace('  return s.getvalue().strip()\n', "  return ''.join(lines).strip()\n")
r('wp-lines', ['C10', 'C14', 'C19'], (D, WP17))
WP17b = lambda t: t.replace("  s = io.StringIO()\n  match value[0]:\n    case 'A':\n      s.write('Airport", "  text = ''\n  match value[0]:\n    case 'A':\n      s.write('Airport").replace("s.write(", 'text += (').replace('  return s.getvalue().strip()\n', "  return text.strip()\n")
r('wp-concat', ['C10', 'C14', 'C19'], (D, WP17b))
WP17c = lambda t: t.replace("  match value[0]:\n    case 'A':\n      s.write('Airport", "  usage, leg, fix, role = value\n  match usage:\n    case 'A':\n      s.write('Airport").replace("  match value[1]:\n    case 'B':\n      s.wr", "  match leg:\n    case 'B':\n      s.wr")
r('wp-unpack', ['C10', 'C14', 'C19'], (D, WP17c))
r('search-setfilters', ['C18'], (I, """      elif isinstance(filters, list):
        if all(map(r.raw.__contains__, filters)) is False:
          continue
""", """      elif isinstance(filters, list):
        missing = [text for text in filters if text not in r.raw]
        if missing:
          continue
"""))
r('search-flag', ['C18'], (I, """    print(colored(f"Found {count} records that contain {filters}", 'green' if count else 'red'))
""", """    if count > 0:
      color = 'green'
    else:
      color = 'red'
    message = "Found {} records that contain {}".format(count, filters)
    print(colored(message, color))
"""))
r('read-lines-local', ['C17'], (I, """  with open(path) as f:
    for line in f.readlines():
      parse(line, output)
""", """  with open(path) as f:
    lines = f.readlines()
  for number, line in enumerate(lines, start=1):
    parse(line, output=output)
"""))
r('parse-table', ['C08', 'C09', 'C17'], (I, """  r = Record()
  if r.read(line):
    r.decode(output)
    return True
  return False
""", """  record = Record()
  accepted = record.read(line)
  if accepted:
    record.decode(output=output)
  return accepted
"""))

# ---- a fourth batch: larger restructurings
def rec_refused(t):
    i, j = t.index('  def read(self, line) -> bool:'), t.index('  def decode(self, output=True):')
    body = t[i:j]
    body = body.replace('  def read(self, line) -> bool:\n', '  def _read(self, line):\n').replace('return False', 'raise Refused()').replace('    return True\n', '')
    return t[:i].replace('class Record():', 'class Refused(Exception):\n  pass\n\n\nclass Record():') + body + """  def read(self, line) -> bool:
    try:
      self._read(line)
    except Refused:
      return False
    return True

""" + t[j:]


r('big-refused', READ + ['C16', 'C19'], (R, rec_refused))


def rec_steps(t):
    a = t.index('    identifier_1 = line[4:6]')
    c = t.index('    # validate the continuation record number')
    d = t.index('    # read the record into a record object')
    return t[:a] + """    if not self._classify(line):
      return False
    if not self._continue():
      return False

""" + t[d:].replace('  def decode(self, output=True):', """  def _classify(self, line):
    for ident in (line[4:6], line[4] + line[12]):
      if ident in records:
        self.ident = ident
        self.definition = records[ident]
        return True
    return False

  def _continue(self):
""" + t[c:d] + """    return True

  def decode(self, output=True):""")


r('big-steps', READ + ['C16', 'C19'], (R, rec_steps))
r('big-dataclass', READ + ['C08', 'C19'], (R, """  def __init__(self):
    self.ident = ''
    self.raw = ''
    self.continuation = ''
    self.fields = []
    self.definition = -1
""", """  ident: str = ''
  raw: str = ''
  continuation: str = ''
  fields: list = field(default_factory=list)
  definition: object = -1
"""), (R, 'class Record():', '@dataclass(eq=False)\nclass Record():'), (R, 'import json\n', 'from dataclasses import dataclass, field\nimport json\n'),
  (R, lambda t: t.replace('for field in self.fields', 'for item in self.fields').replace('field.name', 'item.name').replace('field.value', 'item.value').replace('field.decode', 'item.decode')))
r('big-matching', ['C18'], (I, """    count = 0
    for line in f.readlines():
      r = Record()
      if r.read(line) is False:
        continue
      if isinstance(filters, str):
        if filters not in r.raw:
          continue
      elif isinstance(filters, list):
        if all(map(r.raw.__contains__, filters)) is False:
          continue
      print(r.raw)
      count = count + 1
""", """    count = 0
    for text in matching(f, filters):
      print(text)
      count += 1
"""), (I, 'def search(file, filters):', """def matches(text, filters):
  if isinstance(filters, str):
    return filters in text
  if isinstance(filters, list):
    return all(part in text for part in filters)
  return True


def matching(lines, filters):
  for line in lines:
    record = Record()
    if record.read(line) and matches(record.raw, filters):
      yield record.raw


def search(file, filters):"""))
PARSE = """  r = Record()
  if r.read(line):
    r.decode(output)
    return True
  return False
"""
r('big-parseone', ['C16', 'C17', 'C09'], (I, PARSE, """  r = Record()
  if not (ok := r.read(line)):
    return ok
  try:
    r.decode(output)
  except ValueError:
    raise
  else:
    return True
"""))
LINES = """    for line in f.readlines():
      parse(line, output)
"""
r('big-deque', ['C17'], (I, LINES, """    deque((parse(line, output) for line in f), maxlen=0)
"""), (I, 'import os\n', 'import os\nfrom collections import deque\n'))
r('big-listmap', ['C17'], (I, LINES, """    list(map(lambda line: parse(line, output), f.readlines()))
"""))
r('big-while', ['C17'], (I, LINES, """    line = f.readline()
    while line != '':
      parse(line, output)
      line = f.readline()
"""))
r('big-stack', ['C17'], (I, LINES, """    lines = list(f)
    while lines:
      parse(lines.pop(0), output)
"""))
r('big-number', ['C10', 'C11', 'C03'], ('definitions/Runway.py', lambda t: re.sub(r'decoder\.field_(\d+)', lambda m: 'F(%d)' % int(m[1]), t).replace('class Runway', 'def F(number):\n  return getattr(decoder, f"field_{number:03}")\n\n\nclass Runway')))
r('big-common', ['C03', 'C06', 'C10'], ('definitions/MSA.py', lambda t: t.replace("""  def read_primary(self, r):
    return [
      Field("Record Type",                         r[0],          decoder.field_002),
      Field("Customer / Area Code",                r[1:4],        decoder.field_003),
      Field("Section Code",                        r[4]+r[12],    decoder.field_004),
""", """  def common(self, r):
    yield Field("Record Type", r[0], decoder.field_002)
    yield Field("Customer / Area Code", r[1:4], decoder.field_003)
    yield Field("Section Code", r[4]+r[12], decoder.field_004)

  def read_primary(self, r):
    return [
      *self.common(r),
""")))
r('big-partition', ['C11'], (D, MAG, """  if value.strip():
    return '{:0>3} {}'.format(int(value[1:]), value[0])
  return value
"""))


def main():
    want = sys.argv[1:]
    alarms = 0
    for id, props, edits in RS:
        if want and not any(id.startswith(w) for w in want):
            continue
        tmp = tempfile.mkdtemp(prefix='refactor_')
        try:
            subprocess.run('mkdir %s/repo; git -C /repo archive HEAD | tar -x -C %s/repo' % (tmp, tmp), shell=True, check=True)
            for e in edits:
                p = os.path.join(tmp, 'repo/src/arinc424', e[0])
                t = open(p).read()
                if callable(e[1]):
                    n = e[1](t)
                    assert n != t, (id, 'no change')
                else:
                    if t.count(e[1]) != 1:
                        raise LookupError('%s occurs %d times' % (e[0], t.count(e[1])))
                    n = t.replace(e[1], e[2])
                open(p, 'w').write(n)
            a = 'import arinc424, glob, os, contextlib, io, hashlib, sys\ns = io.StringIO()\nwith contextlib.redirect_stdout(s):\n  for f in sorted(glob.glob("/repo/data/ARINC-424-18/*")): arinc424.read_file(f)\n  arinc424.search(f, ["S"])\nprint(hashlib.md5(s.getvalue().encode()).hexdigest())'
            o = [subprocess.run(['/opt/venv/bin/python', '-c', a], env={'PYTHONPATH': x, 'PYTHONDONTWRITEBYTECODE': '1'}, capture_output=True, text=True) for x in ('/repo/src', tmp + '/repo/src')]
            if o[0].stdout != o[1].stdout:
                print(id, 'NOT EQUIVALENT on the data', o[1].stderr[-400:])
                continue
            res = []
            for pr in props:
                x = subprocess.run(['python3-vt', ROOT + '/check.py', pr, '--tier', 'quick'], cwd=ROOT, capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=tmp + '/repo', VERIF_EVIDENCE=tmp + '/ev'))
                v = [l for l in x.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('failed obl')]
                u = [l for l in x.stdout.splitlines() if l.startswith('undecided')]
                if x.returncode or v:
                    alarms += 1
                    res.append('%s:V %s' % (pr, ' '.join(v) + x.stderr[-300:]))
                else:
                    res.append(pr + (':~ ' + u[0][:150] if u else ':.'))
            print('%-16s %s' % (id, ' '.join(x for x in res if x.endswith(':.'))), flush=True)
            for x in res:
                if not x.endswith(':.'):
                    print('      ', x, flush=True)
        except LookupError as e:
            print(id, 'DOES NOT APPLY', e)
        finally:
            shutil.rmtree(tmp)
    print('alarms:', alarms)


main()
