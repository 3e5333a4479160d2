"""writes properties.jsonl and MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REC = 'src/arinc424/record.py'
DEC = 'src/arinc424/decoder.py'
DEFS = 'src/arinc424/definitions/'
API = 'src/arinc424/__init__.py'
T = 'The 26 tests read and decode a few dozen sample records and mostly print; '
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'Exactly the well formed records of supported types are accepted',
     'Reading a text succeeds if and only if, after removing surrounding whitespace, it starts with S or T, is 132 characters long, '
     'ends in nine digits, names one of the 42 supported record types in columns 5-6 (or else 5 and 13), carries a letter or digit in '
     'the continuation-number column of a type that has one, and has an application type for which that record type defines a layout. '
     'Everything else (headers, blank lines, truncated, overlong or damaged records) is refused.',
     ['inputs'], 'every text of every length', T + 'none feeds a line that is one character or one column away from valid for each type.',
     [REC, DEFS], [('validation of a line', REC + ': Record.validate'), ('type lookup', REC + ': Record.read'),
                   ('layout dispatch', DEFS + '*.py: read')], observe=['result of Record.read'])
prop('C02', 'Reading never fails with an exception',
     'For every text whatsoever, reading it into a record returns True or False and never raises or ends the program; after a refusal '
     'the record can still be asked whether it is primary and whether it has continuations.',
     ['inputs'], 'every text of every length, including non-ASCII and control characters',
     T + 'an exception needs a particular type, continuation number and application type together.',
     [REC, DEFS], [('read', REC + ': Record.read'), ('definitions', DEFS + '*.py: read, application_type')],
     observe=['result of Record.read'])
prop('C03', 'Every field holds exactly the characters of its assigned columns',
     'Every well formed record (C01) is read into the fields that the layout of its type (and, for continuations, application type) assigns, under the '
     'assigned names and in the assigned order, and the value of each is the untouched text of its assigned columns. Nothing is '
     'trimmed, shifted, dropped or taken from other columns.',
     ['inputs'], 'every accepted record of all 42 types and 116 layouts, every content of the other columns',
     T + 'only a few layouts are exercised and values are not asserted column by column.',
     [DEFS], [('layouts', DEFS + '*.py: read, read_primary, read_cont, ...')], observe=['Record.fields: name and value'])
prop('C04', 'Whitespace around a record makes no difference',
     'A text and the same text without its leading and trailing whitespace are treated alike: same verdict, same fields and values, '
     'same status, same output.',
     ['inputs'], 'every text and every amount and kind of surrounding whitespace', T + 'almost all samples have none.',
     [REC], [('trimming', REC + ': Record.validate, Record.read')], observe=['Record.read and everything read from the record'])
prop('C05', 'The record type and the section code shown agree with the record',
     'Every well formed record (C01) is read as the type named by columns 5-6 if these name a supported type, otherwise by columns 5 and 13, and a record that names no type is not read as one. '
     'Its one Section Code field shows the section letter from column 5 followed by the subsection character of the record, taken from '
     'the column (6 or 13) that its type uses, and when that character is the subsection of the type, decoding the field gives the name of that type.',
     ['inputs'], 'every accepted record', T + 'each sample uses one placement and its section code is not compared with the type.',
     [REC, DEFS, DEC], [('type lookup', REC + ': Record.read'), ('section field', DEFS + '*.py'), ('section names', DEC + ': field_004')],
     observe=['Record.ident', 'Section Code field'])
prop('C06', 'Primary and continuation records are told apart and laid out accordingly',
     'Every well formed record (C01) is primary exactly when its continuation number is 0 or 1 or its type has none, and reports continuations to follow exactly when the '
     'number is 1. Primary records get the primary layout of their type, continuation records the layout of their application type; a record for which there is none is not given another one.',
     ['inputs'], 'every accepted record, all continuation numbers 0-9 and A-Z and letters of either case, all application types',
     T + 'continuation numbers other than 0, 1 and 2 hardly occur.',
     [REC, DEFS], [('status', REC + ': Record.primary, Record.hasCont'), ('columns', DEFS + '*.py: cont_idx, app_idx'),
                   ('dispatch', DEFS + '*.py: read')], observe=['Record.primary, Record.hasCont', 'names of the fields'])
prop('C07', 'What a record object held before does not influence a new read',
     'Reading a text into a record object that was used before, successfully or not, gives the same verdict, fields, status, '
     'decoded table and JSON as reading it into a fresh object, or as the first thing a program does with the library. In particular a refused text leaves nothing of the previous record behind, and reading into one object leaves all other records as they were.',
     ['histories', 'inputs'], 'every sequence of earlier reads (accepted or refused) and every next text',
     T + 'tests use a fresh object for each record.', [REC], [('reset', REC + ': Record.read')],
     state=[('record', 'identifier, text, continuation number, fields and definition of the last read', REC + ': Record')],
     observe=['everything public on Record'])
prop('C08', 'JSON output contains every field verbatim',
     'The JSON text of an accepted record, in single-line and in indented form, is an object with exactly one entry per field of the '
     'record, keyed by the field name, whose value is the untouched text of the field. The single-line form has no line break, and the '
     'text is printed unless output is turned off.',
     ['inputs', 'configurations'], 'every accepted record, both forms, output on and off',
     T + 'two fields of one layout that share a name lose data silently, and no test compares field counts.',
     [REC, DEFS], [('serialisation', REC + ': Record.json'), ('distinct names', DEFS + '*.py')], observe=['Record.json'])
prop('C09', 'The decoded table has one row per field, in order',
     'Decoding an accepted record gives a left-aligned table headed Field, Value, Decoded with exactly one row per field in layout order: the name, the '
     'value in single quotes, and the decoded text of that field. It is printed unless output is turned off, and a field that '
     'cannot be decoded surfaces as ValueError.',
     ['inputs', 'configurations'], 'every accepted record, output on and off', T + 'tables are printed, not compared.',
     [REC], [('table', REC + ': Record.decode')], observe=['Record.decode'])
prop('C10', 'Coded fields decode to the meaning of their code',
     'Every field that holds a code (record type, area, section, continuation and application type, turn direction, path terminator, IFR '
     'capability, public or military, daylight, communication type and so on) decodes each assigned code to its meaning. A code that is '
     'not assigned is never given the meaning of another: it is refused with ValueError, shown as is, or marked unknown, always the same way for a given kind of field.',
     ['inputs'], 'every value of every coded field in every layout', T + 'a handful of the codes occur in the samples.',
     [DEC, DEFS], [('code tables', DEC + ': field_002, field_003, field_004, field_016, ...')], observe=['Field.decode'])
prop('C11', 'Numeric fields decode to the quantity they encode',
     'Altitudes in feet, distances, courses, frequencies, rates, speeds, times, time zones and variations decode to the number given by their '
     'digits (leading zeros dropped, decimal point where the standard implies it) with the right unit or sign. A blank field stays '
     'blank or is marked bad, and a field that is not a number is shown as is, marked bad or refused, never turned into a different number.',
     ['inputs'], 'every digit string of every numeric field, including zero, leading zeros and the largest value',
     T + 'zero, all-nines and rarely used units do not occur.', [DEC], [('numeric decoders', DEC + ': field_026, field_027, field_029, field_034, ...')],
     observe=['Field.decode'])
prop('C12', 'Identifiers and free text decode to themselves',
     'Fields without a code table or unit (identifiers, ICAO codes, names, notes, coordinates, record numbers) decode to exactly their value, '
     'or, for procedure-related idents and navaid idents, to the value without surrounding blanks or a ValueError when it contains characters that '
     'such an ident cannot have. No such field is truncated, rewritten or given the interpretation of another field.',
     ['inputs'], 'every value of every such field in every layout', T + 'decoded texts are not asserted.',
     [DEC, DEFS], [('verbatim decoders', DEC), ('decoder of each field', DEFS + '*.py')], observe=['Field.decode'])
prop('C13', 'Decoding a field returns or raises ValueError, nothing else',
     'Decoding any field of any accepted record returns a text or number, or raises ValueError. No content of a record makes '
     'decoding fail with any other exception or end the program.',
     ['inputs'], 'every field of every accepted record, every content', T + 'malformed field contents are not tried.',
     [DEC], [('decoders', DEC)], observe=['Field.decode', 'Record.decode'])
prop('C14', 'Compound and context-dependent codes are interpreted position by position',
     'Fields whose characters have separate meanings (waypoint description and type, boundary via, name format, navaid usage, '
     'approach route identifiers) decode each position by its own table, route types by the table of the record type they occur in, and '
     'sequence numbers by their length. One position never changes or hides the meaning of another beyond what the standard says.',
     ['inputs'], 'every combination of characters, every record type that has the field', T + 'few combinations occur.',
     [DEC], [('compound decoders', DEC + ': field_007, field_010, field_012, field_017, field_042, field_082, field_118, field_196')],
     observe=['Field.decode'])
prop('C15', 'The cycle date names the right year and release',
     'Every accepted record decodes its cycle date to the four-digit year and the two-digit release given by its last four digits, with '
     '51-99 in the twentieth century and 00-50 in the twenty-first.',
     ['inputs'], 'all 10,000 cycle dates in every layout', T + 'a few dates occur; the century boundary does not.',
     [DEC], [('cycle date', DEC + ': field_032')], observe=['Field.decode of Cycle Date'])
prop('C16', 'Parsing a line reports whether it was a record and prints only when asked',
     'Parsing a line returns True exactly when reading it succeeds and False otherwise, prints the decoded table unless output is '
     'turned off, and prints nothing else beyond what reading itself reports. A record with an invalid field surfaces as ValueError.',
     ['inputs', 'configurations'], 'every text, output on, off and by default', T + 'tests only use valid lines with output on.',
     [API], [('parse', API + ': parse')], observe=['arinc424.parse'])
prop('C17', 'Reading a file parses every line once, in order',
     'Reading a file parses each of its lines exactly once, in file order, and prints what parsing those lines prints (no tables when output is turned off), whatever the number of '
     'lines, blank or damaged lines in between, and line ending or lack of one at the end. Only a record with an invalid field stops it, by raising ValueError.',
     ['inputs', 'histories', 'configurations'], 'files of any number of lines of any content, output on and off',
     T + 'a few sample files are read with no assertion on what was parsed.',
     [API], [('read_file', API + ': read_file')], observe=['arinc424.read_file'])
prop('C18', 'Search prints exactly the matching records and their number',
     'Searching a file prints, in file order and each once, exactly the accepted records whose text contains the given text, or every text of the given '
     'list (all of them for an empty list), and then one line with their number and the filter. Lines that are not records never match, and nothing is skipped or counted twice.',
     ['inputs', 'histories'], 'files of any number of lines, one text or a list of texts, including empty ones',
     T + 'search is run on one file without checking the result.', [API], [('search', API + ': search')], observe=['arinc424.search'])
prop('C19', 'Looking at a record does not change it or anything else',
     'Asking a record for its status, JSON or decoded table, any number of times and in any order, gives the same answers and output each time and changes neither '
     'this record nor any other record nor the library.',
     ['histories', 'inputs'], 'every record (accepted or not) and every sequence of queries', T + 'each record is decoded once.',
     [REC, DEC], [('queries', REC + ': Record.primary, hasCont, decode, json'), ('field decoders', DEC)],
     observe=['Record.decode, Record.json, Record.primary, Record.hasCont'])
prop('C20', 'Reading a folder reads every file once',
     'Reading a folder reads each file in it exactly once, with output, and nothing else (sub-folders are passed over); only a record with an invalid field stops it, by raising ValueError.',
     ['inputs', 'configurations'], 'folders with any number of files of any names, and of sub-folders', T + 'no test asserts which files were read.',
     [API], [('read_folder', API + ': read_folder')], observe=['arinc424.read_folder'])

NOTE = {
    'C01': 'every text of every length; oracle vspec/lay.py', 'C17': 'loop contract, any number of lines', 'C18': 'loop contract with count invariant, any number of lines',
    'C20': 'loop contract, any number of files'}
LEVEL = ('All obligations are generated from /repo/src on every run (mechanical instrumentation, nothing dropped) for all inputs with no bound and '
         'discharged by z3 and cvc5; each path is cross-checked on CPython. Trusts the models of str/int/float/dict operations, prettytable, json, '
         'termcolor and file iteration. If edited code leaves the verifier\'s reach, a bounded concrete check stands in for that part and the evidence says so.')

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
                     'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                     'technique': 'contract-based deductive verification (symbolic path VCs over the instrumented real code, z3 + cvc5)',
                     'level': 'proof', 'level_note': (NOTE[p['id']] + '. ' if p['id'] in NOTE else '') + LEVEL} for p in P],
         'not_applicable': []}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
