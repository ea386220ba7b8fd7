"""Rewrites the list of repaired defects in known_findings.json from the fix commits in /repo (run by hand)."""
import json
import os
import subprocess
import sys

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [
    ('decode UTF-8 in quoted text', 'C02'), ('quote symbols whose text', 'C04'), ('write struct fields with an empty name', 'C03'),
    ('read and write binary decimals exactly', 'C15'), ('keep timestamp fractions of more', 'C14'), ('reject decimal NaN', 'C15'),
    ('write timestamps without an explicit precision', 'C14'), ('compare repeated struct fields', 'C13'),
    ('return the given default from SymbolTable.get', 'C11'), ('do not treat a symbol as a stream', 'C23'),
    ('load from the current position', 'C19'), ('allocate a symbol ID for every element', 'C10'), ('default or ignore malformed fields', 'C10'),
    ('ignore a null symbol as the imports', 'C10'), ('reject local symbol tables with repeated', 'C09'),
    ('accept NOP pads with any field name', 'C01'), ('reject binary negative integers', 'C09'), ('end text values at vertical tab', 'C02'),
    ('accept only Ion whitespace as indentation', 'C04'), ('restore enumeration members', 'C22'),
    ('keep the Ion type, annotations and precision', 'C16'), ('do not mistake a byte 0x04', 'C06'),
    ('do not lose the value that follows a comment', 'C02'), ('read an annotated value after an empty symbol', 'C02'),
    ('end quoted text after an empty symbol', 'C02'), ('detect the end of data inside a variable', 'C09'),
    ('read a decimal with an explicit length of zero', 'C01'), ('keep the state of a comment from leaking', 'C02'),
    ('reject an unfinished comment after a long string', 'C09'), ('do not take $ion__0', 'C02'),
    ('do not lose an empty symbol after a long string', 'C02'), ('accept the end of the stream in a line comment', 'C02'),
    ('read the symbols i and in directly', 'C02'),
]
PROPS += [tuple(a.split('=', 1)) for a in sys.argv[1:]]
path = os.path.join(HOME, 'known_findings.json')
try:
    d = json.load(open(path))
except IOError:
    d = {'known': [], 'fixed': []}
old = dict((e.split(' ', 3)[3], e.split(' ')[1].split('=')[1]) for e in d['fixed'])
fixed = []
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True)
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    prop = [p for k, p in PROPS if s.startswith(k)] or [old.get(s)]
    if not prop[0]:
        sys.exit('no property for: ' + s)
    fixed.append('fixed: property=%s %s %s' % (prop[0], h, s))
d['fixed'] = fixed
with open(path, 'w') as f:
    json.dump(d, f, indent=1)
    f.write('\n')
