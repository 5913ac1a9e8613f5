"""Rewrites the list of planted changes in DESIGN.md from seeded/."""
import json, os, re, collections
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
by = collections.defaultdict(list)
for d in sorted(os.listdir('seeded')):
    by[json.load(open(f'seeded/{d}/meta.json'))['property']].append(re.sub(r'^c\d+-', '', d))
lines = [f'* {p}: ' + ', '.join(sorted(x)) for p, x in sorted(by.items())]
s = open('DESIGN.md').read()
a = s.index('* C01: ', s.index('## Planted changes')); b = s.index('\n\n', a)
s = s[:a] + '\n'.join(lines) + s[b:]
n = sum(map(len, by.values()))
s = re.sub(r'`seeded/` holds \d+ changes', f'`seeded/` holds {n} changes', s)
s = re.sub(r'property: all \d+ were caught', f'property: all {n} were caught', s)
open('DESIGN.md', 'w').write(s)
