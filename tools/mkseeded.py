"""Rewrites the list of seeded changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '## Seeded changes and the checks that catch them\n'
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = s.split(HEAD)[0].rstrip('\n') + '\n\n' + HEAD
s += '''
Each is caught by the quick check of its property (first column); some by others as well. Those marked * were missed when
they were first planted, and the check was strengthened until it found them.

| id | what it breaks | needs |
|---|---|---|
'''
missed = set(open(os.path.join(V, 'tools', 'missed.txt')).read().split())
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    c = lambda x: ' '.join(str(x).replace('|', '/').split())
    s += '| %s%s | %s | %s |\n' % (i, '*' if i in missed else '', c(m['what_it_breaks'])[:260], c(m['needs'])[:200])
open(p, 'w').write(s)
