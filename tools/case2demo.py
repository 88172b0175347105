#!/usr/bin/env python3
"""Print the demonstration command for a replay file: options, domains, dependences (and tile sizes)."""
import json, sys
r = json.load(open(sys.argv[1]))
c = r.get('case', r)
np = c['npar']
P = ['p%d' % i for i in range(np)]


def row(r, names):
    s = ' + '.join(['%d*%s' % (v, n) for v, n in zip(r[1:], names) if v] + [str(r[len(names) + 1])])
    return s.replace('+ -', '- ') + (' = 0' if r[0] else ' >= 0')


def conj(rows, names):
    return ' and '.join(row(r, names) for r in rows) or '0 >= 0'


def tup(s, pre):
    return 'S_%d[%s]' % (s - 1, ','.join('%s%d' % (pre, i) for i in range(c['stmts'][s - 1]['dim'])))


def its(s, pre):
    return ['%s%d' % (pre, i) for i in range(c['stmts'][s - 1]['dim'])]


def dom(s, pre):
    return '(' + ' or '.join('(' + conj(d, its(s, pre) + P) + ')' for d in c['stmts'][s - 1]['dom']) + ')'


pre = '[%s] -> { ' % ','.join(P)
D = pre + '; '.join(tup(s, 'i') + ' : ' + dom(s, 'i') for s in range(1, len(c['stmts']) + 1)) + ' }'
E = pre + '; '.join('%s -> %s : %s and %s and %s' % (tup(d['s'], 'i'), tup(d['t'], 'o'), dom(d['s'], 'i'), dom(d['t'], 'o'),
    conj(d['rows'], its(d['s'], 'i') + its(d['t'], 'o') + P)) for d in c['deps']) + ' }'
if c.get('tsn'):
    print("printf '%s\\n' > tile.sizes" % '\\n'.join(map(str, c['tsn'])))
o = dict(c['opts'])
print('demo %s "%s" \\\n "%s"' % (','.join('%s=%d' % kv for kv in o.items()), D, E))
