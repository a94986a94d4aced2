"""R01: what the dictionary compiler was told is what lookups find."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from dictionary import *

COMPOUNDS = {'klamygau': 'klama+gasnu', "to'erbroda": "to'e+broda", 'xelklama': 'xe+klama', "selgasnyba'u": "se+gasnu+bacru"}
LONG = 'x' * 255
LINES = ['klama1:A;go', 'klama1:B', 'klama1n:N', 'klama1q:Q', 'klama1t:T', 'klama1v:V', 'klama:C', 'klama:D:comment', '  klama:E', '# klama:no', '!klama:no', ';klama:no', 'klama', ':no', '   ', 'klama1:',
         'klamygau1:L', 'klamygau1:M', 'klamygau1n:LN', 'klamygau1q:LQ', 'klama+gasnu1:P', 'klama+gasnu1q:PQ', 'klamygau:no place', "to'erbroda2:O", "selgasnyba'u1:R", 'xelklama3:S', '*5+gasnu1:%1q W', '*5+gasnu1q:%1v W', 'spageti+gasnu1:U',
         'klama2:' + LONG, 'klama2:y' + LONG, LONG[:254] + '1:z', LONG + '1:z', "zo'o:h", 'a:1', 'z:26', 'klam:sub', 'klamaa:super']
WORDS = ['klama1', 'klama2', 'klama', 'klam', 'klamaa', 'klamygau1', 'klama+gasnu1', 'klamygau', "to'erbroda2", "to'e+broda2", "selgasnyba'u1", 'se+gasnu+bacru1', 'xelklama3', 'xe+klama3', '*5+gasnu1', "zo'o", 'a', 'z', '# klama', '!klama', ';klama', 'no', '', 'spageti+gasnu1', 'spati+?1', LONG[:254] + '1', LONG + '1']
KEYS = WORDS + [w + x for w in WORDS if w[-1:].isdigit() for x in 'nvqt']


def spec(lines):
    """the entries that a sequence of source lines leaves in force"""
    d = {}

    def define(k, v):
        if len(k) > 255 or len(v) > 255:
            return
        d[k] = v

    def place(k, v):
        for x in 'nvqt':
            d.pop(k + x, None)
        define(k, v)
    for line in lines:
        line = line.lstrip()
        if not line or line[0] in '#!;' or ':' not in line or line[0] == ':':
            continue
        k, v = line.split(':')[:2]
        if k[-1].isdigit():
            place(k, v)
            if k[:-1] in COMPOUNDS:
                place(COMPOUNDS[k[:-1]] + k[-1], '@' + k)
        else:
            define(k, v)
    return d


def text(x):
    return x[1:-1]


def judge(p):
    lines = [text(e[3]) for e in p['events'] if e[0] == 'verif_line']
    show = ' / '.join(x if len(x) < 60 else x[:40] + '...(%d)' % len(x) for x in lines) or 'nothing'
    if p['end'] != 'return':
        return 'source lines %s: %s' % (show, p['out'])
    if any(e[0] == 'verif_exit' and e[1] != '0' for e in p['events']):
        return 'source lines %s: the compiler reports failure' % show
    got = {text(e[1]): text(e[2]) for e in p['events'] if e[0] == 'verif_entry'}
    gone = {text(e[1]) for e in p['events'] if e[0] == 'verif_missing'}
    if len(got) + len(gone) != len(set(KEYS)):
        return 'source lines %s: %d lookups of %d' % (show, len(got) + len(gone), len(set(KEYS)))
    want = {k: v for k, v in spec(lines).items() if k in KEYS}
    for k in sorted(set(want) | set(got)):
        if want.get(k) != got.get(k):
            return 'source lines %s: lookup of %s gives %s, specified %s' % (show, k[:60], str(got.get(k, 'nothing'))[:60], str(want.get(k, 'nothing'))[:60])
    return None


def run(c):
    tree = Tree(['dfa', 'morf', 'misc', 'grammar'])
    X = Dictionary(tree, LINES, KEYS)
    n = len(LINES)
    every = list(range(n + 1))
    core = [i + 1 for i, x in enumerate(LINES) if x[:6] in ('klama1', 'klama:', 'klamyg', 'klama+')]
    jobs = [([i], every, r, f, q, nl) for i in every for r, f, q, nl in ((1, 1, 2, 0), (2, 1, 1, 1), (1, 2, 1, 1))]         # every pair: one file, two runs, two files
    jobs += [([i, j], core, r, f, q, 1) for i in core for j in core for r, f, q in ((1, 1, 3), (3, 1, 1))]
    jobs += [([], [i], 1, 1, 1, nl) for i in every for nl in (0, 1)]
    if c.tier == 'thorough':
        jobs += [([i, j, k], core, r, f, q, 1) for i in core for j in core for k in core for r, f, q in ((2, 1, 2), (1, 2, 2))]
    local = threading.local()

    def go(j):
        if not hasattr(local, 'x'):
            local.x = X.clone()
        ps = local.x.run(*j)
        return len(ps), next((b for b in map(judge, ps) if b), None)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, jobs))
    for k, b in res:
        if b:
            c.violation('R1', 'smujajgau.c:main, dictaccs.c:dict_lookup', b)
    total = sum(k for k, b in res)
    c.need('histories', total, 10000)
    c.count(source_lines=n, keys_looked_up=len(set(KEYS)), histories=total)
    c.rule('R1: after any history of compiler runs over source files made of the listed kinds of line, a lookup finds exactly the entry last defined and not withdrawn, under the word and under the parts of a compound; the database written is the one read')


if __name__ == '__main__':
    main('R01', run)
