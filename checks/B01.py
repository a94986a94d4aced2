"""B01: every output format shows all that is to be shown, in order and readably."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from drivers import *

BR = ['BR_ROUND', 'BR_SQUARE', 'BR_BRACE', 'BR_ANGLE', 'BR_CEIL', 'BR_FLOOR', 'BR_TRIANGLE', 'BR_NONE']


def tags(*ts):
    out = [('[',)]
    for t in ts:
        out.append((',',))
        out += t if isinstance(t, list) else [('g',) + t]
    return out + [(']',)]


def atoms():
    A = [[('(', b, i + 1)] for i, b in enumerate(BR)] + [[(')', b, i + 1)] for i, b in enumerate(BR)]
    A += [[('l', 'klama')], [('l', 'mi'), ('t', 'me')], [('l', 'do'), ('t', 'you'), ('e', 1)], [('l', 'la'), ('e', 2)], [('t', '[is, does]')], [('t', '$OPENQUOTE')], [('t', '$CLOSEQUOTE')], [('t', '$LEFTARROW')]]
    word = [('l', 'ko'), ('t', 'YOU')]
    A += [tags(('klama', '1', 'go-er(s)', 1)) + word, tags(('klama', '2', 'destination', 1), ('bajra', '1', 'runner', 1), ('fi\'o', '', '', 1)) + word]
    A += [tags([('p', 'jai+<tag>1: ('), ('p', 'doing'), ('p', ')')], ('', '', 'other than', 0)) + word]
    A += [tags(('klama', '1', 'goer', 1)) + [('(', 'BR_ROUND', 12)]]
    A += [tags(('#3-1', '', '?', 1)) + word]
    return A


def texts(fmt):
    """texts with every printable character in them"""
    skip = {'HTML': '', 'text': '', 'text in blocks': ''}.get(fmt, '\\$^~`\'"<>-')
    plain = [chr(x) for x in range(33, 127) if chr(x) not in skip]
    if 'LaTeX' in fmt:
        plain += ['<', '>']
    return ['a%sb' % c for c in plain] + ['%s' % c for c in plain if c != '$'] + ['%s%s' % (c, c) for c in plain if c not in "$-'`"] + ['x' * 300, 'two words']


def run(c):
    D = Drivers(Tree(['grammar', 'dfa', 'misc']))
    thorough = c.tier == 'thorough'
    A = atoms()
    jobs = []
    for fmt in DRIVERS:
        for k in (1, 2, 3):
            for s in itertools.product(A, repeat=k):
                jobs.append((fmt, [e for x in s for e in x] + [('l', 'brode'), ('t', 'relate'), (')', 'BR_SQUARE', 99)], 80))
        for t in texts(fmt):
            jobs.append((fmt, [('(', 'BR_ROUND', 1), ('l', t), ('t', 'gloss'), (')', 'BR_ROUND', 1)], 80))
            jobs.append((fmt, [('[',), (',',), ('p', t), ('p', 'xyz'), (']',), ('l', 'klama'), ('(', 'BR_ROUND', 1), (')', 'BR_ROUND', 1)], 80))
            jobs.append((fmt, [('(', 'BR_ROUND', 1), ('l', 'klama'), ('t', t), (')', 'BR_ROUND', 1)], 80))
            jobs.append((fmt, tags(('klama', '1', t, 1), ('klama', '2', t, 0)) + [('l', 'klama'), ('(', 'BR_ROUND', 1), (')', 'BR_ROUND', 1)], 80))
        for k in (1, 10, 31, 32, 33, 40, 100):
            jobs.append((fmt, tags(*[('klama', '1', 'goer%d' % i, 1) for i in range(k)]) + [('l', 'mi'), ('t', 'me'), ('(', 'BR_ROUND', 1), (')', 'BR_ROUND', 1)], 80))
        for w in (1, 10, 40, 120, 500, 600, 2000):
            for n in (1, 5, 50, 300):
                for l in (3, 60):
                    seq = []
                    for i in range(n):
                        seq += [('(', BR[i % 7], i)] + (tags(('klama', '1', 'g' * (l // 2), 1)) if i % 3 else []) + [('l', 'v' * l), ('t', 'word%d' % i), (')', BR[i % 7], i)]
                    if n * l <= 3000 or thorough:
                        jobs.append((fmt, seq, w))
        for l in (500, 511, 512, 600, 3000):
            jobs.append((fmt, [('(', 'BR_ROUND', 1), ('l', 'x' * l), ('t', 'gloss'), (')', 'BR_ROUND', 1)], 80))
            jobs.append((fmt, [('(', 'BR_ROUND', 1), ('l', 'broda'), ('t', 'y' * l), (')', 'BR_ROUND', 1)], 80))
            jobs.append((fmt, tags(('klama', '1', 'z' * l, 1)) + [('l', 'broda'), ('t', 'y'), ('(', 'BR_ROUND', 1), (')', 'BR_ROUND', 1)], 80))
    local = threading.local()

    def go(part):
        if not hasattr(local, 'd'):
            local.d = D.clone()
        return [(fmt, seq, judge(local.d, fmt, seq, w)) for fmt, seq, w in part]
    n, forms = 0, {}
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(go, [jobs[i::256] for i in range(256)]):
            for fmt, seq, bad in r:
                n += 1
                forms[fmt] = forms.get(fmt, 0) + 1
                if bad:
                    c.violation('R1', '%s: %s' % ({'text': 'textout.c', 'text in blocks': 'textblk.c', 'LaTeX': 'latex.c', 'LaTeX in blocks': 'latexblk.c', 'HTML': 'htmlout.c'}[fmt], DRIVERS[fmt]), '%s output of %s: %s' % (fmt, ' '.join('%s%s' % (o, a) for o, *a in seq)[:300], bad))
    c.need('output sequences', n, 50000)
    c.count(sequences=n, **{k.replace(' ', '_'): v for k, v in forms.items()})
    c.rule("R1: what a reader sees of each format's output (its markup undone) is exactly the brackets with their numbers, words, glosses, tags and line breaks it was given, in order; markup is balanced and the characters special to the format are escaped")


if __name__ == '__main__':
    main('B01', run)
