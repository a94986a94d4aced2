"""O01: brackets pair up, nest, are numbered in order; every number mentioned is the number of a bracket shown."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from shown import *

MENTION = re.compile(r'#(\d+)')


def judge(r):
    out = []

    def say(rule, what):
        out.append((rule, 'do_output', what))
    ev = [e[0] for e in r.out]
    if ev[:2] != ['init', 'prologue'] or ev[-1] != 'epilogue' or ev.count('init') + ev.count('prologue') + ev.count('epilogue') != 3:
        say('frame', 'output is not started and finished exactly once')
    stack, last, shown, tags = [], 0, set(), 0
    mentions = []
    for e in events(r):
        if e[0] == 'open':
            if e[2] != last + 1:
                say('number', 'bracket number %d follows %d' % (e[2], last))
            last = e[2]
            shown.add(e[2])
            stack.append(e[1:])
        elif e[0] == 'close':
            if not stack or stack[-1] != e[1:]:
                say('pair', '%s %d is closed where %s is open' % (e[1], e[2], stack[-1:] or 'nothing'))
            if stack:
                stack.pop()
        elif e[0] in ('stags', 'etags', 'stag'):
            if (tags == 0) != (e[0] == 'stags'):
                say('tags', '%s %s a tag list' % (e[0], 'inside' if tags else 'outside'))
            tags = {'stags': 1, 'stag': 2, 'etags': 0}[e[0]]
        elif e[0] in ('tag', 'ptag'):
            if tags != 2:
                say('tags', 'tag text outside a tag')
        if e[0] in ('tag', 'ptag', 'trans'):
            mentions += [int(x) for t in e[1:] if isinstance(t, str) for x in MENTION.findall(t)]
    if stack:
        say('pair', '%s %d is never closed' % stack[-1])
    for m in mentions:
        if m not in shown:
            say('reference', 'the output refers to #%d, which is not shown' % m)
    for n in r.nodes.values():
        if n.num and n.num not in shown:
            say('hidden', '%s numbered %d has no bracket' % (n.type or n.word, n.num))
    return out


def run(c):
    L, fam, long = sentences(c.tier)
    total, parsed = report(c, survey(L, fam + long, judge, 15))
    c.need('analysed parses', parsed, 10000)
    c.count(sentences=len(fam) + len(long), abstract_paths=total, parses_compared=parsed)
    c.rule('R1: output starts and ends once; brackets nest and close with their own kind and number; numbers run 1, 2, 3 in order of opening; tag text stands inside a tag inside a tag list; every #number printed is the number of a bracket shown')


if __name__ == '__main__':
    main('O01', run)
