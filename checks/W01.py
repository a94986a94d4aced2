"""Splitting the text into words: the reader as a character-driven machine, against its specification."""
import os, sys
from collections import deque
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from lexer import *
from automata import *

DIGITS = ['no', 'pa', 're', 'ci', 'vo', 'mu', 'xa', 'ze', 'bi', 'so']
SEP = set(map(ord, ' \t\n.(>'))
LIMIT = 2  # counters beyond this are "many"


def expect(st, a):
    """specification: state (depth, inword, line, col, startline, startcol) x symbol -> (state, [outputs])"""
    depth, inw, ln, col, sl, sc = st
    col += 1
    out = []
    if a == 0:
        if depth > 0:
            return None, ['diag', 'END bad']
        if inw:
            out.append('word@%d,%d' % (sl, sc))
        return None, out + ['END']
    ch = chr(a)
    if depth > 0:
        if ch == ')':
            depth -= 1
        elif ch == '(':
            depth += 1
        elif ch == '\n':
            ln, col = ln + 1, 0
        return (depth, False, ln, col, 0, 0), out
    if ch.isdigit() and a < 128 or ch == ':':
        if inw:
            out.append('word@%d,%d' % (sl, sc))
        out.append('%s@%d,%d' % (DIGITS[int(ch)] if ch != ':' else "pi'e", ln, col))
        return (0, False, ln, col, 0, 0), out
    if a in SEP:
        if inw:
            out.append('word@%d,%d' % (sl, sc))
        if ch == '\n':
            out.append('eol')
            ln, col = ln + 1, 0
        return (1 if ch == '(' else 0, False, ln, col, 0, 0), out
    out.append('put' if inw else 'first')
    return (0, True, ln, col, sl if inw else ln, sc if inw else col), out


def cap(x):
    return x if x <= LIMIT else LIMIT + 1


def outputs(ev, wf):
    """engine events of one transition -> outputs"""
    if ev.startswith('{'):
        return None
    out, content = [], None
    i = 0
    for name, args in re.findall(r'(?:^|;)([a-z_A-Z?0-9]+)\(((?:"(?:[^"\\]|\\.)*"|[^()"])*)\)', ev):
        if name == 'begin':
            if args == '@c':
                out.append('first')
                content = None
            elif args == '0':
                content = '' if content is None else content
                if out and out[-1] == '#open':
                    pass
                content = ''
            else:
                content = chr(int(args))
        elif name == 'append':
            if args == '@c':
                out.append('put')
                content = None
            elif args == '0':
                pass
            else:
                content = (content or '') + chr(int(args))
        elif name == wf:
            l, c = (args.split(',') + ['?', '?'])[:2]
            pos = '@%s,%s' % (l, c)
            out.append(('word' if content is None else content) + pos)
            content = None
        elif name == 'mark_eol':
            out.append('eol')
        elif name in ('fprintf', 'fputs', 'fwrite', 'puts', 'printf', 'perror'):
            if not out or out[-1] != 'diag':
                out.append('diag')
        else:
            out.append('%s(%s)' % (name, args))
    return out


def same(spec, got):
    """compare outputs; a counter the analysis lost ('$?top') matches a counter beyond the limit"""
    if len(spec) != len(got):
        return False
    for a, b in zip(spec, got):
        if '@' in a and '@' in b:
            x, p = a.rsplit('@', 1)
            y, q = b.rsplit('@', 1)
            if x != y:
                return False
            for m, n in zip(p.split(','), q.split(',')):
                if n == '$?top':
                    if int(m) <= LIMIT:
                        return False
                elif n != m:
                    return False
        elif a != b:
            return False
    return True


def run(c):
    tree = Tree(['dfa', 'grammar', 'morf', 'misc'])
    eng = Engine(tree.program('jbofihe'))
    wf = word_fn(eng)
    limit = LIMIT
    r = eng.automaton('parse_file', [{'tape': 1}], char_buf=True, widen=limit, nonempty=False, lag=0,
                      stubs={wf: {'event': True, 'args': [1, 2], 'ret': 1}, 'mark_eol': {'event': True, 'args': [99]}},
                      globals={'had_bad_tokens': 0}, outs=[{'global': 'had_bad_tokens', 'size': 4, 'name': 'bad'}])
    m = Machine(r)
    init = ((0, False, 1, 0, 0, 0), 0)
    seen, dq = {init: None}, deque([init])
    nt = 0
    reps = {}
    for a in range(256):
        reps.setdefault((m.sym[a], a in SEP, chr(a) in '():\n', chr(a) if chr(a).isdigit() else '', a == 0), a)
    reps = sorted(reps.values())

    def word(k):
        w = []
        while seen[k] is not None:
            k, a = seen[k]
            w.append(a)
        return ''.join(chr(a) if a else '<end>' for a in w[::-1])
    bad = 0
    while dq and bad < 6:
        k = dq.popleft()
        st, q = k
        for a in reps:
            nt += 1
            nst, spec = expect(st, a)
            t, ev = m.step(q, a)
            got = outputs(ev or '', wf)
            if t is not None and t >= 0 and 'out' in m.st[t]:
                o = m.st[t]['out']
                if o.startswith('end=widened'):
                    if nst and st[0] <= limit:
                        c.violation('reader', 'parse_file', 'reader branches on a line/column counter', repr(word(k) + chr(a)))
                        bad += 1
                    continue
                if o.startswith('end=memory-error') or o.startswith('end='):
                    got = (got or []) + [o]
                else:
                    got = (got or []) + ['END' + (' bad' if 'bad=1' in o else '')]
            elif a == 0:
                got = (got or []) + ['keeps reading after the end of the text']
            if got is None or not same(spec, got):
                bad += 1
                c.violation('reader', 'parse_file', 'on reading %r the reader does %s, expected %s' % (chr(a) if a else 'end of text', got, spec), repr(word(k)))
                continue
            if nst is None:
                continue
            if nst[0] > limit:
                continue
            n = (tuple([nst[0], nst[1]] + [cap(x) for x in nst[2:]]), t)
            if n not in seen:
                seen[n] = (k, a)
                dq.append(n)
    c.count(machine_states=r['raw_states'], transitions_checked=nt, product_states=len(seen), symbol_classes=len(reps))
    c.need('product states', len(seen), 20)
    c.rule('R1: in every reachable state of the reader and for every byte and end of text, the characters added to the current word, the words handed on (text, line, column), the line ends recorded and the diagnostics equal the specification: words are separated by blank, tab, newline, full stop, ( and >; digits and : are words of their own; ( ) comments nest and are dropped; an unclosed comment is an error (nesting and line/column counters tracked up to %d, beyond as "many")' % limit)


main('W01', run)
