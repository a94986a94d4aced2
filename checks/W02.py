"""A word becomes exactly its constituent tokens, in order, no letters lost; zoi/la'o quotations are kept whole."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from lexer import *

WORD = 'bcdfgjklmn'   # ten distinct letters: the code only copies and positions them
BRIVLA = {'MT_GISMU': 'BVT_GISMU', 'MT_LUJVO': 'BVT_LUJVO', 'MT_FUIVLA3': 'BVT_FUIVLA3', 'MT_FUIVLA3_CVC': 'BVT_FUIVLA3', 'MT_FUIVLA3X': 'BVT_FUIVLA3', 'MT_FUIVLA3X_CVC': 'BVT_FUIVLA3', 'MT_FUIVLA4': 'BVT_FUIVLA4'}
BADS = ['MT_BOGUS', 'MT_BAD_UPPERCASE']


def run(c):
    tree = Tree(['dfa', 'grammar', 'morf', 'misc'])
    eng = Engine(tree.program('jbofihe'))
    wf, cf = word_fn(eng), cmavo_fn(eng)
    ex = {n: n for n in list(BRIVLA) + BADS + ['MT_CMENE', 'MT_CMAVOS', 'N_BRIVLA', 'N_CMENE', 'N_ZOI'] + sorted(set(BRIVLA.values()))}
    off = {'type': 'type', 'line': 'start_line', 'col': 'start_column', 'bword': 'data.brivla.word', 'btype': 'data.brivla.type', 'cword': 'data.cmene.word',
           'zform': 'data.zoi.form', 'zterm': 'data.zoi.term', 'ztext': 'data.zoi.text'}
    for k, f in off.items():
        ex['o.' + k] = 'offsetof(TreeNode,%s)' % f
        ex['z.' + k] = 'sizeof(((TreeNode*)0)->%s)' % f
    ex['size'] = 'sizeof(TreeNode)'
    for f in ('is_bad', 'can_split', 'ladoi', 'tail'):
        ex['x.' + f] = 'offsetof(struct morf_xtra,u.cmene.%s)' % f
    k = tree.consts(ex, headers=('nodes.h', 'functions.h', 'cmavotab.h', 'morf.h'))
    show = lambda *fs: [{'arg': 0, 'off': k['o.' + f], 'size': k['z.' + f]} for f in fs]
    n = 0

    def go(cls, starts, bad=None, fields=(), word=WORD, glob=None):
        writes = [{'starts': starts, 'arg': 1, 'from': 0}]
        if bad is not None:
            writes += [{'arg': 2, 'off': k['x.is_bad'], 'size': 4, 'val': {'int': bad}}, {'arg': 2, 'off': k['x.can_split'], 'size': 4, 'val': {'int': bad}}]
        g = {'had_bad_tokens': 0}
        g.update(glob or {})
        ps = eng.eval(wf, [{'str': word} if isinstance(word, str) else word, 5, 60], max_visits=0, max_paths=2000,
                      globals=g, mem_end=True, objs=[{'obj': 'node', 'size': k['size'], 'init': 'undef'}],
                      stubs={'morf_scan': {'event': False, 'ret': {'int': cls}, 'writes': writes + (split_writes if bad else [])},
                             cf: {'event': True}, wf: {'event': True, 'ret': 1}, 'new_node': {'event': False, 'ret': {'ref': 'node'}},
                             'add_token': {'event': True, 'args': [99], 'show': show(*fields)},
                             'fprintf': {'event': True, 'args': [99]}},
                      outs=[{'global': 'had_bad_tokens', 'size': 4, 'name': 'bad'}])
        if len(ps) != 1:
            raise Broken('word handling is not a function of the word class (%d outcomes)' % len(ps))
        p = ps[0]
        return p['out'], [tuple(e) for e in p['events'] if not e[0].startswith(('new_string', 'GC_'))], p

    split_writes = [{'arg': 2, 'off': k['x.ladoi'], 'size': 8, 'val': {'ref': 'w', 'off': 3}}, {'arg': 2, 'off': k['x.tail'], 'size': 8, 'val': {'ref': 'w', 'off': 5}}]
    q = lambda s: '"%s"' % s

    def want(what, got, exp):
        nonlocal n
        n += 1
        if got != exp:
            c.violation('word-to-tokens', wf, '%s: got %s, expected %s' % (what, got, exp))
    for starts in ([0], [0, 2], [0, 2, 6], [0, 1, 4, 7]):
        parts = [WORD[a:b] for a, b in zip(starts, starts[1:] + [len(WORD)])]
        # cmavo compound
        out, ev, _ = go(k['MT_CMAVOS'], starts)
        want('cmavo compound of %d' % len(parts), (ev, 'bad=0' in out), ([(cf, q(x), '5', str(60 + a)) for x, a in zip(parts, starts)], True))
        for t, b in BRIVLA.items():
            out, ev, _ = go(k[t], starts, fields=('type', 'btype', 'bword', 'line', 'col'))
            exp = [(cf, q(x), '5', str(60 + a)) for x, a in zip(parts[:-1], starts)] + [('add_token', str(k['N_BRIVLA']), str(k[b]), q(parts[-1]), '5', str(60 + starts[-1]))]
            want('%s after %d cmavo' % (t, len(parts) - 1), (ev, 'bad=0' in out), (exp, True))
    for t in BADS:
        out, ev, _ = go(k[t], [0])
        want(t, ([e[0] for e in ev], 'bad=1' in out), (['fprintf'], True))
    out, ev, _ = go(k['MT_CMENE'], [0], bad=0, fields=('type', 'cword', 'line', 'col'))
    want('name', (ev, 'bad=0' in out), ([('add_token', str(k['N_CMENE']), q(WORD), '5', '60')], True))
    # names with a name-marker inside: the word classifier itself is interpreted, so that the remainder is taken apart in turn
    for pieces in ('la djan', 'lai djan', 'doi djan', 'mi la djan', "mi'u la doi djan", 'ko doi la djan', 'do la djan', 'la la la la la la djan', 'mi la mi doi djan', "la mi'e la djan", 'klama la djan', 'klama doi la djan', 'mi klama la djan', 'djan'):
        parts = pieces.split()
        ps = eng.eval(wf, [{'str': ''.join(parts)}, 5, 60], globals={'had_bad_tokens': 0}, mem_end=True, objs=[{'obj': 'node', 'size': k['size'], 'init': 'undef'}],
                      stubs={cf: {'event': True}, 'new_node': {'event': False, 'ret': {'ref': 'node'}}, 'add_token': {'event': True, 'args': [99], 'show': show('type', 'cword', 'line', 'col')}, 'fprintf': {'event': True, 'args': [99]}},
                      outs=[{'global': 'had_bad_tokens', 'size': 4, 'name': 'bad'}])
        if len(ps) != 1:
            raise Broken('splitting of a name: %d outcomes' % len(ps))
        exp, col = [], 60
        for x in parts:
            exp.append((cf, q(x), '5', str(col)) if x not in ('djan', 'klama') else ('add_token', str(k['N_CMENE'] if x == 'djan' else k['N_BRIVLA']), q(x), '5', str(col)))
            col += len(x)
        want('name %s' % ''.join(parts), ([tuple(e) for e in ps[0]['events'] if e[0] in (cf, 'add_token', 'fprintf')], 'bad=0' in ps[0]['out']), (exp, True))
    zoi(c, eng, k, wf, cf, show, want)
    c.count(cases=n)
    c.need('cases', n, 40)
    c.rule('R1: for every word class and every number of leading cmavo, the tokens produced are the pieces between the detected word starts, in order, each with its own line and column; rejected words give a diagnostic and the error flag, and no token')
    c.rule("R2: a name with embedded name-markers becomes the tokens of its prefix, the marker and its remainder in turn, covering all its letters, each at its own position")
    c.rule("R3: zoi and la'o take the next word as delimiter, collect every following word until that delimiter recurs, and give one quotation token with form, delimiter and text; end of text inside one is an error")


def zoi(c, eng, k, wf, cf, show, want):
    """state of the quotation reader: file-local variables shared by the word function and the reader"""
    inf = eng.info()
    gl = inf['globals']
    lx = [f for f in inf['functions'] if infile(inf['functions'], f, 'lex1.c')]
    state = sorted({g for f in lx for g in inf['functions'][f]['refs'] if g in gl and gl[g]['internal'] and not gl[g]['const'] and gl[g]['size'] <= 8 and g != 'had_bad_tokens'
                    and not g.startswith('.str')})
    _ = sorted({g for f in lx for g in inf['functions'][f]['refs'] if g in gl and gl[g]['internal'] and not gl[g]['const'] and gl[g]['size'] > 8 and not re.search(r'tab\d|numbers', g)})
    st = {'morf_scan': {'event': True, 'args': [0], 'ret': {'int': k['MT_BOGUS']}}, 'fprintf': {'event': True, 'args': [99]},
          'new_node': {'event': False, 'ret': {'ref': 'node'}}, 'add_token': {'event': True, 'args': [99], 'show': show('type', 'zform', 'zterm', 'ztext', 'line', 'col')},
          'GC_realloc': {'event': False}}

    def seq(words, fn=wf):
        calls = [[{'str': w}, 3 + i, 70 + i] for i, w in enumerate(words)]
        ps = eng.eval(fn, calls[0], then=[{'fn': fn, 'args': a} for a in calls[1:]], stubs=st, globals={'had_bad_tokens': 0}, mem_end=True,
                      objs=[{'obj': 'node', 'size': k['size'], 'init': 'undef'}], outs=[{'global': g, 'size': gl[g]['size'], 'name': g} for g in state] + [{'global': 'had_bad_tokens', 'size': 4, 'name': 'bad'}])
        if len(ps) != 1:
            raise Broken('quotation handling: %d outcomes' % len(ps))
        evs = [tuple(e) for e in ps[0]['events'] if e[0] in ('morf_scan', 'fprintf', 'add_token')]
        return ps[0]['out'], evs
    import string
    for form in ('zoi', "la'o"):
        for delim in ('gy', "a'o", 'zoi'):
            for body in ([], ['qqq'], ['zoi', "la'o", 'zo'], ['Hello', 'xX', 'x', '123']):
                body = [w for w in body if w != delim]
                out, ev = seq([form, delim] + body + [delim])
                exp = [('add_token', str(k['N_ZOI']), '"%s"' % form, '"%s"' % delim, '"%s"' % ' '.join(body), '3', '70')]
                want('%s %s %s %s' % (form, delim, ' '.join(body), delim), (ev, 'bad=0' in out), (exp, True))
        # after a closed quotation reading is back to normal
        out, ev = seq([form, 'gy', 'x', 'gy', 'klama'])
        want('word after a closed %s' % form, ev[-1:] and ev[-1][0], 'fprintf')
    for w in ('zo', 'la', 'lo', "lo'u", 'zoib', "la'oi", 'z'):
        out, ev = seq([w])
        want('%s opens no foreign quotation' % w, ev[:1], [('morf_scan', '"%s"' % w)])
    # end of text: the reader reports an open quotation in each open state, and none otherwise
    for words, openq in ((['klama'], False), (['zoi'], True), (["la'o"], True), (['zoi', 'gy'], True), (['zoi', 'gy', 'x'], True), (["la'o", 'gy', 'x', 'gy'], False)):
        out, _ = seq(words)
        d = dict(x.split('=', 1) for x in out.split(';'))
        writes = []
        for g in state:
            v = d.get(g)
            if v is None or v in ('undef',):
                continue
            if re.match(r'-?\d+$', v):
                writes.append({'global': g, 'size': gl[g]['size'], 'val': {'int': int(v)}})
            else:
                writes.append({'global': g, 'size': gl[g]['size'], 'val': {'global': 'had_bad_tokens'}})
        r = eng.automaton('parse_file', [{'tape': 1}], char_buf=True, widen=1, nonempty=False, lag=0,
                          stubs={wf: {'event': True, 'args': [99], 'ret': 1, 'writes': writes}, 'mark_eol': {'event': False}, 'fprintf': {'event': True, 'args': [99]}},
                          globals={'had_bad_tokens': 0}, outs=[{'global': 'had_bad_tokens', 'size': 4, 'name': 'bad'}])
        from automata import Machine
        m = Machine(r)
        qn = 0
        for ch in 'x ':
            qn, _ = m.step(qn, ord(ch))
        o, ev = m.out(qn)
        want('end of text after "%s"' % ' '.join(words), (o is not None and 'bad=1' in o, 'fprintf' in (ev or '')), (openq, openq))


if __name__ == '__main__':
    main('W02', run)
