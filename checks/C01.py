"""Every cmavo is recognised as itself, with its selma'o; every other cmavo-shaped word is reported."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from lexer import *

V, C = 'aeiouy', 'bcdfgjklmnprstvxz'


def shapes(thorough):
    out = ['V', 'VV', "V'V", 'CV', 'CVV', "CV'V"]
    out += ["V'V'V", "VV'V"]
    if thorough:
        out += ["CV'V'V", "CVV'V"]
    return out


def run(c):
    tree = Tree(['dfa', 'grammar', 'morf', 'misc'])
    eng = Engine(tree.program('jbofihe'))
    fn = cmavo_fn(eng)
    k = tree.consts({'type': 'offsetof(TreeNode,type)', 'code': 'offsetof(TreeNode,data.cmavo.code)', 'selmao': 'offsetof(TreeNode,data.cmavo.selmao)', 'size': 'sizeof(TreeNode)',
                     'N_CMAVO': 'N_CMAVO', 'zcode': 'sizeof(((TreeNode*)0)->data.cmavo.code)', 'zsel': 'sizeof(((TreeNode*)0)->data.cmavo.selmao)', 'ztype': 'sizeof(((TreeNode*)0)->type)'})
    tok = tree.token_names()
    table = eng.glob('cmavo_table')
    words, rejected, paths = {}, 0, 0
    bad = []
    for sh_ in shapes(c.tier == 'thorough'):
        cells = []
        for i, ch in enumerate(sh_):
            val = {'int': ord("'"), 'w': 8} if ch == "'" else {'var': 'c%d' % i, 'dom': [ord(x) for x in (V if ch == 'V' else C)], 'w': 8}
            cells.append({'off': i, 'size': 1, 'val': val})
        cells.append({'off': len(sh_), 'size': 1, 'val': {'int': 0, 'w': 8}})
        ps = eng.eval(fn, [{'obj': 'word', 'size': len(sh_) + 1, 'cells': cells}, 11, 22], max_paths=400000, max_steps=200000000,
                      globals={'had_bad_tokens': 0},
                      stubs={'add_token': {'event': True, 'args': []}, 'new_node': {'ret': {'ref': 'node'}}, 'new_string': {'ret': {'symfresh': 1}},
                             'fprintf': {'event': True, 'args': []}},
                      mem_end=True, objs=[{'obj': 'node', 'size': k['size'], 'init': 'undef'}],
                      outs=[{'obj': 'node', 'off': k['type'], 'size': k['ztype'], 'name': 'type'}, {'obj': 'node', 'off': k['code'], 'size': k['zcode'], 'name': 'code'},
                            {'obj': 'node', 'off': k['selmao'], 'size': k['zsel'], 'name': 'selmao'}, {'global': 'had_bad_tokens', 'off': 0, 'size': 4, 'name': 'bad'}])
        for p in ps:
            paths += 1
            doms = [p['vars']['c%d' % i] if ch != "'" else [39] for i, ch in enumerate(sh_)]
            o = dict(x.split('=', 1) for x in p['out'].split(';')) if not p.get('out', '').startswith('end=') else {}
            ev = ' '.join(map(str, p['events']))
            for comb in itertools.product(*doms):
                w = ''.join(map(chr, comb))
                if not o:
                    bad.append((w, p['out']))
                elif o.get('bad') != '0':
                    rejected += 1
                    if 'fprintf' not in ev:
                        c.violation('rejected-silently', fn, 'unknown cmavo marked bad without a diagnostic', w)
                elif o.get('type') == str(k['N_CMAVO']) and 'add_token' in ev:
                    words[w] = (int(o['code']), int(o['selmao']))
                else:
                    c.violation('neither-token-nor-error', fn, 'cmavo-shaped word yields neither a cmavo token nor an error (%s; %s)' % (p['out'], ev), w)
    for w, o in bad[:5]:
        c.violation('lookup-total', fn, o, w)
    c.need('recognised cmavo', len(words), 500)
    got = {}
    for w, (code, sel) in sorted(words.items()):
        if not 0 <= code < len(table):
            c.violation('code-range', fn, 'token code %d lies outside the cmavo table' % code, w)
            continue
        cell = table[code]
        if cell[0].get('str') != w:
            c.violation('identity', fn, 'token for the word is displayed as %r' % cell[0].get('str'), w)
        if cell[1] != sel:
            c.violation('selmao-agrees', fn, "token carries selma'o %s but the table entry its code points to says %s" % (tok.get(sel, sel), tok.get(cell[1], cell[1])), w)
        if sel not in tok:
            c.violation('selmao-known', 'cmavo_table', "selma'o number %d is not a token of the grammar" % sel, w)
        got[w] = tok.get(sel, sel)
    for i, cell in enumerate(table):
        s = cell[0].get('str') if isinstance(cell[0], dict) else None
        if s and s not in words and len(s) <= 4:
            c.violation('reachable', 'cmavo_table[%d]' % i, 'table entry can never be found: the lookup does not reach its slot', s)
    if c.update:
        save_ref('C01.json', got)
    ref = load_ref('C01.json')
    for w in sorted(set(ref) | set(got)):
        if ref.get(w) != got.get(w):
            c.violation('lexicon', 'cmavo_table', "cmavo has selma'o %s, expected %s" % (got.get(w, 'none (rejected)'), ref.get(w, 'none (rejected)')), w)
    # enumerators the program tests token codes against
    n = 0
    names = sorted(set(re.findall(r'\bCM_([A-Za-z]+)\b', tree.read('cmavotab.h'))) - {'UNKNOWN'})
    vals = tree.consts({x: 'CM_' + x for x in names})
    for x in names:
        w = x.replace('h', "'").lower()
        n += 1
        if w in words and words[w][0] != vals[x]:
            c.violation('named-code', 'cmavotab.h: CM_' + x, 'constant is %d but the word %s has code %d' % (vals[x], w, words[w][0]), w)
        if w in words and table[words[w][0]][2] != vals[x]:
            c.violation('named-code', 'cmavo_table[%d]' % words[w][0], 'entry carries constant %r, not CM_%s' % (table[words[w][0]][2], x), w)
    c.need('named codes', n, 400)
    ssm = [cell[3] for cell in table]
    names_tab = eng.glob('selmao_names')
    for w, (code, sel) in sorted(words.items()):
        nm = names_tab[ssm[code]].get('str') if 0 <= ssm[code] < len(names_tab) else None
        main_ = tok.get(sel)
        if nm is None or re.sub(r'[0-9]+[a-z]?\*?$', '', nm).replace("'", 'h') != main_:
            c.violation('displayed-selmao', 'cmavo_table[%d]' % code, "displayed selma'o %r does not agree with the grammar's %s" % (nm, main_), w)
    c.count(words_recognised=len(words), words_rejected=rejected, abstract_paths=paths, table_slots=len(table), named_codes=n)
    c.rule("R1: the set of words the lookup maps to a cmavo token, and each word's selma'o, equal the confirmed lexicon (finite abstract domain: every cmavo-shaped letter string)")
    c.rule('R2: the code stored in the token names the very table entry whose text is the word; every table entry is reachable')
    c.rule('R3: every cmavo-shaped word outside the lexicon is reported and sets the error flag')
    c.rule('R4: the named cmavo constants the rest of the program tests against denote the codes of those words')


if __name__ == '__main__':
    main('C01', run)
