"""X02: the report about a syntax error names the word the parser stopped at, what was understood before it, and (on request) the state of the parse."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from shown import *
from grammar import grammars
from lujvo import rendered

EXTRA = r'''
TreeNode *top; int had_syntax_error; int insert_elidables; int opt_output_width; int show_dictionary_defects, allow_cultural_rafsi, require_elidables, show_backtrace;
extern int yyparse(void), full_yyparse(void);
void yyerror(char *s) { had_syntax_error = 1; }
void verif_parse(TreeNode **v, int n, int strict, int trace) {
  int i, r;
  had_bad_tokens = 0; had_syntax_error = 0; require_elidables = strict; show_backtrace = trace;
  lex2_initialise();
  for (i=0;i<n;i++) add_token(v[i]);
  preprocess_tokens();
  if (had_bad_tokens) { verif_end(3); return; }
  r = strict ? full_yyparse() : yyparse();
  verif_end(r || had_syntax_error ? 1 : 0);
}
'''
# after a complaint by a rule of the grammar the parser takes the text up again at one of these
SYNC = ('I', 'PRIVATE_I_BO', 'NIhO', 'LIhU', 'TOI', 'TUhU', 'FAhO')


class Trace(TokenLists):
    def __init__(self, tree, share=None, G=None):
        if share is None:
            TokenLists.__init__(self, tree, EXTRA, ['rpc_tab', 'rpc_full', 'tracebk', 'tree'])
            self.sim = [Automaton(g) for g in G]
        else:
            self.__dict__.update(share.__dict__)
            self.eng = Engine(share.eng.bc)
        self.reset()

    def clone(self):
        return Trace(self.tree, self)

    def tokens(self, toks):
        self.reset()
        names = [self.word(i, 'brivla', 'broda') if t == 'BRIVLA' else self.word(i, 'cmene', 'djan') if t == 'CMENE' else self.word(i, *t) if isinstance(t, tuple) else self.any(i, [t]) for i, t in enumerate(toks)]
        return names

    def run(self, toks, strict, trace):
        names = self.tokens(toks)
        self.objs.append({'obj': 'vec', 'size': 8 * max(1, len(names)), 'init': 'undef', 'cells': [{'off': 8 * i, 'size': 8, 'val': {'ref': n}} for i, n in enumerate(names)]})
        return self.eng.eval('verif_parse', [{'ref': 'vec'}, len(names), strict, trace], objs=self.objs, pokes=self.pokes, extern_event=True, mem_end=True, globals={'show_elisions': 0, 'insert_elidables': 0},
                             stubs={'Free': {'event': False, 'free': True}}, max_steps=30000000)


    def listed(self, toks):
        """the token list the parser works on, with its markers"""
        names = self.tokens(toks)
        self.objs.append({'obj': 'vec', 'size': 8 * max(1, len(names)), 'init': 'undef', 'cells': [{'off': 8 * i, 'size': 8, 'val': {'ref': n}} for i, n in enumerate(names)]})
        return self.eng.eval('verif_pre', [{'ref': 'vec'}, len(names)], objs=self.objs, pokes=self.pokes, extern_event=True, mem_end=True, globals={'show_elisions': 0}, stubs={'Free': {'event': False, 'free': True}})


class Automaton:
    """the automaton bison derives from the grammar, run over token names with bison's error recovery"""

    def __init__(self, G):
        self.G = G
        self.shift, self.red, self.default, self.items, self.next = {}, {}, {}, {}, {}
        self.errrule = {n for n, r in G.rules.items() if 'error' in r[1]}
        self.giveup = {n for n, a in G.raw_actions().items() if re.search(r'\bYYERROR\b', a)}
        for s in G.root.find('automaton').findall('state'):
            k = int(s.get('number'))
            self.items[k] = sorted((int(i.get('rule-number')), int(i.get('dot'))) for i in s.findall('./itemset/item') if int(i.get('dot')))
            self.shift[k] = {t.get('symbol'): int(t.get('state')) for t in s.findall('./actions/transitions/transition') if t.get('type') == 'shift'}
            self.next[k] = {t.get('symbol'): int(t.get('state')) for t in s.findall('./actions/transitions/transition') if t.get('type') == 'goto'}
            self.red[k], self.default[k] = {}, None
            for r in s.findall('./actions/reductions/reduction'):
                if r.get('enabled') == 'true':
                    n = None if r.get('rule') == 'accept' else int(r.get('rule'))
                    if r.get('symbol') == '$default':
                        self.default[k] = n if n is not None else 'accept'
                    else:
                        self.red[k][r.get('symbol')] = n if n is not None else 'accept'

    def run(self, toks):
        """toks: names ending in PRIVATE_EOF_MARK, $end -> accepted?, [(index of the token, states, [(state, rule) reduced since the last shift])], indices of tokens complained about by a rule of the grammar"""
        st, i, look, recover, since, errors, said, at = [0], 0, None, 0, [], [], [], [None]
        for _ in range(100000):
            s = st[-1]
            act = self.default[s] if not self.shift[s] and not self.red[s] else None
            if act is None:
                if look is None:
                    look, i = toks[min(i, len(toks) - 1)], i + 1
                if look in self.shift[s]:
                    st.append(self.shift[s][look])
                    at.append(i - 1)
                    recover, look, since = max(0, recover - 1), None, []
                    if toks[i - 1] == '$end':
                        return not errors and not said, errors, said
                    continue
                act = self.red[s].get(look, self.default[s])
            if act == 'accept':
                return not errors and not said, errors, said
            if act is not None:
                lhs, rhs = self.G.rules[act]
                since.append((s, act))
                last = at[-1]
                if rhs:
                    del st[-len(rhs):], at[-len(rhs):]
                if act not in self.giveup:
                    st.append(self.next[st[-1]][lhs])
                    at.append(last)
                    look = None if act in self.errrule else look
                    continue
                said.append(last)
                while i < len(toks) - 2 and toks[i] not in SYNC:
                    i += 1
            else:
                errors.append((i - 1, list(st), list(since)))
                if recover == 3:
                    if look == '$end':
                        return False, errors, said
                    look = None
            recover = 3
            while 'error' not in self.shift[st[-1]]:
                st.pop(), at.pop()
                if not st:
                    return False, errors, said
            st.append(self.shift[st[-1]]['error'])
            at.append(None)
        raise Broken('the model of the parser does not end')


def shown(L, item, toks):
    """how an item of the token list reads in the report; None: left open"""
    if item['k'] == 'M':
        return r'MARKER : .*'
    i = item['col'] - 1
    t, pos = toks[i], r' \(line %d, col %d\)' % (50 + i, i + 1)
    if item['k'] == 'N_CMAVO':
        return re.escape(L.wordof(t)) + r' \[%s\d*\]' % t.split('/')[0] + pos
    if item['k'] == 'N_BRIVLA':
        return r'broda \[BRIVLA\]' + pos
    if item['k'] == 'N_CMENE':
        return r'djan \[CMENE\]' + pos
    if item['k'] == 'N_BU':
        return re.escape(item['text']) + ' bu' + pos
    if item['k'] == 'N_ZO':
        return 'zo ' + re.escape(item['text']) + pos
    if item['k'] == 'N_LOhU':
        return "lo'u " + re.escape(item['text']) + " le'u" + pos
    if item['k'] == 'N_ZEI':
        return re.escape(item['text']) + pos
    return '.*' + pos


def rule_text(G, n, dot=0):
    lhs, rhs = G.rules[n]
    out = []
    for i, s in enumerate(rhs):
        out += [] if s.startswith('PRIVATE_') else [s]
        out += ['.'] if i + 1 == dot else []
    return ' '.join(['Rule', str(n), ':', lhs, '<-'] + out)


def rules_in(text):
    return [' '.join(l.split()) for l in text.split('\n') if l.strip().startswith('Rule ')]


def blocks(text):
    """the report cut at its headings (a line of dashes or equal signs, a title, another such line)"""
    return [(m[0], m[1]) for m in re.findall(r'(?:[-=]{10,}\n)([^\n]*[A-Za-z][^\n]*)\n(?:[-=]{10,}\n)(.*?)(?=(?:[-=]{10,}\n)[^\n]*[A-Za-z][^\n]*\n(?:[-=]{10,}\n)|\Z)', text, re.S)]


def judge(L, A, stream, toks, errors, said, text, trace):
    """complaints about the report on the given errors"""
    lost = [tuple(map(int, x)) for x in re.findall(r'Missing selbri before GIhA at line (\d+) column (\d+)', text)]
    near = [{(50 + c - 1, c) for x in stream[max(0, k - 1):k + 2] for c in [x['col']]} for k in said]
    if len(lost) != len(near) or any(x not in n for x, n in zip(lost, near)):
        return [('missing', 'rpc2x.y', 'a selbri is missing near %s, the report says %s' % ([sorted(n) for n in near], lost))]
    text = re.sub(r'Missing selbri before GIhA at[^\n]*\n|Syntax error following text ending at[^\n]*\n', '', text)
    parts = re.split(r'(?m)^(?=-{10,}\nSYNTAX ERROR IN TEXT\n)', text)[1:]
    if len(parts) != len(errors):
        return [('report', 'report_trace_error', '%d syntax errors are reported, the parser meets %d' % (len(parts), len(errors)))]
    out = []
    for nr, (part, (at, states, since)) in enumerate(zip(parts, errors)):
        m = re.match(r'-+\nSYNTAX ERROR IN TEXT\n-+\nMisparsed token :\n  ([^\n]*)\nLatest successfully parsed tokens :\n(.*?)-{10,}\n', part, re.S)
        if not m:
            return [('report', 'print_last_toks', 'the report is not understood: %r' % part[:200])]
        items = stream[:at]
        want = '<End of text>' if at >= len(stream) else shown(L, stream[at], toks)
        if not re.fullmatch(want, m.group(1)):
            out.append(('token', 'print_last_toks', 'the parser stops at %s, the report says %s' % (want.replace('\\', ''), m.group(1))))
        got = [x[2:] for x in m.group(2).split('\n') if x]
        exp = [shown(L, x, toks) for x in items[::-1][:8]]
        if len(got) != len(exp) or not all(re.fullmatch(e, g) for e, g in zip(exp, got)):
            out.append(('before', 'print_last_toks', 'understood before it, latest first: %s; the report says %s' % ([e.replace('\\', '') for e in exp], got)))
        rest = part[m.end():]
        if not trace:
            if rules_in(rest) or 'tate' in rest:
                out.append(('quiet', 'report_trace_error', 'the state of the parse is shown without being asked for'))
            continue
        cut = re.split(r'={10,}\n(Rules reduced[^\n]*|Jammed[^\n]*|Pending[^\n]*)\n={10,}\n', m.group(0)[:0] + rest)
        if len(cut) != 7 or not cut[1].startswith('Rules') or not cut[3].startswith('Jammed') or not cut[5].startswith('Pending'):
            return out + [('report', 'report_trace_error', 'the trace is not understood: %r' % rest[:200])]
        poss = lambda k: sorted(t for t in A.shift[k] if not t.startswith('PRIVATE_'))
        if nr == 0:
            want = []
            for k, n in since:
                want.append(rule_text(A.G, n))
                want += ['(' + ' '.join(poss(k))] if poss(k) else []
            got = [' '.join(x.split()) for x in cut[2].split('\n') if x.strip()]
            got = ['(' + ' '.join(sorted(re.sub(r'^\(Next word class could be :|\)$', '', x).split())) if x.startswith('(Next') else x for x in got]
            if got != (want or ['NONE']):
                k = next((i for i, (a, b) in enumerate(zip(got + [''], (want or ['NONE']) + [''])) if a != b), 0)
                out.append(('reduced', 'report_trace_reduce', 'rules reduced since the last word: %s; the report says %s' % ((want or ['NONE'])[k:k + 2], got[k:k + 2])))
        jam = states[-1]
        if not re.search(r'\(%d\)' % jam, cut[3]):
            out.append(('jammed', 'report_trace_error', 'the parser stops in state %d, the report says %s' % (jam, cut[3])))
        want, got = sorted(rule_text(A.G, n, d) for n, d in A.items[jam] if n), sorted(x for x in rules_in(cut[4]) if not x.startswith('Rule 0 '))
        if want != got:
            out.append(('jammed', 'report_trace_error', 'state %d stands for %s, the report says %s' % (jam, want[:3], got[:3])))
        m = re.search(r'Next word class could be :([^\n]*)', cut[4])
        if not m or sorted(m.group(1).split()) != poss(jam):
            out.append(('possible', 'report_trace_error', 'word classes possible in state %d: %s; the report says %s' % (jam, poss(jam), m and m.group(1).split())))
        got = re.findall(r'State (\d+)\n(.*?)(?=State \d|\Z)', cut[6], re.S)
        if [int(k) for k, _ in got] != states[-2::-1]:
            out.append(('pending', 'report_trace_error', 'states below: %s; the report says %s' % (states[-2::-1], [k for k, _ in got])))
        else:
            for k, body in got:
                want = sorted(rule_text(A.G, n, d) for n, d in A.items[int(k)] if n)
                g = sorted(x for x in rules_in(body) if not x.startswith('Rule 0 '))
                if want != g:
                    out.append(('pending', 'report_trace_error', 'state %s stands for %s, the report says %s' % (k, want[:3], g[:3])))
                    break
    return out


def one(L, job):
    toks, n, rep, out = job, 0, 0, []
    ps = L.listed(toks)
    n += len(ps)
    stream = L.stream(ps[0])
    if len(ps) != 1 or ps[0]['end'] != 'return' or not stream or stream[-1]['k'] != 'end':
        return n, 0, 0, [] if ps[0]['end'] == 'exit' else [('completes', 'preprocess_tokens', 'analysis does not complete: %s' % ps[0].get('out', ps[0]['end']), words(L, toks))]
    if stream[-1]['how'] or any(s['k'] in ('ev', 'bad') for s in stream):
        return n, 0, 0, []
    eof = [i for i, s in enumerate(stream) if s['k'] == 'end']
    text = stream[:eof[0]]
    names = [s['m'] if s['k'] == 'M' else None for s in text]
    ok = 0
    for s, i in zip(text, range(len(text))):
        if names[i] is None:
            names[i] = {'N_CMAVO': None, 'N_BRIVLA': 'BRIVLA', 'N_CMENE': 'CMENE', 'N_BU': 'BU', 'N_ZO': 'ZO', 'N_LOhU': 'LOhU', 'N_ZEI': 'ZEI', 'N_ZOI': 'ZOI', 'N_GARBAGE': 'GARBAGE'}.get(s['k'])
            if s['k'] == 'N_CMAVO':
                names[i] = toks[s['col'] - 1].split('/')[0]
            elif names[i] not in L.sim[0].G.terminals or L.tokname.get(s['val'], names[i]) != names[i]:
                names[i] = L.tokname.get(s['val'], names[i])
    full = names + ['PRIVATE_EOF_MARK', '$end']
    for strict in (0, 1):
        for trace in (0, 1):
            good, errors, said = L.sim[strict].run(full)
            ps = L.run(toks, strict, trace)
            n += len(ps)
            p = ps[0]
            if len(ps) != 1 or p['end'] != 'return':
                out.append(('completes', 'report_trace_error', 'analysis does not complete: %s' % p.get('out', p['end']), words(L, toks)))
                break
            st = [int(e[1]) for e in p['events'] if e[0] == 'verif_end'][0]
            q = dict(p, events=[e for e in p['events'] if not e[0].startswith('verif_')])
            r = rendered(q)
            if (st == 0) != good:
                out.append(('verdict', 'yyparse', 'the text is %s by the grammar, the parser says otherwise' % ('accepted' if good else 'rejected'), words(L, toks)))
                break
            if not good:
                rep += 1
                out += [v + (words(L, toks) + (' (-re)' if strict else '') + (' (-bt)' if trace else ''),) for v in judge(L, L.sim[strict], text, toks, errors, said, r['stderr'], trace)]
            elif 'SYNTAX' in r['stderr']:
                out.append(('quiet', 'report_trace_error', 'a syntax error is reported for a correct text', words(L, toks)))
            if r['stdout'].strip():
                out.append(('stderr', 'report_trace_error', 'part of the report goes to standard output', words(L, toks)))
    return n, rep, ok, out


def words(L, toks):
    return ' '.join(t[-1] if isinstance(t, tuple) else WORDS.get(t) or L.wordof(t) for t in toks)


MORE = ['ZO BRIVLA KU', 'LOhU BRIVLA LEhU KU', 'BRIVLA ZEI BRIVLA KU KU', 'KOhA BU KU', 'LE KU', 'KOhA KU', 'PU KU KU', 'GIhA', 'KOhA GIhA', 'LE NU', 'I I KU KU', 'COI KU', 'CMENE KU KU', 'LI PA KU', 'PA PA KU', 'BY BY KU KU',
        'KOhA BRIVLA I KOhA BRIVLA I KOhA BRIVLA KU', 'KOhA UI BRIVLA UI KU UI', 'LE BRIVLA BE KOhA BEI LE BRIVLA KU KU KU BEhO BEhO', 'NAI NAI KU', 'LU KOhA BRIVLA LIhU LIhU', 'TO KOhA TOI TOI', 'SE SE KOhA', 'NA NA KU KOhA BRIVLA VAU VAU VAU', 'BAhE BRIVLA BAhE KU']


def run(c):
    tree = Tree(['dfa', 'grammar', 'misc'])
    G = grammars(tree)
    L = Trace(tree, None, G)
    S = Sentences(G[0])
    thorough = c.tier == 'thorough'
    fam = [f for f in family(S, pairs=True, mood=False, longest=12 if thorough else 9)]
    jobs = set()
    wrong = ['KU', 'KOhA', 'BRIVLA', 'GI', 'PA', 'NAI', 'LE', 'TOI', 'I', 'BO', 'CU', 'VAU']
    for k, f in enumerate(fam):
        f = tuple(f)
        jobs.add(f)
        for i in range(1, len(f)):
            if thorough or (i + k) % 3 == 0:
                jobs.add(f[:i])
                jobs.add(f[:i] + (wrong[(i + k) // 3 % len(wrong)],) + f[i:])
                jobs.add(f[:i] + f[i + 1:])
    jobs |= {tuple(('bu', 'abu') if x == 'BU' else x for x in t.split()) for t in MORE}
    jobs = sorted((j for j in jobs if j), key=lambda s: (len(s), str(s)))
    if not thorough:
        jobs = [j for i, j in enumerate(jobs) if i % 2 == 0 or len(j) < 6]
    seen, total, reports = {}, 0, 0
    for n, rep, ok, viol in pmap(L, jobs, one):
        total += n
        reports += rep
        for v in viol:
            seen.setdefault(v[:2], v)
    for rule, where, what, s in seen.values():
        c.violation(rule, where, what, s)
    c.need('reports', reports, 2000)
    c.count(token_lists=len(jobs), abstract_paths=total, reports=reports, parser_states=G[0].states + G[1].states)
    c.rule('R1: a text is reported to be wrong exactly if the automaton of the grammar in use (normal or strict) rejects it')
    c.rule('R2: the misparsed token is the one the automaton stops at; the tokens before it are listed latest first, at most eight, each with its word, class and position')
    c.rule('R3: with the trace asked for: the productions reduced since the last shift, the state stopped in with its items, the word classes possible there, and the states below are those of the automaton; without it none of that is shown')


if __name__ == '__main__':
    main('X02', run)
