"""adv_translate interpreted over an unknown dictionary: whether an entry exists, and of what kind it is, is an abstract choice made at its first
lookup; the answer is compared with a specification that is given exactly the entries the path assumed."""
import threading
from common import *

HARNESS = r'''
#include <string.h>
#include <stdio.h>
#include <ctype.h>
#include "functions.h"
int show_dictionary_defects, allow_cultural_rafsi;
extern void verif_key(int n, const char *key, const char *val);
extern void verif_missing(const char *key);
extern void verif_result(const char *s);
static int *verif_choice;
int verif_limit, verif_max, verif_deep;
static struct { char key[200]; char val[200]; int there; } verif_tab[400];
static const int verif_kinds[] = {1, 12, 3, 7, 5};
static int verif_n, verif_hits, verif_picks;
char *dict_lookup(char *key) {
  int i, n = strlen(key), v = 0, k, kind; char *t = "", e[200];
  for (i=0;i<verif_n;i++) if (!strcmp(verif_tab[i].key, key)) return verif_tab[i].there ? verif_tab[i].val : NULL;
  k = verif_n++;
  strcpy(verif_tab[k].key, key);
  kind = key[0] == '*' ? 3 : n > 1 && isdigit(key[n-1]) ? 1 : n > 2 && isdigit(key[n-2]) && strchr("nvqt", key[n-1]) ? 2 : 0;
  if (kind == 3 && n > 2 && !isdigit(key[n-1])) kind = 4;
  if (verif_max < 0 ? kind < 3 && verif_picks < -verif_max && verif_hits < verif_limit : verif_picks < verif_max && verif_hits < verif_limit) v = verif_choice[verif_picks++];
  e[0] = 0;
  v = v * (v <= verif_kinds[kind]); /* one abstract value for every way of being absent */
  if (verif_hits > verif_deep) v = v * (v <= 1);
  switch (kind) {
    case 0: switch (v) { case 1: t = "w"; break; default: v = 0; } break;
    case 1: switch (v) { case 1: t = "w"; break; case 2: t = "D;w"; break; case 3: t = "S;w"; break; case 4: t = "A;w"; break; case 5: t = "P;w"; break; case 6: t = "R;w"; break; case 7: t = "I;w"; break; case 8: t = "Z;w"; break; case 9: t = "@brode2"; break; case 10: t = "@brode"; break; case 11: t = "E;w"; break; case 12: t = "@ba'i1"; break; default: v = 0; } break;
    case 2: switch (v) { case 1: t = "w"; break; case 2: t = "A;w"; break; case 3: t = "@brodi3"; break; default: v = 0; } break;
    case 3: switch (v) { case 1: t = "l %1q r%2n s"; break; case 2: t = "@2"; break; case 3: t = "-"; break; case 4: t = "A;%1v w"; break; case 5: t = "D;w %1t"; break; case 6: t = "w %"; break; case 7: t = "@x"; break; default: v = 0; } break;
    case 4: switch (v) { case 1: t = "%2v w"; break; case 2: t = "@3"; break; case 3: t = "-"; break; case 4: t = "% w"; break; case 5: t = "@"; break; default: v = 0; } break;
  }
  verif_tab[k].there = v != 0;
  if (!v) { verif_missing(verif_tab[k].key); return NULL; }
  verif_hits++;
  if (t[0] == '@' || t[0] == '-') strcpy(e, t); else if (strchr(t, '%') && !strchr(t, 'q') && !strchr(t, 'v') && !strchr(t, 't')) sprintf(e, "%d%s", k, t); else sprintf(e, "%s%d", t, k);
  strcpy(verif_tab[k].val, e);
  verif_key(k, verif_tab[k].key, verif_tab[k].val);
  return verif_tab[k].val;
}
void verif_translate(char *w, int place, int ctx, int *choice) { char *r; verif_choice = choice; r = adv_translate(w, place, ctx); verif_result(r ? r : "NULL"); }
void verif_forms(char *w, char *entry, char *noun, int place, int ctx) {
  char *r; int k = 0;
  sprintf(verif_tab[0].key, "%s%d", w, place); strcpy(verif_tab[0].val, entry); verif_tab[0].there = 1;
  if (*noun) { sprintf(verif_tab[1].key, "%s%dn", w, place); strcpy(verif_tab[1].val, noun); verif_tab[1].there = 1; k = 1; }
  verif_n = k + 1; verif_limit = 0;
  r = adv_translate(w, place, ctx); verif_result(r ? r : "NULL");
}
'''

N, V, Q, T = range(4)
CTX = 'nvqt'
USES = ['noun', 'verb', 'qualifier', 'tag']


def star(x):
    i = x.find('*')
    return i if i >= 0 and (i + 1 == len(x) or x[i + 1] in ' /') else -1


def inflect(x, one, join=''):
    """apply one() to the marked word or words of a phrase (the part before each '*'), or to the whole phrase"""
    i = star(x)
    if i < 0:
        return one(x)
    rest = x[i + 1:]
    return one(x[:i]) + (join(rest) if join else '') + (inflect(rest, one, join) if '*' in rest else rest)


def plural1(x):
    if x[-1:] in ('s', 'z', 'x') and x or x.endswith('ch'):
        return x + '(es)'
    if len(x) > 1 and x[-1] == 'y' and x[-2] in 'bcdfghjklmnpqrstvwxz':
        return x + '(ies)'
    return x + '(s)'


def er1(x):
    return x + ('-r(s)' if x.endswith('e') else '-er(s)')


def ing1(x):
    return (x[:-1] if len(x) > 1 and x[-1] == 'e' and x[-2] not in 'aeiou' else x) + '-ing'


def plural(x):
    return inflect(x, plural1)


def er(x):
    return inflect(x, er1, lambda rest: '' if re.match(r'\s*(in|at|with|through)', rest) else ' of')


def ing(x):
    return inflect(x, ing1)


def plain(x):
    return re.sub(r'\*(?=\s)', '', x)


def form(entry, ctx, noun):
    """an entry with a class letter, in the form its use asks for; None for an unknown class"""
    if entry[1:2] != ';':
        return entry
    c, x = entry[0], entry[2:]
    if c in 'DE':
        return [plural(x), 'being ' + (noun or plural(x)), plain(x) + '-ish', noun or plural(x)][ctx]
    if c == 'S':
        return [plain(x), 'being ' + (noun or x), x + '-ish', noun or x][ctx]
    if c == 'A':
        return er(x) if ctx in (N, T) else ing(x)
    if c == 'P':
        return [x + ' thing(s)', 'being ' + x, x, x + ' thing(s)'][ctx]
    if c == 'R':
        return ['thing(s) ' + x, 'being ' + x, x, 'thing(s) ' + x][ctx]
    if c == 'I':
        return 'thing(s) ' + ing(x) if ctx in (N, T) else ing(x)
    return None


class Asked(Exception):
    pass


class Spec:
    """the gloss of a word for a place in a use, given the dictionary"""

    def __init__(self, entries, parts):
        self.chain = 0
        self.d, self.parts = entries, parts     # key -> value or None; word -> list of components, or a final answer

    def look(self, key):
        if key not in self.d:
            raise Asked(key)
        return self.d[key]

    def gloss(self, w, place, ctx):
        if place == 0:
            place, ctx = 1, V
        e = self.look('%s%d%s' % (w, place, CTX[ctx]))
        if e is None:
            e = self.look('%s%d' % (w, place))
        if e is not None:
            if e[0] == '@':
                m = re.match(r"@([A-Za-z']*)(\d?)", e)
                return self.redirected(m.group(1), int(m.group(2)), ctx) if m.group(2) else '??'
            noun = self.look('%s%dn' % (w, place)) if e[1:2] == ';' and e[0] in 'DES' and ctx in (V, T) else None
            f = form(e, ctx, noun)
            return '??' if f is None else f
        e = self.look(w)
        if e is not None:
            return e + '??'
        if isinstance(self.parts.get(w), (tuple, str)) and any(k[0] == '*' and v for k, v in self.d.items()):
            raise Open()                                # patterns are not meant for borrowings
        comps = self.components(w)
        if comps and len(comps) == 1:
            return self.gloss(comps[0][0], comps[0][1][place] if place < 6 else place, ctx)
        if comps:
            r = self.patterns(comps, place, ctx)
            if r is not None:
                return r
        return self.unknown(w, comps, place, ctx) + '??'

    def redirected(self, w, place, ctx):
        self.chain += 1
        r = '??' if self.chain > 30 else self.gloss(w, place, ctx)
        self.chain -= 1
        return r

    def components(self, w):
        """a+se+b -> [(word, places, spelling with its conversions)]; a conversion belongs to the part after it"""
        p = w.split('+') if '+' in w else self.parts.get(w)
        if not isinstance(p, list):
            return None
        out, conv = [], []
        for i, c in enumerate(p):
            if c in ('se', 'te', 've', 'xe') and i + 1 < len(p):
                conv.append(c)
                continue
            places = list(range(6))
            for x in reversed(conv):
                n = {'se': 2, 'te': 3, 've': 4, 'xe': 5}[x]
                places[1], places[n] = places[n], places[1]
            out.append((c, places, conv))
            conv = []
        return out

    @staticmethod
    def spelled(comps):
        return '+'.join('+'.join(c[2] + [c[0]]) for c in comps)

    def patterns(self, comps, place, ctx):
        """patterns for the end, then for the beginning, of higher precedence first; '-' asks for one with a part more"""
        n = len(comps)
        conv = lambda c: c[1][place] if place < 6 else place
        for prec in range(5, -1, -1):
            for end in (True, False):
                for k in (1, 2):
                    if k >= n:
                        break
                    if end:
                        bare = [(comps[n - k][0], None, [])] + comps[n - k + 1:]
                        generic, base, at = '+' + self.spelled(bare), self.spelled(comps[:n - k]), conv(comps[n - k])
                    else:
                        generic, base, at = self.spelled(comps[:k]) + '+', self.spelled(comps[k:]), conv(comps[k - 1])
                    key = '*%d%s%d' % (prec, generic, at)
                    e = self.look(key + CTX[ctx])
                    full = e is not None
                    if not full:
                        e = self.look(key)
                    if e is None:
                        break
                    if e[0] == '@':
                        return self.gloss(base, int(e[1]), ctx) if e[1:2].isdigit() else '??'
                    s = re.sub(r'%(\d)([nvqt])', lambda m: self.gloss(base, int(m.group(1)), CTX.index(m.group(2))), e)
                    if not full:
                        noun = self.look(key + 'n') if s[1:2] == ';' and s[0] in 'DES' and ctx in (V, T) else None
                        if noun is not None and ('%' in noun or noun == '-'):
                            raise Open()
                        s = form(s, ctx, noun)
                    if s is None:
                        break
                    if s != '-':
                        return s
        return None

    def unknown(self, w, comps, place, ctx):
        if '+' in w or isinstance(self.parts.get(w), list):
            if len(comps) < 2:
                return ''
            out = []
            for i, (c, places, conv) in enumerate(comps):
                last = i + 1 == len(comps)
                at = place if last else 1
                out.append(self.gloss(c, places[at] if at < 6 else at, N if last else Q))
            return '-'.join(out)
        p = self.parts.get(w, '' if w in ('se', 'te', 've', 'xe', "to'e", "ba'i") else '?')
        if isinstance(p, tuple):                        # borrowed word: classifier parts, the rest of the word
            comps = Spec.components(self, '+'.join(p[0])) if len(p[0]) > 1 else [(p[0][0], list(range(6)), [])]
            return '-'.join(self.gloss(c, places[1], ctx if i + 1 == len(comps) else Q) for i, (c, places, conv) in enumerate(comps)) + '-[%s]' % p[1]
        return p


class Open(Exception):
    """a combination the specification leaves open"""


class Translator:
    def __init__(self, tree):
        self.tree = tree
        with open(os.path.join(tree.src, 'verif_dict.c'), 'w') as h:
            h.write(HARNESS)
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(tree.compile, ['translate.c', 'canonluj.c', 'morf.c', 'morf_dfa.c', 'bccheck.c', 'memory.c', 'verif_dict.c']))
        raw, out = os.path.join(tree.dir, 'trans.raw.bc'), os.path.join(tree.dir, 'trans.bc')
        sh(['llvm-link-18', '-o', raw] + bcs)
        sh(['opt-18', '-passes=function(sroa,simplifycfg)', raw, '-o', out])
        self.bc = out
        self.eng = Engine(out)

    def clone(self):
        t = object.__new__(Translator)
        t.tree, t.bc, t.eng = self.tree, self.bc, Engine(self.bc)
        return t

    def run(self, w, place, ctx, limit=2, picks=40, deep=0):
        n = abs(picks)                                  # negative: choices only for entries that are not patterns
        cells = [{'off': 4 * i, 'size': 4, 'val': {'var': 'c%d' % i, 'dom': list(range(13)), 'w': 32}} for i in range(n)]
        return self.eng.eval('verif_translate', [{'str': w}, place, ctx, {'ref': 'choice'}], objs=[{'obj': 'choice', 'size': 4 * n, 'init': 'undef', 'cells': cells}], globals={'verif_limit': limit, 'verif_max': picks, 'verif_deep': deep}, extern_event=True, mem_end=True, stubs={'Free': {'event': False, 'free': True}}, max_steps=60000000, max_paths=400000)

    def forms(self, entry, noun, ctx, w='brodo', place=1):
        ps = self.eng.eval('verif_forms', [{'str': w}, {'str': entry}, {'str': noun}, place, ctx], extern_event=True, mem_end=True, stubs={'Free': {'event': False, 'free': True}})
        return ps


def judge(w, place, ctx, ps, parts):
    """(paths judged, first violation or None)"""
    n = 0
    for p in ps:
        r, d = outcome(p)
        entries = ', '.join('%s:%s' % (k, v) for k, v in d.items() if v) or 'no entries'
        if p['end'] != 'return':
            return n, 'gloss of %s, place %d, as %s: %s with %s' % (w, place, USES[ctx], p['out'] if p['end'] != 'loop' else 'no end', entries)
        try:
            e = expect(w, place, ctx, d, parts)
        except Open:
            continue
        n += 1
        if e != {r}:
            return n, 'gloss of %s, place %d, as %s with %s: %s, specified %s' % (w, place, USES[ctx], entries, r, ' or '.join(sorted(map(str, e))))
    return n, None


def shared(c, X, jobs, one, rule, where='translate.c:adv_translate'):
    local = threading.local()

    def go(j):
        if not hasattr(local, 'x'):
            local.x = X.clone()
        return one(local.x, j)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, jobs))
    for k, bad in res:
        if bad:
            c.violation(rule, where, bad)
    return len(jobs), sum(k for k, b in res)


def survey(c, X, jobs, parts, rule):
    return shared(c, X, jobs, lambda x, j: judge(j[0], j[1], j[2], x.run(*j), parts), rule)


def forms(c, X, jobs, rule):
    def one(x, j):
        entry, noun, ctx = j
        ps = x.forms(entry, noun, ctx)
        want = form(entry, ctx, noun)
        want = noun if noun and ctx == N else '??' if want is None else want
        got = [outcome(p)[0] if p['end'] == 'return' else p['out'] for p in ps]
        return 1, None if got == [want] else 'entry %s%s as %s: %s, specified %s' % (entry, ', noun form ' + noun if noun else '', USES[ctx], ' or '.join(map(str, got)), want)
    return shared(c, X, jobs, one, rule)[1]


def text(x):
    return x[1:-1] if x[:1] == '"' and x[-1:] == '"' else x


def outcome(p):
    """(answer, dictionary the path assumed) or (None, why)"""
    d, res = {}, None
    for e in p['events']:
        if e[0] == 'verif_key':
            d[text(e[2])] = text(e[3])
        elif e[0] == 'verif_missing':
            d[text(e[1])] = None
        elif e[0] == 'verif_result':
            res = text(e[1])
    return res, d


def expect(w, place, ctx, d, parts):
    """the specified answers: a set, one for each way of filling in entries the path did not look at"""
    out = set()
    try:
        return {Spec(d, parts).gloss(w, place, ctx)}
    except Asked as a:
        k = a.args[0]
        for v in (None, 'UNSEEN'):
            out |= expect(w, place, ctx, dict(d, **{k: v}), parts)
    return out
