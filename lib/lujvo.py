"""The lujvo maker interpreted over tanru whose components are abstract choices."""
import threading
from common import *

HARNESS = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern int jvo_main(int argc, char **argv);
extern void verif_component(const char *s);
extern void verif_text(int err, const char *s);
static char verif_words[N_WORDS][8] = { WORDS };
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *b = base, t[64]; size_t i, j;
  for (i=1;i<n;i++) for (j=i; j>0 && cmp(b + (j-1)*sz, b + j*sz) > 0; j--) { memcpy(t, b + j*sz, sz); memcpy(b + j*sz, b + (j-1)*sz, sz); memcpy(b + (j-1)*sz, t, sz); }
}
void verif_make(int *choice, int n, char *options) {
  char *argv[80]; int i, k = 0; static char opt[8][3]; char *o;
  argv[k++] = "jvocuhadju";
  for (o=options; *o; o++) { opt[k][0] = '-'; opt[k][1] = *o; opt[k][2] = 0; argv[k] = opt[k]; k++; }
  for (i=0;i<n;i++) { argv[k] = verif_words[choice[i]]; verif_component(argv[k]); k++; }
  argv[k] = NULL;
  jvo_main(k, argv);
}
'''


class Maker:
    made = 0

    def __init__(self, tree, words):
        self.words = words
        Maker.made += 1
        src = 'verif_jvo%d.c' % Maker.made
        with open(os.path.join(tree.src, src), 'w') as h:
            h.write(HARNESS.replace('N_WORDS', str(len(words))).replace('{ WORDS }', '{ ' + ', '.join(json.dumps(w) for w in words) + ' }'))
        bcs = [tree.compile('jvocuhadju.c', ['-Dmain=jvo_main']), tree.compile('lujvofns.c'), tree.compile(src)]
        raw, self.bc = os.path.join(tree.dir, src + '.raw.bc'), os.path.join(tree.dir, src + '.bc')
        sh(['llvm-link-18', '-o', raw] + bcs)
        sh(['opt-18', '-passes=function(sroa,simplifycfg)', raw, '-o', self.bc])
        self.eng = Engine(self.bc)

    def clone(self):
        d = object.__new__(Maker)
        d.__dict__.update(self.__dict__, eng=Engine(self.bc))
        return d

    def run(self, doms, options):
        cells = [{'off': 4 * i, 'size': 4, 'val': {'var': 'c%d' % i, 'dom': d, 'w': 32} if len(d) > 1 else {'int': d[0], 'w': 32}} for i, d in enumerate(doms)]
        return self.eng.eval('verif_make', [{'ref': 'choice'}, len(doms), {'str': options}], objs=[{'obj': 'choice', 'size': 4 * len(doms), 'init': 'undef', 'cells': cells}], extern_event=True, mem_end=True, max_steps=100000000, max_paths=400000)


# -- the written specification
VOW, CONS = 'aeiou', 'bcdfgjklmnprstvxz'
INITIAL = set('bl br cf ck cl cm cn cp cr ct dj dr dz fl fr gl gr jb jd jg jm jv kl kr ml mr pl pr sf sk sl sm sn sp sr st tc tr ts vl vr xl xr zb zd zg zm zv'.split())
VOICED, UNVOICED = set('bdgvjz'), set('ptkfcsx')


def shape(r):
    return ''.join('V' if x in VOW else 'C' if x in CONS else x for x in r)


RANK = {'CVCCV': 1, 'CVCC': 2, 'CCVCV': 3, 'CCVC': 4, 'CVC': 5, "CV'V": 6, 'CCV': 7, 'CVV': 8}


def pair_ok(a, b):
    if a == b or (a in VOICED and b in UNVOICED) or (a in UNVOICED and b in VOICED) or (a in 'cjsz' and b in 'cjsz'):
        return False
    return a + b not in ('cx', 'kx', 'xc', 'xk', 'mz')


def rafsi_list(tree):
    """word -> its short rafsi, from the word list the repository ships"""
    d = {}
    for line in tree.read('reduced_gismu').splitlines():
        if line.strip():
            d[line[:5].strip()] = line[6:18].split()
    if len(d) < 1000:
        raise Broken('anchor vanished: reduced_gismu')
    return d


class Morphology:
    """the confirmed word classifier of M01"""

    def __init__(self):
        from automata import Machine
        self.m = Machine(load_ref('M01.json.gz')['classifier-strict'])

    def is_lujvo(self, w):
        q = 0
        for ch in w:
            q, _ = self.m.step(q, ord(ch))
        return self.m.out(q)[0] == 'MT_LUJVO'


class LujvoSpec:
    def __init__(self, short, morph):
        self.short, self.morph = short, morph

    def choices(self, words, long, brod):
        """the rafsi each component may contribute"""
        out = []
        for i, w in enumerate(words):
            last = i + 1 == len(words)
            rs = [r for r in self.short[w] if not last or r[-1] in VOW]
            if (long or not rs) and len(w) == 5:
                if last:
                    rs.append(w)
                elif brod or not w.startswith('brod'):
                    rs.append(w[:4])
            out.append(rs)
        return out

    def join(self, rs):
        """a lujvo with the hyphens it needs, and its score"""
        n = len(rs)
        g = [''] * (n - 1)
        sh_ = [shape(r) for r in rs]
        for i in range(n - 1):
            a, b = rs[i], rs[i + 1]
            if i == 0 and sh_[0] in ('CVV', "CV'V") and (n > 2 or sh_[1] != 'CCV'):
                g[0] = 'n' if b[0] == 'r' else 'r'
            elif sh_[i] in ('CVCC', 'CCVC'):
                g[i] = 'y'
            elif a[-1] in CONS and (not pair_ok(a[-1], b[0]) or a[-1] + b[:2] in ('ndj', 'ndz', 'ntc', 'nts')):
                g[i] = 'y'
        if sh_[0] == 'CVC' and not g[0]:
            rest = rs[0][2] + ''.join(b + (g[i + 1] if i + 1 < n - 1 else '') for i, b in enumerate(rs[1:]))
            if self.morph.is_lujvo(rest):                # the initial CV would fall off
                g[0] = 'y'
        word = ''.join(r + x for r, x in zip(rs, g + ['']))
        L = len(word)
        A = word.count("'")
        H = sum(1 for x in g if x)
        R = sum(RANK[s] for s in sh_)
        V = sum(r.count(v) for r in rs for v in VOW)
        return word, 1000 * L - 500 * A + 100 * H - 10 * R - V

    def all(self, words, long, brod):
        import itertools
        ch = self.choices(words, long, brod)
        if len(words) < 2 or any(not x for x in ch):
            return None
        return sorted(((s, w) for w, s in map(self.join, itertools.product(*ch))), key=lambda x: x[0])


def shown(S, words, options):
    """the lines about rafsi and lujvo that the options leave in the output; None for a refused tanru"""
    want = S.all(words, 'l' in options, 'b' in options)
    out = []
    if 'R' not in options:
        for w, rs in zip(words, S.choices(words, 'l' in options, 'b' in options)):
            out.append(('rafsi', w, tuple(rs)))
    return out, want


def rendered(p):
    """standard output and standard error of a path"""
    out = {'stdout': '', 'stderr': ''}

    def arg(x):
        if x[:1] == '"':
            return x[1:-1]
        if re.match(r'-?\d+$', x):
            return int(x)
        if re.match(r'-?\d+\.\d+$', x):
            return float(x)
        raise Broken('cannot render printed argument %s' % x)

    def fmt(f, args):
        it = iter(args)

        def one(m):
            if m.group(0) == '%%':
                return '%'
            a = arg(next(it))
            if m.group(2) == 'c':
                return chr(a & 255)
            return ('%' + m.group(1) + m.group(2)) % a
        return re.sub(r'%([-0-9.]*)(?:ll|l|h)?([sdciufgxX%])', one, f)
    for e in p['events']:
        n, a = e[0], e[1:]
        to = 'stdout'
        if n == 'fprintf':
            to = 'stderr' if 'stderr' in a[0] else 'stdout'
            a = a[1:]
        if n in ('printf', 'fprintf'):
            out[to] += fmt(arg(a[0]), a[1:])
        elif n == 'puts':
            out[to] += arg(a[0]) + '\n'
        elif n in ('putchar', 'putc', 'fputc'):
            out['stderr' if n != 'putchar' and 'stderr' in a[1] else 'stdout'] += chr(arg(a[0]) & 255)
        elif n == 'fputs':
            out['stderr' if 'stderr' in a[1] else 'stdout'] += arg(a[0])
        elif n == 'fwrite':
            out['stderr' if 'stderr' in a[3] else 'stdout'] += arg(a[0])
    return out
