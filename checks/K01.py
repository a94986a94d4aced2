"""K01: cmafihe glosses every word of a text once, in order, with what the dictionary says of it or of its pieces."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
from lujvo import rendered, rafsi_list, LujvoSpec, Morphology, shape
from concurrent.futures import ThreadPoolExecutor

HARNESS = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern int cm_main_(int argc, char **argv);
extern int verif_known(const char *k); extern void verif_asked(const char *k, int hit);
static char *verif_in; static int verif_fd, verif_all;
static struct { char *k; int v; } asked[4000]; static int n_asked;
/* every dictionary at once: a word that has not been asked for is known or unknown */
char *dict_lookup(char *k) {
  int i; char *r;
  for (i=0; i<n_asked; i++) if (!strcmp(asked[i].k, k)) break;
  if (i == n_asked) {
    asked[i].k = strcpy(malloc(strlen(k) + 1), k);
    if (verif_all == 2) asked[i].v = !(verif_known(k) == 0);
    else if (verif_all < 2) asked[i].v = verif_all;
    else { unsigned h = verif_all; const char *q; for (q=k; *q; q++) h = h * 31 + *q; asked[i].v = (h >> 3) & 1; }
    n_asked++; verif_asked(asked[i].k, asked[i].v);
  }
  if (!asked[i].v) return NULL;
  r = malloc(strlen(k) + 3); r[0] = '{'; strcpy(r + 1, k); strcat(r, "}");
  return r;
}
char *getenv(const char *n) { return NULL; }
int feof(FILE *f) { return !*verif_in; }
int ferror(FILE *f) { return 0; }
void clearerr(FILE *f) { }
int isatty(int f) { return 0; }
int fileno(FILE *f) { return 0; }
int fclose(FILE *f) { return 0; }
FILE *fopen(const char *n, const char *m) { return strcmp(n, "file") ? NULL : (FILE *) &verif_fd; }
size_t fread(void *b, size_t s, size_t n, FILE *f) { size_t i = 0; char *q = b; while (*verif_in && i < n * s) q[i++] = *verif_in++; return i / s; }
int getc(FILE *f) { return *verif_in ? (unsigned char) *verif_in++ : EOF; }
int fgetc(FILE *f) { return getc(f); }
int atoi(const char *s) { int n = 0; while (*s >= '0' && *s <= '9') n = n * 10 + *s++ - '0'; return n; }
long strtol(const char *s, char **e, int b) { return atoi(s); }
int verif_tool(char *options, char *text, int all) {
  static char *argv[20]; static char buf[200]; int k = 0; char *p;
  stdin = (FILE *) &verif_fd; verif_all = all;
  strcpy(buf, options); verif_in = text; argv[k++] = "cmafihe";
  for (p=buf; *p; ) { argv[k++] = p; while (*p && *p != ' ') p++; if (*p) *p++ = 0; }
  argv[k] = NULL;
  return cm_main_(k, argv);
}
'''
CMAVO, BRIVLA, NAME, REMARK, BREAK, OTHER = 'cmavo', 'brivla', 'name', 'remark', 'break', 'other'


SYLLABLE = re.compile(r"[^.aeiouy']?(?:y|[aeiou]+)(?:'(?:y|[aeiou]+))*")


class Gloss:
    """the written specification of what is shown; `known` tells of a key whether the dictionary has it"""

    def __init__(self, known, rafsi):
        self.known, self.rafsi = known, rafsi

    def get(self, k):
        return '{%s}' % k if self.known(k) else None

    def pieces(self, w, mark):
        """the longest known run of whole cmavo, again and again; a cmavo that begins no known run is ?"""
        sy, out = [(m.start(), m.end()) for m in SYLLABLE.finditer(w)], []
        i = 0
        while i < len(sy):
            for j in range(len(sy), i, -1):
                k = w[sy[i][0]:sy[j - 1][1]]
                if self.known(mark + k):
                    out.append('{%s%s}' % (mark, k))
                    i = j
                    break
            else:
                out.append('?')
                i += 1
        return ' '.join(out)

    def cmavo(self, w):
        w = w[1:] if w[0] == '.' else w
        if self.known(w):
            return self.get('+' + w) or '', self.get(w)
        return self.pieces(w, '+'), self.pieces(w, '')

    def compound(self, rs):
        out, conv = [], ''
        for n, r in enumerate(rs):
            last = n + 1 == len(rs)
            if not last and r in ('sel', 'ter', 'vel', 'xel'):
                conv = {'s': '2', 't': '3', 'v': '4', 'x': '5'}[r[0]]
                continue
            k = r if last and len(r) == 5 else '%' + r
            if not conv:
                out.append(self.get(k) or '?')
            elif self.known(k + conv):
                out.append(self.get(k + conv))
            else:
                out.append({'2': '2nd', '3': '3rd', '4': '4th', '5': '5th'}[conv] + ' conv-' + (self.get(k) or '??'))
            conv = ''
        return '-'.join(out)

    def brivla(self, w):
        if self.known(w):
            return self.get(w)
        how = self.rafsi[w]
        return self.compound(how[0]) + ('-[%s]' % how[1] if how[1] else '')

    def rows(self, items):
        """(word, class, gloss) of what is shown, remarks and breaks between"""
        out = []
        for kind, w in items:
            if kind == CMAVO:
                out.append((w,) + self.cmavo(w))
            elif kind == BRIVLA:
                out.append((w, 'BRIVLA', self.brivla(w)))
            elif kind == NAME:
                out.append((w, 'CMENE', ''))
            elif kind == REMARK:
                out.append(('(', w))
            elif kind == BREAK:
                out.append(None)
        return out


def merged(rows):
    """the stretches of a remark joined"""
    out = []
    for r in rows:
        if r and r[0] == '(':
            t = re.sub(r'[][() ]+', ' ', r[1]).strip()
            if out and out[-1] and out[-1][0] == '(':
                out[-1] = ('(', (out[-1][1] + ' ' + t).strip())
            else:
                out.append(('(', t))
        else:
            out.append(r)
    return out


def text_form(out):
    rows, i = [], 0
    if not out.endswith('\n'):
        return None
    out = out[:-1]
    while i < len(out):
        m = re.compile(r'\n|([^\s()<>]+) <([^<>]*)> \[((?:\{[^{}]*\}|[^][{}]|\[[^][]*\])*)\] |\(([^()]*|[()])\) ').match(out, i)
        if not m:
            return None
        rows.append(None if m.group(0) == '\n' else m.group(1, 2, 3) if m.group(1) else ('(', m.group(4)))
        i = m.end()
    return merged(rows)


def latex_form(out):
    m = re.match(r'\\documentclass.*?\\begin\{document\}\n(.*)\\end\{document\}\n\n\n$', out, re.S)
    if not m:
        return None
    out, rows, i = m.group(1), [], 0
    pat = re.compile(r'\n\n|\\begin\{tabular\}\[t\]\{l\}\\textbf\{\\footnotesize ([^\n]*)\}\\\\\n\\textrm\{\\footnotesize ([^\n]*)\}\\\\\n\\textit\{\\footnotesize ([^\n]*)\}\n\\end\{tabular\}\n\\rule\{0in\}\{1\.0\\baselineskip\}|\\textrm\{\\footnotesize ([^{}]*)\}')
    while i < len(out):
        m = pat.match(out, i)
        if not m:
            return None
        rows.append(None if m.group(0) == '\n\n' else m.group(1, 2, 3) if m.group(2) is not None else ('(', m.group(4)))
        i = m.end()
    return merged(rows)


def block_lines(rows, width):
    """the lines of the block form: columns as wide as their longest entry and a blank, as many to a line as fit"""
    out, cols, used = [], [], 0

    def flush():
        nonlocal cols, used
        if cols:
            for k in range(3):
                out.append(''.join(x[k].ljust(max(map(len, x)) + 1) for x in cols))
            out.append('')
        cols, used = [], 0
    for r in rows:
        if r is None:
            flush()
            out.append('')
            continue
        for x in [r] if len(r) == 3 else [('(',) * 3, (r[1], '', ''), (')',) * 3]:
            n = max(map(len, x))
            if n + used + 1 > width:
                flush()
            cols.append(x)
            used += n + 1
    flush()
    return out + ['']


def words(tree, tier):
    """(texts of classed words; how compounds are made up)"""
    rng = random.Random(5)
    short = rafsi_list(tree)
    S = LujvoSpec(short, Morphology())
    made = {}
    for w in ('klama', 'broda', 'gismu', 'sutra', 'tcidu', 'spati', 'cmila'):
        made[w] = ([w], None)
    by = {}
    for g, rs in sorted(short.items()):
        if len(g) == 5:
            for r in rs + [g[:4], g]:
                by.setdefault(shape(r), []).append(r)
    conv = ['sel', 'ter', 'vel', 'xel']
    shapes = ['CVC', 'CCV', 'CVV', "CV'V", 'CVCC', 'CCVC']
    ends = ['CCV', 'CVV', "CV'V", 'CVCCV', 'CCVCV']
    plans = [(a, b) for a in shapes + ['SE'] for b in ends] + [(a, m, b) for a in shapes + ['SE'] for m in shapes + ['SE'] for b in ends if not (a == m == 'SE')]
    if tier == 'thorough':
        plans += [(a, m, n, b) for a in shapes + ['SE'] for m in shapes for n in shapes for b in ends]
    for a in ('CVC', 'CCV', 'CCVC'):                         # r that is no hyphen
        for m in ('CVV', "CV'V"):
            for b in ('CCV', 'CVV', "CV'V", 'CVCCV'):
                for x in [r for r in by[b] if r[0] == 'r'][:2]:
                    rs = [rng.choice([r for r in by[a] if r not in conv]), rng.choice(by[m]), x]
                    if S.morph.is_lujvo(S.join(rs)[0]):
                        made[S.join(rs)[0]] = (rs, None)
    for plan in plans:
        for k in range(2 if len(plan) < 4 else 1):
            rs = [rng.choice(conv) if s == 'SE' else rng.choice([r for r in by[s] if r not in conv]) for s in plan]
            w, _ = S.join(rs)
            if S.morph.is_lujvo(w) and 'y' not in w[:3]:
                made[w] = (rs, None)
    for part, hyphen, rest in [('cidj', 'r', 'spageti'), ('tric', 'r', 'ksfendama'), ('bang', 'r', 'blgaria'), ('sas', 'r', 'kuarka'), ('tol cidj', 'r', 'spageti'), ('sel cidj', 'r', 'kari'), ('mlat cidj', 'r', 'kari'), ("le'a vla cidj", 'r', 'kari'),
                               ('cidj', 'n', 'rokforti'), ('jur', 'n', 'spela'), ('cidj', 'r', 'ta'), ('ter tarm', 'n', 'rosi'), ('jur', 'l', 'nimo'), ('kun', 'l', 'rosi'), ('sel jur', 'l', 'nimo')]:
        part = part.split()
        made[(S.join(part)[0] if len(part) > 1 else part[0]) + hyphen + rest] = (part, rest)
    return made


def run(c):
    tree = Tree(['scan', 'morf', 'misc', 'grammar'])
    with open(os.path.join(tree.src, 'verif_cm.c'), 'w') as h:
        h.write(HARNESS)
    files = [(o[:-2] + '.c', x) for o, x in tree.objs('cmafihe') if o[:-2] not in ('dictaccs',)]
    raw, bc = os.path.join(tree.dir, 'cm.raw.bc'), os.path.join(tree.dir, 'cm.bc')
    sh(['llvm-link-18', '-o', raw] + [tree.compile(f, (['-Dmain=cm_main_'] if f == 'cm_main.c' else []) + list(x)) for f, x in files] + [tree.compile('verif_cm.c')])
    sh(['opt-18', '-passes=function(sroa,simplifycfg)', raw, '-o', bc])
    thorough = c.tier == 'thorough'
    made = words(tree, c.tier)
    cmavo = ["le", "nu", "ko'a", ".i", ".ui", "i", "e", ".a'o", "a'ea", "by", "la'edi'u", "lenu", "seva'u", "bycy", "lo'ei", "le.i", "lenu.ui", "nu.iseni'ibo", ".uinai", ".y", "ji'a", ".i'a.a'a", "ki'eco'o", "rere", "e'e'e", ".ainai", "lenuko'ale"]
    if thorough:
        cmavo += [a + b for a in ("le", "ko'a", ".i", "by") for b in ("nu", ".ui", "cy", "la'e", ".y")] + ["lenuri.uile", "by.icy", "nalenujasera"]
    names = ['djan', 'djan.', '.alis.', 'la,plas', 'meris', '.iTAlian', 'klm'][:5]
    other = ['7', '!', 'qw', 'W', '-', 'hx']
    long_ = [[(CMAVO, "lo'e" * 16), (BRIVLA, 'klama')], [(CMAVO, "le" * 31)], [(CMAVO, "nu" * 40 + '.ui')], [(REMARK, 'x' * 700), (CMAVO, 'le')], [(BRIVLA, 'klama'), (REMARK, 'y z ' * 200), (BRIVLA, 'broda')],
             [(CMAVO, w) for w in ["le", "nu", "ko'a"] * 60], [(CMAVO, "lo'u'a'e'i'o'u" * 12), (NAME, 'djan')], [(NAME, 'djan' * 150)], [(CMAVO, 'le'), (NAME, 'djan' * 200 + '.'), (CMAVO, 'nu')]]
    jobs = []                                               # (items, text, options, dictionary: 0 empty, 1 full, 2 every one, above: one of many)
    for n, w in enumerate(cmavo):
        jobs += [([(CMAVO, w)], w, o, d) for o in ('', '-b', '-l') for d in ([2] if len(SYLLABLE.findall(w)) < 4 and o == '' else range(3, 3 + 40, 1 if o == '' else 8))]
    for n, w in enumerate(made):
        jobs += [([(BRIVLA, w)], w, ('', '-b', '-l')[n % 3], 2)]
    rng = random.Random(11)

    def mix(k):
        items, text = [], ''
        for i in range(k):
            x = rng.random()
            it = (CMAVO, rng.choice(cmavo)) if x < .4 else (BRIVLA, rng.choice(list(made))) if x < .65 else (NAME, rng.choice(names)) if x < .75 else (REMARK, rng.choice(["zo'o", 'a remark 12', 'x', 'see Gerku-1'])) if x < .83 else (BREAK, '') if x < .91 else (OTHER, rng.choice(other))
            if it[0] == OTHER and items and items[-1][0] == BREAK or it[0] == BREAK and (not items or items[-1][0] == BREAK):
                continue
            items.append(it)
            if it[0] == BREAK:
                text = text.rstrip(' \n') + rng.choice(['\n\n', '\n\n\n', '\r\n\r\n', '\n\n\n\n'])
            else:
                wrap = rng.choice(['(%s)', '[%s]', '(%s [more] )']) if it[0] == REMARK else '%s'
                text += wrap % it[1] + rng.choice([' ', '  ', '\n', '\t', ' \n'])
                if 'more' in wrap:
                    items[-1] = (REMARK, it[1] + ' more')
        return items, text
    for n in range(20, 1600 if thorough else 520):
        items, text = mix(rng.choice([2, 4, 9, 15]))
        o = ('', '-b', '-l', '-b -w 20', '-b -w 40', '-b -w 79', '-b -w 1', '-w 30 -b', '-b -w 1000', 'file', '-b file')[n % 11]
        jobs.append((items, text, o, n if n % 4 else n // 4 % 2))
    for items in long_:
        text = ' '.join('(%s)' % w if k == REMARK else w for k, w in items)
        jobs += [(items, text, o, d) for o in ('', '-b', '-b -w 2000', '-l') for d in (0, 1, 7)]
    jobs += [([], '', o, 1) for o in ('', '-b', '-l')]
    jobs += [(None, 'le', o, 1) for o in ('-w', '-b -w', '-l -w', 'nothere', '-b nothere')]
    stats = {'texts': 0, 'dictionaries': 0, 'words': 0}

    def judge(job, p):
        items, text, opts, d = job
        if items is None:
            r = rendered({'events': [e for e in p['events'] if e[0] not in ('verif_asked', 'verif_known')]})
            return None if p['end'] == 'exit' and '0' not in p['out'] and r['stderr'] and not r['stdout'] else 'ends with %s' % p['out']
        if not p['out'].startswith('ret=0'):
            return 'ends with %s' % p['out']
        hits = {e[1][1:-1]: int(e[2]) for e in p['events'] if e[0] == 'verif_asked'}
        missed = []

        def known(k):
            if d < 2:
                return d == 1
            if k not in hits:
                missed.append(k)
                return False
            return hits[k] == 1
        want = Gloss(known, made).rows(items)
        if missed:
            return 'the dictionary is not asked for %s' % ', '.join(missed)
        r = rendered({'events': [e for e in p['events'] if e[0] not in ('verif_asked', 'verif_known')]})
        if '-b' not in opts:
            got = (latex_form if '-l' in opts else text_form)(r['stdout'])
            if got != merged(want):
                return 'shows %r, expected %r' % (r['stdout'][-300:] if got is None else got, merged(want))
        else:
            m = re.search(r'-w (\d+)', opts)
            have, exp = r['stdout'].split('\n')[:-1], block_lines(want, int(m.group(1)) if m else 80)
            if any(k == REMARK for k, w in items):           # the layout of the bracket columns is left open
                def cut(ls):
                    ls = [x for x in ls if x]
                    return [re.sub(r'[][() ]+', ' ', ' '.join(ls[k::3])).split() for k in range(3)]
                if cut(have) != cut(exp):
                    return 'shows %r, expected %r' % ('\n'.join(have)[-300:], '\n'.join(exp)[-300:])
            elif [x.rstrip() for x in have] != [x.rstrip() for x in exp]:
                return 'shows %r, expected %r' % ('\n'.join(have)[-300:], '\n'.join(exp)[-300:])
        fell = re.findall(r'fell through \[(.*)\]', r['stderr'])
        if [w for k, w in items if k == OTHER] != fell:
            return 'reports %s as fallen through, expected %s' % (fell, [w for k, w in items if k == OTHER])
        return None

    def part(i):
        e, out = Engine(bc), []
        for job in jobs[i::8]:
            items, text, opts, d = job
            def paths(d):
                return e.eval('verif_tool', [{'str': opts}, {'str': text}, d], extern_event=True, max_steps=60000000, max_paths=5000, mem_end=True, max_visits=10 ** 9)
            try:
                ps = paths(d)
            except Broken as x:
                if 'path budget' not in str(x):
                    raise
                try:                                         # too many to look at all
                    ps = [p for k in ([d] if d != 2 else range(3, 43)) for p in paths(k)]
                except Broken as y:
                    if 'path budget' not in str(y):
                        raise
                    ps = []
                    out.append((items, text, opts, 'with one dictionary the output depends on undefined memory', d))
            stats['texts'] += 1
            stats['words'] += len(items or ()) * len(ps)
            stats['dictionaries'] += len(ps)
            for p in ps:
                try:
                    b = judge((items, text, opts, d), p)
                except Broken as x:
                    if 'undef' not in str(x):
                        raise
                    b = 'prints an undefined value'
                if b:
                    out.append((items, text, opts, b, sorted(x[1] for x in p['events'] if x[0] == 'verif_asked' and x[2] == '1') ))
                    break
        return out
    with ThreadPoolExecutor(8) as ex:
        bad = [b for r in ex.map(part, range(8)) for b in r]
    seen = set()
    for items, text, opts, b, hits in bad:
        key = (re.sub(r'[^a-z ]', '', b)[:12], opts, items[0][0] if items and len(items) == 1 else '')
        if key in seen:
            continue
        seen.add(key)
        c.violation('shown', 'cmafihe%s' % (' ' + opts if opts else ''), 'text %r: %s' % (text[:120], b[:500]), {'text': text, 'options': opts, 'dictionary': hits})
    c.need('texts', stats['texts'], 900)
    c.need('dictionaries', stats['dictionaries'], 3000)
    c.count(**stats)
    c.rule('R1: a cmavo shows its class and meaning, a cluster the longest known runs of its cmavo or ?, a brivla its meaning or that of its rafsi, a borrowed word that of its classifier and the rest in brackets')
    c.rule('R2: every word, remark and paragraph break of the text appears once and in order in the inline, LaTeX and block forms, block columns aligned within the width')
    c.rule('R4: a missing width or a file that can not be opened is refused with a message')
    c.rule('R3: no interpreted path touches memory out of bounds')


if __name__ == '__main__':
    main('K01', run)
