"""V01: the word-checking tool shows for each word its class and its division exactly as the classifier finds them."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from common import *
from lujvo import rendered
from concurrent.futures import ThreadPoolExecutor

TOOL = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern int vlatai_main(int argc, char **argv);
static char *verif_in; static int verif_fd;
#undef isspace
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int feof(FILE *f) { return !*verif_in; }
int ferror(FILE *f) { return 0; }
char *fgets(char *b, int n, FILE *f) { char *q = b; if (!*verif_in) return NULL; while (*verif_in && q - b < n - 1) { *q = *verif_in++; if (*q++ == '\n') break; } *q = 0; return b; }
int fgetc(FILE *f) { return *verif_in ? (unsigned char) *verif_in++ : EOF; }
int getc(FILE *f) { return fgetc(f); }
int getchar(void) { return fgetc(stdin); }
int verif_tool(char *options, char *text) {
  static char *argv[20]; static char buf[200]; int k = 0; char *p;
  stdin = (FILE *) &verif_fd;
  strcpy(buf, options); verif_in = text; argv[k++] = "vlatai";
  for (p=buf; *p; ) { argv[k++] = p; while (*p && *p != ' ') p++; if (*p) *p++ = 0; }
  argv[k] = NULL;
  return vlatai_main(k, argv);
}
'''
LIB = r'''
#include <stdio.h>
#include <string.h>
#include "morf.h"
#include "canonluj.h"
int allow_cultural_rafsi;
extern void ev(const char *, int); extern void text(const char *);
int verif_lib(char *w, int cultural) {
  static char *start[100]; char **e = start, **x; struct morf_xtra t; MorfType m;
  allow_cultural_rafsi = cultural;
  memset(&t, 0, sizeof t);
  m = morf_scan(w, &e, &t);
  ev("class", m);
  if (m != MT_CMENE && m != MT_BOGUS) for (x=start; x<=e; x++) ev("start", *x - w);
  if (m == MT_FUIVLA3 || m == MT_FUIVLA3_CVC || m == MT_FUIVLA3X || m == MT_FUIVLA3X_CVC) ev("hyphen", t.u.stage_3.hyph - w);
  if (m == MT_CMENE && t.u.cmene.is_bad) { ev("bad", t.u.cmene.can_split); if (t.u.cmene.can_split) { ev("marker", t.u.cmene.ladoi - w); ev("tail", t.u.cmene.tail - w); } }
  if (m == MT_LUJVO) text(canon_lujvo(*e));
  return 0;
}
'''
CLASSES = {'MT_GISMU': 'gismu', 'MT_LUJVO': 'lujvo', 'MT_FUIVLA3': "fu'ivla (stage-3)", 'MT_FUIVLA3_CVC': "fu'ivla (stage-3 short rafsi)", 'MT_FUIVLA3X': "fu'ivla (multi-stage-3)",
           'MT_FUIVLA3X_CVC': "fu'ivla (multi-stage-3, final short rafsi)", 'MT_FUIVLA4': "fu'ivla (stage-4)", 'MT_CMAVOS': 'cmavo(s)', 'MT_CMENE': 'cmene'}


def build(tree, name, code, files):
    with open(os.path.join(tree.src, name + '.c'), 'w') as h:
        h.write(code)
    raw, bc = os.path.join(tree.dir, name + '.raw.bc'), os.path.join(tree.dir, name + '.bc')
    sh(['llvm-link-18', '-o', raw] + [tree.compile(f, x) for f, x in files] + [tree.compile(name + '.c')])
    sh(['opt-18', '-passes=function(sroa,simplifycfg)', raw, '-o', bc])
    return bc


def words(tier):
    base = {
        'gismu': 'klama bajra citka cmila djuno xamgu gerku prenu zarci sfasa',
        'lujvo': "brivla klagau lojbo bangri'a selmaho zbasu'a cmalu'i tcidu'a bavla'i nunkla selcmi ketykla xekygerku tolmle sampre gerzda zdani'a kargu'e brabloti mlatyzda rokcynanmu ge'urzdani le'avla tsani'a nolraitruli bavlamdei",
        'borrowed': "spageti iglu djarspageti cidjrspageti tricrksfendama tolcidrspageti selcidrspageti mlatymabrspageti le'avlacidrspageti bradjicidjrspageti saskrkuarka kulnrsu'omi gurnrtefi jipcrxena bavmi'ytcidjrspageti selcidjrspageti pircidjrspageti xaskrkiwi tarmrtorni bangrblgaria brodrxavni skamrbasika uenzi skiji ricrceraso tolcidjrspageti cirlrbri djinrnintegrale grutrananase cipnrkakadu valslspa bi'irktexna",
        'cmavo': "lenu ko'a mi'e lo'elo'i by bycydy aby abubu la'edi'u .a",
        'name': "djan laplas stalaplas mecyladjan mirladjan doidjan cedoidjan bridoidjan lu'oladjan la'idjan a,ladjan samyladjan djan,lad lai'ad kolai'r lopadoidjan",
        'bad': "klm tosmabru patyta slinku'i paslinku'i xxx bklama lojbanx a'' kla'ama selxlaxla mytam brivlaq b a,, mlatylatmo'i lekybri"}
    pre = ['', 'le', "lo'e", 'mi', 'lenu', "ko'a", 'by', "mi'ele", 'se', 'i', 'iu', "pa'a", 'bycy', "lo,'i"] if tier != 'thorough' else ['', 'le', "lo'e", 'mi', 'lenu', "ko'a", 'by', "mi'ele", 'se', 'i', 'iu', "pa'a", 'bycy', "lo,'i", 'leloi', "a'ole", 'cumi', 'ie', 'bypaci', 'lerenunenujai']
    out = []
    for k, l in base.items():
        for w in l.split():
            for p in pre:
                x = p + w
                out.append(x)
                v = [i for i, ch in enumerate(x) if ch in 'aeiou']
                if v:
                    i = v[max(0, len(v) - 2)]
                    out.append(x[:i] + x[i].upper() + x[i + 1:])
                    out.append(x[:i] + ',' + x[i:])
                    out.append(x[:i + 1] + ',' + x[i + 1:])
                if len(p) < 3:
                    out.append(x.upper())
                    out.append(x[:1].upper() + x[1:])
    return list(dict.fromkeys(out))


def expected(w, low, cult, plain, k):
    """from what the classifier says: (texts that may stand for the class, division, expansion)"""
    m = low['class'][0]
    name = next((n for n in CLASSES if k[n] == m), None)
    if m == k['MT_BOGUS']:
        return None
    caps = w != w.lower() and name != 'MT_CMENE'
    cl = CLASSES[name]
    if name == 'MT_LUJVO' and plain['class'][0] != m:
        cl = 'lujvo (with cultural rafsi)'
    if 'bad' in low:
        cl = 'bad cmene (breaks up)' if low['bad'][0] else "bad cmene (doesn't break up)"
    if caps:
        cl += ' (contains invalid uppercase)'
    out = []
    for i, ch in enumerate(w):
        t = ''
        if i in low.get('start', [len(w) - len(w.lstrip(','))] if name == 'MT_CMENE' else []):
            t += ' '
        if i in low.get('tail', []) or i and i in low.get('marker', []):
            t += '+'
        out.append(t + ('/%s/' % ch if i in low.get('hyphen', []) else ch))
    return cl, ''.join(out), low.get('text', [None])[0] if cl[:5] == 'lujvo' and 'cultural' not in cl else None


def run(c):
    tree = Tree(['dfa', 'morf', 'misc'])
    tool = build(tree, 'verif_tool', TOOL, [('morf.c', ('-DTEST_MORF', '-Dmain=vlatai_main')), ('morf_dfa.c', ()), ('bccheck.c', ()), ('canonluj.c', ())])
    lib = build(tree, 'verif_lib', LIB, [('morf.c', ()), ('morf_dfa.c', ()), ('bccheck.c', ()), ('canonluj.c', ())])
    k = tree.consts({n: n for n in list(CLASSES) + ['MT_BOGUS', 'MT_BAD_UPPERCASE']}, headers=('morf.h',))
    ws = words(c.tier)

    def one(eng, fn, args):
        ps = eng.eval(fn, args, extern_event=True, mem_end=True)
        if len(ps) != 1:
            raise Broken('%d paths for %s' % (len(ps), args))
        return ps[0]

    def scan(eng, w, cultural):
        p, d = one(eng, 'verif_lib', [{'str': w}, cultural]), {}
        for e in p['events']:
            if e[0] == 'ev':
                d.setdefault(e[1].strip('"'), []).append(int(e[2]))
            elif e[0] == 'text' and e[1] != '0':
                d['text'] = [e[1].strip('"')]
        if 'class' not in d:
            raise Broken('classifier: %s on %s' % (p['out'], w))
        return d

    def show(eng, options, text):
        p = one(eng, 'verif_tool', [{'str': options}, {'str': text}])
        return p['out'], rendered(p)['stdout']
    stats = {'words': 0, 'runs': 0}
    met = set()
    bad = {}

    def check(w, e, line, how):
        m = re.match(r'%s {%d} : (.*?) : (.*)$' % (re.escape(w), max(0, 25 - len(w))), line)
        stats['runs'] += 1
        if e is None:
            if not m or m.group(1) in CLASSES.values() or re.sub(r'[ +/]', '', m.group(2)) != w:
                bad.setdefault('a word of no class', (w, line))
            return
        if not m:
            bad.setdefault('layout of the line', (w, line))
        elif m.group(1) != e[0]:
            bad.setdefault('class "%s"' % e[0], (w, line + ', expected ' + e[0]))
        else:
            want = e[1] + (' [%s]' % e[2] if how == 'el' and e[2] else '')
            if m.group(2) != want and not ('uppercase' in e[0] and re.sub(r' \[[^(\]]*\]$', '', m.group(2)) == e[1]):
                bad.setdefault('division of "%s"%s' % (e[0], ' with -el' if how == 'el' else ''), (w, '%r, expected %r' % (m.group(2), want)))

    def part(i):
        el, et = Engine(lib), Engine(tool)
        for n, w in list(enumerate(ws))[i::8]:
            stats['words'] += 1
            low = scan(el, w.lower(), 1)
            up = scan(el, w, 1)
            plain = scan(el, w.lower(), 0)
            if w != w.lower() and low['class'][0] not in (k['MT_BOGUS'], k['MT_CMENE']) and up['class'][0] != k['MT_BAD_UPPERCASE']:
                bad.setdefault('capitals', (w, 'accepted'))
            e = expected(w, low, 1, plain, k)
            met.add(low['class'][0])
            for opt, text, how in [('-el', w + '\n', 'el'), (w, '', '')] if n % 3 else [('', w + '\n', ''), ('-v', w + '\n', 'v'), ('-el ' + w, '', 'el')]:
                end, out = show(et, opt, text)
                lines = out.split('\n')
                if not end.startswith('ret') or lines[-1] != '' or (how != 'v' and len(lines) != 2):
                    bad.setdefault('output', (w, '%s: %r' % (end, out[-200:])))
                    continue
                check(w, e, re.sub(r'\[EV= *\d+\] ', '', lines[-2]) if how == 'v' else lines[-2], how)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(part, range(8)))
    et, el = Engine(tool), Engine(lib)
    lists = [['klama', '#comment', 'lenu', '', 'djan'], ['klama  ', "mi'e\t", '#', 'spageti \r'], ['klama'] * 3 + ['brivla', 'laplas', 'xxx', 'lebrivla'], ['#only']]
    for l in lists:
        for last in ('\n', ''):
            end, out = show(et, '', '\n'.join(l) + last)
            lines = out.split('\n')[:-1]
            want = [x.strip() for x in l if not x.startswith('#')]
            if not end.startswith('ret') or [x for x in lines if not x.startswith(' ')] and len(lines) != len(want):
                bad.setdefault('list of words', (l, '%s: %d lines, expected %d' % (end, len(lines), len(want))))
                continue
            for w, x in zip(want, lines):
                if w:
                    check(w, expected(w, scan(el, w.lower(), 1), 1, scan(el, w.lower(), 0), k), x, '')
    for what, (w, d) in bad.items():
        c.violation('shown', 'vlatai: ' + what, d, w)
    c.need('words', stats['words'], 4000)
    c.need('classes', len([n for n in CLASSES if k[n] in met]), len(CLASSES))
    c.count(words=stats['words'], lines_compared=stats['runs'])
    c.rule('R1: one line per word with the word, its class, and its pieces divided by blanks at the starts the classifier gives, the hyphen of a borrowed word between strokes, the parts of a bad name divided by +, and with -el the words a compound is made of')


if __name__ == '__main__':
    main('V01', run)
