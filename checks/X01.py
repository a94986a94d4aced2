"""X01: every option does what its help text says, in every combination, and the exit status tells what happened."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from pipeline import *
from lujvo import rendered
from concurrent.futures import ThreadPoolExecutor

OPTIONS = {'insert_elidables': '-ie', 'allow_cultural_rafsi': '-cr', 'show_backtrace': '-bt', 'show_dictionary_defects': '-dd', 'show_elisions_verbose': '-sev', 'yydebug': '-d'}
DRIVERS = ['latex_driver', 'latex_block_driver', 'textout_driver', 'text_block_driver', 'html_driver']

HARNESS = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "nodes.h"
#include "functions.h"
extern TreeNode *top;
extern int program_main(int argc, char **argv);
extern int yydebug, insert_elidables, allow_cultural_rafsi, require_elidables, show_elisions, show_elisions_verbose, show_backtrace, show_dictionary_defects, opt_output_width, had_bad_tokens;
extern DriverVector latex_driver, latex_block_driver, textout_driver, text_block_driver, html_driver;
extern void yyerror(char *);
extern void ev(const char *what, int a); extern void opt(const char *what, int a);
int verif_bad1, verif_bad2, verif_result, verif_serr; static TreeNode verif_top; static int verif_fd, verif_in;
FILE *fopen(const char *name, const char *mode) { ev("open", !strcmp(mode, "r") || !strcmp(mode, "rb") || !strcmp(mode, "rt")); ev(name, 0); if (!strcmp(name, "text") || !strcmp(name, "te-xt")) { return (FILE *) &verif_fd; } return NULL; }
int fclose(FILE *f) { return 0; }
#undef atoi
#undef strtol
#undef atol
long strtol(const char *s, char **e, int base) { long v = 0; int neg = *s == '-'; if (neg || *s == '+') s++; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); if (e) *e = (char *) s; return neg ? -v : v; }
void (*signal(int sig, void (*h)(int)))(int) { return NULL; }
static void options(void) {
  opt("insert_elidables", insert_elidables); opt("allow_cultural_rafsi", allow_cultural_rafsi); opt("show_backtrace", show_backtrace); opt("show_dictionary_defects", show_dictionary_defects);
  opt("show_elisions", show_elisions); opt("show_elisions_verbose", show_elisions_verbose); opt("yydebug", yydebug); opt("width", opt_output_width);
}
void lex2_initialise(void) { ev("initialise", 0); }
void parse_file(FILE *f) { ev("read", f == (FILE *) &verif_fd ? 1 : f == (FILE *) &verif_in ? 0 : 2); opt("allow_cultural_rafsi", allow_cultural_rafsi); if (verif_bad1) had_bad_tokens = 1; }
void preprocess_tokens(void) { ev("preprocess", 0); opt("allow_cultural_rafsi", allow_cultural_rafsi); if (verif_bad2) had_bad_tokens = 1; }
void show_tokens(void) { ev("tokens", 0); }
static int parse(int strict) { ev("parse", strict); options(); if (verif_serr) yyerror("syntax error"); top = verif_result ? NULL : &verif_top; return verif_result; }
int yyparse(void) { return parse(0); }
int full_yyparse(void) { return parse(1); }
#define PASS(F) void F(TreeNode *x) { ev(#F, x == &verif_top); opt("show_dictionary_defects", show_dictionary_defects); }
PASS(expand_bahe_ui) PASS(error_scan) PASS(compress_singletons) PASS(print_parse_tree)
PASS(terms_processing) PASS(do_conversions) PASS(tense_processing) PASS(connectives_processing) PASS(relative_clause_processing) PASS(add_bracketing_tags)
void print_bracketed_text(TreeNode *x, int g) { ev("print_bracketed_text", x == &verif_top); ev("gloss", g != 0); options(); }
void do_output(TreeNode *x, DriverVector *d) {
  ev("do_output", x == &verif_top); options();
  ev(d == &latex_driver ? "latex_driver" : d == &latex_block_driver ? "latex_block_driver" : d == &textout_driver ? "textout_driver" : d == &text_block_driver ? "text_block_driver" : d == &html_driver ? "html_driver" : "unknown driver", 0);
}
void print_memory_statistics(void) { ev("memory", 0); }
int verif_program(char *options) {
  static char *argv[70]; static char buf[1000]; int k = 0; char *p;
  stdin = (FILE *) &verif_in;
  strcpy(buf, options);
  argv[k++] = "jbofihe";
  for (p=buf; *p; ) { argv[k++] = p; while (*p && *p != ' ') p++; if (*p) *p++ = 0; }
  argv[k] = NULL;
  return program_main(k, argv);
}
'''


class Main:
    def __init__(self, tree=None, share=None):
        if share:
            self.__dict__.update(share.__dict__)
        else:
            with open(os.path.join(tree.src, 'verif_main.c'), 'w') as h:
                h.write(HARNESS)
            bcs = [tree.compile(o[:-2] + '.c', (['-Dmain=program_main'] if o == 'main.o' else []) + list(x)) for o, x in tree.objs('jbofihe')]
            raw, self.bc = os.path.join(tree.dir, 'main.raw.bc'), os.path.join(tree.dir, 'main.bc')
            sh(['llvm-link-18', '-o', raw] + bcs + ['--override=' + tree.compile('verif_main.c')])
            sh(['opt-18', '-passes=function(sroa,simplifycfg)', raw, '-o', self.bc])
        self.eng = Engine(self.bc)

    def run(self, argv):
        sym = lambda n, d: {'var': n, 'dom': d, 'w': 32}
        ps = self.eng.eval('verif_program', [{'str': ' '.join(argv)}], extern_event=True, mem_end=True,
                           globals={'verif_bad1': sym('bad1', [0, 1]), 'verif_bad2': sym('bad2', [0, 1]), 'verif_result': sym('result', [0, 1, 2]), 'verif_serr': sym('serr', [0, 1])})
        out = []
        for p in ps:
            m = re.match(r'(?:ret|end=exit)[=:](-?\d+)', p['out'])
            e = [(x[1].strip('"'), int(x[2])) for x in p['events'] if x[0] in ('ev', 'opt')]
            kinds = [x[0] for x in p['events'] if x[0] in ('ev', 'opt')]
            out.append((p.get('vars', {}), int(m.group(1)) if m else p['end'], [x for x, k in zip(e, kinds) if k == 'ev'], placed(e, kinds), rendered({'events': [x for x in p['events'] if x[0] not in ('ev', 'opt')]})))
        return out


def placed(e, kinds):
    """option values seen at each event"""
    r, at = [], None
    for x, k in zip(e, kinds):
        if k == 'ev':
            at = x[0]
        else:
            r.append((at, x[0], x[1]))
    return r


class Want:
    """what the help text and the manual page ask for"""
    def __init__(self, argv):
        self.flags, self.width, self.file, self.quit = set(), 79, None, None
        i = 0
        while i < len(argv):
            a = argv[i]
            if a in ('-h', '-?', '--help', '-v'):
                self.quit = 0
                self.what = a
                return
            if a[:2] == '-w':
                if a == '-w':
                    i += 1
                    if i == len(argv):
                        self.quit, self.what = 1, a
                        return
                    a = '-w' + argv[i]
                self.width = int(a[2:])
            elif a in FLAGS:
                self.flags.add(a)
            elif a[0] == '-':
                self.quit, self.what = 1, a
                return
            else:
                self.file = a
            i += 1
        if '-tf' in self.flags:
            self.flags.add('-t')
        if '-sev' in self.flags:
            self.flags.add('-se')

    def has(self, f):
        return f in self.flags


FLAGS = ['-d', '-k', '-g', '-t', '-tf', '-l', '-x', '-H', '-b', '-m', '-ie', '-re', '-se', '-sev', '-cr', '-bt', '-dd']


def judge(argv, vars, status, ev, opts, text):
    w = Want(argv)
    names = [e[0] for e in ev]
    if w.quit is not None:
        if status != w.quit:
            return 'exit-status', 'status %s, expected %s after %s' % (status, w.quit, w.what)
        if set(names) & {'read', 'parse', 'preprocess'}:
            return 'options', 'the text is processed in spite of %s' % w.what
        said = text['stdout'] + text['stderr']
        if w.quit == 0 and w.what != '-v':
            missing = [f for f in FLAGS + ['-w', '-v', '-h', '-?'] if f != '-g' and not re.search(re.escape(f) + r'(?![a-z])', said)]
            if missing:
                return 'options', 'the help text does not name %s' % ' '.join(missing)
        elif not said.strip():
            return 'options', 'nothing is said for %s' % w.what
        return None
    if w.file and 'open' in names and [n for n in names[names.index('open') + 1:][:1]] != [w.file]:
        return 'input', 'opens %s, expected %s' % (names[names.index('open') + 1:][:1], w.file)
    if w.file and ('open', 1) not in ev:
        return 'input', 'the file is not opened for reading'
    if not w.file and 'open' in names:
        return 'input', 'a file is opened though none is named'
    if w.file not in (None, 'text', 'te-xt'):
        if status != 1 or not text['stderr'].strip():
            return 'exit-status', 'status %s and %s message for a file that can not be opened, expected 1 and a message' % (status, 'a' if text['stderr'].strip() else 'no')
        return ('input', 'goes on though the file can not be opened') if 'read' in names else None
    ev = [e for e in ev if e[0] not in ('open', w.file)]
    names = [e[0] for e in ev]
    if names.count('read') != 1:
        return 'input', 'the text is read %d times' % names.count('read')
    if ('read', 1 if w.file else 0) not in ev:
        return 'input', 'reads from the wrong place'
    if 'preprocess' in names and ('initialise' not in names or names.index('initialise') > names.index('preprocess')):
        return 'display', 'tokens are preprocessed before the tables for it are set up'
    ev = [e for e in ev if e[0] != 'initialise']
    for at, name, v in opts:
        if at == 'gloss':
            at = 'print_bracketed_text'
        want = w.width if name == 'width' else int(w.has('-se') and not w.has('-re')) if name == 'show_elisions' else int(w.has(OPTIONS[name]))
        if name == 'show_elisions_verbose' and w.has('-re'):
            continue
        if name == 'width' and at == 'parse':
            continue
        if (v != want) if name == 'width' else (v != 0) != (want != 0):
            return 'options', '%s is %d at %s, expected %d' % (name, v, at, want)
    want = [('read', 1 if w.file else 0)]

    def rest():
        if vars.get('bad1', [0]) == [1]:
            return 3
        if w.has('-k'):
            want.append(('tokens', 0))
        want.append(('preprocess', 0))
        if vars.get('bad2', [0]) == [1]:
            return 3
        if w.has('-k'):
            want.append(('tokens', 0))
        want.append(('parse', int(w.has('-re'))))
        res, serr = vars.get('result', [0]), vars.get('serr', [0])
        if 0 not in res:
            return 1
        if serr == [1]:
            return 2
        want.extend([('expand_bahe_ui', 1), ('error_scan', 1)])
        if w.has('-t'):
            want.extend(([] if w.has('-tf') else [('compress_singletons', 1)]) + [('print_parse_tree', 1)])
        elif w.flags & {'-l', '-x', '-H'}:
            d = 'latex' if w.has('-l') else 'text' if w.has('-x') else 'html'
            d = 'html_driver' if d == 'html' else d + '_block_driver' if w.has('-b') else {'latex': 'latex_driver', 'text': 'textout_driver'}[d]
            want.extend([(p, 1) for p in PASSES] + [('do_output', 1), (d, 0)])
        else:
            want.extend([('compress_singletons', 1), ('print_bracketed_text', 1), ('gloss', int(w.has('-g')))])
        return 0
    st = rest()
    if status != st:
        return 'exit-status', 'exit status %s, expected %s' % (status, st)
    if st != 3:
        want += [('memory', 0)] if w.has('-m') else []
    else:
        ev = [e for e in ev if e[0] not in ('tokens', 'memory')]
        want = [e for e in want if e[0] != 'tokens']
    order = tuple(e[0] for e in ev if e[0] in PASSES)
    if sorted(order) == sorted(PASSES) and order != tuple(PASSES) and all(e[1] for e in ev if e[0] in PASSES):
        orders.setdefault(order, ' '.join(argv))           # decided by same_with()
        want = [(order[PASSES.index(e[0])], 1) if e[0] in PASSES else e for e in want]
    if ev != want:
        i = next((i for i, (a, b) in enumerate(zip(ev, want)) if a != b), min(len(ev), len(want)))
        say = lambda l: 'nothing more' if i >= len(l) else '%s%s' % (l[i][0], ' %d' % l[i][1] if l[i][0] in ('parse', 'gloss', 'read') else ' of something else' if l[i][0] in PASSES and not l[i][1] else '')
        return 'display', 'step %d is %s, expected %s' % (i + 1, say(ev), say(want))
    return None


orders = {}


def same_with(c, order, argv):
    """whether the passes give the same output in this order, over the grammar family"""
    trees = [Tree(['dfa', 'grammar', 'misc']) for _ in range(2)]
    fam = family(Sentences(Grammar(trees[0], 'rpc2x_act.y', 'rpc_tab.c')), longest=12)[::3]
    shown = lambda p, toks: (sorted((str(r.vars), r.end, r.status, str(r.out)) for r in p.run(toks)), toks)
    a, b = [pmap(Pipeline(t, order=o), fam, shown) for t, o in zip(trees, (PASSES, order))]
    for (x, toks), (y, _) in zip(a, b):
        if x != y:
            c.violation('display', 'main', 'the passes run in an order that changes the output: ' + ', '.join(order), 'jbofihe %s < %s' % (argv, toks))
            return


def run(c):
    tree = Tree(['dfa', 'grammar', 'morf', 'misc'])
    first = Main(tree)
    words = FLAGS + ['-w40', '-w', '-w300', '-v', '-h', '-?', '--help', '-q', '-', '-kx', '-tfx', '-X', '--', '-ser', '-sevx', 'text', 'missing', 'te-xt', '40']
    ok = lambda a: not any(a[i] == '-w' and i + 1 < len(a) and not a[i + 1].isdigit() for i in range(len(a))) and len([x for i, x in enumerate(a) if x[0] != '-' and not (i and a[i - 1] == '-w')]) < 2
    mode = ['-t', '-tf', '-l', '-x', '-H', '-b', '-g', '-k', '-m', '-re', '-se', '-sev', '-ie']
    fam = [()] + [(a,) for a in words] + list(itertools.product(words, repeat=2)) + list(itertools.product(FLAGS if c.tier == 'thorough' else mode, repeat=3)) + [tuple(x) for n in (4, 5) for x in itertools.combinations(mode, n)]
    fam += [tuple(FLAGS + ['-w', '60', 'text']), tuple(['text'] + FLAGS[::-1] + ['-w100'])] + [tuple(x for x in FLAGS if x != f) for f in FLAGS]
    fam = [a for a in dict.fromkeys(fam) if ok(a)]
    engines = [first] + [Main(share=first) for _ in range(7)]
    paths = 0

    def part(k):
        return [(a, engines[k].run(a)) for a in fam[k::8]]
    seen = set()
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(part, range(8)):
            for a, ps in r:
                for p in ps:
                    paths += 1
                    v = judge(a, *p)
                    if v and (v[0], v[1]) not in seen:
                        seen.add((v[0], v[1]))
                        say = ', '.join('%s=%s' % (k, '/'.join(map(str, x))) for k, x in sorted(p[0].items()))
                        c.violation(v[0], 'main', v[1], 'jbofihe %s%s' % (' '.join(a), ' [%s]' % say if say else ''))
    for o in orders:
        same_with(c, o, orders[o])
    c.need('command lines', len(fam), 3000)
    c.need('paths', paths, 20000)
    c.count(command_lines=len(fam), abstract_paths=paths, options=len(FLAGS) + 5)
    c.rule('R1 (options): every option sets exactly what it is documented to set when the reader, parser and displays run; help and version stop at once with status 0, unknown options and missing arguments with status 1 and a message')
    c.rule('R2 (display): a text that parses is shown in exactly the format asked for, after all the passes that format needs, each once and over the whole tree; nothing is shown of a text that does not; -k lists the tokens before and after preprocessing')
    c.rule('R3 (exit-status): 0 for a parse, 1 for no parse or no file, 2 for a parse after errors, 3 for words that can not be read')


if __name__ == '__main__':
    main('X01', run)
