"""The output formats: each driver interpreted over sequences of output calls, its output read back as a reader would see it."""
import html, itertools, threading
from common import *
from lujvo import rendered

DRIVERS = {'text': 'textout_driver', 'text in blocks': 'text_block_driver', 'LaTeX': 'latex_driver', 'LaTeX in blocks': 'latex_block_driver', 'HTML': 'html_driver'}
HARNESS = r'''
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "functions.h"
#include "output.h"
int opt_output_width = 80;
extern DriverVector textout_driver, text_block_driver, latex_driver, latex_block_driver, html_driver;
static int num(char *s) { int v = 0; while (*s) v = v * 10 + (*s++ - '0'); return v; }
void verif_drive(int which, int width, char *script) {
  static DriverVector *all[5] = { &textout_driver, &text_block_driver, &latex_driver, &latex_block_driver, &html_driver };
  DriverVector *d = all[which];
  char *p = script, *a[4]; int i, n;
  opt_output_width = width;
  d->initialise();
  d->prologue();
  while (*p) {
    char op = *p++; n = 0;
    while (*p != '\001') { a[n++] = p; while (*p != '\002') p++; *p++ = 0; }
    p++;
    switch (op) {
      case '(': d->open_bracket((BracketType) (a[0][0] - '0'), num(a[1])); break;
      case ')': d->close_bracket((BracketType) (a[0][0] - '0'), num(a[1])); break;
      case 'e': d->set_eols(a[0][0] - '0'); break;
      case 'l': d->lojban_text(a[0]); break;
      case 't': d->translation(a[0]); break;
      case '[': d->start_tags(); break;
      case ']': d->end_tags(); break;
      case ',': d->start_tag(); break;
      case 'g': d->write_tag_text(a[0], a[1], a[2], a[3][0] == '1'); break;
      case 'p': d->write_partial_tag_text(a[0]); break;
    }
  }
  d->epilogue();
}
'''


class Drivers:
    def __init__(self, tree):
        with open(os.path.join(tree.src, 'verif_drv.c'), 'w') as h:
            h.write(HARNESS)
        files = ['textout.c', 'textblk.c', 'latex.c', 'latexblk.c', 'htmlout.c', 'verif_drv.c']
        raw, self.bc = os.path.join(tree.dir, 'drv.raw.bc'), os.path.join(tree.dir, 'drv.bc')
        sh(['llvm-link-18', '-o', raw] + [tree.compile(f) for f in files])
        sh(['opt-18', '-passes=function(sroa,simplifycfg)', raw, '-o', self.bc])
        self.eng = Engine(self.bc)
        br = ['BR_NONE', 'BR_ROUND', 'BR_SQUARE', 'BR_BRACE', 'BR_ANGLE', 'BR_CEIL', 'BR_FLOOR', 'BR_TRIANGLE']
        v = tree.consts({b: b for b in br}, headers=('nodes.h',))
        self.kind = {b: v[b] for b in br}
        if sorted(v.values()) != list(range(8)):
            raise Broken('bracket kinds are not 0..7')

    def clone(self):
        d = object.__new__(Drivers)
        d.__dict__.update(self.__dict__, eng=Engine(self.bc))
        return d

    def run(self, fmt, seq, width=80):
        s = ''
        for op, *a in seq:
            if op in '()':
                a = [str(self.kind[a[0]]), str(a[1])]
            s += op + ''.join(str(x) + '\x02' for x in a) + '\x01'
        ps = self.eng.eval('verif_drive', [list(DRIVERS).index(fmt), width, {'str': s}], extern_event=True, mem_end=True, max_steps=40000000, max_visits=1000000)
        if len(ps) != 1:
            raise Broken('%d outcomes of an output sequence' % len(ps))
        return ps[0]


# ---- what a reader sees
OPEN = {'BR_NONE': None, 'BR_ROUND': '(', 'BR_SQUARE': '[', 'BR_BRACE': '{', 'BR_ANGLE': '<', 'BR_TRIANGLE': '<<'}
CLOSE = {'BR_NONE': None, 'BR_ROUND': ')', 'BR_SQUARE': ']', 'BR_BRACE': '}', 'BR_ANGLE': '>', 'BR_TRIANGLE': '>>'}
GLYPH = {
    'text': (dict(OPEN, BR_CEIL='^', BR_FLOOR='^'), dict(CLOSE, BR_CEIL='^', BR_FLOOR='^')),
    'HTML': (dict(OPEN, BR_CEIL='(', BR_FLOOR='('), dict(CLOSE, BR_CEIL=')', BR_FLOOR=')')),
    'LaTeX': (dict(OPEN, BR_ANGLE='⟨', BR_CEIL='⌈', BR_FLOOR='⌊', BR_TRIANGLE='◁'), dict(CLOSE, BR_ANGLE='⟩', BR_CEIL='⌉', BR_FLOOR='⌋', BR_TRIANGLE='▷')),
}
SPECIAL = {'$LEFTARROW': {'text': '<-', 'HTML': '<-', 'LaTeX': '←'}, '$OPENQUOTE': {'text': '``', 'HTML': '"', 'LaTeX': '“'}, '$CLOSEQUOTE': {'text': "''", 'HTML': '"', 'LaTeX': '”'}}
MACROS = {'langle': '⟨', 'rangle': '⟩', 'lceil': '⌈', 'rceil': '⌉', 'lfloor': '⌊', 'rfloor': '⌋', 'triangleleft': '◁', 'triangleright': '▷', 'TL': '◁', 'TR': '▷', 'ldots': '...', 'dots': '...', 'textbackslash': '\\', 'textasciitilde': '~', 'textasciicircum': '^', 'textless': '<', 'textgreater': '>', 'textdollar': '$'}
QUIET = set('textit textbf textsl textrm emph mbox hbox small footnotesize scriptsize normalsize large bf it sl rm ISS IS begingroup endgroup ET reflectbox zd par noindent'.split())


def seen_html(t):
    """visible text; None with a reason when the markup is not balanced"""
    out, stack, i = '', [], 0
    t = t[t.index('<BODY>') + 6:] if '<BODY>' in t else t
    t = t[:t.rindex('</BODY>')] if '</BODY>' in t else t
    for m in re.finditer(r'<(/?)([A-Za-z]+)([^<>]*)>|&(?:[a-z]+|#\d+);|[<>&]|[^<>&]+', t):
        x = m.group(0)
        if m.group(2):
            n = m.group(2).upper()
            if n in ('P', 'BR', 'HR'):
                out += '¶' if not out.endswith('¶') else ''
            elif m.group(1):
                if not stack or stack.pop() != n:
                    return None, 'unbalanced </%s>' % n
            else:
                stack.append(n)
        elif x in '<>&':
            return None, 'unescaped %s' % x
        else:
            out += html.unescape(x)
    return (None, 'unclosed <%s>' % stack[-1]) if stack else (out, None)


def seen_latex(t):
    a, b = t.find('\\begin{document}'), t.rfind('\\end{document}')
    if a < 0 or b < 0:
        return None, 'not a document'
    t = t[a + 16:b]
    out, i, depth, math = '', 0, 0, False
    while i < len(t):
        c = t[i]
        if c == '\\':
            m = re.compile(r'\\([A-Za-z]+)( ?)').match(t, i)
            if m:
                n = m.group(1)
                i = m.end()
                if n == 'vspace':
                    i = t.index('}', i) + 1
                elif n == 'BT':
                    i += len('[t]{l}')
                elif n == 'char':
                    j = re.compile(r'\d+').match(t, i)
                    out += '←' if j.group(0) == '233' else '?'
                    i = j.end()
                elif n in MACROS:
                    out += MACROS[n]
                elif n not in QUIET:
                    return None, 'unknown command \\%s' % n
                continue
            n = t[i + 1:i + 2]
            i += 2
            if n == '\\':
                m = re.compile(r'\[[^\]]*\]').match(t, i)
                i = m.end() if m else i
                out += '\n'
            elif n in '/,':
                pass
            elif n == '^':
                m = re.compile(r'\{\}').match(t, i)
                if not m:
                    return None, 'accent command \\^'
                out += '^'
            elif n in '{}%_#&$':
                out += n
            else:
                return None, 'unknown command \\%s' % n
            continue
        if c == '{':
            depth += 1
        elif c == '}':
            depth -= 1
            if depth < 0:
                return None, 'unbalanced }'
        elif c == '$':
            math = not math
        elif c in '<>' and not math:
            return None, 'bare %s' % c
        elif c == '^' and math:
            pass
        elif c in '%&#_^':
            return None, 'bare %s' % c
        elif t[i:i + 2] == '``':
            out += '“'
            i += 1
        elif t[i:i + 2] == "''":
            out += '”'
            i += 1
        elif c == '\n' and t[i:i + 2] == '\n\n':
            out += '¶'
            i += 1
        elif c == '~':
            out += ' '
        else:
            out += c
        i += 1
    return (None, 'unbalanced {') if depth or math else (out, None)


def flow_expected(fmt, seq):
    """pattern the visible text has to match"""
    base = fmt.split(' ')[0]
    op, cl = GLYPH[base]
    if fmt == 'LaTeX in blocks':
        seq = columns(seq)
    blocks = 'blocks' in fmt
    toks, eols = [], 0                                   # (text, soft): soft ones need no space around them
    dangling = False

    def add(t, soft):
        toks.append((t, soft))

    def brk():
        nonlocal eols
        if eols:
            add('¶', True)
        eols = 0
    for o, *a in seq:
        if o == '(':
            if blocks and a[0] == 'BR_NONE':
                continue
            brk()
            if op[a[0]]:
                add(op[a[0]] + ('' if base == 'text' else str(a[1])), True)
        elif o == ')':
            if cl[a[0]]:
                add(cl[a[0]] + ('' if base == 'text' else str(a[1])), True)
        elif o == 'e':
            eols += a[0]
        elif o == 'l':
            if blocks:
                brk()
            add(a[0], False)
        elif o == 't':
            if a[0][:1] == '$':
                add(SPECIAL[a[0]][base], blocks)
            else:
                add('/%s/' % a[0] if base == 'text' else a[0], False)
        elif o == '[':
            if blocks:
                brk()
            add('[', True)
            first = True
        elif o == ',':
            if not first:
                add(',', True)
            first = False
        elif o == 'p':
            add(a[0], True)
        elif o == 'g':
            if a[0] + a[1]:
                add(a[0] + a[1], True)
            add('(%s)' % a[2] if a[3] else a[2], True)
        elif o == ']':
            add(':]', True)
    pat = ''
    for i, (t, soft) in enumerate(toks):
        if i:
            pat += r'\s*' if soft or toks[i - 1][1] else r'\s+'
        pat += r'\s*'.join(re.escape(x) for x in t.split())
    return r'\s*' + pat + r'\s*$', ' '.join(t for t, _ in toks)


def columns(seq):
    """the tags of a word stand below it"""
    out, word, eng, tg, held = [], [], [], [], []

    def flush(force=False):
        if word or eng or force:
            out.extend(word + eng + tg)
            word.clear(), eng.clear(), tg.clear()
    for e in seq:
        if e[0] in '()':
            if e[1] != 'BR_NONE':
                flush()
                out.append(e)
        elif e[0] == 'e':
            held.append(e)
            continue
        elif e[0] == 'l':
            if eng or word and held:
                flush()
            out.extend(held)
            held.clear()
            word.append(e)
        elif e[0] == 't':
            eng.append(e)
        elif e[0] == '[':
            flush()
            tg.append(e)
        else:
            tg.append(e)
        if held and e[0] in '([':
            i = len(out) - 1 if e[0] == '(' and e[1] != 'BR_NONE' else len(out)
            if e[0] == '[' or e[1] != 'BR_NONE':
                out[i:i] = held
                held.clear()
    flush()
    return out


LAYOUT = {'BR_ROUND': '()', 'BR_SQUARE': '[]', 'BR_BRACE': '{}', 'BR_ANGLE': '<>', 'BR_TRIANGLE': ('<<', '>>')}


def block_expected(seq, width):
    """the layout of the block format: a column per word or bracket, wrapped to the width"""
    out, line, block, eols = [], [], None, 0

    def text(b):
        return [b['loj'], b['eng']] + b['tags']

    def flush_line():
        nonlocal line
        if not line:
            return
        n = max(len(text(b)) for b in line)
        rows = [''] * n
        for b in line:
            w = max(len(x) for x in text(b))
            for i in range(n):
                rows[i] += (text(b)[i] if i < len(text(b)) else '').ljust(w)
        out.extend(rows)
        out.append('')
        line = []

    def flush_block():
        nonlocal block
        if block and any(text(block)):
            if line and sum(max(len(x) for x in text(b)) for b in line) + max(len(x) for x in text(block)) > width:
                flush_line()
            line.append(block)
        block = {'loj': '', 'eng': '', 'tags': []}

    def brk():
        nonlocal eols
        if eols:
            flush_line()
            out.append('')
            if eols > 1:
                out.append('-' * 60)
        eols = 0
    flush_block()
    for o, *a in seq:
        if o in '()':
            if a[0] == 'BR_NONE':
                continue
            flush_block()
            if o == '(':
                brk()
            k = 0 if o == '(' else 1
            if a[0] == 'BR_CEIL':
                c = [(' / ', '| ', '| '), ('\\ ', ' | ', ' | ')][k]
            elif a[0] == 'BR_FLOOR':
                c = [('| ', '| ', ' \\ '), (' | ', ' | ', '/ ')][k]
            else:
                c = (LAYOUT[a[0]][k] + ' ',) * 3
            block = {'loj': c[0], 'eng': c[1], 'tags': [c[2], '%d ' % a[1]]}
        elif o == 'e':
            eols += a[0]
        elif o == 'l':
            if block['eng'] or block['loj'] and eols:
                flush_block()
            brk()
            block['loj'] += a[0] + ' '
        elif o == 't':
            block['eng'] += SPECIAL[a[0]]['HTML'] if a[0][:1] == '$' else a[0] + ' '
        elif o == '[':
            if block['loj'] or block['eng']:
                flush_block()
            brk()
        elif o == ',':
            block['tags'].append('')
        elif o == 'p':
            block['tags'][-1] += a[0]
        elif o == 'g':
            block['tags'][-1] += a[0] + a[1] + ' ' + ('(%s) ' if a[3] else '%s ') % a[2]
    flush_block()
    flush_line()
    return [x.rstrip() for x in out]


def base_latex(fmt):
    return fmt.startswith('LaTeX')


def judge(D, fmt, seq, width=80):
    p = D.run(fmt, seq, width)
    if p['end'] != 'return':
        return p['out']
    got = rendered(p)['stdout']
    if fmt == 'text in blocks':
        g = [x.rstrip() for x in got.split('\n')]
        w = block_expected(seq, width)
        while g and not g[-1]:
            g.pop()
        while w and not w[-1]:
            w.pop()
        if g != w:
            i = next((i for i in range(min(len(g), len(w))) if g[i] != w[i]), min(len(g), len(w)))
            return 'line %d is "%s", specified "%s"' % (i + 1, g[i][:200] if i < len(g) else '(none)', w[i][:200] if i < len(w) else '(none)')
        return None
    if fmt == 'text':
        vis, why = got.replace('\n\n', '¶'), None
    elif fmt == 'HTML':
        vis, why = seen_html(got)
    else:
        vis, why = seen_latex(got)
    if vis is None:
        return 'the output is not well formed: %s' % why
    pat, plain = flow_expected(fmt, seq)
    vis = re.sub(r'^\s*¶', '', re.sub(r'(\s*¶\s*)+', ' ¶ ', vis)) if base_latex(fmt) else re.sub(r'(\s*¶\s*)+', ' ¶ ', vis)
    if not re.match(pat, vis):
        return 'shows "%s", specified "%s"' % (' '.join(vis.split())[:300], plain[:300])
    return None
