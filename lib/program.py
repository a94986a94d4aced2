"""The whole of jbofihe, main() included, interpreted over concrete texts and command lines."""
import threading
from common import *
from lujvo import rendered

HARNESS = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
extern int program_main(int argc, char **argv);
static char *verif_stdin, *verif_file; static int verif_fd2, verif_open;
extern FILE *verif_std(void);
FILE *fopen(const char *name, const char *mode) { if (!strcmp(name, "text")) { verif_open = 1; return (FILE *) &verif_fd2; } return NULL; }
int fclose(FILE *f) { verif_open = 0; return 0; }
int fgetc(FILE *f) { char **p = verif_open ? &verif_file : &verif_stdin; if (!**p) return EOF; return (unsigned char) *(*p)++; }
int getc(FILE *f) { return fgetc(f); }
int fileno(FILE *f) { return verif_open ? 7 : 0; }
int isatty(int fd) { return 0; }
char *getenv(const char *n) { return NULL; }
void (*signal(int sig, void (*h)(int)))(int) { return NULL; }
int verif_program(char *in, char *file, char *options) {
  static char *argv[70]; static char buf[1000]; int k = 0; char *p;
  verif_stdin = in; verif_file = file;
  strcpy(buf, options);
  argv[k++] = "jbofihe";
  for (p=buf; *p; ) { argv[k++] = p; while (*p && *p != ' ') p++; if (*p) *p++ = 0; }
  argv[k] = NULL;
  return program_main(k, argv);
}
'''


class Program:
    def __init__(self, tree=None, share=None):
        if share:
            self.__dict__.update(share.__dict__)
            self.eng = Engine(self.bc)
            return
        with open(os.path.join(tree.src, 'verif_program.c'), 'w') as h:
            h.write(HARNESS)
        bcs = [tree.compile(o[:-2] + '.c', (['-Dmain=program_main'] if o == 'main.o' else []) + list(x)) for o, x in tree.objs('jbofihe')] + [tree.compile('verif_program.c')]
        raw, self.bc = os.path.join(tree.dir, 'program.raw.bc'), os.path.join(tree.dir, 'program.bc')
        sh(['llvm-link-18', '-o', raw] + bcs)
        sh(['opt-18', '-passes=function(sroa,simplifycfg)', raw, '-o', self.bc])
        self.eng = Engine(self.bc)

    def clone(self):
        return Program(share=self)

    def run(self, text, options='', file=''):
        ps = self.eng.eval('verif_program', [{'str': text}, {'str': file}, {'str': options}], extern_event=True, mem_end=True, max_steps=200000000, heap_zero=True)
        if len(ps) != 1:
            raise Broken('%d paths on concrete text %r %s' % (len(ps), text[:80], [(p['end'],p.get('conds'),p['events'][-3:]) for p in ps[:3]]))
        p = ps[0]
        m = re.match(r'(?:ret|end=exit)[=:](-?\d+)', p['out'])
        if not m:
            return p['end'], None
        st = int(m.group(1))
        o = rendered(p)
        return st, o
