"""The dictionary compiler followed by the dictionary reader, interpreted over source files whose lines are abstract choices."""
import threading
from common import *

HARNESS = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/stat.h>
extern int smuj_main0(int argc, char **argv), smuj_main1(int argc, char **argv), smuj_main2(int argc, char **argv); /* a copy of the program for each run */
extern char *dict_lookup(char *key);
extern void verif_line(int run, int n, const char *s);
extern void verif_entry(const char *key, const char *val);
extern void verif_missing(const char *key);
extern void verif_exit(int status);
static struct verif_file { char name[8]; char data[3000]; int len, pos, there; } verif_fs[4];
char verif_env[] = "dict";
FILE *stdin, *stdout, *stderr;
static struct verif_file *verif_find(const char *n, int make) {
  int i;
  for (i=0;i<4;i++) if (verif_fs[i].there && !strcmp(verif_fs[i].name, n)) return &verif_fs[i];
  if (make) for (i=0;i<4;i++) if (!verif_fs[i].there) { verif_fs[i].there = 1; strcpy(verif_fs[i].name, n); return &verif_fs[i]; }
  return NULL;
}
FILE *fopen(const char *name, const char *mode) {
  struct verif_file *f = verif_find(name, mode[0] == 'w');
  if (!f) return NULL;
  f->pos = 0;
  if (mode[0] == 'w') f->len = 0;
  return (FILE *) f;
}
int fclose(FILE *x) { return 0; }
int fileno(FILE *x) { return (int) ((struct verif_file *) x - verif_fs); }
int fstat(int fd, struct stat *sb) { sb->st_size = verif_fs[fd].len; return 0; }
long ftell(FILE *x) { return ((struct verif_file *) x)->pos; }
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) { return verif_fs[fd].data + off; }
int getc(FILE *x) { struct verif_file *f = (struct verif_file *) x; return f->pos < f->len ? (unsigned char) f->data[f->pos++] : EOF; }
int fgetc(FILE *x) { return getc(x); }
int putc(int c, FILE *x) { struct verif_file *f = (struct verif_file *) x; f->data[f->pos++] = c; f->len = f->pos; return c; }
int fputc(int c, FILE *x) { return putc(c, x); }
size_t fwrite(const void *p, size_t sz, size_t n, FILE *x) { size_t i; if (x == stderr || x == stdout) return n; for (i=0;i<sz*n;i++) putc(((const char *) p)[i], x); return n; }
size_t fread(void *p, size_t sz, size_t n, FILE *x) { size_t i; int c; for (i=0;i<sz*n;i++) { c = getc(x); if (c == EOF) return i / sz; ((char *) p)[i] = c; } return n; }
char *fgets(char *s, int n, FILE *x) { int i, c = 0; for (i=0; i < n-1 && c != '\n'; i++) { c = getc(x); if (c == EOF) break; s[i] = c; } if (!i) return NULL; s[i] = 0; return s; }
int fputs(const char *s, FILE *x) { return 0; }
int fprintf(FILE *x, const char *f, ...) { return 0; }
int printf(const char *f, ...) { return 0; }
void perror(const char *s) { }
char *getenv(const char *n) { return verif_env; }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char **b = base, *t; size_t i, j;                    /* sz is the size of a pointer */
  for (i=1;i<n;i++) for (j=i; j>0 && cmp(&b[j-1], &b[j]) > 0; j--) { t = b[j]; b[j] = b[j-1]; b[j-1] = t; }
}
static const char *verif_lines[] = { "", LINES };
static const char *verif_keys[] = { KEYS };
void verif_dictionary(int *choice, int runs, int files, int per, int newline) {
  int r, i, j, k = 0, v; char *argv[6]; char n[4]; const char *s; struct verif_file *f;
  for (r=0;r<runs;r++) {
    argv[0] = "smujajgau"; argv[1] = "dict";
    for (i=0;i<files;i++) {
      n[0] = 's'; n[1] = '0' + i; n[2] = 0;
      f = (struct verif_file *) fopen(n, "w");
      for (j=0;j<per;j++) {
        v = choice[k];
        s = verif_lines[v];
        if (v) verif_line(r, k, s);
        k++;
        fwrite(s, 1, strlen(s), (FILE *) f);
        if (newline || j + 1 < per) putc('\n', (FILE *) f);
      }
      argv[2+i] = i ? "s1" : "s0";
    }
    argv[2+files] = NULL;
    verif_exit(r == 0 ? smuj_main0(2+files, argv) : r == 1 ? smuj_main1(2+files, argv) : smuj_main2(2+files, argv));
  }
  for (i=0;i<sizeof(verif_keys)/sizeof(verif_keys[0]);i++) { char *x = dict_lookup((char *) verif_keys[i]); if (x) verif_entry(verif_keys[i], x); else verif_missing(verif_keys[i]); }
}
'''


def quoted(xs):
    return ', '.join(json.dumps(x).replace('\\u0000', '') for x in xs)


class Dictionary:
    def __init__(self, tree, lines, keys):
        self.lines, self.keys = [''] + lines, keys
        with open(os.path.join(tree.src, 'verif_smuj.c'), 'w') as h:
            h.write(HARNESS.replace('LINES', quoted(lines)).replace('KEYS', quoted(keys)))
        progs = []
        for i in range(3):
            progs.append(os.path.join(tree.dir, 'smuj%d.bc' % i))
            sh(['opt-18', '-passes=internalize', '-internalize-public-api-list=smuj_main%d' % i, tree.compile('smujajgau.c', ['-Dmain=smuj_main%d' % i]), '-o', progs[-1]])
        bcs = progs + [tree.compile('dictaccs.c'), tree.compile('canonluj.c'), tree.compile('memory.c'), tree.compile('verif_smuj.c')]
        raw, out = os.path.join(tree.dir, 'smuj.raw.bc'), os.path.join(tree.dir, 'smuj.bc')
        sh(['llvm-link-18', '-o', raw] + bcs)
        sh(['opt-18', '-passes=function(sroa,simplifycfg)', raw, '-o', out])
        self.bc = out
        self.eng = Engine(out)

    def clone(self):
        d = object.__new__(Dictionary)
        d.__dict__.update(self.__dict__, eng=Engine(self.bc))
        return d

    def run(self, fixed, free, runs, files, per, newline=1):
        """fixed: line numbers of the first choices; the rest range over the line numbers in free"""
        n = runs * files * per
        cells = [{'off': 4 * i, 'size': 4, 'val': {'int': fixed[i], 'w': 32} if i < len(fixed) else {'var': 'c%d' % i, 'dom': free, 'w': 32}} for i in range(n)]
        return self.eng.eval('verif_dictionary', [{'ref': 'choice'}, runs, files, per, newline], objs=[{'obj': 'choice', 'size': 4 * n, 'init': 'undef', 'cells': cells}], extern_event=True, mem_end=True, stubs={'Free': {'event': False, 'free': True}}, max_steps=100000000, max_paths=400000)
