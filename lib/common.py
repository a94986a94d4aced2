"""Shared machinery: scratch copy of /repo's working tree, generated sources, LLVM IR, engine, reporting."""
import atexit, gzip, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REF = os.path.join(VERIF, 'ref')
T0 = time.time()


class Broken(Exception):
    """The analysis could not be carried out (anchor vanished, unsupported construct): error exit, never a verdict."""


def sh(cmd, cwd=None, env=None, ok=(0,), inp=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, shell=isinstance(cmd, str), timeout=timeout)
    if p.returncode not in ok:
        raise Broken('command failed (%s): %s\n%s' % (p.returncode, cmd, (p.stderr or p.stdout).decode('latin-1')[-2000:]))
    return p.stdout


# ----------------------------------------------------------------------------------- engine binary
def _cc():
    for n in ('llvm-config-18', '/usr/lib/llvm-18/bin/llvm-config'):
        if shutil.which(n):
            return n
    raise Broken('llvm-config not found')


def engine_binary():
    src = os.path.join(VERIF, 'engine', 'absint.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    bdir = os.path.join(VERIF, '.build')
    exe = os.path.join(bdir, 'absint-' + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(bdir, exist_ok=True)
    lc = _cc()
    flags = sh([lc, '--cppflags']).decode().split()
    libdir = sh([lc, '--libdir']).decode().strip()
    tmp = exe + '.tmp%d.%d' % (os.getpid(), threading.get_ident())
    sh(['g++', '-O2', '-std=c++17', '-fno-rtti', '-w'] + flags + [src, '-o', tmp, '-L' + libdir, '-lLLVM-18', '-Wl,-rpath,' + libdir])
    os.rename(tmp, exe)
    return exe


def library():
    """bitcode of the library functions the engine does not model itself"""
    src = os.path.join(VERIF, 'engine', 'libc.c')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    bc = os.path.join(VERIF, '.build', 'libc-%s.bc' % h)
    if not os.path.exists(bc):
        os.makedirs(os.path.dirname(bc), exist_ok=True)
        tmp = bc + '.tmp%d.%d' % (os.getpid(), threading.get_ident())
        sh(['clang', '-O1', '-fno-builtin', '-Xclang', '-disable-llvm-passes', '-g', '-w', '-emit-llvm', '-c', src, '-o', tmp + '.bc'])
        sh(['opt-18', '-passes=function(sroa,simplifycfg)', tmp + '.bc', '-o', tmp])
        os.unlink(tmp + '.bc')
        os.rename(tmp, bc)
    return bc


# ----------------------------------------------------------------------------------- source tree
GROUPS = {  # generated file -> make targets that produce it (serial chains; independent chains run in parallel)
    'dfa': ['dfasyn/dfasyn', 'morf_dfa.c', 'bctables.c', 'stag_dfa.c'],
    'grammar': ['uncom', 'rpc2x_nc.y', 'rpc2x_act.y', 'rpc2x_act.tab.c', 'rpc_tab.c', 'rpc2x_full_nc.y', 'rpc2x_full_act.y', 'rpc_full.c', 'trctabs.c', 'trcftabs.c', 'elitabs.c'],
    'morf': ['morf_lex.c', 'morfvlex.c', 'morf_enc.c'],
    'misc': ['canonluj.inc', 'version.h'],
    'scan': ['cm_scan.c'],
    'dict': ['gismu_cmavo.dict'],
}


class Tree:
    def __init__(self, groups):
        self.dir = tempfile.mkdtemp(prefix='jbo-verif.')
        atexit.register(shutil.rmtree, self.dir, True)
        self.src = os.path.join(self.dir, 'src')
        os.mkdir(self.src)
        env = dict(os.environ, LC_ALL='C')
        env.pop('MAKEFLAGS', None)
        env.pop('CFLAGS', None)
        self.env = env
        out = subprocess.run(['git', '-c', 'safe.directory=*', 'ls-files', '-z', '-co', '--exclude-standard'], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if out.returncode:
            raise Broken('git ls-files failed')
        self.files = []
        for f in out.stdout.decode('latin-1').split('\0'):
            if not f or f.startswith(('tests/', 'testing/', '_build/')):
                continue
            p = os.path.join(REPO, f)
            if os.path.isfile(p):
                self.files.append(f)
                d = os.path.join(self.src, f)
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copy(p, d)
        sh(['perl', 'config.pl', '--prefix=/usr/local'], cwd=self.src, env=env)
        self.mk = self.read('Makefile')
        with ThreadPoolExecutor(6) as ex:
            for r in [ex.submit(self.make, GROUPS[g]) for g in groups]:
                r.result()
        self._bc = {}

    def make(self, targets):
        sh(['make'] + targets, cwd=self.src, env=self.env)

    def read(self, f):
        with open(os.path.join(self.src, f), encoding='latin-1') as h:
            return h.read()

    def var(self, name):
        m = re.search(r'^%s\s*=((?:.*\\\n)*.*)$' % re.escape(name), self.mk, re.M)
        if not m:
            raise Broken('anchor vanished: Makefile variable ' + name)
        return m.group(1).replace('\\\n', ' ').split()

    def cflags(self):
        out = []
        for f in self.var('CFLAGS'):
            if f.startswith(('-O', '-g')):
                continue
            f = f.replace('\\"', '"').replace('$(DICTIONARY)', '/dict')
            out.append(f)
        return out

    def objs(self, program):
        """object list of a program, from the Makefile's own link rules"""
        if program == 'jbofihe':
            return [(o, []) for o in self.var('OBJS2')]
        if program == 'cmafihe':
            return [(o, []) for o in self.var('CM_OBJS')]
        m = re.search(r'^%s\s*:(.*)$' % program, self.mk, re.M)
        if not m:
            raise Broken('anchor vanished: make target ' + program)
        return [(o, ['-DTEST_MORF'] if o == 'vlatai.o' else []) for o in m.group(1).split()]

    def compile(self, cfile, extra=()):
        key = (cfile, tuple(extra))
        if key in self._bc:
            return self._bc[key]
        out = os.path.join(self.dir, '%s-%d.bc' % (cfile.replace('/', '_'), len(self._bc)))
        self._bc[key] = out
        sh(['clang', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-w', '-D__NO_CTYPE', '-emit-llvm'] + self.cflags() + list(extra) + ['-c', cfile, '-o', out], cwd=self.src)
        return out

    def consts(self, exprs, headers=('nodes.h', 'functions.h', 'cmavotab.h', 'rpc2x_act.tab.h')):
        """compile-time constants of the current source (offsetof, enumerators, sizeof), evaluated by clang's front end"""
        src = '#include <stddef.h>\n#include <stdio.h>\n' + ''.join('#include "%s"\n' % h for h in headers)
        keys = list(exprs)
        for i, k in enumerate(keys):
            src += 'long verif_const_%d = (long)(%s);\n' % (i, exprs[k])
        f = os.path.join(self.src, 'verif_consts_%d.c' % len(os.listdir(self.dir)))
        with open(f, 'w') as h:
            h.write(src)
        txt = sh(['clang', '-O0', '-w', '-S', '-emit-llvm'] + self.cflags() + ['-I.', f, '-o', '-'], cwd=self.src).decode()
        os.unlink(f)
        out = {}
        for i, k in enumerate(keys):
            m = re.search(r'@verif_const_%d = .*global i64 (-?\d+|zeroinitializer)' % i, txt)
            if not m:
                raise Broken('anchor vanished: constant ' + k)
            out[k] = int(m.group(1)) if m.group(1) != 'zeroinitializer' else 0
        return out

    def token_names(self, header='rpc2x_act.tab.h'):
        """bison token numbers -> names"""
        out = {}
        for m in re.finditer(r'^\s*([A-Za-z_0-9]+)\s*=\s*(\d+)\s*,?\s*(?:/\*.*)?$', self.read(header), re.M):
            out[int(m.group(2))] = m.group(1)
        if len(out) < 100:
            raise Broken('anchor vanished: token numbers in ' + header)
        return out

    def program(self, name, only=None):
        objs = self.objs(name)
        jobs = []
        for o, extra in objs:
            c = 'morf.c' if o == 'vlatai.o' else o[:-2] + '.c'
            if only is not None and o not in only:
                continue
            jobs.append((c, extra))
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(lambda j: self.compile(*j), jobs))
        raw = os.path.join(self.dir, name + '.raw.bc')
        out = os.path.join(self.dir, name + '.bc')
        sh(['llvm-link-18', '-o', raw] + bcs)
        sh(['opt-18', '-passes=function(sroa,simplifycfg)', raw, '-o', out])
        return out


# ----------------------------------------------------------------------------------- engine client
class Engine:
    def __init__(self, bc):
        self.bc = bc
        self.exe = engine_binary()
        self.p = None
        self.stats = {'requests': 0, 'paths': 0, 'steps': 0}

    def _start(self):
        if self.p is None:
            self.p = subprocess.Popen([self.exe, self.bc, library()], stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, **rq):
        self._start()
        self.p.stdin.write(json.dumps(rq).encode() + b'\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise Broken('engine died on request ' + json.dumps(rq)[:300])
        r = json.loads(line)
        self.stats['requests'] += 1
        self.stats['steps'] += r.get('steps', 0)
        self.stats['paths'] += len(r.get('paths', ()))
        return r

    def req(self, **rq):
        r = self.ask(**rq)
        if 'error' in r:
            raise Broken('engine: %s (request %s %s)' % (r['error'], rq.get('mode', 'eval'), rq.get('fn', rq.get('name', ''))))
        return r

    def eval(self, fn, args, **kw):
        return self.req(mode='eval', fn=fn, args=args, **kw)['paths']

    def automaton(self, fn, args, **kw):
        return self.req(mode='automaton', fn=fn, args=args, **kw)

    def glob(self, name):
        return self.req(mode='global', name=name)['value']

    def info(self):
        if not hasattr(self, '_info'):
            self._info = self.req(mode='info')
        return self._info


# ----------------------------------------------------------------------------------- references
def load_ref(name):
    p = os.path.join(REF, name)
    if name.endswith('.gz'):
        with gzip.open(p, 'rt') as h:
            return json.load(h)
    with open(p) as h:
        return json.load(h)


def save_ref(name, obj):
    p = os.path.join(REF, name)
    data = json.dumps(obj, sort_keys=True, separators=(',', ':') if name.endswith('.gz') else None, indent=None if name.endswith('.gz') else 1)
    if name.endswith('.gz'):
        with open(p, 'wb') as h, gzip.GzipFile(fileobj=h, mode='wb', mtime=0, filename='') as g:
            g.write(data.encode())
    else:
        with open(p, 'w') as h:
            h.write(data + '\n')


# ----------------------------------------------------------------------------------- reporting
class Check:
    def __init__(self, pid, level='other'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv:
            self.tier = 'thorough'
        self.update = '--update-ref' in sys.argv
        self.viol = []
        self.cov = {}
        self.rules = []

    def violation(self, rule, where, detail, witness=None):
        self.viol.append({'rule': rule, 'where': where, 'detail': detail, 'witness': witness})

    def rule(self, text):
        self.rules.append(text)

    def count(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v if isinstance(v, (int, float)) and not isinstance(v, bool) else v

    def need(self, name, have, least):
        if have < least and not self.viol:
            raise Broken('instance count of %s fell to %d (expected at least %d): rule would be vacuous' % (name, have, least))

    def finish(self):
        known = []
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf)) if k.get('status') == 'open' and k['property'] == self.pid]
        fresh = []
        for v in self.viol:
            k = next((k for k in known if k['rule'] == v['rule'] and k['where'] == v['where']), None)
            if k:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
            else:
                fresh.append(v)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(self.cov)
        cov['rules'] = self.rules
        if 'explanation' not in cov:
            cov['explanation'] = 'Static analysis of the current source; rules applied: ' + ' | '.join(self.rules)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': self.level, 'coverage': cov,
              'wall_s': round(time.time() - T0, 2), 'violations': len(fresh)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as h:
            json.dump(ev, h, indent=1)
        print('%s: analysed %s' % (self.pid, json.dumps({k: v for k, v in self.cov.items() if k != 'explanation'})))
        if fresh:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.replay.json')
            with open(rp, 'w') as h:
                json.dump(fresh, h, indent=1)
            for v in fresh[:20]:
                print('  [%s] %s: %s%s' % (v['rule'], v['where'], v['detail'], '' if v['witness'] is None else '  witness: %s' % (v['witness'],)))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            sys.exit(1)
        print('%s: held (%d rules)' % (self.pid, len(self.rules)))
        sys.exit(0)


def main(pid, fn, level='other'):
    c = Check(pid, level)
    try:
        fn(c)
    except Broken as e:
        m = re.search(r'(?:step budget exhausted|recursion too deep) in (\w+)', str(e))
        if m:
            # the budget is orders of magnitude above what any analysed input takes on code that completes
            c.violation('completes', m.group(1), 'does not complete: ' + re.sub(r' \(request.*', '', str(e)))
        if not c.viol:
            print('%s: ANALYSIS-BROKEN %s' % (pid, e))
            sys.exit(3)
        print('%s: analysis stopped: %s' % (pid, e))
    except Exception:
        import traceback
        traceback.print_exc()
        print('%s: ANALYSIS-BROKEN internal error' % pid)
        sys.exit(3)
    c.finish()
