"""Word classification: the function from every letter string to its word class, as a finite-state machine."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from morph import *

CLASSES = ['not a word', 'gismu', 'lujvo', "fu'ivla type 3", "fu'ivla type 3 (short rafsi)", "fu'ivla type 3 (several rafsi)",
           "fu'ivla type 3 (several rafsi, final short)", "fu'ivla type 4", 'cmavo', 'cmene', 'bad capitals']


def name(o):
    m = re.match(r'ret=(-?\d+)', o)
    return CLASSES[int(m.group(1))] if m and 0 <= int(m.group(1)) < len(CLASSES) else o


def vtext(o, ev):
    t = printed(ev)
    t = t.replace('%-25s', '').replace('%s', '')
    parts = [p.strip() for p in t.split(':') if p.strip()]
    return parts[0] if parts else t.strip()


def enum_names(tree):
    """numeric class values are read from the current header, so renumbering the enum is invisible"""
    src = tree.read('morf.h')
    m = re.search(r'typedef\s+enum\s*\{(.*?)\}\s*MorfType', src, re.S)
    if not m:
        raise Broken('anchor vanished: MorfType')
    body = re.sub(r'/\*.*?\*/', '', m.group(1), flags=re.S)
    val, out = 0, {}
    for item in body.split(','):
        item = item.strip()
        if not item:
            continue
        if '=' in item:
            item, v = [x.strip() for x in item.split('=')]
            val = int(v, 0)
        out[val] = item
        val += 1
    return out


def run(c):
    tree = Tree(['dfa', 'grammar', 'morf', 'misc'])
    jb, vl = tree.program('jbofihe'), tree.program('vlatai')
    names = enum_names(tree)

    def cls(o, ev):
        m = re.match(r'ret=(-?\d+)', o)
        return names.get(int(m.group(1)), o) if m else o
    jobs = {
        'classifier': lambda: project(Machine(scan_machine(Engine(jb), FULL, 1)), cls),
        'classifier-strict': lambda: project(Machine(scan_machine(Engine(jb), LOWER, 0)), cls),
        'vlatai': lambda: project(Machine(scan_machine(Engine(vl), LOWER, 1, reread_end=True)), vtext),
    }
    raw = {}
    engine_binary()
    with ThreadPoolExecutor(4) as ex:
        fut = {k: ex.submit(j) for k, j in jobs.items()}
        cur = {k: f.result() for k, f in fut.items()}
    if c.update:
        save_ref('M01.json.gz', {k: m.dump() for k, m in cur.items()})
    ref = {k: Machine(v) for k, v in load_ref('M01.json.gz').items()}
    for k, m in cur.items():
        c.count(**{k + '_states': m.n, k + '_classes': len({s['out'] for s in m.st if 'out' in s})})
        c.need(k + ' states', m.n, 100)
        diffs, pairs = compare(ref[k], m, FULL if k == 'classifier' else LOWER)
        c.count(product_pairs=pairs)
        for w, a, b in diffs:
            c.violation('classification-machine', 'morf_scan (%s)' % k, 'word is classified as %s instead of %s' % (b, a), show(w))
    c.rule('R1: the finite-state machine implemented by morf_scan and everything it calls or looks up (IR fixpoint over all letter strings) is output-equivalent to the confirmed machine, for jbofihe with and without cultural rafsi and for the vlatai build')
    independent(c, cur['classifier-strict'])


# -- independent cross-check of the machine against the published definitions of the simple classes
def independent(c, m):
    import itertools
    vow, cons = 'aeiou', 'bcdfgjklmnprstvxz'
    initial = set('bl br cf ck cl cm cn cp cr ct dj dr dz fl fr gl gr jb jd jg jm jv kl kr ml mr pl pr sf sk sl sm sn sp sr st tc tr ts vl vr xl xr zb zd zg zm zv'.split())
    voiced, unvoiced = set('bdgvjz'), set('ptkfcsx')

    def pair_ok(a, b):
        if a == b or (a in voiced and b in unvoiced) or (a in unvoiced and b in voiced):
            return False
        if a in 'cjsz' and b in 'cjsz':
            return False
        return a + b not in ('cx', 'kx', 'xc', 'xk', 'mz')

    def classify(w):
        q = 0
        for ch in w:
            q, _ = m.step(q, ord(ch))
        return m.out(q)[0]
    n = 0
    for a in cons:
        for v in vow:
            for b in cons:
                for d in cons:
                    for u in vow:
                        w = a + v + b + d + u
                        n += 1
                        want = pair_ok(b, d)
                        got = classify(w) == 'MT_GISMU'
                        if want != got:
                            # a CV prefix falls off (to'sma) when the rest is a word by itself: not so for 5 letters
                            c.violation('gismu-definition', 'morf_scan', 'CVCCV form with %s medial pair is classified %s' % ('a permitted' if want else 'a forbidden', classify(w)), w)
                            return
    for a in cons:
        for b in cons:
            for v in vow:
                for d in cons:
                    for u in vow:
                        w = a + b + v + d + u
                        n += 1
                        if (a + b in initial) != (classify(w) == 'MT_GISMU'):
                            c.violation('gismu-definition', 'morf_scan', 'CCVCV form classified %s' % classify(w), w)
                            return
    for w in [x + y for x in [''] + list(cons) for y in list(vow) + ['ai', 'ei', 'oi', 'au'] + [p + "'" + r for p in vow for r in vow]]:
        n += 1
        if classify(w) != 'MT_CMAVOS':
            c.violation('cmavo-definition', 'morf_scan', 'cmavo form classified %s' % classify(w), w)
            return
    c.count(definition_instances=n)
    c.rule('R2: on the extracted machine every CVCCV/CCVCV form is a gismu exactly when its consonant pair is permitted/initial, and every simple cmavo form is a cmavo')


main('M01', run)
