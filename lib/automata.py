"""Finite-state machines extracted by the engine: alphabets, language comparison, shortest witnesses."""
import re
from collections import deque


class Machine:
    """d: engine automaton result. states are {'t':[..],'e':[..]} or sinks {'out':str}."""

    def __init__(self, d):
        self.sym = d['symclass']
        self.st = d['states']
        self.ev = d['events']
        self.n = len(self.st)

    def out(self, q, mark=0):
        """output if the word ends here"""
        s = self.st[q]
        if 'out' in s:
            return s['out'], None
        c = self.sym[0 + 256 * mark]
        t = s['t'][c]
        if t < 0:
            return None, None
        e = s['e'][c]
        o = self.st[t].get('out')
        return o, (self.ev[e] if e >= 0 else '')

    def step(self, q, a):
        s = self.st[q]
        if 'out' in s:
            return q, None
        c = self.sym[a]
        e = s['e'][c]
        return s['t'][c], (self.ev[e] if e >= 0 else '')

    def dump(self):
        return {'symclass': self.sym, 'states': self.st, 'events': self.ev}


def joint_classes(a, b, alphabet):
    seen = {}
    for x in alphabet:
        k = (a.sym[x], b.sym[x])
        seen.setdefault(k, x)
    return sorted(seen.values())


def live_states(m, dead_out):
    """states from which some word has an output that is not dead_out(out)"""
    rev = {}
    good = set()
    for q, s in enumerate(m.st):
        if 'out' in s:
            if not dead_out(s['out']):
                good.add(q)
        else:
            for t in set(s['t']):
                if t >= 0:
                    rev.setdefault(t, set()).add(q)
    w = list(good)
    while w:
        q = w.pop()
        for p in rev.get(q, ()):
            if p not in good:
                good.add(p)
                w.append(p)
    return good


def compare(ref, cur, alphabet, norm=lambda o: o, events=None, marks=False, dead=None, limit=5):
    """Breadth-first product walk.  norm(out)->comparable output; events(str)->comparable transition output or None to ignore.
    Returns (list of differences with shortest witnesses, pairs visited)."""
    alpha = [a for a in alphabet if a]
    if marks:
        alpha = alpha + [a + 256 for a in alpha]
    reps = joint_classes(ref, cur, alpha)
    lr = live_states(ref, dead) if dead else None
    lc = live_states(cur, dead) if dead else None
    diffs = []
    seen = {(0, 0, 0): None}
    dq = deque([(0, 0, 0)])

    def word(k):
        w = []
        while seen[k] is not None:
            k, a = seen[k]
            w.append(a)
        return w[::-1]
    while dq and len(diffs) < limit:
        k = dq.popleft()
        p, q, mk = k
        for m in ((0, 1) if marks and not mk else (0,)):
            if k == (0, 0, 0):
                break  # empty word excluded
            o1, e1 = ref.out(p, m)
            o2, e2 = cur.out(q, m)
            n1 = norm(o1) if o1 is not None else None
            n2 = norm(o2) if o2 is not None else None
            if n1 != n2:
                diffs.append((word(k) + ([256] if m else []), n1, n2))
            elif events and e1 is not None and e2 is not None and not (dead and dead(o1)) and events(e1) != events(e2):
                diffs.append((word(k) + ([256] if m else []), '%s with %s' % (n1, e1), '%s with %s' % (n2, e2)))
        for a in reps:
            if a >= 256 and mk:
                continue
            p2, e1 = ref.step(p, a)
            q2, e2 = cur.step(q, a)
            if p2 < 0 or q2 < 0:
                if p2 != q2 and not mk:
                    pass
                continue
            if dead and p2 not in lr and q2 not in lc:
                continue
            if events and e1 is not None and e2 is not None and (not dead or (p2 in lr and q2 in lc)) and events(e1) != events(e2):
                diffs.append((word(k) + [a], 'step output ' + e1, 'step output ' + e2))
                if len(diffs) >= limit:
                    break
            n = (p2, q2, 1 if (mk or a >= 256) else 0)
            if n not in seen:
                seen[n] = (k, a)
                dq.append(n)
    return diffs, len(seen)


def show(word):
    s = ''
    for a in word:
        if a >= 256:
            s += '[here]' + (chr(a - 256) if a > 256 else '')
        else:
            s += chr(a)
    return s


def project(m, outmap, evmap=lambda e: ''):
    """Rebuild a machine with mapped outputs/events; text printed on the way into a sink is visible to outmap(out, event)."""
    st, sinks = [], {}
    for s in m.st:
        st.append({'t': list(s['t']), 'e': list(s['e'])} if 't' in s else None)
    evs, evi = [], {}

    def evid(x):
        if not x:
            return -1
        if x not in evi:
            evi[x] = len(evs)
            evs.append(x)
        return evi[x]
    new = [None] * len(st)
    for q, s in enumerate(st):
        if s is None:
            continue
        t2, e2 = [], []
        for t, e in zip(s['t'], s['e']):
            es = m.ev[e] if e >= 0 else ''
            if t >= 0 and 'out' in m.st[t]:
                o = outmap(m.st[t]['out'], es)
                if o not in sinks:
                    sinks[o] = len(new)
                    new.append({'out': o})
                t2.append(sinks[o])
            else:
                t2.append(t)
            e2.append(evid(evmap(es)))
        new[q] = {'t': t2, 'e': e2}
    for q, s in enumerate(new):
        if s is None:
            new[q] = {'out': '(unreachable)'}
    r = Machine({'symclass': m.sym, 'states': new, 'events': evs})
    return minimise(r)


def minimise(m):
    n = m.n
    ncls = max(m.sym) + 1
    cls = []
    ids = {}
    for s in m.st:
        k = ('o', s['out']) if 'out' in s else ('s',)
        cls.append(ids.setdefault(k, len(ids)))
    while True:
        ids2 = {}
        nxt = []
        for q, s in enumerate(m.st):
            if 'out' in s:
                k = (cls[q],)
            else:
                k = (cls[q], tuple(cls[t] if t >= 0 else -1 for t in s['t']), tuple(s['e']))
            nxt.append(ids2.setdefault(k, len(ids2)))
        same = len(ids2) == len(set(cls))
        cls = nxt
        if same:
            break
    rep = {}
    for q in range(n):
        rep.setdefault(cls[q], q)
    order, num = [cls[0]], {cls[0]: 0}
    for c in order:
        s = m.st[rep[c]]
        if 't' in s:
            for t in s['t']:
                if t >= 0 and cls[t] not in num:
                    num[cls[t]] = len(order)
                    order.append(cls[t])
    # merge symbol classes that no longer differ
    st = []
    for c in order:
        s = m.st[rep[c]]
        st.append({'out': s['out']} if 'out' in s else {'t': [num[cls[t]] if t >= 0 else -1 for t in s['t']], 'e': list(s['e'])})
    colid, newc = {}, []
    for a in range(ncls):
        col = tuple((s['t'][a], s['e'][a]) for s in st if 't' in s)
        newc.append(colid.setdefault(col, len(colid)))
    first = {}
    for a, c in enumerate(newc):
        first.setdefault(c, a)
    for s in st:
        if 't' in s:
            s['t'] = [s['t'][first[c]] for c in range(len(first))]
            s['e'] = [s['e'][first[c]] for c in range(len(first))]
    return Machine({'symclass': [newc[c] for c in m.sym], 'states': st, 'events': m.ev})


def printed(ev):
    """text a path prints, from its printf/putc/puts events (arguments shown as <arg>)"""
    out = ''
    for m in re.finditer(r'(printf|fprintf|puts|putchar|putc|fputc|fputs)\(((?:"(?:[^"\\]|\\.)*"|[^();"])*)\);', ev):
        f, a = m.group(1), m.group(2)
        s = re.findall(r'"((?:[^"\\]|\\.)*)"', a)
        if f in ('printf', 'fprintf'):
            out += s[0] if s else '?'
        elif f in ('puts', 'fputs'):
            out += (s[0] if s else '<arg>') + ('\n' if f == 'puts' else '')
        else:
            c = a.split(',')[0]
            out += chr(int(c) & 255) if re.match(r'-?\d+$', c) else '?'
    return out
