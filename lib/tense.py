"""The language of simple tense-modals over selma'o, written from the published grammar, as a small NFA/DFA."""


class R:
    """regular expression as an NFA fragment builder"""
    def __init__(self, f):
        self.f = f


def sym(*names):
    def f(n, a, b):
        for x in names:
            n.edge(a, x, b)
    return R(f)


def seq(*rs):
    def f(n, a, b):
        cur = a
        for i, r in enumerate(rs):
            nx = b if i == len(rs) - 1 else n.new()
            r.f(n, cur, nx)
            cur = nx
        if not rs:
            n.edge(a, None, b)
    return R(f)


def alt(*rs):
    def f(n, a, b):
        for r in rs:
            x, y = n.new(), n.new()
            n.edge(a, None, x)
            n.edge(y, None, b)
            r.f(n, x, y)
    return R(f)


def opt(r):
    return alt(r, seq())


def star(r):
    def f(n, a, b):
        x = n.new()
        n.edge(a, None, x)
        n.edge(x, None, b)
        y = n.new()
        r.f(n, x, y)
        n.edge(y, None, x)
    return R(f)


def plus(r):
    return seq(r, star(r))


class NFA:
    def __init__(self, r):
        self.e = []
        self.s, self.t = self.new(), self.new()
        r.f(self, self.s, self.t)

    def new(self):
        self.e.append([])
        return len(self.e) - 1

    def edge(self, a, x, b):
        self.e[a].append((x, b))

    def close(self, qs):
        seen, w = set(qs), list(qs)
        while w:
            for x, b in self.e[w.pop()]:
                if x is None and b not in seen:
                    seen.add(b)
                    w.append(b)
        return frozenset(seen)

    def start(self):
        return self.close([self.s])

    def step(self, q, x):
        return self.close([b for s in q for y, b in self.e[s] if y == x])

    def accepts(self, q):
        return self.t in q


def tense_modal():
    nai, va, ki, nahe = opt(sym('NAI')), opt(sym('VA')), opt(sym('KI')), opt(sym('NAhE'))
    number = seq(sym('PA'), star(sym('PA', 'BY', 'BU', 'LAU', 'FOI', 'TEI')))
    ip = seq(alt(sym('TAhE'), sym('ZAhO'), seq(number, sym('ROI'))), nai)
    zi = sym('ZI')
    off = seq(sym('PU'), nai, opt(zi))
    ival = seq(sym('ZEhA'), opt(seq(sym('PU'), nai)))
    # every part optional, at least one present
    time = alt(seq(zi, star(off), opt(ival), star(ip)), seq(plus(off), opt(ival), star(ip)), seq(ival, star(ip)), plus(ip))
    soff = seq(sym('FAhA'), nai, va)
    dirn = opt(seq(sym('FAhA'), nai))
    vv = alt(seq(sym('VEhA'), opt(sym('VIhA')), dirn), seq(sym('VIhA'), dirn))
    props = plus(seq(sym('FEhE'), ip))
    sint = alt(seq(vv, opt(props)), props)
    mohi = seq(sym('MOhI'), sym('FAhA'), nai, va)
    space = alt(seq(sym('VA'), star(soff), opt(sint), opt(mohi)), seq(plus(soff), opt(sint), opt(mohi)), seq(sint, opt(mohi)), mohi)
    ts = alt(seq(time, opt(space)), seq(space, opt(time)))
    # (a second NAhE before time/space is let through here and refused by the grammar proper)
    return NFA(alt(seq(nahe, opt(sym('SE')), sym('BAI'), nai, ki), seq(nahe, nahe, ts, opt(sym('CAhA')), ki), seq(nahe, sym('CAhA'), ki), sym('KI'), sym('CUhE')))
