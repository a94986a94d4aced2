"""Abstract parse trees handed to the engine: node layout and enumerators come from the current source."""
from common import *

FIELDS = {'next': 'next', 'prev': 'prev', 'parent': 'parent', 'type': 'type', 'ext': 'ext', 'eols': 'eols', 'line': 'start_line', 'col': 'start_column',
          'nch': 'data.nonterm.nchildren', 'num': 'data.nonterm.number', 'brac': 'data.nonterm.brackets', 'nt': 'data.nonterm.type', 'children': 'data.nonterm.children',
          'code': 'data.cmavo.code', 'selmao': 'data.cmavo.selmao', 'bword': 'data.brivla.word', 'btype': 'data.brivla.type', 'cword': 'data.cmene.word'}
KINDS = ['N_NONTERM', 'N_CMAVO', 'N_BRIVLA', 'N_CMENE', 'N_MARKER', 'N_ZEI', 'N_ZOI', 'N_ZO', 'N_LOhU', 'N_BU', 'N_GARBAGE']


class Forest:
    def __init__(self, tree, eng):
        ex = {'size': 'sizeof(TreeNode)'}
        for k, f in FIELDS.items():
            ex['o.' + k] = 'offsetof(TreeNode,%s)' % f
            ex['z.' + k] = 'sizeof(((TreeNode*)0)->%s)' % f
        src = tree.read('nodes.h')
        for n in KINDS:
            if re.search(r'\b%s\b' % n, src):
                ex[n] = n
        self.k = tree.consts(ex)
        self.tree = tree
        self.tok = {v: k for k, v in tree.token_names().items()}
        self.nt = tree.consts({n: n for n in re.findall(r'^\s*([A-Z][A-Z_0-9]*)\s*[,=}\n]', tree.read('nonterm.h'), re.M)}, headers=('nonterm.h',))
        self.table = eng.glob('cmavo_table')
        self.codes = {c[0]['str']: i for i, c in enumerate(self.table) if isinstance(c[0], dict) and c[0].get('str')}
        self.reset()

    def reset(self):
        self.objs, self.pokes, self.n = [], [], 0

    def cell(self, f, val):
        return {'off': self.k['o.' + f], 'size': self.k['z.' + f], 'val': val}

    def node(self, name, cells):
        self.n += 1
        name = name or 'n%d' % self.n
        self.objs.append({'obj': name, 'size': self.k['size'], 'init': 'zero', 'cells': cells})
        return name

    def cmavo(self, words, name=None, var=None):
        """a cmavo token; several words -> an abstract token ranging over them (all of one selma'o)"""
        words = [words] if isinstance(words, str) else words
        codes = [self.codes[w] for w in words]
        sel = {self.table[c][1] for c in codes}
        if len(sel) != 1:
            raise Broken("cmavo of different selma'o in one abstract token")
        val = {'int': codes[0]} if len(codes) == 1 else {'var': var or 'v%d' % (self.n + 1), 'dom': codes}
        return self.node(name, [self.cell('type', {'int': self.k['N_CMAVO']}), self.cell('code', val), self.cell('selmao', {'int': sel.pop()})])

    def brivla(self, word='broda', name=None):
        return self.node(name, [self.cell('type', {'int': self.k['N_BRIVLA']}), self.cell('bword', {'str': word}), self.cell('btype', {'int': 0})])

    def cmene(self, word='djan', name=None):
        return self.node(name, [self.cell('type', {'int': self.k['N_CMENE']}), self.cell('cword', {'str': word})])

    def nonterm(self, typ, kids, name=None):
        me = self.node(name, [self.cell('type', {'int': self.k['N_NONTERM']}), self.cell('nt', {'int': self.nt[typ]}), self.cell('nch', {'int': len(kids)})])
        self.objs.append({'obj': me + '.kids', 'size': 8 * max(1, len(kids)), 'init': 'undef', 'cells': [{'off': 8 * i, 'size': 8, 'val': {'ref': k}} for i, k in enumerate(kids)]})
        self.pokes.append(dict(self.cell('children', {'ref': me + '.kids'}), obj=me))
        for k in kids:
            self.pokes.append(dict(self.cell('parent', {'ref': me}), obj=k))
        return me

    def chain(self, types, leaf):
        for t in reversed(types):
            leaf = self.nonterm(t, [leaf])
        return leaf
