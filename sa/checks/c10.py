"""Round trip of the policy tree codec."""
from .kit import *

RULE = ('ASTEncoder.decode(ASTEncoder.encode(tree)) is analysed for every node class and operand kind with unknown token '
        'values and positions, raw and base64, alone and nested: the decoded tree has the same node classes, token types, '
        'values and positions (as terms) and children in order, and evaluates to the same decision. An encoder that refuses a '
        'value (raises) is accepted beyond 16-bit positions, lengths and counts and 32-bit integers, a refusal because of node ids is not, one that emits something decoding differently is not.')
BOUNDS = ('trees up to depth 3; chains and nestings of 40 operators; sets of 0, 1, 2 and 300 members; node ids from several ranges, clashing, equal and '
          'unknown; token values are unknown integers, floats and strings')


def int_const(k, v):
    return k.new('IntValNode', k.tok('INT', v, sym('p%d' % k.st.fresh('p'), 'int')))


class G(object):
    """Tree builder with unknown positions."""
    def __init__(self, k, pos=None):
        self.k, self.n, self.pos = k, 0, pos

    def tok(self, t, v=None):
        self.n += 1
        p = sym('pos%d' % self.n, 'int') if self.pos is None else self.pos(self.n)
        return self.k.I.call(self.k.Token, [self.k.member(self.k.TT, t), p, v], {})

    def leaf(self, kind):
        k = self.k
        self.n += 1
        if kind in ('int', 'float', 'str'):
            c = {'int': ('IntValNode', 'INT'), 'float': ('FloatValNode', 'FLOAT'), 'str': ('StringValNode', 'STRING')}[kind]
            return k.new(c[0], self.tok(c[1], sym('%s%d' % (kind, self.n), kind)))
        if kind == 'emptystr':
            return k.new('StringValNode', self.tok('STRING', ''))
        if kind == 'zero':
            return k.new('IntValNode', self.tok('INT', 0))
        if kind == 'fzero':
            return k.new('FloatValNode', self.tok('FLOAT', 0.0))
        if kind == 'null':
            return k.new('NullValNode', self.tok('NULL', 'NULL'))
        if kind in ('TRUE', 'FALSE', 'UNDEF'):
            return k.new('BoolValNode', self.tok('BOOL', kind))
        if kind in CATS:
            tt, nc = CATS[kind]
            return k.new(nc, self.tok(tt, sym('name%d' % self.n, 'str', 'n')))
        raise ValueError(kind)

    def const(self, kind, v):
        c = {'int': ('IntValNode', 'INT'), 'float': ('FloatValNode', 'FLOAT'), 'str': ('StringValNode', 'STRING')}[kind]
        return self.k.new(c[0], self.tok(c[1], v))

    def chain(self, n):
        t = self.leaf('env')
        for i in range(n):
            t = self.bop(('AND', 'OR')[i % 2], t, self.leaf(('TRUE', 'UNDEF', 'FALSE')[i % 3]))
        return t

    def nest(self, n):
        t = self.leaf('UNDEF')
        for i in range(n):
            t = self.not_(t) if i % 2 else self.bop('AND', self.leaf('TRUE'), t)
        return t

    def set_(self, kinds):
        a = self.tok('LSET')
        ns = [self.leaf(q) for q in kinds]
        b = self.tok('RSET')
        return self.k.new('SetNode', a, b, ListO(ns))

    def op(self, o, l, r):
        return self.k.new('OpNode', self.tok('OP', o), l, r)

    def bop(self, o, l, r):
        return self.k.new('BoolOpNode', self.tok('BOOL_OP', o), l, r)

    def not_(self, n):
        return self.k.new('NotNode', self.tok('NOT_OP', 'NOT'), n)


def children(I, n):
    return list(I.iterate(I.call(I.getattr(n, 'children'), [], {})))


def diff(I, a, b, path='root'):
    st = I.st
    if not isinstance(b, Inst):
        return '%s decodes to %s' % (path, show(b))
    if a.cls.qual != b.cls.qual:
        return '%s: node class %s decodes as %s' % (path, a.cls.name, b.cls.name)
    ta, tb = I.getattr(a, 'token'), I.getattr(b, 'token')
    for f in ('type', 'value', 'pos'):
        x, y = I.getattr(ta, f), I.getattr(tb, f)
        if not surely_equal(st, I, x, y):
            return '%s (%s): token %s %s decodes as %s' % (path, a.cls.name, f, show(x), show(y))
    ca, cb = children(I, a), children(I, b)
    if len(ca) != len(cb):
        return '%s (%s): %d children decode as %d' % (path, a.cls.name, len(ca), len(cb))
    for i, (x, y) in enumerate(zip(ca, cb)):
        d = diff(I, x, y, '%s.%d' % (path, i))
        if d:
            return d
    return None


def surely_equal(st, I, x, y):
    x, y = st.norm(x), st.norm(y)
    if ckey(x) == ckey(y):
        return True
    if kind_of(x, st) != kind_of(y, st):
        return False
    if isinstance(x, (T, FDV)) or isinstance(y, (T, FDV)):
        r = I.eq(x, y)
        if isinstance(r, bool):
            return r
        return bool(I.truth(r))
    return False


def renumber(I, node, base):
    """Ids from a number upwards; 'same': all equal; 'clash': the two operands use the same ids; 'any': unknown."""
    todo, i = [node], base if isinstance(base, int) else 0
    if base == 'clash':
        for c in children(I, node):
            renumber(I, c, 0)
        return
    while todo:
        n = todo.pop()
        I.setattr(n, 'id', sym('node id %d' % i, 'int') if base == 'any' else i)
        i += 0 if base == 'same' else 1
        todo += children(I, n)


def ob(name, build, base=None, evaluate=False, must=False, pos=None):
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        E = anchor(I, 'hgpl.ast', 'ASTEncoder')
        g = G(k, pos)
        t = build(g)
        if base is not None:
            renumber(I, t, base)
        b64 = st.choose(2, 'base64 form') == 0
        try:
            enc = I.call(I.getattr(E, 'encode'), [t, b64], {})
        except PyRaise as e:
            if exc_name(e) in ('error', 'struct.error') and not must:
                C.refused = getattr(C, 'refused', 0) + 1
                raise Infeasible()       # the encoder refused the value
            C.expect(False, '%s: encoding raises %s' % (name, exc_name(e)), e.where)
            return
        C.encoded = True
        try:
            d = I.call(I.getattr(E, 'decode'), [enc, b64], {})
        except PyRaise as e:
            C.expect(False, '%s: decoding the encoder\'s output raises %s%s' % (
                name, exc_name(e), show(e.value.attrs.get('args', ''))), e.where)
            return
        site = I.lastret
        r = diff(I, t, d)
        C.expect(r is None, '%s: %s' % (name, r), site, key=(name.split(':')[0], r and r.split(' decodes')[0]))
        if r is None and evaluate:
            tab = k.table()
            try:
                a = k.evaluate(k.interpreter(t), tab)
                b = k.evaluate(k.interpreter(d), tab)
                C.expect(a == b, '%s: the decoded policy evaluates to %s, the original to %s' % (name, b, a), site)
            except PyRaise as e:
                C.expect(False, '%s: evaluating the decoded policy raises %s' % (name, exc_name(e)), e.where)
    return run


def obligations(tier):
    leaves = ('int', 'float', 'str', 'emptystr', 'zero', 'fzero', 'null', 'TRUE', 'FALSE', 'UNDEF') + tuple(sorted(CATS))
    for l in leaves:
        yield 'leaf %s' % l, ob('leaf ' + l, lambda g, l=l: g.leaf(l))
    for o in CMP:
        yield 'operator %s' % o, ob('operator ' + o, lambda g, o=o: g.op(o, g.leaf('int'), g.leaf('user')), evaluate=True)
    for a in leaves[:7]:
        for b in ('int', 'str', 'float', 'object', 'null'):
            yield 'comparison %s, %s' % (a, b), ob('comparison %s,%s' % (a, b),
                                                   lambda g, a=a, b=b: g.op('=', g.leaf(a), g.leaf(b)), evaluate=True)
    for m in ((), ('int',), ('str',), ('null',), ('emptystr',), ('int', 'str'), ('float', 'null'), ('str', 'str', 'zero'),
              ('emptystr', 'fzero', 'int')):
        yield 'set of %s' % (m,), ob('set of %s' % (m,), lambda g, m=m: g.op('IN', g.leaf('str'), g.set_(m)), evaluate=True)
        yield 'left set of %s' % (m,), ob('left set of %s' % (m,), lambda g, m=m: g.op('SUBSET', g.set_(m), g.set_(('int',))),
                                          evaluate=True)
    n = 300
    yield 'set of 300 members', ob('set of 300', lambda g: g.op('IN', g.leaf('zero'), g.set_(['zero'] * n)), must=True, pos=lambda i: i)
    for p in (0, 1, 127, 128, 255, 256, 300, 32767, 32768, 65535):
        yield 'position %d' % p, ob('position %d' % p, lambda g: g.bop('AND', g.op('=', g.leaf('zero'), g.leaf('user')), g.leaf('TRUE')),
                                    must=True, pos=lambda i, p=p: p)
    for v in (0, 1, -1, 127, 128, 255, 256, 32767, 32768, -32769, 65535, 65536, 2 ** 31 - 1, -2 ** 31):
        yield 'integer %d' % v, ob('integer %d' % v, lambda g, v=v: g.op('=', g.const('int', v), g.leaf('user')), must=True, pos=lambda i: i)
    for v in (0.0, 0.1, -2.5, 1e300, -1e-300, 16777217.0, 3.0):
        yield 'float %r' % v, ob('float %r' % v, lambda g, v=v: g.op('=', g.const('float', v), g.leaf('user')), must=True,
                                 pos=lambda i: i)
    for v in ('a', 'NULL', 'true', 'user.x', 'x' * 255, 'x' * 256, 'y' * 65535, '\u00e9\u4e2d', ' lead and trail ', '0', '\x00'):
        what = 'string of %d characters %r' % (len(v), v[:8])
        yield what, ob(what, lambda g, v=v: g.op('=', g.const('str', v), g.leaf('user')), must=True, pos=lambda i: i)
    for depth in (40,):
        yield 'chain of %d' % depth, ob('chain of %d' % depth, lambda g: g.chain(depth), must=True, pos=lambda i: i, evaluate=True)
        yield 'nested %d' % depth, ob('nested %d' % depth, lambda g: g.nest(depth), must=True, pos=lambda i: i, evaluate=True)
    for o in ('AND', 'OR'):
        yield 'boolean %s' % o, ob('boolean ' + o, lambda g, o=o: g.bop(o, g.leaf('TRUE'), g.leaf('UNDEF')), evaluate=True)
        yield 'left-deep %s' % o, ob('left-deep ' + o, lambda g, o=o: g.bop(o, g.bop(o, g.leaf('FALSE'), g.leaf('env')),
                                                                          g.leaf('TRUE')), evaluate=True)
        yield 'right-deep %s' % o, ob('right-deep ' + o, lambda g, o=o: g.bop(
            o, g.leaf('FALSE'), g.bop('AND', g.leaf('connect'), g.not_(g.leaf('TRUE')))), evaluate=True)
    yield 'not', ob('not', lambda g: g.not_(g.leaf('FALSE')), evaluate=True)
    yield 'mixed', ob('mixed', lambda g: g.bop('OR', g.not_(g.bop('AND', g.op('>', g.leaf('int'), g.leaf('float')),
                                                              g.leaf('admin'))),
                                               g.op('SUBSET', g.set_(('str', 'int')), g.leaf('user'))))
    yield 'any node ids', ob('any node ids', lambda g: g.bop('AND', g.leaf('env'), g.not_(g.leaf('TRUE'))), base='any', must=True)
    for base in ('same', 'clash', 65530, 70000):
        what = 'node ids from %d' % base if isinstance(base, int) else base + ' node ids'
        yield what, ob(what, lambda g: g.bop('AND', g.op('=', g.leaf('zero'), g.set_(('str', 'zero'))), g.not_(g.leaf('env'))),
                       base=base, must=True)
    yield 'subtree used twice', ob('subtree used twice', lambda g: (lambda x: g.bop('AND', g.bop('OR', x, g.leaf('env')), x))(
        g.op('=', g.leaf('int'), g.leaf('user'))), evaluate=True)
    for base in (1, 255, 256, 32768, 65000):
        yield 'node ids from %d' % base, ob('node ids from %d' % base, lambda g: g.bop(
            'AND', g.op('=', g.leaf('int'), g.set_(('str', 'int'))), g.not_(g.leaf('env'))), base=base)
