"""Building abstract policies and attribute tables, and the reference semantics of policy evaluation."""
from ..core import *
from ..harness import anchor, exc_name, AnchorError

CMP = ('=', '!=', '<', '>', '<=', '>=', 'IN', 'SUBSET')
CATS = {'user': ('USR_ATT', 'UsrAttNode'), 'object': ('OBJ_ATT', 'ObjAttNode'), 'env': ('ENV_ATT', 'EnvAttNode'),
        'admin': ('ADM_ATT', 'AdmAttNode'), 'connect': ('CON_ATT', 'ConAttNode')}
STYPES = (None, 'INT', 'FLOAT', 'STRING', 'BOOL', 'UNKNOWN', 'SET', 'CUSTOM')
VKINDS = ('none', 'bool', 'int', 'float', 'str', 'set', 'list')
VALID = {('INT', 'int'), ('INT', 'float'), ('FLOAT', 'int'), ('FLOAT', 'float'), ('STRING', 'str'), ('SET', 'set'),
         ('SET', 'list'), ('BOOL', 'bool')}


class Kit(object):
    def __init__(self, I):
        self.I = I
        self.st = I.st
        self.pos = 0
        self.TT = anchor(I, 'hgpl.lexing', 'TokenType')
        self.Token = anchor(I, 'hgpl.lexing', 'Token')
        self.nodes = {}
        self.RES = anchor(I, 'hgpl.ast', 'ASTResult')
        self.ST = anchor(I, 'hgpl.symbols', 'SymbolType')
        self.Symbol = anchor(I, 'hgpl.symbols', 'Symbol')
        self.SymbolTable = anchor(I, 'hgpl.symbols', 'SymbolTable')
        self.Interpreter = anchor(I, 'hgpl.interpreting', 'Interpreter')

    def cls(self, name):
        if name not in self.nodes:
            self.nodes[name] = anchor(self.I, 'hgpl.ast', name)
        return self.nodes[name]

    def member(self, enum, name):
        try:
            return self.I.getattr(enum, name)
        except PyRaise:
            raise AnchorError('enum member %s.%s' % (enum.qual, name))

    def tok(self, ttype, value=None, pos=None):
        if pos is None:
            self.pos += 10
            pos = self.pos
        return self.I.call(self.Token, [self.member(self.TT, ttype)], {'pos': pos, 'value': value})

    def new(self, cls, *args):
        return self.I.call(self.cls(cls), list(args), {})

    # -- operands -------------------------------------------------------------------------------------------------
    def value(self, kind, name):
        if kind in ('int', 'float', 'str'):
            return sym(name, kind)
        if kind == 'null':
            return None
        raise ValueError(kind)

    def const(self, kind, name, members=()):
        """(node, semantics)"""
        if isinstance(kind, tuple):         # ('lit', value)
            v = kind[1]
            if isinstance(v, str):
                return self.new('StringValNode', self.tok('STRING', v)), ('str', v, False)
            c, tt = ('FloatValNode', 'FLOAT') if isinstance(v, float) else ('IntValNode', 'INT')
            return self.new(c, self.tok(tt, v)), ('num', v, False)
        if kind == 'int':
            v = sym(name, 'int')
            return self.new('IntValNode', self.tok('INT', v)), ('num', v, False)
        if kind == 'float':
            v = sym(name, 'float')
            return self.new('FloatValNode', self.tok('FLOAT', v)), ('num', v, False)
        if kind == 'str':
            v = sym(name, 'str')
            return self.new('StringValNode', self.tok('STRING', v)), ('str', v, False)
        if kind == 'null':
            return self.new('NullValNode', self.tok('NULL', 'NULL')), ('null', None, False)
        if kind == 'set':
            s = self.tok('LSET')
            ns, sems = [], []
            for i, k in enumerate(members):
                n, sm = self.const(k, '%s_%d' % (name, i))
                ns.append(n)
                sems.append(sm)
            e = self.tok('RSET')
            return self.new('SetNode', s, e, ListO(ns)), ('set', [x[:2] for x in sems], False)
        raise ValueError(kind)

    def attval(self, kind, name, members=('int', 'int'), boolv=True):
        """A value supplied for an attribute: (value, semantics)."""
        if kind == 'none':
            return None, None
        if kind == 'bool':
            return boolv, ('bool', boolv, True)
        if kind in ('int', 'float'):
            v = sym(name, kind)
            return v, ('num', v, True)
        if kind == 'str':
            v = sym(name, 'str')
            return v, ('str', v, True)
        vals, sems = [], []
        for i, k in enumerate(members):
            if isinstance(k, tuple):        # ('lit', value)
                v = k[1]
                k = 'str' if isinstance(v, str) else 'int'
            else:
                v = sym('%s_%d' % (name, i), k)
            vals.append(v)
            sems.append(('num' if k in ('int', 'float') else 'str', v))
        if kind == 'list':
            return ListO(vals), ('set', sems, True)
        if kind == 'set':
            return self.I.make_set(vals), ('set', sems, True)
        raise ValueError(kind)

    def att(self, cat, name):
        tt, nc = CATS[cat]
        return self.new(nc, self.tok(tt, name))

    def table(self):
        return self.I.call(self.SymbolTable, [], {})

    def define(self, table, cat, name, stype, value):
        s = self.I.call(self.Symbol, [name, self.member(self.TT, CATS[cat][0]),
                                      None if stype is None else self.member(self.ST, stype), value], {})
        self.I.call(self.I.getattr(table, 'define'), [s], {})
        return s

    def boolc(self, name):
        return self.new('BoolValNode', self.tok('BOOL', name))

    def op(self, o, l, r):
        return self.new('OpNode', self.tok('OP', o), l, r)

    def boolop(self, o, l, r):
        return self.new('BoolOpNode', self.tok('BOOL_OP', o), l, r)

    def not_(self, n):
        return self.new('NotNode', self.tok('NOT_OP', 'NOT'), n)

    def interpreter(self, node):
        return self.I.call(self.Interpreter, [node], {})

    def evaluate(self, interp, table, level=Ellipsis):
        kw = {} if level is Ellipsis else {'min_warn_level': level}
        r = self.I.call(self.I.getattr(interp, 'evaluate'), [] if table is Ellipsis else [table], kw)
        return self.result(r)

    def result(self, r):
        r = self.st.split(r)
        if isinstance(r, EnumV) and r.cls.qual == self.RES.qual:
            return r.name
        return 'not a result: ' + show(r)

    # -- reference semantics --------------------------------------------------------------------------------------
    def t(self, b):
        return 'TRUE' if b else 'FALSE'

    def same(self, a, b):
        """Equality of two member/scalar semantics (kind, value)."""
        if a[0] != b[0]:
            return False
        if a[0] == 'null':
            return True
        return bool(self.I.truth(self.I.eq(a[1], b[1])))

    def member_of(self, x, s):
        return any([self.same(x, y) for y in s])

    def subset(self, a, b):
        return all([self.member_of(x, b) for x in a])

    def expected(self, op, a, b):
        """a, b: None for an undefined operand, else (kind, value, is attribute)."""
        if a is None or b is None:
            return 'UNDEF'
        ka, kb = a[0], b[0]
        if 'bool' in (ka, kb):
            return 'UNDEF'
        sa = a[1] if ka == 'set' else None
        sb = b[1] if kb == 'set' else None
        if op in ('=', '!='):
            if sa is None and sb is None:
                if ka != kb:
                    return 'UNDEF'
                r = self.same(a, b)
            else:
                if sa is None:
                    if not a[2]:
                        return 'UNDEF'
                    sa = [a[:2]]
                if sb is None:
                    if not b[2]:
                        return 'UNDEF'
                    sb = [b[:2]]
                r = self.subset(sa, sb) and self.subset(sb, sa)
            return self.t(r if op == '=' else not r)
        if op in ('<', '>', '<=', '>='):
            if ka != 'num' or kb != 'num':
                return 'UNDEF'
            x, y = a[1], b[1]
            if op in ('>', '<='):
                r = bool(self.I.truth(self.I.lt(y, x)))
                return self.t(r if op == '>' else not r)
            r = bool(self.I.truth(self.I.lt(x, y)))
            return self.t(r if op == '<' else not r)
        # next to a set or an attribute, a single-valued attribute stands for its singleton set
        asset_b = sb if sb is not None else ([b[:2]] if b[2] and (sa is not None or a[2]) else None)
        if op == 'IN':
            if asset_b is None:
                return 'UNDEF'
            if sa is not None:
                return self.t(any([self.member_of(x, sa) for x in asset_b]))
            return self.t(self.member_of(a[:2], asset_b))
        asset_a = sa if sa is not None else ([a[:2]] if a[2] and (sb is not None or b[2]) else None)
        if asset_a is None or asset_b is None:
            return 'UNDEF'
        return self.t(self.subset(asset_a, asset_b))


K_AND = lambda a, b: 'FALSE' if 'FALSE' in (a, b) else 'UNDEF' if 'UNDEF' in (a, b) else 'TRUE'
K_OR = lambda a, b: 'TRUE' if 'TRUE' in (a, b) else 'UNDEF' if 'UNDEF' in (a, b) else 'FALSE'
K_NOT = {'TRUE': 'FALSE', 'FALSE': 'TRUE', 'UNDEF': 'UNDEF'}

# operands used in comparisons: constants and valid attributes
CONSTS = [('c', 'int', ()), ('c', 'float', ()), ('c', 'str', ()), ('c', 'null', ())] + [
    ('c', 'set', m) for m in ((), ('int',), ('str',), ('null',), ('int', 'int'), ('int', 'str'), ('float', 'null'),
                              ('str', 'str'))]
ATTS = [('a', 'INT', 'int', ()), ('a', 'FLOAT', 'float', ()), ('a', 'FLOAT', 'int', ()), ('a', 'INT', 'float', ()),
        ('a', 'STRING', 'str', ()), ('a', 'BOOL', 'bool', ())] + [
    ('a', 'SET', k, m) for k in ('set', 'list') for m in ((), ('int',), ('str',), ('int', 'int'), ('int', 'str'))]
BADATTS = [('x', 'absent')] + [('x', t, v) for t in STYPES for v in VKINDS if (t, v) not in VALID]


def oname(o):
    if o[0] == 'c':
        return o[1] if o[1] != 'set' else '{%s}' % ','.join(o[2])
    if o[0] == 'a':
        return 'att:%s=%s%s' % (o[1], o[2], '(%s)' % ','.join(o[3]) if o[3] or o[1] == 'SET' else '')
    if o[1] == 'absent':
        return 'att:absent'
    return 'att:%s=%s' % (o[1], o[2])


def operand(k, o, side, table, boolv=True):
    """(node, semantics) of an operand description, defining its attribute in the table."""
    if o[0] == 'c':
        return k.const(o[1], 'c' + side, o[2])
    cat, name = ('user', 'at' + side) if side == 'L' else ('object', 'at' + side)
    n = k.att(cat, name)
    if o[0] == 'x':
        if o[1] != 'absent':
            v, _ = k.attval(o[2], 'v' + side)
            k.define(table, cat, name, o[1], v)
        return n, None
    v, sem = k.attval(o[2], 'v' + side, o[3], boolv)
    k.define(table, cat, name, o[1], v)
    return n, sem
