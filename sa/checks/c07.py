"""The parser against a reference grammar, over all token sequences of bounded length."""
from .kit import *

RULE = ('Parser.parse is analysed on token lists START t1..tn END whose tokens range over the whole token alphabet (finite '
        'domains, split only where the code or the grammar looks). On every path it returns exactly the tree a reference '
        'recursive-descent parser of the policy grammar derives (node classes, token of every node, children in order, set '
        'delimiters), or raises ParserError exactly where the grammar has no derivation; nothing else is raised.')
BOUNDS = ('all token sequences of up to 4 tokens; up to 9 tokens over a reduced alphabet and in sentence patterns; '
          'chains, sets and nestings of 40 (thorough: 120) elements, a set of 300 members')

ATTS5 = ('USR_ATT', 'OBJ_ATT', 'ADM_ATT', 'ENV_ATT', 'CON_ATT')
ATOMS = ('INT', 'FLOAT', 'STRING', 'NULL')
NODE = {'USR_ATT': 'UsrAttNode', 'OBJ_ATT': 'ObjAttNode', 'ADM_ATT': 'AdmAttNode', 'ENV_ATT': 'EnvAttNode',
        'CON_ATT': 'ConAttNode', 'INT': 'IntValNode', 'FLOAT': 'FloatValNode', 'STRING': 'StringValNode',
        'NULL': 'NullValNode', 'BOOL': 'BoolValNode'}
OPS = tuple('OP ' + o for o in CMP)
FULL = ATTS5 + ATOMS + ('BOOL', 'AND', 'OR', 'NOT_OP', 'LSET', 'RSET', 'LPARN', 'RPARN', 'COMMA') + OPS
SMALL = ('USR_ATT', 'INT', 'BOOL', 'OP', 'AND', 'OR', 'NOT_OP', 'LSET', 'RSET', 'LPARN', 'RPARN', 'COMMA')


class Reject(Exception):
    pass


class Ref(object):
    """Reference parser.  kind(i) splits token i only as far as asked."""
    def __init__(self, st, kinds):
        self.st, self.kinds, self.i = st, kinds, 0

    def at(self, *ks):
        """Is the current token one of ks?  (splits the token's domain)"""
        v = self.kinds[self.i]
        if isinstance(v, str):
            return v.split()[0] in ks
        live = self.st.live_of(v.var)
        yes = frozenset(j for j in live if v.vals[j].split()[0] in ks)
        no = live - yes
        if not yes:
            return False
        if not no:
            return True
        r = self.st.choose(2, 'token %d in %s' % (self.i, '/'.join(ks))) == 0
        self.st.live[v.var.name] = yes if r else no
        return r

    def eat(self, *ks):
        if not self.at(*ks):
            raise Reject()
        self.i += 1
        return self.i - 1

    def which(self, i):
        v = self.kinds[i]
        return v if isinstance(v, str) else self.st.split(v)

    def leaf(self, *ks):
        i = self.eat(*ks)
        return (NODE[self.which(i)], i, ())

    def var(self):
        if self.at('LSET'):
            return self.set_()
        return self.leaf(*(ATTS5 + ATOMS))

    def set_(self):
        a = self.eat('LSET')
        ns = []
        if not self.at('RSET'):
            ns.append(self.leaf(*ATOMS))
            while not self.at('RSET'):
                self.eat('COMMA')
                ns.append(self.leaf(*ATOMS))
        b = self.eat('RSET')
        return ('SetNode', (a, b), tuple(ns))

    def exp(self):
        if self.at('NOT_OP'):
            n = self.eat('NOT_OP')
            if self.at('LPARN'):
                self.eat('LPARN')
                s = self.policy()
                self.eat('RPARN')
            else:
                s = self.leaf('BOOL', *ATTS5)
            return ('NotNode', n, (s,))
        if self.at('LPARN'):
            self.eat('LPARN')
            s = self.policy()
            self.eat('RPARN')
            return s
        if self.at('BOOL'):
            return self.leaf('BOOL')
        if self.at('LSET', *ATOMS):
            l = self.var()
            o = self.eat('OP')
            return ('OpNode', o, (l, self.var()))
        l = self.leaf(*ATTS5)
        if self.at('OP'):
            o = self.eat('OP')
            return ('OpNode', o, (l, self.var()))
        return l

    def term(self):
        n = self.exp()
        while self.at('AND'):
            o = self.eat('AND')
            n = ('BoolOpNode', o, (n, self.exp()))
        return n

    def policy(self):
        n = self.term()
        while self.at('OR'):
            o = self.eat('OR')
            n = ('BoolOpNode', o, (n, self.term()))
        return n

    def parse(self):
        n = self.policy()
        if self.i != len(self.kinds) - 1:      # kinds ends with 'END'
            raise Reject()
        return n


def ttype(k):
    return 'BOOL_OP' if k in ('AND', 'OR') else k.split()[0]


def make_tokens(k, kinds):
    """Token objects for a list of kinds (constant or finite domain over kinds)."""
    st = k.st
    toks = []
    for i, kd in enumerate(kinds):
        val = lambda q, i=i: {'AND': 'AND', 'OR': 'OR', 'NOT_OP': 'NOT', 'NULL': 'NULL', 'BOOL': 'TRUE', 'OP': '=',
                              'INT': sym('n%d' % i, 'int'), 'FLOAT': sym('f%d' % i, 'float'),
                              'STRING': sym('s%d' % i, 'str')}.get(q, 'name%d' % i if q in ATTS5 else q[3:] if q[:3] == 'OP ' else None)
        if isinstance(kd, str):
            toks.append(k.I.call(k.Token, [k.member(k.TT, ttype(kd)), 3 * i + 1, val(kd)], {}))
        else:
            ty = FDV(kd.var, [k.member(k.TT, ttype(q)) for q in kd.var.base])
            va = FDV(kd.var, [val(q) for q in kd.var.base])
            toks.append(k.I.call(k.Token, [ty, 3 * i + 1, va], {}))
    return toks


def describe(st, kinds):
    out = []
    for v in kinds:
        if isinstance(v, str):
            out.append(v)
        else:
            l = [v.vals[i] for i in sorted(st.live_of(v.var))]
            out.append(l[0] if len(l) == 1 else '{%s}' % '|'.join(l[:3]) if len(l) <= 3 else '*')
    return ' '.join(out)


def same_tree(I, n, ref, toks, path='root'):
    """None if the abstract tree equals the reference tree, else a description."""
    if not isinstance(n, Inst) or not isinstance(n.cls, ClassV):
        return '%s is not a node' % path
    if n.cls.name != ref[0]:
        return '%s is a %s instead of %s' % (path, n.cls.name, ref[0])
    i = ref[1][0] if isinstance(ref[1], tuple) else ref[1]
    if not same_tok(I, I.getattr(n, 'token'), toks[i]):
        return '%s (%s) does not carry its own token' % (path, ref[0])
    if isinstance(ref[1], tuple):
        if not same_tok(I, I.getattr(n, 'end_token'), toks[ref[1][1]]) or \
           not same_tok(I, I.getattr(n, 'start_token'), toks[i]):
            return '%s (%s) does not carry its delimiter tokens' % (path, ref[0])
    ch = list(I.iterate(I.call(I.getattr(n, 'children'), [], {})))
    if len(ch) != len(ref[2]):
        return '%s (%s) has %d children instead of %d' % (path, ref[0], len(ch), len(ref[2]))
    for j, (c, r) in enumerate(zip(ch, ref[2])):
        d = same_tree(I, c, r, toks, '%s.%d' % (path, j))
        if d:
            return d
    return None


def same_tok(I, a, b):
    if a is b:
        return True
    if not (isinstance(a, Inst) and isinstance(b, Inst)):
        return False
    return all(ckey(I.st.norm(I.getattr(a, x))) == ckey(I.st.norm(I.getattr(b, x))) for x in ('type', 'pos', 'value'))


def ob(spec):
    """spec: list of kinds (a string) or tuples of kinds"""
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        P = anchor(I, 'hgpl.parsing', 'Parser')
        kinds = [s if isinstance(s, str) else st.fd('tok%d' % i, s) for i, s in enumerate(spec)] + ['END']
        toks = make_tokens(k, kinds)
        lst = ListO([I.call(k.Token, [k.member(k.TT, 'START'), 0], {})] + toks)
        try:
            p = I.call(P, [lst, sym('policytext', 'str')], {})
            tree = I.call(I.getattr(p, 'parse'), [], {})
            got, where = 'tree', I.lastret
        except PyRaise as e:
            got, where, tree = exc_name(e), e.where, None
        try:
            ref = Ref(st, kinds).parse()
            want = 'tree'
        except Reject:
            want, ref = 'ParserError', None
        if got != want:
            C.expect(False, 'token sequence [%s]: %s where the grammar says %s' % (
                describe(st, kinds), 'accepted' if got == 'tree' else 'raises ' + got,
                'accepted' if want == 'tree' else 'rejected with ParserError'), where)
            return
        if want == 'tree':
            d = same_tree(I, tree, ref, toks)
            C.expect(d is None, 'token sequence [%s]: %s' % (describe(st, kinds), d), where)
        else:
            C.check()
    return run


def obligations(tier):
    for n in range(0, 4):
        if n < 3:
            yield 'all sequences of %d tokens' % n, ob([FULL] * n), {'max_paths': 60000}
        else:
            for f in FULL:
                yield 'all sequences %s + %d tokens' % (f, n - 1), ob([f] + [FULL] * (n - 1)), {'max_paths': 60000}
    full4 = FULL if tier == 'thorough' else ()
    for f in full4:
        yield 'all sequences %s + 3 tokens' % f, ob([f] + [FULL] * 3), {'max_paths': 200000}
    top = 7 if tier == 'thorough' else 6
    for n in range(4, top + 1):
        for f in SMALL:
            for g in SMALL:
                yield 'sequences %s %s + %d over the reduced alphabet' % (f, g, n - 2), ob([f, g] + [SMALL] * (n - 2)), \
                    {'max_paths': 200000}
    B = ('BOOL', 'USR_ATT')
    J = ('AND', 'OR')
    pats = [
        ['BOOL', J, 'BOOL', J, 'BOOL', J, 'BOOL', J, 'BOOL'],
        ['NOT_OP', 'BOOL', J, 'NOT_OP', B, J, 'BOOL', J, 'NOT_OP', 'BOOL'],
        ['LPARN', 'BOOL', J, 'BOOL', 'RPARN', J, 'LPARN', 'BOOL', J, 'BOOL', 'RPARN'],
        ['NOT_OP', 'LPARN', 'BOOL', J, 'BOOL', 'RPARN', J, 'BOOL', J, 'BOOL'],
        ['BOOL', J, 'NOT_OP', 'LPARN', 'USR_ATT', 'OP', 'INT', J, 'BOOL', 'RPARN', J, 'BOOL'],
        ['USR_ATT', 'OP', 'INT', J, 'STRING', 'OP', 'ENV_ATT', J, 'CON_ATT', 'OP', 'ADM_ATT'],
        ['LSET', ATOMS, 'COMMA', ATOMS, 'COMMA', ATOMS, 'COMMA', ATOMS, 'RSET', 'OP', 'LSET', 'RSET'],
        ['OBJ_ATT', 'OP', 'LSET', ATOMS, ('COMMA', 'RSET', 'OP'), ATOMS, ('COMMA', 'RSET'), ('RSET', 'INT', 'COMMA')],
        ['LSET', ATOMS, 'RSET', 'OP', 'LSET', ATOMS, 'COMMA', ATOMS, 'RSET', J, 'BOOL'],
        ['LPARN', 'LPARN', 'LPARN', B, 'RPARN', 'RPARN', ('RPARN', 'AND'), SMALL],
        ['LPARN', 'BOOL', ('RPARN', 'AND'), FULL, FULL],
        [SMALL, OPS, SMALL, J, SMALL, OPS, SMALL],
        [FULL, OPS, FULL],
        ['USR_ATT', OPS, 'INT', J, FULL, 'OP', 'INT'],
        [FULL, 'OP', FULL, FULL],
        [B, J, FULL, FULL, FULL],
        ['NOT_OP', 'NOT_OP', FULL],
        ['NOT_OP', 'LPARN', FULL, FULL, FULL],
        ['USR_ATT', 'OP', 'USR_ATT', 'OP', FULL],
        ['BOOL', J, 'LPARN', 'BOOL', J, 'LPARN', 'BOOL', J, 'BOOL', 'RPARN', 'RPARN', J, 'BOOL'],
    ]
    for i, p in enumerate(pats):
        yield 'pattern %d' % i, ob(p), {'max_paths': 60000}
    n = 40 if tier == 'quick' else 120
    join = lambda a, s, m: [x for i in range(m) for x in ([s] if i else []) + [a[i % len(a)] if isinstance(a, tuple) else a]]
    cmp_ = ['USR_ATT', 'OP', 'INT']
    last = ('RSET', 'COMMA', 'OP')
    longs = [
        ('set', ['LSET'] + join(ATOMS, 'COMMA', n) + ['RSET', 'OP', 'USR_ATT']),
        ('set of 300', ['OBJ_ATT', 'OP', 'LSET'] + join(ATOMS, 'COMMA', 300) + [last]),
        ('set, missing comma', ['USR_ATT', 'OP', 'LSET'] + join(ATOMS, 'COMMA', n) + [ATOMS, 'RSET']),
        ('set, trailing comma', ['USR_ATT', 'OP', 'LSET'] + join(ATOMS, 'COMMA', n) + ['COMMA', 'RSET']),
        ('conjunction', join('BOOL', 'AND', n) + [J, 'BOOL']),
        ('disjunction', join('BOOL', 'OR', n) + [J, 'BOOL']),
        ('alternation', sum([['BOOL', 'AND', 'BOOL', 'OR'] for _ in range(n)], []) + ['BOOL']),
        ('alternation of comparisons', sum([cmp_ + ['OR'] + cmp_ + ['AND'] for _ in range(n // 2)], []) + ['BOOL', SMALL]),
        ('negations', sum([['NOT_OP', 'BOOL', 'AND'] for _ in range(n)], []) + ['NOT_OP', B]),
        ('parentheses', ['LPARN'] * n + ['BOOL'] + ['RPARN'] * (n - 1) + [('RPARN', 'AND', 'BOOL')]),
        ('parentheses, one too many', ['LPARN'] * n + ['BOOL'] + ['RPARN'] * n + ['RPARN']),
        ('nested negations', ['NOT_OP', 'LPARN'] * n + ['BOOL'] + ['RPARN'] * n),
        ('nested, joined', sum([['LPARN', 'BOOL', 'AND'] for _ in range(n)], []) + ['BOOL'] + ['RPARN'] * n),
        ('nested, joined left', ['LPARN'] * n + ['BOOL'] + sum([['OR', 'BOOL', 'RPARN'] for _ in range(n)], [])),
        ('groups', sum([['LPARN', 'BOOL', 'OR', 'BOOL', 'RPARN', 'AND'] for _ in range(n)], []) + ['BOOL']),
    ]
    for nm, p in longs:
        yield 'long: ' + nm, ob(p)
