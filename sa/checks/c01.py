"""Kleene logic of results and of AND/OR/NOT in policies."""
import itertools

from .kit import *

RULE = ('(1) &, |, tri_and, tri_or, tri_not and truth of ASTResult are tabulated by the analyser for all operand pairs and '
        'compared with Kleene logic. (2) Interpreter.evaluate is analysed on all AND/OR/NOT trees of the bounded shapes '
        'over all leaf classes (constants, boolean attributes present/absent, comparisons of unknown values); on every '
        'path the decision equals the Kleene combination of the leaf decisions.')
BOUNDS = ('trees up to depth 3 (4 leaves for full enumeration over constants; 2 leaves over all leaf classes); chains and nestings of 40 (thorough: 100) '
          'leaves of which one differs')
R3 = ('TRUE', 'FALSE', 'UNDEF')


def table(st, C):
    I = C.interp(st)
    k = Kit(I)
    a = R3[st.choose(3, 'left')]
    b = R3[st.choose(3, 'right')]
    va, vb = k.member(k.RES, a), k.member(k.RES, b)
    want = {'and': K_AND(a, b), 'or': K_OR(a, b)}
    for what, f in (('a & b', lambda: I.binop('BitAnd', va, vb)), ('a | b', lambda: I.binop('BitOr', va, vb)),
                    ('tri_and', lambda: I.call(I.getattr(k.RES, 'tri_and'), [va, vb], {})),
                    ('tri_or', lambda: I.call(I.getattr(k.RES, 'tri_or'), [va, vb], {}))):
        w = want['and' if '&' in what or 'and' in what else 'or']
        guard(C, k, what + ' of %s, %s' % (a, b), f, w)
    guard(C, k, 'tri_not of %s' % a, lambda: I.call(I.getattr(k.RES, 'tri_not'), [va], {}), K_NOT[a])
    for what, f in (('truth value of %s' % a, lambda: bool(I.truth(va))),
                    ('bool(%s)' % a, lambda: I.call(BuiltinV('bool'), [va], {})),
                    ('not %s' % a, lambda: not I.truth(va))):
        try:
            r = f()
        except PyRaise as e:
            C.expect(False, '%s raises %s' % (what, exc_name(e)), e.where)
            continue
        want1 = (a == 'TRUE') != what.startswith('not')
        C.expect(r is want1, '%s is %s, expected %s' % (what, show(r), want1))
    for bv in (True, False):
        guard(C, k, 'from_bool(%s)' % bv, lambda: I.call(I.getattr(k.RES, 'from_bool'), [bv], {}),
              'TRUE' if bv else 'FALSE')


def guard(C, k, what, f, want):
    try:
        got = k.result(f())
    except PyRaise as e:
        C.expect(False, '%s raises %s' % (what, exc_name(e)), e.where)
        return
    C.expect(got == want, '%s gives %s, Kleene logic says %s' % (what, got, want))


LEAVES = ('TRUE', 'FALSE', 'UNDEF', 'att true', 'att false', 'att absent', 'cmp num', 'cmp in', 'cmp undef')


def leaf(k, kind, name, t, consts=None):
    """(node, function giving the leaf's decision on this path)"""
    if kind in R3:
        return k.boolc(kind), lambda: kind
    if kind.startswith('att'):
        n = k.att('env', name)
        if kind == 'att absent':
            return n, lambda: 'UNDEF'
        k.define(t, 'env', name, 'BOOL', kind == 'att true')
        return n, lambda: 'TRUE' if kind == 'att true' else 'FALSE'
    if kind == 'cmp num':
        a, sa = k.const('int', name + 'a')
        b, sb = k.const('int', name + 'b')
        return k.op('<', a, b), lambda: k.expected('<', sa, sb)
    if kind == 'cmp in':
        a, sa = k.const('str', name + 'a')
        b, sb = k.const('set', name + 'b', ('str',))
        return k.op('IN', a, b), lambda: k.expected('IN', sa, sb)
    a, sa = k.const('str', name + 'a')
    b, sb = k.const('int', name + 'b')
    return k.op('=', a, b), lambda: 'UNDEF'


def build(k, shape, leaves):
    """shape: 'L' | ('NOT', s) | (op, s, s) -> (node, decision thunk)"""
    if shape == 'L':
        return next(leaves)
    if shape[0] == 'NOT':
        n, d = build(k, shape[1], leaves)
        return k.not_(n), lambda: K_NOT[d()]
    a, da = build(k, shape[1], leaves)
    b, db = build(k, shape[2], leaves)
    f = K_AND if shape[0] == 'AND' else K_OR
    return k.boolop(shape[0], a, b), lambda: f(da(), db())


def sname(s):
    return 'x' if s == 'L' else 'NOT %s' % sname(s[1]) if s[0] == 'NOT' else '(%s %s %s)' % (sname(s[1]), s[0], sname(s[2]))


def nleaves(s):
    return 1 if s == 'L' else sum(nleaves(x) for x in s[1:])


def tree(shape, kinds):
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        t = k.table()
        chosen = [kinds[st.choose(len(kinds), 'leaf %d' % i)] for i in range(nleaves(shape))]
        ls = [leaf(k, c, 'n%d' % i, t) for i, c in enumerate(chosen)]
        n, d = build(k, shape, iter(ls))
        try:
            got = k.evaluate(k.interpreter(n), t)
        except PyRaise as e:
            C.expect(False, 'policy %s over %s raises %s' % (sname(shape), chosen, exc_name(e)), e.where)
            return
        site = I.lastret
        want = d()
        C.expect(got == want, 'policy %s over leaves %s evaluates to %s, Kleene logic says %s' % (
            sname(shape), chosen, got, want), site)
    return run


def chain(op, n, side):
    s = 'L'
    for _ in range(n - 1):
        s = (op, s, 'L') if side == 'left' else (op, 'L', s)
    return s


def nest(op, n, side):
    """Alternating operators and negations, n deep."""
    s = 'L'
    for i in range(n):
        o = op if i % 2 else ('OR' if op == 'AND' else 'AND')
        s = (o, s, 'L') if side == 'left' else (o, 'L', s)
        if i % 3 == 0:
            s = ('NOT', s)
    return s


def ob_long(shape, n, base):
    """All leaves alike except one."""
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        t = k.table()
        at = sorted({0, 1, n // 3, n // 2, n - 2, n - 1})
        j = at[st.choose(len(at), 'odd leaf')]
        odd = LEAVES[st.choose(len(LEAVES), 'odd leaf class')]
        ls = [leaf(k, odd if i == j else base, 'n%d' % i, t) for i in range(n)]
        node, d = build(k, shape, iter(ls))
        what = 'policy of %d leaves %s, leaf %d %s' % (n, base, j, odd)
        try:
            got = k.evaluate(k.interpreter(node), t)
        except PyRaise as e:
            C.expect(False, '%s raises %s' % (what, exc_name(e)), e.where)
            return
        site = I.lastret
        want = d()
        C.expect(got == want, '%s evaluates to %s, Kleene logic says %s' % (what, got, want), site)
    return run


def obligations(tier):
    n = 40 if tier == 'quick' else 100
    for side in ('left', 'right'):
        for o, base in (('AND', 'TRUE'), ('OR', 'FALSE'), ('AND', 'att true'), ('OR', 'att absent')):
            yield 'chain of %d %s, %s, %s' % (n, o, side, base), ob_long(chain(o, n, side), n, base)
        for o in ('AND', 'OR'):
            for base in R3:
                yield 'nesting of %d, %s, %s, %s' % (n, o, side, base), ob_long(nest(o, n, side), n + 1, base)
    yield 'operators of the result type', table
    ops = ('AND', 'OR')
    d1 = ['L', ('NOT', 'L')] + [(o, 'L', 'L') for o in ops]
    for s in d1:
        yield 'all leaf classes: ' + sname(s), tree(s, LEAVES)
    d2 = set()
    for o in ops:
        for a, b in itertools.product(d1, d1):
            d2.add((o, a, b))
    for a in d1:
        d2.add(('NOT', a))
    for s in sorted(d2 - set(d1), key=repr):
        yield 'constants: ' + sname(s), tree(s, R3)
    deep = [(o1, (o2, (o3, 'L', 'L'), 'L'), 'L') for o1 in ops for o2 in ops for o3 in ops]
    deep += [(o1, 'L', (o2, 'L', (o3, 'L', 'L'))) for o1 in ops for o2 in ops for o3 in ops]
    deep += [('NOT', ('NOT', ('NOT', (o, ('NOT', 'L'), 'L')))) for o in ops]
    for s in deep:
        yield 'constants: ' + sname(s), tree(s, R3)
    if tier == 'thorough':
        for s in sorted(d2 - set(d1), key=repr):
            if nleaves(s) <= 3:
                yield 'all leaf classes: ' + sname(s), tree(s, LEAVES)
        for a, b in itertools.product(sorted(d2, key=repr)[:20], d1):
            for o in ops:
                if nleaves(a) + nleaves(b) <= 5:
                    yield 'constants: ' + sname((o, a, b)), tree((o, a, b), R3)
