"""Comparison operators against their relations, over abstract operand values."""
from .kit import *

RULE = ('For every operator and every pair of operand classes the operator is defined for (constants, single-valued and '
        'set/list-valued attributes; members and values are unknowns of their kind) the result computed by '
        'Interpreter.evaluate on every path equals the relation on the operand values, decided from the facts of that path.')
BOUNDS = ('sets and lists of up to 2 members (each member an arbitrary value), every operand kind pair; sets and lists of 40 '
          '(thorough: 200) fixed members that differ in one member at either end or in the middle')


def ob(op, a, b):
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        t = k.table()
        l, sl = operand(k, a, 'L', t)
        r, sr = operand(k, b, 'R', t)
        try:
            got = k.evaluate(k.interpreter(k.op(op, l, r)), t)
        except PyRaise as e:
            C.expect(False, '%s %s %s raises %s' % (oname(a), op, oname(b), exc_name(e)), e.where)
            return
        site = I.lastret
        want = k.expected(op, sl, sr)
        C.expect(got == want, '%s %s %s evaluates to %s where the operand values make it %s' % (
            oname(a), op, oname(b), got, want), site, key=(op, oname(a), oname(b), got, want))
    return run


def defined(op, a, b):
    kinds = {'int': 'num', 'float': 'num', 'str': 'str', 'null': 'null', 'set': 'set', 'list': 'set', 'bool': 'bool'}
    ka, kb = kinds[a[1] if a[0] == 'c' else a[2]], kinds[b[1] if b[0] == 'c' else b[2]]
    if 'bool' in (ka, kb):
        return False
    if op in ('<', '>', '<=', '>='):
        return ka == kb == 'num'
    atta, attb = a[0] == 'a', b[0] == 'a'
    if op in ('=', '!='):
        if 'set' not in (ka, kb):
            return ka == kb
        return (ka == 'set' or atta) and (kb == 'set' or attb)
    bset = kb == 'set' or (attb and (ka == 'set' or atta))
    if op == 'IN':
        return bset
    return bset and (ka == 'set' or (atta and (kb == 'set' or attb)))


def big(n, drop=(), extra=(), step=1):
    """Members of a large set: numbers and strings, without some, with others."""
    xs = [i * 7 % n for i in range(n)] if n % 7 else list(range(n))
    return [('lit', x if x % 3 else 's%d' % x) for x in xs[::step] if x not in drop] + list(extra)


def shapes(n, j):
    """(operator, left, right) over sets of about n members; member j is the one that makes the difference."""
    one = ('lit', j if j % 3 else 's%d' % j)
    full, less, other = big(n), big(n, (j,)), big(n, (j,), (('lit', -1),))
    far = [('lit', 10000 + i) for i in range(n)]
    for op in ('=', '!=', 'SUBSET', 'IN'):
        for a, b in ((full, full[::-1]), (full, less), (less, full), (full, other), (other, full), (full, full + far),
                     (full + far, full), (far, less), (far + [one], full), (full, far + [one]), ([one], full), ([one], less),
                     ([], full), (full, [])):
            yield op, a, b


def ob_big(n, kinds):
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        t = k.table()
        at = (0, 1, n // 2, n - 2, n - 1)
        j = at[st.choose(len(at), 'distinguishing member')]
        al = list(shapes(n, j))
        op, a, b = al[st.choose(len(al), 'sets')]
        mk = lambda kd, m, side: operand(k, ('c', 'set', m) if kd == 'c' else ('a', 'SET', kd, m), side, t)
        l, sl = mk(kinds[0], a, 'L')
        r, sr = mk(kinds[1], b, 'R')
        try:
            got = k.evaluate(k.interpreter(k.op(op, l, r)), t)
        except PyRaise as e:
            C.expect(False, '%s over sets of %d and %d members raises %s' % (op, len(a), len(b), exc_name(e)), e.where)
            return
        site = I.lastret
        want = k.expected(op, sl, sr)
        C.expect(got == want, '%s over sets of %d and %d members evaluates to %s where the members make it %s' % (
            op, len(a), len(b), got, want), site)
    return run


def obligations(tier):
    for n in (40,) + ((200,) if tier == 'thorough' else ()):
        for kinds in (('c', 'c'), ('c', 'list'), ('set', 'c'), ('list', 'set')):
            yield 'large sets (%d members), %s and %s' % ((n,) + kinds), ob_big(n, kinds)
    ops = CONSTS + ATTS
    for op in CMP:
        for a in ops:
            for b in ops:
                if defined(op, a, b):
                    yield '%s %s %s' % (oname(a), op, oname(b)), ob(op, a, b)
