"""Missing, valueless or mistyped operands give UNDEF."""
from .kit import *
from .c03 import defined

RULE = ('Interpreter.evaluate is analysed on every comparison with an attribute that is absent or has any combination of '
        'declared type and value kind that does not fit, on either or both sides against every operand class, on every '
        'pair of operand kinds the operator is not defined for, and on such attributes used as booleans: every path '
        'returns UNDEF.')
BOUNDS = 'all 8 declared types x 7 value kinds; sets of up to 2 members'


def ob_bad(op, others, side):
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        t = k.table()
        bad = BADATTS[st.choose(len(BADATTS), 'unusable attribute')]
        other = others[st.choose(len(others), 'other operand')]
        a, b = (bad, other) if side == 'L' else (other, bad)
        judge(C, I, k, t, op, a, b)
    return run


def judge(C, I, k, t, op, a, b):
    bv = True
    if 'bool' in a[2:3] + b[2:3]:
        bv = k.st.choose(2, 'boolean value') == 0
    l, sl = operand(k, a, 'L', t, bv)
    r, sr = operand(k, b, 'R', t, bv)
    try:
        got = k.evaluate(k.interpreter(k.op(op, l, r)), t)
    except PyRaise as e:
        C.expect(False, '%s %s %s raises %s instead of being UNDEF' % (oname(a), op, oname(b), exc_name(e)), e.where)
        return
    C.expect(got == 'UNDEF', '%s %s %s evaluates to %s instead of UNDEF' % (oname(a), op, oname(b), got))


def ob_pair(op, a):
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        t = k.table()
        und = [b for b in CONSTS + ATTS if not defined(op, a, b)]
        if not und:
            C.check()
            return
        judge(C, I, k, t, op, a, und[st.choose(len(und), 'right operand')])
    return run


def ob_same(op):
    """The same unusable attribute on both sides."""
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        t = k.table()
        bad = BADATTS[st.choose(len(BADATTS), 'unusable attribute')]
        if bad[1] != 'absent':
            v, _ = k.attval(bad[2], 'v')
            k.define(t, 'user', 'x', bad[1], v)
        try:
            got = k.evaluate(k.interpreter(k.op(op, k.att('user', 'x'), k.att('user', 'x'))), t)
        except PyRaise as e:
            C.expect(False, 'x %s x with x %s raises %s' % (op, oname(bad), exc_name(e)), e.where)
            return
        C.expect(got == 'UNDEF', 'x %s x with x %s evaluates to %s instead of UNDEF' % (op, oname(bad), got))
    return run


def ob_empty_table(op):
    """No attribute table at all."""
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        n = k.op(op, k.att('user', 'x'), k.const('int', 'c')[0])
        try:
            got = k.evaluate(k.interpreter(n), Ellipsis if st.choose(2, 'table argument omitted') == 0 else None)
        except PyRaise as e:
            C.expect(False, 'evaluation without attributes raises %s' % exc_name(e), e.where)
            return
        C.expect(got == 'UNDEF', 'comparison with no attributes supplied evaluates to %s' % got)
    return run


NOTBOOL = BADATTS + [a for a in ATTS if a[1] != 'BOOL']
CTX = ('root', 'not', 'and-left', 'and-right', 'or-left', 'or-right')


def ob_bool(ctx):
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        t = k.table()
        bad = NOTBOOL[st.choose(len(NOTBOOL), 'attribute used as a boolean')]
        n, _ = operand(k, bad, 'L', t)
        other = ('TRUE', 'FALSE')[st.choose(2, 'other side')] if '-' in ctx else None
        want = 'UNDEF'
        if ctx == 'not':
            n = k.not_(n)
        elif '-' in ctx:
            o, side = ctx.split('-')
            c = k.boolc(other)
            n = k.boolop(o.upper(), n, c) if side == 'left' else k.boolop(o.upper(), c, n)
            want = K_AND('UNDEF', other) if o == 'and' else K_OR('UNDEF', other)
        try:
            got = k.evaluate(k.interpreter(n), t)
        except PyRaise as e:
            C.expect(False, '%s as a boolean (%s) raises %s' % (oname(bad), ctx, exc_name(e)), e.where)
            return
        C.expect(got == want, '%s as a boolean (%s%s) evaluates to %s instead of %s' % (
            oname(bad), ctx, ' with ' + other if other else '', got, want))
    return run


def obligations(tier):
    others = [o for o in CONSTS + ATTS if tier == 'thorough' or len(o[-1]) < 2 or o[0] == 'x']
    for op in CMP:
        for side in 'LR':
            for i in range(0, len(others), 4):
                yield 'unusable attribute %s of %s against %s' % (side, op, ' '.join(oname(o) for o in others[i:i + 4])), \
                    ob_bad(op, others[i:i + 4], side)
        yield 'unusable attributes on both sides of ' + op, ob_bad(op, BADATTS[:6] if tier == 'quick' else BADATTS, 'L'), \
            {'max_paths': 60000}
        yield 'the same unusable attribute on both sides of ' + op, ob_same(op)
        yield 'no attribute table with ' + op, ob_empty_table(op)
        for a in CONSTS + ATTS:
            yield 'undefined operand kinds: %s %s ...' % (oname(a), op), ob_pair(op, a)
    for c in CTX:
        yield 'attribute used as a boolean: ' + c, ob_bool(c)
