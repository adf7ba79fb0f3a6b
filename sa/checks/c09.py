"""The type checker against its rules."""
from .kit import *

RULE = ('TypeChecker.check is analysed on every comparison operator with every pair of operand classes and on policies that '
        'combine up to three comparisons over shared attributes: on every path the issues (error or warning, and the '
        'comparison each is attributed to), the overall result, and whether check raises at each requested level equal the '
        'reference rules.')
BOUNDS = 'up to 3 comparisons (in AND/OR/NOT trees) over up to 3 attributes; all operators and operand kinds'

KINDS = ('int', 'float', 'str', 'null', 'set')
ATT = ('x', 'y', 'z')
LVL = {'NONE': 0, 'INFO': 1, 'WARN': 2, 'ERROR': 3, 'CRIT': 4}


def const_class(k):
    return 'num' if k in ('int', 'float') else k


def judge(cmps):
    """Reference: list of (index of comparison, 'ERROR'|'WARN') in order.  cmps: [(op, l, r)]."""
    types, out = {}, []
    for i, (op, l, r) in enumerate(cmps):
        att = [q for q in (l, r) if q in ATT]
        con = [q for q in (l, r) if q not in ATT]
        if op in ('<', '>', '<=', '>='):
            if 'str' in con or 'null' in con:
                out.append((i, 'ERROR'))
                continue
            if not att:
                if 'set' in con:
                    out.append((i, 'ERROR'))
                continue
            warn(types, i, att, con, out)
        elif op in ('=', '!='):
            if att:
                warn(types, i, att, con, out)
            elif const_class(l) != const_class(r):
                out.append((i, 'ERROR'))
        elif op == 'IN':
            if l == 'set' or (r not in ATT and r != 'set'):
                out.append((i, 'ERROR'))
        else:
            if any(c != 'set' for c in con):
                out.append((i, 'ERROR'))
    return out


def warn(types, i, att, con, out):
    if len(att) == 2:
        a, b = types.get(att[0]), types.get(att[1])
        if a is None and b is not None:
            types[att[0]] = b
        elif b is None and a is not None:
            types[att[1]] = a
        elif a != b:
            out.append((i, 'WARN'))
        return
    c = const_class(con[0])
    if c == 'null':
        c = None
    a = types.get(att[0])
    if a is None:
        types[att[0]] = c
    elif a != c:
        out.append((i, 'WARN'))


def node(k, q, name):
    if q in ATT:
        return k.att('user', q)
    return k.const(q, name, ('int', 'str') if q == 'set' else ())[0]


def tree(k, cmps, shape):
    ns = [k.op(op, node(k, l, 'l%d' % i), node(k, r, 'r%d' % i)) for i, (op, l, r) in enumerate(cmps)]
    if shape == 'not':
        ns[0] = k.not_(ns[0])
    t = ns[0]
    for n in ns[1:]:
        t = k.boolop('OR' if shape == 'or' else 'AND', t, n)
    if shape == 'bool':
        t = k.boolop('AND', k.boolop('OR', k.boolc('TRUE'), k.att('env', 'flag')), t)
    return t, ns


def desc(cmps):
    return '; '.join('%s %s %s' % (l, op, r) for op, l, r in cmps)


def ob(make, shape='and'):
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        TC = anchor(I, 'hgpl.semantics', 'TypeChecker')
        ET = anchor(I, 'hgpl.errors', 'ErrorType')
        cmps = make(st)
        if cmps is None:
            raise Infeasible()
        t, ns = tree(k, cmps, shape)
        want = judge(cmps)
        lv = ('default',) + tuple(LVL)
        level = lv[st.choose(len(lv), 'requested level')] if len(cmps) == 1 or want else 'default'
        tc = I.call(TC, [t], {})
        before = I.call(I.getattr(tc, 'get_result'), [], {})
        C.expect(isinstance(before, EnumV) and before.name == 'NONE', 'the result before checking is %s' % show(before))
        raised, site = None, None
        try:
            I.call(I.getattr(tc, 'check'), [] if level == 'default' else [k.member(ET, level)], {})
            site = I.lastret
        except PyRaise as e:
            raised = e
        iss = list(I.iterate(I.call(I.getattr(tc, 'get_issues'), [], {})))
        got = []
        for w in iss:
            ty = I.getattr(w, 'type')
            tok = I.getattr(w, 'token')
            idx = [i for i, n in enumerate(ns) for n in [n] if I.getattr(opnode(n, I), 'token') is tok]
            got.append((idx[0] if idx else None, ty.name if isinstance(ty, EnumV) else show(ty)))
        C.expect(sorted(got, key=repr) == sorted(want, key=repr),
                 'policy [%s]: issues %s, the typing rules give %s' % (desc(cmps), got, want), issue_site(raised, site))
        lim = LVL['CRIT' if level == 'default' else level]
        must = any(LVL[s] >= lim for i, s in want)
        if sorted(got, key=repr) == sorted(want, key=repr):
            C.expect((raised is not None) == must and (raised is None or exc_name(raised) in (
                'TypeCheckerError', 'TypeCheckerWarning')),
                'policy [%s] checked at level %s: %s, expected %s' % (
                    desc(cmps), level, 'raises ' + exc_name(raised) if raised else 'no exception',
                    'an exception' if must else 'none'), issue_site(raised, site))
            if raised is not None and must and isinstance(raised.value, Inst):
                ty = I.getattr(raised.value, 'type')
                C.expect(isinstance(ty, EnumV) and LVL.get(ty.name, -1) >= lim,
                         'policy [%s] checked at level %s raises an issue of level %s' % (desc(cmps), level, show(ty)))
        r = I.call(I.getattr(tc, 'get_result'), [], {})
        rn = r.name if isinstance(r, EnumV) else show(r)
        wr = 'ERROR' if any(s == 'ERROR' for _, s in want) else 'WARN' if want else 'PASS'
        C.expect(rn == wr, 'policy [%s]: overall result %s instead of %s' % (desc(cmps), rn, wr))
        for m, s in (('get_errors', 'ERROR'), ('get_warnings', 'WARN')):
            n = len(list(I.iterate(I.call(I.getattr(tc, m), [], {}))))
            w = sum(1 for _, q in want if q == s)
            C.expect(n == w, 'policy [%s]: %s gives %d instead of %d issues' % (desc(cmps), m, n, w))
    return run


def opnode(n, I):
    return n if n.cls.name == 'OpNode' else list(I.iterate(I.call(I.getattr(n, 'children'), [], {})))[0]


def issue_site(raised, site):
    return raised.where if raised is not None else site


def single(op):
    q = KINDS + ATT[:2]

    def make(st):
        return [(op, q[st.choose(len(q), 'left')], q[st.choose(len(q), 'right')])]
    return make


def usable(c):
    """Comparisons whose effect on attribute types is fixed by the rules (no NULL on an attribute)."""
    return not (('null' in c[1:]) and c[0] in ('=', '!='))


def pair(op1, op2, tier):
    def make(st):
        l1, r1 = [('x', 'C'), ('C', 'x'), ('x', 'y')][st.choose(3, 'first form')]
        l2, r2 = [('x', 'C'), ('C', 'x'), ('x', 'y'), ('y', 'x'), ('y', 'C')][st.choose(5, 'second form')]
        ks = ('int', 'float', 'str', 'set')
        f = lambda v: ks[st.choose(4, 'constant')] if v == 'C' else v
        return [(op1, f(l1), f(r1)), (op2, f(l2), f(r2))]
    return make


def triple(ops):
    def make(st):
        ks = ('int', 'float', 'str', 'set')
        a, b = ks[st.choose(4, 'type of x')], ks[st.choose(4, 'type of y')]
        parts = [(ops[0], 'x', a), (ops[1], b, 'y'), (ops[2], 'x', 'y')]
        perm = [(0, 1, 2), (0, 2, 1), (2, 0, 1), (1, 2, 0), (2, 1, 0), (1, 0, 2)][st.choose(6, 'order')]
        return [parts[i] for i in perm]
    return make


def ob_alias(op1, op2):
    '''The same attribute in two letter cases, and the same name in another category.'''
    names = {'x': ('user', 'Name'), 'y': ('user', 'nAME'), 'z': ('object', 'Name')}

    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        TC = anchor(I, 'hgpl.semantics', 'TypeChecker')
        ks = ('int', 'str', 'set')
        a = ('x', 'y', 'z')[st.choose(3, 'first attribute')]
        b = ('x', 'y', 'z')[st.choose(3, 'second attribute')]
        c1, c2 = ks[st.choose(3, 'first constant')], ks[st.choose(3, 'second constant')]
        mk = lambda q, n: k.att(*names[q]) if q in names else node(k, q, n)
        t = k.boolop('AND', k.op(op1, mk(a, ''), mk(c1, 'c1')), k.op(op2, mk(c2, 'c2'), mk(b, '')))
        al = {'y': 'x'}
        want = judge([(op1, al.get(a, a), c1), (op2, c2, al.get(b, b))])
        tc = I.call(TC, [t], {})
        try:
            I.call(I.getattr(tc, 'check'), [], {})
        except PyRaise as e:
            C.expect(False, 'checking raises ' + exc_name(e), e.where)
            return
        got = [I.getattr(w, 'type').name for w in I.iterate(I.call(I.getattr(tc, 'get_issues'), [], {}))]
        C.expect(sorted(got) == sorted(s for _, s in want),
                 '%s %s %s AND %s %s %s: issues %s, the typing rules give %s' % (
                     '.'.join(names[a]), op1, c1, c2, op2, '.'.join(names[b]), got, [s for _, s in want]))
    return run


def obligations(tier):
    for a, b in (('=', '='), ('<', '!='), ('=', '>=')):
        yield 'attribute identity %s %s' % (a, b), ob_alias(a, b)
    for op in CMP:
        for s in ('and', 'not', 'bool'):
            yield 'single %s (%s)' % (op, s), ob(single(op), s)
    ops = CMP if tier == 'thorough' else ('=', '!=', '<', '>=', 'IN', 'SUBSET')
    for a in ops:
        for b in ops:
            yield 'pair %s %s' % (a, b), ob(pair(a, b, tier), 'and' if a < b else 'or'), {'max_paths': 40000}
    for t in (('=', '=', '='), ('=', '>', '!='), ('<', '=', '<='), ('>', '<', '=')):
        yield 'triple %s' % (t,), ob(triple(t)), {'max_paths': 40000}
