"""Repeatability and purity of evaluation."""
from .kit import *
from . import c01, c05

RULE = ('A policy object is analysed through two or three successive evaluations with every combination of attribute '
        'tables (same table, different tables, the same table changed in between, a second interpreter on the same tree, '
        'one raising at a warning level in between): on every path the last decision and its recorded warnings equal those '
        'of a fresh policy object evaluated once, and the attribute tables and every value reachable from them are '
        'structurally unchanged (deep snapshots).')
BOUNDS = ('policies of up to 3 comparisons over all operand classes, and of 60 (thorough: 200) comparisons; up to 3 successive '
          'evaluations')


def snapshot(v, depth=0, seen=None):
    """Structural, identity-free description of a value."""
    seen = seen if seen is not None else {}
    if isinstance(v, (ListO, SetO)):
        items = [snapshot(x, depth + 1, seen) for x in v.items]
        if isinstance(v, SetO):
            items = sorted(items, key=repr)
        return (type(v).__name__, tuple(items))
    if isinstance(v, DictO):
        return ('dict', tuple((snapshot(k, depth + 1, seen), snapshot(x, depth + 1, seen)) for k, x in v.pairs))
    if isinstance(v, tuple):
        return ('tuple',) + tuple(snapshot(x, depth + 1, seen) for x in v)
    if isinstance(v, Inst):
        if id(v) in seen:
            return ('ref', seen[id(v)])
        seen[id(v)] = len(seen)
        return ('inst', getattr(v.cls, 'qual', repr(v.cls)), tuple(sorted(
            (n, snapshot(x, depth + 1, seen)) for n, x in v.attrs.items())))
    return ckey(v)


# tables: what is supplied for user.x
TAB = ('absent', 'int', 'int2', 'str', 'novalue', 'untyped', 'set', 'list', 'bool true', 'bool false')


def mk_table(k, which, tag):
    t = k.table()
    fill(k, t, which, tag)
    return t


def fill(k, t, which, tag):
    if which == 'absent':
        return
    if which in ('int', 'int2'):
        k.define(t, 'user', 'x', 'INT', sym('x' + tag, 'int'))
    elif which == 'str':
        k.define(t, 'user', 'x', 'STRING', sym('x' + tag, 'str'))
    elif which == 'novalue':
        k.define(t, 'user', 'x', 'INT', None)
    elif which == 'untyped':
        k.define(t, 'user', 'x', None, sym('x' + tag, 'int'))
    elif which in ('set', 'list'):
        v, _ = k.attval(which, 'x' + tag, ('int',) if which == 'set' else ('int', 'str'))
        k.define(t, 'user', 'x', 'SET', v)
    else:
        k.define(t, 'user', 'x', 'BOOL', which == 'bool true')
    k.define(t, 'object', 'y', 'INT', sym('y' + tag, 'int'))


def policies(k):
    c = lambda: k.const('int', 'c')[0]
    x = lambda: k.att('user', 'x')
    y = lambda: k.att('object', 'y')
    s = lambda: k.const('set', 's', ('int', 'str'))[0]
    return [
        ('x = c', lambda: k.op('=', x(), c())),
        ('x != y', lambda: k.op('!=', x(), y())),
        ('c > x', lambda: k.op('>', c(), x())),
        ('x <= y', lambda: k.op('<=', x(), y())),
        ('x IN s', lambda: k.op('IN', x(), s())),
        ('c IN x', lambda: k.op('IN', c(), x())),
        ('x SUBSET s', lambda: k.op('SUBSET', x(), s())),
        ('s SUBSET x', lambda: k.op('SUBSET', s(), x())),
        ('x', x),
        ('NOT x', lambda: k.not_(x())),
        ('x = c AND x', lambda: k.boolop('AND', k.op('=', x(), c()), x())),
        ('NOT (x = c OR y < c)', lambda: k.not_(k.boolop('OR', k.op('=', x(), c()), k.op('<', y(), c())))),
        ('(x = c OR x) AND NOT y > x', lambda: k.boolop('AND', k.boolop('OR', k.op('=', x(), c()), x()),
                                                      k.not_(k.boolop('OR', k.op('>', y(), x()), k.boolc('UNDEF'))))),
        ('TRUE', lambda: k.boolc('TRUE')),
    ]


def warn_desc(I, i):
    return [(exc_name(w), ckey(I.getattr(w, 'message')), ckey(I.getattr(w, 'pos'))) for w in c05.warnings(I, i)]


MODES = ('same interpreter', 'second interpreter', 'changed table', 'raised in between', 'no table first',
         'no table last', 'None last', 'empty table last')


def ob(pi, mode):
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        name, mk = policies(k)[pi]
        w1 = TAB[st.choose(len(TAB), 'first attributes')]
        w2 = 'absent' if mode.endswith('last') else w1 if mode == 'changed table' else \
            TAB[st.choose(len(TAB), 'second attributes')]
        k.pos = 100
        node = mk()
        k.pos = 100
        node2 = mk()
        t1 = mk_table(k, w1, '1')
        t2 = mk_table(k, w2, '1' if w1 == w2 and mode != 'changed table' else '2')
        i = k.interpreter(node)
        before1, before2 = snapshot(t1), snapshot(t2)
        ET = anchor(I, 'hgpl.errors', 'ErrorType')
        try:
            # the history
            if mode == 'no table first':
                k.evaluate(i, Ellipsis)
            elif mode == 'raised in between':
                try:
                    k.evaluate(i, t1, k.member(ET, 'INFO'))
                except PyRaise as e:
                    if exc_name(e) != 'InterpreterWarning':
                        raise
            else:
                k.evaluate(i, t1)
            C.expect(snapshot(t1) == before1, '%s: evaluation changes the attribute table (user.x %s)' % (name, w1))
            if mode == 'changed table':
                # a caller changes a value in the table it owns
                if w1 in ('int', 'str', 'set', 'novalue', 'bool true'):
                    nv = {'int': sym('x2', 'int'), 'str': sym('x2', 'str'), 'set': ListO([sym('x2_0', 'int')]),
                          'novalue': sym('x2', 'int'), 'bool true': False}[w1]
                    I.call(I.getattr(t1, 'set_value'), ['user.x', nv], {})
                t2 = t1
                before2 = snapshot(t2)
            j = k.interpreter(node) if mode == 'second interpreter' else i
            last = Ellipsis if mode == 'no table last' else None if mode == 'None last' else t2
            got = k.evaluate(j, last)
            gw = warn_desc(I, j)
            site = I.lastret
            C.expect(snapshot(t2) == before2, '%s: evaluation changes the attribute table (user.x %s)' % (name, w2))
            f = k.interpreter(node2)
            want = k.evaluate(f, t2)
            fw = warn_desc(I, f)
        except PyRaise as e:
            C.expect(False, '%s: evaluation raises %s (%s then %s, %s)' % (name, exc_name(e), w1, w2, mode), e.where)
            return
        C.expect(got == want, '%s: evaluated again (%s; user.x %s, then %s) gives %s where a fresh evaluation gives %s' % (
            name, mode, w1, w2, got, want), site)
        C.expect(gw == fw, '%s: evaluated again (%s; user.x %s, then %s) records other warnings than a fresh '
                 'evaluation: %s instead of %s' % (name, mode, w1, w2, gw, fw), site)
        w = I.call(I.getattr(f, 'evaluate'), [t2], {})
        C.expect(k.result(w) == want, '%s: immediate re-evaluation differs' % name)
    return run


def ob_many(n, op):
    """A policy with many attributes, all of them missing at first."""
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        j = (0, 1, n // 2, n - 1)[st.choose(4, 'attribute supplied')]

        def mk():
            k.pos = 100
            node = None
            for i in range(n):
                c = k.op('=', k.att('user', 'x%d' % i), k.const('int', 'c')[0])
                node = c if node is None else k.boolop(op, node, c)
            return node
        t = k.table()
        k.define(t, 'user', 'x%d' % j, 'INT', sym('x', 'int'))
        before = snapshot(t)
        i, f = k.interpreter(mk()), k.interpreter(mk())
        try:
            k.evaluate(i, Ellipsis)
            got, site = k.evaluate(i, t), I.lastret
            gw = warn_desc(I, i)
            want = k.evaluate(f, t)
            fw = warn_desc(I, f)
        except PyRaise as e:
            C.expect(False, 'evaluation of %d comparisons raises %s' % (n, exc_name(e)), e.where)
            return
        C.expect(snapshot(t) == before, 'evaluation changes the attribute table')
        C.expect(got == want, '%d comparisons evaluated again give %s where a fresh evaluation gives %s' % (n, got, want), site)
        C.expect(gw == fw, 'evaluated again, other warnings are recorded than by a fresh evaluation', site)
    return run


def obligations(tier):
    n = 14
    m = 60 if tier == 'quick' else 200
    for o in ('AND', 'OR'):
        yield 'policy of %d comparisons joined by %s' % (m, o), ob_many(m, o)
    for m in MODES:
        for p in range(n):
            yield 'policy %d, %s' % (p, m), ob(p, m), {'max_paths': 40000}
