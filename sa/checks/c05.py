"""Totality of evaluation; warnings raised exactly at the requested level."""
from .kit import *
from . import c01

RULE = ('Interpreter.evaluate is analysed on every comparison over all operand classes (constants, attributes of every '
        'declared type with every value kind, absent ones), on attributes and combinations as booleans, from a tree and '
        'from a parser: every path returns one of the three results. With a warning level, the path raises exactly when the '
        'warnings a level-free evaluation records contain one of at least that level, and raises that warning.')
BOUNDS = ('operand pairs as listed; trees up to 4 leaves; sets of up to 2 members (3 in list values with booleans/None); '
          'chains, sets and nestings of 40 (thorough: 100)')

ALLOPS = CONSTS + ATTS + BADATTS
SMALL = [o for o in CONSTS + ATTS if len(o[-1]) < 2] + BADATTS[:9]


def show_pol(op, a, b):
    return '%s %s %s' % (oname(a), op, oname(b))


def ob_cmp(op, a, rights):
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        t = k.table()
        b = rights[st.choose(len(rights), 'right operand')]
        bv = st.choose(2, 'boolean value') == 0 if 'bool' in a[2:3] + b[2:3] else True
        l, _ = operand(k, a, 'L', t, bv)
        r, _ = operand(k, b, 'R', t, bv)
        total(C, I, k, k.op(op, l, r), t, show_pol(op, a, b))
    return run


def total(C, I, k, node, t, what):
    try:
        got = k.evaluate(k.interpreter(node), t)
    except PyRaise as e:
        C.expect(False, 'evaluating %s raises %s%s' % (what, exc_name(e), show(getattr(e.value, 'attrs', {}).get(
            'args', ''))), e.where)
        return
    C.expect(got in c01.R3, 'evaluating %s returns %s' % (what, got))


def warnings(I, i):
    w = I.call(I.getattr(i, 'get_warnings'), [], {})
    return list(I.iterate(w))


LEVELS = ('NONE', 'INFO', 'WARN', 'ERROR', 'CRIT')


def mk_policy(k, t, which):
    """Policies without, with one and with several warnings."""
    c = lambda n: k.const('int', n)[0]
    if which == 0:
        return k.op('=', c('a'), c('b'))
    if which == 1:
        return k.op('=', k.att('user', 'missing'), c('b'))
    if which == 2:
        k.define(t, 'user', 'x', 'INT', None)
        return k.boolop('AND', k.boolc('TRUE'), k.op('>', k.att('user', 'x'), c('b')))
    if which == 3:
        k.define(t, 'user', 'x', 'INT', sym('xv', 'str'))
        return k.boolop('OR', k.op('>', k.const('str', 's')[0], c('b')), k.not_(k.att('user', 'x')))
    if which == 4:
        k.define(t, 'user', 'x', 'STRING', sym('xv', 'str'))
        return k.att('user', 'x')
    if which == 5:
        return k.boolop('AND', k.boolc('FALSE'), k.att('connect', 'nope'))
    if which == 6:
        return k.op('IN', c('a'), k.const('null', 'n')[0])
    if which == 7:
        return k.op('SUBSET', k.const('str', 'a')[0], k.const('set', 'n', ('str',))[0])
    return k.op('!=', k.const('str', 'a')[0], c('n'))


NPOL = 9


def ob_level(kind):
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        ET = anchor(I, 'hgpl.errors', 'ErrorType')
        which = st.choose(NPOL, 'policy')
        t1, t2 = k.table(), k.table()
        k.pos = 0
        i1 = k.interpreter(mk_policy(k, t1, which))
        try:
            base = k.evaluate(i1, t1)
        except PyRaise as e:
            C.expect(False, 'evaluation without warning level raises %s' % exc_name(e), e.where)
            return
        ws = warnings(I, i1)
        lv = LEVELS[st.choose(len(LEVELS), 'warning level')] if kind != 'none' else None
        level = k.member(ET, lv) if lv else None
        if kind == 'int' and lv:
            level = level.value
        k.pos = 0
        n2 = mk_policy(k, t2, which)
        i2 = k.interpreter(n2)
        reach = bool(lv) and any(bool(I.truth(I.compare('GtE', I.getattr(w, 'type'), level))) for w in ws)
        try:
            got = k.evaluate(i2, t2, level)
            C.expect(not reach, 'policy %d with warning level %s has a warning of that level but returns %s' % (
                which, lv, got))
            C.expect(got == base, 'policy %d with warning level %s returns %s, without %s' % (which, lv, got, base))
        except PyRaise as e:
            C.expect(reach and exc_name(e) == 'InterpreterWarning',
                     'policy %d with warning level %s raises %s where the recorded warnings are %s' % (
                         which, lv, exc_name(e), [exc_name(w) for w in ws]), e.where)
            if reach and exc_name(e) == 'InterpreterWarning':
                C.expect(any(ckey(I.getattr(w, 'message')) == ckey(I.getattr(e.value, 'message')) and
                             ckey(I.getattr(w, 'pos')) == ckey(I.getattr(e.value, 'pos')) for w in ws),
                         'the raised warning is none of the recorded ones', e.where)
    return run


def ob_parser(st, C):
    """From a parser over a token list."""
    I = C.interp(st)
    k = Kit(I)
    P = anchor(I, 'hgpl.parsing', 'Parser')
    t = k.table()
    forms = {
        'bool': [('BOOL', 'UNDEF')],
        'cmp': [('USR_ATT', 'x'), ('OP', '='), ('INT', sym('n', 'int'))],
        'set': [('LSET', None), ('RSET', None), ('OP', 'SUBSET'), ('LSET', None), ('INT', sym('n', 'int')),
                ('COMMA', None), ('NULL', 'NULL'), ('RSET', None)],
        'and': [('NOT_OP', 'NOT'), ('LPARN', None), ('BOOL', 'TRUE'), ('BOOL_OP', 'AND'), ('ENV_ATT', 'b'),
                ('RPARN', None), ('BOOL_OP', 'OR'), ('FLOAT', sym('f', 'float')), ('OP', '<='), ('OBJ_ATT', 'y')],
        'in': [('NULL', 'NULL'), ('OP', 'IN'), ('LSET', None), ('STRING', sym('s', 'str')), ('RSET', None)],
    }
    names = sorted(forms)
    nm = names[st.choose(len(names), 'policy')]
    toks = ListO([k.tok('START', None, 0)] + [k.tok(*x) for x in forms[nm]] + [k.tok('END')])
    if st.choose(2, 'attribute present') == 0:
        k.define(t, 'user', 'x', 'INT', sym('xv', 'int'))
        k.define(t, 'env', 'b', 'BOOL', st.choose(2, 'boolean') == 0)
    try:
        p = I.call(P, [toks], {})
        got = k.evaluate(I.call(k.Interpreter, [p], {}), t)
    except PyRaise as e:
        C.expect(False, 'evaluating the parsed policy "%s" raises %s' % (nm, exc_name(e)), e.where)
        return
    C.expect(got in c01.R3, 'evaluating the parsed policy "%s" returns %s' % (nm, got))


def ob_members(op):
    """Set and list values with booleans, None and mixed members."""
    pool = ['int', 'float', 'str', True, False, None]

    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        t = k.table()
        n = st.choose(3, 'members')
        vals = []
        for i in range(n):
            x = pool[st.choose(len(pool), 'member kind')]
            vals.append(sym('m%d' % i, x) if isinstance(x, str) else x)
        lst = st.choose(2, 'list') == 0
        v = ListO(vals) if lst else I.make_set(vals)
        k.define(t, 'user', 'x', 'SET', v)
        rights = [('c', 'int', ()), ('c', 'null', ()), ('c', 'set', ('str', 'null')), ('a', 'SET', 'list', ('str',)),
                  ('a', 'INT', 'int', ())]
        o = rights[st.choose(len(rights), 'other')]
        r, _ = operand(k, o, 'R', t)
        x = k.att('user', 'x')
        a, b = (x, r) if st.choose(2, 'side') == 0 else (r, x)
        total(C, I, k, k.op(op, a, b), t, '%s with %s value %s' % (op, 'list' if lst else 'set', [show(x) for x in vals]))
    return run


def ob_big(n):
    """Long policies and large sets, from a parser, with the fault near the end."""
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        P = anchor(I, 'hgpl.parsing', 'Parser')
        ET = anchor(I, 'hgpl.errors', 'ErrorType')
        form = ('chain', 'set', 'parentheses', 'not')[st.choose(4, 'form')]
        good = [('ENV_ATT', 'b'), ('OP', '='), ('INT', 1)]
        bad = [('USR_ATT', 'missing')]
        at = (0, n // 2, n - 1)[st.choose(3, 'place of the missing attribute')]
        toks = []
        if form == 'chain':
            for i in range(n):
                toks += ([('BOOL_OP', ('AND', 'OR')[i % 2])] if i else []) + (bad if i == at else good)
        elif form == 'set':
            toks = bad + [('OP', 'IN'), ('LSET', None)]
            for i in range(n):
                toks += ([('COMMA', None)] if i else []) + [('INT', i) if i % 2 else ('STRING', 's%d' % i)]
            toks += [('RSET', None)]
        elif form == 'parentheses':
            toks = [('LPARN', None)] * n + bad + [('RPARN', None)] * n
        else:
            toks = [('NOT_OP', 'NOT'), ('LPARN', None)] * n + bad + [('RPARN', None)] * n
        t = k.table()
        k.define(t, 'env', 'b', 'INT', sym('b', 'int'))
        level = (None, 'INFO', 'WARN', 'CRIT')[st.choose(4, 'warning level')]
        lst = lambda: ListO([k.tok('START', None, 0)] + [k.tok(*x) for x in toks] + [k.tok('END')])
        i1, i2 = [I.call(k.Interpreter, [I.call(P, [lst()], {})], {}) for _ in range(2)]
        try:
            base = k.evaluate(i1, t)
        except PyRaise as e:
            C.expect(False, 'evaluating a long policy (%s, %d) raises %s' % (form, n, exc_name(e)), e.where)
            return
        C.expect(base in c01.R3, 'evaluating a long policy (%s, %d) returns %s' % (form, n, base))
        ws = warnings(I, i1)
        lv = k.member(ET, level) if level else None
        reach = bool(lv) and any(bool(I.truth(I.compare('GtE', I.getattr(w, 'type'), lv))) for w in ws)
        try:
            k.evaluate(i2, t, lv)
            C.expect(not reach, 'a long policy (%s, %d) has a warning of level %s, which is not raised' % (form, n, level))
        except PyRaise as e:
            C.expect(reach and exc_name(e) == 'InterpreterWarning', 'a long policy (%s, %d) with warning level %s raises %s' % (
                form, n, level, exc_name(e)), e.where)
    return run


def obligations(tier):
    yield 'long policies', ob_big(40 if tier == 'quick' else 100)
    for op in CMP:
        for a in ALLOPS if tier == 'thorough' else SMALL:
            yield 'comparison %s %s ...' % (oname(a), op), ob_cmp(op, a, SMALL if tier == 'quick' else ALLOPS)
        yield 'mixed members with ' + op, ob_members(op), {'max_paths': 40000}
    for kind in ('none', 'enum', 'int'):
        yield 'warning level given as ' + kind, ob_level(kind)
    yield 'policies from a parser', ob_parser
    for s in ('L', ('NOT', 'L'), ('AND', 'L', 'L'), ('OR', ('NOT', 'L'), 'L')):
        yield 'booleans: ' + c01.sname(s), ob_tree(s)


def ob_tree(shape):
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        t = k.table()
        pool = c01.LEAVES + tuple(a for a in ATTS if a[1] != 'BOOL' and len(a[3]) < 2) + tuple(BADATTS)
        ls = []
        for i in range(c01.nleaves(shape)):
            x = pool[st.choose(len(pool), 'leaf')]
            if isinstance(x, str):
                ls.append(c01.leaf(k, x, 'n%d' % i, t))
            else:
                n, _ = operand(k, x, 'LR'[i % 2], t)
                ls.append((n, None))
        node, _ = c01.build(k, shape, iter(ls))
        total(C, I, k, node, t, c01.sname(shape))
    return run
