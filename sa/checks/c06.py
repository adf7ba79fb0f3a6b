"""Resolution of attribute names."""
from .kit import *

RULE = ('SymbolTable, SymbolTableBuilder.build and attribute lookup during evaluation are analysed with attributes of every '
        'category under the same, case-varied and different names (concrete case variants and unknown names): on every path '
        'a reference in a policy sees exactly the value and declared type supplied for its category and name '
        'case-insensitively, or nothing. Which value was seen is read off the decision of a comparison with an unknown.')
BOUNDS = 'all 5 categories, up to 3 attributes of one category per table; names are unknown strings or case variants'

CATL = ('user', 'object', 'env', 'admin', 'connect')
VARIANTS = ('deptName', 'DEPTNAME', 'deptname', 'dEPTnAME')


def probe(k, cat, name, table):
    """Decision of <cat>.<name> = c for an unknown string c."""
    c, sem = k.const('str', 'probe')
    i = k.interpreter(k.op('=', k.att(cat, name), c))
    return k.evaluate(i, table), sem


def sees(k, C, what, cat, name, table, value, site=None):
    """The reference cat.name must see `value` (a string unknown) or nothing (None)."""
    try:
        got, sem = probe(k, cat, name, table)
    except PyRaise as e:
        C.expect(False, '%s raises %s' % (what, exc_name(e)), e.where)
        return
    where = k.I.lastret
    if value is None:
        C.expect(got == 'UNDEF', '%s: %s.%s resolves although it was not supplied' % (what, cat, show(name)), where)
        return
    want = k.expected('=', ('str', value, True), sem)
    C.expect(got == want, '%s: %s.%s does not resolve to the value supplied for it (%s instead of %s)' % (
        what, cat, show(name), got, want), where)


def builder(k, types, **cats):
    I = k.I
    B = anchor(I, 'hgpl.symbols', 'SymbolTableBuilder')
    d = lambda p: DictO(list(p))
    kw = {'types': d(types)}
    for c, pairs in cats.items():
        kw[c + '_atts'] = d(pairs)
    b = I.call(B, [], kw)
    return b


def ob_categories(how):
    """The same name in all categories, present or not."""
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        ref = CATL[st.choose(5, 'category referenced')]
        present = [c for c in CATL if st.choose(2, c + ' supplied') == 0]
        vn = VARIANTS[st.choose(4, 'letter case in the policy')]
        sn = VARIANTS[0]
        if how == 'table':
            t = k.table()
            for c in present:
                k.define(t, c, sn, 'STRING', sym('v_' + c, 'str'))
        elif how == 'builder':
            b = builder(k, [(c + '.' + sn, k.member(k.ST, 'STRING')) for c in present],
                        **{c: [(sn, sym('v_' + c, 'str'))] for c in present})
            t = I.call(I.getattr(b, 'build'), [], {})
        else:
            b = builder(k, [(c + '.' + sn, k.member(k.ST, 'STRING')) for c in present])
            I.call(I.getattr(b, 'load_mixed_att_val_dict'),
                   [DictO([(c.upper() + '.' + sn, sym('v_' + c, 'str')) for c in present])], {})
            t = I.call(I.getattr(b, 'build'), [], {})
        sees(k, C, 'attributes of %s supplied' % ','.join(present), ref, vn, t,
             sym('v_' + ref, 'str') if ref in present else None)
    return run


def ob_unknown(how):
    """Two supplied names and a referenced name, all unknown strings."""
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        cat = CATL[st.choose(5, 'category')]
        fl = 'n' if how == 'mixed' else 'an'
        n1, n2, m = sym('name1', 'str', fl), sym('name2', 'str', fl), sym('ref', 'str', 'an')
        v1, v2 = sym('v1', 'str'), sym('v2', 'str')
        S = k.member(k.ST, 'STRING')
        if how == 'table':
            t = k.table()
            k.define(t, cat, n1, 'STRING', v1)
            k.define(t, cat, n2, 'STRING', v2)
        else:
            st.assume(I.eq(n1, n2), False)       # distinct keys of one dictionary
            types = [(cat_(cat, n1), S), (cat_(cat, n2), S)]
            if how == 'mixed':
                b = builder(k, types)
                I.call(I.getattr(b, 'load_mixed_att_val_dict'), [DictO([(cat_(cat, n1), v1), (cat_(cat, n2), v2)])], {})
            else:
                b = builder(k, types, **{cat: [(n1, v1), (n2, v2)]})
            t = I.call(I.getattr(b, 'build'), [], {})
        low = lambda x: I.method(x, 'lower', [], {})
        got, sem = probe(k, cat, m, t)
        site = I.lastret
        same = lambda a, b: bool(I.truth(I.eq(low(a), low(b))))
        want = None
        if same(n1, m):
            want = v1
        elif same(n2, m):
            want = v2
        w = 'UNDEF' if want is None else k.expected('=', ('str', want, True), sem)
        C.expect(got == w, '%s: a reference with unknown name resolves wrongly (%s instead of %s)' % (how, got, w), site)
    return run


DOTTED = ('name', 'dept.name', 'name.dept', 'dept', '.name', 'user.name', 'name.')


def ob_dots(st, C):
    """Supplied names that contain dots are names of their own."""
    I = C.interp(st)
    k = Kit(I)
    cat = CATL[st.choose(5, 'category')]
    S = k.member(k.ST, 'STRING')
    up = st.choose(2, 'letter case of the category') == 0
    which = [n for n in DOTTED[:4] if st.choose(2, n + ' supplied') == 0] + list(DOTTED[4:])
    mixed = st.choose(2, 'loaded as one dictionary') == 0
    types = [(c + '.' + n, S) for n in DOTTED for c in (cat,)]
    if mixed:
        b = builder(k, types)
        I.call(I.getattr(b, 'load_mixed_att_val_dict'),
               [DictO([((cat.upper() if up else cat) + '.' + n, sym('v_' + n, 'str')) for n in which])], {})
    else:
        b = builder(k, types, **{cat: [(n, sym('v_' + n, 'str')) for n in which]})
    t = I.call(I.getattr(b, 'build'), [], {})
    for n in ('name', 'dept'):
        sees(k, C, '%s.{%s} supplied' % (cat, ', '.join(which)), cat, n, t, sym('v_' + n, 'str') if n in which else None)
    for n in DOTTED:
        s = I.call(I.getattr(t, 'lookup'), [cat + '.' + n], {})
        C.expect((s is not None) == (n in which), '%s.{%s} supplied: lookup of %s.%s' % (cat, ', '.join(which), cat, n))


def cat_(c, n):
    return cat([c + '.', n])


def ob_types(ref):
    """The declared type used is the one given for that category and name in any letter case."""
    return lambda st, C: types_(st, C, ref)


def types_(st, C, ref):
    I = C.interp(st)
    k = Kit(I)
    oth = [c for c in CATL if c != ref][st.choose(4, 'other category')]
    tn = VARIANTS[st.choose(4, 'letter case in the types')]
    an = VARIANTS[st.choose(4, 'letter case in the values')]
    up = st.choose(2, 'letter case of the category in the types') == 0
    S, N = k.member(k.ST, 'STRING'), k.member(k.ST, 'INT')
    decl = st.choose(3, 'declared')
    pre = ref.capitalize() if up else ref
    types = []
    if decl != 1:
        types.append((pre + '.' + tn, S))
    types.append((oth + '.' + tn, N))
    types.append((ref + '.' + tn + 'x', N))
    if decl == 2:
        types.reverse()
    b = builder(k, types, **{ref: [(an, sym('v', 'str'))], oth: [(an, sym('w', 'int'))]})
    t = I.call(I.getattr(b, 'build'), [], {})
    sees(k, C, 'declared types %s' % [x[0] for x in types], ref, VARIANTS[2], t, None if decl == 1 else sym('v', 'str'))
    for q, w in ((ref, None if decl == 1 else 'STRING'), (oth, 'INT')):
        r = I.call(I.getattr(t, 'lookup_type'), [q + '.' + VARIANTS[st.choose(2, 'case')]], {})
        C.expect(isinstance(r, EnumV) and r.name == (w or 'UNKNOWN'), 'declared type of %s.%s is %s instead of %s' % (
            q, an, show(r), w))


def ob_twice(how):
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        cat = CATL[st.choose(5, 'category')]
        a, b = VARIANTS[st.choose(4, 'first')], VARIANTS[st.choose(4, 'second')]
        v1, v2 = sym('v1', 'str'), sym('v2', 'str')
        S = k.member(k.ST, 'STRING')
        if how == 'table':
            t = k.table()
            s1 = I.call(k.Symbol, [a, k.member(k.TT, CATS[cat][0]), S, v1], {})
            s2 = I.call(k.Symbol, [b, k.member(k.TT, CATS[cat][0]), S, v2], {})
            r1 = I.call(I.getattr(t, 'define'), [s1], {})
            r2 = I.call(I.getattr(t, 'define'), [s2], {})
            C.expect(r1 is True and r2 is False, 'defining a name twice reports %s, %s' % (show(r1), show(r2)))
            want = v1
        else:
            pairs = [(a, v1), (b, v2)] if a != b else [(a, v1)]
            bl = builder(k, [(cat + '.' + a, S)], **{cat: pairs})
            t = I.call(I.getattr(bl, 'build'), [], {})
            want = v1
        sees(k, C, '%s.%s defined, then %s.%s' % (cat, a, cat, b), cat, VARIANTS[2], t, want)
    return run


def ob_lookup(st, C):
    """The table's accessors, in any letter case and by symbol."""
    I = C.interp(st)
    k = Kit(I)
    cat = CATL[st.choose(5, 'category')]
    t = k.table()
    v = sym('v', 'str')
    s = k.define(t, cat, 'Abc', 'STRING', v)
    o = k.define(t, cat, 'Abcd', 'INT', sym('w', 'int'))
    q = (cat + '.ABC', cat.upper() + '.abc', s)[st.choose(3, 'key')]
    call = lambda m, *a: I.call(I.getattr(t, m), list(a), {})
    C.expect(call('lookup', q) is s, 'lookup(%s) is not the symbol defined under it' % show(q))
    C.expect(ckey(call('lookup_value', q)) == ckey(v), 'lookup_value(%s) is not its value' % show(q))
    r = call('lookup_type', q)
    C.expect(isinstance(r, EnumV) and r.name == 'STRING', 'lookup_type(%s) is %s' % (show(q), show(r)))
    r = call('lookup_att_type', q)
    C.expect(isinstance(r, EnumV) and r.name == CATS[cat][0], 'lookup_att_type(%s) is %s' % (show(q), show(r)))
    C.expect(call('exists', q) is True, 'exists(%s) is not True' % show(q))
    C.expect(call('exists', cat + '.ab') is False, 'exists of an undefined name')
    C.expect(call('lookup', cat + '.ab') is None, 'lookup of an undefined name finds something')
    for c in CATL:
        if c != cat:
            C.expect(call('lookup', c + '.abc') is None, 'lookup of %s.abc finds the attribute of %s' % (c, cat))
    nv = sym('nv', 'str')
    call('set_value', q, nv)
    C.expect(ckey(call('lookup_value', q)) == ckey(nv) and ckey(I.getattr(o, 'value')) == ckey(sym('w', 'int')),
             'set_value(%s) does not change exactly that attribute' % show(q))
    old = call('switch_type', q, k.member(k.ST, 'SET'))
    C.expect(isinstance(old, EnumV) and old.name == 'STRING' and I.getattr(s, 'type').name == 'SET' and
             I.getattr(o, 'type').name == 'INT', 'switch_type(%s) does not change exactly that attribute' % show(q))


def ob_text(st, C):
    """From policy text: prefixes and names in any letter case."""
    I = C.interp(st)
    k = Kit(I)
    L, P = anchor(I, 'hgpl.lexing', 'Lexer'), anchor(I, 'hgpl.parsing', 'Parser')
    cat = CATL[st.choose(5, 'category')]
    pre = (cat, cat.upper(), cat.capitalize())[st.choose(3, 'letter case of the prefix')]
    nm = VARIANTS[st.choose(4, 'letter case of the name')]
    t = k.table()
    for c in CATL:
        k.define(t, c, VARIANTS[0], 'INT', {'user': 1, 'object': 2, 'env': 3, 'admin': 4, 'connect': 5}[c])
    for n in range(1, 6):
        p = I.call(P, [I.call(L, ['%s.%s = %d' % (pre, nm, n)], {})], {})
        got = k.evaluate(I.call(k.Interpreter, [p], {}), t)
        want = 'TRUE' if CATL.index(cat) + 1 == n else 'FALSE'
        C.expect(got == want, 'policy "%s.%s = %d" with %s.%s supplied as %d evaluates to %s' % (
            pre, nm, n, cat, VARIANTS[0], CATL.index(cat) + 1, got))


def obligations(tier):
    for how in ('table', 'builder', 'mixed'):
        yield 'same name in all categories (%s)' % how, ob_categories(how)
    for how in ('table', 'builder', 'mixed'):
        yield 'unknown names (%s)' % how, ob_unknown(how)
        if how != 'mixed':
            yield 'name defined twice (%s)' % how, ob_twice(how)
    yield 'names with dots', ob_dots
    for c in CATL:
        yield 'declared types ' + c, ob_types(c)
    yield 'table accessors', ob_lookup
    yield 'policy text', ob_text
