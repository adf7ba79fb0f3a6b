"""Symbol table operations against a reference map."""
from .kit import *

RULE = ('SymbolTable is analysed under every sequence of up to three operations (define, set_value, switch_type) on names in any '
        'letter case, given as text or as a symbol, with unknown values, against a map from lower-case full name to symbol. '
        'After every operation exists, lookup, lookup_type, lookup_att_type, lookup_att_name, lookup_value, names and symbols '
        'agree with the map for every name; define reports whether the name was new; switch_type returns the previous type; '
        'operations on an unknown name raise and change nothing; str() lists every symbol. SymbolTableBuilder builds one '
        'symbol per supplied attribute and leaves its inputs unchanged; reset_values drops all values and no types.')
BOUNDS = 'sequences of 3 operations over 3 names in 3 spellings; values and types unknown or of every kind'

NAMES = (('user', 'age'), ('object', 'age'), ('user', 'name'))
ABSENT = 'env.age'
TYPES = ('INT', 'STRING', 'SET', 'BOOL', 'UNKNOWN')


def full(n):
    return '%s.%s' % n


def spell(n, how):
    s = full(n) if isinstance(n, tuple) else n
    return {'lower': s, 'upper': s.upper(), 'mixed': s.title()}[how]


class Model(object):
    def __init__(self, st, C):
        self.st, self.C = st, C
        self.I = C.interp(st)
        self.k = Kit(self.I)
        self.t = self.k.table()
        self.ref = {}
        self.log = []

    def m(self, name, *args):
        return self.I.call(self.I.getattr(self.t, name), list(args), {})

    def make(self, n, spelling, typ, value):
        nm = {'lower': n[1], 'upper': n[1].upper(), 'mixed': n[1].title()}[spelling]
        return self.I.call(self.k.Symbol, [nm, self.k.member(self.k.TT, CATS[n[0]][0]), self.k.member(self.k.ST, typ), value], {})

    def stored(self, v):
        if isinstance(v, bool):
            return self.k.member(self.k.RES, 'TRUE' if v else 'FALSE')
        return v

    def fails(self, what, f, *args):
        try:
            f(*args)
        except PyRaise:
            self.C.check()
            return
        self.C.fail('%s of an unknown name is accepted [%s]' % (what, '; '.join(self.log)))

    def compare(self):
        C, I, k = self.C, self.I, self.k
        ctx = '; '.join(self.log)

        def same(g, w, what):
            C.expect(ckey(I.st.norm(g)) == ckey(I.st.norm(w)), 'after [%s]: %s is %s instead of %s' % (ctx, what, show(g), show(w)),
                     I.lastret, key=(what.split()[0],))
        for n in list(NAMES):
            r = self.ref.get(full(n))
            for how in ('lower', 'upper', 'mixed'):
                nm = spell(n, how)
                same(I.truth(self.m('exists', nm)), r is not None, 'exists %s' % nm)
                got = self.m('lookup', nm)
                if r is None:
                    same(got, None, 'lookup %s' % nm)
                    for q in ('lookup_type', 'lookup_att_type', 'lookup_att_name'):
                        same(self.m(q, nm), None, '%s %s' % (q, nm))
                    self.fails('lookup_value', self.m, 'lookup_value', nm)
                    continue
                sym_, typ, val = r
                C.expect(got is sym_, 'after [%s]: lookup %s is not the symbol defined under it' % (ctx, nm), I.lastret)
                same(self.m('lookup_type', nm), typ, 'lookup_type %s' % nm)
                same(self.m('lookup_att_type', nm), k.member(k.TT, CATS[n[0]][0]), 'lookup_att_type %s' % nm)
                same(self.m('lookup_att_name', nm), n[1], 'lookup_att_name %s' % nm)
                same(self.m('lookup_value', nm), val, 'lookup_value %s' % nm)
                same(self.m('lookup_value', sym_), val, 'lookup_value of the symbol %s' % nm)
        same(self.m('lookup', ABSENT), None, 'lookup of a name never defined')
        ns = sorted(I.raw(x) for x in I.iterate(self.m('names')))
        C.expect(ns == sorted(self.ref), 'after [%s]: names are %s' % (ctx, ns))
        ss = list(I.iterate(self.m('symbols')))
        C.expect(len(ss) == len(self.ref) and all(any(x is r[0] for x in ss) for r in self.ref.values()),
                 'after [%s]: symbols are not the symbols defined' % ctx)


def ob(kinds):
    def run(st, C):
        M = Model(st, C)
        k, I = M.k, M.I
        for i, kind in enumerate(kinds):
            n = NAMES[st.choose(3 if i or kind != 'define' else 1, 'name')]
            last = i == len(kinds) - 1
            how = ('lower', 'upper', 'mixed')[st.choose(3, 'spelling')] if last else ('upper', 'lower', 'mixed')[i % 3]
            vals = (sym('v%d' % i, 'int'), True, False, None, sym('s%d' % i, 'str'))
            if kind == 'define':
                typ = TYPES[(i + len(kinds)) % len(TYPES)]
                v = vals[st.choose(len(vals), 'value')] if last and i < 2 else vals[i % 3]
                s = M.make(n, how, typ, v)
                M.log.append('define %s' % spell(n, how))
                new = I.truth(M.m('define', s))
                C.expect(new == (full(n) not in M.ref), 'after [%s]: define returns %s' % ('; '.join(M.log), new), I.lastret)
                M.ref.setdefault(full(n), [s, k.member(k.ST, typ), M.stored(v)])
            elif kind == 'set_value':
                v = vals[st.choose(len(vals), 'value')] if last else vals[i % 3]
                M.log.append('set_value %s' % spell(n, how))
                if full(n) in M.ref:
                    r = M.ref[full(n)]
                    M.m('set_value', r[0] if how == 'mixed' else spell(n, how), v)
                    r[2] = M.stored(v)
                else:
                    M.fails('set_value', M.m, 'set_value', spell(n, how), v)
            else:
                typ = TYPES[st.choose(len(TYPES), 'type')] if last else TYPES[i]
                M.log.append('switch_type %s' % spell(n, how))
                if full(n) in M.ref:
                    r = M.ref[full(n)]
                    old = M.m('switch_type', r[0] if how == 'mixed' else spell(n, how), k.member(k.ST, typ))
                    C.expect(ckey(old) == ckey(r[1]), 'after [%s]: switch_type returns %s instead of %s' % (
                        '; '.join(M.log), show(old), show(r[1])), I.lastret)
                    r[1] = k.member(k.ST, typ)
                else:
                    M.fails('switch_type', M.m, 'switch_type', spell(n, how), k.member(k.ST, typ))
            if last or i == 0:
                M.compare()
        try:
            s = I.call(BuiltinV('str'), [M.t], {})
        except PyRaise as e:
            C.fail('str() of a symbol table raises %s' % exc_name(e), e.where)
            return
        lit = ''.join(x if isinstance(x, str) else '\0' for x in cat_parts(s))
        for n, r in M.ref.items():
            C.expect(n in lit and r[1].name in lit, 'str() of the table does not list %s' % n)
    return run


def ob_build(reset):
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        B = anchor(I, 'hgpl.symbols', 'SymbolTableBuilder')
        args = {}
        want = {}
        for cat_ in CATS:
            if st.choose(2, cat_ + ' attributes given'):
                v = sym('v_' + cat_, 'int')
                args[cat_ + '_atts'] = DictO()
                I.setitem(args[cat_ + '_atts'], 'Att', v)
                want[cat_ + '.att'] = v
        types = DictO()
        for c in CATS:
            I.setitem(types, c + '.ATT', k.member(k.ST, 'INT'))
        args['types'] = types
        b = I.call(B, [], args)
        if reset:
            I.call(I.getattr(b, 'reset_values'), [], {})
            want = {}
            if st.choose(2, 'loaded again'):
                d = DictO()
                w = sym('again', 'int')
                c = tuple(CATS)[st.choose(len(CATS), 'category')]
                I.setitem(d, c.title() + '.Att', w)
                I.call(I.getattr(b, 'load_mixed_att_val_dict'), [d], {})
                want[c + '.att'] = w
        for rnd in range(2):
            t = I.call(I.getattr(b, 'build'), [], {})
            ns = sorted(I.raw(x) for x in I.iterate(I.call(I.getattr(t, 'names'), [], {})))
            C.expect(ns == sorted(want), 'the table built has %s instead of %s' % (ns, sorted(want)), I.lastret)
            for n, v in want.items():
                s = I.call(I.getattr(t, 'lookup'), [n], {})
                if s is not None:
                    C.expect(ckey(I.getattr(s, 'value')) == ckey(v), 'the value of %s is %s' % (n, show(I.getattr(s, 'value'))))
                    C.expect(ckey(I.getattr(s, 'type')) == ckey(k.member(k.ST, 'INT')), 'the type of %s is %s' % (
                        n, show(I.getattr(s, 'type'))))
        for a, d in args.items():
            n = len(list(I.iterate(d)))
            C.expect(n == (5 if a == 'types' else 1), 'the dictionary given as %s now has %d entries' % (a, n), key='input')
    return run


def obligations(tier):
    ks = ('define', 'set_value', 'switch_type')
    for a in ks:
        for b in ks:
            yield 'define, %s, %s' % (a, b), ob(('define', a, b)), {'max_paths': 60000}
            if tier == 'thorough':
                for c in ks:
                    yield 'define, %s, %s, %s' % (a, b, c), ob(('define', a, b, c)), {'max_paths': 400000}
    yield 'define', ob(('define',))
    for a in ks:
        yield 'define, ' + a, ob(('define', a))
    yield 'set_value on an empty table', ob(('set_value',))
    yield 'switch_type on an empty table', ob(('switch_type',))
    yield 'builder', ob_build(False)
    yield 'builder reset', ob_build(True)
