"""The lexer against a reference tokenizer, over texts of unknown characters."""
from .kit import *

RULE = ('Lexer.tokenize/toke_list is analysed on texts whose characters are unknowns over a character universe (ASCII '
        'including controls, plus non-ASCII letters, digits and spaces), split only where the code or the reference looks. On '
        'every path the token list equals the reference tokenization (type, value, start position, START/END) or LexerError '
        'is raised exactly where the text is not a sequence of tokens; nothing else is raised.')
BOUNDS = ('all texts of up to 3 characters; keywords and attribute prefixes in every letter case with unknown neighbours; '
          'number, string and name patterns up to 8 characters; names, strings, white space and texts of 300 (thorough: 1000) '
          'characters, numbers of up to 120 digits')

UNIVERSE = tuple(chr(i) for i in range(1, 128)) + ('é', 'ß', '²', '٣', '\u00a0', '€')
SINGLE = {'{': 'LSET', '}': 'RSET', ',': 'COMMA', '(': 'LPARN', ')': 'RPARN'}
CATTOK = {'user': 'USR_ATT', 'object': 'OBJ_ATT', 'env': 'ENV_ATT', 'admin': 'ADM_ATT', 'connect': 'CON_ATT'}
KW = {'in': ('OP', 'IN'), 'subset': ('OP', 'SUBSET'), 'and': ('BOOL_OP', 'AND'), 'or': ('BOOL_OP', 'OR'),
      'true': ('BOOL', 'TRUE'), 'false': ('BOOL', 'FALSE'), 'undef': ('BOOL', 'UNDEF'), 'not': ('NOT_OP', 'NOT'),
      'null': ('NULL', 'NULL')}


class Reject(Exception):
    pass


class RefLex(object):
    def __init__(self, st, chars):
        self.st, self.ch, self.p = st, chars, 0

    def test(self, i, pred, why):
        if i >= len(self.ch):
            return False
        v = self.ch[i]
        if isinstance(v, str):
            return bool(pred(v))
        live = self.st.live_of(v.var)
        yes = frozenset(j for j in live if pred(v.vals[j]))
        no = live - yes
        if not yes:
            return False
        if not no:
            return True
        r = self.st.choose(2, 'character %d %s' % (i, why)) == 0
        self.st.live[v.var.name] = yes if r else no
        return r

    def is_(self, i, c):
        return self.test(i, lambda x: x == c, 'is %r' % c)

    def text(self, a, b):
        return [self.st.norm(c) for c in self.ch[a:b]]

    def word(self, i):
        j = i
        while self.test(j, lambda c: c.isalpha() or c.isdigit() or c == '_', 'continues a name'):
            j += 1
        return j

    def matches(self, a, b, kw):
        if b - a != len(kw):
            return False
        return all(self.test(a + n, lambda c, n=n: c.lower() == kw[n], 'spells ' + kw) for n in range(len(kw)))

    def tokens(self):
        out = [('START', 0, None)]
        while True:
            while self.test(self.p, str.isspace, 'is space'):
                self.p += 1
            if self.p >= len(self.ch):
                out.append(('END', self.p, None))
                return out
            out.append(self.token())

    def token(self):
        p = self.p
        for c, t in SINGLE.items():
            if self.is_(p, c):
                self.p += 1
                return (t, p, None)
        if self.is_(p, '='):
            self.p += 1
            return ('OP', p, '=')
        for c in '<>':
            if self.is_(p, c):
                if self.is_(p + 1, '='):
                    self.p += 2
                    return ('OP', p, c + '=')
                self.p += 1
                return ('OP', p, c)
        if self.is_(p, '!'):
            if not self.is_(p + 1, '='):
                raise Reject()
            self.p += 2
            return ('OP', p, '!=')
        if self.is_(p, '"'):
            j = p + 1
            while not self.is_(j, '"'):
                if j >= len(self.ch) or not self.test(j, lambda c: 32 <= ord(c) <= 126, 'is a string character'):
                    raise Reject()
                j += 1
            self.p = j + 1
            return ('STRING', p, cat(self.text(p + 1, j)))
        dec = lambda i: self.test(i, str.isdecimal, 'is a digit')
        if dec(p) or (self.is_(p, '-') and dec(p + 1)):
            j = p + 1
            while dec(j):
                j += 1
            if not self.is_(j, '.'):
                self.p = j
                return ('INT', p, ('int', self.text(p, j)))
            if not dec(j + 1):
                raise Reject()
            j += 1
            while dec(j):
                j += 1
            if self.is_(j, '.'):
                raise Reject()
            self.p = j
            return ('FLOAT', p, ('float', self.text(p, j)))
        if self.test(p, str.isalpha, 'is a letter'):
            j = self.word(p)
            if self.is_(j, '.'):
                e = self.word(j + 1)
                if e == j + 1:
                    raise Reject()
                for c, t in CATTOK.items():
                    if self.matches(p, j, c):
                        self.p = e
                        return (t, p, cat(self.text(j + 1, e)))
                raise Reject()
            for kw, (t, v) in KW.items():
                if self.matches(p, j, kw):
                    self.p = j
                    return (t, p, v)
        raise Reject()


def describe(st, chars):
    out = []
    for v in chars:
        if isinstance(v, str):
            out.append(v)
            continue
        l = [v.vals[i] for i in sorted(st.live_of(v.var))]
        out.append(l[0] if len(l) == 1 else '[%s%s]' % (''.join(l[:4]), '' if len(l) <= 4 else '...'))
    return repr(''.join(out))


def ob(spec, mode='tokenize'):
    """spec: list of characters or tuples of characters"""
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        L = anchor(I, 'hgpl.lexing', 'Lexer')
        chars = [c if isinstance(c, str) else st.fd('ch%d' % i, c) for i, c in enumerate(spec)]
        text = cat(chars)
        try:
            lx = I.call(L, [text], {})
            if mode == 'tokenize':
                I.call(I.getattr(lx, 'tokenize'), [], {})
                lst = I.call(I.getattr(lx, 'toke_list'), [], {})
            else:
                items = []
                while True:
                    t = I.call(I.getattr(lx, 'next'), [], {})
                    if t is None:
                        break
                    items.append(t)
                    if len(items) > len(spec) + 3:
                        raise Undecided('next() does not end')
                lst = I.call(I.getattr(lx, 'toke_list'), [], {})
            got, where = list(I.iterate(lst)), I.lastret
        except PyRaise as e:
            got, where = exc_name(e), e.where
        rl = RefLex(st, chars)
        try:
            ref = rl.tokens()
        except Reject:
            ref = 'LexerError'
        d = describe(st, chars)
        if isinstance(got, str) or isinstance(ref, str):
            C.expect(got == ref, 'text %s: %s where it %s' % (
                d, 'raises ' + got if isinstance(got, str) else 'tokenized as %s' % [tokdesc(I, t) for t in got],
                'must be rejected with LexerError' if isinstance(ref, str) else 'denotes %s' % (ref,)), where)
            return
        if len(got) != len(ref):
            C.expect(False, 'text %s: %d tokens instead of %d' % (d, len(got), len(ref)), where)
            return
        for g, r in zip(got, ref):
            bad = None
            ty = st.norm(I.getattr(g, 'type'))
            if not (isinstance(ty, EnumV) and ty.name == r[0]):
                bad = 'type %s instead of %s' % (show(ty), r[0])
            elif st.norm(I.getattr(g, 'pos')) != r[1]:
                bad = 'position %s instead of %s' % (show(I.getattr(g, 'pos')), r[1])
            else:
                want = r[2]
                if isinstance(want, tuple):
                    want = I.call(BuiltinV(want[0]), [cat(want[1])], {})
                v = I.getattr(g, 'value')
                if not same_val(st, I, v, want):
                    bad = 'value %s instead of %s' % (show(v), show(want))
            C.expect(bad is None, 'text %s: token %s has %s' % (d, r[0], bad), where,
                     key=('tok', r[0], bad and bad.split()[0]))
    return run


def same_val(st, I, a, b):
    a, b = st.norm(a), st.norm(b)
    if ckey(a) == ckey(b):
        return True
    if kind_of(a, st) != kind_of(b, st):
        return False
    if kind_of(a, st) == 'str':
        pa = [st.norm(x) for x in cat_parts(a)]
        pb = [st.norm(x) for x in cat_parts(b)]
        return ckey(cat(pa)) == ckey(cat(pb))
    return bool(I.truth(I.eq(a, b)))


def tokdesc(I, t):
    try:
        return (show(I.getattr(t, 'type')), show(I.getattr(t, 'pos')), show(I.getattr(t, 'value')))
    except PyRaise:
        return show(t)


def cases(w):
    return [(c.lower(), c.upper()) if c.isalpha() else c for c in w]


DIG = tuple('0123456789')
NUMCH = DIG + ('.', '-', ' ', 'a', '٣', '²')
IDCH = ('a', 'Z', '_', '7', '.', ' ', '=', 'é', '²', '-')


def obligations(tier):
    U = UNIVERSE
    yield 'empty text', ob([])
    yield 'all texts of 1 character', ob([U])
    yield 'all texts of 2 characters', ob([U, U])
    groups = [tuple(c for c in U if c.isalpha()), tuple(c for c in U if c.isdigit()), tuple('{},()='), tuple('<>!"'),
              ('"',), ('-', '.', '_')]
    rest = tuple(c for c in U if not any(c in g for g in groups))
    for i, g in enumerate(groups + [rest]):
        for j, h in enumerate(groups + [rest]):
            yield 'all texts of 3 characters, classes %d %d *' % (i, j), ob([g, h, U]), {'max_paths': 60000}
    yield 'one token at a time', ob([U, U], 'next')
    for kw in sorted(KW):
        yield 'keyword %s + 1' % kw, ob(cases(kw) + [U])
        yield '1 + keyword %s' % kw, ob([U] + cases(kw))
        yield 'keyword %s + space + 1' % kw, ob(cases(kw) + [' ', U])
        yield 'near keyword ' + kw, ob(cases(kw)[:-1] + [tuple(c for c in U if c.isalnum() or c in ' _.')])
    for c in sorted(CATTOK):
        yield 'attribute %s.' % c, ob(cases(c) + ['.'])
        yield 'attribute %s. + 2' % c, ob(cases(c) + ['.', U, IDCH])
        yield 'attribute %s + 2' % c, ob(cases(c) + [U, IDCH])
        yield 'near attribute prefix ' + c, ob(cases(c)[:-1] + ['.', 'x'])
        yield 'prefixed attribute prefix ' + c, ob([U] + cases(c) + ['.', 'x'])
        yield 'attribute %s name case' % c, ob(cases(c) + ['.'] + cases('ab') + ['_', '1'])
    yield 'number 1', ob([NUMCH, NUMCH, NUMCH, NUMCH]), {'max_paths': 60000}
    yield 'number 2', ob(['-', DIG, NUMCH, NUMCH, NUMCH]), {'max_paths': 60000}
    yield 'number 3', ob([DIG, '.', DIG, NUMCH, NUMCH]), {'max_paths': 60000}
    yield 'number 4', ob([DIG, DIG, DIG, DIG, DIG, '.', DIG, DIG]), {'max_paths': 60000}
    yield 'number 5', ob([DIG] * 12), {'max_paths': 60000}
    yield 'number then token', ob([DIG, '.', DIG, U]), {'max_paths': 60000}
    yield 'string 1', ob(['"', U, U, '"']), {'max_paths': 60000}
    yield 'string 2', ob(['"', 'x', U, 'y', '"', U]), {'max_paths': 60000}
    yield 'string 3', ob(['"', '"', U])
    yield 'string unterminated', ob(['"', U, U])
    yield 'white space', ob([(' ', '\t', '\n', '\r', '\x0b', '\x0c', '\u00a0'), '(', (' ', '\t', '\n', 'x'), ')', (' ', '\n')])
    for o in ('=', '!=', '<', '>', '<=', '>='):
        yield 'operator %s between' % o, ob(list('1') + list(o) + [U]), {'max_paths': 60000}
        yield 'operator %s after 1' % o, ob([U] + list(o) + ['2'])
    yield 'policy text 1', ob(list('user.age >= ') + [DIG, ' '] + cases('and') + list(' not (env.x) or object.y in {1, "a b", null}'))
    yield 'policy text 2', ob(list('{1.5,"x"}') + cases('subset') + list('{-2}') + cases('or') + [' '] + cases('connect.z') + list('!=null'))
    mix = lambda a, m: [a[i % len(a)] for i in range(m)]
    n = 300 if tier == 'quick' else 1000
    for c in sorted(CATTOK):
        yield 'long name of %s' % c, ob(list(c) + ['.'] + mix('abcXYZ_019qrs', n) + [IDCH])
    yield 'long string', ob(['"'] + mix('ab c9_.=!{}()<', n) + [('"', 'x', '\t'), '"'])
    yield 'long unterminated string', ob(['"'] + mix('ab c9_.=!{}()<', n))
    yield 'long number', ob(mix('1234567890', 60) + [('.', '7', ' ', 'a')] + mix('987', 60))
    yield 'long negative number', ob(['-'] + mix('1234567890', 40) + [DIG])
    for m in (9, 10, 11, 16, 19, 20):
        yield 'number of %d digits' % m, ob(mix('7391', m) + [('3', '.')] + ['5'])
    yield 'long decimals', ob(['0', '.'] + mix('0000013', 50) + [DIG])
    yield 'long white space', ob(['('] + mix(' \t\n\r', n) + [(')', ' ')])
    yield 'many tokens', ob(sum([list('user.a%d = %d and ' % (i, i)) for i in range(n // 4)], []) + [('1', '!')])
    yield 'many brackets', ob(mix('(){},', n))
    yield 'many operators', ob(mix(['<', ' ', '>', '=', ' ', '!', '=', '<', '=', ' ', '='], n - n % 11))
    yield 'word before a long text', ob(cases('in') + [' '] * n + cases('subset'))
    if tier == 'thorough':
        for i, g in enumerate(groups + [rest]):
            for h in (tuple('aZ_9. ="-!<'), ):
                yield '4 characters, class %d' % i, ob([g, h, h, U]), {'max_paths': 200000}
        yield 'number 6', ob([NUMCH] * 6), {'max_paths': 200000}
        yield 'names', ob([IDCH] * 5), {'max_paths': 200000}
