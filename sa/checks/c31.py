"""Errors and warnings of the policy language point at the fault."""
from . import c07, c08, c09
from .kit import *

RULE = ('The lexer and parser are analysed on texts of unknown characters and on unknown token sequences, the type checker and '
        'the interpreter on unknown comparisons. On every path that ends in an error: a lexer error carries the policy text '
        'and a position between the start of the first invalid token and the character that makes it invalid; a parser error '
        'carries the policy text and a token of the sequence with that token\'s position, where everything before the token '
        'can be continued to a policy and the token or the one after it cannot; type checker issues carry the policy text and '
        'the operator token, its position and both operand tokens; interpreter warnings about an attribute carry the policy '
        'text and the position of that attribute. near() and str() of every error class on every position give the text '
        'around the position and never raise.')
BOUNDS = ('texts up to 3 unknown characters and token patterns up to 6 tokens; near() for texts of up to 12 characters, '
          'positions -1..14 and lengths 0..13')


class RefLex(c08.RefLex):
    """Also computes the first character that keeps the text from being a sequence of tokens."""
    def fault(self):
        try:
            self.tokens()
            return None
        except c08.Reject:
            pass
        p = self.p
        if self.is_(p, '!'):
            return p, p + 1
        if self.is_(p, '"'):
            j = p + 1
            while j < len(self.ch) and self.test(j, lambda c: 32 <= ord(c) <= 126, 'is a string character'):
                j += 1
            return p, j
        dec = lambda i: self.test(i, str.isdecimal, 'is a digit')
        if dec(p) or (self.is_(p, '-') and dec(p + 1)):
            j = p + 1
            while dec(j):
                j += 1
            j += 1
            while dec(j):
                j += 1
            return p, j
        if self.test(p, str.isalpha, 'is a letter'):
            j = self.word(p)
            if self.is_(j, '.'):
                j = self.word(j + 1)
            return p, j
        return p, p


def text_of(st, I, C, e, text, what):
    got = I.getattr(e.value, 'policy_text')
    C.expect(got is not None and c08.same_val(st, I, got, text), '%s carries the text %s, not the policy' % (what, show(got)),
             e.where, key=('text', what))


def ob_lex(spec):
    def run(st, C):
        I = C.interp(st)
        L = anchor(I, 'hgpl.lexing', 'Lexer')
        chars = [c if isinstance(c, str) else st.fd('ch%d' % i, c) for i, c in enumerate(spec)]
        text = cat(chars)
        try:
            lx = I.call(L, [text], {})
            I.call(I.getattr(lx, 'tokenize'), [], {})
            return
        except PyRaise as e:
            err = e
        if exc_name(err) != 'LexerError':
            return                              # the business of C08
        f = RefLex(st, chars).fault()
        if f is None:
            return
        d = c08.describe(st, chars)
        pos = I.getattr(err.value, 'pos')
        C.expect(isinstance(pos, int) and f[0] <= pos <= f[1], 'text %s: the error is reported at %s, the fault is at %d to %d' % (
            d, show(pos), f[0], f[1]), err.where)
        text_of(st, I, C, err, text, 'a lexer error')
        printable(I, C, err.value, 'a lexer error', err.where)
    return run


class RefParse(c07.Ref):
    def fault(self):
        """Index of the first token after which no policy is possible, or None."""
        try:
            self.parse()
            return None
        except c07.Reject:
            return self.i


def ob_parse(spec):
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        P = anchor(I, 'hgpl.parsing', 'Parser')
        kinds = [s if isinstance(s, str) else st.fd('tok%d' % i, s) for i, s in enumerate(spec)] + ['END']
        toks = c07.make_tokens(k, kinds)
        lst = ListO([I.call(k.Token, [k.member(k.TT, 'START'), 0], {})] + toks)
        text = sym('policytext', 'str')
        try:
            I.call(I.getattr(I.call(P, [lst, text], {}), 'parse'), [], {})
            return
        except PyRaise as e:
            err = e
        if exc_name(err) != 'ParserError':
            return                              # the business of C07
        f = RefParse(st, kinds).fault()
        if f is None:
            return
        d = c07.describe(st, kinds)
        pos = I.getattr(err.value, 'pos')
        tok = I.getattr(err.value, 'token')
        at = [i for i, t in enumerate(toks) if isinstance(tok, Inst) and c07.same_tok(I, tok, t)]
        C.expect(at and pos == I.getattr(toks[at[0]], 'pos'),
                 'token sequence [%s]: the error carries position %s and token %s' % (d, show(pos), c08.tokdesc(I, tok)
                                                                                      if tok is not None else None), err.where)
        if at:
            C.expect(at[0] in (f, f - 1), 'token sequence [%s]: the error is reported at token %d, the first token that does '
                     'not fit is %d' % (d, at[0], f), err.where)
        text_of(st, I, C, err, text, 'a parser error')
    return run


def ob_types(op):
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        TC = anchor(I, 'hgpl.semantics', 'TypeChecker')
        cmps = c09.single(op)(st)
        second = st.choose(2, 'a second comparison')
        if second:
            cmps.append(('=', 'x', ('str', 'int')[st.choose(2, 'second constant')]))
        t, ns = c09.tree(k, cmps, 'and')
        text = sym('policytext', 'str')
        tc = I.call(TC, [t, text], {})
        try:
            I.call(I.getattr(tc, 'check'), [], {})
        except PyRaise:
            return
        site = I.lastret
        for w in I.iterate(I.call(I.getattr(tc, 'get_issues'), [], {})):
            tok = I.getattr(w, 'token')
            at = [n for n in ns if c07.same_tok(I, tok, I.getattr(n, 'token'))]
            C.expect(bool(at), 'policy [%s]: an issue does not carry the token of its operator' % c09.desc(cmps), site)
            C.expect(ckey(I.getattr(w, 'policy_text')) == ckey(text), 'an issue carries %s, not the policy text' % show(
                I.getattr(w, 'policy_text')), site)
            if at:
                pos = I.getattr(w, 'pos')
                C.expect(pos == I.getattr(I.getattr(at[0], 'token'), 'pos'),
                         'policy [%s]: an issue is reported at %s, not at its operator' % (c09.desc(cmps), show(pos)), site)
                ch = list(I.iterate(I.call(I.getattr(at[0], 'children'), [], {})))
                for f, n in (('left', ch[0]), ('right', ch[1])):
                    g = I.getattr(w, f)
                    C.expect(g is not None and c07.same_tok(I, g, I.getattr(n, 'token')),
                             'policy [%s]: the %s token of an issue is not that of the %s operand' % (c09.desc(cmps), f, f), site)
    return run


def ob_warn(op):
    """Warnings about attributes: position, policy text, node."""
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        t = k.table()
        bad = BADATTS[st.choose(len(BADATTS), 'unusable attribute')]
        left = st.choose(2, 'side') == 0
        a, _ = operand(k, bad, 'L', t)
        b = k.const('int', 'c')[0]
        if op is None:
            n = k.not_(a)
        else:
            n = k.op(op, a, b) if left else k.op(op, b, a)
        text = sym('policytext', 'str')
        it = I.call(k.Interpreter, [n, text], {})
        try:
            I.call(I.getattr(it, 'evaluate'), [t], {})
        except PyRaise:
            return
        ws = list(I.iterate(I.call(I.getattr(it, 'get_warnings'), [], {})))
        C.expect(bool(ws), 'no warning although %s is unusable' % oname(bad))
        pos = I.getattr(I.getattr(a, 'token'), 'pos')
        C.expect(any(I.getattr(w, 'pos') == pos for w in ws), 'no warning at the position of the unusable attribute %s' % oname(bad))
        for w in ws:
            p = I.getattr(w, 'pos')
            C.expect(p == -1 or p == pos or p in nodepos(I, n), 'a warning is reported at %s, where nothing is' % show(p))
            C.expect(ckey(I.getattr(w, 'policy_text')) == ckey(text), 'a warning carries %s, not the policy text' % show(
                I.getattr(w, 'policy_text')))
            ty = I.getattr(w, 'type')
            C.expect(isinstance(ty, EnumV) and ty.name == 'WARN', 'a warning is of level %s' % show(ty))
    return run


def nodepos(I, n):
    out = [I.getattr(I.getattr(n, 'token'), 'pos')]
    for c in I.iterate(I.call(I.getattr(n, 'children'), [], {})):
        out += nodepos(I, c)
    return out


def printable(I, C, e, what, where):
    try:
        s = I.call(BuiltinV('str'), [e], {})
    except PyRaise as x:
        C.fail('str() of %s raises %s' % (what, exc_name(x)), x.where)
        return None
    return s


CLASSES = ('HGPLError', 'LexerError', 'ParserError', 'TypeCheckerError', 'TypeCheckerWarning', 'InterpreterError',
           'InterpreterWarning')
LEVEL = {'TypeCheckerWarning': 'WARN', 'InterpreterWarning': 'WARN'}
SAMPLE = 'abcdefghijkl'


def ob_near(cls):
    def run(st, C):
        I = C.interp(st)
        K = anchor(I, 'hgpl.errors', cls)
        text = (None, '', 'a', SAMPLE[:5], SAMPLE)[st.choose(5, 'text')]
        pos = st.choose(16, 'position') - 1
        msg = sym('message', 'str')
        e = I.call(K, [msg, text, pos], {})
        for f, w in (('message', msg), ('policy_text', text), ('pos', pos)):
            g = I.getattr(e, f)
            C.expect(ckey(g) == ckey(w), '%s of a %s is %s, not what it was made with' % (f, cls, show(g)))
        lv = I.getattr(e, 'type')
        C.expect(isinstance(lv, EnumV) and lv.name == LEVEL.get(cls, 'ERROR'), 'a %s has level %s' % (cls, show(lv)))
        for n in (None,) + tuple(range(14)):
            try:
                g = I.call(I.getattr(e, 'near'), [] if n is None else [n], {})
            except PyRaise as x:
                C.fail('near() of a %s raises %s' % (cls, exc_name(x)), x.where)
                continue
            k = 10 if n is None else n
            w = text[max(0, pos - k):pos + k + 1] if text and pos >= 0 else None
            C.expect(ckey(g) == ckey(w), 'near(%s) at %d in %r is %s instead of %r' % (n, pos, text, show(g), w), I.lastret)
        s = printable(I, C, e, 'a ' + cls, None)
        if s is None:
            return
        parts = [st.norm(p) for p in cat_parts(s)]
        C.expect(any(ckey(p) == ckey(msg) for p in parts) or (isinstance(s, str) and isinstance(msg, str) and msg in s), 'str() of a %s does not have its message: %s' % (cls, show(s)))
        lit = ''.join(p for p in parts if isinstance(p, str))
        if pos >= 0:
            C.expect(str(pos) in lit, 'str() of a %s at %d does not name the position: %s' % (cls, pos, show(s)))
            if text:
                C.expect(text[max(0, pos - 10):pos + 11] in lit, 'str() of a %s at %d in %r does not show the text around: %s' % (
                    cls, pos, text, show(s)))
    return run


def ob_pipeline(text, stage):
    """From the text on: lexer, parser, type checker, interpreter."""
    def run(st, C):
        I = C.interp(st)
        k = Kit(I)
        lx = I.call(anchor(I, 'hgpl.lexing', 'Lexer'), [text], {})
        try:
            p = I.call(anchor(I, 'hgpl.parsing', 'Parser'), [lx], {})
            if stage == 'parse':
                I.call(I.getattr(p, 'parse'), [], {})
                errs = []
            elif stage == 'check':
                tc = I.call(anchor(I, 'hgpl.semantics', 'TypeChecker'), [p], {})
                I.call(I.getattr(tc, 'check'), [], {})
                errs = list(I.iterate(I.call(I.getattr(tc, 'get_issues'), [], {})))
            else:
                it = I.call(k.Interpreter, [p], {})
                I.call(I.getattr(it, 'evaluate'), [], {})
                errs = list(I.iterate(I.call(I.getattr(it, 'get_warnings'), [], {})))
        except PyRaise as e:
            errs = [e.value]
        C.expect(bool(errs), '%r gives no error or warning' % text)
        for e in errs:
            C.expect(I.getattr(e, 'policy_text') == text, 'for %r the text %s is reported' % (text, show(I.getattr(e, 'policy_text'))))
            pos = I.getattr(e, 'pos')
            C.expect(isinstance(pos, int) and -1 <= pos <= len(text), 'for %r position %s is reported' % (text, show(pos)))
    return run


PIPE = [('1 = = 2', 'parse'), ('user.a = ', 'parse'), ('(user.a = 1', 'parse'), ('1 < "a" AND NULL > user.b', 'check'),
        ('{1} < 2 OR user.x = 1 AND user.x = "a"', 'check'), ('user.x AND env.y = 3', 'run'), ('1 = "a" OR NOT object.z', 'run')]


D = c08.DIG
BAD = [[D, '.', D, '.', D], ['1', D, D, '.', D, D, '.', '7'], ['-', D, '.', '.', D], [D, D, '.', ('x', ' ', '"', '-')],
       list('user.'), list('user.') + [(' ', '=', '.', '-', '"')], list('usr.') + ['a', 'b'], list('usr.'), list('word'), ['w', D, '_'],
       ['!', (' ', '!', 'x', '1')], ['"', 'a', ('\t', '\n', '\x7f', '\xe9', '\x1f')], list('"never closed'),
       [('%', '&', '#', '_', '.', '-', '+', '\u20ac')], list('andd'), list('objects.a')]


def obligations(tier):
    U = c08.UNIVERSE
    for t, s in PIPE:
        yield 'from the text %r' % t, ob_pipeline(t, s)
    for c in CLASSES:
        yield 'near and str of ' + c, ob_near(c)
    for op in CMP:
        yield 'type issues of ' + op, ob_types(op)
        yield 'attribute warnings of ' + op, ob_warn(op)
    yield 'attribute warnings of NOT', ob_warn(None)
    yield 'texts of 1', ob_lex([U])
    yield 'texts of 2', ob_lex([U, U])
    yield 'text after tokens', ob_lex(list('1 = ') + [U, U]), {'max_paths': 60000}
    yield 'text after an attribute', ob_lex(list('user.x ') + [U, c08.IDCH]), {'max_paths': 60000}
    yield 'numbers', ob_lex([' '] + [c08.NUMCH] * 4), {'max_paths': 60000}
    yield 'strings', ob_lex(['(', '"', U, U]), {'max_paths': 60000}
    yield 'strings and more', ob_lex(['"', 'x', '"', ' ', '"', U, U]), {'max_paths': 60000}
    yield 'names', ob_lex([' '] + [c08.IDCH] * 4), {'max_paths': 60000}
    yield 'attribute names', ob_lex(list('env.a = uzer') + [c08.IDCH] * 3), {'max_paths': 60000}
    for pre in ('user.abc = ', 'TRUE AND object.name_1 != "x y" OR ', '\n\t( ', '{1, 2.5} SUBSET'):
        for bad in BAD:
            yield 'invalid %r after %r' % (''.join(b if isinstance(b, str) else '?' for b in bad), pre), \
                ob_lex(list(pre + ' ') + bad + list(' OR user.b = 1')), {'max_paths': 60000}
    F = c07.FULL
    for n in range(0, 3):
        yield 'sequences of %d tokens' % n, ob_parse([F] * n), {'max_paths': 60000}
    for f in F:
        yield 'sequences %s + 2 tokens' % f, ob_parse([f] + [F] * 2), {'max_paths': 60000}
    S = c07.SMALL
    for f in S:
        yield 'sequences %s + 4 over the reduced alphabet' % f, ob_parse([f] + [S] * 4), {'max_paths': 200000}
        if tier == 'thorough':
            for g in S:
                yield 'sequences %s %s + 4 over the reduced alphabet' % (f, g), ob_parse([f, g] + [S] * 4), {'max_paths': 200000}
    yield 'set then more', ob_parse(['USR_ATT', 'OP', 'LSET', c07.ATOMS, ('COMMA', 'RSET'), F]), {'max_paths': 60000}
    yield 'parentheses', ob_parse(['NOT_OP', 'LPARN', 'BOOL', F, F]), {'max_paths': 60000}
