"""Round trip of attribute certificates."""
from .acs import *
from .c04 import snapshot

RULE = ('For every part class the analyser runs encode() on unknown contents (texts and byte strings of unknown length, '
        'optional fields absent, empty or present), appends unknown bytes and runs decode(): every field comes back as the same '
        'term and exactly the appended bytes are left. For whole certificates it runs export_ac and import_ac in the three '
        'binary formats over all combinations of optional parts and compares every field, the order of attributes and '
        'extensions, and the == of the two certificates. An encoder may refuse (struct.error) only what does not fit its '
        'size fields; values up to 65535 bytes, 160-bit serials and 32-bit times have to be accepted.')
BOUNDS = ('attribute sets and extensions of 0, 1, 2 and 300 members; field contents unknown; concrete sizes 1, 255, 256, '
          '65535 per field for acceptance')


def encode(C, a, p, what, refuse=True):
    I = a.I
    try:
        return I.call(I.getattr(p, 'encode'), [], {})
    except PyRaise as e:
        if refuse and exc_name(e) in REFUSALS:
            raise Infeasible()
        C.expect(False, '%s: encoding raises %s' % (what, exc_name(e)), e.where)
        return None


def back(C, a, cls, p, enc, what):
    """Decode enc + unknown rest and compare."""
    I = a.I
    rest = sym('rest', 'bytes')
    buf = BArr(bcat([enc, rest]))
    try:
        q = I.call(I.getattr(a.cls(cls), 'decode'), [buf], {})
    except PyRaise as e:
        C.expect(False, '%s: decoding what was encoded raises %s' % (what, exc_name(e)), e.where)
        return
    site = I.lastret
    d = a.diff_part(cls, p, q)
    C.expect(d is None, '%s: %s' % (what, d), site, key=(cls, d and d.split(' ')[0]))
    C.expect(surely_equal(a.st, I, buf.content, rest), '%s: decoding leaves %s instead of the bytes that follow' % (
        what, show(buf.content)), site)
    return q


def ob_part(cls):
    def run(st, C):
        I = C.interp(st)
        a = AC(I)
        kw = a.fields(cls)
        if cls == 'ACAttribute':
            kw['att_type'] = a.member('AttributeType', ATYPES[st.choose(len(ATYPES), 'attribute type')])
        for f, opt in FIELDS[cls]:
            if f in ('version', 'serial', 'issued', 'valid_after', 'valid_before', 'att_type'):
                continue
            empty = '' if kind_of(kw[f], st) == 'str' else b''
            n = st.choose(3 if opt else 2 if cls != 'ACSignature' else 1, f)
            kw[f] = (kw[f], empty, None)[n]
        p = a.make(cls, **kw)
        enc = encode(C, a, p, cls)
        if enc is None:
            return
        q = back(C, a, cls, p, enc, cls)
        if q is not None and all(not (opt and (isinstance(kw[f], (str, bytes)))) for f, opt in FIELDS[cls]):
            C.expect(bool(I.truth(I.eq(p, q))), '%s: the decoded part does not equal the original' % cls)
    return run


def ob_mixed(cls):
    """Texts that may be empty or not, of unknown length, decided by the code's own tests."""
    def run(st, C):
        I = C.interp(st)
        a = AC(I)
        kw = a.fields(cls, flags='' if cls != 'ACSignature' else 'n')
        p = a.make(cls, **kw)
        enc = encode(C, a, p, cls)
        if enc is not None:
            back(C, a, cls, p, enc, cls)
    return run


SIZES = (1, 255, 256, 65535)


def ob_size(cls, f):
    def run(st, C):
        I = C.interp(st)
        a = AC(I)
        kw = {}
        for g, v in a.fields(cls).items():
            k = kind_of(v, st)
            kw[g] = {'str': 'x', 'bytes': b'k', 'int': 5}.get(k, v)
        n = SIZES[st.choose(len(SIZES), 'size of ' + f)]
        for unit in ('a', '\u00e9'):
            if unit != 'a' and isinstance(kw[f], bytes):
                continue
            m = n // len(unit.encode())
            v = (unit * m) if isinstance(kw[f], str) else b'\x81' * n
            if len(v) == 0:
                continue
            p = a.make(cls, **dict(kw, **{f: v}))
            w = '%s with %s of %d bytes' % (cls, f, n)
            enc = encode(C, a, p, w, refuse=False)
            if enc is not None:
                back(C, a, cls, p, enc, w)
    return run


def ob_numbers(cls, f, bits):
    def run(st, C):
        I = C.interp(st)
        a = AC(I)
        kw = {}
        for g, v in a.fields(cls).items():
            k = kind_of(v, st)
            kw[g] = {'str': 'x', 'bytes': b'k', 'int': 5}.get(k, v)
        vals = (0, 1, 127, 128, 255, 256, 1 << 31, (1 << 32) - 1, 1 << 64, 1 << 152, 1 << 159, (1 << 160) - 1)
        vals = [v for v in vals if v < 1 << bits]
        v = vals[st.choose(len(vals), f)]
        p = a.make(cls, **dict(kw, **{f: v}))
        w = '%s with %s = %d' % (cls, f, v)
        enc = encode(C, a, p, w, refuse=False)
        if enc is not None:
            back(C, a, cls, p, enc, w)
    return run


def trip(C, a, cert, fmt, what, check_eq=True):
    I = a.I
    F = a.member('ExportFormat', fmt)
    before = snapshot(cert)
    try:
        out = I.call(I.getattr(cert, 'export_ac'), [F], {})
    except PyRaise as e:
        if exc_name(e) in REFUSALS:
            raise Infeasible()
        C.expect(False, '%s: export raises %s' % (what, exc_name(e)), e.where)
        return
    C.expect(snapshot(cert) == before, '%s: exporting changes the certificate' % what)
    want = {'BYTES': ('bytearray',), 'BASE64': ('bytes', 'bytearray'), 'BASE64FULL': ('str',)}[fmt]
    C.expect(kind_of(out, a.st) in want, '%s: the export is a %s' % (what, kind_of(out, a.st)))
    try:
        imp = I.call(I.getattr(a.cls('AttributeCertificate'), 'import_ac'), [out, F], {})
    except PyRaise as e:
        C.expect(False, '%s: importing the export raises %s%s' % (what, exc_name(e), show(e.value.attrs.get('args', ''))),
                 e.where)
        return
    site = I.lastret
    d = a.diff(cert, imp)
    C.expect(d is None, '%s: %s' % (what, d), site)
    if check_eq and d is None:
        try:
            r = bool(I.truth(I.eq(cert, imp))) and bool(I.truth(I.eq(imp, cert)))
        except PyRaise as e:
            C.expect(False, '%s: comparing the certificates raises %s' % (what, exc_name(e)), e.where)
            return
        C.expect(r, '%s: the imported certificate does not equal the original' % what)
    return imp


def ob_cert(fmt, na, ne):
    def run(st, C):
        I = C.interp(st)
        a = AC(I)
        de = (None, 'empty', 'bytes')[st.choose(3, 'delegation rules')]
        sg = st.choose(2, 'signature') == 0
        full = st.choose(2, 'optional fields') == 0
        what = '%s export with %s attributes, %s extensions%s%s' % (fmt, na, ne, ', delegation ' + de if de else '',
                                                                 ', signed' if sg else '')
        c = a.cert(na, ne, de, sg, full)
        for n in ('att_set', 'extensions'):
            l = I.getattr(c, n)
            if l is not None and len(l.items) == 2:
                # distinct ids, or the same id twice
                f = 'att_id' if n == 'att_set' else 'eid'
                if st.choose(2, n + ' with equal ids') == 1:
                    I.setattr(l.items[1], f, I.getattr(l.items[0], f))
        trip(C, a, c, fmt, what)
    return run


def ob_many(fmt):
    def run(st, C):
        I = C.interp(st)
        a = AC(I)
        c = a.cert(0, 0, None, True, False)
        S = a.member('AttributeType', 'INT')
        I.setattr(c, 'att_set', ListO([a.make('ACAttribute', att_id='/a/%d' % i, att_type=S, att_value=str(i))
                                       for i in range(300)]))
        I.setattr(c, 'extensions', ListO([a.make('ACExtensions', eid='e%d' % i) for i in range(260)]))
        trip(C, a, c, fmt, '%s export with 300 attributes' % fmt, check_eq=False)
    return run


def obligations(tier):
    for cls in FIELDS:
        yield 'part %s' % cls, ob_part(cls)
        yield 'part %s, any text' % cls, ob_mixed(cls)
        for f, opt in FIELDS[cls]:
            if f in ('version', 'serial', 'issued', 'valid_after', 'valid_before'):
                yield '%s.%s values' % (cls, f), ob_numbers(cls, f, {'version': 8, 'serial': 160}.get(f, 32))
            elif f != 'att_type':
                yield '%s.%s sizes' % (cls, f), ob_size(cls, f)
    for fmt in ('BYTES', 'BASE64', 'BASE64FULL'):
        for na in (None, 0, 1, 2):
            for ne in (None, 0, 1, 2):
                yield '%s certificate, %s attributes, %s extensions' % (fmt, na, ne), ob_cert(fmt, na, ne)
        yield '%s many attributes' % fmt, ob_many(fmt), {'budget': 20000000}
