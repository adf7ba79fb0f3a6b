"""Signatures of attribute certificates."""
from .acs import *

RULE = ('Signing, verification, export and import of a certificate with unknown contents are analysed over all combinations of '
        'optional parts. The bytes handed to the hash by sign() must decode (with the code\'s own decoder) to every field of '
        'the certificate; verify_signature() may return true only on paths on which the signature check of exactly those '
        'bytes, the certificate\'s own signature value and the key imported from its issuer public key succeeded; '
        'import with verification returns only on such paths and never when bytes follow; a signed export needs a key, and '
        'its signature is one made with that key over the exported content.')
BOUNDS = 'attribute sets and extensions of 0, 1, 2 members; unknown field contents; all export formats'
SIZES = (None, 0, 1, 2)
BIN = ('BYTES', 'BASE64', 'BASE64FULL')


def the_key(a, name='K'):
    t = sym(name, 'rsa')
    return ExtO('rsa', term=t, private=True, bits=2048)


def pub(I, key):
    return I.method(I.method(key, 'publickey', [], {}), 'exportKey', [], {'format': 'DER'})


def shape(st):
    na = SIZES[st.choose(4, 'attributes')]
    ne = SIZES[st.choose(4, 'extensions')]
    de = (None, 'empty', 'bytes')[st.choose(3, 'delegation rules')]
    full = st.choose(2, 'optional fields') == 0
    return na, ne, de, full


def body_of(C, a, cert, refuse=True):
    """The bytes sign() signs for this certificate, as a term (the certificate keeps its signature)."""
    I, st = a.I, a.st
    old = I.getattr(cert, 'signature')
    n = len(st.events)
    try:
        I.call(I.getattr(cert, 'sign'), [the_key(a, 'probe')], {})
    except PyRaise as e:
        if refuse and exc_name(e) in REFUSALS:
            raise Infeasible()
        raise
    I.setattr(cert, 'signature', old)
    ev = [e for e in st.events[n:] if e['kind'] == 'sign']
    if len(ev) != 1 or not isinstance(ev[0]['hash'], T) or ev[0]['hash'].op != 'hashobj':
        return None
    return ev[0]['hash'].args[1]


def strip_sig(I, cert, sig=None):
    I.setattr(cert, 'signature', sig)
    return cert


def ob_covers(st, C):
    """Every field is in the signed bytes."""
    I = C.interp(st)
    a = AC(I)
    na, ne, de, full = shape(st)
    cert = a.cert(na, ne, de, False, full)
    try:
        body = body_of(C, a, cert)
    except PyRaise as e:
        C.expect(False, 'signing raises %s' % exc_name(e), e.where)
        return
    site = I.lastret
    C.expect(body is not None, 'sign() does not sign a hash of the certificate', site)
    if body is None:
        return
    try:
        imp = I.call(I.getattr(a.cls('AttributeCertificate'), 'import_ac'),
                     [BArr(bcat([body, b'\0\0\0\0'])), a.member('ExportFormat', 'BYTES')], {})
    except PyRaise as e:
        C.expect(False, 'the signed bytes are not the encoded content (decoding them raises %s)' % exc_name(e), site)
        return
    d = a.diff(cert, imp)
    C.expect(d is None, 'the signed bytes do not determine the certificate: %s' % d, site)


def ob_verify(st, C):
    """True only after a successful check of the right bytes, key and signature."""
    I = C.interp(st)
    a = AC(I)
    na, ne, de, full = shape(st)
    cert = a.cert(na, ne, de, True, full)
    which = st.choose(6, 'signature')
    sig = I.getattr(cert, 'signature')
    if which == 1:
        I.setattr(cert, 'signature', None)
    elif which == 2:
        I.setattr(sig, 'sig_value', None)
    elif which == 3:
        I.setattr(sig, 'sig_algo', None)
    elif which == 4:
        I.setattr(I.getattr(cert, 'issuer'), 'pub_key', BArr(I.getattr(I.getattr(cert, 'issuer'), 'pub_key')))
    elif which == 5:
        I.setattr(sig, 'sig_value', BArr(I.getattr(sig, 'sig_value')))
    try:
        body = body_of(C, a, cert)
    except PyRaise as e:
        C.expect(False, 'signing raises %s' % exc_name(e), e.where)
        return
    n = len(st.events)
    try:
        r = I.call(I.getattr(cert, 'verify_signature'), [], {})
        r = bool(I.truth(r))
    except PyRaise as e:
        if exc_name(e) in REFUSALS:
            raise Infeasible()
        C.expect(which in (0, 4, 5), 'verifying a certificate without signature raises %s' % exc_name(e), e.where)
        return
    site = I.lastret
    if which in (1, 2, 3):
        C.expect(r is False, 'a certificate without signature %s verifies' % ('', 'value', 'algorithm')[which - 1], site)
        return
    ok = checked(I, a, cert, body, st.events[n:])
    C.expect(r == (ok is True), 'verify_signature() is %s where %s' % (
        r, {True: 'the signature check succeeded', False: 'the signature check failed'}.get(ok, ok)), site)


def unwrap(v):
    return v.content if isinstance(v, BArr) else v


def checked(I, a, cert, body, events):
    """True/False: outcome of a signature check of this certificate among the events; a text if there is none."""
    st = I.st
    key = T('rsakey', (unwrap(I.getattr(I.getattr(cert, 'issuer'), 'pub_key')),))
    alt = unwrap(I.getattr(I.getattr(cert, 'issuer'), 'pub_key'))
    val = unwrap(I.getattr(I.getattr(cert, 'signature'), 'sig_value'))
    why = 'no signature was checked'
    for e in events:
        if e['kind'] != 'sigcheck':
            continue
        h = e['hash']
        k = e['key']
        good = ckey(k) == ckey(key) or (isinstance(alt, T) and alt.op == 'export' and ckey(alt.args[0]) == ckey(k))
        if not good:
            why = 'the signature was checked with another key than the issuer\'s'
        elif not (isinstance(h, T) and h.op == 'hashobj' and ckey(st.norm(h.args[1])) == ckey(body)):
            why = 'other bytes than the signed ones were checked'
        elif ckey(unwrap(e['sig'])) != ckey(val):
            why = 'another signature than the certificate\'s was checked'
        else:
            s = st.rep(val) if isinstance(val, T) else val
            if isinstance(s, T) and s.op == 'sig' and ckey(s.args[1]) == ckey(k) and ckey(s.args[2]) == ckey(h):
                return True
            return st.known(T('pred', ('sigok', e['scheme'], k, h, unwrap(e['sig'])))) is True
    return why


def ob_sign_verify(st, C):
    """What is signed with the issuer's key verifies; another key's signature does not."""
    I = C.interp(st)
    a = AC(I)
    na, ne, de, full = shape(st)
    cert = a.cert(na, ne, de, st.choose(2, 'signed before') == 0, full)
    K = the_key(a)
    own = st.choose(2, 'signed with the issuer key') == 0
    I.setattr(I.getattr(cert, 'issuer'), 'pub_key', pub(I, K))
    try:
        I.call(I.getattr(cert, 'sign'), [K if own else the_key(a, 'other')], {})
        site = I.lastret
        s = I.getattr(cert, 'signature')
        C.expect(s is not None and ckey(I.getattr(s, 'sig_algo')) == ckey('RSASSA-PKCS1-v1_5:SHA256'),
                 'the signature does not name its algorithm', site)
        v = I.getattr(s, 'sig_value')
        C.expect(isinstance(v, T) and v.op == 'sig' and v.args[0] in ('pkcs1_15', 'PKCS1_v1_5') and
                 v.args[2].op == 'hashobj' and v.args[2].args[0].upper() == 'SHA256',
                 'the signature is not made with the algorithm it names: %s' % show(v), site)
        r = bool(I.truth(I.call(I.getattr(cert, 'verify_signature'), [], {})))
    except PyRaise as e:
        if exc_name(e) in REFUSALS:
            raise Infeasible()
        C.expect(False, 'signing and verifying raises %s' % exc_name(e), e.where)
        return
    if own:
        C.expect(r, 'a certificate signed with its issuer\'s key does not verify')
    else:
        k = [e for e in st.events if e['kind'] == 'sigcheck']
        good = k and st.known(T('pred', ('sigok', k[-1]['scheme'], k[-1]['key'], k[-1]['hash'], unwrap(k[-1]['sig']))))
        C.expect(not r or good is True, 'a signature of another key verifies without a successful check')


def wrap(I, fmt, data):
    """data as a certificate in that format."""
    if fmt == 'BYTES':
        return BArr(data)
    b = I.call_ext('base64.b64encode', [data], {})
    if fmt == 'BASE64':
        return b
    return cat(['---- BEGIN ATTRIBUTE CERTIFICATE ----\nFORMAT: BASE64\nVERSION: 0\n', I.method(b, 'decode', ['utf-8'], {}),
                '\n---- END ATTRIBUTE CERTIFICATE ----'])


def ob_import(fmt):
    def run(st, C):
        I = C.interp(st)
        a = AC(I)
        na = (0, 2)[st.choose(2, 'attributes')]
        de = (None, 'bytes')[st.choose(2, 'delegation rules')]
        full = st.choose(2, 'optional fields') == 0
        sg = st.choose(2, 'signature') == 0
        verify = (True, False, None)[st.choose(3, 'verification')]
        extra = (None, b'\0', sym('extra', 'bytes', 'n'))[st.choose(3, 'bytes after the certificate')]
        if isinstance(extra, T):
            st.assume(I.eq(extra, b''), False)
        cert = a.cert(na, 1, de, sg, full)
        try:
            body = body_of(C, a, cert)
            enc = I.call(I.getattr(cert, 'encode'), [], {})
        except PyRaise as e:
            if exc_name(e) in REFUSALS:
                raise Infeasible()
            C.expect(False, 'encoding raises %s' % exc_name(e), e.where)
            return
        data = unwrap(enc)
        if extra is not None:
            data = bcat([data, extra])
        F = a.member('ExportFormat', fmt)
        n = len(st.events)
        kw = {} if verify is None else {'verify': verify}
        args = [wrap(I, fmt, data), F]
        what = '%s import%s of %s certificate%s' % (fmt, ' with verification' if verify else '', 'a' if sg else 'an unsigned',
                                                   ' followed by extra bytes' if extra is not None else '')
        try:
            imp = I.call(I.getattr(a.cls('AttributeCertificate'), 'import_ac'), args, kw)
        except PyRaise as e:
            if extra is not None:
                C.check()
                return
            if verify:
                ok = checked(I, a, cert, body, st.events[n:]) if sg else False
                C.expect(ok is not True, '%s refuses although the signature is right (%s)' % (what, exc_name(e)), e.where)
                return
            C.expect(False, '%s raises %s' % (what, exc_name(e)), e.where)
            return
        site = I.lastret
        C.expect(extra is None, '%s is accepted' % what, site)
        if verify:
            ok = checked(I, a, cert, body, st.events[n:]) if sg else 'it has no signature'
            C.expect(ok is True, '%s is accepted where %s' % (what, 'the signature check failed' if ok is False else ok), site)
            d = a.diff(cert, imp)
            C.expect(d is None, '%s returns other content than was verified: %s' % (what, d), site)
    return run


def ob_export(fmt):
    def run(st, C):
        I = C.interp(st)
        a = AC(I)
        na = (None, 1, 2)[st.choose(3, 'attributes')]
        de = (None, 'bytes')[st.choose(2, 'delegation rules')]
        before = st.choose(2, 'signed before') == 0
        how = ('export_ac', 'encode')[st.choose(2, 'call')] if fmt == 'BYTES' else 'export_ac'
        cert = a.cert(na, (None, 1)[st.choose(2, 'extensions')], de, before, True)
        mode = st.choose(4, 'signing')
        F = a.member('ExportFormat', fmt)
        K = the_key(a)
        algo = sym('algo', 'str', 'n')
        kw = ({'sign': True}, {'sign': True, 'prvi_key': K}, {'sign': True, 'prvi_key': K, 'sig_algo': algo},
              {})[mode]
        if how == 'export_ac':
            kw['format'] = F
        n = len(st.events)
        old = I.getattr(cert, 'signature')
        what = 'export as %s (%s)' % (fmt, how)
        try:
            out = I.call(I.getattr(cert, how), [], kw)
        except PyRaise as e:
            if exc_name(e) in REFUSALS:
                raise Infeasible()
            C.expect(mode == 0, '%s raises %s' % (what, exc_name(e)), e.where)
            return
        site = I.lastret
        C.expect(mode != 0, '%s: a signed export without key is not refused' % what, site)
        signs = [e for e in st.events[n:] if e['kind'] == 'sign']
        if mode == 0:
            return
        if mode == 3:
            C.expect(not signs and I.getattr(cert, 'signature') is old, '%s: an unsigned export changes the signature' % what,
                     site)
            return
        C.expect(bool(signs) and all(a.I.key_term(e['key']) == K.data['term'] for e in signs),
                 '%s: the export is not signed with the given key' % what, site)
        s = I.getattr(cert, 'signature')
        if s is None:
            C.expect(False, '%s: the signature is not kept in the certificate' % what, site)
            return
        body = body_of(C, a, cert)
        v = I.getattr(s, 'sig_value')
        C.expect(isinstance(v, T) and v.op == 'sig' and ckey(v.args[1]) == ckey(K.data['term']) and
                 ckey(v.args[2].args[1]) == ckey(body), '%s: the signature is not one of the exported content' % what, site)
        if mode == 2:
            C.expect(ckey(I.getattr(s, 'sig_algo')) == ckey(algo), '%s: the signature names another algorithm' % what, site)
        if fmt == 'TEXT':
            C.expect(ckey(out) == ckey(I.call(I.getattr(cert, '__str__'), [], {})),
                     '%s: the text does not show the signed certificate' % what, site)
            return
        try:
            imp = I.call(I.getattr(a.cls('AttributeCertificate'), 'import_ac'), [out, F], {})
        except PyRaise as e:
            C.expect(False, '%s: importing it raises %s' % (what, exc_name(e)), e.where)
            return
        d = a.diff(cert, imp)
        C.expect(d is None, '%s: the exported bytes are not the signed certificate: %s' % (what, d), site)
    return run


def obligations(tier):
    yield 'signed bytes contain every field', ob_covers
    yield 'verification', ob_verify
    yield 'sign then verify', ob_sign_verify
    for f in BIN:
        yield 'import ' + f, ob_import(f)
    for f in BIN + ('TEXT',):
        yield 'signed export ' + f, ob_export(f)
