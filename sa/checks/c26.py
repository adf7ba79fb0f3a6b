"""What the clients send and what they take for success."""
from .svc import *

RULE = ('Every remote method of both clients is analysed on a reply with an unknown status that holds either a result or a fault '
        '(both unknown). On each path: exactly one remote call is made, of the method of the same name, at the description '
        'address in force (configured, or set by the last update_service); the arguments sent are the credentials, key, '
        'attribute lists, service uid and certificates of the client and caller, unchanged; a return happens only with the facts '
        'status = 200 and no fault, and returns the result of that reply (start_session: the reply); otherwise an exception is '
        'raised; a good reply never raises. last_key is assigned only on such a path, and is the key whose public half and size '
        'were sent; it survives a failed request.')
BOUNDS = 'one call and two calls in sequence per client; key generated and given; attribute lists of 0 to 2 names and ids'

TYPES = (('attribute authority client', Client), ('policy authority client', PClient))


def verdict(s, C, r, method, n0=0):
    """Checks one client call; returns the remote call event if it succeeded."""
    I, st = s.I, s.st
    rp = [e for e in s.events('rpc')]
    C.expect(len(rp) <= 1 or r[0] == 'fault', '%s makes %d remote calls' % (method, len(rp)), I.lastret)
    if not rp:
        C.fail('%s %s without a remote call' % (method, 'returns' if r[0] == 'ok' else 'raises %s' % r[1]),
               I.lastret if r[0] == 'ok' else r[2].where)
        return None
    e = rp[-1]
    C.expect(e['method'] == method, '%s calls the remote method %s' % (method, e['method']), e['where'])
    n = e['response'].data['n']
    status = T('sym', ('status%d' % n, 'int', ''))
    good = s.eq(status, 200) and st.known(T('pred', ('fault', n))) is False
    if r[0] == 'ok':
        if not s.eq(status, 200):
            C.fail('%s returns although the status of the reply was not found to be 200' % method, I.lastret)
        elif st.known(T('pred', ('fault', n))) is not False:
            C.fail('%s returns although the reply was not found to be free of a fault' % method, I.lastret)
        v = r[1]
        ok = v is e['response'] or s.eq(v, T('sym', ('result%d' % n, None, '')))
        if not ok and isinstance(v, ExtO) and v.kind == 'reply':
            ok = v.data['n'] == n
        C.expect(ok, '%s returns something that is not the result of its reply: %s' % (method, show(v)), I.lastret)
    else:
        C.expect(not good, '%s raises %s on a reply with status 200 and a result' % (method, r[1]), r[2].where)
    return e if good and r[0] == 'ok' else None


def arg(s, C, e, method, name):
    if e['args']:
        C.fail('%s sends positional arguments to a keyword-only remote method' % method, e['where'])
        return None
    if name not in e['kwargs']:
        C.fail('%s does not send %s' % (method, name), e['where'])
        return None
    return e['kwargs'][name]


def item(s, C, d, key, e, what):
    if not isinstance(d, DictO):
        C.fail('%s sent is not a structure: %s' % (what, show(d)), e['where'])
        return None
    for k, v in d.pairs:
        if k == key:
            return v
    C.fail('%s is sent without %s' % (what, key), e['where'])
    return None


def same_list(s, C, got, want, e, what):
    if want is None or isinstance(want, T):
        ok = got is want or s.eq(got, want)
        if want is None and isinstance(got, (ListO, tuple)):
            ok = not list(s.I.iterate(got))
        C.expect(ok, '%s sent: %s, given: %s' % (what, show(got), show(want)), e['where'])
        return
    if not isinstance(got, (ListO, tuple)):
        C.fail('%s sent is not a list: %s' % (what, show(got)), e['where'])
        return
    g = list(s.I.iterate(got))
    C.expect(len(g) == len(want) and all(a is b or s.eq(a, b) for a, b in zip(g, want)),
             '%s sent: %s, given: %s' % (what, show(g), show(want)), e['where'])


def check_url(s, C, e, url, method):
    C.expect(s.eq(e['client'].data['url'], url), '%s is sent to %s instead of %s'
             % (method, show(e['client'].data['url']), show(url)), e['where'])


def check_attreq(s, C, key, names, ids, creds):
    I = s.I
    for e in s.events('rpc'):
        m = 'attribute_request'
        c = arg(s, C, e, m, 'credentials')
        if c is not None and creds is not None:
            if isinstance(creds, dict):
                for k, v in creds.items():
                    g = item(s, C, c, k, e, 'credentials')
                    if g is not None:
                        C.expect(s.eq(g, v), 'credentials field %s sent: %s, expected %s' % (k, show(g), show(v)), e['where'])
            else:
                C.expect(c is creds or s.eq(c, creds), 'credentials sent: %s, given: %s' % (show(c), show(creds)), e['where'])
        pk = arg(s, C, e, m, 'user_public_key')
        a = arg(s, C, e, m, 'attributes')
        if a is not None:
            for n, want in (('attribute_names', names), ('attribute_ids', ids)):
                if want is None and not any(k == n for k, _ in getattr(a, 'pairs', ())):
                    continue
                same_list(s, C, item(s, C, a, n, e, 'attributes'), want, e, n)
        if pk is not None:
            data = item(s, C, pk, 'public_key', e, 'the public key')
            algo = item(s, C, pk, 'key_algorithm', e, 'the public key')
            gen = s.events('rsagen')
            k = key
            if k is None:
                if not gen:
                    C.fail('no key pair is generated for a request without one', e['where'])
                    return
                k = gen[-1]['key']
                C.expect(s.eq(k.data['bits'], 2048), 'the generated key does not have the configured size', gen[-1]['where'])
            ok = sent_key(s, data, k)
            C.expect(ok, 'the public key sent is not the public half of the key pair of the request: %s' % show(data), e['where'])
            if algo is not None:
                C.expect(item(s, C, algo, 'cipher', e, 'the key algorithm') == 'RSA', 'cipher sent is not RSA', e['where'])
                size = item(s, C, algo, 'key_size', e, 'the key algorithm')
                C.expect(s.eq(size, k.data['bits']) if k.data.get('bits') is not None else False,
                         'key size sent is %s, the key has %s' % (show(size), show(k.data.get('bits'))), e['where'])


def sent_key(s, data, k):
    pub = ExtO('rsa', term=k.data['term'], private=False, bits=k.data['bits'])
    for m in ('export_key', 'exportKey'):
        b = s.I.method(pub, m, [], {})
        for x in (b, s.I.method(b, 'decode', ['utf-8'], {})):
            if data is x or s.eq(data, x):
                return True
    return False


def last_key(s):
    return s.I.getattr(s.service, 'last_key')


def same_key(s, a, b):
    return isinstance(a, ExtO) and a.kind == 'rsa' and a.data['private'] and a.data['term'] == b.data['term']


def key_of(s, key):
    if key is not None:
        return key
    g = s.events('rsagen')
    return g[-1]['key'] if g else None


def ob_attreq(given, nn, ni, creds):
    def ob(st, C):
        s = Client(st, C)
        own = ('type', 'username', 'password')
        if creds == 'given':
            c = DictO([(k, sym('given ' + k, 'str')) for k in own])
            s.start(c)
            cr = c
        else:
            s.start()
            cr = {'type': conf_term('CRED_TYPE', False, 'AAUTH'), 'username': conf_term('CRED_USER', False, 'AAUTH'),
                  'password': conf_term('CRED_PASS', False, 'AAUTH')}
        C.expect(last_key(s) is None, 'a new client already has a last key', s.I.lastret)
        names = [sym('name %d' % i, 'str', 'n') for i in range(nn)] if nn is not None else None
        ids = [sym('id %d' % i, 'str', 'n') for i in range(ni)] if ni is not None else None
        key = s.key() if given else None
        prev = None
        for call in range(2):
            kw = {}
            if names is not None:
                kw['attribute_names'] = ListO(names)
            if ids is not None:
                kw['attribute_ids'] = ListO(ids)
            if key is not None:
                kw['key'] = key
            r = s.call('attribute_request', **kw)
            e = verdict(s, C, r, 'attribute_request')
            check_attreq(s, C, key, names, ids, cr)
            for x in s.events('rpc'):
                check_url(s, C, x, conf_term('SERVICE_DESCRIPTION', False, 'AAUTH'), 'attribute_request')
            lk = last_key(s)
            if e is not None:
                prev = key_of(s, key)
                C.expect(prev is not None and same_key(s, lk, prev),
                         'after a successful request the last key is not the key pair of that request', s.I.lastret)
            else:
                C.expect(lk is None if prev is None else same_key(s, lk, prev),
                         'a failed request changes the last key', r[2].where if r[2] else s.I.lastret)
            key = None      # the second request generates its key
    return ob


def ob_start_session():
    def ob(st, C):
        s = PClient(st, C)
        s.start()
        uid = PClient.ARGS[0]
        for call in range(2):
            n = (0, 1, 2)[st.choose(3, 'number of certificates')] if call == 0 else 1
            certs = [DictO([('data', ExtO('opaque', path='file')), ('version', 1), ('format', 1)]) for _ in range(n)]
            r = s.call('start_session', ListO(certs))
            verdict(s, C, r, 'start_session')
            for e in s.events('rpc'):
                check_url(s, C, e, conf_term('SERVICE_DESCRIPTION', False, 'PAUTH'), 'start_session')
                u = arg(s, C, e, 'start_session', 'service_uid')
                C.expect(u is not None and s.eq(u, uid), 'the service uid sent is %s' % show(u), e['where'])
                a = arg(s, C, e, 'start_session', 'att_cert_set')
                if a is not None:
                    got = item(s, C, a, 'attribute_certificates', e, 'the certificate set')
                    g = list(s.I.iterate(got)) if isinstance(got, (ListO, tuple)) else None
                    C.expect(g is not None and len(g) == n and all(
                        x is y or (isinstance(x, DictO) and x.pairs == y.pairs) for x, y in zip(g, certs)),
                        'the certificates sent are not those given: %s' % show(got), e['where'])
    return ob


def ob_plain(cls, sect, method):
    def ob(st, C):
        s = cls(st, C)
        s.start()
        for call in range(2):
            r = s.call(method)
            verdict(s, C, r, method)
            for e in s.events('rpc'):
                check_url(s, C, e, conf_term('SERVICE_DESCRIPTION', False, sect), method)
                C.expect(not e['args'] and not e['kwargs'], '%s sends arguments' % method, e['where'])
    return ob


def ob_update(cls, sect):
    """update_service moves all later calls to the new address; unsupported client types are refused."""
    def ob(st, C):
        s = cls(st, C)
        s.start()
        old = conf_term('SERVICE_DESCRIPTION', False, sect)
        url = sym('new url', 'str', 'n') if st.choose(2, 'new url given') else None
        ct = (None, 'JSONWSP', 'SOAP')[st.choose(3, 'client type')]
        kw = {}
        if url is not None:
            kw['url'] = url
        if ct is not None:
            kw['client_type'] = ct
        r = s.call('update_service', **kw)
        if ct == 'SOAP':
            C.expect(r[0] == 'fault', 'an unsupported client type is accepted', s.I.lastret)
            return
        if r[0] != 'ok':
            C.fail('update_service raises %s' % r[1], r[2].where)
            return
        s.call('info')
        for e in s.events('rpc'):
            check_url(s, C, e, url if url is not None else old, 'info after update_service')
    return ob


def ob_type(cls):
    def ob(st, C):
        s = cls(st, C, conf={'CLIENT_TYPE': sym('client type', 'str')})
        I = s.I
        try:
            I.call(s.cls(s.CLS), list(s.ARGS), {})
        except PyRaise as e:
            C.expect(not s.eq(sym('client type', 'str'), 'JSONWSP'), 'the supported client type is refused', e.where)
            return
        C.expect(s.eq(sym('client type', 'str'), 'JSONWSP'), 'a client is set up for an unsupported client type', I.lastret)
    return ob


def obligations(tier):
    cases = [(True, 1, 1, 'conf'), (False, 2, 0, 'given'), (False, None, None, 'conf'), (True, 0, 2, 'given')]
    if tier == 'thorough':
        cases = [(g, a, b, c) for g in (True, False) for a in (None, 0, 1, 2, 3) for b in (None, 0, 1, 2, 3) for c in ('conf', 'given')]
    for g, a, b, c in cases:
        yield 'attribute_request, key %s, %s names, %s ids, credentials %s' % ('given' if g else 'generated', a, b, c), \
            ob_attreq(g, a, b, c)
    yield 'start_session', ob_start_session()
    yield 'attribute authority info', ob_plain(Client, 'AAUTH', 'info')
    yield 'policy authority info', ob_plain(PClient, 'PAUTH', 'info')
    yield 'trusted_attribute_authorities', ob_plain(PClient, 'PAUTH', 'trusted_attribute_authorities')
    for n, c in TYPES:
        yield 'update_service of the ' + n, ob_update(c, 'AAUTH' if c is Client else 'PAUTH')
        yield 'client type of the ' + n, ob_type(c)
