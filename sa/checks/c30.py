"""What the services say about themselves and the authorities they know."""
from .svc import *

RULE = ('info of both services and trusted_attribute_authorities are analysed on an unknown configuration, key and set of '
        'registered authorities. The attribute authority reports its configured name and uid, the revocation url, the public '
        'half and size of the very key it signs certificates with, RSA, and the signature and hash names that make up the '
        'signature algorithm handed to certificate signing, versions 1 and 1, and each credential type with its number. The '
        'policy authority reports its configured name, uid and url and versions 1, 1 and 1. The list of authorities has one '
        'entry per registered authority, each with all fields of the same row. A request changes none of what they report.')
BOUNDS = '0, 1, 2 registered authorities (thorough: 3); host configured or not, revocation url configured, empty or absent'

KEY = None


def conf(n, sect='AAUTH'):
    return conf_term(n, True, sect)


def same(s, C, g, w, what, site):
    C.expect(g is not None and s.eq(g, w), '%s is %s, not %s' % (what, show(g), show(w)), site, key=what)


def check_aauth(s, C, r, host, rev, key, algo):
    I = s.I
    if r[0] != 'ok':
        C.fail('info ends in %s' % r[1], r[2].where)
        return
    x, site = r[1], I.lastret
    base = 'http://%s:8888/AttributeAuthority/jsonwsp/' % (host or 'localhost')
    for f, w in (('aauth_id', conf('AAUTH_ID')), ('attribute_uri', conf('A_URI')), ('attribute_authority_version', 1),
                 ('attribute_certificate_version', 1), ('revocation_url', rev or base + 'revocation_list')):
        same(s, C, I.getattr(x, f), w, f, site)
    g = I.getattr(x, 'public_key')
    pub = I.method(ExtO('rsa', term=key, private=False, bits=T('intop', ('bits', key))), 'export_key', [], {})
    same(s, C, g, pub, 'public_key', site)
    ka = I.getattr(x, 'key_algorithm')
    same(s, C, I.getattr(ka, 'cipher'), 'RSA', 'cipher', site)
    same(s, C, I.getattr(ka, 'key_size'), T('intop', ('bits', key)), 'key_size', site)
    sg = I.getattr(x, 'signature_type')
    got = cat([I.getattr(sg, 'signature_algorithm'), ':', I.getattr(sg, 'hash_algorithm')])
    C.expect(algo is not None and s.eq(got, algo), 'the reported signature %s is not the one certificates get: %s' % (
        show(got), show(algo)), site)
    ct = s.cls('CredentialType')
    want = {m.name: m.value for m in ct.members.values()}
    rows = list(I.iterate(I.getattr(x, 'credential_types')))
    got = {I.raw(I.getattr(c, 'name')): I.raw(I.getattr(c, 'value')) for c in rows}
    C.expect(len(rows) == len(got) and got == want, 'credential types are reported as %s, not %s' % (got, want), site)


def ob_aauth(host, rev):
    def ob(st, C):
        s = AAuth(st, C, conf={'SERVICE_HOST': host, 'REV_URL': rev})
        s.start()
        s.users(1)
        r = s.request()
        ev = s.issued()
        if r[0] != 'ok' or not ev:
            return                  # the request that shows what certificates are signed with
        k, algo = ev[0]['key'], ev[0]['algo']
        if not (isinstance(k, ExtO) and k.kind == 'rsa'):
            return                  # certificates are not signed: C16
        for i in range(2):
            r = s.call('info', **{ADDR: 'addr'})
            check_aauth(s, C, r, host, rev, k.data['term'], algo)
            s.request()
    return ob


def ob_pinfo(host):
    def ob(st, C):
        s = PAuth(st, C, conf={'SERVICE_HOST': host})
        s.start()
        for i in range(2):
            r = s.call('info', **{ADDR: 'addr'})
            if r[0] != 'ok':
                C.fail('info ends in %s' % r[1], r[2].where)
                return
            I, x, site = s.I, r[1], s.I.lastret
            for f, w in (('name', conf('PAUTH_NAME', 'PAUTH')), ('uid', conf('PAUTH_UID', 'PAUTH')), ('version', 1),
                         ('attribute_certificate_version', 1), ('policy_language_version', 1),
                         ('url', 'http://%s:8888/PolicyAuthority/jsonwsp/' % (host.strip() or 'localhost'))):
                same(s, C, I.getattr(x, f), w, f, site)
    return ob


FIELDS = {'name': 'name', 'uid': 'uid', 'url': 'url', 'public_key': 'pub_key', 'trust_level': 'trust_level'}


def ob_trusted(n):
    def ob(st, C):
        s = PAuth(st, C)
        s.start()
        rows = s.authorities(n)
        I = s.I
        for i in range(2):
            r = s.call('trusted_attribute_authorities', **{ADDR: 'addr'})
            if r[0] != 'ok':
                C.fail('the list of authorities ends in %s' % r[1], r[2].where)
                return
            site = I.lastret
            lst = list(I.iterate(I.getattr(r[1], 'attribute_authorities')))
            C.expect(len(lst) == n, '%d of %d registered authorities are listed' % (len(lst), n), site)
            left = list(rows)
            for x in lst:
                row = [o for o in left if s.eq(I.getattr(x, 'uid'), I.getattr(o, 'uid'))]
                if not row:
                    C.fail('an entry does not have the uid of a registered authority (or one is listed twice)', site)
                    continue
                left = [o for o in left if o is not row[0]]
                for f, col in FIELDS.items():
                    same(s, C, I.getattr(x, f), I.getattr(row[0], col), f + ' of a listed authority', site)
                ka = I.getattr(x, 'key_algorithm')
                same(s, C, I.getattr(ka, 'key_size'), I.getattr(row[0], 'key_size'), 'key_size of a listed authority', site)
                same(s, C, I.getattr(ka, 'cipher'), I.getattr(row[0], 'key_cipher'), 'cipher of a listed authority', site)
    return ob


def obligations(tier):
    for h in ('host', ''):
        for rev in ('http://rev/', '', None):
            yield 'attribute authority info, host %r, revocation url %r' % (h, rev), ob_aauth(h, rev)
        yield 'policy authority info, host %r' % h, ob_pinfo(h)
    for n in (0, 1, 2) + ((3,) if tier == 'thorough' else ()):
        yield 'list of %d authorities' % n, ob_trusted(n)
