"""Which certificates the policy authority accepts."""
from .svc import *

RULE = ('PolicyAuthority.start_session is analysed on requests of one and two certificates with unknown bytes, version and '
        'format, against unknown registered authorities. On every path that returns or stores anything, for every certificate '
        'of the request the facts of the path include: version 1 and a binary format, a successful signature verification of '
        'exactly the submitted bytes, a registered authority with the issuer uid, its trust level above 0, its registered key '
        'equal to the issuer key of the certificate, and the current time strictly inside the validity window. Every other '
        'path ends in a ClientFault and commits nothing. A path on which all conditions hold is accepted.')
BOUNDS = ('1 and 2 certificates (thorough: 3), 0, 1 and 2 registered authorities; all contents unknown; 24 (thorough: 100) '
          'certificates of which one is unknown')


def ob_accept(ncert, nauth, free, many=False):
    def ob(st, C):
        s = PAuth(st, C)
        s.start()
        auths = s.authorities(nauth)
        I = s.I
        EF = s.cls('ExportFormat', AC_MOD)
        raws = []
        good = s.goodcerts(ncert, auths[0], lambda i: 5000000, lambda i: 9) if many else None
        for i in range(ncert):
            if many and i not in free:
                raws.append(good[i] + (1, EF.members['BYTES']))
                continue
            if i in free:
                ver = sym('version %d' % i, 'int')
                fm = ('BYTES', 'BASE64', 'BASE64FULL', 'other')[st.choose(4, 'format of certificate %d' % i)]
                if fm == 'other':
                    vals = sorted({m.value for m in EF.members.values()})
                    bad = [m.value for m in EF.members.values() if m.name not in ('BYTES', 'BASE64', 'BASE64FULL')]
                    v = (bad + [max(vals) + 1, -7])[st.choose(len(bad) + 2, 'unsupported format')]
                else:
                    v = EF.members[fm].value
            else:
                ver, v = 1, EF.members['BYTES'].value
            raw, data = s.rawcert(1000 + i if many else i, ver, v)
            if many:
                s.given[ckey(data), 'serial'], s.given[ckey(data), 'issued'] = 999, 9
            m = [x for x in EF.members.values() if x.value == v]
            raws.append((raw, data, ver, m[0] if m else None))
        r = s.call('start_session', sym('service uid', 'str', 'n'), s.certset([x[0] for x in raws]), **{ADDR: 'addr'})
        stored = s.stored()
        bad = None
        for raw, data, ver, fmt in raws:
            a = s.accepted(data, ver, fmt)
            if a is not True:
                bad = bad or a
        if r[0] == 'ok' or stored:
            C.expect(bad is None, 'a certificate is accepted although %s' % bad,
                     stored[0]['where'] if stored else I.lastret)
            return
        if r[1] == 'IntegrityError':
            return
        if bad is None:
            # everything holds: refused only for a serial that is in use
            C.expect(s.dup(), 'a request whose certificates are all acceptable ends in %s' % r[1], r[2].where)
        else:
            C.expect(r[1] == 'ClientFault', 'a request with a certificate that is not acceptable ends in %s, not a client fault'
                     % r[1], r[2].where)
    return ob


def obligations(tier):
    for na in (0, 1, 2):
        yield '1 certificate, %d authorities' % na, ob_accept(1, na, (0,))
    yield '2 certificates, first any, 1 authority', ob_accept(2, 1, (0,))
    yield '2 certificates, second any, 1 authority', ob_accept(2, 1, (1,))
    yield '2 certificates, 2 authorities', ob_accept(2, 2, ())
    for n in (24,) + ((100,) if tier == 'thorough' else ()):
        for j in (n - 1, n // 2):
            yield '%d certificates, number %d any' % (n, j), ob_accept(n, 1, (j,), True)
    if tier == 'thorough':
        yield '2 certificates, both any, 2 authorities', ob_accept(2, 2, (0, 1))
        yield '3 certificates, 2 authorities', ob_accept(3, 2, ())
