"""Length of a session."""
from .svc import *

RULE = ('start_session is analysed on requests of one, two and three certificates with unknown validity windows and issue '
        'times. On every path that starts a session, the stored end is not later than start + 86400 and not later than any '
        'certificate\'s end of validity and equals one of these; the stored earliest certificate end and latest issue time are '
        'lower (upper) bounds of, and equal to one of, those of the certificates; the stored start is a clock reading of this '
        'request; reply and stored session agree. Requests without certificates end in a client fault and store nothing.')
BOUNDS = ('1 to 3 certificates (thorough: 4), times unknown; requests of 24 (thorough: 150) certificates with fixed times against '
          'an unknown clock')
MAXLEN = 86400


def session_rows(s):
    return [e['obj'] for e in s.stored() if e['kind'] in ('db_add', 'db_merge') and isinstance(e.get('obj'), Inst) and
            e['obj'].cls.qual == s.cls('Session', s.SCHEMA).qual]


def le(s, a, b):
    """a <= b follows from the facts of the path."""
    r = s.I.lt(b, a)
    if isinstance(r, T):
        return s.surely_not(r)
    return r is False


def ob_len(n, nauth=1, many=None):
    def ob(st, C):
        s = PAuth(st, C)
        s.start()
        auths = s.authorities(nauth)
        I = s.I
        raws = s.goodcerts(n, auths[0], *many) if many else [s.rawcert(i) for i in range(n)]
        r = s.call('start_session', sym('service uid', 'str', 'n'), s.certset([x[0] for x in raws]), **{ADDR: 'addr'})
        rows = session_rows(s)
        if r[0] != 'ok' and not rows:
            C.check()
            return
        C.expect(len(rows) == 1, '%d sessions are stored' % len(rows))
        if not rows:
            return
        fmt = s.cls('ExportFormat', AC_MOD).members['BYTES']
        certs = [s.cert_of(d, fmt) for _, d in raws]
        ends = [I.getattr(I.getattr(c, 'rev_rules'), 'valid_before') for c in certs]
        iss = [I.getattr(I.getattr(c, 'info'), 'issued') for c in certs]
        g = lambda f: I.getattr(rows[0], f)
        start, end = g('session_start'), g('session_valid_till')
        C.expect(any(s.eq(start, I.call(BuiltinV('int'), [e['value']], {})) for e in s.events('time')),
                 'the stored start %s is not the current time' % show(start), key='start')
        lim = add(start, MAXLEN)
        C.expect(le(s, end, lim), 'the session may end later than the maximum length: %s' % show(end), key='max')
        for i, e in enumerate(ends):
            C.expect(le(s, end, e), 'the session may outlive a certificate: it ends at %s' % show(end), key='outlive')
        C.expect(any(s.eq(end, x) for x in ends + [lim]), 'the end of the session is %s' % show(end), key='end')
        m = g('cert_valid_till')
        C.expect(all(le(s, m, e) for e in ends) and any(s.eq(m, e) for e in ends),
                 'the stored earliest certificate end is %s' % show(m), key='cert end')
        m = g('cert_start')
        C.expect(all(le(s, e, m) for e in iss) and any(s.eq(m, e) for e in iss),
                 'the stored latest issue time is %s' % show(m), key='cert start')
        if r[0] == 'ok':
            C.expect(s.eq(I.getattr(r[1], 'start'), start) and s.eq(I.getattr(r[1], 'valid_till'), end),
                     'the reply gives %s to %s, stored is %s to %s' % (show(I.getattr(r[1], 'start')), show(
                         I.getattr(r[1], 'valid_till')), show(start), show(end)), key='reply')
    return ob


def ob_empty(st, C):
    s = PAuth(st, C)
    s.start()
    s.authorities(1)
    k = st.choose(3, 'certificate set')
    cs = (None, s.certset([]), s.new('AttributeCertificateSet', attribute_certificates=None))[k]
    r = s.call('start_session', sym('service uid', 'str', 'n'), cs, **{ADDR: 'addr'})
    C.expect(r[0] != 'ok' and r[1] == 'ClientFault', 'a session request without certificates ends in %s' % (
        'a session' if r[0] == 'ok' else r[1]), r[2].where if r[2] else None)
    C.expect(not s.stored(), 'a session request without certificates stores something')


def obligations(tier):
    for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        yield '%d certificates' % n, ob_len(n), {'max_paths': 60000}
    yield '2 certificates, 2 authorities', ob_len(2, 2)
    for n in (24,) + ((150,) if tier == 'thorough' else ()):
        for what, f in (('last', lambda i: 5000000 - i), ('first', lambda i: 4000000 + i),
                        ('middle', lambda i: 3000000 + abs(2 * i - n))):
            g = lambda i, f=f: 7000000 - f(i)
            yield '%d certificates, the %s ends first' % (n, what), ob_len(n, 1, (f, g)), {'max_paths': 60000}
    yield 'no certificates', ob_empty
