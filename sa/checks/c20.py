"""What is stored for a session's certificates."""
from .svc import *
from .c19 import session_rows

RULE = ('start_session is analysed on requests of one and two certificates against certificate stores of none, one and two '
        'unknown stored certificates. On every path that starts a session: for each certificate whose serial is not stored '
        'yet exactly one row is added, with the encoded serial, the received bytes, format, version, end of validity and the '
        'base64 SHA-256 of the received bytes; for one that is stored, the stored hash is known to equal that hash and no row '
        'is added or changed; each certificate is linked to the stored session. On a path where a stored certificate has the '
        'serial and another hash, the request ends in a client fault and nothing is committed.')
BOUNDS = ('1 and 2 certificates, stores of 0, 1, 2 certificates, all contents unknown; a request of 24 (thorough: 100) certificates '
          'with fixed serials of which two are stored')


def b64(I, t):
    return I.method(I.x_base64_b64encode(t), 'decode', ['utf-8'], {})


def serial_text(I, n):
    if isinstance(n, int):
        return b64(I, n.to_bytes(20, 'little'))
    return b64(I, T('pack', ('<int20', n)))


def ob_store(n, nst, many=None):
    def ob(st, C):
        s = PAuth(st, C)
        s.start()
        auths = s.authorities(1)
        I = s.I
        cols = (lambda i: {'serial': serial_text(I, 1000 + many[i])}) if many else lambda i: {}
        old = [s.row('AttributeCertificate', s.SCHEMA, **cols(i)) for i in range(nst)]
        s.distinct(*[I.getattr(o, 'serial') for o in old])
        raws = s.goodcerts(n, auths[0], lambda i: 5000000 - i, lambda i: i) if many else [s.rawcert(i) for i in range(n)]
        r = s.call('start_session', sym('service uid', 'str', 'n'), s.certset([x[0] for x in raws]), **{ADDR: 'addr'})
        stored = s.stored()
        fmt = s.cls('ExportFormat', AC_MOD).members['BYTES']
        acq, acaq = s.cls('AttributeCertificate', s.SCHEMA).qual, s.cls('AttributeCertificateAssignment', s.SCHEMA).qual
        sessions = session_rows(s)
        accepted = [r[0] == 'ok' or s.accepted(d, 1, fmt) is True for _, d in raws]
        clash = False
        certs = []
        for (_, d), acc in zip(raws, accepted):
            if not acc:
                continue
            c = s.cert_of(d, fmt)
            ser, h = serial_text(I, I.getattr(I.getattr(c, 'info'), 'serial')), b64(I, T('digest', (d,)))
            hit = [o for o in old if s.eq(I.getattr(o, 'serial'), ser)]
            same = [o for o in hit if s.eq(I.getattr(o, 'hash'), h)]
            clash = clash or (bool(hit) and not same)
            certs.append((c, d, ser, h, hit))
        twice = any(s.eq(a[2], b[2]) for i, a in enumerate(certs) for b in certs[:i])
        if twice and not stored and r[0] != 'ok':
            C.check()           # one request naming a serial twice; refused one way or the other
            return
        if clash:
            C.expect(not stored and r[0] != 'ok' and r[1] == 'ClientFault',
                     'a certificate whose serial is stored with another hash %s' % (
                         'is accepted' if stored or r[0] == 'ok' else 'ends in ' + r[1]),
                     stored[0]['where'] if stored else (r[2].where if r[2] else I.lastret), key='clash')
            return
        if r[0] != 'ok' and not stored:
            C.check()
            return
        other = [e for e in stored if e['kind'] not in ('db_add', 'db_merge')]
        C.expect(not other, 'a session request changes or deletes stored rows', other[0]['where'] if other else None)
        added = [(e, e['obj']) for e in stored if e['kind'] in ('db_add', 'db_merge') and isinstance(e.get('obj'), Inst)]
        site = added[0][0]['where'] if added else None
        C.expect(len(sessions) == 1, '%d sessions are stored' % len(sessions))
        sid = I.getattr(sessions[0], 'id') if sessions else None
        acs = [o for e, o in added if o.cls.qual == acq]
        links = [o for e, o in added if o.cls.qual == acaq]
        for c, d, ser, h, hit in certs:
            mine = [o for o in acs if s.eq(I.getattr(o, 'serial'), ser)]
            if hit:
                C.expect(not mine, 'a certificate that is stored already is stored again', site)
            else:
                C.expect(len(mine) == 1, 'a certificate is stored %d times under its serial' % len(mine), site, key='once')
            for o in mine:
                for f, w in (('certificate', d), ('format', fmt.value), ('version', 1), ('hash', h),
                             ('valid_till', I.getattr(I.getattr(c, 'rev_rules'), 'valid_before'))):
                    g = I.getattr(o, f)
                    g = g.content if isinstance(g, BArr) else g
                    C.expect(g is not None and s.eq(g, w), 'the stored %s is %s, not %s' % (f, show(g), show(w)), site, key=f)
            ln = [o for o in links if s.eq(I.getattr(o, 'ac_serial'), ser)]
            C.expect(len(ln) == 1 and sid is not None and s.eq(I.getattr(ln[0], 'session_id'), sid),
                     'the certificate is not linked to the session', site, key='link')
        C.expect(len(acs) <= len(certs) and len(links) == len(certs), '%d rows and %d links are stored for %d certificates' % (
            len(acs), len(links), len(certs)), site)
    return ob


def ob_twice(st, C):
    """The same serial in two successive requests."""
    s = PAuth(st, C)
    s.start()
    s.authorities(1)
    I = s.I
    fmt = s.cls('ExportFormat', AC_MOD).members['BYTES']
    raw1, d1 = s.rawcert(0)
    r1 = s.call('start_session', sym('service uid', 'str', 'n'), s.certset([raw1]), **{ADDR: 'addr'})
    if r1[0] != 'ok':
        return
    for e in s.stored():
        o = e.get('obj')
        if isinstance(o, Inst) and s.is_row(o):
            s.db.setdefault(o.cls.qual, []).append(o)
    raw2, d2 = s.rawcert(1)
    r2 = s.call('start_session', sym('service uid', 'str', 'n'), s.certset([raw2]), **{ADDR: 'addr'})
    c1, c2 = s.cert_of(d1, fmt), s.cert_of(d2, fmt)
    k1, k2 = [I.getattr(I.getattr(c, 'info'), 'serial') for c in (c1, c2)]
    if not s.eq(serial_text(I, k1), serial_text(I, k2)):
        return
    same = s.eq(b64(I, T('digest', (d1,))), b64(I, T('digest', (d2,))))
    if same:
        return
    C.expect(r2[0] != 'ok' and not s.stored(), 'a second certificate with the serial of a stored one and other content is '
             'accepted')


def obligations(tier):
    for n in (1, 2):
        for k in (0, 1, 2):
            yield '%d certificates, %d stored' % (n, k), ob_store(n, k), {'max_paths': 60000}
    for n in (24,) + ((100,) if tier == 'thorough' else ()):
        yield '%d certificates, the last and another stored' % n, ob_store(n, 2, (n - 1, 3)), {'max_paths': 60000}
    yield 'two requests', ob_twice
    if tier == 'thorough':
        yield '3 certificates, 1 stored', ob_store(3, 1), {'max_paths': 200000}
