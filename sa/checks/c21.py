"""The gates of an evaluation request."""
from .svc import *
from .c20 import serial_text, b64

RULE = ('PolicyAuthority.evaluate is analysed with policies given in the request and policies stored under a uid, object '
        'attributes with and without name and uid, and unknown sessions, session certificates and authorities. A path on which '
        'the call returns must have: a policy whose text is valid and free of type errors and warnings, all object attributes '
        'identified, the stored session with exactly the encoded requested id and an end not earlier than a clock reading of '
        'this request, and for each certificate linked to that session the acceptance conditions of C18 plus equality of '
        'encoded serial, version, SHA-256 of the bytes and end of validity with the stored row. A path on which all of that '
        'holds returns; every other path raises.')
BOUNDS = ('16 policy texts, four of them of over a thousand characters; 0 to 2 object attributes; 0, 1, 2 stored sessions; 0, 1, 2 stored certificates with unknown '
          'links; 0 to 2 authorities; all contents unknown')

GOOD = ['user.age > 5', 'user.age > 5 AND user.a = "x" OR NOT object.b IN {1, 2}']
BAD = ['user.age >', '', 'user.age > 5)', 'nobody.age > 5', '# 1', '"abc', '"a" > 5', '1 = "x"', '{1} IN user.a',
       'user.a > 5 AND user.a = "x"']          # the last one is only a warning
# texts of more than a thousand characters; the second has a type error, the third a warning, the fourth a syntax error
LONG = ['user.a = "%s" OR user.age > 5' % ('x' * 1100), '"%s" > 5' % ('x' * 1100),
        '%suser.a > 5 AND user.a = "x"' % (' ' * 1100), '%suser.age >' % ('\n' * 1100)]


def pair(s, uid=None, text=None, atts=None):
    p = s.new('Policy', policy_uid=uid, policy_string=text)
    return s.new('PolicyObjectAttPair', policy=p, object_attributes=atts)


def good_session(s):
    I = s.I
    sid = sym('session id', 'int')
    row = s.row('Session', s.SCHEMA, id=serial_text(I, sid))
    return sid, row


def live(s, row):
    """The session end is known not to be before (True) / known to be before (False) the clock reading of the request."""
    I = s.I
    till = I.getattr(row, 'session_valid_till')
    out = None
    for e in s.events('time'):
        for t in (e['value'], I.call(BuiltinV('int'), [e['value']], {})):
            r, q = I.lt(till, t), I.lt(t, till)
            if (isinstance(r, T) and s.surely_not(r)) or r is False or s.holds(q):
                return True
            if s.holds(r) or (isinstance(q, T) and s.surely_not(q)) or q is False:
                out = False
    return out


def ob_policy(how):
    def ob(st, C):
        s = PAuth(st, C)
        s.start()
        sid, row = good_session(s)
        I = s.I
        texts = GOOD + BAD
        ok = None
        if how == 'given':
            i = st.choose(len(texts), 'policy text')
            ok = i < len(GOOD)
            what = 'policy %r' % texts[i]
            r = s.call('evaluate', sid, pair(s, text=texts[i]), **{ADDR: 'addr'})
        elif how == 'long':
            i = st.choose(len(LONG), 'policy text')
            ok = i == 0
            what = 'policy %r... (%d characters)' % (LONG[i].replace('x' * 1100, 'x').strip(), len(LONG[i]))
            r = s.call('evaluate', sid, pair(s, text=LONG[i]), **{ADDR: 'addr'})
        elif how == 'none':
            what, ok = 'no policy', False
            r = s.call('evaluate', sid, pair(s), **{ADDR: 'addr'})
        else:
            i, j = (0, 2 + st.choose(len(BAD), 'policy text')) if how == 'stored' else (2 + st.choose(3, 'policy text'), 1)
            rows = [s.row('Policy', s.SCHEMA, policy=texts[k]) for k in (i, j)]
            uids = [I.getattr(x, 'uid') for x in rows]
            s.distinct(*uids)
            want = sym('policy uid', 'str', 'n')
            r = s.call('evaluate', sid, pair(s, uid=want), **{ADDR: 'addr'})
            hit = [k for k, u in zip((i, j), uids) if s.eq(u, want)]
            ok = bool(hit) and hit[0] < len(GOOD)
            what = 'the stored policy %r' % texts[hit[0]] if hit else 'a policy uid that is not known to be stored'
        if r[0] == 'ok':
            C.expect(ok, 'an evaluation with %s goes through' % what, I.lastret, key='policy')
            C.expect(live(s, row) is True, 'an expired session goes through', I.lastret, key='expired')
        elif ok:
            C.expect(live(s, row) is not True, 'an evaluation with %s is refused with %s' % (what, r[1]), r[2].where, key='ok')
        else:
            C.check()
        C.expect(not s.stored(), 'an evaluation changes the database')
    return ob


def ob_atts(n):
    def ob(st, C):
        s = PAuth(st, C)
        s.start()
        sid, row = good_session(s)
        atts, ok = [], True
        for i in range(n):
            k = st.choose(4, 'object attribute %d' % i)
            nm = sym('name %d' % i, 'str', 'n') if k & 1 else None
            uid = sym('uid %d' % i, 'str', 'n') if k & 2 else None
            ok = ok and k != 0
            atts.append(s.new('ObjectAttribute', name=nm, uid=uid, type=1, value=sym('value %d' % i, 'str')))
        lst = ListO(atts)
        if n == 0 and st.choose(2, 'attribute list'):
            lst = None
        r = s.call('evaluate', sid, pair(s, text=GOOD[0], atts=lst), **{ADDR: 'addr'})
        if r[0] == 'ok':
            C.expect(ok, 'an object attribute without name and uid goes through', s.I.lastret)
        elif ok:
            C.expect(live(s, row) is not True, 'identified object attributes are refused with %s' % r[1], r[2].where)
        else:
            C.check()
    return ob


def ob_session(n):
    def ob(st, C):
        s = PAuth(st, C)
        s.start()
        I = s.I
        sid = sym('session id', 'int')
        rows = [s.row('Session', s.SCHEMA) for _ in range(n)]
        s.distinct(*[I.getattr(x, 'id') for x in rows])
        r = s.call('evaluate', sid, pair(s, text=GOOD[0]), **{ADDR: 'addr'})
        key = serial_text(I, sid)
        hit = [x for x in rows if s.eq(I.getattr(x, 'id'), key)]
        if r[0] == 'ok':
            C.expect(bool(hit), 'an evaluation goes through without a stored session of that id', I.lastret, key='unknown')
            if hit:
                C.expect(live(s, hit[0]) is True, 'an evaluation goes through in a session not known to be unexpired', I.lastret,
                         key='expired')
        elif hit:
            C.expect(live(s, hit[0]) is not True, 'an evaluation in a session that has not expired is refused with %s' % r[1],
                     r[2].where, key='refused')
        else:
            C.check()
    return ob


def ob_certs(n, nauth, linked):
    """n stored certificates, each linked to the session or to an unknown one."""
    def ob(st, C):
        s = PAuth(st, C)
        s.start()
        s.authorities(nauth)
        I = s.I
        sid, row = good_session(s)
        key = I.getattr(row, 'id')
        EF = s.cls('ExportFormat', AC_MOD)
        acs = []
        for i in range(n):
            fm = ('BYTES', 'other')[st.choose(2, 'stored format') if i == 0 else 0]
            m = EF.members['BYTES'] if fm == 'BYTES' else None
            d = sym('stored certificate %d' % i, 'bytes', 'n')
            ac = s.row('AttributeCertificate', s.SCHEMA, certificate=d,
                       format=m.value if m else max(x.value for x in EF.members.values()) + 1)
            acs.append((ac, d, m))
        s.distinct(*[I.getattr(a[0], 'serial') for a in acs])
        links = []
        for i, a in enumerate(acs):
            t = key if i < linked else sym('linked session %d' % i, 'str', 'n')
            links.append(t)
            s.row('AttributeCertificateAssignment', s.SCHEMA, ac_serial=I.getattr(a[0], 'serial'), session_id=t)
        r = s.call('evaluate', sid, pair(s, text=GOOD[0]), **{ADDR: 'addr'})
        bad, why = False, None
        for (ac, d, fmt), t in zip(acs, links):
            q = I.eq(t, key)
            if q is False or (isinstance(q, T) and s.surely_not(q)):
                continue
            g = lambda f: I.getattr(ac, f)
            a = s.accepted(d, g('version'), fmt)
            if a is not True:
                bad, why = True, why or 'one of its certificates fails: ' + a
                continue
            c = s.cert_of(d, fmt)
            info, rr = I.getattr(c, 'info'), I.getattr(c, 'rev_rules')
            for f, w in (('serial', serial_text(I, I.getattr(info, 'serial'))), ('version', I.getattr(info, 'version')),
                         ('hash', b64(I, T('digest', (d,)))), ('valid_till', I.getattr(rr, 'valid_before'))):
                if not s.eq(g(f), w):
                    bad, why = True, why or 'the stored %s of one of its certificates is not known to be right' % f
        if r[0] == 'ok':
            C.expect(live(s, row) is True, 'an evaluation goes through in a session not known to be unexpired', I.lastret,
                     key='expired')
            C.expect(not bad, 'an evaluation goes through although %s' % why, I.lastret, key='certs')
        elif not bad and live(s, row) is True:
            C.expect(False, 'an evaluation in a valid session with valid certificates is refused with %s' % r[1], r[2].where,
                     key='refused')
        else:
            C.check()
        C.expect(not s.stored(), 'an evaluation changes the database')
    return ob


def obligations(tier):
    for how in ('given', 'long', 'none', 'stored', 'stored second'):
        yield 'policy ' + how, ob_policy(how)
    for n in (0, 1, 2):
        yield '%d object attributes' % n, ob_atts(n)
    for n in (0, 1, 2):
        yield '%d sessions' % n, ob_session(n)
    for n, na, ln in ((1, 0, 1), (1, 1, 1), (1, 1, 0), (1, 2, 1), (2, 1, 2), (2, 1, 0)):
        yield '%d certificates (%d linked), %d authorities' % (n, ln, na), ob_certs(n, na, ln), {'max_paths': 60000}
    if tier == 'thorough':
        yield '2 certificates (2 linked), 2 authorities', ob_certs(2, 2, 2), {'max_paths': 200000}
        yield '3 certificates (2 linked), 1 authority', ob_certs(3, 1, 2), {'max_paths': 200000}
