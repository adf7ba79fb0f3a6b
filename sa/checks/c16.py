"""Contents of an issued certificate other than the user attributes."""
from .svc import *
from .c15 import is_con, CON, proved

RULE = ('A request with a proved password is analysed with unknown configuration, user name, key and remote address. On every '
        'path that exports a certificate: its issuer is the configured uid, name, url and the public half of the authority\'s '
        'key; its holder is the account under this authority with the submitted key and algorithm; its window runs from its '
        'issue time (a clock reading of this request) for the configured lifetime; it is exported signed with the authority\'s '
        'private key; what is written to the certificate store and what is returned are exactly the exported bytes with the '
        'format and version they have. Its connection attributes have pairwise different ids and, for every listed one, the '
        'value computed from the request, all time parts from one and the same clock reading in GMT.')
BOUNDS = 'remote addresses of the shapes a.b.c.d (unknown numbers), eight hextets, and others; 1 account; all contents unknown'

TIMES = {'con_time_month': 'tm_mon', 'con_time_day': 'tm_mday', 'con_time_weekday': 'tm_wday', 'con_time_year': 'tm_year',
         'con_time_yearday': 'tm_yday', 'con_time_hour': 'tm_hour', 'con_time_min': 'tm_min', 'con_time_sec': 'tm_sec'}
KEY = T('rsakey', (T('filedata', (conf_term('KEY_FILE', True, 'AAUTH'),)), conf_term('KEY_PASS', True, 'AAUTH')))


def conf(name):
    return conf_term(name, True, 'AAUTH')


def address(kind):
    if kind == 'v4':
        ps = [sym('octet%d' % i, 'str', 'dn') for i in range(4)]
        return cat([x for i, p in enumerate(ps) for x in ((['.'] if i else []) + [p])]), ps
    if kind == 'v6':
        ps = ['fe80', '1', 'abcd', '0', '22', '3', 'ffff', '9']
        return ':'.join(ps), ps
    return 'unix', []


def request(st, C, kind='none', conf_=None, more=False):
    s = AAuth(st, C, conf_)
    s.start()
    us = s.users(1)
    s.assign(us[0], s.attribute())
    creds = s.creds()
    s.I.must_eq(s.I.getattr(us[0], 'username'), s.I.method(s.I.getattr(creds, 'username'), 'lower', [], {}))
    s.nonempty(s.I.getattr(us[0], 'username'))
    addr, parts = address(kind)
    exports = {ADDR: addr}
    if more:
        for v in ('REMOTE_HOST', 'REMOTE_IDENT', 'REMOTE_USER'):
            exports[v] = sym(v, 'str', 'n')
    key = s.pubkey()
    r = s.request(creds, key, **exports)
    if not proved(s, st):
        return None
    exps = s.issued()
    C.expect(r[0] == 'ok' and len(exps) == 1, 'a request with the right password ends in %s with %d certificates' % (
        r[1] if r[0] != 'ok' else 'a reply', len(exps)), r[2].where if r[2] else None)
    if r[0] != 'ok' or len(exps) != 1:
        return None
    return s, us, creds, key, exports, parts, r[1], exps[0]


def text(I, v):
    """What the certificate attribute for this value has to say."""
    return I.call(BuiltinV('str'), [v], {})


def ob_fields(host):
    def ob(st, C):
        q = request(st, C, conf_={'SERVICE_HOST': host, 'REV_URL': ('http://rev/', '', None)[st.choose(3, 'revocation url')]})
        if q is None:
            return
        s, us, creds, key, exports, parts, reply, ev = q
        I, cert = s.I, ev['cert']
        site = ev['where']
        user = I.method(I.getattr(creds, 'username'), 'lower', [], {})
        base = 'http://%s:8888/AttributeAuthority/jsonwsp/' % (host or 'localhost')
        rev = s.conf['REV_URL'] or base + 'revocation_list'
        issued = I.getattr(I.getattr(cert, 'info'), 'issued')
        length = I.call(BuiltinV('int'), [conf('AC_EXPIRE_LENGTH')], {})
        ka = I.getattr(key, 'key_algorithm')
        want = [
            ('issuer', 'uid', conf('A_URI')), ('issuer', 'name', conf('AAUTH_ID')), ('issuer', 'url', base),
            ('issuer', 'key_algo', cat(['RSA[', text(I, T('intop', ('bits', KEY))), ']'])),
            ('holder', 'uid', cat([conf('A_URI'), '/user/', user])), ('holder', 'name', user),
            ('holder', 'pub_key', I.getattr(key, 'public_key')),
            ('holder', 'key_algo', cat([I.getattr(ka, 'cipher'), '[', text(I, I.getattr(ka, 'key_size')), ']'])),
            ('info', 'version', 1), ('rev_rules', 'valid_after', issued), ('rev_rules', 'valid_before', add(issued, length)),
            ('rev_rules', 'url', rev)]
        for part, f, w in want:
            g = I.getattr(I.getattr(cert, part), f)
            C.expect(s.eq(g, w), '%s.%s of the certificate is %s, not %s' % (part, f, show(g), show(w)), site,
                     key=part + f)
        g = I.getattr(I.getattr(cert, 'issuer'), 'pub_key')
        C.expect(isinstance(g, T) and g.op == 'export' and g.args[0] == KEY and g.args[1] is False,
                 'the issuer key of the certificate is %s, not the public half of the authority\'s key' % show(g), site)
        now = [e['value'] for e in s.events('time')]
        C.expect(any(s.eq(issued, I.call(BuiltinV('int'), [t], {})) for t in now),
                 'the issue time %s is not a clock reading of this request' % show(issued), site)
        # signed with the authority's private key
        k = ev['key']
        C.expect(I.truth(ev['sign']) and isinstance(k, ExtO) and k.kind == 'rsa' and k.data['private'] and
                 k.data['term'] == KEY, 'the certificate is not signed with the authority\'s private key', site)
    return ob


def ob_returned(st, C):
    q = request(st, C)
    if q is None:
        return
    s, us, creds, key, exports, parts, reply, ev = q
    I, cert = s.I, ev['cert']
    ws = s.events('write')
    C.expect(len(ws) >= 1 and s.eq(bcat([w['data'] for w in ws]), ev['data']) and
             len({ckey(w['path']) for w in ws}) == 1,
             'what is stored is not the exported certificate', ws[0]['where'] if ws else ev['where'])
    d = I.getattr(reply, 'data')
    got = I.attachment_read(d) if isinstance(d, ExtO) and d.kind == 'attachment' else d
    C.expect(isinstance(got, (T, BArr)) and s.eq(got.content if isinstance(got, BArr) else got, ev['data']),
             'what is returned is not the exported certificate but %s' % show(got))
    fmt = ev['format']
    C.expect(isinstance(fmt, EnumV) and s.eq(I.getattr(reply, 'format'), I.getattr(fmt, 'value')),
             'the reply gives format %s for a certificate in format %s' % (show(I.getattr(reply, 'format')), show(fmt)))
    C.expect(s.eq(I.getattr(reply, 'version'), I.getattr(I.getattr(cert, 'info'), 'version')),
             'the reply gives another version than the certificate has')
    # unguessable and unique file name: contains the whole serial
    ser = I.getattr(I.getattr(cert, 'info'), 'serial')
    C.expect(bool(ws) and mentions(ws[0]['path'], ser),
             'the name of the stored file does not depend on the serial: %s' % (show(ws[0]['path']) if ws else ''))


def mentions(v, t):
    if isinstance(v, T):
        if v == t:
            return True
        return any(mentions(a, t) for a in v.args)
    if isinstance(v, (tuple, list)):
        return any(mentions(a, t) for a in v)
    return False


def ob_connection(kind, more):
    def ob(st, C):
        q = request(st, C, kind, more=more)
        if q is None:
            return
        s, us, creds, key, exports, parts, reply, ev = q
        I, cert = s.I, ev['cert']
        site = ev['where']
        cons = [a for a in ev['atts'] if is_con(I, a)]
        ids = [I.getattr(a, 'att_id') for a in cons]
        dup = sorted({i for i in ids if ids.count(i) > 1})
        C.expect(not dup, 'several connection attributes have the id %s' % ', '.join(dup), site)
        by = {}
        for a in cons:
            by.setdefault(I.getattr(a, 'att_id')[len(CON):], a)
        info = I.getattr(cert, 'info')
        want = {'auth_method': ('INT', 0)}
        for v, x in exports.items():
            want[v.lower()] = ('STRING', x)
        if kind == 'v4':
            want['ip_v4'], want['ip_v6'] = ('BOOL', True), ('BOOL', False)
            for i, p in enumerate(parts):
                want['remote_addr_v4_oct%d' % i] = ('INT', I.call(BuiltinV('int'), [p], {}))
        elif kind == 'v6':
            want['ip_v4'], want['ip_v6'] = ('BOOL', False), ('BOOL', True)
            for i, p in enumerate(parts):
                want['remote_addr_v6_hex%d' % i] = ('INT', int(p, 16))
        ka = I.getattr(key, 'key_algorithm')
        want['pub_key'] = ('STRING', I.method(I.x_base64_b64encode(I.getattr(key, 'public_key')), 'decode', ['utf-8'], {}))
        want['pub_key_size'] = ('INT', I.getattr(ka, 'key_size'))
        want['pub_key_algo'] = ('STRING', I.getattr(ka, 'cipher'))
        want['session_id'] = ('INT', I.getattr(info, 'serial'))
        want['session_length'] = ('INT', I.call(BuiltinV('int'), [conf('AC_EXPIRE_LENGTH')], {}))
        want['aauth_uid'] = ('STRING', conf('A_URI'))
        want['aauth_name'] = ('STRING', conf('AAUTH_ID'))
        want['aauth_url'] = ('STRING', 'http://host:8888/AttributeAuthority/jsonwsp/')
        want['aauth_pub_key_size'] = ('INT', T('intop', ('bits', KEY)))
        want['aauth_pub_key_algo'] = ('STRING', 'RSA')
        want['aauth_version'] = ('INT', 1)
        want['ac_version'] = ('INT', 1)
        # the instant: the clock reading the con_time attribute was made from
        ct = by.get('con_time')
        inst = [e['value'] for e in s.events('time') if ct is not None and s.eq(
            I.getattr(ct, 'att_value'), text(I, I.call(BuiltinV('int'), [e['value']], {})))]
        if not inst and ct is not None:
            iss = I.getattr(info, 'issued')
            if s.eq(I.getattr(ct, 'att_value'), text(I, iss)):
                inst = [iss]
        C.expect(bool(inst), 'con_time is %s, not a clock reading of this request' % (
            show(I.getattr(ct, 'att_value')) if ct is not None else 'missing'), site)
        if inst:
            tm = I.x_time('gmtime', [inst[0]], {})
            for n, f in TIMES.items():
                want[n] = ('INT', I.getattr(tm, f))
            want['con_time_weekdayname'] = ('STRING', I.x_time('strftime', ['%A', tm], {}))
            want['con_time_monthname'] = ('STRING', I.x_time('strftime', ['%B', tm], {}))
            want['con_time_zone'] = ('STRING', 'GMT')
        for n, (typ, v) in sorted(want.items()):
            a = by.get(n)
            if a is None:
                C.expect(False, 'the connection attribute %s is missing' % n, site)
                continue
            g = I.getattr(a, 'att_value')
            C.expect(g is not None and s.eq(g, text(I, v)), 'the connection attribute %s is %s, not %s' % (
                n, show(g), show(v)), site, key=n)
            t = I.getattr(a, 'att_type')
            C.expect(isinstance(t, EnumV) and t.name == typ, 'the connection attribute %s has type %s, not %s' % (
                n, show(t), typ), site, key=n + ' type')
            C.expect(s.eq(I.getattr(a, 'att_name'), n), 'the connection attribute with id %s%s is named %s' % (
                CON, n, show(I.getattr(a, 'att_name'))), site, key=n + ' name')
    return ob


def obligations(tier):
    for h in ('host', ''):
        yield 'issuer, holder, window, signature; host %r' % h, ob_fields(h)
    yield 'stored and returned bytes', ob_returned
    for kind in ('v4', 'v6', 'none'):
        for more in (False, True):
            yield 'connection attributes, address %s%s' % (kind, ', all remote data' if more else ''), ob_connection(kind, more)
