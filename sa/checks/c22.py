"""Secrets do not leave the program."""
from .svc import *

RULE = ('Both services (set-up and every method), both clients (every method), the database module, the key and password tools '
        'and certificate signing are analysed with secrets marked in the value terms: submitted and configured passwords, '
        'pepper, passphrase, database password, stored password hashes, the private key and its file. No text, argument or '
        'object field that reaches a log call, print, a raised exception, a reply, an exported certificate, a written file or '
        'a remote call is built from a marked value; the only exceptions are signatures and public halves made from a private '
        'key, the credentials argument of the attribute request of the client, the key file written by the key tool and the '
        'output of the password tool. Database engines are created with parameter logging off, and no configured level lets '
        'the SQL logger write result rows.')
BOUNDS = 'requests with 0 to 2 attributes or certificates; every database type; every log level name; contents unknown'

CONF_SECRETS = {'PASS_PEPPER': 'the password pepper', 'KEY_PASS': 'the key passphrase', 'DB_PASS': 'the database password',
                'CRED_PASS': 'the configured client password'}
SYM_SECRETS = {'password': 'the submitted password', 'key passphrase': 'the key passphrase', 'new password': 'the password'}
PUBLIC = ('sig', 'pred')


def is_private(v):
    return isinstance(v, ExtO) and v.kind == 'rsa' and v.data.get('private')


def secret(t):
    """What secret this term itself is, or None."""
    op, a = t.op, t.args
    if op == 'conf':
        return CONF_SECRETS.get(a[0])
    if op == 'sym':
        return SYM_SECRETS.get(a[0])
    if op == 'col' and a[1] == 'password':
        return 'a stored password hash'
    if op == 'bcrypt':
        return 'a password hash'
    if op == 'export' and a[1]:
        return 'a private key'
    if op == 'intop' and a[0] in ('rsad', 'rsap', 'rsaq', 'rsau'):
        return 'a private key'
    if op == 'filedata' and any(isinstance(x, T) and x.op == 'conf' and x.args[0] == 'KEY_FILE' for x in cat_parts(a[0])):
        return 'the private key file'
    return None


def leak(v, st, deep=False, formatted=False, seen=None, allow=()):
    """The secret that a value discloses when it is written out; deep: also the fields of objects."""
    seen = seen if seen is not None else set()
    if isinstance(v, (str, bytes, int, float, bool)) or v is None:
        return None
    if isinstance(v, T):
        if v in seen:
            return None
        seen.add(v)
        s = secret(v)
        if s:
            return None if s in allow else s
        if v.op in PUBLIC or (v.op == 'export' and not v.args[1]) or (v.op == 'intop' and v.args[0] in ('bits', 'bytes', 'len')):
            return None
        if v.op in ('len', 'eq', 'lt', 'not', 'and', 'or'):
            return None
        for x in v.args:
            r = leak(x, st, deep, formatted or v.op == 'repr', seen, allow)
            if r:
                return r
        return None
    if isinstance(v, FDV):
        for i in st.live_of(v.var):
            r = leak(v.vals[i], st, deep, formatted, seen, allow)
            if r:
                return r
        return None
    if id(v) in seen:
        return None
    seen.add(id(v))
    if is_private(v) and (formatted or deep):
        return 'a private key'
    if isinstance(v, BArr):
        return leak(v.content, st, deep, formatted, seen, allow)
    kids = []
    if isinstance(v, (list, tuple)):
        kids = list(v)
    elif isinstance(v, (ListO, SetO)):
        kids = list(v.items)
    elif isinstance(v, DictO):
        kids = [x for p in v.pairs for x in p]
    elif isinstance(v, dict):
        kids = list(v.values())
    elif isinstance(v, Inst) and deep:
        kids = list(v.attrs.values())
    elif isinstance(v, ExtO) and v.kind == 'instdict':
        kids = list(v.data['inst'].attrs.values())
    elif isinstance(v, ExtO) and v.kind in ('attachment', 'bytesio') and deep:
        kids = [v.data.get('content')]
    for x in kids:
        r = leak(x, st, deep, formatted or isinstance(v, (ListO, SetO, DictO, tuple)), seen, allow)
        if r:
            return r
    return None


def scan(s, r=None, ok_print=(), ok_write=(), creds=False):
    """All ways out of the program on this path."""
    st, C = s.st, s.C
    for e in st.events:
        k = e['kind']
        if k == 'log':
            v = leak(e['text'], st) if e['text'] is not None else leak([e['msg']] + list(e['args']), st, formatted=True)
            C.expect(not v, '%s is written to the log' % v, e['where'], key='log')
        elif k == 'print':
            v = leak(list(e['args']), st, allow=ok_print)
            C.expect(not v, '%s is printed' % v, e['where'], key='print')
        elif k == 'write':
            v = leak(e['data'], st, allow=ok_write)
            C.expect(not v, '%s is written to a file' % v, e['where'], key='write')
        elif k == 'open':
            v = leak(e['path'], st)
            C.expect(not v, '%s becomes part of a file name' % v, e['where'], key='open')
        elif k == 'export':
            v = leak([e['cert']] + list(e['atts']), st, deep=True)
            C.expect(not v, '%s is put into a certificate' % v, e['where'], key='cert')
        elif k == 'wsclient':
            v = leak(e['url'], st)
            C.expect(not v, '%s is put into a service address' % v, e['where'], key='url')
        elif k == 'rpc':
            kw = dict(e['kwargs'])
            if e['method'] == 'attribute_request':
                kw.pop('credentials', None)
            v = leak(list(e['args']) + list(kw.values()), st, deep=True)
            C.expect(not v, '%s is sent to the server by %s' % (v, e['method']), e['where'], key='rpc')
            if 'credentials' in e['kwargs']:
                v = leak(e['kwargs']['credentials'], st, deep=True)
                C.expect(v in (None, 'the configured client password', 'the submitted password'),
                         '%s is sent as a credential' % v, e['where'], key='cred')
        elif k in ('db_add', 'db_merge'):
            pass
    if r is not None:
        if r[0] == 'ok':
            v = leak(r[1], st, deep=True)
            C.expect(not v, '%s is part of the reply' % v, s.I.lastret, key='reply')
        else:
            x = r[2].value
            v = leak([a for n, a in x.attrs.items()] if isinstance(x, Inst) else x, st, formatted=True)
            C.expect(not v, '%s is part of the message of a %s' % (v, r[1]), r[2].where, key='exc')


def ob_aauth(what, n=1):
    def ob(st, C):
        s = AAuth(st, C)
        s.start()
        scan(s)
        us = s.users(2)
        for i in range(n):
            s.assign(us[0], s.attribute())
        if what == 'info':
            r = s.call('info', **{ADDR: 'addr'})
        else:
            t = (0, sym('type', 'int'))[st.choose(2, 'credential type given')]
            lst = None
            if what == 'named':
                lst = s.attlist((sym('wanted id', 'str', 'n'),), (sym('wanted name', 'str', 'n'),))
            r = s.request(s.creds(t), atts=lst)
        scan(s, r)
    return ob


def ob_pauth(what):
    def ob(st, C):
        s = PAuth(st, C)
        s.start()
        s.authorities(1)
        if what == 'start_session':
            raw, d = s.rawcert(0)
            s.row('AttributeCertificate', s.SCHEMA)
            r = s.call('start_session', sym('service uid', 'str', 'n'), s.certset([raw]), **{ADDR: 'addr'})
        elif what == 'evaluate':
            from .c21 import pair, GOOD, BAD
            s.row('Session', s.SCHEMA)
            i = st.choose(3, 'policy')
            r = s.call('evaluate', sym('session id', 'int'), pair(s, text=(GOOD[0], BAD[0], BAD[-1])[i]), **{ADDR: 'addr'})
        else:
            r = s.call(what, **{ADDR: 'addr'})
        scan(s, r)
    return ob


def ob_client(cls, what):
    def ob(st, C):
        good = st.choose(2, 'client type')
        s = cls(st, C, {'CLIENT_TYPE': ('JSONWSP', 'OTHER')[good]})
        I = s.I
        args = []
        own = cls is Client and st.choose(2, 'credentials given')
        if own:
            args = [DictO([['type', 0], ['username', sym('username', 'str')], ['password', sym('password', 'str')]])]
        try:
            s.service = I.call(s.cls(s.CLS), args or list(cls.ARGS), {})
        except PyRaise as e:
            scan(s, ('fault', exc_name(e), e))
            return
        if what == 'attribute_request':
            k = st.choose(2, 'key given')
            r = s.call(what, ListO([sym('name', 'str')]), ListO([]), s.key() if k else None)
        elif what == 'start_session':
            r = s.call(what, ListO([DictO([['data', sym('cert', 'bytes')]])]))
        elif what == 'update_service':
            r = s.call(what, sym('url', 'str'), ('JSONWSP', 'OTHER', None)[st.choose(3, 'new client type')])
        else:
            r = s.call(what)
        scan(s, r)
    return ob


DBT = ('mysql', 'SQLITE', 'memory', 'none of these')


def unhook(s, *names):
    for n in names:
        s.I.hooks.pop(n, None)


def ob_database(what):
    def ob(st, C):
        t = DBT[st.choose(len(DBT), 'database type')]
        s = Prog(st, C, {'DB_TYPE': t})
        s.MOD = 'hgaa.database'
        unhook(s, 'hgaa.database.get_session')
        I = s.I
        if what == 'get_engine':
            r = s.run('get_engine', 'AAUTH')
        elif what == 'get_session':
            r = s.run('get_session', 'PAUTH')
        else:
            u = s.I.call(s.cls('User', 'hgaa.schema.aauth'), [], {'id': 1, 'username': 'u', 'password': T(
                'col', ('User#new', 'password'))})
            r = s.run('populate_db', 'AAUTH', ListO([u]), wipe_first=True)
        for e in st.events:
            if e['kind'] == 'engine':
                kw = e['kwargs']
                C.expect(kw.get('hide_parameters') is True, 'statement parameters, and with them password hashes, are logged: '
                         'the engine is created without hide_parameters', e['where'], key='hide')
                C.expect(not kw.get('echo') , 'the engine is created with echo on', e['where'], key='echo')
        if r[0] == 'ok':
            r = None
        scan(s, r)
    return ob


def ob_sqllevel(st, C):
    """The SQL logger's level (SQLAlchemy writes result rows at debug level)."""
    names = ('ALL', 'DEBUG', 'INFO', 'INFORMATION', 'WARN', 'WARNING', 'ERROR', 'CRITICAL', 'all', 'debug', 'OTHER')
    lv = names[st.choose(len(names), 'SQL_LOG_LEVEL')]
    s = Prog(st, C, {'SQL_LOG_LEVEL': lv, 'LOG_LEVEL': 'ALL', 'LOG_FILE': 'x.log', 'SQL_LOG_FILE': 'sql.log',
                     'CLEAN_LOG_ON_START': 'True', 'LOG_STDOUT': 'True', 'SQL_LOG_STDOUT': 'True'})
    unhook(s, 'hgaa.log._make_sql_log')
    s.MOD = 'hgaa.log'
    s.cls('SQL_LOG')
    n = 0
    last = {}
    for e in st.events:
        if e['kind'] == 'loglevel':
            nm = I_name(s, e['logger'])
            if isinstance(nm, str) and (nm == 'sqlalchemy' or nm.startswith('sqlalchemy.')):
                last[nm] = e
    for nm, e in last.items():
        n += 1
        v = e['level']
        C.expect(isinstance(v, int) and (v > 10 or v == 0) or v in ('INFO', 'WARNING', 'ERROR', 'CRITICAL'),
                 'SQL_LOG_LEVEL=%s lets the SQL logger write result rows, with password hashes among them (level %s)' % (
                     lv, show(v)), e['where'], key='sql')
    if not n:
        C.check()


def I_name(s, lg):
    return s.I.getattr(lg, 'name')


def ob_genkey(via):
    def ob(st, C):
        s = Prog(st, C)
        if via == 'call':
            r = s.run('gen_aauth_key', sym('key file', 'str', 'n'), sym('key passphrase', 'str', 'n'))
        else:
            r = s.main('genkey', 'aauth')
        scan(s, r if r[0] != 'ok' else None, ok_write=('a private key',))
        for e in st.events:
            if e['kind'] == 'write':
                x = e['data']
                bare = [t for t in (bcat_parts(x) if isinstance(x, T) else [x]) if isinstance(t, T) and t.op == 'export' and
                        t.args[1] and t.args[2] is None]
                C.expect(not bare, 'the private key is written unencrypted', e['where'], key='plain')
    return ob


def ob_passtool(st, C):
    s = Prog(st, C)
    r = s.main('password', 'AAUTH', sym('new password', 'str', 'n'))
    scan(s, r if r[0] != 'ok' else None, ok_print=('the password', 'a password hash'))


def ob_sign(st, C):
    """Signing and exporting a certificate."""
    s = Prog(st, C)
    I = s.I
    A = AC_MOD
    cert = I.call(s.cls('AttributeCertificate', A), [], {
        'issuer': I.call(s.cls('ACIssuer', A), [], {'pub_key': sym('pk', 'bytes', 'n'), 'key_algo': 'RSA', 'uid': 'u', 'url': 'l'}),
        'holder': I.call(s.cls('ACHolder', A), [], {'pub_key': sym('hk', 'bytes', 'n'), 'key_algo': 'RSA', 'uid': 'h'}),
        'info': I.call(s.cls('ACInformation', A), [], {'version': 1, 'serial': 5, 'issued': 7}),
        'rev_rules': I.call(s.cls('ACRevocationRules', A), [], {'valid_after': 1, 'valid_before': 9}),
        'att_set': ListO([])})
    key = ExtO('rsa', term=sym('authority key', 'rsa'), private=True, bits=2048)
    fm = ('BYTES', 'BASE64', 'BASE64FULL')[st.choose(3, 'format')]
    fmt = s.cls('ExportFormat', A).members[fm]
    try:
        r = ('ok', I.call(I.getattr(cert, 'export_ac'), [], {'format': fmt, 'sign': True, 'prvi_key': key,
                                                              'sig_algo': 'RSASSA-PKCS1-v1_5:SHA256'}), None)
    except PyRaise as e:
        r = ('fault', exc_name(e), e)
    scan(s, r)
    v = leak(list(cert.attrs.values()), st, deep=True)
    C.expect(not v, '%s is kept in the certificate' % v)


def obligations(tier):
    yield 'attribute authority: info', ob_aauth('info', 0)
    yield 'attribute authority: request for all attributes', ob_aauth('all', 1)
    yield 'attribute authority: request for named attributes', ob_aauth('named', 1)
    if tier == 'thorough':
        yield 'attribute authority: request for named attributes of 2', ob_aauth('named', 2)
    for w in ('info', 'trusted_attribute_authorities', 'start_session', 'evaluate'):
        yield 'policy authority: ' + w, ob_pauth(w)
    for w in ('info', 'attribute_request', 'update_service'):
        yield 'attribute authority client: ' + w, ob_client(Client, w)
    for w in ('info', 'trusted_attribute_authorities', 'start_session', 'update_service'):
        yield 'policy authority client: ' + w, ob_client(PClient, w)
    for w in ('get_engine', 'get_session', 'populate_db'):
        yield 'database: ' + w, ob_database(w)
    yield 'SQL log level', ob_sqllevel
    for v in ('call', 'command'):
        yield 'key tool: ' + v, ob_genkey(v)
    yield 'password tool', ob_passtool
    yield 'signing', ob_sign
