"""The authority's key file and the password hashes."""
from .svc import *

RULE = ('The key command of hgaa.tools is analysed up to the file it writes; the attribute authority is then set up on that '
        'file. The only bytes written are the private key generated in this run, exported encrypted under the configured '
        'passphrase, to the configured key file; the authority set up afterwards holds exactly that key. The password command '
        'is analysed on an unknown password: the bytes hashed equal the bytes the login check of the attribute authority '
        'passes to bcrypt for the same password, the salt was drawn by gensalt in the same run, and the printed text contains '
        'the complete hash.')
BOUNDS = 'unknown passphrase, file name, password and pepper; commands in both letter cases'


def ob_key(argv):
    def ob(st, C):
        s = AAuth(st, C)
        I = s.I
        p = Prog.__new__(Prog)
        p.__dict__.update(s.__dict__)
        file, pw = conf_term('KEY_FILE', True, 'AAUTH'), conf_term('KEY_PASS', True, 'AAUTH')
        s.nonempty(pw)
        r = p.main(*argv)
        if r[0] != 'ok':
            C.expect(False, 'the key command ends in %s' % r[1], r[2].where)
            return
        writes = [e for e in st.events if e['kind'] == 'write']
        gen = [e['value'] for e in st.events if e['kind'] == 'rsagen']
        C.expect(bool(writes), 'the key command writes no file', key='none')
        for e in writes:
            d = e['data']
            C.expect(s.eq(e['path'], file), 'the key is written to %s, not the configured key file' % show(e['path']), e['where'],
                     key='path')
            C.expect(isinstance(d, T) and d.op == 'export' and d.args[1] is True, 'what is written is not a private key: %s' %
                     show(d), e['where'], key='data')
            if isinstance(d, T) and d.op == 'export':
                C.expect(d.args[2] is not None and s.eq(d.args[2], pw), 'the private key is written %s' % (
                    'unencrypted' if d.args[2] is None else 'encrypted under %s' % show(d.args[2])), e['where'], key='pass')
                C.expect(d.args[0] in gen, 'the key written was not generated in this run', e['where'], key='fresh')
        try:
            svc = I.call(s.cls(s.CLS), [], {})
        except PyRaise as e:
            C.expect(False, 'the attribute authority cannot load the key file: %s' % exc_name(e), e.where, key='load')
            return
        k = [v for v in svc.attrs.values() if isinstance(v, ExtO) and v.kind == 'rsa' and v.data['private']]
        C.expect(len(k) == 1 and len(gen) == 1 and k[0].data['term'] is gen[0] or bool(k) and ckey(k[0].data['term']) == ckey(
            gen[-1]), 'the key loaded by the attribute authority is not the generated one', key='same')
    return ob


def ob_genkey(st, C):
    """Direct use of the key function with any file, passphrase and size."""
    s = Prog(st, C)
    file, pw, size = sym('file', 'str', 'n'), sym('pass', 'str', 'n'), sym('size', 'int')
    r = s.run('gen_aauth_key', file, pw, *([size] if st.choose(2, 'size given') else []))
    if r[0] != 'ok':
        C.expect(False, 'key generation ends in %s' % r[1], r[2].where)
        return
    for e in s.events('write'):
        d = e['data']
        ok = isinstance(d, T) and d.op == 'export' and d.args[1] is True and d.args[2] is not None and s.eq(d.args[2], pw)
        C.expect(ok and s.eq(e['path'], file), 'the private key is not written encrypted under the given passphrase to the given '
                 'file', e['where'])
    C.expect(bool(s.events('write')), 'no key is written')


def ob_password(argv):
    def ob(st, C):
        s = AAuth(st, C)
        I = s.I
        s.start()
        us = s.users(1)
        pw = sym('password', 'str', 'n')
        s.request(s.creds(0, password=pw))
        chk = [e for e in st.events if e['kind'] == 'checkpw']
        p = Prog.__new__(Prog)
        p.__dict__.update(s.__dict__)
        n = len(st.events)
        r = p.main(*(argv + (pw,)))
        if r[0] != 'ok':
            C.expect(False, 'the password command ends in %s' % r[1], r[2].where)
            return
        evs = st.events[n:]
        hs = [e for e in evs if e['kind'] == 'hashpw']
        salts = [e['value'] for e in evs if e['kind'] == 'gensalt']
        C.expect(len(hs) >= 1, 'no hash is made', key='none')
        for e in hs:
            C.expect(any(x is e['salt'] or (isinstance(e['salt'], T) and e['salt'] == x) for x in salts),
                     'the salt %s was not freshly drawn' % show(e['salt']), e['where'], key='salt')
            for c in chk:
                C.expect(s.eq(I.as_bytes(e['password']), c['password']), 'the tool hashes %s but the login check uses %s' % (
                    show(e['password']), show(c['password'])), e['where'], key='compose')
        if hs:
            h = hs[-1]['value']
            dec = I.method(h, 'decode', ['utf-8'], {})
            out = []
            for e in evs:
                if e['kind'] == 'print':
                    for a in e['args']:
                        out += list(cat_parts(I.str_(a)))
            C.expect(any(isinstance(x, T) and x == dec for x in out), 'the complete hash is not printed', key='print')
    return ob


def obligations(tier):
    for a in (('genkey', 'aauth'), ('GENKEY', 'AAUTH')):
        yield 'command ' + ' '.join(a), ob_key(a)
    yield 'gen_aauth_key', ob_genkey
    for a in (('password', 'AAUTH'), ('pass', 'aauth')):
        yield 'command ' + ' '.join(a), ob_password(a)
