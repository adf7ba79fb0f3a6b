"""Authentication before issuing."""
from .svc import *

RULE = ('AttributeAuthority.attribute_request is analysed with unknown credentials (every credential type, unknown user name '
        'and password, also missing ones) against a database of unknown accounts. On every path on which a certificate is '
        'exported, signed, written or returned, a password check came before it that succeeded, over exactly the bytes of '
        'password followed by the configured pepper, against the stored hash of the account whose name is the lower-cased '
        'submitted name, under the credential type USER_PASS. Every other path raises. The same request is then analysed '
        'with and without that account: the two faults are equal.')
BOUNDS = 'databases of 0, 1 and 2 accounts; user name, password, pepper and hashes unknown; credential type any integer'


def accounts(s):
    return s.db.get(s.cls('User', s.SCHEMA).qual, [])


def utf8(I, v):
    return I.method(v, 'encode', [], {})


def proof(s, creds, before):
    """The successful check of this account's password that precedes event number `before`, or the reason why not."""
    I = s.I
    user, pw = I.getattr(creds, 'username'), I.getattr(creds, 'password')
    if user is None:
        return 'no user name was given'
    if not s.eq(I.getattr(creds, 'type'), 0):
        return 'the credential type is not user name and password'
    low = I.method(user, 'lower', [], {})
    owners = [u for u in accounts(s) if s.eq(I.getattr(u, 'username'), low)]
    if not owners:
        return 'no account has the submitted name'
    want = utf8(I, cat(['None' if pw is None else pw, conf_term('PASS_PEPPER', True, 'AAUTH')]))
    why = 'no password was checked'
    for e in s.events('checkpw'):
        if before is not None and e['n'] > before:
            continue
        if s.st.known(e['atom']) is not True:
            why = 'the password check failed or was not looked at'
        elif not s.eq(e['password'], want):
            why = 'what was checked is not the submitted password with the pepper: %s' % show(e['password'])
        elif not any(s.eq(e['hashed'], utf8(I, I.getattr(u, 'password'))) for u in owners):
            why = 'the password was checked against %s, not the hash of the account' % show(e['hashed'])
        else:
            return True
    return why


def ob_auth(n, pwkind):
    def ob(st, C):
        s = AAuth(st, C)
        s.start()
        us = s.users(n) if n else []
        if n:
            s.assign(us[0], s.attribute())
        t = (0, sym('type', 'int'))[st.choose(2, 'credential type given')]
        creds = s.creds(t, password={'str': Ellipsis, 'none': None}[pwkind])
        r = s.request(creds)
        eff = s.effects()
        first = min([e['n'] for e in eff]) if eff else None
        p = proof(s, creds, first)
        if eff or r[0] == 'ok':
            where = eff[0]['where'] if eff else s.I.lastret
            C.expect(p is True, 'a certificate is issued although %s' % p, where)
        else:
            C.check()
    return ob


def ob_nouser(st, C):
    """Missing user name: never a certificate."""
    s = AAuth(st, C)
    s.start()
    s.users(1)
    creds = s.creds(user=None)
    r = s.request(creds)
    eff = s.effects()
    C.expect(not eff and r[0] != 'ok', 'a certificate is issued without a user name', eff[0]['where'] if eff else None)


def ob_issues(st, C):
    """A proved password leads to a certificate: exported once, signed, stored and returned."""
    s = AAuth(st, C)
    s.start()
    us = s.users(1)
    creds = s.creds()
    r = s.request(creds)
    ck = s.events('checkpw')
    if not (s.eq(s.I.getattr(us[0], 'username'), s.I.method(s.I.getattr(creds, 'username'), 'lower', [], {})) and
            ck and all(st.known(e['atom']) is True for e in ck)):
        return
    C.expect(r[0] == 'ok', 'a request with the right password ends in %s' % (r[1],), r[2].where if r[2] else None)


def fault(s, r):
    a = r[2].value.attrs.get('args', ()) if isinstance(r[2].value, Inst) else ()
    return r[1], tuple(show(x) for x in (a.items if isinstance(a, ListO) else a))


def ob_same(st, C):
    """Unknown user and wrong password cannot be told apart."""
    s = AAuth(st, C)
    s.start()
    us = s.users(1)
    creds = s.creds()
    r1 = s.request(creds)
    ck = s.events('checkpw')
    known = s.eq(s.I.getattr(us[0], 'username'), s.I.method(s.I.getattr(creds, 'username'), 'lower', [], {}))
    if not known or r1[0] == 'ok' or not ck:
        return
    s.db[us[0].cls.qual] = []
    r2 = s.request(creds)
    if r2[0] == 'ok':
        return
    C.expect(fault(s, r1) == fault(s, r2), 'a wrong password is answered with %s, an unknown user with %s' % (
        fault(s, r1), fault(s, r2)), r2[2].where)


def obligations(tier):
    for n in (0, 1, 2) + ((3,) if tier == 'thorough' else ()):
        for k in ('str', 'none'):
            yield 'request, %d accounts, password %s' % (n, k), ob_auth(n, k)
    yield 'request without user name', ob_nouser
    yield 'right password', ob_issues
    yield 'faults of unknown user and wrong password', ob_same
