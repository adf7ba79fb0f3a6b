"""Randomness of serials and session ids."""
from ..ext import CSPRNG
from .svc import *
from .c15 import is_con, CON, proved

RULE = ('Two successive attribute requests and two successive session requests are analysed on one service object. The serial '
        'of each exported certificate is, as a term, a value drawn during that very request from a cryptographically secure '
        'source with 160 bits; the serial in the connection attributes and in the file name is that same term. The session id '
        'in the reply is such a value, and the stored session and certificate links hold an injective encoding of all 160 bits '
        'of it. The two requests draw different values.')
BOUNDS = 'two successive requests per service; all contents unknown'


def drawn(s, t):
    """None if t is a fresh secure 160-bit value of this request, else what is wrong."""
    if isinstance(t, T):
        t = s.st.rep(t)
    for e in s.events('random'):
        v = e['value']
        if e['isbytes']:
            ok = isinstance(t, T) and t.op == 'unpackint' and len(t.args) == 2 and t.args[1] == v
            bits = e['bits'] * 8 if isinstance(e['bits'], int) else None
        else:
            ok, bits = isinstance(t, T) and t == v, e['bits']
        if ok:
            if e['source'] not in CSPRNG:
                return 'drawn from %s' % e['source']
            if bits != 160:
                return 'drawn with %s bits' % show(e['bits'])
            return None
    return 'not a random number drawn in this request: %s' % show(t)


INJ = {'b64', 'dec', 'utf8', 'str', 'pack', 'fmt', 'cat', 'hexstr', 'repr'}


def injective(t, v):
    """t is built from the whole of v by injective operations (and literals) only."""
    if isinstance(t, T) and isinstance(v, T) and t == v:
        return True
    if not isinstance(t, T):
        return False
    if t.op == 'pack':
        return t.args[1] == v and '20' in t.args[0]
    if t.op in INJ:
        return any(injective(a, v) for a in t.args)
    if t.op in ('bytesop', 'strop'):
        return t.args[0] in ('b64', 'hex', 'b64encode', 'hexlify', 'b32', 'fmt', 'hexstr') and any(injective(a, v) for a in t.args[1:])
    return False


def ob_serial(st, C):
    s = AAuth(st, C)
    s.start()
    us = s.users(1)
    creds = s.creds()
    s.I.must_eq(s.I.getattr(us[0], 'username'), s.I.method(s.I.getattr(creds, 'username'), 'lower', [], {}))
    I = s.I
    old = None
    for k in (1, 2):
        r = s.request(creds)
        exps = s.issued()
        if not proved(s, st) or len(exps) != 1:
            return
        cert, site = exps[0]['cert'], exps[0]['where']
        ser = I.getattr(I.getattr(cert, 'info'), 'serial')
        why = drawn(s, ser)
        C.expect(why is None, 'the certificate serial is %s' % why, site, key='serial')
        C.expect(old is None or not s.eq(old, ser), 'two certificates get the same serial', site)
        for a in exps[0]['atts']:
            if is_con(I, a) and I.getattr(a, 'att_id') == CON + 'session_id':
                C.expect(s.eq(I.getattr(a, 'att_value'), I.call(BuiltinV('str'), [ser], {})),
                         'the session_id attribute is %s, not the serial' % show(I.getattr(a, 'att_value')), site)
        for w in s.events('write'):
            C.expect(whole(w['path'], st.rep(ser)), 'the name of the stored certificate does not contain the whole serial: %s'
                     % show(w['path']), w['where'])
        old = ser


def whole(p, v):
    """Some part of the text is the complete number v."""
    for x in cat_parts(p):
        if isinstance(x, T):
            if x == v or injective(x, v):
                return True
            if x.op in ('fmt', 'strop', 'strslice') and any(isinstance(a, T) and (a == v or whole(a, v)) for a in x.args):
                return x.op != 'strslice' or all(not isinstance(a, int) or a in (0, 2) for a in x.args[1:2]) and (
                    len(x.args) < 3 or x.args[2] is None)
    return False


def ob_session(st, C):
    s = PAuth(st, C)
    s.start()
    s.authorities(1)
    I = s.I
    old = None
    for k in (1, 2):
        raw, data = s.rawcert(k)
        r = s.call('start_session', sym('service uid', 'str', 'n'), s.certset([raw]), **{ADDR: 'addr'})
        if r[0] != 'ok':
            return
        sid = I.getattr(r[1], 'session_id')
        why = drawn(s, sid)
        C.expect(why is None, 'the session id is %s' % why, key='sid')
        C.expect(old is None or not s.eq(old, sid), 'two sessions get the same id')
        n = 0
        for e in s.stored():
            o = e.get('obj')
            if e['kind'] in ('db_add', 'db_merge') and isinstance(o, Inst) and o.cls.name in (
                    'Session', 'AttributeCertificateAssignment'):
                v = I.getattr(o, 'id' if o.cls.name == 'Session' else 'session_id')
                C.expect(injective(v, st.rep(sid)), 'the stored %s does not hold the whole session id: %s' % (
                    o.cls.name, show(v)), e['where'])
                n += o.cls.name == 'Session'
        C.expect(n == 1, '%d sessions are stored for one request' % n)
        old = sid


def obligations(tier):
    yield 'serials of two certificates', ob_serial
    yield 'ids of two sessions', ob_session
