"""A session is stored in one transaction."""
from .svc import *

RULE = ('Typestate of the database session over start_session: on every path at most one transaction is committed; the session '
        'row, every certificate row and every link that the path makes permanent are added before that commit, on the database '
        'session that is committed; the link and certificate rows of the started session are all among them; nothing is written '
        'outside a transaction (no autocommit statements on engine or connection); a path that returns a session id has '
        'committed, and before it answers; a path that ends in a fault has committed nothing. The other methods of both '
        'services commit nothing.')
BOUNDS = '1 and 2 certificates (thorough: 3), stores of 0, 1, 2 certificates, sessions stored before; all contents unknown'

WRITES = ('db_add', 'db_merge', 'db_delete', 'db_execute', 'db_update')


def transactions(s, C, r, what):
    """Checks the events of the last call; returns the events made permanent."""
    I = s.I
    pend, out, commits = [], [], []
    for e in s.st.events[s.n0:]:
        k = e['kind']
        if k in WRITES:
            x = e.get('session')
            C.expect(not (isinstance(x, ExtO) and x.kind in ('dbconn', 'engine')),
                     '%s writes to the database outside a transaction' % what, e['where'])
            pend.append(e)
        elif k in ('setattr',) and isinstance(e.get('obj'), Inst) and s.is_row(e['obj']) and e['obj'].tag != 'new':
            c = e['obj'].cls.lookup(e.get('name'))[0]
            if isinstance(c, ExtO) and c.kind == 'column':
                pend.append(e)
        elif k == 'db_rollback':
            pend = [x for x in pend if x.get('session') is not e.get('session')]
        elif k == 'db_commit':
            mine = [x for x in pend if x.get('session') is None or x.get('session') is e.get('session')]
            pend = [x for x in pend if not any(x is y for y in mine)]
            if mine:
                commits.append(e)
                out += mine
    C.expect(len(commits) <= 1, '%s makes its changes permanent in %d steps: a crash in between leaves part of them' % (
        what, len(commits)), commits[1]['where'] if len(commits) > 1 else None)
    return out, pend, commits


def ob_session(n, nst, nses=0):
    def ob(st, C):
        s = PAuth(st, C)
        s.start()
        s.authorities(1)
        I = s.I
        old = [s.row('AttributeCertificate', s.SCHEMA) for _ in range(nst)]
        s.distinct(*[I.getattr(o, 'serial') for o in old])
        for _ in range(nses):
            s.row('Session', s.SCHEMA)
        raws = [s.rawcert(i) for i in range(n)]
        r = s.call('start_session', sym('service uid', 'str', 'n'), s.certset([x[0] for x in raws]), **{ADDR: 'addr'})
        out, pend, commits = transactions(s, C, r, 'start_session')
        where = I.lastret if r[0] == 'ok' else r[2].where
        if r[0] != 'ok':
            C.expect(not out, 'a session request that fails has made changes permanent', out[0]['where'] if out else None)
            return
        C.expect(not pend, 'a session is answered with changes that were not committed',
                 pend[0]['where'] if pend else None)
        rows = [e['obj'] for e in out if isinstance(e.get('obj'), Inst) and s.is_row(e['obj'])]
        q = {c: s.cls(c, s.SCHEMA).qual for c in ('Session', 'AttributeCertificate', 'AttributeCertificateAssignment')}
        by = {c: [o for o in rows if o.cls.qual == x] for c, x in q.items()}
        C.expect(len(by['Session']) == 1, 'a session id is returned but %d sessions were committed' % len(by['Session']), where)
        links = by['AttributeCertificateAssignment']
        C.expect(len(links) >= 1, 'a session is committed without its certificates', where)
        for l in links:
            ser = I.getattr(l, 'ac_serial')
            C.expect(any(s.eq(I.getattr(o, 'serial'), ser) for o in by['AttributeCertificate'] + old),
                     'a session is committed with a link to a certificate that is not stored', where)
    return ob


def ob_other(cls, method):
    def ob(st, C):
        s = cls(st, C)
        s.start()
        if method == 'attribute_request':
            s.users(1)
            r = s.request()
        elif method == 'evaluate':
            s.authorities(1)
            s.row('Session', s.SCHEMA)
            s.row('AttributeCertificate', s.SCHEMA)
            p = s.new('Policy', policy_uid=None, policy_string='user.age > 5')
            r = s.call(method, sym('session id', 'int'), s.new('PolicyObjectAttPair', policy=p, object_attributes=ListO([])),
                       **{ADDR: 'addr'})
        else:
            r = s.call(method, **{ADDR: 'unix'})
        out, pend, commits = transactions(s, C, r, method)
        C.expect(not out, '%s changes the database' % method, out[0]['where'] if out else None)
    return ob


def obligations(tier):
    for n in (1, 2):
        for k in (0, 1, 2):
            yield '%d certificates, %d stored' % (n, k), ob_session(n, k), {'max_paths': 60000}
    yield '1 certificate, 2 sessions before', ob_session(1, 1, 2)
    for m in ('info', 'attribute_request'):
        yield 'attribute authority ' + m, ob_other(AAuth, m)
    for m in ('info', 'trusted_attribute_authorities', 'evaluate'):
        yield 'policy authority ' + m, ob_other(PAuth, m)
    if tier == 'thorough':
        yield '3 certificates, 1 stored', ob_session(3, 1), {'max_paths': 200000}
