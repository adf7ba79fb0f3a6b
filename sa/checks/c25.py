"""Which database a service uses and what populating it deletes."""
from .svc import *

RULE = ('hgaa.database is analysed with unknown settings. populate_db: on every path the committed deletions are none unless '
        'wiping was asked for, and then exactly one unconditional deletion per table of the named service\'s schema, children '
        'before the tables they refer to, before the first insertion; the committed insertions are exactly the given '
        'instances; all of it goes to a session on the engine of that service (or of its test section if asked for). '
        'get_engine and get_session: the engine is made from settings of the section of that name only, in the right places of '
        'the address; a second request for the name gives the same engine, another name another one; an unsupported type '
        'gives none. The services and the build, populate and attribute generation commands are analysed on top of that: each '
        'uses the engine, schema and instances of its own service and drops nothing.')
BOUNDS = '0 to 3 instances; both services, test sections, 2 unknown names; all database types; sequences of 2 and 3 requests'

SCHEMA = {'AAUTH': 'hgaa.schema.aauth', 'PAUTH': 'hgaa.schema.pauth'}
BASE = {'AAUTH': 'AAuthBase', 'PAUTH': 'PAuthBase'}
TYPES = {'mysql': ['DB_USER', 'DB_PASS', 'DB_HOST', 'DB_PORT', 'DB_NAME'], 'SQLITE': ['DB_NAME'], 'Memory': []}


class Db(Prog):
    MOD = 'hgaa.database'

    def __init__(self, st, C, dbtype=None, **kw):
        if dbtype is None:
            dbtype = ('mysql', 'SQLITE')[st.choose(2, 'database type')]
        self.dbtype = dbtype
        Prog.__init__(self, st, C, {'DB_TYPE': dbtype}, **kw)
        self.I.hooks.pop('hgaa.database.get_session', None)
        self.I.exthooks.pop('db', None)

    def schema(self, name):
        """The tables of a service's schema: every mapped class of its module."""
        base = self.cls(BASE[name], SCHEMA[name])
        return base, list(base.dict['__registry__'].data['classes'])


def settings(v, out=None):
    """Settings that a value is built from, in order."""
    out = [] if out is None else out
    if isinstance(v, T):
        if v.op == 'conf':
            out.append(v.args)
        else:
            for x in v.args:
                settings(x, out)
    elif isinstance(v, (tuple, list)):
        for x in v:
            settings(x, out)
    elif isinstance(v, ListO):
        settings(v.items, out)
    elif isinstance(v, DictO):
        settings([p[1] for p in v.pairs], out)
    elif isinstance(v, dict):
        settings(list(v.values()), out)
    elif isinstance(v, ExtO) and v.kind == 'opaque':
        settings(list(v.data.get('args', ())) + list(v.data.get('kwargs', {}).values()), out)
    return out


def engine_of(s):
    if s.kind == 'dbconn':
        return s.data['engine']
    if s.kind == 'transaction':
        return engine_of(s.data['session'])
    return s.data['maker'].data['bind']


def check_url(s, C, eng, sect, where=None):
    C.expect(isinstance(eng, ExtO) and eng.kind == 'engine', 'there is no engine for %s' % sect, where, key='engine')
    if not (isinstance(eng, ExtO) and eng.kind == 'engine'):
        return
    url = eng.data['url']
    used = settings(url)
    want = TYPES[s.dbtype]
    foreign = [u for u in used if u[2] != sect or u[1] is not True]
    C.expect(not foreign, 'the engine of %s is built from the setting %s of another section or side' % (
        sect, foreign[0] if foreign else None), where, key='section')
    names = [u[0] for u in used]
    order = list(want)
    if isinstance(url, ExtO):
        names, order = sorted(names), sorted(order)
    C.expect(names == order, 'the %s address of %s is built from %s, not %s' % (s.dbtype, sect, names, order), where, key='url')


def table_class(s, t):
    if isinstance(t, ExtO) and t.kind == 'table':
        return t.data['cls']
    return t


def deletions(s, evs):
    """(event, class, conditions) of every deletion that is made permanent, (event, None, None) for other statements."""
    out = []
    for e in s.stored(evs):
        if e['kind'] == 'db_execute':
            x = e['stmt']
            if isinstance(x, ExtO) and x.kind == 'delstmt':
                out.append((e, table_class(s, x.data['table']), x.data['conds']))
            else:
                out.append((e, None, None))
        elif e['kind'] in ('db_delete', 'db_update'):
            out.append((e, None, None))
    for e in evs:
        if e['kind'] == 'db_execute' and isinstance(e['session'], ExtO) and e['session'].kind == 'dbconn':
            x = e['stmt']
            if isinstance(x, ExtO) and x.kind == 'delstmt':
                out.append((e, table_class(s, x.data['table']), x.data['conds']))
    return out


def check_populated(s, C, evs, name, sect, wipe, instances):
    """What the events made permanent is what populating asks for."""
    I = s.I
    base, tables = s.schema(name)
    dels = deletions(s, evs)
    ddl = [e for e in evs if e['kind'] == 'db_ddl']
    C.expect(not ddl, 'populating a database creates or drops tables', ddl[0]['where'] if ddl else None, key='ddl')
    where = dels[0][0]['where'] if dels else None
    if not wipe:
        C.expect(not dels, 'rows are deleted although wiping was not asked for', where, key='wipe')
    else:
        got = [c for e, c, k in dels]
        bad = [c for c in got if c not in tables]
        C.expect(not bad, 'wiping %s deletes from %s, which is not a table of its schema' % (
            name, getattr(bad[0], 'name', show(bad[0])) if bad else ''), where, key='foreign')
        miss = [c for c in tables if c not in got]
        C.expect(not miss, 'wiping %s leaves the rows of %s' % (name, miss[0].name if miss else ''), where, key='missing')
        C.expect(not any(k for e, c, k in dels), 'wiping deletes only some rows of a table', where, key='cond')
        for i, c in enumerate(got):
            if c not in tables:
                continue
            refs = {I.fk_of(col)[0] for col in I.columns(c) if I.fk_of(col) is not None} - {c}
            early = [x for x in got[:i] if x in refs]
            C.expect(not early, 'wiping deletes the rows of %s before those of %s that refer to them' % (
                early[0].name if early else '', getattr(c, 'name', '')), where, key='order')
    added = [e for e in s.stored(evs) if e['kind'] in ('db_add', 'db_merge')]
    objs = [e['obj'] for e in added]
    C.expect(len(objs) == len(instances) and all(any(o is x for x in instances) for o in objs) and
             all(any(o is x for o in objs) for x in instances),
             '%d given instances, but %d rows are added' % (len(instances), len(objs)), added[0]['where'] if added else None,
             key='add')
    if wipe and dels and added:
        C.expect(max(e['n'] for e, c, k in dels) < min(e['n'] for e in added), 'rows are deleted after the instances were added',
                 where, key='after')
    for e in [d[0] for d in dels] + added:
        ss = e.get('session')
        if isinstance(ss, ExtO):
            check_url(s, C, engine_of(ss), sect, e['where'])
        else:
            C.expect(False, 'rows are changed outside a database session', e['where'], key='nosession')


def make(s, name, n):
    cls = {'AAUTH': 'Attribute', 'PAUTH': 'Policy'}[name]
    return [s.I.call(s.cls(cls, SCHEMA[name]), [], {}) for _ in range(n)]


def ob_populate(name, given):
    def ob(st, C):
        s = Db(st, C)
        n = st.choose(4, 'instances')
        inst = make(s, name, n)
        kw, wipe, test = {}, False, False
        w = st.choose(3, 'wipe_first')
        if w:
            kw['wipe_first'] = wipe = w == 2
        t = st.choose(3, 'use_test_db')
        if t:
            kw['use_test_db'] = test = t == 2
        coll = ListO(inst) if st.choose(2, 'kind of collection') else tuple(inst)
        r = s.run('populate_db', given, coll, **kw)
        if r[0] != 'ok':
            C.expect(False, 'populating %s ends in %s' % (given, r[1]), r[2].where)
            return
        check_populated(s, C, s.st.events[s.n0:], name, name + '_TEST' if test else name, wipe, inst)
    return ob


def ob_unknown(st, C):
    """A name without a schema: nothing is deleted anywhere."""
    s = Db(st, C)
    inst = make(s, 'AAUTH', 1)
    wipe = bool(st.choose(2, 'wipe_first'))
    r = s.run('populate_db', 'NOSUCH', ListO(inst), wipe_first=wipe)
    evs = s.st.events[s.n0:]
    dels = deletions(s, evs)
    C.expect(not dels, 'populating a service without a schema deletes rows', dels[0][0]['where'] if dels else None)
    for e in s.stored(evs):
        if isinstance(e.get('session'), ExtO):
            check_url(s, C, engine_of(e['session']), 'NOSUCH', e['where'])


def ob_engine(dbtype, seq):
    def ob(st, C):
        s = Db(st, C, dbtype)
        got = []
        for n in seq:
            how = st.choose(2, 'asked for')
            if how:
                r = s.run('get_session', n)
                e = None
                if r[0] == 'ok':
                    m = r[1]
                    ses = s.I.call(m, [], {})
                    e = engine_of(ses)
            else:
                r = s.run('get_engine', n)
                e = r[1] if r[0] == 'ok' else None
            C.expect(r[0] == 'ok', 'no engine for %s: %s' % (n, r[1] if r[0] != 'ok' else ''), r[2].where if r[2] else None)
            if r[0] != 'ok':
                return
            got.append((n, e))
            check_url(s, C, e, n.upper(), s.I.lastret)
        for i, (a, x) in enumerate(got):
            for b, y in got[:i]:
                if a == b:
                    C.expect(x is y, 'two requests for %s give different engines' % a, s.I.lastret, key='reuse')
                elif a.upper() != b.upper():
                    C.expect(x is not y, '%s and %s share an engine' % (a, b), s.I.lastret, key='share')
    return ob


def ob_badtype(st, C):
    s = Db(st, C, 'oracle')
    r = s.run('get_engine', 'AAUTH')
    C.expect(r[0] != 'ok' or r[1] is None, 'an engine is made for an unsupported database type', s.I.lastret)
    made = s.events('engine')
    C.expect(not made, 'an engine is made for an unsupported database type', made[0]['where'] if made else None)


def ob_service(cls, name):
    def ob(st, C):
        s = cls(st, C, {'DB_TYPE': 'mysql'})
        s.dbtype = 'mysql'
        s.I.hooks.pop('hgaa.database.get_session', None)
        s.start()
        if cls is PAuth:
            s.authorities(0)
            r = s.call('trusted_attribute_authorities', **{ADDR: 'addr'})
        else:
            s.request()
        evs = s.events('db_session')
        C.expect(bool(evs), 'a request to %s opens no database session' % name, key='session')
        for e in evs:
            check_url(s, C, engine_of(e['session']), name, e['where'])
        made = [e for e in st.events if e['kind'] == 'engine']
        for e in made:
            check_url(s, C, e['engine'], name, e['where'])
    return ob


class Tool(Db):
    MOD = 'hgaa.tools'


def ob_build(names, argv):
    def ob(st, C):
        s = Tool(st, C)
        if argv:
            r = s.main(*argv)
        else:
            r = s.run('build_database', ListO(list(names)))
        if r[0] != 'ok':
            C.expect(False, 'building %s ends in %s' % (names, r[1]), r[2].where)
            return
        ddl = s.events('db_ddl')
        seen = set()
        for e in ddl:
            C.expect(e['what'] == 'create_all', 'building a database drops tables', e['where'], key='drop')
            nm = [n for n in BASE if s.schema(n)[0] is e['base']]
            C.expect(bool(nm) and nm[0].lower() in names, 'tables of another service are built', e['where'], key='which')
            if nm:
                seen.add(nm[0].lower())
                check_url(s, C, e['args'][0] if e['args'] else None, nm[0], e['where'])
        C.expect(seen == set(names), 'tables are built for %s, not for %s' % (sorted(seen), sorted(names)), key='all')
        ch = s.stored(s.st.events[s.n0:])
        C.expect(not ch, 'building a database changes rows', ch[0]['where'] if ch else None)
    return ob


def ob_buildbad(st, C):
    s = Tool(st, C)
    r = s.run('build_database', ListO(['nosuch']))
    C.expect(r[0] != 'ok' and not s.events('db_ddl'), 'building an unknown service goes through')


def ob_poptool(argv, names):
    def ob(st, C):
        s = Tool(st, C, 'mysql')
        r = s.main(*argv)
        if r[0] != 'ok':
            C.expect(False, 'the command %s ends in %s' % (argv, r[1]), r[2].where)
            return
        evs = s.st.events[s.n0:]
        # one transaction scope per service
        by = {}
        for e in evs:
            if isinstance(e.get('session'), ExtO):
                eng = engine_of(e['session'])
                by.setdefault(id(eng), []).append(e)
        got = []
        for k, es in by.items():
            sects = {u[2] for u in settings(engine_of(es[0]['session']).data['url'])}
            C.expect(len(sects) == 1 and list(sects)[0] in names, 'the command %s works on the database of %s' % (
                argv, sorted(sects)), es[0]['where'], key='db')
            if len(sects) == 1 and list(sects)[0] in names:
                n = list(sects)[0]
                got.append(n)
                inst = list(s.I.iterate(s.cls('DB_TEST_SET', 'hgaa.schema.test.test_' + n.lower())))
                check_populated(s, C, es, n, n, True, inst)
        C.expect(sorted(got) == sorted(names), 'the command %s populates %s' % (argv, sorted(got)), key='which')
    return ob


def ob_genatts(st, C):
    s = Tool(st, C)
    r = s.main('genatts', '2')
    if r[0] != 'ok':
        C.expect(False, 'the attribute generation command ends in %s' % r[1], r[2].where)
        return
    evs = s.st.events[s.n0:]
    d = deletions(s, evs)
    C.expect(not d, 'generating attributes deletes rows', d[0][0]['where'] if d else None, key='del')
    base, tables = s.schema('AAUTH')
    for e in s.stored(evs):
        check_url(s, C, engine_of(e['session']), 'AAUTH', e['where'])
        C.expect(e['kind'] == 'db_add' and e['obj'].cls in tables, 'a row of another service is added', e['where'], key='cls')


def obligations(tier):
    for n in ('AAUTH', 'PAUTH'):
        yield 'populate ' + n, ob_populate(n, n)
    yield 'populate a name without schema', ob_unknown
    for t in TYPES:
        for seq in (('AAUTH',), ('PAUTH',), ('AAUTH', 'AAUTH'), ('AAUTH', 'PAUTH'), ('PAUTH', 'AAUTH', 'PAUTH'),
                    ('AAUTH', 'AAUTH_TEST', 'AAUTH'), ('OTHER', 'PAUTH'), ('aauth', 'PAUTH')):
            yield 'engines %s for %s' % (t, ', '.join(seq)), ob_engine(t, seq)
    yield 'unsupported database type', ob_badtype
    yield 'attribute authority', ob_service(AAuth, 'AAUTH')
    yield 'policy authority', ob_service(PAuth, 'PAUTH')
    for names, argv in ((('aauth',), None), (('pauth',), None), (('aauth', 'pauth'), None), ((), None),
                        (('aauth', 'pauth'), ('build', 'all')), (('pauth',), ('BUILD', 'PAUTH')),
                        (('aauth', 'pauth'), ('build', 'pauth', 'aauth'))):
        yield 'build %s%s' % (', '.join(names) or 'nothing', ' (command)' if argv else ''), ob_build(names, argv)
    yield 'build an unknown service', ob_buildbad
    for argv, names in ((('populate', 'all'), ('AAUTH', 'PAUTH')), (('populate', 'aauth'), ('AAUTH',)),
                        (('pop', 'PAUTH'), ('PAUTH',))):
        yield 'command ' + ' '.join(argv), ob_poptool(argv, names)
    yield 'attribute generation', ob_genatts
