"""Requests keep no state outside the database."""
import ast as pyast

from .svc import *
from .c20 import serial_text

RULE = ('Effect analysis: for every method of both services, all objects reachable from the service object and from the module '
        'and class namespaces of the analysed packages when a request begins are the shared objects. On every path of two '
        'requests in a row no assignment, deletion or in-place change touches a shared object, class, module, function or '
        'closure, except to store a value computed from the configuration alone; every database operation of a request uses a '
        'session opened in that same request, and every request opens its own. Running numbers kept by policy tree classes start '
        'unknown: no decision and no answer of a request may depend on them.')
BOUNDS = 'two requests in sequence per method; 0 to 2 rows, certificates and attributes; contents unknown'


REAL = 'hgaa.database.get_session'       # analysed here, on a symbolic configuration


def counters(I):
    """Running numbers kept in classes of the policy language: class attributes holding a number that functions assign.
    Their value at the start is unknown, and nothing a request does may depend on it."""
    out = {}
    for m in list(I.modules.values()):
        if not m.name.startswith('hgpl'):
            continue
        written = set()
        for fn in pyast.walk(m.tree):
            if isinstance(fn, (pyast.FunctionDef, pyast.Lambda)):
                for n in pyast.walk(fn):
                    if isinstance(n, pyast.Attribute) and isinstance(n.ctx, pyast.Store):
                        written.add(n.attr)
        for c in m.env.values():
            if isinstance(c, ClassV) and c.mod is m and c.members is None:
                for k, v in c.dict.items():
                    if k in written and type(v) is int:
                        t = sym('counter %s.%s' % (c.qual, k), 'int')
                        c.dict[k] = t
                        out[(c.qual, k)] = t
    return out


def mentions(v, ts, seen=None):
    seen = set() if seen is None else seen
    if isinstance(v, T):
        if v in seen:
            return False
        seen.add(v)
        return v in ts or any(mentions(x, ts, seen) for x in v.args)
    if isinstance(v, (tuple, list)):
        return any(mentions(x, ts, seen) for x in v)
    if id(v) in seen:
        return False
    seen.add(id(v))
    if isinstance(v, Inst):
        return any(mentions(x, ts, seen) for x in v.attrs.values())
    if isinstance(v, (ListO, SetO)):
        return any(mentions(x, ts, seen) for x in v.items)
    if isinstance(v, DictO):
        return any(mentions(x, ts, seen) for p in v.pairs for x in p)
    return False


def reach(I, roots):
    seen, out, todo = set(), [], list(roots)
    while todo:
        o = todo.pop()
        if o is None or isinstance(o, (str, bytes, int, float, bool, complex, T, ExtV, BuiltinV)):
            continue
        if id(o) in seen:
            continue
        seen.add(id(o))
        out.append(o)
        if isinstance(o, (list, tuple, set, frozenset)):
            todo += list(o)
        elif isinstance(o, dict):
            todo += list(o.keys()) + list(o.values())
        elif isinstance(o, ModV):
            todo += list(o.env.values())
        elif isinstance(o, ClassV):
            todo += list(o.dict.values()) + list(o.bases)
        elif isinstance(o, FuncV):
            todo += list(o.defaults or ()) + list((o.kwdefaults or {}).values())
            for env in o.closure or ():
                seen.add(id(env))
                out.append(env)
                todo += list(env.values())
        elif isinstance(o, Inst):
            todo += list(o.attrs.values()) + [o.cls]
        elif isinstance(o, ListO) or isinstance(o, SetO):
            todo += list(o.items)
        elif isinstance(o, DictO):
            for k, v in o.pairs:
                todo += [k, v]
        elif isinstance(o, Wrap):
            todo += [getattr(o, s) for s in o.__slots__]
        elif isinstance(o, BoundV):
            todo += [o.func, o.self]
        elif isinstance(o, BMeth):
            todo.append(o.obj)
        elif isinstance(o, EnumV):
            todo.append(o.cls)
        elif isinstance(o, IterO):
            todo += [getattr(o, s, None) for s in o.__slots__]
        elif isinstance(o, ExtO):
            if o.kind not in ('logger', 'column', 'rel', 'metadata'):
                todo += list(o.data.values())
    return seen, out


CONF_OPS = ('conf', 'filedata', 'db')
BOUND = ('sym', 'col', 'now', 'rand', 'ac', 'var', 'time')


def conf_only(v, depth=0):
    """Built from the configuration alone."""
    if isinstance(v, T):
        if v.op in CONF_OPS:
            return True
        if v.op in BOUND:
            return False
        ts = [x for x in v.args if isinstance(x, (T, ExtO))]
        return bool(ts) and all(conf_only(x) for x in ts)
    if isinstance(v, ExtO):
        if v.kind in ('engine', 'maker', 'logger'):
            return True
        if v.kind == 'rsa':
            return conf_only(v.data['term'])
        return False
    if isinstance(v, BArr):
        return conf_only(v.content)
    return False


def name_of(o):
    if isinstance(o, Inst):
        return 'an object of class %s' % o.cls.name
    if isinstance(o, ClassV):
        return 'class %s' % o.name
    return {ListO: 'a list', DictO: 'a dictionary', SetO: 'a set', BArr: 'a byte array', IterO: 'an iterator'}.get(
        type(o), o.kind if isinstance(o, ExtO) else type(o).__name__)


def requests(s, C, make, n=2):
    """make(i) performs request i."""
    I, st = s.I, s.st
    cnt = counters(I)
    ts = set(cnt.values())
    for i in range(n):
        shared, keep = reach(I, [s.service] + list(I.modules.values()))
        mark = len(st.events)
        r = make(i)
        if ts:
            for a in st.facts:
                C.expect(not mentions(a, ts), 'a request depends on a running number of earlier requests: %s' % show(a),
                         I.lastret)
            C.expect(not mentions(r[1], ts), 'an answer holds a running number of earlier requests', I.lastret)
        opened = set()
        sessions = []
        for e in st.events[mark:]:
            k = e['kind']
            v = e.get('value', DEAD)
            if k in ('globalwrite', 'classwrite'):
                if k == 'classwrite' and isinstance(e.get('cls'), ClassV) and id(e['cls']) not in shared:
                    continue
                if k == 'classwrite' and isinstance(e.get('cls'), ClassV) and (e['cls'].qual, e['name']) in cnt:
                    continue
                what = '%s of %s' % (e['name'], e.get('mod') or name_of(e.get('cls')))
                C.expect(conf_only(v), 'a request changes %s' % what, e['where'])
            elif k == 'nonlocalwrite':
                C.expect(id(e['env']) not in shared or conf_only(v), 'a request changes the closure variable %s' % e['name'],
                         e['where'])
            elif k in ('setattr', 'mutate'):
                o = e['obj']
                if id(o) in shared and not (isinstance(o, ExtO) and o.kind == 'logger'):
                    C.expect(conf_only(v), 'a request changes %s (%s) that outlives it' % (name_of(o), e['name']), e['where'])
                else:
                    C.check()
            elif k == 'db_session':
                opened.add(id(e['session']))
                sessions.append(e['session'])
            elif k in ('db_use', 'query'):
                x = e['session'] if k == 'db_use' else e['query'].data.get('session')
                C.expect(x is None or id(x) in opened, 'a request uses a database session that it did not open', e['where'])
        s.keep = getattr(s, 'keep', []) + [keep, sessions]     # identities stay valid


def real(hooks=None):
    h = {REAL: lambda I, f, a, k: NotImplemented}
    h.update(hooks or {})
    return h


CONF = {'DB_TYPE': 'MEMORY'}


def ob_aauth(method, rows, attq):
    def ob(st, C):
        s = AAuth(st, C, conf=CONF, hooks=real())
        s.start()
        us = s.users(rows)
        if rows and attq:
            a = s.attribute()
            s.assign(us[0], a)

        def make(i):
            if method == 'attribute_request':
                u = sym('username %d' % i, 'str', 'n')
                atts = s.attlist(names=[sym('attribute name', 'str', 'n')] if attq else [])
                return s.request(s.creds(user=u), atts=atts)
            else:
                return s.call(method, **{ADDR: 'addr'})
        requests(s, C, make)
    return ob


def ob_pauth(method, nauth, n):
    def ob(st, C):
        s = PAuth(st, C, conf=CONF, hooks=real())
        s.start()
        if method == 'evaluate' and n:
            sid = sym('session id', 'int')
            sess = s.row('Session', s.SCHEMA, id=serial_text(s.I, sid))
        s.authorities(nauth)

        def make(i):
            I = s.I
            if method == 'start_session':
                raws = [s.rawcert(10 * i + j)[0] for j in range(n)]
                return s.call('start_session', sym('service uid', 'str', 'n'), s.certset(raws), **{ADDR: 'addr'})
            elif method == 'evaluate':
                p = s.new('Policy', policy_uid=None, policy_string=('user.age > 5', 'user.age >', 'user.a = "x" OR user.a > 1')[
                    st.choose(3, 'policy')])
                oa = s.new('ObjectAttribute', name=sym('oname', 'str', 'n'), uid=None, type=1, value=sym('ovalue', 'str'))
                pr = s.new('PolicyObjectAttPair', policy=p, object_attributes=ListO([oa]))
                return s.call('evaluate', sym('session id', 'int') if n else sym('other id', 'int'), pr, **{ADDR: 'addr'})
            else:
                return s.call(method, **{ADDR: 'addr'})
        requests(s, C, make)
    return ob


def ob_simp(st, C):
    s = PAuth(st, C, conf=CONF, hooks=real())
    s.start()
    try:
        s.I.getattr(s.service, 'simp')
    except PyRaise:
        return
    requests(s, C, lambda i: s.call('simp'))


def obligations(tier):
    yield 'attribute authority info', ob_aauth('info', 0, 0)
    for r, a in ((0, 0), (1, 0), (1, 1)) + (((2, 1),) if tier == 'thorough' else ()):
        yield 'attribute_request, %d accounts%s' % (r, ', with attributes' if a else ''), ob_aauth('attribute_request', r, a)
    yield 'policy authority info', ob_pauth('info', 0, 0)
    for n in (0, 1, 2):
        yield 'trusted_attribute_authorities, %d authorities' % n, ob_pauth('trusted_attribute_authorities', n, 0)
    for na, n in ((0, 1), (1, 0), (1, 1)) + (((1, 2), (2, 1)) if tier == 'thorough' else ()):
        yield 'start_session, %d authorities, %d certificates' % (na, n), ob_pauth('start_session', na, n)
    for n in (0, 1):
        yield 'evaluate, session %s' % ('stored' if n else 'missing'), ob_pauth('evaluate', 1, n)
    yield 'simp', ob_simp
