"""The server exposes exactly the enabled services, at the configured address."""
from .svc import *
from .c33 import Log, base

RULE = ('hgaa.handler is analysed, as an imported module and as the program, for every combination of enabled services and '
        'unknown host and port. The application given to the server is made once, from exactly the modules of the service list '
        'whose own section enables them (true in any letter case), and from the services folder; every module of the list '
        'exists there and defines, with remotely callable methods, the class the list names. As a program it serves that very '
        'application at the configured host and port.')
BOUNDS = 'every subset of services; 6 spellings of the setting; unknown host and port'

VAL = {'True': True, 'TRUE': True, 'true': True, 'False': False, 'false': False, '': False}


class Handler(Log):
    MOD = 'hgaa.handler'


def ob(mode, vary):
    def run(st, C):
        s = Handler(st, C, base())
        I = s.I
        lst = anchor(I, 'hgaa.services', 'ServiceList')
        names = [I.raw(n) for n in I.iterate(lst)]
        on = {}
        for n in names:
            v = tuple(VAL)[st.choose(len(VAL), n)] if vary in (n, 'all') else ('True', 'False')[st.choose(2, n)]
            s.conf[('SERVICE_ENABLED', True, n.upper())] = v
            on[n] = VAL[v]
        apps, srv = [], []

        def app(I, path, args, kw):
            a = ExtO('opaque', path='application', args=())
            apps.append((args, kw, a, st.where()))
            return a

        def server(I, path, args, kw):
            srv.append((args, kw, st.where()))
            return ExtO('opaque', path='server', args=())
        I.exthooks['ladon.server.wsgi.LadonWSGIApplication'] = app
        I.exthooks['wsgiref.simple_server.make_server'] = server
        port = sym('port', 'int')
        s.conf[('SERVICE_PORT', True, 'LADON')] = I.call(BuiltinV('str'), [port], {})
        try:
            if mode == 'main':
                m = I.run_main('hgaa.handler')
                application = m.env.get('application')
            else:
                application = anchor(I, 'hgaa.handler', 'application')
        except PyRaise as e:
            C.fail('setting up the server ends in %s' % exc_name(e), e.where)
            return
        C.expect(len(apps) == 1, '%d applications are made' % len(apps))
        if not apps:
            return
        args, kw, a, where = apps[-1]
        mods = args[0] if args else kw.get('service_list')
        got = [mods] if isinstance(mods, str) else [I.raw(x) for x in I.iterate(mods)]
        want = [n for n in names if on[n]]
        C.expect(sorted(got, key=repr) == sorted(want), 'services %s are exposed, enabled are %s' % (got, want), where)
        p = args[1] if len(args) > 1 else kw.get('path_list')
        ps = [p] if kind_of(p, st) == 'str' else list(I.iterate(p))
        end = lambda x: ''.join(q if isinstance(q, str) else '\0' for q in cat_parts(x)).rstrip('/')
        C.expect(len(ps) == 1 and end(ps[0]).endswith('/services'), 'services are looked for in %s' % show(p), where)
        C.expect(application is a, 'the application offered is not the one made of the enabled services', where)
        if mode == 'main':
            C.expect(len(srv) == 1, '%d servers are started' % len(srv))
            for args, kw, where in srv:
                g = dict(zip(('host', 'port', 'app'), args))
                g.update(kw)
                C.expect(g.get('app') is a, 'the server does not serve the application made', where)
                C.expect(s.eq(g.get('host'), conf_term('SERVICE_HOST', True, 'LADON')), 'the server listens at %s' % show(g.get('host')),
                         where)
                C.expect(s.eq(g.get('port'), port), 'the server listens on port %s' % show(g.get('port')), where)
        else:
            C.expect(not srv, 'importing the module starts a server')
    return run


def ob_list(st, C):
    """The list names existing modules and classes; what a class offers is exactly its decorated methods."""
    s = Handler(st, C, base())
    I = s.I
    lst = anchor(I, 'hgaa.services', 'ServiceList')
    for n in I.iterate(lst):
        c = I.raw(I.getitem(lst, n))
        try:
            k = anchor(I, 'hgaa.services.' + I.raw(n), c)
        except AnchorError as e:
            C.fail('the service list names %s.%s, which does not exist' % (n, c))
            continue
        C.expect(isinstance(k, ClassV), 'the service list names %s.%s, which is not a class' % (n, c))
    want = {'aauth': 'AttributeAuthority', 'pauth': 'PolicyAuthority'}
    got = {I.raw(n): I.raw(I.getitem(lst, n)) for n in I.iterate(lst)}
    C.expect(got == want, 'the service list is %s' % got)


def obligations(tier):
    yield 'service list', ob_list
    for mode in ('import', 'main'):
        for v in ('aauth', 'pauth') + (('all',) if tier == 'thorough' else ()):
            yield 'handler as %s, spellings of %s' % (mode, v), ob(mode, v)
