"""Looking up settings."""
import ast
import configparser
import os

from .svc import *
from ..interp import REPO

RULE = ('hgaa.config.get_conf is analysed on configuration files with unknown sections, keys and values, for service and '
        'client lookups, names in both letter cases with and without a built-in default, and sections in both letter cases. On '
        'every path the result is the value of the first place that has the name: the requested section of that side\'s file, '
        'its default section, that side\'s built-in defaults; else None. Then the names, sides and sections of all settings '
        'that the analysed modules read (all get_conf calls met while analysing services, clients, tools, database, log and '
        'handler, and all calls with a literal name in the syntax trees) are looked up in the shipped ini files and the '
        'built-in defaults.')
BOUNDS = 'all names of the built-in defaults, 2 unknown names; 4 sections; file contents unknown'


def ob_lookup(service, name, sect):
    def ob(st, C):
        I = C.interp(st)
        f = anchor(I, 'hgaa.config', 'get_conf')
        side = 'SERVICE' if service else 'CLIENT'
        defaults = anchor(I, 'hgaa.config', 'DEFAULT_%s_CONFIGS' % side)
        file = 'services.ini' if service else 'clients.ini'
        how = st.choose(2, 'default section left out') if sect == 'DEFAULT' else 0
        args = [name, service] + ([] if how else [sect])
        if service and how and st.choose(2, 'side left out'):
            args = [name]
        try:
            r = I.call(f, args, {})
        except PyRaise as e:
            C.expect(False, 'get_conf(%r, %r, %r) raises %s' % (name, service, sect, exc_name(e)), e.where)
            return
        key, S = name.lower(), sect.upper()
        has = lambda s, k: st.decide(T('pred', ('cfgkey', file, s, k)))
        want = None
        if S != 'DEFAULT' and st.decide(T('pred', ('cfgsect', file, S))) and has(S, key):
            want = T('cfgval', (file, S, key))
        elif has('DEFAULT', key):
            want = T('cfgval', (file, 'DEFAULT', key))
        else:
            for k, v in defaults.pairs:
                if k == name.upper():
                    want = v
        if isinstance(want, T):
            st.kinds[want] = 'str'
        if isinstance(want, T):
            q = I.eq(r, want)
            ok = q is True or (isinstance(q, T) and st.known(q) is True)
        else:
            ok = r is want or (r is not None and not isinstance(r, T) and r == want)
        C.expect(ok, 'get_conf(%r, %s side, %r) is %s, not %s' % (name, side.lower(), sect, show(r), show(want)), I.lastret)
    return ob


# -- settings the program reads -------------------------------------------------------------------------------------
def shipped():
    out = {}
    for side, f in ((True, 'services.ini'), (False, 'clients.ini')):
        p = os.path.join(REPO, 'hgaa/confs', f)
        c = configparser.ConfigParser(interpolation=None)
        if os.path.exists(p):
            c.read(p)
        out[side] = c
    return out


def builtin(I, side):
    d = anchor(I, 'hgaa.config', 'DEFAULT_%s_CONFIGS' % ('SERVICE' if side else 'CLIENT'))
    return [k for k, v in d.pairs]


def known_setting(I, ini, name, side, sect):
    c = ini[side]
    if sect is not None and sect != 'DEFAULT' and c.has_section(sect) and c.has_option(sect, name):
        return True
    if name.lower() in c.defaults():
        return True
    if sect is None and any(c.has_option(s, name) for s in c.sections()):
        return True
    return name in builtin(I, side)


def read_by(s, C):
    ini = shipped()
    seen = set()
    for e in s.st.events:
        if e['kind'] == 'getconf':
            k = (e['name'], e['service'], e['sect'])
            if k in seen:
                continue
            seen.add(k)
            if isinstance(e['sect'], str) and isinstance(e['name'], str):
                C.expect(known_setting(s.I, ini, *k), 'the %s setting %s of section %s is neither in the shipped configuration nor '
                         'among the built-in defaults' % ('service' if k[1] else 'client', k[0], k[2]), e['where'])
    C.check()


def ob_reads(what):
    def ob(st, C):
        if what == 'attribute authority':
            s = AAuth(st, C)
            s.start()
        elif what == 'policy authority':
            s = PAuth(st, C)
            s.start()
        elif what == 'attribute authority client':
            s = Client(st, C)
            s.start()
        elif what == 'policy authority client':
            s = PClient(st, C)
            s.start()
        elif what == 'database':
            s = Prog(st, C, {'DB_TYPE': ('MYSQL', 'SQLITE')[st.choose(2, 'database type')]})
            s.MOD = 'hgaa.database'
            s.I.hooks.pop('hgaa.database.get_session', None)
            for n in ('AAUTH', 'PAUTH'):
                s.run('get_session', n)
                s.run('populate_db', n, ListO([]), use_test_db=bool(st.choose(2, 'test database')))
        elif what == 'log':
            s = Prog(st, C, {n: 'ALL' for n in ('SQL_LOG_LEVEL', 'LOG_LEVEL', 'CLEAN_LOG_ON_START', 'LOG_STDOUT',
                                                'SQL_LOG_STDOUT')})
            for h in ('make_logger', '_make_sql_log', '_make_ladon_log'):
                s.I.hooks.pop('hgaa.log.' + h, None)
            s.MOD = 'hgaa.log'
            s.cls('SERVICE_LOG')
        elif what == 'tools':
            s = Prog(st, C)
            a = (('genkey', 'aauth'), ('password', 'aauth', 'x'))[st.choose(2, 'command')]
            s.main(*a)
        read_by(s, C)
    return ob


def literal(n):
    return n.value if isinstance(n, ast.Constant) else None


def ob_calls(st, C):
    """Every get_conf call with a literal name in the syntax trees."""
    I = C.interp(st)
    ini = shipped()
    f = anchor(I, 'hgaa.config', 'get_conf')
    ps = [a.arg for a in f.node.args.args]
    for root, dirs, files in os.walk(os.path.join(REPO, 'hgaa')):
        dirs[:] = sorted(d for d in dirs if d not in ('test', 'tests', 'demos', 'logs'))
        for fn in sorted(files):
            if not fn.endswith('.py'):
                continue
            p = os.path.join(root, fn)
            tree = ast.parse(open(p, encoding='utf-8').read())
            alias = {'get_conf'}
            for n in ast.walk(tree):
                if isinstance(n, ast.ImportFrom) and n.module == 'hgaa.config':
                    alias |= {a.asname for a in n.names if a.name == 'get_conf' and a.asname}
            for n in ast.walk(tree):
                if not isinstance(n, ast.Call):
                    continue
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
                if nm not in alias:
                    continue
                a = dict(zip(ps, n.args))
                a.update({k.arg: k.value for k in n.keywords})
                name = literal(a[ps[0]]) if ps[0] in a else None
                side = literal(a[ps[1]]) if ps[1] in a else True
                sect = literal(a[ps[2]]) if ps[2] in a else 'DEFAULT'
                if not isinstance(name, str) or not isinstance(side, bool):
                    continue
                C.expect(known_setting(I, ini, name.upper(), side, sect.upper() if isinstance(sect, str) else None),
                         'the %s setting %s of section %s is neither in the shipped configuration nor among the built-in '
                         'defaults' % ('service' if side else 'client', name, sect),
                         (os.path.relpath(p, REPO), n.lineno, fn))


def names(service):
    p = os.path.join(REPO, 'hgaa/config.py')
    tree = ast.parse(open(p, encoding='utf-8').read())
    out = []
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Dict) and any(
                isinstance(t, ast.Name) and t.id == 'DEFAULT_%s_CONFIGS' % ('SERVICE' if service else 'CLIENT') for t in n.targets):
            out = [k.value for k in n.value.keys if isinstance(k, ast.Constant)]
    return out


def obligations(tier):
    for service in (True, False):
        known = names(service)
        other = [n for n in names(not service) if n not in known]
        base = known[:2] + other[:2] + ['NOT_A_SETTING', 'KEY_PASS']
        base += [n for n in known[2:] if tier == 'thorough']
        if 'DB_USER' in known:
            base.append('DB_USER')
        for n in dict.fromkeys(base):
            for nm in (n, n.lower(), n.title()):
                for sect in ('AAUTH', 'aauth', 'DEFAULT', 'default', 'PAuth'):
                    yield '%s %s in %s' % ('service' if service else 'client', nm, sect), ob_lookup(service, nm, sect)
        for n in known[2:]:
            for sect in ('AAUTH', 'DEFAULT'):
                yield '%s %s in %s!' % ('service' if service else 'client', n, sect), ob_lookup(service, n, sect)
    for w in ('attribute authority', 'policy authority', 'attribute authority client', 'policy authority client', 'database',
              'log', 'tools'):
        yield 'settings read by the ' + w, ob_reads(w)
    yield 'settings read by name', ob_calls
