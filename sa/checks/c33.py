"""Logs go where, and at the level, the configuration says."""
from .svc import *

RULE = ('hgaa.log is analysed while it is loaded and make_logger on every component name, side and parent, for every value of '
        'the settings it reads. Each logger is set to the level its setting names (unknown names: NOTSET), has exactly one file '
        'handler, for the configured file in the log directory, iff a file is configured (empty, None and False mean none), '
        'which truncates iff cleaning is configured, exactly one console handler iff configured, both with the configured '
        'message and date format, and is the child, under the configured name, of the root logger of its own side. The SQL and '
        'Ladon loggers use their own settings; result rows stay out of the SQL log.')
BOUNDS = 'all level names in two letter cases; file configured or not in 4 spellings; both sides; parent given or not'

LEVELS = {'ALL': 10, 'DEBUG': 10, 'WARN': 30, 'WARNING': 30, 'INFO': 20, 'INFORMATION': 20, 'ERROR': 40, 'CRITICAL': 50,
          'NONE': 0, 'OTHER': 0}
LN = tuple(LEVELS) + ('debug', 'Warn', 'information', 'other')


class Log(Svc):
    MOD = 'hgaa.log'
    LOGGING = ()

    def __init__(self, st, C, conf):
        Svc.__init__(self, st, C, conf)
        for h in ('make_logger', '_make_sql_log', '_make_ladon_log'):
            self.I.hooks.pop('hgaa.log.' + h, None)


def tail(p):
    out = ''
    for x in reversed(cat_parts(p)):
        if not isinstance(x, str):
            break
        out = x + out
    return out


def arg(h, i, name, default=None):
    a, kw = h.data['args'], h.data['kwargs']
    return a[i] if len(a) > i else kw.get(name, default)


def judge(s, lg, what, level, file, clean, out, fmt, datefmt):
    C, I = s.C, s.I
    C.expect(isinstance(lg, ExtO) and lg.kind == 'logger', '%s is not a logger: %s' % (what, show(lg)))
    if not (isinstance(lg, ExtO) and lg.kind == 'logger'):
        return
    lv = lg.data.get('level')
    lv = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'WARN': 30, 'ERROR': 40, 'CRITICAL': 50, 'NOTSET': 0}.get(lv, lv) \
        if isinstance(lv, str) else lv
    C.expect(lv == level, '%s has level %s instead of %s' % (what, show(lv), level))
    hs = list(lg.data.get('handlers', ListO()).items)
    files = [h for h in hs if h.data['cls'] not in ('StreamHandler', 'NullHandler')]
    cons = [h for h in hs if h.data['cls'] == 'StreamHandler']
    C.expect(len(files) == (1 if file else 0), '%s writes %d files instead of %d' % (what, len(files), 1 if file else 0))
    C.expect(len(cons) == (1 if out else 0), '%s has %d console outputs instead of %d' % (what, len(cons), 1 if out else 0))
    for h in files:
        p = arg(h, 0, 'filename')
        C.expect(tail(p).endswith('/logs/' + (file or '')), '%s writes %s, not %s in the log directory' % (what, show(p), file))
        m = arg(h, 1, 'mode', 'a')
        C.expect(m == ('w' if clean else 'a'), '%s opens its file with mode %s although cleaning is %s' % (
            what, show(m), 'on' if clean else 'off'))
    for h in files + cons:
        f = h.data['formatter']
        C.expect(f is not None and f.kind == 'logformatter' and s.eq(arg(f, 0, 'fmt'), fmt) and s.eq(arg(f, 1, 'datefmt'), datefmt),
                 'an output of %s does not use the configured formats' % what)
        C.expect(h.data['level'] is None or h.data['level'] in (0, 10, level, 'NOTSET', 'DEBUG'),
                 'an output of %s has a level of its own: %s' % (what, show(h.data['level'])))


TRUE = {'True': True, 'TRUE': True, 'true': True, 'False': False, 'false': False, 'no': False}
FILES = {'f.log': 'f.log', 'None': None, 'none': None, 'False': None, 'FALSE': None, '': None}


def pick(st, name, vals):
    vals = tuple(vals)
    return vals[st.choose(len(vals), name)]


def base(**kw):
    c = {'LOG_LEVEL': 'ALL', 'SQL_LOG_LEVEL': 'INFO', 'LOG_FILE': 'b.log', 'SQL_LOG_FILE': 'sql.log', 'LOG_STDOUT': 'False',
         'SQL_LOG_STDOUT': 'False', 'CLEAN_LOG_ON_START': 'True', 'LOG_NAME': 'nm'}
    c.update(kw)
    return c


def F(name, side=True, sect='DEFAULT'):
    return conf_term(name, side, sect)


def ob_levels(st, C):
    s = Log(st, C, base())
    n = pick(st, 'level', LN)
    r = s.I.call(s.cls('str_to_log_level'), [n], {})
    C.expect(r == LEVELS[n.upper()], 'level name %s means %s instead of %s' % (n, show(r), LEVELS[n.upper()]), s.I.lastret)


def ob_make(side, sect, parent, vary):
    def ob(st, C):
        lv = pick(st, 'LOG_LEVEL', LN) if vary == 'level' else 'WARN'
        fl = pick(st, 'LOG_FILE', FILES) if vary != 'level' else 'f.log'
        cl = pick(st, 'CLEAN_LOG_ON_START', TRUE) if vary == 'clean' else 'False'
        so = pick(st, 'LOG_STDOUT', TRUE) if vary == 'stdout' else 'True'
        up = sect.upper()
        mine = {'LOG_LEVEL': lv, 'LOG_FILE': fl, 'LOG_STDOUT': so, 'CLEAN_LOG_ON_START': cl, 'LOG_NAME': 'mine'}
        conf = base(LOG_NAME=None)
        conf.update({('LOG_NAME', True, 'DEFAULT'): 'svcroot', ('LOG_NAME', False, 'DEFAULT'): 'cliroot'})
        conf.update({(k, side, up): v for k, v in mine.items()})
        s = Log(st, C, conf)
        I = s.I
        ml = s.cls('make_logger')
        par = s.cls('SERVICE_LOG') if parent else None
        args = [sect, side] + ([par] if parent else [])
        try:
            lg = I.call(ml, args, {})
        except PyRaise as e:
            C.fail('make_logger ends in %s' % exc_name(e), e.where)
            return
        what = 'the logger of %s' % sect
        judge(s, lg, what, LEVELS[lv.upper()], FILES[fl], TRUE[cl], TRUE[so], F('LOG_FORMAT', side, up),
              F('LOG_DATE_FORMAT', side, up))
        nm = I.raw(I.getattr(lg, 'name')) if isinstance(lg, ExtO) else None
        C.expect(nm == 'hgaa.%s.mine' % ('svcroot' if side or parent else 'cliroot'), '%s is named %s' % (what, show(nm)))
    return ob


def ob_roots(side, vary):
    """The root loggers made while the module is loaded."""
    def ob(st, C):
        lv = pick(st, 'LOG_LEVEL', LN) if vary == 'level' else 'WARN'
        fl = pick(st, 'LOG_FILE', FILES) if vary != 'level' else 'f.log'
        cl = pick(st, 'CLEAN_LOG_ON_START', TRUE) if vary == 'clean' else 'False'
        so = pick(st, 'LOG_STDOUT', TRUE) if vary == 'stdout' else 'True'
        conf = base()
        conf.update({('LOG_LEVEL', side, 'DEFAULT'): lv, ('LOG_FILE', side, 'DEFAULT'): fl, ('LOG_STDOUT', side, 'DEFAULT'): so,
                     ('CLEAN_LOG_ON_START', side, 'DEFAULT'): cl, ('LOG_NAME', side, 'DEFAULT'): 'mine'})
        s = Log(st, C, conf)
        lg = s.cls('SERVICE_LOG' if side else 'CLIENT_LOG')
        what = 'the %s root logger' % ('service' if side else 'client')
        judge(s, lg, what, LEVELS[lv.upper()], FILES[fl], TRUE[cl], TRUE[so], F('LOG_FORMAT', side), F('LOG_DATE_FORMAT', side))
        nm = s.I.raw(s.I.getattr(lg, 'name')) if isinstance(lg, ExtO) else None
        C.expect(nm == 'hgaa.mine', '%s is named %s' % (what, show(nm)))
    return ob


def ob_other(which, vary):
    def ob(st, C):
        sql = which == 'sql'
        pre, sect, g = ('SQL_', 'DEFAULT', 'SQL_LOG') if sql else ('', 'LADON', 'LADON_LOG')
        lv = pick(st, 'level', LN) if vary == 'level' else 'WARN'
        cl = pick(st, 'clean', TRUE) if vary == 'clean' else 'False'
        so = pick(st, 'stdout', TRUE) if vary == 'stdout' else 'True'
        conf = base()
        conf.update({(pre + 'LOG_LEVEL', True, sect): lv, (pre + 'LOG_FILE', True, sect): 'own.log',
                     (pre + 'LOG_STDOUT', True, sect): so, ('CLEAN_LOG_ON_START', True, 'DEFAULT'): cl})
        s = Log(st, C, conf)
        lg = s.cls(g)
        want = LEVELS[lv.upper()]
        if sql and want == 10:
            want = 20
        judge(s, lg, 'the %s logger' % which, want, 'own.log', TRUE[cl], TRUE[so], F(pre + 'LOG_FORMAT', True, sect),
              F(pre + 'LOG_DATE_FORMAT', True, sect))
        nm = s.I.raw(s.I.getattr(lg, 'name'))
        C.expect(nm == ('sqlalchemy' if sql else 'ladonlogger'), 'the %s logger is named %s' % (which, show(nm)))
    return ob


def obligations(tier):
    yield 'level names', ob_levels
    for v in ('level', 'clean', 'stdout'):
        for side in (True, False):
            yield 'root logger, %s, varying %s' % ('services' if side else 'clients', v), ob_roots(side, v)
            for sect in ('AAUTH', 'pauth', 'TOOLS'):
                yield 'logger of %s, %s, varying %s' % (sect, 'services' if side else 'clients', v), ob_make(side, sect, False, v)
        yield 'logger with a parent, varying ' + v, ob_make(True, 'AAUTH', True, v)
        for w in ('sql', 'ladon'):
            yield '%s logger, varying %s' % (w, v), ob_other(w, v)
