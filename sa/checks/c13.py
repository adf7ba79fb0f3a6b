"""Validity window of attribute certificates."""
from .acs import *

RULE = ('verify_time is analysed with unknown bounds and an unknown, absent or zero time: on every path the result is the '
        'conjunction of after < t and t < before under the facts of the path, t being the argument or the integer part of the '
        'clock. ACRevocationRules is analysed with every combination of given, zero and missing bounds: a given bound is stored '
        'as the same term, a missing one is the clock, respectively the clock plus 86400.')
BOUNDS = 'none (unknown integers and numbers); in addition a grid of given windows and times, whole and fractional'


def ob_time(st, C):
    I = C.interp(st)
    a = AC(I)
    lo, hi = sym('after', 'int'), sym('before', 'int')
    kind = st.choose(3, 'bounds')
    if kind == 1:
        lo = 0
    elif kind == 2:
        hi = 0
    cert = a.cert((None, 1)[st.choose(2, 'attributes')], None, None, st.choose(2, 'signed') == 0, False)
    rr = I.getattr(cert, 'rev_rules')
    I.setattr(rr, 'valid_after', lo)
    I.setattr(rr, 'valid_before', hi)
    m = st.choose(5, 'time given')
    now = (sym('t', 'int'), None, None, 0, sym('t', 'float'))[m]
    args = [] if m == 1 else [now]
    n = len(st.events)
    try:
        r = bool(I.truth(I.call(I.getattr(cert, 'verify_time'), args, {})))
    except PyRaise as e:
        C.expect(False, 'verify_time raises %s' % exc_name(e), e.where)
        return
    site = I.lastret
    ts = [e['value'] for e in st.events[n:] if e['kind'] == 'time']
    if now is None:
        C.expect(bool(ts), 'without a given time the clock is not consulted', site)
        if not ts:
            return
        now = clock(I, ts[-1])
    want = bool(I.truth(I.lt(lo, now))) and bool(I.truth(I.lt(now, hi)))
    C.expect(r == want, 'verify_time is %s at a time %s the validity window (%s, time %s)' % (
        r, 'inside' if want else 'outside', 'valid_after < t < valid_before' if want else 'bounds excluded',
        ('given', 'not given', 'given as None', 'given as 0', 'given as float')[m]), site)


GRID = [(100, 200), (0, 1), (0, 2), (5, 5), (7, 6), (1700000000, 1700086400), (0, 2 ** 32 - 1), (3600, 7200)]


def ob_grid(lo, hi):
    def run(st, C):
        I = C.interp(st)
        a = AC(I)
        cert = a.cert(1, None, None, True, False)
        rr = I.getattr(cert, 'rev_rules')
        I.setattr(rr, 'valid_after', lo)
        I.setattr(rr, 'valid_before', hi)
        times = sorted({lo - 1, lo, lo + 1, lo + 0.5, hi - 0.5, hi - 1, hi, hi + 1, hi + 0.5, (lo + hi) // 2, (lo + hi) / 2,
                        float(lo), float(hi), 0, -1, hi + 3600, hi + 86400, lo - 3600, lo + 60, hi - 60})
        now = times[st.choose(len(times), 'time')]
        try:
            r = bool(I.truth(I.call(I.getattr(cert, 'verify_time'), [now], {})))
        except PyRaise as e:
            C.expect(False, 'verify_time raises %s' % exc_name(e), e.where)
            return
        C.expect(r == (lo < now < hi), 'verify_time(%s) is %s for the window %s to %s' % (now, r, lo, hi), I.lastret)
    return run


def clock(I, t):
    return I.call(BuiltinV('int'), [t], {})


def ob_defaults(st, C):
    I = C.interp(st)
    a = AC(I)
    kw = {}
    given = {}
    for f in ('valid_after', 'valid_before'):
        m = st.choose(4, f)
        if m == 0:
            kw[f] = given[f] = sym(f, 'int')
        elif m == 1:
            kw[f] = given[f] = 0
        elif m == 2:
            kw[f] = None
    if st.choose(2, 'url') == 0:
        kw['url'] = sym('url', 'str')
    n = len(st.events)
    try:
        p = a.make('ACRevocationRules', **kw)
    except PyRaise as e:
        C.expect(False, 'ACRevocationRules raises %s' % exc_name(e), e.where)
        return
    site = I.lastret
    ts = [e['value'] for e in st.events[n:] if e['kind'] == 'time']
    for f, off in (('valid_after', 0), ('valid_before', 86400)):
        v = I.getattr(p, f)
        if f in given:
            C.expect(surely_equal(st, I, given[f], v), '%s = %s is stored as %s' % (f, show(given[f]), show(v)), site)
        else:
            C.expect(any(ckey(v) == ckey(add(clock(I, t), off)) for t in ts),
                     'a missing %s becomes %s instead of now%s' % (f, show(v), ' + 86400' if off else ''), site)


def obligations(tier):
    yield 'verify_time', ob_time
    yield 'default bounds', ob_defaults
    for lo, hi in GRID:
        yield 'window %s to %s' % (lo, hi), ob_grid(lo, hi)
