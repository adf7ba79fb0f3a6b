"""Which user attributes end up in a certificate."""
from .svc import *

RULE = ('attribute_request with a proved password is analysed against databases with every combination of assignments of two '
        '(thorough: three) attributes to the account and to another account, values present or NULL, and with requests whose '
        'lists of ids and names hold unknown strings and missing entries. On every path the user attributes of the exported '
        'certificate are exactly the rows assigned to the account that the request selects (all of them when no entry is '
        'left after dropping missing, empty and * entries), each once, with id, name, type and assigned value as stored; a '
        'request naming something not assigned to the account raises and exports nothing.')
BOUNDS = ('2 accounts, 2 (3) attributes, every assignment relation between them; request lists of up to 2 entries in total '
          '(3 in thorough); attribute ids and names pairwise different; all contents unknown. 140 (400) attributes with fixed '
          'ids, names and values, requested as a whole, by id and by name')
CON = '/attribute/connection/'


def setup(st, C, natt, combos):
    s = AAuth(st, C)
    s.start()
    us = s.users(2)
    atts = [s.attribute() for _ in range(natt)]
    I = s.I
    s.distinct(*[I.getattr(a, 'id') for a in atts])
    s.distinct(*[I.getattr(a, 'name') for a in atts])
    for a in atts:
        s.nonempty(I.getattr(a, 'id'))
        s.nonempty(I.getattr(a, 'name'))
        for lit in ('*',):
            s.distinct(I.getattr(a, 'id'), lit)
            s.distinct(I.getattr(a, 'name'), lit)
    return assigned(st, s, us, atts, combos)


def assigned(st, s, us, atts, combos):
    I = s.I
    mine, rel = [], {}
    for u, n in ((0, 'account'), (1, 'other account')):
        for i, a in enumerate(atts):
            if combos is not None and not combos(u, i):
                continue
            if combos is None and st.choose(2, 'attribute %d assigned to the %s' % (i, n)) == 1:
                continue
            row = s.assign(us[u], a)
            s.nonempty_or_null(row, 'value')
            if u == 0:
                mine.append(a)
                rel[a.tag] = row
    creds = s.creds()
    # the account proved its password
    I.must_eq(I.getattr(us[0], 'username'), I.method(I.getattr(creds, 'username'), 'lower', [], {}))
    return s, us, atts, mine, rel, creds


def proved(s, st):
    ck = s.events('checkpw')
    return ck and all(st.known(e['atom']) is True for e in ck)


def effective(I, st, items):
    out = []
    for x in items:
        if x is None:
            continue
        if I.truth(I.eq(x, '')) or I.truth(I.eq(x, '*')):
            continue
        out.append(x)
    return out


def same_att(s, got, att, row):
    """None if the certificate attribute is that assignment, else what differs."""
    I = s.I
    val = I.getattr(row, 'value')
    for f, want in (('att_id', I.getattr(att, 'id')), ('att_name', I.getattr(att, 'name')), ('att_value', val)):
        g = I.getattr(got, f)
        if not (g is None and want is None) and (g is None or want is None or not s.eq(g, want)):
            return '%s is %s, not %s' % (f, show(g), show(want))
    g, want = I.getattr(got, 'att_type'), I.getattr(att, 'type')
    if ckey(s.st.norm(g)) != ckey(s.st.norm(want)) and not s.eq(g, want):
        return 'att_type is %s, not %s' % (show(g), show(want))
    return None


def is_con(I, att):
    i = I.getattr(att, 'att_id')
    return isinstance(i, str) and i.startswith(CON)


def setup_many(st, C, n, values):
    """Many attributes with fixed ids and names, all of them assigned to the account and none to the other."""
    s = AAuth(st, C)
    s.start()
    us = s.users(2)
    I = s.I
    atts = [s.attribute(id='/attribute/user/a%d' % i, name='a%d' % i) for i in range(n)]
    mine, rel = list(atts), {}
    for i, a in enumerate(atts):
        row = s.assign(us[0], a)
        row.attrs['value'] = values(i)
        rel[a.tag] = row
    creds = s.creds()
    I.must_eq(I.getattr(us[0], 'username'), I.method(I.getattr(creds, 'username'), 'lower', [], {}))
    return s, us, atts, mine, rel, creds


def ob_select(natt, ids, names, combos=None, many=None):
    def ob(st, C):
        s, us, atts, mine, rel, creds = setup_many(st, C, natt, many) if many else setup(st, C, natt, combos)
        I = s.I

        def entries(spec, what):
            return [None if k == 'none' else k if k != 's' else sym('%s%d' % (what, i), 'str') for i, k in enumerate(spec)]
        rids, rnames = entries(ids, 'requested id '), entries(names, 'requested name ')
        r = s.request(creds, atts=s.attlist(rids, rnames))
        if not proved(s, st):
            return
        exps = s.issued()
        site = exps[0]['where'] if exps else (r[2].where if r[2] else I.lastret)
        eids, enames = effective(I, st, rids), effective(I, st, rnames)
        want, missing = [], None
        if not eids and not enames:
            want = list(mine)
        else:
            for key, col in [(x, 'id') for x in eids] + [(x, 'name') for x in enames]:
                hit = [a for a in mine if I.truth(I.eq(I.getattr(a, col), key))]
                if not hit:
                    missing = (col, key)
                for a in hit:
                    if a not in want:
                        want.append(a)
        if missing:
            C.expect(not exps and r[0] != 'ok', 'the request names the %s %s, which is not assigned to the account, and is '
                     'answered with a certificate' % (missing[0], show(missing[1])), site, key='unassigned')
            return
        C.expect(r[0] == 'ok' and len(exps) == 1, 'a request for attributes assigned to the account ends in %s with %d '
                 'certificates' % (r[1] if r[0] != 'ok' else 'a reply', len(exps)), site, key='outcome')
        if not exps:
            return
        got = [a for a in exps[0]['atts'] if not is_con(I, a)]
        left = list(got)
        for a in want:
            why = None
            for g in left:
                if s.eq(I.getattr(g, 'att_id'), I.getattr(a, 'id')):
                    why = same_att(s, g, a, rel[a.tag])
                    left.remove(g)
                    break
            else:
                why = 'it is missing'
            C.expect(why is None, 'an attribute of the account is not in the certificate as assigned: %s' % why, site,
                     key='attribute ' + str(why))
        C.expect(not left, 'the certificate has an attribute that was not asked for or is not assigned to the account: %s' % (
            show(I.getattr(left[0], 'att_id')) if left else ''), site, key='extra')
    return ob


def obligations(tier):
    lists = [((), ()), (('s',), ()), ((), ('s',)), (('s', 's'), ()), (('s',), ('s',)), ((), ('s', 's')),
             (('none',), ()), ((), ('none',)), (('none', 's'), ()), ((), ('s', 'none'))]
    for ids, names in lists:
        n = len([x for x in ids + names if x == 's'])
        if n < 2:
            yield '2 attributes, ids %s, names %s' % (ids, names), ob_select(2, ids, names)
        else:
            for k, cb in (('both', lambda u, i: True), ('first mine, second theirs', lambda u, i: u == i),
                          ('first', lambda u, i: u == 0 and i == 0)):
                yield '2 attributes, ids %s, names %s, %s' % (ids, names, k), ob_select(2, ids, names, cb)
    yield '3 attributes, all', ob_select(3, (), (), lambda u, i: u == 0 or i == 0)
    yield '3 attributes, one id', ob_select(3, ('s',), (), lambda u, i: u == 0 or i == 0)
    yield '3 attributes, one name', ob_select(3, (), ('s',), lambda u, i: u == 0 or i == 0)
    n = 140 if tier == 'quick' else 400
    val = lambda i: 'value %d' % i
    yield '%d attributes, all' % n, ob_select(n, (), (), many=val)
    yield '%d attributes, every id' % n, ob_select(n, tuple('/attribute/user/a%d' % i for i in range(n)), (), many=val)
    yield '%d attributes, every name' % n, ob_select(
        n, ('none',), tuple('a%d' % i for i in reversed(range(n))), many=val)
    if tier == 'thorough':
        for ids, names in [((), ()), (('s',), ()), ((), ('s',))]:
            yield '3 attributes (any), ids %s, names %s' % (ids, names), ob_select(3, ids, names)
        for ids, names in [(('s', 's'), ()), (('s',), ('s',)), ((), ('s', 's'))]:
            yield '2 attributes (any), ids %s, names %s' % (ids, names), ob_select(2, ids, names)
        for ids, names in [(('s', 's', 's'), ()), (('s', 's'), ('s',)), (('s',), ('s', 's')), ((), ('s', 's', 's'))]:
            yield '3 attributes, ids %s, names %s' % (ids, names), ob_select(3, ids, names, lambda u, i: u == 0)
