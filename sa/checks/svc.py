"""Setting up the services on a symbolic configuration and a symbolic database."""
from ..core import *
from ..harness import anchor, exc_name, AnchorError

ADDR = 'REMOTE_ADDR'


def conf_term(name, service=True, sect='DEFAULT'):
    return T('conf', (name, service, sect))


class Svc(object):
    """One service (or client, or tool) module under analysis."""
    MOD = None
    CLS = None
    SECT = None
    SIDE = True
    # logging is the subject of C33: elsewhere its settings are fixed, so that setting it up takes one path
    LOGGING = (('LOG_LEVEL', 'DEBUG'), ('LOG_FILE', 'x.log'), ('LOG_STDOUT', 'True'), ('CLEAN_LOG_ON_START', 'True'))

    def __init__(self, st, C, conf=None, hooks=None):
        self.st, self.C = st, C
        self.conf = dict(conf or {})
        hk = {'hgaa.config.get_conf': self.h_conf, 'hgaa.log.make_logger': self.h_logger,
              'hgaa.log._make_sql_log': self.h_none, 'hgaa.log._make_ladon_log': self.h_none,
              'hgaa.database.get_session': self.h_session}
        hk.update(hooks or {})
        self.I = C.interp(st, hooks=hk)
        self.db = {}
        self.I.exthooks['db'] = self.db
        self.service = None
        self.n0 = 0

    # -- surroundings ---------------------------------------------------------------------------------------------
    def h_conf(self, I, f, args, kwargs):
        a = {}
        I.bind(f, args, kwargs, a)
        ps = [x.arg for x in f.node.args.args]
        name, service, sect = [I.raw(a[p]) for p in ps[:3]]
        name, sect = name.upper(), sect.upper()
        service = bool(I.truth(service))
        I.st.event('getconf', name=name, service=service, sect=sect)
        for k in ((name, service, sect), name):
            if k in self.conf:
                v = self.conf[k]
                return v(I) if callable(v) else v
        for suffix, v in self.LOGGING:
            if name.endswith(suffix):
                return v
        t = conf_term(name, service, sect)
        I.st.kinds[t] = 'str'
        return t

    def h_logger(self, I, f, args, kwargs):
        return ExtO('logger', name='log')

    def h_none(self, I, f, args, kwargs):
        return None

    def h_session(self, I, f, args, kwargs):
        a = {}
        I.bind(f, args, kwargs, a)
        name = a[f.node.args.args[0].arg]
        return ExtO('maker', bind=ExtO('engine', url=T('db', (name,)), n=0), service=name)

    # -- the service ----------------------------------------------------------------------------------------------
    def cls(self, name, mod=None):
        return anchor(self.I, mod or self.MOD, name)

    def start(self, *args):
        try:
            self.service = self.I.call(self.cls(self.CLS), list(args), {})
        except PyRaise as e:
            raise AnchorError('%s.%s cannot be set up: %s at %s' % (self.MOD, self.CLS, exc_name(e), e.where))
        self.n0 = len(self.st.events)
        return self.service

    def call(self, name, *args, **kw):
        """('ok', result) or ('fault', class name, exception)"""
        I = self.I
        self.n0 = len(self.st.events)
        try:
            m = I.getattr(self.service, name)
        except PyRaise:
            raise AnchorError('%s.%s.%s' % (self.MOD, self.CLS, name))
        try:
            r = I.call(m, list(args), kw)
        except PyRaise as e:
            self.exc = e
            return 'fault', exc_name(e).split('.')[-1], e
        return 'ok', r, None

    def events(self, *kinds):
        return [e for e in self.st.events[self.n0:] if e['kind'] in kinds]

    def new(self, cls, mod=None, **attrs):
        o = self.I.call(self.cls(cls, mod), [], {})
        for k, v in attrs.items():
            self.I.setattr(o, k, v)
        return o

    # -- database -------------------------------------------------------------------------------------------------
    def row(self, cls, mod, **cols):
        I = self.I
        c = self.cls(cls, mod)
        o = I.new_row(c)
        for k, v in cols.items():
            col, own = c.lookup(k)
            if not (isinstance(col, ExtO) and col.kind in ('column', 'rel')):
                raise AnchorError('%s.%s.%s' % (mod, cls, k))
            o.attrs[k] = v
        self.db.setdefault(c.qual, []).append(o)
        return o

    def distinct(self, *terms):
        for i, a in enumerate(terms):
            for b in terms[:i]:
                r = self.I.eq(a, b)
                if isinstance(r, T):
                    self.I.assume_true(r, False)
                elif r is not False:
                    raise Infeasible()

    def nonempty(self, t):
        self.st.kinds[t] = 'str'
        self.I.assume_true(self.I.eq(t, ''), False)

    def nonempty_or_null(self, row, col):
        v = self.I.getattr(row, col)
        if v is not None:
            self.nonempty(v)

    def eq(self, a, b):
        """True only if the facts of the path make the two values equal."""
        r = self.I.eq(a, b)
        if isinstance(r, T):
            return self.sure(r)
        if isinstance(r, FDV):
            return all(r.vals[i] is True for i in self.st.live_of(r.var))
        return r is True

    def sure(self, r):
        if r.op == 'not':
            return self.surely_not(r.args[0])
        if r.op == 'and':
            return all(x is True or (isinstance(x, T) and self.sure(x)) for x in r.args)
        return self.st.known(r) is True

    def surely_not(self, r):
        return isinstance(r, T) and self.st.known(r) is False

    def stored(self, evs=None):
        """Objects and statements made permanent by a commit."""
        evs = self.st.events[self.n0:] if evs is None else evs
        pend, out = {}, []
        for e in evs:
            k = e['kind']
            if k in ('db_add', 'db_merge', 'db_delete', 'db_execute', 'db_update'):
                pend.setdefault(id(e.get('session')), []).append(e)
            elif k in ('setattr', 'mutate') and isinstance(e.get('obj'), Inst) and self.is_row(e['obj']):
                col = e['obj'].cls.lookup(e.get('name'))[0]
                if isinstance(col, ExtO) and col.kind == 'column' and e['obj'].tag != 'new':
                    pend.setdefault('dirty', []).append(e)
            elif k == 'db_commit':
                out += pend.pop(id(e.get('session')), []) + pend.pop('dirty', [])
            elif k == 'db_rollback':
                pend.pop(id(e.get('session')), None)
        return out

    def is_row(self, o):
        return isinstance(o.cls, ClassV) and bool(o.cls.orm)


AC_MOD = 'hgaa.attcert'


class AAuth(Svc):
    """The attribute authority. Exported certificates are recorded, their encoding is the subject of C11 and C12."""
    MOD = 'hgaa.services.aauth'
    CLS = 'AttributeAuthority'
    SCHEMA = 'hgaa.schema.aauth'
    CONF = {'REV_URL': 'http://rev/', 'SERVICE_HOST': 'host', 'SERVICE_PORT': '8888'}

    def __init__(self, st, C, conf=None, hooks=None):
        self.signings = []
        A = AC_MOD + '.AttributeCertificate.'
        hk = {A + 'export_ac': self.h_export, A + 'encode': self.h_export, A + 'sign': self.h_sign}
        hk.update(hooks or {})
        c = dict(self.CONF)
        c.update(conf or {})
        Svc.__init__(self, st, C, c, hk)

    def start(self):
        I = self.I
        fd = T('filedata', (conf_term('KEY_FILE', True, 'AAUTH'),))
        try:
            self.service = I.call(self.cls(self.CLS), [], {})
        except PyRaise as e:
            if exc_name(e) == 'ValueError' and any(a.op == 'pred' and a.args[0] == 'rsakey' and v is False
                                                   for a, v in self.st.facts.items()):
                raise Infeasible()
            raise AnchorError('%s.%s cannot be set up: %s at %s' % (self.MOD, self.CLS, exc_name(e), e.where))
        for n in ('A_URI', 'AAUTH_ID'):
            self.nonempty(conf_term(n, True, 'AAUTH'))
        self.n0 = len(self.st.events)
        return self.service

    def h_export(self, I, f, args, kwargs):
        """export_ac or encode: the bytes of the certificate, signed now or, unchanged since, before."""
        a = {}
        I.bind(f, args, kwargs, a)
        self_ = a.pop(f.node.args.args[0].arg)
        if 'format' in a:
            fmt = a['format']
        else:
            fmt = I.getattr(anchor(I, AC_MOD, 'ExportFormat'), 'BYTES')
        sign, key, algo = a.get('sign'), a.get('prvi_key'), a.get('sig_algo')
        if I.truth(sign):
            if key is None:
                I.raise_('Exception', 'Need prvi_key to sign.')
        else:
            sign = False
            for c, k, al, atts, n in reversed(self.signings):
                if c is self_:
                    if self.unchanged(c, atts, n):
                        sign, key, algo = True, k, al
                    break
        data = usym('export%d' % I.st.fresh('export'), 'bytes', 'n')
        I.st.event('export', cert=self_, format=fmt, sign=sign, key=key, algo=algo,
                   atts=self.att_list(I, self_), data=data, args=a)
        return BArr(data)

    def h_sign(self, I, f, args, kwargs):
        a = {}
        I.bind(f, args, kwargs, a)
        self_ = a.pop(f.node.args.args[0].arg)
        key, algo = a.get('prvi_key'), a.get('sig_algo')
        if not (isinstance(key, ExtO) and key.kind == 'rsa' and key.data['private']):
            I.raise_('TypeError', 'This is not a private key')
        sig = I.call(anchor(I, AC_MOD, 'ACSignature'), [algo, usym('signature%d' % I.st.fresh('acsign'), 'bytes', 'n')], {})
        I.setattr(self_, 'signature', sig)
        self.signings.append((self_, key, algo, self.att_list(I, self_), len(I.st.events)))
        I.st.event('sign', cert=self_, key=key)
        return None

    def unchanged(self, cert, atts, n):
        """No field of the certificate, its parts or attributes was assigned since event n."""
        now = self.att_list(self.I, cert)
        if len(now) != len(atts) or any(x is not y for x, y in zip(now, atts)):
            return False
        parts = [cert] + [v for v in cert.attrs.values() if isinstance(v, Inst)] + atts
        return not any(e['kind'] in ('setattr', 'mutate') and any(e.get('obj') is p for p in parts)
                       for e in self.st.events[n:])

    def att_list(self, I, cert):
        v = I.getattr(cert, 'att_set')
        if isinstance(v, Inst):
            for n in ('atts', 'att_set', 'attributes'):
                if n in v.attrs:
                    v = v.attrs[n]
                    break
        if v is None:
            return []
        return list(I.iterate(v))

    # -- requests -------------------------------------------------------------------------------------------------
    def creds(self, type_=0, user=Ellipsis, password=Ellipsis):
        return self.new('Credentials', type=type_, username=sym('username', 'str', 'n') if user is Ellipsis else user,
                        password=sym('password', 'str') if password is Ellipsis else password)

    def pubkey(self):
        ka = self.new('KeyAlgorithm', cipher=sym('user key cipher', 'str', 'n'), key_size=sym('user key size', 'int'))
        return self.new('PublicKey', public_key=sym('user public key', 'bytes', 'n'), key_algorithm=ka)

    def attlist(self, ids=(), names=()):
        return self.new('AttributeList', attribute_ids=ListO(ids), attribute_names=ListO(names))

    def request(self, creds=None, key=None, atts=None, **exports):
        exports.setdefault(ADDR, 'unix')
        return self.call('attribute_request', creds or self.creds(), key or self.pubkey(), atts or self.attlist(), **exports)

    # -- database -------------------------------------------------------------------------------------------------
    def users(self, n=2):
        """Accounts with different ids and names; account names are stored in lower case."""
        us = [self.row('User', self.SCHEMA) for _ in range(n)]
        self.distinct(*[self.I.getattr(u, 'id') for u in us])
        self.distinct(*[self.I.getattr(u, 'username') for u in us])
        return us

    def attribute(self, **cols):
        return self.row('Attribute', self.SCHEMA, **cols)

    def assign(self, user, att):
        I = self.I
        return self.row('AttributeAssignment', self.SCHEMA, user_id=I.getattr(user, 'id'), att_id=I.getattr(att, 'id'))

    def issued(self):
        return self.events('export')

    def effects(self):
        """Events by which a certificate comes into being or leaves the authority."""
        out = self.events('export', 'sign')
        out += [e for e in self.events('open') if any(m in str(e['mode']) for m in 'wax+')]
        return out + self.events('write')


class PAuth(Svc):
    """The policy authority. Importing a certificate yields unknown fields that are a function of the bytes; whether its
    signature verifies is an unknown fact about the bytes (C11 and C12 are about the encoding and the signature)."""
    MOD = 'hgaa.services.pauth'
    CLS = 'PolicyAuthority'
    SCHEMA = 'hgaa.schema.pauth'
    CONF = {'SERVICE_HOST': 'host', 'SERVICE_PORT': '8888'}

    def __init__(self, st, C, conf=None, hooks=None):
        A = AC_MOD + '.AttributeCertificate.'
        hk = {A + 'import_ac': self.h_import, A + 'verify_signature': self.h_verify, A + 'decode': self.h_decode}
        hk.update(hooks or {})
        c = dict(self.CONF)
        c.update(conf or {})
        Svc.__init__(self, st, C, c, hk)
        self.certs = {}
        self.given = {}         # fields of certificates fixed by the check

    # -- certificates ---------------------------------------------------------------------------------------------
    def content(self, d):
        d = d.content if isinstance(d, BArr) else d
        return self.st.rep(d) if isinstance(d, T) else d

    def sig_atom(self, d, fmt):
        return T('pred', ('acsig', d, fmt.name))

    def cert_of(self, d, fmt):
        """The certificate with these bytes."""
        k = (ckey(d), fmt.name)
        if k not in self.certs:
            I, st = self.I, self.st

            def f(name, kind, flags=''):
                if (ckey(d), name) in self.given:
                    return self.given[ckey(d), name]
                t = T('ac', (d, fmt.name, name))
                st.kinds[t] = kind
                return t

            def num(name):
                t = f(name, 'int')
                if isinstance(t, T):
                    st.nonneg.add(t)
                return t
            mk = lambda c, **kw: I.call(self.cls(c, AC_MOD), [], kw)
            c = mk('AttributeCertificate',
                   issuer=mk('ACIssuer', pub_key=f('issuer.pub_key', 'bytes'), key_algo=f('issuer.key_algo', 'str'),
                             uid=f('issuer.uid', 'str'), name=f('issuer.name', 'str'), url=f('issuer.url', 'str')),
                   holder=mk('ACHolder', pub_key=f('holder.pub_key', 'bytes'), key_algo=f('holder.key_algo', 'str'),
                             uid=f('holder.uid', 'str'), name=f('holder.name', 'str')),
                   info=mk('ACInformation', version=num('version'), serial=num('serial'), issued=num('issued')),
                   att_set=ListO([]),
                   rev_rules=mk('ACRevocationRules', valid_after=num('valid_after'), valid_before=num('valid_before'),
                                url=f('rev.url', 'str')),
                   del_rules=None, extensions=None,
                   signature=mk('ACSignature', sig_algo=f('sig_algo', 'str'), sig_value=f('sig_value', 'bytes')))
            c.tag = 'cert'
            self.certs[k] = (c, d, fmt)
        return self.certs[k][0]

    def h_import(self, I, f, args, kwargs):
        a = {}
        I.bind(f, args, kwargs, a)
        ps = [x.arg for x in f.node.args.args]
        return self.import_(a[ps[0]], I.st.split(a[ps[1]]), a[ps[2]])

    def h_decode(self, I, f, args, kwargs):
        a = {}
        I.bind(f, args, kwargs, a)
        ps = [x.arg for x in f.node.args.args]
        return self.import_(a[ps[0]], I.getattr(self.cls('ExportFormat', AC_MOD), 'BYTES'), a[ps[1]])

    def import_(self, data, fmt, verify):
        I, st = self.I, self.st
        if not isinstance(fmt, EnumV) or fmt.name not in ('BYTES', 'BASE64', 'BASE64FULL'):
            I.raise_('Exception', 'Unsupported format.')
        d = self.content(data)
        if fmt.name == 'BYTES' and not isinstance(data, BArr):
            I.raise_('TypeError', "'bytes' object does not support item assignment")
        if d == b'' or d == '':
            I.raise_('Exception', 'empty')
        if fmt.name == 'BYTES':
            data.content = b''          # decoding consumes the buffer
        if not st.decide(T('pred', ('acparse', d, fmt.name)), 'certificate bytes are well-formed'):
            I.raise_('struct.error', 'malformed')
        v = I.truth(verify)
        st.event('acimport', data=d, format=fmt, verify=v)
        if v and not self.verifies(d, fmt):
            I.raise_('Exception', 'Could not verify signature.')
        return self.cert_of(d, fmt)

    def verifies(self, d, fmt):
        r = self.st.decide(self.sig_atom(d, fmt), 'certificate signature verifies')
        if r:       # verification used the issuer key
            self.st.assume(T('pred', ('rsakey', T('ac', (d, fmt.name, 'issuer.pub_key')), None)), True)
        return r

    def h_verify(self, I, f, args, kwargs):
        for c, d, fmt in self.certs.values():
            if c is args[0]:
                return self.verifies(d, fmt)
        return NotImplemented

    # -- database -------------------------------------------------------------------------------------------------
    def authorities(self, n):
        rows = [self.row('AttributeAuthority', self.SCHEMA) for _ in range(n)]
        self.distinct(*[self.I.getattr(r, 'uid') for r in rows])
        for r in rows:
            k = self.I.getattr(r, 'pub_key')
            self.st.assume(T('pred', ('rsakey', k, None)), True)
        return rows

    # -- requests -------------------------------------------------------------------------------------------------
    def rawcert(self, i, version=1, fmt=None):
        if fmt is None:
            fmt = self.cls('ExportFormat', AC_MOD).members['BYTES'].value
        data = sym('certificate %d' % i, 'bytes', 'n')
        return self.new('AttributeCertificateType', data=ExtO('attachment', content=data, readonce=True),
                        version=version, format=fmt), data

    def goodcerts(self, n, auth, end, issued):
        """n submitted certificates of one registered authority, well-formed and signed, with different serials."""
        I, st = self.I, self.st
        fmt = self.cls('ExportFormat', AC_MOD).members['BYTES']
        st.assume(I.lt(0, I.getattr(auth, 'trust_level')), True)
        raws = [self.rawcert(i) for i in range(n)]
        for i, (_, d) in enumerate(raws):
            g = lambda name, v: self.given.__setitem__((ckey(d), name), v)
            g('issuer.uid', I.getattr(auth, 'uid'))
            g('issuer.pub_key', I.getattr(auth, 'pub_key'))
            g('serial', 1000 + i)
            g('valid_after', 5)
            g('valid_before', end(i))
            g('issued', issued(i))
            st.assume(T('pred', ('acparse', d, fmt.name)), True)
            st.assume(self.sig_atom(d, fmt), True)
            st.assume(T('pred', ('rsakey', T('ac', (d, fmt.name, 'issuer.pub_key')), None)), True)
        return raws

    def certset(self, raws):
        return self.new('AttributeCertificateSet', attribute_certificates=ListO(raws))

    def accepted(self, d, version, fmt):
        """True if the facts of this path say that the certificate passes all acceptance conditions, else what is missing."""
        I, st = self.I, self.st
        if not self.eq(version, 1):
            return 'its declared version is not supported'
        if not isinstance(fmt, EnumV) or fmt.name not in ('BYTES', 'BASE64', 'BASE64FULL'):
            return 'its declared format is not supported'
        if st.known(self.sig_atom(d, fmt)) is not True:
            return 'its signature was not verified'
        c = self.cert_of(d, fmt)
        uid = I.getattr(I.getattr(c, 'issuer'), 'uid')
        key = I.getattr(I.getattr(c, 'issuer'), 'pub_key')
        auth = [r for r in self.db.get(self.cls('AttributeAuthority', self.SCHEMA).qual, ())
                if self.eq(I.getattr(r, 'uid'), uid)]
        if not auth:
            return 'the issuer is not registered'
        if not self.holds(I.lt(0, I.getattr(auth[0], 'trust_level'))):
            return 'the issuer is not known to have a positive trust level'
        if not self.samekey(I.getattr(auth[0], 'pub_key'), key):
            return 'the issuer key was not found to be the registered key'
        rr = I.getattr(c, 'rev_rules')
        lo, hi = I.getattr(rr, 'valid_after'), I.getattr(rr, 'valid_before')
        for e in self.events('time'):
            for t in (e['value'], I.call(BuiltinV('int'), [e['value']], {})):
                if self.holds(I.lt(lo, t)) and self.holds(I.lt(t, hi)):
                    return True
        return 'the current time was not found to be within the validity window'

    def dup(self):
        """A stored or another submitted certificate has a serial of this request (possibly)."""
        return bool(self.db.get(self.cls('AttributeCertificate', self.SCHEMA).qual)) or len(self.certs) > 1

    def holds(self, r):
        if isinstance(r, T):
            return self.sure(r)
        return r is True

    def samekey(self, a, b):
        """Both are the same key (by comparison of the keys or of their encodings)."""
        if self.eq(a, b):
            return True
        enc = lambda k: self.I.method(k, 'encode', [], {}) if kind_of(k, self.st) == 'str' else k
        if self.eq(enc(a), enc(b)):
            return True
        for x in (T('rsakey', (a,)), T('rsakey', (enc(a),))):
            for y in (T('rsakey', (b,)), T('rsakey', (enc(b),))):
                if self.st.known(T('eq', (x, y)) if repr(ckey(x)) <= repr(ckey(y)) else T('eq', (y, x))) is True:
                    return True
                if all(self.holds(self.I.eq(T('intop', ('rsa' + f, x)), T('intop', ('rsa' + f, y)))) for f in 'ne'):
                    return True
        return False


class Client(Svc):
    """A client of the attribute authority; replies have an unknown status and hold either a result or a fault."""
    MOD = 'hgaa.clients.aauth'
    CLS = 'AttributeAuthorityClient'
    CONF = {'CLIENT_TYPE': 'JSONWSP', 'KEY_SIZE': '2048'}
    ARGS = ()

    def __init__(self, st, C, conf=None, hooks=None):
        c = dict(self.CONF)
        c.update(conf or {})
        Svc.__init__(self, st, C, c, hooks)

    def start(self, *args):
        return Svc.start(self, *(args or self.ARGS))

    def key(self):
        return ExtO('rsa', term=sym('client key', 'rsa'), private=True, bits=sym('client key bits', 'int'))


class PClient(Client):
    MOD = 'hgaa.clients.pauth'
    CLS = 'PolicyAuthorityClient'
    ARGS = (sym('service uid', 'str', 'n'),)


class Prog(Svc):
    """Functions of modules without a service object, and the command-line tool."""
    MOD = 'hgaa.tools'

    def run(self, fn, *args, **kw):
        I = self.I
        f = self.cls(fn)
        self.n0 = len(self.st.events)
        try:
            return 'ok', I.call(f, list(args), kw), None
        except PyRaise as e:
            return 'fault', exc_name(e).split('.')[-1], e

    def main(self, *argv):
        self.st.argv = ListO([usym('argv0', 'str')] + list(argv))
        self.n0 = len(self.st.events)
        try:
            return 'ok', self.I.run_main(self.MOD), None
        except PyRaise as e:
            return 'fault', exc_name(e).split('.')[-1], e
