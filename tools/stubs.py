"""Stand-ins for ladon, which is not installed, and scratch settings, so that services and clients run in one process.
Everything that would be written goes to a scratch directory that is removed at exit."""
import atexit
import logging
import os
import shutil
import sys
import tempfile
import types

sys.dont_write_bytecode = True
SCRATCH = tempfile.mkdtemp(prefix='demo')
atexit.register(shutil.rmtree, SCRATCH, True)
HANDLERS = []
RECORDS = []


class Recorder(logging.Handler):
    """Takes the place of file and console handlers."""
    def __init__(self, *args, **kwargs):
        logging.Handler.__init__(self)
        self.given = args, kwargs
        HANDLERS.append(self)

    def emit(self, record):
        RECORDS.append(record.getMessage())


logging.FileHandler = logging.StreamHandler = Recorder


class LadonType(object):
    def __init__(self):
        for k in dir(type(self)):
            if not k.startswith('__') and not callable(getattr(type(self), k)):
                setattr(self, k, None)


class attachment(object):
    def __init__(self, f):
        self.f = f

    def read(self):
        return self.f.read()


class Fault(Exception):
    pass


class ClientFault(Fault):
    pass


class ServerFault(Fault):
    pass


def ladonize(*types_, **kw):
    return lambda f: f


class Reply(object):
    def __init__(self, status=200, **d):
        self.status, self.response_dict = status, d


class JSONWSPClient(object):
    calls = []          # (url, method, arguments)
    replies = []        # replies to give, in order

    def __init__(self, url):
        self.url = url

    def __getattr__(self, name):
        def call(**kw):
            JSONWSPClient.calls.append((self.url, name, kw))
            return JSONWSPClient.replies.pop(0)
        return call


APPS, SERVED = [], []


class Application(object):
    def __init__(self, modules, path, **kw):
        self.modules, self.path, self.kw = modules, path, kw
        APPS.append(self)


def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    m.__path__ = []
    sys.modules[name] = m
    if '.' in name:
        p, c = name.rsplit('.', 1)
        setattr(sys.modules[p], c, m)


for n in ('ladon', 'ladon.types', 'ladon.exceptions', 'ladon.clients', 'ladon.server', 'ladon.tools'):
    module(n)
module('ladon.ladonizer', ladonize=ladonize)
module('ladon.types.ladontype', LadonType=LadonType)
module('ladon.compat', PORTABLE_STRING=str, PORTABLE_BYTES=bytes)
module('ladon.types.attachment', attachment=attachment)
module('ladon.exceptions.service', ClientFault=ClientFault, ServerFault=ServerFault)
module('ladon.clients.jsonwsp', JSONWSPClient=JSONWSPClient)
module('ladon.server.wsgi', LadonWSGIApplication=Application)
nothing = lambda *a, **k: None
module('ladon.tools.log', set_loglevel=nothing, set_logfile=nothing, set_log_backup_count=nothing, set_log_maxsize=nothing)

import hgaa.config as config                                                                                    # noqa: E402

KEY_FILE = os.path.join(SCRATCH, 'key.bin')


def setting(section, name, value, service=True):
    c = config.SERVICE_CONFIG if service else config.CLIENT_CONFIG
    if section != 'DEFAULT' and not c.has_section(section):
        c.add_section(section)
    c[section][name] = value


for sect in ('AAUTH', 'PAUTH'):
    setting(sect, 'DB_TYPE', 'SQLITE')
    setting(sect, 'DB_NAME', os.path.join(SCRATCH, sect.lower()))
setting('AAUTH', 'KEY_FILE', KEY_FILE)
setting('AAUTH', 'KEY_PASS', 'a passphrase')
setting('AAUTH', 'PASS_PEPPER', 'a pepper')


def tables(name):
    """Creates the tables of a service; returns its session factory."""
    from hgaa.database import get_engine, get_session
    from hgaa.schema import ServiceBases
    ServiceBases[name.lower()].metadata.create_all(get_engine(name))
    return get_session(name)


def aauth(bits=1024):
    """An attribute authority with a fresh key and empty tables: (service, session factory)."""
    from Crypto.PublicKey import RSA
    with open(KEY_FILE, 'wb') as f:
        f.write(RSA.generate(bits).exportKey(passphrase='a passphrase', pkcs=8))
    db = tables('AAUTH')
    from hgaa.services.aauth import AttributeAuthority
    AttributeAuthority.AC_DIR = SCRATCH
    return AttributeAuthority(), db


def account(db, id_, name, password, atts=()):
    """Adds an account with attributes [(id, name, type, value)]."""
    import bcrypt
    from hgaa.schema.aauth import User, Attribute, AttributeAssignment
    s = db()
    s.add(User(id=id_, username=name, password=bcrypt.hashpw((password + 'a pepper').encode(), bcrypt.gensalt(4)).decode()))
    for i, n, t, v in atts:
        if s.query(Attribute).filter(Attribute.id == i).first() is None:
            s.add(Attribute(id=i, name=n, type=t))
        s.add(AttributeAssignment(user_id=id_, att_id=i, value=v))
    s.commit()
    s.close()


def request(aa, user, password, ids=(), names=(), key=None, type_=0, **exports):
    """An attribute request: the bytes of the certificate."""
    from Crypto.PublicKey import RSA
    from hgaa.services import aauth as m
    c = m.Credentials()
    c.type, c.username, c.password = type_, user, password
    key = key or RSA.generate(1024).publickey()
    p = m.PublicKey()
    p.public_key = key.exportKey()
    p.key_algorithm = m.KeyAlgorithm()
    p.key_algorithm.cipher, p.key_algorithm.key_size = 'RSA', key.size_in_bits()
    a = m.AttributeList()
    a.attribute_ids, a.attribute_names = list(ids), list(names)
    exports.setdefault('REMOTE_ADDR', '10.1.2.3')
    r = aa.attribute_request(c, p, a, **exports)
    data = r.data.read()
    r.data.f.close()
    return data


def decode(data, verify=True):
    from hgaa.attcert import AttributeCertificate, ExportFormat
    return AttributeCertificate.import_ac(bytearray(data), format=ExportFormat.BYTES, verify=verify)


def pauth():
    db = tables('PAUTH')
    from hgaa.services.pauth import PolicyAuthority
    return PolicyAuthority(), db


def trust(db, key, uid='hgabac://aa', level=1, name='aa'):
    from hgaa.schema.pauth import AttributeAuthority
    s = db()
    s.add(AttributeAuthority(uid=uid, name=name, url='http://' + name, key_cipher='RSA', key_size=key.size_in_bits(),
                             pub_key=key.publickey().exportKey().decode(), trust_level=level))
    s.commit()
    s.close()


def certificate(key, uid='hgabac://aa', after=None, before=None, issued=None, serial=None, value='1'):
    """The bytes of a signed certificate."""
    import time
    from hgaa import attcert as A
    now = int(time.time())
    info = A.ACInformation(1)
    if serial is not None:
        info.serial = serial
    if issued is not None:
        info.issued = issued
    ac = A.AttributeCertificate(
        issuer=A.ACIssuer(key_algo='RSA[%d]' % key.size_in_bits(), pub_key=key.publickey().exportKey(), url='http://aa', name='aa',
                          uid=uid),
        info=info, holder=A.ACHolder(key_algo='RSA[1024]', uid=uid + '/user/u', pub_key=b'holder key', name='u'),
        rev_rules=A.ACRevocationRules(valid_after=now - 100 if after is None else after,
                                      valid_before=now + 1000 if before is None else before, url='http://aa/rev'),
        del_rules=A.ACDelegationRules(),
        att_set=[A.ACAttribute(att_id='/attribute/user/x', att_type=A.AttributeType.INT, att_name='x', att_value=value)])
    return bytes(ac.export_ac(format=A.ExportFormat.BYTES, sign=True, prvi_key=key, sig_algo='RSASSA-PKCS1-v1_5:SHA256'))


def raw(data, version=1, fmt=None):
    import io
    from hgaa.services import pauth as m
    from hgaa.attcert import ExportFormat
    t = m.AttributeCertificateType()
    t.data, t.version, t.format = attachment(io.BytesIO(data)), version, ExportFormat.BYTES.value if fmt is None else fmt
    return t


def start(pa, certs, uid='service'):
    from hgaa.services import pauth as m
    cs = m.AttributeCertificateSet()
    cs.attribute_certificates = [c if isinstance(c, m.AttributeCertificateType) else raw(c) for c in certs]
    return pa.start_session(uid, cs, REMOTE_ADDR='10.1.2.3')


def evaluate(pa, session_id, text=None, uid=None, atts=()):
    from hgaa.services import pauth as m
    p = m.PolicyObjectAttPair()
    p.policy = m.Policy()
    p.policy.policy_string, p.policy.policy_uid = text, uid
    p.object_attributes = list(atts)
    return pa.evaluate(session_id, p, REMOTE_ADDR='10.1.2.3')


def fails(exc, f, *args, **kw):
    """The call must raise exc."""
    try:
        f(*args, **kw)
    except exc:
        return
    except Exception as e:
        raise SystemExit('raises %r instead of %s' % (e, exc.__name__))
    raise SystemExit('no %s' % exc.__name__)


def must(x, what):
    if not x:
        raise SystemExit(what)
