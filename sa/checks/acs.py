"""Building abstract attribute certificates and comparing them field by field."""
from ..core import *
from ..harness import anchor, exc_name, AnchorError
from .c10 import surely_equal

REFUSALS = ('error', 'struct.error', 'OverflowError')
FIELDS = {
    'ACInformation': (('version', 0), ('serial', 0), ('issued', 0)),
    'ACIssuer': (('pub_key', 0), ('key_algo', 0), ('uid', 0), ('name', 1), ('url', 1)),
    'ACHolder': (('pub_key', 0), ('key_algo', 0), ('uid', 0), ('name', 1)),
    'ACAttribute': (('att_id', 0), ('att_type', 0), ('att_value', 1), ('att_name', 1), ('extra_bytes', 1)),
    'ACRevocationRules': (('valid_after', 0), ('valid_before', 0), ('url', 1), ('extra_bytes', 1)),
    'ACDelegationRules': (('extra_bytes', 1),),
    'ACExtensions': (('eid', 0), ('extra_bytes', 1)),
    'ACSignature': (('sig_algo', 0), ('sig_value', 0)),
}
ATYPES = ('NULL', 'INT', 'FLOAT', 'STRING', 'BOOL', 'SET')


class AC(object):
    def __init__(self, I):
        self.I, self.st = I, I.st
        self.n = 0

    def cls(self, name):
        return anchor(self.I, 'hgaa.attcert', name)

    def member(self, enum, name):
        try:
            return self.I.getattr(self.cls(enum), name)
        except PyRaise:
            raise AnchorError('hgaa.attcert.%s.%s' % (enum, name))

    def text(self, n, present=True, flags='n'):
        return sym(n, 'str', flags) if present else None

    def blob(self, n, present=True):
        if not present:
            return None
        t = sym(n, 'bytes', 'n')
        e = self.I.eq(t, b'')
        if isinstance(e, T):
            self.st.assume(e, False)
        return t

    def num(self, n, bits):
        """An unknown unsigned number of at most that many bits."""
        t = sym(n, 'int')
        self.st.nonneg.add(t)
        self.st.assume(T('lt', (t, 1 << bits)), True)
        return t

    def make(self, cls, **kw):
        return self.I.call(self.cls(cls), [], kw)

    def fields(self, cls, tag='', full=True, flags='n'):
        """Keyword arguments of a part with unknown contents."""
        tx = lambda n: self.text(tag + n, True, flags)
        ot = lambda n: self.text(tag + n, full, flags)
        if cls == 'ACInformation':
            return {'version': self.num(tag + 'version', 8), 'serial': self.num(tag + 'serial', 160),
                    'issued': self.num(tag + 'issued', 32)}
        if cls == 'ACIssuer':
            return {'pub_key': self.blob(tag + 'pub_key'), 'key_algo': tx('key_algo'), 'uid': tx('uid'),
                    'name': ot('name'), 'url': ot('url')}
        if cls == 'ACHolder':
            return {'pub_key': self.blob(tag + 'pub_key'), 'key_algo': tx('key_algo'), 'uid': tx('uid'), 'name': ot('name')}
        if cls == 'ACAttribute':
            return {'att_id': tx('att_id'), 'att_type': self.member('AttributeType', 'STRING'), 'att_value': ot('att_value'),
                    'att_name': ot('att_name'), 'extra_bytes': self.blob(tag + 'extra', full)}
        if cls == 'ACRevocationRules':
            return {'valid_after': self.num(tag + 'after', 32), 'valid_before': self.num(tag + 'before', 32),
                    'url': ot('url'), 'extra_bytes': self.blob(tag + 'extra', full)}
        if cls == 'ACDelegationRules':
            return {'extra_bytes': self.blob(tag + 'extra', full)}
        if cls == 'ACExtensions':
            return {'eid': tx('eid'), 'extra_bytes': self.blob(tag + 'extra', full)}
        if cls == 'ACSignature':
            return {'sig_algo': tx('sig_algo'), 'sig_value': self.blob(tag + 'sig_value')}
        raise ValueError(cls)

    def part(self, cls, tag='', full=True, flags='n'):
        return self.make(cls, **self.fields(cls, tag, full, flags))

    def cert(self, atts=1, exts=0, dele=None, sig=False, full=True):
        """dele: None, 'empty' or 'bytes'; atts/exts: None or a number."""
        return self.make('AttributeCertificate', issuer=self.part('ACIssuer', 'iss_', full),
                         holder=self.part('ACHolder', 'hol_', full), info=self.part('ACInformation', 'inf_'),
                         att_set=None if atts is None else ListO([self.part('ACAttribute', 'att%d_' % i, full)
                                                                  for i in range(atts)]),
                         rev_rules=self.part('ACRevocationRules', 'rev_', full),
                         del_rules=None if dele is None else self.part('ACDelegationRules', 'del_', dele == 'bytes'),
                         extensions=None if exts is None else ListO([self.part('ACExtensions', 'ext%d_' % i, full)
                                                                     for i in range(exts)]),
                         signature=self.part('ACSignature', 'sig_') if sig else None)

    # -- comparison -----------------------------------------------------------------------------------------------
    def absent(self, v):
        if v is None:
            return True
        if isinstance(v, BArr):
            v = v.content
        if isinstance(v, (str, bytes)):
            return len(v) == 0
        if isinstance(v, T) and kind_of(v, self.st) in ('str', 'bytes'):
            return bool(self.I.truth(self.I.eq(v, '' if kind_of(v, self.st) == 'str' else b'')))
        return False

    def same(self, x, y, opt):
        if opt and self.absent(x):
            return self.absent(y)
        if isinstance(x, BArr):
            x = x.content
        if isinstance(y, BArr):
            y = y.content
        if x is None or y is None:
            return x is None and y is None
        return surely_equal(self.st, self.I, x, y)

    def diff_part(self, cls, a, b):
        """First differing field of two parts, or None."""
        if not isinstance(b, Inst) or getattr(b.cls, 'name', None) != cls:
            return '%s comes back as %s' % (cls, show(b))
        for f, opt in FIELDS[cls]:
            try:
                x, y = self.I.getattr(a, f), self.I.getattr(b, f)
            except PyRaise as e:
                return '%s.%s: %s' % (cls, f, exc_name(e))
            if not self.same(x, y, opt):
                return '%s.%s %s comes back as %s' % (cls, f, show(x), show(y))
        return None

    def seq(self, v):
        return [] if v is None else list(self.I.iterate(v))

    def diff(self, a, b):
        g = lambda o, n: self.I.getattr(o, n)
        if not isinstance(b, Inst) or getattr(b.cls, 'name', None) != 'AttributeCertificate':
            return 'the import gives %s' % show(b)
        for n, cls in (('issuer', 'ACIssuer'), ('holder', 'ACHolder'), ('info', 'ACInformation'),
                       ('rev_rules', 'ACRevocationRules')):
            d = self.diff_part(cls, g(a, n), g(b, n))
            if d:
                return d
        for n, cls in (('att_set', 'ACAttribute'), ('extensions', 'ACExtensions')):
            x, y = self.seq(g(a, n)), self.seq(g(b, n))
            if len(x) != len(y):
                return '%d %s come back as %d' % (len(x), n, len(y))
            for i, (p, q) in enumerate(zip(x, y)):
                d = self.diff_part(cls, p, q)
                if d:
                    return '%s %d: %s' % (n, i, d)
        x, y = g(a, 'del_rules'), g(b, 'del_rules')
        ex = None if x is None else g(x, 'extra_bytes')
        ey = None if y is None else g(y, 'extra_bytes')
        if not self.same(ex, ey, 1):
            return 'delegation data %s comes back as %s' % (show(ex), show(ey))
        x, y = g(a, 'signature'), g(b, 'signature')
        if x is None or y is None:
            if x is not y:
                return 'signature %s comes back as %s' % (show(x), show(y))
        else:
            return self.diff_part('ACSignature', x, y)
        return None
