"""Transfer functions for Python's operators, attributes and built-in types."""
import ast
import builtins as _bi
import string as _string

from .core import *

_EXC = {n: getattr(_bi, n) for n in dir(_bi) if isinstance(getattr(_bi, n), type)
        and issubclass(getattr(_bi, n), BaseException)}

BUILTINS = set('''len isinstance issubclass int float str bytes bytearray bool list tuple set frozenset dict range
enumerate zip map filter any all min max sum sorted reversed abs ord chr repr print getattr setattr hasattr delattr
type id hash callable iter next open object property staticmethod classmethod format round divmod pow vars dir hex bin
oct input __import__ memoryview slice super complex ascii exit quit'''.split()) | set(_EXC)

KIND_TYPES = {'str': str, 'int': int, 'float': float, 'bytes': bytes, 'bool': bool, 'list': list, 'set': set,
              'dict': dict, 'tuple': tuple, 'bytearray': bytearray, 'none': type(None)}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'discard', 'update',
            'setdefault', 'popitem', 'difference_update', 'intersection_update', 'symmetric_difference_update'}


# a memoryview is represented by the bytes it shows
VIEWABLE = ('bytes', 'bytearray')
VIEW_METHODS = ('tobytes', 'release')


class FoldError(Exception):
    pass


def conc(v):
    """Concrete Python value of a fully known abstract value, else FoldError."""
    if isinstance(v, RAW):
        return v
    if isinstance(v, tuple):
        return tuple(conc(x) for x in v)
    if isinstance(v, ListO):
        return [conc(x) for x in v.items]
    if isinstance(v, SetO):
        return set(conc(x) for x in v.items)
    if isinstance(v, DictO) and v.default is None:
        return {conc(k): conc(x) for k, x in v.pairs}
    if isinstance(v, BArr) and isinstance(v.content, bytes):
        return bytearray(v.content)
    if isinstance(v, slice):
        return slice(conc(v.start), conc(v.stop), conc(v.step))
    raise FoldError()


def absv(v):
    if isinstance(v, RAW):
        return v
    if isinstance(v, tuple):
        return tuple(absv(x) for x in v)
    if isinstance(v, list):
        return ListO([absv(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return SetO([absv(x) for x in sorted(v, key=repr)], isinstance(v, frozenset))
    if isinstance(v, dict):
        return DictO([(absv(k), absv(x)) for k, x in v.items()])
    if isinstance(v, (bytearray, memoryview)):
        return BArr(bytes(v))
    if v is NotImplemented:
        return NOTIMPL
    raise FoldError()


def exc_sub(name, base):
    a, b = _EXC.get(name), _EXC.get(base)
    return a is not None and b is not None and issubclass(a, b)


EXT_EXC = {'struct.error': 'Exception', 'binascii.Error': 'ValueError', 'json.decoder.JSONDecodeError': 'ValueError',
           'json.JSONDecodeError': 'ValueError', 'configparser.Error': 'Exception',
           'configparser.NoSectionError': 'Exception', 'configparser.NoOptionError': 'Exception'}


class Ops(object):
    # -- exceptions -----------------------------------------------------------------------------------------------
    def raise_(self, name, msg=''):
        cls = ExtV(name) if '.' in name else BuiltinV(name)
        raise PyRaise(Inst(cls, {'args': (msg,)}), self.where())

    def fold(self, f, *args):
        """Constant folding: apply a Python built-in to constants."""
        try:
            return absv(f(*args))
        except FoldError:
            raise
        except RecursionError:
            raise
        except Exception as e:
            self.raise_(type(e).__name__ if type(e).__name__ in _EXC else 'Exception', str(e))

    def exc_classes(self, v):
        """Names/classes an exception value is an instance of."""
        out = []
        cls = v.cls if isinstance(v, Inst) else None
        if isinstance(cls, ClassV):
            out += list(cls.mro)
            roots = cls.ext_bases()
        else:
            roots = [cls]
        for r in roots:
            out.append(r)
            if isinstance(r, ExtV):
                r = BuiltinV(EXT_EXC.get(r.path, 'Exception'))
                out.append(r)
            if isinstance(r, BuiltinV) and r.name in _EXC:
                for b in _EXC[r.name].__mro__:
                    out.append(BuiltinV(b.__name__))
        return out

    def exc_match(self, v, t):
        if isinstance(t, tuple):
            return any(self.exc_match(v, x) for x in t)
        if isinstance(t, ListO):
            self.raise_('TypeError', 'catching classes that do not inherit from BaseException')
        for c in self.exc_classes(v):
            if c is t or c == t:
                return True
            if isinstance(c, ExtV) and isinstance(t, ExtV) and c.path.split('.')[-1] == t.path.split('.')[-1]:
                return True
        return False

    def exc_name(self, v):
        c = v.cls if isinstance(v, Inst) else None
        if isinstance(c, ClassV):
            return c.name
        if isinstance(c, BuiltinV):
            return c.name
        if isinstance(c, ExtV):
            return c.path.split('.')[-1]
        return '?'

    # -- builtins -------------------------------------------------------------------------------------------------
    def builtin(self, name):
        if name in BUILTINS:
            return BuiltinV(name)
        if name == 'NotImplemented':
            return NOTIMPL
        if name == 'Ellipsis':
            return ExtV('Ellipsis')
        if name == '__debug__':
            return True
        return None

    # -- truth ----------------------------------------------------------------------------------------------------
    def truth(self, v):
        st = self.st
        if v is None:
            return False
        if isinstance(v, RAW):
            return bool(v)
        if isinstance(v, FDV):
            v = st.norm(v)
            if not isinstance(v, FDV):
                return self.truth(v)
            if any(x is not DEAD and not isinstance(x, RAW) and not self._plain_enum(x)
                   for i, x in enumerate(v.vals) if i in st.live_of(v.var)):
                return self.truth(st.split(v))

            def key(x):
                return bool(x) if isinstance(x, RAW) else (bool(x.value) if self._int_enum(x.cls) else True)
            return key(st.split(v, key, 'truth of %r' % v))
        if isinstance(v, T):
            op = v.op
            if op == 'not':
                return not self.truth(v.args[0])
            if op == 'and':
                return all(self.truth(x) for x in v.args)
            if op == 'or':
                return any(self.truth(x) for x in v.args)
            if op in BOOL_OPS:
                return st.decide(v)
            r = st.rep(v)
            if not isinstance(r, T):
                return self.truth(r)
            k = kind_of(v, st)
            if k == 'str':
                return not self.truth(self.eq(v, ''))
            if k == 'bytes':
                return not self.truth(self.eq(v, b''))
            if k in ('int', 'float'):
                return not self.truth(self.eq(v, 0))
            if k in ('inst', 'obj', 'tuple'):
                return True
            if k == 'list' or v in st.expand:
                return bool(self.expand(v).items)
            if k == 'none':
                return False
            if st.known(T('eq', self._ord(v, None))) is True:
                return False
            b = st.decide(T('truthy', (v,)))
            if b:
                st.assume(T('eq', self._ord(v, None)), False)
            return b
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (ListO, SetO)):
            return len(v.items) > 0
        if isinstance(v, DictO):
            return len(v.pairs) > 0
        if isinstance(v, BArr):
            return not self.truth(self.eq(v.content, b''))
        if isinstance(v, EnumV):
            m, _ = v.cls.lookup('__bool__')
            if m is not None:
                return self.truth(self.call(m, [v]))
            if self._int_enum(v.cls):
                return bool(v.value)
            return True
        if isinstance(v, Inst):
            if isinstance(v.cls, ClassV):
                m, _ = v.cls.lookup('__bool__')
                if m is not None:
                    return self.truth(self.call(m, [v]))
                m, _ = v.cls.lookup('__len__')
                if m is not None:
                    return self.truth(self.call(m, [v]))
                if '_fields' in v.cls.dict:
                    return bool(v.cls.dict['_fields'])
            return True
        if isinstance(v, ExtO):
            return self.exto_truth(v)
        return True

    def _plain_enum(self, x):
        return isinstance(x, EnumV) and x.cls.lookup('__bool__')[0] is None and x.cls.lookup('__eq__')[0] is None

    def _int_enum(self, cls):
        return cls.enum in ('IntEnum', 'IntFlag')

    # -- equality -------------------------------------------------------------------------------------------------
    def _ord(self, a, b):
        return (a, b) if repr(ckey(a)) <= repr(ckey(b)) else (b, a)

    def _user(self, v, name):
        """User-defined method `name` of the class of v, or None."""
        if isinstance(v, Inst) and isinstance(v.cls, ClassV):
            return v.cls.lookup(name)[0]
        if isinstance(v, EnumV):
            return v.cls.lookup(name)[0]
        return None

    def _fd_user(self, v, name):
        return isinstance(v, FDV) and any(self._user(x, name) is not None for i, x in enumerate(v.vals)
                                          if x is not DEAD and i in self.st.live_of(v.var))

    def eq(self, a, b):
        st = self.st
        a, b = st.norm(a), st.norm(b)
        if self._fd_user(a, '__eq__'):
            a = st.split(a)
        if self._fd_user(b, '__eq__'):
            b = st.split(b)
        m = self._user(a, '__eq__')
        if m is not None:
            r = self.call(m, [a, b])
            if r is not NOTIMPL:
                return r
        m = self._user(b, '__eq__')
        if m is not None:
            r = self.call(m, [b, a])
            if r is not NOTIMPL:
                return r
        return self.eq_plain(a, b)

    def eq_plain(self, a, b):
        st = self.st
        if isinstance(a, ExtO) or isinstance(b, ExtO):
            r = self.exto_eq(a, b)
            if r is not NotImplemented:
                return r
            return a is b
        if isinstance(a, FDV) or isinstance(b, FDV):
            if isinstance(a, FDV) and isinstance(b, FDV):
                if a.var is b.var or a.var.name == b.var.name:
                    vals = [DEAD] * len(a.vals)
                    for i in st.live_of(a.var):
                        vals[i] = self.eq_plain(a.vals[i], b.vals[i])
                    return st.norm(FDV(a.var, vals))
                if len(st.live_of(a.var)) <= len(st.live_of(b.var)):
                    return self.eq(st.split(a), b)
                return self.eq(a, st.split(b))
            f, o = (a, b) if isinstance(a, FDV) else (b, a)
            if isinstance(o, T):
                if o.op == 'cat' and kind_of(f, st) == 'str':
                    return self.str_eq(f, o)
                return self.eq(st.split(f), o)
            if isinstance(o, RAW + (EnumV, BuiltinV, ClassV, ExtV, tuple)):
                return st.fdmap(lambda x: self.eq_plain(x, o), f)
            return self.eq(st.split(f), o)
        if isinstance(a, EnumV) and self._int_enum(a.cls) and not isinstance(b, EnumV):
            a = a.value
        if isinstance(b, EnumV) and self._int_enum(b.cls) and not isinstance(a, EnumV):
            b = b.value
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            if a == b:
                return True
            if self._int_enum(a.cls) and self._int_enum(b.cls):
                return a.value == b.value
            return False
        if isinstance(a, RAW) and isinstance(b, RAW):
            return a == b
        if isinstance(a, BArr) and not isinstance(b, T):
            return self.eq(a.content, b.content if isinstance(b, BArr) else b)
        if isinstance(b, BArr) and not isinstance(a, T):
            return self.eq(a, b.content)
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, ListO) and isinstance(b, ListO):
            x, y = (a, b) if isinstance(a, tuple) else (a.items, b.items)
            if len(x) != len(y):
                return False
            return all(self.truth(self.eq_id(p, q)) for p, q in zip(x, y))
        if isinstance(a, SetO) and isinstance(b, SetO):
            return self.subset(a, b) and self.subset(b, a)
        if isinstance(a, DictO) and isinstance(b, DictO):
            if len(a.pairs) != len(b.pairs):
                return False
            for k, v in a.pairs:
                w = self.dict_get(b, k, DEAD)
                if w is DEAD or not self.truth(self.eq_id(v, w)):
                    return False
            return True
        if isinstance(a, T) or isinstance(b, T):
            if isinstance(a, BArr):
                a = a.content
            if isinstance(b, BArr):
                b = b.content
            return self.eq_term(a, b)
        if isinstance(a, Inst) and isinstance(b, Inst) and isinstance(a.cls, ClassV) and a.cls is b.cls and \
                (a.cls.dataclass or '_fields' in a.cls.dict):
            fs = a.cls.dataclass or a.cls.dict['_fields']
            return all(self.truth(self.eq(a.attrs.get(f), b.attrs.get(f))) for f in fs)
        if isinstance(a, (BuiltinV, ExtV)):
            return a == b
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return a.func is b.func and a.self is b.self
        return a is b

    def eq_id(self, a, b):
        if a is b and not isinstance(a, (FDV, float)):
            return True
        return self.eq(a, b)

    INJ = {'utf8', 'b64', 'digest', 'dec'}

    def eq_term(self, a, b):
        st = self.st
        a, b = st.rep(a), st.rep(b)
        if isinstance(a, (ListO, SetO, DictO, Inst)) or isinstance(b, (ListO, SetO, DictO, Inst)):
            if isinstance(a, T) and isinstance(b, ListO) and kind_of(a, st) == 'list':
                return self.eq(self.expand(a), b)
            if isinstance(b, T) and isinstance(a, ListO) and kind_of(b, st) == 'list':
                return self.eq(a, self.expand(b))
            if kind_of(a, st) is not None and kind_of(b, st) is not None and kind_of(a, st) != kind_of(b, st):
                return False
            t = T('eq', self._ord(a, b))
            k = st.known(t)
            return t if k is None else k
        if ckey(a) == ckey(b):
            return True
        if isinstance(a, RAW) and isinstance(b, RAW):
            return a == b
        if isinstance(a, T) and a.op in BOOL_OPS and isinstance(b, bool):
            return a if b else T('not', (a,))
        if isinstance(b, T) and b.op in BOOL_OPS and isinstance(a, bool):
            return b if a else T('not', (b,))
        # wrappers that are injective
        while isinstance(a, T) and isinstance(b, T) and a.op == b.op and a.op in self.INJ and len(a.args) == 1:
            a, b = a.args[0], b.args[0]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and x.op in ('utf8',) and isinstance(y, bytes):
                try:
                    return self.eq(x.args[0], y.decode('utf-8'))
                except UnicodeDecodeError:
                    return False
            if isinstance(x, T) and x.op == 'len' and not isinstance(y, bool) and y == 0:
                k = kind_of(x.args[0], st)
                if k == 'str':
                    return self.eq(x.args[0], '')
                if k == 'bytes':
                    return self.eq(x.args[0], b'')
            if isinstance(x, T) and x.op == 'blen' and not isinstance(y, bool) and y == 0:
                return self.eq(x.args[0], '')
            if isinstance(x, T) and x.op in ('lower', 'upper', 'casefold') and y == '' and isinstance(y, str):
                return self.eq(x.args[0], '')
            if isinstance(x, T) and x.op == 'b64' and y == b'' and isinstance(y, bytes):
                return self.eq(x.args[0], b'')
            if isinstance(x, T) and x.op == 'dec' and y == '' and isinstance(y, str):
                return self.eq(x.args[0], b'')
            if isinstance(x, T) and x.op == 'str' and isinstance(y, str) and kind_of(x.args[0], st) == 'int':
                try:
                    if str(int(y)) != y:
                        return False
                    return self.eq(x.args[0], int(y))
                except ValueError:
                    return False
        if isinstance(a, RAW) and isinstance(b, RAW):
            return a == b
        if ckey(a) == ckey(b):
            return True
        ka, kb = kind_of(a, st), kind_of(b, st)
        if ka == 'str' and kb == 'str':
            if (isinstance(a, T) and a.op == 'cat') or (isinstance(b, T) and b.op == 'cat'):
                return self.str_eq(a, b)
        if ka == 'bytes' and kb == 'bytes':
            if (isinstance(a, T) and a.op == 'bcat') or (isinstance(b, T) and b.op == 'bcat'):
                return self.bytes_eq(a, b)
        if ka == 'int' and kb == 'int':
            d = sub(a, b)
            if isinstance(d, int):
                return d == 0
            a, b = self._two_sides(d, a, b)
        for x, y in ((a, b), (b, a)):
            # x - y == 0 states x == y
            if isinstance(x, T) and x.op == 'float' and x.args[0] == 'Sub' and isinstance(y, RAW) and y == 0:
                return self.eq(*x.args[1:])
            # hashing a password with the salt of a stored hash and comparing is what checkpw does
            if isinstance(x, T) and x.op == 'bcrypt' and kb == ka == 'bytes' and ckey(st.rep(x.args[1])) == ckey(y):
                return self.x_bcrypt_checkpw(x.args[0], y)
        if (isinstance(a, T) and isinstance(b, T) and a.op == b.op == 'export' and not a.args[1] and not b.args[1] and
                ckey(a.args[3]) == ckey(b.args[3])):
            return self.eq_term(a.args[0], b.args[0])
        t = T('eq', self._ord(a, b))
        k = st.known(t)
        return t if k is None else k

    def _two_sides(self, d, a, b):
        """The comparison of a and b, which differ by d, with one unknown on each side where that is possible."""
        c, ts = as_lin(d)
        if sorted(k for _, k in ts) == [-1, 1]:
            p, n = (ts[0][0], ts[1][0]) if ts[0][1] == 1 else (ts[1][0], ts[0][0])
            return (add(p, c), n) if c >= 0 else (p, sub(n, c))
        if len(ts) == 1 and ts[0][1] == 1:
            return ts[0][0], -c
        if len(ts) == 1 and ts[0][1] == -1:
            return c, ts[0][0]
        return a, b

    def _chars(self, v):
        """List of single characters (str or FDV) if v has known length, else None."""
        out = []
        for p in cat_parts(v):
            if isinstance(p, str):
                out += list(p)
            elif isinstance(p, FDV):
                if all(isinstance(x, str) and len(x) == 1 for i, x in enumerate(p.vals)
                       if x is not DEAD and i in self.st.live_of(p.var)):
                    out.append(p)
                else:
                    return None
            else:
                return None
        return out

    def str_eq(self, a, b):
        st = self.st
        ca, cb = self._chars(a), self._chars(b)
        if ca is not None and cb is not None:
            if len(ca) != len(cb):
                return False
            for x, y in zip(ca, cb):
                if not self.truth(self.eq_plain(st.norm(x), st.norm(y))):
                    return False
            return True
        pa, pb = cat_parts(a), cat_parts(b)
        # strip common ends
        while pa and pb:
            x, y = pa[0], pb[0]
            if ckey(x) == ckey(y):
                pa.pop(0), pb.pop(0)
            elif isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                pa[0:1] = [x[n:]] if x[n:] else []
                pb[0:1] = [y[n:]] if y[n:] else []
            else:
                break
        while pa and pb:
            x, y = pa[-1], pb[-1]
            if ckey(x) == ckey(y):
                pa.pop(), pb.pop()
            elif isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[-n:] != y[-n:]:
                    return False
                pa[-1:] = [x[:-n]] if x[:-n] else []
                pb[-1:] = [y[:-n]] if y[:-n] else []
            else:
                break
        if not pa and not pb:
            return True
        if not pa or not pb:
            rest = pa or pb
            if any(isinstance(p, (str, FDV)) for p in rest):
                return False
            return all(self.truth(self.eq(p, '')) for p in rest)
        # separators: opaque parts that contain none of a separator align segment by segment
        lits = set(c for p in pa + pb if isinstance(p, str) for c in p)
        for sep in sorted(lits):
            if all(self.part_free(p, sep) for p in pa + pb if not isinstance(p, str)):
                sa, sb = self._segments(pa, sep), self._segments(pb, sep)
                if len(sa) != len(sb):
                    return False
                if len(sa) > 1:
                    return all(self.truth(self.eq(x, y)) for x, y in zip(sa, sb))
        a2, b2 = cat(pa), cat(pb)
        if not (isinstance(a2, T) and a2.op == 'cat') and not (isinstance(b2, T) and b2.op == 'cat'):
            return self.eq(a2, b2)
        t = T('eq', self._ord(a2, b2))
        k = st.known(t)
        return t if k is None else k

    def _segments(self, parts, sep):
        segs, cur = [], []
        for p in parts:
            if isinstance(p, str):
                xs = p.split(sep)
                cur.append(xs[0])
                for x in xs[1:]:
                    segs.append(cat(cur))
                    cur = [x]
            else:
                cur.append(p)
        segs.append(cat(cur))
        return segs

    def part_free(self, p, sep):
        """The opaque string part p certainly does not contain the separator sep."""
        if isinstance(p, str):
            return sep not in p
        if isinstance(p, FDV):
            return all(isinstance(x, str) and sep not in x for i, x in enumerate(p.vals) if i in self.st.live_of(p.var))
        if isinstance(p, T):
            if p.op == 'sym':
                f = p.args[2]
                if 'd' in f:
                    return not any(c.isdigit() for c in sep)
                if 'a' in f:
                    return not all(c.isalnum() or c == '_' for c in sep)
                return False
            if p.op == 'str' and kind_of(p.args[0], self.st) == 'int':
                return not all(c in '-0123456789' for c in sep)
            if p.op == 'dec' and isinstance(p.args[0], T) and p.args[0].op == 'b64':
                return not all(c.isalnum() or c in '+/=' for c in sep)
            if p.op in ('lower', 'upper', 'casefold', 'strip'):
                return self.part_free(p.args[0], sep)
            if p.op == 'cat':
                return all(self.part_free(x, sep) for x in p.args)
            if p.op == 'free':
                return sep in p.args[1] or self.part_free(p.args[0], sep)
        return False

    def bytes_eq(self, a, b):
        st = self.st
        pa, pb = bcat_parts(a), bcat_parts(b)
        for side in (0, -1):
            while pa and pb:
                x, y = pa[side], pb[side]
                if ckey(x) == ckey(y):
                    pa.pop(side), pb.pop(side)
                elif isinstance(x, bytes) and isinstance(y, bytes):
                    n = min(len(x), len(y))
                    if side == 0:
                        if x[:n] != y[:n]:
                            return False
                        pa[0:1] = [x[n:]] if x[n:] else []
                        pb[0:1] = [y[n:]] if y[n:] else []
                    else:
                        if x[-n:] != y[-n:]:
                            return False
                        pa[-1:] = [x[:-n]] if x[:-n] else []
                        pb[-1:] = [y[:-n]] if y[:-n] else []
                else:
                    break
        if not pa and not pb:
            return True
        # field by field while both sides have the same fixed-width fields in front
        while pa and pb and isinstance(pa[0], T) and isinstance(pb[0], T) and pa[0].op == 'pack' and \
                pb[0].op == 'pack' and pa[0].args[0] == pb[0].args[0]:
            if not self.truth(self.eq(pa[0].args[1], pb[0].args[1])):
                return False
            pa.pop(0), pb.pop(0)
        if not pa or not pb:
            rest = pa or pb
            if not rest:
                return True
            if any(isinstance(p, bytes) or (isinstance(p, T) and p.op in ('pack', 'digest')) for p in rest):
                return False
            return all(self.truth(self.eq(p, b'')) for p in rest)
        a2, b2 = bcat(pa), bcat(pb)
        if not (isinstance(a2, T) and a2.op == 'bcat') and not (isinstance(b2, T) and b2.op == 'bcat'):
            return self.eq(a2, b2)
        t = T('eq', self._ord(a2, b2))
        k = st.known(t)
        return t if k is None else k

    def is_(self, a, b):
        st = self.st
        a, b = st.norm(a), st.norm(b)
        if isinstance(a, FDV) or isinstance(b, FDV):
            if isinstance(a, FDV) and isinstance(b, FDV):
                a = st.split(a)
                return self.is_(a, b)
            f, o = (a, b) if isinstance(a, FDV) else (b, a)
            if isinstance(o, T):
                return self.is_(st.split(f), o)
            return st.fdmap(lambda x: ckey(x) == ckey(o), f)
        if isinstance(a, T) or isinstance(b, T):
            a, b = st.rep(a), st.rep(b)
            if ckey(a) == ckey(b):
                return True
            t, o = (a, b) if isinstance(a, T) else (b, a)
            if not isinstance(t, T):
                return ckey(a) == ckey(b)
            if o is None:
                k = kind_of(t, st)
                if k is not None and k != 'none':
                    return False
                return self.eq_term(t, None)
            if isinstance(o, (bool, EnumV)):
                k = kind_of(t, st)
                if k is not None and k not in ('bool', 'enum', 'obj', 'inst'):
                    return False
                return self.eq_term(t, o)
            if isinstance(o, T):
                return self.eq_term(a, b)
            return False
        if isinstance(a, (RAW, EnumV, BuiltinV, ExtV)) and not isinstance(a, (float, bytes)):
            return ckey(a) == ckey(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a is b or (a == () and b == ())
        return a is b

    def not_(self, v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, T) and v.op in BOOL_OPS:
            return v.args[0] if v.op == 'not' else T('not', (v,))
        if isinstance(v, FDV):
            return self.st.fdmap(lambda x: not x, v) if all(
                isinstance(x, RAW) or x is DEAD for x in v.vals) else not self.truth(v)
        return not self.truth(v)

    # -- comparisons ----------------------------------------------------------------------------------------------
    def compare(self, op, a, b):
        st = self.st
        a, b = st.norm(a), st.norm(b)
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            for x, y in ((a, b), (b, a)):
                if self._fd_user(x, '__ne__'):
                    x = st.split(x)
                    y = st.norm(y)
                m = self._user(x, '__ne__')
                if m is not None:
                    r = self.call(m, [x, y])
                    if r is not NOTIMPL:
                        return r
            if isinstance(a, ExtO) or isinstance(b, ExtO):
                r = self.exto_ne(a, b)
                if r is not NotImplemented:
                    return r
            return self.not_(self.eq(a, b))
        if op == 'Is':
            return self.is_(a, b)
        if op == 'IsNot':
            return self.not_(self.is_(a, b))
        if op == 'In':
            return self.contains(b, a)
        if op == 'NotIn':
            return self.not_(self.contains(b, a))
        return self.order(op, a, b)

    DUNDER = {'Lt': ('__lt__', '__gt__'), 'Gt': ('__gt__', '__lt__'), 'LtE': ('__le__', '__ge__'),
              'GtE': ('__ge__', '__le__')}

    def order(self, op, a, b):
        st = self.st
        if self._fd_user(a, self.DUNDER[op][0]):
            a = st.split(a)
        if self._fd_user(b, self.DUNDER[op][1]):
            b = st.split(b)
        m = self._user(a, self.DUNDER[op][0])
        if m is not None:
            r = self.call(m, [a, b])
            if r is not NOTIMPL:
                return r
        m = self._user(b, self.DUNDER[op][1])
        if m is not None:
            r = self.call(m, [b, a])
            if r is not NOTIMPL:
                return r
        if isinstance(a, ExtO) or isinstance(b, ExtO):
            return self.exto_order(op, a, b)
        if isinstance(a, SetO) and isinstance(b, SetO):
            if op == 'LtE':
                return self.subset(a, b)
            if op == 'GtE':
                return self.subset(b, a)
            if op == 'Lt':
                return self.subset(a, b) and not self.subset(b, a)
            return self.subset(b, a) and not self.subset(a, b)
        if op == 'Gt':
            return self.lt(b, a)
        if op == 'Lt':
            return self.lt(a, b)
        if op == 'GtE':
            return self.not_(self.lt(a, b))
        return self.not_(self.lt(b, a))

    def lt(self, a, b):
        st = self.st
        a, b = st.norm(a), st.norm(b)
        if isinstance(a, FDV) or isinstance(b, FDV):
            if isinstance(a, FDV) and isinstance(b, FDV) and a.var.name != b.var.name:
                return self.lt(st.split(a), b)
            if isinstance(a, FDV) and isinstance(b, FDV):
                vals = [DEAD] * len(a.vals)
                for i in st.live_of(a.var):
                    vals[i] = self.lt(a.vals[i], b.vals[i])
                return st.norm(FDV(a.var, vals))
            if isinstance(a, FDV):
                return st.fdmap(lambda x: self.lt(x, b), a) if not isinstance(b, T) else self.lt(st.split(a), b)
            return st.fdmap(lambda x: self.lt(a, x), b) if not isinstance(a, T) else self.lt(a, st.split(b))
        if isinstance(a, EnumV) and self._int_enum(a.cls):
            a = a.value
        if isinstance(b, EnumV) and self._int_enum(b.cls):
            b = b.value
        if isinstance(a, RAW) and isinstance(b, RAW):
            return self.fold(lambda x, y: x < y, a, b)
        if isinstance(a, (tuple, ListO)) and type(a) is type(b):
            x, y = (a, b) if isinstance(a, tuple) else (a.items, b.items)
            for p, q in zip(x, y):
                if not self.truth(self.eq(p, q)):
                    return self.lt(p, q)
            return len(x) < len(y)
        if isinstance(a, T) or isinstance(b, T):
            a, b = st.rep(a), st.rep(b)
            if isinstance(a, RAW) and isinstance(b, RAW):
                return self.fold(lambda x, y: x < y, a, b)
            ka, kb = kind_of(a, st), kind_of(b, st)
            num = ('int', 'float', 'bool')
            if ka is not None and kb is not None:
                if not ((ka in num and kb in num) or (ka == kb and ka in ('str', 'bytes')) or
                        {ka, kb} <= {'bytes', 'bytearray'}):
                    self.raise_('TypeError', "'<' not supported between instances of %s and %s" % (ka, kb))
            elif (ka == 'none' or kb == 'none' or isinstance(a, (ListO, SetO, DictO, Inst)) or
                  isinstance(b, (ListO, SetO, DictO, Inst))):
                self.raise_('TypeError', "'<' not supported")
            if ka in ('int', 'bool') and kb in ('int', 'bool'):
                d = sub(a, b)
                if isinstance(d, int):
                    return d < 0
                a, b = self._two_sides(d, a, b)
            for x, y, f in ((a, b, 1), (b, a, -1)):
                # x - y < 0 states x < y
                if isinstance(x, T) and x.op == 'float' and x.args[0] == 'Sub' and isinstance(y, RAW) and y == 0:
                    return self.lt(*x.args[1:]) if f == 1 else self.lt(*x.args[:0:-1])
            t = T('lt', (a, b))
            k = st.known(t)
            return t if k is None else k
        self.raise_('TypeError', "'<' not supported between instances of %s and %s" % (kind_of(a), kind_of(b)))

    # -- containers -----------------------------------------------------------------------------------------------
    def hashable(self, v):
        if isinstance(v, (ListO, DictO, BArr)) or (isinstance(v, SetO) and not v.frozen):
            self.raise_('TypeError', 'unhashable type: %s' % kind_of(v))
        if isinstance(v, tuple):
            for x in v:
                self.hashable(x)
        cls = v.cls if isinstance(v, (Inst, EnumV)) and isinstance(v.cls, ClassV) else None
        if cls is not None:
            for c in cls.mro:
                if '__hash__' in c.dict:
                    if c.dict['__hash__'] is None:
                        break
                    self.call(c.dict['__hash__'], [v])
                    return
                if '__eq__' in c.dict or (c.dataclass and not c.dict.get('__frozen__')):
                    break
            else:
                return
            self.raise_('TypeError', 'unhashable type: %s' % cls.name)
        if isinstance(v, FDV):
            x = [x for i, x in enumerate(v.vals) if i in self.st.live_of(v.var)]
            if x and isinstance(x[0], EnumV):
                self.hashable(x[0])

    def make_set(self, items, frozen=False):
        out = SetO([], frozen)
        for x in items:
            self.set_add(out, x)
        return out

    def set_add(self, s, x):
        self.hashable(x)
        for y in s.items:
            r = self.eq_id(x, y) if isinstance(x, RAW) and isinstance(y, RAW) else self._eq_known(x, y)
            if r is True:
                return
        s.items.append(x)

    def _eq_known(self, x, y):
        """Equality if it is known without a case split, else None."""
        if ckey(x) == ckey(y):
            return True
        if isinstance(x, (Inst, EnumV)) or isinstance(y, (Inst, EnumV)):
            if isinstance(x, RAW) or isinstance(y, RAW) or isinstance(x, T) or isinstance(y, T):
                return None
            r = self.eq(x, y)
            return r if isinstance(r, bool) else None
        if isinstance(x, T) or isinstance(y, T):
            if isinstance(x, (tuple, FDV)) or isinstance(y, (tuple, FDV)):
                return None
            if (isinstance(x, T) and x.op in ('cat', 'bcat')) or (isinstance(y, T) and y.op in ('cat', 'bcat')):
                return None
            r = self.eq_term(x, y)
            return r if isinstance(r, bool) else None
        return None

    def set_dedupe(self, s):
        out = []
        for x in s.items:
            if not any(self.truth(self.eq_id(x, y)) for y in out):
                out.append(x)
        s.items[:] = out
        return out

    def subset(self, a, b):
        return all(self.truth(self.contains(b, x)) for x in list(a.items))

    def contains(self, c, x):
        st = self.st
        c, x = st.norm(c), st.norm(x)
        if isinstance(c, FDV):
            if isinstance(x, str) and kind_of(c, st) == 'str':
                return st.fdmap(lambda y: x in y, c)
            c = st.split(c)
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, FDV):
                return st.fdmap(lambda y: self.contains(c, y), x)
            if isinstance(x, T):
                k = kind_of(x, st)
                if k not in (None, 'str'):
                    self.raise_('TypeError', "'in <string>' requires string as left operand")
                if c == '':
                    return self.eq(x, '')
                ch = self._chars(x)
                if ch is not None:
                    return self.contains(c, st.split_str(x)) if hasattr(st, 'split_str') else self._str_in_lit(c, ch)
                t = T('in', (x, c))
                k = st.known(t)
                return t if k is None else k
            self.raise_('TypeError', "'in <string>' requires string as left operand, not %s" % kind_of(x))
        if isinstance(c, bytes) and isinstance(x, RAW):
            return self.fold(lambda: x in c)
        if isinstance(c, (tuple, ListO)) or isinstance(c, SetO):
            items = list(c) if isinstance(c, tuple) else list(c.items)
            if isinstance(c, SetO):
                self.hashable(x)
            if isinstance(x, FDV) and not self._fd_user(x, '__eq__') and \
                    all(isinstance(y, RAW + (EnumV, BuiltinV, ClassV)) and self._user(y, '__eq__') is None for y in items):
                return st.fdmap(lambda z: any(self.eq_plain(z, y) is True for y in items), x)
            if len(items) == 1:
                return self.eq_id(items[0], x)
            for y in items:
                if self.truth(self.eq_id(y, x) if not isinstance(y, FDV) else self.eq(y, x)):
                    return True
            return False
        if isinstance(c, DictO):
            return self.dict_get(c, x, DEAD) is not DEAD
        if isinstance(c, T):
            r = st.rep(c)
            if not isinstance(r, T):
                return self.contains(r, x)
            k = kind_of(c, st)
            if k == 'str':
                if isinstance(x, str):
                    if x == '':
                        return True
                    ps = cat_parts(c)
                    if any(isinstance(p, str) and x in p for p in ps):
                        return True
                    if len(x) == 1 and all(isinstance(p, str) or self.part_free(p, x) for p in ps):
                        return False
                    ch = self._chars(c)
                    if ch is not None:
                        n = len(x)
                        return any(all(self.truth(self.eq_plain(st.norm(p), q)) for p, q in zip(ch[i:i + n], x))
                                   for i in range(len(ch) - n + 1))
                    if len(ps) > 1 and len(x) == 1:
                        return any(self.truth(self.contains(p, x)) for p in ps if not isinstance(p, str))
                if kind_of(x, st) not in (None, 'str'):
                    self.raise_('TypeError', "'in <string>' requires string as left operand")
                t = T('in', (x, c))
                kn = st.known(t)
                return t if kn is None else kn
            if k in ('int', 'float', 'bool', 'none'):
                self.raise_('TypeError', "argument of type '%s' is not iterable" % k)
            if k == 'dict' or c.op in ('attr', 'm:response_dict', 'ext') or k == 'mapping':
                t = T('in', (x, c))
                kn = st.known(t)
                return t if kn is None else kn
            return self.contains(self.expand(c), x)
        if isinstance(c, Inst):
            m = self._user(c, '__contains__')
            if m is not None:
                return self.truth(self.call(m, [c, x]))
            return any(self.truth(self.eq(y, x)) for y in self.iterate(c))
        if isinstance(c, ExtO):
            return self.exto_contains(c, x)
        if isinstance(c, IterO):
            for y in c.gen:
                if self.truth(self.eq(y, x)):
                    return True
            return False
        if isinstance(c, ClassV) and c.members is not None:
            return self.contains(tuple(c.members.values()), x)
        if isinstance(c, BArr) and isinstance(c.content, bytes) and isinstance(x, RAW):
            return self.fold(lambda: x in c.content)
        if c is None or isinstance(c, (int, float, bool)):
            self.raise_('TypeError', "argument of type '%s' is not iterable" % kind_of(c))
        self.undecided('membership in %s' % show(c))

    def _str_in_lit(self, c, chars):
        n = len(chars)
        for i in range(len(c) - n + 1):
            if all(self.truth(self.eq_plain(self.st.norm(p), q)) for p, q in zip(chars, c[i:i + n])):
                return True
        return False

    def expand(self, v):
        """Contents of a collection of unknown size: each size class is analysed."""
        st = self.st
        if v not in st.expand:
            n = self.expand_sizes[st.choose(len(self.expand_sizes), 'size of %s' % show(v))]
            st.expand[v] = ListO([T('elem', (v, i)) for i in range(n)])
            h = self.elemkind.get(v) if hasattr(self, 'elemkind') else None
            if h:
                for x in st.expand[v].items:
                    st.kinds[x] = h
        return st.expand[v]

    # dictionaries
    def dict_get(self, d, k, default=None):
        self.hashable(k)
        st = self.st
        k = st.norm(k)
        if isinstance(k, FDV) and not self._fd_user(k, '__eq__'):
            ks = [p[0] for p in d.pairs]
            if all(isinstance(x, RAW + (EnumV,)) for x in ks) and all(
                    isinstance(x, RAW + (EnumV,)) for i, x in enumerate(k.vals) if i in st.live_of(k.var)):
                def f(x):
                    for kk, vv in d.pairs:
                        if self.eq_plain(kk, x) is True:
                            return vv
                    return default
                live = st.live_of(k.var)
                vals = [DEAD] * len(k.vals)
                for i in live:
                    vals[i] = f(k.vals[i])
                if any(vals[i] is default and default is DEAD for i in live):
                    hit = frozenset(i for i in live if vals[i] is not DEAD)
                    miss = live - hit
                    if not hit:
                        return DEAD
                    c = st.choose(2, 'key of %r' % k)
                    if c == 1:
                        st.live[k.var.name] = miss
                        return DEAD
                    st.live[k.var.name] = hit
                return st.norm(FDV(k.var, vals))
            k = st.split(k)
        elif isinstance(k, FDV):
            k = st.split(k)
        # exact hits first: no case split needed
        kk = ckey(k)
        for p in d.pairs:
            if ckey(p[0]) == kk:
                return p[1]
        for p in d.pairs:
            if self.truth(self.eq_id(p[0], k)):
                return p[1]
        return default

    def dict_set(self, d, k, v):
        self.hashable(k)
        k = self.st.norm(k)
        if isinstance(k, FDV):
            k = self.st.split(k)
        kk = ckey(k)
        for p in d.pairs:
            if ckey(p[0]) == kk:
                p[1] = v
                return
        for p in d.pairs:
            if self.truth(self.eq_id(p[0], k)):
                p[1] = v
                return
        d.pairs.append([k, v])

    def dict_del(self, d, k):
        for i, p in enumerate(d.pairs):
            if ckey(p[0]) == ckey(k) or self.truth(self.eq_id(p[0], k)):
                del d.pairs[i]
                return p[1]
        return DEAD

    def dict_items(self, v):
        if isinstance(v, DictO):
            return [tuple(p) for p in v.pairs]
        if isinstance(v, (ListO, tuple)):
            return [tuple(self.iterate(x)) for x in self.iterate(v)]
        if isinstance(v, IterO):
            return [tuple(self.iterate(x)) for x in v.gen]
        if isinstance(v, T):
            return []
        self.undecided('mapping expected')

    # -- iteration ------------------------------------------------------------------------------------------------
    def iterate(self, v):
        st = self.st
        v = st.norm(v)
        if isinstance(v, FDV):
            if kind_of(v, st) == 'str' and self._chars(v) is not None:
                yield v
                return
            v = st.split(v)
        if isinstance(v, ListO):
            i = 0
            while i < len(v.items):
                yield v.items[i]
                i += 1
            return
        if isinstance(v, SetO):
            for x in list(v.items):
                yield x
            return
        if isinstance(v, tuple):
            for x in v:
                yield x
            return
        if isinstance(v, DictO):
            n = len(v.pairs)
            for i, p in enumerate(list(v.pairs)):
                yield p[0]
                if len(v.pairs) != n:
                    self.raise_('RuntimeError', 'dictionary changed size during iteration')
            return
        if isinstance(v, str):
            for c in v:
                yield c
            return
        if isinstance(v, bytes):
            for c in v:
                yield c
            return
        if isinstance(v, IterO):
            for x in v.gen:
                yield x
            return
        if isinstance(v, T):
            r = st.rep(v)
            if not isinstance(r, T):
                for x in self.iterate(r):
                    yield x
                return
            k = kind_of(v, st)
            if k == 'str':
                ch = self._chars(v)
                if ch is None:
                    self.undecided('iteration over the characters of an unknown text')
                for c in ch:
                    yield c
                return
            if k in ('int', 'float', 'bool', 'none'):
                self.raise_('TypeError', "'%s' object is not iterable" % k)
            if k == 'bytes':
                self.undecided('iteration over unknown bytes')
            for x in self.iterate(self.expand(v)):
                yield x
            return
        if isinstance(v, ClassV) and v.members is not None:
            seen = []
            for m in v.members.values():
                if m not in seen:
                    seen.append(m)
                    yield m
            return
        if isinstance(v, Inst) and isinstance(v.cls, ClassV):
            if '_fields' in v.cls.dict:
                for f in v.cls.dict['_fields']:
                    yield v.attrs[f]
                return
            m = self._user(v, '__iter__')
            if m is not None:
                it = self.call(m, [v])
                if it is v or (isinstance(it, Inst) and self._user(it, '__next__') is not None):
                    nx = self._user(it, '__next__')
                    n = 0
                    while True:
                        try:
                            x = self.call(nx, [it])
                        except PyRaise as e:
                            if self.exc_name(e.value) == 'StopIteration':
                                return
                            raise
                        yield x
                        n += 1
                        if n > 3000:
                            raise BudgetExceeded('iteration bound')
                for x in self.iterate(it):
                    yield x
                return
            m = self._user(v, '__getitem__')
            if m is not None:
                i = 0
                while True:
                    try:
                        x = self.call(m, [v, i])
                    except PyRaise as e:
                        if self.exc_name(e.value) == 'IndexError':
                            return
                        raise
                    yield x
                    i += 1
        if isinstance(v, ExtO):
            for x in self.exto_iter(v):
                yield x
            return
        if isinstance(v, BArr) and isinstance(v.content, bytes):
            for c in v.content:
                yield c
            return
        if isinstance(v, (BArr, ExtV)):
            self.undecided('iteration over %s' % show(v))
        self.raise_('TypeError', "'%s' object is not iterable" % kind_of(v))

    # -- attributes -----------------------------------------------------------------------------------------------
    def bind_attr(self, v, obj, cls):
        if isinstance(v, Wrap):
            if v.kind == 'static':
                return v.func
            if v.kind == 'class':
                return BoundV(v.func, cls)
            if v.kind == 'property':
                return self.call(v.func, [obj])
            if v.kind == 'cached':
                return self.call(v.func, [obj])
        if isinstance(v, FuncV):
            return BoundV(v, obj)
        if isinstance(v, ExtO) and v.kind == 'lru':
            return BoundV(v, obj)
        if isinstance(v, ExtO) and v.kind == 'singledispatch':
            return BoundV(v, obj)
        if isinstance(v, ExtO) and v.kind == 'partialmethod':
            f = v.data['func']
            g = self.bind_attr(f, obj, cls)
            return ExtO('partial', func=g, args=([] if g is not f else [obj]) + v.data['args'], kwargs=v.data['kwargs'])
        if isinstance(v, Inst) and isinstance(v.cls, ClassV):
            m, _ = v.cls.lookup('__get__')
            if m is not None:
                return self.call(m, [v, obj, cls])
        return v

    def getattr(self, o, name):
        st = self.st
        o = st.norm(o)
        if isinstance(o, Inst):
            cls = o.cls
            if isinstance(cls, ClassV):
                cv, cc = cls.lookup(name)
                if isinstance(cv, Wrap) and cv.kind == 'property':
                    return self.call(cv.func, [o])
                if name in o.attrs:
                    return o.attrs[name]
                if o.lazy is not None:
                    r = o.lazy(self, o, name)
                    if r is not DEAD:
                        o.attrs[name] = r
                        return r
                if cc is not None:
                    if isinstance(cv, Wrap) and cv.kind == 'cached':
                        r = self.call(cv.func, [o])
                        o.attrs[name] = r
                        return r
                    return self.bind_attr(cv, o, cls)
                if name == '__class__':
                    return cls
                if name == '__dict__':
                    return ExtO('instdict', inst=o)
                m, _ = cls.lookup('__getattr__')
                if m is not None:
                    return self.call(m, [o, name])
                if self.is_exc(cls):
                    if name in ('__cause__', '__context__', '__traceback__'):
                        return None
                    if name == 'with_traceback':
                        return ExtO('const', value=o)
                if name in ('__init__', '__setattr__', '__eq__', '__ne__', '__hash__', '__str__', '__repr__', '__reduce__',
                            '__getattribute__', '_asdict', '_replace', '__len__'):
                    return BMeth(o, name)
                r = self.inst_ext_attr(o, name)
                if r is not DEAD:
                    return r
                self.raise_('AttributeError', "'%s' object has no attribute '%s'" % (cls.name, name))
            if name in o.attrs:
                return o.attrs[name]
            if name == '__class__':
                return cls
            if name in ('__cause__', '__context__', '__traceback__'):
                return None
            if name == 'with_traceback':
                return ExtO('const', value=o)
            if name in ('__str__', '__repr__'):
                return BMeth(o, name)
            if isinstance(cls, ExtV):
                return T('attr', (usym('exc:%s' % cls.path), name))
            self.raise_('AttributeError', "'%s' object has no attribute '%s'" % (self.exc_name(o), name))
        if isinstance(o, ClassV):
            return self.class_attr(o, name)
        if isinstance(o, EnumV):
            if name in ('name', '_name_'):
                return o.name
            if name in ('value', '_value_'):
                return o.value
            if name == '__class__':
                return o.cls
            v, _ = o.cls.lookup(name)
            if v is not None:
                return self.bind_attr(v, o, o.cls)
            if name in ('__eq__', '__ne__', '__hash__', '__str__', '__repr__', '__reduce_ex__'):
                return BMeth(o, name)
            if self._int_enum(o.cls) and hasattr(int, name):
                return BMeth(o.value, name)
            self.raise_('AttributeError', name)
        if isinstance(o, FDV):
            live = [x for i, x in enumerate(o.vals) if i in st.live_of(o.var)]
            if all(isinstance(x, RAW) for x in live):
                if name == '__class__':
                    return self.getattr(st.split(o, lambda x: type(x).__name__), name)
                if len(set(type(x) for x in live)) == 1:
                    if not hasattr(live[0], name):
                        self.raise_('AttributeError', name)
                    return BMeth(o, name)
                return self.getattr(st.split(o, lambda x: type(x).__name__), name)
            if all(isinstance(x, EnumV) for x in live) and name in ('name', 'value', '_name_', '_value_'):
                return st.fdmap(lambda x: x.name if 'name' in name else x.value, o)
            return self.getattr(st.split(o), name)
        if isinstance(o, ModV):
            if name in o.env:
                return o.env[name]
            if name == '__dict__':
                d = DictO()
                d.pairs = [[k, v] for k, v in o.env.items()]
                return d
            if self.mod_path(o.name + '.' + name) is not None:
                return self.load(o.name + '.' + name)
            self.raise_('AttributeError', "module '%s' has no attribute '%s'" % (o.name, name))
        if isinstance(o, ExtV):
            return self.ext_attr(o, name)
        if isinstance(o, ExtO):
            return self.exto_attr(o, name)
        if isinstance(o, BuiltinV):
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__new__':
                return BMeth(o, '__new__')
            t = getattr(_bi, o.name, None)
            if t is not None and not hasattr(t, name):
                self.raise_('AttributeError', name)
            return BMeth(o, name)
        if isinstance(o, T):
            return self.term_attr(o, name)
        if isinstance(o, Wrap):
            return BMeth(o, name)
        if isinstance(o, (FuncV, BoundV, BMeth)):
            f = o.func if isinstance(o, BoundV) else o
            if name in ('__name__', '__qualname__'):
                return f.name
            if name == '__doc__':
                return None
            if name == '__self__' and isinstance(o, BoundV):
                return o.self
            if name == '__func__' and isinstance(o, BoundV):
                return o.func
            if name == '__module__':
                return f.mod.name if isinstance(f, FuncV) else 'builtins'
            k = (id(f), name)
            if k in self.funcattrs:
                return self.funcattrs[k][1]
            self.raise_('AttributeError', name)
        if name == '__class__':
            return self.type_of(o)
        k = kind_of(o)
        t = KIND_TYPES.get(k)
        if t is None:
            self.raise_('AttributeError', name)
        if isinstance(o, IterO):
            return BMeth(o, name)
        if not hasattr(t, name) and not (k in VIEWABLE and name in VIEW_METHODS):
            self.raise_('AttributeError', "'%s' object has no attribute '%s'" % (k, name))
        if k in ('int', 'float') and name in ('real', 'numerator'):
            return o
        return BMeth(o, name)

    def term_attr(self, o, name):
        st = self.st
        r = st.rep(o)
        if not isinstance(r, T):
            return self.getattr(r, name)
        ov = st.overlay.get((o, name))
        if ov is not None:
            return ov[0]
        k = kind_of(o, st)
        if k in KIND_TYPES and k != 'list':
            if not hasattr(KIND_TYPES[k], name) and not (k in VIEWABLE and name in VIEW_METHODS):
                self.raise_('AttributeError', "'%s' object has no attribute '%s'" % (k, name))
            return BMeth(o, name)
        if k == 'list' or o in st.expand:
            return BMeth(self.expand(o), name)
        if name == '__class__':
            return T('type', (o,))
        h = self.attrkinds.get(o.args[0] if o.op == 'sym' else None) if hasattr(self, 'attrkinds') else None
        t = T('attr', (o, name))
        if h is not None and name in h:
            st.kinds[t] = h[name]
        return t

    def is_exc(self, cls):
        return any(isinstance(b, BuiltinV) and b.name in _EXC or
                   isinstance(b, ExtV) and (b.path in EXT_EXC or b.path.endswith(('Error', 'Fault', 'Exception')))
                   for b in cls.ext_bases())

    def class_attr(self, c, name):
        v, cc = c.lookup(name)
        if cc is not None:
            if isinstance(v, Wrap):
                if v.kind == 'static':
                    return v.func
                if v.kind == 'class':
                    return BoundV(v.func, c)
            return v
        if name in ('__name__', '__qualname__'):
            return c.name
        if name == '__members__' and c.members is not None:
            return DictO([(k, v) for k, v in c.members.items()])
        if name in ('_value2member_map_',) and c.members is not None:
            d = DictO()
            for m in c.members.values():
                self.dict_set(d, m.value, m)
            return d
        if name == '_member_map_' and c.members is not None:
            return DictO([(k, v) for k, v in c.members.items()])
        if name in ('_member_names_',) and c.members is not None:
            return ListO([k for k, v in c.members.items() if v.name == k])
        if name == '__module__':
            return c.mod.name
        if name == '__doc__':
            return None
        if name == '__class__':
            return BuiltinV('type')
        if name == '__mro__':
            return tuple(c.mro)
        if name == '__bases__':
            return tuple(c.bases)
        if name == '__dict__':
            return DictO([(k, v) for k, v in c.dict.items()])
        if name in ('__new__', '__init__', '__setattr__', '__eq__', '__ne__', '__hash__', '__str__', '__repr__', 'mro',
                    '__subclasses__', '_make', '__getattribute__'):
            return BMeth(c, name)
        r = self.class_ext_attr(c, name)
        if r is not DEAD:
            return r
        self.raise_('AttributeError', "type object '%s' has no attribute '%s'" % (c.name, name))

    def setattr(self, o, name, v):
        st = self.st
        o = st.norm(o)
        if isinstance(o, FDV):
            o = st.split(o)
        if isinstance(o, Inst):
            if isinstance(o.cls, ClassV):
                cv, cc = o.cls.lookup(name)
                if isinstance(cv, Wrap) and cv.kind == 'property':
                    if cv.fset is None:
                        self.raise_('AttributeError', "property '%s' has no setter" % name)
                    self.call(cv.fset, [o, v])
                    return
                m, _ = o.cls.lookup('__setattr__')
                if m is not None:
                    self.call(m, [o, name, v])
                    return
                if o.cls.dict.get('__frozen__') or '_fields' in o.cls.dict:
                    self.raise_('AttributeError', "can't set attribute")
                sl, sc = o.cls.lookup('__slots__')
            self.raw_setattr(o, name, v)
            return
        if isinstance(o, ClassV):
            o.dict[name] = v
            st.event('classwrite', cls=o, name=name, value=v)
            return
        if isinstance(o, ModV):
            o.env[name] = v
            st.event('globalwrite', mod=o.name, name=name, value=v)
            return
        if isinstance(o, T):
            r = st.rep(o)
            if isinstance(r, (Inst, ExtO)):
                return self.setattr(r, name, v)
            st.overlay[(o, name)] = (v,)
            st.event('setattr', obj=o, name=name, value=v)
            return
        if isinstance(o, ExtO):
            self.exto_setattr(o, name, v)
            return
        if isinstance(o, FuncV):
            self.funcattrs[(id(o), name)] = (o, v)
            st.event('globalwrite', mod=o.qual, name=name, value=v)
            return
        if isinstance(o, BoundV):
            self.raise_('AttributeError', "'method' object has no attribute '%s'" % name)
        if isinstance(o, EnumV):
            st.event('classwrite', cls=o.cls, name=name, value=v)
            self.enumattrs[(ckey(o), name)] = v
            return
        if isinstance(o, ExtV):
            st.event('globalwrite', mod=o.path, name=name, value=v)
            return
        self.raise_('AttributeError', "'%s' object has no attribute '%s'" % (kind_of(o), name))

    def raw_setattr(self, o, name, v):
        o.attrs[name] = v
        self.st.event('setattr', obj=o, name=name, value=v)

    def delattr(self, o, name):
        if isinstance(o, Inst):
            if name in o.attrs:
                del o.attrs[name]
                self.st.event('setattr', obj=o, name=name, value=DEAD)
                return
            self.raise_('AttributeError', name)
        if isinstance(o, ClassV):
            if name in o.dict:
                del o.dict[name]
                self.st.event('classwrite', cls=o, name=name, value=DEAD)
                return
            self.raise_('AttributeError', name)
        if isinstance(o, ModV):
            o.env.pop(name, None)
            self.st.event('globalwrite', mod=o.name, name=name, value=DEAD)
            return
        self.undecided('delattr')

    # -- subscripts -----------------------------------------------------------------------------------------------
    def index_of(self, i, n):
        """Concrete index for a sequence of n items."""
        st = self.st
        i = st.norm(i)
        if isinstance(i, FDV):
            i = st.split(i)
        if isinstance(i, EnumV) and self._int_enum(i.cls):
            i = i.value
        if isinstance(i, T):
            i = st.rep(i)
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, T) and kind_of(i, st) == 'int':
            for j in range(n):
                if self.truth(self.eq(i, j)):
                    return j
            for j in range(1, n + 1):
                if self.truth(self.eq(i, -j)):
                    return n - j
            return None
        if not isinstance(i, int):
            if isinstance(i, T):
                self.undecided('index %s' % show(i))
            self.raise_('TypeError', 'indices must be integers or slices, not %s' % kind_of(i))
        if i < 0:
            i += n
        return i if 0 <= i < n else None

    def raw_slice(self, s):
        out = []
        for x in (s.start, s.stop, s.step):
            x = self.st.norm(x)
            if isinstance(x, FDV):
                x = self.st.split(x)
            if isinstance(x, T):
                x = self.st.rep(x)
            if x is not None and not isinstance(x, int):
                if isinstance(x, T):
                    raise FoldError()
                self.raise_('TypeError', 'slice indices must be integers or None')
            out.append(x)
        return slice(*out)

    def getitem(self, o, i):
        st = self.st
        o = st.norm(o)
        if isinstance(o, FDV):
            if isinstance(i, (int, slice)) and all(isinstance(x, RAW) for k, x in enumerate(o.vals)
                                                   if k in st.live_of(o.var)):
                try:
                    j = self.raw_slice(i) if isinstance(i, slice) else i
                    return st.fdmap(lambda x: self.fold(lambda: x[j]), o)
                except FoldError:
                    pass
            o = st.split(o)
        if isinstance(o, T):
            r = st.rep(o)
            if not isinstance(r, T):
                return self.getitem(r, i)
        if isinstance(o, (tuple, ListO)):
            items = o if isinstance(o, tuple) else o.items
            if isinstance(i, slice):
                try:
                    s = self.raw_slice(i)
                except FoldError:
                    self.undecided('slice with unknown bounds')
                return tuple(items[s]) if isinstance(o, tuple) else ListO(items[s])
            j = self.index_of(i, len(items))
            if j is None:
                self.raise_('IndexError', 'index out of range')
            return items[j]
        if isinstance(o, DictO):
            v = self.dict_get(o, i, DEAD)
            if v is DEAD:
                if o.default is not None:
                    v = self.call(o.default, [])
                    self.dict_set(o, i, v)
                    return v
                self.raise_('KeyError', i)
            return v
        if isinstance(o, str) or (isinstance(o, T) and kind_of(o, st) == 'str'):
            return self.str_index(o, i)
        if isinstance(o, (bytes, BArr)) or (isinstance(o, T) and kind_of(o, st) == 'bytes'):
            return self.bytes_index(o, i)
        if isinstance(o, ClassV):
            if o.members is not None:
                i = st.norm(i)
                if isinstance(i, FDV):
                    return st.fdmap(lambda x: o.members[x] if x in o.members else self.raise_('KeyError', x), i)
                if isinstance(i, str):
                    if i in o.members:
                        return o.members[i]
                    self.raise_('KeyError', i)
                for n, m in o.members.items():
                    if self.truth(self.eq(i, n)):
                        return m
                self.raise_('KeyError', i)
            m, _ = o.lookup('__class_getitem__')
            return o
        if isinstance(o, Inst) and isinstance(o.cls, ClassV):
            if '_fields' in o.cls.dict:
                return self.getitem(tuple(self.iterate(o)), i)
            m = self._user(o, '__getitem__')
            if m is not None:
                return self.call(m, [o, i])
            self.raise_('TypeError', "'%s' object is not subscriptable" % o.cls.name)
        if isinstance(o, ExtO):
            return self.exto_getitem(o, i)
        if isinstance(o, ExtV):
            return self.ext_getitem(o, i)
        if isinstance(o, BuiltinV):
            return o
        if isinstance(o, T):
            k = kind_of(o, st)
            if k in ('int', 'float', 'bool', 'none'):
                self.raise_('TypeError', "'%s' object is not subscriptable" % k)
            if k == 'list' or o in st.expand:
                return self.getitem(self.expand(o), i)
            if isinstance(i, FDV):
                i = st.split(i)
            ov = st.overlay.get((o, ckey(i)))
            if ov is not None:
                return ov[0]
            if isinstance(i, slice):
                self.undecided('slice of unknown value')
            return T('item', (o, i))
        self.raise_('TypeError', "'%s' object is not subscriptable" % kind_of(o))

    def str_index(self, o, i):
        st = self.st
        if isinstance(o, str) and not isinstance(i, slice):
            j = st.norm(i)
            if isinstance(j, int):
                return self.fold(lambda: o[j])
        if isinstance(i, slice):
            try:
                s = self.raw_slice(i)
            except FoldError:
                self.undecided('slice of text with unknown bounds')
            if isinstance(o, str):
                return o[s]
            ch = self._chars(o)
            if ch is not None:
                return cat(ch[s])
            if s.step in (None, 1):
                r = self._str_slice(o, s)
                if r is not None:
                    return r
            return T('strslice', (o, s.start, s.stop, s.step))
        ch = self._chars(o)
        if ch is not None:
            j = self.index_of(i, len(ch))
            if j is None:
                self.raise_('IndexError', 'string index out of range')
            return ch[j]
        ps = cat_parts(o)
        if isinstance(i, int) and ps:
            if i >= 0 and isinstance(ps[0], str) and i < len(ps[0]):
                return ps[0][i]
            if i < 0 and isinstance(ps[-1], str) and -i <= len(ps[-1]):
                return ps[-1][i]
        if isinstance(i, int):
            if self.truth(self.eq(o, '')):
                self.raise_('IndexError', 'string index out of range')
        return T('strop', ('char', o, i))

    def _str_slice(self, o, s):
        """Slices that only cut literal ends of a text."""
        ps = cat_parts(o)
        a, b = s.start, s.stop
        if a is not None and a > 0:
            if not (ps and isinstance(ps[0], str) and a <= len(ps[0])):
                return None
            ps[0] = ps[0][a:]
        elif a is not None and a < 0:
            if b is None and ps and isinstance(ps[-1], str) and -a <= len(ps[-1]):
                return ps[-1][a:]
            return None
        if b is not None and b < 0:
            if not (ps and isinstance(ps[-1], str) and -b <= len(ps[-1])):
                return None
            ps[-1] = ps[-1][:b]
        elif b is not None:
            if isinstance(cat_parts(o)[0], str) and b <= len(cat_parts(o)[0]):
                return cat_parts(o)[0][s]
            return None
        return cat(ps)

    def setitem(self, o, i, v):
        st = self.st
        o = st.norm(o)
        if isinstance(o, T):
            r = st.rep(o)
            if not isinstance(r, T):
                return self.setitem(r, i, v)
            if o in st.expand or kind_of(o, st) == 'list':
                return self.setitem(self.expand(o), i, v)
        st.event('mutate', obj=o, name='setitem')
        if isinstance(o, ListO):
            if isinstance(i, slice):
                o.items[self.raw_slice(i)] = list(self.iterate(v))
                return
            j = self.index_of(i, len(o.items))
            if j is None:
                self.raise_('IndexError', 'list assignment index out of range')
            o.items[j] = v
            return
        if isinstance(o, DictO):
            self.dict_set(o, i, v)
            return
        if isinstance(o, BArr):
            self.barr_setitem(o, i, v)
            return
        if isinstance(o, Inst):
            m = self._user(o, '__setitem__')
            if m is not None:
                self.call(m, [o, i, v])
                return
        if isinstance(o, ExtO):
            self.exto_setitem(o, i, v)
            return
        if isinstance(o, T):
            st.overlay[(o, ckey(i))] = (v,)
            return
        self.raise_('TypeError', "'%s' object does not support item assignment" % kind_of(o))

    def delitem(self, o, i):
        st = self.st
        o = st.norm(o)
        st.event('mutate', obj=o, name='delitem')
        if isinstance(o, T):
            r = st.rep(o)
            if not isinstance(r, T):
                return self.delitem(r, i)
            o = self.expand(o)
        if isinstance(o, ListO):
            if isinstance(i, slice):
                del o.items[self.raw_slice(i)]
                return
            j = self.index_of(i, len(o.items))
            if j is None:
                self.raise_('IndexError', 'list assignment index out of range')
            del o.items[j]
            return
        if isinstance(o, DictO):
            if self.dict_del(o, i) is DEAD:
                self.raise_('KeyError', i)
            return
        if isinstance(o, BArr):
            if isinstance(i, slice) and i.step is None:
                self.barr_setitem(o, i, b'')
                return
        if isinstance(o, Inst):
            m = self._user(o, '__delitem__')
            if m is not None:
                self.call(m, [o, i])
                return
        self.undecided('del item of %s' % show(o))

    # -- arithmetic -----------------------------------------------------------------------------------------------
    BIN = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'), 'Mult': ('__mul__', '__rmul__'),
           'Div': ('__truediv__', '__rtruediv__'), 'FloorDiv': ('__floordiv__', '__rfloordiv__'),
           'Mod': ('__mod__', '__rmod__'), 'Pow': ('__pow__', '__rpow__'), 'BitAnd': ('__and__', '__rand__'),
           'BitOr': ('__or__', '__ror__'), 'BitXor': ('__xor__', '__rxor__'), 'LShift': ('__lshift__', '__rlshift__'),
           'RShift': ('__rshift__', '__rrshift__'), 'MatMult': ('__matmul__', '__rmatmul__')}
    PYOP = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b,
            'Div': lambda a, b: a / b, 'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b,
            'Pow': lambda a, b: a ** b, 'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b,
            'BitXor': lambda a, b: a ^ b, 'LShift': lambda a, b: a << b, 'RShift': lambda a, b: a >> b}

    def binop(self, op, a, b):
        st = self.st
        a, b = st.norm(a), st.norm(b)
        if isinstance(a, T):
            a = self.resolve(a)
        if isinstance(b, T):
            b = self.resolve(b)
        if self._fd_user(a, self.BIN[op][0]):
            a = st.split(a)
        if self._fd_user(b, self.BIN[op][1]):
            b = st.split(b)
        m = self._user(a, self.BIN[op][0])
        if m is not None:
            r = self.call(m, [a, b])
            if r is not NOTIMPL:
                return r
        m = self._user(b, self.BIN[op][1])
        if m is not None:
            r = self.call(m, [b, a])
            if r is not NOTIMPL:
                return r
        if isinstance(a, EnumV) and self._int_enum(a.cls):
            a = a.value
        if isinstance(b, EnumV) and self._int_enum(b.cls):
            b = b.value
        if op == 'Mod' and (isinstance(a, str) or kind_of(a, st) == 'str'):
            return self.percent(a, b)
        if isinstance(a, FDV) or isinstance(b, FDV):
            fa = isinstance(a, FDV)
            f, o = (a, b) if fa else (b, a)
            if isinstance(o, FDV):
                if kind_of(a, st) == 'str' and kind_of(b, st) == 'str' and op == 'Add':
                    return self.add_str(a, b)
                if a.var.name == b.var.name:
                    vals = [DEAD] * len(a.vals)
                    for i in st.live_of(a.var):
                        vals[i] = self.binop(op, a.vals[i], b.vals[i])
                    return st.norm(FDV(a.var, vals))
                return self.binop(op, st.split(a), b)
            if op == 'Add' and kind_of(f, st) == 'str' and kind_of(o, st) == 'str':
                return self.add_str(a, b)
            if isinstance(o, RAW) and all(isinstance(x, RAW) for i, x in enumerate(f.vals) if i in st.live_of(f.var)):
                return st.fdmap((lambda x: self.binop(op, x, o)) if fa else (lambda x: self.binop(op, o, x)), f)
            return self.binop(op, st.split(a), b) if fa else self.binop(op, a, st.split(b))
        if isinstance(a, RAW) and isinstance(b, RAW):
            if op in ('Pow', 'LShift') and isinstance(b, int) and abs(b) > 4096:
                self.undecided('large power')
            if op == 'Mult' and isinstance(a, (str, bytes)) and isinstance(b, int) and b > 100000:
                self.undecided('large repetition')
            return self.fold(self.PYOP[op], a, b)
        ka, kb = kind_of(a, st), kind_of(b, st)
        if isinstance(a, ExtO) or isinstance(b, ExtO):
            return self.exto_binop(op, a, b)
        if op == 'Add':
            if ka == 'str' and kb == 'str':
                return self.add_str(a, b)
            if ka in ('bytes', 'bytearray') and kb in ('bytes', 'bytearray'):
                r = bcat([a, b])
                return BArr(r) if ka == 'bytearray' else r
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, ListO) and isinstance(b, ListO):
                return ListO(a.items + b.items)
            if (ka == 'list' and isinstance(a, T)) or (kb == 'list' and isinstance(b, T)):
                if ka == 'list' and kb == 'list':
                    x = self.expand(a) if isinstance(a, T) else a
                    y = self.expand(b) if isinstance(b, T) else b
                    return ListO(x.items + y.items)
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, ListO) and isinstance(y, int):
                    return ListO(x.items * y)
                if isinstance(x, tuple) and isinstance(y, int):
                    return x * y
                if kind_of(x, st) == 'str' and isinstance(y, int):
                    return cat([x] * max(0, y))
                if kind_of(x, st) in ('bytes',) and isinstance(y, int):
                    return bcat([x] * max(0, y))
                if isinstance(x, (str, bytes)) and kind_of(y, st) == 'int':
                    return T('strop' if isinstance(x, str) else 'bytesop', ('repeat', x, y))
        if isinstance(a, SetO) and isinstance(b, SetO):
            return self.set_binop(op, a, b)
        if isinstance(a, DictO) and isinstance(b, DictO) and op == 'BitOr':
            d = DictO(a.pairs)
            for k, v in b.pairs:
                self.dict_set(d, k, v)
            return d
        num = ('int', 'float', 'bool')
        if (ka in num or ka is None) and (kb in num or kb is None) and (isinstance(a, T) or isinstance(b, T)):
            if ka in ('int', 'bool') and kb in ('int', 'bool'):
                if op == 'Add':
                    return add(a, b)
                if op == 'Sub':
                    return sub(a, b)
                if op == 'Mult':
                    if isinstance(a, int):
                        return lin(0, ((b, int(a)),))
                    if isinstance(b, int):
                        return lin(0, ((a, int(b)),))
                    return T('mul', self._ord(a, b))
                if op == 'Div':
                    if b == 0 and isinstance(b, int):
                        self.raise_('ZeroDivisionError', 'division by zero')
                    return T('float', ('Div', a, b))
                if op in ('FloorDiv', 'Mod') and isinstance(b, int) and b == 0:
                    self.raise_('ZeroDivisionError', 'division by zero')
                if op in ('LShift', 'RShift') and b == 0:
                    return a
                if op == 'FloorDiv' and b == 1:
                    return a
                return T('intop', (op, a, b))
            if ka is None or kb is None:
                return T('arith', (op, a, b))
            if op == 'Add' and a == 0:
                return b
            if op in ('Add', 'Sub') and b == 0:
                return a
            return T('float', (op, a, b))
        if ka is None or kb is None:
            if op == 'Add' and 'str' in (ka, kb):
                return cat([a, b]) if isinstance(a, (str, T)) and isinstance(b, (str, T)) else self._typeerr(op, a, b)
            if isinstance(a, T) or isinstance(b, T):
                if not isinstance(a, (ListO, SetO, DictO, Inst, tuple)) and not isinstance(b, (ListO, SetO, DictO, Inst, tuple)):
                    return T('arith', (op, a, b))
        self._typeerr(op, a, b)

    def _typeerr(self, op, a, b):
        self.raise_('TypeError', 'unsupported operand type(s) for %s: %s and %s' % (op, kind_of(a), kind_of(b)))

    def resolve(self, v):
        r = self.st.rep(v)
        return r

    def add_str(self, a, b):
        return cat(cat_parts(a) + cat_parts(b))

    def set_binop(self, op, a, b):
        if op == 'BitAnd':
            return SetO([x for x in a.items if self.truth(self.contains(b, x))], a.frozen)
        if op == 'BitOr':
            r = SetO(list(a.items), a.frozen)
            for x in b.items:
                self.set_add(r, x)
            return r
        if op == 'Sub':
            return SetO([x for x in a.items if not self.truth(self.contains(b, x))], a.frozen)
        if op == 'BitXor':
            return SetO([x for x in a.items if not self.truth(self.contains(b, x))] +
                        [x for x in b.items if not self.truth(self.contains(a, x))], a.frozen)
        self._typeerr(op, a, b)

    def augop(self, op, a, b):
        st = self.st
        a = st.norm(a)
        if isinstance(a, T) and a in st.expand:
            a = st.expand[a]
        if isinstance(a, ListO) and op == 'Add':
            st.event('mutate', obj=a, name='iadd')
            a.items += list(self.iterate(b))
            return a
        if isinstance(a, BArr) and op == 'Add':
            st.event('mutate', obj=a, name='iadd')
            a.content = bcat([a.content, b])
            return a
        if isinstance(a, SetO) and op in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and not a.frozen:
            r = self.set_binop(op, a, b)
            st.event('mutate', obj=a, name='isetop')
            a.items[:] = r.items
            return a
        if isinstance(a, DictO) and op == 'BitOr':
            st.event('mutate', obj=a, name='ior')
            for k, v in self.dict_items(b):
                self.dict_set(a, k, v)
            return a
        im = {'Add': '__iadd__', 'Sub': '__isub__', 'BitAnd': '__iand__', 'BitOr': '__ior__'}.get(op)
        if im:
            m = self._user(a, im)
            if m is not None:
                return self.call(m, [a, b])
        return self.binop(op, a, b)

    def unop(self, op, v):
        st = self.st
        v = st.norm(v)
        if isinstance(v, FDV):
            if all(isinstance(x, RAW) for i, x in enumerate(v.vals) if i in st.live_of(v.var)):
                return st.fdmap(lambda x: self.unop(op, x), v)
            v = st.split(v)
        name = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op]
        m = self._user(v, name)
        if m is not None:
            return self.call(m, [v])
        if isinstance(v, EnumV) and self._int_enum(v.cls):
            v = v.value
        if isinstance(v, RAW):
            return self.fold({'USub': lambda x: -x, 'UAdd': lambda x: +x, 'Invert': lambda x: ~x}[op], v)
        if isinstance(v, T):
            k = kind_of(v, st)
            if k == 'int' or k == 'bool':
                if op == 'USub':
                    return lin(0, ((v, -1),))
                if op == 'UAdd':
                    return v
                return sub(-1, v)
            if k == 'float':
                return T('float', (op, v)) if op == 'USub' else v
            if k is None:
                return T('arith', (op, v))
        if isinstance(v, ExtO):
            return self.exto_unop(op, v)
        self.raise_('TypeError', 'bad operand type for unary %s: %s' % (op, kind_of(v)))

    # -- text -----------------------------------------------------------------------------------------------------
    def str_(self, v):
        st = self.st
        v = st.norm(v)
        if isinstance(v, str):
            return v
        if isinstance(v, RAW):
            return str(v)
        if isinstance(v, FDV):
            if all(isinstance(x, RAW) for i, x in enumerate(v.vals) if i in st.live_of(v.var)):
                return st.fdmap(str, v)
            if all(self._user(x, '__str__') is None for i, x in enumerate(v.vals) if i in st.live_of(v.var)):
                return st.fdmap(lambda x: self.str_(x), v)
            return self.str_(st.split(v))
        if isinstance(v, T):
            r = st.rep(v)
            if not isinstance(r, T):
                return self.str_(r)
            if kind_of(v, st) == 'str':
                return v
            return T('str', (v,))
        if isinstance(v, EnumV):
            m = self._user(v, '__str__')
            if m is not None:
                return self.call(m, [v])
            if self._int_enum(v.cls):
                return str(v.value)
            return '%s.%s' % (v.cls.name, v.name)
        if isinstance(v, Inst):
            m = self._user(v, '__str__')
            if m is not None:
                r = self.call(m, [v])
                if kind_of(r, st) not in ('str', None):
                    self.raise_('TypeError', '__str__ returned non-string')
                return r
            return self.exc_or_repr(v)
        if isinstance(v, ExtO) and v.kind == 'path':
            return self.str_(v.data['p'])
        if isinstance(v, ExtO) and v.kind == 'rsa':
            return 'RSA key'        # str() shows kind and address only, repr() all numbers
        return self.repr_(v)

    def exc_or_repr(self, v):
        if isinstance(v, Inst) and (not isinstance(v.cls, ClassV) or self.is_exc(v.cls)):
            a = v.attrs.get('args', ())
            if len(a) == 0:
                return ''
            if len(a) == 1:
                return self.str_(a[0])
            return self.repr_(a)
        return self.repr_(v)

    def repr_(self, v):
        st = self.st
        v = st.norm(v)
        if isinstance(v, RAW):
            return repr(v)
        if isinstance(v, FDV):
            if all(isinstance(x, RAW) for i, x in enumerate(v.vals) if i in st.live_of(v.var)):
                return st.fdmap(repr, v)
            return self.repr_(st.split(v))
        if isinstance(v, T):
            k = kind_of(v, st)
            if k == 'int':
                return T('str', (v,))
            return T('repr', (v,))
        if isinstance(v, EnumV):
            m = self._user(v, '__repr__')
            if m is not None:
                return self.call(m, [v])
            return '<%s.%s: %r>' % (v.cls.name, v.name, v.value)
        if isinstance(v, Inst):
            m = self._user(v, '__repr__')
            if m is not None:
                return self.call(m, [v])
            if isinstance(v.cls, ClassV) and not self.is_exc(v.cls):
                return '<%s object>' % v.cls.name
            return cat([self.exc_name(v), self.repr_(v.attrs.get('args', ()))])
        if isinstance(v, (tuple, ListO, SetO)):
            items = list(v) if isinstance(v, tuple) else v.items
            o, c = ('(', ')') if isinstance(v, tuple) else (('[', ']') if isinstance(v, ListO) else ('{', '}'))
            parts = [o]
            for i, x in enumerate(items):
                if i:
                    parts.append(', ')
                parts.append(self.repr_(x))
            if isinstance(v, tuple) and len(v) == 1:
                parts.append(',')
            return cat(parts + [c])
        if isinstance(v, DictO):
            parts = ['{']
            for i, (k, x) in enumerate(v.pairs):
                if i:
                    parts.append(', ')
                parts += [self.repr_(k), ': ', self.repr_(x)]
            return cat(parts + ['}'])
        if isinstance(v, BArr):
            return cat(['bytearray(', self.repr_(v.content), ')'])
        if isinstance(v, ExtO) and v.kind == 'instdict':
            d = DictO()
            d.pairs = [[k, x] for k, x in v.data['inst'].attrs.items()]
            return self.repr_(d)
        if isinstance(v, ClassV):
            return "<class '%s'>" % v.qual
        if isinstance(v, BuiltinV):
            return "<class '%s'>" % v.name
        return T('repr', (v,))

    def format_(self, v, spec):
        st = self.st
        v = st.norm(v)
        if spec == '' or spec is None:
            return self.str_(v)
        if isinstance(v, FDV):
            v = st.split(v)
        if isinstance(v, EnumV) and self._int_enum(v.cls):
            v = v.value
        if isinstance(v, RAW) and isinstance(spec, str):
            return self.fold(format, v, spec)
        if isinstance(v, T) and spec == 'd' and kind_of(v, st) in ('int', None):
            return T('str', (v,))
        if isinstance(v, T) and spec == 's':
            return self.str_(v)
        return T('fmt', (spec, v))

    def percent(self, fmt, arg):
        st = self.st
        if isinstance(fmt, FDV):
            fmt = st.split(fmt)
        if not isinstance(fmt, str):
            return T('strop', ('%', fmt, arg if not isinstance(arg, (ListO, DictO)) else self.repr_(arg)))
        out = []
        i, n = 0, len(fmt)
        pos = 0
        args = list(arg) if isinstance(arg, tuple) else [arg]
        used_map = False
        while i < n:
            j = fmt.find('%', i)
            if j < 0:
                out.append(fmt[i:])
                break
            out.append(fmt[i:j])
            j += 1
            key = None
            if j < n and fmt[j] == '(':
                e = fmt.index(')', j)
                key = fmt[j + 1:e]
                j = e + 1
            k = j
            while k < n and fmt[k] in '#0- +.123456789*hlL':
                k += 1
            if k >= n:
                self.raise_('ValueError', 'incomplete format')
            flags, code = fmt[j:k], fmt[k]
            i = k + 1
            if code == '%':
                out.append('%')
                continue
            if key is not None:
                used_map = True
                v = self.getitem(arg, key)
            else:
                if pos >= len(args):
                    self.raise_('TypeError', 'not enough arguments for format string')
                v = args[pos]
                pos += 1
            out.append(self._percent1(flags, code, v))
        if not used_map and pos < len(args) and not isinstance(arg, DictO) and \
                not (isinstance(arg, T) and kind_of(arg, st) is None and pos == 0 and False):
            self.raise_('TypeError', 'not all arguments converted during string formatting')
        return cat(out)

    def _percent1(self, flags, code, v):
        st = self.st
        v = st.norm(v)
        if code in 'sra':
            s = self.str_(v) if code == 's' else self.repr_(v)
            if not flags:
                return s
            if isinstance(s, str):
                return self.fold(lambda: ('%' + flags + code) % (s,))
            return T('fmt', ('%' + flags + code, s))
        if isinstance(v, FDV):
            v = st.split(v)
        if isinstance(v, EnumV) and self._int_enum(v.cls):
            v = v.value
        if isinstance(v, T):
            v = st.rep(v)
        if isinstance(v, RAW):
            return self.fold(lambda: ('%' + flags + code) % (v,))
        k = kind_of(v, st)
        if k is not None and k not in ('int', 'float', 'bool') and not (code == 'c' and k == 'str'):
            self.raise_('TypeError', '%%%s format: a real number is required, not %s' % (code, k))
        if code in 'di' and not flags and k in ('int', None):
            return T('str', (v,))
        return T('fmt', ('%' + flags + code, v))

    def str_format(self, fmt, args, kwargs):
        if not isinstance(fmt, str):
            if isinstance(fmt, FDV):
                fmt = self.st.split(fmt)
            else:
                return T('strop', ('format', fmt) + tuple(args))
        out = []
        auto = 0
        try:
            toks = list(_string.Formatter().parse(fmt))
        except ValueError as e:
            self.raise_('ValueError', str(e))
        for lit, field, spec, conv in toks:
            if lit:
                out.append(lit)
            if field is None:
                continue
            import _string as _s
            first, rest = _s.formatter_field_name_split(field)
            if first == '':
                first = auto
                auto += 1
            if isinstance(first, int):
                if first >= len(args):
                    self.raise_('IndexError', 'Replacement index out of range')
                v = args[first]
            else:
                if first not in kwargs:
                    self.raise_('KeyError', first)
                v = kwargs[first]
            for isattr, k in rest:
                v = self.getattr(v, k) if isattr else self.getitem(v, k)
            if conv == 'r':
                v = self.repr_(v)
            elif conv == 's':
                v = self.str_(v)
            if spec and '{' in spec:
                spec = self.str_format(spec, args[auto:], kwargs)
            out.append(self.format_(v, spec or ''))
        return cat(out)

    # -- types ----------------------------------------------------------------------------------------------------
    def type_of(self, v):
        st = self.st
        v = st.norm(v)
        if isinstance(v, FDV):
            return st.fdmap(self.type_of, v)
        if isinstance(v, (Inst, EnumV)):
            return v.cls
        if isinstance(v, T):
            k = kind_of(v, st)
            if k is None or k not in KIND_TYPES:
                return T('type', (v,))
            return BuiltinV('NoneType' if k == 'none' else k)
        if isinstance(v, ClassV):
            return BuiltinV('type')
        if isinstance(v, SetO):
            return BuiltinV('frozenset' if v.frozen else 'set')
        k = kind_of(v)
        if k in KIND_TYPES:
            return BuiltinV('NoneType' if k == 'none' else k)
        return ExtV('types.' + type(v).__name__)

    ABCS = {'Iterable': ('list', 'set', 'dict', 'tuple', 'str', 'bytes', 'bytearray'),
            'Sequence': ('list', 'tuple', 'str', 'bytes', 'bytearray'), 'MutableSequence': ('list', 'bytearray'),
            'Mapping': ('dict',), 'MutableMapping': ('dict',), 'Set': ('set',), 'MutableSet': ('set',),
            'Collection': ('list', 'set', 'dict', 'tuple', 'str', 'bytes', 'bytearray'),
            'Sized': ('list', 'set', 'dict', 'tuple', 'str', 'bytes', 'bytearray'),
            'Container': ('list', 'set', 'dict', 'tuple', 'str', 'bytes', 'bytearray'),
            'Hashable': ('int', 'float', 'str', 'bytes', 'tuple', 'bool', 'none'),
            'Number': ('int', 'float', 'bool'), 'Real': ('int', 'float', 'bool'), 'Integral': ('int', 'bool'),
            'Rational': ('int', 'bool'), 'Iterator': (), 'Callable': (), 'ByteString': ('bytes', 'bytearray')}

    def isinstance_(self, v, cls):
        st = self.st
        v = st.norm(v)
        if isinstance(cls, tuple):
            if isinstance(v, FDV):
                return st.fdmap(lambda x: any(self.truth(self.isinstance_(x, c)) for c in cls), v)
            r = [self.isinstance_(v, c) for c in cls]
            if any(x is True for x in r):
                return True
            return any(self.truth(x) for x in r)
        if isinstance(cls, ExtO) and cls.kind == 'union':
            return self.isinstance_(v, tuple(cls.data['types']))
        if isinstance(v, FDV):
            return st.fdmap(lambda x: self.isinstance_(x, cls), v)
        if isinstance(cls, ClassV):
            if isinstance(v, (Inst, EnumV)) and isinstance(v.cls, ClassV):
                return cls in v.cls.mro
            if isinstance(v, T):
                r = st.rep(v)
                if not isinstance(r, T):
                    return self.isinstance_(r, cls)
                k = kind_of(v, st)
                if k is not None and k not in ('inst', 'enum', 'obj'):
                    return False
                t = T('isa', (v, cls))
                kn = st.known(t)
                return t if kn is None else kn
            return False
        if isinstance(cls, BuiltinV):
            n = cls.name
            if n == 'object':
                return True
            if isinstance(v, Inst):
                if n in _EXC:
                    return any(c == cls for c in self.exc_classes(v)) if (
                        not isinstance(v.cls, ClassV) or self.is_exc(v.cls)) else False
                if isinstance(v.cls, ClassV):
                    if '_fields' in v.cls.dict and n == 'tuple':
                        return True
                    return any(isinstance(b, BuiltinV) and (b.name == n) for b in v.cls.ext_bases())
                return False
            if isinstance(v, EnumV):
                return (n == 'int' and self._int_enum(v.cls)) or \
                    any(isinstance(b, BuiltinV) and b.name == n for b in v.cls.ext_bases())
            if n == 'type':
                return isinstance(v, (ClassV, BuiltinV))
            if isinstance(v, SetO):
                return n == ('frozenset' if v.frozen else 'set')
            k = kind_of(v, st)
            if isinstance(v, T) and k is None:
                r = st.rep(v)
                if not isinstance(r, T):
                    return self.isinstance_(r, cls)
                if n not in KIND_TYPES:
                    return False
                t = T('isa', (v, cls))
                kn = st.known(t)
                if kn is None:
                    kn = st.decide(t)
                if kn:
                    st.kinds[v] = n
                return kn
            if n == 'int':
                return k in ('int', 'bool')
            if n == 'NoneType':
                return k == 'none'
            return k == n
        if isinstance(cls, ExtV):
            last = cls.path.split('.')[-1]
            if last == 'NoneType':
                return kind_of(v, st) == 'none'
            if last in self.ABCS and cls.path.split('.')[0] in ('collections', 'numbers', 'typing'):
                k = kind_of(v, st)
                if k is None:
                    self.undecided('isinstance of unknown value')
                if last == 'Callable':
                    return isinstance(v, (FuncV, BoundV, BMeth, ClassV, BuiltinV, ExtV))
                if k == 'inst':
                    return last == 'Iterable' and self._user(v, '__iter__') is not None
                return k in self.ABCS[last]
            if isinstance(v, Inst):
                return any(c == cls for c in self.exc_classes(v))
            if isinstance(v, EnumV):
                return any(b == cls for b in v.cls.ext_bases()) or cls.path in ('enum.Enum',)
            if isinstance(v, ExtO):
                return self.exto_isinstance(v, cls)
            if isinstance(v, T):
                k = kind_of(v, st)
                if k in KIND_TYPES:
                    return False
                t = T('isa', (v, cls))
                kn = st.known(t)
                return t if kn is None else kn
            return False
        if isinstance(cls, T):
            t = T('isa', (v, cls))
            return t
        self.raise_('TypeError', 'isinstance() arg 2 must be a type')

    def issubclass_(self, a, b):
        if isinstance(b, tuple):
            return any(self.issubclass_(a, x) for x in b)
        if isinstance(a, ClassV):
            if isinstance(b, ClassV):
                return b in a.mro
            if isinstance(b, BuiltinV) and b.name == 'object':
                return True
            for e in a.ext_bases():
                if e == b or (isinstance(e, BuiltinV) and isinstance(b, BuiltinV) and exc_sub(e.name, b.name)):
                    return True
            return False
        if isinstance(a, BuiltinV) and isinstance(b, BuiltinV):
            x, y = getattr(_bi, a.name, None), getattr(_bi, b.name, None)
            return isinstance(x, type) and isinstance(y, type) and issubclass(x, y)
        return a == b

    # -- classes --------------------------------------------------------------------------------------------------
    def finish_class(self, cls):
        enum = None
        for b in cls.bases:
            if isinstance(b, ClassV) and b.enum:
                enum = b.enum
            elif isinstance(b, ExtV) and b.path.startswith('enum.'):
                enum = b.path.split('.')[1]
        if enum in ('Enum', 'IntEnum', 'Flag', 'IntFlag', 'StrEnum'):
            cls.enum = enum
            if any(isinstance(b, BuiltinV) and b.name == 'int' for b in cls.bases):
                cls.enum = 'IntEnum'
            members = {}
            for b in cls.mro[1:]:
                if b.members:
                    members.update(b.members)
            last = 0
            for n, v in list(cls.dict.items()):
                if n.startswith('_') or isinstance(v, (FuncV, Wrap, ClassV)) or \
                        (isinstance(v, ExtO) and v.kind in ('lru', 'nonmember')):
                    continue
                if isinstance(v, ExtO) and v.kind == 'auto':
                    v = last + 1 if enum not in ('Flag', 'IntFlag') else (1 if not last else last * 2)
                    if enum == 'StrEnum':
                        v = n.lower()
                if isinstance(v, int):
                    last = v
                m = None
                for e in members.values():
                    if ckey(e.value) == ckey(v):
                        m = e
                if m is None:
                    m = EnumV(cls, n, v)
                members[n] = m
                cls.dict[n] = m
            cls.members = members if members else None
            if cls.members is None and not any(isinstance(b, ClassV) and b.members for b in cls.bases):
                cls.members = None
        self.finish_orm(cls)
        for b in cls.bases:
            if isinstance(b, ExtV) and b.path in ('typing.NamedTuple',):
                cls.dict['_fields'] = tuple(cls.dict.get('__annotations_order__', []))
            if isinstance(b, ClassV):
                m, _ = b.lookup('__init_subclass__')
                if m is not None:
                    self.call(m.func if isinstance(m, Wrap) else m, [cls])

    def apply_decorator(self, d, v):
        if isinstance(d, BuiltinV):
            if d.name == 'property':
                return Wrap('property', v)
            if d.name == 'staticmethod':
                return Wrap('static', v)
            if d.name == 'classmethod':
                return Wrap('class', v)
        if isinstance(d, BMeth) and isinstance(d.obj, Wrap) and d.obj.kind == 'property':
            if d.name == 'setter':
                return Wrap('property', d.obj.func, v)
            if d.name in ('getter',):
                return Wrap('property', v, d.obj.fset)
            return d.obj
        if isinstance(d, ExtV):
            p = d.path
            if p == 'enum.unique':
                seen = []
                for n, m in (v.members or {}).items():
                    if n != m.name:
                        self.raise_('ValueError', 'duplicate values found')
                return v
            if p in ('functools.lru_cache', 'functools.cache'):
                return ExtO('lru', func=v, cache=[])
            if p == 'functools.cached_property':
                return Wrap('cached', v)
            if p == 'functools.total_ordering':
                self._total_ordering(v)
                return v
            if p in ('dataclasses.dataclass',):
                return self.make_dataclass(v, {})
            if p == 'contextlib.contextmanager':
                return ExtO('ctxmaker', func=v)
            if p in ('abc.abstractmethod', 'typing.overload', 'typing.final', 'abc.abstractproperty', 'typing.no_type_check'):
                return v
            if p == 'functools.singledispatch':
                return ExtO('singledispatch', func=v, reg=[])
            if p == 'functools.singledispatchmethod':
                return ExtO('singledispatch', func=v, reg=[], method=True)
        if isinstance(d, ExtO) and d.kind == 'decorator':
            return d.data['apply'](v)
        return self.call(d, [v])

    def _total_ordering(self, cls):
        # expressed through the defined comparison
        if '__lt__' in cls.dict:
            lt = cls.dict['__lt__']
            I = self
            cls.dict.setdefault('__gt__', ExtO('pyfunc', f=lambda a: not I.truth(I.call(lt, [a[0], a[1]])) and not I.truth(I.eq(a[0], a[1]))))
            cls.dict.setdefault('__le__', ExtO('pyfunc', f=lambda a: I.truth(I.call(lt, [a[0], a[1]])) or I.truth(I.eq(a[0], a[1]))))
            cls.dict.setdefault('__ge__', ExtO('pyfunc', f=lambda a: not I.truth(I.call(lt, [a[0], a[1]]))))

    def make_dataclass(self, cls, kw):
        fields = []
        for c in reversed(cls.mro):
            for n in c.dict.get('__annotations_order__', []):
                if n not in fields:
                    fields.append(n)
        cls.dataclass = fields
        if kw.get('frozen') is True:
            cls.dict['__frozen__'] = True
        return cls

    def instantiate(self, cls, args, kwargs):
        st = self.st
        if cls.enum and (cls.members is not None):
            return self.enum_by_value(cls, args[0] if args else kwargs.get('value'))
        m, c = cls.lookup('__new__')
        if m is not None:
            f = m.func if isinstance(m, Wrap) else m
            o = self.call(f, [cls] + list(args), kwargs)
            if isinstance(o, Inst) and isinstance(o.cls, ClassV) and cls in o.cls.mro:
                i, _ = cls.lookup('__init__')
                if i is not None:
                    self.call(i, [o] + list(args), kwargs)
            return o
        o = Inst(cls)
        exc = self.is_exc(cls)
        if exc:
            o.attrs['args'] = tuple(args)
        i, c = cls.lookup('__init__')
        if cls.orm and i is None:
            return self.orm_new(cls, o, args, kwargs)
        if i is not None:
            self.call(i, [o] + list(args), kwargs)
            return o
        if '_fields' in cls.dict:
            fs = cls.dict['_fields']
            dv = cls.dict.get('_field_defaults', {})
            for k, f in enumerate(fs):
                if k < len(args):
                    o.attrs[f] = args[k]
                elif f in kwargs:
                    o.attrs[f] = kwargs[f]
                elif f in cls.dict:
                    o.attrs[f] = cls.dict[f]
                elif f in dv:
                    o.attrs[f] = dv[f]
                else:
                    self.raise_('TypeError', 'missing argument ' + f)
            if len(args) > len(fs) or set(kwargs) - set(fs):
                self.raise_('TypeError', 'unexpected argument')
            return o
        if cls.dataclass:
            fs = cls.dataclass
            for k, f in enumerate(fs):
                if k < len(args):
                    o.attrs[f] = args[k]
                elif f in kwargs:
                    o.attrs[f] = kwargs[f]
                else:
                    d, dc = cls.lookup(f)
                    if dc is None:
                        self.raise_('TypeError', 'missing argument ' + f)
                    if isinstance(d, ExtO) and d.kind == 'field':
                        if 'factory' in d.data:
                            d = self.call(d.data['factory'], [])
                        else:
                            d = d.data['default']
                    o.attrs[f] = d
            if len(args) > len(fs) or set(kwargs) - set(fs):
                self.raise_('TypeError', 'unexpected argument')
            p, _ = cls.lookup('__post_init__')
            if p is not None:
                self.call(p, [o])
            return o
        if exc:
            return o
        eb = [b for b in cls.ext_bases() if not (isinstance(b, ExtV) and b.path in (
            'abc.ABC', 'enum.Enum', 'typing.Generic', 'typing.Protocol')) and not isinstance(b, ExtO)]
        if not eb:
            if args or kwargs:
                self.raise_('TypeError', '%s() takes no arguments' % cls.name)
            return o
        return self.inst_ext(cls, o, args, kwargs)

    def enum_by_value(self, cls, v):
        st = self.st
        v = st.norm(v)
        if isinstance(v, EnumV) and v.cls is cls:
            return v
        if isinstance(v, FDV):
            if any(isinstance(x, EnumV) for i, x in enumerate(v.vals) if i in st.live_of(v.var)):
                return self.enum_by_value(cls, st.split(v))

            def f(x):
                for m in cls.members.values():
                    if m.value == x:
                        return m
                self.raise_('ValueError', '%r is not a valid %s' % (x, cls.name))
            return st.fdmap(f, v)
        for m in cls.members.values():
            if self.truth(self.eq(m.value, v)):
                return m
        mm, _ = cls.lookup('_missing_')
        if mm is not None:
            r = self.call(mm.func if isinstance(mm, Wrap) else mm, [cls, v] if isinstance(mm, Wrap) and mm.kind == 'class' else [v])
            if r is not None:
                return r
        self.raise_('ValueError', '%s is not a valid %s' % (show(v), cls.name))
