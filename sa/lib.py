"""Transfer functions for built-in functions and for the methods of built-in types."""
import struct as _struct

from .core import *
from .ops import FoldError, conc, absv, KIND_TYPES, MUTATORS, _EXC
from .ext import Ext


def is_raw(v):
    return isinstance(v, RAW)


class Lib(Ext):
    # -- context managers -----------------------------------------------------------------------------------------
    def enter(self, cm):
        if isinstance(cm, Inst):
            m = self._user(cm, '__enter__')
            if m is not None:
                return self.call(m, [cm])
            self.raise_('TypeError', 'object does not support the context manager protocol')
        if isinstance(cm, ExtO):
            return self.exto_enter(cm)
        if isinstance(cm, T):
            return cm
        self.raise_('TypeError', 'object does not support the context manager protocol')

    def exit(self, cm, exc):
        if isinstance(cm, Inst):
            m = self._user(cm, '__exit__')
            a = [cm, None, None, None] if exc is None else [cm, exc.cls if isinstance(exc, Inst) else None, exc, None]
            return self.truth(self.call(m, a)) if m is not None else False
        if isinstance(cm, ExtO):
            return self.exto_exit(cm, exc)
        return False

    # -- lengths --------------------------------------------------------------------------------------------------
    def nf(self, v):
        """Linear term with the facts of the path substituted."""
        st = self.st
        if not isinstance(v, T):
            return v
        c, ts = as_lin(v)
        out = []
        for t, k in ts:
            r = st.rep(t)
            if isinstance(r, T) and r.op in ('blen', 'len'):
                a = st.rep(r.args[0])
                if isinstance(a, (str, bytes)):
                    r = len(a.encode('utf-8')) if r.op == 'blen' and isinstance(a, str) else len(a)
                elif ckey(a) != ckey(r.args[0]) and isinstance(a, T):
                    r = T(r.op, (a,))
            out.append((r, k))
        return lin(c, out)

    def blen(self, v):
        """Length of a byte string."""
        st = self.st
        total = []
        for p in bcat_parts(v):
            if isinstance(p, bytes):
                total.append((len(p), 1))
                continue
            p = st.rep(p)
            if isinstance(p, bytes):
                total.append((len(p), 1))
            elif isinstance(p, T):
                total.append((self.blen1(p), 1))
            else:
                self.undecided('length of %s' % show(p))
        return self.nf(lin(0, total))

    def blen1(self, p):
        if p.op == 'bcat':
            return self.blen(p)
        if p.op == 'pack':
            return self.code_size(p.args[0])
        if p.op == 'digest':
            return p.args[1] if len(p.args) > 1 else 32
        if p.op == 'pad':
            return p.args[1]
        if p.op == 'utf8':
            return self.ulen(p.args[0])
        if p.op == 'bslice' and p.args[1] is not None and p.args[2] is not None:
            return sub(p.args[2], p.args[1])
        if p.op == 'bytesop' and p.args[0] == 'repeat' and isinstance(p.args[1], bytes):
            return lin(0, ((p.args[2], len(p.args[1])),))
        return T('len', (p,))

    def ulen(self, s):
        """Number of UTF-8 bytes of a text."""
        tot = []
        for q in cat_parts(s):
            if isinstance(q, str):
                tot.append((len(q.encode('utf-8')), 1))
                continue
            if isinstance(q, FDV):
                r = self.st.fdmap(lambda x: len(x.encode('utf-8')), q)
                if isinstance(r, FDV):
                    r = self.st.split(r)
                tot.append((r, 1))
                continue
            q = self.st.rep(q)
            if isinstance(q, str):
                tot.append((len(q.encode('utf-8')), 1))
            elif isinstance(q, T) and q.op == 'dec' and isinstance(q.args[0], T) and q.args[0].op == 'b64':
                tot.append((T('len', (q.args[0],)), 1))
            else:
                tot.append((T('blen', (q,)), 1))
        return lin(0, tot)

    def slen(self, v):
        """Length of a text."""
        st = self.st
        if isinstance(v, str):
            return len(v)
        tot = []
        for q in cat_parts(v):
            if isinstance(q, str):
                tot.append((len(q), 1))
            elif isinstance(q, FDV):
                r = st.fdmap(len, q)
                if isinstance(r, FDV):
                    r = st.split(r)
                tot.append((r, 1))
            else:
                q = st.rep(q)
                if isinstance(q, str):
                    tot.append((len(q), 1))
                elif isinstance(q, T) and q.op == 'dec' and isinstance(q.args[0], T) and q.args[0].op == 'b64':
                    tot.append((T('len', (q.args[0],)), 1))
                else:
                    tot.append((T('len', (q,)), 1))
        return self.nf(lin(0, tot))

    def len_(self, v):
        st = self.st
        v = st.norm(v)
        if isinstance(v, FDV):
            if kind_of(v, st) == 'str':
                return st.fdmap(len, v)
            v = st.split(v)
        if isinstance(v, T):
            v = st.rep(v)
        if isinstance(v, (str, bytes, tuple)):
            return len(v)
        if isinstance(v, ListO):
            return len(v.items)
        if isinstance(v, SetO):
            return len(self.set_dedupe(v))
        if isinstance(v, DictO):
            return len(v.pairs)
        if isinstance(v, BArr):
            return self.blen(v.content)
        if isinstance(v, Inst):
            m = self._user(v, '__len__')
            if m is not None:
                return self.call(m, [v])
            if isinstance(v.cls, ClassV) and '_fields' in v.cls.dict:
                return len(v.cls.dict['_fields'])
            self.raise_('TypeError', 'object has no len()')
        if isinstance(v, ClassV) and v.members is not None:
            return len(list(self.iterate(v)))
        if isinstance(v, T):
            k = kind_of(v, st)
            if k == 'str':
                return self.slen(v)
            if k == 'bytes':
                return self.blen(v)
            if k in ('int', 'float', 'bool', 'none'):
                self.raise_('TypeError', "object of type '%s' has no len()" % k)
            return len(self.expand(v).items)
        if isinstance(v, ExtO):
            return self.exto_len(v)
        if isinstance(v, IterO) or v is None or isinstance(v, (int, float)):
            self.raise_('TypeError', "object of type '%s' has no len()" % kind_of(v))
        self.undecided('len of %s' % show(v))

    # -- built-in functions ---------------------------------------------------------------------------------------
    def call_builtin(self, name, args, kwargs):
        f = getattr(self, 'b_' + name, None)
        if f is not None:
            return f(*args, **kwargs)
        if name in _EXC:
            return Inst(BuiltinV(name), {'args': tuple(args)})
        self.undecided('built-in %s' % name)

    def b_len(self, v):
        return self.len_(v)

    def b_isinstance(self, v, c):
        return self.isinstance_(v, c)

    def b_issubclass(self, a, b):
        return self.issubclass_(a, b)

    def b_repr(self, v):
        return self.repr_(v)

    b_ascii = b_repr

    def b_str(self, v='', encoding=None, errors=None):
        if encoding is not None:
            return self.decode_bytes(v, encoding, errors or 'strict')
        return self.str_(v)

    def b_bytes(self, v=b'', encoding=None, errors=None):
        st = self.st
        v = st.norm(v)
        if encoding is not None or isinstance(v, str) or kind_of(v, st) == 'str':
            if encoding is None:
                self.raise_('TypeError', 'string argument without an encoding')
            return self.encode_str(v, encoding, errors or 'strict')
        if isinstance(v, BArr):
            return v.content
        if isinstance(v, bytes):
            return v
        if isinstance(v, bool) or isinstance(v, int):
            return self.fold(bytes, v)
        if isinstance(v, T):
            k = kind_of(v, st)
            if k == 'bytes' or k is None:
                return v
            if k == 'int':
                return T('bytesop', ('repeat', b'\0', v))
            self.raise_('TypeError', 'cannot convert to bytes')
        if isinstance(v, Inst):
            m = self._user(v, '__bytes__')
            if m is not None:
                return self.call(m, [v])
        if isinstance(v, (ListO, tuple, IterO)):
            items = list(self.iterate(v))
            return self.bytes_of(items)
        self.raise_('TypeError', 'cannot convert %s to bytes' % kind_of(v))

    def bytes_of(self, items):
        out = []
        for x in items:
            x = self.st.norm(x)
            if isinstance(x, T):
                x = self.st.rep(x)
            if isinstance(x, T) or isinstance(x, FDV):
                out.append(T('pack', ('B', x)))
            else:
                out.append(self.fold(lambda: bytes([x])))
        return bcat(out)

    def b_bytearray(self, v=b'', encoding=None, errors=None):
        return BArr(self.b_bytes(v, encoding, errors))

    def b_memoryview(self, v):
        return self.b_bytes(v)

    def b_bool(self, v=False):
        v = self.st.norm(v)
        if isinstance(v, T) and v.op in BOOL_OPS:
            return v
        if isinstance(v, FDV) and all(is_raw(x) for i, x in enumerate(v.vals) if i in self.st.live_of(v.var)):
            return self.st.fdmap(bool, v)
        return self.truth(v)

    def b_int(self, v=0, base=None):
        st = self.st
        v = st.norm(v)
        if isinstance(v, T):
            v = st.rep(v)
        if isinstance(v, EnumV) and self._int_enum(v.cls):
            return v.value
        if isinstance(v, FDV):
            if all(is_raw(x) for i, x in enumerate(v.vals) if i in st.live_of(v.var)):
                return st.fdmap(lambda x: self.b_int(x, base), v)
            return self.b_int(st.split(v), base)
        if is_raw(v):
            if base is not None:
                b = self.raw(base)
                return self.fold(int, v, b)
            return self.fold(int, v)
        if isinstance(v, T):
            k = kind_of(v, st)
            if k in ('int', 'bool') and base is None:
                return v
            if k == 'float':
                return T('int', (v,))
            if k == 'none':
                self.raise_('TypeError', 'int() argument must not be None')
            if k == 'str':
                if v.op == 'str' and base in (None, 10) and kind_of(v.args[0], st) == 'int':
                    return v.args[0]
                ch = self._chars(v)
                if ch is not None:
                    return self.num_of(v, ch, 'int', base)
                if v.op == 'sym' and 'd' in v.args[2]:
                    return T('int', (v,) if base in (None, 10) else (v, base))
                if v.op == 'fmt' and isinstance(v.args[0], str) and v.args[0] in ('x', '%x', 'X', '%X', '#x') and base in (16, 0):
                    return v.args[1]
            if k == 'bytes' and base is None:
                pass
            if v.op not in ('conf', 'item'):
                if not st.decide(T('pred', ('intparse', v, base))):
                    self.raise_('ValueError', 'invalid literal for int()')
            return T('int', (v,) if base in (None, 10) else (v, base))
        if isinstance(v, Inst):
            m = self._user(v, '__int__') or self._user(v, '__index__')
            if m is not None:
                return self.call(m, [v])
        self.raise_('TypeError', "int() argument must be a string or a number, not '%s'" % kind_of(v))

    def num_of(self, v, ch, which, base=None):
        """int()/float() of a text of known length over finite character sets."""
        st = self.st
        ok = True
        dots = 0
        for i, c in enumerate(ch):
            c = st.norm(c)
            if isinstance(c, FDV):
                r = st.split(c, lambda x: x.isdecimal())
                d = r.isdecimal()
                c2 = r
            else:
                d = c.isdecimal()
                c2 = c
            if d:
                continue
            if i == 0 and c2 == '-' and len(ch) > 1 and st.norm(c) == '-':
                continue
            if which == 'float' and st.norm(c) == '.' and dots == 0 and 0 < i < len(ch) - 1:
                dots += 1
                continue
            ok = False
            break
        if ok and ch and (base is None or base == 10):
            v = cat([st.norm(c) for c in ch])
            if isinstance(v, str):
                return self.fold(int if which == 'int' else float, v)
            return T('int', (v,)) if which == 'int' else T('float', ('of', v))
        s = self.split_text(ch)
        if which == 'int':
            return self.fold(int, s, base) if base is not None else self.fold(int, s)
        return self.fold(float, s)

    def split_text(self, ch):
        return ''.join(self.st.split(self.st.norm(c)) for c in ch)

    def b_float(self, v=0.0):
        st = self.st
        v = st.norm(v)
        if isinstance(v, T):
            v = st.rep(v)
        if isinstance(v, FDV):
            if all(is_raw(x) for i, x in enumerate(v.vals) if i in st.live_of(v.var)):
                return st.fdmap(lambda x: self.fold(float, x), v)
            return self.b_float(st.split(v))
        if is_raw(v):
            return self.fold(float, v)
        if isinstance(v, T):
            k = kind_of(v, st)
            if k == 'float':
                return v
            if k == 'int':
                return T('float', ('ofint', v))
            if k == 'none':
                self.raise_('TypeError', 'float() argument must not be None')
            if k == 'str':
                ch = self._chars(v)
                if ch is not None:
                    return self.num_of(v, ch, 'float')
                if v.op == 'str' and kind_of(v.args[0], st) == 'float':
                    return v.args[0]
            if not st.decide(T('pred', ('floatparse', v))):
                self.raise_('ValueError', 'could not convert string to float')
            return T('float', ('of', v))
        self.raise_('TypeError', "float() argument must be a string or a number, not '%s'" % kind_of(v))

    def raw(self, v):
        """Concrete value of v (splitting finite domains), or Undecided."""
        v = self.st.norm(v)
        if isinstance(v, FDV):
            v = self.st.split(v)
        if isinstance(v, T):
            v = self.st.rep(v)
            if isinstance(v, T) and v.op == 'cat':
                ch = self._chars(v)
                if ch is not None:
                    return self.split_text(ch)
        if isinstance(v, EnumV) and self._int_enum(v.cls):
            return v.value
        if not is_raw(v):
            self.undecided('unknown value %s where a constant is needed' % show(v))
        return v

    def b_list(self, v=()):
        return ListO(self.iterate(v))

    def b_tuple(self, v=()):
        return tuple(self.iterate(v))

    def b_set(self, v=()):
        return self.make_set(list(self.iterate(v)))

    def b_frozenset(self, v=()):
        return self.make_set(list(self.iterate(v)), True)

    def b_dict(self, *a, **kw):
        d = DictO()
        if a:
            for k, v in self.dict_items(a[0]):
                self.dict_set(d, k, v)
        for k, v in kw.items():
            self.dict_set(d, k, v)
        return d

    def b_range(self, *a):
        a = [self.int_arg(x) for x in a]
        if any(isinstance(x, T) for x in a):
            if len(a) == 3 and a[2] != 1:
                self.undecided('range with unknown bound')
            for x in a:
                if kind_of(x, self.st) not in ('int', 'bool') if isinstance(x, T) else not isinstance(x, int):
                    self.undecided('range of something unknown')
            return ExtO('range', r=None, bounds=(0, a[0]) if len(a) == 1 else tuple(a[:2]))
        for x in a:
            if not isinstance(x, int):
                self.raise_('TypeError', 'range() needs integers')
        return ExtO('range', r=range(*a))

    def range_of(self, o):
        """The members of a range object (undecided unless known or few)."""
        if o.data['r'] is None:
            lo, hi = o.data['bounds']
            n = sub(hi, lo)
            for k in (0, 1, 2, 3):
                if self.truth(self.order('LtE', n, 0)) if k == 0 else self.truth(self.eq(n, k)):
                    if not isinstance(lo, int):
                        self.undecided('range with unknown start')
                    return range(lo, lo + k)
            self.undecided('range with unknown bound')
        if len(o.data['r']) > 5000:
            self.undecided('long range')
        return o.data['r']

    def int_arg(self, v):
        v = self.st.norm(v)
        if isinstance(v, FDV):
            v = self.st.split(v)
        if isinstance(v, T):
            v = self.nf(self.st.rep(v))
        if isinstance(v, EnumV) and self._int_enum(v.cls):
            v = v.value
        return v

    def b_enumerate(self, it, start=0):
        def g():
            i = start
            for x in self.iterate(it):
                yield (i, x)
                i = self.binop('Add', i, 1)
        return IterO(g())

    def b_zip(self, *its, **kw):
        gens = [self.iterate(x) for x in its]

        def g():
            if not gens:
                return
            while True:
                row = []
                for x in gens:
                    try:
                        row.append(next(x))
                    except StopIteration:
                        return
                yield tuple(row)
        return IterO(g())

    def b_map(self, f, *its):
        gens = [self.iterate(x) for x in its]

        def g():
            while True:
                row = []
                for x in gens:
                    try:
                        row.append(next(x))
                    except StopIteration:
                        return
                yield self.call(f, row)
        return IterO(g())

    def b_filter(self, f, it):
        def g():
            for x in self.iterate(it):
                if self.truth(x if f is None else self.call(f, [x])):
                    yield x
        return IterO(g())

    def b_any(self, it):
        for x in self.iterate(it):
            if self.truth(x):
                return True
        return False

    def b_all(self, it):
        for x in self.iterate(it):
            if not self.truth(x):
                return False
        return True

    def _minmax(self, a, kw, less):
        key = kw.get('key')
        items = list(self.iterate(a[0])) if len(a) == 1 else list(a)
        if not items:
            if 'default' in kw:
                return kw['default']
            self.raise_('ValueError', 'arg is an empty sequence')
        best = items[0]
        bk = self.call(key, [best]) if key is not None else best
        for x in items[1:]:
            k = self.call(key, [x]) if key is not None else x
            if self.truth(less(k, bk)):
                best, bk = x, k
        return best

    def b_min(self, *a, **kw):
        return self._minmax(a, kw, lambda x, y: self.compare('Lt', x, y))

    def b_max(self, *a, **kw):
        return self._minmax(a, kw, lambda x, y: self.compare('Gt', x, y))

    def b_sum(self, it, start=0):
        t = start
        for x in self.iterate(it):
            t = self.binop('Add', t, x)
        return t

    def b_sorted(self, it, key=None, reverse=False):
        items = list(self.iterate(it))
        return ListO(self.sort_items(items, key, self.truth(reverse)))

    def sort_items(self, items, key, rev):
        if isinstance(key, ExtO) and key.kind == 'cmpkey':
            f, less = key.data['func'], lambda a, b: self.compare('Lt', self.call(f, [a, b]), 0)
            key = None
        else:
            less = lambda a, b: self.compare('Lt', a, b)
        keyed = [(self.call(key, [x]) if key is not None else x, x) for x in items]
        out = []
        for k, x in keyed:
            i = len(out)
            # stable insertion
            while i > 0:
                r = less(out[i - 1][0], k) if rev else less(k, out[i - 1][0])
                if not self.truth(r):
                    break
                i -= 1
            out.insert(i, (k, x))
        return [x for k, x in out]

    def b_reversed(self, v):
        st = self.st
        v = st.norm(v)
        if isinstance(v, T):
            v = st.rep(v)
            if isinstance(v, T) and kind_of(v, st) != 'str':
                v = self.expand(v) if v.op != 'attr' or v in st.expand or True else v
        if isinstance(v, Inst):
            m = self._user(v, '__reversed__')
            if m is not None:
                return self.call(m, [v])
        if isinstance(v, ExtO) and v.kind == 'tables':
            return ExtO('tables', base=v.data['base'], rev=not v.data.get('rev', False))
        return IterO(iter(list(self.iterate(v))[::-1]))

    def b_abs(self, v):
        v = self.st.norm(v)
        if isinstance(v, FDV):
            return self.st.fdmap(lambda x: self.fold(abs, x), v)
        if is_raw(v):
            return self.fold(abs, v)
        if self.truth(self.lt(v, 0)):
            return self.unop('USub', v)
        return v

    def b_ord(self, v):
        v = self.st.norm(v)
        if isinstance(v, FDV):
            return self.st.fdmap(lambda x: self.fold(ord, x), v)
        if is_raw(v):
            return self.fold(ord, v)
        return T('ord', (v,))

    def b_chr(self, v):
        v = self.st.norm(v)
        if isinstance(v, FDV):
            return self.st.fdmap(lambda x: self.fold(chr, x), v)
        if is_raw(v):
            return self.fold(chr, v)
        return T('strop', ('chr', v))

    def b_print(self, *a, **kw):
        self.st.event('print', args=a, file=kw.get('file'))
        for x in a:
            if not isinstance(x, (Inst,)):
                self.str_(x)

    def b_getattr(self, o, name, *d):
        if d:
            try:
                return self.getattr(o, self.raw(name))
            except PyRaise as e:
                if self.exc_name(e.value) == 'AttributeError':
                    return d[0]
                raise
        return self.getattr(o, self.raw(name))

    def b_hasattr(self, o, name):
        n = self.raw(name)
        if isinstance(o, T) and kind_of(o, self.st) is None and (o, n) not in self.st.overlay:
            return self.st.decide(T('pred', ('hasattr', o, n)))
        try:
            self.getattr(o, n)
            return True
        except PyRaise as e:
            if self.exc_name(e.value) == 'AttributeError':
                return False
            raise

    def b_setattr(self, o, name, v):
        self.setattr(o, self.raw(name), v)

    def b_delattr(self, o, name):
        self.delattr(o, self.raw(name))

    def b_type(self, v, *more):
        if more:
            bases = tuple(self.iterate(more[0]))
            d = dict((k, x) for k, x in self.dict_items(more[1]))
            fr = self.stack[-1]
            c = ClassV(v, fr.mod.name + '.' + v, fr.mod, list(bases), d)
            self.finish_class(c)
            return c
        return self.type_of(v)

    def b_id(self, v):
        return T('hash', ('id', v)) if isinstance(v, (T, FDV)) else id(v) if isinstance(v, Obj) else T('hash', ('id', v))

    def b_hash(self, v):
        v = self.st.norm(v)
        self.hashable(v)
        return T('hash', (v if not isinstance(v, FDV) else self.st.split(v),))

    def b_callable(self, v):
        return isinstance(v, (FuncV, BoundV, BMeth, ClassV, BuiltinV, ExtV)) or \
            (isinstance(v, Inst) and self._user(v, '__call__') is not None)

    def b_iter(self, v, *s):
        if s:
            def g():
                n = 0
                while True:
                    x = self.call(v, [])
                    if self.truth(self.eq(x, s[0])):
                        return
                    yield x
                    n += 1
                    if n > 3000:
                        raise BudgetExceeded('iteration bound')
            return IterO(g())
        if isinstance(v, IterO):
            return v
        if isinstance(v, Inst):
            m = self._user(v, '__iter__')
            if m is not None:
                return self.call(m, [v])
        return IterO(self.iterate(v))

    def b_next(self, it, *d):
        if isinstance(it, Inst):
            m = self._user(it, '__next__')
            if m is not None:
                try:
                    return self.call(m, [it])
                except PyRaise as e:
                    if d and self.exc_name(e.value) == 'StopIteration':
                        return d[0]
                    raise
        if not isinstance(it, IterO):
            if isinstance(it, ExtO) and it.kind == 'count':
                v = it.data['n']
                it.data['n'] = self.binop('Add', v, it.data['step'])
                self.st.event('mutate', obj=it, name='next')
                return v
            self.raise_('TypeError', "'%s' object is not an iterator" % kind_of(it))
        try:
            return next(it.gen)
        except StopIteration:
            if d:
                return d[0]
            self.raise_('StopIteration')

    def b_object(self):
        return Inst(ClassV('object', 'builtins.object', None, [], {}))

    def b_property(self, fget=None, fset=None, fdel=None, doc=None):
        return Wrap('property', fget, fset)

    def b_staticmethod(self, f):
        return Wrap('static', f)

    def b_classmethod(self, f):
        return Wrap('class', f)

    def b_format(self, v, spec=''):
        return self.format_(v, spec)

    def b_round(self, v, nd=None):
        if is_raw(v):
            return self.fold(round, v) if nd is None else self.fold(round, v, nd)
        if kind_of(v, self.st) == 'int' and nd is None:
            return v
        return T('intop', ('round', v)) if nd is None else T('float', ('round', v, nd))

    def b_divmod(self, a, b):
        return (self.binop('FloorDiv', a, b), self.binop('Mod', a, b))

    def b_pow(self, a, b, c=None):
        if c is None:
            return self.binop('Pow', a, b)
        if all(is_raw(x) for x in (a, b, c)):
            return self.fold(pow, a, b, c)
        return T('intop', ('pow', a, b, c))

    def b_vars(self, o):
        return self.getattr(o, '__dict__')

    def b_dir(self, *a):
        self.undecided('dir()')

    def b_hex(self, v):
        v = self.int_arg(v)
        return hex(v) if isinstance(v, int) else T('fmt', ('#x', v))

    def b_bin(self, v):
        v = self.int_arg(v)
        return bin(v) if isinstance(v, int) else T('fmt', ('#b', v))

    def b_oct(self, v):
        v = self.int_arg(v)
        return oct(v) if isinstance(v, int) else T('fmt', ('#o', v))

    def b_input(self, *a):
        return usym('input%d' % self.st.fresh('input'), 'str')

    def b_slice(self, *a):
        return slice(*a)

    def b_open(self, *a, **kw):
        return self.x_open(*a, **kw)

    def b_super(self, cls=None, obj=None):
        return ExtO('super', cls=cls, self=obj)

    def b_exit(self, *a):
        self.raise_('SystemExit', a[0] if a else None)

    b_quit = b_exit

    def b___import__(self, name, *a, **kw):
        return self.load(self.raw(name))

    # -- methods --------------------------------------------------------------------------------------------------
    def method(self, o, name, args, kwargs):
        st = self.st
        o = st.norm(o)
        if isinstance(o, T):
            r = st.rep(o)
            if not isinstance(r, T):
                o = r
        if isinstance(o, (ListO, SetO, DictO, BArr)) and name in MUTATORS:
            st.event('mutate', obj=o, name=name)
        if isinstance(o, ListO):
            return self._dispatch('l_', o, name, args, kwargs)
        if isinstance(o, SetO):
            return self._dispatch('set_m_', o, name, args, kwargs)
        if isinstance(o, DictO):
            return self._dispatch('d_', o, name, args, kwargs)
        if isinstance(o, tuple):
            return self._dispatch('t_', o, name, args, kwargs)
        if isinstance(o, (bytes, BArr)):
            return self._dispatch('y_', o, name, args, kwargs)
        if isinstance(o, str):
            return self._dispatch('s_m_', o, name, args, kwargs)
        if isinstance(o, FDV):
            k = kind_of(o, st)
            if k == 'str':
                return self._dispatch('s_m_', o, name, args, kwargs)
            return self.method(st.split(o), name, args, kwargs)
        if isinstance(o, (int, float)):
            return self._dispatch('i_', o, name, args, kwargs)
        if isinstance(o, BuiltinV):
            return self.class_method(o, name, args, kwargs)
        if isinstance(o, ClassV):
            return self.classv_method(o, name, args, kwargs)
        if isinstance(o, Inst):
            return self.inst_method(o, name, args, kwargs)
        if isinstance(o, EnumV):
            if name == '__eq__':
                return self.eq_plain(o, args[0])
            if name == '__ne__':
                return self.not_(self.eq_plain(o, args[0]))
            if name == '__hash__':
                return T('hash', (o,))
            if name in ('__str__', '__repr__'):
                return '%s.%s' % (o.cls.name, o.name)
        if isinstance(o, IterO):
            if name == '__next__':
                return self.b_next(o)
            if name == '__iter__':
                return o
            if name == 'send':
                return self.b_next(o)
            if name == 'close':
                return None
        if isinstance(o, Wrap):
            if name in ('setter',):
                return Wrap('property', o.func, args[0])
            if name == 'getter':
                return Wrap('property', args[0], o.fset)
        if isinstance(o, T):
            k = kind_of(o, st)
            if k == 'str':
                return self._dispatch('s_m_', o, name, args, kwargs)
            if k == 'bytes':
                return self._dispatch('y_', o, name, args, kwargs)
            if k in ('int', 'bool', 'float'):
                return self._dispatch('i_', o, name, args, kwargs)
            if k == 'list' or o in st.expand:
                return self.method(self.expand(o), name, args, kwargs)
            return self.term_method(o, name, args, kwargs)
        if isinstance(o, ExtO):
            return self.exto_method(o, name, args, kwargs)
        self.undecided('method %s of %s' % (name, show(o)))

    def _dispatch(self, prefix, o, name, args, kwargs):
        f = getattr(self, prefix + name, None)
        if f is None:
            d = self._dunder(o, name, args)
            if d is not NotImplemented:
                return d
            if prefix == 's_m_':
                return self.str_generic(o, name, args, kwargs)
            self.undecided('method %s of %s' % (name, kind_of(o)))
        return f(o, *args, **kwargs)

    _CMP = {'__eq__': 'Eq', '__ne__': 'NotEq', '__lt__': 'Lt', '__le__': 'LtE', '__gt__': 'Gt', '__ge__': 'GtE'}
    _BIN = {'__add__': 'Add', '__sub__': 'Sub', '__mul__': 'Mult', '__and__': 'BitAnd', '__or__': 'BitOr',
            '__xor__': 'BitXor', '__mod__': 'Mod', '__truediv__': 'Div', '__floordiv__': 'FloorDiv', '__pow__': 'Pow',
            '__lshift__': 'LShift', '__rshift__': 'RShift'}

    def _dunder(self, o, name, args):
        if name in self._CMP:
            return self.compare(self._CMP[name], o, args[0])
        if name in self._BIN:
            return self.binop(self._BIN[name], o, args[0])
        if name == '__len__':
            return self.len_(o)
        if name == '__contains__':
            return self.contains(o, args[0])
        if name == '__getitem__':
            return self.getitem(o, args[0])
        if name == '__setitem__':
            return self.setitem(o, args[0], args[1])
        if name == '__delitem__':
            return self.delitem(o, args[0])
        if name == '__iter__':
            return IterO(self.iterate(o))
        if name == '__str__':
            return self.str_(o)
        if name == '__repr__':
            return self.repr_(o)
        if name == '__hash__':
            return self.b_hash(o)
        if name == '__bool__':
            return self.truth(o)
        if name == '__int__' or name == '__index__':
            return self.b_int(o)
        if name == '__format__':
            return self.format_(o, args[0])
        if name == '__neg__':
            return self.unop('USub', o)
        return NotImplemented

    def class_method(self, c, name, args, kwargs):
        n = c.name
        if n == 'int' and name == 'from_bytes':
            return self.from_bytes(*args, **kwargs)
        if n == 'dict' and name == 'fromkeys':
            d = DictO()
            for k in self.iterate(args[0]):
                self.dict_set(d, k, args[1] if len(args) > 1 else None)
            return d
        if n == 'bytes' and name == 'fromhex':
            return self.fold(bytes.fromhex, self.raw(args[0]))
        if n == 'str' and name == 'maketrans':
            return absv(str.maketrans(*[conc(a) for a in args]))
        if n == 'object':
            if name == '__new__':
                return Inst(args[0])
            if name == '__init__':
                return None
            if name == '__setattr__':
                self.raw_setattr(args[0], self.raw(args[1]), args[2])
                return None
            if name == '__eq__':
                return args[0] is args[1]
            if name == '__ne__':
                return args[0] is not args[1]
            if name == '__hash__':
                return T('hash', (args[0],)) if isinstance(args[0], T) else id(args[0])
            if name in ('__repr__', '__str__'):
                return self.repr_(args[0])
            if name == '__getattribute__':
                return self.getattr(args[0], self.raw(args[1]))
        if name == '__init__' and n in _EXC:
            args[0].attrs['args'] = tuple(args[1:])
            return None
        if name == '__new__':
            if n in _EXC:
                return Inst(args[0], {'args': tuple(args[1:])})
            return self.call_builtin(n, args[1:], kwargs)
        if n in ('str', 'int', 'float', 'bytes', 'list', 'dict', 'set', 'bytearray', 'tuple', 'frozenset') and args:
            k = kind_of(args[0], self.st)
            if k is not None and k != n and not (n == 'frozenset' and k == 'set') and not (n == 'int' and k == 'bool'):
                self.raise_('TypeError', "descriptor '%s' requires a '%s' object" % (name, n))
            return self.method(args[0], name, args[1:], kwargs)
        if n in _EXC and name in ('__str__', '__repr__'):
            return self.exc_or_repr(args[0])
        self.undecided('%s.%s' % (n, name))

    def classv_method(self, c, name, args, kwargs):
        if name == '__new__':
            return Inst(args[0] if args else c, {'args': tuple(args[1:])} if self.is_exc(c) else None)
        if name == '__init__':
            if args and self.is_exc(c):
                args[0].attrs['args'] = tuple(args[1:])
            return None
        if name == '__setattr__':
            self.raw_setattr(args[0], self.raw(args[1]), args[2])
            return None
        if name == '__eq__':
            return self.eq_plain(args[0], args[1])
        if name == '__ne__':
            return self.not_(self.eq_plain(args[0], args[1]))
        if name == '__hash__':
            return T('hash', ('id', id(args[0])))
        if name in ('__str__', '__repr__'):
            return self.exc_or_repr(args[0])
        if name == 'mro':
            return ListO(c.mro)
        if name == '_make':
            return self.instantiate(c, list(self.iterate(args[0])), {})
        self.undecided('%s.%s' % (c.name, name))

    def inst_method(self, o, name, args, kwargs):
        if name == '__init__':
            if not isinstance(o.cls, ClassV) or self.is_exc(o.cls):
                o.attrs['args'] = tuple(args)
            return None
        if name == '__setattr__':
            self.raw_setattr(o, self.raw(args[0]), args[1])
            return None
        if name == '__eq__':
            return self.eq_plain(o, args[0])
        if name == '__ne__':
            return self.not_(self.eq(o, args[0]))
        if name == '__hash__':
            self.hashable(o)
            return T('hash', ('id', id(o)))
        if name == '__str__':
            return self.str_(o)
        if name == '__repr__':
            return self.repr_(o)
        if name == '_asdict':
            return DictO([(f, o.attrs[f]) for f in o.cls.dict['_fields']])
        if name == '_replace':
            n = Inst(o.cls, dict(o.attrs))
            n.attrs.update(kwargs)
            return n
        if name == '__len__':
            return self.len_(o)
        if name == '__getattribute__':
            return self.getattr(o, self.raw(args[0]))
        return self.inst_ext_method(o, name, args, kwargs)

    # lists
    def l_append(self, o, x):
        o.items.append(x)

    def l_extend(self, o, x):
        o.items += list(self.iterate(x))

    def l_insert(self, o, i, x):
        o.items.insert(self.raw(i), x)

    def l_pop(self, o, i=-1):
        if not o.items:
            self.raise_('IndexError', 'pop from empty list')
        j = self.index_of(i, len(o.items))
        if j is None:
            self.raise_('IndexError', 'pop index out of range')
        return o.items.pop(j)

    def l_popleft(self, o):
        return self.l_pop(o, 0)

    def l_appendleft(self, o, x):
        o.items.insert(0, x)

    def l_remove(self, o, x):
        for i, y in enumerate(o.items):
            if self.truth(self.eq_id(y, x)):
                del o.items[i]
                return None
        self.raise_('ValueError', 'list.remove(x): x not in list')

    def l_clear(self, o):
        o.items[:] = []

    def l_copy(self, o):
        return ListO(o.items)

    def l_index(self, o, x, *a):
        for i, y in enumerate(o.items):
            if self.truth(self.eq_id(y, x)):
                return i
        self.raise_('ValueError', 'not in list')

    def l_count(self, o, x):
        return sum(1 for y in o.items if self.truth(self.eq_id(y, x)))

    def l_reverse(self, o):
        o.items.reverse()

    def l_sort(self, o, key=None, reverse=False):
        o.items[:] = self.sort_items(list(o.items), key, self.truth(reverse))

    def t_index(self, o, x, *a):
        return self.l_index(ListO(o), x)

    def t_count(self, o, x):
        return self.l_count(ListO(o), x)

    # sets
    def set_m_add(self, o, x):
        self.set_add(o, x)

    def set_m_discard(self, o, x):
        for i, y in enumerate(o.items):
            if self.truth(self.eq_id(y, x)):
                del o.items[i]
                return None

    def set_m_remove(self, o, x):
        n = len(o.items)
        self.set_m_discard(o, x)
        if len(o.items) == n:
            self.raise_('KeyError', x)

    def set_m_pop(self, o):
        if not o.items:
            self.raise_('KeyError', 'pop from an empty set')
        return o.items.pop()

    def set_m_clear(self, o):
        o.items[:] = []

    def set_m_copy(self, o):
        return SetO(o.items, o.frozen)

    def set_m_update(self, o, *its):
        for it in its:
            for x in self.iterate(it):
                self.set_add(o, x)

    def _as_set(self, v):
        return v if isinstance(v, SetO) else self.make_set(list(self.iterate(v)))

    def set_m_union(self, o, *its):
        r = SetO(o.items, o.frozen)
        for it in its:
            for x in self.iterate(it):
                self.set_add(r, x)
        return r

    def set_m_intersection(self, o, *its):
        r = o
        for it in its:
            r = self.set_binop('BitAnd', r, self._as_set(it))
        return r if r is not o else SetO(o.items, o.frozen)

    def set_m_difference(self, o, *its):
        r = o
        for it in its:
            r = self.set_binop('Sub', r, self._as_set(it))
        return r if r is not o else SetO(o.items, o.frozen)

    def set_m_symmetric_difference(self, o, it):
        return self.set_binop('BitXor', o, self._as_set(it))

    def set_m_difference_update(self, o, *its):
        o.items[:] = self.set_m_difference(o, *its).items

    def set_m_intersection_update(self, o, *its):
        o.items[:] = self.set_m_intersection(o, *its).items

    def set_m_issubset(self, o, it):
        return self.subset(o, self._as_set(it))

    def set_m_issuperset(self, o, it):
        return self.subset(self._as_set(it), o)

    def set_m_isdisjoint(self, o, it):
        for x in self.iterate(it):
            if self.truth(self.contains(o, x)):
                return False
        return True

    # dictionaries
    def d_get(self, o, k, default=None):
        return self.dict_get(o, k, default)

    def d_keys(self, o):
        return ExtO('dictview', d=o, what='keys')

    def d_values(self, o):
        return ExtO('dictview', d=o, what='values')

    def d_items(self, o):
        return ExtO('dictview', d=o, what='items')

    def d_pop(self, o, k, *d):
        r = self.dict_del(o, k)
        if r is DEAD:
            if d:
                return d[0]
            self.raise_('KeyError', k)
        return r

    def d_popitem(self, o):
        if not o.pairs:
            self.raise_('KeyError', 'popitem(): dictionary is empty')
        return tuple(o.pairs.pop())

    def d_setdefault(self, o, k, v=None):
        r = self.dict_get(o, k, DEAD)
        if r is DEAD:
            self.dict_set(o, k, v)
            return v
        return r

    def d_update(self, o, *a, **kw):
        for x in a:
            for k, v in self.dict_items(x if not (isinstance(x, ExtO) and x.kind == 'dictview') else self.b_list(x)):
                self.dict_set(o, k, v)
        for k, v in kw.items():
            self.dict_set(o, k, v)

    def d_clear(self, o):
        o.pairs[:] = []

    def d_copy(self, o):
        d = DictO(o.pairs)
        d.default = o.default
        return d

    # numbers
    def i_to_bytes(self, o, length=1, byteorder='big', signed=False):
        st = self.st
        length = self.int_arg(length)
        byteorder = self.raw(byteorder)
        signed = self.truth(signed)
        o = self.int_arg(o)
        if isinstance(length, float):
            self.raise_('TypeError', "'float' object cannot be interpreted as an integer")
        if isinstance(o, int) and isinstance(length, int):
            return self.fold(lambda: int(o).to_bytes(length, byteorder, signed=signed))
        if not isinstance(length, int):
            return T('bytesop', ('to_bytes', o, length, byteorder))
        st.event('pack', code='int%d' % length, value=o)
        code = '%sint%d%s' % ('<' if byteorder == 'little' else '>', length, 's' if signed else '')
        return T('pack', (code, o))

    def from_bytes(self, b, byteorder='big', signed=False):
        byteorder = self.raw(byteorder)
        signed = self.truth(signed)
        if isinstance(b, BArr):
            b = b.content
        if isinstance(b, T):
            b = self.st.rep(b)
        if isinstance(b, bytes):
            return int.from_bytes(b, byteorder, signed=signed)
        end = '<' if byteorder == 'little' else '>'
        if isinstance(b, T) and b.op == 'pack':
            c = b.args[0]
            if c == 'B' and not signed:
                return b.args[1]
            if c.startswith(end + 'int') and (c.endswith('s') == signed):
                return b.args[1]
            if len(c) == 2 and c[0] == end and c[1] in 'HILQ' and not signed:
                return b.args[1]
        return T('unpackint', (end + 'int' + ('s' if signed else ''), b))

    def i_bit_length(self, o):
        if is_raw(o):
            return int(o).bit_length()
        return T('intop', ('bit_length', o))

    def i_is_integer(self, o):
        if is_raw(o):
            return self.fold(lambda: o.is_integer())
        return T('pred', ('is_integer', o))

    # -- bytes ----------------------------------------------------------------------------------------------------
    def encode_str(self, s, enc='utf-8', errors='strict'):
        st = self.st
        s = st.norm(s)
        if isinstance(s, T):
            s = st.rep(s)
        enc = self.raw(enc).lower().replace('_', '-')
        errors = self.raw(errors)
        if isinstance(s, FDV):
            if kind_of(s, st) != 'str':
                s = st.split(s)
            elif enc not in ('utf-8', 'utf8') or errors != 'strict':
                s = st.split(s)
        if isinstance(s, str):
            return self.fold(lambda: s.encode(enc, errors))
        if not isinstance(s, (T, FDV)):
            self.raise_('TypeError', 'encode of %s' % kind_of(s))
        if enc in ('utf-8', 'utf8'):
            return bcat([self.utf8_1(p) for p in cat_parts(s)])
        if enc in ('ascii', 'us-ascii', 'latin-1', 'latin1', 'iso-8859-1'):
            out = []
            for p in cat_parts(s):
                if isinstance(p, str):
                    out.append(self.fold(lambda: p.encode(enc, errors)))
                    continue
                if isinstance(p, T) and p.op in ('str',) and kind_of(p.args[0], st) == 'int' or \
                        isinstance(p, T) and p.op == 'dec' and isinstance(p.args[0], T) and p.args[0].op == 'b64':
                    out.append(self.utf8_1(p))
                    continue
                if st.decide(T('pred', ('ascii', p))):
                    out.append(self.utf8_1(p))
                    continue
                if enc in ('ascii', 'us-ascii') and errors == 'strict':
                    self.raise_('UnicodeEncodeError', 'ordinal not in range')
                if errors == 'strict' and not st.decide(T('pred', ('latin1', p))):
                    self.raise_('UnicodeEncodeError', 'ordinal not in range')
                out.append(T('bytesop', ('encode', enc, errors, p)))
            return bcat(out)
        return T('bytesop', ('encode', enc, errors, s))

    def utf8_1(self, p):
        if isinstance(p, str):
            return p.encode('utf-8')
        if isinstance(p, T) and p.op == 'dec' and len(p.args) == 1:
            return p.args[0]
        return T('utf8', (p,))

    def decode_bytes(self, b, enc='utf-8', errors='strict'):
        st = self.st
        if isinstance(b, BArr):
            b = b.content
        if isinstance(b, T):
            b = st.rep(b)
        enc = self.raw(enc).lower().replace('_', '-')
        errors = self.raw(errors)
        if isinstance(b, bytes):
            return self.fold(lambda: b.decode(enc, errors))
        if not isinstance(b, T):
            self.raise_('TypeError', 'decoding %s is not supported' % kind_of(b))
        out = []
        utf = enc in ('utf-8', 'utf8')
        for p in bcat_parts(b):
            if isinstance(p, bytes):
                out.append(self.fold(lambda: p.decode(enc, errors)))
                continue
            p = st.rep(p)
            if isinstance(p, bytes):
                out.append(self.fold(lambda: p.decode(enc, errors)))
            elif isinstance(p, T) and p.op == 'utf8':
                if utf:
                    out.append(p.args[0])
                elif st.decide(T('pred', ('ascii', p.args[0]))):
                    out.append(p.args[0])
                elif enc in ('ascii', 'us-ascii') and errors == 'strict':
                    self.raise_('UnicodeDecodeError', 'ordinal not in range')
                elif errors == 'strict' or enc not in ('ascii', 'us-ascii'):
                    out.append(T('strop', ('decode', enc, errors, p)))
                else:
                    out.append(T('strop', ('decode', enc, errors, p)))
            elif isinstance(p, T) and (p.op in ('b64', 'bcrypt') or p.op == 'export' and p.args[3] == 'PEM' or
                                       p.op == 'sym' and str(p.args[0]).startswith('salt')):
                out.append(T('dec', (p,)))      # ASCII
            else:
                if (utf or enc == 'ascii') and errors == 'strict' and p.op not in ('hashpw', 'hex'):
                    if not st.decide(T('pred', ('utf8ok', p))):
                        self.raise_('UnicodeDecodeError', 'invalid start byte')
                if utf or enc in ('ascii',):
                    out.append(T('dec', (p,)))
                else:
                    out.append(T('strop', ('decode', enc, errors, p)))
        return cat(out)

    def y_decode(self, o, encoding='utf-8', errors='strict'):
        return self.decode_bytes(o, encoding, errors)

    def y_join(self, o, it):
        items = list(self.iterate(it))
        out = []
        for i, x in enumerate(items):
            x = self.st.norm(x)
            k = kind_of(x, self.st)
            if k not in ('bytes', 'bytearray', None) or x is None:
                self.raise_('TypeError', 'sequence item %d: expected a bytes-like object, %s found' % (i, k))
            if i and (isinstance(o, BArr) or o != b''):
                out.append(o)
            out.append(x)
        r = bcat(out)
        return BArr(r) if isinstance(o, BArr) else r

    def y_hex(self, o):
        c = o.content if isinstance(o, BArr) else o
        if isinstance(c, bytes):
            return c.hex()
        return T('strop', ('hex', c))

    def y_extend(self, o, x):
        o.content = bcat([o.content, self.b_bytes(x)])

    def y_append(self, o, x):
        o.content = bcat([o.content, self.bytes_of([x])])

    def y_copy(self, o):
        return BArr(o.content)

    def y_clear(self, o):
        o.content = b''

    def y_startswith(self, o, p):
        c = o.content if isinstance(o, BArr) else o
        if isinstance(c, bytes) and isinstance(p, (bytes, tuple)):
            return c.startswith(p)
        ps = bcat_parts(c)
        if isinstance(p, bytes):
            if p == b'':
                return True
            if ps and isinstance(ps[0], bytes):
                n = min(len(ps[0]), len(p))
                if ps[0][:n] != p[:n]:
                    return False
                if len(ps[0]) >= len(p):
                    return True
        return T('pred', ('startswith', c, p))

    def y_endswith(self, o, p):
        c = o.content if isinstance(o, BArr) else o
        if isinstance(c, bytes) and isinstance(p, (bytes, tuple)):
            return c.endswith(p)
        return T('pred', ('endswith', c, p))

    def y_strip(self, o, *a):
        c = o.content if isinstance(o, BArr) else o
        if isinstance(c, bytes):
            return c.strip(*a)
        return T('bytesop', ('strip', c) + tuple(a))

    def y_rstrip(self, o, *a):
        c = o.content if isinstance(o, BArr) else o
        if isinstance(c, bytes):
            return c.rstrip(*a)
        return T('bytesop', ('rstrip', c) + tuple(a))

    def y_replace(self, o, *a):
        c = o.content if isinstance(o, BArr) else o
        if isinstance(c, bytes) and all(is_raw(x) for x in a):
            return c.replace(*a)
        return T('bytesop', ('replace', c) + tuple(a))

    def y_release(self, o):
        return None

    def y_tobytes(self, o):
        return o.content if isinstance(o, BArr) else o

    def y_split(self, o, *a):
        c = o.content if isinstance(o, BArr) else o
        if isinstance(c, bytes):
            return absv(c.split(*a))
        self.undecided('split of unknown bytes')

    def y_ljust(self, o, n, *a):
        c = o.content if isinstance(o, BArr) else o
        if isinstance(c, bytes) and isinstance(n, int):
            return c.ljust(n, *a)
        return T('bytesop', ('ljust', c, n) + tuple(a))

    # -- byte layouts ---------------------------------------------------------------------------------------------
    def code_size(self, code):
        if 'int' in code:
            return int(code.split('int')[1].rstrip('s'))
        c = code[-1]
        return _struct.calcsize('<' + c)

    def layout(self, v):
        """[(part, size)] of a byte string."""
        if isinstance(v, BArr):
            v = v.content
        out = []
        for p in bcat_parts(v):
            if not isinstance(p, bytes):
                p = self.st.rep(p)
            if isinstance(p, T) and p.op == 'utf8':
                a = self.st.rep(p.args[0])
                if isinstance(a, str):
                    p = a.encode('utf-8')
            if isinstance(p, T) and p.op == 'bcat':
                out += self.layout(p)
                continue
            if isinstance(p, bytes):
                if p:
                    out.append((p, len(p)))
                continue
            n = self.nf(self.blen1(p))
            if isinstance(n, int) and n == 0:
                continue
            out.append((p, n))
        return out

    def _sign(self, v):
        v = self.nf(v)
        if isinstance(v, int):
            return (v > 0) - (v < 0)
        s = self.st._lin_sign(v)
        if s is not None:
            return s
        z = self.st.known(T('eq', self._ord(v, 0)))
        if z is True:
            return 0
        r = self.st.known(T('lt', (v, 0)))
        if r is True:
            return -1
        r = self.st.known(T('lt', (0, v)))
        if r is True:
            return 1
        return None

    def _ge0(self, v):
        """v >= 0 for certain."""
        if isinstance(v, int):
            return v >= 0
        c, ts = as_lin(v)
        if c >= 0 and all(k > 0 and self.st.is_nonneg(t) for t, k in ts):
            return True
        return self.st.known(T('lt', (v, 0))) is False

    def take(self, v, a, b):
        """Bytes a..b (b None: to the end) of v; linear bounds."""
        whole = v.content if isinstance(v, BArr) else v
        lay = self.layout(v)
        total = self.nf(lin(0, tuple((n, 1) for p, n in lay)))
        a = self.nf(a)
        if b is None:
            b = total
        b = self.nf(b)
        # clamp
        for nm in ('a', 'b'):
            x = a if nm == 'a' else b
            if isinstance(x, int) and x < 0:
                x = self.nf(add(total, x))
                if self._sign(x) == -1:
                    x = 0
            s = self._sign(sub(x, total))
            if s is not None and s > 0:
                x = total
            if nm == 'a':
                a = x
            else:
                b = x
        s = self._sign(sub(b, a))
        if s is not None and s <= 0:
            return b''
        out = []
        off = 0
        state = 0
        for p, n in lay:
            end = self.nf(add(off, n))
            if state == 0:
                d = self._sign(sub(a, off))
                e = self._sign(sub(a, end))
                if d == 0:
                    state = 1
                elif (e is not None and e >= 0) or (e is None and self._ge0(sub(a, end))):
                    off = end
                    continue
                elif d == 1 and e == -1:
                    # inside this part
                    be = self._sign(sub(b, end))
                    more = be == 1 or (be is None and self._ge0(sub(b, end)))
                    if isinstance(p, bytes) and isinstance(sub(a, off), int):
                        k = sub(a, off)
                        if be is not None and be < 0 and isinstance(sub(b, off), int):
                            return bcat(out + [p[k:sub(b, off)]])
                        if be == 0 or more:
                            out.append(p[k:])
                            state = 1
                            off = end
                            if be == 0:
                                return bcat(out)
                            continue
                        return T('bslice', (whole, a, b))
                    if be is not None and be <= 0:
                        return bcat(out + [T('bslice', (p, sub(a, off), sub(b, off)))])
                    if more:
                        out.append(T('bslice', (p, sub(a, off), n)))
                        state = 1
                        off = end
                        continue
                    return T('bslice', (whole, a, b))
                else:
                    return T('bslice', (whole, a, b))
            # state 1: copying from off
            if self._sign(sub(b, off)) == 0:
                return bcat(out)
            f = self._sign(sub(b, end))
            if f is None:
                if self._ge0(sub(b, end)):
                    out.append(p)
                    off = end
                    continue
                return T('bslice', (whole, a, b))
            if f >= 0:
                out.append(p)
                off = end
                if f == 0:
                    return bcat(out)
                continue
            g = self._sign(sub(b, off))
            if g == 0:
                return bcat(out)
            if isinstance(p, bytes) and isinstance(sub(b, off), int):
                out.append(p[:sub(b, off)])
                return bcat(out)
            if g is None:
                return T('bslice', (whole, a, b))
            out.append(T('bslice', (p, 0, sub(b, off))))
            return bcat(out)
        if state == 1:
            return bcat(out)
        return b''

    def bytes_index(self, o, i):
        st = self.st
        if isinstance(i, slice):
            if i.step not in (None, 1):
                c = o.content if isinstance(o, BArr) else o
                if isinstance(c, bytes):
                    r = c[self.raw_slice(i)]
                else:
                    r = T('bytesop', ('step', c, i.start, i.stop, i.step))
            else:
                a = 0 if i.start is None else self.lin_arg(i.start)
                b = None if i.stop is None else self.lin_arg(i.stop)
                r = self.take(o, a, b)
            return BArr(r) if isinstance(o, BArr) else r
        c = o.content if isinstance(o, BArr) else o
        i = self.lin_arg(i)
        if isinstance(c, bytes) and isinstance(i, int):
            return self.fold(lambda: c[i])
        n = self.blen(c)
        if isinstance(i, int) and i < 0:
            i = add(n, i)
        s = self._sign(sub(n, i))
        if s is not None and s <= 0:
            self.raise_('IndexError', 'index out of range')
        if s is None and not self.truth(self.lt(i, n)):
            self.raise_('IndexError', 'index out of range')
        r = self.take(c, i, add(i, 1))
        return self.unpack1('B', r)

    def lin_arg(self, v):
        v = self.int_arg(v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, T) and kind_of(v, self.st) in ('int', None):
            return v
        self.raise_('TypeError', 'slice indices must be integers, not %s' % kind_of(v))

    def barr_setitem(self, o, i, v):
        if isinstance(i, slice):
            v = self.b_bytes(v)
            if i.start is None and i.stop is None:
                o.content = v
                return
            a = 0 if i.start is None else self.lin_arg(i.start)
            head = self.take(o, 0, a)
            tail = b'' if i.stop is None else self.take(o, self.lin_arg(i.stop), None)
            o.content = bcat([head, v, tail])
            return
        i = self.lin_arg(i)
        o.content = bcat([self.take(o, 0, i), self.bytes_of([v]), self.take(o, add(i, 1), None)])

    # struct
    def parse_fmt(self, fmt):
        """(endian, [(count, code)])"""
        st = self.st
        if isinstance(fmt, bytes):
            fmt = fmt.decode('ascii')
        if isinstance(fmt, FDV):
            fmt = st.split(fmt)
        if isinstance(fmt, T):
            fmt = st.rep(fmt)
        if not isinstance(fmt, str) and not (isinstance(fmt, T) and kind_of(fmt, st) == 'str'):
            self.raise_('TypeError', 'Struct() argument 1 must be a str')
        toks = []
        num = None
        end = '@'
        first = True
        for p in cat_parts(fmt):
            if isinstance(p, FDV):
                p = st.split(p)
            if isinstance(p, T):
                p = st.rep(p)
            if isinstance(p, T):
                if p.op in ('str', 'fmt') and (p.op == 'str' or p.args[0] in ('d', '%d', '%i')):
                    if num is not None:
                        self.undecided('struct format')
                    num = self.nf(p.args[-1])
                    first = False
                    continue
                self.undecided('struct format %s' % show(fmt))
            for c in p:
                if first and c in '<>=!@':
                    end = c
                    first = False
                    continue
                first = False
                if c.isspace():
                    continue
                if c.isdigit():
                    if isinstance(num, T):
                        self.undecided('struct format')
                    num = (num or 0) * 10 + int(c)
                    continue
                if c not in 'xcbB?hHiIlLqQnNefdspP':
                    self.raise_('struct.error', 'bad char in struct format')
                toks.append((1 if num is None else num, c))
                num = None
        if num is not None:
            self.raise_('struct.error', 'repeat count given without format specifier')
        e = {'<': '<', '>': '>', '!': '>', '=': '<', '@': '@'}[end]
        if e == '@':
            if all(c in 'sbBcx?' for n, c in toks):
                e = '<'
            else:
                # native alignment: insert padding where it is constant
                out, off = [], 0
                for n, c in toks:
                    if c in 'sbBcx?':
                        out.append((n, c))
                        off = None if off is None or not isinstance(n, int) else off + n
                        continue
                    sz = _struct.calcsize('@' + c)
                    if off is None or not isinstance(n, int):
                        self.undecided('native struct alignment')
                    pad = (-off) % sz if n or True else 0
                    if pad:
                        out.append((pad, 'x'))
                    out.append((n, c if c not in 'lLnN' else {'l': 'q', 'L': 'Q', 'n': 'q', 'N': 'Q'}[c]))
                    off += pad + n * sz
                toks, e = out, '<'
        elif any(c in 'nN' for n, c in toks):
            self.raise_('struct.error', 'bad char in struct format')
        return e, toks

    def fmt_size(self, fmt):
        e, toks = self.parse_fmt(fmt)
        return self.nf(lin(0, tuple((n, 1) if c in 'sxcbB?p' else (lin(0, ((n, _struct.calcsize('<' + c)),)), 1)
                                    for n, c in toks)))

    def struct_pack(self, fmt, vals):
        st = self.st
        e, toks = self.parse_fmt(fmt)
        out = []
        vals = list(vals)
        k = 0
        need = 0
        for n, c in toks:
            if c == 'x':
                continue
            if c in 'sp':
                need += 1
            elif isinstance(n, int):
                need += n
            else:
                need = None
                break
        if need is not None and need != len(vals):
            self.raise_('struct.error', 'pack expected %d items for packing (got %d)' % (need, len(vals)))
        for n, c in toks:
            if c == 'x':
                out.append(b'\0' * self.raw(n))
                continue
            if c == 's':
                v = st.norm(vals[k])
                k += 1
                if isinstance(v, T):
                    v = st.rep(v)
                kv = kind_of(v, st)
                if kv not in ('bytes', 'bytearray', None) or v is None:
                    self.raise_('struct.error', "argument for 's' must be a bytes object")
                if isinstance(v, BArr):
                    v = v.content
                ln = self.blen(v)
                d = self.nf(sub(ln, n))
                if isinstance(d, int) and d == 0 or self._sign(d) == 0:
                    out.append(v)
                elif isinstance(v, bytes) and isinstance(n, int):
                    out.append(_struct.pack('%ds' % n, v))
                elif isinstance(n, int) and n == 0:
                    pass
                else:
                    # size and content disagree: truncated or padded
                    out.append(T('pad', (v, n)))
                continue
            if c == 'p':
                self.undecided('pascal string')
            cnt = n if isinstance(n, int) else None
            if cnt is None:
                if len(toks) == 1 or True:
                    # the number of values is concrete; it must agree with the count
                    rest = len(vals) - k
                    if not self.truth(self.eq(n, rest)):
                        self.raise_('struct.error', 'pack expected other number of items')
                    cnt = rest
            for _ in range(cnt):
                v = vals[k]
                k += 1
                out.append(self.pack1(e, c, v))
        if k != len(vals):
            self.raise_('struct.error', 'too many items for packing')
        return bcat(out)

    def pack1(self, e, c, v):
        st = self.st
        v = st.norm(v)
        if isinstance(v, T):
            v = self.nf(st.rep(v))
        if isinstance(v, EnumV) and self._int_enum(v.cls):
            v = v.value
        code = c if c in 'bB?c' else e + c
        if isinstance(v, FDV):
            live = [x for i, x in enumerate(v.vals) if i in st.live_of(v.var)]
            if all(isinstance(x, EnumV) and self._int_enum(x.cls) for x in live):
                v = st.fdmap(lambda x: x.value, v)
            elif not all(is_raw(x) for x in live):
                return self.pack1(e, c, st.split(v))
        if isinstance(v, FDV):
            try:
                for i, x in enumerate(v.vals):
                    if i in st.live_of(v.var):
                        _struct.pack(e + c, x)
            except _struct.error:
                return self.pack1(e, c, st.split(v))
            return T('pack', (code, v))
        if is_raw(v):
            try:
                return _struct.pack(e + c, v)
            except _struct.error as ex:
                self.raise_('struct.error', str(ex))
            except (TypeError, OverflowError) as ex:
                self.raise_('struct.error' if isinstance(ex, TypeError) else 'OverflowError', str(ex))
        if not isinstance(v, T):
            if c == '?':
                return b'\1' if self.truth(v) else b'\0'
            self.raise_('struct.error', 'required argument is not an integer')
        k = kind_of(v, st)
        if c in 'fde':
            if k not in ('int', 'float', 'bool', None):
                self.raise_('struct.error', 'required argument is not a float')
            return T('pack', (code, v))
        if c == '?':
            return T('pack', ('B', self.b_bool(v))) if not isinstance(self.b_bool(v), bool) else (
                b'\1' if self.truth(v) else b'\0')
        if k not in ('int', 'bool', None):
            self.raise_('struct.error', 'required argument is not an integer')
        st.event('pack', code=code, value=v)
        return T('pack', (code, v))

    SIGNED = {'b': 'B', 'h': 'H', 'i': 'I', 'l': 'L', 'q': 'Q'}
    SAME = {'l': 'i', 'L': 'I'}

    def unpack1(self, code, part):
        """Value of one field."""
        st = self.st
        if isinstance(part, T):
            part = st.rep(part)
        if isinstance(part, bytes):
            try:
                return absv(_struct.unpack(code if len(code) == 2 else '<' + code, part)[0])
            except _struct.error as ex:
                self.raise_('struct.error', str(ex))
        c = code[-1]
        if isinstance(part, T) and part.op == 'pack':
            pc, v = part.args
            c1 = code[:-1] + self.SAME.get(c, c)
            p1 = pc[:-1] + self.SAME.get(pc[-1], pc[-1]) if 'int' not in pc else pc
            if c1 == p1:
                if c == 'f':
                    return T('float', ('f32', v))
                if c == 'e':
                    return T('float', ('f16', v))
                if c == 'd' and kind_of(v, st) != 'float':
                    return T('float', ('ofint', v))
                return v
            if 'int' in pc and len(code) == 2 and pc == '%sint%d' % (code[0], _struct.calcsize('<' + c)) and c in 'HILQ':
                return v
            # an unsigned length read as signed: equal only while the top bit is clear
            return T('unpackint', (code, part)) if c not in 'fde' else T('float', ('unpack', code, part))
        if c == '?':
            return T('pred', ('unpackbool', part))
        return T('unpackint', (code, part)) if c not in 'fde' else T('float', ('unpack', code, part))

    def struct_unpack(self, fmt, data, exact=True, offset=0):
        st = self.st
        e, toks = self.parse_fmt(fmt)
        if isinstance(data, BArr):
            data = data.content
        if isinstance(data, T):
            data = st.rep(data)
        if kind_of(data, st) not in ('bytes', None):
            self.raise_('TypeError', 'a bytes-like object is required')
        size = self.nf(lin(0, tuple((n, 1) if c in 'sxcbB?p' else (lin(0, ((n, _struct.calcsize('<' + c)),)), 1)
                                    for n, c in toks)))
        if exact:
            n = self.blen(data)
            s = self._sign(sub(n, size))
            if s is None:
                ok = self.truth(self.eq(n, size))
            else:
                ok = s == 0
            if not ok:
                self.raise_('struct.error', 'unpack requires a buffer of %s bytes' % show(size))
        else:
            n = self.blen(data)
            s = self._sign(sub(n, add(size, offset)))
            ok = (s >= 0) if s is not None else not self.truth(self.lt(n, add(size, offset)))
            if not ok:
                self.raise_('struct.error', 'unpack_from requires a larger buffer')
        out = []
        off = offset
        for n, c in toks:
            if c in 'sx':
                nx = self.nf(add(off, n))
                if c == 's':
                    r = self.take(data, off, nx)
                    out.append(r)
                off = nx
                continue
            w = _struct.calcsize('<' + c)
            cnt = self.int_arg(n)
            if not isinstance(cnt, int):
                for kk in range(0, 4):
                    if self.truth(self.eq(cnt, kk)):
                        cnt = kk
                        break
                else:
                    self.undecided('unknown repeat count in unpack')
            for _ in range(cnt):
                nx = self.nf(add(off, w))
                part = self.take(data, off, nx)
                code = c if c in 'bB?c' else e + c
                if c == 'c':
                    out.append(part)
                else:
                    out.append(self.unpack1(code, part))
                off = nx
        return tuple(out)

    # -- text methods ---------------------------------------------------------------------------------------------
    def str_generic(self, o, name, args, kwargs):
        st = self.st
        if not hasattr(str, name):
            self.raise_('AttributeError', name)
        if isinstance(o, str):
            try:
                a = [conc(st.norm(x)) for x in args]
                kw = {k: conc(st.norm(v)) for k, v in kwargs.items()}
            except FoldError:
                return T('strop', (name, o) + tuple(args))
            return self.fold(lambda: getattr(o, name)(*a, **kw))
        if isinstance(o, FDV):
            try:
                a = [conc(st.norm(x)) for x in args]
                kw = {k: conc(st.norm(v)) for k, v in kwargs.items()}
                return st.fdmap(lambda x: self.fold(lambda: getattr(x, name)(*a, **kw)), o)
            except FoldError:
                return self.method(st.split(o), name, args, kwargs)
        if name.startswith('is'):
            return self.str_pred(o, name)
        ch = self._chars(o)
        if ch is not None and len(ch) <= 4:
            return self.method(self.split_text(ch), name, args, kwargs)
        return T('strop', (name, o) + tuple(args))

    def str_pred(self, o, name):
        st = self.st
        ch = self._chars(o)
        if ch is not None:
            if name in ('isalpha', 'isdigit', 'isdecimal', 'isspace', 'isalnum', 'isnumeric', 'isascii', 'isprintable'):
                return all(self.truth(self.method(c, name, [], {})) for c in ch)
            return self.method(self.split_text(ch), name, [], {})
        if name in ('isdigit', 'isdecimal', 'isnumeric') and isinstance(o, T) and o.op == 'sym' and 'd' in o.args[2]:
            return True
        t = T('pred', (name, o))
        k = st.known(t)
        return t if k is None else k

    def _case(self, o, name):
        st = self.st
        if isinstance(o, str):
            return getattr(o, name)()
        if isinstance(o, FDV):
            return st.fdmap(lambda x: getattr(x, name)(), o)
        r = st.rep(o)
        if isinstance(r, str):
            return getattr(r, name)()
        o = r
        if isinstance(o, T) and o.op == 'cat':
            return cat([self._case(p, name) for p in o.args])
        if isinstance(o, T):
            if o.op in ('lower', 'casefold') and name == 'lower':
                return o
            if o.op == 'upper' and name == 'upper':
                return o
            if o.op == 'str' and kind_of(o.args[0], st) == 'int':
                return o
            if o.op in ('lower', 'upper') and name in ('lower', 'upper') and not (o.args[0].op == 'sym' and 'u' in o.args[0].args[2]
                                                                                  if isinstance(o.args[0], T) else False):
                # case conversions are taken to agree on the text below (ASCII names)
                return self._case(o.args[0], name)
            if o.op == 'sym' and 'l' in o.args[2] and name == 'lower':
                return o
            if o.op == 'sym' and 'd' in o.args[2]:
                return o
        return T(name, (o,))

    def s_m_lower(self, o):
        return self._case(o, 'lower')

    def s_m_upper(self, o):
        return self._case(o, 'upper')

    def s_m_casefold(self, o):
        if isinstance(o, (str, FDV)):
            return self.str_generic(o, 'casefold', [], {})
        return self._case(o, 'lower')

    def s_m_encode(self, o, encoding='utf-8', errors='strict'):
        return self.encode_str(o, encoding, errors)

    def s_m_format(self, o, *a, **kw):
        return self.str_format(o, list(a), kw)

    def s_m_format_map(self, o, m):
        return self.str_format(o, [], {k: v for k, v in self.dict_items(m)})

    def s_m_join(self, o, it):
        out = []
        for i, x in enumerate(self.iterate(it)):
            x = self.st.norm(x)
            k = kind_of(x, self.st)
            if k not in ('str', None):
                self.raise_('TypeError', 'sequence item %d: expected str instance, %s found' % (i, k))
            if i:
                out.append(o)
            out.append(x)
        return cat([q for p in out for q in cat_parts(p)])

    def _strip(self, o, a, name):
        st = self.st
        if isinstance(o, (str, FDV)):
            return self.str_generic(o, name, a, {})
        r = st.rep(o)
        if isinstance(r, str):
            return self.str_generic(r, name, a, {})
        ch = self._chars(o)
        chars = None
        if a and a[0] is not None:
            chars = self.raw(a[0])

        def inset(c):
            return c.isspace() if chars is None else c in chars
        if ch is not None:
            i, j = 0, len(ch)
            if name in ('strip', 'lstrip'):
                while i < j and self.truth(st.fdmap(inset, st.norm(ch[i])) if isinstance(st.norm(ch[i]), FDV)
                                           else inset(st.norm(ch[i]))):
                    i += 1
            if name in ('strip', 'rstrip'):
                while i < j and self.truth(st.fdmap(inset, st.norm(ch[j - 1])) if isinstance(st.norm(ch[j - 1]), FDV)
                                           else inset(st.norm(ch[j - 1]))):
                    j -= 1
            return cat(ch[i:j])
        if isinstance(o, T):
            if o.op == 'strip' and chars is None:
                return o
            if chars is None and all(self.part_free(p, ' ') for p in cat_parts(o) if not isinstance(p, str)):
                ps = cat_parts(o)
                if name in ('strip', 'lstrip') and isinstance(ps[0], str):
                    ps[0] = ps[0].lstrip()
                if name in ('strip', 'rstrip') and isinstance(ps[-1], str):
                    ps[-1] = ps[-1].rstrip()
                return cat(ps)
        if chars is None:
            return T(name, (o,))
        return T('strop', (name, o, chars))

    def s_m_strip(self, o, *a):
        return self._strip(o, list(a), 'strip')

    def s_m_lstrip(self, o, *a):
        return self._strip(o, list(a), 'lstrip')

    def s_m_rstrip(self, o, *a):
        return self._strip(o, list(a), 'rstrip')

    def _free_all(self, o, sep):
        return all(isinstance(p, str) or self.part_free(p, sep) for p in cat_parts(o))

    def s_m_split(self, o, sep=None, maxsplit=-1):
        st = self.st
        sep = None if sep is None else self.raw(sep)
        mx = self.raw(maxsplit)
        if isinstance(o, T):
            o = st.rep(o)
        if isinstance(o, FDV):
            o = st.split(o)
        if isinstance(o, str):
            return ListO(self.fold(lambda: o.split(sep, mx)).items)
        ch = self._chars(o)
        if ch is not None and sep is not None and len(sep) == 1:
            segs, cur, n = [], [], 0
            for c in ch:
                if (mx < 0 or n < mx) and self.truth(self.eq_plain(st.norm(c), sep)):
                    segs.append(cat(cur))
                    cur = []
                    n += 1
                else:
                    cur.append(c)
            segs.append(cat(cur))
            return ListO(segs)
        if sep is not None and len(sep) >= 1 and self._free_all(o, sep[0]):
            segs = self._segments(cat_parts(o), sep)
            if mx >= 0 and len(segs) > mx + 1:
                rest = []
                for i, x in enumerate(segs[mx:]):
                    if i:
                        rest.append(sep)
                    rest.append(x)
                segs = segs[:mx] + [cat(rest)]
            return ListO(segs)
        if sep is not None and len(sep) == 1 and mx == 1:
            # everything in front of the first literal separator, if the text before it is free of it
            ps = cat_parts(o)
            for i, p in enumerate(ps):
                if isinstance(p, str) and sep in p:
                    k = p.index(sep)
                    return ListO([cat(ps[:i] + [p[:k]]), cat([p[k + 1:]] + ps[i + 1:])])
                if not isinstance(p, str) and not self.part_free(p, sep):
                    break
        return self.opaque_split(o, sep, mx)

    def opaque_split(self, o, sep, mx):
        """Pieces of an unknown text."""
        st = self.st
        t = T('pieces', (o, sep, mx))
        if t not in st.expand:
            if sep is not None:
                sizes = (1, 2, 4) if mx < 0 else tuple(range(1, mx + 2))
                lits = sum(p.count(sep) for p in cat_parts(o) if isinstance(p, str))
                sizes = tuple(n for n in sizes if n > lits) or (lits + 1,) if mx < 0 else \
                    tuple(n for n in sizes if n > min(lits, mx))
            else:
                sizes = (0, 1, 2)
            n = sizes[st.choose(len(sizes), 'pieces of %s' % show(o))]
            items = [T('strop', ('piece', o, sep, i)) for i in range(n)]
            if sep is not None and n == 1:
                st.assume(T('in', (sep, o)), False)
                items = [o]
            elif sep is not None:
                st.assume(T('in', (sep, o)), True)
            st.expand[t] = ListO(items)
        return ListO(st.expand[t].items)

    def s_m_rsplit(self, o, sep=None, maxsplit=-1):
        mx = self.raw(maxsplit)
        if isinstance(o, str):
            return self.fold(lambda: o.rsplit(sep, mx))
        r = self.s_m_split(o, sep, -1)
        if mx >= 0 and len(r.items) > mx + 1:
            head = r.items[:len(r.items) - mx]
            rest = []
            for i, x in enumerate(head):
                if i:
                    rest.append(sep)
                rest.append(x)
            return ListO([cat(rest)] + r.items[len(r.items) - mx:])
        return r

    def s_m_partition(self, o, sep):
        if isinstance(o, str) and isinstance(sep, str):
            return o.partition(sep)
        if isinstance(o, FDV):
            return self.s_m_partition(self.st.split(o), sep)
        r = self.s_m_split(o, sep, 1)
        if len(r.items) == 1:
            return (r.items[0], '', '')
        return (r.items[0], sep, r.items[1])

    def s_m_rpartition(self, o, sep):
        if isinstance(o, str) and isinstance(sep, str):
            return o.rpartition(sep)
        r = self.s_m_rsplit(o, sep, 1)
        if len(r.items) == 1:
            return ('', '', r.items[0])
        return (r.items[0], sep, r.items[1])

    def s_m_splitlines(self, o, *a):
        if isinstance(o, str):
            return absv(o.splitlines(*a))
        return self.s_m_split(o, '\n')

    def s_m_startswith(self, o, p, *a):
        st = self.st
        if isinstance(p, tuple):
            return any(self.truth(self.s_m_startswith(o, x, *a)) for x in p)
        if isinstance(o, (str, FDV)) and isinstance(p, str):
            return self.str_generic(o, 'startswith', [p] + list(a), {})
        if a:
            o = self.getitem(o, slice(a[0], a[1] if len(a) > 1 else None, None))
        if p == '':
            return True
        ch, cp = self._chars(o), self._chars(p)
        if ch is not None and cp is not None:
            if len(cp) > len(ch):
                return False
            return all(self.truth(self.eq_plain(st.norm(x), st.norm(y))) for x, y in zip(ch, cp))
        ps = cat_parts(o)
        if isinstance(p, str) and ps and isinstance(ps[0], str):
            n = min(len(ps[0]), len(p))
            if ps[0][:n] != p[:n]:
                return False
            if len(ps[0]) >= len(p):
                return True
        t = T('pred', ('startswith', o, p))
        k = st.known(t)
        return t if k is None else k

    def s_m_endswith(self, o, p, *a):
        st = self.st
        if isinstance(p, tuple):
            return any(self.truth(self.s_m_endswith(o, x, *a)) for x in p)
        if isinstance(o, (str, FDV)) and isinstance(p, str):
            return self.str_generic(o, 'endswith', [p] + list(a), {})
        ch, cp = self._chars(o), self._chars(p)
        if ch is not None and cp is not None:
            if len(cp) > len(ch):
                return False
            return all(self.truth(self.eq_plain(st.norm(x), st.norm(y))) for x, y in zip(ch[len(ch) - len(cp):], cp))
        ps = cat_parts(o)
        if isinstance(p, str) and ps and isinstance(ps[-1], str):
            n = min(len(ps[-1]), len(p))
            if ps[-1][-n:] != p[-n:]:
                return False
            if len(ps[-1]) >= len(p):
                return True
        t = T('pred', ('endswith', o, p))
        k = st.known(t)
        return t if k is None else k

    def s_m_replace(self, o, a, b, *c):
        if isinstance(o, (str, FDV)) and is_raw(a) and is_raw(b):
            return self.str_generic(o, 'replace', [a, b] + list(c), {})
        st = self.st
        ch = self._chars(o)
        if ch is not None and isinstance(a, str) and len(a) == 1:
            out = []
            for x in ch:
                out.append(b if self.truth(self.eq_plain(st.norm(x), a)) else x)
            return cat(out)
        if isinstance(a, str) and len(a) >= 1 and self._free_all(o, a[0]):
            return cat([p.replace(a, b) if isinstance(p, str) and isinstance(b, str) else p for p in cat_parts(o)])
        return T('replace', (o, a, b))

    def _find(self, o, x, a, rev=False):
        st = self.st
        if isinstance(o, str) and isinstance(x, str) and all(isinstance(y, int) or y is None for y in a):
            return o.rfind(x, *a) if rev else o.find(x, *a)
        if isinstance(o, FDV):
            o = cat([o])
        ch = self._chars(o)
        if ch is not None and isinstance(x, str):
            lo = a[0] if a else 0
            hi = a[1] if len(a) > 1 else len(ch)
            rng = range(lo, max(lo, hi - len(x) + 1))
            for i in (reversed(rng) if rev else rng):
                if all(self.truth(self.eq_plain(st.norm(c), y)) for c, y in zip(ch[i:i + len(x)], x)):
                    return i
            return -1
        if not rev and isinstance(x, str) and not a:
            off = []
            for p in cat_parts(o):
                if isinstance(p, str) and x in p:
                    return self.slen(cat(off + [p[:p.index(x)]]))
                if not isinstance(p, str) and not self.part_free(p, x[0] if x else ''):
                    break
                off.append(p)
            else:
                return -1
        return T('intop', ('find', o, x) + tuple(a))

    def s_m_find(self, o, x, *a):
        return self._find(o, x, a)

    def s_m_rfind(self, o, x, *a):
        return self._find(o, x, a, True)

    def s_m_index(self, o, x, *a):
        r = self._find(o, x, a)
        if self.truth(self.lt(r, 0)):
            self.raise_('ValueError', 'substring not found')
        return r

    def s_m_count(self, o, x, *a):
        st = self.st
        if isinstance(o, (str, FDV)):
            return self.str_generic(o, 'count', [x] + list(a), {})
        ch = self._chars(o)
        if ch is not None and isinstance(x, str) and len(x) == 1:
            return sum(1 for c in ch if self.truth(self.eq_plain(st.norm(c), x)))
        if isinstance(x, str) and len(x) == 1 and self._free_all(o, x):
            return sum(p.count(x) for p in cat_parts(o) if isinstance(p, str))
        return T('count', (o, x))

    def s_m_removeprefix(self, o, p):
        if self.truth(self.s_m_startswith(o, p)):
            return self.getitem(o, slice(self.len_(p), None, None))
        return o

    def s_m_removesuffix(self, o, p):
        if self.truth(self.s_m_endswith(o, p)) and p != '':
            return self.getitem(o, slice(None, self.unop('USub', self.len_(p)), None))
        return o

    def term_method(self, o, name, args, kwargs):
        """Method of a value about which nothing is known."""
        st = self.st
        if name == 'get' and o.op in ('attr', 'sym', 'item') and args:
            if self.truth(self.contains(o, args[0])):
                return self.getitem(o, args[0])
            return args[1] if len(args) > 1 else None
        if name in ('lower', 'upper', 'strip', 'encode', 'split', 'startswith', 'endswith', 'lstrip', 'rstrip', 'casefold',
                    'replace', 'partition', 'splitlines', 'isdigit', 'isalpha', 'title'):
            st.kinds[o] = 'str'
            return self.method(o, name, args, kwargs)
        return self.opaque_call(T('attr', (o, name)), args, kwargs)

    def opaque_call(self, f, args, kwargs):
        st = self.st
        n = st.fresh('call')
        st.event('extcall', func=f, args=tuple(args), kwargs=dict(kwargs))
        h = self.callhook
        if h is not None:
            r = h(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        return usym('call%d:%s' % (n, show(f)))
