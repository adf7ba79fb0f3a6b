"""Models of the library functions and classes the analysed program (or a refactoring of it) may use."""
import os
import re as _re
import string as _string
import math as _math
import base64 as _b64

from .core import *
from .ops import FoldError, conc, absv, KIND_TYPES, _EXC, EXT_EXC
from .orm import Orm

CSPRNG = ('Crypto.Random.random.getrandbits', 'secrets.randbits', 'os.urandom', 'secrets.token_bytes',
          'Crypto.Random.get_random_bytes', 'random.SystemRandom.getrandbits', 'Crypto.Random.new.read')
LOGM = {'debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log', 'fatal'}
HASHES = {'SHA256': 32, 'SHA1': 20, 'SHA512': 64, 'SHA384': 48, 'SHA224': 28, 'MD5': 16, 'SHA3_256': 32, 'SHA': 20,
          'sha256': 32, 'sha1': 20, 'sha512': 64, 'sha384': 48, 'md5': 16, 'sha224': 28, 'sha3_256': 32}
OPERATOR_CMP = {'eq': 'Eq', 'ne': 'NotEq', 'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE'}
OPERATOR_BIN = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'floordiv': 'FloorDiv', 'mod': 'Mod',
                'and_': 'BitAnd', 'or_': 'BitOr', 'xor': 'BitXor', 'concat': 'Add', 'lshift': 'LShift',
                'rshift': 'RShift', 'pow': 'Pow'}


# modules whose functions only arrange values: what they return is a matter of the program, not of its surroundings
STRUCTURE = {'functools', 'contextlib', 'dataclasses', 'copy', 'collections', 'abc', 'types', 'enum', 'inspect', 'weakref',
             'heapq', 'bisect', 'textwrap', 'array', 'decimal', 'fractions', 'statistics', 'numbers', 'codecs', 'queue',
             'pprint', 'graphlib', 'typing', 'warnings', 'string', 'ast', 'binascii', 'ipaddress', 'calendar', 'zlib',
             'urllib', 'html', 'shlex', 'difflib', 'reprlib', 'traceback', 'gc', 'atexit', 'concurrent', 'asyncio'}


class Ext(Orm):
    # -- names in libraries ---------------------------------------------------------------------------------------
    def ext_attr(self, o, name):
        p = o.path + '.' + name
        if o.path == 're' and isinstance(getattr(_re, name, None), _re.RegexFlag):
            return int(getattr(_re, name))
        if o.path == 'string' and isinstance(getattr(_string, name, None), str):
            return getattr(_string, name)
        if o.path == 'sys':
            if name == 'maxsize':
                return 9223372036854775807
            if name == 'byteorder':
                return 'little'
            if name == 'argv':
                v = getattr(self.st, 'argv', None)
                if v is None:
                    v = self.st.argv = ListO([usym('argv0', 'str')])
                return v
            if name == 'version_info':
                return (3, 12, 3, 'final', 0)
        if o.path == 'math' and isinstance(getattr(_math, name, None), float):
            return getattr(_math, name)
        if o.path == 'os' and name in ('sep',):
            return '/'
        if o.path == 'logging' and name in ('DEBUG', 'INFO', 'WARN', 'WARNING', 'ERROR', 'CRITICAL', 'NOTSET', 'FATAL'):
            return {'DEBUG': 10, 'INFO': 20, 'WARN': 30, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50, 'FATAL': 50,
                    'NOTSET': 0}[name]
        if p == 'ladon.compat.PORTABLE_STRING':
            return BuiltinV('str')
        if p == 'ladon.compat.PORTABLE_BYTES':
            return BuiltinV('bytes')
        if p == 'types.NoneType':
            return ExtV('types.NoneType')
        if name in ('__name__', '__qualname__'):
            return o.path.split('.')[-1]
        if name == '__doc__':
            return None
        return ExtV(p)

    def ext_getitem(self, o, i):
        if o.path == 'sys.modules':
            if isinstance(i, str) and i in self.modules:
                return self.modules[i]
            if isinstance(i, str) and self.is_repo_mod(i):
                return self.load(i)
        if o.path == 'os.environ':
            k = self.raw(i)
            if not self.st.decide(T('pred', ('environ', k))):
                self.raise_('KeyError', k)
            return usym('environ:' + k, 'str')
        return o                 # subscripted generic

    def ext_iterable(self, o):
        self.undecided('iteration over %s' % o.path)

    def log_event(self, o, name, args, kwargs):
        args = list(args)
        level = name
        if name == 'log' and args:
            level = args.pop(0)
        msg = args[0] if args else ''
        vals = list(args[1:])
        text = None
        if vals and isinstance(msg, str):
            try:
                a = vals[0] if len(vals) == 1 and isinstance(vals[0], DictO) else tuple(vals)
                text = self.binop('Mod', msg, a)
            except (PyRaise, Undecided):
                text = None
        elif not vals:
            try:
                text = self.str_(msg) if not isinstance(msg, (ExtO,)) else None
            except (PyRaise, Undecided):
                text = None
        self.st.event('log', logger=o, level=level, msg=msg, args=tuple(vals), text=text)
        return None

    def logger_named(self, name):
        reg = self.st.__dict__.setdefault('loggers', {})
        k = ckey(name)
        if k not in reg:
            reg[k] = ExtO('logger', name=name)
        return reg[k]

    # -- calls ----------------------------------------------------------------------------------------------------
    def call_ext(self, path, args, kwargs):
        h = self.exthooks.get(path)
        if h is not None:
            r = h(self, path, list(args), dict(kwargs))
            if r is not NotImplemented:
                return r
        parts = path.split('.')
        last = parts[-1]
        top = parts[0]
        if top in ('os', 'io', 'shutil', 'logging', 'tempfile', 'open'):
            args = [self.path_text(a) for a in args]
            kwargs = {k: self.path_text(v) for k, v in kwargs.items()}
        f = getattr(self, 'x_' + path.replace('.', '_'), None)
        if f is not None:
            return f(*args, **kwargs)
        if top == 'pathlib' and last in ('Path', 'PurePath', 'PosixPath', 'PurePosixPath'):
            ps = [self.path_text(a) for a in args] or ['.']
            return ExtO('path', p=self.x_ospath('join', ps) if len(ps) > 1 else ps[0])
        if path in EXT_EXC or last.endswith(('Error', 'Fault', 'Exception')):
            return Inst(ExtV(path), {'args': tuple(args)})
        if top == 'operator':
            return self.x_operator(last, args, kwargs)
        if top == 'itertools':
            return self.x_itertools(path[10:], args, kwargs)
        if top == 'math':
            return self.x_math(last, args)
        if top in ('re',):
            return self.x_re(last, args, kwargs)
        if top in ('sqlalchemy',):
            return self.call_sql(path, args, kwargs)
        if top == 'typing':
            if last == 'cast':
                return args[1]
            if last == 'NamedTuple':
                return self.x_collections_namedtuple(args[0], ListO([x[0] for x in self.iterate(args[1])]))
            return ExtV(path)
        if top == 'logging':
            if last == 'getLogger':
                return self.logger_named(args[0] if args and args[0] is not None else 'root')
            if last in ('FileHandler', 'StreamHandler', 'RotatingFileHandler', 'TimedRotatingFileHandler', 'NullHandler',
                        'WatchedFileHandler', 'Handler'):
                h = ExtO('loghandler', cls=last, args=tuple(args), kwargs=dict(kwargs), formatter=None, level=None)
                self.st.event('loghandler', handler=h)
                return h
            if last == 'Formatter':
                return ExtO('logformatter', args=tuple(args), kwargs=dict(kwargs))
            if last in LOGM:
                return self.log_event(ExtO('logger', name='root'), last, args, kwargs)
            if last == 'getLevelName':
                return usym('levelname', 'str')
            return ExtO('opaque', path=path, args=tuple(args))
        if top in ('ladon',):
            return self.call_ladon(path, args, kwargs)
        if top in ('warnings', 'traceback', 'pprint', 'textwrap'):
            if last in ('pformat', 'format_exc', 'dedent', 'indent', 'fill'):
                return T('strop', (last,) + tuple(args[:1]))
            self.st.event('print', args=tuple(args), file=None)
            return None
        if top == 'Crypto':
            r = self.call_crypto(path, args, kwargs)
            if r is not NotImplemented:
                return r
        if top == 'hashlib' and last in HASHES:
            return ExtO('hash', algo=last.upper(), data=self.as_bytes(args[0]) if args else b'')
        if path == 'hashlib.new':
            n = self.raw(args[0])
            return ExtO('hash', algo=n.upper(), data=self.as_bytes(args[1]) if len(args) > 1 else b'')
        if top in ('hmac', 'secrets') and last == 'compare_digest':
            return self.eq(args[0], args[1])
        if path == 'hmac.new':
            return ExtO('opaque', path=path, args=tuple(args))
        if top in ('threading', 'multiprocessing') and last in ('Lock', 'RLock', 'Semaphore', 'Event', 'Condition'):
            return ExtO('lock')
        if path == 'threading.local':
            return Inst(ClassV('local', 'threading.local', None, [], {}))
        if path in ('os.path.dirname', 'os.path.abspath', 'os.path.join', 'os.path.basename', 'os.path.normpath',
                    'os.path.realpath', 'os.path.expanduser', 'os.path.relpath', 'os.fspath', 'os.path.splitext'):
            return self.x_ospath(last, args)
        if top == 'time':
            return self.x_time(last, args, kwargs)
        if path in ('random.getrandbits', 'random.randint', 'random.randrange', 'random.random', 'random.randbytes',
                    'random.choice', 'secrets.randbits', 'secrets.token_bytes', 'secrets.randbelow', 'os.urandom',
                    'secrets.token_hex', 'secrets.token_urlsafe', 'secrets.choice'):
            return self.random_value(path, args)
        if path in ('random.SystemRandom', 'random.Random'):
            return ExtO('rng', path=path)
        if path.startswith('datetime.'):
            return ExtO('opaque', path=path + '()', args=tuple(args))
        if top in STRUCTURE:
            self.undecided('call of ' + path)
        return self.opaque_call(ExtV(path), args, kwargs)

    def random_value(self, path, args):
        st = self.st
        n = st.fresh('rand')
        bits = args[0] if args else None
        isb = path.endswith(('urandom', 'token_bytes', 'get_random_bytes', 'randbytes', '.read'))
        kind = 'bytes' if isb else 'float' if path.endswith('random.random') and path == 'random.random' else \
            'str' if path.endswith(('hex', 'urlsafe')) else None if path.endswith('choice') else 'int'
        v = usym('rand%d' % n, kind)
        if kind == 'int':
            st.nonneg.add(v)
        st.event('random', source=path, bits=bits, isbytes=isb, value=v, args=tuple(args))
        return v

    def x_operator(self, n, args, kwargs):
        if n in OPERATOR_CMP:
            return self.compare(OPERATOR_CMP[n], args[0], args[1])
        if n in OPERATOR_BIN:
            return self.binop(OPERATOR_BIN[n], args[0], args[1])
        if n == 'contains':
            return self.contains(args[0], args[1])
        if n == 'not_':
            return not self.truth(args[0])
        if n == 'truth':
            return self.truth(args[0])
        if n == 'is_':
            return self.is_(args[0], args[1])
        if n == 'is_not':
            return self.not_(self.is_(args[0], args[1]))
        if n == 'getitem':
            return self.getitem(args[0], args[1])
        if n == 'neg':
            return self.unop('USub', args[0])
        if n == 'invert':
            return self.unop('Invert', args[0])
        I = self
        if n == 'attrgetter':
            def one(o, nm):
                for p in nm.split('.'):
                    o = I.getattr(o, p)
                return o
            names = list(args)
            if len(names) == 1:
                return ExtO('pyfunc', f=lambda a: one(a[0], names[0]))
            return ExtO('pyfunc', f=lambda a: tuple(one(a[0], x) for x in names))
        if n == 'itemgetter':
            idx = list(args)
            if len(idx) == 1:
                return ExtO('pyfunc', f=lambda a: I.getitem(a[0], idx[0]))
            return ExtO('pyfunc', f=lambda a: tuple(I.getitem(a[0], x) for x in idx))
        if n == 'methodcaller':
            m, rest = args[0], list(args[1:])
            return ExtO('pyfunc', f=lambda a: I.call(I.getattr(a[0], m), rest, kwargs))
        self.undecided('operator.' + n)

    def x_itertools(self, n, args, kwargs):
        I = self
        if n == 'chain':
            def g():
                for a in args:
                    for x in I.iterate(a):
                        yield x
            return IterO(g())
        if n == 'chain.from_iterable':
            def g():
                for a in I.iterate(args[0]):
                    for x in I.iterate(a):
                        yield x
            return IterO(g())
        if n == 'count':
            return ExtO('count', n=args[0] if args else kwargs.get('start', 0),
                        step=args[1] if len(args) > 1 else kwargs.get('step', 1))
        if n == 'islice':
            it = self.iterate(args[0])
            a = [None if x is None else self.raw(x) for x in args[1:]]
            if len(a) == 1:
                a = [0, a[0], 1]
            a = [a[0] or 0, a[1], (a[2] if len(a) > 2 else 1) or 1]

            def g():
                i, nxt = 0, a[0]
                while a[1] is None or nxt < a[1]:
                    while i <= nxt:
                        try:
                            x = next(it)
                        except StopIteration:
                            return
                        i += 1
                    yield x
                    nxt += a[2]
            return IterO(g())
        if n == 'repeat':
            def g():
                k = 0
                while len(args) < 2 or k < I.raw(args[1]):
                    yield args[0]
                    k += 1
                    if k > 3000:
                        raise BudgetExceeded('iteration bound')
            return IterO(g())
        if n in ('takewhile', 'dropwhile', 'filterfalse'):
            def g():
                drop = n == 'dropwhile'
                for x in I.iterate(args[1]):
                    if n == 'filterfalse':
                        if not I.truth(I.call(args[0], [x]) if args[0] is not None else x):
                            yield x
                        continue
                    if n == 'takewhile':
                        if not I.truth(I.call(args[0], [x])):
                            return
                        yield x
                        continue
                    if drop and I.truth(I.call(args[0], [x])):
                        continue
                    drop = False
                    yield x
            return IterO(g())
        if n == 'starmap':
            def g():
                for x in I.iterate(args[1]):
                    yield I.call(args[0], list(I.iterate(x)))
            return IterO(g())
        if n == 'zip_longest':
            rows = [list(self.iterate(a)) for a in args]
            fill = kwargs.get('fillvalue')
            m = max([len(r) for r in rows] or [0])
            return IterO(iter([tuple(r[i] if i < len(r) else fill for r in rows) for i in range(m)]))
        if n == 'product':
            import itertools
            rep = self.raw(kwargs.get('repeat', 1))
            rows = [list(self.iterate(a)) for a in args] * rep
            return IterO(iter([tuple(x) for x in itertools.product(*rows)]))
        if n in ('combinations', 'permutations', 'combinations_with_replacement'):
            import itertools
            a = [list(self.iterate(args[0]))] + [self.raw(x) for x in args[1:]]
            return IterO(iter([tuple(x) for x in getattr(itertools, n)(*a)]))
        if n == 'pairwise':
            r = list(self.iterate(args[0]))
            return IterO(iter([(x, y) for x, y in zip(r, r[1:])]))
        if n == 'accumulate':
            def g():
                t = None
                for i, x in enumerate(I.iterate(args[0])):
                    t = x if i == 0 else (I.call(args[1], [t, x]) if len(args) > 1 else I.binop('Add', t, x))
                    yield t
            return IterO(g())
        if n == 'tee':
            r = list(self.iterate(args[0]))
            k = self.raw(args[1]) if len(args) > 1 else 2
            return tuple(IterO(iter(list(r))) for _ in range(k))
        if n == 'groupby':
            out = []
            key = args[1] if len(args) > 1 else kwargs.get('key')
            for x in self.iterate(args[0]):
                k = self.call(key, [x]) if key is not None else x
                if out and self.truth(self.eq(out[-1][0], k)):
                    out[-1][1].append(x)
                else:
                    out.append((k, [x]))
            return IterO(iter([(k, IterO(iter(v))) for k, v in out]))
        self.undecided('itertools.' + n)

    def x_math(self, n, args):
        args = [self.st.split(a) if isinstance(a, FDV) else a for a in args]
        if all(isinstance(a, RAW) for a in args):
            return self.fold(getattr(_math, n), *args)
        if n in ('floor', 'ceil', 'trunc'):
            a = args[0]
            if kind_of(a, self.st) == 'int':
                return a
            if n == 'trunc':
                return T('int', (a,))
            return T('intop', (n, a))
        if n in ('isnan', 'isinf', 'isfinite', 'isclose'):
            return T('pred', (n,) + tuple(args))
        return T('float', (n,) + tuple(args))

    def x_re(self, n, args, kwargs):
        if n in ('compile',):
            return self.mkregex(args[0], args[1] if len(args) > 1 else kwargs.get('flags', 0))
        if n == 'escape':
            v = self.st.rep(args[0])
            if isinstance(v, T) and kind_of(v, self.st) == 'str':
                t = T('reescape', (v,))
                self.st.kinds[t] = 'str'
                return t
            return self.fold(_re.escape, self.raw(v))
        if n in ('match', 'fullmatch', 'search', 'findall', 'split', 'sub', 'finditer'):
            p = args[0]
            k = 3 if n == 'sub' else 2
            if not (isinstance(p, ExtO) and p.kind == 'regex'):
                p = self.mkregex(p, kwargs.get('flags', args[k] if len(args) > k and n not in ('sub', 'split') else 0))
            return self.regex(p, n, list(args[1:k]))
        self.undecided('re.' + n)

    def mkregex(self, pat, flags):
        pat = self.st.rep(pat) if isinstance(pat, T) else pat
        return ExtO('regex', pat=pat if isinstance(pat, T) else self.raw(pat), flags=self.raw(flags))

    def regex(self, p, n, args):
        pat, st = p.data['pat'], self.st
        if isinstance(pat, T):
            # a pattern made from an unknown string: quoted as a whole it is the string itself, else anything may match
            text = st.rep(args[0]) if args else None
            if pat.op == 'reescape' and not p.data['flags'] and n in ('fullmatch', 'match', 'search'):
                x = pat.args[0]
                r = (self.eq(text, x) if n == 'fullmatch' else self.contains(text, x) if n == 'search' else
                     self.method(text, 'startswith', [x], {}))
                return ExtO('rematch', m=None) if self.truth(r) else None
            if pat.op == 'sym' and n in ('fullmatch', 'match', 'search'):
                return ExtO('rematch', m=None) if st.decide(T('pred', ('rematch', n, pat, text))) else None
            self.undecided('regular expression with an unknown part')
        try:
            pat = _re.compile(pat, p.data['flags'] or 0)
        except _re.error as e:
            self.raise_('ValueError', str(e))
        if n == 'sub':
            return self.fold(lambda: pat.sub(self.raw(args[0]), self.raw(args[1])))
        text = self.raw(args[0])
        rest = [self.raw(x) for x in args[1:]]
        if n in ('findall', 'split'):
            return self.fold(lambda: getattr(pat, n)(text, *rest))
        if n == 'finditer':
            return IterO(iter([ExtO('rematch', m=m) for m in pat.finditer(text, *rest)]))
        m = getattr(pat, n)(text, *rest)
        return None if m is None else ExtO('rematch', m=m)

    # -- functools, collections, ... ------------------------------------------------------------------------------
    def x_functools_reduce(self, f, it, *init):
        gen = self.iterate(it)
        if init:
            acc = init[0]
        else:
            try:
                acc = next(gen)
            except StopIteration:
                self.raise_('TypeError', 'reduce() of empty iterable with no initial value')
        for x in gen:
            acc = self.call(f, [acc, x])
        return acc

    def x_functools_partial(self, f, *a, **kw):
        return ExtO('partial', func=f, args=list(a), kwargs=dict(kw))

    def x_functools_wraps(self, f, *a, **kw):
        return ExtO('decorator', apply=lambda v: v)

    def x_functools_lru_cache(self, *a, **kw):
        if a and isinstance(a[0], (FuncV, ExtO)):
            return ExtO('lru', func=a[0], cache=[])
        return ExtO('decorator', apply=lambda v: ExtO('lru', func=v, cache=[]))

    x_functools_cache = x_functools_lru_cache

    def x_functools_cmp_to_key(self, f):
        return ExtO('cmpkey', func=f)

    def x_functools_partialmethod(self, f, *a, **kw):
        return ExtO('partialmethod', func=f, args=list(a), kwargs=dict(kw))

    def x_collections_OrderedDict(self, *a, **kw):
        return self.b_dict(*a, **kw)

    def x_collections_defaultdict(self, f=None, *a, **kw):
        d = self.b_dict(*a, **kw)
        d.default = f
        return d

    def x_collections_deque(self, it=(), maxlen=None):
        return ListO(self.iterate(it))

    def x_collections_Counter(self, it=()):
        d = DictO()
        d.default = ExtO('const', value=0)
        for x in self.iterate(it):
            c = self.dict_get(d, x, 0)
            self.dict_set(d, x, self.binop('Add', c, 1))
        return d

    def x_collections_namedtuple(self, name, fields, **kw):
        if isinstance(fields, str):
            fs = tuple(fields.replace(',', ' ').split())
        else:
            fs = tuple(self.iterate(fields))
        fr = self.stack[-1] if self.stack else None
        d = {'_fields': fs}
        if 'defaults' in kw:
            dv = list(self.iterate(kw['defaults']))
            d['_field_defaults'] = dict(zip(fs[len(fs) - len(dv):], dv))
        return ClassV(name, (fr.mod.name if fr else '') + '.' + name, fr.mod if fr else None, [], d)

    def x_types_SimpleNamespace(self, **kw):
        return Inst(ClassV('SimpleNamespace', 'types.SimpleNamespace', None, [], {}), dict(kw))

    def x_types_MappingProxyType(self, d):
        return d

    def x_enum_auto(self):
        return ExtO('auto')

    def x_enum_Enum(self, name, members, **kw):
        fr = self.stack[-1]
        d = {}
        if isinstance(members, str):
            members = ListO(members.replace(',', ' ').split())
        if isinstance(members, DictO):
            for k, v in members.pairs:
                d[k] = v
        else:
            for i, x in enumerate(self.iterate(members)):
                if isinstance(x, tuple):
                    d[x[0]] = x[1]
                else:
                    d[x] = i + 1
        c = ClassV(name, fr.mod.name + '.' + name, fr.mod, [ExtV('enum.Enum')], d)
        self.finish_class(c)
        return c

    def x_dataclasses_dataclass(self, cls=None, **kw):
        if cls is not None:
            return self.make_dataclass(cls, kw)
        return ExtO('decorator', apply=lambda v: self.make_dataclass(v, kw))

    def x_dataclasses_field(self, **kw):
        if 'default_factory' in kw:
            return ExtO('field', factory=kw['default_factory'])
        return ExtO('field', default=kw.get('default'))

    def x_dataclasses_replace(self, o, **kw):
        n = Inst(o.cls, dict(o.attrs))
        n.attrs.update(kw)
        return n

    def x_dataclasses_asdict(self, o):
        return DictO([(f, o.attrs[f]) for f in o.cls.dataclass])

    def x_contextlib_contextmanager(self, f):
        return ExtO('ctxmaker', func=f)

    def x_contextlib_suppress(self, *excs):
        return ExtO('suppress', excs=tuple(excs))

    def x_contextlib_closing(self, o):
        return ExtO('closing', obj=o)

    def x_contextlib_nullcontext(self, o=None):
        return ExtO('nullctx', obj=o)

    def x_copy_copy(self, o):
        if isinstance(o, Inst):
            m = self._user(o, '__copy__')
            if m is not None:
                return self.call(m, [o])
            n = Inst(o.cls, dict(o.attrs), o.tag)
            n.lazy = o.lazy
            return n
        if isinstance(o, ListO):
            return ListO(o.items)
        if isinstance(o, SetO):
            return SetO(o.items, o.frozen)
        if isinstance(o, DictO):
            d = DictO(o.pairs)
            d.default = o.default
            return d
        if isinstance(o, BArr):
            return BArr(o.content)
        return o

    def x_copy_deepcopy(self, o, memo=None):
        memo = {} if not isinstance(memo, dict) else memo
        if id(o) in memo:
            return memo[id(o)]
        if isinstance(o, tuple):
            return tuple(self.x_copy_deepcopy(x, memo) for x in o)
        if isinstance(o, (Inst, ListO, SetO, DictO, BArr)):
            n = self.x_copy_copy(o)
            memo[id(o)] = n
            if isinstance(n, Inst):
                for k in n.attrs:
                    n.attrs[k] = self.x_copy_deepcopy(n.attrs[k], memo)
            elif isinstance(n, (ListO, SetO)):
                n.items = [self.x_copy_deepcopy(x, memo) for x in n.items]
            elif isinstance(n, DictO):
                n.pairs = [[self.x_copy_deepcopy(k, memo), self.x_copy_deepcopy(v, memo)] for k, v in n.pairs]
            return n
        return o

    def x_sys_exit(self, *a):
        self.raise_('SystemExit', a[0] if a else None)

    def x_sys_getsizeof(self, *a):
        return usym('sizeof%d' % self.st.fresh('sizeof'), 'int')

    def x_sys_setrecursionlimit(self, n):
        return None

    def x_sys_getrecursionlimit(self):
        return 1000

    def x_importlib_import_module(self, name):
        return self.load(self.raw(name))

    # -- struct, base64, io ---------------------------------------------------------------------------------------
    def x_struct_pack(self, fmt, *vals):
        return self.struct_pack(fmt, list(vals))

    def x_struct_unpack(self, fmt, data):
        return self.struct_unpack(fmt, data)

    def x_struct_unpack_from(self, fmt, data, offset=0):
        return self.struct_unpack(fmt, data, False, offset)

    def x_struct_calcsize(self, fmt):
        return self.fmt_size(fmt)

    def x_struct_Struct(self, fmt):
        return ExtO('struct', fmt=fmt)

    def as_bytes(self, v):
        v = self.st.norm(v)
        if isinstance(v, BArr):
            return v.content
        k = kind_of(v, self.st)
        if k == 'str':
            self.raise_('TypeError', "a bytes-like object is required, not 'str'")
        return v

    def x_base64_b64encode(self, v, altchars=None):
        v = self.as_bytes(v)
        if isinstance(v, bytes):
            return _b64.b64encode(v)
        if isinstance(v, T):
            v = self.st.rep(v)
            if isinstance(v, bytes):
                return _b64.b64encode(v)
            return T('b64', (v,))
        self.raise_('TypeError', 'a bytes-like object is required')

    x_base64_standard_b64encode = x_base64_b64encode

    def x_base64_encodebytes(self, v):
        return T('bytesop', ('b64lines', self.as_bytes(v)))

    def x_base64_urlsafe_b64encode(self, v):
        return T('bytesop', ('b64url', self.as_bytes(v)))

    def x_base64_b64decode(self, v, altchars=None, validate=False):
        st = self.st
        v = st.norm(v)
        if isinstance(v, BArr):
            v = v.content
        if isinstance(v, T):
            v = st.rep(v)
        if isinstance(v, (bytes, str)):
            return self.fold(_b64.b64decode, v)
        if isinstance(v, T):
            w = v
            if w.op == 'dec' and len(w.args) == 1:
                w = st.rep(w.args[0])
            if isinstance(w, T) and w.op == 'utf8':
                w2 = st.rep(w.args[0])
                if isinstance(w2, T) and w2.op == 'dec':
                    w = w2.args[0]
            if isinstance(w, T) and w.op == 'b64':
                return w.args[0]
            if not st.decide(T('pred', ('b64ok', v))):
                self.raise_('binascii.Error', 'Incorrect padding')
            t = T('bytesop', ('unb64', v))
            return t
        self.raise_('TypeError', 'argument should be a bytes-like object or ASCII string')

    x_base64_standard_b64decode = x_base64_b64decode
    x_base64_decodebytes = x_base64_b64decode

    def x_base64_urlsafe_b64decode(self, v):
        if isinstance(v, T) and v.op == 'bytesop' and v.args[0] == 'b64url':
            return v.args[1]
        return T('bytesop', ('unb64url', v))

    def x_binascii_b2a_base64(self, v, newline=True):
        return T('bytesop', ('b64nl', self.as_bytes(v)))

    def x_binascii_hexlify(self, v):
        return T('bytesop', ('hex', self.as_bytes(v)))

    def x_io_BytesIO(self, v=b''):
        return ExtO('bytesio', content=self.as_bytes(v), pos=0)

    def path_text(self, v):
        return v.data['p'] if isinstance(v, ExtO) and v.kind == 'path' else v

    def path_method(self, o, name, args, kwargs):
        p = o.data['p']
        mk = lambda t: ExtO('path', p=t)
        if name in ('resolve', 'absolute', 'expanduser'):
            return mk(self.x_ospath('abspath', [p]))
        if name in ('joinpath', '__truediv__'):
            return mk(self.x_ospath('join', [p] + [self.path_text(a) for a in args]))
        if name in ('as_posix', '__str__', '__fspath__'):
            return p
        if name in ('exists', 'is_file', 'is_dir'):
            return self.x_os_path_exists(p)
        if name == 'mkdir':
            return self.x_os_makedirs(p)
        if name == 'unlink':
            return self.x_os_remove(p)
        if name in ('rename', 'replace'):
            self.x_os_replace(p, self.path_text(args[0]))
            return mk(self.path_text(args[0]))
        if name == 'open':
            return self.x_open(p, *args, **kwargs)
        if name in ('read_bytes', 'read_text', 'write_bytes', 'write_text'):
            f = self.x_open(p, name[0] + ('b' if name.endswith('bytes') else ''))
            r = self.exto_method(f, name.split('_')[0], args[:1] if name[0] == 'w' else [], {})
            self.exto_method(f, 'close', [], {})
            return r
        if name == 'with_name':
            return mk(self.x_ospath('join', [self.x_ospath('dirname', [p]), args[0]]))
        self.undecided('Path.' + name)

    def x_open(self, path, mode='r', *a, **kw):
        path = self.path_text(path)
        mode = self.raw(mode)
        f = ExtO('file', path=path, mode=mode, closed=False, pos=0)
        self.st.event('open', path=path, mode=mode, file=f)
        fs = self.fs()
        k = ckey(path)
        if 'w' in mode:
            fs[k] = b'' if 'b' in mode else ''
        elif 'a' in mode and k not in fs:
            t = T('filedata', (path,))
            self.st.kinds[t] = 'bytes' if 'b' in mode else 'str'
            fs[k] = t
        elif 'r' in mode and k not in fs and '+' not in mode:
            h = self.exthooks.get('open')
            if h is not None:
                h(self, path, [mode], {})
        return f

    def fs(self):
        if not hasattr(self.st, 'fs'):
            self.st.fs = {}
        return self.st.fs

    x_io_open = x_open

    def x_os_open(self, path, flags, mode=0o777):
        f = ExtO('file', path=path, mode='wb', closed=False, pos=0, fd=True)
        self.st.event('open', path=path, mode='wb', file=f)
        self.fs()[ckey(path)] = b''
        return f

    def x_os_fdopen(self, f, mode='r', *a):
        return f

    def x_os_write(self, f, data):
        return self.exto_method(f, 'write', [data], {})

    def x_os_close(self, f):
        return None

    def x_ospath(self, n, args):
        args = [self.st.rep(a) if isinstance(a, T) else a for a in args]
        if n in ('join',):
            return cat([x for i, a in enumerate(args) for x in ((['/'] if i and not (
                isinstance(args[i - 1], str) and args[i - 1].endswith('/') or isinstance(args[i - 1], T) and
                isinstance(cat_parts(args[i - 1])[-1], str) and cat_parts(args[i - 1])[-1].endswith('/')) else []) + [a])])
        if n in ('abspath', 'normpath', 'realpath', 'expanduser', 'relpath', 'fspath') and isinstance(args[0], T):
            return args[0]
        if n == 'dirname':
            ps = cat_parts(args[0])
            if isinstance(ps[-1], str) and '/' in ps[-1]:
                return cat(ps[:-1] + [ps[-1][:ps[-1].rindex('/')]])
            if isinstance(args[0], T):
                return T('strop', ('dirname', args[0]))
        if n == 'basename':
            ps = cat_parts(args[0])
            if isinstance(ps[-1], str) and '/' in ps[-1]:
                return ps[-1][ps[-1].rindex('/') + 1:]
        if all(isinstance(a, str) for a in args):
            if n == 'abspath':
                return args[0] if args[0].startswith('/') else cat([usym('cwd', 'str', 'n'), '/', args[0]])
            return self.fold(getattr(os.path, n), *args)
        return T('strop', (n,) + tuple(args))

    def x_os_path_getsize(self, path):
        c = self.fs().get(ckey(path))
        if c is not None:
            return self.len_(c)
        return T('intop', ('getsize', path))

    def x_os_path_exists(self, path):
        if ckey(path) in self.fs():
            return True
        return self.st.decide(T('pred', ('exists', path)))

    x_os_path_isfile = x_os_path_exists
    x_os_path_isdir = x_os_path_exists

    def x_os_makedirs(self, path, *a, **kw):
        self.st.event('mkdir', path=path)

    x_os_mkdir = x_os_makedirs

    def x_os_chmod(self, *a, **kw):
        self.st.event('chmod', args=a)

    def x_os_remove(self, path):
        self.st.event('remove', path=path)
        self.fs().pop(ckey(path), None)

    x_os_unlink = x_os_remove

    def x_os_replace(self, src, dst):
        fs = self.fs()
        if ckey(src) not in fs:
            t = T('filedata', (src,))
            self.st.kinds[t] = 'bytes'
            fs[ckey(src)] = t
        fs[ckey(dst)] = fs.pop(ckey(src))
        self.st.event('open', path=dst, mode='wb', file=None)
        self.st.event('write', path=dst, data=fs[ckey(dst)], file=None)

    x_os_rename = x_os_replace

    x_os_unlink = x_os_remove

    def x_os_getenv(self, k, d=None):
        k = self.raw(k)
        if self.st.decide(T('pred', ('environ', k))):
            return usym('environ:' + k, 'str')
        return d

    def x_os_environ_get(self, k, d=None):
        return self.x_os_getenv(k, d)

    # -- time -----------------------------------------------------------------------------------------------------
    def now(self):
        """The current time, read once more: not before the previous reading."""
        st = self.st
        t = usym('time%d' % st.fresh('time'), 'float')
        st.nonneg.add(t)
        prev = getattr(st, 'lasttime', None)
        if prev is not None:
            st._order_add(prev, t, 0, False)
        st.lasttime = t
        st.event('time', value=t)
        return t

    def x_time(self, n, args, kwargs):
        if n in ('time', 'perf_counter', 'monotonic', 'process_time'):
            if n == 'time':
                return self.now()
            return usym('%s%d' % (n, self.st.fresh(n)), 'float')
        if n == 'time_ns':
            return T('intop', ('ns', self.now()))
        if n in ('gmtime', 'localtime'):
            return ExtO('tm', t=args[0] if args and args[0] is not None else self.now(), zone=n)
        if n == 'strftime':
            tm = args[1] if len(args) > 1 else ExtO('tm', t=self.now(), zone='localtime')
            if isinstance(tm, ExtO) and tm.kind == 'tm':
                return T('strop', ('strftime', args[0], tm.data['t'], tm.data['zone']))
            return usym('strftime%d' % self.st.fresh('strftime'), 'str')
        if n == 'mktime':
            return usym('mktime%d' % self.st.fresh('mktime'), 'float')
        if n == 'sleep':
            return None
        if n in ('ctime', 'asctime'):
            return usym('%s%d' % (n, self.st.fresh(n)), 'str')
        self.undecided('time.' + n)

    # -- crypto ---------------------------------------------------------------------------------------------------
    def call_crypto(self, path, args, kwargs):
        st = self.st
        last = path.split('.')[-1]
        if path in ('Crypto.Random.random.getrandbits', 'Crypto.Random.get_random_bytes',
                    'Crypto.Random.random.randint', 'Crypto.Random.random.randrange',
                    'Crypto.Random.random.StrongRandom'):
            return self.random_value(path, args)
        if path.startswith('Crypto.Hash.') and last == 'new':
            algo = path.split('.')[-2]
            d = args[0] if args else kwargs.get('data')
            return ExtO('hash', algo=algo, data=self.as_bytes(d) if d is not None else b'')
        if path == 'Crypto.PublicKey.RSA.generate':
            k = usym('rsagen%d' % st.fresh('rsagen'), 'rsa')
            o = ExtO('rsa', term=k, private=True, bits=args[0] if args else kwargs.get('bits'))
            st.event('rsagen', bits=o.data['bits'], value=k, key=o)
            return o
        if path in ('Crypto.PublicKey.RSA.import_key', 'Crypto.PublicKey.RSA.importKey'):
            d = args[0] if args else kwargs.get('extern_key')
            pw = args[1] if len(args) > 1 else kwargs.get('passphrase')
            return self.import_key(d, pw)
        if path.startswith('Crypto.Signature.') and last == 'new':
            key = args[0] if args else kwargs.get('rsa_key')
            return ExtO('pkcs', key=key, scheme=path.split('.')[-2])
        return NotImplemented

    def import_key(self, d, pw=None):
        st = self.st
        d = st.norm(d)
        if isinstance(d, BArr):
            d = d.content
        if isinstance(d, T):
            d = st.rep(d)
        if d is None or isinstance(d, (int, float)):
            self.raise_('TypeError', 'RSA key format is not supported')
        if isinstance(d, (str, bytes)) and isinstance(d, str):
            d = d.encode()
        if isinstance(d, T) and d.op == 'dec' and len(d.args) == 1:
            d = d.args[0]
        if isinstance(d, T) and d.op == 'utf8':
            x = st.rep(d.args[0])
            if isinstance(x, T) and x.op == 'dec' and len(x.args) == 1:
                d = x.args[0]
        if isinstance(d, T) and d.op == 'export':
            inner = d.args[0]
            if d.args[2] is None or ckey(d.args[2]) == ckey(pw):
                return ExtO('rsa', term=inner, private=bool(d.args[1]), bits=T('intop', ('bits', inner)))
            self.raise_('ValueError', 'PEM is encrypted, but no passphrase is available')
        if isinstance(d, bytes):
            self.raise_('ValueError', 'RSA key format is not supported')
        if not st.decide(T('pred', ('rsakey', d, pw))):
            self.raise_('ValueError', 'RSA key format is not supported')
        t = T('rsakey', (d,) if pw is None else (d, pw))
        return ExtO('rsa', term=t, private=pw is not None, bits=T('intop', ('bits', t)))

    def key_term(self, k):
        if isinstance(k, ExtO) and k.kind == 'rsa':
            return k.data['term']
        return k

    def rsa_method(self, o, name, args, kwargs):
        st = self.st
        if name in ('publickey', 'public_key'):
            return ExtO('rsa', term=o.data['term'], private=False, bits=o.data['bits'])
        if name in ('exportKey', 'export_key'):
            names = ['format', 'passphrase', 'pkcs', 'protection', 'randfunc', 'prot_params']
            kw = dict(zip(names, args))
            kw.update(kwargs)
            fmt = kw.get('format', 'PEM')
            pw = kw.get('passphrase')
            if isinstance(pw, T) and o.data['private']:
                # an absent or empty passphrase leaves the private key in the clear
                k = kind_of(pw, st)
                if k is None and self.truth(self.is_(pw, None)):
                    pw = None
            t = T('export', (o.data['term'], o.data['private'], pw if o.data['private'] else None, fmt))
            st.kinds[t] = 'bytes'
            st.event('exportkey', key=o, private=o.data['private'], passphrase=pw, kwargs=kw, value=t)
            return t
        if name == 'size_in_bits':
            b = o.data['bits']
            return b
        if name == 'size_in_bytes':
            return T('intop', ('bytes', o.data['term']))
        if name == 'has_private':
            return o.data['private']
        if name in ('__eq__',):
            return self.exto_eq(o, args[0])
        self.undecided('RSA key method ' + name)

    def hash_term(self, h):
        if isinstance(h, ExtO) and h.kind == 'hash':
            return T('hashobj', (h.data['algo'], h.data['data']))
        return h

    def hash_method(self, o, name, args, kwargs):
        if name == 'update':
            o.data['data'] = bcat([o.data['data'], self.as_bytes(args[0])])
            return o
        size = HASHES.get(o.data['algo'], HASHES.get(o.data['algo'].lower(), 32))
        algo = o.data['algo'].upper()
        d = T('digest', (o.data['data'],) if size == 32 and algo == 'SHA256' else (o.data['data'], size, algo))
        if name == 'digest':
            return d
        if name == 'hexdigest':
            return T('strop', ('hex', d))
        if name == 'copy':
            return ExtO('hash', **o.data)
        self.undecided('hash method ' + name)

    def pkcs_method(self, o, name, args, kwargs):
        st = self.st
        key = o.data['key']
        kt = self.key_term(key)
        h = self.hash_term(args[0] if args else kwargs.get('msg_hash'))
        if name == 'sign':
            if isinstance(key, ExtO) and key.kind == 'rsa' and not key.data['private']:
                self.raise_('TypeError', 'This is not a private key')
            t = T('sig', (o.data['scheme'], kt, h))
            st.kinds[t] = 'bytes'
            st.event('sign', key=key, hash=h, value=t)
            return t
        if name == 'verify':
            sig = args[1] if len(args) > 1 else kwargs.get('signature')
            if isinstance(sig, BArr):
                sig = sig.content
            st.event('sigcheck', key=kt, hash=h, sig=sig, scheme=o.data['scheme'])
            if isinstance(sig, T):
                s = st.rep(sig)
                if isinstance(s, T) and s.op == 'sig':
                    if ckey(s.args[1]) == ckey(kt) and ckey(s.args[2]) == ckey(h) and s.args[0] == o.data['scheme']:
                        return None
            if not st.decide(T('pred', ('sigok', o.data['scheme'], kt, h, sig))):
                self.raise_('ValueError', 'Invalid signature')
            return None
        if name == 'can_sign':
            return bool(isinstance(key, ExtO) and key.data.get('private'))
        self.undecided('signature method ' + name)

    def x_bcrypt_checkpw(self, pw, hashed):
        pw, hashed = self.as_bytes(pw), self.as_bytes(hashed)
        a = T('pred', ('checkpw', pw, hashed))
        self.st.event('checkpw', password=pw, hashed=hashed, atom=a)
        k = self.st.known(a)
        return a if k is None else k

    def x_bcrypt_hashpw(self, pw, salt):
        t = T('bcrypt', (self.as_bytes(pw), salt))
        self.st.kinds[t] = 'bytes'
        self.st.event('hashpw', password=pw, salt=salt, value=t)
        return t

    def x_bcrypt_gensalt(self, *a, **kw):
        t = usym('salt%d' % self.st.fresh('salt'), 'bytes')
        self.st.event('gensalt', args=a, kwargs=kw, value=t)
        return t

    # -- ladon ----------------------------------------------------------------------------------------------------
    def call_ladon(self, path, args, kwargs):
        st = self.st
        last = path.split('.')[-1]
        if last == 'ladonize':
            st.event('ladonize', args=tuple(args), kwargs=dict(kwargs))
            return ExtO('decorator', apply=lambda v: v)
        if last == 'attachment':
            return ExtO('attachment', file=args[0] if args else None)
        if last == 'JSONWSPClient':
            c = ExtO('wsclient', url=args[0] if args else kwargs.get('url'))
            st.event('wsclient', url=c.data['url'], client=c)
            return c
        return ExtO('opaque', path=path, args=tuple(args))

    # -- configparser ---------------------------------------------------------------------------------------------
    def x_configparser_ConfigParser(self, *a, **kw):
        return ExtO('config', files=[], defaults=kw.get('defaults'))

    x_configparser_RawConfigParser = x_configparser_ConfigParser
    x_configparser_SafeConfigParser = x_configparser_ConfigParser

    def cfg_name(self, o):
        fs = o.data['files']
        if not fs:
            return 'none'
        p = cat_parts(fs[-1])[-1]
        return os.path.basename(p) if isinstance(p, str) else show(p)

    def cfg_has(self, o, sect, key=None):
        """Presence of a section, or of a key in exactly that section."""
        if sect == 'DEFAULT' and key is None:
            return False
        a = T('pred', ('cfgsect', self.cfg_name(o), sect) if key is None else ('cfgkey', self.cfg_name(o), sect, key))
        return self.st.decide(a)

    def cfg_value(self, o, sect, key):
        """Value under the section, with configparser's fall-back to DEFAULT; DEAD if absent."""
        if isinstance(key, str):
            key = key.lower()
        else:
            key = self.method(key, 'lower', [], {})
        st = self.st
        n = self.cfg_name(o)
        if not (isinstance(sect, str) and sect == 'DEFAULT') and self.cfg_has(o, sect, key):
            s = sect
        elif self.cfg_has(o, 'DEFAULT', key):
            s = 'DEFAULT'
        else:
            return DEAD
        t = T('cfgval', (n, s, key))
        st.kinds[t] = 'str'
        return t

    def config_method(self, o, name, args, kwargs):
        st = self.st
        if name in ('read', 'read_file'):
            a = self.path_text(args[0])
            if isinstance(a, ListO):
                for x in a.items:
                    o.data['files'].append(self.path_text(x))
            else:
                o.data['files'].append(a)
            st.event('cfgread', path=a)
            return ListO([a])
        if name == 'has_section':
            if isinstance(args[0], str) and args[0] == 'DEFAULT':
                return False
            return self.cfg_has(o, args[0])
        if name == 'has_option':
            if not (args[0] in ('DEFAULT', '') if isinstance(args[0], str) else False) and not self.cfg_has(o, args[0]):
                return False
            return self.cfg_value(o, args[0], args[1]) is not DEAD
        if name in ('get', 'getint', 'getboolean', 'getfloat'):
            sect = args[0]
            if not (isinstance(sect, str) and sect == 'DEFAULT') and not self.cfg_has(o, sect):
                if 'fallback' in kwargs:
                    return kwargs['fallback']
                self.raise_('configparser.NoSectionError', sect)
            v = self.cfg_value(o, sect, args[1])
            if v is DEAD:
                if 'fallback' in kwargs:
                    return kwargs['fallback']
                self.raise_('configparser.NoOptionError', args[1])
            return v
        if name == 'defaults':
            return ExtO('cfgsect', cfg=o, sect='DEFAULT')
        if name in ('sections',):
            return ExtO('cfgsections', cfg=o)
        if name == 'getitem':
            pass
        self.undecided('ConfigParser.' + name)

    def cfg_item(self, o, sect):
        if not (isinstance(sect, str) and sect == 'DEFAULT') and not self.cfg_has(o, sect):
            self.raise_('KeyError', sect)
        return ExtO('cfgsect', cfg=o, sect=sect)

    # -- library objects ------------------------------------------------------------------------------------------
    def call_exto(self, o, args, kwargs):
        k, d = o.kind, o.data
        if k == 'pyfunc':
            return d['f'](list(args))
        if k == 'const':
            return d['value']
        if k == 'partial':
            kw = dict(d['kwargs'])
            kw.update(kwargs)
            return self.call(d['func'], d['args'] + list(args), kw)
        if k == 'decorator':
            return d['apply'](args[0])
        if k == 'lru':
            return self.call_lru(o, args, kwargs)
        if k == 'singledispatch':
            if d.get('method') and len(args) < 2:
                self.undecided('singledispatchmethod without argument')
            a = args[1] if d.get('method') else args[0]
            # the most specific registered class decides; the classes a class derives from come after it
            order = []
            for cls, f in reversed(d['reg']):
                i = next((i for i, (c, _) in enumerate(order) if isinstance(c, ClassV) and isinstance(cls, ClassV) and
                          c in cls.mro), len(order))
                order.insert(i, (cls, f))
            for cls, f in order:
                if self.truth(self.isinstance_(a, cls)):
                    return self.call(f, args, kwargs)
            return self.call(d['func'], args, kwargs)
        if k == 'ctxmaker':
            return ExtO('ctxgen', it=self.call(d['func'], args, kwargs))
        if k == 'maker':
            if d.get('scoped') and d.get('cur'):
                return d['cur'][0]         # the session of this thread
            s = ExtO('session', maker=o, n=self.st.fresh('session'))
            self.st.event('db_session', session=s, maker=o)
            if d.get('scoped'):
                d['cur'] = [s]
            return s
        if k == 'super':
            self.undecided('call of super object')
        if k in ('rel', 'column', 'sqlfunc'):
            return self.call_sql('sqlalchemy.func', args, kwargs)
        return self.opaque_call(T('attr', (usym('obj:%s' % k), '__call__')), args, kwargs)

    def call_lru(self, o, args, kwargs):
        key = list(args) + [x for p in sorted(kwargs.items()) for x in p]
        for a in key:
            self.hashable(a)
        st = self.st
        for old, val in o.data['cache']:
            if len(old) == len(key) and all(self.truth(self.eq_id(x, y)) for x, y in zip(old, key)):
                st.event('cachehit', func=o)
                return val
        v = self.call(o.data['func'], args, kwargs)
        o.data['cache'].append((key, v))
        st.event('mutate', obj=o, name='lru_cache', value=v)
        return v

    def exto_attr(self, o, name):
        k, d = o.kind, o.data
        if k == 'super':
            return self.super_attr(o, name)
        if k == 'logger':
            if name == 'name':
                n = d.get('name')
                return n if isinstance(n, str) or kind_of(n, self.st) == 'str' else usym('loggername', 'str')
            if name in ('parent', 'handlers', 'level'):
                return d.get(name, ListO() if name == 'handlers' else None)
        if k == 'path':
            if name == 'parent':
                return ExtO('path', p=self.x_ospath('dirname', [d['p']]))
            if name == 'name':
                return self.x_ospath('basename', [d['p']])
        if k == 'tm' and name.startswith('tm_'):
            t = T('intop', ('tm', d['t'], d['zone'], name))
            if name == 'tm_isdst' and d['zone'] == 'gmtime':
                return 0
            return t
        if k == 'struct' and name in ('size', 'format'):
            return self.fmt_size(d['fmt']) if name == 'size' else d['fmt']
        if k == 'rsa' and name in ('n', 'e', 'd', 'p', 'q', 'u'):
            return T('intop', ('rsa' + name, d['term']))
        if k == 'hash' and name in ('digest_size', 'name', 'block_size', 'oid'):
            if name == 'digest_size':
                return HASHES.get(d['algo'], 32)
            return usym('hash' + name, 'str')
        if k == 'file':
            if name == 'closed':
                return d['closed']
            if name == 'name':
                return d['path']
            if name == 'mode':
                return d['mode']
        if k == 'attachment' and name in d:
            return d[name]
        if k == 'response':
            return self.response_attr(o, name)
        if k == 'lru' and name == '__wrapped__':
            return d['func']
        if k in ('lru', 'singledispatch', 'partial', 'ctxmaker') and name in ('__name__', '__qualname__', '__doc__'):
            f = d['func']
            return self.getattr(f, name) if not isinstance(f, ExtO) else 'f'
        if k == 'partial' and name in ('func', 'args', 'keywords'):
            return {'func': d['func'], 'args': tuple(d['args']), 'keywords': DictO(list(d['kwargs'].items()))}[name]
        if k == 'range' and name in ('start', 'stop', 'step'):
            if d['r'] is None:
                return {'start': d['bounds'][0], 'stop': d['bounds'][1], 'step': 1}[name]
            return getattr(d['r'], name)
        if k == 'rematch' and d['m'] is None:
            return BMeth(o, name)
        if k == 'rematch' and name in ('lastgroup', 'pos', 'endpos', 'string', 'lastindex'):
            return getattr(d['m'], name)
        if k == 'opaque':
            return usym('%s.%s' % (d['path'], name)) if name not in LOGM else BMeth(o, name)
        if k in self.ORM_KINDS:
            r = self.orm_attr(o, name)
            if r is not DEAD:
                return r
        if name in d.get('attrs', {}):
            return d['attrs'][name]
        if name == '__class__':
            return ExtV('class:' + k)
        return BMeth(o, name)

    def super_attr(self, o, name):
        cls, s = o.data['cls'], o.data['self']
        scls = s if isinstance(s, ClassV) else s.cls if isinstance(s, (Inst, EnumV)) else None
        if scls is None:
            self.undecided('super() of %s' % show(s))
        mro = scls.mro
        i = mro.index(cls) if cls in mro else -1
        for c in mro[i + 1:]:
            if name in c.dict:
                v = c.dict[name]
                if isinstance(s, ClassV):
                    if isinstance(v, Wrap) and v.kind == 'class':
                        return BoundV(v.func, s)
                    if isinstance(v, Wrap):
                        return v.func
                    if name == '__new__':
                        return v
                    return v
                return self.bind_attr(v, s, scls)
        for b in scls.ext_bases():
            if isinstance(b, BuiltinV) and b.name in _EXC and name in ('__init__', '__str__', '__repr__', 'with_traceback'):
                if name == '__init__':
                    def f(a, s=s):
                        s.attrs['args'] = tuple(a)
                    return ExtO('pyfunc', f=f)
                if name == '__str__':
                    return ExtO('pyfunc', f=lambda a: self.exc_or_repr(s))
            if isinstance(b, BuiltinV) and b.name in ('dict', 'list'):
                return BMeth(s, name)
        if name == '__init__':
            return ExtO('const', value=None)
        if name == '__new__':
            return ExtO('pyfunc', f=lambda a: Inst(a[0]))
        if name == '__init_subclass__':
            return ExtO('const', value=None)
        if name in ('__setattr__', '__eq__', '__ne__', '__hash__', '__str__', '__repr__', '__getattribute__', '__delattr__'):
            def f(a, name=name):
                if name == '__setattr__':
                    self.raw_setattr(s, self.raw(a[0]), a[1])
                    return None
                if name == '__eq__':
                    return True if s is a[0] else NOTIMPL
                if name == '__ne__':
                    return self.not_(self.eq(s, a[0]))
                if name == '__hash__':
                    return T('hash', ('id', id(s)))
                if name == '__getattribute__':
                    return self.getattr(s, self.raw(a[0]))
                return '<%s object>' % scls.name
            return ExtO('pyfunc', f=f)
        self.raise_('AttributeError', "'super' object has no attribute '%s'" % name)

    def response_attr(self, o, name):
        """Reply of a remote call: any status; the dictionary carries either a result or a fault."""
        st = self.st
        n = o.data['n']
        if name == 'status':
            t = T('sym', ('status%d' % n, 'int', ''))
            return t
        if name in ('response_dict',):
            return ExtO('reply', n=n)
        return usym('response%d.%s' % (n, name))

    def reply_fault(self, o):
        return self.st.decide(T('pred', ('fault', o.data['n'])))

    def exto_setattr(self, o, name, v):
        if o.kind in ('logger', 'opaque'):
            o.data[name] = v
            return
        if o.kind in ('attachment', 'file', 'wsclient', 'response', 'config'):
            o.data.setdefault('attrs', {})[name] = v
            return
        if o.kind == 'instdict':
            self.undecided('write to __dict__ attribute')
        o.data.setdefault('attrs', {})[name] = v
        self.st.event('mutate', obj=o, name=name)

    def exto_method(self, o, name, args, kwargs):
        k, d = o.kind, o.data
        st = self.st
        f = getattr(self, k + '_method', None)
        if f is not None:
            return f(o, name, list(args), dict(kwargs))
        if k == 'logger':
            if name in LOGM:
                return self.log_event(o, name, args, kwargs)
            if name == 'getChild':
                n = args[0]
                base = self.exto_attr(o, 'name')
                return self.logger_named(cat([base, '.', n]) if kind_of(n, st) == 'str' else usym('loggername', 'str'))
            if name in ('addHandler', 'removeHandler'):
                h = d.setdefault('handlers', ListO())
                if name == 'addHandler':
                    if not any(x is args[0] for x in h.items):
                        h.items.append(args[0])
                else:
                    h.items[:] = [x for x in h.items if x is not args[0]]
                return None
            if name in ('isEnabledFor', 'hasHandlers'):
                return st.decide(T('pred', ('log', name)))
            if name in ('getEffectiveLevel',):
                return 10
            if name == 'setLevel':
                d['level'] = args[0]
                st.event('loglevel', logger=o, level=args[0])
            return None
        if k == 'loghandler':
            if name == 'setFormatter':
                d['formatter'] = args[0]
            elif name == 'setLevel':
                d['level'] = args[0]
            return None
        if k == 'struct':
            if name == 'pack':
                return self.struct_pack(d['fmt'], list(args))
            if name == 'unpack':
                return self.struct_unpack(d['fmt'], args[0])
            if name == 'unpack_from':
                return self.struct_unpack(d['fmt'], args[0], False, args[1] if len(args) > 1 else kwargs.get('offset', 0))
        if k == 'dictview':
            if name == '__iter__':
                return IterO(self.iterate(o))
            return self.method(self.make_set(list(self.iterate(o))), name, args, kwargs)
        if k == 'instdict':
            return self.instdict_m(o, name, args, kwargs)
        if k == 'range':
            if name in ('index', 'count'):
                return getattr(self.range_of(o), name)(self.raw(args[0]))
        if k == 'attachment':
            if name == 'read':
                return self.attachment_read(o)
            if name in ('seek', 'close', 'write'):
                return None
        if k == 'file':
            return self.file_m(o, name, args, kwargs)
        if k == 'bytesio':
            return self.bytesio_m(o, name, args, kwargs)
        if k == 'wsclient':
            n = st.fresh('rpc')
            r = ExtO('response', n=n)
            st.event('rpc', client=o, method=name, args=tuple(args), kwargs=dict(kwargs), response=r)
            return r
        if k == 'reply':
            return self.reply_m(o, name, args, kwargs)
        if k == 'cfgsect':
            return self.cfgsect_m(o, name, args, kwargs)
        if k == 'lock':
            if name in ('acquire', 'locked'):
                return True
            return None
        if k == 'lru':
            if name == 'cache_clear':
                d['cache'][:] = []
                return None
            if name == '__wrapped__':
                return d['func']
        if k == 'singledispatch' and name == 'register':
            if len(args) == 2:
                d['reg'].append((args[0], args[1]))
                return args[1]
            if isinstance(args[0], FuncV):
                ann = args[0].node.args.args[1 if d.get('method') else 0].annotation
                cls = self.ev(ann, self.stack[-1])
                d['reg'].append((cls, args[0]))
                return args[0]
            cls = args[0]
            return ExtO('decorator', apply=lambda v: (d['reg'].append((cls, v)), v)[1])
        if k == 'regex':
            return self.regex(o, name, list(args))
        if k == 'rematch' and d['m'] is None:
            self.undecided('parts of a match of an unknown pattern')
        if k == 'rematch':
            return self.fold(getattr(d['m'], name), *[self.raw(a) for a in args])
        if k == 'rng':
            return self.random_value(d['path'] + '.' + name, args)
        if k == 'opaque':
            if name in LOGM:
                return self.log_event(o, name, args, kwargs)
            return self.opaque_call(ExtV(d['path'] + '.' + name), args, kwargs)
        if k == 'count':
            if name == '__next__':
                return self.b_next(o)
        if k == 'super':
            return self.call(self.super_attr(o, name), args, kwargs)
        if k == 'tm' or k == 'ctxgen':
            self.undecided('method %s of %s' % (name, k))
        if k in self.ORM_KINDS:
            return self.orm_method(o, name, list(args), dict(kwargs))
        self.undecided('method %s of %s' % (name, k))

    def attachment_read(self, o):
        d = o.data
        if 'content' in d:
            if d.get('readonce'):
                pos = d.get('done')
                d['done'] = True
                if pos:
                    return b''
            return d['content']
        if isinstance(d.get('file'), ExtO):
            return self.exto_method(d['file'], 'read', [], {})
        return T('filedata', (usym('attachment'),))

    def file_m(self, o, name, args, kwargs):
        d, st = o.data, self.st
        fs = self.fs()
        k = ckey(d['path'])
        if name in ('read', 'readall'):
            st.event('read', path=d['path'], file=o)
            if k in fs:
                if d['pos']:
                    return b'' if 'b' in d['mode'] else ''
                d['pos'] = 1
                return fs[k]
            t = T('filedata', (d['path'],))
            st.kinds[t] = 'bytes' if 'b' in d['mode'] else 'str'
            return t
        if name == 'write':
            data = args[0]
            if isinstance(data, BArr):
                data = data.content
            if d['closed']:
                self.raise_('ValueError', 'I/O operation on closed file')
            kd = kind_of(data, st)
            if 'b' in d['mode'] and kd == 'str':
                self.raise_('TypeError', "a bytes-like object is required, not 'str'")
            if 'b' not in d['mode'] and kd == 'bytes':
                self.raise_('TypeError', "write() argument must be str, not bytes")
            if 'w' not in d['mode'] and 'a' not in d['mode'] and '+' not in d['mode'] and 'x' not in d['mode']:
                self.raise_('OSError', 'not writable')
            old = fs.get(k, b'' if 'b' in d['mode'] else '')
            fs[k] = bcat([old, data]) if 'b' in d['mode'] else cat([old, data])
            st.event('write', path=d['path'], data=data, file=o)
            return self.len_(data)
        if name == 'close':
            d['closed'] = True
            return None
        if name in ('flush', 'seek', 'fileno', 'truncate'):
            if name == 'seek':
                d['pos'] = 0 if args and args[0] == 0 else d['pos']
            return None
        if name in ('tell',):
            return self.len_(fs.get(k, b''))
        if name == 'readable':
            return 'r' in d['mode']
        if name == 'writable':
            return 'w' in d['mode']
        if name in ('readlines', 'readline'):
            t = T('filedata', (d['path'],))
            st.kinds[t] = 'str'
            return self.method(t, 'splitlines', [], {}) if name == 'readlines' else t
        self.undecided('file method ' + name)

    def bytesio_m(self, o, name, args, kwargs):
        d = o.data
        if name == 'getvalue':
            return d['content']
        if name == 'write':
            d['content'] = bcat([d['content'], self.as_bytes(args[0])])
            return self.blen(self.as_bytes(args[0]))
        if name == 'read':
            n = self.blen(d['content'])
            a = d['pos']
            if args and args[0] is not None and args[0] != -1:
                b = self.binop('Add', a, args[0])
                if self.truth(self.lt(n, b)):
                    b = n
            else:
                b = n
            d['pos'] = b
            return self.take(d['content'], a, b)
        if name == 'seek':
            d['pos'] = args[0]
            return args[0]
        if name == 'tell':
            return d['pos']
        if name in ('close', 'flush'):
            return None
        if name == 'getbuffer':
            return d['content']
        self.undecided('BytesIO.' + name)

    def instdict_m(self, o, name, args, kwargs):
        inst = o.data['inst']
        d = DictO([(k, v) for k, v in inst.attrs.items()])
        if name in ('update', 'pop', 'setdefault', 'clear'):
            r = self.method(d, name, args, kwargs)
            inst.attrs.clear()
            for k, v in d.pairs:
                inst.attrs[k] = v
            self.st.event('mutate', obj=inst, name='__dict__')
            return r
        return self.method(d, name, args, kwargs)

    def reply_get(self, o, key, default=DEAD):
        key = self.raw(key)
        n = o.data['n']
        if key == 'fault':
            return DictO([('code', usym('fault%d.code' % n, 'str', 'n')), ('string', usym('fault%d.string' % n, 'str')),
                          ('detail', usym('fault%d.detail' % n))]) if self.reply_fault(o) else default
        if key == 'result':
            return default if self.reply_fault(o) else T('sym', ('result%d' % n, None, ''))
        return default if not self.st.decide(T('pred', ('replykey', n, key))) else usym('reply%d:%s' % (n, key))

    def reply_m(self, o, name, args, kwargs):
        if name == 'get':
            v = self.reply_get(o, args[0])
            return (args[1] if len(args) > 1 else None) if v is DEAD else v
        if name in ('keys', '__iter__'):
            return ListO(['fault'] if self.reply_fault(o) else ['result'])
        self.undecided('reply.' + name)

    def cfgsect_m(self, o, name, args, kwargs):
        d = o.data
        if name in ('get', 'getint', 'getboolean', 'getfloat'):
            v = self.cfg_value(d['cfg'], d['sect'], args[0])
            if v is DEAD:
                if 'fallback' in kwargs:
                    return kwargs['fallback']
                return args[1] if len(args) > 1 else None
            return v
        self.undecided('section.' + name)

    # -- protocols of library objects -----------------------------------------------------------------------------
    def exto_enter(self, o):
        k, d = o.kind, o.data
        if k == 'ctxgen':
            return self.b_next(d['it'])
        if k == 'closing':
            return d['obj']
        if k == 'nullctx':
            return d['obj']
        if k in ('suppress', 'lock', 'file', 'session', 'transaction', 'opaque', 'bytesio', 'attachment', 'engine'):
            return o
        if k == 'dbconn':
            return o
        self.raise_('TypeError', 'object does not support the context manager protocol')

    def exto_exit(self, o, exc):
        k, d = o.kind, o.data
        if k == 'ctxgen':
            gen = d['it'].gen
            if exc is None:
                try:
                    next(gen)
                except StopIteration:
                    return False
                self.raise_('RuntimeError', "generator didn't stop")
            try:
                gen.throw(PyRaise(exc, self.where()))
            except StopIteration:
                return True
            except PyRaise as e:
                if e.value is exc:
                    return False
                raise
            self.raise_('RuntimeError', "generator didn't stop after throw()")
        if k == 'suppress':
            return exc is not None and self.exc_match(exc, d['excs'])
        if k == 'closing':
            self.call(self.getattr(d['obj'], 'close'), [])
            return False
        if k == 'file':
            d['closed'] = True
        if k == 'session':
            self.orm_method(o, 'close', [], {})
        if k == 'transaction':
            self.orm_method(d['session'], 'commit' if exc is None else 'rollback', [], {})
        return False

    def exto_len(self, o):
        k, d = o.kind, o.data
        if k == 'range':
            return len(self.range_of(o))
        if k == 'dictview':
            return len(d['d'].pairs)
        if k == 'instdict':
            return len(d['inst'].attrs)
        if k == 'tm':
            return 9
        self.raise_('TypeError', 'object of type %s has no len()' % k)

    def exto_truth(self, o):
        if o.kind == 'range':
            return len(self.range_of(o)) > 0
        if o.kind == 'dictview':
            return len(o.data['d'].pairs) > 0
        if o.kind == 'cond':
            self.raise_('TypeError', 'Boolean value of this clause is not defined')
        return True

    def exto_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ExtO):
                if x.kind in ('column', 'sqlexpr'):
                    return self.sql_cond('Eq', x, y)
                if x.kind == 'path':
                    return isinstance(y, ExtO) and y.kind == 'path' and self.eq(x.data['p'], y.data['p'])
                if x.kind == 'range' and isinstance(y, ExtO) and y.kind == 'range':
                    return self.range_of(x) == self.range_of(y)
                if x.kind == 'rsa' and isinstance(y, ExtO) and y.kind == 'rsa':
                    # keys are equal when both have (or lack) the private part and the numbers agree
                    if bool(x.data['private']) != bool(y.data['private']):
                        return False
                    return self.eq_term(x.data['term'], y.data['term'])
                if x.kind == 'dictview':
                    o = y
                    if isinstance(y, ExtO) and y.kind == 'dictview':
                        o = self.make_set(list(self.iterate(y)))
                    return self.eq(self.make_set(list(self.iterate(x))), o)
                if x.kind == 'instdict':
                    return self.eq(DictO(list(x.data['inst'].attrs.items())),
                                   DictO(list(y.data['inst'].attrs.items())) if isinstance(y, ExtO) else y)
                if x.kind == 'bytesio' or x.kind == 'opaque':
                    return x is y
        return NotImplemented

    def exto_ne(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ExtO) and x.kind in ('column', 'sqlexpr'):
                return self.sql_cond('NotEq', x, y)
        return NotImplemented

    SWAP = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}

    def exto_order(self, op, a, b):
        if isinstance(a, ExtO) and a.kind in ('column', 'sqlexpr'):
            return self.sql_cond(op, a, b)
        if isinstance(b, ExtO) and b.kind in ('column', 'sqlexpr'):
            return self.sql_cond(self.SWAP[op], b, a)
        if isinstance(a, ExtO) and a.kind == 'dictview':
            return self.order(op, self.make_set(list(self.iterate(a))),
                              self.make_set(list(self.iterate(b))) if isinstance(b, ExtO) else b)
        if isinstance(b, ExtO) and b.kind == 'dictview':
            return self.order(op, a, self.make_set(list(self.iterate(b))))
        self.raise_('TypeError', 'comparison not supported')

    def exto_contains(self, c, x):
        k, d = c.kind, c.data
        if k == 'range':
            x = self.st.norm(x)
            if d['r'] is None or (isinstance(x, T) and d['r'].step == 1):
                lo, hi = d['bounds'] if d['r'] is None else (d['r'].start, d['r'].stop)
                kx = kind_of(x, self.st) if isinstance(x, T) else None
                if kx in ('int', 'float', 'bool') or isinstance(x, (int, float)):
                    if not (self.truth(self.order('GtE', x, lo)) and self.truth(self.order('Lt', x, hi))):
                        return False
                    if kx == 'float' or isinstance(x, float):
                        return self.truth(self.method(x, 'is_integer', [], {}))
                    return True
            return self.raw(x) in d['r']
        if k == 'dictview':
            if d['what'] == 'keys':
                return self.contains(d['d'], x)
            return any(self.truth(self.eq_id(y, x)) for y in self.iterate(c))
        if k == 'instdict':
            return self.raw(x) in d['inst'].attrs
        if k == 'config':
            if isinstance(x, str) and x == 'DEFAULT':
                return True
            return self.cfg_has(c, x)
        if k == 'cfgsections':
            if isinstance(x, str) and x == 'DEFAULT':
                return False
            return self.cfg_has(d['cfg'], x)
        if k == 'cfgsect':
            return self.cfg_value(d['cfg'], d['sect'], x) is not DEAD
        if k == 'reply':
            return self.reply_get(c, x) is not DEAD
        self.undecided('membership in %s' % k)

    def exto_iter(self, o):
        k, d = o.kind, o.data
        if k == 'range':
            for i in self.range_of(o):
                yield i
            return
        if k == 'dictview':
            n = len(d['d'].pairs)
            for p in list(d['d'].pairs):
                if len(d['d'].pairs) != n:
                    self.raise_('RuntimeError', 'dictionary changed size during iteration')
                yield p[0] if d['what'] == 'keys' else p[1] if d['what'] == 'values' else (p[0], p[1])
            return
        if k == 'instdict':
            for x in list(d['inst'].attrs):
                yield x
            return
        if k == 'count':
            i = 0
            while True:
                v = d['n']
                d['n'] = self.binop('Add', v, d['step'])
                yield v
                i += 1
                if i > 3000:
                    raise BudgetExceeded('iteration bound')
        if k == 'reply':
            yield 'fault' if self.reply_fault(o) else 'result'
            return
        if k in self.ORM_KINDS:
            for x in self.orm_iter(o):
                yield x
            return
        self.undecided('iteration over %s' % k)

    def exto_getitem(self, o, i):
        k, d = o.kind, o.data
        if k == 'range':
            if isinstance(i, slice):
                return ExtO('range', r=self.range_of(o)[conc(i)])
            r = self.range_of(o)
            return self.fold(lambda: r[self.raw(i)])
        if k == 'config':
            return self.cfg_item(o, i)
        if k == 'cfgsect':
            v = self.cfg_value(d['cfg'], d['sect'], i)
            if v is DEAD:
                self.raise_('KeyError', i)
            return v
        if k == 'reply':
            v = self.reply_get(o, i)
            if v is DEAD:
                self.raise_('KeyError', i)
            return v
        if k == 'instdict':
            n = self.raw(i)
            if n not in d['inst'].attrs:
                self.raise_('KeyError', n)
            return d['inst'].attrs[n]
        if k == 'tm':
            names = ['tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec', 'tm_wday', 'tm_yday', 'tm_isdst']
            return self.exto_attr(o, names[self.raw(i)])
        if k == 'rematch' and d['m'] is None:
            self.undecided('parts of a match of an unknown pattern')
        if k == 'rematch':
            return self.fold(lambda: d['m'][self.raw(i)])
        if k in self.ORM_KINDS:
            return self.orm_getitem(o, i)
        self.undecided('subscript of %s' % k)

    def exto_setitem(self, o, i, v):
        if o.kind == 'instdict':
            self.raw_setattr(o.data['inst'], self.raw(i), v)
            return
        self.undecided('item assignment on %s' % o.kind)

    def exto_binop(self, op, a, b):
        if op == 'Div' and any(isinstance(x, ExtO) and x.kind == 'path' for x in (a, b)):
            return ExtO('path', p=self.x_ospath('join', [self.path_text(a), self.path_text(b)]))
        for x in (a, b):
            if isinstance(x, ExtO) and x.kind in ('cond', 'column', 'sqlexpr'):
                return self.sql_binop(op, a, b)
        if op == 'BitOr' and all(isinstance(x, (BuiltinV, ClassV, ExtV)) or x is None or
                                 isinstance(x, ExtO) and x.kind == 'union' for x in (a, b)):
            return self.union_types(a, b)
        for x in (a, b):
            if isinstance(x, ExtO) and x.kind == 'dictview':
                f = [self.make_set(list(self.iterate(y))) if isinstance(y, ExtO) else y for y in (a, b)]
                return self.binop(op, f[0], f[1])
        for x in (a, b):
            if isinstance(x, ExtO) and x.kind == 'opaque':
                return usym('opaque%d' % self.st.fresh('opaque'))
        self.raise_('TypeError', 'unsupported operand types for %s' % op)

    def union_types(self, a, b):
        out = []
        for x in (a, b):
            if isinstance(x, ExtO) and x.kind == 'union':
                out += x.data['types']
            else:
                out.append(ExtV('types.NoneType') if x is None else x)
        return ExtO('union', types=out)

    def exto_unop(self, op, v):
        if op == 'Invert' and v.kind == 'cond':
            return ExtO('cond', op='not', args=(v,))
        self.raise_('TypeError', 'bad operand type for unary %s' % op)

    def exto_isinstance(self, v, cls):
        last = cls.path.split('.')[-1]
        return {'rsa': 'RsaKey', 'logger': 'Logger', 'range': 'range', 'session': 'Session', 'attachment': 'attachment',
                'query': 'Query', 'engine': 'Engine'}.get(v.kind) == last

    # -- instances of classes derived from library classes --------------------------------------------------------
    def inst_ext_attr(self, o, name):
        eb = o.cls.ext_bases()
        for b in eb:
            if isinstance(b, BuiltinV) and b.name in ('dict', 'list', 'str', 'int', 'bytes', 'set', 'tuple'):
                if hasattr(KIND_TYPES[b.name], name):
                    return BMeth(o, name)
        return DEAD

    def class_ext_attr(self, c, name):
        if name == 'metadata':
            return DEAD
        return DEAD

    def inst_ext(self, cls, o, args, kwargs):
        for b in cls.ext_bases():
            if isinstance(b, ExtV):
                if b.path.endswith('LadonType'):
                    return o
                if b.path.startswith(('typing.', 'collections.abc.', 'abc.')):
                    return o
                if b.path == 'threading.local':
                    return o
        self.undecided('instantiation of %s (library base class)' % cls.name)

    def inst_ext_method(self, o, name, args, kwargs):
        self.undecided('method %s of %s' % (name, o.cls))
