"""Core of the static analyser: abstract values, path state, decisions.

The analyser is an abstract interpreter over the Python syntax tree of /repo.  It never imports or runs the
analysed code.  Unknown data is represented by abstract values:

  * raw Python constants            -- constant propagation
  * FDV                             -- a value from a finite set (enum members, character classes)
  * T                               -- a symbolic term (value numbering); linear integer terms, byte layouts and
                                       string concatenations are kept in normal form
  * heap objects (Inst, ListO, ...) -- one abstract object per allocation

Control flow is partitioned by path (trace partitioning): where a condition is not determined by the facts known
on a path, both outcomes are analysed.  `explore` enumerates the partitions.
"""
import zlib
import sys
import struct as _struct

sys.setrecursionlimit(200000)


class Undecided(Exception):
    """The analyser met something it has no transfer function for."""


class Infeasible(Exception):
    """The current path contradicts its own facts."""


class BudgetExceeded(Undecided):
    pass


class PyRaise(Exception):
    """An exception raised by the analysed program (value is the abstract exception object)."""
    def __init__(self, value, where=None):
        self.value = value
        self.where = where


# ----------------------------------------------------------------------------------------------------------------
# values
# ----------------------------------------------------------------------------------------------------------------
RAW = (type(None), bool, int, float, str, bytes)


class EnumV(object):
    __slots__ = ('cls', 'name', 'value')

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return '%s.%s' % (self.cls.name, self.name)

    def __eq__(self, o):
        return isinstance(o, EnumV) and o.name == self.name and o.cls.qual == self.cls.qual

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.cls.qual, self.name))


def ckey(v):
    """Canonical hashable key of a value (distinguishes 1, True, 1.0)."""
    if isinstance(v, tuple):
        return ('tuple',) + tuple(ckey(x) for x in v)
    if isinstance(v, RAW):
        if isinstance(v, float):
            return ('float', repr(v))
        return (type(v).__name__, v)
    if isinstance(v, T):
        return v.key
    if isinstance(v, EnumV):
        return ('enum', v.cls.qual, v.name)
    if isinstance(v, FDV):
        return v.key()
    if isinstance(v, ExtV):
        return ('ext', v.path)
    if isinstance(v, ClassV):
        return ('class', v.qual)
    if isinstance(v, FuncV):
        return ('func', v.qual, id(v))
    if isinstance(v, BuiltinV):
        return ('builtin', v.name)
    return ('obj', id(v))


class T(object):
    """A term.  Interned: structural equality is identity of keys."""
    __slots__ = ('op', 'args', 'key', '_h')

    def __init__(self, op, args):
        self.op, self.args = op, args
        self.key = ('T', op) + tuple(ckey(a) for a in args)
        self._h = hash(self.key)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, T) and self._h == o._h and self.key == o.key)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)


def show(v, depth=0):
    if isinstance(v, T):
        if depth > 4:
            return '...'
        if v.op == 'sym':
            return '<%s>' % v.args[0]
        if v.op == 'lin':
            return '(' + ' + '.join([str(v.args[0])] + ['%s%s' % ('' if c == 1 else '%d*' % c, show(t, depth + 1))
                                                        for t, c in v.args[1]]) + ')'
        if v.op == 'attr':
            return '%s.%s' % (show(v.args[0], depth + 1), v.args[1])
        if v.op in ('cat', 'bcat'):
            return '+'.join(show(a, depth + 1) for a in v.args)
        return '%s(%s)' % (v.op, ', '.join(show(a, depth + 1) for a in v.args))
    if isinstance(v, tuple):
        return '(' + ', '.join(show(x, depth + 1) for x in v) + ')'
    if isinstance(v, (ListO, SetO)) and depth < 3:
        b = '[]' if isinstance(v, ListO) else '{}'
        return b[0] + ', '.join(show(x, depth + 1) for x in v.items[:8]) + b[1]
    return repr(v)


class FDVar(object):
    __slots__ = ('name', 'base')

    def __init__(self, name, base):
        self.name, self.base = name, tuple(base)


class _Dead(object):
    def __repr__(self):
        return '-'


DEAD = _Dead()


class FDV(object):
    """A function of a finite-domain variable: vals[i] is the value when the variable has its i-th base value."""
    __slots__ = ('var', 'vals', '_k')

    def __init__(self, var, vals):
        self.var, self.vals, self._k = var, tuple(vals), None

    def key(self):
        if self._k is None:
            self._k = ('FDV', self.var.name) + tuple(None if x is DEAD else ckey(x) for x in self.vals)
        return self._k

    def __repr__(self):
        return '<%s>' % self.var.name


class Obj(object):
    """Base of heap objects (identity semantics)."""
    __slots__ = ()


class Inst(Obj):
    __slots__ = ('cls', 'attrs', 'tag', 'lazy')

    def __init__(self, cls, attrs=None, tag=None):
        self.cls, self.attrs, self.tag, self.lazy = cls, attrs if attrs is not None else {}, tag, None

    def __repr__(self):
        return '<%s%s>' % (getattr(self.cls, 'name', self.cls), ':' + self.tag if self.tag else '')


class ListO(Obj):
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.items = list(items)

    def __repr__(self):
        return repr(self.items)


class SetO(Obj):
    __slots__ = ('items', 'frozen')

    def __init__(self, items=(), frozen=False):
        self.items, self.frozen = list(items), frozen

    def __repr__(self):
        return 'set(%r)' % (self.items,)


class DictO(Obj):
    __slots__ = ('pairs', 'default')

    def __init__(self, pairs=()):
        self.pairs = [list(p) for p in pairs]   # [[key, value], ...] in insertion order
        self.default = None                     # defaultdict factory

    def __repr__(self):
        return '{%s}' % ', '.join('%s: %s' % (show(k), show(v)) for k, v in self.pairs)


class BArr(Obj):
    __slots__ = ('content',)

    def __init__(self, content):
        self.content = content

    def __repr__(self):
        return 'bytearray(%s)' % show(self.content)


class IterO(Obj):
    __slots__ = ('gen',)

    def __init__(self, gen):
        self.gen = gen


class ExtO(Obj):
    """An object of a library class with analyser-defined behaviour (kind selects the method table)."""
    __slots__ = ('kind', 'data')

    def __init__(self_, kind, **data):
        self_.kind, self_.data = kind, data

    def __repr__(self):
        return '<%s %s>' % (self.kind, ' '.join('%s=%s' % (k, show(v)) for k, v in self.data.items()
                                                 if not isinstance(v, (list, dict))))


class FuncV(object):
    __slots__ = ('node', 'mod', 'qual', 'closure', 'defaults', 'kwdefaults', 'cls', 'isgen', 'name')

    def __init__(self, node, mod, qual, closure, defaults, kwdefaults, cls=None, isgen=False):
        self.node, self.mod, self.qual, self.closure = node, mod, qual, closure
        self.defaults, self.kwdefaults, self.cls, self.isgen = defaults, kwdefaults, cls, isgen
        self.name = qual.rsplit('.', 1)[-1]

    def __repr__(self):
        return '<function %s>' % self.qual


class BoundV(object):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self)


class BMeth(object):
    """Built-in method `name` of a builtin/abstract value."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return '<method %s of %s>' % (self.name, show(self.obj))


class Wrap(object):
    """staticmethod / classmethod / property wrappers."""
    __slots__ = ('kind', 'func', 'fset')

    def __init__(self, kind, func, fset=None):
        self.kind, self.func, self.fset = kind, func, fset


class ClassV(object):
    __slots__ = ('name', 'qual', 'mod', 'bases', 'dict', 'mro', 'enum', 'members', 'orm', 'node', 'ext', 'dataclass')

    def __init__(self, name, qual, mod, bases, dct, node=None):
        self.name, self.qual, self.mod, self.bases, self.dict, self.node = name, qual, mod, bases, dct, node
        self.enum = None
        self.members = None
        self.orm = False
        self.ext = [b for b in bases if not isinstance(b, ClassV)]
        self.dataclass = False
        self.mro = self._c3()

    def _c3(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, ClassV)]
        seqs.append([b for b in self.bases if isinstance(b, ClassV)])
        res = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                c = s[0]
                if not any(c in q[1:] for q in seqs):
                    break
            else:
                raise Undecided('inconsistent MRO for ' + self.qual)
            res.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]
        return res

    def lookup(self, name):
        for c in self.mro:
            if name in c.dict:
                return c.dict[name], c
        return None, None

    def ext_bases(self):
        out = []
        for c in self.mro:
            out += c.ext
        return out

    def __repr__(self):
        return '<class %s>' % self.qual


class ModV(object):
    __slots__ = ('name', 'env', 'tree', 'path', 'loading')

    def __init__(self, name, env, tree, path):
        self.name, self.env, self.tree, self.path, self.loading = name, env, tree, path, True

    def __repr__(self):
        return '<module %s>' % self.name


class ExtV(object):
    """Something from a library, by dotted name."""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.path == self.path

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return '<ext %s>' % self.path


class BuiltinV(object):
    """A Python builtin function or class, by name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, BuiltinV) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '<builtin %s>' % self.name


class NotImpl(object):
    def __repr__(self):
        return 'NotImplemented'


NOTIMPL = NotImpl()


# ----------------------------------------------------------------------------------------------------------------
# terms
# ----------------------------------------------------------------------------------------------------------------
INSTANCE = [0]          # 0: inputs are unknown; 1, 2: inputs are constants (see harness.run_ob)


def usym(name, kind=None, flags=''):
    """A fresh unknown value.  flags: 'a' text without separators, 'd' decimal digits, 'n' non-empty."""
    return T('sym', (name, kind, flags))


def sym(name, kind=None, flags=''):
    """An unknown input of an obligation; one fixed value of its kind when the obligation is analysed on an instance."""
    if INSTANCE[0]:
        v = instance(name, kind, flags, INSTANCE[0])
        if v is not None:
            return v
    return T('sym', (name, kind, flags))


def instance(name, kind, flags, which):
    h = zlib.crc32(repr(name).encode())
    if kind == 'str':
        if 'd' in flags:
            return str(h % 200)
        if 'a' in flags:
            return ('Qx%dw' if which == 1 else 'k_%dz') % (h % 1000)
        return (u'Qx %dw/\xe9' if which == 1 else 'k_%d.b@C') % (h % 1000)
    if kind == 'int':
        return 1000 + h % 60000 if which == 1 else 3 + h % 200
    if kind == 'float':
        return 0.5 + h % 1000 if which == 1 else 2.25 + h % 7
    if kind == 'bytes' and not any(w in name for w in ('cert', 'key', 'export', 'signature', 'pk', 'hk')):
        return (b'\x00\xffb%d' if which == 1 else b'q%d\n') % (h % 1000)
    return None


def lin(const, terms):
    """Normal form of const + sum(c*t)."""
    d = {}
    for t, c in terms:
        if isinstance(t, T) and t.op == 'lin':
            const += c * t.args[0]
            for t2, c2 in t.args[1]:
                d[t2] = d.get(t2, 0) + c * c2
        elif isinstance(t, int):
            const += c * int(t)
        else:
            d[t] = d.get(t, 0) + c
    items = tuple(sorted(((t, c) for t, c in d.items() if c != 0), key=lambda p: repr(ckey(p[0]))))
    if not items:
        return const
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return T('lin', (const, items))


def as_lin(v):
    """(const, ((term, coef), ...)) or None."""
    if isinstance(v, bool):
        return (int(v), ())
    if isinstance(v, int):
        return (v, ())
    if isinstance(v, T) and v.op == 'lin':
        return v.args
    return (0, ((v, 1),))


def add(a, b):
    return lin(0, ((a, 1), (b, 1)))


def sub(a, b):
    return lin(0, ((a, 1), (b, -1)))


def cat(parts):
    """Normal form of a string concatenation."""
    out = []
    for p in parts:
        if isinstance(p, T) and p.op == 'cat':
            sub_ = p.args
        else:
            sub_ = (p,)
        for q in sub_:
            if isinstance(q, str):
                if q == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + q
                    continue
            out.append(q)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return T('cat', tuple(out))


def cat_parts(v):
    if isinstance(v, T) and v.op == 'cat':
        return list(v.args)
    if v == '' and isinstance(v, str):
        return []
    return [v]


def bcat(parts):
    """Normal form of a byte concatenation."""
    out = []
    for p in parts:
        if isinstance(p, BArr):
            p = p.content
        sub_ = p.args if isinstance(p, T) and p.op == 'bcat' else (p,)
        for q in sub_:
            if isinstance(q, (bytes, bytearray)):
                q = bytes(q)
                if q == b'':
                    continue
                if out and isinstance(out[-1], bytes):
                    out[-1] = out[-1] + q
                    continue
            out.append(q)
    if not out:
        return b''
    if len(out) == 1:
        return out[0]
    return T('bcat', tuple(out))


def bcat_parts(v):
    if isinstance(v, BArr):
        v = v.content
    if isinstance(v, T) and v.op == 'bcat':
        return list(v.args)
    if isinstance(v, bytes) and v == b'':
        return []
    return [v]


STR_OPS = {'cat', 'str', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'dec', 'fmt', 'repr', 'strop', 'title',
           'casefold', 'replace', 'strslice'}
BYTES_OPS = {'bcat', 'utf8', 'b64', 'pack', 'pad', 'bslice', 'digest', 'bytesop'}
INT_OPS = {'lin', 'len', 'int', 'blen', 'mul', 'intop', 'unpackint', 'hash', 'ord', 'count'}
BOOL_OPS = {'eq', 'lt', 'in', 'truthy', 'isa', 'not', 'pred', 'and', 'or'}


def kind_of(v, st=None):
    """Kind (Python type name) of a value, or None when unknown."""
    if v is None:
        return 'none'
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'float'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, bytes):
        return 'bytes'
    if isinstance(v, tuple):
        return 'tuple'
    if isinstance(v, EnumV):
        return 'enum'
    if isinstance(v, T):
        op = v.op
        if op == 'sym':
            k = v.args[1]
            if k is None and st is not None:
                k = st.kinds.get(v)
            return k
        if op in STR_OPS:
            return 'str'
        if op in BYTES_OPS:
            return 'bytes'
        if op in INT_OPS:
            return 'int'
        if op == 'float':
            return 'float'
        if op in BOOL_OPS:
            return 'bool'
        if st is not None:
            k = st.kinds.get(v)
            if k is not None:
                return k
            r = st.rep(v)
            if not (isinstance(r, T) and r == v):
                return kind_of(r, st)
        return None
    if isinstance(v, FDV):
        ks = set(kind_of(x, st) for i, x in enumerate(v.vals) if x is not DEAD and (st is None or i in st.live_of(v.var)))
        return ks.pop() if len(ks) == 1 else None
    if isinstance(v, ListO):
        return 'list'
    if isinstance(v, SetO):
        return 'set'
    if isinstance(v, DictO):
        return 'dict'
    if isinstance(v, BArr):
        return 'bytearray'
    if isinstance(v, Inst):
        return 'inst'
    if isinstance(v, ExtO):
        return 'ext:' + v.kind
    return 'other'


# ----------------------------------------------------------------------------------------------------------------
# path state
# ----------------------------------------------------------------------------------------------------------------
class Ctl(object):
    def __init__(self, prefix):
        self.prefix = prefix
        self.trail = []      # [(choice, n, why, where)]


class State(object):
    def __init__(self, ctl, budget=400000):
        self.ctl = ctl
        self.facts = {}
        self.reps = {}
        self.nes = []
        self.live = {}
        self.kinds = {}
        self.events = []
        self.counter = {}
        self.expand = {}
        self.overlay = {}
        self.steps = 0
        self.budget = budget
        self.where = None          # callable giving the current source position
        self.order = []            # difference constraints (a, b, k): a - b <= k
        self.nonneg = set()

    # -- decisions ------------------------------------------------------------------------------------------------
    def choose(self, n, why=''):
        if n <= 0:
            raise Infeasible()
        if n == 1:
            return 0
        c = self.ctl
        i = len(c.trail)
        d = c.prefix[i] if i < len(c.prefix) else 0
        c.trail.append((d, n, why, self.where() if self.where else None))
        if len(c.trail) > 400:
            raise BudgetExceeded('more than 400 decisions on one path')
        return d

    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return n

    # -- finite domains -------------------------------------------------------------------------------------------
    def fd(self, name, base):
        var = FDVar(name, base)
        self.live[name] = frozenset(range(len(var.base)))
        return FDV(var, var.base)

    def live_of(self, var):
        l = self.live.get(var.name)
        if l is None:
            l = self.live[var.name] = frozenset(range(len(var.base)))
        return l

    def fdmap(self, f, v):
        """Pointwise application of the concrete function f; exceptions fork."""
        live = self.live_of(v.var)
        out = [DEAD] * len(v.vals)
        errs = {}
        for i in live:
            try:
                out[i] = f(v.vals[i])
            except PyRaise as e:
                nm = getattr(getattr(e.value, 'cls', None), 'name', 'exc')
                errs.setdefault(nm, (e, []))[1].append(i)
        if errs:
            groups = [('ok', None, [i for i in live if out[i] is not DEAD])] if len(errs) and any(
                out[i] is not DEAD for i in live) else []
            groups += [(nm, e, idx) for nm, (e, idx) in sorted(errs.items())]
            g = groups[self.choose(len(groups), 'operation on %r' % v)]
            self.live[v.var.name] = frozenset(g[2])
            if g[1] is not None:
                raise g[1]
        return self.fdnorm(FDV(v.var, out))

    def fdnorm(self, v):
        live = self.live_of(v.var)
        first = None
        for i in live:
            k = ckey(v.vals[i])
            if first is None:
                first = (k, v.vals[i])
            elif first[0] != k:
                return v
        if first is None:
            raise Infeasible()
        return first[1]

    def split(self, v, keyf=ckey, why=None):
        """Fork over the distinct values of a finite-domain value; returns the chosen value."""
        if not isinstance(v, FDV):
            return v
        live = self.live_of(v.var)
        groups = {}
        for i in sorted(live):
            groups.setdefault(keyf(v.vals[i]), []).append(i)
        keys = list(groups)
        if not keys:
            raise Infeasible()
        g = groups[keys[self.choose(len(keys), why or 'value of %r' % v)]]
        self.live[v.var.name] = frozenset(g)
        return v.vals[g[0]]

    def norm(self, v):
        if isinstance(v, FDV):
            return self.fdnorm(v)
        return v

    # -- facts ----------------------------------------------------------------------------------------------------
    def rep(self, v):
        k = ckey(v)
        seen = 0
        while k in self.reps:
            v = self.reps[k]
            k = ckey(v)
            seen += 1
            if seen > 50:
                break
        return v

    def assume(self, atom, val):
        """Record a fact without forking; raises Infeasible on contradiction."""
        cur = atom if isinstance(atom, bool) else self.known(atom)
        if cur is not None:
            if cur != val:
                raise Infeasible()
            return
        self._record(atom, val)

    def _record(self, atom, val):
        op = atom.op
        if op in ('lt', 'eq'):
            z = self._sized(atom)
            if z is not None:
                e = self._empty_atom(z[0])
                if e is not None and self.known(e) is None:
                    self._record(e, val != z[1])
        if op == 'eq':
            a, b = self.rep(atom.args[0]), self.rep(atom.args[1])
            if val:
                if isinstance(a, RAW) or isinstance(a, EnumV):
                    a, b = b, a
                # a -> b
                self._order_eq(a, b)
                if ckey(a) != ckey(b):
                    self.reps[ckey(a)] = b
            else:
                self.nes.append((a, b))
                if kind_of(a, self) in ('int', 'float') and kind_of(b, self) in ('int', 'float'):
                    for x, y in ((a, b), (b, a)):
                        r = self._bound(x, y)
                        if r is not None and r[0] == 0:
                            self._order_add(x, y, -1 if self._isint(x) and self._isint(y) else 0, True)
        elif op == 'lt':
            a, b = atom.args
            if val:
                self._order_add(a, b, -1 if self._isint(a) and self._isint(b) else 0, True)
            else:
                ne = self._known_ne(a, b)
                self._order_add(b, a, -1 if ne and self._isint(a) and self._isint(b) else 0, ne)
        self.facts[atom] = val

    def _known_ne(self, a, b):
        a, b = self.rep(a), self.rep(b)
        k1, k2 = ckey(a), ckey(b)
        for x, y in self.nes:
            x, y = ckey(self.rep(x)), ckey(self.rep(y))
            if (x == k1 and y == k2) or (x == k2 and y == k1):
                return True
        return False

    def _isint(self, v):
        return kind_of(v, self) in ('int', 'bool')

    # difference constraints over (base, offset)
    def _base(self, v):
        v = self.rep(v)
        if isinstance(v, bool):
            return (None, int(v))
        if isinstance(v, (int, float)):
            return (None, v)
        if isinstance(v, T) and v.op == 'lin':
            c, ts = v.args
            if len(ts) == 1 and ts[0][1] == 1:
                return (self.rep(ts[0][0]), c)
        return (v, 0)

    def _order_add(self, a, b, k, strict):
        """a - b <= k (strict if strict and k == 0)."""
        (ba, oa), (bb, ob) = self._base(a), self._base(b)
        self.order.append((ckey(ba), ckey(bb), k - oa + ob, strict and k == 0))

    def _order_eq(self, a, b):
        if kind_of(a, self) in ('int', 'float') or kind_of(b, self) in ('int', 'float'):
            self._order_add(a, b, 0, False)
            self._order_add(b, a, 0, False)

    def _bound(self, a, b):
        """Least known k with a - b <= k, as (k, strict), or None."""
        (ba, oa), (bb, ob) = self._base(a), self._base(b)
        ka, kb = ckey(ba), ckey(bb)
        nonneg = [ckey(t) for t in self.nonneg]
        zero = ckey(None)
        edges = list(self.order) + [(zero, n, 0, False) for n in nonneg]
        for v in (ba, bb):
            if isinstance(v, T) and v.op in ('len', 'blen') and ckey(v) not in nonneg:
                edges.append((zero, ckey(v), 0, False))
        if ka == kb:
            return (oa - ob, False)
        dist = {ka: (0, False)}
        for _ in range(len(edges) + 1):
            ch = False
            for x, y, k, s in edges:
                if x in dist:
                    d = (dist[x][0] + k, dist[x][1] or s)
                    o = dist.get(y)
                    if o is None or d[0] < o[0] or (d[0] == o[0] and d[1] and not o[1]):
                        dist[y] = d
                        ch = True
            if not ch:
                break
        if kb not in dist:
            return None
        k, s = dist[kb]
        return (k + oa - ob, s)

    def _sized(self, atom):
        """(term whose emptiness the atom states, True if the atom means non-empty)"""
        a, b = atom.args
        if atom.op == 'lt':
            if isinstance(b, T) and b.op in ('len', 'blen') and isinstance(a, int) and a == 0:
                return b.args[0], True
            if isinstance(a, T) and a.op in ('len', 'blen') and isinstance(b, int) and b == 1:
                return a.args[0], False
        elif atom.op == 'eq':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, T) and x.op in ('len', 'blen') and isinstance(y, int) and y == 0:
                    return x.args[0], False
        return None

    def _empty_atom(self, t):
        k = kind_of(t, self)
        if isinstance(t, T) and t.op == 'utf8':
            t, k = t.args[0], 'str'
        if k not in ('str', 'bytes') or not isinstance(t, T):
            return None
        e = '' if k == 'str' else b''
        return T('eq', (t, e)) if repr(ckey(t)) <= repr(ckey(e)) else T('eq', (e, t))

    def known(self, atom):
        """Truth value of an atom if the facts determine it, else None."""
        if atom in self.facts:
            return self.facts[atom]
        op = atom.op
        if op in ('lt', 'eq'):
            z = self._sized(atom)
            if z is not None:
                e = self._empty_atom(z[0])
                if e is not None:
                    r = self.known(e)
                    if r is not None:
                        return r != z[1]
        if op == 'eq':
            a, b = self.rep(atom.args[0]), self.rep(atom.args[1])
            if ckey(a) == ckey(b):
                return True
            if isinstance(a, RAW + (EnumV,)) and isinstance(b, RAW + (EnumV,)):
                return a == b
            ka, kb = kind_of(a, self), kind_of(b, self)
            if ka is not None and kb is not None and ka != kb:
                num = ('int', 'float', 'bool')
                if not (ka in num and kb in num) and not {ka, kb} <= {'bytes', 'bytearray'} and 'other' not in (ka, kb):
                    return False
            k1, k2 = ckey(a), ckey(b)
            for x, y in self.nes:
                x, y = ckey(self.rep(x)), ckey(self.rep(y))
                if (x == k1 and y == k2) or (x == k2 and y == k1):
                    return False
            t = T('eq', (a, b)) if repr(k1) <= repr(k2) else T('eq', (b, a))
            if t in self.facts:
                return self.facts[t]
            if ka in ('int', 'float', 'bool') or kb in ('int', 'float', 'bool'):
                r1, r2 = self._bound(a, b), self._bound(b, a)
                if r1 is not None and (r1[0] < 0 or (r1[0] == 0 and r1[1])):
                    return False
                if r2 is not None and (r2[0] < 0 or (r2[0] == 0 and r2[1])):
                    return False
                if r1 is not None and r2 is not None and r1[0] == 0 and r2[0] == 0:
                    return True
                # linear: difference with only positive coefficients over non-negative terms and positive constant
                s = self._lin_sign(sub(a, b)) if self._isint(a) and self._isint(b) else None
                if s is not None and s != 0:
                    return False
            # strings: literal prefix/suffix clash, emptiness
            if ka == 'str' and kb == 'str':
                r = _str_clash(a, b)
                if r:
                    return False
            if ka in ('bytes',) and kb in ('bytes',):
                if a == b'' or b == b'':
                    o = b if a == b'' else a
                    if any(isinstance(p, bytes) or (isinstance(p, T) and (p.op in ('pack', 'digest', 'sig', 'export', 'bcrypt') or
                                                                        p.op == 'sym' and 'n' in p.args[2]))
                           for p in bcat_parts(o)):
                        return False
        elif op == 'lt':
            a, b = atom.args
            ra, rb = self.rep(a), self.rep(b)
            if isinstance(ra, (int, float)) and isinstance(rb, (int, float)):
                return ra < rb
            r = self._bound(a, b)
            if r is not None and (r[0] < 0 or (r[0] == 0 and r[1])):
                return True
            r = self._bound(b, a)
            if r is not None and r[0] <= 0:
                return False
            if self._isint(a) and self._isint(b):
                s = self._lin_sign(sub(b, a))
                if s is not None:
                    if s > 0:
                        return True
                    if s < 0 or s == 0:
                        return False
                c, ts = as_lin(sub(a, b))
                if c >= 0 and all(k > 0 and self.is_nonneg(t) for t, k in ts):
                    return False
        return None

    def _lin_sign(self, v):
        """1 if known > 0, -1 if known < 0, 0 if == 0, None otherwise."""
        if isinstance(v, int):
            return (v > 0) - (v < 0)
        c, ts = as_lin(v)
        pos = all(k > 0 and self.is_nonneg(t) for t, k in ts)
        neg = all(k < 0 and self.is_nonneg(t) for t, k in ts)
        if pos and c > 0:
            return 1
        if neg and c < 0:
            return -1
        if pos and c == 0 and any(self.facts.get(T('posv', (t,))) for t, k in ts):
            return 1
        return None

    def is_nonneg(self, t):
        if isinstance(t, T) and t.op in ('len', 'blen', 'count'):
            return True
        return t in self.nonneg

    def decide(self, atom, why=None):
        k = self.known(atom)
        if k is not None:
            return k
        d = self.choose(2, why or show(atom))
        v = (d == 0)
        self._record(atom, v)
        return v

    def event(self, kind, **data):
        data['kind'] = kind
        data['where'] = self.where() if self.where else None
        data['n'] = len(self.events)
        self.events.append(data)
        return data


def _str_clash(a, b):
    pa, pb = cat_parts(a), cat_parts(b)
    if not pa or not pb:
        o = pb if not pa else pa
        return any(isinstance(p, str) or isinstance(p, FDV) or (isinstance(p, T) and (
            p.op == 'sym' and 'n' in p.args[2] or p.op == 'strop' and p.args[0] == 'strftime')) for p in o)
    x, y = pa[0], pb[0]
    if isinstance(x, str) and isinstance(y, str):
        n = min(len(x), len(y))
        if x[:n] != y[:n]:
            return True
    x, y = pa[-1], pb[-1]
    if isinstance(x, str) and isinstance(y, str):
        n = min(len(x), len(y))
        if x[-n:] != y[-n:]:
            return True
    if len(pa) == len(pb) and len(pa) > 1:
        # same opaque skeleton, differing in one literal only
        diff = [(p, q) for p, q in zip(pa, pb) if ckey(p) != ckey(q)]
        if len(diff) == 1 and isinstance(diff[0][0], str) and isinstance(diff[0][1], str) and \
                len(diff[0][0]) == len(diff[0][1]):
            return True
    if isinstance(a, str) or isinstance(b, str):
        lit, oth = (a, pb) if isinstance(a, str) else (b, pa)
        lits = sum(len(p) for p in oth if isinstance(p, str)) + sum(1 for p in oth if isinstance(p, FDV))
        if lits > len(lit):
            return True
        for p in oth:
            if isinstance(p, str) and p not in lit:
                return True
    return False


# ----------------------------------------------------------------------------------------------------------------
# exploration
# ----------------------------------------------------------------------------------------------------------------
class Result(object):
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.undecided = []
        self.decisions = 0
        self.truncated = False


def explore(run, max_paths=20000, budget=400000, stop=None):
    """run(State) is called once per path partition.  Returns Result."""
    res = Result()
    prefix = []
    while True:
        ctl = Ctl(prefix)
        st = State(ctl, budget)
        try:
            run(st)
            res.paths += 1
        except Infeasible:
            res.infeasible += 1
        except Undecided as e:
            res.undecided.append((str(e), st.where() if st.where else None))
        res.decisions += len(ctl.trail)
        tr = ctl.trail
        i = len(tr) - 1
        while i >= 0 and tr[i][0] >= tr[i][1] - 1:
            i -= 1
        if i < 0:
            break
        prefix = [t[0] for t in tr[:i]] + [tr[i][0] + 1]
        if res.paths + res.infeasible + len(res.undecided) >= max_paths or (stop is not None and stop()):
            res.truncated = True
            break
    return res
