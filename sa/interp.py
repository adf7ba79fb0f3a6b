"""Abstract evaluation of the Python syntax tree."""
import ast
import os

from .core import *
from .core import _Dead
from . import ops as O
from . import lib as L

REPO = os.environ.get('SA_REPO', '/repo')
_PARSED = {}
_LOCALS = {}


def parse_file(path):
    if path not in _PARSED:
        with open(path, 'rb') as f:
            src = f.read()
        _PARSED[path] = ast.parse(src, path)
    return _PARSED[path]


class Frame(object):
    __slots__ = ('locals', 'closure', 'mod', 'func', 'globals_', 'nonlocals', 'yields', 'localnames', 'cls', 'lineno',
                 'qual', 'exc', 'isclass')

    def __init__(self, mod, qual, closure=(), func=None, cls=None):
        self.locals = {}
        self.closure = closure
        self.mod, self.func, self.cls, self.qual = mod, func, cls, qual
        self.globals_, self.nonlocals = set(), set()
        self.yields = None
        self.localnames = None
        self.lineno = 0
        self.exc = None
        self.isclass = False


class _Scan(ast.NodeVisitor):
    """Names bound in one function body, and whether it is a generator."""
    def __init__(self):
        self.names, self.glob, self.nonl, self.gen = set(), set(), set(), False

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # walrus targets inside comprehensions bind here
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.names.add(x.target.id)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_Global(self, n):
        self.glob.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonl.update(n.names)

    def visit_Yield(self, n):
        self.gen = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_alias(self, n):
        self.names.add((n.asname or n.name).split('.')[0])

    def visit_MatchAs(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.names.add(n.name)


def scan(node):
    k = id(node)
    if k not in _LOCALS:
        s = _Scan()
        body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
        for b in body:
            s.visit(b)
        _LOCALS[k] = (frozenset(s.names - s.glob - s.nonl), frozenset(s.glob), frozenset(s.nonl), s.gen, node)
    return _LOCALS[k]


def _walk_local(s):
    todo = [s]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(c)


class Interp(O.Ops, L.Lib):
    def __init__(self, st, repo=None, hooks=None, expand=2):
        self.st = st
        self.repo = repo or REPO
        self.modules = {}
        self.stack = []
        self.hooks = dict(hooks or {})
        self.exthooks = {}
        self.expand_sizes = (0, 1, expand)
        self.visited = set()
        self.kindhint = {}
        self.notes = []
        self.funcattrs = {}
        self.enumattrs = {}
        self.elemkind = {}
        self.attrkinds = {}
        self.callhook = None
        self.lastret = None
        st.where = self.where

    # -- positions ------------------------------------------------------------------------------------------------
    def where(self):
        for f in reversed(self.stack):
            if f.mod is not None:
                return (os.path.relpath(f.mod.path, self.repo), f.qual, f.lineno)
        return None

    def callpath(self):
        return [(os.path.relpath(f.mod.path, self.repo), f.qual, f.lineno) for f in self.stack if f.mod is not None]

    def undecided(self, msg):
        w = self.where()
        raise Undecided('%s at %s' % (msg, '%s:%s (%s)' % (w[0], w[2], w[1]) if w else '?'))

    # -- modules --------------------------------------------------------------------------------------------------
    def mod_path(self, name):
        base = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py')
        if os.path.exists(base + '.py'):
            return base + '.py'
        return None

    def is_repo_mod(self, name):
        return name.split('.')[0] in ('hgpl', 'hgaa')

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if not self.is_repo_mod(name):
            return ExtV(name)
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        path = self.mod_path(name)
        if path is None:
            self.raise_('ModuleNotFoundError', 'No module named %r' % name)
        if not os.path.exists(path):      # namespace package
            m = ModV(name, {'__name__': name}, None, path)
            self.modules[name] = m
            self._bind_parent(name, m)
            return m
        try:
            tree = parse_file(path)
        except SyntaxError as e:
            self.undecided('syntax error in %s: %s' % (path, e))
        m = ModV(name, {'__name__': name, '__file__': T('sym', ('__file__:' + name, 'str', 'n'))}, tree, path)
        self.modules[name] = m
        fr = Frame(m, name)
        fr.locals = m.env
        self.stack.append(fr)
        try:
            self.block(tree.body, fr)
        finally:
            self.stack.pop()
        m.loading = False
        self._bind_parent(name, m)
        return m

    def _bind_parent(self, name, m):
        if '.' in name:
            p, c = name.rsplit('.', 1)
            pm = self.modules.get(p)
            if isinstance(pm, ModV):
                pm.env.setdefault(c, m)

    def get(self, modname, name):
        """Module-level name of the analysed program (an anchor)."""
        m = self.load(modname)
        cur = m
        for part in name.split('.'):
            if isinstance(cur, ModV):
                if part not in cur.env:
                    raise Undecided('anchor %s.%s not found' % (modname, name))
                cur = cur.env[part]
            else:
                cur = self.getattr(cur, part)
        return cur

    # -- names ----------------------------------------------------------------------------------------------------
    def lookup(self, name, fr):
        if name in fr.locals and name not in fr.globals_:
            return fr.locals[name]
        if fr.localnames is not None and name in fr.localnames and not fr.isclass:
            self.raise_('UnboundLocalError', "cannot access local variable '%s'" % name)
        if name not in fr.globals_:
            for env in fr.closure:
                if name in env:
                    return env[name]
        env = fr.mod.env
        if name in env:
            return env[name]
        b = self.builtin(name)
        if b is not None:
            return b
        self.raise_('NameError', "name '%s' is not defined" % name)

    def assign_name(self, name, v, fr):
        if name in fr.globals_:
            fr.mod.env[name] = v
            self.st.event('globalwrite', name=name, mod=fr.mod.name, value=v)
        elif name in fr.nonlocals:
            for env in fr.closure:
                if name in env:
                    env[name] = v
                    self.st.event('nonlocalwrite', name=name, env=env, value=v)
                    return
        else:
            fr.locals[name] = v

    # -- statements -----------------------------------------------------------------------------------------------
    def block(self, stmts, fr):
        for s in stmts:
            r = self.stmt(s, fr)
            if r is not None:
                return r
        return None

    def stmt(self, s, fr):
        st = self.st
        st.steps += 1
        if st.steps > st.budget:
            raise BudgetExceeded('step budget exceeded')
        fr.lineno = s.lineno
        return self._S[type(s)](self, s, fr)

    def s_Expr(self, s, fr):
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)
        if fr.isclass and isinstance(s.target, ast.Name):
            fr.locals.setdefault('__annotations_order__', []).append(s.target.id)

    def s_AugAssign(self, s, fr):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            v = self.ev(s.value, fr)
            self.assign_name(t.id, self.augop(op, old, v), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr(o, t.attr)
            v = self.ev(s.value, fr)
            self.setattr(o, t.attr, self.augop(op, old, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev_index(t.slice, fr)
            old = self.getitem(o, i)
            v = self.ev(s.value, fr)
            self.setitem(o, i, self.augop(op, old, v))
        else:
            self.undecided('augmented assignment target')

    def s_Return(self, s, fr):
        return ('ret', self.ev(s.value, fr) if s.value is not None else None)

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            return self.block(s.body, fr)
        return self.block(s.orelse, fr)

    def s_While(self, s, fr):
        n = 0
        while True:
            fr.lineno = s.lineno
            if not self.truth(self.ev(s.test, fr)):
                return self.block(s.orelse, fr)
            r = self.block(s.body, fr)
            if r is not None:
                if r == 'brk':
                    return None
                if r == 'cont':
                    pass
                else:
                    return r
            n += 1
            if n > 2000:
                raise BudgetExceeded('loop bound exceeded at line %d' % s.lineno)

    def s_For(self, s, fr):
        for v in self.iterate(self.ev(s.iter, fr)):
            fr.lineno = s.lineno
            self.assign(s.target, v, fr)
            r = self.block(s.body, fr)
            if r is not None:
                if r == 'brk':
                    return None
                if r == 'cont':
                    continue
                return r
        return self.block(s.orelse, fr)

    def s_Break(self, s, fr):
        return 'brk'

    def s_Continue(self, s, fr):
        return 'cont'

    def s_Raise(self, s, fr):
        if s.exc is None:
            if fr.exc is None:
                self.raise_('RuntimeError', 'No active exception to reraise')
            raise PyRaise(fr.exc, self.where())
        v = self.ev(s.exc, fr)
        if s.cause is not None:
            self.ev(s.cause, fr)
        if isinstance(v, (ClassV, BuiltinV, ExtV)):
            v = self.call(v, [], {})
        if isinstance(v, T):
            v = Inst(BuiltinV('Exception'), {'args': (v,)})
        raise PyRaise(v, self.where())

    def s_Try(self, s, fr):
        try:
            try:
                r = self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.value, self.ev(h.type, fr)):
                        if h.name:
                            self.assign_name(h.name, e.value, fr)
                        old = fr.exc
                        fr.exc = e.value
                        self.st.event('caught', exc=e.value, handler=h.lineno, raised=e.where)
                        try:
                            r = self.block(h.body, fr)
                        finally:
                            fr.exc = old
                        if h.name:
                            fr.locals.pop(h.name, None)
                        break
                else:
                    raise
            else:
                if r is None:
                    r = self.block(s.orelse, fr)
        except PyRaise:
            if s.finalbody:
                r2 = self.block(s.finalbody, fr)
                if r2 is not None:
                    return r2
            raise
        if s.finalbody:
            r2 = self.block(s.finalbody, fr)
            if r2 is not None:
                return r2
        return r

    def s_With(self, s, fr):
        exits = []
        try:
            for item in s.items:
                cm = self.ev(item.context_expr, fr)
                v = self.enter(cm)
                exits.append(cm)
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v, fr)
            r = self.block(s.body, fr)
        except PyRaise as e:
            swallowed = False
            for cm in reversed(exits):
                if self.exit(cm, e.value):
                    swallowed = True
            if not swallowed:
                raise
            return None
        for cm in reversed(exits):
            self.exit(cm, None)
        return r

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            self.raise_('AssertionError', self.ev(s.msg, fr) if s.msg is not None else '')

    def s_Delete(self, s, fr):
        for t in s.targets:
            self.delete(t, fr)

    def delete(self, t, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                fr.mod.env.pop(t.id, None)
            elif t.id in fr.locals:
                del fr.locals[t.id]
            else:
                self.raise_('NameError', t.id)
        elif isinstance(t, ast.Attribute):
            self.delattr(self.ev(t.value, fr), t.attr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.delitem(o, self.ev_index(t.slice, fr))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.delete(x, fr)

    def s_Global(self, s, fr):
        fr.globals_.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_Import(self, s, fr):
        for a in s.names:
            m = self.load(a.name)
            if a.asname:
                self.assign_name(a.asname, m, fr)
            else:
                top = a.name.split('.')[0]
                self.assign_name(top, self.load(top), fr)

    def s_ImportFrom(self, s, fr):
        name = s.module or ''
        if s.level:
            parts = fr.mod.name.split('.')
            if not fr.mod.path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        m = self.load(name)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, ModV):
                    for k, v in list(m.env.items()):
                        if not k.startswith('_'):
                            self.assign_name(k, v, fr)
                continue
            self.assign_name(a.asname or a.name, self.import_from(m, a.name), fr)

    def import_from(self, m, name):
        if isinstance(m, ExtV):
            return self.ext_attr(m, name)
        if name in m.env:
            return m.env[name]
        if self.mod_path(m.name + '.' + name) is not None:
            return self.load(m.name + '.' + name)
        if m.loading:
            self.raise_('ImportError', 'cannot import name %s from partially initialised %s' % (name, m.name))
        self.raise_('ImportError', 'cannot import name %s from %s' % (name, m.name))

    def s_FunctionDef(self, s, fr):
        self.assign_name(s.name, self.decorate(s, self.make_func(s, fr, s.name), fr), fr)

    def s_ClassDef(self, s, fr):
        self.assign_name(s.name, self.decorate(s, self.make_class(s, fr), fr), fr)

    def decorate(self, s, v, fr):
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            v = self.apply_decorator(dv, v)
        return v

    def make_func(self, node, fr, name):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        if fr.isclass:
            closure = fr.closure
            qual = fr.qual + '.' + name
        elif fr.func is None and fr.locals is fr.mod.env:
            closure = ()
            qual = fr.mod.name + '.' + name
        else:
            closure = (fr.locals,) + tuple(fr.closure)
            qual = fr.qual + '.' + name
        return FuncV(node, fr.mod, qual, closure, defaults, kwd, fr.cls, scan(node)[3])

    def make_class(self, s, fr):
        bases = []
        for b in s.bases:
            v = self.ev(b, fr)
            bases.append(v)
        bases = [b for b in bases if not (isinstance(b, BuiltinV) and b.name == 'object')]
        for k in s.keywords:
            self.ev(k.value, fr)
        qual = (fr.mod.name if fr.locals is fr.mod.env else fr.qual) + '.' + s.name
        cf = Frame(fr.mod, qual, fr.closure if fr.locals is fr.mod.env else (fr.locals,) + tuple(fr.closure))
        cf.isclass = True
        cell = {}
        cf.closure = (cell,) + tuple(cf.closure)
        self.stack.append(cf)
        try:
            self.block(s.body, cf)
        finally:
            self.stack.pop()
        cls = ClassV(s.name, qual, fr.mod, bases, cf.locals, s)
        cell['__class__'] = cls
        for v in cls.dict.values():
            f = v.func if isinstance(v, Wrap) else v
            if isinstance(f, FuncV):
                f.cls = cls
                f.closure = f.closure if f.closure and f.closure[0] is cell else (cell,) + tuple(f.closure)
            if isinstance(v, Wrap) and isinstance(v.fset, FuncV):
                v.fset.cls = cls
        self.finish_class(cls)
        return cls

    def s_Match(self, s, fr):
        v = self.ev(s.subject, fr)
        for c in s.cases:
            if self.match(c.pattern, v, fr) and (c.guard is None or self.truth(self.ev(c.guard, fr))):
                return self.block(c.body, fr)
        return None

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                self.assign_name(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, fr)
            if not self.truth(self.isinstance_(v, cls)):
                return False
            if p.patterns:
                if len(p.patterns) == 1 and isinstance(cls, BuiltinV):
                    if not self.match(p.patterns[0], v, fr):
                        return False
                else:
                    self.undecided('positional class pattern')
            for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.match(q, self.getattr(v, k), fr):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, ListO)):
                return False
            items = list(v) if isinstance(v, tuple) else list(v.items)
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                i = [j for j, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)][0]
                if len(items) < len(p.patterns) - 1:
                    return False
                tail = len(p.patterns) - i - 1
                parts = items[:i], items[i:len(items) - tail], items[len(items) - tail:]
                for q, x in zip(p.patterns[:i], parts[0]):
                    if not self.match(q, x, fr):
                        return False
                if p.patterns[i].name:
                    self.assign_name(p.patterns[i].name, ListO(parts[1]), fr)
                return all(self.match(q, x, fr) for q, x in zip(p.patterns[i + 1:], parts[2]))
            if len(items) != len(p.patterns):
                return False
            return all(self.match(q, x, fr) for q, x in zip(p.patterns, items))
        self.undecided('match pattern ' + type(p).__name__)

    # -- assignment -----------------------------------------------------------------------------------------------
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, None if star else len(t.elts))
            if star:
                i = star[0]
                tail = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, ListO(items[i:len(items) - tail]), fr)
                for e, x in zip(t.elts[i + 1:], items[len(items) - tail:]):
                    self.assign(e, x, fr)
                return
            if len(items) != len(t.elts):
                self.raise_('ValueError', 'wrong number of values to unpack')
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            self.undecided('assignment target ' + type(t).__name__)

    def unpack(self, v, n):
        if isinstance(v, T) and kind_of(v, self.st) in (None, 'tuple', 'list') and n is not None:
            return [T('item', (v, i)) for i in range(n)]
        return list(self.iterate(v))

    # -- expressions ----------------------------------------------------------------------------------------------
    def ev(self, e, fr):
        st = self.st
        st.steps += 1
        if st.steps > st.budget:
            raise BudgetExceeded('step budget exceeded')
        ln = getattr(e, 'lineno', None)
        if ln is not None:
            fr.lineno = ln
        f = self._E.get(type(e))
        if f is None:
            self.undecided('expression ' + type(e).__name__)
        return f(self, e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x, fr) for x in (s.lower, s.upper, s.step)])
        return self.ev(s, fr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.ev_index(e.slice, fr))

    def e_Slice(self, e, fr):
        return self.ev_index(e, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return ListO(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return self.make_set(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += list(self.iterate(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = DictO()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, fr)
                for kk, vv in self.dict_items(src):
                    self.dict_set(d, kk, vv)
            else:
                kk = self.ev(k, fr)
                self.dict_set(d, kk, self.ev(v, fr))
        return d

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        return self.unop(type(e.op).__name__, v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return self.bool_val(v, False)
            if not isand and t:
                return self.bool_val(v, True)
        return v

    def bool_val(self, v, t):
        # a value whose truth was just decided; atoms become plain booleans
        if isinstance(v, T) and v.op in BOOL_OPS:
            return t
        return self.st.norm(v)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        n = len(e.ops)
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(c, fr)
            r = self.compare(type(op).__name__, left, right)
            if i == n - 1:
                return r
            if not self.truth(r):
                return False
            left = right

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, '<lambda>')

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        self.assign_name(e.target.id, v, f)
        return v

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if v.conversion == 114:
                    x = self.repr_(x)
                elif v.conversion == 115:
                    x = self.str_(x)
                spec = self.ev(v.format_spec, fr) if v.format_spec is not None else ''
                parts.append(self.format_(x, spec))
        return cat(parts)

    def e_FormattedValue(self, e, fr):
        return self.format_(self.ev(e.value, fr), '')

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args and 'super' not in fr.locals:
            cls = fr.func.cls if fr.func is not None else None
            if cls is None:
                for env in fr.closure:
                    if '__class__' in env:
                        cls = env['__class__']
                        break
            first = fr.func.node.args.args[0].arg if fr.func is not None and fr.func.node.args.args else None
            if cls is None or first is None:
                self.undecided('super()')
            return ExtO('super', cls=cls, self=fr.locals[first])
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals') and not e.args:
            env = fr.locals if e.func.id == 'locals' else fr.mod.env
            d = DictO()
            d.pairs = [[k, v] for k, v in env.items()]
            return d
        f = self.ev(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.iterate(self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.dict_items(self.ev(k.value, fr)):
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        fr.lineno = e.lineno
        return self.call(f, args, kwargs)

    def e_Yield(self, e, fr):
        self.undecided('yield inside an expression')

    e_YieldFrom = e_Yield

    # -- generators -----------------------------------------------------------------------------------------------
    def gen_run(self, f, fr):
        it = self.block_gen(f.node.body, fr)
        exc = None
        while True:
            self.stack.append(fr)
            try:
                if exc is not None:
                    e, exc = exc, None
                    v = it.throw(e)
                else:
                    v = next(it)
            except StopIteration:
                return
            finally:
                self.stack.pop()
            try:
                yield v
            except PyRaise as e:
                exc = e

    def block_gen(self, stmts, fr):
        for s in stmts:
            r = yield from self.stmt_gen(s, fr)
            if r is not None:
                return r
        return None

    def yield_expr(self, e, fr):
        if isinstance(e, ast.YieldFrom):
            for v in self.iterate(self.ev(e.value, fr)):
                yield v
        else:
            yield (self.ev(e.value, fr) if e.value is not None else None)
        return None

    def stmt_gen(self, s, fr):
        if not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _walk_local(s)):
            return self.stmt(s, fr)
        fr.lineno = s.lineno
        if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            yield from self.yield_expr(s.value, fr)
            return None
        if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            v = yield from self.yield_expr(s.value, fr)
            for t in s.targets:
                self.assign(t, v, fr)
            return None
        if isinstance(s, ast.If):
            return (yield from self.block_gen(s.body if self.truth(self.ev(s.test, fr)) else s.orelse, fr))
        if isinstance(s, ast.While):
            n = 0
            while self.truth(self.ev(s.test, fr)):
                r = yield from self.block_gen(s.body, fr)
                if r == 'brk':
                    return None
                if r is not None and r != 'cont':
                    return r
                n += 1
                if n > 2000:
                    raise BudgetExceeded('loop bound exceeded at line %d' % s.lineno)
            return (yield from self.block_gen(s.orelse, fr))
        if isinstance(s, ast.For):
            for v in self.iterate(self.ev(s.iter, fr)):
                self.assign(s.target, v, fr)
                r = yield from self.block_gen(s.body, fr)
                if r == 'brk':
                    return None
                if r is not None and r != 'cont':
                    return r
            return (yield from self.block_gen(s.orelse, fr))
        if isinstance(s, ast.Try):
            pend = None
            r = None
            try:
                r = yield from self.block_gen(s.body, fr)
                if r is None:
                    r = yield from self.block_gen(s.orelse, fr)
            except PyRaise as e:
                pend = e
            if pend is not None:
                for h in s.handlers:
                    if h.type is None or self.exc_match(pend.value, self.ev(h.type, fr)):
                        if h.name:
                            self.assign_name(h.name, pend.value, fr)
                        old, fr.exc, e0 = fr.exc, pend.value, pend
                        pend = None
                        try:
                            r = yield from self.block_gen(h.body, fr)
                        except PyRaise as e2:
                            pend = e2
                        finally:
                            fr.exc = old
                        break
            r2 = yield from self.block_gen(s.finalbody, fr)
            if r2 is not None:
                return r2
            if pend is not None:
                raise pend
            return r
        if isinstance(s, ast.With):
            exits = []
            pend = None
            r = None
            try:
                for item in s.items:
                    cm = self.ev(item.context_expr, fr)
                    v = self.enter(cm)
                    exits.append(cm)
                    if item.optional_vars is not None:
                        self.assign(item.optional_vars, v, fr)
                r = yield from self.block_gen(s.body, fr)
            except PyRaise as e:
                pend = e
            for cm in reversed(exits):
                if self.exit(cm, pend.value if pend else None):
                    pend = None
            if pend is not None:
                raise pend
            return r
        self.undecided('yield inside ' + type(s).__name__)

    def _comp(self, gens, fr, leaf):
        cf = Frame(fr.mod, fr.qual, (fr.locals,) + tuple(fr.closure), fr.func, fr.cls)
        if fr.isclass:
            cf.closure = tuple(fr.closure)
        cf.lineno = fr.lineno
        cf.nonlocals = set()
        first = self.ev(gens[0].iter, fr)

        def rec(i):
            if i == len(gens):
                yield leaf(cf)
                return
            g = gens[i]
            it = first if i == 0 else self.ev(g.iter, cf)
            for v in self.iterate(it):
                self.assign(g.target, v, cf)
                if all(self.truth(self.ev(c, cf)) for c in g.ifs):
                    for x in rec(i + 1):
                        yield x
        return rec(0)

    def e_ListComp(self, e, fr):
        return ListO(self._comp(e.generators, fr, lambda cf: self.ev(e.elt, cf)))

    def e_SetComp(self, e, fr):
        return self.make_set(list(self._comp(e.generators, fr, lambda cf: self.ev(e.elt, cf))))

    def e_DictComp(self, e, fr):
        d = DictO()
        for k, v in self._comp(e.generators, fr, lambda cf: (self.ev(e.key, cf), self.ev(e.value, cf))):
            self.dict_set(d, k, v)
        return d

    def e_GeneratorExp(self, e, fr):
        return IterO(self._comp(e.generators, fr, lambda cf: self.ev(e.elt, cf)))

    def e_Starred(self, e, fr):
        self.undecided('starred expression')

    # -- calls ----------------------------------------------------------------------------------------------------
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, BMeth):
            return self.method(f.obj, f.name, args, kwargs)
        if isinstance(f, BuiltinV):
            return self.call_builtin(f.name, args, kwargs)
        if isinstance(f, ExtV):
            return self.call_ext(f.path, args, kwargs)
        if isinstance(f, FDV):
            return self.call(self.st.split(f), args, kwargs)
        if isinstance(f, T):
            if f.op == 'attr':
                return self.method(f.args[0], f.args[1], args, kwargs)
            return self.opaque_call(f, args, kwargs)
        if isinstance(f, ExtO):
            return self.call_exto(f, args, kwargs)
        if isinstance(f, Wrap) and f.kind in ('static', 'class'):
            return self.call(f.func, args, kwargs)
        if isinstance(f, Inst):
            m, c = f.cls.lookup('__call__') if isinstance(f.cls, ClassV) else (None, None)
            if m is not None:
                return self.call(m, [f] + list(args), kwargs)
        self.raise_('TypeError', '%s object is not callable' % kind_of(f))

    def call_func(self, f, args, kwargs):
        h = self.hooks.get(f.qual)
        if h is not None:
            r = h(self, f, list(args), dict(kwargs))
            if r is not NotImplemented:
                return r
        self.visited.add(f.qual)
        if len(self.stack) > 960:
            self.raise_('RecursionError', 'maximum recursion depth exceeded')
        fr = Frame(f.mod, f.qual, f.closure, f, f.cls)
        self.bind(f, args, kwargs, fr.locals)
        names, glob, nonl, gen, _ = scan(f.node)
        fr.localnames = names
        fr.globals_ = set(glob)
        fr.nonlocals = set(nonl)
        fr.lineno = f.node.lineno
        self.stack.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if gen:
                return IterO(self.gen_run(f, fr))
            r = self.block(f.node.body, fr)
            if r is None:
                return None
            self.lastret = self.where()
            return r[1]
        finally:
            self.stack.pop()

    def bind(self, f, args, kwargs, env):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if i < len(args):
                if n in kwargs:
                    self.raise_('TypeError', '%s() got multiple values for argument %s' % (f.name, n))
                env[n] = args[i]
            elif n in kwargs:
                env[n] = kwargs.pop(n)
            elif i >= len(pos) - nd:
                env[n] = f.defaults[i - (len(pos) - nd)]
            else:
                self.raise_('TypeError', '%s() missing argument %s' % (f.name, n))
        extra = args[len(pos):]
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(extra)
        elif extra:
            self.raise_('TypeError', '%s() takes %d positional arguments' % (f.name, len(pos)))
        for k in a.kwonlyargs:
            if k.arg in kwargs:
                env[k.arg] = kwargs.pop(k.arg)
            elif k.arg in f.kwdefaults:
                env[k.arg] = f.kwdefaults[k.arg]
            else:
                self.raise_('TypeError', '%s() missing keyword argument %s' % (f.name, k.arg))
        if a.kwarg is not None:
            d = DictO()
            d.pairs = [[k, v] for k, v in kwargs.items()]
            env[a.kwarg.arg] = d
        elif kwargs:
            self.raise_('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, sorted(kwargs)[0]))

    # -- running a program fragment as the main script ------------------------------------------------------------
    def run_main(self, modname, extra=None):
        """Analyse a module as __main__ (used for command-line tools)."""
        path = self.mod_path(modname)
        tree = parse_file(path)
        m = ModV('__main__', {'__name__': '__main__', '__file__': T('sym', ('__file__', 'str', 'n'))}, tree, path)
        if extra:
            m.env.update(extra)
        self.modules['__main__'] = m
        fr = Frame(m, modname)
        fr.locals = m.env
        self.stack.append(fr)
        try:
            self.block(tree.body, fr)
        finally:
            self.stack.pop()
        return m


Interp._S = {getattr(ast, n[2:]): getattr(Interp, n) for n in dir(Interp) if n.startswith('s_') and hasattr(ast, n[2:])}
Interp._E = {getattr(ast, n[2:]): getattr(Interp, n) for n in dir(Interp) if n.startswith('e_') and hasattr(ast, n[2:])}
