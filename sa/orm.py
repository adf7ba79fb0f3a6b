"""Model of the object-relational layer: declarative classes, queries, sessions, engines.

A query yields rows whose columns are symbolic; the conditions of the query become facts about the row."""
from .core import *


class Orm(object):
    ORM_KINDS = {'column', 'rel', 'cond', 'query', 'session', 'maker', 'engine', 'metadata', 'table', 'coltype', 'fk',
                 'sqlexpr', 'delstmt', 'result', 'transaction', 'dbconn', 'order'}

    # -- construction ---------------------------------------------------------------------------------------------
    def call_sql(self, path, args, kwargs):
        last = path.split('.')[-1]
        st = self.st
        if last == 'declarative_base':
            fr = self.stack[-1]
            n = kwargs.get('name', 'Base')
            c = ClassV(n if isinstance(n, str) else 'Base', fr.mod.name + '.' + str(n), fr.mod, [], {})
            self.make_base(c)
            return c
        if last == 'Column':
            return self.sql_column(args, kwargs)
        if last in ('relationship', 'relation'):
            return ExtO('rel', target=args[0] if args else None, kwargs=dict(kwargs))
        if last == 'mapped_column':
            return self.sql_column(args, kwargs)
        if last == 'ForeignKey':
            t = args[0]
            return ExtO('fk', target=t)
        if last in ('Integer', 'String', 'Text', 'BigInteger', 'DateTime', 'LargeBinary', 'Enum', 'Boolean', 'Float',
                    'SmallInteger', 'Unicode', 'UnicodeText', 'VARCHAR', 'Numeric', 'BLOB'):
            return ExtO('coltype', name=last, args=tuple(args))
        if last == 'create_engine':
            e = ExtO('engine', url=args[0] if args else kwargs.get('url'), n=st.fresh('engine'))
            st.event('engine', url=e.data['url'], engine=e, kwargs=dict(kwargs))
            return e
        if last in ('sessionmaker', 'scoped_session'):
            if last == 'scoped_session':
                f = args[0] if args else kwargs.get('session_factory')
                if not (isinstance(f, ExtO) and f.kind == 'maker'):
                    self.undecided('scoped_session of an unknown factory')
                return ExtO('maker', scoped=True, **f.data)
            return ExtO('maker', bind=kwargs.get('bind', args[0] if args else None))
        if last == 'Session':
            s = ExtO('session', maker=ExtO('maker', bind=args[0] if args else kwargs.get('bind')), n=st.fresh('session'))
            st.event('db_session', session=s, maker=s.data['maker'])
            return s
        if last in ('and_', 'or_'):
            return ExtO('cond', op='and' if last == 'and_' else 'or', args=tuple(args))
        if last == 'not_':
            return ExtO('cond', op='not', args=tuple(args))
        if last in ('select', 'query'):
            return self.new_query(None, list(args))
        if last == 'delete':
            return ExtO('delstmt', table=args[0], conds=[])
        if last in ('text', 'desc', 'asc', 'UniqueConstraint', 'Index', 'PrimaryKeyConstraint', 'CheckConstraint', 'joinedload',
                    'contains_eager', 'selectinload', 'lower', 'func'):
            if last in ('lower', 'upper'):
                return ExtO('sqlexpr', f=last, col=args[0])
            return ExtO('order', what=last, args=tuple(args))
        if '.func.' in path:
            return ExtO('sqlexpr', f=last, col=args[0] if args else None)
        return ExtO('opaque', path=path, args=tuple(args))

    def make_base(self, c):
        c.orm = 'base'
        c.dict['__registry__'] = ExtO('registry', classes=[])
        c.dict['metadata'] = ExtO('metadata', base=c)

    def sql_column(self, args, kwargs):
        args = list(args)
        name = None
        if args and isinstance(args[0], str):
            name = args.pop(0)
        typ, fk = kwargs.get('type_'), None
        for a in args:
            if isinstance(a, ExtO) and a.kind == 'fk':
                fk = a.data['target']
            elif isinstance(a, ExtV):
                typ = ExtO('coltype', name=a.path.split('.')[-1], args=())
            elif isinstance(a, ExtO) and a.kind == 'coltype':
                typ = a
        pk = kwargs.get('primary_key') is True
        return ExtO('column', name=name, type=typ, fk=fk, pk=pk, nullable=kwargs.get('nullable', not pk),
                    owner=None, attr=None, default=kwargs.get('default'))

    def finish_orm(self, cls):
        if any(isinstance(b, ExtV) and b.path.endswith('DeclarativeBase') for b in cls.bases):
            self.make_base(cls)
            return
        base = None
        for c in cls.mro[1:]:
            if c.orm == 'base':
                base = c
        if base is None:
            return
        cls.orm = True
        reg = base.dict['__registry__'].data['classes']
        for n, v in list(cls.dict.items()):
            if isinstance(v, ExtO) and v.kind == 'column':
                v.data['owner'], v.data['attr'] = cls, n
                if v.data['name'] is None:
                    v.data['name'] = n
            elif isinstance(v, ExtO) and v.kind == 'rel':
                v.data['owner'], v.data['attr'] = cls, n
        reg.append(cls)

    def base_of(self, cls):
        for c in cls.mro:
            if c.orm == 'base':
                return c
        self.undecided('no declarative base for %s' % cls.name)

    def columns(self, cls):
        out = []
        for c in reversed(cls.mro):
            for n, v in c.dict.items():
                if isinstance(v, ExtO) and v.kind == 'column' and v not in out:
                    out.append(v)
        return out

    def tablename(self, cls):
        v, c = cls.lookup('__tablename__')
        return v

    def fk_of(self, col):
        """(class, column) a foreign key column points to."""
        t = col.data['fk']
        if t is None:
            return None
        base = self.base_of(col.data['owner'])
        for c in base.dict['__registry__'].data['classes']:
            for k in self.columns(c):
                if isinstance(t, ExtO) and t is k:
                    return (c, k)
                if isinstance(t, str) and self.tablename(c) is not None and \
                        t == '%s.%s' % (self.tablename(c), k.data['name']):
                    return (c, k)
        return None

    def rel_target(self, rel):
        t = rel.data['target']
        if isinstance(t, ClassV):
            return t
        if isinstance(t, (FuncV,)):
            return self.call(t, [])
        base = self.base_of(rel.data['owner'])
        for c in base.dict['__registry__'].data['classes']:
            if c.name == t:
                return c
        self.undecided('relationship target %s' % show(t))

    def link(self, a, b):
        """Foreign key conditions between two mapped classes: [(col of a, col of b)]."""
        out = []
        for c in self.columns(a):
            f = self.fk_of(c)
            if f is not None and f[0] is b:
                out.append((c, f[1]))
        for c in self.columns(b):
            f = self.fk_of(c)
            if f is not None and f[0] is a:
                out.append((f[1], c))
        return out

    def orm_new(self, cls, o, args, kwargs):
        if args:
            self.raise_('TypeError', '__init__() takes 1 positional argument')
        names = {c.data['attr'] for c in self.columns(cls)}
        rels = {n for c in cls.mro for n, v in c.dict.items() if isinstance(v, ExtO) and v.kind == 'rel'}
        for n in names:
            o.attrs[n] = None
        for k, v in kwargs.items():
            if k not in names and k not in rels and cls.lookup(k)[1] is None:
                self.raise_('TypeError', "'%s' is an invalid keyword argument for %s" % (k, cls.name))
            o.attrs[k] = v
        o.tag = 'new'
        self.st.event('orm_new', obj=o, cls=cls)
        return o

    # -- rows -----------------------------------------------------------------------------------------------------
    KINDS = {'Integer': 'int', 'BigInteger': 'int', 'SmallInteger': 'int', 'String': 'str', 'Text': 'str',
             'Unicode': 'str', 'UnicodeText': 'str', 'VARCHAR': 'str', 'LargeBinary': 'bytes', 'BLOB': 'bytes',
             'Float': 'float', 'Boolean': 'bool'}

    def new_row(self, cls):
        n = self.st.fresh('row:' + cls.name)
        o = Inst(cls, {}, '%s#%d' % (cls.name, n))
        o.lazy = self.row_attr
        return o

    def row_attr(self, I, o, name):
        st = self.st
        v, c = o.cls.lookup(name)
        if not isinstance(v, ExtO):
            return DEAD
        if v.kind == 'column':
            t = T('col', (o.tag, name))
            typ = v.data['type']
            tn = typ.data['name'] if typ is not None else None
            if tn == 'Enum':
                cls = typ.data['args'][0] if typ.data['args'] else None
                if isinstance(cls, ClassV) and cls.members:
                    vals = []
                    for m in cls.members.values():
                        if m not in vals:
                            vals.append(m)
                    if v.data['nullable'] is True:
                        vals.append(None)
                    return st.fd('%s.%s' % (o.tag, name), vals)
                return t
            k = self.KINDS.get(tn)
            if v.data['nullable'] is not False and not v.data['pk']:
                # a condition of the query may already say that it is not null
                if st.choose(2, '%s is NULL' % show(t)) == 1:
                    return None
            if k is not None:
                st.kinds[t] = k
            return t
        if v.kind == 'rel':
            return self.load_rel(o, v)
        return DEAD

    def load_rel(self, o, rel):
        st = self.st
        tgt = self.rel_target(rel)
        many = any(self.fk_of(c) is not None and self.fk_of(c)[0] is o.cls for c in self.columns(tgt))
        prs = self.link(o.cls, tgt)
        if self.exthooks.get('db') is not None:
            rows = [r for r in self.pool(tgt, None) if all(self.sql_eq(
                self.getattr(o, a.data['attr']), self.getattr(r, b.data['attr'])) for a, b in prs)]
            st.event('query', query=None, rows=rows, how='relationship', of=o, rel=rel)
            return ListO(rows) if many else (rows[0] if rows else None)

        def mk():
            r = self.new_row(tgt)
            for a, b in prs:
                self.must_eq(self.getattr(r, b.data['attr']), self.getattr(o, a.data['attr']))
            return r
        if many:
            n = (0, 1, 2)[st.choose(3, 'rows of %s.%s' % (o.tag, rel.data['attr']))]
            rows = [mk() for _ in range(n)]
            st.event('query', query=None, rows=rows, how='relationship', of=o, rel=rel)
            return ListO(rows)
        r = mk()
        st.event('query', query=None, rows=[r], how='relationship', of=o, rel=rel)
        return r

    def must_eq(self, a, b):
        r = self.eq(a, b)
        if isinstance(r, T):
            self.assume_true(r)
        elif isinstance(r, FDV):
            if not self.truth(r):
                raise Infeasible()
        elif not r:
            raise Infeasible()

    def assume_true(self, r, val=True):
        while isinstance(r, T) and r.op == 'not':
            r, val = r.args[0], not val
        if isinstance(r, T) and r.op == 'and' and val:
            for x in r.args:
                self.assume_true(x)
            return
        if isinstance(r, T) and r.op in ('and', 'or'):
            if self.truth(r) != val:
                raise Infeasible()
            return
        if isinstance(r, T):
            self.st.assume(r, val)
        elif bool(r) != val:
            raise Infeasible()

    # -- conditions -----------------------------------------------------------------------------------------------
    def sql_cond(self, op, col, v):
        return ExtO('cond', op=op, args=(col, v))

    def sql_binop(self, op, a, b):
        if op == 'BitAnd':
            return ExtO('cond', op='and', args=(a, b))
        if op == 'BitOr':
            return ExtO('cond', op='or', args=(a, b))
        return ExtO('sqlexpr', f=op, col=a, arg=b)

    def sql_val(self, v, env):
        if isinstance(v, ExtO) and v.kind == 'column':
            r = env.get(v.data['owner'])
            if r is None:
                self.undecided('column of %s outside the query' % v.data['owner'].name)
            return self.getattr(r, v.data['attr'])
        if isinstance(v, ExtO) and v.kind == 'sqlexpr':
            if v.data['f'] in ('lower', 'upper'):
                return self.method(self.sql_val(v.data['col'], env), v.data['f'], [], {})
            self.undecided('SQL expression')
        return v

    def apply_cond(self, c, env):
        """Restrict the rows of env to those satisfying c."""
        if c is True:
            return
        if c is False:
            raise Infeasible()
        if not isinstance(c, ExtO) or c.kind != 'cond':
            self.undecided('query condition %s' % show(c))
        op, args = c.data['op'], c.data['args']
        if op == 'and':
            for x in args:
                self.apply_cond(x, env)
            return
        if op == 'or':
            i = self.st.choose(len(args), 'disjunct of the query condition')
            self.apply_cond(args[i], env)
            return
        if op == 'not':
            x = args[0]
            neg = {'Eq': 'NotEq', 'NotEq': 'Eq', 'Lt': 'GtE', 'GtE': 'Lt', 'Gt': 'LtE', 'LtE': 'Gt'}
            if isinstance(x, ExtO) and x.kind == 'cond' and x.data['op'] in neg:
                self.apply_cond(ExtO('cond', op=neg[x.data['op']], args=x.data['args']), env)
                return
            self.undecided('negated query condition')
        a = self.sql_val(args[0], env)
        if op == 'in':
            vals = list(self.iterate(args[1]))
            if not vals:
                raise Infeasible()
            i = self.st.choose(len(vals), 'member of IN list')
            self.must_eq(a, vals[i])
            return
        if op == 'like':
            return
        b = self.sql_val(args[1], env)
        if op == 'Eq':
            if b is None or a is None:
                if (a is None) != (b is None):
                    raise Infeasible()
                if isinstance(args[1], ExtO) and b is None:
                    raise Infeasible()       # NULL = NULL is not true
                return
            self.must_eq(a, b)
            return
        if op == 'NotEq':
            if b is None:
                if a is None:
                    raise Infeasible()
                return
            if a is None:
                raise Infeasible()
            self.assume_true(self.not_(self.eq(a, b)))
            return
        if a is None or b is None:
            raise Infeasible()
        self.assume_true(self.compare(op, a, b))

    # -- queries --------------------------------------------------------------------------------------------------
    def new_query(self, session, ents):
        if len(ents) == 1 and isinstance(ents[0], (tuple, ListO)):
            ents = list(self.iterate(ents[0]))
        return ExtO('query', session=session, ents=ents, conds=[], joins=[], last=None, limit=None)

    def _clone(self, q, **kw):
        d = dict(q.data)
        d['conds'], d['joins'] = list(d['conds']), list(d['joins'])
        d.update(kw)
        return ExtO('query', **d)

    def ent_class(self, e):
        if isinstance(e, ClassV):
            return e
        if isinstance(e, ExtO) and e.kind == 'column':
            return e.data['owner']
        if isinstance(e, ExtO) and e.kind == 'sqlexpr' and e.data.get('col') is not None:
            return self.ent_class(e.data['col'])
        return None

    def query_m(self, q, name, args, kwargs):
        st = self.st
        d = q.data
        if name in ('filter', 'where', 'having'):
            return self._clone(q, conds=d['conds'] + list(args))
        if name == 'filter_by':
            cls = d['last'] or self.ent_class(d['ents'][0])
            cs = []
            for k, v in kwargs.items():
                col, c = cls.lookup(k)
                if not (isinstance(col, ExtO) and col.kind == 'column'):
                    self.raise_('Exception', 'Entity %s has no property %s' % (cls.name, k))
                cs.append(ExtO('cond', op='Eq', args=(col, v)))
            return self._clone(q, conds=d['conds'] + cs)
        if name in ('join', 'outerjoin', 'innerjoin'):
            t = args[0]
            conds = []
            if isinstance(t, ExtO) and t.kind == 'rel':
                cls = self.rel_target(t)
                conds = [ExtO('cond', op='Eq', args=(a, b)) for a, b in self.link(t.data['owner'], cls)]
            elif isinstance(t, ClassV):
                cls = t
                if len(args) > 1 and isinstance(args[1], ExtO) and args[1].kind == 'cond':
                    conds = [args[1]]
                elif len(args) > 1 and isinstance(args[1], ExtO) and args[1].kind == 'rel':
                    conds = [ExtO('cond', op='Eq', args=(a, b)) for a, b in self.link(args[1].data['owner'], cls)]
                elif 'onclause' in kwargs:
                    conds = [kwargs['onclause']]
                else:
                    prev = [self.ent_class(e) for e in d['ents']] + list(d['joins'])
                    for p in prev:
                        if p is not None and p is not cls:
                            l = self.link(p, cls)
                            if l:
                                conds = [ExtO('cond', op='Eq', args=(a, b)) for a, b in l]
                                break
                    else:
                        self.raise_('Exception', "Don't know how to join to %s" % cls.name)
            else:
                self.undecided('join target')
            outer = name == 'outerjoin' or kwargs.get('isouter') is True or d.get('outer', False)
            return self._clone(q, joins=d['joins'] + [cls], conds=d['conds'] + conds, last=cls, outer=outer)
        if name == 'select_from':
            return self._clone(q, joins=d['joins'] + [self.ent_class(args[0])], last=self.ent_class(args[0]))
        if name in ('order_by', 'distinct', 'options', 'with_for_update', 'populate_existing', 'execution_options',
                    'autoflush', 'group_by', 'offset', 'enable_eagerloads', 'add_columns', 'yield_per', 'slice'):
            if name == 'add_columns':
                return self._clone(q, ents=d['ents'] + list(args))
            if name == 'offset':
                return self._clone(q, offset=True)
            if name == 'slice':
                return self._clone(q, offset=args[0] != 0, limit=args[1])
            return self._clone(q)
        if name == 'limit':
            return self._clone(q, limit=self.raw(args[0]) if args[0] is not None else None)
        if name == 'with_entities':
            return self._clone(q, ents=list(args), joins=d['joins'] + [c for c in map(self.ent_class, d['ents']) if c])
        if name == 'first':
            r = self.rows(q, (0, 1), 'first')
            return r[0] if r else None
        if name in ('one_or_none', 'scalar_one_or_none', 'scalar'):
            r = self.rows(q, (0, 1), name)
            if not r:
                return None
            return self.getitem(r[0], 0) if name == 'scalar' and not isinstance(r[0], Inst) else r[0]
        if name in ('one', 'scalar_one'):
            r = self.rows(q, (0, 1), name)
            if not r:
                self.raise_('sqlalchemy.orm.exc.NoResultFound', 'No row was found')
            return r[0]
        if name == 'all':
            return ListO(self.rows(q, (0, 1, 2), 'all'))
        if name == 'get':
            cls = self.ent_class(d['ents'][0])
            return self.by_pk(q, cls, args[0])
        if name == 'count':
            return len(self.rows(q, (0, 1, 2), 'count'))
        if name == 'exists':
            return ExtO('query', **dict(q.data, exists=True))
        if name == 'delete':
            st.event('db_execute', stmt=ExtO('delstmt', table=self.ent_class(d['ents'][0]), conds=list(d['conds'])),
                     session=d['session'])
            return usym('rowcount', 'int')
        if name == 'update':
            st.event('db_update', query=q, values=args[0] if args else kwargs)
            return usym('rowcount', 'int')
        if name in ('scalars', 'unique', 'tuples', 'fetchall', 'fetchone', 'mappings'):
            if name == 'fetchall':
                return ListO(self.rows(q, (0, 1, 2), 'all'))
            if name == 'fetchone':
                r = self.rows(q, (0, 1), 'first')
                return r[0] if r else None
            return self._clone(q, scalars=True) if name == 'scalars' else q
        if name == '__iter__':
            return IterO(iter(self.rows(q, (0, 1, 2), 'all')))
        self.undecided('query method ' + name)

    def by_pk(self, q, cls, key):
        pks = [c for c in self.columns(cls) if c.data['pk']]
        vals = list(key) if isinstance(key, tuple) else [key]
        q2 = self._clone(q, conds=q.data['conds'] + [ExtO('cond', op='Eq', args=(c, v)) for c, v in zip(pks, vals)])
        r = self.rows(q2, (0, 1), 'get')
        return r[0] if r else None

    # -- a symbolic database: finitely many rows per table, unknown contents ---------------------------------------
    def pool(self, cls, session):
        out = list(self.exthooks['db'].get(cls.qual, ()))
        if session is not None:
            out += [x for x in session.data.setdefault('pending', []) if isinstance(x, Inst) and x.cls is cls]
        return out

    def sql_eq(self, a, b):
        if a is None or b is None:
            return False
        return bool(self.truth(self.eq(a, b)))

    def holds(self, c, env):
        """Three-valued truth of a query condition on a combination of rows: True, False or None (NULL)."""
        if isinstance(c, bool):
            return c
        if not isinstance(c, ExtO) or c.kind != 'cond':
            self.undecided('query condition %s' % show(c))
        op, args = c.data['op'], c.data['args']
        if op == 'and':
            rs = []
            for x in args:
                r = self.holds(x, env)
                if r is False:
                    return False
                rs.append(r)
            return None if None in rs else True
        if op == 'or':
            rs = []
            for x in args:
                r = self.holds(x, env)
                if r is True:
                    return True
                rs.append(r)
            return None if None in rs else False
        if op == 'not':
            r = self.holds(args[0], env)
            return None if r is None else not r
        a = self.sql_val(args[0], env)
        if op in ('in', 'notin'):
            if isinstance(args[1], ExtO) and args[1].kind == 'query':
                vals = [x if not isinstance(x, Inst) or x.cls.name != 'Row' else list(x.attrs.values())[0]
                        for x in self.rows(args[1], (0, 1, 2), 'all')]
            else:
                vals = [self.sql_val(x, env) for x in self.iterate(args[1])]
            if a is None:
                return None
            r = any([self.sql_eq(a, v) for v in vals])
            return r if op == 'in' else not r
        b = self.sql_val(args[1], env)
        if op == 'like':
            if a is None or b is None:
                return None
            how = c.data.get('how', 'like')
            if how in ('contains', 'startswith', 'endswith'):
                if how == 'contains':
                    return bool(self.truth(self.contains(a, b)))
                return bool(self.truth(self.method(a, how, [b], {})))
            return self.st.decide(T('pred', ('sqllike', a, b)))
        if op in ('Eq', 'NotEq') and (b is None or a is None) and c.data.get('isnull', b is None and args[1] is None):
            r = (a is None) == (b is None)
            return r if op == 'Eq' else not r
        if a is None or b is None:
            return None
        if op == 'Eq':
            return self.sql_eq(a, b)
        if op == 'NotEq':
            return not self.sql_eq(a, b)
        return bool(self.truth(self.compare(op, a, b)))

    def db_rows(self, q, sizes, how):
        import itertools
        st = self.st
        d = q.data
        classes = []
        for c in [self.ent_class(e) for e in d['ents']] + list(d['joins']):
            if c is not None and c not in classes:
                classes.append(c)
        if d.get('outer'):
            self.undecided('outer join')
        envs = []
        for combo in itertools.product(*[self.pool(c, d['session']) for c in classes]):
            env = dict(zip(classes, combo))
            if all(self.holds(c, env) is True for c in d['conds']):
                envs.append(env)
        # of more rows than a limit allows, some are left out; the database may have any number of further rows
        if d['limit'] is not None and envs:
            n = d['limit']
            if not isinstance(n, int):
                self.undecided('query limit')
            if n < len(envs):
                i = st.choose(len(envs), 'rows within the limit')
                envs = (envs[i:] + envs[:i])[:n]
            elif how == 'all' and n > 0:
                i = st.choose(len(envs) + 1, 'row left out by the limit')
                envs = envs[:i] + envs[i + 1:]
        if d.get('offset') and envs:
            i = st.choose(len(envs) + 1, 'row left out by the offset')
            envs = envs[:i] + envs[i + 1:]
        if how == 'count':
            return envs, envs
        if max(sizes) == 1 and len(envs) > 1:
            if how in ('one', 'one_or_none', 'scalar_one', 'scalar_one_or_none', 'scalar'):
                self.raise_('sqlalchemy.orm.exc.MultipleResultsFound', 'Multiple rows were found')
            envs = [envs[st.choose(len(envs), 'first row of the query')]]
        out = []
        for env in envs:
            vals = []
            for e in d['ents']:
                if isinstance(e, ClassV):
                    vals.append(env[e])
                else:
                    vals.append(self.sql_val(e, env))
            if len(vals) == 1 and (isinstance(d['ents'][0], ClassV) or d.get('scalars')):
                out.append(vals[0])
            else:
                names = tuple(e.name if isinstance(e, ClassV) else e.data.get('attr') or 'c%d' % j
                              for j, e in enumerate(d['ents']))
                cls = ClassV('Row', 'sqlalchemy.Row', None, [], {'_fields': names})
                out.append(Inst(cls, dict(zip(names, vals))))
        st.event('query', query=q, rows=out, envs=envs, how=how, conds=list(d['conds']))
        return out, envs

    def rows(self, q, sizes, how):
        st = self.st
        d = q.data
        if self.exthooks.get('db') is not None:
            return self.db_rows(q, sizes, how)[0]
        if d['limit'] is not None:
            sizes = tuple(s for s in sizes if s <= d['limit'])
        hook = self.exthooks.get('rows')
        if hook is not None:
            sizes = hook(self, q, sizes, how) or sizes
        n = sizes[st.choose(len(sizes), 'rows returned by the query')]
        out, envs = [], []
        for i in range(n):
            env = {}
            for c in [self.ent_class(e) for e in d['ents']] + list(d['joins']):
                if c is not None and c not in env:
                    env[c] = self.new_row(c)
            for c in d['conds']:
                self.apply_cond(c, env)
            envs.append(env)
            vals = []
            for e in d['ents']:
                if isinstance(e, ClassV):
                    vals.append(env[e])
                elif isinstance(e, ExtO) and e.kind == 'column':
                    vals.append(self.getattr(env[e.data['owner']], e.data['attr']))
                else:
                    vals.append(usym('sql%d' % st.fresh('sql')))
            if len(vals) == 1 and isinstance(d['ents'][0], ClassV):
                out.append(vals[0])
            elif len(vals) == 1 and d.get('scalars'):
                out.append(vals[0])
            else:
                names = tuple(e.name if isinstance(e, ClassV) else e.data.get('attr') or 'c%d' % j
                              for j, e in enumerate(d['ents']))
                cls = ClassV('Row', 'sqlalchemy.Row', None, [], {'_fields': names})
                out.append(Inst(cls, dict(zip(names, vals))))
        # rows of one table are distinct in their primary key
        for i in range(n):
            for j in range(i):
                self.distinct(q, envs[i], envs[j])
        st.event('query', query=q, rows=out, envs=envs, how=how, conds=list(d['conds']))
        return out

    def distinct(self, q, e1, e2):
        """If all but one key column of some table agree, the remaining one differs."""
        classes = list(e1)
        if len(classes) > 1:
            # a join: the table whose foreign keys point at the others determines the combination
            classes = [c for c in classes if any(self.fk_of(k) is not None for k in self.columns(c))] or classes[:1]
        cls = classes[0]
        diff = []
        for c in self.columns(cls):
            if c.data['pk']:
                a, b = self.getattr(e1[cls], c.data['attr']), self.getattr(e2[cls], c.data['attr'])
                r = self.eq(a, b)
                if r is True:
                    continue
                if r is False:
                    return
                diff.append(r)
        if len(diff) == 1:
            self.assume_true(diff[0], False)
        elif not diff:
            raise Infeasible()

    # -- sessions and the rest ------------------------------------------------------------------------------------
    def session_m(self, s, name, args, kwargs):
        st = self.st
        st.event('db_use', session=s, name=name)
        if name == 'query':
            return self.new_query(s, list(args))
        pend = s.data.setdefault('pending', [])
        if name == 'add':
            st.event('db_add', session=s, obj=args[0])
            pend.append(args[0])
            return None
        if name == 'add_all':
            for x in self.iterate(args[0]):
                st.event('db_add', session=s, obj=x)
                pend.append(x)
            return None
        if name in ('bulk_save_objects',):
            for x in self.iterate(args[0]):
                st.event('db_add', session=s, obj=x)
                pend.append(x)
            return None
        if name == 'merge':
            st.event('db_merge', session=s, obj=args[0])
            return args[0]
        if name in ('commit', 'rollback', 'close', 'flush', 'expire_all', 'expunge_all', 'expire', 'expunge', 'refresh'):
            if name in ('commit', 'flush') and self.exthooks.get('db') is not None:
                self.flush(s, pend)
            st.event('db_' + name, session=s)
            if name == 'rollback':
                pend[:] = []
            return None
        if name == 'delete':
            st.event('db_delete', session=s, obj=args[0])
            return None
        if name in ('execute', 'scalars', 'scalar'):
            x = args[0]
            if isinstance(x, ExtO) and x.kind == 'query':
                q = self._clone(x, session=s, scalars=name != 'execute')
                if name == 'scalar':
                    return self.query_m(q, 'scalar', [], {})
                return q
            st.event('db_execute', session=s, stmt=x)
            return ExtO('opaque', path='result', args=())
        if name == 'get':
            return self.by_pk(self.new_query(s, [args[0]]), args[0], args[1])
        if name in ('begin', 'begin_nested'):
            return ExtO('transaction', session=s)
        if name == '__enter__':
            return s
        self.undecided('session method ' + name)

    def flush(self, s, pend):
        """Primary keys are unique: inserting a row with a key that is in use fails and rolls back."""
        done = s.data.setdefault('flushed', [])
        for i, x in enumerate(pend):
            if not isinstance(x, Inst) or any(x is y for y in done):
                continue
            pks = [c.data['attr'] for c in self.columns(x.cls) if c.data['pk']]
            kx = [self.getattr(x, k) for k in pks]
            for y in list(self.exthooks['db'].get(x.cls.qual, ())) + [z for z in pend[:i] if isinstance(z, Inst)]:
                if y is x or y.cls is not x.cls:
                    continue
                if all(a is not None and self.sql_eq(a, self.getattr(y, k)) for a, k in zip(kx, pks)):
                    pend[:] = []
                    self.st.event('db_rollback', session=s)
                    self.raise_('sqlalchemy.exc.IntegrityError', 'duplicate key')
        done += [x for x in pend if not any(x is y for y in done)]

    def orm_attr(self, o, name):
        k, d = o.kind, o.data
        st = self.st
        if k == 'metadata':
            if name == 'sorted_tables':
                return ListO(self.sorted_tables(d['base']))
            if name == 'tables':
                return DictO([(self.tablename(c), ExtO('table', cls=c))
                              for c in d['base'].dict['__registry__'].data['classes']])
        if k == 'table':
            if name in ('name', 'fullname', 'key'):
                return self.tablename(d['cls'])
            if name in ('c', 'columns'):
                return d['cls']
        if k == 'column':
            if name in ('key', 'name'):
                return d['attr'] if name == 'key' else d['name']
            if name == 'type':
                return d['type']
        if k == 'engine' and name == 'url':
            return d['url']
        if k == 'engine' and name in ('name', 'dialect'):
            return usym('dialect')
        if k == 'session' and name in ('bind',):
            return d['maker'].data['bind']
        if k == 'delstmt' and name == 'table':
            return d['table']
        return DEAD

    def sorted_tables(self, base):
        cs = list(base.dict['__registry__'].data['classes'])
        deps = {c: {self.fk_of(k)[0] for k in self.columns(c) if self.fk_of(k) is not None} - {c} for c in cs}
        cs.sort(key=lambda c: str(self.tablename(c)))
        out = []
        while cs:
            for c in cs:
                if not (deps[c] - set(out)):
                    out.append(c)
                    cs.remove(c)
                    break
            else:
                self.undecided('cyclic foreign keys')
        return [ExtO('table', cls=c) for c in out]

    def orm_method(self, o, name, args, kwargs):
        k, d = o.kind, o.data
        st = self.st
        if k == 'query':
            return self.query_m(o, name, args, kwargs)
        if k == 'session':
            return self.session_m(o, name, args, kwargs)
        if k in ('column', 'sqlexpr'):
            if name in ('is_', 'is_distinct_from', '__eq__'):
                return ExtO('cond', op='Eq', args=(o, args[0]), isnull=name != '__eq__')
            if name in ('is_not', 'isnot', '__ne__'):
                return self.sql_cond('NotEq', o, args[0])
            if name in ('in_', 'not_in', 'notin_'):
                return self.sql_cond('in' if name == 'in_' else 'notin', o, args[0])
            if name in ('like', 'ilike', 'contains', 'startswith', 'endswith', 'match'):
                return ExtO('cond', op='like', args=(o, args[0]), how=name)
            if name in ('asc', 'desc', 'label'):
                return o
        if k == 'metadata':
            if name in ('create_all', 'drop_all'):
                st.event('db_ddl', what=name, base=d['base'], args=tuple(args) or ((kwargs['bind'],) if 'bind' in kwargs else ()))
                return None
        if k == 'table':
            if name == 'delete':
                return ExtO('delstmt', table=o, conds=list(args))
            if name in ('select',):
                return self.new_query(None, [d['cls']])
        if k == 'delstmt':
            if name == 'where':
                return ExtO('delstmt', table=d['table'], conds=d['conds'] + list(args))
        if k == 'engine':
            if name in ('connect', 'begin'):
                return ExtO('dbconn', engine=o)
            if name == 'dispose':
                st.event('db_dispose', engine=o)
                return None
            st.event('engine_' + name, engine=o, args=tuple(args))
            return ExtO('opaque', path='engine.' + name, args=())
        if k == 'dbconn':
            if name == 'execute':
                st.event('db_execute', session=o, stmt=args[0])
                return ExtO('opaque', path='result', args=())
            return None
        if k == 'maker':
            if name == 'configure':
                d.update(kwargs)
                return None
            if name == 'begin':
                s = self.call_exto(o, [], {})
                return ExtO('transaction', session=s)
            if name == 'remove':
                d.pop('cur', None)
                return None
            if name == 'close_all':
                return None
            if d.get('scoped'):
                return self.session_m(self.call_exto(o, [], {}), name, args, kwargs)
        if k == 'transaction':
            return self.session_m(d['session'], name, args, kwargs)
        self.undecided('method %s of %s' % (name, k))

    def orm_iter(self, o):
        if o.kind == 'query':
            for x in self.rows(o, (0, 1, 2), 'all'):
                yield x
            return
        self.undecided('iteration over %s' % o.kind)

    def orm_getitem(self, o, i):
        if o.kind == 'query':
            r = self.rows(o, (0, 1, 2), 'all')
            return self.getitem(ListO(r), i)
        self.undecided('subscript of %s' % o.kind)
