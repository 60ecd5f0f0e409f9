"""
An abstract database: a few rows, each column reduced to None, a small constant or a symbol.

Queries built by the program are collected as terms (filters, ordering, limit) and answered exactly on the abstract
rows with the three-valued logic of SQL. Nothing of the program is executed: the interpreter walks its syntax tree and this
module supplies what the object-relational layer would do with the terms it builds.
"""

from __future__ import annotations

import ast
from typing import Dict, List, Optional, Tuple

from .interp import Interp, State, HObj, C, S, NONE, TRUE, FALSE, is_const, cval, show
from .machine import TASK, ENTITY
from .model import AnalysisBroken, Program, Class

CHAIN = {'filter', 'filter_by', 'where', 'order_by', 'limit', 'group_by', 'join', 'outerjoin', 'options', 'execution_options',
         'with_for_update', 'params', 'distinct', 'offset', 'populate_existing', 'enable_eagerloads', 'yield_per', 'select_from', 'having'}
ENDS = {'all', 'count', 'first', 'one', 'one_or_none', 'scalar', 'update', 'delete', '__iter__', 'exists', 'get'}
COLUMN_OPS = {'is_', 'isnot', 'is_not', 'in_', 'notin_', 'not_in', 'between', 'asc', 'desc', 'label', 'nullsfirst', 'nullslast',
              'nulls_first', 'nulls_last'}
WRITES = {'add', 'add_all', 'bulk_update_mappings', 'bulk_insert_mappings', 'bulk_save_objects', 'merge', 'delete', 'execute'}


def columns(prog: Program, cls: Class) -> Dict[str, ast.AST]:
    """Mapped columns of an entity."""
    out = {}
    for c in reversed(cls.mro):
        for name, node in c.assigns.items():
            if isinstance(node, ast.Call) and ast.unparse(node.func).split('.')[-1] in ('mapped_column', 'Column'):
                out[name] = node
    return out


def default_of(node: ast.Call):
    for k in node.keywords:
        if k.arg == 'default' and isinstance(k.value, ast.Constant):
            return C(k.value.value)
        if k.arg == 'default':
            return S(('default', ast.unparse(k.value)))
    return NONE


# -- predicates ---------------------------------------------------------------------------------------------------------

class Unknown(Exception):
    pass


def column_of(v) -> Optional[Tuple[str, str]]:
    if v[0] == 's' and v[1][0] == 'attr' and v[1][1][0] == 'k':
        return v[1][1][1], v[1][2]
    if v[0] == 's' and v[1][0] == 'getattr' and v[1][1][0] == 'k' and is_const(v[1][2]):
        return v[1][1][1], cval(v[1][2])
    return None


def sql_value(v, row):
    col = column_of(v)
    if col is not None:
        if col[1] not in row:
            raise Unknown(show(v))
        return row[col[1]]
    return v


def negate(x):
    return None if x is None else not x


def both(a, b):
    if a is False or b is False:
        return False
    if a is None or b is None:
        return None
    return True


def either(a, b):
    return negate(both(negate(a), negate(b)))


def plain(v):
    """A comparable Python value for an abstract one; symbols are equal only to themselves."""
    return ('const', cval(v)) if is_const(v) else ('sym', v)


def relation(op, a, b):
    if a == NONE or b == NONE:
        if op == 'Eq' and b == NONE:
            return a == NONE      # SQLAlchemy renders == None as IS NULL
        if op == 'NotEq' and b == NONE:
            return a != NONE
        return None
    if op in ('Eq', 'NotEq'):
        if is_const(a) and is_const(b):
            return (cval(a) == cval(b)) == (op == 'Eq')
        if a == b:
            return op == 'Eq'
        if is_const(a) != is_const(b):
            raise Unknown(f'{show(a)} {op} {show(b)}')
        raise Unknown(f'{show(a)} {op} {show(b)}')
    if is_const(a) and is_const(b):
        x, y = cval(a), cval(b)
        return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
    raise Unknown(f'{show(a)} {op} {show(b)}')


def holds(p, row, leaf=None):
    """Truth of a filter term on a row: True, False or None (unknown to SQL); `leaf` may know more kinds of terms."""
    if leaf is not None:
        got = leaf(p, row)
        if got is not NotImplemented:
            return got
    if p == TRUE or p == FALSE:
        return cval(p)
    if column_of(p) is not None:
        v = sql_value(p, row)
        if is_const(v):
            return None if v == NONE else bool(cval(v))
        raise Unknown(show(p))
    if p[0] == 's' and p[1][0] == 'sqlcmp':
        return relation(p[1][1], sql_value(p[1][2], row), sql_value(p[1][3], row))
    if p[0] == 's' and p[1][0] == 'bin':
        op = p[1][1]
        if op in ('&', '|'):
            a, b = holds(p[1][2], row, leaf), holds(p[1][3], row, leaf)
            return both(a, b) if op == '&' else either(a, b)
    if p[0] == 's' and p[1][0] == 'un' and p[1][1] == 'Invert':
        return negate(holds(p[1][2], row, leaf))
    if p[0] == 's' and p[1][0] == 'call':
        f, args = p[1][1], p[1][2]
        if f[0] == 'x' and f[1].startswith('sqlalchemy.'):
            short = f[1].split('.')[-1]
            vals = [holds(a, row, leaf) for a in args]
            if short in ('and_', 'or_'):
                out = vals[0]
                for v in vals[1:]:
                    out = both(out, v) if short == 'and_' else either(out, v)
                return out
            if short == 'not_':
                return negate(vals[0])
        if f[0] == 's' and f[1][0] == 'attr':
            meth, recv = f[1][2], f[1][1]
            if column_of(recv) is None:
                raise Unknown(show(p))
            v = sql_value(recv, row)
            if meth in ('is_', 'isnot', 'is_not'):
                w = args[0]
                if w[0] == 's' and w[1][0] == 'call' and w[1][1][0] == 'x':
                    w = {'null': NONE, 'true': TRUE, 'false': FALSE}.get(w[1][1][1].split('.')[-1], w)
                if not is_const(w) or (not is_const(v) and w != NONE):
                    raise Unknown(show(p))
                same = (v == w) if w == NONE or v == NONE else cval(v) == cval(w)
                return same if meth == 'is_' else not same
            if meth in ('in_', 'notin_', 'not_in'):
                if args[0][0] != 't':
                    raise Unknown(show(p))
                out = False
                for w in args[0][1]:
                    out = either(out, relation('Eq', v, w) if w != NONE else None)
                return out if meth == 'in_' else negate(out)
    raise Unknown(show(p))


# -- the layer ----------------------------------------------------------------------------------------------------------

def is_query(v):
    return v is not None and v[0] == 's' and v[1][0] == 'query'


def is_session(v):
    return v is not None and v[0] == 's' and show(v).split('.')[-1] in ('Session', 'Session()') or \
        v is not None and v[0] == 'x' and v[1].split('.')[-1] == 'Session'


class Tables:
    """The abstract database behind one interpreter. State.mon is (row references, flags)."""

    def __init__(self, prog: Program, on_event=None, on_query=None):
        self.prog = prog
        self.user_event = on_event
        self.on_query = on_query
        self.queries: List[tuple] = []
        self.unknown: List[str] = []
        self.limits = set()                     # constants that queries were limited to
        self.failing = False
        self.project = False        # whether selected columns of the rows are known
        task = prog.cls(TASK)
        summaries = {}
        for cls in prog.subclasses(ENTITY):
            summaries[f'{cls.qual}()'] = self.make
        check = task.method('ensure_valid_tag')
        if check is not None:
            summaries[check.qual] = lambda ip, fn, args, kwargs, st, node: [(NONE, st)]
        self.ip = Interp(prog, on_event=self.event, summaries=summaries)
        self.ip.extern_hook = self.hook

    # rows

    def make(self, ip, cls, args, kwargs, st, node):
        attrs = {n: default_of(d) for n, d in columns(self.prog, cls).items()}
        for k, v in kwargs:
            if k is None:
                ent = ip.entries(v, st)
                if v[0] != 'd':
                    raise AnalysisBroken(f'{cls.name} built from something that is not a known dictionary')
                for kk, vv in st.heap[v[1]].attrs:
                    if kk is not None and is_const(kk):
                        attrs[cval(kk)] = vv
            else:
                attrs[k] = v
        ref = ip.alloc(st, HObj('obj', cls.qual, attrs), node, hint=f'{cls.name}{self.fresh(st)}')
        obj = ('o', ref)
        ip.emit(st, 'new', name=cls.qual, args=args, kwargs=kwargs, node=node, value=obj)
        return [(obj, st)]

    def fresh(self, st) -> int:
        """A number that differs for everything created on this path."""
        rows, flags = st.mon
        n = max([f[1] for f in flags if f[0] == 'n'], default=0) + 1
        st.mon = (rows, frozenset([f for f in flags if f[0] != 'n'] + [('n', n)]))
        return n

    def flag(self, st, name, on=True):
        rows, flags = st.mon
        f = frozenset(x for x in flags if x != (name,))
        st.mon = (rows, f | {(name,)} if on else f)

    def has(self, st, name):
        return (name,) in st.mon[1]

    def rows(self, st) -> List[str]:
        return list(st.mon[0])

    def put(self, st, ref):
        rows, flags = st.mon
        if ref not in rows:
            st.mon = (rows + (ref,), flags)

    def state(self, rows: Dict[str, Tuple[str, dict]]) -> State:
        """A state whose database holds the given rows: reference -> (class, columns)."""
        st = State(mon=(tuple(rows), frozenset()))
        for ref, (cls, attrs) in rows.items():
            st.heap[ref] = HObj('obj', cls, dict(attrs))
        return st

    # events

    def event(self, ip, ev, st):
        if st.mon is None:
            return
        if ev.kind == 'setattr' and ev.recv is not None and ev.recv[0] == 'o' and ev.recv[1] in st.mon[0]:
            self.flag(st, 'pending')
        if self.user_event is not None:
            self.user_event(ip, ev, st)

    def hook(self, ip, f, name, recv, args, kwargs, st, node):
        if st.mon is None:      # evaluating a module-level constant
            return None
        meth = name[1:] if name and name.startswith('.') else name
        if name == 'uuid.uuid4':
            ip.emit(st, 'call', name=name, recv=recv, args=args, kwargs=kwargs, node=node)
            return [(C(f'uuid-{self.fresh(st)}'), st)]
        if recv is not None and is_session(recv):
            return self.session(ip, meth, recv, args, kwargs, st, node)
        if is_query(recv):
            return self.query(ip, meth, recv, args, kwargs, st, node)
        return None

    def session(self, ip, meth, recv, args, kwargs, st, node):
        ip.emit(st, 'session', name=meth, recv=recv, args=args, kwargs=kwargs, node=node)
        if meth == 'query':
            return [(S(('query', tuple(args), ())), st)]
        if meth in ('expire_all', 'close', 'remove', 'expunge_all', 'refresh', 'expire', 'expunge', 'begin_nested', 'no_autoflush'):
            return [(NONE, st)]
        if meth == 'rollback':
            self.flag(st, 'pending', False)
            self.flag(st, 'failed', False)
            return [(NONE, st)]
        self.may_fail(ip, st, node)
        if meth in ('commit',):
            self.flag(st, 'pending', False)
            return [(NONE, st)]
        if meth == 'flush':
            return [(NONE, st)]
        self.flag(st, 'pending')
        if meth in ('add', 'add_all'):
            for ref in self.objects(ip, args[0], st):
                self.put(st, ref)
            return [(NONE, st)]
        if meth == 'delete':
            gone = self.objects(ip, args[0], st)
            st.mon = (tuple(r for r in st.mon[0] if r not in gone), st.mon[1])
            return [(NONE, st)]
        if meth in ('bulk_update_mappings', 'bulk_insert_mappings') and len(args) == 2:
            for ent in self.mappings(ip, args[1], st):
                self.apply(ip, st, ent, node)
            return [(NONE, st)]
        return [(S(('session', meth)), st)]

    def may_fail(self, ip, st, node, reading=False):
        """Any statement may fail; the session is unusable afterwards when changes were being written."""
        if not (ip.try_depth or self.failing):
            return
        failed = st.copy()
        if not reading or self.has(st, 'pending'):
            self.flag(failed, 'failed')
            self.flag(failed, 'hidden')
        ip.raise_sinks[-1].append(('sqlalchemy.exc.DBAPIError', S(('exc', 'sqlalchemy.exc.DBAPIError')), failed))

    def objects(self, ip, v, st):
        if v[0] == 'o':
            return [v[1]]
        ent = ip.entries(v, st)
        return [x[1] for _, x in (ent or ()) if x[0] == 'o']

    def mappings(self, ip, v, st):
        for _, x in (ip.entries(v, st) or ()):
            if x[0] == 'd':
                yield {cval(k): val for k, val in st.heap[x[1]].attrs if k is not None and is_const(k)}

    def apply(self, ip, st, ent, node):
        key = ent.get('id')
        if key is None:
            ip.emit(st, 'badupdate', name='no id', node=node)
            return
        for ref in st.mon[0]:
            o = st.heap[ref]
            if o.attrs.get('id') == key:
                st.heap[ref] = HObj(o.kind, o.cls, {**o.attrs, **{k: v for k, v in ent.items() if k != 'id'}}, o.opaque)
                ip.emit(st, 'rowupdate', name=ref, kwargs=tuple((k, v) for k, v in ent.items() if k != 'id'), node=node)
                return
        ip.emit(st, 'badupdate', name='no such row', node=node)

    def query(self, ip, meth, recv, args, kwargs, st, node):
        q = recv[1]
        if meth in CHAIN:
            if meth in ('filter', 'filter_by', 'where', 'order_by', 'join') and any(
                    m in ('limit', 'offset') and a and a[0] != NONE for m, a, _ in q[2]):
                ip.do_raise('sqlalchemy.exc.InvalidRequestError', st, node)      # the library refuses conditions after a limit
                return []
            return [(S(('query', q[1], q[2] + ((meth, tuple(ip.snap(a, st) for a in args), tuple(kwargs)),))), st)]
        if meth not in ENDS:
            return None
        if meth in ('update', 'delete') and any(m in ('limit', 'offset', 'order_by', 'group_by', 'distinct', 'join', 'outerjoin') and a != (NONE,)
                                                for m, a, _ in q[2]):
            ip.do_raise('sqlalchemy.exc.InvalidRequestError', st, node)      # the library refuses these
            return []
        ip.emit(st, 'sql', name=meth, recv=recv, args=args, kwargs=kwargs, node=node)
        self.may_fail(ip, st, node, reading=meth not in ('update', 'delete'))
        self.queries.append((meth, q, ip.fn.qual if ip.fn else '?', getattr(node, 'lineno', 0)))
        try:
            refs = self.answer(q, st)
        except Unknown as error:
            self.unknown.append(f'{ip.fn.qual if ip.fn else "?"}: {error}')
            return [(S(('fresh', 'sql', meth, getattr(node, 'lineno', 0))), st)]
        if self.on_query is not None:
            self.on_query(ip, meth, q, refs, st, node)
        whole = q[1] and all(x[0] == 'k' for x in q[1])
        try:
            values = None if whole or not self.project else {r: ('t', tuple(sql_value(x, st.heap[r].attrs) for x in q[1])) for r in refs}
        except Unknown as error:
            self.unknown.append(f'{ip.fn.qual if ip.fn else "?"}: {error}')
            return [(S(('fresh', 'sql', meth, getattr(node, 'lineno', 0))), st)]
        if values is not None and any(m == 'distinct' for m, _, _ in q[2]):
            refs = [r for i, r in enumerate(refs) if values[r] not in [values[x] for x in refs[:i]]]
        if meth == 'count':
            return [(C(len(refs)), st)]
        if meth in ('update', 'delete'):
            self.flag(st, 'pending')
            if meth == 'update' and args and args[0][0] == 'd':
                ent = {column_of(k)[1] if column_of(k) else cval(k): v for k, v in st.heap[args[0][1]].attrs
                       if k is not None and (is_const(k) or column_of(k))}
                for ref in refs:
                    self.apply(ip, st, {'id': st.heap[ref].attrs['id'], **ent}, node)
            if meth == 'delete':
                st.mon = (tuple(r for r in st.mon[0] if r not in refs), st.mon[1])
            return [(C(len(refs)), st)]
        if not whole and self.project and meth in ('all', '__iter__'):
            return [(ip.new_list(st, tuple(('1', values[r]) for r in refs), node), st)]
        if not whole:
            return [(S(('fresh', 'sql', meth, getattr(node, 'lineno', 0))), st)]
        if meth in ('all', '__iter__'):
            return [(ip.new_list(st, tuple(('1', ('o', r)) for r in refs), node), st)]
        if meth in ('first', 'one_or_none', 'scalar'):
            return [(('o', refs[0]) if refs else NONE, st)]
        if meth == 'one':
            if refs:
                return [(('o', refs[0]), st)]
            ip.do_raise('sqlalchemy.orm.exc.NoResultFound', st, node)
            return []
        return None

    def answer(self, q, st) -> List[str]:
        """Rows a query term returns (a limit that is not a constant is taken to be large enough)."""
        ents = set()
        for x in q[1]:
            if x[0] == 'k':
                ents.add(x[1])
            elif column_of(x) is not None:
                ents.add(column_of(x)[0])
            else:
                raise Unknown(f'query of {show(x)}')
        if len(ents) != 1:
            raise Unknown('query of several entities')
        ent = ents.pop()
        preds, most = [], None
        for meth, args, kwargs in q[2]:
            if meth == 'limit' and args and is_const(args[0]) and isinstance(cval(args[0]), int):
                most = cval(args[0]) if most is None else min(most, cval(args[0]))
                self.limits.add(cval(args[0]))
            if meth in ('filter', 'where', 'having'):
                preds += list(args)
            elif meth == 'filter_by':
                preds += [S(('sqlcmp', 'Eq', S(('attr', ('k', ent), k)), v)) for k, v in kwargs]
            elif meth in ('join', 'outerjoin', 'group_by', 'select_from') or meth == 'offset' and args != (NONE,):
                raise Unknown(meth)
        out = []
        for ref in st.mon[0]:
            o = st.heap[ref]
            if o.cls != ent:
                continue
            result = True
            for p in preds:
                got = holds(p, o.attrs, self.leaf(q, st))
                if not got:
                    result = False
                    break
            if result:
                out.append(ref)
        return out if most is None else self.ordered(q, out, st)[:max(most, 0)]

    def leaf(self, q, st):
        """Truth of further kinds of conditions in a query."""
        return None

    def ordered(self, q, refs, st):
        return refs
