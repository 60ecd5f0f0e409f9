"""What drives dynamic autoscaling: the task pressure."""

from __future__ import annotations

from fractions import Fraction

from ..interp import C, S, NONE, is_const, cval, show
from ..report import rule
from ..rows import TASK, Tables

CLIENT = 'hypershell.data.model.Client'
FACTOR = S(('given', 'factor'), 'builtins.float')
CLIENTS = 2
ARITHMETIC = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b, 'Div': lambda a, b: a / b,
              '+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}


def column(v):
    """Class and name of a column, or None."""
    if v[0] == 's' and v[1][0] == 'attr' and v[1][1][0] == 'k':
        return v[1][1][1].split('.')[-1], v[1][2]
    return None


def criterion(v):
    """A condition of a query, independent of how it is written: (column, relation, value)."""
    if v[0] == 's' and v[1][0] == 'sqlcmp' and v[1][1] in ('Eq', 'NotEq', 'Is', 'IsNot'):
        _, op, a, b = v[1]
        if column(a) is None and column(b) is not None:
            a, b = b, a
        if column(a) is not None and column(b) is not None:
            return ('same', *sorted((column(a), column(b)))) if op in ('Eq', 'Is') else ('differ', *sorted((column(a), column(b))))
        if b == NONE:
            return (column(a), 'null' if op in ('Eq', 'Is') else 'set', None)
        return (column(a), 'is' if op in ('Eq', 'Is') else 'is not', b)
    if v[0] == 's' and v[1][0] == 'call' and v[1][1][0] == 's' and v[1][1][1][0] == 'attr':
        on, name = v[1][1][1][1:3]
        args = v[1][2]
        if column(on) is not None and args and args[0] == NONE and name in ('is_', 'isnot', 'is_not', '__eq__', '__ne__'):
            return (column(on), 'null' if name in ('is_', '__eq__') else 'set', None)
    return ('?', show(v), None)


class Load(Tables):
    """Queries about the load, answered with numbers known only by what they count."""

    def __init__(self, prog):
        super().__init__(prog)
        self.subtracted = []
        self.odd = set()

    def hook(self, ip, f, name, recv, args, kwargs, st, node):
        if st.mon is not None:
            last = (name or '').split('.')[-1]
            if name in ('builtins.sum', 'math.fsum') and args:
                got = ip.entries(args[0], st)
                if got is not None:
                    return [(S(('total', tuple(v for _, v in got)), 'builtins.float'), st)]
            if last == 'total_seconds' and recv is not None and not args:
                return [(S(('seconds', recv), 'builtins.float'), st)]
            if name in ('builtins.float', 'decimal.Decimal') and len(args) == 1:
                return [(S(('number', args[0]), 'builtins.float'), st)]
        return super().hook(ip, f, name, recv, args, kwargs, st, node)

    def query(self, ip, meth, recv, args, kwargs, st, node):
        _, targets, steps = recv[1]
        if meth in ('filter', 'where', 'filter_by', 'join', 'outerjoin', 'group_by', 'order_by', 'limit', 'select_from', 'distinct', 'with_entities'):
            if meth == 'with_entities':
                return [(S(('query', tuple(args), steps)), st)]
            return [(S(('query', targets, steps + ((meth, tuple(args), tuple(kwargs)),))), st)]
        q = self.normal(recv)
        self.queries.append(q)
        for t in targets:
            self.typed(t)
        if meth == 'count':
            return [(S(('count', q), 'builtins.int'), st)]
        if meth in ('all', '__iter__'):
            none = st.copy()
            self.flag(none, 'nobody')
            rows = [('t', self.cells(q, i)) for i in range(CLIENTS if q[3] else 1)]
            return [(ip.new_list(none, (), node), none), (ip.new_list(st, tuple(('1', r) for r in rows), node), st)]
        if meth in ('first', 'one_or_none'):
            none = st.copy()
            self.flag(none, 'nothing')
            return [(NONE, none), (('t', self.cells(q, 0)), st)]
        if meth == 'one':
            return [(('t', self.cells(q, 0)), st)]
        if meth == 'scalar':
            return [(self.cells(q, 0)[0], st)]
        self.odd.add(meth)
        return [(S(('answer', meth, q)), st)]

    @staticmethod
    def cells(q, i):
        return tuple(S(('cell', t, i, q)) for t in q[0])

    def normal(self, query):
        """(targets, conditions, other tables, groups, order)"""
        _, targets, steps = query[1]
        home = next((column(c)[0] for t in targets for c in self.columns(t)), 'Task' if not targets or targets[0][0] != 'k' else targets[0][1].split('.')[-1])
        where, groups, order, tables, most = set(), (), (), set(), None
        for meth, args, kwargs in steps:
            if meth in ('filter', 'where'):
                where |= {criterion(a) for a in self.parts(args)}
            elif meth == 'filter_by':
                where |= {((home, k), 'null', None) if v == NONE else ((home, k), 'is', v) for k, v in kwargs}
            elif meth in ('join', 'outerjoin'):
                tables.add((meth, show(args[0]).split('.')[-1]))
                where |= {criterion(a) for a in self.parts(args[1:])}
            elif meth == 'group_by':
                groups += tuple(args)
            elif meth == 'order_by':
                order += tuple(args)
            else:
                most = (meth, tuple(args))
        return targets, frozenset(where), frozenset(tables), groups, order, most

    def parts(self, args):
        for a in args:
            if a[0] == 's' and a[1][0] == 'call' and a[1][1] == ('x', 'sqlalchemy.and_'):
                yield from self.parts(a[1][2])
            else:
                yield a

    def columns(self, v):
        if isinstance(v, tuple):
            if len(v) > 1 and v[0] == 's' and column(v) is not None:
                yield v
            else:
                for x in v:
                    yield from self.columns(x)

    def typed(self, v):
        """SQLite has no intervals: times must not be subtracted by the database."""
        if v[0] == 's' and v[1][0] == 'bin' and self.moment(v[1][2]) and self.moment(v[1][3]):
            self.subtracted.append(show(v))
        if isinstance(v, tuple):
            for x in v:
                if isinstance(x, tuple) and x:
                    self.typed(x) if isinstance(x[0], str) and len(x) > 1 and isinstance(x[1], tuple) or x[0] == 's' else [self.typed(y) for y in x if isinstance(y, tuple) and y]

    def moment(self, v):
        return any(column(c)[1].endswith(('_time', '_at')) for c in self.columns(v))


class Numbers:
    """One assignment of numbers to everything the queries count; extracted terms are compared by their value under several of these."""

    def __init__(self, seed):
        self.seed = seed
        self.table = {}

    def of(self, key):
        if key not in self.table:
            self.table[key] = Fraction((len(self.table) * 7919 + self.seed * 104729) % 1009 + 2, (self.seed * 31 + len(self.table) * 17) % 13 + 3)
        return self.table[key]

    def span(self, i):
        first = self.of(('first', i))
        return first, first + self.of(('span', i))

    def value(self, v):
        if is_const(v) and isinstance(cval(v), (int, float)):
            return Fraction(cval(v))
        if v == FACTOR:
            return self.of('factor')
        if v[0] != 's':
            raise ValueError(show(v))
        kind = v[1][0]
        if kind == 'bin':
            op, a, b = v[1][1:4]
            if op not in ARITHMETIC:
                raise ValueError(op)
            return ARITHMETIC[op](self.value(a), self.value(b))
        if kind in ('seconds', 'number'):
            return self.value(v[1][1])
        if kind == 'total':
            return sum((self.value(x) for x in v[1][1]), Fraction(0))
        if kind == 'count':
            return self.of('remaining')
        if kind == 'cell':
            return self.cell(v[1][1], v[1][2])
        raise ValueError(show(v))

    def cell(self, t, i):
        """What a target of a query is for one client."""
        if is_const(t):
            return Fraction(cval(t))
        if t[0] == 's' and t[1][0] == 'bin':
            return ARITHMETIC[t[1][1]](self.cell(t[1][2], i), self.cell(t[1][3], i))
        if t[0] == 's' and t[1][0] == 'call' and t[1][1][0] == 'x':
            name = t[1][1][1].split('.')[-1]
            col = column(t[1][2][0]) if t[1][2] else None
            if name == 'count':
                return self.of(('finished', i))
            if name == 'min' and col == ('Task', 'start_time'):
                return self.span(i)[0]
            if name == 'max' and col == ('Task', 'completion_time'):
                return self.span(i)[1]
            if name == 'avg' and col == ('Task', 'duration'):
                return self.of('average')
            return self.of((name, col, i))
        return self.of(('cell', show(t), i))

    def expected(self):
        rate = sum(self.of(('finished', i)) / (self.span(i)[1] - self.span(i)[0]) for i in range(CLIENTS))
        return self.of('remaining') / rate / (self.of('factor') * self.of('average'))


def T(name):
    return ('Task', name)


CONNECTED = {(('Client', 'disconnected_at'), 'null', None), ('same', ('Client', 'id'), T('client_id'))}
IMPLIED = {(T('schedule_time'), 'set', None), (T('client_id'), 'set', None), (T('server_id'), 'set', None)}
REMAINING = {(T('completion_time'), 'null', None), (T('exit_status'), 'null', None)}


def cells_in(v):
    if isinstance(v, tuple):
        if v and v[0] == 's' and v[1][0] in ('cell', 'count'):
            yield v
        else:
            for x in v:
                yield from cells_in(x)


@rule('C45', technique='abstract interpretation of the computation of the task pressure over queries as terms; the extracted formula is compared with the documented one as a rational function',
      explanation='All paths of the computation are interpreted with every query as a term (targets, conditions, groups); on each path the result is a formula '
                  'over what the queries count. Formula and conditions are compared with the documentation; a typing rule rejects SQL that SQLite cannot answer.')
def task_pressure(rep):
    prog = rep.prog
    fn = prog.cls(TASK).method('task_pressure')
    world = Load(prog)
    rets, raised = world.ip.run_function(fn, [('k', TASK), FACTOR], [], world.state({}))
    rep.saw(world.ip)
    rep.count('paths', len(rets))
    rep.check('both databases can answer', fn.qual, not world.subtracted, f'the query subtracts times, which fails with SQLite: {world.subtracted[:1]}')
    errors = sorted({e for e, _, _ in raised if not e.startswith('sqlalchemy') and e != '?'})
    rep.check('the estimate does not fail', fn.qual, not errors, f'ends with {errors}')
    full = 0
    for v, st in rets:
        absent = world.has(st, 'nobody') or world.has(st, 'nothing') or any(k[0] == 'truth' and not f or k[0] == 'isnone' and f for k, f in st.facts.items())
        if v == NONE or v == C(0):
            rep.check('the pressure is unknown only without data', fn.qual, absent, 'there is no pressure although all it is made of is known')
            continue
        if world.has(st, 'nobody') or world.has(st, 'nothing'):
            rep.bad('the pressure is unknown without data', fn.qual, f'without finished tasks or clients the pressure is {show(v)[:120]}')
            continue
        full += 1
        try:
            good = all(n.value(v) == n.expected() for n in map(Numbers, (1, 2, 3)))
            why = 'is not the remaining tasks by the rate of all clients, by factor times average duration'
        except (ValueError, ZeroDivisionError, KeyError, OverflowError) as e:
            good, why = False, f'is made of {str(e)[:100]}'
        rep.check('the pressure is the documented ratio', fn.qual, good, f'the pressure {why}')
        for c in set(cells_in(v)):
            conditions(rep, world, fn, c)
    rep.check('there is a pressure', fn.qual, full > 0, 'the pressure is never known')


def conditions(rep, world, fn, c):
    if c[1][0] == 'count':
        q = c[1][1]
        rep.check('the tasks counted are the remaining ones', fn.qual, set(q[1]) == REMAINING and not q[2] and q[5] is None, f'counted are tasks with {describe(q)}')
        return
    target, q = c[1][1], c[1][3]
    cols = {column(x) for x in world.columns(target)}
    if not cols - {T('client_id')}:
        return
    where = set(q[1])
    server = [x for x in where if x[0] == T('server_id') and x[1] == 'is']
    what = 'duration' if cols & {T('duration')} else 'completion_time'
    rest = where - set(server) - IMPLIED
    want = CONNECTED | {(T(what), 'set', None)}
    if what == 'duration':
        rest -= {(T('completion_time'), 'set', None)}
    rep.check(f'what is measured are finished tasks of connected clients ({what})', fn.qual, rest == want and q[5] is None and all(m == 'join' for m, _ in q[2]),
              f'measured are tasks with {describe(q)}')
    rep.check(f'what is measured belongs to this run ({what})', fn.qual, len(server) == 1 and latest(world, server[0][2]), f'measured are tasks of {describe(q)}')
    per = {column(g) for g in q[3]}
    rep.check(f'rates are those of each client, durations those of all ({what})', fn.qual, per == ({T('client_id')} if what == 'completion_time' else set()),
              f'measured by {sorted(map(str, per))}')


def latest(world, v):
    """The server that scheduled last."""
    if not (v[0] == 's' and v[1][0] == 'cell'):
        return 'INSTANCE' in show(v)
    target, _, q = v[1][1:4]
    if column(target) != T('server_id') or set(q[1]) - IMPLIED or len(q[4]) != 1:
        return False
    text = show(q[4][0])
    return 'schedule_time' in text and 'desc' in text and not ('min(' in text)


def describe(q):
    return ', '.join(sorted(' '.join('.'.join(p) if isinstance(p, tuple) and p and isinstance(p[0], str) and len(p) == 2 and p[0] in ('Task', 'Client') else
                                     show(p)[:40] if isinstance(p, tuple) else str(p) for p in x if p is not None) for x in q[1])) or 'no condition'
