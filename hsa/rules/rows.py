"""The life of a task record: what each database operation selects, marks, takes back and counts."""

from __future__ import annotations

import ast

from ..interp import State, HObj, C, S, NONE, TRUE, FALSE, is_const, cval, mentions, show
from ..machine import Explorer, TASK, ENTITY, init_symbols
from ..model import AnalysisBroken
from ..report import rule
from ..rows import Tables, columns, column_of, default_of
from .flow import machine

TECH = 'typestate of task records over an abstract database'
ARGS, TAG, LIMIT = S(('submitted', 'args'), 'builtins.str'), S(('submitted', 'tag'), 'builtins.dict'), S(('limit',), 'builtins.int')
ME, OTHER = C('client-1'), C('client-2')
CODES = (0, 1, -1, -15)


def canonical(attrs):
    """Reduce the columns of a row to None, small constants, or 'something was set'."""
    out = {}
    for k, v in attrs.items():
        if k in ('id', 'previous_id', 'next_id', 'client_id') and is_const(v):
            out[k] = v
        elif k in ('args', 'tag'):
            out[k] = v
        elif is_const(v) and (v == NONE or isinstance(cval(v), (bool, int))):
            out[k] = v
        else:
            out[k] = S(('set', k))
    return out


def text_of(attrs, cols):
    return ', '.join(f'{k}={show(attrs[k])}' for k in cols if k in attrs)


class Life:
    """Rows of the task table by phase, obtained from the program's own operations."""

    def __init__(self, rep):
        self.rep = rep
        self.prog = rep.prog
        self.task = self.prog.cls(TASK)
        self.cols = columns(self.prog, self.task)
        if len(self.cols) < 10:
            raise AnalysisBroken('the columns of the task table were not found')
        self.confirm = self.confirm_fields()
        self.ran = self.executor_fields()

    # what other parts write

    def confirm_fields(self):
        """Columns a confirmation sets."""
        got = set()

        def on_event(ip, ev, st):
            if ev.kind == 'db' and ev.name in ('update_all', 'update'):
                for ent in [x for v in ev.args for _, x in (ip.entries(v, st) or ()) if v[0] in ('l', 't')]:
                    if ent[0] == 'd':
                        got.update(cval(k) for k, _ in st.heap[ent[1]].attrs if k is not None and is_const(k))
        ex = Explorer(self.prog, machine(self.prog, 'Confirm'), on_event=on_event)
        ex.run()
        self.rep.saw(ex.ip)
        got &= set(self.cols)
        got.discard('id')
        self.rep.floor('columns a confirmation writes', len(got), 1)
        return sorted(got)

    def executor_fields(self):
        """Columns the executor assigns while it runs a task."""
        from .running import Runs
        got = Runs(self.rep).written() & set(self.cols)
        self.rep.floor('columns the executor writes', len(got), 3)
        return sorted(got)

    # running one operation on an abstract database

    def run(self, method, rows, kwargs=(), args=(), on_event=None, on_query=None, facts=(), failing=False, extra=None, scale=None):
        fn = self.task.method(method)
        if fn is None:
            raise AnalysisBroken(f'{self.task.qual} has no method {method}')
        tab = Tables(self.prog, on_event, on_query)
        tab.failing = failing
        if scale:       # the operation with one of its constants replaced throughout
            plain = tab.ip.ev_Constant
            tab.ip.ev_Constant = lambda node, st: [(C(scale[node.value]), st)] if type(node.value) is int and node.value in scale else plain(node, st)
        st = tab.state({f'row{i}': (self.task.qual, r) for i, r in enumerate(rows)})
        tab.ip.assume(st, ('truth', TAG), True)
        for ref, (cls, attrs) in (extra or {}).items():
            st.heap[ref] = HObj('obj', cls, dict(attrs))
        for k, v in facts:
            st.facts[k] = v
        args = [a(tab, st) if callable(a) else a for a in args]
        first = [] if fn.kind == 'static' else [('k', self.task.qual)]
        rets, raised = tab.ip.run_function(fn, first + args, list(kwargs), st)
        self.rep.saw(tab.ip)
        if tab.unknown:
            raise AnalysisBroken(f'query not understood: {tab.unknown[0]}')
        tab.raised = raised
        return fn, tab, rets

    def ids(self, *values):
        return lambda tab, st: tab.ip.new_list(st, tuple(('1', v) for v in values), self.task.node)

    def table(self, tab, st):
        return [(r, st.heap[r].attrs) for r in tab.rows(st) if st.heap[r].cls == self.task.qual]

    # phases

    def submitted(self):
        """Rows as Task.new makes them."""
        fn, tab, rets = self.run('new', [], kwargs=[('args', ARGS), ('tag', TAG)])
        out = []
        for v, st in rets:
            if v[0] != 'o':
                raise AnalysisBroken('Task.new does not return a new task')
            row = canonical({k: x for k, x in st.heap[v[1]].attrs.items() if k in self.cols})
            row['id'] = C('task-1')
            if row not in out:
                out.append(row)
        return out

    def phases(self):
        """(phase, row) for every phase a record can be in, each reached through the program's own operations."""
        if getattr(self, '_phases', None) is not None:
            return self._phases
        out = []
        fresh = self.submitted()
        for first in fresh:
            for attempt in (1, 2):
                wait = {**first, 'attempt': C(attempt)}
                if attempt > 1:
                    wait['previous_id'] = C('task-0')
                out.append(('waiting', wait, wait))
                marked = self.marked(wait)
                for row in marked:
                    out.append(('scheduled', row, wait))
                    seen = [('scheduled', row)]
                    for who in (ME, OTHER):
                        conf = {**row, **{k: (who if k == 'client_id' else S(('set', k))) for k in self.confirm}}
                        out.append(('confirmed', conf, wait))
                        seen.append(('confirmed', conf))
                    for name, base in seen:
                        for code in CODES:
                            done = {**base, **{k: S(('set', k)) for k in self.ran if k not in ('tag', 'args', 'id', 'attempt', 'retried')}}
                            if 'client_id' in self.ran and base.get('client_id') == NONE:
                                done['client_id'] = ME
                            elif base.get('client_id') != NONE:
                                done['client_id'] = base['client_id']
                            done['exit_status'] = C(code)
                            out.append(('succeeded' if code == 0 else 'failed', done, wait))
                            if code != 0:
                                for old in self.after_retry(done):
                                    out.append(('retried', old, wait))
                for name, base in [('waiting', wait)] + [('scheduled', r) for r in marked]:
                    for got in self.cancelled(base):
                        out.append(('cancelled', got, wait))
        uniq = []
        for x in out:
            if x not in uniq:
                uniq.append(x)
        self._phases = uniq
        self.rep.count('record states', len(uniq))
        return uniq

    def marked(self, row):
        out = []
        fn, tab, rets = self.run('next', [row], kwargs=[('limit', LIMIT), ('attempts', C(1)), ('eager', FALSE)], facts=[(('lt', C(0), LIMIT), True)])
        for v, st in rets:
            got = self.chosen(tab, v, st)
            if got == ['row0']:
                new = canonical(st.heap['row0'].attrs)
                if new not in out:
                    out.append(new)
        return out

    def after_retry(self, row):
        out = []
        for eager in (FALSE,):
            fn, tab, rets = self.run('next', [row], kwargs=[('limit', LIMIT), ('attempts', C(9)), ('eager', eager)],
                                     facts=[(('lt', C(0), LIMIT), True)])
            for v, st in rets:
                new = canonical(st.heap['row0'].attrs)
                if len(self.table(tab, st)) == 2 and new not in out:
                    new['next_id'] = C('task-9') if new.get('next_id') != NONE else NONE
                    out.append(new)
        return out

    def cancelled(self, row):
        out = []
        fn, tab, rets = self.run('cancel_all', [row], args=[self.ids(row['id'])])
        for _, st in rets:
            new = canonical(st.heap['row0'].attrs)
            if new not in out:
                out.append(new)
        return out

    def chosen(self, tab, v, st):
        ent = tab.ip.entries(v, st)
        if ent is None or any(m != '1' or x[0] != 'o' for m, x in ent):
            return None
        return [x[1] for _, x in ent]

    def diff(self, a, b, ignore=()):
        return sorted(k for k in self.cols if k not in ignore and canonical(a).get(k) != canonical(b).get(k))


def life(rep) -> Life:
    return Life(rep)


SHOWN = ('schedule_time', 'client_id', 'completion_time', 'exit_status', 'attempt', 'retried', 'next_id')


def each_selection(rep, L):
    """Run the selection on every record state in every mode."""
    for phase, row, wait in L.phases():
        for attempts in (1, 2, 3):
            for eager in (FALSE, TRUE):
                fn, tab, rets = L.run('next', [row], kwargs=[('limit', LIMIT), ('attempts', C(attempts)), ('eager', eager)],
                                      facts=[(('lt', C(0), LIMIT), True)])
                for v, st in rets:
                    yield phase, row, wait, attempts, eager, fn, tab, v, st


@rule('C20', technique=TECH, level='other',
      explanation='Records in every phase are produced by the program\'s own creating, selecting, confirming and cancelling operations; '
                  'the selection for scheduling is evaluated on each of them: it must return exactly the waiting ones, once, marked.')
def selection(rep):
    L = life(rep)
    n = 0
    marks = {}
    for phase, row, wait, attempts, eager, fn, tab, v, st in each_selection(rep, L):
        n += 1
        got = L.chosen(tab, v, st)
        where = getattr(fn, 'where', '')
        about = f'{phase} record ({text_of(row, SHOWN)}), {attempts} attempts allowed{", eager" if eager == TRUE else ""}'
        if got is None:
            raise AnalysisBroken('the tasks returned by Task.next could not be followed')
        retry = phase == 'failed' and cval(row['attempt']) < attempts
        if phase == 'waiting':
            rep.check('waiting-selected', 'Task.next: waiting', got == ['row0'], f'{about}: a task waiting to be scheduled is '
                      + ('not selected' if not got else 'selected more than once'), where)
        elif not retry:
            rep.check('not-selected', f'Task.next: {phase}', 'row0' not in got and len(L.table(tab, st)) == 1 and not got,
                      f'{about}: selected for scheduling although it is not waiting and has no attempts left', where)
        else:
            rep.check('old-record-kept', 'Task.next: failed', 'row0' not in got, f'{about}: the record of the failed attempt itself is '
                      f'scheduled again', where)
        rep.check('selected-once', f'Task.next: {"eager" if eager == TRUE else "normal"}', len(got) == len(set(got)),
                  f'{about}: the same task is returned more than once by one selection', where)
        for ref in got:
            attrs = st.heap[ref].attrs
            missing = [c for c in ('schedule_time', 'server_id', 'server_host') if attrs.get(c, NONE) == NONE]
            rep.check('selected-marked', 'Task.next', not missing, f'{about}: a selected task is left without {", ".join(missing)}', where)
            old = [c for c in ('schedule_time', 'server_id', 'server_host') if c not in missing
                   and (is_const(attrs[c]) or mentions(attrs[c], lambda t: t[:1] == ('set',)) or attrs[c] in row.values())]
            rep.check('marks-of-now', 'Task.next', not old, f'{about}: {", ".join(old)} of a selected task '
                      f'{"says" if len(old) == 1 else "say"} nothing about this selection', where)
            if not missing:
                marks.setdefault((attrs['server_id'], attrs['server_host']), about)
                if ref != 'row0':
                    marks.setdefault((attrs['submit_id'], attrs['submit_host']), about)
            if ref == 'row0':
                touched = L.diff(attrs, row, ('schedule_time', 'server_id', 'server_host'))
                rep.check('selected-otherwise-unchanged', 'Task.next', not touched, f'{about}: selection also changes {", ".join(touched)}',
                          where)
        if not got:
            touched = L.diff(st.heap['row0'].attrs, row)
            rep.check('others-unchanged', f'Task.next: {phase}', not touched, f'{about}: not selected, but {", ".join(touched)} '
                      f'changed', where)
        rep.check('selection-committed', 'Task.next', not tab.has(st, 'pending'), f'{about}: the marks of the selected tasks are not '
                  f'committed before they are handed out', where)
    rep.floor('selections evaluated', n, 40)
    rep.check('marks-of-this-server', 'Task.next', len(marks) == 1, f'selected tasks are marked with different servers: '
              f'{", ".join(sorted(show(i) + " at " + show(h) for i, h in marks))}')
    order(rep, L)


def order(rep, L):
    """New tasks are taken in order of submission; every selection is limited; eager mode prefers failed tasks."""
    found = []

    def on_query(ip, meth, q, refs, st, node):
        if meth in ('all', '__iter__', 'first') and any(st.heap[r].attrs.get('schedule_time') == NONE for r in refs):
            found.append((q, ip.fn))
    by = {}
    for phase, row, wait in L.phases():
        by.setdefault(phase, row)
    a, b, c = ({**by['waiting'], 'id': C('task-1')}, {**by['waiting'], 'id': C('task-2')}, {**by['waiting'], 'id': C('task-3')})
    failed, other = {**by['failed'], 'id': C('task-4')}, {**by['failed'], 'id': C('task-5')}
    n = 0
    for eager in (FALSE, TRUE):
        for limit in (1, 2, 3, 4):
            fn, tab, rets = L.run('next', [a, b, c, failed, other], kwargs=[('limit', C(limit)), ('attempts', C(2)), ('eager', eager)],
                                  on_query=on_query)
            for v, st in rets:
                n += 1
                got = L.chosen(tab, v, st)
                if got is None:
                    raise AnalysisBroken('the tasks returned by Task.next could not be followed')
                mode = 'eager' if eager == TRUE else 'normal'
                rep.check('selection-limited', f'Task.next: {mode}', len(got) <= limit, f'{len(got)} tasks are returned although at '
                          f'most {limit} were asked for', getattr(fn, 'where', ''))
                rep.check('selection-filled', f'Task.next: {mode}', len(got) >= limit, f'only {len(got)} of {limit} tasks asked for are '
                          f'returned although more are waiting', getattr(fn, 'where', ''))
                again = [r for r in got if st.heap[r].attrs['attempt'] != C(1)]
                preferred = min(limit, 2) if eager == TRUE else max(0, limit - 3)
                rep.check('preference', f'Task.next: {mode}', len(again) == preferred, f'{limit} tasks selected in {mode} mode: '
                          f'{"failed tasks are preferred over new ones" if len(again) > preferred else "new tasks are preferred over failed ones"}',
                          getattr(fn, 'where', ''))
    rep.floor('selections with a limit', n, 6)
    rep.floor('queries for waiting tasks', len(found), 2)
    for q, fn in found:
        orders = [x for m, x, _ in q[2] if m == 'order_by']
        first = orders[0][0] if orders and orders[0] else None
        rep.check('submission-order', fn.qual, first is not None and ascending(first) == 'submit_time',
                  f'{fn.qual} does not take waiting tasks in the order they were submitted', getattr(fn, 'where', ''))


def ascending(x):
    col = column_of(x)
    if col is not None:
        return col[1]
    if x[0] == 's' and x[1][0] == 'call' and x[1][1][0] == 's' and x[1][1][1][0] == 'attr' and x[1][1][1][2] == 'asc':
        col = column_of(x[1][1][1][1])
        return col[1] if col else None
    return None


@rule('C21', technique=TECH, level='other',
      explanation='On every abstract record of a failed attempt the selection must create one linked successor with the same '
                  'arguments and tag exactly while attempts remain, and mark the failed one as retried.')
def retries(rep):
    L = life(rep)
    seen = 0
    blank = L.submitted()[0]
    for row in L.submitted():
        right = row.get('attempt') == C(1) and row.get('retried') == FALSE and row.get('previous_id', NONE) == NONE and row.get('next_id', NONE) == NONE
        rep.check('first-attempt', 'Task.new', right, f'a submitted task does not start as a first attempt of its own '
                  f'({text_of(row, ("attempt", "retried", "previous_id", "next_id"))})', L.task.methods['new'].where)
    for phase, row, wait, attempts, eager, fn, tab, v, st in each_selection(rep, L):
        rows = L.table(tab, st)
        new = [(r, a) for r, a in rows if r != 'row0']
        retry = phase == 'failed' and cval(row['attempt']) < attempts
        about = f'{phase} record ({text_of(row, SHOWN)}), {attempts} attempts allowed{", eager" if eager == TRUE else ""}'
        where = getattr(fn, 'where', '')
        if not retry:
            rep.check('no-needless-attempt', f'Task.next: {phase}', not new, f'{about}: a further attempt is created', where)
            continue
        seen += 1
        if not rep.check('attempt-created', 'Task.next: failed', len(new) == 1, f'{about}: {len(new)} new attempts are created', where):
            continue
        ref, a = new[0]
        old = st.heap['row0'].attrs
        got = L.chosen(tab, v, st) or []
        rep.check('attempt-scheduled', 'Task.next: failed', ref in got, f'{about}: the new attempt is created but not returned for '
                  f'scheduling', where)
        rep.check('attempt-counted', 'Task.next: failed', a['attempt'] == C(cval(row['attempt']) + 1), f'{about}: the new attempt has '
                  f'number {show(a["attempt"])}', where)
        same = strip(a['args']) == strip(row['args'])
        rep.check('attempt-same-task', 'Task.next: failed', same and a['tag'] == row['tag'], f'{about}: the new attempt does not carry '
                  f'the arguments and tag of the failed one', where)
        rep.check('attempt-linked', 'Task.next: failed', a['previous_id'] == row['id'] and old['next_id'] == a['id'] and
                  a['id'] != row['id'], f'{about}: the new attempt and the failed one are not linked to each other', where)
        rep.check('attempt-marked', 'Task.next: failed', old['retried'] == TRUE, f'{about}: the failed record is not marked as '
                  f'retried', where)
        keep = L.diff(old, row, ('retried', 'next_id'))
        rep.check('failed-kept', 'Task.next: failed', not keep, f'{about}: retrying changes {", ".join(keep)} of the failed record', where)
        fresh = [c for c in L.cols if c in blank and blank[c] in (NONE, FALSE) and c not in
                 ('previous_id', 'server_id', 'server_host', 'schedule_time') and a.get(c) != blank[c]]
        rep.check('attempt-fresh', 'Task.next: failed', not fresh, f'{about}: the new attempt starts with {", ".join(fresh)} already '
                  f'set', where)
        rep.check('attempt-committed', 'Task.next: failed', not tab.has(st, 'pending'), f'{about}: not committed', where)
    rep.floor('failed records with attempts left', seen, 6)


def strip(v):
    """Ignore trimming of a text that was trimmed before."""
    while v[0] == 's' and (v[1][0] == 'strm' and v[1][1] == 'strip' or v[1][0] == 'call' and v[1][1] == ('x', 'builtins.str')):
        v = v[1][2] if v[1][0] == 'strm' else v[1][2][0]
    return v


@rule('C22', technique=TECH, level='other',
      explanation='The counts that decide when a server ends and what it recovers are evaluated on a record in every phase.')
def counts(rep):
    L = life(rep)
    n = 0
    for name, phases, what in (('count_remaining', ('waiting', 'scheduled', 'confirmed'), 'still to be finished'),
                               ('count_interrupted', ('scheduled', 'confirmed'), 'interrupted')):
        for phase, row, wait in L.phases():
            fn, tab, rets = L.run(name, [row])
            for v, st in rets:
                n += 1
                if not is_const(v):
                    raise AnalysisBroken(f'{name} does not return a count that can be followed')
                want = phase in phases
                rep.check(name.replace('_', '-'), f'Task.{name}: {phase}', bool(cval(v)) == want and (not want or cval(v) == 1),
                          f'a {phase} record ({text_of(row, SHOWN)}) is {"not " if want else ""}counted as {what}', getattr(fn, 'where', ''))
    rep.floor('counts evaluated', n, 40)


IDENTITY = ('id', 'args', 'tag', 'submit_id', 'submit_host', 'submit_time', 'attempt', 'retried', 'previous_id', 'next_id')


@rule('C23', technique=TECH, level='other',
      explanation='Recovery after an interruption and after an eviction is evaluated on a record in every phase: it must bring '
                  'exactly the unfinished scheduled tasks back to the columns of a waiting task.')
def taking_back(rep):
    from .silence import recovered
    recovered(rep)
    L = life(rep)
    n = 0
    for phase, row, wait in L.phases():
        about = f'{phase} record ({text_of(row, SHOWN)})'
        for name, kwargs, hit in (('revert_interrupted', [], phase in ('scheduled', 'confirmed')),
                                  ('revert_orphaned', [('client_id', ME)], phase == 'confirmed' and row.get('client_id') == ME)):
            fn, tab, rets = L.run(name, [row], kwargs=kwargs)
            where = getattr(fn, 'where', '')
            n += len(rets)
            rep.check('ends', f'Task.{name}: {phase}', bool(rets), f'{about}: no path returns', where)
            for _, st in rets:
                now = st.heap['row0'].attrs
                if hit:
                    left = L.diff(now, wait)
                    rep.check('taken-back', f'Task.{name}: {phase}', not left, f'{about}: after taking it back {", ".join(left)} '
                              f'still differ from a waiting task', where)
                else:
                    left = L.diff(now, row)
                    rep.check('left-alone', f'Task.{name}: {phase}', not left, f'{about}: not to be taken back, but {", ".join(left)} '
                              f'changed', where)
                rep.check('committed', f'Task.{name}', not tab.has(st, 'pending'), f'{about}: not committed', where)
        if phase in ('scheduled', 'confirmed', 'succeeded', 'failed', 'cancelled'):
            for name, args in (('revert_all', [L.ids(row['id'])]), ('revert', [row['id']])):
                fn, tab, rets = L.run(name, [row], args=args)
                n += len(rets)
                for _, st in rets:
                    left = L.diff(st.heap['row0'].attrs, wait, ())
                    rep.check('reverted', f'Task.{name}: {phase}', not left, f'{about}: after reverting it {", ".join(left)} still '
                              f'differ from a new task', getattr(fn, 'where', ''))
    rep.floor('recoveries evaluated', n, 40)
    many(rep, L)


FEW = 2


def scaled(prog):
    """Small numbers, in the same order, for the large ones (rows per step and the like) in the operations on records."""
    tree = prog.cls(TASK).module.tree
    large = {n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and type(n.value) is int and n.value >= 10}
    return {x: FEW + i for i, x in enumerate(sorted(large))}


def many(rep, L):
    """However many tasks there are to take back, none is left (rows per step scaled down to few)."""
    for name, kwargs in (('revert_interrupted', []), ('revert_orphaned', [('client_id', ME)])):
        row = next(row for phase, row, _ in L.phases() if phase == 'confirmed' and row.get('client_id') == ME)
        scale = scaled(rep.prog)
        top = max(scale.values(), default=FEW)
        for count in (*range(FEW, 2 * FEW + 2), 2 * top, 2 * top + 1):
            rows = [{**row, 'id': C(f'task-{i}')} for i in range(count)]
            fn, tab, rets = L.run(name, rows, kwargs=kwargs, scale=scale)
            where = getattr(fn, 'where', '')
            rep.check('ends', f'Task.{name}: many', bool(rets), f'{count} tasks to take back: no path returns', where)
            for _, st in rets:
                kept = sum(1 for i in range(count) if st.heap[f'row{i}'].attrs.get('schedule_time') != NONE)
                rep.check('all-taken-back', f'Task.{name}: {count}', not kept, f'{kept} of {count} tasks are not taken back', where)
            rep.count('rows', count)
    several(rep, L, 'revert_all', ('scheduled', 'confirmed', 'failed'), 'all-taken-back', 'taken back', lambda row: row['schedule_time'] == NONE and row['exit_status'] == NONE)


def several(rep, L, name, phases, kind, what, good):
    """An operation on some of the tasks concerns each of these and no other."""
    rows = [{**next(row for phase, row, _ in L.phases() if phase == p), 'id': C(f'task-{i}')} for i, p in enumerate(phases * 2)]
    for named in ([0], [0, 2], [1, 3, 4], [*range(len(rows))], []):
        fn, tab, rets = L.run(name, rows, args=[L.ids(*(rows[i]['id'] for i in named))], scale=scaled(rep.prog))
        where = getattr(fn, 'where', '')
        rep.check('ends', f'Task.{name}: several', bool(rets), f'{len(named)} tasks named: no path returns', where)
        for _, st in rets:
            for i, row in enumerate(rows):
                now = st.heap[f'row{i}'].attrs
                rep.check(kind, f'Task.{name}: several', good(now) if i in named else not L.diff(now, row),
                          f'{len(named)} tasks named, number {i + 1} ({phases[i % len(phases)]}) is {"not " if i in named else ""}{what}', where)


@rule('C24', technique=TECH, level='other',
      explanation='Records cancelled while waiting or in flight are followed through every later operation: never selected, never '
                  'waited for, never taken back.')
def cancelling(rep):
    L = life(rep)
    n = 0
    for phase, row, wait in L.phases():
        if phase not in ('waiting', 'scheduled', 'confirmed'):
            continue
        for name, args in (('cancel_all', [L.ids(row['id'])]), ('cancel', [row['id']])):
            fn, tab, rets = L.run(name, [row], args=args)
            where = getattr(fn, 'where', '')
            for _, st in rets:
                got = canonical(st.heap['row0'].attrs)
                n += 1
                about = f'{phase} record cancelled ({text_of(got, SHOWN)})'
                rep.check('cancelled-marked', f'Task.{name}', got['exit_status'] not in (NONE, C(0)) and got['schedule_time'] != NONE,
                          f'{about}: not recognisable as cancelled', where)
                rep.check('cancel-committed', f'Task.{name}', not tab.has(st, 'pending'), f'{about}: not committed', where)
                for attempts in (1, 2, 3):
                    for eager in (FALSE, TRUE):
                        f2, t2, r2 = L.run('next', [got], kwargs=[('limit', LIMIT), ('attempts', C(attempts)), ('eager', eager)],
                                           facts=[(('lt', C(0), LIMIT), True)])
                        for v, s2 in r2:
                            rep.check('cancelled-not-scheduled', 'Task.next', not L.chosen(t2, v, s2) and len(L.table(t2, s2)) == 1,
                                      f'{about}: scheduled again', getattr(f2, 'where', ''))
                for what in ('count_remaining', 'count_interrupted'):
                    f2, t2, r2 = L.run(what, [got])
                    for v, s2 in r2:
                        rep.check('cancelled-not-waited-for', f'Task.{what}', v == C(0), f'{about}: still counted', getattr(f2, 'where', ''))
                for what, kw in (('revert_interrupted', []), ('revert_orphaned', [('client_id', ME)])):
                    f2, t2, r2 = L.run(what, [got], kwargs=kw)
                    for _, s2 in r2:
                        rep.check('cancelled-not-taken-back', f'Task.{what}', not L.diff(s2.heap['row0'].attrs, got), f'{about}: taken '
                                  f'back and so scheduled again', getattr(f2, 'where', ''))
    rep.floor('cancellations followed', n, 4)
    several(rep, L, 'cancel_all', ('waiting', 'scheduled', 'confirmed'), 'cancelled-marked', 'cancelled', lambda row: row['schedule_time'] != NONE and row['exit_status'] not in (NONE, C(0)))


@rule('C25', technique=TECH, level='other',
      explanation='Every statement a database operation sends is assumed to fail once: the session must be rolled back before the '
                  'error leaves the operation; on normal return nothing is left uncommitted, and at every commit the records are '
                  'consistent with each other.')
def transactions(rep):
    L = life(rep)
    ident = C('task-1')
    phases = L.phases()
    by = {}
    for phase, row, wait in phases:
        by.setdefault(phase, row)
    change = lambda tab, st: tab.ip.new_list(st, (('1', tab.ip.new_dict(st, ((C('id'), ident), (C('exit_status'), C(0))), L.task.node)),),
                                             L.task.node)
    obj = lambda tab, st: ('o', 'new')
    objs = lambda tab, st: tab.ip.new_list(st, (('1', ('o', 'new')),), L.task.node)
    sel = [('limit', LIMIT), ('attempts', C(3))]
    ops = [('add_all', [objs], []), ('add', [obj], []), ('update_all', [change], []), ('update', [ident], [('exit_status', C(0))]),
           ('next', [], sel + [('eager', FALSE)]), ('next', [], sel + [('eager', TRUE)]),
           ('revert_all', [L.ids(ident)], []), ('revert', [ident], []), ('revert_interrupted', [], []),
           ('revert_orphaned', [ME], []), ('cancel_all', [L.ids(ident)], []), ('cancel', [ident], [])]
    n = writes = 0
    for name, args, kwargs in ops:
        for phase, row in by.items():
            bad = []

            def on_event(ip, ev, st):
                nonlocal writes
                if ev.kind == 'session' and ev.name not in ('query', 'commit', 'rollback'):
                    writes += 1
                if ev.kind == 'session' and ev.name == 'commit':
                    rows = {r: st.heap[r].attrs for r in st.mon[0]}
                    for r, a in rows.items():
                        for o, b in rows.items():
                            if r != o and a.get('previous_id') == b.get('id') and (b['retried'] != TRUE or b['next_id'] != a['id']):
                                bad.append(ev.where)
            fn, tab, rets = L.run(name, [row], kwargs=kwargs, args=args, on_event=on_event, failing=True,
                                  extra={'new': (L.task.qual, {**row, 'id': C('task-2')})})
            where = getattr(fn, 'where', '')
            n += 1
            rep.check('commit-consistent', f'Task.{name}', not bad, f'{phase} record: a new attempt is committed before the failed '
                      f'one is marked as retried ({", ".join(sorted(set(bad)))}); if the process dies in between the task can never '
                      f'be retried', where)
            rep.check('committed', f'Task.{name}', not any(tab.has(st, 'pending') for _, st in rets), f'{phase} record: returns '
                      f'with uncommitted changes', where)
            rep.check('rolled-back', f'Task.{name}', not any(tab.has(st, 'failed') for _, _, st in tab.raised), f'{phase} record: a '
                      f'failing statement leaves the operation without a rollback, later operations on the session fail', where)
            rep.check('failure-not-hidden', f'Task.{name}', not any(tab.has(st, 'hidden') or tab.has(st, 'failed') for _, st in rets),
                      f'{phase} record: returns normally although a statement failed', where)
    whole(rep, L, by)
    rep.floor('operations with failing statements', n, 40)
    rep.floor('writing statements', writes, 20)


def whole(rep, L, by):
    """An operation on several records saves all of them with one commit, or none."""
    two = lambda make: lambda tab, st: tab.ip.new_list(st, tuple(('1', make(tab, st, C(f'task-{n}'), n)) for n in (1, 2)), L.task.node)
    change = lambda tab, st, ident, n: tab.ip.new_dict(st, ((C('id'), ident), (C('exit_status'), C(0))), L.task.node)
    for name, arg in (('add_all', two(lambda tab, st, ident, n: ('o', f'new{n}'))), ('update_all', two(change)),
                      ('revert_all', two(lambda tab, st, ident, n: ident)), ('cancel_all', two(lambda tab, st, ident, n: ident))):
        bad, wrote = [], []
        row = by['waiting']

        def on_event(ip, ev, st):
            if ev.kind != 'session' or ev.name == 'query':
                return
            if ev.name in ('commit', 'rollback'):
                if ev.name == 'commit' and st.facts.get(('wrote',)):
                    st.facts[('saved',)] = True
            else:
                wrote.append(ev.where)
                if st.facts.get(('saved',)):
                    bad.append(ev.where)
                st.facts[('wrote',)] = True
        fn, tab, rets = L.run(name, [{**row, 'id': C('task-1')}, {**row, 'id': C('task-2')}], args=[arg], on_event=on_event,
                              extra={f'new{n}': (L.task.qual, {**row, 'id': C(f'task-{n + 2}')}) for n in (1, 2)})
        rep.check('one-commit', f'Task.{name}', not bad, f'two records are saved with two commits ({", ".join(sorted(set(map(str, bad))))}); if '
                  f'the second fails the first one stays', getattr(fn, 'where', ''))
        rep.floor(f'statements of {name}', len(wrote), 1)
