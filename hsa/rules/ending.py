"""When the scheduler ends: not before everything is done, and then it does."""

from __future__ import annotations

from ..interp import C, S, NONE, TRUE, FALSE, mentions, show
from ..machine import machine_classes
from ..report import rule
from .flow import machine, param_fact
from .machines import explore, volatile_of, construct
from .signals import Watch, is_signal_check
from .threads import Trace, named, every, first


def reads(t, name):
    return t[0] == 's' and t[1][:3] == ('fresh', 'db', name)


def zero(ev, name):
    """What a condition says about a count being zero: True, False or None."""
    if ev.kind != 'cond':
        return None
    a = ev.args
    if ev.name == 'truth' and reads(a[0], name):
        return not ev.value
    if ev.name == 'eq' and len(a) == 2 and C(0) in a and any(reads(x, name) for x in a):
        return bool(ev.value)
    if ev.name == 'lt' and len(a) == 2:
        if a[0] == C(0) and reads(a[1], name):
            return not ev.value
        if reads(a[0], name) and a[1] == C(1):
            return bool(ev.value)
    return None


def chosen(t):
    """The result of a selection of tasks, or its length."""
    return mentions(t, lambda x: x[:2] == ('fresh', 'select'))


def submission_flag(rep):
    """(attribute, value after submission is over) on the scheduler machine, from the server thread's own trace."""
    prog = rep.prog
    cls = named(prog, 'ServerThread')
    t = Trace(prog, cls)
    rep.saw(t.ip)
    sched = machine(prog, 'Scheduler')
    found, n = {}, 0
    for st, trace in t.paths:
        starts, sub = first(trace, 'start', 'SchedulerThread'), first(trace, 'start', 'SubmitThread')
        if starts is None or sub is None:
            continue
        n += 1
        over = first(trace, 'join', 'SubmitThread')
        sets = [(i, e[2], e[3]) for i, e in enumerate(trace) if e[0] == 'set' and e[1] == 'Scheduler']
        for i, a, v in sets:
            if over is not None and i > over:
                before = [x for j, b, x in sets if b == a and j < starts]
                found.setdefault((a, v), []).append((before[-1] if before else None, [x for j, b, x in sets if b == a and j < over],
                                                     [x for j, b, x in sets if b == a and j > i]))
    rep.floor('paths with a submitting and a scheduling thread', n, 1)
    initial = {}
    ip, made = construct(prog, sched)
    for selfv, st in made:
        for a, _ in found:
            for v, _ in ip.get_attr(selfv, a, st, sched.node):
                initial.setdefault(a, set()).add(show(v))
    good = []
    for (a, v), seen in found.items():
        if len(seen) == n and all(v not in early and not any(x != v for x in late) and
                                  (first_ is not None or v not in initial.get(a, ())) for first_, early, late in seen):
            good.append((a, v))
    rep.check('submission-flag', f'{cls.name}: Scheduler', bool(good), 'the scheduler is not told, when tasks are being submitted, that '
              'submission has only ended after the submitting thread was waited for', cls.where)
    for a, v in good[:1]:
        # without a submitting thread the scheduler must not wait for one
        for st, trace in t.paths:
            if first(trace, 'start', 'SchedulerThread') is not None and first(trace, 'start', 'SubmitThread') is None:
                last = [e[3] for e in trace if e[0] == 'set' and e[1] == 'Scheduler' and e[2] == a]
                rep.check('submission-flag', f'{cls.name}: no submitter', (last[-1:] == [v]) if last else v in initial.get(a, ()),
                          'without a submitting thread the scheduler still waits for one to end', cls.where)
    return good


@rule('C19', technique='abstract interpretation of the scheduler; path-sensitive typestate of the evidence that nothing is left',
      explanation='Every path of the abstract scheduler from start to halt must have collected, in this order, the evidence that '
                  'nothing is left: submission has ended, no task remains, and a later selection found nothing; never in forever '
                  'mode, never before a task was seen unless restarting. Conversely, when nothing is left it must halt.')
def ending(rep):
    flags = submission_flag(rep)
    cls = machine(rep.prog, 'Scheduler')
    w = Watch(rep, cls)
    flag, over = flags[0] if flags else (None, None)
    halts = []

    # mon: (told by a signal, submission over, same when counted, nothing remains, selection is later, proven, tasks seen, count > 0)
    def on_event(ip, ev, st):
        told, ended, counted, none, later, proven, had, some = st.mon
        for sig in ('SIGUSR1', 'SIGUSR2'):
            if is_signal_check(ev, sig) and ev.value:
                told = True
        if ev.kind == 'volread' and ev.name == flag:
            ended = ended or show(ev.value) == over
        elif ev.kind == 'dbread' and ev.name == 'count_remaining':
            counted = ended
        elif ev.kind == 'select':
            later = none
        elif ev.kind == 'cond':
            z = zero(ev, 'count_remaining')
            if z is not None:
                none = z and counted
                if z is False:
                    later = proven = False      # what was found before says nothing any more
            if zero(ev, 'count') is False:
                some = True
            empty = None
            if ev.name == 'truth' and chosen(ev.args[0]):
                empty = not ev.value
            elif ev.name == 'eq' and C(0) in ev.args and any(chosen(a) for a in ev.args):
                empty = bool(ev.value)
            elif ev.name == 'lt' and ev.args[0] == C(0) and chosen(ev.args[1]):
                empty = not ev.value
            if empty is True:
                proven = proven or later
            elif empty is False:
                none = later = proven = False
                had = some = True
        st.mon = (told, ended, counted, none, later, proven, had, some)

    def on_step(ex, step):
        if step.target is None or step.target[0] != 'm' or step.target[2] != 'HALT':
            return
        st = step.state
        told, ended, counted, none, later, proven, had, some = st.mon
        halts.append(told)
        if told:
            return
        where = step.fn.where if step.fn else None
        if param_fact(st, 'forever_mode') is not False:
            w.bad('ends-forever', 'halt', 'scheduling may end by itself in forever mode', st, where)
        if flag is not None and not ended:
            w.bad('ends-early', 'submission', 'scheduling may end while tasks are still being submitted', st, where)
        elif not proven:
            w.bad('ends-early', 'remaining', 'scheduling may end although tasks remain: no selection found nothing after no task '
                  'remained', st, where)
        if not had and param_fact(st, 'restart_mode') is not True:
            w.bad('ends-unstarted', 'no task', 'scheduling may end before any task was seen although it is not a restart', st, where)
        elif not some:
            w.bad('ends-unstarted', 'empty database', 'scheduling may end on an empty database', st, where)
    explore(rep, cls, on_event=on_event, mon0=(False,) * 8, on_step=on_step)
    w.fine('ends-forever', 'ends-early', 'ends-unstarted')
    rep.check('ends-by-itself', cls.name, any(not t for t in halts), 'scheduling never ends by itself', cls.where)
    ends(rep, cls, flag, over)
    from .machines import once
    once(rep)


def ends(rep, cls, flag, over):
    """With nothing left to do, every configuration leads to the end."""
    prog = rep.prog
    from ..machine import Explorer, TASK
    vol = volatile_of(prog, cls)
    if flag is not None:
        vol = {k: [v for v in vals if show(v) == over] if k[1] == flag else vals for k, vals in vol.items()}
    ex = Explorer(prog, cls, volatile=vol, init_args={'forever_mode': FALSE})
    ex.mon0 = 0
    task = prog.cls(TASK)
    for c in task.mro:
        for name, fn in c.methods.items():
            if name == 'count_remaining':
                ex.ip.summaries[fn.qual] = lambda ip, fn, args, kwargs, st, node: [(C(0), st)]
            elif name == 'count':
                ex.ip.summaries[fn.qual] = lambda ip, fn, args, kwargs, st, node: [(C(1), st)]

    def select(ip, fn, args, kwargs, st, node):
        if st.mon == 0:
            some = st.copy()
            some.mon = 1
            out = [(ip.new_list(some, (('1', S(('fresh', 'task'))),), node), some)]
            if param_fact(st, 'restart_mode') is True:
                st.mon = 1
                out.append((ip.new_list(st, (), node), st))
            return out
        return [(ip.new_list(st, (), node), st)]
    ex.ip.select_hook = select
    ex.ip.summaries['hypershell.core.signal.check_signal'] = lambda ip, fn, args, kwargs, st, node: [(NONE, st)]
    ex.run()
    rep.saw(ex.ip)
    stuck = ex.stuck()
    rep.count('configurations with nothing left', len(ex.nodes))
    rep.floor('configurations with nothing left', len(ex.nodes), 3)
    rep.check('ends-eventually', cls.name, not stuck, 'with all tasks finished and submission over the scheduler does not end '
              f'(from {show(stuck[0]) if stuck else ""})', cls.where)
