"""How threads are started, fed, told to end and joined; how exceptions reach the caller."""

from __future__ import annotations

import ast

from ..interp import Interp, State, C, S, NONE, TRUE, FALSE, HObj, is_const, cval, mentions, show
from ..externs import SHARED
from ..machine import entity_summaries, init_symbols, machine_classes
from ..model import AnalysisBroken
from ..report import rule
from .flow import param_fact
from .machines import THREAD, construct, thread_classes, volatile_of, wrappers
from .signals import Watch

ERROR = 'builtins.Exception'     # not one of its subclasses: only a handler for everything catches it


def named(prog, name):
    for c in thread_classes(prog):
        if c.name == name:
            return c
    raise AnalysisBroken(f'no thread class named {name}')


def args_for(ip, init, st, given):
    """Constructor arguments: given values, a symbol for every other parameter."""
    return [(n, given.get(n, v)) for n, v in init_symbols(ip, init, st)]


class Trace:
    """Runs a method of a thread object abstractly and records what it does to threads and queues."""

    def __init__(self, prog, cls, method='run_with_exceptions', given=None, failing=None, extra=None):
        self.prog, self.cls = prog, cls
        self.threads = {c.qual: c for c in thread_classes(prog)}
        self.failing = failing          # name of the thread class whose join raises
        base = prog.cls(THREAD)
        summaries = {**entity_summaries(prog), **(extra or {})}
        summaries[base.methods['join'].qual] = self.join
        summaries[base.methods['new'].qual] = self.new
        self.ip = Interp(prog, summaries=summaries)
        self.ip.extern_hook = self.alive
        self.paths, self.raised = [], []
        st = State()
        self.selfv = self.ip.make_self(cls, st, opaque=False)
        init = cls.method('__init__')
        given = self.prepare(st, dict(given or {}))
        rets, _ = self.ip.run_function(init, [self.selfv], args_for(self.ip, init, st, given), st)
        if not rets:
            raise AnalysisBroken(f'{cls.qual}: no normal path through __init__')
        self.ip.on_event = self.event
        self.built = [s for _, s in rets]
        fn = cls.method(method)
        seen = set()
        for _, s in rets:
            s = s.copy()
            s.mon, s.trace, s.env = (), None, {}
            if s.key() in seen:
                continue
            seen.add(s.key())
            outs, raised = self.ip.run_function(fn, [self.selfv], [], s)
            self.paths += [(o, o.mon) for _, o in outs]
            self.raised += [(exc, o, o.mon) for exc, _, o in raised]
        self.paths = list({(m, tuple(sorted(map(str, o.facts.items())))): (o, m) for o, m in self.paths}.values())

    def prepare(self, st, given):
        return given

    def kind(self, v, st):
        """(class name, identity) of a thread object."""
        if v is not None and v[0] == 'o' and v[1] in st.heap:
            q = st.heap[v[1]].cls
            if q in self.threads:
                return self.threads[q].name, v[1]
        return None

    def new(self, ip, fn, args, kwargs, st, node):
        return None

    def join(self, ip, fn, args, kwargs, st, node):
        who = self.kind(args[0], st)
        timeout = args[1] if len(args) > 1 else dict(kwargs).get('timeout', NONE)
        if who is not None:
            if timeout == NONE and ('join',) + who not in st.mon:
                st.mon = st.mon + (('join',) + who,)
            if self.failing == who[0]:
                bad = st.copy()
                bad.mon = bad.mon + (('failed', who[0]),)
                ip.raise_sinks[-1].append((ERROR, S(('exc', ERROR)), bad))
        return [(NONE, st)]

    def alive(self, ip, f, name, recv, args, kwargs, st, node):
        """A thread found dead is as good as joined (apart from its exception)."""
        who = self.kind(recv, st) if name == '.is_alive' else None
        if who is None:
            return None
        if ('join',) + who in st.mon:
            return [(FALSE, st)]
        dead = st.copy()
        dead.mon = dead.mon + (('join',) + who,)
        return [(TRUE, st), (FALSE, dead)]

    def event(self, ip, ev, st):
        got = None
        if ev.kind == 'call' and ev.name in ('.start', '.stop') and ev.recv is not None:
            who = self.kind(ev.recv, st)
            got = who and (ev.name[1:],) + who
        elif ev.kind == 'enter' and ev.args:
            who = self.kind(ev.args[0], st)
            name = ev.name.split('.')[-1]
            if who and name == 'stop' and ev.args[0] != self.selfv:
                got = ('stop',) + who
            elif who and name == 'start':
                got = ('start',) + who
        elif ev.kind == 'put':
            got = ('put', ev.name if ev.name in SHARED else ev.recv, 'None' if ev.args[0] == NONE else 'value')
        elif ev.kind in ('with', 'endwith') and ev.value is not None or ev.kind in ('with', 'endwith') and ev.recv is not None:
            v = ev.recv if ev.recv is not None else ev.value
            if v[0] == 'o' and v[1] in st.heap:
                cls = self.prog.classes.get(st.heap[v[1]].cls or '')
                if cls is not None and any(c.name == 'QueueInterface' for c in cls.mro):
                    got = ({'with': 'enter', 'endwith': 'exit'}[ev.kind], cls.name, v[1])
        elif ev.kind == 'setattr' and ev.recv is not None and ev.recv[0] == 'o' and ev.recv[1] in st.heap:
            cls = self.prog.classes.get(st.heap[ev.recv[1]].cls or '')
            if cls is not None and any(c.name == 'StateMachine' for c in cls.mro):
                got = ('set', cls.name, ev.name, show(ev.value))
        if got:
            st.mon = st.mon + (got,)
            st.note(' '.join(show(x) if isinstance(x, tuple) else str(x) for x in got) + f' (line {ev.line})')


def first(trace, *pattern):
    for i, e in enumerate(trace):
        if e[:len(pattern)] == pattern:
            return i
    return None


def every(trace, *pattern):
    return [i for i, e in enumerate(trace) if e[:len(pattern)] == pattern]


class Order:
    """Checks on one trace."""

    def __init__(self, rep, cls, st, trace):
        self.rep, self.cls, self.st, self.trace = rep, cls, st, trace

    def need(self, rule, what, good, message):
        construct = f'{self.cls.name}: {what}'
        if good:
            self.rep.ok(rule, construct)
        else:
            self.rep.bad(rule, construct, message, self.cls.where, self.st.path()[-30:])
        return good

    def before(self, a, b, what_a, what_b):
        """Every event matching `a` comes before every event matching `b`; both exist."""
        xs, ys = every(self.trace, *a), every(self.trace, *b)
        name = f'{what_a} before {what_b}'
        if not xs:
            return self.need('order', name, False, f'never: {what_a}')
        if not ys:
            return self.need('order', name, False, f'never: {what_b}')
        return self.need('order', name, max(xs) < min(ys), f'{what_b} does not wait for: {what_a}')

    def once(self, a, what):
        n = len(every(self.trace, *a))
        return self.need('once', what, n == 1, f'{what}: happens {n} times')

    def inside(self, kind, exempt=()):
        """All thread and queue events lie inside the queue's context."""
        a, b = first(self.trace, 'enter', kind), first(self.trace, 'exit', kind)
        good = a is not None and b is not None and all(a < i < b for i, e in enumerate(self.trace)
                                                       if e[0] in ('start', 'join', 'put') and e[1] not in exempt)
        return self.need('context', f'inside {kind}', good, f'threads are started, fed or joined outside the {kind} context')

    def joined(self):
        """Every started thread is joined, after it was started."""
        for e in self.trace:
            if e[0] == 'start':
                s, j = first(self.trace, 'start', *e[1:]), first(self.trace, 'join', *e[1:])
                self.need('joined', e[1], j is not None and s < j, f'{e[1]} is started but not waited for')
                self.need('started-once', e[1], len(every(self.trace, 'start', *e[1:])) == 1, f'{e[1]} is started more than once')
            elif e[0] == 'join':
                self.need('started', e[1], first(self.trace, 'start', *e[1:]) is not None, f'{e[1]} is waited for but never started')


def merge(rep):
    from .machines import once
    once(rep)


def started(trace, name):
    return first(trace, 'start', name) is not None


@rule('C11', technique='path enumeration of the orchestrating thread and partial-order check of its events', level='other',
      explanation='Every path of the server thread is enumerated by abstract interpretation of its constructor and run method for all '
                  'combinations of options; the start, sentinel, flag and join events on it must respect the shutdown order.')
def server_order(rep):
    prog = rep.prog
    cls = named(prog, 'ServerThread')
    t = Trace(prog, cls)
    rep.saw(t.ip)
    rep.floor('paths of the server thread', len(t.paths), 4)
    heart = next((m for m in machine_classes(prog) if m.name == 'HeartMonitor'), None)
    for st, trace in t.paths:
        o = Order(rep, cls, st, trace)
        o.inside('QueueServer')
        o.joined()
        for name in ('ReceiverThread', 'HeartMonitorThread'):
            o.once(('start', name), f'start of {name}')
        ends = [n for n in ('SubmitThread', 'LiveSubmitThread', 'SchedulerThread') if started(trace, n)]
        if 'SubmitThread' in ends or 'LiveSubmitThread' in ends:
            for s in ('SubmitThread', 'LiveSubmitThread'):
                if s in ends and 'SchedulerThread' in ends:
                    o.before(('join', s), ('join', 'SchedulerThread'), 'submission is over', 'waiting for the scheduler')
        done = ('set', 'HeartMonitor', 'scheduler_done', 'True')
        flags = {e[2] for e in trace if e[0] == 'set' and e[1] == 'HeartMonitor' and e[3] == 'True'}
        o.need('flags', 'heart monitor is told', len(flags) >= 2, f'the heart monitor is only told {sorted(flags)} at the end')
        for f in sorted(flags):
            for e in ends:
                o.before(('join', e), ('set', 'HeartMonitor', f), f'{e} has ended', f'heart monitor is told {f}')
            o.before(('set', 'HeartMonitor', f, 'True'), ('join', 'HeartMonitorThread'), f'heart monitor is told {f}',
                     'waiting for the heart monitor')
        if 'scheduler_done' in flags and 'should_signal' in flags:
            o.before(done, ('set', 'HeartMonitor', 'should_signal'), 'heart monitor knows that scheduling is over',
                     'clients are disconnected')
        for chan, th in (('completed', 'ReceiverThread'), ('confirmed', 'ConfirmThread')):
            if started(trace, th):
                o.once(('put', chan, 'None'), f'end marker on {chan}')
                o.before(('join', 'HeartMonitorThread'), ('put', chan, 'None'), 'all clients have gone', f'end marker on {chan}')
                o.before(('put', chan, 'None'), ('join', th), f'end marker on {chan}', f'waiting for {th}')
            else:
                o.need('no-stray-marker', chan, first(trace, 'put', chan) is None, f'an end marker is put on {chan} nobody reads')
        o.need('no-scheduled', 'scheduling queue', first(trace, 'put', 'scheduled') is None, 'the server thread itself writes to the '
               'scheduling queue')
        mem, confirm = param_fact(st, 'in_memory'), param_fact(st, 'no_confirm')
        if confirm is not None:
            o.need('options', f'no_confirm={confirm}', started(trace, 'ConfirmThread') == (not confirm),
                   f'with no_confirm={confirm} the confirmation thread is {"" if started(trace, "ConfirmThread") else "not "}started')
        if mem is True:
            o.need('options', 'in_memory', not started(trace, 'SchedulerThread') and not started(trace, 'SubmitThread'),
                   'with the database disabled the database threads are started')
    merge(rep)


@rule('C12', technique='path enumeration of the orchestrating thread and partial-order check of its events', level='other',
      explanation='Every path of the client thread (with three executors) is enumerated by abstract interpretation of constructor and '
                  'run method: one end marker per executor after the scheduler ended, one for the collector after all executors '
                  'ended, the final heartbeat after the collector ended, all within the connection; the queues between the threads '
                  'are connected as intended.')
def client_order(rep):
    prog = rep.prog
    cls = named(prog, 'ClientThread')
    t = Trace(prog, cls, given={'num_tasks': C(3)})
    rep.saw(t.ip)
    rep.floor('paths of the client thread', len(t.paths), 1)
    for st, trace in t.paths:
        o = Order(rep, cls, st, trace)
        o.inside('QueueClient')
        o.joined()
        for name in ('ClientSchedulerThread', 'ClientCollectorThread', 'ClientHeartbeatThread'):
            o.once(('start', name), f'start of {name}')
        o.need('executors', 'count', len(every(trace, 'start', 'TaskThread')) == 3, 'the number of executors started is not the number '
               f'requested ({len(every(trace, "start", "TaskThread"))} for 3)')
        inbound, outbound, same = wiring(o, t, st)
        puts = {}
        for i, e in enumerate(trace):
            if e[0] == 'put':
                o.need('sentinels', 'only end markers', e[2] == 'None', 'the client thread itself puts a task on a queue')
                puts.setdefault(e[1], []).append(i)
        o.need('sentinels', 'queues', set(puts) <= {inbound, outbound}, 'an end marker is put on a queue nobody reads')
        o.need('sentinels', 'executors', len(puts.get(inbound, ())) == 3, f'{len(puts.get(inbound, ()))} end markers for 3 executors')
        o.need('sentinels', 'collector', len(puts.get(outbound, ())) == 1, f'{len(puts.get(outbound, ()))} end markers for the collector')
        o.before(('join', 'ClientSchedulerThread'), ('put', inbound), 'all received tasks were passed on', 'end marker for executors')
        o.before(('put', inbound), ('join', 'TaskThread'), 'end markers for executors', 'waiting for executors')
        o.before(('join', 'TaskThread'), ('put', outbound), 'all executors have ended', 'end marker for the collector')
        o.before(('put', outbound), ('join', 'ClientCollectorThread'), 'end marker for the collector', 'waiting for the collector')
        final = [i for i, e in enumerate(trace) if e[:2] == ('set', 'ClientHeartbeat') and 'FINISHED' in e[3]]
        j = first(trace, 'join', 'ClientHeartbeatThread')
        c = first(trace, 'join', 'ClientCollectorThread')
        o.need('order', 'final heartbeat after all results', bool(final) and c is not None and min(final) > c,
               'the client reports itself finished before all results were returned')
        o.need('order', 'final heartbeat before waiting', bool(final) and j is not None and max(final) < j,
               'the heartbeat thread is waited for without telling it to finish')
        wake = [i for i, e in enumerate(trace) if e[:2] == ('set', 'ClientHeartbeat') and e[3] == 'True']
        o.need('order', 'final heartbeat at once', all(c is not None and i > c for i in wake), 'the heartbeat period is cut short before '
               'all results were returned')
    merge(rep)


def machine_of(t, st, thread_ref):
    for v in st.heap[thread_ref].attrs.values():
        if v[0] == 'o' and v[1] in st.heap:
            c = t.prog.classes.get(st.heap[v[1]].cls or '')
            if c is not None and any(x.name == 'StateMachine' for x in c.mro):
                return c.name, st.heap[v[1]].attrs
    return None, {}


def local_queues(attrs):
    return {n: v for n, v in attrs.items() if v[0] == 's' and v[1][0] == 'call' and v[1][1][0] == 'x' and 'Queue' in v[1][1][1]}


def wiring(o, t, st):
    """Which local queue connects which machines."""
    users = {}
    remotes = set()
    for ref, obj in st.heap.items():
        if obj.kind == 'obj' and obj.cls in t.threads:
            name, attrs = machine_of(t, st, ref)
            if name:
                for n, v in local_queues(attrs).items():
                    users.setdefault((name, n), set()).add(v)
                for n, v in attrs.items():
                    if v[0] == 'o' and v[1] in st.heap and st.heap[v[1]].cls and 'core.queue' in st.heap[v[1]].cls:
                        remotes.add(v[1])
    sched = [v for (m, n), v in users.items() if m == 'ClientScheduler']
    coll = [v for (m, n), v in users.items() if m == 'ClientCollector']
    execs = {n: v for (m, n), v in users.items() if m == 'TaskExecutor'}
    inbound = next(iter(sched[0])) if len(sched) == 1 and len(sched[0]) == 1 else None
    outbound = next(iter(coll[0])) if len(coll) == 1 and len(coll[0]) == 1 else None
    o.need('wiring', 'queues', inbound is not None and outbound is not None and inbound != outbound,
           'scheduler and collector do not have a local queue each')
    machine = next(c for c in t.prog.classes.values() if c.name == 'TaskExecutor')
    taking, returning = (machine.holder(n) for n in ('inbound', 'outbound'))
    o.need('wiring', 'executors', execs.get(taking) == {inbound} and execs.get(returning) == {outbound},
           'executors do not take tasks from the scheduler\'s queue or do not return them to the collector\'s queue')
    o.need('wiring', 'connection', len(remotes) == 1, 'the threads of a client use different connections')
    return inbound, outbound, True


@rule('C13', technique='path enumeration of the orchestrating threads and partial-order check of their events', level='other',
      explanation='Every path of both submitting threads is enumerated by abstract interpretation: the loader is waited for, then exactly '
                  'one end marker is put on the queue it shares with the committer, then the committer is waited for. Stopping '
                  'halts both.')
def submit_order(rep):
    prog = rep.prog
    for name, committer in (('SubmitThread', 'DatabaseCommitterThread'), ('LiveSubmitThread', 'QueueCommitterThread')):
        cls = named(prog, name)
        t = Trace(prog, cls)
        rep.saw(t.ip)
        rep.floor(f'paths of {name}', len(t.paths), 1)
        for st, trace in t.paths:
            o = Order(rep, cls, st, trace)
            o.joined()
            o.once(('start', 'LoaderThread'), 'start of LoaderThread')
            o.once(('start', committer), f'start of {committer}')
            if name == 'LiveSubmitThread':
                o.inside('QueueClient', exempt=('LoaderThread',))
            queues = {}
            for ref, obj in st.heap.items():
                if obj.kind == 'obj' and obj.cls in t.threads:
                    m, attrs = machine_of(t, st, ref)
                    if m:
                        queues[m] = set(local_queues(attrs).values())
            shared = queues.get('Loader', set()) & queues.get(committer.replace('Thread', ''), set())
            o.need('wiring', 'queue', len(shared) == 1, 'loader and committer do not share one queue')
            q = next(iter(shared)) if shared else None
            o.once(('put',), 'end marker')
            o.before(('join', 'LoaderThread'), ('put', q, 'None'), 'all input was read', 'end marker for the committer')
            o.before(('put', q, 'None'), ('join', committer), 'end marker for the committer', 'waiting for the committer')
        t = Trace(prog, cls, method='stop')
        for st, trace in t.paths:
            o = Order(rep, cls, st, trace)
            for th in ('LoaderThread', committer):
                o.need('stop', th, first(trace, 'stop', th) is not None, f'stop() does not stop {th}')
    merge(rep)


# -- C14: exceptions reach the caller ---------------------------------------------------------------------------------


ENTRY = (('hypershell.server.serve_from', 'ServerThread'), ('hypershell.server.serve_forever', 'ServerThread'),
         ('hypershell.client.run_client', 'ClientThread'), ('hypershell.submit.submit_from', 'SubmitThread'),
         ('hypershell.cluster.local.run_local', 'LocalCluster'), ('hypershell.cluster.ssh.run_ssh', 'SSHCluster'),
         ('hypershell.cluster.remote.run_cluster', 'RemoteCluster'))


def stepping(rep, prog, run, join):
    """What a step of a worker raises ends the worker's thread and is raised where the thread is waited for."""
    n = 0
    for cls, (attr, mcls) in sorted(wrappers(prog).items(), key=lambda x: x[0].qual):
        actions = mcls.method('actions')
        steps = [m for x in (ast.walk(actions.node) if actions is not None else ()) if isinstance(x, ast.Attribute) for m in [mcls.method(x.attr)] if m is not None]
        if not steps:
            continue

        def work(ip, fn, args, kwargs, st, node):
            if isinstance(st.mon, tuple) and 'failed' not in st.mon:
                st.mon = (*st.mon, 'failed')
            ip.raise_sinks[-1].append((ERROR, S(('exc', ERROR)), st))
            return []
        ip, made = construct(prog, cls, summaries={m.qual: work for m in steps})
        for selfv, st in made:
            st = st.copy()
            st.mon = ()
            outs, _ = ip.run_function(run, [selfv], [], st)
            for _, s in outs:
                if not isinstance(s.mon, tuple) or 'failed' not in s.mon:
                    continue
                n += 1
                outs2, raised2 = ip.run_function(join, [selfv], [], s.copy())
                rep.check('step-raises', cls.name, not outs2 and bool(raised2), f'what a step of {mcls.name} raises is not raised by joining its thread', cls.where)
        rep.saw(ip)
    rep.floor('workers with a failing step', n, 8)


@rule('C14', technique='exception-flow analysis with injected failures', level='other',
      explanation='An exception is injected into the work of a thread: it must be stored and raised again by join. It is then '
                  'injected into the join of each child of each orchestrating thread, and into the join of the main thread of each '
                  'entry point: it must leave the orchestrating thread, and the entry point must stop the thread and raise it.')
def exceptions(rep):
    prog = rep.prog
    base = prog.cls(THREAD)
    # a thread stores what its work raises, join raises it
    probe = named(prog, 'ReceiverThread')
    run, join = base.methods['run'], base.methods['join']
    for fails in (True, False):
        def work(ip, fn, args, kwargs, st, node):
            if fails:
                ip.raise_sinks[-1].append((ERROR, S(('exc', ERROR)), st))
                return []
            return [(NONE, st)]
        ip, made = construct(prog, probe, summaries={probe.method('run_with_exceptions').qual: work})
        for selfv, st in made:
            outs, raised = ip.run_function(run, [selfv], [], st.copy())
            rep.check('run-contains', 'Thread.run', bool(outs) and not raised, 'an exception in the work of a thread leaves run()', run.where)
            for _, s in outs:
                outs2, raised2 = ip.run_function(join, [selfv], [], s.copy())
                if fails:
                    good = not outs2 and bool(raised2) and all(exc == ERROR or 'exc' in str(v) for exc, v, _ in raised2)
                    rep.check('join-raises', 'Thread.join', good, 'join() does not raise the exception that ended the thread', join.where)
                else:
                    rep.check('join-quiet', 'Thread.join', bool(outs2) and not raised2, 'join() raises although the thread ended '
                              'normally', join.where)
    stepping(rep, prog, run, join)
    # orchestrating threads
    wrapped = set(wrappers(prog))
    n = 0
    for cls in thread_classes(prog):
        if cls in wrapped or cls.name == 'BufferedTransport':
            continue
        try:
            plain = Trace(prog, cls)
        except AnalysisBroken:
            continue
        rep.saw(plain.ip)
        children = sorted({e[1] for _, tr in plain.paths for e in tr if e[0] == 'join'})
        for child in children:
            t = Trace(prog, cls, failing=child)
            n += 1
            lost = [st for st, tr in t.paths if ('failed', child) in tr]
            raised = [exc for exc, _, _ in t.raised if exc == ERROR]
            rep.check('propagates', f'{cls.name}: {child}', bool(raised) and not lost, f'{cls.name} swallows an exception of its {child}', cls.where)
    rep.floor('children with injected failure', n, 6)
    # entry points
    for qual, tname in ENTRY:
        fn = prog.func(qual)
        seen = []

        def new(ip, f, args, kwargs, st, node):
            cls = prog.classes.get(args[0][1]) if args and args[0][0] == 'k' else None
            ref = ip.alloc(st, HObj('obj', cls.qual if cls else None, {}, True), node, hint='thread')
            return [(('o', ref), st)]

        def joined(ip, f, args, kwargs, st, node):
            bad = st.copy()
            bad.mon = bad.mon + ('failed',)
            ip.raise_sinks[-1].append((ERROR, S(('exc', ERROR)), bad))
            return [(NONE, st)]

        def stop(ip, f, args, kwargs, st, node):
            st.mon = st.mon + ('stop',)
            return [(NONE, st)]
        summaries = {**entity_summaries(prog), base.methods['new'].qual: new, base.methods['join'].qual: joined}
        for c in [base, *thread_classes(prog)]:
            if 'stop' in c.methods:
                summaries[c.methods['stop'].qual] = stop
        ip = Interp(prog, summaries=summaries)
        st = State()
        st.mon = ()
        args = []
        a = fn.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            args.append((x.arg, ip.typed_symbol(('param', fn.qual, x.arg), x.annotation, fn.module, None, st, fn.node)))
        outs, raised = ip.run_function(fn, [], args, st)
        rep.saw(ip)
        failed = [(e, s) for e, _, s in raised if 'failed' in s.mon]
        hidden = [s for _, s in outs if 'failed' in s.mon]
        rep.check('entry-raises', qual, bool(failed) and not hidden, f'{fn.name}() does not raise the exception that ended its thread',
                  fn.where)
        rep.check('entry-stops', qual, bool(failed) and all('stop' in s.mon for _, s in failed), f'{fn.name}() does not stop its thread '
                  f'when it fails', fn.where)
    merge(rep)

