"""The worker machines: bounded steps, full and empty queues, shape of the machines, stop requests, signals, heartbeats."""

from __future__ import annotations

import ast

from ..interp import Interp, State, C, S, NONE, TRUE, FALSE, is_const, cval, mentions, show
from ..machine import (Explorer, machine_classes, entity_summaries, init_symbols, BASE)
from ..model import AnalysisBroken
from ..report import rule
from .flow import machine, param_fact, is_now, is_param

THREAD = 'hypershell.core.thread.Thread'
HALT_FLAG = '_StateMachine__should_halt'


def thread_classes(prog):
    return [c for c in prog.subclasses(prog.cls(THREAD).qual)]


def construct(prog, cls, on_event=None, summaries=None, args=None):
    """Abstract instances of a class: (interpreter, [(instance, state)])."""
    ip = Interp(prog, summaries={**entity_summaries(prog), **(summaries or {})})
    st = State()
    selfv = ip.make_self(cls, st, opaque=False)
    init = cls.method('__init__')
    if init is None:
        return ip, [(selfv, st)]
    rets, _ = ip.run_function(init, [selfv], init_symbols(ip, init, st) if args is None else args, st)
    if not rets:
        raise AnalysisBroken(f'{cls.qual}: no normal path through __init__')
    ip.on_event = on_event
    return ip, [(selfv, s) for _, s in rets]


def wrappers(prog):
    """Thread classes that own one machine: {thread class: (attribute, machine class)}."""
    got = prog.__dict__.get('_wrappers')
    if got is not None:
        return got
    out = prog.__dict__['_wrappers'] = {}
    machines = {c.qual: c for c in machine_classes(prog)}
    for cls in thread_classes(prog):
        if not any(isinstance(n, ast.Name) and getattr(prog.resolve_expr(n, c.module, c), 'qual', None) in machines
                   for c in cls.mro for n in ast.walk(c.node)):
            continue
        try:
            ip, made = construct(prog, cls)
        except AnalysisBroken:
            continue
        for selfv, st in made[:1]:
            for name, v in st.heap[selfv[1]].attrs.items():
                if v[0] == 'o' and st.heap[v[1]].cls in machines:
                    out[cls] = (name, machines[st.heap[v[1]].cls])
    return out


def volatile_of(prog, mcls, wraps=None):
    """Attributes of a machine that other threads assign, with every value they may have (initial one included)."""
    out = {}
    for tcls, (attr, m) in (wraps or wrappers(prog)).items():
        if m is not mcls:
            continue
        inner = own_calls(tcls, ('__init__', 'run_with_exceptions', 'run', 'join', 'new'))
        for name, fn in tcls.methods.items():
            if name in inner or fn.kind != 'plain':
                continue
            for attr2, v in assigned_by(prog, tcls, attr, name):
                if attr2 == HALT_FLAG:
                    continue
                vals = out.setdefault((mcls.qual, attr2), [])
                if v not in vals:
                    vals.append(v)
    # the value before anything was assigned
    ip, made = construct(prog, mcls)
    for (q, name), vals in out.items():
        for selfv, st in made:
            for v, _ in ip.get_attr(selfv, name, st, mcls.node):
                if v not in vals:
                    vals.insert(0, v)
    return out


def own_calls(cls, names, never=('stop', 'halt')):
    """Methods that are called, directly or not, by the given ones of the same object."""
    out, work = set(), list(names)
    while work:
        name = work.pop()
        if name in out:
            continue
        out.add(name)
        fn = cls.method(name)
        if fn is None or not fn.node.args.args:
            continue
        me = fn.node.args.args[0].arg
        work += [x.attr for x in ast.walk(fn.node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me
                 and x.attr in cls.methods and x.attr not in never]
    return out


def assigned_by(prog, tcls, attr, method):
    """(attribute, value) pairs a thread's method assigns on its machine."""
    ip, made = construct(prog, tcls, summaries=plain_join(prog))
    out = []
    fn = tcls.method(method)
    for selfv, st in made:
        target = st.heap[selfv[1]].attrs.get(attr)
        if target is None:
            continue

        def on_event(ip, ev, s):
            if ev.kind == 'setattr' and ev.recv == target:
                v = ev.value
                if v[0] == 's':
                    known = s.facts.get(('truth', v))
                    vals = [S(('vol', tcls.qual, ev.name), v[2])] if v[2] != 'builtins.bool' else \
                        [TRUE, FALSE] if known is None else [TRUE if known else FALSE]
                else:
                    vals = [v]
                out.extend((ev.name, x) for x in vals)
        ip.on_event = on_event
        ip.run_function(fn, [selfv], init_symbols(ip, fn, st), st.copy())
    return out


def plain_join(prog):
    """Thread.join and Thread.start as single steps."""
    out = {}
    base = prog.cls(THREAD)
    for name in ('join', 'start', 'new'):
        fn = base.methods.get(name)
        if fn is not None:
            out[fn.qual] = lambda ip, fn, args, kwargs, st, node: [(NONE, st)]
    return out


def explore(rep, cls, on_event=None, mon0=None, extern_hook=None, on_step=None, volatile=None):
    ex = Explorer(rep.prog, cls, on_event=on_event, volatile=volatile if volatile is not None else volatile_of(rep.prog, cls))
    ex.mon0 = mon0
    ex.ip.extern_hook = extern_hook
    ex.on_step = on_step
    ex.run()
    rep.saw(ex.ip)
    rep.count('machine configurations', ex.configs)
    rep.count('transitions', len(ex.steps))
    return ex


# -- C08: every step is bounded ---------------------------------------------------------------------------------------


WAITS = {'.wait', '.communicate', '.acquire', '.join', '.recv', '.select', '.result', '.wait_for'}


@rule('C08', technique='effect analysis of blocking operations over all paths of the machines', level='other',
      explanation='Every action of every worker machine is interpreted along all paths; each queue operation and each wait on a '
                  'process, lock or thread that is reached must have a timeout.')
def bounded(rep):
    sites = set()

    def on_event(ip, ev, st):
        if ev.kind in ('put', 'get'):
            sites.add((ev.func, ev.line))
            rep.check('bounded-queue-operation', f'{ev.func}: {ev.kind} {ev.name}', ev.extra == 'timed',
                      f'{ev.func} may wait forever in {ev.kind} on {ev.name}; a stop request or signal is then never seen',
                      ev.where, st.path()[-10:])
        elif ev.kind == 'call' and ev.name in WAITS and ev.recv is not None and ev.recv[0] in ('s', 'o'):
            if ev.name == '.join' and (ev.args or is_text(ev.recv)):
                return
            timed = bool(ev.args) or any(k in ('timeout', 'blocking') and v != NONE for k, v in ev.kwargs)
            sites.add((ev.func, ev.line))
            rep.check('bounded-wait', f'{ev.func}: {ev.name}', timed,
                      f'{ev.func} may wait forever in {ev.name[1:]}(); a stop request or signal is then never seen',
                      ev.where, st.path()[-10:])
    machines = machine_classes(rep.prog)
    for cls in machines:
        explore(rep, cls, on_event=on_event)
    once(rep)
    rep.floor('blocking operations', len(sites), 10)
    rep.floor('machines', len(machines), 10)
    rep.assume('Reading the next line of the task source, database statements and short sleeps are outside the property.')


def is_text(recv):
    return recv[0] in ('j',) or (recv[0] == 's' and recv[2] == 'builtins.str') or is_const(recv)


def once(rep):
    """Merge repeated obligations (a site is met on many paths)."""
    seen = {}
    for o in rep.obligations:
        key = (o['rule'], o['construct'])
        if key not in seen or not o['discharged']:
            seen[key] = o
    rep.obligations[:] = list(seen.values())


# -- C09: a full or empty queue never ends a worker -------------------------------------------------------------------


@rule('C09', technique='exception-flow analysis over all paths of the machines', level='other',
      explanation='Every timed queue operation and process wait reached from a machine action forks into success and timeout; the '
                  'timeout exception must be caught on every path before it leaves the action.')
def timeouts_caught(rep):
    for cls in machine_classes(rep.prog):
        edges = set()

        def on_event(ip, ev, st):
            if ev.kind in ('qfull', 'qempty'):
                edges.add((ev.kind, ev.func))
                rep.count('timeout edges')
            elif ev.kind == 'call' and ev.name == '.wait':
                edges.add(('wait', ev.func))
        ex = explore(rep, cls, on_event=on_event)
        bad = set()
        for cur, target, exc, st, fn in ex.crashes:
            if exc in ('queue.Full', 'queue.Empty', 'subprocess.TimeoutExpired'):
                where = fn.qual if fn else show(target)
                if (where, exc) not in bad:
                    bad.add((where, exc))
                    rep.bad('uncaught-timeout', f'{cls.name}: {where}: {exc}', f'{exc} leaves {where} and ends the {cls.name} thread',
                            fn.where if fn else cls.where, st.path()[-12:])
        for kind, func in sorted(edges):
            if not any(func in w for w, _ in bad):
                rep.ok('timeout-caught', f'{cls.name}: {kind} in {func}')
    rep.floor('queue timeout edges', rep.counts.get('timeout edges', 0), 10)


# -- C10: shape of the machines, stop requests ------------------------------------------------------------------------


@rule('C10', technique='reachability over the abstract state machines; abstract interpretation of the stop protocol',
      explanation='All reachable configurations of each machine are enumerated: each state has an action, each action returns a '
                  'member of the machine\'s own states, and HALT can be reached from every configuration. The step function is '
                  'interpreted with the halt flag set (no action runs, HALT is returned), and stop() of each worker '
                  'thread is shown to set that flag on its machine.')
def shape(rep):
    prog = rep.prog
    endless = {'AutoScaler'}
    for cls in machine_classes(prog):
        own = states_enum(prog, cls)
        ex = explore(rep, cls)
        seen_bad = False
        for step in ex.steps:
            if step.action is None:
                rep.bad('no-action', f'{cls.name}: {show(step.source)}', f'{cls.name} has no action for state {show(step.source)}',
                        cls.where, step.state.path()[-10:])
                seen_bad = True
            elif step.target is None or step.target[0] != 'm' or step.target[1] != own.qual:
                name = step.fn.qual if step.fn else show(step.action)
                rep.bad('bad-target', f'{cls.name}: {name}', f'{name} returns {show(step.target) if step.target else None}, '
                        f'which is not a state of {own.name}', step.fn.where if step.fn else cls.where, step.state.path()[-10:])
                seen_bad = True
        if not seen_bad:
            rep.ok('states', cls.name, f'{len(ex.actions_map)} states with an action, {ex.configs} configurations')
        stuck = sorted({show(c) for c in ex.stuck()})
        if cls.name in endless:
            rep.notes.append(f'{cls.name} runs until it is stopped')
        elif not seen_bad:
            rep.check('halts', cls.name, not stuck, f'{cls.name} can never end once it reached {", ".join(stuck)}', cls.where)
        check_next(rep, cls)
    n = 0
    for tcls, (attr, mcls) in sorted(wrappers(prog).items(), key=lambda x: x[0].qual):
        got = assigned_by(prog, tcls, attr, 'stop')
        flagged = any(a == HALT_FLAG and v == TRUE for a, v in got)
        rep.check('stop-reaches-machine', tcls.qual, flagged, f'{tcls.name}.stop() does not tell its {mcls.name} to halt', tcls.where)
        runs = ran_by(prog, tcls, attr, mcls)
        rep.check('runs-machine', tcls.qual, runs, f'{tcls.name}.run_with_exceptions() does not run its {mcls.name}', tcls.where)
        n += 1
    rep.floor('worker threads', n, 10)


def states_enum(prog, cls):
    for c in cls.mro:
        if 'states' in c.assigns:
            got = prog.resolve_expr(c.assigns['states'], c.module, c)
            if hasattr(got, 'is_enum'):
                return got
    raise AnalysisBroken(f'{cls.qual}: no states enumeration')


def action_functions(prog, cls, ip, made):
    """The functions in the table of actions."""
    out = []
    for selfv, st in made[:1]:
        for table, s in ip.get_attr(selfv, 'actions', st.copy(), cls.node):
            if table[0] == 'd':
                out += [prog.functions.get(x[1]) for _, x in s.heap[table[1]].attrs if x[0] == 'f']
    return out


def check_next(rep, cls):
    """With the halt flag set the next state is HALT and no action runs; run() ends at HALT only."""
    prog = rep.prog
    nxt, run = cls.method('next'), cls.method('run')
    halt = cls.method('halt')
    if nxt is None or run is None or halt is None:
        raise AnalysisBroken(f'{cls.qual}: next, run or halt vanished')
    ip, made = construct(prog, cls)
    own = states_enum(prog, cls)
    called = []
    stub = {}
    acts = action_functions(prog, cls, ip, made)
    for fn in acts:
        if fn is not None:
            stub[fn.qual] = lambda ip, fn, args, kwargs, st, node: called.append(fn.qual) or [(S(('action', fn.qual)), st)]
    ip.summaries = {**ip.summaries, **stub}
    for selfv, st in made[:2]:
        s = st.copy()
        rets, _ = ip.run_function(halt, [selfv], [], s)
        for _, s2 in rets:
            called.clear()
            res, raised = ip.run_function(nxt, [selfv], [], s2.copy())
            good = res and not raised and not called and all(v == ('m', own.qual, 'HALT') for v, _ in res)
            rep.check('stop-honoured', f'{cls.name}.next', good, f'{cls.name}.next() does not return HALT at once after halt()',
                      nxt.where)
        called.clear()
        res, raised = ip.run_function(nxt, [selfv], [], st.copy())
        rep.check('action-runs', f'{cls.name}.next', bool(called) and all(v[0] == 's' and v[1][0] == 'action' for v, _ in res),
                  f'{cls.name}.next() does not run the action of the current state', nxt.where)
        # run(): ends as soon as, and only if, the state is HALT
        steps = []

        def fake(ip, fn, args, kwargs, st, node):
            steps.append(1)
            a = st.copy()
            return [(('m', own.qual, 'HALT'), st), (('m', own.qual, 'START'), a)]
        ip2 = Interp(prog, summaries={nxt.qual: fake})
        res, _ = ip2.run_function(run, [selfv], [], st.copy())
        ends = {show(ip2.get_attr(selfv, 'state', s3, run.node)[0][0]) for _, s3 in res}
        rep.check('run-until-halt', f'{cls.name}.run', bool(steps) and bool(ends) and all('HALT' in e for e in ends),
                  f'{cls.name}.run() can return in another state than HALT ({sorted(ends)})', run.where)


def ran_by(prog, tcls, attr, mcls):
    ip, made = construct(prog, tcls)
    hit = []
    run = mcls.method('run')
    for selfv, st in made:
        target = st.heap[selfv[1]].attrs.get(attr)
        ip.summaries = {run.qual: lambda ip, fn, args, kwargs, s, node: hit.append(args[0] == target) or [(NONE, s)]}
        fn = tcls.method('run_with_exceptions')
        before = len(hit)
        rets, _ = ip.run_function(fn, [selfv], [], st.copy())
        if not rets or len(hit) == before:
            return False
    return bool(hit) and all(hit)
