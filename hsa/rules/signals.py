"""Signal escalation, early shutdown signals, heartbeats, eviction, end of scheduling."""

from __future__ import annotations

from ..interp import C, S, NONE, TRUE, FALSE, HObj, is_const, cval, mentions, show
from ..machine import Explorer, machine_classes
from ..model import AnalysisBroken
from ..report import rule
from .flow import machine, param_fact, is_now, is_param
from .machines import explore, volatile_of, once

SIG = {'SIGINT': 'INT', 'SIGTERM': 'TERM', 'SIGKILL': 'KILL'}


def signal_of(ev):
    """Which signal this call sends to the task's process."""
    if ev.kind != 'call':
        return None
    if ev.name in ('.terminate', '.kill') and not ev.args:
        return {'.terminate': 'TERM', '.kill': 'KILL'}[ev.name]
    if ev.name in ('.send_signal', 'os.kill', 'os.killpg') and ev.args:
        last = show(ev.args[-1]).split('.')[-1]
        return SIG.get(last, last)
    return None


def compares(ev, limit_pred, other_pred=None):
    """(limit reached?, limit term) when the event compares something with such a limit."""
    if ev.kind != 'cond' or ev.name != 'lt' or len(ev.args) != 2:
        return None
    for limit, other, met in ((ev.args[1], ev.args[0], not ev.value), (ev.args[0], ev.args[1], bool(ev.value))):
        if mentions(limit, limit_pred) and not mentions(other, limit_pred):
            if other_pred is None or mentions(other, other_pred):
                return met, limit
    return None


def is_signal_check(ev, name):
    return ev.kind == 'cond' and ev.name in ('eq', 'in') and any(show(a).endswith('.' + name) for a in ev.args) \
        and any(mentions(a, lambda t: t[:1] == ('vol',)) for a in ev.args)


class Watch:
    """Collects violations of a monitor on one machine."""

    def __init__(self, rep, cls):
        self.rep, self.cls, self.bad_rules = rep, cls, set()

    def bad(self, rule, construct, message, st, where=None):
        self.bad_rules.add(rule)
        self.rep.bad(rule, f'{self.cls.name}: {construct}', message, where or self.cls.where, st.path()[-25:])

    def fine(self, *rules, detail=''):
        for r in rules:
            if r not in self.bad_rules:
                self.rep.ok(r, self.cls.name, detail)


ORDER = ('INT', 'TERM', 'KILL')


@rule('C15', technique='path-sensitive typestate of signals over the abstract state machine', level='other',
      explanation='On every path of the executor machine the signals sent to one process are a prefix of INT, TERM, KILL; the '
                  'first is sent only after the walltime limit or SIGUSR2, each further one only after the waiting period was '
                  'compared again and found to be over; waiting for the process never skips these comparisons.')
def escalation(rep):
    cls = machine(rep.prog, 'TaskExecutor')
    w = Watch(rep, cls)
    sent_ever, seqs = set(), set()
    # mon: (signals sent, stop reason, limits met since last signal, limits used before, look, waited)
    start = ((), False, frozenset(), frozenset(), frozenset())

    def on_event(ip, ev, st):
        sent, reason, met, used, due = st.mon
        if ev.kind == 'call' and ev.name == 'subprocess.Popen':
            st.mon = start
            return
        sig = signal_of(ev)
        if sig:
            sent_ever.add(sig)
            want = ORDER[len(sent)] if len(sent) < len(ORDER) else None
            if sig != want:
                w.bad('signal-order', ev.fn.qual, f'SIG{sig} is sent after {list(sent) or "no signal"}', st, ev.where)
            elif not reason:
                w.bad('signal-without-reason', ev.fn.qual, f'SIG{sig} is sent although neither the walltime limit was exceeded nor '
                      f'SIGUSR2 received', st, ev.where)
            elif sent and not met:
                w.bad('signal-too-early', ev.fn.qual, f'SIG{sig} is sent without waiting after SIG{sent[-1]}', st, ev.where)
            elif sent and met <= used:
                w.bad('signal-too-early', ev.fn.qual, f'SIG{sig} needs no longer wait than SIG{sent[-1]}', st, ev.where)
            st.mon = ((sent + (sig,))[-4:], reason, frozenset(), used | met, frozenset())
            seqs.add(st.mon[0])
            return
        got = compares(ev, is_param('signalwait'))
        if got:
            st.mon = (sent, reason, met | {got[1]} if got[0] else met, used, due - {'limit'})
            return
        got = compares(ev, is_param('timeout'))
        if got:
            st.mon = (sent, reason or got[0], met, used, due - {'timeout'})
            return
        if is_signal_check(ev, 'SIGUSR2'):
            st.mon = (sent, reason or bool(ev.value), met, used, due - {'signal'})
            return
        if ev.kind == 'call' and ev.name in ('.wait', '.poll') and ev.recv is not None and 'Popen' in show(ev.recv):
            if not reason:
                if 'timeout' in due and not no_timeout(st):
                    w.bad('walltime-unchecked', ev.fn.qual, 'the process is waited for again without looking at the walltime limit',
                          st, ev.where)
                if 'signal' in due:
                    w.bad('signal-unchecked', ev.fn.qual, 'the process is waited for again without looking for SIGUSR2', st, ev.where)
                due = frozenset({'timeout', 'signal'})
            else:
                if 'limit' in due:
                    w.bad('escalation-stalls', ev.fn.qual, 'the process is waited for again without sending a signal or looking at '
                          'the waiting period although the task is to be stopped', st, ev.where)
                elif len(sent) < 3 and not (met <= used):
                    w.bad('escalation-stalls', ev.fn.qual, f'the waiting period is over but no signal follows {list(sent)}', st, ev.where)
                due = frozenset({'limit'}) if sent or due else frozenset({'limit'})
            st.mon = (sent, reason, met, used, due)

    def no_timeout(st):
        return any(k[0] == 'isnone' and v and mentions(k, is_param('timeout')) for k, v in st.facts.items()) \
            or param_fact(st, 'timeout') is False

    explore(rep, cls, on_event=on_event, mon0=start)
    w.fine('signal-order', 'signal-without-reason', 'signal-too-early', 'walltime-unchecked', 'signal-unchecked',
           'escalation-stalls', detail=f'sequences {sorted(seqs)}')
    for sig in ORDER:
        rep.check('signal-reachable', f'{cls.name}: SIG{sig}', sig in sent_ever, f'no path of the executor sends SIG{sig}', cls.where)
    from .lengths import lengths
    lengths(rep, ('timeout', 'signalwait'))


# -- C16: early shutdown on request -----------------------------------------------------------------------------------


@rule('C16', technique='path-sensitive typestate over the abstract state machines', level='other',
      explanation='On every path of both scheduler machines the received signal is looked at between two bundles; once SIGUSR1 or '
                  'SIGUSR2 was seen (stand-alone clients only on the client side) no further bundle is taken or selected and the '
                  'machine halts after passing on what it holds. The executor stops its task for SIGUSR2 only.')
def signals(rep):
    for name, takes in (('ClientScheduler', 'get'), ('Scheduler', 'select')):
        cls = machine(rep.prog, name)
        w = Watch(rep, cls)
        caught, looked = set(), set()
        # mon: (signals compared since the last take, told to stop)
        start = (frozenset(), False)

        def on_event(ip, ev, st):
            seen, told = st.mon
            for sig in ('SIGUSR1', 'SIGUSR2'):
                if is_signal_check(ev, sig):
                    seen = seen | {sig}
                    looked.add(sig)
                    if ev.value:
                        seen, told = seen | {'SIGUSR1', 'SIGUSR2'}, True
            if ev.kind == 'cond' and ev.name == 'truth' and not ev.value and told and 'STANDALONE' in show(ev.args[0]).upper():
                told = False      # a client started by a cluster ignores the signal here
            if (ev.kind == takes or (takes == 'get' and ev.kind == 'qempty')) and (takes != 'get' or ev.name == 'scheduled'):
                if told:
                    w.bad('takes-after-signal', ev.fn.qual, 'another bundle is taken although the shutdown signal was seen', st, ev.where)
                elif not {'SIGUSR1', 'SIGUSR2'} <= seen:
                    w.bad('signal-unchecked', ev.fn.qual, 'a bundle is taken without looking for '
                          + ' and '.join(sorted({'SIGUSR1', 'SIGUSR2'} - seen)), st, ev.where)
                if ev.kind != 'qempty':
                    seen = frozenset()
                elif ev.kind == 'qempty':
                    seen = frozenset()
            st.mon = (seen, told)

        def on_step(ex, step):
            if step.state.mon[1]:
                caught.add(show(step.target))

        explore(rep, cls, on_event=on_event, mon0=start, on_step=on_step)
        w.fine('takes-after-signal', 'signal-unchecked')
        rep.check('signal-halts', cls.name, any('HALT' in c for c in caught), f'{cls.name} never ends because of a signal', cls.where)
    # SIGUSR1 lets running tasks finish
    cls = machine(rep.prog, 'TaskExecutor')
    reacts = []

    def on_event(ip, ev, st):
        if is_signal_check(ev, 'SIGUSR1') and ev.value:
            st.mon = True
            reacts.append(ev)
        elif ev.kind == 'call' and ev.name == 'subprocess.Popen':
            st.mon = False
        elif signal_of(ev) and st.mon:
            rep.bad('usr1-stops-task', f'{cls.name}: {ev.fn.qual}', 'SIGUSR1 must let running tasks finish but leads to a signal being '
                    'sent to the task', ev.where, st.path()[-15:])
    explore(rep, cls, on_event=on_event, mon0=False)
    rep.ok('usr1-stops-task', cls.name, f'{len(reacts)} places where the executor reacts to SIGUSR1')
    # both signals are registered
    fn = rep.prog.func('hypershell.core.signal.register_handlers')
    from ..interp import Interp, State
    got = set()

    def on_call(ip, ev, st):
        if ev.kind == 'call' and ev.name == 'signal.signal' and len(ev.args) == 2:
            got.add((show(ev.args[0]).split('.')[-1], ev.args[1]))
    ip = Interp(rep.prog, on_event=on_call)
    ip.run_function(fn, [], [], State())
    for sig in ('SIGUSR1', 'SIGUSR2'):
        handlers = [h for s, h in got if s == sig]
        rep.check('handler-registered', sig, len(handlers) == 1, f'no handler is registered for {sig}', fn.where)
        for h in handlers:
            rep.check('handler-stores', sig, h[0] == 'f' and stores_signal(rep.prog, h), f'the handler of {sig} does not record the '
                      f'signal where check_signal() looks', fn.where)


def stores_signal(prog, h):
    """After the handler ran, check_signal() returns the signal number."""
    from ..interp import Interp, State
    fn = prog.functions[h[1]]
    check = prog.func('hypershell.core.signal.check_signal')
    num = S(('signal', 'number'), 'builtins.int')
    stored = set()

    def on_event(ip, ev, st):
        if ev.kind == 'setglobal':
            st.mon = frozenset(m for m in st.mon if m[0] != ev.name) | {(ev.name, ev.value)}
    ip = Interp(prog, on_event=on_event)
    st = State()
    st.mon = frozenset()
    rets, _ = ip.run_function(fn, [num, NONE], [], st)
    # every value returned when none is known: the global itself
    read, _ = Interp(prog).run_function(check, [], [], State())
    names = {v[1][1] for v, _ in read if v[0] == 's' and v[1][0] == 'vol'}
    return bool(rets) and len(names) == 1 and all((n, num) in s.mon for _, s in rets for n in names)


# -- C17: client heartbeats -------------------------------------------------------------------------------------------

HB = 'hypershell.core.heartbeat.Heartbeat'


def hb_state(v):
    found = []

    def pred(t):
        if t[:1] == ('hb',):
            found.append(t[1][2] if t[1][0] == 'm' else '?')
        return False
    mentions(v, pred)
    return found[0] if found else '?'


def with_zone(v):
    """Whether a moment says which time zone it is in."""
    return not (v[0] == 's' and v[1][0] == 'fresh' and str(v[1][1]).endswith(('datetime.now', 'datetime.utcnow')) and len(v[1]) < 3)


def zones(ip, f, name, recv, args, kwargs, st, node):
    """Moments are told apart by whether they have a time zone."""
    if name and name.endswith('.astimezone') and recv is not None and recv[0] == 's' and recv[1][0] == 'fresh' and len(recv[1]) < 3:
        return [(S((*recv[1], 'with its zone'), recv[2] if len(recv) > 2 else None), st)]
    if name == 'datetime.datetime.now' and (args or kwargs):
        return [(S(('fresh', name, 'with a zone'), 'datetime.datetime'), st)]
    return None


@rule('C17', technique='path-sensitive typestate over the abstract state machine', level='other',
      explanation='On every path of the heartbeat machine, for all orders of full queues and of the finish request: the machine '
                  'halts only after a heartbeat with state FINISHED was accepted by the queue, sends nothing after it, never stops '
                  'while running, and sends the next heartbeat when the period is over or the finish request came.')
def heartbeat(rep):
    cls = machine(rep.prog, 'ClientHeartbeat')
    prog = rep.prog
    w = Watch(rep, cls)
    vol = volatile_of(prog, cls)
    vol = {k: ([S(('vol',) + k, 'builtins.bool')] if all(v in (TRUE, FALSE) for v in vals) else vals) for k, vals in vol.items()}
    rep.check('finish-request', cls.name, any(len(v) > 1 or v[0][0] == 's' for v in vol.values()),
              'no thread method tells the heartbeat machine that the client is finished', cls.where)
    sent = set()
    # mon: (state sent last, period over or finish requested since, looked at the request,
    # period was over and not measured from a new moment yet)
    start = (None, True, False, False)

    def pack(ip, fn, args, kwargs, st, node):
        for v, s in ip.get_attr(args[0], 'time', st, node):
            rep.check('moment', cls.name, mentions(v, is_now) and with_zone(v), f'a heartbeat says it is of {show(v)[:120]}, '
                      'which is not the present moment with its time zone: the server measures the silence of clients from it', cls.where)
        return [(S(('hb', v)), s) for v, s in ip.get_attr(args[0], 'state', st, node)]

    def on_event(ip, ev, st):
        last, due, looked, stale = st.mon
        if ev.kind == 'put' and ev.name == 'heartbeat':
            got = hb_state(ev.args[0])
            sent.add(got)
            if last == 'FINISHED':
                w.bad('after-finished', ev.fn.qual, 'a heartbeat is sent after the final one', st, ev.where)
            elif last is not None and got == 'RUNNING' and not due:
                w.bad('pace', ev.fn.qual, 'a heartbeat is sent although the period is not over', st, ev.where)
            st.mon = (got, False, False, stale)
            return
        if ev.kind == 'setattr' and ev.recv == ('o', 'self') and ev.value is not None and mentions(ev.value, is_now):
            stale = False
        elif ev.kind == 'cond' and ev.name == 'truth' and mentions(ev.args[0], lambda t: t[:1] == ('vol',)):
            looked, due = True, due or bool(ev.value)
        elif ev.kind == 'cond' and ev.name == 'eq' and any(a[0] == 'm' and a[1].endswith('ClientState') for a in ev.args):
            looked = True
        got = compares(ev, is_param('heartrate'))
        if got:
            kept = [v for v in st.heap['self'].attrs.values() if isinstance(v, tuple) and v[:1] == ('s',) and mentions(v, is_now)]
            if stale and any(mentions(a, lambda t: t == v[1]) for v in kept for a in ev.args):
                w.bad('period-restarted', ev.fn.qual, 'the period is measured from the same moment again after it was over', st, ev.where)
            if got[0]:
                due = stale = True
            st.mon = (last, due, looked, stale)
            return
        if ev.kind == 'call' and ev.name == 'time.sleep':
            if not looked:
                w.bad('finish-delayed', ev.fn.qual, 'the machine sleeps without looking for the finish request', st, ev.where)
            if due:
                w.bad('overdue', ev.fn.qual, 'the machine sleeps although the next heartbeat is due', st, ev.where)
            looked = False
        st.mon = (last, due, looked, stale)

    def on_step(ex, step):
        if step.target is not None and step.target[0] == 'm' and step.target[2] == 'HALT' and step.state.mon[0] != 'FINISHED':
            w.bad('no-final-heartbeat', step.fn.qual if step.fn else cls.name, f'the machine halts after sending '
                  f'{step.state.mon[0] or "nothing"}; the server never learns that the client finished', step.state)
    ex = Explorer(prog, cls, on_event=on_event, volatile=vol, summaries={prog.cls(HB).method('pack').qual: pack})
    ex.mon0 = start
    ex.on_step = on_step
    ex.ip.extern_hook = zones
    ex.run()
    rep.saw(ex.ip)
    rep.count('machine configurations', ex.configs)
    w.fine('after-finished', 'pace', 'period-restarted', 'finish-delayed', 'overdue', 'no-final-heartbeat')
    for s in ('RUNNING', 'FINISHED'):
        rep.check('heartbeat-sent', f'{cls.name}: {s}', s in sent, f'no heartbeat with state {s} is ever sent', cls.where)
    from .lengths import lengths
    lengths(rep, ('heartrate',))


# -- C18: registration, disconnect, eviction --------------------------------------------------------------------------

CLIENT, OTHER = C('client-1'), C('client-2')
STATES = 'hypershell.core.heartbeat.ClientState'


def changes_of(ip, v, st):
    """The dictionaries passed to a bulk update: [{name: value}] or None."""
    ent = ip.entries(v, st)
    if ent is None:
        return None
    out = []
    for _, x in ent:
        if x[0] != 'd':
            return None
        out.append({(cval(k) if k is not None and is_const(k) else show(k) if k else None): val for k, val in st.heap[x[1]].attrs})
    return out


def registered(st, who=CLIENT):
    """Is the client among the keys of a dictionary the machine owns?"""
    for v in st.heap['self'].attrs.values():
        if v[0] == 'd' and any(k == who for k, _ in st.heap[v[1]].attrs):
            return True
    return False


def in_seconds(ip, f, name, recv, args, kwargs, st, node):
    """A length of time in seconds is still that length."""
    if (name or '').rsplit('.', 1)[-1] == 'total_seconds' and recv is not None:
        return [(S(('seconds', recv), 'builtins.float'), st)]
    return None


def monitor_rule(rep, late, two=False):
    prog = rep.prog
    cls = machine(prog, 'HeartMonitor')
    w = Watch(rep, cls)
    vol = {}
    if not late:
        for k, vals in volatile_of(prog, cls).items():
            vol[k] = [S(('vol',) + k, 'builtins.bool')] if all(v in (TRUE, FALSE) for v in vals) else vals
    seen = {'add': 0, 'update': 0, 'disconnect': 0, 'evict': 0, 'revert': 0, 'signal': 0}
    # mon: (last event, registered before it, writes, signals since registration, attempted, found, over, done, credit, looked)
    start = ('none', False, (), 0, False, None, None, None, 0, True)

    def unpack(ip, fn, args, kwargs, st, node):
        out = []
        for who, state in ((CLIENT, 'RUNNING'), (CLIENT, 'FINISHED'), (OTHER, 'RUNNING'), (OTHER, 'FINISHED')):
            if who == OTHER and not two:
                continue
            s = st.copy()
            ref = ip.alloc(s, HObj('obj', HB, {'uuid': who, 'host': C('host'), 'time': S(('hbtime',), 'datetime.datetime'),
                                                'state': ('m', STATES, state)}), node, hint='Heartbeat')
            was = registered(s)
            judge(ip, s, node)
            if state == 'RUNNING' and not registered(s, who):
                s.mon = s.mon[:8] + (min(s.mon[8] + 1, 2), s.mon[9])
            if who == OTHER:
                s.mon = ('other', was, (), s.mon[3], False, None, None, None, s.mon[8], s.mon[9])
                out.append((('o', ref), s))
                continue
            n = s.mon[3] if was else (0 if late or not s.mon[3] else -1)     # -1: signalled in an earlier registration
            s.mon = (state, was, (), n, False, None, None, None, s.mon[8], s.mon[9])
            s.note(f'heartbeat {state} from a client that is {"known" if was else "new"}')
            out.append((('o', ref), s))
        return out

    def judge(ip, st, node, at_get=False):
        """Everything that must have happened since the last heartbeat."""
        last, was, writes, signals, attempted, found, over, done, credit, looked = st.mon
        now = registered(st)
        mem = param_fact(st, 'in_memory')
        where = ip.fn.where if ip.fn else cls.where
        if two:
            return
        expect = ()
        evicted = 'evict' in writes or over
        if last == 'RUNNING' and not was:
            expect = ('update',) if found else ('add',)
            if not now and not evicted:
                w.bad('not-registered', cls.qual, 'a client that sends a heartbeat is not kept', st)
        elif last == 'FINISHED' and was:
            expect = ('disconnect',)
            if now:
                w.bad('not-removed', cls.qual, 'a client that finished is still kept as connected', st)
        elif last == 'FINISHED' and not was and now:
            w.bad('registered-finished', cls.qual, 'a finished client is registered', st)
        elif last in ('RUNNING', 'none') and was and not now and not over:
            w.bad('forgotten', cls.qual, 'a client is dropped although it is not overdue', st)
        if over and now and last == 'RUNNING':
            w.bad('not-evicted', cls.qual, 'an overdue client is not evicted', st)
        if over:
            expect = expect + (('evict', 'revert') if param_fact(st, 'no_confirm') is not True else ('evict',))
            if param_fact(st, 'no_confirm') is None and mem is not True and 'revert' not in writes:
                pass
        if mem is True:
            if writes:
                w.bad('memory-writes', cls.qual, f'the database is written ({", ".join(writes)}) although it is disabled', st)
        elif tuple(writes) != tuple(expect):
            w.bad('bookkeeping', cls.qual, f'after a {last} heartbeat of a {"known" if was else "new"} client'
                  + (' that is overdue' if over else '') + f' the database operations are {list(writes)}, expected {list(expect)}', st)

    def on_event(ip, ev, st):
        last, was, writes, signals, attempted, found, over, done, credit, looked = st.mon
        if ev.kind == 'db':
            kind = None
            if ev.name == 'add_all':
                kind = 'add'
            elif ev.name == 'update_all':
                ch = changes_of(ip, ev.args[0], st)
                for c in ch or [{}]:
                    gone, ev2 = c.get('disconnected_at'), c.get('evicted')
                    if gone == NONE and ev2 == FALSE:
                        kind = 'update'
                    elif gone is not None and gone != NONE and ev2 == TRUE:
                        kind = 'evict'
                    elif gone is not None and gone != NONE and (ev2 is None or ev2 == FALSE):
                        kind = 'disconnect'
                    else:
                        kind = f'other update {sorted(c)}'
                    ident = c.get('id')
                    if ident is not None and ident != CLIENT and not mentions(ident, lambda t: t == CLIENT or t[:2] == ('fresh', 'db')
                                                                               or t[:1] == ('o',)):
                        kind = f'{kind} of another client'
            elif ev.name == 'revert_orphaned':
                kind = 'revert' if ev.args and ev.args[0] == CLIENT else 'revert of another client'
            else:
                kind = ev.name
            writes = writes + (kind,)
            for k in seen:
                if kind.startswith(k):
                    seen[k] += 1
        elif ev.kind == 'dbread' and ev.name == 'from_id':
            found = True
        elif ev.kind == 'notfound':
            found = False
        elif ev.kind in ('put', 'qfull') and ev.name == 'scheduled':
            if ev.args[0] != NONE:
                w.bad('signal-form', ev.fn.qual, 'something else than the disconnect request is put on the scheduling queue', st, ev.where)
            attempted = True
            if ev.kind == 'put':
                seen['signal'] += 1
                signals = min(signals + 1, 2) if signals >= 0 else signals
                credit -= 1
                if credit < 0 and late:
                    w.bad('signalled-twice', ev.fn.qual, 'one client is sent two disconnect requests; the second one ends another '
                          'client\'s work or blocks the queue', st, ev.where)
                credit = max(credit, 0)
                if not registered(st) and not registered(st, OTHER):
                    w.bad('signalled-unknown', ev.fn.qual, 'a disconnect request is sent for a client that is not connected', st, ev.where)
        elif ev.kind == 'get' and ev.name == 'heartbeat' or ev.kind == 'qempty' and ev.name == 'heartbeat':
            if ev.kind == 'get':
                if late and registered(st) and signals == 0 and not attempted:
                    w.bad('not-signalled', cls.qual, 'scheduling is over but the monitor waits for heartbeats without having sent a '
                          'disconnect request to a connected client', st, ev.where)
                if not late and done and registered(st) and not attempted and signals == 0:
                    w.bad('request-ignored', cls.qual, 'the monitor saw the request to disconnect clients but waits for the next '
                          'heartbeat first', st, ev.where)
            if ev.kind == 'get' and registered(st) and not looked and not two:
                w.bad('period-unchecked', ev.fn.qual, 'the next heartbeat is read without looking whether clients must be checked; a '
                      'silent client is never evicted', st, ev.where)
            attempted, done, looked = False, None, not registered(st)
        elif ev.kind == 'cond' and ev.name == 'truth' and not late and ev.value and mentions(ev.args[0], lambda t: t[:1] == ('vol',)
                                                                                           and t[-1] == 'should_signal'):
            done = True
        else:
            got = compares(ev, is_param('evict_after'))
            aged = got and any(mentions(a, lambda t: t == ('hbtime',)) for a in ev.args)
            if aged and got[0]:
                over = True
            elif got and not aged:
                looked = True
        st.mon = (last, was, writes, signals, attempted, found, over, done, credit, looked)

    def get_hook(ip, chan, st, node):
        return [(C(b'beat'), st)]

    def on_step(ex, step):
        st = step.state
        if step.target is not None and step.target[0] == 'm' and step.target[2] in ('HALT',):
            if registered(st):
                w.bad('ends-early', step.fn.qual if step.fn else cls.qual, 'the monitor ends while a client is still connected; its '
                      'results would be lost', st)
            if st.mon[0] == 'none':
                w.bad('ends-before-first-client', cls.qual, 'the monitor ends before any client has registered', st)

    ex = Explorer(prog, cls, on_event=on_event, volatile=vol, summaries={prog.cls(HB).method('unpack').qual: unpack})
    ex.mon0 = start
    ex.on_step = on_step
    ex.ip.get_hook = get_hook
    ex.ip.extern_hook = in_seconds
    if late:
        initial = ex.initial

        def after_scheduling():
            out = []
            for s in initial():
                o = s.heap['self']
                for sig in (TRUE, FALSE):
                    s2 = s.copy()
                    attrs = dict(o.attrs)
                    for (q, name), vals in volatile_of(prog, cls).items():
                        if set(vals) <= {TRUE, FALSE}:
                            attrs[name] = TRUE if 'signal' not in name else sig
                    s2.heap['self'] = HObj(o.kind, o.cls, attrs, o.opaque)
                    out.append(s2)
            return out
        ex.initial = after_scheduling
    if two:
        ex.stop_if = lambda ex, st: param_fact(st, 'in_memory') is False
    ex.run()
    rep.saw(ex.ip)
    rep.count('machine configurations', ex.configs)
    for k, n in seen.items():
        rep.count(k, n)
    return w, seen


@rule('C18', technique='path-sensitive typestate of one client over the abstract state machine', level='other',
      explanation='The heart monitor is explored with one client that may send heartbeats, fall silent, finish or register again '
                  'at any point. Registration, disconnect and eviction are each recorded in the database exactly when they '
                  'happen, evicted clients have their tasks reverted, a connected client is sent exactly one disconnect request '
                  'once scheduling is over (also when it registers late or the queue is full), and the monitor does not end '
                  'before every client has gone.')
def monitor(rep):
    for late, two in ((False, False), (True, False), (True, True)):
        w, seen = monitor_rule(rep, late, two)
        if two:
            w.fine('signalled-twice', 'not-signalled', detail='two clients')
            continue
        w.fine('not-registered', 'not-removed', 'forgotten', 'not-evicted', 'memory-writes', 'bookkeeping', 'ends-early', 'period-unchecked',
               'ends-before-first-client', 'signal-form', 'signalled-unknown',
               *(('signalled-twice', 'not-signalled') if late else ('request-ignored',)))
        for k in ('add', 'update', 'disconnect', 'evict', 'revert', 'signal'):
            rep.check('covered', f'{w.cls.name}: {k}', seen[k] > 0, f'no path of the heart monitor does: {k}', w.cls.where)
    once(rep)
    from .silence import registered_as, silence
    silence(rep)
    registered_as(rep)
