"""Custody of tasks in the worker machines: nothing taken is lost, handed over twice, or handed over in the wrong form."""

from __future__ import annotations

from ..interp import C, S, NONE, is_const, cval, mentions, show
from ..machine import Custody, machine_classes, task_env_summary, expand_summary
from ..model import AnalysisBroken
from ..report import rule

TECH = 'path-sensitive ownership typestate over the abstract state machine'


def machine(prog, name):
    for c in machine_classes(prog):
        if c.name == name:
            return c
    raise AnalysisBroken(f'no state machine named {name}')


def param_fact(st, name):
    """What the path decided about a constructor parameter: True, False or None."""
    for key, val in st.facts.items():
        if key[0] in ('truth', 'isnone') and key[1][0] == 's' and key[1][1][0] == 'param' and key[1][1][-1] == name:
            if key[0] == 'truth':
                return val
            if val:
                return False
    return None


def run(rep, custody):
    custody.run()
    ex = custody.ex
    rep.saw(ex.ip)
    name = custody.cls.name
    if not custody.taken_at:
        raise AnalysisBroken(f'{name}: no place where an item is taken was found')
    rep.count('machine configurations', ex.configs)
    rep.count('transitions', len(ex.steps))
    rep.count('sources', len(custody.taken_at))
    rep.count('hand-overs', len(custody.delivered_at))
    rep.count('full-queue edges', len(custody.full_edges))
    for chan, fn in sorted(custody.taken_at):
        rep.ok('taken', f'{name}: {chan} in {fn}', 'the item is followed from here on every path')
    for chan, fn in sorted(custody.delivered_at):
        rep.ok('handed-over', f'{name}: {chan} in {fn}')
    for r in ('lost', 'lost-at-halt', 'duplicate', 'form', 'wrong-sink'):
        if not any(v['rule'] == r for v in custody.violations.values()):
            rep.ok(r, name, f'{ex.configs} configurations, {len(ex.steps)} transitions')
    for v in custody.violations.values():
        rep.bad(v['rule'], f'{name}: {v["construct"]}', v['message'], v['where'], v['path'])
    if not custody.delivered_at and not custody.violations:
        raise AnalysisBroken(f'{name}: no place where an item is handed over was found')
    return custody


def drop_if(param):
    """The drop is intended on paths where the constructor parameter is known to be set."""
    def exempt(custody, step, gone):
        return param_fact(step.state, param) is True
    return exempt


SUBMIT = {
    'Loader': ({'iter': 1}, {'local:*': {'task'}}),
    'DatabaseCommitter': ({'local:*': 'single'}, {'db:add_all': {'task'}}),
    'QueueCommitter': ({'local:*': 'single'}, {'scheduled': {'bytes'}}),
}


@rule('C01', technique=TECH, level='other',
      explanation='Every path of the abstract loader and committer machines is followed with one marked input line: it must be '
                  'handed on exactly once before the machine halts, whatever queue operation times out on the way.')
def submission(rep):
    for name, (src, snk) in SUBMIT.items():
        run(rep, Custody(rep.prog, machine(rep.prog, name), src, snk))
    from .counting import counted
    counted(rep)


class ClientSchedulerCustody(Custody):
    def extra_event(self, ip, ev, st):
        if ev.kind != 'put':
            return
        forms = self.tracked_forms(ev.args, st)
        if not forms:
            return
        unconfirmed = param_fact(st, 'no_confirm')
        if ev.name.startswith('local:'):
            if unconfirmed is not True and dict(st.mon[1]).get('confirmed', 0) == 0:
                self.bad('unconfirmed', ev.fn.qual, f'{ev.func} passes a task to the executors before its bundle was confirmed '
                         f'to the server', st, ev)
        elif ev.name == 'confirmed' and unconfirmed is not False:
            self.bad('needless-confirm', ev.fn.qual, f'{ev.func} confirms a bundle although confirmation may be disabled', st, ev)


@rule('C02', technique=TECH, level='other',
      explanation='The client scheduler is explored with one marked task in a received bundle; it must reach the local queue '
                  'exactly once, after exactly one confirmation unless confirmations are disabled.')
def client_scheduler(rep):
    c = run(rep, ClientSchedulerCustody(rep.prog, machine(rep.prog, 'ClientScheduler'), {'scheduled': 'bundle'},
                                        {'local:*': {'task'}, 'confirmed': {'id'}}, secondary=('confirmed',)))
    rep.check('confirmation-reached', 'ClientScheduler', any(ch == 'confirmed' for ch, _ in c.delivered_at),
              'no path confirms a received bundle to the server', c.cls.where)


class ExecutorCustody(Custody):
    NEEDED = ('exit_status', 'completion_time')

    def extra_event(self, ip, ev, st):
        flags = set(st.mon[2])
        if ev.kind == 'call' and ev.name == '.kill':
            flags.add('killed')
        if ev.kind == 'put' and ev.name.startswith('local:') and self.tracked_forms(ev.args, st):
            got = st.heap['$tracked'].attrs if '$tracked' in st.heap else {}
            for name in self.NEEDED:
                val = got.get(name)
                if val is None or val == NONE:
                    self.bad('incomplete', f'{ev.fn.qual}: {name}', f'{ev.func} returns a task whose {name.replace("_", " ")} was '
                             f'never set on this path', st, ev)
        st.mon = (st.mon[0], st.mon[1], tuple(sorted(flags)))


START_ERROR = 'builtins.OSError'


def may_fail(names):
    """These operations fail for some inputs (missing file or folder, argument list too long, …)."""
    def hook(ip, f, name, recv, args, kwargs, st, node):
        if name in names:
            ip.failing_sites = getattr(ip, 'failing_sites', 0) + 1
            ip.raise_sinks[-1].append((START_ERROR, S(('exc', START_ERROR)), st.copy()))
        return None
    return hook


def failing(summary):
    def run_summary(ip, fn, args, kwargs, st, node):
        ip.failing_sites = getattr(ip, 'failing_sites', 0) + 1
        ip.raise_sinks[-1].append((START_ERROR, S(('exc', START_ERROR)), st.copy()))
        return summary(ip, fn, args, kwargs, st, node)
    return run_summary


@rule('C03', technique=TECH, level='other',
      explanation='The executor machine is explored with one marked task; every path must return it exactly once with exit status '
                  'and completion time recorded, except after a kill signal the process survived.')
def executor(rep):
    def survived_kill(custody, step, gone):
        return 'killed' in step.state.mon[2] and not custody.delivered(step.state)
    c = ExecutorCustody(rep.prog, machine(rep.prog, 'TaskExecutor'), {'local:inbound': 'single'},
                        {'local:outbound': {'task'}}, exempt=survived_kill)
    ip = c.ex.ip
    ip.extern_hook = may_fail({'subprocess.Popen', 'builtins.open', 'io.open', 'os.open'})
    for q, fn in list(ip.summaries.items()):
        if fn in (task_env_summary, expand_summary):
            ip.summaries[q] = failing(fn)
    run(rep, c)
    sites = set()
    for source, target, exc, st, fn in c.ex.crashes:
        if exc == START_ERROR:
            where = fn.qual if fn else show(target)
            sites.add(where)
            if st.mon[0] and not c.delivered(st):
                rep.bad('lost-by-exception', f'TaskExecutor: {where}', 'an error while preparing or starting the process ends the '
                        'executor with the task in hand', fn.where if fn else '', st.path()[-20:])
    if not any(v['rule'] == 'lost-by-exception' for v in rep.violations):
        rep.ok('lost-by-exception', 'TaskExecutor', f'{ip.failing_sites} calls that can fail to prepare or start a task')
    rep.floor('calls that can fail while starting a task', ip.failing_sites, 1)
    rep.assume('A process that survives the kill signal is outside the property: its task is abandoned by design.')


@rule('C04', technique=TECH, level='other',
      explanation='The collector machine is explored with one marked finished task; every path must send it to the server exactly '
                  'once before halting, whatever remote queue operation times out.')
def collector(rep):
    run(rep, Custody(rep.prog, machine(rep.prog, 'ClientCollector'), {'local:*': 'single'}, {'completed': {'bytes'}}))


class ReceiverCustody(Custody):
    """Also: a failed task is written to the failure stream exactly when there is one."""

    def tracked_status(self, v):
        return v[0] == 's' and v[1][0] == 'attr' and v[1][2] == 'exit_status' and v[1][1][:2] == ('i', True)

    def extra_event(self, ip, ev, st):
        flags = dict(st.mon[2])
        if ev.kind == 'cond' and ev.name == 'eq' and len(ev.args) == 2:
            for a, b in (ev.args, ev.args[::-1]):
                if self.tracked_status(a) and b == C(0):
                    flags['failed'] = not ev.value
        elif ev.kind == 'cond' and ev.name == 'truth' and self.tracked_status(ev.args[0]):
            flags['failed'] = bool(ev.value)
        elif ev.kind == 'call' and ev.name in ('builtins.print', '.write', '.writelines'):
            dest = ev.kw('file') if ev.name == 'builtins.print' else ev.recv
            if dest is not None and dest[0] == 's' and dest[1][0] == 'param' and dest[1][-1] == 'redirect_failures':
                about = any(mentions(a, lambda t: t[:2] == ('i', True) or t[:3] == ('attr', ('i', True, 'task'), 'args'))
                            for a in ev.args)
                if about:
                    flags['printed'] = min(2, flags.get('printed', 0) + 1)
                    self.printed_at.add(ev.func)
        st.mon = (st.mon[0], st.mon[1], tuple(sorted(flags.items())))

    printed_at = frozenset()

    def at_end(self, step):
        flags = dict(step.state.mon[2])
        redirect = param_fact(step.state, 'redirect_failures')
        failed, printed = flags.get('failed'), flags.get('printed', 0)
        fn = step.fn.qual if step.fn else '?'
        if printed and failed is not True:
            self.bad('redirect', self.cls.qual, 'a task that did not fail is written to the failure stream', step.state)
        elif printed > 1:
            self.bad('redirect', self.cls.qual, 'a failed task is written to the failure stream twice', step.state)
        elif not printed and failed is not False and redirect is not False:
            self.bad('redirect', self.cls.qual, 'a failed task is not written to the failure stream on this path', step.state)


def in_memory_then_end(custody, step, gone):
    if param_fact(step.state, 'in_memory') is not True:
        return False
    halted = step.target is not None and step.target[0] == 'm' and step.target[2] == 'HALT'
    if gone or halted:
        custody.at_end(step)
    return True


@rule('C05', technique=TECH, level='other',
      explanation='The receiver and confirm machines are explored with one marked result: unless running in memory it must be '
                  'written to the database exactly once before the next bundle is taken, and be written to the failure stream '
                  'exactly when its exit status is not zero.')
def receiver(rep):
    c = ReceiverCustody(rep.prog, machine(rep.prog, 'Receiver'), {'completed': 'bundle'}, {'db:update_all': {'dict'}},
                        exempt=in_memory_then_end)
    c.printed_at = set()
    run(rep, c)
    if not any(v['rule'] == 'redirect' for v in c.violations.values()):
        rep.ok('redirect', 'Receiver', f'failures are written in {sorted(c.printed_at)}')
    run(rep, Custody(rep.prog, machine(rep.prog, 'Confirm'), {'confirmed': 'single'}, {'db:update_all': {'bytes'}},
                     exempt=drop_if('in_memory')))


@rule('C06', technique=TECH, level='other',
      explanation='The scheduler machine is explored with one marked selected task; every path must post it exactly once before '
                  'the next selection and before halting, whatever queue operation times out.')
def scheduler(rep):
    run(rep, Custody(rep.prog, machine(rep.prog, 'Scheduler'), {'db:next': 'x'}, {'scheduled': {'bytes'}}))


# -- buffers are flushed -----------------------------------------------------------------------------------------------


def is_now(t):
    return t[:1] == ('fresh',) and len(t) > 1 and isinstance(t[1], str) and (
        t[1].startswith('datetime') or t[1].startswith('time') or t[1] == 'total_seconds')


def is_param(name):
    return lambda t: t[:1] == ('param',) and t[-1] == name


class FlushCustody(Custody):
    """While an item is buffered, both limits are looked at between two reads, and a limit that is met is acted on."""

    def extra_event(self, ip, ev, st):
        flags = set(st.mon[2])
        if ev.kind in ('put', 'db', 'qfull') and self.tracked_forms(ev.args, st):
            flags.clear()
        elif ev.kind == 'cond' and ev.name == 'lt' and len(ev.args) == 2:
            for limit, other, met in ((ev.args[1], ev.args[0], not ev.value), (ev.args[0], ev.args[1], bool(ev.value))):
                if mentions(limit, is_param('bundlewait')) and mentions(other, is_now) and not mentions(other, is_param('bundlewait')):
                    flags.discard('wait')
                    self.looked.add(('waiting period', ev.func))
                    if met:
                        flags.add('due')
                if mentions(limit, is_param('bundlesize')) and mentions(other, lambda t: t[:1] in (('lenb',), ('len',))) or \
                        mentions(limit, is_param('bundlesize')) and is_const(other):
                    self.looked.add(('size', ev.func))
                    if met:
                        flags.add('due')
                    if met or limit is ev.args[1] or mentions(limit, lambda t: t[:1] in (('op',), ('bin',), ('neg',))) or \
                            mentions(other, lambda t: t[:1] in (('op',), ('bin',), ('neg',))):
                        flags.discard('size')  # otherwise the buffer may just have reached the size
        elif ev.kind == 'cond' and ev.name == 'eq' and len(ev.args) == 2 and any(mentions(x, is_param('bundlesize')) for x in ev.args):
            flags.discard('size')
            self.looked.add(('size', ev.func))
            if ev.value:
                flags.add('due')
        elif ev.kind == 'setattr' and ev.value is not None and mentions(ev.value, is_now) and ev.recv == ('o', 'self'):
            flags.add('reset')
        elif ev.kind in ('get', 'qempty') and ev.name.startswith('local:'):
            if ev.kind == 'get' and st.mon[0] and not self.delivered(st) and 'held' in flags and self.reachable(st):
                where = ev.fn.qual
                if 'due' in flags:
                    self.bad('not-flushed', where, 'a limit was reached but the next task is read before the buffer is pushed', st, ev)
                elif 'reset' in flags:
                    self.bad('timer-reset', where, 'the waiting period is restarted while a task is still buffered', st, ev)
                elif 'wait' in flags:
                    self.bad('wait-unchecked', where, 'the queue is read again without looking at the waiting period while a task '
                             'is buffered', st, ev)
                elif 'size' in flags:
                    self.bad('size-unchecked', where, 'the queue is read again without looking at the buffer size after a task '
                             'was added', st, ev)
            if st.mon[0] and not self.delivered(st):
                if 'held' not in flags:
                    flags = {'held', 'size'}
                flags.add('wait')
            else:
                flags = set()
        st.mon = (st.mon[0], st.mon[1], tuple(sorted(flags)))

    def get_hook(self, ip, chan, st, node):
        # flags are set by the event that precedes the hook; a later non-empty read refreshes the size obligation
        out = super().get_hook(ip, chan, st, node)
        for v, s in out:
            if s.mon[0] and not self.delivered(s):
                flags = set(s.mon[2])
                if 'held' not in flags:
                    flags = {'held', 'size', 'wait'}
                elif v != NONE:
                    flags.add('size')
                s.mon = (s.mon[0], s.mon[1], tuple(sorted(flags)))
        return out


@rule('C07', technique='path-sensitive typestate of buffer limits over the abstract state machine', level='other',
      explanation='While a marked task sits in the buffer of a committer or of the collector, every path from one read of the '
                  'incoming queue to the next must compare the elapsed time with the waiting period (also when the read timed '
                  'out) and the buffer length with the bundle size, and must push the buffer when either limit is met.')
def flush(rep):
    for name, src, snk in (('DatabaseCommitter', {'local:*': 'single'}, {'db:add_all': {'task'}}),
                           ('QueueCommitter', {'local:*': 'single'}, {'scheduled': {'bytes'}}),
                           ('ClientCollector', {'local:*': 'single'}, {'completed': {'bytes'}})):
        c = FlushCustody(rep.prog, machine(rep.prog, name), src, snk)
        c.looked = set()
        c.run()
        rep.saw(c.ex.ip)
        rep.count('machine configurations', c.ex.configs)
        mine = ('not-flushed', 'timer-reset', 'wait-unchecked', 'size-unchecked')
        for r in mine:
            if not any(v['rule'] == r for v in c.violations.values()):
                rep.ok(r, name)
        for what, fn in sorted(c.looked):
            rep.ok('limit', f'{name}: {what} in {fn}')
        for v in c.violations.values():
            if v['rule'] in mine:
                rep.bad(v['rule'], f'{name}: {v["construct"]}', v['message'], v['where'], v['path'])
        if not c.taken_at:
            raise AnalysisBroken(f'{name}: no place where a task is buffered was found')
