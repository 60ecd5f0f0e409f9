"""When an autoscaling cluster looks at its clients, and how many it launches."""

from __future__ import annotations

import itertools

from ..interp import HObj, C, S, NONE, is_const, cval, show, mentions
from ..machine import TASK
from ..model import AnalysisBroken
from ..report import rule
from .flow import machine
from .running import Client, ENVIRON, WANTED

FACTOR = S(('factor',), 'builtins.float')
PERIOD = S(('period',), 'builtins.float')
REGISTERED = S(('registered',), 'builtins.int')    # clients the database holds for connected, which lags behind
ARGV = ('srun', 'hs', 'client')
MOST = 60


class Scaler(Client):
    """The autoscaler among given task counts, with unknown clocks and unknown fates of its clients."""

    def __init__(self, prog, remaining, pressure):
        super().__init__(prog)
        task, client = prog.cls(TASK), prog.cls('hypershell.data.model.Client')
        for cls, name, value in ((task, 'count_remaining', remaining), (task, 'task_pressure', pressure), (client, 'count_connected', REGISTERED)):
            fn = cls.method(name)
            if fn is None:
                raise AnalysisBroken(f'{cls.qual}.{name} is gone')
            self.ip.summaries[fn.qual] = self.asked(name, value if isinstance(value, tuple) else C(value))

    def asked(self, name, value):
        def summary(ip, fn, args, kwargs, st, node):
            given = [a for a in args if a[0] not in ('k', 'o')] + [v for _, v in kwargs]
            self.mark(st, 'asked', name, None, given)
            return [(value, st)]
        return summary

    def running(self, ip, f, name, recv, args, kwargs, st, node):
        if name in ('datetime.timedelta', 'builtins.float', 'builtins.int') and len(args) + len(kwargs) == 1:
            k, v = kwargs[0] if kwargs else (None, args[0])
            if v == PERIOD and k in (None, 'seconds') and (k or name != 'datetime.timedelta'):
                return [(v, st)]
        if name in ('.total_seconds', '.timestamp') and recv is not None and times(recv):
            return [(recv, st)]
        if name in ('datetime.datetime.now', 'datetime.datetime.utcnow', 'time.time', 'time.monotonic', 'time.perf_counter'):
            n = self.number(st, 'now')
            self.mark(st, 'now', name, None, (C(n),))
            return [(S(('now', n), 'datetime.datetime' if 'datetime' in name else 'builtins.float'), st)]
        if name == 'time.sleep':
            self.mark(st, 'slept', name, None, args)
            return [(NONE, st)]
        if name == '.wait' and args + [v for _, v in kwargs] and recv is not None and 'threading' in show(recv):
            self.mark(st, 'slept', name, None, args)
        if recv is not None and recv[0] == 's' and recv[1][0] == 'process':
            if name == '.poll':
                n = recv[1][1]
                for kind, _, r, a in reversed(self.did(st, 'polled')):
                    if r == recv and st.facts.get(('isnone', a[0])) is False:
                        return [(a[0], st)]
                v = S(('status', n, self.number(st, 'polled')), 'builtins.int')
                out = []
                for gone in (True, False):
                    s = st.copy()
                    s.facts['isnone', v] = not gone
                    self.mark(s, 'polled', name, recv, (v,))
                    out.append((v if gone else NONE, s))
                    if not gone:
                        self.mark(s, 'alive', name, recv, (v,))
                return out
            if name == '.pid':
                return [(S(('pid', recv[1][1]), 'builtins.int'), st)]
        return super().running(ip, f, name, recv, args, kwargs, st, node)


def times(v):
    out = set()

    def look(t):
        if t[:1] == ('now',):
            out.add(t)
        return False
    mentions(v, look)
    return out


def linear(v):
    """{leaf: coefficient} of sums and differences of times, or None."""
    if v[0] == 's' and v[1][0] == 'bin' and v[1][1] in ('Add', 'Sub', '+', '-'):
        a, b = linear(v[1][2]), linear(v[1][3])
        if a is None or b is None:
            return None
        sign = 1 if v[1][1] in ('Add', '+') else -1
        out = dict(a)
        for k, n in b.items():
            out[k] = out.get(k, 0) + sign * n
        return {k: n for k, n in out.items() if n}
    if is_const(v):
        return {'one': cval(v)} if isinstance(cval(v), (int, float)) else None
    return {v[1]: 1} if v[0] == 's' and (v[1][0] == 'now' or v == PERIOD) else None


def over(st):
    """Pairs (later, earlier) of readings of the clock known to be more than one period apart."""
    got = set()
    for key, value in st.facts.items():
        if key[0] != 'lt':
            continue
        a, b = linear(key[1]), linear(key[2])
        if a is None or b is None:
            continue
        small, large = (a, b) if value else (b, a)
        diff = dict(large)
        for k, n in small.items():
            diff[k] = diff.get(k, 0) - n
        diff = {k: n for k, n in diff.items() if n}
        if sorted(diff.values()) != [-1, -1, 1] or diff.get(PERIOD[1]) != -1:
            continue
        later = next(k for k, n in diff.items() if n == 1)
        earlier = next(k for k, n in diff.items() if n == -1 and k != PERIOD[1])
        if later[0] == earlier[0] == 'now':
            got.add((later[1], earlier[1]))
    return got


def expected(policy, live, low, high, remaining, pressure):
    """How many clients the documented policy launches at one check."""
    if live < low:
        return 1
    if policy == 'dynamic' and pressure is not None:
        return int(pressure > 1 and live < high)
    return int(live == 0 and remaining > 0)


class Cluster:
    """Every path of an autoscaler up to a number of checks."""

    def __init__(self, rep):
        self.rep, self.prog = rep, rep.prog
        self.cls = machine(rep.prog, 'AutoScaler')
        self.waiting = set()        # states in which it sleeps
        self.where = {n: (fn.where if (fn := self.cls.method(n)) is not None else self.cls.where)
                      for n in ('__init__', 'init', 'wait', 'check', 'check_fixed', 'check_dynamic', 'scale', 'clean')}

    def run(self, policy, first, low, high, remaining, pressure, rounds):
        cl = Scaler(self.prog, remaining, pressure)
        ip, st = cl.ip, cl.world()
        st.heap['self'] = HObj('obj', self.cls.qual, {})
        ip.make_self(self.cls, st, opaque=False)
        for v in (FACTOR, PERIOD):
            st.facts['isnone', v], st.facts['truth', v] = False, True
        given = {'launcher': ip.new_list(st, tuple(('1', C(a)) for a in ARGV), self.cls.node), 'policy': C(policy), 'factor': FACTOR, 'period': PERIOD, 'init_size': C(first), 'min_size': C(low),
                 'max_size': C(high)}
        init = self.cls.method('__init__')
        rets, raised = ip.run_function(init, [('o', 'self')], list(given.items()), st)
        if not rets:
            raise AnalysisBroken('the autoscaler cannot be built')
        work = [(s, 0) for _, s in rets]
        done, seen, steps = [], set(), 0
        while work:
            s, depth = work.pop()
            steps += 1
            if steps > 1000 and not self.waiting:
                return cl, [(s, depth)]
            if steps > 6000:
                raise AnalysisBroken('the autoscaler is not understood within the bounds')
            cur = ip.get_attr(('o', 'self'), 'state', s, self.cls.node)[0][0]
            if cur[0] == 'm' and cur[2] == 'HALT' or len(self.rounds(cl, s)) > rounds or depth > MOST or len(cl.did(s, 'slept')) > rounds + 1 \
                    or self.endless(cl, s):
                done.append((s, depth))
                continue
            key = (cur, s.key())
            if key in seen:
                continue
            seen.add(key)
            table, s = ip.get_attr(('o', 'self'), 'actions', s, self.cls.node)[0]
            action = next((x for k, x in s.heap[table[1]].attrs if k == cur), None)
            if action is None:
                raise AnalysisBroken(f'no action for {show(cur)}')
            ip.stack, ip.raise_sinks, ip.try_depth, ip.handlers = [], [[]], 0, []
            ip.stack.append(ip._stub(self.cls.module, self.cls))
            before = s.copy()
            try:
                if cur not in self.waiting:
                    res = ip.call(action, [], [], s, self.cls.node)
                    if any(cl.number(s2, 'slept') > cl.number(before, 'slept') for _, s2 in res):
                        self.waiting.add(cur)
                if cur in self.waiting:
                    cl.mark(before, 'wait', '')
                    res = ip.call(action, [], [], before, self.cls.node)
            finally:
                ip.stack.pop()
            for v, s2 in res:
                o = s2.heap['self']
                s2.heap['self'] = HObj(o.kind, o.cls, {**o.attrs, 'state': v}, o.opaque)
                work.append((s2, depth + 1))
        self.rep.saw(ip)
        return cl, done

    @staticmethod
    def endless(cl, s):
        """Whether more is done at once than one check needs."""
        part = []
        for d in cl.did(s):
            part = [] if d[0] == 'wait' else part + [d[0]]
        return 'wait' in [d[0] for d in cl.did(s)] and (part.count('started') > 1 or part.count('asked') > 8)

    @staticmethod
    def rounds(cl, s):
        """What was done between one time of waiting and the next, without those where nothing but waiting happened."""
        out, cur = [], []
        for d in cl.did(s):
            if d[0] == 'wait':
                out.append(cur)
                cur = []
            cur.append(d)
        out.append(cur)
        return [out[0]] + [r for r in out[1:-1] if any(d[0] in ('polled', 'asked', 'started') for d in r)] if len(out) > 1 else []


@rule('C38', technique='abstract interpretation of the autoscaler; the launches of every path compared with a decision table; facts on readings of the clock',
      explanation='Every path through the launch of the first clients and one or two checks, for both policies, cluster sizes around the limits, '
                  'with and without tasks, at low, limiting, high and unknown pressure, and with every combination of clients that ended.')
def scaling(rep):
    cluster = Cluster(rep)
    most = 3 if rep.thorough else 2
    cases = []
    for policy in ('fixed', 'dynamic'):
        loads = [(r, p) for r in (0, 1) for p in ((None, 3.0) if policy == 'fixed' else (None, 0.5, 1.0, 1.01, 3.0))]
        for (first, low, high), (remaining, pressure) in itertools.product(((0, 0, 1), (0, 1, 2), (1, 0, 1), (1, 0, 2), (1, 1, 1), (2, 1, 2), (2, 0, 3), (3, 2, 2),
                                                                            (1, 2, 3)), loads):
            cases.append((policy, first, low, high, remaining, pressure, 1))
        for remaining, pressure in loads:
            cases.append((policy, 1, 1, 2, remaining, pressure, most))
    for case in cases:
        one(rep, cluster, *case)


def one(rep, cluster, policy, first, low, high, remaining, pressure, rounds):
    cl, done = cluster.run(policy, first, low, high, remaining, pressure, rounds)
    if cl.unknown:
        raise AnalysisBroken(f'the autoscaler is not understood: {cl.unknown[0]}')
    where = cluster.where
    about = f'{policy} policy, {low} to {high} clients, {remaining} tasks remain' + (f', pressure {pressure}' if policy == 'dynamic' else '')
    full = 0
    for s, depth in done:
        parts = cluster.rounds(cl, s)
        rep.check('time', 'again', not cluster.endless(cl, s), f'{about}: clients are looked at over and over without waiting', where['wait'])
        if not parts:
            rep.check('launched', 'first', False, f'{about}: the first clients are still being launched after {depth} steps', where['init'])
            continue
        full += len(parts) > rounds
        begun = [d for d in parts[0] if d[0] == 'started']
        rep.check('launched', 'first', len(begun) == first, f'{about}: {len(begun)} clients are launched at the start instead of {first}', where['init'])
        gone, running = set(), [S(('process', n), 'subprocess.Popen') for n in range(len(begun))]
        entries = cl.did(s)
        before = -1
        for n, part in enumerate(parts[1:]):
            name = 'check_fixed' if policy == 'fixed' else 'check_dynamic'
            polled = [d[2] for d in part if d[0] == 'polled']
            rep.check('looked', 'every client', all(r in polled or r in gone for r in running), f'{about}: not every client is looked at', where['clean'])
            gone |= {d[2] for d in part if d[0] == 'polled' and d[3] and s.facts.get(('isnone', d[3][0])) is False}
            live = [r for r in running if r not in gone]
            launched = [d for d in part if d[0] == 'started']
            want = expected(policy, len(live), low, high, remaining, pressure)
            rep.check('launched', 'by policy', len(launched) == want,
                      f'{about}: with {len(live)} clients {len(launched)} are launched instead of {want}', where[name])
            at = min((i for i, d in enumerate(part) if d[0] in ('started', 'asked', 'polled')), default=0)
            early = [cval(d[3][0]) for d in part[:at] if d[0] == 'now']
            good = any(a in early and b >= before for a, b in over(s))
            rep.check('time', 'period', good, f'{about}: clients are looked at before a full period is over', where['wait'])
            before = max(early, default=before)
            running += [S(('process', d_n), 'subprocess.Popen') for d_n in range(len(running), len(running) + len(launched))]
            for d in part:
                if d[0] == 'asked' and d[1] == 'task_pressure':
                    rep.check('asked', 'factor', list(d[3]) == [FACTOR], f'{about}: the pressure is asked for with {[show(a) for a in d[3]]}', where['check_dynamic'])
        kept = s.heap['self'].attrs.get('clients')
        if len(parts) > 1 and kept is not None and kept[0] == 'l':
            now = [x for _, x in s.heap[kept[1]].attrs]
            rep.check('kept', 'clients', now == [r for r in running if r not in gone], f'{about}: the clients kept are not those that run', where['clean'])
        waits = len([d for d in entries if d[0] == 'wait'])
        rep.check('time', 'pause', len(cl.did(s, 'slept')) >= waits - len(parts), f'{about}: waiting for the next check takes all of a processor', where['wait'])
        for d in cl.did(s, 'started'):
            launch(rep, d[3], about, where['scale'])
    rep.check('time', 'checks', full > 0, f'{about}: clients are never looked at', where['wait'])


def launch(rep, popen, about, where):
    """The process started as a client."""
    kw = {a[1]: a[2] for a in popen if a[0] == 'kw'}
    pos = [a for a in popen if a[0] not in ('kw', 'task')]
    argv = pos[0] if pos else kw.get('args', NONE)
    given = [show(x) for _, x in argv[1]] if argv[0] == 'lst' else show(argv)
    rep.check('started', 'launcher', given == [repr(a) for a in ARGV] and kw.get('shell', NONE) in (NONE, C(False)), f'{about}: the client is launched by {given}', where)
    for stream in ('stdout', 'stderr'):
        v = kw.get(stream, NONE)
        rep.check('started', stream, v == NONE or show(v) == f'sys.{stream}', f'{about}: {stream} of a client goes to {show(v)}', where)
    env = kw.get('env', NONE)
    have = {cval(k): x for k, x in env[1] if k is not None and is_const(k)} if env[0] == 'dct' else {}
    for name, value in {**ENVIRON, **WANTED}.items():
        rep.check('started', 'environment', have.get(name) == C(value), f'{about}: a client has {name} as {show(have.get(name, NONE))}', where)
