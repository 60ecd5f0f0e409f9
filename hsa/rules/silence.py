"""
What the server does about silence (part of C18) and about an interrupted run (part of C23).

The heart monitor is followed from heartbeat to heartbeat, with two clients that take turns; every heartbeat carries a
time of its own and every look at the clock is numbered by the heartbeats seen before it.
"""
from ..interp import C, FALSE, HObj, Interp, NONE, S, State, TRUE, mentions, show
from ..machine import entity_summaries
from ..rows import Tables
from .flow import is_param, machine
from .lengths import Unknown, measure, partial
from .machines import construct, volatile_of
from .signals import HB, STATES
from .errors import shorthand
from .unset import Machine

ONE, TWO = C('client-1'), C('client-2')
CLOCK = ('datetime.now', 'datetime.utcnow', 'time.time', 'time.monotonic')


class Rounds:
    """A machine followed from action to action; `turns` of the given queue make a round."""

    def __init__(self, prog, name, summaries=None):
        self.prog, self.cls = prog, machine(prog, name)
        self.actions = Machine(prog, self.cls).actions()
        self.ip, self.made = construct(prog, self.cls)
        self.ip.summaries = {**entity_summaries(prog), **(summaries or {})}
        self.ip.on_event = self.event
        self.ip.extern_hook = self.library

    @staticmethod
    def library(ip, f, name, recv, args, kwargs, st, node):
        if (name or '').endswith(CLOCK) and st.mon is not None:
            return [(S(('now', turns(st.mon)), 'datetime.datetime'), st)]
        if (name or '').rsplit('.', 1)[-1] in ('astimezone', 'timestamp') and recv is not None and mentions(recv, lambda t: t[:1] == ('now',)):
            return [(recv, st)]
        return shorthand(ip, f, name, recv, args, kwargs, st, node)

    def event(self, ip, ev, st):
        raise NotImplementedError

    def start(self, given):
        """The machine as it is made, with these attributes; its first state."""
        out = []
        for me, st in self.made:
            s = st.copy()
            s.mon = ()
            s.heap[me[1]].attrs = {**s.heap[me[1]].attrs, **given}
            out.append((me, s))
        return out

    def follow(self, state, me, st, until, steps=14):
        """All ways on from a state: [(state reached or None, machine state)]; `until` says where to stop."""
        todo, ends = [(state, st, 0)], []
        while todo:
            state, s, n = todo.pop()
            if state not in self.actions or n and until(state, s) or n >= steps or len(ends) > 4000:
                ends.append((state, s))
                continue
            fn = self.actions[state]
            self.ip.raise_sinks, self.ip.handlers, self.ip.try_depth = [[]], [], 0
            rets, raised = self.ip.run_function(fn, [] if fn.kind == 'static' else [me], [], s)
            for v, s2 in rets:
                todo.append((v[2] if v[0] == 'm' else None, s2, n + 1))
            ends += [(None, s2) for _, _, s2 in raised]
        return ends


def turns(mon):
    return sum(e[0] in ('get', 'empty') for e in mon)


class Monitor(Rounds):

    def __init__(self, prog):
        unpack = prog.cls(HB).method('unpack')
        super().__init__(prog, 'HeartMonitor', {unpack.qual: self.unpack})
        self.limits = set()
        self.ip.get_hook = lambda ip, chan, st, node: [(C(b'beat'), st)]

    def unpack(self, ip, fn, args, kwargs, st, node):
        n = sum(e[0] == 'beat' for e in st.mon)
        who = (ONE, TWO, ONE)[n % 3]
        ref = ip.alloc(st, HObj('obj', HB, {'uuid': who, 'host': C('host'), 'time': S(('beat', n), 'datetime.datetime'),
                                            'state': ('m', STATES, 'RUNNING')}), node, hint=f'Beat{n}')
        st.mon = st.mon + (('beat', who, n),)
        return [(('o', ref), st)]

    def event(self, ip, ev, st):
        if st.mon is None:
            return
        if ev.kind in ('get', 'qempty') and ev.name == 'heartbeat':
            st.mon = st.mon + (('get' if ev.kind == 'get' else 'empty',),)
        elif ev.kind in ('put', 'qfull') and ev.name == 'scheduled':
            st.mon = st.mon + (('put' if ev.kind == 'put' else 'full',),)
        elif ev.kind == 'cond' and ev.name == 'lt' and len(ev.args) == 2:
            limit = [i for i in (0, 1) if mentions(ev.args[i], is_param('evict_after'))]
            beats = [t for a in ev.args for t in beats_in(a)]
            if limit:
                try:
                    self.limits.add((bool(beats), measure(ev.args[limit[0]])[1], ev.where))
                except Unknown:
                    pass
            if limit and any(partial(a) for a in ev.args):
                self.limits.add((bool(beats), 0, ev.where))
            if limit and beats:
                over = bool(ev.value) if limit == [0] else not ev.value
                st.mon = st.mon + (('age', tuple(sorted(set(beats))), clock(ev.args), over),)
        elif ev.kind == 'db' and ev.name == 'update_all':
            for _, x in self.ip.entries(ev.args[0], st) or []:
                if x[0] == 'd':
                    change = {show(k): v for k, v in st.heap[x[1]].attrs if k is not None}
                    if any('evicted' in k and v == TRUE for k, v in change.items()):
                        ids = [v for k, v in change.items() if k.strip("'") == 'id']
                        st.mon = st.mon + (('evict', ids[0] if ids else None),)
        

def collect(v, head):
    out = []

    def look(t):
        if t[:1] == (head,) and len(t) == 2:
            out.append(t[1])
        return False
    mentions(v, look)
    return out


def beats_in(v):
    return collect(v, 'beat')


def clock(args):
    seen = [n for a in args for n in collect(a, 'now')]
    return max(seen) if seen else None


def kept(st):
    """The clients the monitor keeps: {client: heartbeat}."""
    out = {}
    for v in st.heap['self'].attrs.values():
        if v[0] == 'd':
            for k, x in st.heap[v[1]].attrs:
                if k in (ONE, TWO):
                    out[k] = x
    return out


def silence(rep):
    m = Monitor(rep.prog)
    getters = set()
    n = 0
    seen = {}
    where = m.cls.where

    def until(state, s):
        return state in getters

    # which action waits for heartbeats
    for state, fn in m.actions.items():
        for me, st in m.start({}):
            m.ip.raise_sinks, m.ip.handlers = [[]], []
            for v, s in m.ip.run_function(fn, [] if fn.kind == 'static' else [me], [], st)[0]:
                if turns(s.mon):
                    getters.add(state)
    rep.check('waits', m.cls.name, bool(getters), 'no action waits for heartbeats', where)
    for signal in (FALSE, TRUE):
        flags = {name: signal for (_, name), vals in volatile_of(rep.prog, m.cls).items() if set(vals) <= {TRUE, FALSE}}
        todo = [(state, me, st) for state in sorted(getters)[:1] for me, st in m.start({'in_memory': FALSE, 'no_confirm': FALSE, **flags})]
        for turn in range(3):
            nxt, new = [], set()
            for state, me, st in todo:
                for to, s in m.follow(state, me, st, until):
                    judge(rep, m, s, seen, where)
                    n += 1
                    key = (to, s.mon)
                    if to in getters and key not in new and sum(e[0] == 'empty' for e in s.mon) < 2:
                        new.add(key)
                        nxt.append((to, me, s))
            todo = nxt[:1500]
    for beats, k, at in sorted(m.limits):
        rep.check('limit', f'{m.cls.name}: {"heartbeat" if beats else "check"}', abs(k - 1) < 1e-9 if beats else 0 < k <= 1,
                  f'{k:g} times the limit is waited for', at)
    rep.saw(m.ip)
    rep.floor('ways from heartbeat to heartbeat', n, 20)
    for k in ('age', 'evict', 'full'):
        rep.floor(f'seen: {k}', seen.get(k, 0), 1)


def judge(rep, m, st, seen, where):
    latest, ages, full = {}, {}, False
    clients = set()
    looked = []
    for i, e in enumerate(st.mon):
        now = turns(st.mon[:i])
        seen[e[0]] = seen.get(e[0], 0) + 1
        if e[0] in ('get', 'empty'):
            full, ages = False, {}
        elif e[0] == 'beat':
            latest[e[1]] = e[2]
        elif e[0] == 'full':
            rep.check('blocked', m.cls.name, not full, 'while the queue is full it tries again and again without looking for heartbeats; silent clients are '
                      'never noticed', where)
            full = True
        elif e[0] == 'age':
            of = [c for c, b in latest.items() if b in e[1]]
            rep.check('age', m.cls.name, bool(of) and len(e[1]) == 1, f'the age is measured from another heartbeat than the last one of a client', where)
            rep.check('clock', m.cls.name, e[2] is not None and now - e[2] <= 1, 'the age is measured with an outdated time, so it stays what it was', where)
            for c in of:
                ages[c] = e[3]
        elif e[0] == 'evict':
            rep.check('evicted', m.cls.name, e[1] not in (ONE, TWO) or ages.get(e[1]) is True, 'a client is evicted although its own last heartbeat was not '
                      'found to be too old', where)
    if ages:
        for c in (ONE, TWO):
            if c in kept(st):
                rep.check('compared', m.cls.name, c in ages, 'when clients are checked, one is left out', where)
                rep.check('kept', m.cls.name, not ages.get(c), 'a client found to be silent is kept', where)
    for c, hb in kept(st).items():
        if c in latest and hb[0] == 'o':
            time = st.heap[hb[1]].attrs.get('time')
            rep.check('latest', m.cls.name, time == S(('beat', latest[c]), 'datetime.datetime'), 'it keeps an older heartbeat than the last one', where)


class Recovery(Rounds):

    def __init__(self, prog):
        super().__init__(prog, 'Scheduler')
        self.ip.select_hook = None

    def event(self, ip, ev, st):
        from .ending import zero
        if st.mon is None:
            return
        if ev.kind == 'db':
            st.mon = st.mon + (('db', ev.name),)
        elif ev.kind == 'select':
            st.mon = st.mon + (('select',),)
        elif ev.kind == 'cond':
            for name in ('count_remaining', 'count', 'count_interrupted'):
                z = zero(ev, name)
                if z is not None:
                    st.mon = st.mon + (('zero', name, z),)


def recovered(rep):
    """Before anything is selected, tasks left over from an earlier run are taken back."""
    m = Recovery(rep.prog)
    n = 0
    where = m.cls.where
    first = next((c.assigns['state'] for c in Machine(rep.prog, m.cls).chain if 'state' in c.assigns), None)
    start = getattr(first, 'attr', 'START')
    for me, st in m.start({}):
        for to, s in m.follow(start, me, st, lambda state, s: ('select',) in s.mon, steps=4):
            if ('select',) not in s.mon:
                continue
            n += 1
            before = s.mon[:s.mon.index(('select',))]
            nothing = any(e[0] == 'zero' and e[2] for e in before)
            rep.check('recovered', m.cls.name, nothing or ('db', 'revert_interrupted') in before, 'tasks are selected although those left over from an '
                      'interrupted run were not taken back', where)
    rep.saw(m.ip)
    rep.floor('ways to the first selection', n, 2)


def registered_as(rep):
    """The record made from a heartbeat is that of the client that sent it."""
    client = rep.prog.cls('hypershell.data.model.Client')
    fn = client.method('from_heartbeat')
    if fn is None:
        return
    tab = Tables(rep.prog)
    st = State()
    st.mon = ((), frozenset())
    beat = {k: S(('beat', k)) for k in ('uuid', 'host', 'time', 'state')}
    st.heap['beat'] = HObj('obj', 'hypershell.core.heartbeat.Heartbeat', dict(beat))
    tab.ip.assume(st, ('truth', beat['uuid']), True)
    rets, raised = tab.ip.run_function(fn, [('k', client.qual), ('o', 'beat')], [], st)
    rep.floor('records made from a heartbeat', len(rets), 1)
    for v, s in rets:
        attrs = s.heap[v[1]].attrs if v[0] == 'o' else {}
        for column, field in (('id', 'uuid'), ('host', 'host'), ('connected_at', 'time')):
            rep.check('registered-as', f'Client.{fn.name}: {column}', attrs.get(column) == beat[field], f'the {column} of a registered client is '
                      f'{show(attrs[column]) if column in attrs else "not known"}', fn.where)
        for column in ('disconnected_at', 'evicted'):
            got = attrs.get(column, NONE)
            rep.check('registered-as', f'Client.{fn.name}: {column}', got in (NONE, FALSE), f'a client is registered with {column} = {show(got)}', fn.where)
        for column in ('server_id', 'server_host'):
            got = attrs.get(column, NONE)
            rep.check('registered-as', f'Client.{fn.name}: {column}', got != NONE and not mentions(got, lambda t: t[:1] == ('beat',)),
                      f'a client is registered with {column} = {show(got)}', fn.where)
    rep.saw(tab.ip)
