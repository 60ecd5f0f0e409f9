"""
Waiting times are measured from what they wait for (C52).

Every action of the machines that collect bundles, or wait for them, is interpreted on its own. The moment a waiting
time is measured from is whatever attribute is subtracted from the current time; it has to be renewed on exactly those
paths on which a bundle went out (or came in), and the comparison with the limit decides whether the machine goes on
waiting.
"""
import ast

from ..interp import Interp, NONE, S, State, mentions, show
from ..machine import entity_summaries
from ..report import rule
from .errors import mro, shorthand
from .flow import machine
from .lengths import lengths
from .unset import Machine

# what renews the waiting time, as events on a path
MACHINES = {
    'ClientScheduler': lambda e: e[0] == 'get' and e[1] == 'scheduled',
    'ClientCollector': lambda e: e[0] == 'put' and e[1] == 'completed',
    'DatabaseCommitter': lambda e: e[0] == 'db',
    'QueueCommitter': lambda e: e[0] == 'put' and e[1] == 'scheduled',
}


def is_now(t):
    return t[:1] in (('fresh',), ('call',)) and len(t) > 1 and str(t[1] if t[0] == 'fresh' else t[1][1] if isinstance(t[1], tuple) and len(t[1]) > 1 else '').endswith(
        ('datetime.now', 'datetime.utcnow', 'time.time', 'time.monotonic'))


def own(t):
    """The name of an attribute of the machine as it was before the action."""
    return t[2] if t[:1] == ('attr',) and len(t) > 2 and isinstance(t[2], str) and isinstance(t[1], tuple) and t[1][:1] == ('o',) else None


def attributes(v):
    out = set()

    def look(t):
        if own(t):
            out.add(own(t))
        return False
    mentions(v, look)
    return out


class Action:
    """The paths of one action: (target, events, comparisons with elapsed time, attributes at the end)."""

    def __init__(self, prog, cls, fn, preset=()):
        self.fn = fn
        self.ip = Interp(prog, summaries=entity_summaries(prog))
        self.ip._globals = {}
        self.ip.on_event = self.event
        self.ip.extern_hook = self.library
        st = State()
        st.mon = ()
        self.me = self.ip.make_self(cls, st, opaque=True)
        st.heap[self.me[1]].attrs.update(preset)
        rets, raised = self.ip.run_function(fn, [self.me], [], st)
        self.paths = [(v, s.mon, s.heap[self.me[1]].attrs, s) for v, s in rets]

    @staticmethod
    def event(ip, ev, st):
        if st.mon is None:
            return
        if ev.kind in ('put', 'get', 'db', 'qempty'):
            st.mon = st.mon + ((ev.kind, ev.name),)
        elif ev.kind == 'cond' and ev.name == 'lt' and len(ev.args) == 2:
            st.mon = st.mon + (('lt', ev.args[0], ev.args[1], bool(ev.value)),)

    @staticmethod
    def library(ip, f, name, recv, args, kwargs, st, node):
        if (name or '').rsplit('.', 1)[-1] in ('total_seconds', 'timestamp') and recv is not None:
            return [(S(('seconds', recv), 'builtins.float'), st)]
        return shorthand(ip, f, name, recv, args, kwargs, st, node)

    @staticmethod
    def elapsed(events):
        """Comparisons with the current time: (attributes of the machine they mention, is it over?)."""
        out = []
        for e in events:
            if e[0] == 'lt' and mentions(e[1], is_now) != mentions(e[2], is_now):
                out.append((attributes(e[1]) | attributes(e[2]), e[3] == mentions(e[2], is_now)))
        return out


def default(cls, name):
    """The default of what the machine is made with: None, or something else."""
    init = cls.method('__init__')
    a = init.node.args
    pairs = list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + list(zip(a.kwonlyargs, a.kw_defaults))
    for arg, node in pairs:
        if arg.arg == name and isinstance(node, ast.Constant):
            return node.value
    return ...


def name_of(v):
    return v[2] if v is not None and v[0] == 'm' else None


@rule('C52', technique='path-wise abstract interpretation of every action that measures elapsed time', level='other',
      explanation='Every action of the machines that collect or await bundles is interpreted path by path; the moment a waiting time is measured from '
                  'must be renewed exactly where a bundle went out or came in, and the comparison with the limit must decide whether to go on waiting.')
def periods(rep):
    prog = rep.prog
    tests = renewals = 0
    for name, renews in MACHINES.items():
        cls = machine(prog, name)
        actions = Machine(prog, cls).actions()
        done = {state: Action(prog, cls, fn) for state, fn in actions.items()}
        start = next((c.assigns['state'] for c in mro(cls) if 'state' in c.assigns), None)
        first = start.attr if hasattr(start, 'attr') else 'START'
        getters = {s for s, a in done.items() if any(e[0] == 'get' for _, events, _, _ in a.paths for e in events)}
        timed = {m for a in done.values() for _, events, _, _ in a.paths for names, _ in a.elapsed(events) for m in names}
        moments = {m for m in timed if any(m in attrs and mentions(attrs[m], is_now) for a in done.values() for _, _, attrs, _ in a.paths)}
        limits = timed - moments
        rep.check('moment', name, len(moments) == 1, f'the time it waits is measured from {sorted(moments) or "nothing"}', cls.where)
        for state, a in done.items():
            rep.saw(a.ip)
            compared = any(a.elapsed(events) for _, events, _, _ in a.paths)
            for v, events, attrs, s in a.paths:
                target = name_of(v)
                sent = any(renews(e) for e in events)
                over = [o for _, o in a.elapsed(events)]
                for m in moments:
                    now = attrs.get(m)
                    renewed = now is not None and mentions(now, is_now)
                    kept = now is None or own(now[1] if now[0] == 's' else ()) == m
                    if sent:
                        renewals += 1
                        rep.check('renewed', f'{a.fn.qual}', renewed, 'a bundle is passed on, but the next one is timed from an earlier moment', a.fn.where)
                    elif state != first:
                        rep.check('kept', f'{a.fn.qual}', kept, 'the waiting time starts over although no bundle is passed on', a.fn.where)
                if not compared or sent:
                    continue
                if over:
                    tests += 1
                    rep.check('decides', f'{a.fn.qual}', all(o == over[0] for o in over), 'it compares the elapsed time in two ways', a.fn.where)
                    full = any(e[0] == 'lt' and (attributes(e[1]) | attributes(e[2])) - moments - limits for e in events)
                    if over[0]:
                        rep.check('over', f'{a.fn.qual}', target not in getters, f'the time is over and it goes on waiting ({target})', a.fn.where)
                    elif not full or target in getters:
                        rep.check('not over', f'{a.fn.qual}', target in getters, f'the time is not over and it does not wait ({target})', a.fn.where)
                elif target in getters:
                    unlimited = any(s.facts.get(('isnone', v2)) is True for v2 in [k[1] for k in s.facts if k[0] == 'isnone'] if attributes(v2) & limits)
                    rep.check('looks', f'{a.fn.qual}', unlimited, 'it goes on waiting without looking at the time', a.fn.where)
        none = {k for k in limits if default(cls, k) is None}
        for state, a in done.items():
            if none and any('qempty' in (e[0] for e in events) and a.elapsed(events) for _, events, _, _ in a.paths):
                free = Action(prog, cls, a.fn, {k: NONE for k in none})
                rep.saw(free.ip)
                for v, events, _, _ in free.paths:
                    if any(e[0] == 'qempty' for e in events) and not any(renews(e) for e in events):
                        tests += 1
                        rep.check('unlimited', a.fn.qual, name_of(v) in getters, f'there is no limit and it does not go on waiting ({name_of(v)})', a.fn.where)
    lengths(rep, ('timeout', 'bundlewait'))
    rep.floor('comparisons with elapsed time', tests, 8)
    rep.floor('bundles passed on', renewals, 4)
