"""
Exploration of the package's finite state machines.

A machine (subclass of ``StateMachine``) is explored configuration by configuration: the abstract constructor gives the
initial configuration, and every action is interpreted path by path from every reachable configuration until nothing new
appears. A rule supplies a monitor (a small typestate kept in ``State.mon``) that watches the events on each path.
"""

from __future__ import annotations

import ast
from typing import Callable, Dict, List, Optional, Tuple

from .model import Program, Class, Func, AnalysisBroken
from .interp import (Interp, State, HObj, Event, C, S, NONE, TRUE, FALSE, item, is_const, cval, mentions, show, size, Budget)
from . import externs

TASK = 'hypershell.data.model.Task'
ENTITY = 'hypershell.data.model.Entity'
BASE = 'hypershell.core.fsm.StateMachine'


def machine_classes(prog: Program) -> List[Class]:
    base = prog.cls(BASE)
    return [c for c in prog.subclasses(base.qual)]


# -- summaries of the database layer ---------------------------------------------------------------------------------


def _form_of(ip, values, st):
    return externs.held_forms(ip, values, st)


def entity_summaries(prog: Program) -> Dict[str, Callable]:
    """Operations of the database layer as single steps (they are analysed separately)."""
    out: Dict[str, Callable] = {}

    def db(ip, fn, args, kwargs, st, node):
        vals = [a for a in args[1:]] if args and args[0][0] == 'k' else list(args)
        ip.emit(st, 'db', name=fn.name, args=vals, kwargs=kwargs, node=node, value=args[0] if args else None)
        ip.maybe_external_raise(st, node)
        return [(vals[0] if vals and fn.name == 'add_all' else NONE, st)]

    def read(ip, fn, args, kwargs, st, node):
        ip.emit(st, 'dbread', name=fn.name, args=args, kwargs=kwargs, node=node)
        ip.maybe_external_raise(st, node)
        if fn.name == 'from_id' and ip.try_depth:
            owner = prog.classes.get(args[0][1]) if args and args[0][0] == 'k' else fn.cls
            for c in (owner.mro if owner else []):
                if 'NotFound' in c.classes:
                    exc = c.classes['NotFound'].qual
                    missing = st.copy()
                    ip.emit(missing, 'notfound', name=fn.name, args=args, kwargs=kwargs, node=node)
                    ip.raise_sinks[-1].append((exc, S(('exc', exc)), missing))
                    break
        typ = 'builtins.int' if fn.name.startswith('count') else None
        return [(S(('fresh', 'db', fn.name), typ), st)]

    def transform(form):
        def run(ip, fn, args, kwargs, st, node):
            got = _form_of(ip, list(args) + [v for _, v in kwargs], st)
            ip.emit(st, 'convert', name=fn.name, args=args, kwargs=kwargs, node=node)
            if got is not None:
                return [(item(got[0], form), st)]
            return [(S(('call', ('f', fn.qual, None), tuple(ip.snap(a, st) for a in args), ())), st)]
        return run

    def new(ip, fn, args, kwargs, st, node):
        got = _form_of(ip, list(args) + [v for _, v in kwargs], st)
        ip.emit(st, 'newtask', name=fn.name, args=args, kwargs=kwargs, node=node)
        ip.maybe_external_raise(st, node)
        if got is not None:
            return [(item(got[0], 'task'), st)]
        return [(item(False, 'task'), st)]

    def nxt(ip, fn, args, kwargs, st, node):
        ip.emit(st, 'select', name=fn.name, args=args, kwargs=kwargs, node=node)
        hook = getattr(ip, 'select_hook', None)
        if hook is not None:
            got = hook(ip, fn, args, kwargs, st, node)
            if got is not None:
                return got
        return [(S(('fresh', 'select', fn.name)), st)]

    entity = prog.cls(ENTITY)
    task = prog.cls(TASK)
    forms = {'pack': 'bytes', 'unpack': 'task', 'to_dict': 'dict', 'to_json': 'json', 'from_dict': 'task', 'from_json': 'task',
             'to_tuple': 'dict'}
    for cls in [entity, *prog.subclasses(entity.qual)]:
        for name, fn in cls.methods.items():
            if name in ('add_all', 'update_all', 'revert_all', 'cancel_all'):
                out[fn.qual] = db
            elif name in ('revert_interrupted', 'revert_orphaned'):
                out[fn.qual] = db
            elif name.startswith('count') or name in ('from_id', 'latest_server', 'task_pressure', 'query', 'avg_duration',
                                                      'effective_rate', 'time_to_completion', 'effective_rate_by_client'):
                out[fn.qual] = read
            elif name in forms:
                out[fn.qual] = transform(forms[name])
            elif name == 'new' and cls is task:
                out[fn.qual] = new
            elif name == 'next' or name.startswith('select_'):
                out[fn.qual] = nxt
            elif name == 'from_heartbeat':
                out[fn.qual] = lambda ip, fn, args, kwargs, st, node: [
                    (S(('call', ('f', fn.qual, None), tuple(ip.snap(a, st) for a in args[1:]), ())), st)]
    for q, fn in prog.functions.items():
        if fn.name == 'write_traceback':
            out[q] = lambda ip, fn, args, kwargs, st, node: [(NONE, st)]
        if fn.name == 'load_task_env' and fn.cls is None:
            out[q] = lambda ip, fn, args, kwargs, st, node: [(S(('taskenv', 'static')), st)]
        if fn.name == 'task_env' and fn.cls is None:
            out[q] = task_env_summary
        if fn.cls is not None and fn.cls.name == 'Template' and fn.name == 'expand':
            out[q] = expand_summary
    return out


def task_env_summary(ip, fn, args, kwargs, st, node):
    ip.emit(st, 'taskenv', name=fn.name, args=args, node=node)
    return [(S(('taskenv',)), st)]


def expand_summary(ip, fn, args, kwargs, st, node):
    ip.emit(st, 'expand', name=fn.name, args=args, node=node)
    ip.maybe_external_raise(st, node)
    got = externs.held_forms(ip, args[1:], st) if ip.custody else None
    if got is not None:
        return [(item(got[0], 'line'), st)]
    return [(S(('call', ('f', fn.qual, None), tuple(ip.snap(a, st) for a in args[1:]), ()), 'builtins.str'), st)]


# -- exploration -----------------------------------------------------------------------------------------------------


def init_symbols(ip, fn: Func, st: State):
    """A symbol for every parameter (defaults are only one of the possible values)."""
    a = fn.node.args
    out = []
    for x in (a.posonlyargs + a.args)[1:] + a.kwonlyargs:
        out.append((x.arg, ip.typed_symbol(('param', fn.qual, x.arg), x.annotation, fn.module, fn.cls, st, fn.node)))
    return out


class Step:
    """One explored transition."""

    __slots__ = ('source', 'action', 'target', 'value', 'state', 'fn', 'config')

    def __init__(self, source, action, target, value, state, fn, config):
        self.source, self.action, self.target, self.value, self.state = source, action, target, value, state
        self.fn, self.config = fn, config


class Explorer:
    """Explore one machine."""

    max_configs = 60000

    def __init__(self, prog: Program, cls: Class, on_event=None, custody: bool = False, volatile=None, summaries=None,
                 init_args=None):
        self.prog, self.cls = prog, cls
        self.ip = Interp(prog, on_event=on_event, summaries={**entity_summaries(prog), **(summaries or {})})
        self.ip.custody = custody
        self.ip.volatile = volatile or {}
        self.init_args = init_args
        self.steps: List[Step] = []
        self.crashes: List[tuple] = []
        self.configs = 0
        self.nodes: Dict[tuple, tuple] = {}
        self.edges: Dict[tuple, set] = {}
        self.roots = set()
        self.widen: Dict[str, set] = {}
        self.keep_fact = lambda key: True
        self.mon0 = None
        self.stop_if: Optional[Callable] = None     # state -> True when nothing more can be learned
        self.enough: Optional[Callable] = None      # () -> True to end the exploration early
        self.on_step: Optional[Callable] = None     # (explorer, step)
        self.missing: List[Event] = []
        self.actions_map: Dict[str, str] = {}
        self.initial_state = None

    # construction of the initial configurations
    def initial(self) -> List[State]:
        st = State()
        st.mon = self.mon0
        hook, self.ip.on_event = self.ip.on_event, None
        selfv = self.ip.make_self(self.cls, st, opaque=False)
        init = self.cls.method('__init__')
        try:
            if init is None:
                return [st]
            args = [(n, (self.init_args or {}).get(n, v)) for n, v in init_symbols(self.ip, init, st)]
            rets, raised = self.ip.run_function(init, [selfv], args, st)
        finally:
            self.ip.on_event = hook
        if not rets:
            raise AnalysisBroken(f'{self.cls.qual}: no normal path through __init__')
        return [s for _, s in rets]

    def canonical(self, st: State) -> State:
        """Garbage-collect, rename references by access path, widen, and forget volatile facts."""
        selfobj = st.heap['self']
        mapping: Dict[str, str] = {'self': 'self'}
        queue: List[Tuple[str, tuple]] = []
        order = sorted(selfobj.attrs)

        def refs(v, path, out):
            if isinstance(v, tuple) and v:
                if len(v) == 2 and v[0] in ('l', 'd', 'o') and isinstance(v[1], str):
                    out.append((v[1], path))
                    return
                for i, x in enumerate(v):
                    if isinstance(x, tuple):
                        refs(x, path, out)

        new_attrs = {}
        for name in order:
            v = selfobj.attrs[name]
            new_attrs[name] = self.widened(name, v)
        found: List[Tuple[str, str]] = []
        for name in order:
            refs(new_attrs[name], f'self.{name}', found)
        if '$tracked' in st.heap:
            mapping['$tracked'] = '$tracked'
            refs(tuple(st.heap['$tracked'].attrs.values()), '$tracked', found)
        i = 0
        used = {'self', '$tracked'}
        while i < len(found):
            ref, path = found[i]
            i += 1
            if ref in mapping or ref not in st.heap:
                continue
            name = ref if ref.startswith(('sym:', 'global:')) else path
            base, n = name, 0
            while name in used:
                n += 1
                name = f'{base}~{n}'
            used.add(name)
            mapping[ref] = name
            obj = st.heap[ref]
            vals = tuple(obj.attrs.values()) if isinstance(obj.attrs, dict) else obj.attrs
            refs(vals, name + '.*', found)

        def ren(v):
            if isinstance(v, tuple) and v:
                if len(v) == 2 and v[0] in ('l', 'd', 'o') and isinstance(v[1], str):
                    return (v[0], mapping.get(v[1], v[1]))
                return tuple(ren(x) if isinstance(x, tuple) else x for x in v)
            return v

        heap = {}
        for ref, name in mapping.items():
            obj = st.heap[ref]
            attrs = new_attrs if ref == 'self' else obj.attrs
            if isinstance(attrs, dict):
                attrs = {k: ren(v) for k, v in attrs.items() if k != 'actions'}
            else:
                attrs = tuple((ren(k) if isinstance(k, tuple) else k, ren(v)) for k, v in attrs)
            heap[name] = HObj(obj.kind, obj.cls, attrs, obj.opaque)
        facts = {}
        for key, val in st.facts.items():
            if mentions(key, lambda t: t[:1] and t[0] in ('fresh', 'vol', 'lenb', 'elem', 'l', 'd', 'call', 'index', 'exc')):
                continue
            if self.keep_fact(key):
                facts[key] = val
        return State(env={}, heap=heap, facts=facts, mon=st.mon, trace=st.trace)

    def widened(self, name, v):
        if v[0] == 's' and size(v, 80) > 80:
            return S(('wide', name), v[2])
        if v[0] == 'c' and isinstance(v[2], int) and not isinstance(v[2], bool):
            seen = self.widen.setdefault(name, set())
            seen.add(v)
            if len(seen) > 4:
                return S(('wide', name), 'builtins.int')
        if v[0] == 's' and v[1][0] == 'bin':
            seen = self.widen.setdefault(name, set())
            seen.add(v)
            if len(seen) > 3:
                return S(('wide', name), v[2])
        return v

    def state_of(self, st: State):
        """Current FSM state (an enum member) of a configuration."""
        vals = self.ip.get_attr(('o', 'self'), 'state', st, self.cls.node)
        return vals[0][0]

    def run(self) -> 'Explorer':
        work = [self.canonical(s) for s in self.initial()]
        self.roots = {s.key() for s in work}
        for s in work:
            if self.initial_state is None:
                self.initial_state = self.state_of(s)
        seen = set()
        while work:
            st = work.pop()
            key = st.key()
            if key in seen:
                continue
            seen.add(key)
            self.configs += 1
            if self.enough is not None and self.enough():
                break
            if self.configs > self.max_configs:
                raise Budget(f'{self.cls.qual}: more than {self.max_configs} configurations')
            cur = self.state_of(st)
            self.nodes[key] = cur
            if cur[0] == 'm' and cur[2] == 'HALT':
                continue
            if self.stop_if is not None and self.stop_if(self, st):
                continue
            for step in self.expand(st, cur):
                if self.on_step is not None:
                    self.on_step(self, step)
                self.steps.append(step)
                if step.target is None or step.target[0] != 'm':
                    continue
                nxt = step.state
                o = nxt.heap['self']
                nxt.heap['self'] = HObj(o.kind, o.cls, {**o.attrs, 'state': step.target}, o.opaque)
                nxt = self.canonical(nxt)
                self.edges.setdefault(key, set()).add(nxt.key())
                work.append(nxt)
        return self

    def stuck(self) -> List[tuple]:
        """Reachable configurations from which HALT cannot be reached, with their state."""
        back: Dict[tuple, set] = {}
        for a, bs in self.edges.items():
            for b in bs:
                back.setdefault(b, set()).add(a)
        work = [k for k, cur in self.nodes.items() if cur[0] == 'm' and cur[2] == 'HALT']
        good = set(work)
        while work:
            for a in back.get(work.pop(), ()):
                if a not in good:
                    good.add(a)
                    work.append(a)
        return [cur for k, cur in self.nodes.items() if k not in good]

    def expand(self, st: State, cur) -> List[Step]:
        base = st.copy()
        hook, self.ip.on_event = self.ip.on_event, None
        try:
            acts = self.ip.get_attr(('o', 'self'), 'actions', base, self.cls.node)
        finally:
            self.ip.on_event = hook
        out = []
        for table, s in acts:
            if table[0] != 'd':
                raise AnalysisBroken(f'{self.cls.qual}: cannot evaluate the action table')
            target = None
            for k, x in s.heap[table[1]].attrs:
                if k == cur:
                    target = x
            if target is None:
                out.append(Step(cur, None, None, None, s, None, st))
                continue
            self.actions_map[cur[2] if cur[0] == 'm' else str(cur)] = show(target)
            s.note(f'{cur[2] if cur[0] == "m" else show(cur)}: {show(target)}')
            self.ip.stack = []
            self.ip.raise_sinks = [[]]
            self.ip.try_depth = 0
            self.ip.handlers = []
            stub = self.ip._stub(self.cls.module, self.cls)
            self.ip.stack.append(stub)
            try:
                res = self.ip.call(target, [], [], s, self.cls.node)
            finally:
                self.ip.stack.pop()
            raised = self.ip.raise_sinks[0]
            self.ip.raise_sinks = [[]]
            fn = self.prog.functions.get(target[1]) if target[0] == 'f' else None
            for v, s2 in res:
                out.append(Step(cur, target, v, v, s2, fn, st))
            for exc, val, s2 in raised:
                self.crashes.append((cur, target, exc, s2, fn))
        return out

    @property
    def transitions(self):
        return {(s.source, s.target) for s in self.steps}


# -- custody -----------------------------------------------------------------------------------------------------------


class Custody:
    """
    Ownership typestate of one tracked item.

    The item is taken once, at a source; from then on it must be reachable from the machine until it has been handed over
    at a sink, exactly once. ``mon`` is (taken, deliveries by channel, extra).
    """

    BUNDLES = ('scheduled', 'completed')

    def __init__(self, prog: Program, cls: Class, sources: Dict[str, str], sinks: Dict[str, set], volatile=None,
                 exempt: Callable = None, secondary: tuple = ()):
        self.prog, self.cls = prog, cls
        self.sources, self.sinks, self.secondary = sources, sinks, secondary
        self.violations: Dict[tuple, dict] = {}
        self.exempt = exempt
        self.taken_at = set()
        self.delivered_at = set()
        self.full_edges = set()
        self.ex = Explorer(prog, cls, on_event=self.event, custody=True, volatile=volatile)
        self.ex.mon0 = (False, (), ())
        self.ex.ip.get_hook = self.get_hook
        self.ex.ip.select_hook = self.select_hook
        self.ex.ip.next_hook = self.next_hook
        self.ex.on_step = self.step
        self.ex.stop_if = self.stop_if
        self.ex.keep_fact = self.keep_fact

    def keep_fact(self, key):
        return not mentions(key, lambda t: t[:1] == ('i',) and len(t) > 1 and t[1] is False)

    # sources
    def _take(self, st, chan, node):
        st.mon = (True, st.mon[1], st.mon[2])
        st.note(f'takes the item from {chan} (line {getattr(node, "lineno", 0)})')
        self.taken_at.add((chan, self.ex.ip.fn.qual if self.ex.ip.fn else '?'))

    def get_hook(self, ip, chan, st, node):
        kind = self.sources.get(chan)
        if kind is None and 'local:*' in self.sources and chan.startswith('local:'):
            kind = self.sources['local:*']
        out = [(NONE, st.copy())]
        if kind is None:
            kind = 'bundle' if chan in self.BUNDLES else 'single'
            form = 'bytes' if chan in externs.SHARED else 'task'
            s = st.copy()
            out.append((ip.new_list(s, (('+', item(False, form)),), node), s) if kind == 'bundle' else (item(False, form), s))
            return out
        form = 'bytes' if chan in externs.SHARED else 'task'
        if kind == 'bundle':
            s = st.copy()
            out.append((ip.new_list(s, (('+', item(False, form)),), node), s))
            if not st.mon[0]:
                s = st.copy()
                self._take(s, chan, node)
                out.append((ip.new_list(s, (('1', item(True, form)), ('*', item(False, form))), node), s))
        else:
            out.append((item(False, form), st.copy()))
            if not st.mon[0]:
                s = st.copy()
                self._take(s, chan, node)
                out.append((item(True, form), s))
        return out

    def select_hook(self, ip, fn, args, kwargs, st, node):
        if 'db:' + fn.name not in self.sources:
            return None
        out = [(ip.new_list(st2, (), node), st2) for st2 in [st.copy()]]
        s = st.copy()
        out.append((ip.new_list(s, (('+', item(False, 'task')),), node), s))
        if not st.mon[0]:
            s = st.copy()
            self._take(s, 'the database', node)
            out.append((ip.new_list(s, (('1', item(True, 'task')), ('*', item(False, 'task'))), node), s))
        return out

    def next_hook(self, ip, args, st, node):
        if 'iter' not in self.sources or args[0][0] in ('l',):
            return None
        out = [(item(False, 'line'), st.copy())]
        if not st.mon[0]:
            s = st.copy()
            self._take(s, 'the source', node)
            out.append((item(True, 'line'), s))
        if len(args) > 1:
            out.append((args[1], st))
        else:
            ip.raise_sinks[-1].append(('builtins.StopIteration', S(('exc', 'builtins.StopIteration')), st))
        return out

    # sinks
    def tracked_forms(self, values, st):
        forms = set()

        def pred(x):
            if x[1]:
                forms.add(x[2])
            return False
        for v in values:
            self.ex.ip.holds(v, st, pred)
        return forms

    def sink_of(self, ev) -> Optional[str]:
        if ev.kind == 'put':
            chan = ev.name
        elif ev.kind == 'db':
            chan = 'db:' + ev.name
        else:
            return None
        if chan in self.sinks:
            return chan
        if chan.startswith('local:') and 'local:*' in self.sinks:
            return 'local:*'
        return None

    def event(self, ip, ev, st):
        if ev.kind in ('put', 'db'):
            forms = self.tracked_forms(ev.args, st)
            sink = self.sink_of(ev)
            if forms:
                if sink is None:
                    if ev.kind == 'put':
                        self.bad('wrong-sink', ev.fn.qual, f'{ev.func} puts the item on {ev.name}', st, ev)
                    return
                allowed = self.sinks[sink]
                if not forms <= allowed:
                    self.bad('form', ev.fn.qual, f'{ev.func} hands over the item to {sink} as {sorted(forms)}, '
                             f'expected {sorted(allowed)}', st, ev)
                counts = dict(st.mon[1])
                counts[sink] = min(2, counts.get(sink, 0) + 1)
                st.mon = (st.mon[0], tuple(sorted(counts.items())), st.mon[2])
                st.note(f'hands the item over to {sink} in {ev.func} (line {ev.line})')
                self.delivered_at.add((sink, ev.fn.qual))
                if counts[sink] > 1:
                    self.bad('duplicate', ev.fn.qual, f'the same item is handed over twice to {sink}; second time in {ev.func}',
                             st, ev)
        elif ev.kind == 'qfull':
            self.full_edges.add((ev.name, ev.fn.qual))
            if self.tracked_forms(ev.args, st):
                st.note(f'{ev.name} is full (line {ev.line})')
        self.extra_event(ip, ev, st)

    def extra_event(self, ip, ev, st):
        pass

    def delivered(self, st):
        return any(n for c, n in st.mon[1] if c not in self.secondary)

    def reachable(self, st):
        forms = set()

        def pred(x):
            if x[1] and x[2] != 'id':
                forms.add(x[2])
            return False
        self.ex.ip.holds(('o', 'self'), st, pred)
        return bool(forms)

    def stop_if(self, ex, st):
        if not st.mon[0]:
            return False
        return not self.reachable(st) or any(n > 1 for _, n in st.mon[1])

    def step(self, ex, step):
        st = step.state
        if not st.mon[0]:
            return
        # locals of the finished action are gone
        gone = not self.reachable(st)
        if self.exempt is not None and self.exempt(self, step, gone):
            return
        if step.target is not None and step.target[0] == 'm' and step.target[2] == 'HALT':
            if not self.delivered(st):
                self.bad('lost-at-halt', step.fn.qual if step.fn else '?',
                         f'{self.cls.name} halts in {_short(step)} while still holding an item that was never handed over', st)
            self.at_end(step)
        elif gone:
            if not self.delivered(st):
                self.bad('lost', step.fn.qual if step.fn else '?',
                         f'{self.cls.name}: {_short(step)} drops an item that was never handed over', st)
            self.at_end(step)

    def at_end(self, step):
        pass

    def bad(self, rule, construct, message, st, ev=None):
        key = (rule, construct.split('hypershell.')[-1])
        if key not in self.violations:
            self.violations[key] = {'rule': rule, 'construct': key[1], 'message': message, 'path': st.path()[-30:],
                                    'where': ev.where if ev is not None else self.where(construct)}

    def where(self, construct):
        fn = self.prog.functions.get(construct)
        return fn.where if fn is not None else self.cls.where

    def enough(self):
        """Once something is wrong, look only a little further."""
        if not self.violations:
            return False
        if not hasattr(self, 'first_at'):
            self.first_at = self.ex.configs
        return self.ex.configs > self.first_at + 2000

    def run(self):
        self.ex.enough = self.enough
        self.ex.run()
        return self


def _short(step):
    return show(step.action) if step.action else str(step.source)
