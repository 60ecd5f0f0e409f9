"""
Command-line options and where their values go.

Options are read from the ``add_argument`` calls in the body of an application class. The application's run method is then
interpreted with a symbol for every option, through the library functions and constructors it calls, and every object built on
the way is kept: an option's value reaches an attribute when its symbol is found there.
"""

from __future__ import annotations

import ast
from typing import Dict, List, Optional, Tuple

from .interp import C, FALSE, HObj, Interp, NONE, S, State, TRUE, cval, is_const, mentions, show
from .machine import entity_summaries
from .model import AnalysisBroken, Class, Program

APPLICATION = 'cmdkit.app.Application'
THREAD = 'hypershell.core.thread.Thread'


class Option:
    """One declared option or positional argument."""

    __slots__ = ('flags', 'dest', 'action', 'type', 'nargs', 'default', 'const', 'line', 'group')

    def __init__(self, flags, dest, action, typ, nargs, default, const, line, group):
        self.flags, self.dest, self.action, self.type, self.nargs = flags, dest, action, typ, nargs
        self.default, self.const, self.line, self.group = default, const, line, group

    @property
    def switch(self) -> bool:
        return self.action in ('store_true', 'store_false')

    @property
    def label(self) -> str:
        return max(self.flags, key=len) if self.flags else self.dest

    @property
    def value(self) -> tuple:
        """The symbol standing for what the user gave."""
        if self.switch:
            return S(('opt', self.dest), 'builtins.bool')
        typ = {'int': 'builtins.int', 'float': 'builtins.float'}.get(self.type)
        return S(('opt', self.dest), typ)


def constant(node):
    try:
        return ast.literal_eval(node)
    except (ValueError, SyntaxError):
        return None


def options(cls: Class) -> List[Option]:
    """The options declared in a class body (or in a loop or a call there with constant flags)."""
    out: List[Option] = []
    for owner in reversed(cls.mro):
        for node in ast.walk(owner.node):
            if not (isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'add_argument'):
                continue
            flags = [constant(a) for a in node.args]
            if not flags or not all(isinstance(f, str) for f in flags):
                continue
            kw = {k.arg: k.value for k in node.keywords if k.arg}
            action = constant(kw['action']) if 'action' in kw else 'store'
            if action in ('version', 'help'):
                continue
            names = [f for f in flags if f.startswith('-')]
            dest = constant(kw['dest']) if 'dest' in kw else None
            if dest is None:
                long = [f for f in names if f.startswith('--')]
                dest = (long or names or flags)[0].lstrip('-').replace('-', '_')
            typ = ast.unparse(kw['type']) if 'type' in kw else None
            group = ast.unparse(node.func.value)
            out.append(Option(names, dest, action, typ, constant(kw['nargs']) if 'nargs' in kw else None,
                              kw.get('default'), kw.get('const'), node.lineno, group))
    return out


def applications(prog: Program) -> List[Class]:
    return sorted((c for c in prog.classes.values() if APPLICATION in c.all_ext_bases() and c.assigns.get('interface') is not None),
                  key=lambda c: c.qual)


def app(prog: Program, name: str) -> Class:
    for c in applications(prog):
        if c.name == name:
            return c
    raise AnalysisBroken(f'no application class {name}')


class Built:
    """An object with what it was at the end of a path."""

    __slots__ = ('cls', 'attrs', 'ref', 'st')

    def __init__(self, cls, attrs, ref, st):
        self.cls, self.attrs, self.ref, self.st = cls, attrs, ref, st

    def get(self, name):
        return self.attrs.get(name if name in self.attrs else self.cls.holder(name))


class Flow:
    """Interpret a method of an application and collect what is built on each of its paths."""

    def __init__(self, prog: Program, cls: Class, method='run', given: Optional[Dict[str, tuple]] = None, summaries=None, hook=None,
                 on_event=None, setup: List[str] = (), facts: Optional[Dict[tuple, bool]] = None):
        self.prog, self.cls = prog, cls
        self.options = options(cls)
        self.prepare(prog, summaries, hook, on_event)
        st = State()
        st.mon = ()
        self.selfv = self.ip.make_self(cls, st, opaque=False)
        attrs = {o.dest: o.value for o in self.options}
        attrs.update(given or {})
        st.heap['self'] = HObj('obj', cls.qual, attrs)
        self.attrs = attrs
        st.facts.update(facts or {})
        states = [st]
        self.raised = []
        for name in setup:
            fn = cls.method(name)
            if fn is None:
                raise AnalysisBroken(f'{cls.qual} has no method {name}')
            nxt = []
            for s in states:
                rets, raised = self.ip.run_function(fn, [self.selfv], [], s)
                self.raised += raised
                nxt += [o for _, o in rets]
            states = nxt
        self.paths = []
        for s in states:
            rets, raised = self.ip.run_function(cls.method(method), [self.selfv], [], s)
            self.paths += [o for _, o in rets]
            self.raised += raised

    def prepare(self, prog, summaries, hook, on_event):
        base = prog.cls(THREAD)
        summ = {**entity_summaries(prog), **(summaries or {})}
        summ[base.methods['join'].qual] = lambda ip, fn, a, k, st, node: [(NONE, st)]
        self.ip = Interp(prog, summaries=summ)
        self.ip.extern_hook = self.external
        self.hook, self.user_event = hook, on_event
        self.ip.on_event = self.event

    def option(self, flag: str) -> Option:
        for o in self.options:
            if flag in o.flags or (not o.flags and o.dest == flag):
                return o
        raise KeyError(flag)

    def default(self, option: Option):
        """What an option is when it is not given, as a value."""
        node = option.default
        if isinstance(node, ast.Name) and node.id in self.cls.assigns:
            node = self.cls.assigns[node.id]
        if node is None:
            return FALSE if option.action == 'store_true' else NONE
        res = self.ip.ev_in(self.cls.module, node, State(), self.cls)
        return res[0][0] if len(res) == 1 else None

    def external(self, ip, f, name, recv, args, kwargs, st, node):
        if self.hook is not None:
            return self.hook(ip, f, name, recv, args, kwargs, st, node)
        return None

    def event(self, ip, ev, st):
        if self.user_event is not None:
            self.user_event(ip, ev, st)

    @staticmethod
    def built(st: State, prog: Program) -> Dict[str, List[Built]]:
        """Objects of the package's classes that exist at the end of a path, by class name."""
        out: Dict[str, List[Built]] = {}
        for ref, obj in st.heap.items():
            if obj.kind == 'obj' and obj.cls in prog.classes and ref != 'self':
                cls = prog.classes[obj.cls]
                out.setdefault(cls.name, []).append(Built(cls, obj.attrs, ref, st))
        return out


class Call(Flow):
    """A call of a library function with a symbol for every parameter."""

    def __init__(self, prog: Program, fn, params: Dict[str, Optional[str]], given=None, summaries=None, hook=None, on_event=None, facts=None):
        self.prog, self.fn, self.cls = prog, fn, fn
        self.prepare(prog, summaries, hook, on_event)
        self.options = [Option([n], n, 'store_true' if t == 'builtins.bool' else 'store', {'builtins.int': 'int'}.get(t), None, None, None, 0,
                               '') for n, t in params.items()]
        self.attrs = {n: S(('opt', n), t) for n, t in params.items()}
        self.attrs.update(given or {})
        st = State()
        st.mon = ()
        st.facts.update(facts or {})
        rets, self.raised = self.ip.run_function(fn, [], [(n, v) for n, v in self.attrs.items()], st)
        self.paths = [o for _, o in rets]
