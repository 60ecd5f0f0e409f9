"""
No state machine reads what it has not set yet (part of C48).

A definite-assignment analysis over the states of each machine: what the constructor and every way to a state have
set on the object is known when the state's action begins; an attribute that an action reads has to be among it, has to
be set before in the same action, or has to be an attribute of the class.
"""
import ast
from typing import Dict, List, Optional, Set

from ..cli import applications, options
from ..interp import Budget, Interp, State
from ..machine import entity_summaries, machine_classes
from ..model import AnalysisBroken, Class, Func
from .errors import shorthand


class Lost(Exception):
    """The structure of a machine is not understood."""


class Machine:

    def __init__(self, prog, cls: Class):
        self.prog, self.cls = prog, cls
        self.chain = [c for c in (cls.mro() if callable(cls.mro) else cls.mro)]
        self.valued = {n for c in self.chain for n in c.assigns} | {n for c in self.chain for n in c.methods}
        self.tracked: Set[str] = set()
        self.enums: Set[str] = set()
        for c in self.chain:
            for fn in c.methods.values():
                me = self.me(fn)
                for node in ast.walk(fn.node):
                    if me and isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Store) and isinstance(node.value, ast.Name) and node.value.id == me:
                        self.tracked.add(node.attr)
        self.tracked -= self.valued
        self.unset: Dict[tuple, str] = {}
        self.reads = 0
        self.active: List[tuple] = []
        self.quiet = False

    @staticmethod
    def me(fn: Func) -> Optional[str]:
        args = fn.node.args.posonlyargs + fn.node.args.args
        return args[0].arg if fn.kind in ('plain', 'property', 'cached_property') and args else None

    def method(self, name, after: Optional[Class] = None) -> Optional[Func]:
        chain = self.chain[self.chain.index(after) + 1:] if after in self.chain else self.chain
        return next((c.methods[name] for c in chain if name in c.methods), None)

    # -- one function -----------------------------------------------------------------------------------------------------

    def function(self, fn: Func, known: Set[str]):
        """What is set at its returns: [(value, names)], and when it falls off its end."""
        key = (fn.qual, frozenset(known))
        if key in self.active or len(self.active) > 8:
            return [(None, set(known))]
        self.active.append(key)
        try:
            return Body(self, fn).run(known)
        finally:
            self.active.pop()

    def begin(self) -> Set[str]:
        init = self.method('__init__')
        if init is None:
            return set()
        exits = self.function(init, set())
        return set.intersection(*(k for _, k in exits)) if exits else set()

    # -- the states -----------------------------------------------------------------------------------------------------------

    def actions(self) -> Dict[str, Func]:
        """The action of each state: the table is evaluated, whichever way it is put together."""
        ip = Interp(self.prog, summaries=entity_summaries(self.prog))
        ip.extern_hook = shorthand
        st = State()
        me = ip.make_self(self.cls, st, opaque=True)
        out = {}
        ip.stack.append(ip._stub(self.cls.module, self.cls))
        for table, s in ip.get_attr(me, 'actions', st, self.cls.node):
            for k, x in s.heap[table[1]].attrs if table[0] == 'd' else ():
                if k[0] == 'm' and x[0] == 'f' and x[1] in self.prog.functions:
                    out[k[2]] = self.prog.functions[x[1]]
                    self.enums.add(k[1].rsplit('.', 1)[-1])
        ip.stack.pop()
        if not out:
            raise Lost(f'{self.cls.qual} has no actions')
        return out

    def ways(self, fn: Func, names):
        """The ways out of an action, path by path: [(state, what was set on the way)]; none if it cannot be followed."""
        try:
            ip = Interp(self.prog, summaries=entity_summaries(self.prog))
            ip.extern_hook = shorthand
            st = State()
            me = ip.make_self(self.cls, st, opaque=True)
            out = []
            for v, s in ip.run_function(fn, [me], [], st)[0]:
                if not (v[0] == 'm' and v[2] in names):
                    return None
                out.append((v[2], set(s.heap[me[1]].attrs)))
            return out
        except (Budget, AnalysisBroken):
            return None

    def targets(self, value, fn: Func, names) -> Set[str]:
        """The states a returned expression may stand for."""
        if isinstance(value, ast.Attribute) and value.attr in names:
            return {value.attr}
        if isinstance(value, ast.IfExp):
            return self.targets(value.body, fn, names) | self.targets(value.orelse, fn, names)
        found = {n.attr for n in ast.walk(fn.node) if isinstance(n, ast.Attribute) and n.attr in names and isinstance(n.value, (ast.Name, ast.Attribute))
                 and ast.unparse(n.value).split('.')[-1] in self.enums}
        return found

    def run(self):
        actions = self.actions()
        names = set(actions)
        start = next((ast.unparse(c.assigns['state']).split('.')[-1] for c in self.chain if 'state' in c.assigns), 'START')
        if start not in names:
            raise Lost(f'{self.cls.qual} does not begin with an action')
        known: Dict[str, Set[str]] = {start: self.begin()}
        todo = [start]
        self.quiet = True
        ways = {state: self.ways(f, names) for state, f in actions.items()}
        while todo:
            state = todo.pop()
            if ways[state] is not None:
                found = [(t, known[state] | done) for t, done in ways[state]]
            else:
                found = [(t, out) for value, out, where in self.leaves(actions[state], known[state]) if value is not None
                         for t in self.targets(value, where, names)]
            for t, out in found:
                new = known[t] & out if t in known else set(out)
                if t not in known or new != known[t]:
                    known[t] = new
                    todo.append(t)
        self.quiet = False
        for state, have in known.items():
            self.leaves(actions[state], have)
        return known

    def leaves(self, fn: Func, known):
        out = []
        for value, names in self.function(fn, set(known)):
            helper = None
            if isinstance(value, ast.Call) and isinstance(value.func, ast.Attribute) and isinstance(value.func.value, ast.Name) and value.func.value.id == self.me(fn):
                helper = self.method(value.func.attr)
            if helper is not None:
                out += [(v, names | k, helper) for v, k in self.function(helper, names)]
            else:
                out.append((value, names, fn))
        return out


class Body:
    """The statements of one function."""

    def __init__(self, machine: Machine, fn: Func):
        self.machine, self.fn = machine, fn
        self.me = machine.me(fn)
        self.exits = []
        self.breaks: List[list] = []
        self.probed = {n.args[1].value for n in ast.walk(fn.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
                       n.func.id in ('hasattr', 'getattr') and len(n.args) > 1 and isinstance(n.args[1], ast.Constant)}

    def run(self, known):
        end = self.block(self.fn.node.body, set(known))
        if end is not None:
            self.exits.append((None, end))
        return self.exits

    def block(self, nodes, known):
        for node in nodes:
            if known is None:
                return None
            known = self.statement(node, known)
        return known

    @staticmethod
    def meet(*sets):
        sets = [s for s in sets if s is not None]
        return set.intersection(*sets) if sets else None

    def statement(self, node, known):
        if isinstance(node, ast.Return):
            if node.value is not None:
                known = self.expr(node.value, known)
            self.exits.append((node.value, known))
            return None
        if isinstance(node, ast.Raise):
            for e in (node.exc, node.cause):
                if e is not None:
                    known = self.expr(e, known)
            return None
        if isinstance(node, (ast.Break, ast.Continue)):
            if self.breaks and isinstance(node, ast.Break):
                self.breaks[-1].append(set(known))
            return None
        if isinstance(node, ast.If):
            known = self.expr(node.test, known)
            return self.meet(self.block(node.body, set(known)), self.block(node.orelse, set(known)))
        if isinstance(node, (ast.While, ast.For, ast.AsyncFor)):
            forever = isinstance(node, ast.While) and isinstance(node.test, ast.Constant) and bool(node.test.value)
            known = self.expr(node.test if isinstance(node, ast.While) else node.iter, known)
            if not isinstance(node, ast.While):
                known = self.bind(node.target, known, first=False)
            self.breaks.append([])
            self.block(node.body, set(known))
            left = self.breaks.pop()
            if forever:
                return self.meet(*left)
            return self.meet(self.block(node.orelse, set(known)), *left)
        if isinstance(node, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            before = set(known)
            body = self.block(node.body, set(known))
            ends = [self.block(node.orelse, body) if body is not None else None]
            for h in node.handlers:
                ends.append(self.block(h.body, set(before)))
            out = self.meet(*ends)
            if node.finalbody:
                final = self.block(node.finalbody, set(before))
                if final is None:
                    return None
                return out | final if out is not None else None
            return out
        if isinstance(node, (ast.With, ast.AsyncWith)):
            for i in node.items:
                known = self.expr(i.context_expr, known)
                if i.optional_vars is not None:
                    known = self.bind(i.optional_vars, known)
            swallows = any('suppress' in ast.unparse(i.context_expr) for i in node.items)
            end = self.block(node.body, set(known))
            return self.meet(end, known) if swallows else end
        if isinstance(node, ast.Assign):
            known = self.expr(node.value, known)
            for t in node.targets:
                known = self.bind(t, known)
            return known
        if isinstance(node, ast.AnnAssign):
            if node.value is None:
                return known
            return self.bind(node.target, self.expr(node.value, known))
        if isinstance(node, ast.AugAssign):
            if isinstance(node.target, ast.Attribute):
                self.read(node.target, known)
            return self.bind(node.target, self.expr(node.value, known))
        if isinstance(node, ast.Delete):
            return known - {t.attr for t in node.targets if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.me}
        if isinstance(node, ast.Match):
            known = self.expr(node.subject, known)
            whole = any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in node.cases)
            ends = [self.block(c.body, self.expr(c.guard, set(known)) if c.guard is not None else set(known)) for c in node.cases]
            return self.meet(*ends, None if whole else known)
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return known
        for child in ast.iter_child_nodes(node):
            if isinstance(child, ast.expr):
                known = self.expr(child, known)
        return known

    def bind(self, target, known, first=True):
        if isinstance(target, ast.Attribute):
            if isinstance(target.value, ast.Name) and target.value.id == self.me:
                return known | {target.attr} if first else known
            return self.expr(target.value, known)
        if isinstance(target, (ast.Tuple, ast.List)):
            for t in target.elts:
                known = self.bind(t, known, first)
            return known
        if isinstance(target, ast.Starred):
            return self.bind(target.value, known, first)
        if isinstance(target, ast.Subscript):
            return self.expr(target.slice, self.expr(target.value, known))
        return known

    def read(self, node: ast.Attribute, known):
        m = self.machine
        if not (isinstance(node.value, ast.Name) and node.value.id == self.me) or node.attr not in m.tracked or node.attr in self.probed:
            return
        m.reads += not m.quiet
        if node.attr not in known and not m.quiet:
            m.unset.setdefault((node.attr, self.fn.qual), f'{self.fn.module.relpath}:{node.lineno}')

    def expr(self, node, known):
        if isinstance(node, (ast.Lambda, ast.GeneratorExp)):
            return known if isinstance(node, ast.Lambda) else self.expr(node.generators[0].iter, known)
        if isinstance(node, ast.BoolOp):
            known = self.expr(node.values[0], known)
            for v in node.values[1:]:
                self.expr(v, set(known))
            return known
        if isinstance(node, ast.IfExp):
            known = self.expr(node.test, known)
            return self.meet(self.expr(node.body, set(known)), self.expr(node.orelse, set(known)))
        if isinstance(node, ast.Call):
            f = node.func
            if isinstance(f, ast.Attribute):
                own = isinstance(f.value, ast.Name) and f.value.id == self.me
                parent = isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'
                known = self.expr(f.value, known) if not parent else known
                if own:
                    self.read(f, known)
            else:
                own = parent = False
                known = self.expr(f, known)
            for a in node.args:
                known = self.expr(a, known)
            for k in node.keywords:
                known = self.expr(k.value, known)
            if own or parent:
                target = self.machine.method(f.attr, self.fn.cls if parent else None)
                if target is not None and target.kind == 'plain':
                    exits = self.machine.function(target, set(known))
                    if exits:
                        known = known | set.intersection(*(k for _, k in exits))
            elif isinstance(f, ast.Name) and f.id == 'setattr' and len(node.args) == 3 and isinstance(node.args[1], ast.Constant) and \
                    isinstance(node.args[0], ast.Name) and node.args[0].id == self.me:
                known = known | {node.args[1].value}
            return known
        if isinstance(node, ast.Attribute):
            if isinstance(node.value, ast.Name):
                if isinstance(node.ctx, ast.Load):
                    self.read(node, known)
                    target = self.machine.method(node.attr) if node.value.id == self.me else None
                    if target is not None and target.kind in ('property', 'cached_property'):
                        self.machine.function(target, set(known))
                return known
            return self.expr(node.value, known)
        for child in ast.iter_child_nodes(node):
            if isinstance(child, ast.expr):
                known = self.expr(child, known)
            elif isinstance(child, ast.comprehension):
                known = self.expr(child.iter, known)
        return known


class Plain(Machine):
    """Another class: its attributes are set when it is made and entered, or by some other method."""

    def __init__(self, prog, cls: Class, elsewhere: Set[str]):
        super().__init__(prog, cls)
        given = {o.dest for o in options(cls)} if cls in applications(prog) else set()
        self.tracked |= {n for c in self.chain for n in c.annotations}
        self.tracked -= self.valued | given | elsewhere
        self.tracked = {a for a in self.tracked if not a.startswith('__') and not any(a in c.setters for c in self.chain)}

    def run(self):
        begin = self.begin()
        enter = self.method('__enter__')
        if enter is not None:
            exits = self.function(enter, set(begin))
            begin |= set.intersection(*(k for _, k in exits)) if exits else set()
        for name in {n for c in self.chain for n in c.methods} - {'__init__', '__enter__'}:
            self.function(self.method(name), set(begin))


def elsewhere(prog, cls):
    """What is set on objects of this class other than while they are made."""
    out = set()
    for fn in prog.functions.values():
        own = fn.cls is not None and fn.name in ('__init__', '__enter__')
        for node in ast.walk(fn.node):
            if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Store):
                if not own or not (isinstance(node.value, ast.Name) and node.value.id == Machine.me(fn)):
                    out.add((fn.cls.qual if fn.cls is not None and isinstance(node.value, ast.Name) and node.value.id == Machine.me(fn) else None, node.attr))
    return out


def unset(rep, prog):
    n = left = 0
    stored = elsewhere(prog, None)
    machines = {c.qual for c in machine_classes(prog)}
    base = {c.qual for c in prog.classes.values() if c.name == 'Thread' and c.module.name.endswith('core.thread')}
    for cls in prog.classes.values():
        chain = [c.qual for c in (cls.mro() if callable(cls.mro) else cls.mro)]
        if cls.qual in machines or not (base & set(chain) - {cls.qual} or cls in applications(prog)):
            continue
        p = Plain(prog, cls, {a for owner, a in stored if owner is None or owner in chain})
        p.run()
        n += p.reads
        for (attr, where), line in p.unset.items():
            rep.bad('unset', f'{where}: {attr}', f'`{attr}` is read but never set on every way to make {cls.name}', line)
        rep.ok('unset', cls.qual, f'{p.reads} reads')
    for cls in machine_classes(prog):
        m = Machine(prog, cls)
        try:
            m.run()
        except Lost:
            left += 1
            continue
        n += m.reads
        for (attr, where), line in m.unset.items():
            rep.bad('unset', f'{where}: {attr}', f'`{attr}` is read in a state that can be reached before it is set', line)
        rep.ok('unset', cls.qual, f'{m.reads} reads')
    rep.count('machines left out', left)
    rep.floor('reads of attributes set by machines', n, 60)
