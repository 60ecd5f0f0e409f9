"""Which combinations of options a command refuses."""

from __future__ import annotations

import ast
import itertools

from ..cli import Option, app, options
from ..interp import C, FALSE, Interp, NONE, S, TRUE, show
from ..report import rule
from .errors import Everything, blank, mro, shorthand
from ..cli import APPLICATION

REMOTE = ('--ssh', '--ssh HOST', '--mpi', '--launcher', '--autoscaling')
# options that contradict each other in the documentation of a command, and options that need another one
CONFLICTS = {
    'ClusterApp': [('--no-db', '--initdb'), ('--no-db', '--forever'), ('--no-db', '--restart'), ('--forever', '--restart'),
                   ('--capture', '--output'), ('--capture', '--errors'), *itertools.product(('--output', '--errors'), REMOTE),
                   ('--autoscaling', '--ssh'), ('--autoscaling', '--ssh HOST'), ('--autoscaling', '--mpi'), ('--autoscaling', '--no-db'),
                   ('--ssh', '--mpi'), ('--ssh', '--launcher'), ('--ssh HOST', '--mpi'), ('--ssh HOST', '--launcher'), ('--mpi', '--launcher'),
                   ('--ssh HOST', '--ssh-group')],
    'ServerApp': [('FILE', '--forever'), ('--no-db', '--initdb'), ('--no-db', '--forever'), ('--no-db', '--restart'), ('--forever', '--restart'),
                  ('--print', '--failures')],
    'ClientApp': [('--capture', '--output'), ('--capture', '--errors')],
}
NEEDS = {'ClusterApp': {'--ssh-args': ('--ssh', '--ssh HOST'), '--ssh-group': ('--ssh', '--ssh HOST')}, 'ServerApp': {}, 'ClientApp': {}}
# neither asked for nor ruled out: an option that has no effect beside another one may be refused
UNDECIDED = {
    'ClusterApp': [('FILE', '--restart'), ('--ssh-args', '--ssh-group'), ('--initdb', '--restart'),
                   ('--max-retries', '--no-db'), ('--eager', '--no-db'), ('--no-db', '--no-confirm')],
    'ServerApp': [('FILE', '--restart'), ('--max-retries', '--no-db'), ('--eager', '--no-db')],
    'ClientApp': [],
}
# an option that has an effect beside one of some others only
EFFECTIVE = {'ClusterApp': {'--export-env': ('--ssh', '--ssh HOST'), '--remote-exe': REMOTE,
                            **{f'--{x}': ('--autoscaling',) for x in ('factor', 'period', 'init-size', 'min-size', 'max-size')}}}
METHODS = {'ClusterApp': '__enter__', 'ServerApp': '__enter__', 'ClientApp': '__enter__'}
ALONE = {'--autoscaling': C('fixed'), '--ssh': C('<default>'), '--ssh HOST': C('host01')}
ENVIRONMENT = ('?', 'builtins.OSError', 'builtins.FileNotFoundError', 'builtins.PermissionError')
SKIP = ('--available-ports', '--available-cores', '--available-launchers', '--help', '--version')


def exclusive(cls, option):
    """The group of options the parser takes only one of."""
    for c in mro(cls):
        for n in c.node.body:
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and \
                    n.value.func.attr == 'add_mutually_exclusive_group' and any(ast.unparse(t) == option.group for t in n.targets):
                return option.group
    return None


def built_in(prog):
    """The settings the program comes with, by dotted name."""
    out = {}
    for mod in prog.modules.values():
        for n in mod.tree.body:
            value = getattr(n, 'value', None)
            target = n.targets[0] if isinstance(n, ast.Assign) else getattr(n, 'target', None)
            if not (mod.name.endswith('core.config') and isinstance(target, ast.Name) and target.id == 'default' and isinstance(value, ast.Call)):
                continue

            def walk(node, prefix):
                for k, v in zip(node.keys, node.values):
                    if isinstance(k, ast.Constant):
                        if isinstance(v, ast.Dict):
                            walk(v, f'{prefix}{k.value}.')
                        elif isinstance(v, ast.Constant):
                            out[f'{prefix}{k.value}'] = C(v.value)
            for a in value.args:
                if isinstance(a, ast.Dict):
                    walk(a, '')
    return out


class Choices:
    """The options of a command and what is given for them."""

    def __init__(self, prog, cls):
        self.prog, self.cls = prog, cls
        self.options = {}
        for o in options(cls):
            if o.action in ('version', 'help') or any(f in SKIP for f in o.flags):
                continue
            name = o.label if o.flags else 'FILE' if o.dest == 'filepath' else o.dest.upper()
            self.options[name] = o
            if name == '--ssh':
                self.options['--ssh HOST'] = o
        self.ip = Interp(prog)
        self.defaults, settings = {}, built_in(prog)
        for o in options(cls):
            node = o.default
            if isinstance(node, ast.Name) and node.id in cls.assigns:
                node = cls.assigns[node.id]
            if node is None:
                v = FALSE if o.action == 'store_true' else TRUE if o.action == 'store_false' else NONE
            else:
                res = self.ip.ev_in(cls.module, node, blank(), cls)
                v = res[0][0]
                v = next((x for k, x in settings.items() if show(v) == f'config.{k}'), v)
            self.defaults.setdefault(o.dest, v)

    def given(self, name):
        o = self.options[name]
        if name in ALONE:
            return ALONE[name]
        if o.action == 'store_true':
            return TRUE
        if o.action == 'store_false':
            return FALSE
        if o.action == 'store_const':
            return C(ast.literal_eval(o.const)) if o.const is not None else TRUE
        if o.type in ('int', 'float'):
            return C(3)
        return C('given')


class Trial:
    """A command told some options, up to where it starts to work."""

    def __init__(self, choices, method):
        self.choices, self.cls, prog = choices, choices.cls, choices.prog
        self.fn = self.cls.method(method)
        self.mine = {m.qual for c in mro(self.cls) if APPLICATION in c.all_ext_bases() for m in c.methods.values()}
        self.ip = Interp(prog, summaries=Everything(lambda k: k in self.mine, lambda ip, f, a, k, st, node: [(S(('fresh', f.qual)), st)]))
        self.ip._globals = {}
        self.ip.extern_hook = shorthand
        plain = self.ip.get_attr

        def attr(obj, name, st, node):
            if obj == NONE and not hasattr(None, name):
                self.ip.raise_sinks[-1].append(('builtins.AttributeError', S(('exc', 'builtins.AttributeError')), st))
                return []
            return plain(obj, name, st, node)
        self.ip.get_attr = attr
        self.runs = 0

    def outcome(self, names, values=None):
        """'refused', 'accepted', or what else happens."""
        attrs = dict(self.choices.defaults)
        for n in names:
            attrs[self.choices.options[n].dest] = self.choices.given(n)
        for dest, v in (values or {}).items():
            attrs[dest] = v
        st = blank()
        for v in attrs.values():               # what is configured is a value
            if v[0] == 's':
                st.facts[('isnone', v)] = False
        selfv = self.ip.make_self(self.cls, st, opaque=False)
        st.heap[selfv[1]].attrs = attrs
        self.runs += 1
        rets, raised = self.ip.run_function(self.fn, [selfv], [], st)
        kinds = {(exc or '?').rsplit('.', 1)[-1] for exc, _, _ in raised if exc not in ENVIRONMENT} | ({'accepted'} if rets else set())
        if kinds == {'accepted'}:
            return 'accepted'
        if kinds == {'ArgumentError'}:
            return 'refused'
        return ' or '.join(sorted(kinds))


def expected(name, names):
    """Whether a combination has to be refused, has to be accepted, or is left open."""
    given = set(names)
    if any(set(p) <= given for p in CONFLICTS[name]):
        return 'refused'
    if any(o in given and not given & set(need) for o, need in NEEDS[name].items()):
        return 'refused'
    if any(set(p) <= given for p in UNDECIDED[name]):
        return None
    if any(o in given and not given & set(beside) for o, beside in EFFECTIVE.get(name, {}).items()):
        return None
    return 'accepted'


@rule('C47', technique='concrete interpretation of the checks of options, of every combination of up to three of them',
      explanation='What a command does with its options up to where it starts to work is interpreted for every single option, every pair, and every '
                  'triple that contains an option with a documented conflict. The outcome is compared with the documented conflicts and needs.')
def refusals(rep):
    prog = rep.prog
    total = 0
    for name in CONFLICTS:
        cls = app(prog, name)
        ch = Choices(prog, cls)
        trial = Trial(ch, METHODS[name])
        known = {x for p in CONFLICTS[name] for x in p} | set(NEEDS[name]) | {x for v in NEEDS[name].values() for x in v}
        rep.check('documented', name, not known - set(ch.options), f'options in documented conflicts do not exist: {sorted(known - set(ch.options))}', cls.where)
        known &= set(ch.options)
        label = sorted(ch.options)
        combos = [(), *((x,) for x in label), *itertools.combinations(label, 2)]
        third = sorted(known | {'FILE'} & set(ch.options)) if not rep.thorough else label
        combos += [c for c in itertools.combinations(third, 3) if any(x in known for x in c)]
        for c in combos:
            dests = [ch.options[x].dest for x in c]
            if len(set(dests)) < len(dests):
                continue                       # one option twice
            want = expected(name, c)
            groups = [g for x in c if (g := exclusive(cls, ch.options[x])) is not None]
            got = 'refused' if len(set(groups)) < len(groups) else trial.outcome(c)
            text = ' '.join(c) or 'no options'
            if want == 'refused':
                rep.check('refused', f'{name}: {text}', got == 'refused', f'contradictory options are not refused: {text} ({got})', trial.fn.where)
            elif want == 'accepted':
                rep.check('accepted', f'{name}: {text}', got == 'accepted', f'options that go together are not accepted: {text} ({got})', trial.fn.where)
            else:
                rep.check('decided', f'{name}: {text}', got in ('accepted', 'refused'), f'{text} is neither accepted nor refused ({got})', trial.fn.where)
        total += trial.runs
        rep.saw(trial.ip)
        if name == 'ClientApp':
            for flag in ('--timeout', '--task-timeout'):
                dest = ch.options[flag].dest
                for n in (-1, 0, 1, 30):
                    got = trial.outcome((), {dest: C(n)})
                    rep.check('refused' if n <= 0 else 'accepted', f'{name}: {flag} {n}', got == ('refused' if n <= 0 else 'accepted'),
                              f'{flag} {n} is {got}', trial.fn.where)
    rep.floor('combinations of options tried', total, 500)
