"""
The hosts of a cluster are those that were named (C49).

The constructors of the list of hosts are interpreted over every kind of configuration (no section, no list, one list,
one pattern, several groups of either, a wrong kind of value) and every way of naming hosts on the command line. What a
pattern stands for is left to one opaque function of its text.
"""
import ast
import re

from ..cli import app, options
from ..interp import C, FALSE, NONE, S, Interp, cval, is_const, mentions, show
from ..report import rule
from .errors import Everything, blank, mro
from .settings import Settings, leaf, namespace

SSH = 'hypershell.cluster.ssh.NodeList'
GROUPS = {'listed': 'list', 'pattern': 'str', 'number': 'int', 'empty': None}
TREES = {
    'no section': {'other': 'str'},
    'no list': {'ssh': {'args': 'str'}},
    'one list': {'ssh': {'nodelist': 'list'}},
    'one pattern': {'ssh': {'nodelist': 'str'}},
    'a number': {'ssh': {'nodelist': 'int'}},
    'groups': {'ssh': {'nodelist': GROUPS}},
}


class Hosts(Settings):

    def __init__(self, prog, cls, tree):
        super().__init__(prog)
        self.cls, self.tree = cls, tree
        self.ip.summaries[f'{cls.qual}()'] = self.made
        for m in ('from_pattern',):
            self.ip.summaries[cls.method(m).qual] = self.pattern
        for fn in prog.functions.values():
            if fn.name == 'blame' and fn.cls is None:
                self.ip.summaries[fn.qual] = lambda ip, f, a, k, st, node: [(S(('label',), 'builtins.str'), st)]

    def world(self):
        st = super().world()
        namespace(st, 'merged', tree=self.tree, ref='cfg:merged')
        return st

    @staticmethod
    def made(ip, cls, args, kwargs, st, node):
        given = [a for a in args if a[0] not in ('k',) and not (a[0] == 'o' and st.heap[a[1]].cls == getattr(cls, 'qual', cls))]
        return [(S(('hosts', ip.snap(given[-1], st) if given else ('none',))), st)]

    @staticmethod
    def pattern(ip, fn, args, kwargs, st, node):
        given = [a for a in args if a[0] != 'k'] + [v for _, v in kwargs]
        return [(S(('pattern', given[0] if given else NONE)), st)]

    def library(self, ip, f, name, recv, args, kwargs, st, node):
        last = (name or '').rsplit('.', 1)[-1]
        if last in ('search', 'match', 'fullmatch', 'findall'):
            return self.matched(last, recv, args, st)
        if last == 'blame':
            return [(S(('label',), 'builtins.str'), st)]
        if name == 'builtins.isinstance' and len(args) == 2 and args[0][0] == 's' and args[0][1][0] == 'setting':
            kinds = [show(a).split('.')[-1] for a in (args[1][1] if args[1][0] == 't' else (args[1],))]
            return [(C(args[0][2].split('.')[-1] in kinds), st)]
        return super().library(ip, f, name, recv, args, kwargs, st, node)

    @staticmethod
    def matched(how, recv, args, st):
        """A regular expression of the program applied to a constant."""
        regex = recv[1][2][0] if recv is not None and recv[0] == 's' and recv[1][0] == 'call' and recv[1][1] == ('x', 're.compile') else None
        texts = list(args)
        if regex is None and len(texts) == 2:
            regex = texts.pop(0)
            if regex[0] == 's' and regex[1][0] == 'call' and regex[1][1] == ('x', 're.compile'):
                regex = regex[1][2][0]
        if regex is None or len(texts) != 1 or not is_const(regex) or not is_const(texts[0]) or not isinstance(cval(texts[0]), str):
            return None
        got = getattr(re, how)(cval(regex), cval(texts[0]))
        if not got:
            return [(NONE if how != 'findall' else FALSE, st)]
        v = S(('match', regex, texts[0]))
        st.facts[('truth', v)], st.facts[('isnone', v)] = True, False
        return [(v, st)]

    def ask(self, method, *args):
        st = self.world()
        for _, path in leaves(self.tree):
            st.facts[('truth', path)] = True        # lists and patterns with something in them
        rets, raised = self.ip.run_function(self.cls.method(method), [('k', self.cls.qual), *args], [], st)
        return rets, raised


def leaves(tree, path=''):
    for k, v in tree.items():
        name = f'{path}.{k}' if path else k
        if isinstance(v, dict):
            yield from leaves(v, name)
        elif v is not None:
            yield v, leaf('merged', name, v)


def only(v, value):
    """Nothing but the value goes into it."""
    return mentions(v, lambda t: t == value[1]) and not mentions(v, lambda t: t[:1] in (('setting',), ('opt',), ('given',)) and t != value[1])


@rule('C49', technique='abstract interpretation of the constructors of host lists over every kind of configuration and argument', level='other',
      explanation='The list of hosts is made from no, plain, and composed names on the command line and from every kind of `ssh.nodelist` with '
                  'and without a group; each result must stand for exactly what was named and everything else must be refused.')
def hosts(rep):
    prog = rep.prog
    cls = prog.cls(SSH)
    make = cls.method('from_config')
    for what, tree in TREES.items():
        node = tree.get('ssh', {}).get('nodelist')
        for group in (None, *GROUPS, 'missing'):
            t = Hosts(prog, cls, tree)
            rets, raised = t.ask('from_config', *([C(group)] if group is not None else []))
            rep.saw(t.ip)
            at, typ = 'ssh.nodelist', node
            if group is not None:
                at, typ = (f'ssh.nodelist.{group}', node.get(group)) if isinstance(node, dict) else (at, 'int')
            about = f'{what}, {"group " + group if group else "no group"}'
            if typ in ('list', 'str'):
                want = 'hosts' if typ == 'list' else 'pattern'
                right = bool(rets) and not raised and all(
                    v[0] == 's' and v[1][0] == want and only(v, leaf('merged', at, typ)) for v, _ in rets)
                got = ', '.join(sorted({show(v)[:60] for v, _ in rets} | {e for e, _, _ in raised})) or 'nothing'
                rep.check('configured hosts', f'NodeList.from_config: {about}', right, f'{about}: gives {got}', make.where)
            else:
                refused = not rets and {e for e, _, _ in raised} and all(e.endswith('ConfigurationError') for e, _, _ in raised)
                got = ', '.join(sorted({show(v)[:60] for v, _ in rets} | {e for e, _, _ in raised})) or 'nothing'
                rep.check('wrong configuration refused', f'NodeList.from_config: {about}', bool(refused), f'{about}: is not refused but gives {got}', make.where)
    named(rep, prog, cls)
    chosen(rep, prog, cls)


def named(rep, prog, cls):
    """Names given on the command line: none, one, several, ranges."""
    make = cls.method('from_cmdline')
    fixed = cls.method('from_config')
    for text, plain in ((None, None), ('', None), ('node1', True), ('node-1.example.org', True), ('a,b', False), ('n[1-3]', False), ('n[1,3]', False),
                        ('n[04-17]x', False), ('a,n[1-3]', False), ('n[7]', False)):
        t = Hosts(prog, cls, TREES['one list'])
        t.ip.summaries[fixed.qual] = lambda ip, f, a, k, st, node: [(S(('configured', *a[1:], *(v for _, v in k if v != NONE))), st)]
        rets, raised = t.ask('from_cmdline', *([C(text)] if text is not None else []))
        rep.saw(t.ip)
        if plain is None:
            right = bool(rets) and all(v[0] == 's' and v[1] in (('configured',), ('configured', NONE)) for v, _ in rets)
            want = 'the configured ones'
        else:
            want = f'those {text} stands for'
            right = bool(rets) and all(v == S(('pattern', C(text))) or plain and v[0] == 's' and v[1][0] == 'hosts' and entries(v[1][1]) == [C(text)]
                                       for v, _ in rets)
        rep.check('named hosts', f'NodeList.from_cmdline: {text!r}', right and not raised, f'with {text!r} the hosts are not {want}: '
                  f'{", ".join(show(v)[:60] for v, _ in rets)}', make.where)


def entries(v):
    return [x[1] if isinstance(x, tuple) and len(x) == 2 and x[0] == '1' else x for x in v[1]] if v[0] in ('lst', 't', 'l') and len(v) > 1 else None


def chosen(rep, prog, cls):
    """The command asks for the group, the names or the configured hosts as it was told."""
    command = app(prog, 'ClusterApp')
    users = [m for c in mro(command) for m in c.methods.values() if any(
        isinstance(n, ast.Name) and n.id == cls.name or isinstance(n, ast.Attribute) and n.attr == cls.name for n in ast.walk(m.node))]
    dest = {f: o.dest for o in options(command) for f in o.flags}
    default = next((o for o in options(command) if '--ssh' in o.flags), None)
    bare = default.const if default is not None else None
    rep.floor('places where hosts are named', len(users), 1)
    own = {m.qual for c in mro(command) for m in c.methods.values()}
    for group, mode, want in ((None, 'bare', ('from_cmdline',)), ('g1', 'bare', ('from_config', C('g1'))), (None, 'n[1-3]', ('from_cmdline', C('n[1-3]')))):
        todo, done = list(users), set()
        while todo:
            fn = todo.pop(0)
            if fn.qual in done:
                continue
            done.add(fn.qual)
            used = []

            def made(ip, f, args, kwargs, st, node):
                if f.cls is not None and f.cls.qual == cls.qual:
                    return [(S(('from', f.name, *(a for a in [*args[1:], *(v for _, v in kwargs)] if a != NONE))), st)]
                used.extend(a for a in [*args, *(v for _, v in kwargs)] if mentions(a, lambda t: t[:1] == ('from',)))
                return [(S(('fresh', f.qual)), st)]
            ip = Interp(prog, summaries=Everything(lambda k: k in own, made))
            ip._globals = {}
            st = blank()
            selfv = ip.make_self(command, st, opaque=True)
            st.heap[selfv[1]].attrs.update({dest['--ssh-group']: C(group) if group else NONE,
                                            dest['--ssh']: C(mode) if mode != 'bare' else C(bare.value) if isinstance(bare, ast.Constant) else NONE})
            kw = [(a.arg, S(('given', a.arg))) for a in fn.node.args.args[1:]]
            rets, _ = ip.run_function(fn, [selfv], kw, st)
            rep.saw(ip)
            callers = [m for c in mro(command) for m in c.methods.values() if m is not fn and any(
                isinstance(n, ast.Attribute) and n.attr == fn.name for n in ast.walk(m.node))]
            if not used and callers and any(mentions(v, lambda t: t[:1] == ('from',)) for v, _ in rets):
                todo += callers             # it names the hosts for others
                continue
            got = {v[1][1:] for v in used if v[0] == 's' and v[1][0] == 'from'}
            about = f'--ssh{"" if mode == "bare" else " " + mode}{" --ssh-group " + group if group else ""}'
            rep.check('hosts asked for', f'{fn.qual}: {about}', got == {want}, f'{about} uses {sorted(map(str, got)) or "no list of hosts"}', fn.where)
