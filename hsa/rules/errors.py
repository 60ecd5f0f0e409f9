"""Failures of a command reach its exit status."""

from __future__ import annotations

import ast
import builtins

from ..cli import APPLICATION, Flow, applications
from ..interp import Budget, C, FALSE, Interp, NONE, S, State, cval, is_const, mentions, show
from ..report import rule

GROUP = 'cmdkit.app.ApplicationGroup'
# names of errors the libraries raise, with what they derive from
LIBRARY = {
    'cmdkit.config.ConfigurationError': ('builtins.Exception',),
    'sqlalchemy.exc.SQLAlchemyError': ('builtins.Exception',),
    'sqlalchemy.exc.StatementError': ('sqlalchemy.exc.SQLAlchemyError', 'builtins.Exception'),
    'sqlalchemy.exc.DBAPIError': ('sqlalchemy.exc.StatementError', 'sqlalchemy.exc.SQLAlchemyError', 'builtins.Exception'),
    'sqlalchemy.exc.OperationalError': ('sqlalchemy.exc.DatabaseError', 'sqlalchemy.exc.DBAPIError', 'sqlalchemy.exc.StatementError',
                                        'sqlalchemy.exc.SQLAlchemyError', 'builtins.Exception'),
    'sqlalchemy.exc.IntegrityError': ('sqlalchemy.exc.DatabaseError', 'sqlalchemy.exc.DBAPIError', 'sqlalchemy.exc.StatementError',
                                      'sqlalchemy.exc.SQLAlchemyError', 'builtins.Exception'),
    'sqlalchemy.orm.exc.StaleDataError': ('sqlalchemy.exc.SQLAlchemyError', 'builtins.Exception'),
    'multiprocessing.AuthenticationError': ('multiprocessing.ProcessError', 'builtins.Exception'),
    'socket.gaierror': ('builtins.OSError', 'builtins.Exception'),
    'subprocess.CalledProcessError': ('subprocess.SubprocessError', 'builtins.Exception'),
}
BUILTIN = ['RuntimeError', 'NotImplementedError', 'RecursionError', 'ValueError', 'UnicodeDecodeError', 'TypeError', 'KeyError', 'IndexError',
           'AttributeError', 'AssertionError', 'ZeroDivisionError', 'MemoryError', 'OSError', 'FileNotFoundError', 'FileExistsError', 'PermissionError',
           'IsADirectoryError', 'TimeoutError', 'BrokenPipeError', 'ConnectionError', 'ConnectionResetError', 'ConnectionRefusedError', 'EOFError']
STATUS = 'cmdkit.app.exit_status'


def kinds(prog):
    """Every kind of error considered, with the names of the classes it is an instance of."""
    out = {}
    for n in BUILTIN:
        out[f'builtins.{n}'] = {f'builtins.{c.__name__}' for c in getattr(builtins, n).__mro__}
    for n, b in LIBRARY.items():
        out[n] = {n, *b}
    for c in prog.classes.values():
        own = {x.qual for x in mro(c)}
        ext = set(c.all_ext_bases())
        if any(b.startswith('builtins.') and isinstance(getattr(builtins, b[9:], None), type) and issubclass(getattr(builtins, b[9:]), Exception)
               for b in ext):
            for b in list(ext):
                ext |= out.get(b, set())
            out[c.qual] = own | ext | {'builtins.Exception'}
    return out


def mro(cls):
    return cls.mro() if callable(cls.mro) else cls.mro


def attribute(cls, name):
    return next((c for c in mro(cls) if name in c.assigns), None)


def leaves(prog):
    return applications(prog)


def shorthand(ip, f, name, recv, args, kwargs, st, node):
    """A function the program makes from another one, at module level."""
    if recv is None and name and '.' in name:
        modname, var = name.rsplit('.', 1)
        mod = ip.prog.modules.get(modname)
        nodes = mod.globals.get(var, []) if mod is not None else []
        if len(nodes) == 1 and isinstance(nodes[0], (ast.Call, ast.Lambda)):
            out = []
            for v, s in ip.ev_in(mod, nodes[0], st):
                out += ip.call(v, list(args), tuple(kwargs), s, node) if v[0] in ('p', 'f', 'lam') else [(None, s)]
            if all(v is not None for v, _ in out):
                return out
    return None


def interpreter(prog, **kw):
    ip = Interp(prog, **kw)
    ip.exact_lists = ip.enter_objects = True
    ip.extern_hook = shorthand
    return ip


def blank():
    st = State()
    st.mon = ()
    return st


def mapping(prog, cls):
    """What a class does about errors, in order: (class of the error, handler) and the state they live in."""
    owner = attribute(cls, 'exceptions')
    if owner is None:
        return interpreter(prog), None, blank()
    ip = interpreter(prog)
    for v, st in ip.ev_in(owner.module, owner.assigns['exceptions'], blank(), owner):
        if v[0] == 'd':
            return ip, st.heap[v[1]].attrs, st
    return ip, None, blank()


def status_name(v):
    s = show(v)
    return s.rsplit('.', 1)[-1] if 'exit_status.' in s else None


def failure(v):
    """Whether a status is surely not success."""
    if is_const(v):
        return isinstance(cval(v), int) and cval(v) is not False and cval(v) != 0
    n = status_name(v)
    return n is not None and n != 'success'


CARRIED = S(('carried', 0), 'builtins.int')
LOUD = ('.critical', '.error', '.exception', '.warning')


def says(ev, about):
    """An event that shows the user something about the error."""
    if ev.kind not in ('call', 'log') or not ev.name:
        return False
    parts = [*(ev.args or ()), *(x for _, x in (ev.kwargs or ()))]
    if ev.name == 'builtins.print':
        if not any(k == 'file' and 'stderr' in show(x) for k, x in (ev.kwargs or ())):
            return False
    elif not (ev.name.endswith(LOUD) or ev.name == 'sys.stderr.write'):
        return False
    return about is None or any(x == about or mentions(x, lambda y: y == about[1]) for x in parts)


class Handlers:
    """The table of one application, applied to each kind of error."""

    def __init__(self, rep, cls, table):
        self.rep, self.cls, self.prog = rep, cls, rep.prog
        self.ip, self.ents, self.st = mapping(rep.prog, cls)
        self.said = {}

    def first(self, bases):
        for k, h in self.ents or ():
            if k[0] in ('k', 'x') and (k[1] in bases or self.alias(k[1]) in bases):
                return k[1], h
        return None

    @staticmethod
    def alias(name):
        return {'builtins.IOError': 'builtins.OSError', 'builtins.EnvironmentError': 'builtins.OSError'}.get(name, name)

    def outcome(self, handler, exc):
        """(status, whether the error was mentioned in a message) on each path of the handler, and what it raises."""
        ip, st = self.ip, self.st.copy()
        st.mon = ('silent',)
        value = S(('exc', exc), exc)
        plain = type(ip).get_attr

        def attr(obj, name, s, node):
            if obj == value and name == 'args':
                return [(('t', (CARRIED,)), s)]
            return plain(ip, obj, name, s, node)

        def note(_, ev, s):
            if says(ev, value):
                s.mon = ('said',)
        ip.get_attr, ip.on_event = attr, note
        out = []
        ip.raise_sinks.append([])
        try:
            for v, s in ip.call(handler, [value], (), st, None):
                out.append((v, s.mon[0], s))
        finally:
            raised = ip.raise_sinks.pop()
        return out, raised


@rule('C46', technique='interpretation of every handler of errors on every kind of error; injection of failures at every call that leaves a command',
      explanation='The table of error handlers of every command is evaluated and applied, in order, to each kind of error the program and its libraries '
                  'raise. Functions of commands that contain handlers are interpreted with each call they make failing.')
def errors(rep):
    prog = rep.prog
    universe = kinds(prog)
    rep.count('kinds of errors', len(universe))
    apps = leaves(prog)
    rep.floor('commands', len(apps), 10)
    n = 0
    for cls in apps:
        h = Handlers(rep, cls, None)
        done = {}
        for exc, bases in universe.items():
            got = h.first(bases)
            if got is None:
                continue                       # the error leaves the program as it is
            n += 1
            key, handler = got
            own = exc in prog.classes
            outs, raised = h.outcome(handler, exc)
            name, where = f'{cls.name}: {exc.rsplit(".", 1)[-1]}', cls.where
            for v, said, s in outs:
                if v == CARRIED:               # the error was raised to end with this very status
                    rep.check('status', name, own and carries_status(prog, exc), 'the command ends with whatever the error carries', where)
                    continue
                rep.check('status', name, failure(v), f'the command ends with {show(v)} when this error stops it', where)
                rep.check('reported', name, said == 'said', 'nothing about the error is reported when it stops the command', where)
                if 'cmdkit.config.ConfigurationError' in bases:
                    rep.check('bad-config', name, status_name(v) == 'bad_config', f'a wrong configuration ends the command with {show(v)}', where)
            rep.check('returns', name, bool(outs), 'the command does not end with a status', where)
        rep.saw(h.ip)
    rep.floor('errors handled', n, 100)
    surfacing(rep)
    leaving(rep)
    dispatch(rep)
    importing(rep)
    unreadable(rep)


def carries_status(prog, qual):
    """Whether an error of the program is raised with nothing but a value that is no text."""
    name, sites = qual.rsplit('.', 1)[-1], []
    for mod in prog.modules.values():
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call):
                f = n.exc.func
                if (f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else '') == name:
                    sites.append(n.exc)
    return bool(sites) and all(len(c.args) == 1 and not c.keywords and not isinstance(c.args[0], (ast.JoinedStr, ast.BinOp)) and
                               not (isinstance(c.args[0], ast.Constant) and not isinstance(c.args[0].value, int)) and
                               not (isinstance(c.args[0], ast.Call) and isinstance(c.args[0].func, ast.Name) and c.args[0].func.id == 'str')
                               for c in sites)


class Everything(dict):
    """A summary for every function of the program but those the command consists of."""

    def __init__(self, own, handler):
        super().__init__()
        self.own, self.handler = own, handler

    def get(self, key, default=None):
        return None if self.own(key) else self.handler

    def __contains__(self, key):
        return not self.own(key)

    def __bool__(self):
        return True

    def __iter__(self):
        return iter((str(id(self)),))


class Injected:
    """A method of a command with every call that leaves the command's own code failing, one at a time."""

    KINDS = ('builtins.RuntimeError', 'hypershell.core.exceptions.DatabaseUninitialized', '?other')

    def __init__(self, prog, cls, method, alone=False, within=()):
        self.prog, self.cls = prog, cls
        self.thread = next((c.qual for c in prog.classes.values() if c.name == 'Thread' and c.module.name.endswith('core.thread')), None)
        self.fn = fn = cls.method(method)
        self.mine = {fn.qual, *within} if alone else {fn.qual, *(m.qual for c in mro(cls) if APPLICATION in c.all_ext_bases() for m in c.methods.values())}
        self.ip = Interp(prog, summaries=Everything(self.own, self.fail))
        self.ip._globals = {}
        self.ip.extern_hook = self.library
        self.ip.on_event = self.event
        self.ip.dedupe_outs = self.join
        self.ip.step_limit = 3_000_000 if alone else 200_000
        self.sites, self.joined = set(), 0
        # errors the command itself looks for may come from any call of a library
        self.expected = sorted({f'builtins.{n.id}' for c in mro(cls) if APPLICATION in c.all_ext_bases() for h in ast.walk(c.node)
                                if isinstance(h, ast.ExceptHandler) and h.type is not None for n in ast.walk(h.type) if isinstance(n, ast.Name) and
                                isinstance(getattr(builtins, n.id, None), type) and n.id not in ('Exception', 'BaseException')})
        # and errors of other libraries that it looks for stand for a failure of what it called
        named = {prog.resolve_expr(n, c.module, c) for c in mro(cls) if APPLICATION in c.all_ext_bases() for h in ast.walk(c.node)
                 if isinstance(h, ast.ExceptHandler) and h.type is not None for n in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}
        self.kinds = (*self.KINDS, *sorted(n for n in named if isinstance(n, str) and not n.startswith('builtins.')))
        st = blank()
        selfv = self.ip.make_self(cls, st, opaque=True)
        given = [selfv] if fn.kind not in ('static', 'class') else [('k', cls.qual)] if fn.kind == 'class' else []
        given += [S(('given', a.arg)) for a in fn.node.args.args[len(given):]]
        self.paths, self.raised = self.ip.run_function(fn, given, [], st)

    def own(self, key):
        if key in self.mine:
            return True
        if key.endswith('()'):
            cls = self.prog.classes.get(key[:-2])
            return cls is not None and self.thread not in {c.qual for c in mro(cls)}
        fn = self.prog.functions.get(key)
        return fn is not None and fn.cls is None and fn.module is self.cls.module

    def library(self, ip, f, name, recv, args, kwargs, st, node):
        if ip.try_depth and not st.mon:
            for k in self.expected:
                ip.raise_sinks[-1].append((k, S(('exc', k)), st.copy()))
        return shorthand(ip, f, name, recv, args, kwargs, st, node)

    def join(self, outs):
        """Paths that differ only in what was found true on the way are followed once; of very many the ones after a failure and a sample."""
        seen, res, normal = set(), [], 0
        for kind, v, st in outs:
            if kind == 'next' and not st.mon and len(outs) > 64:
                st = st.copy()
                st.facts = {}
            k = (kind, v, st.key()) if len(outs) <= 64 or not st.mon else (kind, v, st.mon)
            if k in seen:
                continue
            seen.add(k)
            if kind == 'next' and not st.mon:
                normal += 1
                if normal > 64:
                    self.joined += 1
                    continue
            res.append((kind, v, st))
        return res

    def fail(self, ip, fn, args, kwargs, st, node):
        name = fn.qual
        if not st.mon:
            self.sites.add((name, getattr(node, 'lineno', 0)))
            for k in self.kinds:
                s = st.copy()
                s.mon = ('failed', name, k)
                ip.raise_sinks[-1].append((k, S(('exc', k)), s))
        ret = args[0][1] if fn.name == 'new' and args and args[0][0] == 'k' else None
        return [(S(('fresh', 'outside', name), ret), st)]

    def event(self, ip, ev, st):
        if ev.kind == 'log' and ev.name in ('.critical', '.error') and not st.mon:
            st.mon = ('complained', ev.name, getattr(ev.node, 'lineno', 0))


def may_swallow(fn):
    """Whether a function has anything in it that could keep an error from its caller."""
    return any(isinstance(n, (ast.Try, getattr(ast, 'TryStar', ast.Try), ast.With, ast.AsyncWith)) for n in ast.walk(fn.node))


def may_complain(fn):
    return any(isinstance(n, ast.Attribute) and f'.{n.attr}' in ('.critical', '.error') for n in ast.walk(fn.node))


def surfacing(rep):
    """Errors of what a command uses, and those it finds itself, are not kept from whoever runs it."""
    prog, n = rep.prog, 0
    for cls in leaves(prog):
        parts = {m.name: cls.method(m.name) for c in mro(cls) if APPLICATION in c.all_ext_bases() for m in c.methods.values()}
        n += len(parts)
        for name, fn in sorted(parts.items()):
            construct = f'{cls.name}.{name}'
            if fn.abstract or not may_swallow(fn):
                rep.ok('surfaces', construct, 'no handler and no context')
                continue
            own, within = {m.qual for m in parts.values()}, set()
            while True:
                try:
                    t = Injected(prog, cls, name, alone=True, within=within)
                except Budget:
                    t = None
                    break
                bad = {st.mon for _, st in t.paths if st.mon and st.mon[0] == 'failed'}
                # a part of the command itself fails only as what it calls does: it is followed
                inner = {m[1] for m in bad} & own - within - {fn.qual}
                if not inner:
                    break
                within |= inner
            if t is None:
                rep.count('functions with too many paths')
                continue
            rep.saw(t.ip)
            rep.count('calls made to fail', len(t.sites))
            rep.check('surfaces', construct, not bad, f'goes on as if nothing happened although {sorted(bad)[0][1] if bad else None} failed', fn.where)
        for name in ('__enter__', 'run'):
            fn = cls.method(name)
            if fn is None or (name == 'run' and not any(may_complain(m) for m in parts.values())):
                continue
            try:
                t = Injected(prog, cls, name, alone=name == '__enter__')
            except Budget:
                rep.count('functions with too many paths')
                continue
            rep.saw(t.ip)
            bad = [st.mon for _, st in t.paths if st.mon and st.mon[0] == 'complained']
            rep.check('complains', f'{cls.name}.{name}', not bad, f'the command reports a failure (line {bad[0][-1] if bad else 0}) and succeeds', fn.where)
            if name == '__enter__':
                rep.check('enters', cls.name, all(v[0] == 'o' and st.heap[v[1]].cls == cls.qual for v, st in t.paths), 'entering the command '
                          'does not give the command', fn.where)
    rep.floor('functions of commands', n, 40)


def leaving(rep):
    """Nothing hides the error it is left with."""
    prog = rep.prog
    for cls in sorted(prog.classes.values(), key=lambda c: c.qual):
        fn = cls.methods.get('__exit__')
        if fn is None or fn.abstract:
            continue
        ip = interpreter(prog, summaries=Everything(lambda k: k == fn.qual, lambda ip, f, a, k, st, node: [(S(('fresh', f.qual)), st)]))
        ip._globals = {}
        st = blank()
        selfv = ip.make_self(cls, st, opaque=True)
        error = S(('exc', 'builtins.Exception'), 'builtins.Exception')
        st.facts[('truth', error)], st.facts[('isnone', error)] = True, False
        rets, _ = ip.run_function(fn, [selfv, ('x', 'builtins.Exception'), error, S(('tb',))], [], st)
        for v, s in rets:
            rep.check('exit', cls.name, v in (NONE, FALSE, C(0)), f'leaving it with an error gives {show(v)}, which hides the error', fn.where)
        rep.saw(ip)


def dispatch(rep):
    """Groups end with the status of the command they dispatch to, and so does the program."""
    prog = rep.prog
    groups = sorted((c for c in prog.classes.values() if GROUP in c.all_ext_bases()), key=lambda c: c.qual)
    rep.floor('groups of commands', len(groups), 2)
    completed = 'cmdkit.app.CompletedCommand'
    bases = {completed, 'builtins.Exception', 'builtins.BaseException'}
    reach = {}
    for cls in groups:
        for m in ('run', '__exit__', '__enter__', 'main', 'from_cmdline'):
            rep.check('group', f'{cls.name}.{m}', cls.method(m) is None, 'a group of commands replaces how commands are dispatched', cls.where)
        if attribute(cls, 'exceptions') is not None:
            h = Handlers(rep, cls, None)
            got = h.first(bases)
            outs = h.outcome(got[1], completed)[0] if got else ()
            rep.check('group', f'{cls.name}.exceptions', bool(outs) and all(v == CARRIED or show(v) == show(S(('call', ('x', 'builtins.int'), (CARRIED,), ()))) or
                                                                             mentions(v, lambda x: x == CARRIED) for v, _, _ in outs),
                      'the status of the command that ran is not what the group ends with', cls.where)
        owner = attribute(cls, 'commands')
        if owner is None:
            rep.bad('group', f'{cls.name}.commands', 'a group without commands', cls.where)
            continue
        ip = interpreter(prog)
        for v, st in ip.ev_in(owner.module, owner.assigns['commands'], blank(), owner):
            if v[0] == 'd':
                reach[cls.qual] = [(cval(k), x[1]) for k, x in st.heap[v[1]].attrs if is_const(k) and x[0] in ('k', 'x')]
    main = next((f for f in prog.functions.values() if f.cls is None and f.name == 'main' and f.module.name == 'hypershell'), None)
    rep.check('main', 'main', main is not None, 'there is no entry point', '')
    if main is None:
        return
    near = {f.qual for f in main.module.functions.values() if f.cls is None}
    ip = interpreter(prog, summaries=Everything(lambda k: k in near, lambda ip, f, a, k, st, node: [(S(('fresh', f.qual)), st)]))
    ip._globals = {}
    rets, raised = ip.run_function(main, [], [], blank())
    rep.saw(ip)
    top = set()
    for v, st in rets:
        called = {x for c in groups for x in (c.qual,) if mentions(v, lambda y: y == ('k', c.qual)) or f'{c.name}.main' in show(v)}
        rep.check('main', 'main', len(called) == 1, f'the program ends with {show(v)[:80]}', main.where)
        top |= called
    rep.check('main', 'main', bool(rets), 'the program does not end', main.where)
    todo, seen = list(top), set()
    while todo:
        q = todo.pop()
        if q not in seen:
            seen.add(q)
            todo += [x for _, x in reach.get(q, ())]
    for cls in [*applications(prog), *groups]:
        rep.check('reachable', cls.name, cls.qual in seen, 'the command cannot be reached from the program', cls.where)
    for q, cmds in reach.items():
        rep.check('commands', q.rsplit('.', 1)[-1], len({x for _, x in cmds}) == len({n for n, _ in cmds}), 'two names stand for one command', prog.classes[q].where)


def unreadable(rep):
    """A settings file that cannot be understood is an error, not an empty file."""
    prog = rep.prog
    readers = [f for f in prog.functions.values() if any(
        isinstance(n, ast.Attribute) and n.attr == 'from_toml' for n in ast.walk(f.node))]
    rep.floor('readers of settings files', len(readers), 1)
    for func in sorted(readers, key=lambda f: f.qual):
        for kind in ('builtins.ValueError', 'builtins.OSError', 'builtins.UnicodeDecodeError'):
            ip = interpreter(prog)

            def failing(ip, f, name, recv, args, kwargs, st, node, kind=kind):
                if name.endswith('.from_toml'):
                    st.mon = (*st.mon, 'failed')
                    ip.raise_sinks[-1].append((kind, S(('exc', kind), kind), st))
                    return []
                return None
            ip.extern_hook = failing
            rets, raised = ip.run_function(func, [S(('arg', i)) for i, _ in enumerate(func.node.args.args)], {}, blank())
            bad = [s for _, s in rets if 'failed' in s.mon]
            seen = [1 for _, _, s in raised if 'failed' in s.mon]
            rep.check('unreadable settings', f'{func.qual} {kind}', bool(seen) and not bad,
                      f'a settings file that cannot be read ({kind}) passes for one without settings', func.where)
            rep.saw(ip)


ABORT = ('sys.exit', 'os._exit', 'builtins.exit', 'builtins.quit')


def importing(rep):
    """What fails when the program is loaded ends it unsuccessfully."""
    prog = rep.prog
    n = 0
    for mod in sorted(prog.modules.values(), key=lambda m: m.name):
        for node in mod.tree.body:
            if not isinstance(node, ast.Try):
                continue
            where = f'{mod.name}: line {node.lineno}'
            broad = [h for h in node.handlers if h.type is None or any(isinstance(x, (ast.Name, ast.Attribute)) and
                     (x.id if isinstance(x, ast.Name) else x.attr) in ('Exception', 'BaseException') for x in ast.walk(h.type))]
            if not broad:
                continue
            n += 1
            ip = interpreter(prog, summaries=Everything(lambda k: False, lambda ip, f, a, k, st, node: [(S(('fresh', f.qual)), st)]))
            ip._globals = {}
            value = S(('exc', 'builtins.Exception'), 'builtins.Exception')

            def ending(ip, f, name, recv, args, kwargs, st, nd):
                if name in ABORT:
                    st.mon = (*st.mon, args[0] if args else C(0))
                    ip.raise_sinks[-1].append(('builtins.SystemExit', S(('exc', 'builtins.SystemExit')), st))
                    return []
                return None
            ip.extern_hook = ending
            for h in broad:
                st = blank()
                if h.name:
                    st.env[h.name] = value
                ip.handlers.append(('builtins.Exception', value))
                ip.raise_sinks.append([])
                try:
                    outs = ip.run_statements(mod, h.body, st)
                finally:
                    raised = ip.raise_sinks.pop()
                    ip.handlers.pop()
                ends = [*(outs[1] if isinstance(outs, tuple) else ()), *raised]
                rets = outs[0] if isinstance(outs, tuple) else outs
                rep.check('import', where, not rets, 'the program goes on although it could not be loaded', where)
                for exc, val, s in ends:
                    if exc == 'builtins.SystemExit':
                        rep.check('import', where, bool(s.mon) and failure(s.mon[-1]), f'the program ends with {show(s.mon[-1]) if s.mon else None} '
                                  'although it could not be loaded', where)
            rep.saw(ip)
    rep.count('loading steps that may fail', n)
