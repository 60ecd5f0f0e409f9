"""
Messages go to the error stream, at the level and in the style that is configured (C50).

The module that sets logging up is interpreted from top to bottom for every level that has a name (and for what has
none), its record class for every level and with and without colors, and the loading of the configuration for every style.
"""
import ast
import logging
import re

from ..interp import C, NONE, S, Event, Interp, TRUE, cval, is_const, mentions, show
from ..report import rule
from .errors import mro
from .settings import CORE, Settings, namespace

LOG = 'hypershell.core.logging'
LEVELS = {'devel': 1, 'trace': 5, 'debug': 10, 'info': 20, 'warning': 30, 'error': 40, 'critical': 50}
STYLES = ('default', 'detailed', 'detailed-compact', 'system')
CONTEXT = ('app_id', 'hostname', 'hostname_short', 'relative_name', 'elapsed', 'elapsed_ms', 'elapsed_delta', 'elapsed_hms')
COLORS = ('reset', 'bold', 'faint', 'italic', 'underline', 'black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white')
RESULTS = ('hypershell.task', 'hypershell.config', 'hypershell.data')       # commands whose purpose is to print something
ATTRIBUTE = re.compile(r'%\((\w+)\)')


class Logging(Settings):
    """Logging is set up with one value for one setting, everything else being unknown."""

    def __init__(self, prog, **given):
        super().__init__(prog)
        self.given = given
        for fn in prog.functions.values():
            if fn.name == 'blame' and fn.cls is None:
                self.ip.summaries[fn.qual] = lambda ip, f, a, k, st, node: [(S(('label',), 'builtins.str'), st)]
            if fn.name == 'write_traceback':
                self.ip.summaries[fn.qual] = self.written
        for cls in prog.classes.values():
            if 'logging.StreamHandler' in cls.all_ext_bases() and cls.method('__init__') is None:
                self.ip.summaries[f'{cls.qual}()'] = self.handler

    @staticmethod
    def handler(ip, cls, args, kwargs, st, node):
        given = dict(kwargs)
        args = [a for a in args if not (a[0] == 'k' or a[0] == 'o' and st.heap[a[1]].cls == getattr(cls, 'qual', None))]
        return [(S(('handler', given.get('stream', args[0] if args else S(('x', 'sys.stderr')))), 'logging.StreamHandler'), st)]

    @staticmethod
    def written(ip, fn, args, kwargs, st, node):
        st.mon = st.mon + (('traceback',),)
        return [(NONE, st)]

    def world(self):
        st = super().world()
        namespace(st, 'merged', tree={'logging': {k: 'str' for k in ('level', 'format', 'datefmt', 'style')}}, ref='cfg:merged')
        for ref, obj in list(st.heap.items()):
            if ref.startswith('cfg:merged') and obj.kind == 'dict':
                obj.attrs = tuple((k, self.given.get(cval(k), v)) for k, v in obj.attrs)
        return st

    def event(self, ip, ev, st):
        if ev.kind == 'call' and st.mon is not None:
            last = (ev.name or '').rsplit('.', 1)[-1]
            if last in ('setLevel', 'addHandler', 'setFormatter', '_log', 'log', 'StreamHandler', 'basicConfig', 'FileHandler',
                        'addLevelName', 'setLogRecordFactory', 'setLoggerClass'):
                st.mon = st.mon + ((last, ev.recv, tuple(ip.snap(a, st) if a[0] == 't' else a for a in ev.args), tuple(ev.kwargs)),)
        super().event(ip, ev, st)

    def library(self, ip, f, name, recv, args, kwargs, st, node):
        last = (name or '').rsplit('.', 1)[-1]
        if name == 'sys.exit':
            st.mon = st.mon + (('exit', args[0] if args else NONE),)
            ip.raise_sinks[-1].append(('builtins.SystemExit', S(('exc', 'builtins.SystemExit')), st))
            return []
        if name == 'builtins.isinstance' and len(args) == 2 and is_const(args[0]):
            kinds = [show(a).split('.')[-1] for a in (args[1][1] if args[1][0] == 't' else (args[1],))]
            own = [k.__name__ for k in type(cval(args[0])).__mro__]
            return [(C(any(k in own for k in kinds)), st)]
        if name == 'logging.StreamHandler':
            return self.handler(ip, None, args, kwargs, st, node)
        if last == 'main' and recv is not None:
            st.mon = st.mon + (('started',),)
            return [(S(('status',)), st)]
        if last == 'blame':
            return [(S(('label',), 'builtins.str'), st)]
        return super().library(ip, f, name, recv, args, kwargs, st, node)

    def module(self, name):
        mod = self.prog.modules[name]
        nodes = [n for n in mod.tree.body if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))]
        return self.ip.run_statements(mod, nodes, self.world())


def number(v):
    """The number of a level."""
    if v is None:
        return None
    if is_const(v):
        return cval(v) if isinstance(cval(v), int) and not isinstance(cval(v), bool) else None
    text = show(v)
    got = re.findall(r"logging\.([A-Z]+)\b|builtins\.getattr\(.*?logging.*?, '([A-Z]+)'\)", text)
    names = [a or b for a, b in got]
    if len(names) != 1 or not isinstance(getattr(logging, names[0], None), int):
        return None
    rest = re.sub(r"builtins\.getattr\(.*?logging.*?, '[A-Z]+'\)|logging\.[A-Z]+", str(getattr(logging, names[0])), text)
    m = re.fullmatch(r'\(?(\d+)(?: ([+-]) (\d+))?\)?', rest)
    if m is None:
        return None
    return int(m[1]) + (int(m[3]) if m[2] == '+' else -int(m[3]) if m[2] else 0)


class Styles(Logging):
    """The configuration is loaded with one style named in it."""

    def library(self, ip, f, name, recv, args, kwargs, st, node):
        last = (name or '').rsplit('.', 1)[-1]
        if name == 'cmdkit.config.Configuration' and st.mon is not None:
            st.mon = st.mon + (('configuration', tuple((k, ip.snap(v, st)) for k, v in kwargs)),)
            return [(('d', 'cfg:merged'), st)]
        if last in ('from_toml', 'from_local', 'from_file') and st.mon is not None:
            return [(S(('file', args[0] if args else NONE)), st)]
        if last == 'exists':
            return [(TRUE, st)]
        if last == 'expand':
            return [(S(('environment',)), st)]
        return super().library(ip, f, name, recv, args, kwargs, st, node)


def spelled(word):
    return word, word.upper(), word.capitalize()


def levels(rep, prog):
    mod = prog.modules[LOG]
    for word, want in LEVELS.items():
        for given in spelled(word):
            t = Logging(prog, level=C(given))
            states, raised = t.module(LOG)
            rep.saw(t.ip)
            what = f'logging.level = "{given}"'
            rep.check('level', what, bool(states), 'a level with a name is refused', mod.relpath)
            for s in states:
                got = [number(x[2][0]) for x in s.mon if x[0] == 'setLevel' and x[2] and 'hypershell' in show(x[1])]
                rep.check('level', what, got == [want], f'the level set is {got}, not {want}', mod.relpath)
                named = {cval(x[2][1]).upper(): number(x[2][0]) for x in s.mon if x[0] == 'addLevelName' and len(x[2]) == 2 and is_const(x[2][1])}
                for extra in ('trace', 'devel'):
                    rep.check('name', extra, named.get(extra.upper()) == LEVELS[extra], f'messages of this level are labelled as {named}', mod.relpath)
    for given in ('verbose', '', 'logging', 3, None, True, 1.5):
        t = Logging(prog, level=C(given))
        states, raised = t.module(LOG)
        rep.saw(t.ip)
        what = f'logging.level = {given!r}'
        rep.check('level', what, not states, 'it is not refused', mod.relpath)
        rep.check('level', what, bool(raised) and all(e in ('builtins.SystemExit', 'cmdkit.config.ConfigurationError') for e, _, _ in raised),
                  f'it ends with {sorted({str(e) for e, _, _ in raised})}', mod.relpath)


def started(rep, prog, t, states):
    """What the program has set up when a command starts."""
    main = next(f for f in prog.functions.values() if f.cls is None and f.name == 'main' and f.module.name == 'hypershell')
    for fn in prog.functions.values():
        if fn.name == 'register_handlers':
            t.ip.summaries[fn.qual] = lambda ip, f, a, k, st, node: [(NONE, st)]
    n = 0
    for st in states:
        st = st.copy()
        st.env = {}
        rets, raised = t.ip.run_function(main, [], [], st)
        rep.saw(t.ip)
        for v, s in rets:
            before = []
            for x in s.mon:
                if x[0] == 'started':
                    break
                before.append(x)
            rep.check('started', 'main', len(before) < len(s.mon), 'no command is started', main.where)
            console = [x for x in before if x[0] == 'addHandler' and x[2] and 'handler' in show(x[2][0])[:9]]
            rep.check('console', 'main', len(console) == 1, f'{len(console)} handlers are installed for messages when a command starts', main.where)
            for x in console:
                h = x[2][0]
                n += 1
                rep.check('error stream', 'main', h[1][1] in (('x', 'sys.stderr'), NONE), f'messages are written to {show(h[1][1])[:80]}', main.where)
                rep.check('console', 'main', "'hypershell'" in show(x[1]) or 'Logger()' in show(x[1]), f'the handler is installed for {show(x[1])[:80]}', main.where)
                form = [y for y in before if y[0] == 'setFormatter' and y[1] == h and y[2]]
                rep.check('format', 'main', len(form) >= 1, 'the handler has no format', main.where)
                for y in form[-1:]:
                    terms = [q for q in ('format', 'datefmt') if mentions(y[2][0], lambda u, q=q: u == ('setting', 'merged', f'logging.{q}'))]
                    call = y[2][0][1]
                    first = call[2][0] if call[0] == 'call' and call[2] else dict(call[3]).get('fmt') if call[0] == 'call' else None
                    rep.check('format', 'main', terms == ['format', 'datefmt'] and first is not None and mentions(first, lambda u: u == ('setting', 'merged', 'logging.format'))
                              and not mentions(first, lambda u: u == ('setting', 'merged', 'logging.datefmt')),
                              f'the format of messages is {show(y[2][0])[:120]}', main.where)
            for x in before:
                if x[0] in ('addHandler', 'basicConfig') and x not in console:
                    rep.check('console', f'{x[0]} {show(x[2][0])[:60] if x[2] else ""}', x[0] == 'addHandler' and bool(x[2]) and 'NullHandler' in show(x[2][0]),
                              'messages go elsewhere', main.where)
            for setup, cls in (('setLoggerClass', 'Logger'), ('setLogRecordFactory', 'LogRecord')):
                got = [x[2][0] for x in s.mon if x[0] == setup and x[2]]
                rep.check('classes', setup, bool(got) and got[-1] == ('k', f'{LOG}.{cls}'), f'{cls} is not what logging uses', main.where)
    rep.floor('starts of a command with a handler', n, 1)


def records(rep, prog):
    cls = prog.cls(f'{LOG}.LogRecord')
    init = cls.method('__init__')
    known = set(CONTEXT)
    for color in (True, False):
        for word in (*(w.upper() for w in LEVELS), 'OTHER'):
            t = Logging(prog, level=C('debug'))
            t.ip.known[('x', 'cmdkit.ansi.COLOR_STDERR')] = C(color)
            states, _ = t.module(LOG)
            for st in states:
                st = st.copy()
                st.env = {}
                me = t.ip.make_self(cls, st, opaque=True)
                obj = st.heap[me[1]]
                obj.attrs = {**obj.attrs, 'levelname': C(word)}
                rets, raised = t.ip.run_function(init, [me], [], st)
                rep.saw(t.ip)
                rep.floor('records', len(rets), 1)
                for _, s in rets:
                    attrs = s.heap[me[1]].attrs
                    known |= set(attrs)
                    for name in CONTEXT:
                        rep.check('attribute', name, name in attrs, 'a message has no such attribute', init.where)
                    for name in COLORS:
                        v = attrs.get(f'ansi_{name}')
                        got = show(v) if v is not None else None
                        good = v is not None and (got.endswith(f'.{name.upper()}.value') if color else v == C(''))
                        rep.check('color', f'ansi_{name}', good, f'it is {got} {"with" if color else "without"} colors', init.where)
                    v = attrs.get('ansi_level')
                    got = show(v) if v is not None else None
                    rep.check('color', 'ansi_level', v is not None and ('.Ansi.' in got if color else v == C('')), f'it is {got} {"with" if color else "without"} colors', init.where)
                    if color:
                        rep.check('color', f'ansi_level of {word}', v is not None and (('NULL' in got) == (word == 'OTHER')), f'it is {got}', init.where)
                    for name, other in (('elapsed', 'relativeCreated'), ('elapsed_ms', 'relativeCreated'), ('elapsed_delta', 'relativeCreated'), ('elapsed_hms', 'relativeCreated'),
                                        ('relative_name', 'name'), ('hostname', 'gethostname'), ('hostname_short', 'gethostname')):
                        v = attrs.get(name)
                        rep.check('attribute', name, v is not None and other in repr(v), f'it is {show(v)[:80] if v is not None else None}', init.where)
                    rep.check('attribute', 'hostname_short', attrs.get('hostname_short') != attrs.get('hostname'), 'it is the whole name', init.where)
    return known


def styles(rep, prog, known):
    core = prog.modules[CORE]
    standard = set(vars(logging.makeLogRecord({}))) | {'message', 'asctime'}
    known = known | standard | {f'ansi_{c}' for c in COLORS} | {'ansi_level'}
    load = prog.functions.get(f'{CORE}.load')
    seen = {}
    for word in STYLES:
        for given in spelled(word):
            t = Styles(prog, style=C(given))
            rets, raised = t.ip.run_function(load, [], [], t.world())
            rep.saw(t.ip)
            what = f'logging.style = "{given}"'
            rep.check('style', what, bool(rets), f'a style with a name is refused ({sorted({str(e) for e, _, _ in raised})})', load.where)
            for v, s in rets:
                made = [x for x in s.mon if x[0] == 'configuration']
                formats = {cval(f) for f in texts(dict(made[-1][1]) if made else {})}
                rep.check('style', what, len(formats) == 1, f'the formats in force are {sorted(formats)}', load.where)
                for f in formats:
                    seen.setdefault(word, set()).add(f)
    for word, formats in seen.items():
        rep.check('style', word, len(formats) == 1, f'its format depends on how it is spelled: {sorted(formats)}', load.where)
        for f in formats:
            names = set(ATTRIBUTE.findall(f))
            rep.check('style', word, not names - known, f'its format uses {sorted(names - known)}, which a message does not have', load.where)
            rep.check('style', word, {'message', 'levelname'} <= names, 'its format leaves out the message or its level', load.where)
            values = {k: 1.0 if k in ('msecs', 'created', 'relativeCreated', 'elapsed') else 'x' for k in names}
            try:
                f % values
                good = True
            except (ValueError, TypeError):
                good = False
            rep.check('style', word, good, 'its format cannot be applied', load.where)
            if any(n.startswith('ansi_') for n in names):
                rep.check('style', word, f.rfind('%(ansi_reset)s') > max((f.rfind(f'%(ansi_{n})s') for n in (*COLORS, 'level') if n != 'reset'), default=-1),
                          'its format leaves colors on', load.where)
    rep.check('style', 'styles', len({tuple(v) for v in seen.values()}) == len(STYLES), 'two styles are one', load.where)
    for given in ('fancy', '', 3, None, True):
        t = Styles(prog, style=C(given))
        rets, raised = t.ip.run_function(load, [], [], t.world())
        rep.saw(t.ip)
        what = f'logging.style = {given!r}'
        rep.check('style', what, not rets, 'it is not refused', load.where)
        rep.check('style', what, bool(raised) and all(e == 'cmdkit.config.ConfigurationError' for e, _, _ in raised), f'it ends with {sorted({str(e) for e, _, _ in raised})}', load.where)


def texts(v):
    """The formats in what was loaded before the files."""
    found = []

    def walk(x):
        if isinstance(x, dict):
            for y in x.values():
                walk(y)
        elif isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'c':
                if isinstance(cval(x), str) and ATTRIBUTE.search(cval(x)):
                    found.append(x)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        walk(y)
    walk({k: x for k, x in v.items() if k not in ('default', 'system', 'user', 'local', 'env')})
    return found


def custom(rep, prog):
    """The two levels the program adds."""
    cls = prog.cls(f'{LOG}.Logger')
    for name in ('trace', 'devel'):
        fn = cls.method(name)
        rep.check('method', name, fn is not None, 'there is no such level', '')
        if fn is None:
            continue
        for enabled in (True, False):
            t = Logging(prog, level=C('debug'))
            states, _ = t.module(LOG)
            asked = t.ip.extern_hook

            def library(ip, f, n, recv, args, kwargs, st, node, enabled=enabled, asked=asked):
                if (n or '').rsplit('.', 1)[-1] == 'isEnabledFor':
                    st.mon = st.mon + (('asked', number(args[0]) if args else None),)
                    return [(C(enabled), st)]
                return asked(ip, f, n, recv, args, kwargs, st, node)
            t.ip.extern_hook = library
            for st in states:
                st = st.copy()
                st.env, st.mon = {}, ()
                me = t.ip.make_self(cls, st, opaque=True)
                msg = S(('given', 'msg'), 'builtins.str')
                rets, raised = t.ip.run_function(fn, [me, msg], [], st)
                rep.saw(t.ip)
                rep.floor(f'{name} calls', len(rets), 1)
                for _, s in rets:
                    logged = [x for x in s.mon if x[0] in ('_log', 'log')]
                    asks = [x[1] for x in s.mon if x[0] == 'asked']
                    rep.check('method', name, all(a == LEVELS[name] for a in asks), f'it asks whether {asks} is enabled', fn.where)
                    if enabled or not asks:
                        good = len(logged) == 1 and len(logged[0][2]) >= 2 and number(logged[0][2][0]) == LEVELS[name] and logged[0][2][1] == msg
                        rep.check('method', name, good, f'it logs {[[show(a)[:60] for a in x[2]] for x in logged]}', fn.where)
                    else:
                        rep.check('method', name, not [x for x in logged if x[0] == '_log'], 'it logs a message although it is not enabled', fn.where)


def prints(rep, prog):
    """Nothing but results is printed: no print to the output outside the commands that show something."""
    n = 0
    for mod in prog.modules.values():
        if mod.name.startswith(RESULTS):
            continue
        for node in ast.walk(mod.tree):
            if not isinstance(node, ast.Call):
                continue
            f = node.func
            name = None
            if isinstance(f, ast.Name):
                got = prog.resolve_name(f.id, mod)
                name = got if isinstance(got, str) else None
            elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Attribute) and isinstance(f.value.value, ast.Name):
                name = f'{f.value.value.id}.{f.value.attr}.{f.attr}'
            where = f'{mod.relpath}:{node.lineno}'
            if name == 'builtins.print':
                n += 1
                to = next((k.value for k in node.keywords if k.arg == 'file'), None)
                rep.check('print', where, to is not None and ast.unparse(to) not in ('sys.stdout', 'sys.__stdout__', 'None', 'stdout'),
                          f'`{ast.unparse(node)[:80]}` mixes a message with the output of tasks', where)
            elif name in ('sys.stdout.write', 'sys.stdout.writelines') or name == 'rich.console.Console' and not any(k.arg in ('stderr', 'file') for k in node.keywords):
                n += 1
                rep.bad('print', where, f'`{ast.unparse(node)[:80]}` mixes a message with the output of tasks', where)
    rep.floor('prints outside the commands that show something', n, 1)


@rule('C50', technique='abstract interpretation of the logging set-up for every level, style and record; scan of what is printed', level='other',
      explanation='The module that sets logging up and the entry point are interpreted for every level (in several spellings) and for what is none, '
                  'the record class for every level with and without colors, the loading of the configuration for every style; prints are enumerated.')
def messages(rep):
    prog = rep.prog
    levels(rep, prog)
    t = Logging(prog, level=C('debug'))
    states, raised = t.module(LOG)
    started(rep, prog, t, states)
    known = records(rep, prog)
    styles(rep, prog, known)
    custom(rep, prog)
    prints(rep, prog)
    rep.assume('the standard logging library delivers a message to the handlers of its logger when the level allows it')
