"""The database that is configured, and getting it ready."""

from __future__ import annotations

import ast

from ..cli import APPLICATION, app, applications, options
from ..interp import Interp, State, HObj, C, S, NONE, TRUE, FALSE, is_const, cval, show
from ..report import rule
from .settings import merge, pieces

CORE = 'hypershell.data.core'
VALUE = {k: S(('db', k), 'builtins.int' if k == 'port' else 'builtins.str') for k in ('database', 'file', 'user', 'password', 'host', 'port', 'timeout', 'schema')}
METHODS = {x for x in dir(dict)} | {'to_dict', 'to_env', 'update', 'duplicates', 'whereis', 'which'}


def expanded(key):
    return S(('expanded', key), 'builtins.str')


ORDINARY = {*VALUE.values(), *(expanded(f'{k}{e}') for k in VALUE for e in ('_env', '_eval'))}


class Import:
    """What importing the database module does, for one database configuration."""

    def __init__(self, prog, given):
        self.prog, self.given = prog, given
        self.ip = Interp(prog)
        self.ip.exact_lists = self.ip.enter_objects = True
        self.ip.extern_hook = self.library
        self.ip.compare = self.compare
        self.ip.get_attr = self.get_attr
        self.ip._globals = {}
        self.count = 0

    def world(self):
        st = State()
        st.mon = ()
        for v in ORDINARY:
            st.facts[('truth', v)] = True
            st.facts[('isnone', v)] = False
        items = []
        for k, v in self.given.items():
            if isinstance(v, dict):
                st.heap[f'db:{k}'] = HObj('dict', None, tuple((C(a), C(b)) for a, b in v.items()))
                v = ('d', f'db:{k}')
            items.append((C(k), v))
        st.heap['dbcfg'] = HObj('dict', None, tuple(items))
        st.heap['cfg'] = HObj('dict', None, ((C('database'), ('d', 'dbcfg')),))
        self.ip.known[('s', ('global', 'hypershell.core.config.config'), None)] = ('d', 'cfg')
        st.env['config'] = ('d', 'cfg')
        return st

    def is_mapping(self, v, st):
        cls = self.prog.classes.get(st.heap[v[1]].cls) if v is not None and v[0] == 'o' and v[1] in st.heap else None
        return cls is not None and any(b in ('builtins.dict', 'dict', 'collections.UserDict') for c in cls.mro() for b in (getattr(c, 'bases', None) or ()))

    def library(self, ip, f, name, recv, args, kwargs, st, node):
        name = name or ''
        last = name.split('.')[-1]
        if name == 'cmdkit.config.Namespace' and not kwargs:
            self.count += 1
            ref = f'ns{self.count}'
            st.heap[ref] = HObj('dict', None, st.heap[args[0][1]].attrs if args and args[0][0] == 'd' else ())
            return [(('d', ref), st)]
        if recv is not None and recv[0] == 's' and recv[1][0] == 'super' and last == '__init__':
            obj = recv[1][2]
            for k, v in kwargs:
                if k is not None:
                    ip.set_attr(obj, k, v, st, node)
            return [(NONE, st)]
        if recv is not None and recv[0] == 'o' and last in ('get', '__getitem__', 'getattr') and args and is_const(args[0]):
            held = st.heap[recv[1]].attrs
            return [(held.get(cval(args[0]), args[1] if len(args) > 1 else NONE), st)]
        if name == 'builtins.getattr' and len(args) == 3 and args[0][0] == 'd' and is_const(args[1]):
            ip.raise_sinks.append([])
            got = ip.get_attr(args[0], cval(args[1]), st, node)
            ip.raise_sinks.pop()
            return got or [(args[2], st)]
        if last in ('quote', 'quote_plus') and 'urllib' in name and args:
            safe = dict(kwargs).get('safe', args[1] if len(args) > 1 else C('/'))
            return [(S(('quoted', args[0], last, safe), 'builtins.str'), st)]
        if name == 'builtins.str' and len(args) == 1 and (args[0] in VALUE.values() or args[0][0] == 's' and args[0][1][0] == 'quoted'):
            return [(args[0], st)]
        if name.startswith('logging.') or recv is not None and 'logging.getLogger' in show(recv):
            return [(S(('fresh', name)), st)]
        if last == 'urlencode' and args:
            return [(S(('query', ip.snap(args[0], st)), 'builtins.str'), st)]
        if last == 'create_engine' and name.startswith('sqlalchemy.'):
            st.mon = st.mon + (('engine', tuple(ip.snap(a, st) for a in args), tuple((k, ip.snap(v, st)) for k, v in kwargs)),)
            return [(S(('engine', len(st.mon))), st)]
        if last == 'sessionmaker' and name.startswith('sqlalchemy.'):
            return [(S(('factory', dict(kwargs).get('bind', args[0] if args else NONE))), st)]
        if last == 'scoped_session' and name.startswith('sqlalchemy.'):
            return [(S(('scoped', args[0] if args else NONE, len(args) > 1 or bool(kwargs))), st)]
        if name in ('sys.exit', 'builtins.exit', 'builtins.quit', 'os._exit'):
            ip.raise_sinks[-1].append(('builtins.SystemExit', args[0] if args else NONE, st))
            return []
        return None

    def compare(self, op, a, b, st, node):
        """The values given are ordinary ones: none is empty, missing or equal to a word of the source."""
        opn = type(op).__name__
        if opn in ('Eq', 'NotEq', 'Is', 'IsNot') and (a in ORDINARY and is_const(b) or b in ORDINARY and is_const(a)):
            return [(opn in ('NotEq', 'IsNot'), st)]
        if opn in ('In', 'NotIn') and a in ORDINARY:
            inside = b[1] if b[0] == 't' else [x for _, x in self.ip.entries(b, st) or ()] if b[0] == 'l' else None
            if inside is not None and all(is_const(x) for x in inside):
                return [(opn == 'NotIn', st)]
        return Interp.compare(self.ip, op, a, b, st, node)

    def get_attr(self, v, name, st, node):
        """A setting may be given by the variable or the command that has it."""
        if v[0] == 'd' and not name.startswith('__') and name not in METHODS:
            held = {cval(k): x for k, x in st.heap[v[1]].attrs if is_const(k)}
            for ending in ('_env', '_eval'):
                if name not in held and f'{name}{ending}' in held:
                    return [(expanded(f'{name}{ending}'), st)]
            if name not in held:
                self.ip.raise_sinks[-1].append(('builtins.AttributeError', S(('exc', 'builtins.AttributeError')), st))
                return []
        return Interp.get_attr(self.ip, v, name, st, node)

    def run(self):
        module = self.prog.modules[CORE]
        nodes = [n for n in module.tree.body if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Try, ast.If, ast.For, ast.With, ast.Expr))
                 and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
        return self.ip.run_statements(module, nodes, self.world())



def url(given):
    """The text of the URL for a valid configuration, as pieces."""
    word = cval(given['provider'])
    sqlite = word == 'sqlite'
    value = {k: v for k, v in given.items()}
    for k in list(value):
        for ending in ('_env', '_eval'):
            if k.endswith(ending):
                value[k.removesuffix(ending)] = expanded(k)
                del value[k]
    out = ['sqlite://' if sqlite else 'postgresql://']
    if value.get('user'):
        out += [('user', value['user']), ':', ('password', value['password']), '@']
    if value.get('host'):
        out += [value['host'], *([':', value['port']] if value.get('port') else [])]
    elif value.get('port'):
        out += [LOCALHOST + ':', value['port']]
    elif value.get('user'):
        out += [LOCALHOST]
    where = value.get('database') or value.get('file')
    if where is not None and where != C(''):
        out += ['/', cval(where) if is_const(where) else where]
    extra = {k: v for k, v in value.items() if k not in FIELDS}
    if extra:
        out += ['?', ('query', extra)]
    return merge(out)


def flat(v):
    return merge(pieces(v))


def same_url(got, want):
    """Compare URL pieces; gives what is wrong, or None."""
    if len(got) != len(want):
        return 'differs from what is configured'
    for g, w in zip(got, want):
        if isinstance(w, tuple) and w[0] in ('user', 'password'):
            quoted = isinstance(g, tuple) and g[0] == 's' and g[1][0] == 'quoted' and g[1][1] == w[1]
            if not quoted and g == w[1]:
                return f'has the {w[0]} as it is, so that one with a character that is special in a URL is taken for something else'
            if not quoted:
                return f'does not have the {w[0]}'
            _, _, how, safe = g[1]
            if how != 'quote' or not is_const(safe) or set(cval(safe)) & set(':/@%?' if w[0] == 'user' else '@%'):
                return f'has the {w[0]} in a form that is not decoded to the same'
        elif isinstance(w, tuple) and w[0] == 'query':
            if not (isinstance(g, tuple) and g[0] == 's' and g[1][0] == 'query' and g[1][1][0] == 'dct' and {cval(k): v for k, v in g[1][1][1]} == w[1]):
                return 'does not pass on exactly the additional parameters'
        elif g != w:
            return f'has {text(g)} in place of {text(w)}'
    return None


def text(v):
    return repr(v) if isinstance(v, str) else show(v)


LOCALHOST = 'localhost'
FIELDS = ('provider', 'database', 'file', 'user', 'password', 'host', 'port', 'schema', 'echo', 'connect_args')
SQLITE, POSTGRES, POSTGRESQL = (C(x) for x in ('sqlite', 'postgres', 'postgresql'))


def pick(*keys, **more):
    return {**{k: VALUE[k] if k in VALUE else C('WHERE') for k in keys}, **more}


VALID = (
    pick('file', provider=SQLITE), pick('database', provider=SQLITE), pick('file_env', provider=SQLITE), pick('file', 'timeout', provider=SQLITE),
    pick('file', provider=SQLITE, connect_args={'some': 1}), pick('file', provider=SQLITE, connect_args={'check_same_thread': True}),
    pick('file', provider=SQLITE, echo=TRUE), pick('file', provider=SQLITE, echo=FALSE),
    pick(provider=SQLITE), pick(provider=SQLITE, file=C('')), pick(provider=SQLITE, file=C(':memory:')), pick(provider=SQLITE, database=C(':memory:')),
    pick('timeout', provider=SQLITE),
    *(pick('database', *some, provider=which) for which in (POSTGRES, POSTGRESQL)
      for some in ((), ('host',), ('port',), ('host', 'port'), ('user', 'password'), ('user', 'password', 'host'), ('user', 'password', 'port'),
                   ('user', 'password', 'host', 'port'), ('user', 'password_env'), ('user', 'password_eval', 'host'), ('schema',), ('timeout',),
                   ('user', 'password', 'host', 'port', 'timeout', 'schema'))),
    pick('database', provider=POSTGRES, connect_args={'some': 1}), pick('database', provider=POSTGRES, echo=TRUE),
)
INVALID = (
    pick('database', provider=C('unknown')), pick('file', provider=C('unknown')), pick(provider=POSTGRES), pick('host', 'port', provider=POSTGRES),
    pick('file', provider=POSTGRES), pick('database', 'file', provider=POSTGRES), pick('database', 'user', provider=POSTGRES),
    pick('database', 'password', provider=POSTGRES), pick('database', 'user', 'host', provider=POSTGRESQL),
    pick('file', 'database', provider=SQLITE), *(pick('file', x, provider=SQLITE) for x in ('host', 'port', 'user', 'password')),
)


def titled(given):
    return ' '.join([cval(given['provider']), *(f'{k}={cval(v)!r}' if not isinstance(v, dict) and is_const(v) and cval(v) != 'WHERE' else k
                                                for k, v in given.items() if k != 'provider')])


@rule('C43', technique='abstract interpretation of the statements that create the database engine on import, over combinations of settings of unknown values',
      explanation='The top-level statements of the database module are interpreted for every valid and invalid combination of settings listed; the pieces '
                  'of the URL, the arguments of the engine and the binding of the session factory are compared with the settings themselves.')
def configured_database(rep):
    prog = rep.prog
    construct = f'{CORE} (on import)'
    for given in VALID:
        title = titled(given)
        run = Import(prog, given)
        states, raised = run.run()
        rep.saw(run.ip)
        rep.check('a valid configuration is accepted', f'{construct}: {title}', bool(states) and not raised,
                  f'{title}: ' + (f'ends with {sorted({e for e, _, _ in raised})}' if raised else 'no engine'))
        rep.count("paths", len(states))
        memory = cval(given['provider']) == 'sqlite' and not any(k in given and given[k] not in (C(''), C(':memory:')) for k in ('file', 'database', 'file_env'))
        for st in states:
            engines = [m for m in st.mon if m[0] == 'engine']
            if len(engines) != 1 or not engines[0][1] and 'url' not in dict(engines[0][2]):
                rep.bad('one engine', f'{construct}: {title}', f'{title}: {len(engines)} engines are created')
                continue
            _, args, kwargs = engines[0]
            kwargs = dict(kwargs)
            wrong = same_url(flat(args[0] if args else kwargs['url']), url(given))
            rep.check('the URL of the database is the one configured', f'{construct}: {title}', wrong is None, f'{title}: the URL {wrong}')
            want = dict(given.get('connect_args', {}))
            if cval(given['provider']) == 'sqlite':
                want.setdefault('check_same_thread', False)
            got = kwargs.get('connect_args', ('dct', ()))
            got = {cval(k): cval(v) if is_const(v) else v for k, v in got[1]} if got[0] == 'dct' else got
            rep.check('the driver gets the arguments it needs', f'{construct}: {title}', got == want, f'{title}: driver arguments {got} instead of {want}')
            pool = kwargs.get('poolclass')
            good = pool is not None and show(pool).endswith('StaticPool') if memory else pool is None or not show(pool).endswith(('StaticPool', 'NullPool'))
            rep.check('one connection is shared only in memory', f'{construct}: {title}', good,
                      f'{title}: ' + ('every thread has an empty database of its own' if memory else f'all threads share one connection ({show(pool) if pool else None})'))
            rep.check('whether the database is in memory is known', f'{construct}: {title}', st.env.get('in_memory') == C(memory),
                      f'{title}: the database is{"" if memory else " not"} in memory, but this is recorded as {show(st.env.get("in_memory", NONE))}')
            engine = st.env.get('engine', NONE)
            session = st.env.get('Session', NONE)
            per_thread = session[0] == 's' and session[1][0] == 'scoped' and not session[1][2]
            rep.check('every thread has a session of its own', f'{construct}: {title}', per_thread, f'{title}: the session is {show(session)}, shared between threads')
            bound = per_thread and session[1][1] == S(('factory', engine)) and engine[0] == 's' and engine[1][0] == 'engine'
            rep.check('sessions use that engine', f'{construct}: {title}', bound, f'{title}: the session is {show(session)}, not bound to the engine')
            rep.check('the schema is the one configured', f'{construct}: {title}', st.env.get('schema') == given.get('schema', NONE),
                      f'{title}: the schema is {show(st.env.get("schema", NONE))}')
    for given in INVALID:
        title = titled(given)
        states, raised = Import(prog, given).run()
        rep.count("paths", len(raised))
        bad = [m for st in [*states, *(s for _, _, s in raised)] for m in (st.mon or ()) if m[0] == 'engine']
        rep.check('an invalid configuration connects to nothing', f'{construct}: {title}', not bad and not states,
                  f'{title}: ' + ('a database is opened' if bad else 'the program goes on without a database'))
        silent = [v for e, v, _ in raised if e == 'builtins.SystemExit' and (v in (NONE, C(0), TRUE) or not (is_const(v) or show(v).endswith('bad_config')))]
        rep.check('an invalid configuration is reported', f'{construct}: {title}', not silent and all(e == 'builtins.SystemExit' or e.endswith('ConfigurationError') for e, _, _ in raised),
                  f'{title}: leaves with {[(e, show(v)) for e, v, _ in raised]}')
    schema(rep)


def schema(rep):
    """Tables are looked for where they are made."""
    prog = rep.prog
    target = S(('global', f'{CORE}.schema'), None)
    fn = prog.function_or_none('hypershell.data.model.Entity.__table_args__') if hasattr(prog, 'function_or_none') else prog.functions.get('hypershell.data.model.Entity.__table_args__')
    if fn is not None:
        ip = Interp(prog)
        ip.enter_objects = True
        rets, _ = ip.run_function(fn, [('k', 'hypershell.data.model.Entity')], [], State())
        rep.check('tables are made in the configured schema', fn.qual, bool(rets) and all(named(ip, ip.snap(v, st), 'schema') == target for v, st in rets),
                  'the tables are not made in the configured schema')
    fn = prog.functions['hypershell.data.checkdb']
    seen = []
    ip = Interp(prog)

    def library(ip, f, name, recv, args, kwargs, st, node):
        if (name or '').split('.')[-1] in ('has_table', 'get_table_names'):
            given = dict(kwargs)
            seen.append(given.get('schema', args[1] if len(args) > 1 else NONE))
        return None

    ip.extern_hook = library
    ip.run_function(fn, [], [], State())
    rep.check('tables are looked for in the configured schema', fn.qual, bool(seen) and all(v == target for v in seen),
              f'the tables are looked for in {[show(v) for v in seen]}, not in the configured schema')


def named(ip, snap, key):
    return {cval(k): v for k, v in snap[1]}.get(key) if snap[0] == 'dct' else None


# Getting the database ready

WORLDS = {  # configured database: (settings, whether tasks are kept in memory only)
    'a database file': ({'provider': SQLITE, 'file': VALUE['file']}, False),
    'a database file given by a variable': ({'provider': SQLITE, 'file_env': C('WHERE')}, False),
    'a database server': ({'provider': POSTGRES, 'database': VALUE['database']}, False),
    'no database': ({'provider': SQLITE}, True),
    'no database (memory)': ({'provider': SQLITE, 'file': C(':memory:')}, True),
}
ENDS = {'yes': True, '': True, 'y': True, 'Y': True, ' YES ': True, 'n': False, 'no': False, 'nope': None, 'maybe': None}


def uses(prog):
    """The functions of the task record (and of other records) that reach the session."""
    model = prog.modules['hypershell.data.model']
    own = [f for f in prog.functions.values() if f.module is model and f.cls is not None]
    session = {f.qual for f in own if any(isinstance(n, ast.Name) and n.id == 'Session' for n in ast.walk(f.node))}
    names = {q.split('.')[-1] for q in session}
    grown = True
    while grown:
        grown = False
        for f in own:
            if f.qual not in session and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in names
                                             and isinstance(n.func.value, ast.Name) for n in ast.walk(f.node)):
                session.add(f.qual)
                names.add(f.name)
                grown = True
    return session


class Ready:
    """An application up to its first use of the database."""

    def __init__(self, prog, world, answer=None, terminal=True):
        self.prog, self.answer, self.terminal = prog, answer, terminal
        self.given, self.memory = WORLDS[world]
        self.ip = Interp(prog)
        self.ip.exact_lists = True
        self.ip.extern_hook = self.library
        self.ip.compare, self.ip.get_attr = self.compare, self.get_attr
        self.ip._globals = {}
        self.first = []
        for qual in uses(prog):
            self.ip.summaries[qual] = self.use
        thread = prog.cls('hypershell.core.thread.Thread')
        for c in prog.classes.values():
            if c is not thread and thread in c.mro and c.module.name.split('.')[1] in ('server', 'submit', 'cluster'):
                self.ip.summaries[f'{c.qual}()'] = self.use
            elif c.module.name.startswith('hypershell.cluster.') and APPLICATION not in c.all_ext_bases():
                for m in c.methods.values():
                    self.ip.summaries[m.qual] = lambda ip, fn, a, k, st, node: [(S(('fresh', fn.qual)), st)]
        self.ip.known[S(('global', f'{CORE}.in_memory'), None)] = C(self.memory)
        self.ip.known[S(('global', f'{CORE}.engine'), None)] = S(('engine',))

    compare, get_attr = Import.compare, Import.get_attr

    def use(self, ip, fn, args, kwargs, st, node):
        self.first.append((getattr(fn, 'qual', show(args[0]) if args else '?'), st))
        return []

    def library(self, ip, f, name, recv, args, kwargs, st, node):
        name = name or ''
        last = name.split('.')[-1]
        if recv is not None and recv[0] == 's' and recv[1] in (('global', f'{CORE}.Session'), ('global', 'hypershell.data.model.Session')):
            self.first.append((f'Session.{last}', st))
            return []
        if last in ('create_all', 'drop_all'):
            named = dict((k, v) for k, v in kwargs)
            at = args[0] if args else named.get('bind', NONE)
            rest = [a for a in args[1:]] + [v for k, v in kwargs if k not in ('bind', 'checkfirst')] + [v for k, v in kwargs if k == 'checkfirst' and v != TRUE]
            st.mon = st.mon + ((last.split('_')[0], show(recv) if recv is not None else name, at, bool(rest)),)
            return [(NONE, st)]
        if last == 'has_table' or last == 'get_table_names':
            v = S(('found', len(st.mon)), 'builtins.bool')
            st.mon = st.mon + (('check', v, args[0] if args else NONE),)
            return [(v, st)]
        if last == 'close_all_sessions':
            return [(NONE, st)]
        if name == 'builtins.input':
            st.mon = st.mon + (('asked',),)
            return [(C(self.answer), st)]
        if last == 'isatty':
            return [(C(self.terminal), st)]
        if last in ('print',) or name.startswith('logging.') or last in ('open', 'close'):
            return [(S(('opaque', name)), st)]
        return None

    def world(self):
        st = State()
        st.mon = ()
        for v in ORDINARY:
            st.facts[('truth', v)] = True
            st.facts[('isnone', v)] = False
        st.heap['dbcfg'] = HObj('dict', None, tuple((C(k), v) for k, v in self.given.items()))
        db = S(('attr', S(('global', 'hypershell.core.config.config'), None), 'database'))
        self.ip.known[db] = ('d', 'dbcfg')
        return st

    def positional(self, o, st):
        return self.ip.new_list(st, (('1', S(('given', o.dest), 'builtins.str')),), None) if o.nargs is not None else o.value

    def run(self, cls, **given):
        st = self.world()
        selfv = self.ip.make_self(cls, st, opaque=False)
        attrs = {}
        for o in options(cls):
            if o.action not in ('version', 'help') and o.dest not in attrs:
                attrs[o.dest] = FALSE if o.action == 'store_true' else TRUE if o.action == 'store_false' else self.positional(o, st) if not o.flags else NONE if o.default is None else C(o.default.value) if isinstance(o.default, ast.Constant) else o.value
        st.heap['self'] = HObj('obj', cls.qual, {**attrs, **given})
        states, raised = [st], []
        for name in ('__enter__', 'run'):
            fn = cls.method(name)
            if fn is None:
                continue
            nxt = []
            for s in states:
                rets, more = self.ip.run_function(fn, [selfv], [], s)
                raised += more
                nxt += [x for _, x in rets]
            states = nxt
        return states, raised


def done(mon):
    return [m[0] for m in mon if m[0] in ('create', 'drop')]


@rule('C44', technique='abstract interpretation of every application up to its first use of the database, and of the command that creates and empties it, for every kind of configured database',
      explanation='A typestate of the database (not looked at, checked, created, emptied) is carried along all paths of every application until the first '
                  'function that reaches the session or the first thread that works with it. The command that prepares the database is interpreted for every '
                  'combination of its switches, answers and terminals.')
def ready_database(rep):
    prog = rep.prog
    seen = 0
    for cls in applications(prog):
        if cls.name == 'InitDBApp':
            continue
        opts = {f: o for o in options(cls) for f in o.flags}
        cases = []
        for world, (_, memory) in WORLDS.items():
            for init in ((False, True) if '--initdb' in opts else (False,)):
                given = {opts['--initdb'].dest: C(init)} if '--initdb' in opts else {}
                if '--no-db' in opts:
                    given[opts['--no-db'].dest] = C(memory)
                    if memory:
                        cases.append((world, init, memory, {**given, opts['--no-db'].dest: FALSE}, ' without --no-db'))
                cases.append((world, init, memory, given, ''))
                for o in options(cls) if not memory and not init else ():
                    if o.flags and o.action not in ('version', 'help') and not set(o.flags) & {'--initdb', '--no-db'}:
                        cases.append((world, init, memory, {**given, o.dest: C(o.action == 'store_true') if o.switch else o.value}, f' and {o.flags[-1]}'))
        for world, init, memory, given, more in cases:
            r = Ready(prog, world)
            states, raised = r.run(cls, **given)
            rep.saw(r.ip)
            if not r.first and not any(m[0] in ('create', 'check') for st in [*states, *(s for _, _, s in raised)] for m in st.mon):
                continue
            rep.count("paths", len(r.first) + len(states) + len(raised))
            what = f'{cls.name} with {world}{" and --initdb" if init else ""}{more}'
            dropped = [st for st in [*states, *(s for _, s in r.first), *(s for _, _, s in raised)] if any(m[0] == 'drop' for m in st.mon)]
            rep.check('nothing is emptied', f'{cls.qual}: {what}', not dropped, f'{what}: the tables are dropped')
            if memory:
                if more:
                    used = [q for q, _ in r.first if prog.functions.get(q) and prog.functions[q].module.name.startswith('hypershell.data')]
                    rep.check('nothing that is not there is used', f'{cls.qual}: {what}', not used, f'{what}: {used and used[0]} is reached')
                if '--no-db' not in opts:
                    rep.check('a missing database is refused', f'{cls.qual}: {what}', not r.first and not states and all(e.split('.')[-1] == 'ConfigurationError' for e, _, _ in raised if e.split('.')[-1] not in OTHER),
                              f'{what}: ' + (f'{r.first[0][0]} is reached' if r.first else f'ends with {sorted({e for e, _, _ in raised}) or "success"}'))
                continue
            seen += 1
            if not more:
                rep.check('the database is used', f'{cls.qual}: {what}', bool(r.first), f'{what}: nothing is done with the database')
            for qual, st in r.first:
                made = [m for m in st.mon if m[0] == 'create']
                looked = [m for m in st.mon if m[0] == 'check' and m[2] in (C('task'), NONE) and st.facts.get(('truth', m[1])) is True]
                needs = cval(r.given['provider']) == 'sqlite' or init
                good = bool(made) if needs else bool(looked) and not made
                rep.check('the database is ready before it is used', f'{cls.qual}: {what} -> {qual}', good,
                          f'{what}: {qual} is reached ' + ('before the tables are made' if needs else 'though tables were made without being asked for' if made
                                                            else 'without a check that the tables are there'))
                for m in made:
                    proper(rep, cls, what, m)
            for e, _, st in raised:
                gone = [m for m in st.mon if m[0] == 'check' and st.facts.get(('truth', m[1])) is False]
                if gone:
                    rep.check('missing tables are reported', f'{cls.qual}: {what}', e.split('.')[-1] == 'DatabaseUninitialized', f'{what}: missing tables give {e}')
            needs_check = cval(r.given['provider']) != 'sqlite' and not init
            if needs_check and r.first:
                rep.check('missing tables stop the program', f'{cls.qual}: {what}', any(e.split('.')[-1] == 'DatabaseUninitialized' for e, _, _ in raised),
                          f'{what}: missing tables are not reported')
    rep.floor('applications and databases', seen, 12)
    preparing(rep, prog)
    only_there(rep, prog)


OTHER = ('ArgumentError', 'FileNotFoundError', 'PermissionError', 'OSError', 'IsADirectoryError')


def proper(rep, cls, what, m):
    kind, on, at, narrowed = m
    rep.check('all tables of the configured database are meant', f'{cls.qual}: {kind}, {what}', on.endswith('metadata') and at == S(('engine',)) and not narrowed,
              f'{what}: {kind} concerns {on} at {show(at)}{" in part" if narrowed else ""}')


def preparing(rep, prog):
    cls = app(prog, 'InitDBApp')
    opts = {f: o for o in options(cls) for f in o.flags}
    empty, sure = opts['--truncate'].dest, opts['--yes'].dest
    for world, (_, memory) in WORLDS.items():
        for truncate, yes, terminal, answer in [(False, False, True, None), (False, True, True, None), (False, False, False, None), (True, True, True, None), (True, True, False, None),
                                                (True, False, False, None), *((True, False, True, a) for a in ENDS)]:
            r = Ready(prog, world, answer, terminal)
            for qual in uses(prog):
                r.ip.summaries[qual] = lambda ip, fn, a, k, st, node: [(S(('fresh', 'count'), 'builtins.int'), st)]
            states, raised = r.run(cls, **{empty: C(truncate), sure: C(yes)})
            what = f'{world}, ' + ' '.join([x for x, on in (('--truncate', truncate), ('--yes', yes)) if on] or ['no options']) + (
                '' if terminal else ', no terminal') + (f', answer {answer!r}' if answer is not None else '')
            rep.count("paths", len(states) + len(raised))
            asked_for = truncate and (yes or (terminal and ENDS.get(answer, False)))
            ends = [*states, *(s for _, _, s in raised)]
            dropped = [s for s in ends if any(m[0] == 'drop' for m in s.mon)]
            if memory:
                rep.check('a missing database is refused', f'{cls.qual}: {what}', not states and not any(done(s.mon) for s in ends), f'{what}: goes on without a database')
                continue
            if not (truncate and yes) and not (truncate and terminal and ENDS.get(answer)):
                rep.check('nothing is emptied unless it is confirmed', f'{cls.qual}: {what}', not dropped, f'{what}: the tables are dropped')
            if not truncate:
                rep.check('the tables are made', f'{cls.qual}: {what}', bool(states) and all(done(s.mon) == ['create'] for s in states), f'{what}: {[done(s.mon) for s in states]}')
            elif asked_for:
                rep.check('the tables are emptied and made again', f'{cls.qual}: {what}', bool(states) and all(done(s.mon)[-2:] == ['drop', 'create'] for s in states),
                          f'{what}: {[done(s.mon) for s in states] or "fails"}')
            elif terminal and ENDS.get(answer, None) is False:
                rep.check('declining is not an error', f'{cls.qual}: {what}', bool(states) and not any(done(s.mon) for s in states), f'{what}: {[done(s.mon) for s in states] or "fails"}')
            else:
                rep.check('a confirmation that cannot be had is an error', f'{cls.qual}: {what}', not states and bool(raised), f'{what}: ends as if all were well')
            if truncate and terminal and not yes:
                rep.check('there is a question', f'{cls.qual}: {what}', all(any(m[0] == 'asked' for m in s.mon) for s in ends), f'{what}: the tables are emptied or kept without asking')
            if yes and truncate:
                rep.check('there is no question', f'{cls.qual}: {what}', not any(m[0] == 'asked' for s in ends for m in s.mon), f'{what}: asks although the answer is given')
            for s in ends:
                for m in s.mon:
                    if m[0] in ('create', 'drop'):
                        proper(rep, cls, what, m)


def only_there(rep, prog):
    """Nothing but that command reaches the function that drops the tables."""
    reach = {}
    for f in prog.functions.values():
        names = {n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id for n in ast.walk(f.node)
                 if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name))}
        reach[f.qual] = names
    known = {f.name: f.qual for f in prog.functions.values() if f.cls is None}
    dropping = {q for q, names in reach.items() if names & {'drop_all', 'drop_table', 'DropTable'}}
    grown = True
    while grown:
        more = {q for q, names in reach.items() if q not in dropping and any(known.get(n) in dropping for n in names)
                or q not in dropping and any(d.rpartition('.')[0] == q.rpartition('.')[0] and d.split('.')[-1] in names and d in dropping for d in dropping)}
        grown = bool(more)
        dropping |= more
    owners = {prog.functions[q].cls.qual for q in dropping if prog.functions[q].cls is not None}
    home = app(prog, 'InitDBApp')
    rep.check('only one command can empty the database', home.qual, owners <= {c.qual for c in home.mro}, f'the tables can be dropped from {sorted(owners - {home.qual})}')
