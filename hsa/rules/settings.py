"""Where settings come from, and how they are shown and changed."""

from __future__ import annotations

import ast

from ..cli import app, options
from ..interp import Interp, State, HObj, C, S, NONE, TRUE, FALSE, is_const, cval, show, mentions
from ..model import AnalysisBroken
from ..report import rule

CORE = 'hypershell.core.config'
FILES = ('system', 'user', 'local')
ERROR = 'cmdkit.config.ConfigurationError'
HEADING, PLAIN, ENTRY = (S(('line', x), 'builtins.str') for x in ('heading', 'heading without quotes', 'entry'))
VARIABLE = 'HYPERSHELL_CONFIG_FILE'

# The settings of an imagined source: a tree of values known only by their type.
TREE = {'top': {'text': 'str', 'number': 'int', 'flag': 'bool', 'many': 'list', 'rate': 'float', 'nothing': None, 'sub': {'text': 'str', 'deep': {'number': 'int'}}},
        'other': {'text': 'str'}, 'bare': 'str'}
LEAVES = ('top.text', 'top.number', 'top.flag', 'top.many', 'top.rate', 'top.nothing', 'top.sub.text', 'top.sub.deep.number', 'other.text', 'bare')
SECTIONS = ('.', 'top', 'top.sub', 'top.sub.deep', 'other')
ABSENT = ('x', 'top.x', 'x.y', '.top', 'top.', 'top.text.x', 'top.text.x.y', 'top.sub.x', 'top.sub.x.y', 'top.x.text', 'top.sub.x.text', 'top.x.deep.number',
          'top.text.number', 'x.text')
KINDS = {'dict': ('dict', 'Mapping', 'MutableMapping', 'Namespace')}


def leaf(site, path, typ):
    return S(('setting', site, path), f'builtins.{typ}')


def tree_at(path):
    tree = TREE
    for k in path.split('.') if path != '.' else ():
        tree = tree[k]
    return tree


def namespace(st, site, tree=None, path='', ref=None):
    """The tree as an abstract dictionary."""
    out = []
    for k, v in (TREE if tree is None else tree).items():
        name = f'{path}.{k}' if path else k
        out.append((C(k), namespace(st, site, v, name, f'{ref or site}:{name}') if isinstance(v, dict) else NONE if v is None else leaf(site, name, v)))
    ref = ref or f'ns:{site}:{path}'
    st.heap[ref] = HObj('dict', None, tuple(out))
    return ('d', ref)


def plain(v):
    """A snapshot of an abstract dictionary as a mapping."""
    if v[0] == 'dct':
        return {cval(k) if is_const(k) else k: plain(x) for k, x in v[1]}
    return v


def expected(site, path='.', change=None):
    """What a snapshot of (a part of) the tree looks like, with one setting changed."""
    def build(tree, base):
        return {k: build(v, f'{base}.{k}' if base else k) if isinstance(v, dict) else NONE if v is None else leaf(site, f'{base}.{k}' if base else k, v)
                for k, v in tree.items()}
    out = build(tree_at(path), '' if path == '.' else path)
    if change is not None:
        where, value = change
        *keys, last = where.split('.')
        inner = out
        for k in keys:
            inner = inner.setdefault(k, {})
        inner[last] = value
    return out


def written(args):
    """The text that printing some arguments shows, as pieces."""
    out = []
    for i, a in enumerate(args):
        out += [*([' '] if i else []), *pieces(a)]
    return tuple(merge(out))


def pieces(v):
    if v[0] == 'c' and isinstance(cval(v), str):
        return (cval(v),)
    if v[0] == 'j':
        return tuple(x for p in v[1] for x in ((p,) if isinstance(p, str) else pieces(p)))
    if v[0] == 's' and v[1][0] == 'shown':
        return v[1][1]
    if v[0] == 's' and v[1][0] == 'bin' and v[1][1] in ('+', 'Add'):
        return pieces(v[1][2]) + pieces(v[1][3])
    return (v,)


def merge(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '':
            out.append(p)
    return out


class Settings:
    """The configuration commands and functions among imagined sources and files."""

    def __init__(self, prog, terminal=False, missing=(), origin='user', depth=0):
        self.prog, self.terminal, self.missing, self.origin = prog, terminal, missing, origin
        self.editors = None
        self.ip = Interp(prog)
        self.ip.exact_lists = self.ip.enter_objects = True
        self.ip.max_recursion = 6
        self.ip.extern_hook = self.library
        self.ip.on_event = self.event
        self.ip._globals = {}

    def world(self):
        st = State()
        st.mon = ()
        known = self.ip.known
        namespace(st, 'merged', ref='cfg:merged')
        namespace(st, 'default', ref='cfg:default')
        known[('s', ('global', f'{CORE}.config'), None)] = ('d', 'cfg:merged')
        known[('s', ('global', f'{CORE}.default'), None)] = ('d', 'cfg:default')
        for site in FILES:
            st.facts[('truth', S(('path', site, 'config'), 'builtins.str'))] = True
            st.heap[f'path:{site}'] = HObj('dict', None, tuple((C(k), S(('path', site, k), 'builtins.str')) for k in ('lib', 'log', 'config')))
        st.heap['path'] = HObj('dict', None, tuple((C(s), ('d', f'path:{s}')) for s in FILES))
        known[('s', ('global', 'hypershell.core.platform.path'), None)] = ('d', 'path')
        return st

    @staticmethod
    def mark(st, *what):
        st.mon = st.mon + (what,)

    def event(self, ip, ev, st):
        if st.mon is not None and ev.kind == 'endwith' and ev.recv is not None and ev.recv[0] == 's' and ev.recv[1][0] == 'buffer':
            self.mark(st, 'released', ev.recv)

    @staticmethod
    def site_of(v):
        return v[1][1] if v is not None and v[0] == 's' and v[1][0] == 'path' and v[1][2] == 'config' else None

    def library(self, ip, f, name, recv, args, kwargs, st, node):
        if st.mon is None:
            return None
        name = name or ''
        last = name.split('.')[-1]
        if self.editors is not None and (name == 'os.getenv' or name.endswith('environ.get')) and args and is_const(args[0]):
            return [(self.editors.get(cval(args[0]), args[1] if len(args) > 1 else dict(kwargs).get('default', NONE)), st)]
        if name.split('.')[0] in ('subprocess', 'os') and last in ('run', 'call', 'check_call', 'Popen', 'system', 'spawnvp', 'spawnlp', 'execvp', 'execlp') and args:
            ent = ip.entries(args[0], st)
            self.mark(st, 'ran', *([v for _, v in ent] if ent is not None else args))
            return [(S(('ran', len(st.mon))), st)]
        got = self.shown(ip, name, last, recv, args, kwargs, st)
        if got is None:
            got = self.files(ip, name, last, recv, args, kwargs, st, node)
        if got is not None:
            return got
        if name == 'builtins.isinstance' and len(args) == 2:
            kinds = [show(a).split('.')[-1] for a in (args[1][1] if args[1][0] == 't' else (args[1],))]
            if args[0][0] == 'd':
                return [(C(any(k in KINDS['dict'] for k in kinds)), st)]
            if args[0][0] == 's' and args[0][1][0] in ('setting', 'given') and args[0][2]:
                own = args[0][2].split('.')[-1]
                return [(C(own in kinds or own == 'bool' and 'int' in kinds), st)]
            if args[0] == NONE:
                return [(FALSE, st)]
        if recv == ('d', 'cfg:merged') and last == 'which':
            self.mark(st, 'which', tuple(args))
            if self.origin is None:
                ip.raise_sinks[-1].append(('builtins.KeyError', S(('exc', 'builtins.KeyError')), st))
                return []
            return [(C(self.origin), st)]
        return None

    # What is printed

    def shown(self, ip, name, last, recv, args, kwargs, st):
        if name == 'builtins.print':
            named = dict((k, v) for k, v in kwargs)
            if 'stderr' in show(named.get('file', NONE)):
                return [(NONE, st)]
            self.mark(st, 'printed', written([ip.snap(a, st) for a in args]))
            return [(NONE, st)]
        if recv is not None and (last == 'print' and 'Console' in show(recv) or last in ('write', 'writelines') and 'stdout' in show(recv)):
            self.mark(st, 'printed', written([ip.snap(a, st) for a in args]))
            return [(NONE, st)]
        if last == 'isatty':
            return [(C(self.terminal), st)]
        if name in ('toml.dumps', 'tomlkit.dumps') and args and args[0][0] == 'd':
            self.mark(st, 'dumped', ip.snap(args[0], st))
            return [(S(('toml', ip.snap(args[0], st)), 'builtins.str'), st)]
        if recv is not None and recv[0] == 's':
            if recv[1][0] == 'toml' and last in ('strip', 'rstrip', 'lstrip') and (not args or is_const(args[0]) and not str(cval(args[0])).strip()):
                return [(recv, st)]
            if recv[1][0] == 'toml' and (last == 'splitlines' or last == 'split' and args and args[0] == C('\n')):
                return [(ip.new_list(st, (('1', HEADING), ('1', ENTRY)), None), st)]
            if recv[1][0] == 'line' and last == 'startswith' and args and args[0] == C('['):
                return [(C(recv != ENTRY), st)]
            if recv == HEADING and last == 'endswith' and args and args[0] == C(']'):
                return [(TRUE, st)]
            if recv[1][0] == 'line' and last == 'replace' and len(args) == 2 and args == [C('"'), C('')]:
                return [(PLAIN if recv in (HEADING, PLAIN) else S(('line', 'entry without quotes'), 'builtins.str'), st)]
            if recv[1][0] == 'shown' and last in ('strip', 'rstrip'):
                return [(recv, st)]
        if last == 'StringIO' and not args:
            return [(S(('buffer', len(st.mon))), st)]
        if last == 'redirect_stdout' and args:
            self.mark(st, 'captured', args[0])
            return [(args[0], st)]
        if last == 'getvalue' and recv is not None and recv[0] == 's' and recv[1][0] == 'buffer':
            text = [m[1] for m in st.mon if m[0] == 'printed' and captive(st.mon, m) == recv]
            return [(S(('shown', sum(text, ())), 'builtins.str'), st)]
        if last == 'from_cmdline' and args:
            got = self.nested(ip, recv, args, st)
            if got is not None:
                return got
        return None

    def nested(self, ip, recv, args, st):
        cls = self.prog.classes.get(recv[1]) if recv is not None and recv[0] == 'k' else None
        ent = ip.entries(args[0], st)
        if cls is None or ent is None:
            return None
        opts = {flag: o for o in options(cls) for flag in o.flags}
        rest = [o for o in options(cls) if not o.flags]
        attrs = self.defaults(cls)
        for _, v in ent:
            o = opts.get(cval(v)) if is_const(v) else None
            if o is not None:
                attrs[o.dest] = C(o.const.value) if o.action == 'store_const' and isinstance(o.const, ast.Constant) else C(o.action == 'store_true')
            elif rest:
                attrs[rest.pop(0).dest] = v
        ref = f'nested:{len(st.mon)}'
        st.heap[ref] = HObj('obj', cls.qual, attrs)
        return [(('o', ref), st)]

    def defaults(self, cls):
        out = {}
        for o in options(cls):
            if o.action in ('version', 'help'):
                continue
            if o.switch:
                out[o.dest] = C(o.action != 'store_true')
                continue
            node = o.default
            if isinstance(node, ast.Name) and node.id in cls.assigns:
                node = cls.assigns[node.id]
            value = C(node.value) if isinstance(node, ast.Constant) else NONE
            if out.get(o.dest, NONE) == NONE:
                out[o.dest] = value
        return out

    # Files

    def files(self, ip, name, last, recv, args, kwargs, st, node):
        if last == 'exists' and (args or recv is not None):
            site = self.site_of(args[0] if args else recv)
            return [(C(site is not None and site not in self.missing or any(m[0] == 'open' and m[1] == (args or [recv])[0] for m in st.mon)), st)]
        if last == 'from_toml' and args:
            self.mark(st, 'loaded', args[0])
            site = self.site_of(args[0])
            return [(namespace(st, site or 'given', ref=f'file:{site or "given"}'), st)]
        if name == 'builtins.open' and args:
            named = dict(kwargs)
            mode = args[1] if len(args) > 1 else named.get('mode', C('r'))
            if not is_const(mode):
                return None
            self.mark(st, 'open', args[0], cval(mode))
            return [(S(('stream', args[0], cval(mode), len(st.mon))), st)]
        if name in ('os.makedirs', 'os.mkdir'):
            self.mark(st, 'mkdir', args[0])
            return [(NONE, st)]
        if name in ('shutil.copy', 'shutil.copyfile', 'shutil.copy2') and len(args) == 2:
            self.mark(st, 'copied', args[0], args[1])
            return [(args[1], st)]
        if name in ('os.remove', 'os.unlink', 'os.replace', 'os.rename', 'shutil.move') or recv is not None and last in ('unlink', 'replace', 'rename', 'truncate') \
                and recv[0] == 's' and recv[1][0] in ('path', 'stream'):
            self.mark(st, 'moved', *args)
            return [(NONE, st)]
        if recv is not None and recv[0] == 's' and recv[1][0] == 'stream':
            if last in ('read', 'readlines'):
                self.mark(st, 'read', recv[1][1])
                return [(S(('content', recv[1][1], self.content(st, recv[1][1])), 'builtins.str'), st)]
            if last in ('write', 'writelines') and args:
                v = args[0]
                self.mark(st, 'dump', recv[1][1], v[1][1] if v[0] == 's' and v[1][0] == 'toml' else ip.snap(v, st))
                return [(NONE, st)]
        if name in ('tomlkit.parse', 'tomlkit.loads', 'toml.loads', 'tomlkit.load', 'toml.load') and args:
            v = args[0]
            if name.endswith('.load') and v[0] == 's' and v[1][0] == 'stream':
                self.mark(st, 'read', v[1][1])
                v = S(('content', v[1][1], self.content(st, v[1][1])))
            if v[0] == 's' and v[1][0] == 'content':
                if v[1][2] == 'file':
                    return [(namespace(st, self.site_of(v[1][1]) or 'given', ref=f'file:{len(st.mon)}'), st)]
                since = max((i for i, m in enumerate(st.mon) if m[0] == 'open' and m[1] == v[1][1] and 'w' in m[2]), default=0)
                for m in st.mon[since:]:
                    if m[0] == 'dump' and m[1] == v[1][1] and m[2][0] != 'dct' and not remarks(m[2]):
                        self.mark(st, 'garbled', m[1], m[2])
                return [(ip.new_dict(st, (), node), st)]
        if name in ('tomlkit.dump', 'toml.dump') and len(args) == 2 and args[1][0] == 's' and args[1][1][0] == 'stream':
            self.mark(st, 'dump', args[1][1][1], ip.snap(args[0], st))
            return [(NONE, st)]
        return None

    def content(self, st, file):
        """What a file holds at this point: its imagined content, unless it is new or was overwritten."""
        site = self.site_of(file)
        fresh = site in self.missing or any(m[0] == 'open' and m[1] == file and 'w' in m[2] for m in st.mon)
        return 'empty' if fresh else 'file'

    # Running

    def run(self, name, **given):
        st = self.world()
        cls = app(self.prog, name)
        selfv = self.ip.make_self(cls, st, opaque=False)
        attrs = {**self.defaults(cls), **{k: v if isinstance(v, tuple) else C(v) for k, v in given.items()}}
        st.heap['self'] = HObj('obj', cls.qual, attrs)
        rets, raised = self.ip.run_function(cls.method('run'), [selfv], [], st)
        return cls, [s for _, s in rets], raised


def captive(mon, mark):
    """The buffer that standard output goes to when something is printed."""
    open_ = []
    for m in mon:
        if m is mark:
            return open_[-1] if open_ else None
        if m[0] == 'captured':
            open_.append(m[1])
        elif m[0] == 'released' and m[1] in open_:
            open_.remove(m[1])
    return None


def printed(st):
    """What was really printed, as pieces of text."""
    return [m[1] for m in st.mon if m[0] == 'printed' and captive(st.mon, m) is None]


def dests(cls):
    """Which attribute of an application is what: (varpath, source, raw, expand)."""
    out = {}
    for o in options(cls):
        if not o.flags:
            out.setdefault('positional', []).append(o.dest)
        for flag in o.flags:
            out[flag] = o.dest
    return out


def text_of(v):
    return v if isinstance(v, str) else show(v)


def sources(rep, prog):
    """Every loader merges the sources in their order, each read from its own file."""
    core = prog.modules.get(CORE) if hasattr(prog, 'modules') else None
    if core is None:
        raise AnalysisBroken(f'no module {CORE}')
    statement = [n for n in core.tree.body if any(isinstance(x, ast.Name) and x.id == 'config' and isinstance(x.ctx, ast.Store) for x in ast.walk(n))
                 and not isinstance(n, (ast.FunctionDef, ast.ClassDef))]
    rep.floor('statements that load the configuration', len(statement), 1)
    runs = []
    given = ('j', (S(('given', 'file'), 'builtins.str'), '.toml'))
    for what, fn, args, only in (('load', 'load', [], None), ('reload', 'reload', [], None), ('reload_local', 'reload_local', [given], given)):
        func = prog.functions.get(f'{CORE}.{fn}')
        if func is None:
            continue
        t = Loading(prog, None)
        rets, raised = t.ip.run_function(func, args, [], t.world())
        rep.saw(t.ip)
        runs.append((func.qual, only, [(v, s) for v, s in rets]))
    for variable in (None, given):
        t = Loading(prog, variable)
        states, raised = t.ip.run_statements(core, statement, t.world())
        rep.saw(t.ip)
        runs.append((f'{CORE} ({VARIABLE} {"set" if variable else "not set"})', variable, [(s.env.get('config'), s) for s in states if s.env.get('config') is not None]))
    rep.floor('ways to load the configuration', len(runs), 4)
    for where, only, results in runs:
        rep.floor(f'results of {where}', len(results), 1)
        seen = set()
        for v, s in results:
            key = v
            if key in seen:
                continue
            seen.add(key)
            built = v[1][1] if v is not None and v[0] == 's' and v[1][0] == 'merged' else None
            if not rep.check('a configuration is merged from its sources', where, built is not None, f'the configuration is {show(v)}'):
                continue
            kinds = [source(x) for _, x in built]
            order = [k[0] for k in kinds]
            rep.check('sources are merged from the least to the most specific', where, rank(order),
                      f'sources are merged in the order {", ".join(order)}; later ones win', detail=', '.join(order))
            rep.check('every source is merged', where, 'default' in order and 'env' in order and order[-1] == 'env' and order[0] == 'default',
                      f'sources are {", ".join(order)}')
            for (site, x), (kind, file) in zip(built, kinds):
                if site in FILES:
                    want = ('file', only if site == 'local' else None) if only is not None else ('file', S(('path', site, 'config'), 'builtins.str'))
                    if only is not None and site != 'local':
                        rep.check('only the given file is read', f'{where} {site}', kind == 'nothing', f'settings of the {site} file are taken from {show(x)}')
                    else:
                        rep.check('each source is read from its own file', f'{where} {site}', file == want[1] and kind == site or file == want[1] == only,
                                  f'settings of the {site} file are taken from {show(x)}')
                elif site == 'env':
                    rep.check('the environment is a source', f'{where} {site}', kind == 'env', f'environment settings are {show(x)}')
            if only is None:
                for site in FILES:
                    rep.check('every file is a source', f'{where} {site}', site in [k for k, _ in built], f'settings of the {site} file are left out')
            else:
                rep.check('the given file is a source', where, ('local', only) in kinds or any(k[1] == only for k in kinds), f'the given file is not among {order}')


def rank(order):
    """Whether kinds of sources come in the documented order."""
    levels = {'default': 0, 'preload': 1, 'system': 2, 'user': 3, 'local': 4, 'env': 5}
    got = [levels.get(k, 4 if k == 'given' else -1) for k in order if k != 'nothing']
    return got == sorted(got) and -1 not in got


def source(v):
    """(kind, file) of the settings merged."""
    if v == S(('defaults',)):
        return 'default', None
    if v[0] == 's' and v[1][0] == 'file':
        file = v[1][1]
        return (Settings.site_of(file) or 'given'), file
    if v[0] == 'dct' and not v[1] or v[0] == 's' and v[1][0] == 'call' and v[1][1] == ('x', 'cmdkit.config.Namespace') and (
            not v[1][2] or v[1][2][0] == ('dct', ())):
        return 'nothing', None
    if mentions(v, lambda x: x == ('x', 'cmdkit.config.Environ')):
        return ('env' if mentions(v, lambda x: x == C('HYPERSHELL')) else 'another environment'), None
    if v[0] == 's' and v[1][0] == 'call' and v[1][1] == ('x', 'cmdkit.config.Namespace') or v[0] == 'dct':
        return 'preload', None
    return f'unknown ({show(v)})', None


class Loading(Settings):
    """Loading the configuration, with files as symbols."""

    def __init__(self, prog, variable):
        super().__init__(prog)
        self.variable = variable

    def world(self):
        st = super().world()
        self.ip.known[('s', ('global', f'{CORE}.default'), None)] = S(('defaults',))
        self.ip.known.pop(('s', ('global', f'{CORE}.config'), None))
        return st

    def library(self, ip, f, name, recv, args, kwargs, st, node):
        name = name or ''
        last = name.split('.')[-1]
        if st.mon is not None:
            if name == 'cmdkit.config.Configuration':
                return [(S(('merged', tuple((k, ip.snap(v, st)) for k, v in kwargs)), 'cmdkit.config.Configuration'), st)]
            if last == 'from_toml' and args:
                return [(S(('file', args[0])), st)]
            if last == 'exists':
                return [(TRUE, st)]
            if name in ('os.getenv', 'os.environ.get') or last == 'get' and recv is not None and 'environ' in show(recv):
                if args and args[0] == C(VARIABLE):
                    return [(self.variable if self.variable is not None else args[1] if len(args) > 1 else NONE, st)]
        return super().library(ip, f, name, recv, args, kwargs, st, node)


def getting(rep, prog):
    """What `config get` prints."""
    def go(path, site, **kw):
        t = Settings(prog, **{k: v for k, v in kw.items() if k in ('terminal', 'missing')})
        d = dests(app(prog, 'ConfigGetApp'))
        given = {d['positional'][0]: path, d['--default']: site, d['--raw']: kw.get('raw', False), d['--expand']: kw.get('expand', False)}
        cls, outs, raised = t.run('ConfigGetApp', **given)
        rep.saw(t.ip)
        return cls, outs, [(e, v, s) for e, v, s in raised if e != '?']
    for site in (None, 'default') + FILES:
        origin = site or 'merged'
        label = f'of the {site} source' if site else 'of the configuration'
        for path in LEAVES + SECTIONS:
            for kw in ({}, {'raw': True, 'terminal': True}, {'expand': True}) if path in LEAVES else ({}, {'raw': True, 'terminal': True}):
                if kw.get('expand') and (path == 'top.nothing' or '.' not in path):
                    continue
                cls, outs, raised = go(path, site, **kw)
                rep.count('settings shown')
                construct = f'{cls.qual} {path} {label}{" raw" if kw.get("raw") else " expanded" if kw.get("expand") else ""}'
                rep.check('a setting that exists is shown', construct, bool(outs) and (not raised or bool(kw.get('expand'))), f'asking for {path} fails with {[e for e, _, _ in raised]}')
                for s in outs:
                    text = printed(s)
                    want, problem = shown_as(origin, path, text, s)
                    rep.check('a setting is shown exactly as it is', construct, want, f'{path} {label} is shown as {problem}')
        for path in ('top.text', 'top.number', 'top'):
            cls, outs, raised = go(path, site, terminal=True)
            for s in outs:
                text = printed(s)
                rep.check('a setting is shown exactly as it is', f'{cls.qual} {path} {label} on a terminal', len(text) == 1 and
                          any(mentions(x, lambda v: v[:2] == ('setting', origin) or v in (HEADING[1], PLAIN[1], 'toml') or v[:1] == ('toml',)) for x in text[0] if not isinstance(x, str)),
                          f'{path} {label} is shown as {text and [text_of(x) for x in text[0]]}')
        for path in ABSENT:
            cls, outs, raised = go(path, site)
            rep.count('settings that do not exist')
            construct = f'{cls.qual} {path} {label}'
            rep.check('asking for what does not exist is an error', construct, not outs and all(e == ERROR for e, _, _ in raised) and bool(raised),
                      f'asking for {path} {label} {"succeeds" if outs else "fails with " + ", ".join(sorted({e for e, _, _ in raised}))}')
    for site in FILES:
        cls, outs, raised = go('top.text', site, missing=(site,))
        rep.check('asking for a file that does not exist is an error', f'{cls.qual} {site}', not outs and bool(raised) and all(e == ERROR for e, _, _ in raised),
                  f'asking for a setting of a missing {site} file {"succeeds" if outs else "fails with another error"}')


def shown_as(origin, path, text, st):
    """Whether what was printed is the setting itself; otherwise what it is."""
    if len(text) != 1:
        return False, 'nothing' if not text else 'several texts'
    got = text[0]
    say = ''.join(text_of(x) for x in got)
    tree = tree_at(path)
    if isinstance(tree, dict):
        dumped = [plain(m[1]) for m in st.mon if m[0] == 'dumped']
        if len(dumped) != 1:
            return False, say
        inner, quoted = dumped[0], '.' in path[1:]
        if path != '.':
            names = []
            while isinstance(inner, dict) and len(inner) == 1 and inner != expected(origin, path):
                name, inner = next(iter(inner.items()))
                names.append(name)
                if not isinstance(name, str):
                    break
                quoted = quoted and '.' in name
            if '.'.join(map(str, names)) != path:
                return False, f'the text of {dumped[0]}, which is not under the name of {path}'
        if inner != expected(origin, path):
            return False, f'the text of {dumped[0]}'
        lines = [x for x in got if x != '\n' and not (isinstance(x, str) and not x.strip())]
        raw = len(lines) == 1 and lines[0][0] == 's' and lines[0][1][0] == 'toml'
        return not quoted and raw or got[:3] in ((PLAIN, '\n', ENTRY), *([] if quoted else [(HEADING, '\n', ENTRY)])) and len(lines) == 2, say
    if tree is None:
        ok = got in (('null',), (S(('call', ('x', 'json.dumps'), (NONE,), ()), None),)) or len(got) == 1 and 'json.dumps(None)' in text_of(got[0])
        return ok, say
    value = leaf(origin, path, tree)
    if tree == 'str':
        return got == (value,), say
    return len(got) == 1 and not isinstance(got[0], str) and (got[0] == value or is_json(got[0], value)), say


def is_json(v, value):
    return v[0] == 's' and v[1][0] == 'call' and v[1][1] == ('x', 'json.dumps') and v[1][2] == (value,) and not v[1][3]


def origins(rep, prog):
    """What `config which` says."""
    cls = app(prog, 'ConfigWhichApp')
    d = dests(cls)
    for path in ('top.text', 'top.number', 'top.sub', 'bare'):
        for origin in ('default', 'preload') + FILES + ('env',):
            for brief in (True, False):
                t = Settings(prog, origin=origin)
                _, outs, raised = t.run('ConfigWhichApp', **{d['positional'][0]: path, d['--site']: brief})
                rep.saw(t.ip)
                rep.count('origins told')
                construct = f'{cls.qual} {path} from {origin}{" site only" if brief else ""}'
                raised = [e for e, _, _ in raised if e != '?']
                rep.check('every origin can be told', construct, bool(outs) and not raised, f'asking for the origin of a setting that comes from {origin} fails '
                          f'with {", ".join(sorted(set(raised)))}')
                for s in outs:
                    text = printed(s)
                    say = ' and '.join(''.join(text_of(x) for x in p) for p in text) or 'nothing'
                    asked = [m[1] for m in s.mon if m[0] == 'which']
                    rep.check('the origin of the named setting is asked for', construct, bool(asked) and all(a == tuple(C(k) for k in path.split('.')) for a in asked),
                              f'the origin of {[tuple(show(x) for x in a) for a in asked]} is looked up for {path}')
                    if brief:
                        rep.check('the origin told is the right one', construct, text == [(origin,)], f'{say} is told for a setting that comes from {origin}')
                        continue
                    good = len(text) == 1
                    words = ''.join(x for p in text for x in p if isinstance(x, str))
                    good = good and origin in words and not any(o in words.replace('default:', '') for o in ('default', 'preload', 'env') + FILES if o != origin)
                    if good and origin in FILES:
                        good = S(('path', origin, 'config'), 'builtins.str') in text[0]
                    rep.check('the origin told is the right one', construct, good, f'{say} is told for a setting that comes from {origin}')
                    if good and tree_at(path) == 'str':
                        first = text[0][0]
                        rep.check('the value told is the one in effect', construct, first == leaf('merged', path, 'str') or isinstance(first, str) and first.startswith('[...]'),
                                  f'{say} is told')
    t = Settings(prog, origin=None)
    _, outs, raised = t.run('ConfigWhichApp', **{d['positional'][0]: 'top.text', d['--site']: False})
    rep.check('a setting without origin is told as such', f'{cls.qual} unknown setting', not [e for e, _, _ in raised if e == 'builtins.KeyError'] and all(not printed(s) for s in outs),
              'asking for a setting that does not exist fails without a message')


@rule('C41', technique='abstract interpretation of the configuration loaders and of `config get` and `config which` over an imagined tree of settings of unknown values',
      explanation='The loaders and the top-level statement that loads the configuration are interpreted with files and environment as symbols: what is merged, in '
                  'which order and from which file is read off. `config get` and `config which` are interpreted for settings of every type, sections, '
                  'missing settings and every source; what they print is compared with the setting itself.')
def settings_shown(rep):
    sources(rep, rep.prog)
    getting(rep, rep.prog)
    origins(rep, rep.prog)


CHANGES = ('top.text', 'top.number', 'top.new', 'top.nothing', 'new.value', 'top.sub.deep.number', 'top.sub.new.value', 'new.sub.deep.value', 'other.text')


@rule('C42', technique='abstract interpretation of `config set` and the function behind it over an imagined file, with the sequence of file operations as monitor',
      explanation='`config set` is interpreted for existing and new settings at several depths, every source, and existing and missing files. The '
                  'written content is compared with the content read plus the one change; the order of backup, reading and writing is checked.')
def settings_changed(rep):
    prog = rep.prog
    cls = app(prog, 'ConfigSetApp')
    d = dests(cls)
    varpath, valued = d['positional'][:2]
    coerced = [o for o in options(cls) if not o.flags and o.dest == valued]
    rep.check('values are stored with their type', f'{cls.qual} value', bool(coerced) and coerced[0].type is not None and coerced[0].type != 'str',
              'numbers and switches given to `config set` are stored as text')
    names = {o.const.value: o for o in options(cls) if o.action == 'store_const' and o.dest == d['--user'] and isinstance(o.const, ast.Constant)}
    for site in FILES:
        o = names.get(site)
        rep.check('each source has its option', f'{cls.qual} --{site}', o is not None and f'--{site}' in o.flags, f'no option --{site} selects the {site} file')
    default = Settings(prog).defaults(cls).get(d['--user'])
    rep.check('without an option the user file is changed', f'{cls.qual} default', default == C('user'), f'without an option {show(default)} is changed')
    value = S(('given', 'value'), 'builtins.int')
    for site in FILES:
        file = S(('path', site, 'config'), 'builtins.str')
        for missing in ((), (site,)):
            for path in CHANGES:
                t = Settings(prog, missing=missing)
                _, outs, raised = t.run('ConfigSetApp', **{varpath: path, valued: value, d['--user']: site})
                rep.saw(t.ip)
                rep.count('changes')
                construct = f'{cls.qual} {path} in the {"new" if missing else "existing"} {site} file'
                rep.check('a setting can be changed', construct, bool(outs), f'changing {path} fails')
                for s in outs:
                    changed(rep, construct, s.mon, file, site, path, value, bool(missing))
                for e, _, s in raised:
                    if e == '?':
                        intact(rep, construct, s.mon, file)
            for path in ('bare', 'x'):
                t = Settings(prog, missing=missing)
                _, outs, raised = t.run('ConfigSetApp', **{varpath: path, valued: value, d['--user']: site})
                touched = [m for _, _, s in raised for m in s.mon if m[0] in ('open', 'dump', 'moved')] + [m for s in outs for m in s.mon if m[0] in ('open', 'dump', 'moved')]
                rep.check('a setting must be in a section', f'{cls.qual} {path} in the {site} file', not outs and not touched,
                          'a setting without a section is written' if touched else 'a setting without a section is accepted')
    edited(rep, prog)


def edited(rep, prog):
    """Editing opens the file asked for in the editor of the user, and does nothing else to it."""
    cls = app(prog, 'ConfigEditApp')
    d = dests(cls)
    for site in FILES:
        file = S(('path', site, 'config'), 'builtins.str')
        for editors in ({'EDITOR': C('ed')}, {'VISUAL': C('vi')}, {}):
            t = Settings(prog)
            t.editors = editors
            _, outs, raised = t.run('ConfigEditApp', **{d['--user']: site})
            rep.saw(t.ip)
            construct = f'{cls.qual} the {site} file, {next(iter(editors), "no editor")}'
            for s in [*outs, *(s for _, _, s in raised)]:
                rep.check('editing leaves files alone', construct, not any(m[0] in ('dump', 'moved') or m[0] == 'open' and set(m[2]) & set('wax+')
                          for m in s.mon), 'a file is changed before the editor is started')
            if not editors:
                rep.check('an editor has to be named', construct, not outs, 'without an editor the command succeeds')
                continue
            rep.check('editing opens the file asked for', construct, bool(outs) and all(
                [m[1:] for m in s.mon if m[0] == 'ran'] == [(*editors.values(), file)] for s in outs), f'the {site} file is not opened in the editor')


def changed(rep, construct, mon, file, site, path, value, new):
    others = [m for m in mon if m[0] in ('open', 'dump', 'moved') and m[1] != file]
    rep.check('only the named file is changed', construct, not [m for m in others if m[0] != 'open' or set(m[2]) & set('wax+')],
              f'{", ".join(sorted({show(m[1]) for m in others}))} is changed instead of the {site} file')
    dumps = [i for i, m in enumerate(mon) if m[0] == 'dump' and m[1] == file and m[2][0] == 'dct']
    if not rep.check('the change is written', construct, len(dumps) == 1 and not [m for m in mon[dumps[0] + 1:] if m[0] in ('open', 'dump', 'moved')],
                     'the changed settings are not written, or not last'):
        return
    got = plain(mon[dumps[0]][2])
    before = [m[2] for i, m in enumerate(mon) if m[0] == 'dump' and m[1] == file and i < dumps[0]
              and not any(o[0] == 'open' and o[1] == file and set(o[2]) & set('wx') for o in mon[i:dumps[0]])]
    rep.check('what stands before the settings are comments', construct, all(remarks(v) for v in before),
              'text that is no comment is written to the file before its settings: ' + ', '.join(show(v)[:80] for v in before if not remarks(v)))
    garbled = [m for m in mon if m[0] == 'garbled' and m[1] == file]
    rep.check('what is read back can be understood', construct, not garbled,
              'the file is read back with text in it that is no comment: ' + ', '.join(show(m[2])[:80] for m in garbled))
    want = expected(site, '.', (path, value))
    if new:
        want = {}
        inner = want
        *keys, last = path.split('.')
        for k in keys:
            inner = inner.setdefault(k, {})
        inner[last] = value
    rep.check('exactly the named setting changes', construct, got == want, f'setting {path} writes {brief(got, want)}')
    opened = [i for i, m in enumerate(mon) if m[0] == 'open' and m[1] == file and set(m[2]) & set('wx')]
    rep.check('the file is opened afresh to be written', construct, bool(opened) and opened[-1] < dumps[0] and not any(
        m[0] == 'read' for m in mon[opened[-1]:]), 'the content is not written to a fresh file')
    if not new:
        intact(rep, construct, mon, file)
        read = [i for i, m in enumerate(mon) if m[0] == 'read' and m[1] == file]
        rep.check('the old content is kept', construct, bool(read) and read[-1] < opened[0], 'the file is emptied before its content was read')
    if new:
        rep.check('the folder of a new file is made', construct, any(m[0] == 'mkdir' and mentions(m[1], lambda v: v == file[1]) for m in mon[:opened[0]]),
                  'a new file is written in a folder that may not exist')


def remarks(v):
    """Whether a text written to a settings file consists of comments and empty lines."""
    if is_const(v):
        parts = [cval(v)]
    elif v[0] == 'j':
        parts = v[1]
    else:
        return False
    text = ''.join(x if isinstance(x, str) else '?' for x in parts)
    return all(not line.strip() or line.lstrip().startswith('#') for line in text.split('\n'))


def intact(rep, construct, mon, file):
    """Before the file is emptied, a copy of it was made."""
    opened = [i for i, m in enumerate(mon) if m[0] == 'open' and m[1] == file and set(m[2]) & set('wx') or m[0] == 'moved']
    if opened and 'new' not in construct.split(' in the ')[1].split()[0]:
        copies = [m for m in mon[:opened[0]] if m[0] == 'copied' and m[1] == file and m[2] != file]
        rep.check('a copy of the file is kept', construct, bool(copies), 'the file is emptied without a copy of its content')


def brief(got, want):
    """Where two trees differ."""
    def walk(a, b, base):
        for k in sorted(set(a) | set(b), key=str):
            x, y = a.get(k, 'nothing'), b.get(k, 'nothing')
            if isinstance(x, dict) and isinstance(y, dict):
                yield from walk(x, y, base + (str(k),))
            elif x != y:
                yield '.'.join(base + (str(k),)) + ' = ' + (show(x) if isinstance(x, tuple) else str(x))
    if not isinstance(got, dict):
        return show(got)
    return '; '.join(list(walk(got, want, ()))[:4])
