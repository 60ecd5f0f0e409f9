"""Searching and changing recorded tasks from the command line."""

from __future__ import annotations

import ast
import json
import re
import sqlite3

from ..cli import app, options
from ..interp import State, HObj, C, S, NONE, TRUE, FALSE, is_const, cval, show
from ..machine import TASK
from ..model import AnalysisBroken
from ..report import rule
from ..rows import Tables, WRITES, ENDS, Unknown, columns, column_of, default_of, holds, relation, sql_value, both, either, negate

PROVIDER = ('s', ('attr', ('s', ('attr', ('s', ('global', 'hypershell.core.config.config'), None), 'database'), None), 'provider'), None)


def python(v, st):
    """A constant, or a list, tuple or dictionary of constants, as a Python value."""
    if is_const(v):
        return cval(v)
    if v[0] == 't':
        return tuple(python(x, st) for x in v[1])
    if v[0] == 'l' and all(m == '1' for m, _ in st.heap[v[1]].attrs):
        return [python(x, st) for _, x in st.heap[v[1]].attrs]
    if v[0] == 'd' and all(k is not None and is_const(k) for k, _ in st.heap[v[1]].attrs):
        return {cval(k): python(x, st) for k, x in st.heap[v[1]].attrs}
    if v[0] == 'lst' and all(m == '1' for m, _ in v[1]):
        return [python(x, st) for _, x in v[1]]
    if v[0] == 'dct' and all(k is not None and is_const(k) for k, _ in v[1]):
        return {cval(k): python(x, st) for k, x in v[1]}
    raise Unknown(show(v))


OUTPUT = {'builtins.print', '.print', '.writerow', '.writerows', '.write', '.add_row', '.add_column', 'sys.stdout.write', 'sys.stderr.write', '.writelines'}
NOTED = {'time.sleep', 'shutil.copyfileobj', '.get_file', 'builtins.open', 'csv.writer', 'rich.table.Table'}


class Shell(Tables):
    """The abstract database as seen by the commands for tasks, with constants folded through the libraries used."""

    def __init__(self, prog, provider='sqlite', answer_given=None):
        super().__init__(prog, on_event=self.note)
        self.provider, self.answer_given = provider, C(answer_given) if answer_given is not None else S(('answer',), 'builtins.str')
        self.where = {}
        self.present = self.terminal = None
        self.project = True
        self.later = None           # (number of sleeps, columns): what the server records meanwhile
        for cls in prog.classes.values():
            if any(b.split('.')[-1] == 'Application' for b in cls.all_ext_bases()) and cls.method('__init__') is None:
                self.ip.summaries[f'{cls.qual}()'] = self.application
        self.ip.enter_objects = self.ip.exact_lists = True
        self.ip.known = {PROVIDER: C(provider)}
        self.ip.summaries.pop(prog.cls(TASK).method('ensure_valid_tag').qual, None)
        keep = self.ip.extern_hook

        def outer(ip, f, name, recv, args, kwargs, st, node):
            got = self.library(ip, f, name, recv, args, kwargs, st, node)
            return got if got is not None else keep(ip, f, name, recv, args, kwargs, st, node)
        self.ip.extern_hook = outer
        for name in ('ensuredb', 'initdb', 'checkdb'):
            fn = prog.functions.get(f'hypershell.data.{name}')
            if fn is not None:
                self.ip.summaries[fn.qual] = lambda ip, fn, args, kwargs, st, node: [(NONE, st)]
        self.ip._globals = prog.__dict__.setdefault('_known_globals', {}).setdefault((provider, frozenset(self.ip.summaries)), {})

    def library(self, ip, f, name, recv, args, kwargs, st, node):
        """Results of library functions on constants."""
        if name in ('re.match', 're.fullmatch', 're.search') and len(args) == 2 and all(map(is_const, args)):
            return self.matched(getattr(re, name[3:])(cval(args[0]), cval(args[1])), st)
        if name in ('.match', '.fullmatch', '.search') and recv is not None and show(recv).startswith('re.compile(') and args and is_const(args[0]):
            pattern = recv[1][2][0]
            if is_const(pattern):
                return self.matched(getattr(re.compile(cval(pattern)), name[1:])(cval(args[0])), st)
        if recv is not None and recv[0] == 's' and recv[1][0] == 'match':
            groups = recv[1][1]
            if name == '.groups':
                return [(('t', tuple(C(g) for g in groups[1:])), st)]
            if name == '.group':
                got = [C(groups[cval(a)]) for a in args] if all(is_const(a) and isinstance(cval(a), int) for a in args) else None
                if got is not None:
                    return [(got[0] if len(got) == 1 else ('t', tuple(got)) if got else C(groups[0]), st)]
        if name in ('builtins.int', 'builtins.float') and len(args) == 1 and is_const(args[0]):
            try:
                return [(C((int if name.endswith('int') else float)(cval(args[0]))), st)]
            except (TypeError, ValueError):
                ip.raise_sinks[-1].append(('builtins.ValueError', S(('exc', 'builtins.ValueError')), st))
                return []
        if name == 'json.dumps' and args:
            try:
                return [(C(json.dumps(python(args[0], st), **{k: python(v, st) for k, v in kwargs})), st)]
            except (Unknown, TypeError):
                pass
        if name in ('json.dumps', 'yaml.dump', 'yaml.safe_dump', 'json.JSONEncoder.encode') and args:
            return [(S(('call', f, tuple(ip.snap(a, st) for a in args), tuple((k, ip.snap(v, st)) for k, v in kwargs)), 'builtins.str'), st)]
        if name in ('.isoformat', '.strftime') and recv is not None and recv[0] == 's' and recv[2] == 'datetime.datetime':
            return [(S(('call', f, tuple(args), tuple(kwargs)), 'builtins.str'), st)]
        if name == 'os.path.exists' and self.present is not None:
            return [(C(self.present), st)]
        if name == '.get' and len(args) == 2 and recv is not None and 'sftp' in show(recv):
            ip.emit(st, 'fetch', name=name, recv=recv, args=args, node=node)
            return [(NONE, st)]
        if name == 'uuid.uuid4' and st.mon is not None:
            return [(C('%08d-aaaa-4bbb-8ccc-dddddddddddd' % self.fresh(st)), st)]
        if name == 'socket.gethostname':
            return [(C('here'), st)]
        if name.endswith('.isatty') and self.terminal is not None:
            return [(C(self.terminal), st)]
        if name == 'builtins.input':
            ip.emit(st, 'asked', name=name, node=node)
            return [(self.answer_given, st)]
        return None

    @staticmethod
    def matched(m, st):
        if m is None:
            return [(NONE, st)]
        v = S(('match', (m.group(0),) + m.groups()), 're.Match')
        st.facts[('truth', v)], st.facts[('isnone', v)] = True, False
        return [(v, st)]

    def application(self, ip, cls, args, kwargs, st, node):
        """An application built by another one: the given options as attributes, on top of those of the class."""
        if args or any(k is None for k, _ in kwargs):
            return None
        attrs = {}
        for c in reversed(cls.mro):
            for name in c.annotations:
                if name in c.assigns:
                    got = ip.ev_in(c.module, c.assigns[name], st, c)
                    if len(got) == 1:
                        attrs[name] = got[0][0]
        for k, v in kwargs:
            attrs[k] = v
        ref = ip.alloc(st, HObj('obj', cls.qual, attrs), node, hint=f'{cls.name}{self.fresh(st)}')
        ip.emit(st, 'new', name=cls.qual, args=args, kwargs=kwargs, node=node, value=('o', ref))
        return [(('o', ref), st)]

    # what the server records while a command sleeps is seen by objects of the session once they are read again

    def session(self, ip, meth, recv, args, kwargs, st, node):
        if meth in ('expire_all', 'close', 'remove', 'expunge_all', 'refresh', 'expire', 'expunge', 'rollback', 'commit', 'reset'):
            self.catch_up(st)
        return super().session(ip, meth, recv, args, kwargs, st, node)

    def query(self, ip, meth, recv, args, kwargs, st, node):
        if meth == 'populate_existing' or meth in ENDS and (meth in ('count', 'exists') or not all(x[0] == 'k' for x in recv[1][1])):
            self.catch_up(st)
        return super().query(ip, meth, recv, args, kwargs, st, node)

    def catch_up(self, st):
        if self.later is not None and len([d for d in self.did(st, 'call') if d[1] == 'time.sleep']) >= self.later[0] and not self.has(st, 'caught'):
            self.flag(st, 'caught')
            for ref in st.mon[0]:
                o = st.heap[ref]
                if o.cls == TASK:
                    st.heap[ref] = HObj(o.kind, o.cls, {**o.attrs, **self.later[1]}, o.opaque)

    # what a path did, in order, kept with its state so that paths that differ in it stay apart

    def note(self, ip, ev, st):
        what = None
        if ev.kind in ('sql', 'asked'):
            what = (ev.kind, ev.name, ev.recv, ())
        elif ev.kind == 'session' and ev.name in WRITES:
            what = ('write', ev.name, None, ())
        elif ev.kind == 'call' and ev.name in OUTPUT:
            what = ('out', ev.name, ip.snap(ev.recv, st) if ev.recv else None, tuple(ip.snap(a, st) for a in ev.args) + tuple(
                ('kw', k, ip.snap(v, st)) for k, v in ev.kwargs))
        elif ev.kind == 'call' and ev.name in NOTED:
            what = ('call', ev.name, ev.recv, tuple(ip.snap(a, st) for a in ev.args) + tuple((k, ip.snap(v, st)) for k, v in ev.kwargs))
        elif ev.kind == 'fetch':
            what = ('fetch', ev.name, ev.recv, tuple(ev.args))
        if what is not None:
            rows, flags = st.mon
            st.mon = (rows, flags | {('did', sum(f[0] == 'did' for f in flags)) + what})
            self.where[what[1], what[2]] = ev

    @staticmethod
    def did(st, *kinds):
        return [f[2:] for f in sorted((f for f in st.mon[1] if f[0] == 'did'), key=lambda f: f[1]) if not kinds or f[2] in kinds]

    # raw expressions and further conditions

    def raw(self, v):
        """(text, parameters) of a raw expression, or None."""
        if v[0] != 's' or v[1][0] != 'call':
            return None
        f, args, kwargs = v[1][1], v[1][2], v[1][3]
        if f[0] == 'x' and f[1].split('.')[-1] == 'text' and args and is_const(args[0]):
            return cval(args[0]), {}
        if f[0] == 's' and f[1][0] == 'attr' and f[1][2] in ('params', 'bindparams'):
            inner = self.raw(f[1][1])
            return None if inner is None else (inner[0], {**inner[1], **self.named(args, kwargs)})
        return None

    @staticmethod
    def named(args, kwargs):
        out = {}
        for a in args:
            if a[0] != 'dct' or any(k is None or not is_const(k) for k, _ in a[1]):
                raise Unknown(show(a))
            out.update({cval(k): x for k, x in a[1]})
        out.update({k: x for k, x in kwargs if k})
        return out

    def leaf(self, q, st):
        params = {}
        for meth, args, kwargs in q[2]:
            if meth == 'params':
                params.update(self.named(args, kwargs))     # a name given twice keeps its last value for the whole statement
            for a in args:
                got = self.raw(a) if a[0] == 's' else None
                if got is not None:
                    params.update(got[1])

        def known(p, row):
            return self.condition(p, row, params, st)
        return known

    def tags(self, row, st):
        v = row.get('tag')
        if v is not None and v[0] == 'd' and all(k is not None and is_const(k) and is_const(x) for k, x in st.heap[v[1]].attrs):
            return {cval(k): cval(x) for k, x in st.heap[v[1]].attrs}
        raise Unknown('tags of a task')

    def condition(self, p, row, params, st):
        """Truth of raw conditions, regular expressions and conditions on tags."""
        got = self.raw(p)
        if got is not None:
            return self.raw_condition(got[0], params, row, st)
        if p[0] != 's':
            return NotImplemented
        if p[1][0] == 'call' and p[1][1][0] == 's' and p[1][1][1][0] == 'attr':
            recv, meth, args = p[1][1][1][1], p[1][1][1][2], p[1][2]
            if meth == 'regexp_match' and column_of(recv) is not None and len(args) == 1 and is_const(args[0]):
                v = sql_value(recv, row)
                if v == NONE:
                    return None
                if is_const(v) and isinstance(cval(args[0]), str):
                    return re.search(cval(args[0]), str(cval(v))) is not None
                raise Unknown(show(p))
            if meth in ('isnot', 'is_not', 'is_') and args == (NONE,) and self.tag_name(recv) is not None:
                value = self.extracted(recv, row, st)
                return (value is None) == (meth == 'is_')
        if p[1][0] == 'sqlcmp' and p[1][1] in ('Eq', 'NotEq'):
            for a, b in ((p[1][2], p[1][3]), (p[1][3], p[1][2])):
                if self.tag_name(a) is None:
                    continue
                value, want = self.extracted(a, row, st), self.as_json(b)
                if want is None:
                    raise Unknown(show(p))
                return None if value is None else (value == want) == (p[1][1] == 'Eq')
        return NotImplemented

    @staticmethod
    def tag_name(v):
        if v[0] == 's' and v[1][0] == 'sub' and column_of(v[1][1]) is not None and column_of(v[1][1])[1] == 'tag' and is_const(v[1][2]):
            return cval(v[1][2])
        return None

    @staticmethod
    def as_json(v):
        """Text of a value coerced to JSON."""
        if v[0] == 's' and v[1][0] == 'call' and v[1][1][0] == 'x' and v[1][1][1].split('.')[-1] in ('type_coerce', 'cast') \
                and len(v[1][2]) == 2 and is_const(v[1][2][0]) and show(v[1][2][1]).split('.')[-1].startswith('JSON'):
            return json.dumps(cval(v[1][2][0]))
        return None

    def extracted(self, v, row, st):
        """What the database makes of Task.tag[name]: JSON text, or None for NULL."""
        tags, name = self.tags(row, st), self.tag_name(v)
        if self.provider == 'sqlite':      # JSON_QUOTE(JSON_EXTRACT(...)), where booleans are numbers and NULL is quoted
            value = tags.get(name)
            return json.dumps(int(value) if isinstance(value, bool) else value)
        return json.dumps(tags[name]) if name in tags else None

    def path(self, v):
        """Name addressed by a JSON path of SQLite."""
        if is_const(v):
            m = re.fullmatch(r'\$\."([^"]*)"', cval(v)) or re.fullmatch(r'\$\.([A-Za-z_][A-Za-z0-9_]*)', cval(v))
            if m:
                return m.group(1)
            if re.fullmatch(r'\$(\.[^."\[\]]+)+', cval(v)):
                return '\0' + cval(v)        # a path into nested objects, which tags do not have
        raise Unknown(show(v))

    def raw_condition(self, sql, params, row, st):
        m = re.fullmatch(r"\s*json_(extract|type)\(\s*(?:task\.)?tag\s*,\s*:(\w+)\s*\)\s*(is not null|is null|=\s*'(\w+)')\s*", sql, re.I)
        if self.provider != 'sqlite':
            raise Unknown(sql)
        if m is None or m.group(2) not in params:
            got = self.sqlite(f'select ({sql}) from task', params, self.tags(row, st))
            return None if got is None else bool(got)
        tags, name = self.tags(row, st), self.path(params[m.group(2)])
        if m.group(1).lower() == 'extract':
            value = tags.get(name)
        else:
            value = json_type(tags[name]) if name in tags else None
        test = m.group(3).lower()
        if test in ('is null', 'is not null'):
            return (value is None) == (test == 'is null')
        return None if value is None else value == m.group(4)

    @staticmethod
    def sqlite(statement, params, tags):
        """A fragment of SQL on constant tags, folded by the database itself."""
        if not all(map(is_const, params.values())):
            raise Unknown(statement)
        db = sqlite3.connect(':memory:')
        try:
            db.execute('create table task (tag json)')
            db.execute('insert into task values (?)', (json.dumps(tags),))
            return db.execute(statement, {k: cval(v) for k, v in params.items()}).fetchone()[0]
        except (sqlite3.Error, TypeError) as error:
            raise Unknown(f'{statement}: {error}') from error
        finally:
            db.close()

    def ordered(self, q, refs, st):
        for meth, args, kwargs in q[2]:
            if meth == 'order_by' and len(args) == 1:
                col, down = direction(args[0])
                if col is None or not all(is_const(st.heap[r].attrs[col]) for r in refs):
                    raise Unknown(f'order by {show(args[0])}')
                # NULL comes first
                refs = sorted(refs, key=lambda r: (cval(st.heap[r].attrs[col]) is not None, cval(st.heap[r].attrs[col]) or 0)
                              if cval(st.heap[r].attrs[col]) is None or not isinstance(cval(st.heap[r].attrs[col]), str)
                              else (True, cval(st.heap[r].attrs[col])), reverse=down)
        return refs

    # changes of tags

    def apply(self, ip, st, ent, node):
        if 'tag' in ent:
            got = self.raw(ip.snap(ent['tag'], st)) if ent['tag'][0] == 's' else None
            if got is not None:
                ref = next((r for r in st.mon[0] if st.heap[r].attrs.get('id') == ent.get('id')), None)
                if ref is not None:
                    try:
                        new = self.changed(*got, self.tags(st.heap[ref].attrs, st))
                    except Unknown as error:
                        self.unknown.append(str(error))
                        return
                    ent = {**ent, 'tag': self.tag_dict(st, f'{ref}.tag{self.fresh(st)}', new)}
        return super().apply(ip, st, ent, node)

    @staticmethod
    def tag_dict(st, ref, values):
        st.heap[ref] = HObj('dict', None, tuple((C(k), C(v)) for k, v in values.items()))
        return ('d', ref)

    def changed(self, sql, params, tags):
        tags = dict(tags)
        m = re.fullmatch(r'\s*(json_set|json_remove)\(\s*(?:task\.)?tag\s*((?:,\s*:\w+\s*)*)\)\s*', sql, re.I)
        if m is not None and self.provider == 'sqlite':
            vals = [params.get(n) for n in re.findall(r':(\w+)', m.group(2))]
            if any(v is None or not is_const(v) for v in vals):
                raise Unknown(sql)
            if m.group(1).lower() == 'json_remove':
                for v in vals:
                    tags.pop(self.path(v), None)
            else:
                for k, v in zip(vals[::2], vals[1::2]):
                    tags[self.path(k)] = int(cval(v)) if isinstance(cval(v), bool) else cval(v)
            return tags
        if self.provider == 'sqlite':
            got = self.sqlite(f'select ({sql}) from task', params, tags)
            return json.loads(got) if isinstance(got, str) else {}
        m = re.fullmatch(r'\s*jsonb_set\(\s*(?:task\.)?tag\s*,\s*:(\w+)\s*,\s*:(\w+)\s*(,\s*(?:true|false)\s*)?\)\s*', sql, re.I)
        if m is not None and self.provider != 'sqlite' and all(g in params and is_const(params[g]) for g in m.groups()[:2]):
            key = re.fullmatch(r'\{([^{},]*)\}', cval(params[m.group(1)]))
            if key is None:
                raise Unknown(show(params[m.group(1)]))
            if 'false' in (m.group(3) or '').lower() and key.group(1).strip('"') not in tags:
                return tags
            tags[key.group(1).strip('"')] = json.loads(cval(params[m.group(2)]))
            return tags
        m = re.fullmatch(r'\s*(?:task\.)?tag\s*-\s*:(\w+)\s*', sql, re.I)
        if m is not None and self.provider != 'sqlite' and m.group(1) in params and is_const(params[m.group(1)]):
            tags.pop(cval(params[m.group(1)]), None)
            return tags
        raise Unknown(sql)


def json_type(v):
    return 'null' if v is None else ('true' if v else 'false') if isinstance(v, bool) else 'integer' if isinstance(v, int) else \
        'real' if isinstance(v, float) else 'text'


def direction(v):
    """(column, descending) of an ordering term."""
    if column_of(v) is not None:
        return column_of(v)[1], False
    if v[0] == 's' and v[1][0] == 'call':
        f = v[1][1]
        if f[0] == 's' and f[1][0] == 'attr' and f[1][2] in ('desc', 'asc') and column_of(f[1][1]) is not None:
            return column_of(f[1][1])[1], f[1][2] == 'desc'
        if f[0] == 'x' and f[1].split('.')[-1] in ('desc', 'asc') and len(v[1][2]) == 1 and column_of(v[1][2][0]) is not None:
            return column_of(v[1][2][0])[1], f[1].split('.')[-1] == 'desc'
    return None, False


# -- what the commands should do -----------------------------------------------------------------------------------------

def coerced(text):
    low = text.lower()
    if low in ('null', 'none'):
        return None
    if low in ('true', 'false'):
        return low == 'true'
    for kind in (int, float):
        try:
            return kind(text)
        except ValueError:
            pass
    return text


def value_for(kind, text):
    if kind == 'str':
        return None if text.lower() in ('null', 'none') else text
    return coerced(text)


COMPARE = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '>=': lambda a, b: a >= b, '<=': lambda a, b: a <= b,
           '>': lambda a, b: a > b, '<': lambda a, b: a < b, '~': lambda a, b: re.search(b, str(a)) is not None}


def meets(op, have, want):
    """Whether a value meets a condition; nothing but the test for null holds for null."""
    if want is None and op in ('==', '!='):
        return (have is None) == (op == '==')
    if have is None or want is None:
        return False
    return COMPARE[op](have, want)


def same_tag(have, want, provider):
    if isinstance(have, bool) != isinstance(want, bool) and not isinstance(have, (str, type(None))) and \
            not isinstance(want, (str, type(None))):
        # SQLite keeps booleans as numbers
        return provider == 'sqlite' and isinstance(have, int) and isinstance(want, int) and int(have) == int(want)
    return type(have) is type(want) and have == want


def tagged(tags, given, provider):
    """Whether tags meet what was given to --with-tag."""
    name, sep, value = given.partition(':')
    if not sep or not value:
        return name in tags
    return name in tags and same_tag(tags[name], coerced(value), provider)


ALIASES = {'show_failed': ('!=', 0), 'show_succeeded': ('==', 0), 'show_completed': ('!=', None), 'show_remaining': ('==', None)}
FLAGS = {'show_failed': '--failed', 'show_succeeded': '--succeeded', 'show_completed': '--completed', 'show_remaining': '--remaining'}


class Commands:
    """Runs a command with given values of its options."""

    scale = None

    def __init__(self, rep, name):
        self.rep, self.prog = rep, rep.prog
        self.cls = app(rep.prog, name)
        self.options = {}
        for o in options(self.cls):
            self.options.setdefault(o.dest, o)
        self.kinds = self.column_kinds()

    def column_kinds(self):
        node = self.prog.cls(TASK).assigns.get('columns')
        out = {}
        if isinstance(node, ast.Dict):
            out = {k.value: ast.unparse(v).split('.')[-1] for k, v in zip(node.keys, node.values)}
        self.rep.floor('columns of a task', len(out), 10)
        return out

    def run(self, given, provider='sqlite', rows=(), answer=None, method='run', **world):
        """(shell, paths, raised): every path ends with a state whose rows can be read."""
        sh = Shell(self.prog, provider, answer)
        for k, v in world.items():
            setattr(sh, k, v)
        if self.scale:      # the command with its large constants (rows per step) replaced by small ones, in the same order
            plain = sh.ip.ev_Constant
            sh.ip.ev_Constant = lambda node, st: [(C(self.scale[id(node)]), st)] if id(node) in self.scale else plain(node, st)
        refs = {}
        st = sh.state({})
        for i, row in enumerate(rows):
            attrs = {k: v if isinstance(v, tuple) else C(v) for k, v in row.items() if k != 'tag'}
            attrs['tag'] = sh.tag_dict(st, f'tags{i}', row['tag'])
            st.heap[f'row{i}'] = HObj('obj', TASK, attrs)
            refs[f'row{i}'] = row
            for v in attrs.values():
                if v[0] == 's':
                    st.facts['isnone', v] = False
        st.mon = (tuple(refs), frozenset())
        attrs = {}
        for dest, o in self.options.items():
            if dest in given:
                v = given[dest]
                attrs[dest] = sh.ip.new_list(st, tuple(('1', C(x)) for x in v), self.cls.node) if isinstance(v, (list, tuple)) else C(v)
            else:
                node = o.default
                if isinstance(node, ast.Name) and node.id in self.cls.assigns:
                    node = self.cls.assigns[node.id]
                attrs[dest] = sh.ip.ev_in(self.cls.module, node, st, self.cls)[0][0] if node is not None else C(False if o.switch else None)
        st.heap['self'] = HObj('obj', self.cls.qual, attrs)
        sh.ip.make_self(self.cls, st, opaque=False)
        st.heap['self'] = HObj('obj', self.cls.qual, attrs)
        rets, raised = sh.ip.run_function(self.cls.method(method), [('o', 'self')], [], st)
        self.rep.saw(sh.ip)
        return sh, [s for _, s in rets], raised


def base_row(cmd, prog, **given):
    """A record with every column, those not given null or their default."""
    out = {}
    for n, node in columns(prog, prog.cls(TASK)).items():
        d = default_of(node)
        out[n] = cval(d) if is_const(d) else None
    out.update(id='task-0', args='x', attempt=1, retried=False, tag={}, submit_time='2024-01-01 00:00:00', submit_id='s', submit_host='h')
    out.update(given)
    return out


def where_of(cmd, method='run'):
    fn = cmd.cls.method(method)
    return fn.where if fn is not None else ''


def universe(cmd, prog):
    """Records that tell conditions apart."""
    out = []

    def add(**given):
        out.append(base_row(cmd, prog, id=f'{len(out):08d}-0000-0000-0000-000000000000', **given))
    for code in (None, -1, 0, 1, 2, 10):
        add(exit_status=code)
    for args in ('foo', '1', 'foobar', 'a b', 'true', '=1', '0'):
        add(args=args)
    for host in ('n1', 'n10'):
        add(client_host=host, attempt=3)
    add(retried=True, duration=600)
    add(duration=0)
    for when in ('2024-03-01 10:00:00', '2024-05-01 10:00:00'):
        add(submit_time=when, completion_time=when)
    for tags in ({'a': ''}, {'b': ''}, {'a': '', 'b': ''}, {'a': 'x'}, {'a': 'x', 'b': 2}, {'a': 1}, {'a': 1.0}, {'a': 2.5}, {'a': 0}, {'a': 0.0},
                 {'a': True}, {'a': False}, {'a': None}, {'a.b': 'x'}, {'a.b': ''}, {'b': 'x'}, {'ab': ''}):
        add(tag=tags, exit_status=1 if tags.get('b') == 2 else None)
    return out


CONDITIONS = [('exit_status', v) for v in ('0', '1', '-1', '2', 'null')] + [('attempt', '1'), ('duration', '600'), ('duration', '0')] + \
    [('args', v) for v in ('foo', '1', 'a b', 'true', '=1')] + [('client_host', v) for v in ('n1', 'none', 'null')] + \
    [('retried', v) for v in ('true', 'false')] + [('submit_time', '2024-03-01 10:00:00')]
TAGS = ['a', 'a:', 'a:x', 'a:1', 'a:1.0', 'a:0.0', 'a:0', 'a:2.5', 'a:true', 'a:false', 'a:null', 'a.b', 'a.b:x', 'zz', 'zz:null', 'zz:1']


class Search(Commands):
    """Searches with given conditions over all records at once."""

    def __init__(self, rep):
        super().__init__(rep, 'TaskSearchApp')
        self.rows = universe(self, self.prog)
        self.n = 0

    def printed(self, given, provider):
        """Identifiers printed on each path."""
        sh, paths, raised = self.run({'field_names': ['id'], **given}, provider, self.rows)
        self.n += 1
        for s in paths:
            lines = []
            for kind, name, recv, args in sh.did(s, 'out'):
                lines.append(' '.join(str(cval(a)) if is_const(a) else '?' for a in args if a[0] != 'kw'))
            yield sh, s, lines
        for exc, _, s in raised:
            yield sh, s, exc

    def expect(self, rule_, label, given, want, about, provider='sqlite', ordered=False, most=None):
        where = where_of(self, 'build_query') or where_of(self)
        got_any = False
        for sh, s, got in self.printed(given, provider):
            got_any = True
            if sh.unknown:
                raise AnalysisBroken(f'search not understood ({about}): {sh.unknown[0]}')
            if isinstance(got, str):
                self.rep.bad(rule_, label, f'{about}: ends with {got.split(".")[-1]} instead of a result', where)
                continue
            ids = [r['id'] for r in want]
            if any('?' in g for g in got):
                raise AnalysisBroken(f'output of a search not understood ({about})')
            if most is not None and not ordered:
                good = len(got) == min(most, len(ids)) == len(set(got)) and set(got) <= set(ids)
            else:
                good = got == ids if ordered else sorted(got) == sorted(ids)
            diff = [self.show(i) + ' missing' for i in ids if i not in got] + [self.show(i) + ' found' for i in got if i not in ids]
            self.rep.check(rule_, label, good, f'{about}: ' + ('; '.join(diff[:3]) if diff else 'wrong order or number of tasks'), where)
            writes = sh.did(s, 'write')
            self.rep.check('no change', 'search', not writes, f'{about}: a search changes the database', where)
        if not got_any:
            raise AnalysisBroken(f'no path of a search ends ({about})')

    def show(self, i):
        row = next((r for r in self.rows if r['id'] == i), None)
        if row is None:
            return i
        base = base_row(self, self.prog)
        return 'task with ' + ', '.join(f'{k} {v!r}' for k, v in row.items() if k != 'id' and v != base[k]) if any(
            v != base[k] for k, v in row.items() if k != 'id') else 'a new task'

    def refused(self, rule_, label, given, about, provider='sqlite', kinds=('ArgumentError',)):
        for sh, s, got in self.printed(given, provider):
            good = isinstance(got, str) and got.split('.')[-1] in kinds
            self.rep.check(rule_, label, good, f'{about}: ' + (f'ends with {got.split(".")[-1]}' if isinstance(got, str) else 'is not refused'),
                           where_of(self))


TECH = 'abstract interpretation of the command over an abstract database; query terms compared with the documented meaning'


@rule('C32', technique=TECH,
      explanation='Every operator with every kind of column and value, every alias, tag, ordering and limit; on both kinds of database.')
def search(rep):
    cmd = Search(rep)
    kinds = cmd.kinds
    for provider in ('sqlite', 'postgres'):
        for field, value in CONDITIONS:
            kind = kinds.get(field)
            want = value_for(kind, value)
            for op in COMPARE:
                if op == '~' and kind != 'str':
                    continue
                if op == '~' and want is None or want is None and op not in ('==', '!='):
                    continue
                if op not in ('==', '!=') and isinstance(want, bool):
                    continue
                for sep in ('', ' ') if provider == 'sqlite' else (' ',):
                    text = f'{field}{sep}{op}{sep}{value}'
                    if sep == '' and value.startswith('='):
                        continue
                    cmd.expect('condition', f'{kind} {op}', {'where_clauses': [text]},
                               [r for r in cmd.rows if meets(op, r[field], want)], f'-w "{text}"', provider)
        two = ['exit_status >= 0', 'args != foo']
        cmd.expect('all conditions', 'two conditions', {'where_clauses': ['exit_status >= 0', 'exit_status < 2']},
                   [r for r in cmd.rows if r['exit_status'] in (0, 1)], '-w "exit_status >= 0" "exit_status < 2"', provider)
        cmd.expect('all conditions', 'conditions on two fields', {'where_clauses': two},
                   [r for r in cmd.rows if meets('>=', r['exit_status'], 0) and r['args'] != 'foo'], f'-w {two}', provider)
        for flag, (op, want) in ALIASES.items():
            hits = [r for r in cmd.rows if meets(op, r['exit_status'], want)]
            cmd.expect('alias', FLAGS[flag], {flag: True}, hits, FLAGS[flag], provider)
            cmd.expect('all conditions', f'{FLAGS[flag]} with a condition', {flag: True, 'where_clauses': ['exit_status != 2']},
                       [r for r in hits if meets('!=', r['exit_status'], 2)], f'{FLAGS[flag]} -w "exit_status != 2"', provider)
            cmd.expect('all conditions', f'{FLAGS[flag]} with a tag', {flag: True, 'taglist': ['b:2']},
                       [r for r in hits if tagged(r['tag'], 'b:2', provider)], f'{FLAGS[flag]} -t b:2', provider)
        for tag in TAGS:
            cmd.expect('tag', 'with value' if ':' in tag[:-1] else 'without value', {'taglist': [tag]},
                       [r for r in cmd.rows if tagged(r['tag'], tag, provider)], f'-t {tag} ({provider})', provider)
        for both_ in (['a', 'b'], ['b', 'a'], ['a:x', 'b'], ['b', 'a:x'], ['a:x', 'b:2'], ['b:2', 'a:x'], ['a:null', 'zz:null'], ['b', 'a:null'],
                      ['a', 'b', 'zz'], ['a.b', 'a']):
            cmd.expect('all conditions', f'tags {" ".join("value" if ":" in b else "name" for b in both_)}', {'taglist': both_},
                       [r for r in cmd.rows if all(tagged(r['tag'], b, provider) for b in both_)], f'-t {" ".join(both_)} ({provider})', provider)
        for field in ('exit_status', 'args', 'attempt', 'id'):
            for down in (False, True):
                hits = [r for r in cmd.rows if r[field] is not None and not r['tag']]
                cond = [f'{field} != null'] + ['duration == null', 'retried == false']
                hits = [r for r in cmd.rows if r[field] is not None and r['duration'] is None and not r['retried']]
                hits.sort(key=lambda r: r[field], reverse=down)
                given = {'where_clauses': cond, 'order_by': field, 'order_desc': down}
                if field == 'id':
                    for most in (1, 3):
                        cmd.expect('limit', 'ordered', {**given, 'limit': most}, hits[:most], f'-s {field}{" --desc" if down else ""} -l {most}',
                                   provider, ordered=True)
                order_of(cmd, given, field, down, provider)
        for most in (0, 1, 2, 1000):
            cmd.expect('limit', 'number of tasks', {'limit': most}, cmd.rows, f'-l {most}', provider, most=most)
        for given, hits in (({}, cmd.rows), ({'where_clauses': ['exit_status == 1']}, [r for r in cmd.rows if r['exit_status'] == 1]),
                            ({'taglist': ['b']}, [r for r in cmd.rows if 'b' in r['tag']]), ({'show_failed': True},
                             [r for r in cmd.rows if meets('!=', r['exit_status'], 0)])):
            for most in (None, 1):
                counted(cmd, {**given, **({'limit': most} if most else {})}, len(hits) if most is None else min(most, len(hits)), provider)
    for fields in (['args'], ['exit_status', 'attempt']):
        for given, hits in (({}, cmd.rows), ({'where_clauses': ['args == x']}, [r for r in cmd.rows if r['args'] == 'x'])):
            counted(cmd, {**given, 'field_names': fields}, len(hits), 'sqlite')
            for sh, s, got in cmd.printed({**given, 'field_names': fields}, 'sqlite'):
                rep.check('every task', 'chosen fields', len(got) == len(hits) and not isinstance(got, str),
                          f'fields {" ".join(fields)}: {len(got)} lines for {len(hits)} tasks', where_of(cmd))
    for bad in ('exit_status', 'exit_status = 1', '== 1', 'EXIT == 1', ''):
        cmd.refused('refused', 'condition', {'where_clauses': [bad]}, f'-w "{bad}"')
    for bad in (['foo'], ['id', 'foo'], ['__class__']):
        cmd.refused('refused', 'field', {'field_names': bad}, f'field {bad[-1]}')
    rep.count('searches', cmd.n)
    rep.floor('searches evaluated', cmd.n, 100)


def order_of(cmd, given, field, down, provider):
    """All matching tasks come ordered by the field."""
    for sh, s, got in cmd.printed(given, provider):
        for kind, name, recv, args in sh.did(s, 'sql') if not isinstance(got, str) else ():
            if name not in ('all', '__iter__'):
                continue
            orders = [a for m, xs, _ in recv[1][2] if m == 'order_by' for a in xs]
            good = len(orders) == 1 and direction(orders[0]) == (field, down)
            cmd.rep.check('order', 'descending' if down else 'ascending', good, f'-s {field}{" --desc" if down else ""}: ordered by '
                          f'{", ".join(map(show, orders)) or "nothing"}', where_of(cmd, 'build_query'))


def counted(cmd, given, want, provider):
    for sh, s, got in cmd.printed({'field_names': ['id'], **given, 'show_count': True}, provider):
        cmd.rep.check('count', 'search', got == [str(want)], f'--count {given}: shows {got} instead of {want}', where_of(cmd))


# -- changing tasks ------------------------------------------------------------------------------------------------------

class Update(Commands):
    """Changes to a few tasks that differ in everything the conditions used here look at."""

    def __init__(self, rep):
        super().__init__(rep, 'TaskUpdateApp')
        large = [n for n in ast.walk(self.cls.node) if isinstance(n, ast.Constant) and type(n.value) is int and n.value >= 10]
        order = sorted({n.value for n in large})
        self.scale = {id(n): 2 + order.index(n.value) for n in large}
        when = '2024-03-01 10:00:00'
        some = dict(schedule_time=when, server_host='sv', server_id='s1', client_host='n1', client_id='c1', command='echo x', start_time=when,
                    completion_time=when, outpath='/o', errpath='/e', waited=3, duration=4)
        self.rows = []
        for i, given in enumerate((dict(), dict(args='foo', tag={'k': 'old', 'z': ''}), dict(**some, exit_status=0, tag={'k': 1}),
                                   dict(**some, exit_status=1, attempt=2, retried=True, tag={'z': 2}),
                                   dict(schedule_time=when, server_host='sv', server_id='s2', args='foo', tag={'a.b': 'x', 'c': ''}),
                                   dict(args='foo', tag={'k': 'v', 'z': ''}), dict(args='bar', exit_status=10, tag={}))):
            self.rows.append(base_row(self, self.prog, id=f'{i:08d}-0000-0000-0000-000000000000', **given))
        self.n = 0

    def after(self, given, provider, answer=None):
        """(shell, state, error or None, rows afterwards) of each path."""
        self.n += 1
        sh, paths, raised = self.run(given, provider, self.rows, answer)
        out = [(sh, s, None) for s in paths] + [(sh, s, exc.split('.')[-1]) for exc, _, s in raised if not exc.startswith('sqlalchemy.exc.DB')]
        if not out:
            raise AnalysisBroken(f'no path of an update ends ({given})')
        for sh, s, exc in out:
            if sh.unknown:
                raise AnalysisBroken(f'update not understood ({given}): {sh.unknown[0]}')
            rows = {}
            for ref in s.mon[0]:
                o = s.heap[ref]
                rows[cval(o.attrs['id'])] = {k: (sh.tags(o.attrs, s) if k == 'tag' else v) for k, v in o.attrs.items() if k in self.kinds}
            yield sh, s, exc, rows

    def same(self, have, want):
        """Differences between what is recorded and what should be."""
        out = []
        for row in want:
            got = have.get(row['id'])
            if got is None:
                out.append(f'{label_of(row)} is gone')
                continue
            for k, v in row.items():
                g = got[k] if k == 'tag' else python_or(got[k])
                if callable(v):
                    if not v(got[k]):
                        out.append(f'{label_of(row)} has {k} {show(got[k])}')
                elif g != v or type(g) is not type(v):
                    out.append(f'{label_of(row)} has {k} {g!r} instead of {v!r}')
        out += [f'{label_of(next(r for r in self.rows if r["id"] == i))} is left' for i in have if i not in {r['id'] for r in want}]
        return out

    def expect(self, rule_, label, given, hits, change, provider, answer=None, about=''):
        given = {'no_confirm': answer is None, **given}
        about = (about or describe(given)) + f' ({provider})'
        want = []
        for r in self.rows:
            if r in hits:
                new = change({**r, 'tag': dict(r['tag'])})
                want += [] if new is None else [new]
            else:
                want.append(r)
        where = where_of(self, 'update_tasks') or where_of(self)
        for sh, s, exc, rows in self.after(given, provider, answer):
            if exc is not None:
                self.rep.bad(rule_, label, f'{about}: ends with {exc}', where)
                continue
            diff = self.same(rows, want)
            self.rep.check(rule_, label, not diff, f'{about}: ' + '; '.join(diff[:2]), where)
            self.rep.check('saved', label, not sh.has(s, 'pending'), f'{about}: the changes are not committed', where)

    def untouched(self, rule_, label, given, provider, answer=None, kinds=(), asked=None, about=''):
        about = (about or describe(given)) + f' ({provider})'
        where = where_of(self, 'update_tasks') or where_of(self)
        for sh, s, exc, rows in self.after(given, provider, answer):
            diff = self.same(rows, self.rows) or [f'{w[1]} in the session' for w in sh.did(s, 'write')[:1] if w[1] not in ('commit', 'rollback', 'close')]
            self.rep.check(rule_, label, not diff, f'{about}: ' + '; '.join(diff[:2]), where)
            if kinds:
                self.rep.check(rule_, label, exc in kinds, f'{about}: {"is not refused" if exc is None else "ends with " + exc}', where)
            else:
                self.rep.check(rule_, label, exc is None, f'{about}: ends with {exc}', where)
            if asked is not None:
                got = len(sh.did(s, 'asked'))
                self.rep.check(rule_, label, got == asked, f'{about}: asks {got} times', where)


def python_or(v):
    return cval(v) if is_const(v) else v


def label_of(row):
    return f'task {int(row["id"][:8])}'


def describe(given):
    out = list(given.get('update_args', ()))
    for k, o in (('where_clauses', '-w'), ('taglist', '-t'), ('remove_tag', '--remove-tag'), ('order_by', '-s'), ('limit', '-l')):
        if given.get(k) not in (None, [], ()):
            out += [o] + ([str(x) for x in given[k]] if isinstance(given[k], list) else [str(given[k])])
    for k, v in given.items():
        if v is True:
            out.append({**FLAGS, 'no_confirm': '-f', 'order_desc': '--desc'}.get(k, '--' + k.split('_')[0]))
    return ' '.join(out)


def setting(**new):
    def change(row):
        tags = new.get('tag', {})
        row.update({k: v for k, v in new.items() if k not in ('tag', 'drop')})
        row['tag'].update(tags)
        for name in new.get('drop', ()):
            row['tag'].pop(name, None)
        return row
    return change


def moment(v):
    """A time of day taken while the command runs."""
    return v != NONE and 'now' in show(v)


CHANGES = [
    ('one field', ['args=foo bar'], [], dict(args='foo bar')),
    ('one field', ['args=a=b'], [], dict(args='a=b')),
    ('one field', ['args=1'], [], dict(args='1')),
    ('null field', ['client_host=null'], [], dict(client_host=None)),
    ('null field', ['exit_status=none'], [], dict(exit_status=None)),
    ('number', ['exit_status=3'], [], dict(exit_status=3)),
    ('truth value', ['retried=true'], [], dict(retried=True)),
    ('fields', ['args=foo', 'attempt=7'], [], dict(args='foo', attempt=7)),
    ('tag', ['k:v'], [], dict(tag={'k': 'v'})),
    ('tag', ['n:2'], [], dict(tag={'n': 2})),
    ('tag', ['a.b:z'], [], dict(tag={'a.b': 'z'})),
    ('tags', ['k:v', 'n:5'], [], dict(tag={'k': 'v', 'n': 5})),
    ('removed tag', [], ['k'], dict(drop=['k'])),
    ('removed tag', [], ['a.b'], dict(drop=['a.b'])),
    ('removed tags', [], ['k', 'z'], dict(drop=['k', 'z'])),
    ('field and tag', ['args=foo', 'k:v'], [], dict(args='foo', tag={'k': 'v'})),
    ('field and tag', ['exit_status=1', 'k:v', 'n:1'], [], dict(exit_status=1, tag={'k': 'v', 'n': 1})),
    ('tag and removed tag', ['n:1'], ['z'], dict(tag={'n': 1}, drop=['z'])),
    ('tag and removed tag', ['k:v'], ['z'], dict(tag={'k': 'v'}, drop=['z'])),
    ('field and removed tag', ['args=foo'], ['k'], dict(args='foo', drop=['k'])),
    ('field and removed tag', ['args=new'], ['k'], dict(args='new', drop=['k'])),
    ('field and tag', ['args=new', 'exit_status=0', 'k:v'], [], dict(args='new', exit_status=0, tag={'k': 'v'})),
    ('everything', ['args=foo', 'n:1'], ['k', 'z'], dict(args='foo', tag={'n': 1}, drop=['k', 'z'])),
]


@rule('C33', technique='abstract interpretation of the command over an abstract database; typestate of every record at each end of the command',
      explanation='Every kind of change with every kind of condition, answer and database; everything else must be untouched.')
def update(rep):
    cmd = Update(rep)
    rows = cmd.rows
    undone = ('schedule_time', 'server_host', 'server_id', 'client_host', 'client_id', 'command', 'start_time', 'completion_time', 'exit_status',
              'outpath', 'errpath', 'waited', 'duration')
    pick = [({}, rows), ({'where_clauses': ['args == foo']}, [r for r in rows if r['args'] == 'foo']),
            ({'taglist': ['k']}, [r for r in rows if 'k' in r['tag']]), ({'taglist': ['k:old']}, [r for r in rows if r['tag'].get('k') == 'old']),
            ({'show_failed': True}, [r for r in rows if r['exit_status'] not in (None, 0)]),
            ({'show_remaining': True, 'taglist': ['z']}, [r for r in rows if r['exit_status'] is None and 'z' in r['tag']]),
            ({'where_clauses': ['args == foo'], 'order_by': 'id', 'limit': 2}, [r for r in rows if r['args'] == 'foo'][:2]),
            ({'order_by': 'id', 'order_desc': True, 'limit': 3}, rows[-3:]),
            ({'where_clauses': ['exit_status != null'], 'order_by': 'exit_status', 'order_desc': True, 'limit': 1}, [rows[6]])]
    actions = {'revert_mode': setting(**{k: None for k in undone}), 'delete_mode': lambda row: None,
               'cancel_mode': setting(schedule_time=moment, exit_status=-1)}
    for provider in ('sqlite', 'postgres'):
        for label, args, gone, new in CHANGES:
            for which, hits in pick:
                kind = 'limited' if 'limit' in which else 'all matching' if which else 'all'
                cmd.expect('change', f'{label}, {kind}', {'update_args': args, **({'remove_tag': gone} if gone else {}), **which}, hits, setting(**new),
                           provider)
        for mode, change in actions.items():
            for which, hits in pick:
                kind = 'limited' if 'limit' in which else 'all matching' if which else 'all'
                cmd.expect(mode.split('_')[0], kind, {'update_args': [], mode: True, **which}, hits, change, provider)
        for more, hits in (({}, rows), ({'order_by': 'id', 'limit': 2}, rows[:2])):
            def noted(row):
                row.update(schedule_time=moment, exit_status=-1)
                row['tag']['why'] = 'x'
                return row
            cmd.expect('cancel', 'with a tag', {'update_args': ['why:x'], 'cancel_mode': True, **more}, hits, noted, provider)
        for answer in ('y', 'yes', 'YES', ' Yes '):
            cmd.expect('confirmed', answer.strip().lower(), {'update_args': ['args=new']}, rows, setting(args='new'), provider, answer)
            cmd.expect('confirmed', 'delete', {'update_args': [], 'delete_mode': True}, rows, lambda r: None, provider, answer)
        for answer in ('', 'n', 'no', 'N', 'maybe', 'yess', 'yes please', 'ye', '1', 'true'):
            for given in ({'update_args': ['args=new']}, {'update_args': ['k:v']}, {'update_args': [], 'remove_tag': ['k']},
                          *({'update_args': [], m: True} for m in actions), {'update_args': ['args=new'], 'limit': 2}):
                cmd.untouched('declined', 'other answer' if answer.lower() not in ('', 'n', 'no') else 'no', given, provider, answer, asked=1,
                              about=f'{describe(given)}, answer "{answer}"')
        for given in ({'where_clauses': ['args == none such']}, {'taglist': ['none-such']}, {'where_clauses': ['exit_status == 99']}):
            for extra in ({'update_args': ['args=new']}, *({'update_args': [], m: True} for m in actions)):
                cmd.untouched('nothing matches', 'no change', {**extra, **given}, provider, 'yes', asked=0)
        for args in (['id=3'], ['tag=x'], ['foo=1'], ['args==1'], ['exit_status > 1'], ['bogus'], ['args=x', 'bogus'], ['k:v', 'foo=1'],
                     ['exit_status != 0'], ['__dict__=1'], ['ARGS=1']):
            for extra in ({}, {'delete_mode': True}, {'limit': 2}):
                cmd.untouched('refused', 'argument', {'update_args': args, 'no_confirm': True, **extra}, provider, kinds=('ArgumentError',), asked=0)
        for given in ({'order_desc': True}, {'order_desc': True, 'limit': 2}, {'order_by': 'id'}, {'order_by': 'id', 'order_desc': True}):
            for extra in ({'update_args': ['args=new']}, *({'update_args': [], m: True} for m in actions)):
                cmd.untouched('refused', 'order', {**extra, **given, 'no_confirm': True}, provider, kinds=('ArgumentError',), asked=0)
        for bad in ('args', 'args = 1', '== 1', ''):
            cmd.untouched('refused', 'condition', {'update_args': ['args=new'], 'where_clauses': [bad], 'no_confirm': True}, provider,
                          kinds=('ArgumentError',))
            cmd.untouched('refused', 'condition', {'update_args': [], 'delete_mode': True, 'where_clauses': ['args == x', bad], 'no_confirm': True},
                          provider, kinds=('ArgumentError',))
        for args in (['k:b c'], ['k:b:c'], ['k:' + 'x' * 121], ['args=x', 'n:1', 'k:$'], ['z:', 'k:$']):
            for extra in ({}, {'cancel_mode': True}):
                cmd.untouched('refused', 'tag', {'update_args': args, 'no_confirm': True, **extra}, provider, kinds=('ValueError', 'ArgumentError'), asked=0)
        one = rows[1]
        cmd.untouched('refused', 'tag', {'update_args': [one['id'], 'tag', 'k:b c']}, provider, kinds=('ValueError', 'ArgumentError'))
        for field, value, new in (('args', 'foo bar', dict(args='foo bar')), ('exit_status', '2', dict(exit_status=2)),
                                  ('client_host', 'null', dict(client_host=None)), ('args', '1', dict(args='1')), ('tag', 'k:v', dict(tag={'k': 'v'})),
                                  ('tag', 'n:2', dict(tag={'n': 2}))):
            cmd.expect('one task', 'tag' if field == 'tag' else 'field', {'update_args': [one['id'], field, value]}, [one], setting(**new), provider)
        for field in ('foo', 'ID', ''):
            cmd.untouched('refused', 'field', {'update_args': [one['id'], field, '1']}, provider, kinds=('ArgumentError',))
    rep.count('updates', cmd.n)
    rep.floor('updates evaluated', cmd.n, 200)


# -- showing tasks -------------------------------------------------------------------------------------------------------

TYPES = {'str': 'builtins.str', 'int': 'builtins.int', 'bool': 'builtins.bool', 'float': 'builtins.float', 'datetime': 'datetime.datetime'}
ID = '01234567-0000-0000-0000-000000000000'
# how a field is called where all fields of a task are shown
LABELS = {'submit_time': 'submitted', 'schedule_time': 'scheduled', 'start_time': 'started', 'completion_time': 'completed', 'tag': 'tags',
          'submit_id': 'submit_host', 'server_id': 'server_host', 'client_id': 'client_host'}
SHOWN_TAGS = {'plain': 'x', 'zero': 0, 'none': '', 'off': False, 'one': 1.5}


def symbol(name, kind):
    return S(('col', name), TYPES.get(kind))


def cols_of(v):
    """Names of the fields whose values a term is made of."""
    out = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'col' and isinstance(x[1], str):
                out.add(x[1])
            else:
                stack.extend(x)
    return out


def pieces(v):
    """A text as constant parts and terms."""
    if is_const(v):
        return [str(cval(v))] if cval(v) is not None else ['None']
    if v[0] == 'j':
        out = []
        for x in v[1]:
            out += [x] if isinstance(x, str) else pieces(x)
        return out
    inner = called(v, 'builtins.str')
    if inner is not None and len(inner) == 1:
        return pieces(inner[0])
    return [v]


def unwrapped(v):
    """What is inside a piece of text made for display."""
    while v[0] == 's' and v[1][0] == 'call' and v[1][1][0] == 'x' and v[1][1][1].split('.')[-1] in ('Text', 'Syntax') and v[1][2]:
        v = v[1][2][0]
    return v


def called(v, *names):
    """Arguments of a call of one of the functions, or None."""
    if v[0] == 's' and v[1][0] == 'call':
        f = v[1][1]
        name = f[1] if f[0] == 'x' else '.' + f[1][2] if f[0] == 's' and f[1][0] == 'attr' else ''
        if name in names:
            return ([f[1][1]] if name.startswith('.') else []) + list(v[1][2])
    return None


def as_it_is(v, field, kind):
    """Whether a term is the value of the field, or a text of it that loses nothing."""
    want = symbol(field, kind)
    v = unwrapped(v)
    if v == want:
        return kind != 'datetime' or True
    if kind == 'datetime':
        got = called(v, '.isoformat', 'builtins.str')
        return got is not None and got[0] == want
    if kind in ('int', 'float', 'bool'):
        got = called(v, 'json.dumps', 'builtins.str', 'builtins.repr')
        return got is not None and got[0] == want
    return False


def is_null(v):
    v = unwrapped(v)
    return v == NONE or is_const(v) and str(cval(v)) in ('null', 'None', '')


def is_tags(v, st):
    """Whether a term holds all tags with their values."""
    v = unwrapped(v)
    got = called(v, 'json.dumps')
    try:
        have = python(got[0] if got else v, st)
    except Unknown:
        return False
    if isinstance(have, str):
        try:
            have = json.loads(have)
        except ValueError:
            have = dict(x.split(':', 1) if ':' in x else (x, '') for x in have.split(', '))
            return have == {k: str(x) if isinstance(x, bool) else str(x) for k, x in SHOWN_TAGS.items()}
    return have == SHOWN_TAGS and all(type(have[k]) is type(x) for k, x in SHOWN_TAGS.items())


class Shown(Commands):
    """Output of commands for one task whose fields are symbols."""

    def __init__(self, rep, name):
        super().__init__(rep, name)
        self.fields = list(self.kinds)

    def record(self, null=()):
        row = {k: None if k in null else symbol(k, t) for k, t in self.kinds.items() if k != 'tag'}
        row.update(id=ID, tag=dict(SHOWN_TAGS))
        return row

    def good(self, v, field, st, null):
        if field == 'tag':
            return is_tags(v, st)
        if field == 'id':
            return unwrapped(v) == C(ID)
        return is_null(v) if field in null else as_it_is(v, field, self.kinds[field])

    def outputs(self, given, null=(), **world):
        sh, paths, raised = self.run(given, 'sqlite', [self.record(null)], None, **world)
        if sh.unknown:
            raise AnalysisBroken(f'{self.cls.name} not understood ({given}): {sh.unknown[0]}')
        errors = [e for e, _, _ in raised if not e.startswith('sqlalchemy.exc.DB')]
        return sh, paths, errors

    def text(self, sh, s, about):
        """Lines of printed text, as lists of constant parts and terms."""
        line, out = [], []
        for kind, name, recv, args in sh.did(s, 'out'):
            if name not in ('builtins.print', '.print', '.write', 'sys.stdout.write'):
                raise AnalysisBroken(f'output of {about} not understood: {name}')
            named = {x[1]: x[2] for x in args if x[0] == 'kw'}
            parts = []
            for i, a in enumerate(x for x in args if x[0] != 'kw'):
                parts += (pieces(named.get('sep', C(' '))) if i else []) + pieces(unwrapped(a))
            if name in ('builtins.print', '.print'):
                parts += pieces(named.get('end', C('\n')))
            for part in parts:
                if not isinstance(part, str):
                    line.append(part)
                    continue
                first, *rest = part.split('\n')
                line.append(first)
                for more in rest:
                    out.append(line)
                    line = [more]
        if any(line):
            out.append(line)
        return [squeeze(x) for x in out]


    def document(self, sh, s, about):
        """Everything printed, as one term."""
        parts = []
        for i, line in enumerate(self.text(sh, s, about)):
            parts += (['\n'] if i else []) + line
        parts = squeeze(parts)
        if len(parts) == 1 and isinstance(parts[0], str):
            return C(parts[0])
        terms = [x for x in parts if not isinstance(x, str)]
        return terms[0] if len(terms) == 1 and not any(x.strip() for x in parts if isinstance(x, str)) else None


def squeeze(parts):
    out = []
    for part in parts:
        if isinstance(part, str) and out and isinstance(out[-1], str):
            out[-1] += part
        elif part != '':
            out.append(part)
    return out


def normal_form(cmd, sh, s, null, about, where):
    """All fields under their labels."""
    rep = cmd.rep
    lines = cmd.text(sh, s, about)
    for field in cmd.fields:
        label = LABELS.get(field, field)
        what = 'null' if field in null else 'value'
        hits = []
        for line in lines:
            head = line[0] if line and isinstance(line[0], str) else ''
            name = head.split(':')[0].strip()
            if field in ('waited', 'duration'):
                for a, b in zip(line, line[1:] + ['']):
                    m = re.search(rf'{field}: ?([^()]*)$', a) if isinstance(a, str) else None
                    m2 = re.search(rf'{field}: ?(null|None)\)', a) if isinstance(a, str) else None
                    if m2:
                        hits.append(NONE)
                    elif m and m.group(1) == '' and not isinstance(b, str):
                        hits.append(b)
            elif name == label:
                hits.append(line)
        good = len(hits) == 1
        if good and field in ('waited', 'duration'):
            v = hits[0]
            if field in null:
                good = v == NONE
            else:
                got = called(v, 'datetime.timedelta')
                good = v[0] == 's' and cols_of(v) == {field} and got is not None
        elif good:
            line = hits[0]
            values = [line[0].split(':', 1)[1].lstrip()] + line[1:]
            values = [x for x in values if x != '']
            if field == 'tag':
                good = len(values) == 1 and isinstance(values[0], str) and is_tags(C(values[0]), s)
            elif field == 'id':
                good = values == [ID]
            elif field.endswith('_id') and label.endswith('_host'):
                good = at(values, '(', field, ')', cmd, null)
            elif label in ('started', 'completed'):
                good = at(values, '', field, ' (', cmd, null)
            elif field.endswith('_host'):
                good = at(values, '', field, ' (', cmd, null)
            else:
                good = at(values, '', field, '', cmd, null)
        rep.check('all fields', what, good, f'{about}: {field} is {"not shown" if not hits else "not shown as it is"}', where)


def at(values, before, field, after, cmd, null):
    """Whether the value of a field stands between two texts (none: the start and the end of the line)."""
    if field in null:
        text = ''.join(x if isinstance(x, str) else '\0' for x in values)
        return re.search((re.escape(before) if before else '^') + '(null|None)' + (re.escape(after) if after else '$'), text) is not None
    for i, x in enumerate(values):
        if not isinstance(x, str) and as_it_is(x, field, cmd.kinds[field]):
            left = values[i - 1] if i else ''
            right = values[i + 1] if i + 1 < len(values) else ''
            ok_left = isinstance(left, str) and (left.endswith(before) if before else left == '')
            ok_right = isinstance(right, str) and (right.startswith(after) if after else right == '')
            return ok_left and ok_right
    return False


def data_form(cmd, v, fields, s, null):
    """Fields missing or wrong in a dictionary."""
    ent = {cval(k): x for k, x in v[1]} if v[0] == 'dct' and all(k is not None and is_const(k) for k, _ in v[1]) else None
    if ent is None:
        return ['everything']
    return [f for f in fields if f not in ent or not cmd.good(ent[f], f, s, null)
            or cmd.kinds[f] in ('int', 'float', 'bool') and f not in null and ent[f] != symbol(f, cmd.kinds[f])
            or f in null and ent[f] != NONE] + [f for f in ent if f not in fields]


def term(x):
    if isinstance(x, dict):
        return ('dct', tuple((C(k), term(v)) for k, v in x.items()))
    if isinstance(x, list):
        return ('lst', tuple(('1', term(v)) for v in x))
    return C(x)


def dumped(v, *names):
    if v is None:
        return None
    v = unwrapped(v)
    if is_const(v) and isinstance(cval(v), str) and 'json.dumps' in names:
        try:
            return term(json.loads(cval(v)))
        except ValueError:
            return None
    got = called(v, *names)
    return got[0] if got else None


@rule('C34', technique='interprocedural dataflow (value provenance) from recorded fields to everything printed',
      explanation='All output formats of searches and of task info, each field with a value and null; captured output comes from the right files.')
def shown(rep):
    search_, info = Shown(rep, 'TaskSearchApp'), Shown(rep, 'TaskInfoApp')
    fields = search_.fields
    every = [f for f in fields if f not in ('id', 'args', 'tag')]
    some = [['args'], ['tag'], ['id', 'args', 'exit_status', 'submit_time', 'tag'], ['retried', 'waited', 'client_host', 'args'], list(fields)]
    cases = [(), ('exit_status', 'client_host', 'waited', 'start_time', 'duration', 'completion_time', 'outpath', 'command', 'schedule_time'), tuple(every)]
    where = where_of(search_)
    for null in cases:
        for names in some:
            for delim in ('<default>', ';'):
                mark = '\t' if delim == '<default>' else delim
                # a chosen list of fields that equals the default one is that one
                sh, paths, errors = search_.outputs({'output_format': 'plain', 'field_names': names, 'output_delimiter': delim}, null)
                about = f'search {" ".join(names[:4])} --format=plain'
                rep.check('shown', 'plain', not errors and bool(paths), f'{about}: ends with {errors[:1]}', where)
                for s in paths:
                    got = search_.text(sh, s, about)
                    good = len(got) == 1 and plain_line(search_, got[0], names, mark, s, null)
                    rep.check('fields', 'plain', good, f'{about}: the fields are not shown as they are', where)
                sh, paths, errors = search_.outputs({'output_format': 'csv', 'field_names': names, 'output_delimiter': delim}, null)
                about = f'search {" ".join(names[:4])} --csv'
                rep.check('shown', 'csv', not errors and bool(paths), f'{about}: ends with {errors[:1]}', where)
                for s in paths:
                    rows = []
                    for kind, name, recv, args in sh.did(s, 'out'):
                        if name == '.writerows' and args[0][0] == 'lst':
                            rows += [x for _, x in args[0][1]]
                        elif name == '.writerow':
                            rows.append(args[0])
                    made = [a for _, n, _, a in sh.did(s, 'call') if n == 'csv.writer']
                    rep.check('fields', 'csv delimiter', len(made) == 1 and ('delimiter', C(',' if delim == '<default>' else delim)) in made[0],
                              f'{about} --delimiter {delim}: is not used', where)
                    cells = [[x for _, x in r[1]] if r[0] == 'lst' else list(r[1]) if r[0] == 't' else None for r in rows]
                    good = len(cells) == 2 and None not in cells and cells[0] == [C(n) for n in names] and len(cells[1]) == len(names) \
                        and all(search_.good(x, n, s, null) for x, n in zip(cells[1], names))
                    rep.check('fields', 'csv', good, f'{about}: the fields are not shown as they are', where)
            for tty in (False, True):
                sh, paths, errors = search_.outputs({'output_format': 'json', 'field_names': names}, null, terminal=tty)
                about = f'search {" ".join(names[:4])} --json'
                rep.check('shown', 'json', not errors and bool(paths), f'{about}: ends with {errors[:1]}', where)
                for s in paths:
                    data = dumped(search_.document(sh, s, about), 'json.dumps')
                    items = [x for _, x in data[1]] if data is not None and data[0] == 'lst' else []
                    bad = data_form(search_, items[0], names, s, null) if len(items) == 1 else ['everything']
                    rep.check('fields', 'json', not bad, f'{about}: {", ".join(bad[:3])} not shown as recorded', where)
            sh, paths, errors = search_.outputs({'output_format': 'table', 'field_names': names}, null)
            about = f'search {" ".join(names[:4])} --format=table'
            rep.check('shown', 'table', not errors and bool(paths), f'{about}: ends with {errors[:1]}', where)
            for s in paths:
                head = [a[0] for _, n, _, a in sh.did(s, 'out') if n == '.add_column' and a]
                rows = [a for _, n, _, a in sh.did(s, 'out') if n == '.add_row']
                good = head == [C(n) for n in names] and len(rows) == 1 and len(rows[0]) == len(names) \
                    and all(search_.good(x, n, s, null) and not loose(x, search_.kinds[n], n in null) for x, n in zip(rows[0], names))
                rep.check('fields', 'table', good, f'{about}: the fields are not shown as they are', where)
    where = where_of(info)
    for null in cases:
        for field in fields:
            for fmt in ('normal', 'json', 'yaml') if field == 'tag' else ('normal',):
                sh, paths, errors = info.outputs({'uuid': ID, 'extract_field': field, 'output_format': fmt}, null, terminal=False)
                about = f'info -x {field}' + (f' --{fmt}' if fmt != 'normal' else '')
                rep.check('shown', 'one field', not errors and bool(paths), f'{about}: ends with {errors[:1]}', where)
                for s in paths:
                    if fmt == 'yaml':
                        data = dumped(info.document(sh, s, about), 'yaml.dump', 'yaml.safe_dump')
                        good = data is not None and is_tags(data, s)
                    elif fmt == 'json':
                        data = info.document(sh, s, about)
                        good = data is not None and is_tags(data, s)
                    else:
                        got = info.text(sh, s, about)
                        v = got[0] if len(got) == 1 else []
                        good = len(v) == 1 and info.good(C(v[0]) if isinstance(v[0], str) else v[0], field, s, null)
                    rep.check('one field', field if field in ('tag', 'args') else info.kinds[field], good, f'{about}: is not shown as it is', where)
        for fmt, names in (('json', ('json.dumps',)), ('yaml', ('yaml.dump', 'yaml.safe_dump'))):
            for tty in (False, True):
                sh, paths, errors = info.outputs({'uuid': ID, 'output_format': fmt}, null, terminal=tty)
                rep.check('shown', fmt, not errors and bool(paths), f'info --{fmt}: ends with {errors[:1]}', where)
                for s in paths:
                    data = dumped(info.document(sh, s, f'info --{fmt}'), *names)
                    bad = data_form(info, data, fields, s, null) if data is not None else ['everything']
                    rep.check('fields', fmt, not bad, f'info --{fmt}: {", ".join(bad[:3])} not shown as recorded', where)
    captured(rep, info)
    rep.floor('fields of a task', len(fields), 15)
    for cmd in (search_, info):
        where = where_of(cmd)
        for null in (*cases, ('waited',), ('duration',)):
            given = {'output_format': 'normal'} if cmd is search_ else {'uuid': ID}
            about = ('search' if cmd is search_ else 'info') + (' of a new task' if null else '')
            sh, paths, errors = cmd.outputs(given, null)
            rep.check('shown', 'normal', not errors and bool(paths), f'{about}: ends with {errors[:1] or "no output"}', where)
            for s in paths:
                normal_form(cmd, sh, s, null, about, where)


def loose(v, kind, null):
    """Whether a cell of a table is a text in which markup would be interpreted."""
    return kind == 'str' and not null and not (called(v, 'rich.text.Text', 'rich.markup.escape') or is_const(v))


def plain_line(cmd, got, names, mark, s, null):
    """Whether a line is exactly the given fields with the mark in between."""
    rest = list(got)
    for i, name in enumerate(names):
        if i:
            if not rest or not isinstance(rest[0], str) or not rest[0].startswith(mark):
                return False
            rest[0] = rest[0][len(mark):]
            if rest[0] == '':
                rest.pop(0)
        if not rest:
            return False
        if isinstance(rest[0], str):
            if name == 'tag':
                m = re.match(r'\{.*\}', rest[0]) if rest[0].startswith('{') else None
                text = m.group(0) if m else rest[0]
                if not is_tags(C(text), s):
                    return False
            elif name == 'id':
                text = ID if rest[0].startswith(ID) else '?'
            else:
                text = 'null' if rest[0].startswith('null') and name in null else '?'
            if not rest[0].startswith(text):
                return False
            rest[0] = rest[0][len(text):]
            if rest[0] == '':
                rest.pop(0)
        else:
            if name in null or not cmd.good(rest[0], name, s, null):
                return False
            rest.pop(0)
    return not rest


def captured(rep, info):
    """Where captured output is read, and when it is fetched."""
    where = where_of(info, 'print_file') or where_of(info)
    for opt, field, ext, stream in (('print_stdout', 'outpath', '.out', 'sys.stdout'), ('print_stderr', 'errpath', '.err', 'sys.stderr')):
        flag = '--' + stream.split('.')[1]
        for host in ('here', 'there'):
            for present in (True, False):
                row = info.record()
                row['client_host'] = host
                sh, paths, raised = info.run({'uuid': ID, opt: True}, 'sqlite', [row], None, present=present)
                about = f'info {flag}, file {"present" if present else "missing"}, task run {host}'
                if sh.unknown:
                    raise AnalysisBroken(f'{about} not understood: {sh.unknown[0]}')
                any_copy = False
                for s in paths:
                    steps = sh.did(s, 'call', 'out', 'fetch')
                    copies = []
                    for i, (kind, name, recv, args) in enumerate(steps):
                        if name == 'shutil.copyfileobj' and len(args) >= 2:
                            copies.append((i, args[0], show(args[1])))
                        elif kind == 'out' and args and 'builtins.open' in repr(args[0]):
                            dest = show(recv) if recv is not None else name[:-6] if name.endswith('.write') else 'sys.stdout'
                            copies.append((i, args[0], next((show(x[2]) for x in args if x[0] == 'kw' and x[1] == 'file'), dest)))
                    any_copy = any_copy or bool(copies)
                    # a file without lines is copied by not writing anything
                    read = [i for i, (_, name, _, args) in enumerate(steps) if name == 'builtins.open' and args and local(args[0], ext)]
                    good = bool(read) and all(dest == stream and local(src, ext) for _, src, dest in copies)
                    copies = copies or [(i, None, None) for i in read]
                    rep.check('captured', flag, good, f'{about}: does not copy the captured output to {stream}', where)
                    fetched = [(i, args) for i, (kind, _, _, args) in enumerate(steps) if kind == 'fetch']
                    needed = not present and host != 'here'
                    if needed:
                        mine = [i for i, args in fetched if args[0] == symbol(field, 'str') and local(args[1], ext)]
                        ok = bool(mine) and bool(copies) and mine[0] < copies[0][0]
                        rep.check('fetched', flag, ok, f'{about}: the file is not fetched before it is read', where)
                        for _, args in fetched:
                            pair = {symbol('outpath', 'str'): '.out', symbol('errpath', 'str'): '.err'}.get(args[0])
                            rep.check('fetched', 'files', pair is not None and local(args[1], pair), f'{about}: fetches {show(args[0])} into {show(args[1])}',
                                      where)
                    else:
                        rep.check('fetched', 'not needed', not fetched, f'{about}: fetches files', where)
                rep.check('captured', flag, any_copy, f'{about}: no output', where)
            row = info.record((field,))
            row['client_host'] = host
            sh, paths, raised = info.run({'uuid': ID, opt: True}, 'sqlite', [row], None)
            rep.check('captured', 'no output', not paths and any(not e.startswith('sqlalchemy') for e, _, _ in raised),
                      f'info {flag} of a task without captured output: shows something', where)


def local(v, ext):
    text = repr(v)
    return f'{ID}{ext}' in text and 'default_path' in text and "'lib'" in text and "'task'" in text


# -- submitting, waiting for and running one task -------------------------------------------------------------------------

def printed_texts(sh, s):
    """Everything printed, as texts or terms, one per call."""
    out = []
    for kind, name, recv, args in sh.did(s, 'out'):
        out.append((name, [unwrapped(a) for a in args if a[0] != 'kw']))
    return out


def one_task(cmd, sh, s, words, tags):
    """(identifier, what is wrong) of the only task recorded."""
    refs = [r for r in s.mon[0] if s.heap[r].cls == TASK]
    if len(refs) != 1:
        return None, f'{len(refs)} tasks are recorded'
    row = s.heap[refs[0]].attrs
    if row.get('args') != C(words):
        return row['id'], f'the command line recorded is {show(row.get("args"))}'
    try:
        have = sh.tags(row, s) if row.get('tag') not in (None, NONE) else {}
    except Unknown:
        have = None
    if have is None or [(k, type(v), v) for k, v in sorted(have.items())] != [(k, type(v), v) for k, v in sorted(tags.items())]:
        return row['id'], f'the tags recorded are {have}'
    if row.get('exit_status') != NONE and not sh.has(s, 'caught') or row.get('schedule_time') != NONE:
        return row['id'], 'it is recorded as scheduled or done'
    if sh.has(s, 'pending'):
        return row['id'], 'it is not saved'
    return row['id'], None


def failures(raised):
    return [(e, v, s) for e, v, s in raised if not e.startswith('sqlalchemy.exc.DB')]


@rule('C35', technique='abstract interpretation of the commands over an abstract database whose records change while they sleep',
      explanation='Command lines and tags given; every interval; exit statuses present at once, after one, or after two sleeps; output options.')
def single(rep):
    submit, wait, run_ = Shown(rep, 'TaskSubmitApp'), Shown(rep, 'TaskWaitApp'), Shown(rep, 'TaskRunApp')
    where = where_of(submit)
    for words in (['echo hi'], ['echo', 'hi'], ['a  b', '--x', "'q'"]):
        for taglist, tags in ((None, {}), ([], {}), (['k'], {'k': ''}), (['k:v', 'n:1', 'x'], {'k': 'v', 'n': 1, 'x': ''})):
            given = {'argv': words, **({'taglist': taglist} if taglist is not None else {})}
            about = f'submit {" ".join(words)} -t {taglist}'
            sh, paths, raised = submit.run(given, 'sqlite', [])
            understood(sh, about)
            rep.check('submitted', 'ends', bool(paths) and not failures(raised), f'{about}: fails', where)
            for s in paths:
                key, wrong = one_task(submit, sh, s, ' '.join(words), tags)
                rep.check('submitted', 'task', wrong is None, f'{about}: {wrong}', where)
                out = printed_texts(sh, s)
                rep.check('submitted', 'identifier', [v for _, v in out] == [[key]], f'{about}: does not print the identifier of the task, and only that', where)
                steps = [(kind, name) for kind, name, _, _ in sh.did(s, 'write', 'out')]
                rep.check('submitted', 'first saved', 'write' in [k for k, _ in steps] and [k for k, _ in steps][-1] == 'out',
                          f'{about}: the identifier is printed before the task is saved', where)
    waits(rep, wait)
    runs(rep, run_)


def understood(sh, about):
    if sh.unknown:
        raise AnalysisBroken(f'{about} not understood: {sh.unknown[0]}')


def slept(sh, s):
    return [args for _, name, _, args in sh.did(s, 'call') if name == 'time.sleep']


def waits(rep, wait):
    where = where_of(wait, 'wait_task') or where_of(wait)
    flags = {'': {}, '--status': {'print_status': True}, '--return': {'return_status': True}, '--info': {'print_info': True},
             '--info --json': {'print_info': True, 'output_format': 'json'}}
    for provider in ('sqlite', 'postgres'):
        for sleeps in (0, 1, 2):
            for status in (0, 3, -1):
                for interval in (None, 7):
                    for flag, given in flags.items():
                        row = wait.record(('exit_status',))
                        if not sleeps:
                            row['exit_status'] = status
                        options_ = {'uuid': ID, **given, **({'interval': interval} if interval is not None else {})}
                        about = f'wait {flag} (exit status {status} after {sleeps} sleeps)'
                        sh, paths, raised = wait.run(options_, provider, [row], later=(sleeps, {'exit_status': C(status)}), terminal=False)
                        understood(sh, about)
                        ends = [(None, s) for s in paths] + [((e, v), s) for e, v, s in failures(raised)]
                        rep.check('waits', 'ends', bool(ends), f'{about}: does not end', where)
                        for how, s in ends:
                            naps = slept(sh, s)
                            rep.check('waits', 'until done', len(naps) == sleeps,
                                      f'{about}: ends after {len(naps)} sleeps' + ('' if len(naps) < sleeps else ', not seeing what was recorded meanwhile'), where)
                            want = C(interval) if interval is not None else wait_default(rep, wait)
                            rep.check('waits', 'interval', all(n == (want,) for n in naps), f'{about}: does not sleep for the interval asked for', where)
                            refs = [r for r in s.mon[0]]
                            rep.check('waits', 'unchanged', not sh.did(s, 'write') and len(refs) == 1, f'{about}: changes the database', where)
                            if flag == '--return' and status != 0:
                                good = how is not None and how[0].split('.')[-1] == 'NonZeroStatus' and how[1][0] == 's' and how[1][1][0] == 'exc' \
                                    and len(how[1][1]) > 2 and how[1][1][2] == (C(status),)
                                rep.check('waits', 'return', good and silent(rep, wait), f'{about}: the command does not end with the status of the task', where)
                            else:
                                rep.check('waits', 'return', how is None, f'{about}: fails with {how and how[0]}', where)
                            out = printed_texts(sh, s)
                            if flag == '--status':
                                rep.check('waits', 'status', len(out) == 1 and len(out[0][1]) == 1 and out[0][1][0] in (C(str(status)), C(status)),
                                          f'{about}: prints {[show(v) for _, vs in out for v in vs][:2]}', where)
                            elif flag.startswith('--info'):
                                text = ''.join(x for _, vs in out for v in vs for x in pieces(v) if isinstance(x, str))
                                fits = ID in text and (f'"exit_status": {status}' in text if 'json' in flag else f'exit_status: {status}' in text) \
                                    if '"exit_status"' in text or 'json' not in flag else info_json(out, status)
                                rep.check('waits', 'info', fits, f'{about}: the information printed is not that of the task done', where)
                            else:
                                rep.check('waits', 'quiet', not out, f'{about}: prints something', where)
        for bad in ('1', 'x' * 36, ID + '0', ' ' + ID):
            sh, paths, raised = wait.run({'uuid': bad}, provider, [wait.record()])
            ends = failures(raised)
            rep.check('waits', 'malformed', not paths and ends and all(e.split('.')[-1] == 'ArgumentError' for e, _, _ in ends)
                      and all(not sh.did(s, 'sql', 'write') for _, _, s in ends), f'wait {bad}: is not refused', where)
        sh, paths, raised = wait.run({'uuid': '7' + ID[1:]}, provider, [wait.record()])
        rep.check('waits', 'unknown', not paths and any(e.split('.')[-1] == 'NotFound' for e, _, _ in failures(raised)),
                  'wait for an unknown task: is not refused', where)


def info_json(out, status):
    """Whether what is printed is a JSON text of a dictionary with the status."""
    for _, vs in out:
        for v in vs:
            got = called(v, 'json.dumps')
            if got is not None and got[0][0] == 'dct':
                ent = {cval(k): x for k, x in got[0][1] if k is not None and is_const(k)}
                return ent.get('id') == C(ID) and ent.get('exit_status') == C(status)
    return False


def wait_default(rep, wait):
    o = wait.options.get('interval')
    node = o.default if o is not None else None
    if isinstance(node, ast.Name) and node.id in wait.cls.assigns:
        node = wait.cls.assigns[node.id]
    sh = Shell(rep.prog)
    return sh.ip.ev_in(wait.cls.module, node, sh.state({}), wait.cls)[0][0] if node is not None else None


def silent(rep, wait):
    """Whether the exception that carries a status is mapped to it."""
    if hasattr(wait, '_silent'):
        return wait._silent
    sh = Shell(rep.prog)
    st = sh.state({})
    wait._silent = False
    node = wait.cls.assigns.get('exceptions')
    if isinstance(node, ast.Dict):
        for k, v in zip(node.keys, node.values):
            if k is None or ast.unparse(k).split('.')[-1] != 'NonZeroStatus':
                continue
            for fn, s in sh.ip.ev_in(wait.cls.module, v, st, wait.cls):
                if fn[0] == 'f' and fn[1] in rep.prog.functions:
                    s.heap['exc'] = HObj('obj', 'builtins.Exception', {'args': ('t', (C(3),))})
                    rets, raised = sh.ip.run_function(rep.prog.functions[fn[1]], [('o', 'exc')], [], s)
                    wait._silent = bool(rets) and all(v == C(3) for v, _ in rets) and not failures(raised)
    return wait._silent


def runs(rep, run_):
    where = where_of(run_)
    for taglist, tags in ((None, {}), (['k:v', 'n:1'], {'k': 'v', 'n': 1})):
        for sleeps in (1, 2):
            for interval in (None, 7):
                done = {'exit_status': C(3), 'outpath': C('/o'), 'errpath': C('/e'), 'client_host': C('here')}
                given = {'argv': ['echo', 'hi'], **({'taglist': taglist} if taglist else {}), **({'interval': interval} if interval is not None else {})}
                about = f'run echo hi -t {taglist} (done after {sleeps} sleeps)'
                sh, paths, raised = run_.run(given, 'sqlite', [], later=(sleeps, done), present=True, terminal=False)
                understood(sh, about)
                rep.check('runs', 'ends', bool(paths) and not failures(raised), f'{about}: fails with {[e for e, _, _ in failures(raised)][:1]}', where)
                shown_ = False
                for s in paths:
                    key, wrong = one_task(run_, sh, s, 'echo hi', tags)
                    rep.check('runs', 'task', wrong is None, f'{about}: {wrong}', where)
                    naps = slept(sh, s)
                    want = C(interval) if interval is not None else wait_default(rep, run_)
                    rep.check('runs', 'until done', len(naps) == sleeps, f'{about}: ends after {len(naps)} sleeps', where)
                    rep.check('runs', 'interval', all(n == (want,) for n in naps), f'{about}: does not sleep for the interval asked for', where)
                    steps = sh.did(s, 'call', 'out', 'write')
                    opened = [(i, args[0]) for i, (_, name, _, args) in enumerate(steps) if name == 'builtins.open' and args]
                    last = max([i for i, (_, name, _, _) in enumerate(steps) if name == 'time.sleep'], default=-1)
                    exts = [next((e for e in ('.out', '.err') if key is not None and key[1:] and local_of(cval(key), v, e)), None) for _, v in opened]
                    rep.check('runs', 'output', exts == ['.out', '.err'] and all(i > last for i, _ in opened),
                              f'{about}: reads {[show(v)[-60:] for _, v in opened]} instead of the output of the task once it is done', where)
                    dest = [(ext_of(args[0]), show(args[1])) for _, name, _, args in steps if name == 'shutil.copyfileobj' and len(args) >= 2]
                    for kind, name, recv, args in steps:
                        if kind == 'out' and args and 'builtins.open' in repr(args[0]):
                            to = show(recv) if recv is not None else name[:-6] if name.endswith('.write') else 'sys.stdout'
                            dest.append((ext_of(args[0]), next((show(x[2]) for x in args if x[0] == 'kw' and x[1] == 'file'), to)))
                    shown_ = shown_ or {('.out', 'sys.stdout'), ('.err', 'sys.stderr')} <= set(dest)
                    rep.check('runs', 'streams', set(dest) <= {('.out', 'sys.stdout'), ('.err', 'sys.stderr')}, f'{about}: copies {dest}', where)
                    rep.check('runs', 'only once', [n for k, n, _, _ in steps if k == 'write'].count('add_all') + [n for k, n, _, _ in steps
                              if k == 'write'].count('add') == 1, f'{about}: does not submit exactly once', where)
                rep.check('runs', 'streams', shown_, f'{about}: does not copy captured output to stdout and errors to stderr', where)


def ext_of(v):
    text = repr(v)
    return next((e for e in ('.out', '.err') if e + "'" in text), None)


def local_of(key, v, ext):
    text = repr(v)
    return f'{key}{ext}' in text and 'default_path' in text and "'lib'" in text and "'task'" in text
