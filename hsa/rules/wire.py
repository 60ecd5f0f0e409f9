"""What is sent between server and clients: connections, channels and the form of messages."""

from __future__ import annotations

import ast

from ..interp import Interp, State, HObj, C, S, NONE, is_const, cval, show
from ..model import AnalysisBroken
from ..report import rule
from ..rows import columns

TEXT, BYTES, DATE = 'builtins.str', 'builtins.bytes', 'datetime.datetime'
PLAIN = {'str': TEXT, 'int': 'builtins.int', 'bool': 'builtins.bool', 'float': 'builtins.float', 'dict': 'builtins.dict', 'datetime': DATE,
         'date': DATE}


ELEMENTS = tuple(('1', S(('field', f'element {i}'), TEXT)) for i in (1, 2, 3))


class Codec:
    """Interpretation of serialization with the laws of the libraries used: what was encoded is what decoding gives back."""

    def __init__(self, prog):
        self.prog = prog
        self.ip = Interp(prog, summaries={})
        self.ip.extern_hook = self.hook
        self.tokens = []
        self.unfit = []

    def token(self, kind, value, typ):
        if (kind, value) not in self.tokens:
            self.tokens.append((kind, value))
        return S(('token', kind, self.tokens.index((kind, value))), typ)

    def content(self, v, kind):
        if v[0] == 's' and v[1][0] == 'token' and v[1][1] == kind:
            return self.tokens[v[1][2]][1]
        return None

    def freeze(self, v, st, strict, default=None):
        if v[0] in ('l', 't'):
            return ('list', tuple((m, self.freeze(x, st, strict, default)) for m, x in self.ip.entries(v, st)))
        if v[0] == 'd':
            return ('dict', tuple((self.freeze(k, st, strict) if isinstance(k, tuple) else k, self.freeze(x, st, strict, default))
                                  for k, x in self.items(v, st)))
        if v[0] == 'o' and not strict:
            obj = st.heap[v[1]]
            return ('obj', obj.cls, tuple((k, self.freeze(x, st, strict)) for k, x in obj.attrs.items()))
        if strict and (v[0] in ('o', 'm', 'k', 'f') or v[0] == 's' and len(v) > 2 and v[2] == DATE):
            if default == ('x', 'builtins.str') and v[0] == 's':
                return ('leaf', S(('iso', v), TEXT))
            self.unfit.append(v)
        return ('leaf', v)

    def items(self, v, st):
        return [(x[0], x[1]) if not (isinstance(x, tuple) and len(x) == 3) else (x[1], x[2]) for x in st.heap[v[1]].attrs]

    def thaw(self, f, st, node):
        if f[0] == 'leaf':
            return f[1]
        if f[0] == 'list':
            return self.ip.new_list(st, tuple((m, self.thaw(x, st, node)) for m, x in f[1]), node)
        if f[0] == 'obj':
            ref = self.ip.alloc(st, HObj('obj', f[1], {k: self.thaw(x, st, node) for k, x in f[2]}), node, hint='copy')
            return ('o', ref)
        ref = self.ip.alloc(st, HObj('dict', None, tuple((k if not (isinstance(k, tuple) and k[0] == 'leaf') else k[1], self.thaw(x, st, node))
                                                         for k, x in f[1])), node, hint='dict')
        return ('d', ref)

    def hook(self, ip, f, name, recv, args, kwargs, st, node):
        kw = dict((k, v) for k, v in kwargs if k)
        a0 = args[0] if args else None
        if name in ('json.dumps', 'pickle.dumps') and args:
            strict = name.startswith('json')
            frozen = self.freeze(a0, st, strict, kw.get('default'))
            return [(self.token('json' if strict else 'pickle', frozen, TEXT if strict else BYTES), st)]
        if name in ('json.loads', 'pickle.loads') and args:
            kind = name.split('.')[0]
            inner = self.content(a0, 'bytes')
            if inner is not None and kind == 'json' and inner[1] in ('utf-8', 'utf-16', 'utf-32'):
                a0 = inner[0]
            got = self.content(a0, kind)
            if got is not None:
                return [(self.thaw(got, st, node), st)]
        if name == '.encode' and recv is not None:
            enc = args[0] if args else kw.get('encoding', C('utf-8'))
            return [(self.token('bytes', (recv, str(cval(enc)).lower().replace('utf8', 'utf-8') if is_const(enc) else '?'), BYTES), st)]
        if name == '.decode' and recv is not None:
            enc = args[0] if args else kw.get('encoding', C('utf-8'))
            got = self.content(recv, 'bytes')
            enc = str(cval(enc)).lower().replace('utf8', 'utf-8') if is_const(enc) else '?'
            if got is not None and (got[1] == enc or {got[1], enc} <= {'ascii', 'utf-8'} and self.content(got[0], 'json') is not None):
                return [(got[0], st)]
        date = lambda v: v is not None and v[0] == 's' and len(v) > 2 and v[2] == DATE
        if name == '.isoformat' and date(recv) or name in ('builtins.str', '.__str__') and date(a0 or recv):
            v = recv if name != 'builtins.str' else a0
            lossy = 'timespec' in kw or len(args) > 1 and recv is not None
            return [(S(('iso', v) if not lossy else ('isotrunc', v), TEXT), st)]
        if name == 'builtins.len' and a0 is not None and a0[0] == 's' and a0[1][0] == 'iso':
            return [(C(32), st)]
        if name == '.timestamp' and date(recv):
            return [(S(('stamp', recv), 'builtins.float'), st)]
        if name.endswith('datetime.fromisoformat') and args or name == '.fromisoformat' and args:
            if a0[0] == 's' and a0[1][0] == 'iso':
                return [(a0[1][1], st)]
            if a0[0] == 's':
                ip.maybe_raise('builtins.ValueError', st, node)
                return [(S(('parsed', a0), DATE), st)]
        return None


def annotated(node):
    """(plain type name, optional) of an annotation."""
    text = ast.unparse(node) if not isinstance(node, str) else node
    text = text.strip('\'"').replace('typing.', '')
    if text.startswith('Mapped['):
        text = text[7:-1]
    optional = text.startswith('Optional[') or 'None' in text
    if text.startswith('Optional['):
        text = text[9:-1]
    return text.split('|')[0].strip(), optional


def messages(prog):
    """Classes with a form for the wire."""
    for c in sorted(prog.classes.values(), key=lambda c: c.qual):
        if c.method('pack') is not None and c.method('unpack') is not None and not any(d is not c and c in d.mro for d in prog.classes.values()):
            yield c


def fields(prog, cls):
    cols = columns(prog, cls)
    names = [n for c in reversed(cls.mro) for n in c.order if n in c.annotations]
    names = [n for n in dict.fromkeys(names) if not cols or n in cols] or list(cols)
    out = {}
    for n in names:
        note = next((c.annotations[n] for c in cls.mro if n in c.annotations), None)
        if note is None:
            continue
        text = ast.unparse(note) if isinstance(note, ast.AST) else str(note)
        if text.startswith(('ClassVar', 'Dict[str, type')) and cols:
            continue
        typ, optional = annotated(note)
        out[n] = (column_type(cls, cols[n]) or typ if n in cols else typ), optional
    return out


def column_type(cls, node):
    """The Python type of a mapped column."""
    text = ' '.join(ast.unparse(a) for a in node.args)
    for a in node.args:
        for name in ast.walk(a):
            if isinstance(name, ast.Name):
                text += ' ' + ' '.join(ast.unparse(g) for g in cls.module.globals.get(name.id, ()))
    for mark, typ in (('DateTime', 'datetime'), ('Integer', 'int'), ('Boolean', 'bool'), ('JSON', 'dict'), ('Text', 'str'), ('String', 'str')):
        if mark in text:
            return typ
    return None


def values(prog, cls, name, typ):
    """What a field may hold."""
    if typ in PLAIN:
        return [S(('field', name), PLAIN[typ])]
    if typ.startswith(('List', 'list')):
        return ['list']
    if typ.startswith(('Dict', 'dict')):
        return [S(('field', name), 'builtins.dict')]
    for c in prog.classes.values():
        if c.name == typ and c.is_enum:
            return [('m', c.qual, n) for n in Interp(prog, summaries={}).enum_names(c.qual)]
    return [S(('field', name))]


def equal(codec, got, want, st):
    if want == 'list':
        return got[0] in ('l', 't') and tuple(codec.ip.entries(got, st)) == ELEMENTS
    return got == want


@rule('C31', technique='abstract interpretation of packing and unpacking with provenance of every field; agreement of the two ends of the connection',
      explanation='Every message class is packed and unpacked symbolically, with a typed symbol (or nothing) in every field and on every '
                  'branch; each field must come back equal. The connection of server and client must use the configured address and '
                  'secret, and the same name for the same queue.')
def wire(rep):
    prog = rep.prog
    found = list(messages(prog))
    rep.floor('kinds of messages', len(found), 3)
    for cls in found:
        specs = fields(prog, cls)
        rep.floor(f'fields of {cls.name}', len(specs), 3)
        full = {n: values(prog, cls, n, t) for n, (t, _) in specs.items()}
        entity = bool(columns(prog, cls))
        base = {n: NONE if entity else vs[0] for n, vs in full.items()}
        rounds = [('absent', {n: NONE if specs[n][1] or entity else vs[0] for n, vs in full.items()})]
        rounds += [(n, {**base, n: v}) for n, vs in full.items() for v in vs]
        for kind, given in rounds:
            codec = Codec(prog)
            attrs = dict(given)
            for n, v in list(attrs.items()):
                if v == 'list':
                    attrs[n] = None
            outcome, problems = trip(codec, cls, attrs)
            rep.saw(codec.ip)
            for v in codec.unfit:
                problems.append(f'{show(v)} has no JSON form')
            where = cls.method('unpack').where
            rep.check('round trip', f'{cls.name}: {kind}', not problems, f'{cls.name}: ' + '; '.join(sorted(set(problems))), where)
            for v, st in outcome:
                if v[0] != 'o' or st.heap[v[1]].cls != cls.qual:
                    rep.bad('round trip', f'{cls.name}: {kind}: type', f'what was a {cls.name} arrives as {show(v)}', where)
                    continue
                back = dict(st.heap[v[1]].attrs)
                spread = back.pop('$spread', None)
                if spread is not None and spread[0] == 'd':
                    back.update({cval(k) if isinstance(k, tuple) and is_const(k) else k: x for k, x in codec.items(spread, st)})
                for n, want in given.items():
                    got = back.get(n)
                    rep.check('round trip', f'{cls.name}.{n} ({kind})', got is not None and equal(codec, got, want, st),
                              f'{cls.name}.{n} arrives as {show(got) if got is not None else "nothing"} instead of '
                              f'{"the list" if want == "list" else show(want)}', where)
            rep.floor(f'ways to send {cls.name}', len(outcome), 1)
    connection(rep)


def trip(codec, cls, attrs):
    if any(v is None for v in attrs.values()):
        st = State()
        attrs = {n: v if v is not None else codec.ip.new_list(st, ELEMENTS, cls.node) for n, v in attrs.items()}
        ref = codec.ip.alloc(st, HObj('obj', cls.qual, attrs), cls.node, hint=cls.name)
        return run_trip(codec, cls, ('o', ref), st)
    st = State()
    ref = codec.ip.alloc(st, HObj('obj', cls.qual, dict(attrs)), cls.node, hint=cls.name)
    return run_trip(codec, cls, ('o', ref), st)


def run_trip(codec, cls, obj, st):
    out, problems = [], []
    rets, raised = codec.ip.run_function(cls.method('pack'), [obj], [], st)
    problems += [f'packing raises {r[0]}' for r in raised]
    for v, s in rets:
        s.env = {}
        back, raised = codec.ip.run_function(cls.method('unpack'), [('k', cls.qual), v], [], s)
        problems += [f'unpacking raises {r[0]}' for r in raised]
        out += back
    return out, problems


MANAGER = 'multiprocessing.managers.BaseManager'


class End:
    """One end of the connection, as opened from a configuration with a symbol for every setting."""

    def __init__(self, rep, cls):
        prog = rep.prog
        self.cls = cls
        self.ip = Interp(prog, summaries={})
        self.events = []
        self.ip.on_event = lambda ip, ev, st: self.events.append(ev) if ev.kind == 'call' else None
        st = State()
        self.ref = self.ip.alloc(st, HObj('obj', cls.qual, {}), cls.node, hint=cls.name)
        config = prog.cls('hypershell.core.queue.QueueConfig')
        names = [n for n in config.order if n in config.annotations]
        cfg = self.ip.alloc(st, HObj('obj', config.qual, {n: S(('setting', n)) for n in names}), cls.node, hint='config')
        rets, raised = self.ip.run_function(cls.method('__init__'), [('o', self.ref), ('o', cfg)], [], st)
        self.paths = []
        for _, s in rets:
            s.env = {}
            got, more = self.ip.run_function(cls.method('__enter__'), [('o', self.ref)], [], s)
            self.paths += got
        rep.saw(self.ip)

    def named(self, name):
        return [e for e in self.events if e.name == name]

    def parent(self, name):
        """Calls of the manager's own method."""
        return [e for e in self.named('.' + name) if e.recv is not None and show(e.recv).startswith('<super:')]

    def attrs(self, st):
        return st.heap[self.ref].attrs

    def before(self, a, b):
        return self.events.index(a) < self.events.index(b)


def connection(rep):
    prog = rep.prog
    ends = [c for c in prog.classes.values() if MANAGER in c.all_ext_bases() and c.method('__enter__') is not None and
            not c.method('__enter__').abstract]
    opened = [End(rep, c) for c in sorted(ends, key=lambda c: c.qual)]
    servers = [e for e in opened if e.named('.start')]
    clients = [e for e in opened if e.named('.connect')]
    rep.check('connection', 'server', len(servers) == 1, 'no queue server is started', '')
    rep.check('connection', 'client', len(clients) == 1, 'no client connects to a queue', '')
    if len(servers) != 1 or len(clients) != 1:
        return
    server, client = servers[0], clients[0]
    for end in opened:
        inits = end.parent('__init__')
        rep.floor(f'connections of {end.cls.name}', len(inits), 1)
        for ev in inits:
            kw = dict((k, v) for k, v in ev.kwargs if k)
            address = kw.get('address', ev.args[0] if ev.args else NONE)
            secret = kw.get('authkey', ev.args[1] if len(ev.args) > 1 else NONE)
            want = ('t', (S(('setting', 'host')), S(('setting', 'port'))))
            rep.check('connection', f'address of {end.cls.name}', address == want, f'{end.cls.name} uses the address {show(address)} instead of '
                      'the configured host and port', end.cls.where)
            key = secret[0] == 's' and secret[1][0] in ('call', 'strm') and secret_of(secret) == S(('setting', 'auth'))
            rep.check('connection', f'secret of {end.cls.name}', key, f'{end.cls.name} authenticates with {show(secret)} instead of the '
                      'configured secret', end.cls.where)
    served = {}
    starts = server.named('.start')
    for ev in server.named('.register'):
        kw = dict((k, v) for k, v in ev.kwargs if k)
        name, target = ev.args[0] if ev.args else kw.get('typeid'), kw.get('callable', ev.args[1] if len(ev.args) > 1 else NONE)
        if name is None or not is_const(name):
            continue
        rep.check('channel', f'{cval(name)}: registered first', server.before(ev, starts[-1]), f'{cval(name)} is registered after the server was '
                  'started, so that the server does not know it', server.cls.where)
        got = set()
        for _, st in server.paths:
            s = st.copy()
            s.env = {}
            got |= {v for v, _ in server.ip.call(target, [], [], s, server.cls.node)}
        served[cval(name)] = got
    known = {cval(ev.args[0]) for ev in client.named('.register') if ev.args and is_const(ev.args[0])}
    queues = {}
    for _, st in server.paths:
        for attr, v in server.attrs(st).items():
            if v[0] == 's' and len(v) > 2 and v[2] and v[2].endswith('Queue'):
                queues.setdefault(attr, set()).add(v)
    rep.floor('queues of the server', len(queues), 4)
    rep.check('channel', 'distinct', len({v for vs in queues.values() for v in vs}) == sum(len(v) for v in queues.values()),
              'two channels share one queue', server.cls.where)
    for attr, vals in queues.items():
        if attr in ('scheduled', 'completed'):
            for v in vals:
                kw = dict(v[1][3])
                size = kw.get('maxsize', v[1][2][0] if v[1][2] else NONE)
                rep.check('channel', f'{attr}: size', size == S(('setting', 'size')), f'the queue {attr} holds {show(size)} bundles instead of as '
                          'many as configured', server.cls.where)
        for _, st in client.paths:
            got = client.attrs(st).get(attr)
            name = got[1][1][1][2] if got is not None and got[0] == 's' and got[1][0] == 'call' and got[1][1][0] == 's' and \
                got[1][1][1][0] == 'attr' else None
            rep.check('channel', attr, name in served and served[name] == vals and name in known,
                      f'what a client calls {attr} is {show(got) if got is not None else "nothing"}, which is not what the server calls so '
                      f'({", ".join(show(v) for v in served.get(name, ())) or "not served"})', client.cls.where)
    fetched = [e for e in client.events if e.name.lstrip('.') in served]
    joined = client.named('.connect')
    rep.check('channel', 'connected first', all(client.before(joined[0], e) for e in fetched), 'channels are asked for before the client is '
              'connected', client.cls.where)
    closing = server.cls.method('__exit__')
    closed = []
    server.ip.on_event = lambda ip, ev, st: closed.append(ev) if ev.kind == 'call' else None
    for _, st in server.paths:
        s = st.copy()
        s.env = {}
        n = len(closed)
        server.ip.run_function(closing, [('o', server.ref), NONE, NONE, NONE], [], s)
        rep.check('connection', 'shut down', any(e.name == '.shutdown' for e in closed[n:]), 'the queue server goes on after it was left',
                  closing.where)


def secret_of(v):
    """What a key was encoded from."""
    if v[1][0] == 'strm':
        return v[1][2] if v[1][1] == 'encode' else None
    f = v[1][1]
    if f[0] == 's' and f[1][0] == 'attr' and f[1][2] == 'encode':
        return f[1][1]
    if f == ('x', 'builtins.bytes') and v[1][2]:
        return v[1][2][0]
    return None
