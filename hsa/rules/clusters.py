"""How clusters bring up, wait for and stop their server and their clients."""

from __future__ import annotations

from ..interp import C, Interp, S, NONE, FALSE, TRUE, show, mentions, is_const, cval
from ..model import AnalysisBroken
from ..report import rule
from .errors import Everything, blank
from .machines import THREAD, thread_classes, wrappers
from .threads import Trace, Order, first, every, merge, named

HOSTS = (S(('host', 1), 'builtins.str'), S(('host', 2), 'builtins.str'))


class Cluster(Trace):
    """A thread that starts processes besides threads."""

    def prepare(self, st, given):
        if self.cls.method('__init__') is not None and any(a.arg == 'nodelist' for a in self.cls.method('__init__').node.args.args):
            given['nodelist'] = self.ip.new_list(st, tuple(('1', h) for h in HOSTS), self.cls.node)
        keep = self.ip.extern_hook
        self.ip.exact_lists = True

        def outer(ip, f, name, recv, args, kwargs, st, node):
            got = None if st.mon is None else self.processes(ip, name, recv, args, kwargs, st, node)
            return got if got is not None else keep(ip, f, name, recv, args, kwargs, st, node)
        self.ip.extern_hook = outer
        return given

    def join(self, ip, fn, args, kwargs, st, node):
        self.pause(st)
        return super().join(ip, fn, args, kwargs, st, node)

    def pause(self, st):
        """A state in which the thread waits for something."""
        self.__dict__.setdefault('pauses', []).append((st.copy(), st.mon))

    def processes(self, ip, name, recv, args, kwargs, st, node):
        if name == 'subprocess.Popen':
            bad = st.copy()
            bad.mon += (('failed', 'launch'),)
            ip.raise_sinks[-1].append(('builtins.FileNotFoundError', S(('exc', 'builtins.FileNotFoundError')), bad))
            n = sum(e[0] == 'launch' for e in st.mon)
            v = S(('process', n), 'subprocess.Popen')
            st.mon += (('launch', n, tuple(ip.snap(a, st) for a in args), tuple((k, ip.snap(x, st)) for k, x in kwargs)),)
            st.facts['isnone', v], st.facts['truth', v] = False, True
            return [(v, st)]
        if recv == NONE and name.startswith('.'):
            ip.raise_sinks[-1].append(('builtins.AttributeError', S(('exc', 'builtins.AttributeError')), st))
            return []
        if recv is not None and recv[0] == 's' and recv[1][0] == 'process':
            n = recv[1][1]
            if name in ('.wait', '.communicate'):
                self.pause(st)
                limit = [a for a in args if a != NONE] + [v for k, v in kwargs if k == 'timeout' and v != NONE]
                st.mon += (('ended' if not limit else 'polled', n),)
                return [(S(('status', n), 'builtins.int'), st)]
            if name in ('.terminate', '.kill', '.send_signal'):
                st.mon += (('terminate', n),)
                return [(NONE, st)]
        return None


def order(rep, cls, trace, st):
    """The order of events of one path that came to its end."""
    o = Order(rep, cls, st, trace)
    o.joined()
    o.once(('start', 'ServerThread'), 'start of ServerThread')
    begun = first(trace, 'start', 'ServerThread')
    done = first(trace, 'join', 'ServerThread')
    others = [i for i, e in enumerate(trace) if e[0] == 'launch' or e[0] == 'start' and e[1] != 'ServerThread']
    o.need('order', 'server first', begun is not None and all(begun < i for i in others), 'clients are started before the server')
    o.need('clients', 'started', bool(others), 'no client is started')
    for e in trace:
        if e[0] == 'launch':
            i, j = first(trace, 'launch', e[1]), first(trace, 'ended', e[1])
            o.need('waited', 'client', j is not None and i < j, 'a client is launched but not waited for')
            if j is not None and done is not None:
                o.need('order', 'server last', j < done, 'the server is waited for before its clients have ended')
    for e in trace:
        if e[0] == 'join' and e[1] != 'ServerThread':
            o.need('order', 'server last', done is not None and first(trace, *e) < done, 'the server is waited for before its clients have ended')
    return o


@rule('C39', technique='path enumeration of the orchestrating threads and partial-order check of their events; provenance of the launched command lines',
      explanation='Every path of the four kinds of clusters is enumerated by abstract interpretation of constructor and run method, with two hosts for SSH '
                  'and launches that may fail.')
def clusters(rep):
    prog = rep.prog
    wrapped = set(wrappers(prog))
    found = {}
    for cls in thread_classes(prog):
        if cls in wrapped or cls.method('__init__') is None:
            continue
        if any(a.arg == 'delay_start' for a in cls.method('__init__').node.args.args) and any(a.arg == 'source' for a in cls.method('__init__').node.args.args):
            found[cls.name] = cls
    rep.floor('kinds of clusters', len(found), 4)
    for name, cls in sorted(found.items()):
        t = Cluster(prog, cls)
        rep.saw(t.ip)
        rep.floor(f'paths of {name}', len(t.paths), 1)
        for st, trace in t.paths:
            o = order(rep, cls, trace, st)
            argvs = [e for e in trace if e[0] == 'launch']
            ssh = any(mentions(x, lambda v: v[:1] == ('host',)) for e in argvs for x in e[2])
            if ssh:
                seen = [[h for h in HOSTS if any(mentions(x, lambda v: v == h[1]) for x in e[2])] for e in argvs]
                o.need('clients', 'one per host', seen == [[h] for h in HOSTS], f'the hosts given do not get one client each, but {len(argvs)} clients are launched')
            elif argvs:
                o.need('clients', 'one launch', len(argvs) == 1, f'{len(argvs)} launchers are started instead of one')
            for e in argvs:
                kw = dict(e[3])
                for stream in ('stdout', 'stderr'):
                    v = kw.get(stream, NONE)
                    o.need('streams', stream, v == NONE or show(v) == f'sys.{stream}', f'{stream} of a client goes to {show(v)}')
                o.need('launched', 'directly', kw.get('shell', NONE) in (NONE, C(False)), 'the command line of a client is run by a shell')
                if not ssh:
                    env = kw.get('env', NONE)
                    text = repr(env)
                    inherited, exported = text.find("'os.environ'"), max(text.rfind("'taskenv'"), text.rfind("'export'"))
                    o.need('environment', 'inherited', inherited >= 0, f'clients are launched with the environment {show(env)[:80]}')
                    o.need('environment', 'exported', exported > inherited, 'clients are launched without the exported variables')
    merge(rep)


PLAIN = {'capture': FALSE, 'client_timeout': NONE, 'task_timeout': NONE, 'launcher_args': NONE}


class Stop(Cluster):
    """What stopping a thread does, from every state its run leaves behind."""

    def __init__(self, prog, cls):
        given = {k: v for k, v in PLAIN.items() if any(a.arg == k for a in cls.method('__init__').node.args.args)}
        if cls.name == 'ClientThread':
            given = {'num_tasks': C(2)}
        super().__init__(prog, cls, given=given)
        fn, ip = cls.method('stop'), self.ip
        states = [('before it runs', s, ()) for s in self.built] + [('after it ran', s, m) for s, m in self.paths] + \
                 [('after it failed', s, m) for _, s, m in self.raised] + \
                 [('while it waits', s, m) for s, m in self.__dict__.pop('pauses', ())]
        self.stops, seen = [], set()
        wait, timeout = S(('given', 'wait'), 'builtins.bool'), S(('given', 'timeout'), 'builtins.int')
        for when, s, m in states:
            s = s.copy()
            s.mon, s.trace, s.env = (), None, {}
            if (when, m, s.key()) in seen:
                continue
            seen.add((when, m, s.key()))
            outs, raised = ip.run_function(fn, [self.selfv], [('wait', wait), ('timeout', timeout)], s)
            self.stops += [(when, m, o, o.mon) for _, o in outs]
            self.stops += [(when, m, o, None) for exc, _, o in raised if exc in ('builtins.AttributeError', 'builtins.TypeError', 'builtins.NameError')]


@rule('C40', technique='path enumeration of the stopping of every orchestrating thread, from every state its construction and run leave behind',
      explanation='Constructor and run of each thread that owns others are interpreted on all paths, with launches of clients that may fail; then its stop '
                  'is interpreted from each state left behind.')
def stopping(rep):
    prog = rep.prog
    wrapped = set(wrappers(prog))
    n = 0
    for cls in sorted(thread_classes(prog), key=lambda c: c.qual):
        if cls in wrapped or cls.method('__init__') is None or cls.method('stop') is None or cls.method('run_with_exceptions') is None:
            continue
        try:
            t = Stop(prog, cls)
        except AnalysisBroken:
            continue
        parts = {e[1:] for _, tr in t.paths for e in tr if e[0] == 'start'}
        if not parts:
            continue
        n += 1
        rep.saw(t.ip)
        rep.count('states stopped from', len(t.stops))
        for when, ran, st, trace in t.stops:
            o = Order(rep, cls, st, trace or ())
            if not o.need('stop', 'succeeds', trace is not None, f'stopping {when} fails'):
                continue
            held = {who for v in held_by(t, st) if (who := t.kind(v, st)) is not None} & parts
            for who in sorted(held):
                if not ends_alone(t, cls, who):
                    o.need('stop', who[0], first(trace, 'stop', *who) is not None, f'stopping {when} does not stop its {who[0]}')
            for k in [e[1] for e in ran if e[0] == 'launch']:
                good = first(ran, 'ended', k) is not None or first(trace, 'terminate', k) is not None
                o.need('stop', 'processes', good, f'stopping {when} leaves launched clients running')
    rep.floor('threads that own others', n, 6)
    merge(rep)
    waiting(rep)


def held_by(t, st):
    """Objects a thread keeps, in attributes or in lists."""
    for v in st.heap[t.selfv[1]].attrs.values():
        if v[0] == 'l':
            yield from (x for _, x in st.heap[v[1]].attrs)
        else:
            yield v


def ends_alone(t, cls, who):
    """Whether a part of a client ends by the markers it is given once the parts before it have ended."""
    if cls.name != 'ClientThread':
        return False
    for st, tr in t.paths:
        start, end = first(tr, 'start', *who), first(tr, 'join', *who)
        if start is None:
            continue
        told = [i for i, e in enumerate(tr) if e[0] in ('put', 'set') and (end is None or i < end) and any(x[0] == 'join' for x in tr[:i])]
        if not told:
            return False
    return True


def waiting(rep):
    """Waiting for a thread waits for it, for as long as asked; stopping it waits exactly if asked to."""
    prog = rep.prog
    base = prog.cls(THREAD)
    limit = S(('given', 'timeout'), 'builtins.float')

    def library(ip, f, name, recv, args, kwargs, st, node):
        if (name or '').rsplit('.', 1)[-1] == 'join':
            given = dict(kwargs).get('timeout', args[-1] if args else NONE)
            st.mon = (*st.mon, given)
            return [(NONE, st)]
        return None
    for cls in [base, *sorted(thread_classes(prog), key=lambda c: c.qual)]:
        chain = [c for c in (cls.mro() if callable(cls.mro) else cls.mro)]
        own = {m.qual for c in chain for m in c.methods.values()} | {m.qual for c in chain for m in c.setters.values()} | \
            {f.qual for c in chain for f in c.module.functions.values() if f.cls is None}
        for method, wait in (('join', None), ('stop', TRUE), ('stop', FALSE)):
            fn = cls.method(method)
            if fn is None or (method == 'join' and cls is not base and fn is base.methods.get('join')):
                continue
            def part(ip, f, a, k, st, node):
                if f.name == 'stop' and dict(k).get('wait', a[1] if len(a) > 1 else FALSE) == TRUE:
                    st.mon = (*st.mon, 'a part')
                return [(S(('fresh', f.qual)), st)]
            ip = Interp(prog, summaries=Everything(lambda k: k in own, part))
            ip._globals = {}
            ip.extern_hook = library
            st = blank()
            selfv = ip.make_self(cls, st, opaque=True)
            kw = [('timeout', limit)] + ([('wait', wait)] if wait is not None else [])
            rets, raised = ip.run_function(fn, [selfv], kw, st)
            rep.saw(ip)
            for v, s in [*rets, *((exc, s) for exc, _, s in raised if method == 'join')]:
                waited = [x for x in s.mon if wait is FALSE or x != 'a part']
                if wait is FALSE:
                    rep.check('waits', f'{cls.name}.{method}', not waited, 'stopping waits although it was not asked to', fn.where)
                else:
                    rep.check('waits', f'{cls.name}.{method}', waited == [limit], 'does not wait for the thread once, for as long as asked', fn.where)
            if method == 'join':
                rep.check('waits', f'{cls.name}.join', bool(rets), 'never returns', fn.where)
