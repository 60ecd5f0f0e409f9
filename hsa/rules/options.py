"""What the user asks for on the command line or in the configuration is what runs."""

from __future__ import annotations

from ..cli import Flow, app, applications
from ..interp import C, FALSE, NONE, S, TRUE, Interp, cval, is_const, mentions, show
from ..machine import machine_classes
from ..report import rule
from .threads import named

CONFIG = 'hypershell.core.config.config'
DB = ('global', 'hypershell.data.DATABASE_ENABLED')
STDIN, STDOUT, STDERR = 'sys.stdin', 'sys.stdout', 'sys.stderr'


def setting(path):
    """Whether a value is the configured parameter of this name, by attribute or by item."""
    parts = path.split('.')

    def is_setting(v):
        for part in reversed(parts):
            if v[0] == 's' and v[1][0] == 'attr' and v[1][2] == part:
                v = v[1][1]
            elif v[0] == 's' and v[1][0] == 'item' and v[1][2] == C(part):
                v = v[1][1]
            else:
                return False
        return v[0] == 's' and v[1][0] in ('global', 'attr') and str(v[1][-1]).endswith('config')
    return is_setting


def linear(v):
    """A value as (term, constant offset), as far as additions go."""
    off = 0
    while v[0] == 's' and v[1][0] == 'bin' and v[1][1] in ('Add', 'Sub', '+', '-'):
        op, a, b = v[1][1:4]
        sign = 1 if op in ('Add', '+') else -1
        if b[0] == 'c' and isinstance(b[2], int):
            v, off = a, off + sign * b[2]
        elif a[0] == 'c' and isinstance(a[2], int) and sign == 1:
            v, off = b, off + a[2]
        else:
            break
    return v, off


def seconds(v):
    """The number of seconds a time span was made from."""
    if v[0] == 's' and v[1][0] == 'call' and show(v).startswith('datetime.timedelta('):
        f, args, kw = v[1][1:4]
        if not args and len(kw) == 1 and kw[0][0] == 'seconds':
            return kw[0][1]
    return None


def uses(v, name):
    """Whether a value is made from this global or external function."""
    return mentions(v, lambda t: len(t) == 2 and t[0] == 'x' and t[1] == name)


class Values:
    """Questions about values on one path."""

    def __init__(self, flow, st):
        self.flow, self.ip, self.st = flow, flow.ip, st
        self.waits = next((o.dest for o in getattr(flow, 'options', ()) if '--timeout' in o.flags), None)

    def opt(self, flag):
        return self.flow.attrs[self.flow.option(flag).dest]

    def true(self, v):
        return self.ip.truth(v, self.st)

    def given(self, flag):
        """Whether a switch or an optional argument is given on this path: True, False or None if it was not looked at."""
        v = self.opt(flag)
        t = self.true(v)
        if t is None and not self.flow.option(flag).switch:
            null = self.st.facts.get(('isnone', v))
            if null is False and self.flow.option(flag).type in ('int', 'float'):
                return True
        if t is False and self.flow.option(flag).type in ('int', 'float') and self.st.facts.get(('isnone', v)) is not True \
                and not self.never(v):
            return True         # zero is given, too
        return t

    def none(self, v):
        return v == NONE or self.st.facts.get(('isnone', v)) is True or (v[0] == 's' and v[1][0] == 'opt' and self.true(v) is False
                                                                          and (v[2] not in ('builtins.bool', 'builtins.int', 'builtins.float') or v[2] != 'builtins.bool' and self.never(v)))

    def never(self, v):
        """Whether zero stands for no limit (the time a client waits for tasks)."""
        return v[0] == 's' and v[1] in (('opt', 'client_timeout'), ('opt', self.waits))

    def same(self, v, want, plus=0):
        if callable(want):
            inner = seconds(v)
            return want(v) or inner is not None and want(inner)
        if v == want and not plus:
            return True
        if want[0] == 's' and len(want) > 2 and want[2] == 'builtins.bool' or want in (TRUE, FALSE):
            a, b = self.true(v), self.true(want)
            return a is not None and a == b
        if linear(v) == (linear(want)[0], linear(want)[1] + plus):
            return True
        inner = seconds(v)
        if not plus and inner is not None:
            return self.same(inner, want)
        if not plus and self.none(v) and self.none(want):
            return True
        if not plus and self.st.facts.get(('eq', v, want)) or self.st.facts.get(('eq', want, v)):
            return True
        return False

    def text(self, v, want):
        """Whether a command-line argument spells an option's value."""
        if v == want:
            return True
        if v[0] == 's' and v[1][0] == 'call' and show(v).startswith('builtins.str(') and len(v[1][2]) == 1:
            return self.same(v[1][2][0], want)
        if v[0] == 'j' and len(v[1]) == 1 and not isinstance(v[1][0], str):
            return self.text(v[1][0], want)
        return False

    def opened(self, v, path):
        return v[0] == 's' and v[1][0] == 'call' and show(v).startswith('builtins.open(') and v[1][2][:1] == (path,)

    def follow(self, obj, path):
        """The value at a dotted path of attributes; None if the object has no such attribute."""
        attrs, cls = obj.attrs, obj.cls
        v = None
        for i, part in enumerate(path.split('.')):
            if i:
                if v is None or v[0] != 'o':
                    return None
                attrs, cls = self.st.heap[v[1]].attrs, self.flow.prog.classes.get(self.st.heap[v[1]].cls)
            if part not in attrs and cls is not None:
                fn = cls.method(part)
                if i and fn is not None and fn.kind in ('property', 'cached_property'):
                    got = [x for x, _ in self.ip.call_func(fn, [v], [], self.st.copy(), fn.node)]
                    if len(got) != 1:
                        return None
                    v = got[0]
                    continue
                part = cls.holder(part)
            if part not in attrs:
                return None
            v = attrs[part]
        return v


class Sinks:
    """Collects, over all paths, what arrives where."""

    def __init__(self, rep, flow, label):
        self.rep, self.flow, self.label = rep, flow, label
        self.where = flow.cls.where
        self.wrong, self.count, self.paths = {}, {}, len(flow.paths)

    def expect(self, rule_, name, good, message, path=None):
        key = (rule_, name)
        self.count[key] = self.count.get(key, 0) + 1
        if not good and key not in self.wrong:
            self.wrong[key] = (message, path)

    def done(self, *required):
        for key in required:
            if key not in self.count:
                self.wrong[key] = ('does not reach what it is for on any path', None)
                self.count[key] = 1
        for (rule_, name), n in sorted(self.count.items()):
            bad = self.wrong.get((rule_, name))
            self.rep.check(rule_, f'{self.label}: {name}', bad is None, bad[0] if bad else '', self.where, bad[1] if bad else None,
                           detail=f'{n} uses on {self.paths} paths')


def describe(st):
    return [f'{show(k[1])} is {v}' for k, v in sorted(st.facts.items(), key=repr) if k[0] == 'truth'][:12]


def server_part(out, vals, objs, st, opts, port, host, auth=None):
    """Everything a server is built from. `opts` maps names to option flags (None: fixed off, callable: fixed value)."""
    def value(name):
        o = opts[name]
        return vals.opt(o) if isinstance(o, str) else o

    def sink(cls, attr, name, want=None, plus=0):
        for b in objs.get(cls, ()):
            v = vals.follow(b, attr)
            label = opts.get(name) if isinstance(opts.get(name), str) else name
            w = want if want is not None else value(name)
            if v is None:
                if any(vals.same(x, w, plus) for x in b.attrs.values()):
                    out.expect('option', f'{label} of {cls}', True, '')
                    continue
                v = NONE
            out.expect('option', f'{label} of {cls}', vals.same(v, w, plus), f'{label} does not arrive as {attr} of {cls} '
                       f'(which is {show(v)})', describe(st))

    for q in ('QueueServer', 'QueueClient'):
        if host is not None:
            sink(q, 'config.host', 'host', host)
        sink(q, 'config.port', 'port', port)
        if auth is not None:
            sink(q, 'config.auth', 'auth', auth)
    sink('QueueServer', 'config.size', 'configured queue size', setting('server.queuesize'))
    sink('Scheduler', 'bundlesize', 'bundlesize')
    sink('Scheduler', 'attempts', 'max-retries', plus=1)
    for n in ('eager', 'forever_mode', 'restart_mode'):
        sink('Scheduler', n, n)
    for c in ('DatabaseCommitter', 'QueueCommitter'):
        sink(c, 'bundlesize', 'bundlesize')
        sink(c, 'bundlewait', 'bundlewait')
    sink('HeartMonitor', 'no_confirm', 'no_confirm')
    sink('HeartMonitor', 'evict_after', *(('evict_after', ) if 'evict_after' in opts else ('configured eviction period', setting('server.evict'))))
    # no database: asked for, or none is configured
    asked = vals.true(value('in_memory'))
    enabled = st.facts.get(('truth', S(DB, 'builtins.bool')))
    live = True if asked or enabled is False else asked
    for c in ('Receiver', 'Confirm', 'HeartMonitor'):
        for b in objs.get(c, ()):
            v = b.get('in_memory')
            if v is not None:
                out.expect('database', f'{c} without database', vals.true(v) == live,
                           f'{c} {"uses" if live else "does not use"} the database although '
                           f'{"it was disabled or is not configured" if live else "there is one"}', describe(st))
    out.expect('database', 'scheduling', bool(objs.get('Scheduler')) == (live is False),
               'tasks are scheduled from the database exactly without one', describe(st))
    out.expect('database', 'live submission', not objs.get('QueueCommitter') or live is True,
               'tasks bypass the database although there is one', describe(st))
    out.expect('database', 'submission', not objs.get('DatabaseCommitter') or live is False,
               'tasks are submitted to the database although there is none', describe(st))
    confirm = vals.true(value('no_confirm'))
    out.expect('option', 'confirmations', bool(objs.get('Confirm')) == (confirm is False),
               'confirmations are received exactly when they are disabled', describe(st))


def stream(out, vals, v, st, name, path_flag, std, mode, also=None, dash=True, absent=None):
    """A stream is the standard one or the file that was named."""
    path = vals.opt(path_flag)
    t = vals.true(path)
    isdash = st.facts.get(('eq', path, C('-')))
    if also is not None and vals.true(vals.opt(also)):
        good, want = show(v) == std, std
    elif t is False or vals.none(path):
        good, want = (show(v) == absent or absent is None and vals.none(v)), absent or 'none'
    elif dash and isdash is not False:
        good, want = show(v) == std, f'{std} for "-"'
    else:
        good = vals.opened(v, path) and mode in show(v)
        want = f'the file opened with mode {mode}'
    out.expect('stream', name, good, f'{name} is {show(v)} instead of {want}', describe(st))


def database_hooks(prog):
    """Record what is done to the database before it is used."""
    def note(name):
        def summary(ip, fn, args, kwargs, st, node):
            st.mon = st.mon + (name,)
            return [(NONE, st)]
        return summary
    return {f'hypershell.data.{n}': note(n) for n in ('initdb', 'checkdb')}


def prepared(out, vals, st, live, flag):
    """The database is there before anything runs, is created when asked to, and is left alone when not used."""
    if live is True:
        out.expect('database', 'left alone', not st.mon, 'the database is looked at although it is not used', describe(st))
        return
    if any(v and k[0] == 'eq' and C('sqlite') in k[1:] and any(setting('database.provider')(x) for x in k[1:]) for k, v in st.facts.items()):
        out.expect('database', 'sqlite', 'initdb' in st.mon, 'an SQLite database is not initialized automatically', describe(st))
    out.expect('database', 'ready', bool(st.mon), 'the database is neither initialized nor checked before it is used', describe(st))
    if flag is not None and vals.true(vals.opt(flag)):
        out.expect('database', flag, 'initdb' in st.mon, f'{flag} does not initialize the database', describe(st))


def defaults(rep, flow, label, table):
    """What an option is when it is not given."""
    for flag, want in table.items():
        o = flow.option(flag)
        v = flow.default(o)
        off = 0
        if isinstance(want, tuple) and want[0] == 'minus':
            want, off = want[1], -want[2]
        if isinstance(want, str):
            base, plus = linear(v) if v is not None else (NONE, 0)
            good = plus == off and setting(want)(base)
        else:
            good = v == C(want) if want is not None else v == NONE
        rep.check('default', f'{label} {flag}', good, f'without {flag} the value is {show(v) if v else "unknown"} instead of '
                  f'{"the configured " + want if isinstance(want, str) else want}', flow.cls.where)


class Declared:
    """The option table of an application."""

    def __init__(self, cls):
        from ..cli import options
        self.cls, self.options = cls, options(cls)


def missing(rep, flow, flags, label):
    have = {f for o in flow.options for f in (o.flags or [o.dest])}
    for f in flags:
        rep.check('declared', f'{label} {f}', f in have, f'{label} does not accept {f}', flow.cls.where)
    return all(f in have for f in flags)


SERVER = dict(bundlesize='--bundlesize', bundlewait='--bundlewait', eager='--eager', forever_mode='--forever', restart_mode='--restart',
              in_memory='--no-db', no_confirm='--no-confirm')
SERVER['max-retries'] = '--max-retries'


@rule('C26', technique='interprocedural dataflow (value provenance) from every declared option to the constructed objects',
      explanation='The server application is interpreted from entry with one symbol per option; on every path each object it builds '
                  '(queue, scheduler, receivers, monitor, submitter) must hold the matching option or configured parameter.')
def server_options(rep):
    prog = rep.prog
    cls = app(prog, 'ServerApp')
    flow = Flow(prog, cls, setup=['__enter__'], summaries=database_hooks(prog))
    rep.saw(flow.ip)
    rep.floor('paths of the server application', len(flow.paths), 20)
    flags = [*SERVER.values(), '--bind', '--port', '--auth', '--initdb', '--print', '--failures']
    if not missing(rep, flow, flags, 'server'):
        return
    out = Sinks(rep, flow, 'server')
    for st in flow.paths:
        vals, objs = Values(flow, st), Flow.built(st, prog)
        opts = dict(SERVER)
        server_part(out, vals, objs, st, opts, vals.opt('--port'), vals.opt('--bind'), vals.opt('--auth'))
        for b in objs.get('Receiver', ()):
            stream(out, vals, b.get('redirect_failures') or NONE, st, 'output of failed tasks', '--failures', STDOUT, 'w',
                   also='--print')
        file = next(o for o in flow.options if not o.flags)
        rerun = vals.true(vals.opt('--forever')) or vals.true(vals.opt('--restart'))
        for b in objs.get('Loader', ()):
            v = b.get('source')
            at = source_is(vals, st, v, file)
            out.expect('stream', 'input', not rerun and at, f'tasks are read from {show(v)}', describe(st))
        asked = vals.true(vals.opt('--no-db'))
        prepared(out, vals, st, asked, '--initdb')
    out.done(('option', '--bundlesize of Scheduler'), ('option', '--bundlewait of DatabaseCommitter'), ('stream', 'input'),
             ('option', '--bundlewait of QueueCommitter'), ('stream', 'output of failed tasks'), ('option', 'port of QueueServer'),
             ('option', 'auth of QueueServer'), ('option', 'host of QueueServer'), ('database', '--initdb'))
    defaults(rep, flow, 'server', {'--bundlesize': 'server.bundlesize', '--bundlewait': 'submit.bundlewait', '--eager': 'server.eager',
                                   '--max-retries': ('minus', 'server.attempts', 1), '--bind': 'server.bind', '--port': 'server.port',
                                   '--auth': 'server.auth', '--no-db': False, '--no-confirm': False, '--forever': False,
                                   '--restart': False, '--print': False, '--failures': None})
    polling(rep)


def source_is(vals, st, v, option):
    """Whether lines come from the file named or from standard input."""
    path = vals.flow.attrs[option.dest]
    if path[0] == 'c':
        return uses(v, STDIN) if path == C('-') else mentions(v, lambda t: t == path) and uses(v, 'builtins.open')
    dash = st.facts.get(('eq', path, C('-')))
    null = st.facts.get(('isnone', path)) is True
    if dash or null:
        return uses(v, STDIN)
    if dash is None:
        return False
    return mentions(v, lambda t: t == ('opt', option.dest)) and uses(v, 'builtins.open')


def polling(rep):
    """The scheduler looks for tasks at the configured interval."""
    from .flow import machine
    from .machines import explore
    cls = machine(rep.prog, 'Scheduler')
    waits = []

    def on_event(ip, ev, st):
        if ev.kind == 'call' and ev.name == 'time.sleep':
            waits.append(ev.args[0] if ev.args else NONE)
    explore(rep, cls, on_event=on_event)
    for v in waits:
        rep.check('option', 'server: polling interval', setting('server.wait')(v), f'the scheduler waits {show(v)} between queries instead '
                  'of the configured interval', cls.where)
    rep.check('option', 'server: polling', bool(waits), 'the scheduler does not wait when there is nothing to schedule', cls.where)


# -- client -------------------------------------------------------------------------------------------------------------


CLIENT = dict(bundlesize='--bundlesize', bundlewait='--bundlewait', template='--template', delay_start='--delay-start',
              no_confirm='--no-confirm', capture='--capture', num_tasks='--num-tasks')
CLIENT.update({'timeout': '--timeout', 'task-timeout': '--task-timeout', 'signalwait': '--signalwait'})


def client_part(out, vals, objs, st, opts, ranges):
    """Everything a client is built from."""
    def sink(cls, attr, name, want=None):
        for b in objs.get(cls, ()):
            v = vals.follow(b, attr)
            label = opts.get(name, name)
            w = want if want is not None else vals.opt(opts[name])
            if v is None and any(vals.same(x, w) for x in b.attrs.values()):
                out.expect('option', f'{label} of {cls}', True, '')
                continue
            v = v or NONE
            out.expect('option', f'{label} of {cls}', vals.same(v, w), f'{label} does not arrive as {attr} of {cls} '
                       f'(which is {show(v)})', describe(st))
    sink('ClientScheduler', 'no_confirm', 'no_confirm')
    sink('ClientScheduler', 'timeout', 'timeout')
    sink('ClientCollector', 'bundlesize', 'bundlesize')
    sink('ClientCollector', 'bundlewait', 'bundlewait')
    sink('ClientHeartbeat', 'heartrate', *(('heartrate', ) if 'heartrate' in opts else ('configured heart rate', setting('client.heartrate'))))
    sink('TaskExecutor', 'template.template', 'template')
    sink('TaskExecutor', 'capture', 'capture')
    sink('TaskExecutor', 'timeout', 'task-timeout')
    sink('TaskExecutor', 'signalwait', 'signalwait')
    sink('ClientThread', 'delay_start', 'delay_start')
    for b in objs.get('TaskExecutor', ()):
        for attr, flag, std in (('redirect_output', '--output', STDOUT), ('redirect_errors', '--errors', STDERR)):
            if attr in opts:
                v = b.get(attr) or NONE
                out.expect('option', f'{attr} of TaskExecutor', vals.same(v, vals.opt(attr)) or vals.true(vals.opt(attr)) is False or
                           vals.none(vals.opt(attr)), f'{attr} does not arrive at the executors', describe(st))
                continue
            stream(out, vals, b.get(attr) or NONE, st, f'task {flag[2:]}', flag, std, 'w', dash=False, absent=std)
    n = vals.opt(opts['num_tasks'])
    if objs.get('TaskExecutor'):
        counted = [r for r in ranges if mentions(r, lambda t: t == n)]
        looked = any(mentions(k, lambda t: t == n) for k in st.facts)
        out.expect('option', f'{opts["num_tasks"]} executors', any(vals.same(r, n) for r in counted) or (looked and not counted),
                   'the number of executors is not the number of tasks asked for', describe(st))


def client_hooks(ranges):
    """Note what is counted up to."""
    def hook(ip, f, name, recv, args, kwargs, st, node):
        if name == 'builtins.range' and args:
            ranges.append(args[-1] if len(args) == 1 or args[0] == C(0) else
                          S(('bin', 'Sub', args[1], args[0])))
        if name == 'shlex.split' and args and args[0][0] != 'c':
            words = S(('call', f, tuple(args), ()), 'builtins.list')
            return [(ip.new_list(st, (('*', S(('elem', words), 'builtins.str')),), node), st)]
        return None
    return hook


@rule('C27', technique='interprocedural dataflow (value provenance) from every declared option to the constructed objects',
      explanation='The client application is interpreted with one symbol per option; on every path each object it builds (queue '
                  'connection, scheduler, collector, heartbeat, executors) must hold the matching option or configured parameter.')
def client_options(rep):
    prog = rep.prog
    cls = app(prog, 'ClientApp')
    ranges = []
    flow = Flow(prog, cls, setup=[m for m in ('__enter__',) if cls.method(m) is not None], hook=client_hooks(ranges))
    rep.saw(flow.ip)
    rep.floor('paths of the client application', len(flow.paths), 4)
    if not missing(rep, flow, [*CLIENT.values(), '--host', '--port', '--auth', '--output', '--errors'], 'client'):
        return
    out = Sinks(rep, flow, 'client')
    for st in flow.paths:
        vals, objs = Values(flow, st), Flow.built(st, prog)
        client_part(out, vals, objs, st, CLIENT, ranges)
        for b in objs.get('QueueClient', ()):
            for attr, flag in (('host', '--host'), ('port', '--port'), ('auth', '--auth')):
                v = vals.follow(b, f'config.{attr}') or NONE
                out.expect('option', f'{flag} of QueueClient', vals.same(v, vals.opt(flag)), f'the client connects with {attr} '
                           f'{show(v)} instead of {flag}', describe(st))
        refused(out, vals, st, '--capture', ['--output', '--errors'])
        for flag in ('--timeout', '--task-timeout'):
            v = vals.opt(flag)
            positive = st.facts.get(('lt', C(0), v)) is True or st.facts.get(('lt', v, C(1))) is False
            out.expect('refused', flag, st.facts.get(('isnone', v)) is True or positive, f'{flag} is not checked to be positive', describe(st))
    out.done(('option', '--template of TaskExecutor'), ('option', '--bundlesize of ClientCollector'), ('option', '--num-tasks executors'),
             ('option', '--timeout of ClientScheduler'), ('option', 'configured heart rate of ClientHeartbeat'),
             ('option', '--host of QueueClient'), ('option', '--delay-start of ClientThread'))
    defaults(rep, flow, 'client', {'--bundlesize': 'client.bundlesize', '--bundlewait': 'client.bundlewait', '--host': 'server.bind',
                                   '--port': 'server.port', '--auth': 'server.auth', '--timeout': 'client.timeout',
                                   '--task-timeout': 'task.timeout', '--signalwait': 'task.signalwait', '--capture': False,
                                   '--no-confirm': False, '--output': None, '--errors': None})
    delayed(rep, prog)


def delayed(rep, prog):
    """A client waits as long as asked, or at random up to that, before it connects and starts anything."""
    from .errors import Everything, blank, mro
    cls = prog.cls('hypershell.client.ClientThread')
    run = cls.method('run_with_exceptions')
    home = {m.qual for c in mro(cls) for m in c.methods.values()} | {f.qual for f in cls.module.functions.values() if f.cls is None}

    def library(ip, f, name, recv, args, kwargs, st, node):
        last = (name or '').rsplit('.', 1)[-1]
        if name == 'time.sleep':
            st.mon = (*st.mon, ('wait', args[0] if args else NONE))
        elif last == 'start':
            st.mon = (*st.mon, ('start', NONE))
        elif (name or '').startswith('random.') and last in ('uniform', 'random', 'randint', 'randrange', 'triangular'):
            return [(S(('random', last, *args), 'builtins.float'), st)]
        return None

    def other(ip, f, a, k, st, node):
        if f.name in ('start', '__enter__'):
            st.mon = (*st.mon, ('start', NONE))
        return [(S(('fresh', f.qual)), st)]
    for delay in (0, 1, 0.5, 7, -1, -9, -0.5):
        ip = Interp(prog, summaries=Everything(lambda k: k in home, other))
        ip._globals = {}
        ip.extern_hook = library
        st = blank()
        selfv = ip.make_self(cls, st, opaque=True)
        st.heap[selfv[1]].attrs[cls.holder('delay_start')] = C(delay)
        rets, raised = ip.run_function(run, [selfv], [], st)
        rep.saw(ip)
        good = bool(rets)
        for _, s in rets:
            first = next((i for i, m in enumerate(s.mon) if m[0] == 'start'), None)
            if first is None:
                good = False
                continue
            waits = [m[1] for m in s.mon[:first] if m[0] == 'wait' and m[1] not in (C(0), C(0.0))]
            late = [m for m in s.mon[first:] if m[0] == 'wait']
            if delay >= 0:
                right = waits == ([C(delay)] if delay else [])
            else:
                right = len(waits) == 1 and random_up_to(waits[0], -delay)
            good = good and right and not late
        rep.check('delay', f'--delay-start {delay:+g}', good, f'with a delay of {delay} the client does not wait '
                  f'{"at random up to " if delay < 0 else ""}{abs(delay)} seconds before it starts', run.where)


def random_up_to(v, limit):
    """A number at random from 0 to the limit."""
    if v[0] == 's' and v[1][0] == 'random' and v[1][1] == 'uniform':
        return sorted((cval(a) for a in v[1][2:4] if is_const(a))) == [0, limit]
    return mentions(v, lambda t: t[:2] == ('random', 'random')) and str(limit) in show(v)


def refused(out, vals, st, flag, others):
    """Options that contradict each other are refused."""
    if vals.true(vals.opt(flag)):
        for o in others:
            v = vals.opt(o)
            absent = vals.true(v) is False or vals.none(v)
            out.expect('refused', f'{flag} with {o}', absent, f'{flag} together with {o} is not refused', describe(st))


# -- cluster ------------------------------------------------------------------------------------------------------------


CLUSTER_SERVER = {**SERVER, 'max-retries': '--max-retries'}
CLUSTER_CLIENT = dict(CLIENT)
TEXT = 'builtins.str'


def modes(flow_cls, prog):
    """Option values and known facts that select each way of starting clients."""
    from ..cli import options
    dest = {f: o.dest for o in options(flow_cls) for f in (o.flags or [o.dest])}
    need = ('--ssh', '--mpi', '--launcher', '--autoscaling', '--ssh-group', '--ssh-args')
    if not all(f in dest for f in need):
        return None
    ssh, mpi, launcher, auto, group, args = (dest[f] for f in need)

    def sym(d):
        return S(('opt', d))

    def is_given(d):
        return {('truth', sym(d)): True, ('isnone', sym(d)): False}
    off = {ssh: NONE, mpi: FALSE, launcher: NONE, auto: NONE, group: NONE, args: C('')}
    return {
        'local': (off, {}),
        'mpi': ({**off, mpi: TRUE}, {}),
        'launcher': ({k: v for k, v in off.items() if k != launcher}, is_given(launcher)),
        'ssh': ({k: v for k, v in off.items() if k != ssh}, is_given(ssh)),
        'ssh group': ({k: v for k, v in off.items() if k not in (ssh, group, args)}, {**is_given(ssh), **is_given(group), **is_given(args)}),
        'autoscaling': ({k: v for k, v in off.items() if k not in (auto, launcher)}, {**is_given(auto), **is_given(launcher)}),
    }


def nodelist_hooks(prog):
    """Names of hosts are what the user named, whatever expanding them gives."""
    out = {}
    for q, c in prog.classes.items():
        if c.name == 'NodeList':
            for n, fn in c.methods.items():
                if n.startswith('from_'):
                    def summary(ip, fn, args, kwargs, st, node, n=n):
                        return [(S(('call', ('x', f'NodeList.{n}'), tuple(a for a in args if a[0] != 'k'), ()), 'builtins.list'), st)]
                    out[fn.qual] = summary
    return out


def remote_command(out, vals, st, argv, client_options, mode):
    """Split a client command line into what starts it, and what it is given by option."""
    entries = vals.ip.entries(argv, st)
    if entries is None:
        out.expect('command', 'form', False, f'the command of remote clients is {show(argv)}')
        return None
    tokens = [v for _, v in entries]
    try:
        at = max(i for i, v in enumerate(tokens) if v == C('client'))
    except ValueError:
        out.expect('command', 'form', False, 'remote clients are not started by the client command', describe(st))
        return None
    by_flag = {f: o for o in client_options for f in o.flags}
    got, i, rest = {}, at + 1, tokens
    while i < len(rest):
        flag = rest[i]
        o = by_flag.get(flag[2]) if flag[0] == 'c' and isinstance(flag[2], str) else None
        if o is None:
            out.expect('command', 'options', False, f'remote clients are given {show(flag)}, which the client does not accept',
                       describe(st))
            return None
        if o.switch:
            got[o.label] = TRUE
            i += 1
        else:
            if i + 1 >= len(rest) or entries[i + 1][0] != '1':
                out.expect('command', 'options', False, f'{show(flag)} has no value in the command of remote clients', describe(st))
                return None
            got[o.label] = rest[i + 1]
            i += 2
    out.expect('command', 'options', True, '')
    return entries[:at], got


def quoted(v):
    """The value a shell word stands for, if it was quoted for the shell."""
    if v[0] == 's' and v[1][0] == 'call' and show(v).startswith('shlex.quote(') and len(v[1][2]) == 1:
        return v[1][2][0]
    return None


def remote_part(out, vals, objs, st, argv, client_options, mode, ignores=()):
    """The command that starts a remote client gives it what the user asked for."""
    res = remote_command(out, vals, st, argv, client_options, mode)
    if res is None:
        return
    prefix, got = res
    label = {o.label: max(o.flags, key=len) for o in client_options if o.flags}

    def name(flag):
        return next(o.label for o in client_options if flag in o.flags)
    for flag in ('--num-tasks', '--bundlesize', '--bundlewait', '--delay-start', '--signalwait', '--template'):
        v = got.get(name(flag))
        want = vals.opt(flag)
        if v is not None and flag == '--template' and mode.startswith('ssh'):
            v = quoted(v)       # read by the shell of the remote host
        out.expect('remote', flag, v is not None and vals.text(v, want), f'remote clients are started with {show(v) if v else "no"} '
                   f'{label.get(name(flag), flag)} instead of {flag}', describe(st))
    for flag in ('--timeout', '--task-timeout'):
        v, want = got.get(name(flag)), vals.opt(flag)
        gone = vals.none(want) and st.facts.get(('isnone', want)) is not False
        good = (v is None) if gone else (v is not None and vals.text(v, want) and st.facts.get(('isnone', want)) is False)
        out.expect('remote', flag, good, f'remote clients are started with {show(v) if v else "no"} {flag}', describe(st))
    v = got.get(name('--capture'))
    out.expect('remote', '--capture', vals.true(vals.opt('--capture')) == (v is not None), 'remote clients capture output exactly when '
               'not asked to', describe(st))
    confirm = [b for b in objs.get('Confirm', ())]
    off = got.get(name('--no-confirm')) is not None
    # a client that confirms needs a server that listens, and the other way round
    for b in objs.get('HeartMonitor', ()):
        server_off = vals.true(b.get('no_confirm')) if b.get('no_confirm') is not None else not confirm
        out.expect('remote', '--no-confirm', server_off == off, 'server and remote clients disagree about confirmations', describe(st))
    host = got.get(name('--host'))
    out.expect('remote', 'host', host is not None and uses_hostname(host), f'remote clients connect to {show(host) if host else "no host"} '
               'instead of this host', describe(st))
    for b in objs.get('QueueServer', ()):
        for attr, flag in (('port', '--port'), ('auth', '--auth')):
            v, want = got.get(name(flag)), vals.follow(b, f'config.{attr}')
            out.expect('remote', attr, v is not None and want is not None and vals.text(v, want), f'remote clients connect with {attr} '
                       f'{show(v) if v else "missing"} to a server with {show(want) if want else "none"}', describe(st))
        key = vals.follow(b, 'config.auth')
        out.expect('remote', 'secret', key is not None and secret(key), f'the key of the cluster is {show(key) if key else "missing"} '
                   'instead of a new secret', describe(st))
        bind = vals.follow(b, 'config.host')
        out.expect('remote', 'reachable', bind is not None and bind != C('localhost') and bind != C('127.0.0.1') and
                   not setting('server.bind')(bind), f'the server listens on {show(bind) if bind else "nothing"}, where remote clients '
                   'cannot connect', describe(st))
    exe = vals.opt('--remote-exe')
    out.expect('remote', '--remote-exe', prefix[-1:] == (('1', exe),) or bool(prefix) and prefix[-1][1] == exe, 'remote clients are not '
               'started with --remote-exe', describe(st))
    return prefix[:-1]


def uses_hostname(v):
    return mentions(v, lambda t: isinstance(t, tuple) and len(t) >= 2 and (t[0] == 'global' and str(t[1]).endswith('HOSTNAME') or
                                                                            t[0] == 'x' and 'gethostname' in str(t[1]) or
                                                                            t[0] == 'x' and 'getfqdn' in str(t[1])))


def secret(v):
    return mentions(v, lambda t: isinstance(t, tuple) and len(t) == 2 and t[0] == 'x' and str(t[1]).startswith(('secrets.', 'uuid.uuid4',
                                                                                                              'os.urandom')))


@rule('C28', technique='interprocedural dataflow (value provenance) from every declared option to constructed objects and remote command lines',
      explanation='The cluster application is interpreted in each launch mode with one symbol per option; the server, the local client '
                  'and the command line of remote clients (parsed with the client\'s own option table) must carry the matching values.')
def cluster_options(rep):
    from ..cli import options
    prog = rep.prog
    cls = app(prog, 'ClusterApp')
    client = options(app(prog, 'ClientApp'))
    table = modes(cls, prog)
    if table is None:
        rep.bad('declared', 'cluster modes', 'the cluster does not accept one of --ssh, --mpi, --launcher, --autoscaling, --ssh-group',
                cls.where)
        return
    flow = None
    need = [*SERVER.values(), *CLIENT.values(), '--port', '--failures', '--remote-exe', '--env', '--output', '--errors']
    if not missing(rep, Declared(cls), sorted(set(need)), 'cluster'):
        return
    dest = {f: o.dest for o in options(cls) for f in (o.flags or [o.dest])}
    file = next(o for o in options(cls) if not o.flags)
    # The options of server and clients are varied in turn, with the others at one of these values
    client_side = [{'--output': NONE, '--errors': NONE, '--capture': FALSE, '--timeout': NONE, '--task-timeout': NONE},
                   {'--output': NONE, '--errors': NONE, '--capture': TRUE, '--timeout': C(7), '--task-timeout': C(9)}]
    server_side = [{'--no-db': FALSE, '--forever': FALSE, '--restart': FALSE, '--failures': NONE, file.dest: C('-')},
                   {'--no-db': TRUE, '--forever': FALSE, '--restart': FALSE, '--failures': C('failed'), file.dest: C('tasks')}]
    rounds = client_side[:1] + server_side[:1] if not rep.thorough else client_side + server_side
    for mode, (given, facts) in table.items():
        auto = mode == 'autoscaling'
        work = []
        for fixed in rounds:
            ranges = []
            flow = Flow(prog, cls, given={**given, **{dest[f]: v for f, v in fixed.items()}}, facts=facts, hook=client_hooks(ranges),
                        summaries=nodelist_hooks(prog))
            rep.saw(flow.ip)
            work += [(flow, st, ranges) for st in flow.paths]
        rep.floor(f'paths of the cluster application ({mode})', len(work), 8)
        out = Sinks(rep, flow, f'cluster ({mode})')
        out.paths = len(work)
        for flow, st, ranges in work:
            vals, objs = Values(flow, st), Flow.built(st, prog)
            opts = dict(SERVER)
            if auto:    # always with a database, for ever, with confirmation
                opts.update(forever_mode=TRUE, restart_mode=FALSE, in_memory=FALSE, no_confirm=FALSE)
            server_part(out, vals, objs, st, opts, vals.opt('--port'), None)
            keys = {vals.follow(b, 'config.auth') for q in ('QueueServer', 'QueueClient') for b in objs.get(q, ())}
            out.expect('option', 'key', len(keys) == 1, 'server and clients use different keys', describe(st))
            for b in objs.get('Receiver', ()):
                stream(out, vals, b.get('redirect_failures') or NONE, st, 'output of failed tasks', '--failures', STDOUT, 'w', dash=False)
            rerun = vals.true(vals.opt('--restart'))
            for b in objs.get('Loader', ()):
                v = b.get('source')
                out.expect('stream', 'input', not rerun and source_is(vals, st, v, file), f'tasks are read from {show(v)}', describe(st))
            if mode == 'local':
                client_part(out, vals, objs, st, CLUSTER_CLIENT, ranges)
                hosts = {vals.follow(b, 'config.host') for q in ('QueueServer', 'QueueClient') for b in objs.get(q, ())}
                out.expect('option', 'host', len(hosts) == 1, 'server and local client use different hosts', describe(st))
                continue
            holder = 'AutoScaler' if auto else None
            argvs = []
            for name, bs in objs.items():
                for b in bs:
                    for attr, v in b.attrs.items():
                        e = vals.ip.entries(v, st) if v[0] in ('l', 't') else None
                        if not e:
                            continue
                        if any(x == C('client') for _, x in e):
                            argvs.append(v)
                        else:
                            argvs += [x for _, x in e if x[0] in ('l', 't') and
                                      any(y == C('client') for _, y in (vals.ip.entries(x, st) or ()))]
            out.expect('command', 'found', bool(argvs) or mode.startswith('ssh'), 'remote clients are not started by the client command', describe(st))
            for argv in argvs:
                prefix = remote_part(out, vals, objs, st, argv, client, mode)
                if prefix is not None:
                    launcher_part(out, vals, st, prefix, mode)
            if auto:
                scaler_part(out, vals, objs, st)
        if mode != 'local':
            launched(rep, prog, mode, work, out)
        need = [('option', '--bundlesize of Scheduler'), ('option', 'port of QueueServer'), ('stream', 'input'),
                ('stream', 'output of failed tasks'), ('option', '--bundlewait of DatabaseCommitter')]
        need += [('option', '--template of TaskExecutor'), ('option', '--num-tasks executors')] if mode == 'local' else \
                [('remote', '--template'), ('remote', 'auth'), ('remote', '--capture')]
        if auto:
            need += [('scaling', '--factor')]
        out.done(*need)
    defaults(rep, flow, 'cluster', {'--bundlesize': 'server.bundlesize', '--bundlewait': 'submit.bundlewait', '--eager': 'server.eager',
                                    '--max-retries': ('minus', 'server.attempts', 1), '--port': 'server.port', '--no-db': False,
                                    '--no-confirm': False, '--forever': False, '--restart': False, '--failures': None, '--capture': False,
                                    '--timeout': 'client.timeout', '--task-timeout': 'task.timeout', '--signalwait': 'task.signalwait',
                                    '--factor': 'autoscale.factor', '--period': 'autoscale.period', '--min-size': 'autoscale.size.min',
                                    '--max-size': 'autoscale.size.max', '--init-size': 'autoscale.size.init', '--output': None,
                                    '--errors': None, '--autoscaling': None, '--ssh': None, '--mpi': False, '--launcher': None})
    const = flow.option('--autoscaling').const
    v = flow.ip.ev_in(cls.module, const, flow.paths[0], cls)[0][0] if const is not None else NONE
    rep.check('default', 'cluster --autoscaling without policy', setting('autoscale.policy')(v), f'--autoscaling without a policy means '
              f'{show(v)} instead of the configured autoscale.policy', cls.where)


def launched(rep, prog, mode, work, out):
    """The command that was put together is the one that is run."""
    def holding(flow, st, b):
        return {v for v in b.attrs.values() if v[0] == 'l' and any(
            x == C('client') or x[0] == 'l' and any(y == C('client') for _, y in (flow.ip.entries(x, st) or ()))
            for _, x in (flow.ip.entries(v, st) or ()))}

    for flow, st, _ in sorted(work, key=lambda w: any(v is True for k, v in w[1].facts.items() if k[0] == 'isnone')):
        owners = [(b, holding(flow, st, b)) for bs in Flow.built(st, prog).values() for b in bs]
        owners = [(b, h) for b, h in owners if h]
        if owners:
            break
    else:
        out.expect('launcher', 'launch', False, 'no client is launched')
        return
    runs, seen, before = [], [], flow.ip.on_event

    def on_event(ip, ev, s):
        if ev.kind == 'call' and ev.name == 'subprocess.Popen' or ev.kind == 'popen':
            runs.append(ev)
    flow.ip.on_event = on_event
    try:
        for b, holds in owners:
            commands = set(holds)
            for v in holds:
                commands |= {x for _, x in flow.ip.entries(v, st) if x[0] == 'l'}
            for m in {m for c in b.cls.mro for m in c.methods.values()}:
                if m.kind != 'plain' or m.name.startswith('__') or len(m.node.args.args) != 1 or m.abstract:
                    continue
                n, s = len(runs), st.copy()
                s.env = {}
                flow.ip.run_function(m, [('o', b.ref)], [], s)
                seen += [(commands, ev) for ev in runs[n:]]
    finally:
        flow.ip.on_event = before
    out.expect('launcher', 'launch', bool(seen), 'no client is launched')
    for commands, ev in seen:
        out.expect('launcher', 'launch', bool(ev.args) and ev.args[0] in commands, f'{show(ev.args[0]) if ev.args else "nothing"} is launched '
                   'instead of the command of the clients')


def launcher_part(out, vals, st, prefix, mode):
    """What comes before the client command."""
    terms = [v for _, v in prefix]

    def split(v, want):
        return v[0] == 's' and v[1][0] == 'elem' and mentions(v, lambda t: t == want)
    if mode == 'mpi':
        out.expect('launcher', 'mpirun', terms == [C('mpirun')], f'clients are launched with {[show(t) for t in terms]}', describe(st))
    elif mode in ('launcher', 'autoscaling'):
        want = vals.opt('--launcher')
        out.expect('launcher', '--launcher', len(terms) == 1 and split(terms[0], want), f'clients are launched with '
                   f'{[show(t) for t in terms]} instead of --launcher', describe(st))
    else:
        out.expect('launcher', 'ssh', terms[:1] == [C('ssh')], f'clients are launched with {[show(t) for t in terms]}', describe(st))
        hosts = [i for i, t in enumerate(terms) if mentions(t, lambda x: isinstance(x, tuple) and len(x) == 2 and x[0] == 'x' and
                                                             str(x[1]).startswith('NodeList.'))]
        out.expect('launcher', 'host', len(hosts) == 1, 'clients are not launched on the hosts named', describe(st))
        if hosts:
            h = hosts[0]
            flag = '--ssh-group' if mode == 'ssh group' else '--ssh'
            named_ = mentions(terms[h], lambda t: t == vals.opt(flag))
            default = st.facts.get(('eq', vals.opt('--ssh'), C('<default>'))) is True
            out.expect('launcher', flag, named_ or mode == 'ssh' and default, f'the hosts are not those of {flag}', describe(st))
            args = vals.opt('--ssh-args')
            before, after = terms[1:h], terms[h + 1:]
            if args == C(''):
                good = any(mentions(t, lambda x: isinstance(x, tuple) and x and x[0] == 'attr' and x[-1] == 'ssh') for t in before)
                out.expect('launcher', 'configured SSH arguments', good, 'the configured SSH arguments are not used', describe(st))
            else:
                out.expect('launcher', '--ssh-args', len(before) == 1 and split(before[0], args), f'--ssh-args are not passed to ssh',
                           describe(st))
            env = [t for t in after if 'from_env' in show(t, -20) or mentions(t, lambda x: isinstance(x, tuple) and len(x) == 2 and x[0] == 'x' and 'from_env' in str(x[1]))]
            asked = vals.true(vals.opt('--env'))
            out.expect('launcher', '--env', bool(after) == (asked is True), f'the environment is exported exactly when not asked for '
                       f'({[show(t) for t in after]})', describe(st))


def scaler_part(out, vals, objs, st):
    """The autoscaler follows the policy asked for."""
    out.expect('scaling', 'autoscaler', bool(objs.get('AutoScaler')), 'there is no autoscaler', describe(st))
    for b in objs.get('AutoScaler', ()):
        for attr, flag in (('factor', '--factor'), ('period', '--period'), ('init_size', '--init-size'), ('min_size', '--min-size'),
                           ('max_size', '--max-size')):
            v = b.get(attr)
            good = any(vals.same(x, vals.opt(flag)) for x in b.attrs.values()) if v is None else vals.same(v, vals.opt(flag))
            out.expect('scaling', flag, good, f'{flag} does not arrive as {attr} of the autoscaler (which is {show(v or NONE)})', describe(st))
        v = b.get('policy')
        out.expect('scaling', 'policy', v is None or v[0] == 'm' or mentions(v, lambda t: t == vals.opt('--autoscaling')),
                   f'the policy of the autoscaler is {show(v or NONE)}', describe(st))


# -- submission ---------------------------------------------------------------------------------------------------------


def tagging(prog):
    """What the tags on the command line mean is decided elsewhere."""
    out = {}
    for c in prog.classes.values():
        if c.name == 'Tag':
            for n, fn in c.methods.items():
                if n.startswith('parse'):
                    out[fn.qual] = lambda ip, fn, args, kwargs, st, node: [
                        (S(('call', ('x', 'tags'), tuple(a for a in list(args) + [v for _, v in kwargs] if a[0] != 'k'), ()), 'builtins.dict'), st)]
    return out


def submit_part(out, vals, objs, st, opts):
    def sink(cls, attr, name, want=None):
        for b in objs.get(cls, ()):
            v = vals.follow(b, attr)
            w = want if want is not None else vals.opt(opts[name])
            if v is None and any(vals.same(x, w) for x in b.attrs.values()):
                v = w if not callable(w) else v
            good = v is not None and vals.same(v, w)
            out.expect('option', f'{opts.get(name, name)} of {cls}', good, f'{opts.get(name, name)} does not arrive as {attr} of {cls} '
                       f'(which is {show(v or NONE)})', describe(st))
    for c in ('DatabaseCommitter', 'QueueCommitter'):
        sink(c, 'bundlesize', 'bundlesize')
        sink(c, 'bundlewait', 'bundlewait')
    sink('Loader', 'template.template', 'template')
    tags = vals.opt(opts['tags'])
    sink('Loader', 'tags', 'tags', lambda v: mentions(v, lambda t: t == tags) or vals.true(tags) is False and vals.true(v) is not True)


def loaded(rep, flow, label):
    """A task is made from the expanded, stripped line and the tags given."""
    prog = rep.prog
    seen = []
    task = prog.cls('hypershell.data.model.Task')
    new = task.method('new')

    def make(ip, fn, args, kwargs, st, node):
        kw = dict(kwargs)
        pos = list(args[1:] if args and args[0][0] in ('k',) else args)
        names = [a.arg for a in fn.node.args.args if a.arg not in ('self', 'cls')]
        kw.update(zip(names, pos))
        seen.append((kw, st))
        return [(S(('fresh', 'task')), st)]
    ip = flow.ip
    keep = dict(ip.summaries)
    ip.summaries[new.qual] = make
    done = set()
    for st in flow.paths:
        objs = Flow.built(st, prog)
        for b in objs.get('Loader', ()):
            sig = tuple(sorted((k, show(v)) for k, v in b.attrs.items()))
            if sig in done:
                continue
            done.add(sig)
            for name, fn in b.cls.methods.items():
                params = fn.node.args
                if fn.kind != 'plain' or name.startswith('__') or len(params.args) != 1:
                    continue
                n = len(seen)
                s = st.copy()
                s.env = {}
                ip.run_function(fn, [('o', b.ref)], [], s)
                for kw, at in seen[n:]:
                    yield b, kw, at
    ip.summaries.clear()
    ip.summaries.update(keep)


def lines(rep, flow, label):
    n = 0
    for b, kw, st in loaded(rep, flow, label):
        n += 1
        args, tag = kw.get('args', NONE), kw.get('tag', NONE)
        text = show_deep(args)
        rep.check('line', f'{label}: template', 'expand' in text, f'a task is made from {show(args)} without expanding the template',
                  flow.cls.where)
        rep.check('line', f'{label}: line', 'strip' in text or 'splitlines' in text, f'a task is made from {show(args)}, which ends with a line '
                  'break, so that what the template adds to it is on a line of its own', flow.cls.where)
        for raw in ('  a b.txt \n', 'plain\n', 'plain', '\tx  y'):
            for got in sample(flow.ip, args, raw, st):
                want = S(('expanded', C(raw.strip())), 'builtins.str')
                rep.check('line', f'{label}: {raw!r}', got == want, f'of the line {raw!r} {show(got)} is made instead of {show(want)}', flow.cls.where)
        rep.check('line', f'{label}: tags', tag == b.get('tags') or 'tags' not in b.attrs and any(tag == v for v in b.attrs.values()),
                  f'a task gets {show(tag)} instead of the tags given', flow.cls.where)
    rep.floor(f'places where {label} makes tasks', n, 1)


def sample(ip, v, raw, st):
    """What a task is made from if the next line is `raw` (nothing where that is not known)."""
    expand = ip.prog.cls('hypershell.core.template.Template').method('expand')
    keep = dict(ip.summaries)
    if expand is not None:
        ip.summaries[expand.qual] = lambda ip, fn, args, kwargs, st, node: [(S(('expanded', (args[1:] or [kwargs[0][1]])[0]), 'builtins.str'), st)]

    def element(x, st):
        """Values an element of `x` can have."""
        if x[0] == 's' and x[1][0] == 'map' and len(x[1]) == 3:
            return [r for y, s in element(x[1][2], st) for r in ip.call(x[1][1], [y], [], s, None)]
        return [(C(raw), st)] if x[0] != 's' or x[1][0] not in ('gen', 'comp', 'filter', '?') else []
    try:
        if v[0] != 's' or v[1][:2] != ('fresh', 'next') or len(v[1]) < 3 or v[1][2][1][0] != 'map':
            return []
        return [r for r, _ in element(v[1][2], st.copy())]
    finally:
        ip.summaries.clear()
        ip.summaries.update(keep)


def show_deep(v):
    """All names in a value."""
    out, stack = [], [v]
    while stack:
        x = stack.pop()
        if isinstance(x, str):
            out.append(x)
        elif isinstance(x, tuple):
            stack.extend(x)
    return ' '.join(out)


@rule('C29', technique='interprocedural dataflow (value provenance) from every declared option to the constructed objects',
      explanation='The submit application is interpreted with one symbol per option; on every path the loader and committer must hold '
                  'the matching option, tasks must be made from the expanded line and the tags, and the database must be ready before.')
def submit_options(rep):
    prog = rep.prog
    cls = app(prog, 'SubmitApp')
    flow = Flow(prog, cls, setup=['__enter__'], summaries={**database_hooks(prog), **tagging(prog)})
    rep.saw(flow.ip)
    rep.floor('paths of the submit application', len(flow.paths), 2)
    opts = dict(bundlesize='--bundlesize', bundlewait='--bundlewait', template='--template', tags='--tag')
    if not missing(rep, flow, [*opts.values(), '--initdb'], 'submit'):
        return
    out = Sinks(rep, flow, 'submit')
    file = next(o for o in flow.options if not o.flags)
    for st in flow.paths:
        vals, objs = Values(flow, st), Flow.built(st, prog)
        submit_part(out, vals, objs, st, opts)
        for b in objs.get('Loader', ()):
            out.expect('stream', 'input', source_is(vals, st, b.get('source'), file), f'tasks are read from {show(b.get("source"))}',
                       describe(st))
        out.expect('database', 'submission', bool(objs.get('DatabaseCommitter')) and not objs.get('QueueCommitter'),
                   'tasks are not submitted to the database', describe(st))
        prepared(out, vals, st, False, '--initdb')
    out.done(('option', '--bundlesize of DatabaseCommitter'), ('option', '--template of Loader'), ('option', '--tag of Loader'),
             ('stream', 'input'), ('database', '--initdb'))
    lines(rep, flow, 'submit')
    defaults(rep, flow, 'submit', {'--bundlesize': 'submit.bundlesize', '--bundlewait': 'submit.bundlewait', '--initdb': False})
    plain = flow.default(flow.option('--template'))
    rep.check('default', 'submit --template', plain == C('{}') or show(plain).endswith('DEFAULT_TEMPLATE'),
              f'without --template the template is {show(plain)}', cls.where)


# -- library functions --------------------------------------------------------------------------------------------------


def function(rep, name):
    found = [f for q, f in rep.prog.functions.items() if f.name == name and f.cls is None]
    if len(found) != 1:
        rep.bad('declared', name, f'there is no function {name}', '')
        return None
    return found[0]


def parameters(fn_or_init):
    """Names and plain types of the parameters."""
    import ast
    a = fn_or_init.node.args
    out = {}
    for p in a.args + a.kwonlyargs:
        if p.arg in ('self', 'cls'):
            continue
        text = ast.unparse(p.annotation) if p.annotation is not None else ''
        out[p.arg] = f'builtins.{text}' if text in ('int', 'bool', 'float', 'str') else None
    return out


ADDRESS = ('t', (S(('opt', 'host')), S(('opt', 'port'), 'builtins.int')))


def library_call(rep, name, need, extra=None, init=None, facts=None):
    fn = function(rep, name)
    if fn is None:
        return None
    from ..cli import Call
    params = parameters(fn)
    if init is not None:
        params = {**parameters(init), **{k: v for k, v in params.items()}}
    lost = [p for p in need if p not in params]
    for p in lost:
        rep.bad('declared', f'{name} {p}', f'{name} does not accept {p}', fn.where)
    if lost:
        return None
    given = {k: v for k, v in (extra or {}).items() if k in params}
    ranges = []
    call = Call(rep.prog, fn, params, given=given, hook=client_hooks(ranges), summaries=nodelist_hooks(rep.prog), facts=facts)
    call.ranges = ranges
    rep.saw(call.ip)
    rep.floor(f'paths of {name}', len(call.paths), 1)
    return call


LIB_SERVER = {'bundlesize': 'bundlesize', 'bundlewait': 'bundlewait', 'eager': 'eager', 'forever_mode': FALSE, 'restart_mode': 'restart_mode',
              'in_memory': 'in_memory', 'no_confirm': 'no_confirm', 'max-retries': 'max_retries', 'evict_after': 'evict_after'}
LIB_CLIENT = {'bundlesize': 'bundlesize', 'bundlewait': 'bundlewait', 'template': 'template', 'delay_start': 'delay_start',
              'no_confirm': 'no_confirm', 'capture': 'capture', 'num_tasks': 'num_tasks', 'timeout': 'client_timeout',
              'task-timeout': 'task_timeout', 'signalwait': 'task_signalwait', 'heartrate': 'heartrate',
              'redirect_output': 'redirect_output', 'redirect_errors': 'redirect_errors'}


@rule('C30', technique='interprocedural dataflow (value provenance) from every parameter to the constructed objects',
      explanation='Every library entry point is interpreted with one symbol per parameter; on every path each object it builds must hold '
                  'the matching parameter, so that no wrapper drops or crosses one.')
def library(rep):
    prog = rep.prog
    names = [v for v in LIB_SERVER.values() if isinstance(v, str)]
    host, port = ADDRESS[1]
    for name in ('serve_from', 'serve_file', 'serve_forever'):
        opts = dict(LIB_SERVER)
        if name == 'serve_file':
            opts['restart_mode'] = FALSE
        if name == 'serve_forever':
            opts.update(forever_mode=TRUE, restart_mode=FALSE, bundlewait=NONE)
        need = [v for v in opts.values() if isinstance(v, str)] + ['address', 'auth', 'redirect_failures']
        call = library_call(rep, name, need, {'address': ADDRESS})
        if call is None:
            continue
        out = Sinks(rep, call, name)
        for st in call.paths:
            vals, objs = Values(call, st), Flow.built(st, prog)
            server_part(out, vals, objs, st, opts, port, host, call.attrs['auth'])
            for b in objs.get('Receiver', ()):
                v = b.get('redirect_failures') or NONE
                out.expect('option', 'redirect_failures of Receiver', vals.same(v, call.attrs['redirect_failures']),
                           'redirect_failures does not arrive at the receiver', describe(st))
            for b in objs.get('Loader', ()):
                v = b.get('source')
                want = S(('opt', 'path' if name == 'serve_file' else 'source'))
                out.expect('option', 'source of Loader', mentions(v, lambda t: t == want[1]), f'tasks are read from {show(v)}', describe(st))
        done = [('option', 'max_retries of Scheduler'), ('option', 'evict_after of HeartMonitor'), ('option', 'auth of QueueServer')]
        if name != 'serve_forever':
            done += [('option', 'source of Loader'), ('option', 'bundlewait of DatabaseCommitter')]
        out.done(*done)
    for name in ('submit_from', 'submit_file'):
        call = library_call(rep, name, ['bundlesize', 'bundlewait', 'template', 'tags', 'queue_config'])
        if call is None:
            continue
        out = Sinks(rep, call, name)
        for st in call.paths:
            vals, objs = Values(call, st), Flow.built(st, prog)
            submit_part(out, vals, objs, st, dict(bundlesize='bundlesize', bundlewait='bundlewait', template='template', tags='tags'))
            cfg = call.attrs['queue_config']
            live = vals.true(cfg) if vals.true(cfg) is not None else (False if vals.none(cfg) else st.facts.get(('isnone', cfg)) is False)
            out.expect('database', 'destination', bool(objs.get('QueueCommitter')) == bool(live) and
                       bool(objs.get('DatabaseCommitter')) != bool(live), 'tasks go to the queue exactly when there is none', describe(st))
            for b in objs.get('QueueClient', ()):
                out.expect('option', 'queue_config of QueueClient', b.get('config') == cfg, 'queue_config is not what tasks are submitted with')
            for b in objs.get('Loader', ()):
                v = b.get('source')
                want = ('opt', 'path' if name == 'submit_file' else 'source')
                out.expect('option', 'source of Loader', mentions(v, lambda t: t == want), f'tasks are read from {show(v)}', describe(st))
        out.done(('option', 'tags of Loader'), ('option', 'template of Loader'), ('option', 'bundlesize of DatabaseCommitter'),
                 ('option', 'bundlesize of QueueCommitter'), ('option', 'source of Loader'))
        lines(rep, call, name)
    need = [v for v in LIB_CLIENT.values()] + ['address', 'auth']
    call = library_call(rep, 'run_client', need, {'address': ADDRESS})
    if call is not None:
        out = Sinks(rep, call, 'run_client')
        for st in call.paths:
            vals, objs = Values(call, st), Flow.built(st, prog)
            client_part(out, vals, objs, st, LIB_CLIENT, call.ranges)
            for b in objs.get('QueueClient', ()):
                for attr, want in (('host', host), ('port', port), ('auth', call.attrs['auth'])):
                    out.expect('option', f'{attr} of QueueClient', vals.follow(b, f'config.{attr}') == want,
                               f'the client does not connect with the {attr} given', describe(st))
        out.done(('option', 'template of TaskExecutor'), ('option', 'num_tasks executors'), ('option', 'auth of QueueClient'))
