"""How a client runs one task: command line, environment, directory, streams, and what is recorded of it."""

from __future__ import annotations

from ..interp import HObj, C, S, NONE, TRUE, FALSE, is_const, cval, show, mentions
from ..machine import TASK
from ..model import AnalysisBroken
from ..report import rule
from .flow import machine
from .tasks import Shell, Shown, ID, symbol, failures

SPACES = ('Namespace', 'Environ')
CONFIG = ('s', ('global', 'hypershell.core.config.config'), None)
ENVIRON = {'HOME': '/home/u', 'TASK_ID': 'outer', 'TASK_CWD': '/outer', 'FOO': 'outer', 'HYPERSHELL_EXPORT_FOO': '007', 'HYPERSHELL_EXPORT_FOO_BAR': 'x',
           'HYPERSHELL_EXPORT_EMPTY': '', 'HYPERSHELL_LOGGING_LEVEL': 'debug'}
EXPORT = {'lib': ['/a', '/b'], 'name': 'value', 'deep': {'er': 'v'}, 'home': '/given'}
WANTED = {'HOME': '/given', 'FOO': '007', 'FOO_BAR': 'x', 'EMPTY': '', 'LIB': '/a:/b', 'NAME': 'value', 'DEEP_ER': 'v'}
TAGS = {'k': 'v', 'n': 2, 'Site': 'b', 'f': False, 'x': ''}
MOST = 40


def as_text(v):
    """How the configuration library turns a value into that of an environment variable."""
    if is_const(v):
        x = cval(v)
        return C('null' if x is None else str(x).lower() if isinstance(x, bool) else str(x))
    return v


class Client(Shell):
    """An executor with given tasks in its queue, with constants folded through the libraries used."""

    def __init__(self, prog):
        super().__init__(prog)
        self.tasks, self.before = (), ()
        self.first_fails = False
        cls = prog.cls('hypershell.core.template.Template')
        self.ip.summaries[f'{cls.qual}()'] = lambda ip, k, args, kwargs, st, node: [
            (S(('template', args[0] if args else dict(kwargs).get('template', NONE)), cls.qual), st)]
        self.ip.summaries[cls.method('expand').qual] = self.expanded
        for q, fn in prog.functions.items():
            if fn.cls is None and fn.name == 'check_signal':
                self.ip.summaries[q] = lambda ip, fn, args, kwargs, st, node: [(NONE, st)]
        self.ip.known.update({('x', 'os.environ'): ('d', 'environ'), S(('attr', CONFIG, 'export')): ('d', 'export'), ('x', 'os.name'): C('posix'),
                              ('x', 'os.pathsep'): C(':')})
        keep = self.ip.extern_hook

        def outer(ip, f, name, recv, args, kwargs, st, node):
            got = None if st.mon is None else self.running(ip, f, name, recv, args, kwargs, st, node)
            return got if got is not None else keep(ip, f, name, recv, args, kwargs, st, node)
        self.ip.extern_hook = outer

    def world(self):
        st = self.state({})
        st.heap['environ'] = HObj('dict', None, tuple((C(k), C(v)) for k, v in ENVIRON.items()))
        st.heap['deep'] = HObj('dict', None, tuple((C(k), C(v)) for k, v in EXPORT['deep'].items()))
        st.heap['lib'] = HObj('list', None, tuple(('1', C(v)) for v in EXPORT['lib']))
        st.heap['export'] = HObj('dict', None, tuple((C(k), ('d', 'deep') if isinstance(v, dict) else ('l', 'lib') if isinstance(v, list) else C(v))
                                                     for k, v in EXPORT.items()))
        return st

    def expanded(self, ip, fn, args, kwargs, st, node):
        ip.maybe_external_raise(st, node)
        given = args[1:] + [v for _, v in kwargs]
        return [(S(('expanded', args[0], given[0] if given else NONE), 'builtins.str'), st)]

    def mark(self, st, kind, name, recv=None, args=()):
        rows, flags = st.mon
        st.mon = (rows, flags | {('did', sum(f[0] == 'did' for f in flags), kind, name, recv, tuple(args))})

    def number(self, st, kind):
        return len(self.did(st, kind))

    def running(self, ip, f, name, recv, args, kwargs, st, node):
        """What a client uses of the operating system and the libraries."""
        last = (name or '').split('.')
        if last[-1] in SPACES or last[-1] == 'from_dict' and len(last) > 1 and last[-2] in SPACES:
            if not args and not kwargs:
                return [(ip.new_dict(st, (), node), st)]
            if len(args) == 1 and args[0][0] == 'd':
                return [(ip.new_dict(st, st.heap[args[0][1]].attrs, node), st)]
        if name == 'builtins.isinstance' and len(args) == 2 and args[0][0] == 'd' and show(args[1]).split('.')[-1] in SPACES:
            return [(TRUE, st)]
        if name == 'builtins.isinstance' and len(args) == 2 and args[0][0] != 's' and show(args[1]).split('.')[-1] in SPACES:
            return [(FALSE, st)]
        if recv is not None and recv[0] == 'd':
            if name == '.to_env' and not args:
                return [(ip.new_dict(st, st.heap[recv[1]].attrs, node), st)]
            if name == '.flatten':
                prefix = args[0] if args else dict(kwargs).get('prefix', NONE)
                flat = self.flat(recv, st)
                if flat is not None and is_const(prefix):
                    lead = f'{cval(prefix)}_' if prefix != NONE else ''
                    return [(ip.new_dict(st, tuple((C(lead + k), v) for k, v in flat), node), st)]
        if name in ('os.getenv', 'os.environ.get'):
            got = dict(ENVIRON).get(cval(args[0]) if is_const(args[0]) else None)
            return [(C(got) if got is not None else args[1] if len(args) > 1 else NONE, st)]
        if name in ('datetime.datetime.now', 'time.time', 'time.monotonic'):
            n = self.number(st, 'now')
            self.mark(st, 'now', name)
            return [(S(('now', n), 'datetime.datetime' if 'datetime' in name else 'builtins.float'), st)]
        if name == '.astimezone' and recv is not None:
            return [(recv, st)]
        if name == 'builtins.open':
            ip.maybe_external_raise(st, node)
            n = self.number(st, 'open')
            mode = args[1] if len(args) > 1 else dict(kwargs).get('mode', C('r'))
            self.mark(st, 'open', name, None, (args[0], mode))
            return [(S(('stream', n, args[0], mode), 'typing.IO'), st)]
        if name == '.close' and recv is not None:
            self.mark(st, 'close', name, recv)
            return [(NONE, st)]
        if name == 'subprocess.Popen':
            ip.maybe_external_raise(st, node)
            n = self.number(st, 'started')
            self.mark(st, 'started', name, None, tuple(ip.snap(a, st) for a in args) + tuple(('kw', k, ip.snap(v, st)) for k, v in kwargs)
                      + (('task', self.current(st)),))
            return [(S(('process', n), 'subprocess.Popen'), st)]
        if recv is not None and recv[0] == 's' and recv[1][0] == 'process':
            if name == '.wait':
                if args and args[0] != NONE or any(k == 'timeout' and v != NONE for k, v in kwargs):
                    late = st.copy()
                    if not any(d[0] == 'late' and d[2] == recv for d in self.did(st)):
                        self.mark(late, 'late', name, recv)
                        ip.raise_sinks[-1].append(('subprocess.TimeoutExpired', S(('exc', 'subprocess.TimeoutExpired')), late))
                self.mark(st, 'ended', name, recv, (C(self.number(st, 'now')),))
                return [(S(('status', recv[1][1]), 'builtins.int'), st)]
            if name in ('.poll', '.returncode'):
                return None
        what = show(recv) if recv is not None else ''
        if name in ('.get', '.get_nowait') and what == '<inbound>':
            n = self.number(st, 'taken')
            self.mark(st, 'taken', name)
            return [(self.tasks[n] if n < len(self.tasks) else NONE, st)]
        if name in ('.put', '.put_nowait') and what == '<outbound>':
            got = args[0] if args else NONE
            self.mark(st, 'returned', name, None, (got, C(self.number(st, 'now'))) + tuple(
                (k, ip.snap(v, st)) for k, v in sorted(st.heap[got[1]].attrs.items())) if got[0] == 'o' else (got,))
            return [(NONE, st)]
        if name == '.task_done':
            return [(NONE, st)]
        return None

    def current(self, st):
        v = st.heap['self'].attrs.get('task')
        return v if v is not None else NONE

    def flat(self, v, st):
        """(name, text) of the members of a nested dictionary, or None if they are not known."""
        out = {}
        for k, x in st.heap[v[1]].attrs:
            if k is None or not is_const(k) or not isinstance(cval(k), str):
                return None
            if x[0] == 'd':
                sub = self.flat(x, st)
                if sub is None:
                    return None
                out.update({f'{cval(k).upper()}_{n}': t for n, t in sub})
            else:
                out[cval(k).upper()] = as_text(x)
        return tuple(out.items())


class Runs:
    """Two tasks run by one executor, on every path of its state machine."""

    def __init__(self, rep):
        self.rep, self.prog = rep, rep.prog
        self.cls = machine(rep.prog, 'TaskExecutor')
        self.shown = Shown(rep, 'TaskInfoApp')

    def run(self, capture, streams):
        cl = Client(self.prog)
        ip, st = cl.ip, cl.world()
        refs = []
        for i in range(2):
            row = self.shown.record()
            row.update({k: None for k in ('command', 'client_id', 'client_host', 'start_time', 'completion_time', 'exit_status', 'outpath', 'errpath',
                                          'waited', 'duration', 'next_id')})
            attrs = {k: v if isinstance(v, tuple) else C(v) for k, v in row.items() if k != 'tag'}
            attrs = {k: numbered(v, i) for k, v in attrs.items()}
            attrs['id'] = C(f'{i}{ID[1:]}')
            for v in attrs.values():
                if v[0] == 's':
                    st.facts['isnone', v] = False
            attrs['tag'] = cl.tag_dict(st, f'tags{i}', {**TAGS, 'k': f'v{i}'})
            cl.before += (dict(attrs),)
            st.heap[f'task{i}'] = HObj('obj', TASK, attrs)
            refs.append(('o', f'task{i}'))
        cl.tasks = tuple(refs)
        st.heap['self'] = HObj('obj', self.cls.qual, {})
        ip.make_self(self.cls, st, opaque=False)
        init = self.cls.method('__init__')
        given = {'id': C(1), 'inbound': S(('inbound',), 'queue.Queue'), 'outbound': S(('outbound',), 'queue.Queue'), 'template': S(('given', 'template'), 'builtins.str'),
                 'capture': C(capture), 'timeout': NONE, 'redirect_output': streams[0], 'redirect_errors': streams[1]}
        names = {a.arg for a in init.node.args.args + init.node.args.kwonlyargs}
        given = {k: v for k, v in given.items() if k in names}
        for v in given.values():
            if v[0] == 's':
                st.facts['isnone', v], st.facts['truth', v] = False, True
        rets, raised = ip.run_function(init, [('o', 'self')], list(given.items()), st)
        work = [(s, 0) for _, s in rets]
        ends, crashes, seen = [], [], set()
        steps = 0
        while work:
            s, depth = work.pop()
            steps += 1
            if steps > 4000 or depth > MOST:
                raise AnalysisBroken('the executor does not come to an end within the bounds')
            cur = ip.get_attr(('o', 'self'), 'state', s, self.cls.node)[0][0]
            if cur[0] == 'm' and cur[2] == 'HALT':
                ends.append(s)
                continue
            key = (cur, s.key())
            if key in seen:
                continue
            seen.add(key)
            table, s = ip.get_attr(('o', 'self'), 'actions', s, self.cls.node)[0]
            action = next((x for k, x in s.heap[table[1]].attrs if k == cur), None)
            if action is None:
                raise AnalysisBroken(f'no action for {show(cur)}')
            ip.stack, ip.raise_sinks, ip.try_depth, ip.handlers = [], [[]], 0, []
            ip.stack.append(ip._stub(self.cls.module, self.cls))
            try:
                res = ip.call(action, [], [], s, self.cls.node)
            finally:
                ip.stack.pop()
            crashes += [(e, v, s2) for e, v, s2 in ip.raise_sinks[0]]
            for v, s2 in res:
                o = s2.heap['self']
                s2.heap['self'] = HObj(o.kind, o.cls, {**o.attrs, 'state': v}, o.opaque)
                work.append((s2, depth + 1))
        self.rep.saw(ip)
        return cl, ends, crashes


    def written(self):
        """Columns of tasks that change while an executor runs them."""
        got = set()
        for capture in (False, True):
            cl, ends, _ = self.run(capture, (NONE, NONE))
            for s in ends:
                for _, _, _, args in cl.did(s, 'returned'):
                    if args[0] in cl.tasks:
                        before = cl.before[cl.tasks.index(args[0])]
                        got |= {a[0] for a in args[2:] if isinstance(a[0], str) and before.get(a[0]) != a[1]}
        got.discard('tag')
        return got


def numbered(v, i):
    return S((v[1][0] + str(i), *v[1][1:]), v[2]) if v[0] == 's' else v


DOCUMENTED = ('id', 'args', 'submit_id', 'submit_host', 'submit_time', 'server_id', 'server_host', 'schedule_time', 'client_id', 'client_host', 'command',
              'attempt', 'previous_id', 'start_time', 'waited')
SENT = ('id', 'args', 'submit_id', 'submit_host', 'submit_time', 'server_id', 'server_host', 'schedule_time', 'attempt', 'retried', 'previous_id', 'next_id')


def difference(v, later, earlier):
    """Whether a value is made from the time between two others, and no other times."""
    found = []

    def look(t):
        if t[:1] == ('bin',) and len(t) == 4 and t[1] in ('-', 'Sub') and t[2] == later and t[3] == earlier:
            found.append(t)
        return False
    mentions(v, look)
    return bool(found) and times(v) <= times(later) | times(earlier)


def times(v):
    out = set()

    def look(t):
        if t[:1] == ('now',):
            out.add(t)
        return False
    mentions(v, look)
    return out


def is_path(v, key, ext):
    text = repr(v)
    return f"'{key}{ext}'" in text and 'default_path' in text and "'lib'" in text and "'task'" in text


@rule('C36', technique='abstract interpretation of the executor; provenance of every argument of the started process and of every recorded field',
      explanation='Every path of two tasks after one another: template errors, failing starts, slow tasks; captured output or given streams; environment '
                  'variables, exported and configured ones, tags of all kinds.')
def running(rep):
    runs = Runs(rep)
    where = {n: (fn.where if (fn := runs.cls.method(n)) is not None else runs.cls.where) for n in ('start_task', 'wait_task', 'create_task')}
    given = (S(('given', 'out'), 'typing.IO'), S(('given', 'err'), 'typing.IO'))
    none = (NONE, NONE)
    patterns = set()
    for capture, streams in ((False, given), (False, none), (True, none)):
        cl, ends, crashes = runs.run(capture, streams)
        if cl.unknown:
            raise AnalysisBroken(f'the executor is not understood: {cl.unknown[0]}')
        about = 'with captured output' if capture else 'with given streams' if streams is given else 'with standard streams'
        rep.count('paths of the executor', len(ends))
        for s in ends:
            entries = cl.did(s)
            began, pattern = 0, []
            for i, (kind, name, recv, args) in enumerate(entries):
                if kind == 'taken':
                    began = i
                if kind == 'returned':
                    pattern.append(one_run(rep, runs, cl, s, entries[began:i + 1], capture, streams, about, where))
            closed = [d[2] for d in entries if d[0] == 'close']
            rep.check('streams', 'shared streams', capture or not any(v in streams or show(v) in ('sys.stdout', 'sys.stderr') for v in closed),
                      f'{about}: streams that other tasks write to are closed', where['wait_task'])
            patterns.add(tuple(pattern))
    rep.check('runs', 'both', (True, True) in patterns, 'no path runs two tasks after one another', where['start_task'])
    rep.check('runs', 'failures', any(False in p for p in patterns), 'no path where a task cannot be started', where['start_task'])


def one_run(rep, runs, cl, s, entries, capture, streams, about, where):
    """Checks what was done between taking one task and returning it; whether it was started."""
    args = entries[-1][3]
    task, row = args[0], dict(a for a in args[2:] if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str))
    rep.check('returned', 'task', task in cl.tasks, f'{about}: something else than the task taken is returned', where['wait_task'])
    if task not in cl.tasks:
        return None
    i = cl.tasks.index(task)
    key = f'{i}{ID[1:]}'
    now = sum(1 for d in cl.did(s, 'now'))
    before = {k: C(key) if k == 'id' else numbered(symbol(k, t), i) for k, t in runs.shown.kinds.items() if k in SENT}
    before['next_id'] = NONE
    for field in SENT:
        rep.check('recorded', 'unchanged', row.get(field) == before[field], f'{about}: {field} of the task is changed', where['start_task'])
    rep.check('recorded', 'client', show(row.get('client_host', NONE)) == "'here'" and show(row.get('client_id', NONE)).split('.')[-1] == 'INSTANCE',
              f'{about}: the client is not recorded', where['create_task'])
    started = [(n, d[3]) for n, d in enumerate(entries) if d[0] == 'started']
    ended = [(n, d) for n, d in enumerate(entries) if d[0] == 'ended']
    start, done = row.get('start_time', NONE), row.get('completion_time', NONE)
    for what, v in (('start', start), ('completion', done)):
        rep.check('recorded', f'{what} time', v[0] == 's' and v[1][0] == 'now', f'{about}: the {what} time is {show(v)}', where['start_task'])
    if not started:
        status = row.get('exit_status', NONE)
        rep.check('recorded', 'not started', is_const(status) and isinstance(cval(status), int) and cval(status) != 0,
                  f'{about}: a task that could not be started has the exit status {show(status)}', where['start_task'])
        return False
    at, popen = started[0]
    kw = {a[1]: a[2] for a in popen if a[0] == 'kw'}
    pos = [a for a in popen if a[0] not in ('kw', 'task')]
    command = pos[0] if pos else kw.get('args', NONE)
    want = command[0] == 's' and command[1][0] == 'expanded' and mentions(command[1][1], lambda t: t[:2] == ('given', 'template')) \
        and command[1][2] == before['args']
    rep.check('started', 'command', want, f'{about}: the command line run is {show(command)}', where['create_task'])
    rep.check('started', 'shell', kw.get('shell') == TRUE, f'{about}: the command line is not run by the shell', where['start_task'])
    cwd = S(('attr', S(('attr', CONFIG, 'task')), 'cwd'))
    rep.check('started', 'directory', kw.get('cwd') == cwd, f'{about}: the task runs in {show(kw.get("cwd", NONE))}', where['start_task'])
    rep.check('recorded', 'command', row.get('command') == command, f'{about}: the command recorded is {show(row.get("command", NONE))}', where['create_task'])
    environment(rep, runs, kw.get('env', NONE), row, key, cwd, i, about, where['start_task'])
    # streams
    opened = [d for d in entries if d[0] == 'open']
    for stream, ext, path, given, std, env in (('stdout', '.out', 'outpath', streams[0], 'sys.stdout', 'TASK_OUTPATH'),
                                               ('stderr', '.err', 'errpath', streams[1], 'sys.stderr', 'TASK_ERRPATH')):
        v = kw.get(stream, NONE)
        if capture:
            good = v[0] == 's' and v[1][0] == 'stream' and is_path(v[1][2], key, ext) and is_const(v[1][3]) and cval(v[1][3])[:1] in 'wx'
            rep.check('streams', stream, good, f'{about}: {stream} of the task goes to {show(v)}', where['start_task'])
            if good:
                rep.check('recorded', path, row.get(path) == v[1][2], f'{about}: {path} is not the file written', where['start_task'])
                shut = [n for n, d in enumerate(entries) if d[0] == 'close' and d[2] == v]
                rep.check('streams', f'{stream} closed', any(n > ended[-1][0] for n in shut) if ended else False,
                          f'{about}: the file of {stream} is not closed once the task is done', where['wait_task'])
                rep.check('streams', f'{stream} open', not any(n < at for n in shut), f'{about}: {stream} is closed before the task starts', where['start_task'])
        else:
            good = v == given if given != NONE else show(v) == std or v == NONE
            rep.check('streams', stream, good and not opened, f'{about}: {stream} of the task goes to {show(v)}', where['start_task'])
            rep.check('recorded', path, row.get(path) == NONE, f'{about}: {path} is {show(row.get(path, NONE))}', where['start_task'])
    if ended:
        n, d = ended[-1]
        rep.check('recorded', 'exit status', row.get('exit_status') == S(('status', d[2][1][1]), 'builtins.int') and n > at,
                  f'{about}: the exit status recorded is {show(row.get("exit_status", NONE))}', where['wait_task'])
        rep.check('recorded', 'order of times', order(start) < order(done) and order(done) >= cval(d[3][0])
                  and order(start) < cval(d[3][0]), f'{about}: the times recorded are not those of start and end', where['wait_task'])
    rep.check('recorded', 'duration', difference(row.get('duration', NONE), done, start), f'{about}: the duration is {show(row.get("duration", NONE))}',
              where['wait_task'])
    rep.check('recorded', 'waiting time', difference(row.get('waited', NONE), start, before['submit_time']),
              f'{about}: the waiting time is {show(row.get("waited", NONE))}', where['start_task'])
    return True


def order(v):
    return v[1][1] if v[0] == 's' and v[1][0] == 'now' else -1


def environment(rep, runs, v, row, key, cwd, i, about, where):
    """The variables a task sees."""
    if v[0] != 'dct' or any(k is None or not is_const(k) for k, _ in v[1]):
        rep.check('environment', 'known', False, f'{about}: the environment of the task is {show(v)[:80]}', where)
        return
    env = {cval(k): x for k, x in v[1]}
    for name, value in {**{k: x for k, x in ENVIRON.items() if not k.startswith('TASK_')}, **WANTED}.items():
        rep.check('environment', 'given' if name in WANTED else 'inherited', env.get(name) == C(value),
                  f'{about}: {name} is {show(env.get(name, NONE))} instead of {value!r}', where)
    for field in DOCUMENTED:
        have, value = env.get(f'TASK_{field.upper()}', NONE), row.get(field, NONE)
        good = have == as_text(value) or runs.shown.kinds[field] == 'datetime' and value != NONE and mentions(have, lambda t: t == value[1])
        rep.check('environment', field, good, f'{about}: TASK_{field.upper()} is {show(have)}', where)
    rep.check('environment', 'directory', env.get('TASK_CWD') == cwd, f'{about}: TASK_CWD is {show(env.get("TASK_CWD", NONE))}', where)
    for field, ext in (('outpath', '.out'), ('errpath', '.err')):
        have = env.get(f'TASK_{field.upper()}', NONE)
        rep.check('environment', field, have == row.get(field) or row.get(field) == NONE and (is_path(have, key, ext) or is_const(have)),
                  f'{about}: TASK_{field.upper()} is {show(have)}', where)
    tags = {**TAGS, 'k': f'v{i}'}
    for name, value in tags.items():
        rep.check('environment', 'tags', env.get(f'TASK_TAG_{name.upper()}') == as_text(C(value)),
                  f'{about}: TASK_TAG_{name.upper()} is {show(env.get(f"TASK_TAG_{name.upper()}", NONE))}', where)
