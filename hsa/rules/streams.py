"""
Files and standard streams have one owner each (C51).

The commands that open files are interpreted from their start through their work (which returns or fails) to their end,
for every choice of paths and modes, with `open` and `close` recorded; the executor of tasks likewise, for zero, one
and two tasks.
"""
from ..cli import APPLICATION, app, options
from ..interp import C, FALSE, Interp, NONE, S, TRUE, cval, is_const, show
from ..report import rule
from .errors import Everything, blank, mro, shorthand
from .unset import Machine
from .machines import machine
from .refusals import Choices

STANDARD = {('x', f'sys.{n}'): n for n in ('stdin', 'stdout', 'stderr')}
# what a command writes to (by the name of the option), and the parameter of the work that takes it
OUTPUTS = {'output_path': 'redirect_output', 'errors_path': 'redirect_errors', 'failure_path': 'redirect_failures'}
APPS = {
    'ClientApp': ((), ('capture',)),
    'ServerApp': (('filepath',), ('forever_mode', 'restart_mode', 'print_mode', 'in_memory')),
    'SubmitApp': (('filepath',), ()),
    'ClusterApp': (('filepath',), ('restart_mode', 'forever_mode', 'in_memory', 'autoscaling_policy', 'ssh_mode', 'mpi_mode', 'capture')),
}

# modes that rule the paths out anyway (C47)
REFUSED = {'ServerApp': ('print_mode',)}


def stream(v):
    return v is not None and v[0] == 's' and v[1][0] == 'stream'


class Streams:

    def __init__(self, prog):
        self.prog = prog
        self.ip = None

    def interpreter(self, **kw):
        self.ip = Interp(self.prog, **kw)
        self.ip._globals = {}
        self.ip.exact_lists = True
        self.ip.extern_hook = self.library
        self.ip.on_event = self.event
        return self.ip

    def library(self, ip, f, name, recv, args, kwargs, st, node):
        last = (name or '').rsplit('.', 1)[-1]
        if st.mon is None:
            return shorthand(ip, f, name, recv, args, kwargs, st, node)
        if recv is None and ('x', (name or '').rpartition('.')[0]) in STANDARD:
            recv = ('x', name.rpartition('.')[0])
        if name in ('builtins.open', 'io.open', 'codecs.open') or last == 'open' and name.startswith('.') and not args[1:]:
            mode = dict(kwargs).get('mode', args[1] if len(args) > 1 else C('r'))
            path = dict(kwargs).get('file', args[0] if args else recv)
            v = S(('stream', path, mode, sum(1 for x in st.mon if x[0] == 'open')), 'io.TextIOWrapper')
            st.mon = st.mon + (('open', v, path, mode),)
            self.real(st, v)
            return [(v, st)]
        if last == 'close' and recv is not None:
            st.mon = st.mon + (('close', recv),)
            return [(NONE, st)]
        if name == 'os.close' or last in ('detach',) and recv is not None:
            st.mon = st.mon + (('close', recv if recv is not None else args[0]),)
            return [(NONE, st)]
        return shorthand(ip, f, name, recv, args, kwargs, st, node)

    @staticmethod
    def real(st, v):
        """It is a stream, and none of the standard ones."""
        st.facts[('truth', v)], st.facts[('isnone', v)] = True, False
        for std in STANDARD:
            st.facts[('eq', v, std)] = False

    def event(self, ip, ev, st):
        if ev.kind == 'endwith' and ev.recv is not None and st.mon is not None and (stream(ev.recv) or ev.recv in STANDARD):
            st.mon = st.mon + (('close', ev.recv),)


class Command(Streams):
    """A command from its start to its end."""

    def __init__(self, prog, cls, choices):
        super().__init__(prog)
        self.cls, self.choices = cls, choices
        self.mine = {m.qual for c in mro(cls) if APPLICATION in c.all_ext_bases() for m in c.methods.values()}
        self.interpreter(summaries=Everything(lambda k: k in self.mine, self.other))
        self.working = False

    def other(self, ip, fn, args, kwargs, st, node):
        """Everything the command uses; its work returns or fails."""
        if self.working and st.mon is not None:
            given = {}
            names = [a.arg for a in fn.node.args.posonlyargs + fn.node.args.args]
            if fn.kind != 'static' and fn.cls is not None and len(args) < len(names):
                names = names[1:]
            given.update(zip(names, args))
            given.update(dict(kwargs))
            took = tuple((k, v) for k, v in sorted(given.items(), key=lambda e: str(e[0])) if stream(v) or v in STANDARD)
            st.mon = st.mon + (('work', took),)
            if took:
                lost = st.copy()
                ip.raise_sinks[-1].append(('builtins.RuntimeError', S(('exc', 'builtins.RuntimeError')), lost))
        return [(S(('fresh', fn.qual)), st)]

    def go(self, given):
        st = blank()
        st.mon = ()
        me = self.ip.make_self(self.cls, st, opaque=True)
        obj = st.heap[me[1]]
        obj.attrs = {**obj.attrs, **self.choices.defaults, **given}
        states, ends = [st], []
        self.working = False
        enter = self.cls.method('__enter__')
        if enter is not None:
            rets, raised = self.ip.run_function(enter, [me], [], st)
            ends += [('refused', exc, s) for exc, _, s in raised]
            states = [s for _, s in rets]
        leave = self.cls.method('__exit__')
        for s in states:
            self.working = True
            rets, raised = self.ip.run_function(self.cls.method('run'), [me], [], s)
            self.working = False
            for exc, s2 in [(None, s2) for _, s2 in rets] + [(exc, s2) for exc, _, s2 in raised]:
                s2.mon = s2.mon + (('end',),)
                if leave is None:
                    ends.append(('done', exc, s2))
                    continue
                what = [NONE] * 3 if exc is None else [S(('call', ('x', 'builtins.type'), (S(('exc', exc)),), ())), S(('exc', exc)), S(('traceback', exc))]
                got, failed = self.ip.run_function(leave, [me, *what], [], s2)
                ends += [('done', exc, s3) for _, s3 in got] + [('failed', e, s3) for e, _, s3 in failed]
        return ends


def commands(rep, prog):
    n = 0
    for name, (inputs, modes) in APPS.items():
        cls = app(prog, name)
        choices = Choices(prog, cls)
        dests = {o.dest for o in options(cls)}
        outputs = [d for d in OUTPUTS if d in dests]
        rep.floor(f'{name} paths', len(outputs) + len(inputs), 1)
        tests = []
        files = (NONE, C('-'), C('tasks.in')) if name != 'SubmitApp' else (C('-'), C('tasks.in'))
        for file in files if inputs else (None,):
            for mode in (None, *(m for m in modes if m in dests or m in choices.defaults)):
                for mask in range(2 ** len(outputs) if mode not in REFUSED.get(name, ()) else 1):
                    given = {d: C(d) for i, d in enumerate(outputs) if mask >> i & 1}
                    if file is not None:
                        given[inputs[0]] = file
                    if mode is not None:
                        given[mode] = C('dynamic') if mode == 'autoscaling_policy' else C('host01') if mode == 'ssh_mode' else TRUE
                    tests.append(given)
        for dash in ('failure_path',) if 'failure_path' in dests and name == 'ServerApp' else ():
            tests.append({dash: C('-'), **({inputs[0]: C('tasks.in')} if inputs else {})})
        for given in tests:
            t = Command(prog, cls, choices)
            what = f'{name} ' + ', '.join(f'{k}={cval(v)}' for k, v in given.items())
            ends = t.go(given)
            rep.saw(t.ip)
            rep.check('interpreted', what, bool(ends), 'it has no end', cls.where)
            for how, exc, s in ends:
                n += how == 'done'
                judge(rep, cls, what, given, how, exc, s)
    rep.floor('ends of commands', n, 100)


def judge(rep, cls, what, given, how, exc, s):
    leave = cls.method('__exit__') or cls.method('run')
    opened = [x for x in s.mon if x[0] == 'open']
    closed = [x[1] for x in s.mon if x[0] == 'close']
    work = [x for x in s.mon if x[0] == 'work']
    rep.check('end', what, how != 'failed', f'cleaning up fails with {exc}', leave.where)
    for v in closed:
        rep.check('standard stream', f'{cls.name} {STANDARD.get(v, "")}', v not in STANDARD, f'it is closed ({what})', leave.where)
    for _, v, path, mode in opened:
        text = cval(path) if is_const(path) else None
        output = text in OUTPUTS
        if how == 'done':
            rep.check('closed', f'{cls.name} {show(path)[:40]}', v in closed, f'the file is left open ({what})', leave.where)
        if is_const(mode) and isinstance(cval(mode), str):
            good = cval(mode).rstrip('bt').rstrip('+') == ('w' if output else 'r')
            rep.check('mode', f'{cls.name} {show(path)[:40]}', good, f'it is opened with mode {cval(mode)}', cls.where)
        if output:
            rep.check('refused', f'{cls.name} {text}', any(w[1] for w in work), f'the file is emptied although nothing is done ({what}, {exc})', cls.where)
        rep.check('standard', f'{cls.name} {show(path)[:40]}', path not in (C('-'), NONE), f'it is opened as a file ({what})', cls.where)
    paths = [x[2] for x in opened]
    rep.check('once', cls.name, len(paths) == len(set(paths)), f'a file is opened twice, which empties it or starts over ({what})', cls.where)
    taken = [dict(w[1]) for w in work if w[1]]
    for took in taken[-1:]:
        for dest, param in OUTPUTS.items():
            if param not in took and dest not in given:
                continue
            v = took.get(param)
            if dest in given and given[dest] != C('-'):
                rep.check('stream', f'{cls.name} {dest}', stream(v) and v[1][1] == given[dest], f'the work writes to {show(v) if v else None} ({what})', cls.where)
            elif v is not None:
                want = 'stderr' if dest == 'errors_path' else 'stdout'
                rep.check('stream', f'{cls.name} {dest}', v == ('x', f'sys.{want}'), f'the work writes to {show(v)} ({what})', cls.where)
        if 'source' in took:
            v, file = took['source'], given.get('filepath', NONE)
            if file in (NONE, C('-')):
                rep.check('stream', f'{cls.name} filepath', v == ('x', 'sys.stdin'), f'the work reads {show(v)} ({what})', cls.where)
            else:
                rep.check('stream', f'{cls.name} filepath', stream(v) and v[1][1] == file, f'the work reads {show(v)} ({what})', cls.where)


STEPS = {'start_task': 'START_TASK', 'wait_task': 'WAIT_TASK', 'finalize': 'FINAL'}


def executors(rep, prog):
    """Streams shared by the executors are not closed by one of them; files of one task are closed."""
    cls = machine(prog, 'TaskExecutor')
    init = cls.method('__init__')
    actions = Machine(prog, cls).actions()
    steps = {k: actions.get(state) or cls.method(k) for k, state in STEPS.items()}
    for k, fn in steps.items():
        rep.check('executor', k, fn is not None, 'there is no such step', '')
    if not all(steps.values()):
        return
    n = 0
    for capture in (False, True):
        for shared in (False, True):
            if capture and shared:
                continue        # refused by the command
            for tasks in (0, 1, 2):
                t = Streams(prog)
                ip = t.interpreter()
                for fn in prog.functions.values():
                    if fn.name == 'task_env':
                        ip.summaries[fn.qual] = lambda ip, f, a, k, st, node: [(S(('env', len(st.mon))), st)]
                st = blank()
                st.mon = ()
                me = ip.make_self(cls, st, opaque=True)
                given = {'redirect_output': S(('shared', 'output'), 'io.TextIOWrapper') if shared else NONE,
                         'redirect_errors': S(('shared', 'errors'), 'io.TextIOWrapper') if shared else NONE}
                for v in given.values():
                    if v != NONE:
                        t.real(st, v)
                kwargs = [('id', C(1)), ('inbound', S(('inbound',))), ('outbound', S(('outbound',))), ('capture', C(capture)), *given.items()]
                states = [s for _, s in ip.run_function(init, [me], kwargs, st)[0]]
                for i in range(tasks):
                    nxt = []
                    for s in states:
                        s.heap[me[1]].attrs = {**s.heap[me[1]].attrs, 'task': S(('task', i), 'hypershell.data.model.Task')}
                        for v, s2 in ip.run_function(steps['start_task'], [me], [], s)[0]:
                            s2.mon = s2.mon + (('started', 'WAIT' in show(v)),)
                            if 'WAIT' in show(v):
                                nxt += [s3 for v3, s3 in ip.run_function(steps['wait_task'], [me], [], s2)[0] if 'PUT' in show(v3)]
                    states = dedupe(nxt)
                for s in states:
                    rets, raised = ip.run_function(steps['finalize'], [me], [], s)
                    rep.saw(ip)
                    what = f'{tasks} tasks, {"captured" if capture else "shared streams" if shared else "standard streams"}'
                    rep.check('executor', what, not raised, f'it ends with {sorted({str(e) for e, _, _ in raised})}', steps['finalize'].where)
                    for _, s2 in rets:
                        n += 1
                        closed = [x[1] for x in s2.mon if x[0] == 'close']
                        for v in closed:
                            rep.check('shared', f'{what}: {show(v)[:40]}', v not in STANDARD and v not in given.values(),
                                      'an executor closes a stream that others still use', steps['finalize'].where)
                        for _, v, path, mode in [x for x in s2.mon if x[0] == 'open']:
                            rep.check('captured', f'{what}: {show(path)[:60]}', v in closed, 'the output of a task is left open', steps['wait_task'].where)
                            rep.check('mode', f'captured {show(path)[:40]}', mode == C('w'), f'it is opened with mode {show(mode)}', steps['start_task'].where)
    rep.floor('ends of an executor', n, 7)


def dedupe(states):
    seen, out = set(), []
    for s in states:
        if s.mon not in seen:
            seen.add(s.mon)
            out.append(s)
    return out


@rule('C51', technique='abstract interpretation of commands and executors from start to end with opened and closed streams recorded', level='other',
      explanation='Every command that opens files is interpreted through its start, its work (which returns or fails) and its end, for every choice of '
                  'paths and modes; the executor of tasks for zero, one and two tasks with captured, shared and standard streams.')
def streams(rep):
    commands(rep, rep.prog)
    executors(rep, rep.prog)
    rep.assume('the framework of commands enters, runs and leaves a command as a context manager does')
