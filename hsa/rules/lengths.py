"""
Lengths of time are compared as what they are (part of C15, C17 and C52).

Every comparison of elapsed time with a configured limit, in any action of any machine, is brought into the form
`factor * elapsed < factor * limit`, both in seconds; components of a length (its seconds without its days) are no
length.
"""
from ..interp import S, cval, is_const, mentions
from ..machine import machine_classes
from ..model import AnalysisBroken
from .errors import shorthand
from .machines import construct
from .unset import Machine

UNITS = {'days': 86400, 'seconds': 1, 'microseconds': 1e-6, 'milliseconds': 1e-3, 'minutes': 60, 'hours': 3600, 'weeks': 604800}
ORDER = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
PARTS = ('seconds', 'microseconds', 'days')
CLOCK = ('datetime.now', 'datetime.utcnow', 'time.time', 'time.monotonic')

#: limits and the multiples of them that are waited for
LIMITS = {'timeout': (1,), 'heartrate': (1,), 'bundlewait': (1,), 'signalwait': (1, 2, 3)}


class Unknown(Exception):
    """Not a length this can follow."""


def is_now(t):
    return t == ('clock',)


def measure(v):
    """[what, factor]: what is measured ('elapsed' or the name of a limit) and how many seconds one unit of it counts for."""
    t = v[1] if v[0] == 's' else v
    if is_const(v):
        raise Unknown
    if t[0] == 'param':
        return t[-1], 1
    if t[0] == 'bin' and t[1] == '-':
        if mentions(v, is_now):
            return 'elapsed', 1
        raise Unknown
    if t[0] == 'bin' and t[1] == '*' and (is_const(t[2]) or is_const(t[3])):
        c, x = (t[2], t[3]) if is_const(t[2]) else (t[3], t[2])
        what, k = measure(x)
        return what, k * cval(c)
    if t[0] == 'bin' and t[1] in ('/', '//') and is_const(t[3]) and cval(t[3]):
        what, k = measure(t[2])
        return what, k / cval(t[3])
    if t[0] == 'seconds':
        return measure(t[1])
    if t[0] == 'call' and t[1][0] == 'x':
        name = t[1][1]
        if name.endswith('timedelta'):
            given = [(ORDER[i], a) for i, a in enumerate(t[2])] + list(t[3])
            given = [(k, a) for k, a in given if not (is_const(a) and cval(a) == 0)]
            if len(given) != 1 or given[0][0] not in UNITS:
                raise Unknown
            what, k = measure(given[0][1])
            return what, k * UNITS[given[0][0]]
        if name.rsplit('.', 1)[-1] in ('int', 'float', 'round', 'abs', 'floor', 'ceil') and t[2]:
            return measure(t[2][0])
    raise Unknown


def partial(v):
    """A component of a length stands for the length."""
    found = set()

    def look(t):
        if t[:1] == ('attr',) and len(t) == 3 and t[2] in PARTS:
            found.add(t[2])
        return False
    mentions(v, look)
    return 'seconds' in found and 'days' not in found or 'microseconds' in found and 'seconds' not in found


class Lengths:

    def __init__(self, prog, cls):
        self.prog, self.cls = prog, cls
        self.ip, self.made = construct(prog, cls)
        self.ip.extern_hook = self.library
        self.ip.on_event = self.event
        self.found, self.kept = [], []

    @staticmethod
    def library(ip, f, name, recv, args, kwargs, st, node):
        last = (name or '').rsplit('.', 1)[-1]
        if (name or '').endswith(CLOCK):
            return [(S(('clock',), 'datetime.datetime'), st)]
        if last == 'astimezone' and recv is not None:
            return [(recv, st)]
        if last == 'total_seconds' and recv is not None:
            return [(S(('seconds', recv), 'builtins.float'), st)]
        return shorthand(ip, f, name, recv, args, kwargs, st, node)

    def event(self, ip, ev, st):
        if ev.kind == 'cond' and ev.name == 'lt' and len(ev.args) == 2:
            self.found.append((ev.fn, ev.where, ev.args))

    def run(self):
        for state, fn in Machine(self.prog, self.cls).actions().items():
            for me, st in self.made:
                s = st.copy()
                # what other actions have set is not known here, except for the parameters
                self.ip.raise_sinks, self.ip.handlers, self.ip.try_depth = [[]], [], 0
                for v, s2 in self.ip.run_function(fn, [] if fn.kind == 'static' else [me], [], s)[0]:
                    for name, x in s2.heap[me[1]].attrs.items():
                        if x != st.heap[me[1]].attrs.get(name):
                            self.kept.append((fn, name, x))
        return self


def limit_of(v):
    names = set()

    def look(t):
        if t[:1] == ('param',) and t[-1] in LIMITS:
            names.add(t[-1])
        return False
    mentions(v, look)
    return names


def lengths(rep, only):
    prog = rep.prog
    n = 0
    for cls in machine_classes(prog):
        try:
            m = Lengths(prog, cls).run()
        except AnalysisBroken:
            continue
        rep.saw(m.ip)
        for fn, name, v in m.kept:
            try:
                what, k = measure(v)
            except Unknown:
                continue
            if what == 'elapsed':
                rep.check('elapsed', f'{fn.qual}: {name}', abs(k - 1) < 1e-9, f'the time that has passed is kept as {k:g} times as much', fn.where)
        for fn, where, args in m.found:
            for i in (0, 1):
                names = limit_of(args[i])
                if len(names) != 1 or limit_of(args[1 - i]) or not names & set(only):
                    continue
                limit, other = args[i], args[1 - i]
                name = next(iter(names))
                if is_const(other):
                    continue
                n += 1
                rep.check('whole', f'{fn.qual}: {name}', not partial(other) and not partial(limit), 'it is compared with the seconds of a length without its '
                          'days, which start over every day', where)
                try:
                    what, k = measure(limit)
                    allowed = LIMITS[name]
                    rep.check('limit', f'{fn.qual}: {name}', any(abs(k - a) < 1e-9 for a in allowed), f'{k:g} times the limit is waited for', where)
                except Unknown:
                    k = None
                try:
                    what, k = measure(other)
                    if what == 'elapsed':
                        rep.check('elapsed', f'{fn.qual}: {name}', abs(k - 1) < 1e-9, f'the time that has passed counts {k:g} times', where)
                except Unknown:
                    pass
    rep.floor(f'comparisons with {", ".join(only)}', n, 1)
