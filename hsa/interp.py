"""
A path-sensitive abstract interpreter over the syntax tree of the package.

It never runs the analysed program: it walks function bodies and propagates *abstract values* (constants, enum
members, heap references, symbolic terms naming where a value came from) along every control-flow path, following
calls into the repository's own functions, and reports *events* (calls into the outside world, attribute writes,
branch conditions, exceptions) to the rule that asked. Conditions that the abstract values do not decide fork the path.
Nothing is handed to a solver; the only reasoning about conditions is identity of terms and nullness/truth facts.
"""

from __future__ import annotations

import ast
import re
import shlex
import string
from typing import Any, Callable, Dict, List, Optional, Tuple

from .model import Program, Class, Func, Module, AnalysisBroken, mangle, exc_bases

# -- values ----------------------------------------------------------------------------------------------------------


def C(v) -> tuple:
    return ('c', type(v).__name__, v)


NONE, TRUE, FALSE = C(None), C(True), C(False)


def S(term: tuple, typ: Optional[str] = None) -> tuple:
    return ('s', term, typ)


def is_const(v) -> bool:
    return v[0] == 'c'


def cval(v):
    return v[2]


def item(tracked: bool, form: str = 'task') -> tuple:
    return ('i', tracked, form)


def size(v, cap: int = 4000) -> int:
    n = 0
    stack = [v]
    while stack:
        x = stack.pop()
        n += 1
        if n > cap:
            return n
        if isinstance(x, tuple):
            stack.extend(x)
    return n


def mentions(v, pred) -> bool:
    """True if any sub-term of `v` satisfies `pred`."""
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if pred(x):
                return True
            stack.extend(x)
    return False


def show(v, depth: int = 0) -> str:
    """Readable form of a value for reports."""
    if not isinstance(v, tuple) or not v:
        return str(v)
    tag = v[0]
    if depth > 8:
        return '…'
    d = depth + 1
    if tag == 'c':
        return repr(v[2])
    if tag == 'm':
        return f'{v[1].split(".")[-1]}.{v[2]}'
    if tag == 's':
        return show_term(v[1], d)
    if tag in ('o', 'l', 'd'):
        return f'<{v[1]}>'
    if tag == 't':
        return '(' + ', '.join(show(x, d) for x in v[1]) + ')'
    if tag == 'f':
        return f'{v[1]}'.split('hypershell.')[-1]
    if tag in ('k', 'x', 'mod'):
        return v[1].split('hypershell.')[-1]
    if tag == 'i':
        return f'<{"tracked " if v[1] else ""}{v[2]}>'
    if tag == 'j':
        return "f'" + ''.join(p if isinstance(p, str) else '{' + show(p, d) + '}' for p in v[1]) + "'"
    if tag == 'p':
        return f'partial({show(v[1], d)})'
    return str(tag)


def show_term(t, depth: int = 0) -> str:
    if not isinstance(t, tuple) or not t:
        return str(t)
    d = depth + 1
    if depth > 8:
        return '…'
    k = t[0]
    if k == 'attr':
        return f'{show(t[1], d)}.{t[2]}'
    if k == 'call':
        args = [show(a, d) for a in t[2]] + [f'{n or "**"}={show(a, d)}' for n, a in t[3]]
        return f'{show(t[1], d)}({", ".join(args)})'
    if k == 'param':
        return f'{t[-1]}'
    if k == 'global':
        return t[1].split('.')[-1]
    if k == 'bin':
        return f'({show(t[2], d)} {t[1]} {show(t[3], d)})'
    if k == 'sub':
        return f'{show(t[1], d)}[{show(t[2], d)}]'
    if k == 'exc':
        return f'<{t[1]}>'
    return f'<{":".join(str(x) if not isinstance(x, tuple) else show(x, d) for x in t)}>'


# -- heap and state --------------------------------------------------------------------------------------------------


class HObj:
    """An immutable heap cell."""

    __slots__ = ('kind', 'cls', 'attrs', 'opaque', '_key')

    def __init__(self, kind: str, cls: Optional[str], attrs, opaque: bool = False):
        self.kind = kind          # 'obj' | 'list' | 'dict'
        self.cls = cls
        self.attrs = attrs        # dict for obj; tuple of entries for list/dict
        self.opaque = opaque
        self._key = None

    @property
    def key(self):
        if self._key is None:
            a = tuple(sorted(self.attrs.items(), key=lambda kv: kv[0])) if isinstance(self.attrs, dict) else self.attrs
            self._key = (self.kind, self.cls, self.opaque, a)
        return self._key

    def __eq__(self, other):
        return isinstance(other, HObj) and self.key == other.key

    def __hash__(self):
        return hash(self.key)


class State:
    """Abstract state of one path; copied whenever the path forks."""

    __slots__ = ('env', 'heap', 'facts', 'mon', 'trace')

    def __init__(self, env=None, heap=None, facts=None, mon=None, trace=None):
        self.env: Dict[str, tuple] = env if env is not None else {}
        self.heap: Dict[str, HObj] = heap if heap is not None else {}
        self.facts: Dict[tuple, bool] = facts if facts is not None else {}
        self.mon = mon
        self.trace = trace

    def copy(self) -> 'State':
        return State(dict(self.env), dict(self.heap), dict(self.facts), self.mon, self.trace)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()), frozenset(self.facts.items()), self.mon)

    def note(self, text: str):
        self.trace = (self.trace, text)

    def path(self) -> List[str]:
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        return list(reversed(out))


class Event:
    __slots__ = ('kind', 'name', 'recv', 'args', 'kwargs', 'node', 'fn', 'value', 'extra')

    def __init__(self, kind, name=None, recv=None, args=(), kwargs=(), node=None, fn=None, value=None, extra=None):
        self.kind, self.name, self.recv, self.args, self.kwargs = kind, name, recv, tuple(args), tuple(kwargs)
        self.node, self.fn, self.value, self.extra = node, fn, value, extra

    def kw(self, name, default=None):
        for k, v in self.kwargs:
            if k == name:
                return v
        return default

    def arg(self, pos, name=None, default=None):
        if pos is not None and pos < len(self.args):
            return self.args[pos]
        if name is not None:
            return self.kw(name, default)
        return default

    @property
    def line(self):
        return getattr(self.node, 'lineno', 0)

    @property
    def where(self):
        rel = self.fn.module.relpath if self.fn is not None else '?'
        return f'{rel}:{self.line}'

    @property
    def func(self):
        return self.fn.qual.split('hypershell.')[-1] if self.fn is not None else '?'


class Budget(AnalysisBroken):
    """Path budget exhausted."""


BENIGN_BUILTINS = {
    'len', 'str', 'repr', 'isinstance', 'issubclass', 'bool', 'type', 'id', 'hasattr', 'callable', 'print', 'list', 'tuple',
    'dict', 'set', 'frozenset', 'sorted', 'reversed', 'enumerate', 'zip', 'range', 'map', 'filter', 'iter', 'max', 'min',
    'sum', 'abs', 'round', 'any', 'all', 'vars', 'super', 'hash', 'object', 'format', 'divmod',
}
BENIGN_METHODS = {
    'append', 'extend', 'clear', 'insert', 'copy', 'items', 'keys', 'values', 'get', 'setdefault', 'update', 'strip', 'lower',
    'upper', 'split', 'join', 'format', 'startswith', 'endswith', 'total_seconds', 'astimezone', 'isoformat', 'task_done',
    'encode', 'replace', 'rstrip', 'lstrip', 'poll', 'acquire', 'release', 'add', 'discard', 'count', 'index', 'splitlines',
    'desc', 'is_', 'isnot', 'is_not', 'close', 'flush',
}
BENIGN_EXTERNALS = {
    'datetime.datetime.now', 'datetime.timedelta', 'time.sleep', 'time.time', 'time.monotonic', 'os.path.join', 'os.getpid',
    'os.getcwd', 'functools.partial', 'random.uniform', 'random.random', 'datetime.datetime.utcnow', 'os.environ.get',
    'os.path.basename', 'os.path.dirname', 'os.path.expanduser', 'os.path.exists', 'contextlib.suppress', 'contextlib.nullcontext',
    'contextlib.ExitStack', 'contextlib.closing', 'itertools.chain', 'itertools.count', 'itertools.repeat', 'collections.deque',
    'collections.OrderedDict', 'collections.defaultdict', 'operator.attrgetter', 'operator.itemgetter', 'operator.methodcaller',
    'uuid.uuid4', 'threading.Lock', 'threading.Event', 'threading.RLock', 'types.SimpleNamespace',
}
# exception types only the named operations raise (an arbitrary external call is not assumed to raise them)
ATTRIBUTABLE = {
    'queue.Empty', 'queue.Full', '_queue.Empty', 'builtins.StopIteration', 'subprocess.TimeoutExpired',
    'builtins.IndexError', 'builtins.KeyError', 'builtins.AttributeError', 'builtins.NotImplementedError',
    'builtins.KeyboardInterrupt', 'builtins.SystemExit', 'builtins.GeneratorExit',
}
ALWAYS_TRUE = {'datetime.datetime', 'subprocess.Popen', 'queue.Queue', 'uuid.UUID', 'datetime.date'}
PASS_BENIGN = {'builtins.str', 'builtins.repr', 'builtins.len', 'builtins.isinstance', 'builtins.print', 'builtins.type',
               'builtins.bool', 'builtins.id', 'builtins.hasattr', 'builtins.callable', 'builtins.sum', 'builtins.hash'}

LIST_TYPES = {'typing.List', 'builtins.list', 'typing.Sequence', 'list'}
DICT_TYPES = {'typing.Dict', 'builtins.dict', 'typing.Mapping', 'dict'}


class Interp:
    """Abstract interpreter; a rule subclasses it or passes hooks."""

    max_depth = 30
    max_recursion = 2
    exact_lists = False         # whether equal values in a list are kept apart
    enter_objects = False       # whether objects of the package in a with statement run their own __enter__ and __exit__
    loop_limit = 2
    max_states = 6000
    fresh_loop_values = True

    def __init__(self, prog: Program, on_event: Callable = None, summaries: Dict[str, Callable] = None,
                 raises: Callable = None):
        self.prog = prog
        self.on_event = on_event
        self.summaries = summaries or {}
        self.raise_sinks: List[list] = [[]]
        self.stack: List[Func] = []
        self.handlers: List[Any] = []      # exceptions currently handled (for bare raise)
        self.lambdas: Dict[str, tuple] = {}
        self.try_depth = 0
        self.raises_hook = raises
        self.functions_seen = set()
        self.external_calls = 0
        self.paths = 0
        self.volatile: Dict[Tuple[str, str], List[tuple]] = {}
        self.custody = False
        self.known: Dict[tuple, tuple] = {}      # values of attributes of external objects (configuration settings)
        # module-level values, shared between interpreters that see the same functions
        self._globals = prog.__dict__.setdefault('_globals', {}).setdefault(frozenset(self.summaries), {})
        self._evaluating = set()
        self.steps = 0
        self.step_limit = 3_000_000

    # -- infrastructure ----------------------------------------------------------------------------------------------

    @property
    def fn(self) -> Optional[Func]:
        return self.stack[-1] if self.stack else None

    @property
    def module(self) -> Module:
        return self.stack[-1].module

    def emit(self, st: State, kind: str, **kw):
        if self.on_event is not None:
            kw.setdefault('fn', self.fn)
            self.on_event(self, Event(kind, **kw), st)

    def alloc(self, st: State, obj: HObj, node, hint: str = '') -> str:
        rel = self.fn.module.name.split('.', 1)[-1] if self.fn else ''
        base = f'{hint or obj.kind}@{rel}:{getattr(node, "lineno", 0)}:{getattr(node, "col_offset", 0)}'
        n = 0
        ref = base
        while ref in st.heap:
            n += 1
            ref = f'{base}#{n}'
        st.heap[ref] = obj
        return ref

    def new_list(self, st, entries, node) -> tuple:
        return ('l', self.alloc(st, HObj('list', None, tuple(entries)), node))

    def new_dict(self, st, entries, node) -> tuple:
        return ('d', self.alloc(st, HObj('dict', None, tuple(entries)), node))

    def dedupe(self, pairs):
        """Drop (value, state) pairs that are identical."""
        if len(pairs) < 2:
            return pairs
        seen, out = set(), []
        for v, st in pairs:
            k = (v, st.key())
            if k not in seen:
                seen.add(k)
                out.append((v, st))
        if len(out) > self.max_states:
            raise Budget(f'more than {self.max_states} paths in {self.fn.qual if self.fn else "?"}')
        return out

    def dedupe_outs(self, outs):
        if len(outs) < 2:
            return outs
        seen, res = set(), []
        for kind, v, st in outs:
            k = (kind, v, st.key())
            if k not in seen:
                seen.add(k)
                res.append((kind, v, st))
        if len(res) > self.max_states:
            raise Budget(f'more than {self.max_states} paths in {self.fn.qual if self.fn else "?"}')
        return res

    def do_raise(self, exc: str, st: State, node, value=None):
        self.raise_sinks[-1].append((exc, value or S(('exc', exc)), st))

    # -- helpers on values -------------------------------------------------------------------------------------------

    def entries(self, v, st: State):
        """List entries of a value that can be iterated, or None if unknown."""
        if v[0] == 'l':
            return st.heap[v[1]].attrs
        if v[0] == 't':
            return tuple(('1', x) for x in v[1])
        if v[0] == 'd':
            return tuple(('1', k) if k is not None else ('*', S(('key', x))) for k, x in st.heap[v[1]].attrs)
        if is_const(v) and isinstance(cval(v), (tuple, frozenset)):
            return tuple(('1', C(x)) for x in cval(v))
        if is_const(v) and isinstance(cval(v), str):
            return tuple(('1', C(x)) for x in cval(v)) if len(cval(v)) <= 130 else (('+', S(('elem', v), 'builtins.str')),)
        if v[0] == 'k' and v[1] in self.prog.classes and self.prog.classes[v[1]].is_enum:
            return tuple(('1', ('m', v[1], n)) for n in self.enum_names(v[1]))
        if v[0] == 'o' and '$list' in st.heap[v[1]].attrs:
            return self.entries(st.heap[v[1]].attrs['$list'], st)
        return None

    def enum_names(self, qual: str) -> List[str]:
        cls = self.prog.classes[qual]
        return [n for n in dict.fromkeys(cls.order) if n in cls.assigns and not n.startswith('_')]

    def snap(self, v, st: State, depth: int = 0) -> tuple:
        """Replace references by a snapshot of their contents (for terms and reports)."""
        if not isinstance(v, tuple) or depth > 12:
            return v
        tag = v[0] if v else None
        if tag == 'l' and len(v) == 2 and isinstance(v[1], str) and v[1] in st.heap:
            return ('lst', tuple((m, self.snap(x, st, depth + 1)) for m, x in st.heap[v[1]].attrs))
        if tag == 'd' and len(v) == 2 and isinstance(v[1], str) and v[1] in st.heap:
            return ('dct', tuple((self.snap(k, st, depth + 1) if k is not None else None, self.snap(x, st, depth + 1))
                                 for k, x in st.heap[v[1]].attrs))
        if tag == 't':
            return ('t', tuple(self.snap(x, st, depth + 1) for x in v[1]))
        if tag == 's' and size(v, 60) < 60:
            return v
        return v

    def holds(self, v, st: State, pred, seen=None, depth: int = 0) -> bool:
        """True if value `v` (following heap references) contains a custody item satisfying `pred`."""
        if not isinstance(v, tuple) or not v or depth > 30:
            return False
        seen = seen if seen is not None else set()
        tag = v[0]
        if tag == 'i':
            return pred(v)
        if tag in ('l', 'd', 'o') and len(v) == 2 and isinstance(v[1], str):
            if v[1] in seen or v[1] not in st.heap:
                return False
            seen.add(v[1])
            obj = st.heap[v[1]]
            if obj.kind == 'obj':
                return any(self.holds(x, st, pred, seen, depth + 1) for x in obj.attrs.values())
            return any(self.holds(x, st, pred, seen, depth + 1) or (isinstance(k, tuple) and
                       self.holds(k, st, pred, seen, depth + 1)) for k, x in obj.attrs)
        if tag == 't':
            return any(self.holds(x, st, pred, seen, depth + 1) for x in v[1])
        if tag == 'p':
            return any(self.holds(x, st, pred, seen, depth + 1) for x in v[2])
        if tag == 's' and v[1] and v[1][0] in ('elem', 'iter', 'dictitems'):
            return self.holds(v[1][1], st, pred, seen, depth + 1)
        return False

    # -- truth -------------------------------------------------------------------------------------------------------

    def truth(self, v, st: State) -> Optional[bool]:
        tag = v[0]
        if tag == 'c':
            return bool(cval(v))
        if tag in ('m', 'f', 'k', 'x', 'mod', 'p', 'super'):
            return True
        if tag == 'i':
            return True
        if tag == 't':
            return len(v[1]) > 0
        if tag == 'j':
            if any(isinstance(p, str) and p for p in v[1]):
                return True
            return st.facts.get(('truth', v))
        if tag in ('l', 'd'):
            ent = st.heap[v[1]].attrs
            if not ent:
                return False
            if tag == 'l':
                if any(m in ('1', '+') for m, _ in ent):
                    return True
                return None
            if any(k is not None for k, _ in ent):
                return True
            return None
        if tag == 'o':
            cls = self.prog.classes.get(st.heap[v[1]].cls)
            if cls is not None and (cls.method('__bool__') or cls.method('__len__') or
                                    any(b.split('.')[-1] in ('list', 'dict', 'set') for b in cls.all_ext_bases())):
                return st.facts.get(('truth', v))
            if cls is not None and st.facts.get(('isnone', v)) is True:
                return False
            return True
        if tag == 's':
            if v[1][0] == 'exc':
                return True
            got = st.facts.get(('truth', v))
            if got is not None:
                return got
            if st.facts.get(('isnone', v)) is True:
                return False
            if v[1][0] == 'lenb':
                if v[1][2] > 0:
                    return True
                if v[1][3] == 0:
                    return False
            if v[2] in ALWAYS_TRUE and v[1][0] in ('fresh', 'call'):
                return True
            if v[1][0] == 'call' and v[1][1] == ('x', 'builtins.open'):
                return True
            return None
        return None

    @staticmethod
    def int_bounds(v):
        if v[0] == 'c' and isinstance(v[2], (int, float)) and not isinstance(v[2], bool):
            return v[2], v[2]
        if v[0] == 's' and v[1][0] == 'lenb':
            return v[1][2], v[1][3]
        return None

    def assume(self, st: State, key: tuple, val: bool):
        """Record a fact; only about terms whose value cannot change along the path."""
        if mentions(key, lambda t: t[0] in ('vol', 'fresh', 'lenb') if t and isinstance(t[0], str) else False):
            return
        st.facts[key] = val
        if key[0] == 'truth' and val:
            st.facts[('isnone', key[1])] = False
        if key[0] == 'isnone' and val:
            st.facts[('truth', key[1])] = False

    def branch_value(self, v, st: State, node) -> List[Tuple[bool, State]]:
        """Fork on the truth of a value."""
        t = self.truth(v, st)
        if t is not None:
            self.emit(st, 'cond', name='truth', args=(v,), value=t, node=node, extra='known')
            return [(t, st)]
        other = st.copy()
        out = []
        for val, s in ((True, st), (False, other)):
            if v[0] == 'l':
                ent = s.heap[v[1]].attrs
                s.heap[v[1]] = HObj('list', None, tuple(('+', x) for _, x in ent[:1]) + ent[1:] if val else ())
            elif v[0] == 'd':
                if not val:
                    s.heap[v[1]] = HObj('dict', None, ())
            else:
                self.assume(s, ('truth', v), val)
            self.emit(s, 'cond', name='truth', args=(v,), value=val, node=node)
            out.append((val, s))
        return out

    def branch_fact(self, key: tuple, st: State, node, name: str, args) -> List[Tuple[bool, State]]:
        got = st.facts.get(key)
        if got is not None:
            self.emit(st, 'cond', name=name, args=args, value=got, node=node, extra='known')
            return [(got, st)]
        other = st.copy()
        out = []
        for val, s in ((True, st), (False, other)):
            self.assume(s, key, val)
            self.emit(s, 'cond', name=name, args=args, value=val, node=node)
            out.append((val, s))
        return out

    def constants(self, v, st: State):
        """The elements of a list or tuple of constants."""
        ent = self.entries(v, st)
        if ent is None or any(m != '1' or x[0] != 'c' for m, x in ent):
            return None
        return tuple(x for _, x in ent)

    def compare(self, op, a, b, st: State, node) -> List[Tuple[bool, State]]:
        """Fork on a comparison; conditions are normalised so that inverted forms give the same term."""
        opn = type(op).__name__
        if opn in ('IsNot', 'NotEq', 'NotIn'):
            base = {'IsNot': ast.Is(), 'NotEq': ast.Eq(), 'NotIn': ast.In()}[opn]
            return [(not r, s) for r, s in self.compare(base, a, b, st, node)]
        if opn in ('Is', 'Eq'):
            if a[0] == 'c' and b[0] != 'c':
                a, b = b, a
            if a[0] == 'm' and b[0] != 'm':
                a, b = b, a
            known = None
            if a[0] == 'c' and b[0] == 'c':
                try:
                    known = (cval(a) is cval(b)) if cval(b) is None or isinstance(cval(b), bool) and opn == 'Is' \
                        else (cval(a) == cval(b))
                except Exception:
                    known = None
            elif a[0] == 'm' and b[0] == 'm':
                known = a == b
            elif opn == 'Eq' and a[0] in ('l', 't') and b[0] == a[0] and self.constants(a, st) is not None:
                if self.constants(b, st) is not None:
                    known = self.constants(a, st) == self.constants(b, st)
            elif b == NONE:
                if a[0] in ('m', 'l', 'd', 't', 'f', 'k', 'x', 'i', 'j', 'p', 'mod'):
                    known = False
                elif a[0] == 'o' and st.facts.get(('isnone', a)) is None and not st.heap[a[1]].attrs.get('$optional'):
                    known = False
                elif a[0] == 's' and (a[2] in ALWAYS_TRUE and a[1][0] in ('fresh', 'call') or a[1][0] in ('lenb', 'bin')):
                    known = False
                else:
                    return self.branch_fact(('isnone', a), st, node, 'isnone', (a,))
            elif b == TRUE and opn == 'Is' or b == FALSE and opn == 'Is':
                if a[0] in ('m', 'l', 'd', 't', 'f', 'k', 'x', 'i', 'o', 'j'):
                    known = False
                elif a[0] == 's' and a[2] == 'builtins.bool':
                    want = cval(b)
                    return [(r == want, s) for r, s in self.branch_value(a, st, node)]
            elif a == b and a[0] in ('k', 'x', 'f', 'mod', 'o', 'l', 'd'):
                known = True
            elif opn == 'Is' and (a[0] == 's' and a[1][0] == 'object' or b[0] == 's' and b[1][0] == 'object'):
                known = a == b
            elif a[0] in ('k', 'x', 'f') and b[0] in ('k', 'x', 'f') and a != b and opn == 'Is':
                known = False
            elif a[0] in ('m',) and b[0] == 'c' or a[0] == 'c' and b[0] == 'm':
                known = False
            elif a == b and a[0] == 's' and not mentions(a, lambda t: t[:1] == ('call',) or t[:1] in (('vol',), ('fresh',))):
                known = True
            ba, bb = self.int_bounds(a), self.int_bounds(b)
            if known is None and ba is not None and bb is not None:
                if (ba[1] is not None and ba[1] < bb[0]) or (bb[1] is not None and bb[1] < ba[0]):
                    known = False
            if known is not None:
                self.emit(st, 'cond', name='eq', args=(a, b), value=known, node=node, extra='known')
                return [(known, st)]
            if a[0] == 's' and b[0] in ('c', 'm', 'x'):
                # exclusivity: an equality already known with another constant refutes this one
                for key, val in st.facts.items():
                    if key[0] == 'eq' and key[1] == a and val and key[2] != b and key[2][0] in ('c', 'm', 'x'):
                        self.emit(st, 'cond', name='eq', args=(a, b), value=False, node=node, extra='known')
                        return [(False, st)]
            if a[0] == 's' and b == C(0) and st.facts.get(('truth', a)) is not None and a[2] == 'builtins.int':
                known = not st.facts[('truth', a)]
                return [(known, st)]
            x, y = (a, b) if repr(a) <= repr(b) or b[0] in ('c', 'm', 'x') else (b, a)
            return self.branch_fact(('eq', x, y), st, node, 'eq', (x, y))
        if opn in ('Lt', 'Gt', 'LtE', 'GtE'):
            if a[0] == 'c' and b[0] == 'c':
                try:
                    x, y = cval(a), cval(b)
                    known = {'Lt': x < y, 'Gt': x > y, 'LtE': x <= y, 'GtE': x >= y}[opn]
                    self._emit_lt(opn, a, b, known, st, node)
                    return [(known, st)]
                except Exception:
                    pass
            ba, bb = self.int_bounds(a), self.int_bounds(b)
            if ba is not None and bb is not None:
                x, y = (ba, bb) if opn in ('Lt', 'GtE') else (bb, ba)      # decides x < y
                less = None
                if x[1] is not None and x[1] < y[0]:
                    less = True
                elif y[1] is not None and x[0] >= y[1]:
                    less = False
                if less is not None:
                    known = less if opn in ('Lt', 'Gt') else not less
                    self._emit_lt(opn, a, b, known, st, node)
                    return [(known, st)]
            if opn == 'Lt':
                return self.branch_fact(('lt', a, b), st, node, 'lt', (a, b))
            if opn == 'Gt':
                return self.branch_fact(('lt', b, a), st, node, 'lt', (b, a))
            if opn == 'GtE':
                return [(not r, s) for r, s in self.branch_fact(('lt', a, b), st, node, 'lt', (a, b))]
            return [(not r, s) for r, s in self.branch_fact(('lt', b, a), st, node, 'lt', (b, a))]
        if opn == 'In':
            ent = self.entries(b, st)
            if is_const(b) and isinstance(cval(b), str):
                if is_const(a) and isinstance(cval(a), str):
                    known = cval(a) in cval(b)
                    self.emit(st, 'cond', name='in', args=(a, b), value=known, node=node, extra='known')
                    return [(known, st)]
                return self.branch_fact(('in', a, b), st, node, 'in', (a, b))
            if ent is not None and all(m == '1' for m, _ in ent) and (b[0] != 'd') and len(ent) <= 16 \
                    and all(x[0] in ('c', 'm', 'x') for _, x in ent):
                return self._in_any(a, [x for _, x in ent], st, node)
            if b[0] == 'd':
                keys = [k for k, _ in st.heap[b[1]].attrs]
                if a in keys:
                    return [(True, st)]
                if None not in keys and is_const(a) and all(k is not None and is_const(k) for k in keys):
                    return [(False, st)]
            if ent is not None and not ent:
                return [(False, st)]
            sb = self.snap(b, st)
            if b[0] in ('l', 'd', 'o'):      # mutable: do not remember
                other = st.copy()
                out = []
                for val, s in ((True, st), (False, other)):
                    self.emit(s, 'cond', name='in', args=(a, b), value=val, node=node)
                    out.append((val, s))
                return out
            return self.branch_fact(('in', a, sb), st, node, 'in', (a, sb))
        other = st.copy()
        return [(True, st), (False, other)]

    def _emit_lt(self, opn, a, b, known, st, node):
        args = (a, b) if opn in ('Lt', 'GtE') else (b, a)
        self.emit(st, 'cond', name='lt', args=args, value=known if opn in ('Lt', 'Gt') else not known, node=node, extra='known')

    def _in_any(self, a, options, st, node):
        if not options:
            return [(False, st)]
        out = []
        for r, s in self.compare(ast.Eq(), a, options[0], st, node):
            if r:
                out.append((True, s))
            else:
                out.extend(self._in_any(a, options[1:], s, node))
        return out

    def branch(self, node, st: State) -> List[Tuple[bool, State]]:
        """Evaluate `node` as a condition."""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(not r, s) for r, s in self.branch(node.operand, st)]
        if isinstance(node, ast.BoolOp):
            pending = [st]
            done = []
            stop_on = isinstance(node.op, ast.Or)
            for sub in node.values:
                nxt = []
                for s in pending:
                    for r, s2 in self.branch(sub, s):
                        if r == stop_on:
                            done.append((stop_on, s2))
                        else:
                            nxt.append(s2)
                pending = nxt
            done.extend((not stop_on, s) for s in pending)
            return done
        if isinstance(node, ast.Compare):
            if len(node.ops) == 1:
                out = []
                for (a, b), s in self.ev_many([node.left, node.comparators[0]], st):
                    out.extend(self.compare(node.ops[0], a, b, s, node))
                return out
            out = []
            for vals, s in self.ev_many([node.left, *node.comparators], st):
                pending = [s]
                for i, op in enumerate(node.ops):
                    nxt = []
                    for p in pending:
                        for r, p2 in self.compare(op, vals[i], vals[i + 1], p, node):
                            if r:
                                nxt.append(p2)
                            else:
                                out.append((False, p2))
                    pending = nxt
                out.extend((True, p) for p in pending)
            return out
        if isinstance(node, ast.NamedExpr):
            out = []
            for v, s in self.ev(node, st):
                out.extend(self.branch_value(v, s, node))
            return out
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'bool' and len(node.args) == 1 \
                and not node.keywords and node.func.id not in st.env:
            return self.branch(node.args[0], st)
        if isinstance(node, ast.IfExp):
            out = []
            for r, s in self.branch(node.test, st):
                out.extend(self.branch(node.body if r else node.orelse, s))
            return out
        out = []
        for v, s in self.ev(node, st):
            out.extend(self.branch_value(v, s, node))
        return out

    # -- expressions -------------------------------------------------------------------------------------------------

    def ev_many(self, nodes, st: State) -> List[Tuple[list, State]]:
        results = [([], st)]
        for node in nodes:
            nxt = []
            for vals, s in results:
                got = self.ev(node, s)
                for v, s2 in got:
                    nxt.append((vals + [v], s2))
            results = nxt
        return results

    def ev(self, node, st: State) -> List[Tuple[tuple, State]]:
        self.steps += 1
        if self.steps > self.step_limit:
            raise Budget('step budget exhausted')
        meth = getattr(self, 'ev_' + type(node).__name__, None)
        if meth is None:
            return [(S(('?', type(node).__name__, getattr(node, 'lineno', 0))), st)]
        return meth(node, st)

    def ev_Constant(self, node, st):
        if isinstance(node.value, (type(None), bool, int, float, str, bytes)):
            return [(C(node.value), st)]
        return [(S(('const', str(node.value))), st)]

    def ev_Name(self, node, st):
        return [(self.lookup(node.id, st), st)]

    def lookup(self, name: str, st: State) -> tuple:
        if name in st.env:
            return st.env[name]
        fn = self.fn
        if fn is not None:
            return self.global_symbol(name, fn.module, st)
        return S(('name', name))

    def global_symbol(self, name: str, module: Module, st: State) -> tuple:
        got = self.prog.resolve_name(name, module)
        return self.from_resolved(got, st, name)

    def from_resolved(self, got, st: State, name: str = '?') -> tuple:
        if isinstance(got, Func):
            return ('f', got.qual, None)
        if isinstance(got, Class):
            return ('k', got.qual)
        if isinstance(got, Module):
            return ('mod', got.name)
        if isinstance(got, str):
            if got.startswith('builtins.') and got.split('.')[-1] in ('True', 'False', 'None'):
                return {'True': TRUE, 'False': FALSE, 'None': NONE}[got.split('.')[-1]]
            return self.known.get(('x', got), ('x', got))
        if isinstance(got, tuple) and got[0] == 'global':
            return self.global_value(got[1], got[2], st)
        if isinstance(got, tuple) and got[0] == 'classattr':
            return S(('attr', ('k', got[1].qual), got[2]))
        return S(('name', name))

    def global_value(self, module: Module, name: str, st: State) -> tuple:
        qual = f'{module.name}.{name}'
        key = (module.name, name)
        if name in module.mutated_globals:
            return S(('vol', qual))
        if key in self._globals:
            return self._globals[key]
        nodes = module.globals.get(name) or []
        typ, _ = self.prog.type_of_annotation(module.global_annotations.get(name), module)
        fallback = S(('global', qual), typ.qual if isinstance(typ, Class) else typ if isinstance(typ, str) else None)
        if fallback in self.known:
            return self.known[fallback]
        if len(nodes) > 1 and key not in self._evaluating:
            nodes = self._chosen(module, name, nodes, key)
        if len(nodes) != 1 or nodes[0] is None or key in self._evaluating:
            return fallback
        node = nodes[0]
        if isinstance(node, (ast.List, ast.Dict, ast.ListComp, ast.DictComp)) or \
                isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('list', 'dict', 'sorted'):
            # evaluated where it is used: contents known, identity by site
            self._evaluating.add(key)
            try:
                sub = State(heap=st.heap)
                ref = f'global:{qual}'
                kind = 'd' if isinstance(node, (ast.Dict, ast.DictComp)) else 'l'
                if ref in st.heap:
                    return (kind, ref)
                self.stack.append(self._stub(module))
                hook, self.on_event = self.on_event, None
                try:
                    res = self.ev(node, sub)
                finally:
                    self.on_event = hook
                    self.stack.pop()
                if len(res) == 1 and res[0][0][0] in ('l', 'd'):
                    v, s2 = res[0]
                    st.heap.update(s2.heap)
                    st.heap[ref] = s2.heap[v[1]]
                    return (kind, ref)
                return fallback
            finally:
                self._evaluating.discard(key)
        self._evaluating.add(key)
        try:
            sub = State()
            self.stack.append(self._stub(module))
            hook, self.on_event = self.on_event, None
            depth, self.try_depth = self.try_depth, 0
            self.raise_sinks.append([])
            try:
                res = self.ev(node, sub)
            except Budget:
                res = []
            finally:
                self.on_event = hook
                self.try_depth = depth
                self.raise_sinks.pop()
                self.stack.pop()
            value = fallback
            if len(res) == 1:
                v = res[0][0]
                if v[0] in ('c', 'm', 'k', 'x', 'f', 'j') or (v[0] == 's' and v[1][0] in ('attr', 'sub', 'param', 'global')
                                                             and size(v) <= 40) or \
                        (v[0] == 't' and all(x[0] in ('c', 'm', 'x', 'k') for x in v[1])) or \
                        (v[0] == 's' and v[1][0] == 'bin' and size(v) <= 60) or \
                        (v[0] == 's' and v[1][0] == 'call' and v[1][1] == ('x', 're.compile')):
                    value = v
                elif v[0] == 's' and v[2] == 'builtins.str' and fallback[2] is None:
                    value = ('s', fallback[1], v[2])
            self._globals[key] = value
            return value
        finally:
            self._evaluating.discard(key)

    def _chosen(self, module: Module, name: str, nodes: list, key: tuple) -> list:
        """The assignments of a name left by the conditions around them at the level of the module."""
        def left(body):
            out = []
            for stmt in body:
                if isinstance(stmt, ast.If):
                    self._evaluating.add(key)
                    self.stack.append(self._stub(module))
                    hook, self.on_event = self.on_event, None
                    self.raise_sinks.append([])
                    try:
                        res = self.ev(stmt.test, State())
                        known = self.truth(res[0][0], res[0][1]) if len(res) == 1 else None
                    except Budget:
                        known = None
                    finally:
                        self._evaluating.discard(key)
                        self.on_event = hook
                        self.raise_sinks.pop()
                        self.stack.pop()
                    if known is None:
                        return nodes
                    got = left(stmt.body if known else stmt.orelse)
                    if got is nodes:
                        return nodes
                    out += got
                elif isinstance(stmt, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in stmt.targets):
                    out.append(stmt.value)
                elif isinstance(stmt, ast.AnnAssign) and isinstance(stmt.target, ast.Name) and stmt.target.id == name:
                    out.append(stmt.value)
                elif any(n in nodes for n in ast.walk(stmt)):
                    return nodes
            return out
        relevant = [stmt for stmt in module.tree.body if any(n in nodes for n in ast.walk(stmt))]
        return left(relevant)

    def _stub(self, module: Module, cls: Class = None) -> Func:
        node = ast.parse('def _(): pass').body[0]
        fn = Func(f'{module.name}.<module>', node, module, cls)
        return fn

    def ev_Attribute(self, node, st):
        out = []
        for v, s in self.ev(node.value, st):
            out.extend(self.get_attr(v, mangle(node.attr, self.fn.cls if self.fn else None), s, node))
        return out

    def typed_symbol(self, term, annotation, module, cls, st: State, node, hint: str = 'sym') -> tuple:
        typ, optional = self.prog.type_of_annotation(annotation, module, cls)
        if isinstance(typ, Class) and not typ.is_enum:
            attrs = {'$term': S(term)}
            if optional:
                attrs['$optional'] = TRUE
            ref = f'sym:{show_term(term)}'
            if ref not in st.heap:
                st.heap[ref] = HObj('obj', typ.qual, attrs, opaque=True)
            return ('o', ref)
        if isinstance(typ, Class):
            return S(term, typ.qual)
        return S(term, typ if isinstance(typ, str) else None)

    def get_attr(self, v, name: str, st: State, node) -> List[Tuple[tuple, State]]:
        tag = v[0]
        if tag == 'o':
            return self.obj_attr(v, name, st, node)
        if tag == 'k':
            return self.class_attr(v, name, st, node)
        if tag == 'mod':
            got = self.prog.resolve_name(name, self.prog.modules[v[1]])
            if got is None:
                got = f'{v[1]}.{name}'
            return [(self.from_resolved(got, st, name), st)]
        if tag == 'x':
            val = ('x', f'{v[1]}.{name}')
            got = self.known.get(val, val)
            return [(got if got[0] not in 'ld' or got[1] in st.heap else val, st)]
        if tag == 'm':
            if name == 'name':
                return [(C(v[2]), st)]
            cls = self.prog.classes[v[1]]
            if name == 'value':
                node_v = cls.assigns.get(v[2])
                if isinstance(node_v, ast.Constant):
                    return [(C(node_v.value), st)]
                return [(S(('enumvalue', v)), st)]
            fn = cls.method(name)
            if fn is not None:
                if fn.kind in ('property', 'cached_property'):
                    return self.call_func(fn, [v], [], st, node)
                return [(('f', fn.qual, None if fn.kind == 'static' else v), st)]
            return [(S(('attr', v, name)), st)]
        if tag == 'i':
            # attributes of a task in custody
            ref = '$tracked'
            if v[1] and ref in st.heap and name in st.heap[ref].attrs:
                return [(st.heap[ref].attrs[name], st)]
            if name == 'id':
                return [(('i', v[1], 'id'), st)]
            fn = self._task_class().method(name) if self._task_class() else None
            if fn is not None:
                return [(('f', fn.qual, v), st)]
            return [(S(('attr', v, name)), st)]
        if tag == 'super':
            cls = self.prog.classes[v[1]]
            if v[2][0] == 'o':
                real = self.prog.classes.get(st.heap[v[2][1]].cls, cls)
            elif v[2][0] == 'k':
                real = self.prog.classes.get(v[2][1], cls)
            else:
                real = cls
            mro = real.mro
            idx = next((i for i, c in enumerate(mro) if c is cls), -1)
            for c in mro[idx + 1:]:
                if name in c.methods:
                    fn = c.methods[name]
                    return [(('f', fn.qual, None if fn.kind == 'static' else v[2]), st)]
                if name in c.assigns:
                    return self.ev_in(c.module, c.assigns[name], st, c)
            ext = next((b for c in mro[max(idx, 0):] for b in c.ext_bases if b.split('.')[-1] not in ('ABC', 'Generic')), 'builtins.object')
            return [(S(('attr', S(('super', ext, v[2])), name)), st)]
        if tag == 's' and v[2] and v[2] in self.prog.classes:
            cls = self.prog.classes[v[2]]
            fn = cls.method(name)
            if fn is not None:
                if fn.kind in ('property', 'cached_property'):
                    return self.call_func(fn, [v], [], st, node)
                return [(('f', fn.qual, None if fn.kind == 'static' else v), st)]
        if tag == 'd' and v[1] in st.heap and not hasattr(dict, name):        # a namespace
            for k, x in reversed(st.heap[v[1]].attrs):
                if k == C(name):
                    return [(x, st)]
                if k is None:
                    break
        val = S(('attr', v, name))
        got = self.known.get(val, val)
        return [(got if got[0] not in 'ld' or got[1] in st.heap else val, st)]

    def _task_class(self) -> Optional[Class]:
        if not hasattr(self, '_taskcls'):
            try:
                self._taskcls = self.prog.cls('hypershell.data.model.Task')
            except AnalysisBroken:
                self._taskcls = None
        return self._taskcls

    def ev_in(self, module: Module, node, st: State, cls: Class = None):
        """Evaluate an expression in the context of another module (class body, default argument)."""
        env, st.env = st.env, {}
        self.stack.append(self._stub(module, cls))
        try:
            out = self.ev(node, st)
        finally:
            self.stack.pop()
        for _, s in out:
            s.env = dict(env)
        return out

    def run_statements(self, module: Module, nodes, st: State):
        """Execute statements of a module's top level; what they assign is left in the environment of the states returned."""
        self.stack.append(self._stub(module))
        self.raise_sinks.append([])
        states = [st]
        try:
            for node in nodes:
                nxt = []
                for s in states:
                    for name, v in s.env.items():
                        self._globals[(module.name, name)] = v
                    nxt += [s2 for kind, _, s2 in self.ex_block([node], s) if kind == 'next']
                states = nxt
        finally:
            raised = self.raise_sinks.pop()
            self.stack.pop()
        return states, raised

    def obj_attr(self, v, name, st, node):
        ref = v[1]
        obj = st.heap[ref]
        cls = self.prog.classes.get(obj.cls)
        vol = self.volatile_values(cls, name)
        if vol is not None:
            out = []
            current = obj.attrs.get(name)
            values = list(vol) + ([current] if current is not None and current not in vol else [])
            for i, val in enumerate(values):
                s = st if i == len(values) - 1 else st.copy()
                s.heap[ref] = HObj(obj.kind, obj.cls, {**obj.attrs, name: val}, obj.opaque)
                self.emit(s, 'volread', name=name, recv=v, value=val, node=node)
                out.append((val, s))
            return out
        if name in obj.attrs:
            return [(obj.attrs[name], st)]
        if cls is None:
            return [(S(('attr', v, name)), st)]
        owner, kind = cls.find(name)
        if '$spread' in obj.attrs and kind != 'method' and kind != 'class':
            spread = obj.attrs['$spread']
            if spread[0] == 'i':
                return [(spread, st)]
            return [(S(('sub', spread, C(name))), st)]
        if kind == 'method':
            fn = owner.methods[name]
            if fn.kind in ('property', 'cached_property'):
                out = []
                for val, s in self.call_func(fn, [v], [], st, node):
                    if fn.kind == 'cached_property' and ref in s.heap:
                        o = s.heap[ref]
                        s.heap[ref] = HObj(o.kind, o.cls, {**o.attrs, name: val}, o.opaque)
                    out.append((val, s))
                return out
            if fn.kind == 'static':
                return [(('f', fn.qual, None), st)]
            if fn.kind == 'class':
                return [(('f', fn.qual, ('k', cls.qual)), st)]
            return [(('f', fn.qual, v), st)]
        if kind == 'class':
            return [(('k', owner.classes[name].qual), st)]
        if kind == 'assign' and not obj.opaque:
            return self.ev_in(owner.module, owner.assigns[name], st, owner)
        if kind == 'assign' and obj.opaque and name not in owner.annotations and name not in self._self_assigned(cls):
            node_v = owner.assigns[name]
            if isinstance(node_v, ast.Lambda):
                return [(S(('attr', v, name)), st)]
            return self.ev_in(owner.module, node_v, st, owner)
        ann = None
        for c in cls.mro:
            if name in c.annotations:
                ann = (c.annotations[name], c)
                break
        if ann is not None:
            term = ('attr', v, name)
            val = self.typed_symbol(term, ann[0], ann[1].module, ann[1], st, node)
        else:
            if name == '__class__':
                return [(('k', cls.qual), st)]
            if name == '__dict__':
                return [(S(('attr', v, name)), st)]
            val = S(('attr', v, name))
            if not obj.opaque:
                self.emit(st, 'missing', name=name, recv=v, node=node)
        o = st.heap[ref]
        st.heap[ref] = HObj(o.kind, o.cls, {**o.attrs, name: val}, o.opaque)
        return [(val, st)]

    def _self_assigned(self, cls: Class) -> set:
        cache = self.__dict__.setdefault('_sa', {})
        if cls.qual not in cache:
            names = set()
            for c in cls.mro:
                for fn in c.methods.values():
                    for n in ast.walk(fn.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                            names.add(mangle(n.attr, c))
            cache[cls.qual] = names
        return cache[cls.qual]

    def volatile_values(self, cls: Optional[Class], name: str):
        if cls is None or not self.volatile:
            return None
        for c in cls.mro:
            if (c.qual, name) in self.volatile:
                return self.volatile[(c.qual, name)]
        return None

    def class_attr(self, v, name, st, node):
        cls = self.prog.classes.get(v[1])
        if cls is None:
            return [(S(('attr', v, name)), st)]
        if name == '__name__':
            return [(C(cls.name), st)]
        if name == '__doc__':
            return [(C(ast.get_docstring(cls.node) or ''), st)]
        owner, kind = cls.find(name)
        if kind == 'method':
            fn = owner.methods[name]
            if fn.kind == 'class':
                return [(('f', fn.qual, v), st)]
            return [(('f', fn.qual, None), st)]
        if kind == 'class':
            return [(('k', owner.classes[name].qual), st)]
        if kind == 'assign':
            if owner.is_enum and not name.startswith('_'):
                return [(('m', owner.qual, name), st)]
            node_v = owner.assigns[name]
            if isinstance(node_v, ast.Call) and 'mapped_column' in ast.unparse(node_v.func):
                return [(S(('attr', v, name)), st)]
            res = self.ev_in(owner.module, node_v, st, owner)
            return [(val if val[0] != 's' or val[1][0] != 'call' or val[1][1] == ('x', 're.compile') else S(('attr', v, name)), s)
                    for val, s in res]
        return [(S(('attr', v, name)), st)]

    def set_attr(self, v, name, val, st: State, node):
        if v[0] == 'o':
            o = st.heap[v[1]]
            st.heap[v[1]] = HObj(o.kind, o.cls, {**o.attrs, name: val}, o.opaque)
        elif v[0] == 'i' and v[1]:
            o = st.heap.get('$tracked') or HObj('obj', None, {})
            if self.custody and val[0] == 's':
                # keep only what kind of value was assigned (finite)
                val = S(('assigned', name, self.digest_value(val)), val[2])
            st.heap['$tracked'] = HObj('obj', None, {**o.attrs, name: val})
        self.emit(st, 'setattr', name=name, recv=v, value=val, node=node)

    def digest_value(self, val) -> str:
        return show(val)[:80]

    def ev_NamedExpr(self, node, st):
        out = []
        for v, s in self.ev(node.value, st):
            s.env[node.target.id] = v
            out.append((v, s))
        return out

    def ev_Tuple(self, node, st):
        return self._sequence(node.elts, st, node, as_tuple=True)

    def ev_List(self, node, st):
        return self._sequence(node.elts, st, node, as_tuple=False)

    def ev_Set(self, node, st):
        return self._sequence(node.elts, st, node, as_tuple=True)

    def _sequence(self, elts, st, node, as_tuple):
        results = [((), st)]
        for elt in elts:
            nxt = []
            for ent, s in results:
                if isinstance(elt, ast.Starred):
                    for v, s2 in self.ev(elt.value, s):
                        sub = self.entries(v, s2)
                        nxt.append((ent + (sub if sub is not None else (('*', S(('elem', v))),)), s2))
                else:
                    for v, s2 in self.ev(elt, s):
                        nxt.append((ent + (('1', v),), s2))
            results = nxt
        out = []
        for ent, s in results:
            if as_tuple and all(m == '1' for m, _ in ent):
                out.append((('t', tuple(x for _, x in ent)), s))
            else:
                out.append((self.new_list(s, ent, node), s))
        return out

    def ev_Dict(self, node, st):
        results = [((), st)]
        for k, val in zip(node.keys, node.values):
            nxt = []
            for ent, s in results:
                if k is None:
                    for v, s2 in self.ev(val, s):
                        if v[0] == 'd':
                            new = ent
                            for kk, vv in s2.heap[v[1]].attrs:
                                new = self._dict_put(new, kk, vv)
                            nxt.append((new, s2))
                        else:
                            nxt.append((ent + ((None, v),), s2))
                else:
                    for (kv, vv), s2 in self.ev_many([k, val], s):
                        nxt.append((self._dict_put(ent, kv, vv), s2))
            results = nxt
        return [(self.new_dict(s, ent, node), s) for ent, s in results]

    @staticmethod
    def _dict_put(ent, k, v):
        if k is None:
            return ent + ((None, v),)
        rest = tuple((kk, vv) for kk, vv in ent if kk != k)
        return rest + ((k, v),)

    def ev_Subscript(self, node, st):
        out = []
        if isinstance(node.slice, ast.Slice):
            for v, s in self.ev(node.value, st):
                parts = [x for x in (node.slice.lower, node.slice.upper, node.slice.step) if x is not None]
                for vals, s2 in self.ev_many(parts, s):
                    it = iter(vals)
                    lo = next(it) if node.slice.lower is not None else NONE
                    hi = next(it) if node.slice.upper is not None else NONE
                    step = next(it) if node.slice.step is not None else NONE
                    out.extend(self.slice(v, lo, hi, step, s2, node))
            return out
        for (v, idx), s in self.ev_many([node.value, node.slice], st):
            out.extend(self.subscript(v, idx, s, node))
        return out

    def subscript(self, v, idx, st, node):
        if idx[0] == 's' and idx[1][0] == 'sliceof':
            return self.slice(v, *idx[1][1:], st, node)
        ent = self.entries(v, st) if v[0] in ('l', 't') else None
        if ent is not None and is_const(idx) and isinstance(cval(idx), int):
            if all(m == '1' for m, _ in ent):
                if -len(ent) <= cval(idx) < len(ent):
                    return [(ent[cval(idx)][1], st)]
                self.maybe_raise('builtins.IndexError', st, node, must=True)
                return []
        if ent is not None:
            out = []
            if not ent:
                self.maybe_raise('builtins.IndexError', st, node, must=True)
                return []
            vals = list(dict.fromkeys(x for _, x in ent))
            for i, x in enumerate(vals):
                out.append((x, st if i == len(vals) - 1 else st.copy()))
            return out
        if v[0] == 'd':
            for k, x in reversed(st.heap[v[1]].attrs):
                if k == idx:
                    return [(x, st)]
                if k is None:
                    break
            if all(k is not None and is_const(k) for k, _ in st.heap[v[1]].attrs) and is_const(idx):
                self.maybe_raise('builtins.KeyError', st, node, must=True)
                return []
            self.maybe_raise('builtins.KeyError', st, node)
            return [(S(('sub', self.snap(v, st), idx)), st)]
        if v[0] == 'k':
            cls = self.prog.classes.get(v[1])
            if cls is not None and cls.is_enum:
                self.maybe_raise('builtins.KeyError', st, node)
                if is_const(idx) and cval(idx) in self.enum_names(v[1]):
                    return [(('m', v[1], cval(idx)), st)]
                return [(S(('enumitem', v, idx), v[1]), st)]
            return [(v, st)]
        if is_const(v) and is_const(idx):
            try:
                return [(C(cval(v)[cval(idx)]), st)]
            except Exception:
                pass
        if v[0] == 'x':
            if v[1].split('.')[0] in ('typing',):
                return [(v, st)]
        self.maybe_raise('builtins.KeyError', st, node)
        self.maybe_raise('builtins.IndexError', st, node)
        self.emit(st, 'subscript', recv=v, args=(idx,), node=node)
        return [(S(('sub', v, idx)), st)]

    def slice(self, v, lo, hi, step, st, node):
        ent = self.entries(v, st) if v[0] in ('l', 't') else None
        if ent is not None:
            if lo in (NONE, C(0)) and hi == NONE and (step in (NONE, C(1)) or step == C(-1) and not all(m == '1' for m, _ in ent)):
                return [(self.new_list(st, ent, node), st)]
            if all(is_const(x) for x in (lo, hi, step)) and all(m == '1' for m, _ in ent) and not \
                    any(x[0] == 'i' for _, x in ent):
                try:
                    sub = ent[slice(cval(lo), cval(hi), cval(step))]
                    if v[0] == 't':
                        return [(('t', tuple(x for _, x in sub)), st)]
                    return [(self.new_list(st, sub, node), st)]
                except Exception:
                    pass
            # an unknown part: every entry may or may not be selected
            out = []
            choices = [()]
            for m, x in ent:
                if m == '1':
                    choices = [c + ((m, x),) for c in choices] + list(choices)
                else:
                    choices = [c + (('*', x),) for c in choices]
                choices = choices[:16]
            for i, c in enumerate(choices):
                s = st if i == len(choices) - 1 else st.copy()
                out.append((self.new_list(s, c, node), s))
            return out
        if is_const(v) and isinstance(cval(v), (str, bytes)) and all(is_const(x) for x in (lo, hi, step)):
            try:
                return [(C(cval(v)[slice(cval(lo), cval(hi), cval(step))]), st)]
            except Exception:
                pass
        return [(S(('slice', self.snap(v, st), lo, hi, step)), st)]

    def ev_BinOp(self, node, st):
        out = []
        for (a, b), s in self.ev_many([node.left, node.right], st):
            out.append((self.binop(type(node.op).__name__, a, b, s, node), s))
        return out

    def binop(self, op, a, b, st, node):
        sym = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**', 'BitOr': '|',
               'BitAnd': '&', 'BitXor': '^', 'LShift': '<<', 'RShift': '>>'}.get(op, op)
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                if op == 'Add':
                    return C(x + y)
                if op == 'Sub':
                    return C(x - y)
                if op == 'Mult' and (not isinstance(x, (str, bytes)) or (isinstance(y, int) and y < 200)):
                    return C(x * y)
                if op == 'Div':
                    return C(x / y)
                if op == 'FloorDiv':
                    return C(x // y)
                if op == 'Mod':
                    return C(x % y)
            except Exception:
                pass
        if op == 'Add':
            ea, eb = (self.entries(x, st) if x[0] in ('l', 't') else None for x in (a, b))
            if ea is not None and eb is not None:
                if a[0] == 't' and b[0] == 't':
                    return ('t', a[1] + b[1])
                return self.new_list(st, ea + eb, node)
            pa, pb = self.str_parts(a), self.str_parts(b)
            if pa is not None and pb is not None:
                return self.make_str(pa + pb)
        if op == 'Mult':
            if a == C(1):
                return b
            if b == C(1):
                return a
            if is_const(b) and not is_const(a):
                a, b = b, a
        if op == 'BitOr' and a[0] == 'd' and b[0] == 'd':
            ent = st.heap[a[1]].attrs
            for k, v in st.heap[b[1]].attrs:
                ent = self._dict_put(ent, k, v)
            return self.new_dict(st, ent, node)
        if op == 'Mod' and is_const(a) and isinstance(cval(a), str):
            got = self.percent(cval(a), b, st)
            if got is not None:
                return got
            return S(('strfmt', a, self.snap(b, st)), 'builtins.str')
        typ = None
        for x in (a, b):
            if x[0] == 's' and x[2] in ('builtins.int', 'builtins.float'):
                typ = x[2]
        return S(('bin', sym, self.snap(a, st), self.snap(b, st)), typ)

    @staticmethod
    def str_parts(v):
        if is_const(v) and isinstance(cval(v), str):
            return (cval(v),)
        if v[0] == 'j':
            return v[1]
        if v[0] == 's' and v[2] == 'builtins.str':
            return (v,)
        return None

    def text_part(self, v, spec='', conversion=-1):
        """The parts of a text that a formatted value contributes."""
        if not spec and conversion in (-1, 115, None, 's'):
            if is_const(v):
                return (str(cval(v)),)
            return v[1] if v[0] == 'j' else (v,)
        if is_const(v) and conversion in (-1, 115, None, 's'):
            try:
                return (format(cval(v), spec),)
            except (TypeError, ValueError):
                pass
        return (S(('fmt', v, repr(spec) if spec else '', conversion)),)

    def percent(self, text, b, st):
        vals = list(b[1]) if b[0] == 't' else [b]
        parts = []
        for piece in re.split(r'(%(?:\([^)]*\))?[-#0 +]*\d*(?:\.\d+)?[a-zA-Z%])', text):
            if piece is None or not piece.startswith('%'):
                parts.append(piece or '')
            elif piece == '%%':
                parts.append('%')
            elif piece in ('%s', '%d') and vals:
                v = vals.pop(0)
                parts.extend(self.text_part(v))
            else:
                return None
        return self.make_str(parts) if not vals else None

    def format_call(self, text, args, kwargs, st):
        """The text made by str.format, or None if it is not understood."""
        named, parts, auto = dict(kwargs), [], 0
        try:
            fields = list(string.Formatter().parse(text))
        except ValueError:
            return None
        for lead, name, spec, conv in fields:
            parts.append(lead)
            if name is None:
                continue
            if name == '':
                name, auto = str(auto), auto + 1
            if '{' in (spec or ''):
                return None
            if name.isdigit() and int(name) < len(args):
                v = args[int(name)]
            elif name in named:
                v = named[name]
            else:
                return None
            parts.extend(self.text_part(v, spec or '', conv))
        return self.make_str(parts)

    @staticmethod
    def make_str(parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if out and isinstance(out[-1], str):
                    out[-1] += p
                elif p:
                    out.append(p)
            else:
                out.append(p)
        if not out:
            return C('')
        if len(out) == 1 and isinstance(out[0], str):
            return C(out[0])
        return ('j', tuple(out))

    def ev_UnaryOp(self, node, st):
        if isinstance(node.op, ast.Not):
            return [(C(r), s) for r, s in self.branch(node, st)]
        out = []
        for v, s in self.ev(node.operand, st):
            if is_const(v) and isinstance(cval(v), (int, float)):
                out.append((C(-cval(v)) if isinstance(node.op, ast.USub) else C(+cval(v)) if isinstance(node.op, ast.UAdd)
                            else C(~cval(v)), s))
            else:
                out.append((S(('un', type(node.op).__name__, v)), s))
        return out

    def ev_BoolOp(self, node, st):
        pending = [st]
        out = []
        is_or = isinstance(node.op, ast.Or)
        for i, sub in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s in pending:
                if not last and isinstance(sub, (ast.Compare, ast.BoolOp)) or \
                        (not last and isinstance(sub, ast.UnaryOp) and isinstance(sub.op, ast.Not)):
                    for r, s2 in self.branch(sub, s):
                        if r == is_or:
                            out.append((C(r), s2))
                        else:
                            nxt.append(s2)
                    continue
                for v, s2 in self.ev(sub, s):
                    if last:
                        out.append((v, s2))
                        continue
                    for r, s3 in self.branch_value(v, s2, sub):
                        if r == is_or:
                            out.append((v, s3))
                        else:
                            nxt.append(s3)
            pending = nxt
        return out

    def ev_Compare(self, node, st):
        # SQL-style comparisons stay terms: only fork when used as a condition
        if len(node.ops) == 1:
            out = []
            for (a, b), s in self.ev_many([node.left, node.comparators[0]], st):
                if self.is_column(a) or self.is_column(b):
                    out.append((S(('sqlcmp', type(node.ops[0]).__name__, a, b)), s))
                else:
                    out.extend((C(r), s2) for r, s2 in self.compare(node.ops[0], a, b, s, node))
            return out
        return [(C(r), s) for r, s in self.branch(node, st)]

    def is_column(self, v) -> bool:
        """A mapped column of an entity class (comparisons on it build SQL)."""
        if v[0] == 's' and v[1][0] == 'attr' and v[1][1][0] == 'k':
            cls = self.prog.classes.get(v[1][1][1])
            if cls is not None:
                for c in cls.mro:
                    node = c.assigns.get(v[1][2])
                    if isinstance(node, ast.Call) and 'mapped_column' in ast.unparse(node.func):
                        return True
        if v[0] == 's' and v[1][0] == 'sub' and isinstance(v[1][1], tuple) and self.is_column(v[1][1]):
            return True
        if v[0] == 's' and v[1][0] == 'call' and v[1][1][0] == 'x' and v[1][1][1].startswith('sqlalchemy.'):
            return True
        if v[0] == 's' and v[1][0] == 'call' and v[1][1][0] == 's' and v[1][1][1][0] == 'attr' and \
                self.is_column(v[1][1][1][1]):
            return True
        if v[0] == 's' and v[1][0] in ('getattr',) and v[1][1][0] == 'k':
            return True
        return False

    def ev_IfExp(self, node, st):
        out = []
        for r, s in self.branch(node.test, st):
            out.extend(self.ev(node.body if r else node.orelse, s))
        return out

    def ev_JoinedStr(self, node, st):
        results = [((), st)]
        for part in node.values:
            nxt = []
            for parts, s in results:
                if isinstance(part, ast.Constant):
                    nxt.append((parts + (str(part.value),), s))
                else:
                    for v, s2 in self.ev(part.value, s):
                        if part.format_spec is None and part.conversion in (-1, 115) and is_const(v):
                            nxt.append((parts + (str(cval(v)),), s2))
                        elif part.format_spec is None and v[0] == 'j' and part.conversion in (-1, 115):
                            nxt.append((parts + v[1], s2))
                        elif part.format_spec is not None and all(isinstance(x, ast.Constant) for x in part.format_spec.values):
                            spec = ''.join(x.value for x in part.format_spec.values)
                            nxt.append((parts + self.text_part(v, spec, part.conversion), s2))
                        else:
                            spec = ast.unparse(part.format_spec) if part.format_spec is not None else ''
                            x = v if not spec and part.conversion in (-1, 115) else S(('fmt', v, spec, part.conversion))
                            nxt.append((parts + (x,), s2))
            results = nxt
        return [(self.make_str(parts), s) for parts, s in results]

    def ev_FormattedValue(self, node, st):
        return self.ev(node.value, st)

    def ev_Lambda(self, node, st):
        fid = f'<lambda {self.fn.module.name}:{node.lineno}:{node.col_offset}>'
        self.lambdas[fid] = (node, self.fn.module, self.fn.cls)
        names = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}
        env = tuple(sorted((k, v) for k, v in st.env.items() if k in names))
        return [(('f', fid, None, env), st)]

    def ev_Starred(self, node, st):
        return [(S(('star', v)), s) for v, s in self.ev(node.value, st)]

    def ev_Await(self, node, st):
        return self.ev(node.value, st)

    def ev_Yield(self, node, st):
        out = []
        vals = self.ev(node.value, st) if node.value is not None else [(NONE, st)]
        for v, s in vals:
            ref = s.env.get('$yield')
            if ref is not None:
                self.list_append(ref, v, s)
            out.append((NONE, s))
        return out

    def ev_YieldFrom(self, node, st):
        out = []
        for v, s in self.ev(node.value, st):
            ref = s.env.get('$yield')
            ent = self.entries(v, s)
            if ref is not None:
                for m, x in (ent if ent is not None else (('*', S(('elem', v))),)):
                    self.list_append(ref, x, s, m)
            out.append((NONE, s))
        return out

    # comprehensions

    def ev_ListComp(self, node, st):
        return self._comp(node, st, lambda n, s: self.ev(n.elt, s), 'list')

    def ev_SetComp(self, node, st):
        return self._comp(node, st, lambda n, s: self.ev(n.elt, s), 'list')

    def ev_GeneratorExp(self, node, st):
        gen = node.generators[0]
        if getattr(node, 'lazy', False) and len(node.generators) == 1 and not gen.ifs:
            out = []
            for it, s in self.ev(gen.iter, st):
                if self.entries(it, s) is not None:
                    out.extend(self._comp(node, s, lambda n, s2: self.ev(n.elt, s2), 'list'))
                    continue
                it = self.snap(it, s)
                env = dict(s.env)
                for s2 in self.assign(gen.target, S(('elem', it)), s):
                    for v, s3 in self.ev(node.elt, s2):
                        s3.env = dict(env)
                        out.append((S(('map', self.snap(v, s3), it)), s3))
            return out
        return self._comp(node, st, lambda n, s: self.ev(n.elt, s), 'list')

    def ev_DictComp(self, node, st):
        def elem(n, s):
            return [(('t', tuple(vals)), s2) for vals, s2 in self.ev_many([n.key, n.value], s)]
        return self._comp(node, st, elem, 'dict')

    def _comp(self, node, st, elem, kind):
        outer_names = set(st.env)
        tmp = self.new_list(st, (), node)

        def run(gens, s) -> List[State]:
            if not gens:
                out = []
                for v, s2 in elem(node, s):
                    self.list_append(tmp, v, s2, merge=True)
                    out.append(s2)
                return out
            gen = gens[0]
            out = []
            for it, s1 in self.ev(gen.iter, s):
                def body(x, s2):
                    res = []
                    for s3 in self.assign(gen.target, x, s2):
                        pend = [s3]
                        for cond in gen.ifs:
                            nxt = []
                            for p in pend:
                                for r, p2 in self.branch(cond, p):
                                    (nxt if r else res_skip).append(p2)
                            pend = nxt
                        for p in pend:
                            res.extend(('next', None, q) for q in run(gens[1:], p))
                    res.extend(('next', None, q) for q in res_skip)
                    res_skip.clear()
                    return res
                res_skip: List[State] = []
                for k, _, s4 in self.iterate(it, s1, gen.iter, body):
                    out.append(s4)
            return out

        results = []
        for s in run(node.generators, st):
            for name in [n for n in s.env if n not in outer_names]:
                if not any(isinstance(x, ast.NamedExpr) and x.target.id == name for x in ast.walk(node)):
                    del s.env[name]
            if kind == 'dict':
                ent = ()
                for m, x in s.heap[tmp[1]].attrs:
                    if m == '1' and x[0] == 't':
                        ent = self._dict_put(ent, x[1][0], x[1][1])
                    else:
                        ent = ent + ((None, x),)
                results.append((self.new_dict(s, ent, node), s))
            else:
                results.append((tmp, s))
        return self.dedupe(results)

    # -- iteration ---------------------------------------------------------------------------------------------------

    def iterate(self, it, st: State, node, body):
        """Run `body(value, state)` over the elements of `it`; returns outs ('next'|'brk'|'ret', value, state)."""
        if it[0] == 's' and it[1][0] == 'dictitems' and it[1][1][0] == 'd':
            ent = tuple(('1', ('t', (k, x))) if k is not None else ('*', ('t', (S(('key', x)), S(('val', x)))))
                        for k, x in st.heap[it[1][1][1]].attrs)
        elif it[0] == 's' and it[1][0] == 'iter' and isinstance(it[1][1], tuple):
            ent = self.entries(it[1][1], st)
        else:
            ent = self.entries(it, st)
            if it[0] == 'l' and st.heap[it[1]].cls == 'iter':
                st.heap[it[1]] = HObj('list', 'iter', ())
        if ent is None:
            term = self.snap(it, st)
            if it[0] == 'i':
                ent = (('+', S(('elem', it))),)     # a message about tasks names at least one
            else:
                ent = (('*', S(('elem', term))),)
            self.maybe_external_raise(st, node)
        orders = [ent]
        kinds = {m for m, _ in ent}
        if len(ent) > 1 and len(kinds) > 1 and any(x[0] == 'i' for _, x in ent):
            orders.append(tuple(reversed(ent)))
        outs = []
        for n, order in enumerate(orders):
            s0 = st if n == len(orders) - 1 else st.copy()
            outs.extend(self._iterate(order, s0, body))
        return self.dedupe_outs(outs)

    def _iterate(self, order, st, body):
        done = []          # break / return outs
        frontier = [st]
        for m, x in order:
            if m == '1':
                nxt = []
                for s in frontier:
                    for kind, v, s2 in body(x, s):
                        if kind in ('next', 'cont'):
                            nxt.append(s2)
                        else:
                            done.append((kind, v, s2))
                frontier = self._dedupe_states(nxt)
            else:
                reached = list(frontier) if m == '*' else []
                seen = set()
                current = [s.copy() for s in frontier] if m == '*' else frontier
                for i in range(self.loop_limit):
                    nxt = []
                    for s in current:
                        for kind, v, s2 in body(x, s):
                            if kind in ('next', 'cont'):
                                nxt.append(s2)
                            else:
                                done.append((kind, v, s2))
                    nxt = [s for s in self._dedupe_states(nxt) if s.key() not in seen]
                    if not nxt:
                        break
                    for s in nxt:
                        seen.add(s.key())
                    reached.extend(s.copy() for s in nxt)
                    current = nxt
                frontier = self._dedupe_states(reached)
        return [('next', None, s) for s in frontier] + done

    def _dedupe_states(self, states):
        return [s for _, s in self.dedupe([(None, s) for s in states])]

    # -- lists and dicts ---------------------------------------------------------------------------------------------

    def list_append(self, ref, v, st: State, mult: str = '1', merge: bool = False):
        if ref[0] != 'l' or ref[1] not in st.heap:
            return
        ent = st.heap[ref[1]].attrs
        if v[0] == 'i' and not v[1]:
            for i, (m, x) in enumerate(ent):
                if x == v:
                    st.heap[ref[1]] = HObj('list', None, ent[:i] + (('+', x),) + ent[i + 1:])
                    return
            st.heap[ref[1]] = HObj('list', None, ent + (('+' if mult != '*' else '*', v),))
            return
        if not self.exact_lists and (v[0] not in ('c', 'i', 'm', 'x') or merge and v[0] == 's'):
            for i, (m, x) in enumerate(ent):
                if x == v and not (v[0] in ('o', 'l', 'd')):
                    st.heap[ref[1]] = HObj('list', None, ent[:i] + (('+', x),) + ent[i + 1:])
                    return
        if len(ent) > (12 if self.custody else 130 if v[0] == 'c' else 40):
            merged = tuple(('+', x) for x in list(dict.fromkeys(x for _, x in ent))[:12])
            st.heap[ref[1]] = HObj('list', None, merged)
            return
        st.heap[ref[1]] = HObj('list', None, ent + ((mult, v),))

    # -- calls -------------------------------------------------------------------------------------------------------

    def ev_Call(self, node, st):
        out = []
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and 'super' not in st.env:
            cls = self.fn.cls
            selfv = None
            if len(node.args) == 2:
                for (a, b), s in self.ev_many(node.args, st):
                    out.append((('super', a[1] if a[0] == 'k' else cls.qual, b), s))
                return out
            args = self.fn.node.args.args
            if cls is not None and args:
                selfv = st.env.get(args[0].arg)
            if cls is None or selfv is None:
                return [(S(('super?',)), st)]
            return [(('super', cls.qual, selfv), st)]
        for f, s in self.ev(node.func, st):
            for args, kwargs, s2 in self.ev_args(node, s):
                out.extend(self.call(f, args, kwargs, s2, node))
        return self.dedupe(out)

    def ev_args(self, node, st):
        results = [([], [], st)]
        for arg in node.args:
            nxt = []
            for args, kwargs, s in results:
                if isinstance(arg, ast.Starred):
                    for v, s2 in self.ev(arg.value, s):
                        ent = self.entries(v, s2)
                        if ent is not None and all(m == '1' for m, _ in ent):
                            nxt.append((args + [x for _, x in ent], kwargs, s2))
                        else:
                            nxt.append((args + [S(('star', self.snap(v, s2)))], kwargs, s2))
                else:
                    for v, s2 in self.ev(arg, s):
                        nxt.append((args + [v], kwargs, s2))
            results = nxt
        for kw in node.keywords:
            nxt = []
            for args, kwargs, s in results:
                for v, s2 in self.ev(kw.value, s):
                    if kw.arg is None:
                        if v[0] == 'd':
                            new = list(kwargs)
                            for k, x in s2.heap[v[1]].attrs:
                                if k is not None and is_const(k) and isinstance(cval(k), str):
                                    new.append((cval(k), x))
                                else:
                                    new.append((None, x))
                            nxt.append((args, new, s2))
                        else:
                            nxt.append((args, kwargs + [(None, v)], s2))
                    else:
                        nxt.append((args, kwargs + [(kw.arg, v)], s2))
            results = nxt
        return results

    def call(self, f, args, kwargs, st: State, node) -> List[Tuple[tuple, State]]:
        tag = f[0]
        if tag == 'p':
            merged = dict(f[3])
            merged.update({k: v for k, v in kwargs if k is not None})
            return self.call(f[1], list(f[2]) + list(args), list(merged.items()), st, node)
        if tag == 'f':
            if len(f) > 3 or f[1].startswith('<lambda'):
                return self.call_lambda(f, args, kwargs, st, node)
            if f[1].startswith('<local'):
                return self.call_local(f, args, kwargs, st, node)
            fn = self.prog.functions.get(f[1])
            if fn is None:
                return [(S(('call', f, tuple(args), tuple(kwargs))), st)]
            full = ([f[2]] if f[2] is not None else []) + list(args)
            return self.call_func(fn, full, kwargs, st, node)
        if tag == 'k':
            return self.instantiate(f, args, kwargs, st, node)
        if tag == 'o':
            cls = self.prog.classes.get(st.heap[f[1]].cls)
            fn = cls.method('__call__') if cls is not None else None
            if fn is not None:
                return self.call_func(fn, [f, *args], kwargs, st, node)
        return self.external(f, args, kwargs, st, node)

    def call_lambda(self, f, args, kwargs, st, node):
        lam, module, cls = self.lambdas[f[1]]
        env, saved = dict(f[3] if len(f) > 3 else ()), st.env
        names = [a.arg for a in lam.args.posonlyargs + lam.args.args]
        defaults = lam.args.defaults
        for i, n in enumerate(names):
            if i < len(args):
                env[n] = args[i]
            else:
                got = [v for k, v in kwargs if k == n]
                env[n] = got[0] if got else S(('param', 'lambda', n))
        if lam.args.vararg:
            env[lam.args.vararg.arg] = ('t', tuple(args[len(names):]))
        st.env = env
        self.stack.append(self._lambda_fn(module, cls, self.fn))
        self.raise_sinks.append([])
        try:
            out = self.ev(lam.body, st)
        finally:
            self.stack.pop()
            sink = self.raise_sinks.pop()
        for exc, val, s in sink:
            s.env = dict(saved)
            self.raise_sinks[-1].append((exc, val, s))
        for _, s in out:
            s.env = dict(saved)
        return out

    def _lambda_fn(self, module, cls, caller):
        fn = self._stub(module, cls)
        if caller is not None:
            fn.qual = caller.qual + '.<lambda>'
        return fn

    def call_local(self, f, args, kwargs, st, node):
        fn, env = self.lambdas[f[1]]
        return self.call_func(fn, list(args), kwargs, st, node, closure=dict(f[3] if len(f) > 3 else env))

    def bind(self, fn: Func, args, kwargs, st: State, node) -> List[State]:
        """Bind parameters; returns states whose env is the callee's frame."""
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env: Dict[str, tuple] = {}
        rest = []
        has_star = False
        plain = []
        for v in args:
            if v[0] == 's' and v[1][0] == 'star':
                has_star = True
            else:
                plain.append(v)
        for i, v in enumerate(plain):
            if i < len(names) and not has_star or (has_star and i < len(names) and args[i] is v):
                env[names[i]] = v
            else:
                rest.append(v)
        kwnames = [x.arg for x in a.kwonlyargs]
        extra = []
        unknown_kw = []
        for k, v in kwargs:
            if k is None:
                unknown_kw.append(v)
            elif k in names or k in kwnames:
                env[k] = v
            else:
                extra.append((C(k), v))
        if a.vararg:
            env[a.vararg.arg] = ('t', tuple(rest)) if not has_star else self.new_list(st, tuple(('1', x) for x in rest) + (
                ('*', S(('elem', args[-1]))),), node)
        if a.kwarg:
            env[a.kwarg.arg] = self.new_dict(st, tuple(extra) + tuple((None, v) for v in unknown_kw), fn.node)
        elif extra:
            self.emit(st, 'badkwarg', name=fn.qual, args=tuple(k for k, _ in extra), node=node)
        states = [st]
        pos_defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        kw_defaults = {n: d for n, d in zip(kwnames, a.kw_defaults) if d is not None}
        anns = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        for n in names + kwnames:
            if n in env:
                continue
            d = pos_defaults.get(n, kw_defaults.get(n))
            if d is not None and not has_star and not unknown_kw:
                nxt = []
                for s in states:
                    for v, s2 in self.ev_in(fn.module, d, s, fn.cls):
                        nxt.append((v, s2))
                if len(nxt) == 1:
                    env[n] = nxt[0][0]
                    states = [nxt[0][1]]
                else:
                    env[n] = S(('param', fn.qual, n))
            elif unknown_kw and d is not None:
                env[n] = S(('sub', unknown_kw[0], C(n)))
            else:
                env[n] = self.typed_symbol(('param', fn.qual, n), anns.get(n), fn.module, fn.cls, st, node)
        for s in states:
            s.env = dict(env)
        return states

    def call_func(self, fn: Func, args, kwargs, st: State, node, closure=None) -> List[Tuple[tuple, State]]:
        self.emit(st, 'enter', name=fn.qual, args=args, kwargs=kwargs, node=node)
        handler = self.summaries.get(fn.qual)
        if handler is not None:
            got = handler(self, fn, args, kwargs, st, node)
            if got is not None:
                return got
        depth = sum(1 for f in self.stack if f.qual == fn.qual)
        if len(self.stack) >= self.max_depth or depth >= self.max_recursion or fn.abstract:
            self.emit(st, 'opaque', name=fn.qual, args=args, kwargs=kwargs, node=node)
            return [(S(('call', ('f', fn.qual, None), tuple(self.snap(a, st) for a in args), tuple(kwargs))), st)]
        self.functions_seen.add(fn.qual)
        saved = st.env
        before = st.copy() if fn.is_generator else None
        states = self.bind(fn, args, kwargs, st, node)
        out = []
        self.stack.append(fn)
        self.raise_sinks.append([])
        try:
            for s in states:
                if closure:
                    s.env = {**closure, **s.env}
                yref = None
                if fn.is_generator:
                    yref = self.new_list(s, (), fn.node)
                    s.env['$yield'] = yref
                for kind, v, s2 in self.ex_block(fn.node.body, s):
                    if yref is not None:
                        out.append((yref, s2))
                    elif kind == 'ret':
                        out.append((v, s2))
                    else:
                        out.append((NONE, s2))
        finally:
            self.stack.pop()
            sink = self.raise_sinks.pop()
        for exc, val, s in sink:
            s.env = dict(saved)
            self.raise_sinks[-1].append((exc, val, s))
        for _, s in out:
            s.env = dict(saved)
        if before is not None and out:
            made = [x for v, s in out for x in (self.entries(v, s) or ())]
            if any(m in ('*', '+') for m, _ in made) and not sink and all(s.trace == before.trace and s.mon == before.mon for _, s in out):
                # a stream of its own: nothing happens before it is iterated
                vals = tuple(dict.fromkeys(self.snap(x, s) for v, s in out for _, x in (self.entries(v, s) or ())))
                return [(S(('map', ('t', vals), *[self.snap(a, before) for a in args])), before)]
        return self.dedupe(out)

    def instantiate(self, k, args, kwargs, st: State, node):
        cls = self.prog.classes.get(k[1])
        if cls is None:
            return [(S(('call', k, tuple(args), tuple(kwargs))), st)]
        handler = self.summaries.get(f'{cls.qual}()')
        if handler is not None:
            got = handler(self, cls, args, kwargs, st, node)
            if got is not None:
                return got
        if cls.is_enum:
            if args and is_const(args[0]):
                for n in self.enum_names(cls.qual):
                    nv = cls.assigns.get(n)
                    if isinstance(nv, ast.Constant) and nv.value == cval(args[0]):
                        return [(('m', cls.qual, n), st)]
            self.maybe_raise('builtins.ValueError', st, node)
            return [(S(('enumcall', k, tuple(args)), cls.qual), st)]
        if any(b in ('builtins.Exception', 'builtins.BaseException', 'builtins.ValueError', 'builtins.RuntimeError')
               or b.endswith('Error') for b in cls.all_ext_bases()):
            return [(S(('exc', cls.qual, tuple(self.snap(a, st) for a in args))), st)]
        ref = self.alloc(st, HObj('obj', cls.qual, {}), node, hint=cls.name)
        obj = ('o', ref)
        self.emit(st, 'new', name=cls.qual, args=args, kwargs=kwargs, node=node, value=obj)
        init = cls.method('__init__')
        is_entity = any(c.name == 'Entity' for c in cls.mro)
        if init is not None:
            return [(obj, s) for _, s in self.call_func(init, [obj, *args], kwargs, st, node)]
        if cls.is_dataclass or is_entity:
            names = [n for n in dict.fromkeys(n for c in reversed(cls.mro) for n in c.order if n in c.annotations)]
            attrs = dict(zip(names, args))
            spread = [v for kk, v in kwargs if kk is None]
            attrs.update({kk: v for kk, v in kwargs if kk is not None})
            if is_entity or spread:
                st.heap[ref] = HObj('obj', cls.qual, {**attrs, **({'$spread': spread[0]} if spread else {})}, opaque=True)
            else:
                st.heap[ref] = HObj('obj', cls.qual, attrs)
            return [(obj, st)]
        exts = [b for b in cls.all_ext_bases() if b.split('.')[-1] in ('list', 'dict', 'set')]
        if exts and args and exts[0].endswith('list'):
            ent = self.entries(args[0], st)
            lst = self.new_list(st, ent if ent is not None else (('*', S(('elem', self.snap(args[0], st)))),), node)
            st.heap[ref] = HObj('obj', cls.qual, {'$list': lst})
            return [(obj, st)]
        if args or kwargs:
            st.heap[ref] = HObj('obj', cls.qual, {'$args': ('t', tuple(args)),
                                                 **{f'${k}': v for k, v in kwargs if k}}, opaque=True)
        return [(obj, st)]

    # -- externals ---------------------------------------------------------------------------------------------------

    def maybe_raise(self, exc: str, st: State, node, must: bool = False):
        """Record an exception edge (only where some enclosing handler or rule can observe it)."""
        if self.try_depth or must:
            self.raise_sinks[-1].append((exc, S(('exc', exc)), st if must else st.copy()))

    def maybe_external_raise(self, st: State, node):
        if self.try_depth:
            self.raise_sinks[-1].append(('?', S(('exc', '?')), st.copy()))

    def ext_name(self, f) -> Tuple[str, Optional[tuple]]:
        """(qualified name, receiver) of an external callee."""
        if f[0] == 'x':
            return f[1], None
        if f[0] == 's' and f[1][0] == 'attr':
            recv = f[1][1]
            return f'.{f[1][2]}', recv
        if f[0] == 's' and f[1][0] == 'global':
            return f[1][1], None
        return '?', None

    def is_log(self, recv) -> bool:
        return recv is not None and recv[0] == 's' and recv[1][0] == 'global' and self._is_logger(recv[1][1])

    def _is_logger(self, qual: str) -> bool:
        cache = self.__dict__.setdefault('_logcache', {})
        if qual not in cache:
            modname, name = qual.rsplit('.', 1)
            mod = self.prog.modules.get(modname)
            ok = False
            if mod is not None:
                for node in mod.globals.get(name, []):
                    if isinstance(node, ast.Call):
                        text = ast.unparse(node.func)
                        ok = ok or 'Logger' in text or 'getLogger' in text
            cache[qual] = ok
        return cache[qual]

    def external(self, f, args, kwargs, st: State, node):
        from . import externs
        self.external_calls += 1
        name, recv = self.ext_name(f)
        if recv is not None and recv[0] == 's' and self.is_log(recv) and name.startswith('.'):
            self.emit(st, 'log', name=name, recv=recv, args=args, kwargs=kwargs, node=node)
            return [(NONE, st)]
        return externs.call(self, f, name, recv, args, kwargs, st, node)

    # -- statements --------------------------------------------------------------------------------------------------

    def ex_block(self, stmts, st: State):
        """Execute statements; returns outs (kind, value, state), kind in next/ret/brk/cont."""
        frontier = [st]
        outs = []
        for stmt in stmts:
            nxt = []
            for s in frontier:
                for kind, v, s2 in self.ex(stmt, s):
                    if kind == 'next':
                        nxt.append(s2)
                    else:
                        outs.append((kind, v, s2))
            frontier = self._dedupe_states(nxt)
            if not frontier:
                break
        return [('next', None, s) for s in frontier] + outs

    def ex(self, node, st: State):
        meth = getattr(self, 'ex_' + type(node).__name__, None)
        if meth is None:
            return [('next', None, st)]
        return meth(node, st)

    def ex_Expr(self, node, st):
        return [('next', None, s) for _, s in self.ev(node.value, st)]

    def ex_Pass(self, node, st):
        return [('next', None, st)]

    def ex_Import(self, node, st):
        for alias in node.names:
            name = alias.asname or alias.name.split('.')[0]
            target = alias.name if alias.asname else alias.name.split('.')[0]
            st.env[name] = self.from_resolved(self.prog.resolve_qual(target), st, name)
        return [('next', None, st)]

    def ex_ImportFrom(self, node, st):
        for alias in node.names:
            base = node.module or ''
            st.env[alias.asname or alias.name] = self.from_resolved(self.prog.resolve_qual(f'{base}.{alias.name}'), st,
                                                                  alias.name)
        return [('next', None, st)]

    def ex_Global(self, node, st):
        for name in node.names:
            st.env.pop(name, None)
            st.env[f'$global:{name}'] = TRUE
        return [('next', None, st)]

    def ex_Nonlocal(self, node, st):
        return [('next', None, st)]

    def ex_FunctionDef(self, node, st):
        fid = f'<local {self.fn.module.name}:{node.lineno}:{node.name}>'
        fn = Func(f'{self.fn.qual}.{node.name}', node, self.fn.module, self.fn.cls)
        names = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}
        env = tuple(sorted((k, v) for k, v in st.env.items() if k in names and not k.startswith('$')))
        self.lambdas[fid] = (fn, env)
        st.env[node.name] = ('f', fid, None)
        return [('next', None, st)]

    def ex_ClassDef(self, node, st):
        st.env[node.name] = S(('localclass', node.name, node.lineno))
        return [('next', None, st)]

    def ex_Return(self, node, st):
        if node.value is None:
            self.emit(st, 'return', value=NONE, node=node)
            return [('ret', NONE, st)]
        out = []
        for v, s in self.ev(node.value, st):
            self.emit(s, 'return', value=v, node=node)
            out.append(('ret', v, s))
        return out

    def ex_Break(self, node, st):
        return [('brk', None, st)]

    def ex_Continue(self, node, st):
        return [('cont', None, st)]

    def ex_Assign(self, node, st):
        out = []
        # parallel tuple assignment and plain assignment
        for v, s in self.ev(node.value, st):
            states = [s]
            for target in node.targets:
                nxt = []
                for q in states:
                    nxt.extend(self.assign(target, v, q))
                states = nxt
            out.extend(('next', None, q) for q in states)
        return out

    def ex_AnnAssign(self, node, st):
        if node.value is None:
            return [('next', None, st)]
        out = []
        for v, s in self.ev(node.value, st):
            out.extend(('next', None, q) for q in self.assign(node.target, v, s))
        return out

    def ex_AugAssign(self, node, st):
        out = []
        load = ast.copy_location(_as_load(node.target), node.target)
        for (a, b), s in self.ev_many([load, node.value], st):
            if a[0] == 'l' and isinstance(node.op, ast.Add):
                ent = self.entries(b, s)
                for m, x in (ent if ent is not None else (('*', S(('elem', self.snap(b, s)))),)):
                    self.list_append(a, x, s, m)
                out.append(('next', None, s))
                continue
            v = self.binop(type(node.op).__name__, a, b, s, node)
            out.extend(('next', None, q) for q in self.assign(node.target, v, s))
        return out

    def assign(self, target, v, st: State) -> List[State]:
        if isinstance(target, ast.Name):
            if f'$global:{target.id}' in st.env:
                self.emit(st, 'setglobal', name=f'{self.module.name}.{target.id}', value=v, node=target)
                return [st]
            st.env[target.id] = v
            return [st]
        if isinstance(target, ast.Attribute):
            out = []
            for recv, s in self.ev(target.value, st):
                name = mangle(target.attr, self.fn.cls if self.fn else None)
                cls = self.prog.classes.get(s.heap[recv[1]].cls) if recv[0] == 'o' and s.heap[recv[1]].cls else None
                setter = cls.setter(name) if cls is not None else None
                if setter is not None:
                    out.extend(s2 for _, s2 in self.call_func(setter, [recv, v], [], s, target))
                    continue
                self.set_attr(recv, name, v, s, target)
                out.append(s)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            if isinstance(target.slice, ast.Slice):
                for recv, s in self.ev(target.value, st):
                    if recv[0] == 'l':
                        full = target.slice.lower is None and target.slice.upper is None
                        ent = self.entries(v, s)
                        if full and ent is not None:
                            s.heap[recv[1]] = HObj('list', None, ent)
                        else:
                            s.heap[recv[1]] = HObj('list', None, (('*', S(('elem', recv))),))
                    self.emit(s, 'setitem', recv=recv, value=v, node=target)
                    out.append(s)
                return out
            for (recv, idx), s in self.ev_many([target.value, target.slice], st):
                if recv[0] == 'd':
                    s.heap[recv[1]] = HObj('dict', None, self._dict_put(s.heap[recv[1]].attrs, idx, v))
                elif recv[0] == 'l':
                    ent = s.heap[recv[1]].attrs
                    if is_const(idx) and isinstance(cval(idx), int) and all(m == '1' for m, _ in ent) and \
                            -len(ent) <= cval(idx) < len(ent):
                        i = cval(idx) % len(ent)
                        s.heap[recv[1]] = HObj('list', None, ent[:i] + (('1', v),) + ent[i + 1:])
                    else:
                        s.heap[recv[1]] = HObj('list', None, ent + (('*', v),))
                self.emit(s, 'setitem', recv=recv, args=(idx,), value=v, node=target)
                out.append(s)
            return out
        if isinstance(target, (ast.Tuple, ast.List)):
            ent = self.entries(v, st) if v[0] in ('t', 'l') else None
            elts = target.elts
            states = [st]
            star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
            if ent is not None and all(m == '1' for m, _ in ent) and (len(ent) == len(elts) or star is not None):
                vals = [x for _, x in ent]
                if star is not None:
                    tail = len(elts) - star - 1
                    mid = vals[star:len(vals) - tail]
                    seq = vals[:star] + [self.new_list(st, tuple(('1', x) for x in mid), target)] + \
                        vals[len(vals) - tail:]
                else:
                    seq = vals
            else:
                seq = [S(('sub', self.snap(v, st), C(i))) for i in range(len(elts))]
                if v[0] == 'i':
                    seq = [v for _ in elts]
            for elt, x in zip(elts, seq):
                t = elt.value if isinstance(elt, ast.Starred) else elt
                nxt = []
                for s in states:
                    nxt.extend(self.assign(t, x, s))
                states = nxt
            return states
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st)
        return [st]

    def ex_Delete(self, node, st):
        states = [st]
        for target in node.targets:
            nxt = []
            for s in states:
                if isinstance(target, ast.Name):
                    s.env.pop(target.id, None)
                    nxt.append(s)
                elif isinstance(target, ast.Attribute):
                    for recv, s2 in self.ev(target.value, s):
                        if recv[0] == 'o':
                            o = s2.heap[recv[1]]
                            s2.heap[recv[1]] = HObj(o.kind, o.cls, {k: x for k, x in o.attrs.items() if k != target.attr},
                                                   o.opaque)
                        nxt.append(s2)
                elif isinstance(target, ast.Subscript):
                    if isinstance(target.slice, ast.Slice):
                        for recv, s2 in self.ev(target.value, s):
                            if recv[0] == 'l':
                                if target.slice.lower is None and target.slice.upper is None:
                                    s2.heap[recv[1]] = HObj('list', None, ())
                                    nxt.append(s2)
                                else:
                                    for lst, s3 in self.slice(recv, C(1), NONE, NONE, s2, target):
                                        ent = tuple((m, x) for m, x in s3.heap[lst[1]].attrs)
                                        s3.heap[recv[1]] = HObj('list', None, ent)
                                        nxt.append(s3)
                            else:
                                nxt.append(s2)
                        continue
                    for (recv, idx), s2 in self.ev_many([target.value, target.slice], s):
                        if recv[0] == 'd':
                            s2.heap[recv[1]] = HObj('dict', None, tuple(
                                (k, x) for k, x in s2.heap[recv[1]].attrs if k != idx))
                            nxt.append(s2)
                        elif recv[0] == 'l':
                            from . import externs
                            nxt.extend(s3 for _, s3 in externs.list_pop(self, recv, idx, s2, target))
                        else:
                            self.emit(s2, 'delitem', recv=recv, args=(idx,), node=target)
                            nxt.append(s2)
            states = nxt
        return [('next', None, s) for s in states]

    def ex_Assert(self, node, st):
        out = []
        for r, s in self.branch(node.test, st):
            if r:
                out.append(('next', None, s))
            else:
                self.do_raise('builtins.AssertionError', s, node)
        return out

    def ex_If(self, node, st):
        outs = []
        groups = {True: [], False: []}
        for r, s in self.branch(node.test, st):
            groups[r].append(s)
        for r in (True, False):
            block = node.body if r else node.orelse
            for s in self._dedupe_states(groups[r]):
                outs.extend(self.ex_block(block, s))
        return self.dedupe_outs(outs)

    def ex_Match(self, node, st):
        outs = []
        for subject, s0 in self.ev(node.subject, st):
            pending = [s0]
            for case in node.cases:
                nxt = []
                for s in pending:
                    for r, s2 in self._match_pattern(case.pattern, subject, s):
                        if r and case.guard is not None:
                            for g, s3 in self.branch(case.guard, s2):
                                if g:
                                    outs.extend(self.ex_block(case.body, s3))
                                else:
                                    nxt.append(s3)
                        elif r:
                            outs.extend(self.ex_block(case.body, s2))
                        else:
                            nxt.append(s2)
                pending = nxt
            outs.extend(('next', None, s) for s in pending)
        return outs

    def _match_pattern(self, pat, subject, st):
        if isinstance(pat, ast.MatchValue):
            out = []
            for v, s in self.ev(pat.value, st):
                out.extend(self.compare(ast.Eq(), subject, v, s, pat))
            return out
        if isinstance(pat, ast.MatchSingleton):
            return self.compare(ast.Is(), subject, C(pat.value), st, pat)
        if isinstance(pat, ast.MatchAs):
            if pat.pattern is None:
                if pat.name:
                    st.env[pat.name] = subject
                return [(True, st)]
            out = []
            for r, s in self._match_pattern(pat.pattern, subject, st):
                if r and pat.name:
                    s.env[pat.name] = subject
                out.append((r, s))
            return out
        if isinstance(pat, ast.MatchOr):
            pending, out = [st], []
            for sub in pat.patterns:
                nxt = []
                for s in pending:
                    for r, s2 in self._match_pattern(sub, subject, s):
                        (out.append((True, s2)) if r else nxt.append(s2))
                pending = nxt
            return out + [(False, s) for s in pending]
        return [(True, st), (False, st.copy())]

    def ex_While(self, node, st):
        outs = []
        current = [st]
        seen = set()
        limit = self.loop_limit + 2
        single = True           # as long as there is a single way through the loop it is followed further
        for i in range(limit + 40):
            if len(current) > 1:
                single = False
            if i >= limit and not single:
                break
            nxt = []
            for s in current:
                for r, s2 in self.branch(node.test, s):
                    if not r:
                        outs.extend(self.ex_block(node.orelse, s2) if node.orelse else [('next', None, s2)])
                        continue
                    if i >= limit - 1 and not single or i == limit + 39:
                        continue       # further iterations repeat the ones already walked
                    for kind, v, s3 in self.ex_block(node.body, s2):
                        if kind in ('next', 'cont'):
                            nxt.append(s3)
                        elif kind == 'brk':
                            outs.append(('next', None, s3))
                        else:
                            outs.append((kind, v, s3))
            nxt = [s for s in self._dedupe_states(nxt) if s.key() not in seen]
            if not nxt:
                break
            seen.update(s.key() for s in nxt)
            current = nxt
        return self.dedupe_outs(outs)

    def ex_For(self, node, st):
        outs = []
        for it, s in self.ev(node.iter, st):
            self.emit(s, 'for', recv=it, node=node)

            def body(x, s2):
                res = []
                for s3 in self.assign(node.target, x, s2):
                    res.extend(self.ex_block(node.body, s3))
                return res
            for kind, v, s4 in self.iterate(it, s, node.iter, body):
                if kind == 'next':
                    outs.extend(self.ex_block(node.orelse, s4) if node.orelse else [('next', None, s4)])
                elif kind == 'brk':
                    outs.append(('next', None, s4))
                else:
                    outs.append((kind, v, s4))
        return self.dedupe_outs(outs)

    def ex_With(self, node, st):
        return self._with(node.items, node.body, st, node)

    def _with(self, items, body, st, node):
        if not items:
            return self.ex_block(body, st)
        itm = items[0]
        outs = []
        for v, s in self.ev(itm.context_expr, st):
            self.emit(s, 'with', recv=v, node=itm.context_expr)
            leave = None
            entered = [(v, s)]
            if self.enter_objects and v[0] == 'o' and v[1] in s.heap:
                cls = self.prog.classes.get(s.heap[v[1]].cls)
                enter = cls.method('__enter__') if cls is not None else None
                if enter is not None:
                    leave = cls.method('__exit__')
                    entered = self.call_func(enter, [v], [], s, node)
            states = []
            for inner_v, s1 in entered:
                states += self.assign(itm.optional_vars, inner_v, s1) if itm.optional_vars is not None else [s1]
            suppress = None
            if v[0] == 's' and v[1][0] == 'call' and v[1][1] == ('x', 'contextlib.suppress'):
                suppress = v[1][2]
            for s2 in states:
                self.raise_sinks.append([])
                if suppress is not None:
                    self.try_depth += 1
                try:
                    inner = self._with(items[1:], body, s2, node)
                finally:
                    raised = self.raise_sinks.pop()
                    if suppress is not None:
                        self.try_depth -= 1
                for kind, val, s3 in inner:
                    self.emit(s3, 'endwith', recv=v, node=itm.context_expr, value='normal')
                    if leave is None:
                        outs.append((kind, val, s3))
                    else:
                        outs += [(kind, val, s4) for _, s4 in self.call_func(leave, [v, NONE, NONE, NONE], [], s3, node)]
                for exc, val, s3 in raised:
                    self.emit(s3, 'endwith', recv=v, node=itm.context_expr, value='raise')
                    if suppress is not None:
                        m = self.match_exc(exc, ('t', suppress), s3)
                        if m != 'no':
                            outs.append(('next', None, s3.copy()))
                        if m == 'yes':
                            continue
                    if leave is not None:
                        what = S(('exc', exc))
                        for got, s4 in self.call_func(leave, [v, S(('call', ('x', 'builtins.type'), (what,), ())), what, S(('traceback', exc))], [],
                                                      s3, node):
                            if got != TRUE:
                                self.raise_sinks[-1].append((exc, val, s4))
                            else:
                                outs.append(('next', None, s4))
                        continue
                    self.raise_sinks[-1].append((exc, val, s3))
        return outs

    def ex_Raise(self, node, st):
        if node.exc is None:
            exc, val = self.handlers[-1] if self.handlers else ('?', None)
            self.emit(st, 'raise', name=exc, node=node, extra='reraise')
            self.do_raise(exc, st, node, val)
            return []
        for v, s in self.ev(node.exc, st):
            name = '?'
            if v[0] == 's' and v[1][0] == 'exc':
                name = v[1][1]
            elif v[0] in ('x', 'k'):
                name = v[1]
            elif v[0] == 's' and v[1][0] == 'call' and v[1][1][0] in ('x', 'k'):
                name = v[1][1][1]
            self.emit(s, 'raise', name=name, value=v, node=node)
            self.do_raise(name, s, node, v)
        return []

    def match_exc(self, exc: str, htype, st) -> str:
        """Does handler type value `htype` catch `exc`? yes/no/maybe"""
        if htype is None:
            return 'yes'
        types = htype[1] if htype[0] == 't' else (htype,)
        names = []
        for t in types:
            if t[0] in ('x', 'k'):
                names.append(t[1])
            else:
                names.append('?')
        best = 'no'
        for n in names:
            n = {'_queue.Empty': 'queue.Empty'}.get(n, n)
            if n in ('builtins.Exception', 'builtins.BaseException'):
                return 'yes'
            if exc == '?':
                if n == '?' or not (n in ATTRIBUTABLE or n in self.prog.classes):
                    best = 'maybe'
            elif exc == '?other':
                pass
            elif n == '?':
                best = 'maybe'
            elif n in exc_bases(self.prog, exc):
                return 'yes'
        return best

    def ex_Try(self, node, st):
        outs = []
        self.raise_sinks.append([])
        self.try_depth += 1
        try:
            body_outs = self.ex_block(node.body, st)
        finally:
            self.try_depth -= 1
            raised = self.raise_sinks.pop()
        final = node.finalbody
        if final:
            self.raise_sinks.append([])
            self.try_depth += 1
        # else clause
        for kind, v, s in body_outs:
            if kind == 'next' and node.orelse:
                outs.extend(self.ex_block(node.orelse, s))
            else:
                outs.append((kind, v, s))
        seen = set()
        for exc, val, s in raised:
            key = (exc, s.key())
            if key in seen:
                continue
            seen.add(key)
            pending = s
            caught = False
            for h in node.handlers:
                types = [(None, pending)] if h.type is None else self.ev(h.type, pending)
                htype, pending = types[0]
                m = self.match_exc(exc, htype, pending)
                if m == 'no':
                    continue
                s2 = pending.copy() if m == 'maybe' else pending
                if h.name:
                    s2.env[h.name] = val if val is not None else S(('exc', exc))
                self.emit(s2, 'handler', name=exc, node=h, value=val)
                self.handlers.append((exc, val))
                try:
                    outs.extend(self.ex_block(h.body, s2))
                finally:
                    self.handlers.pop()
                if m == 'yes':
                    caught = True
                    break
            if not caught:
                self.raise_sinks[-1].append((exc, val, pending))
        if final:
            self.try_depth -= 1
            inner = self.raise_sinks.pop()
            res = []
            for kind, v, s in outs:
                for k2, v2, s2 in self.ex_block(final, s):
                    res.append((kind, v, s2) if k2 == 'next' else (k2, v2, s2))
            for exc, val, s in inner:
                for k2, v2, s2 in self.ex_block(final, s):
                    if k2 == 'next':
                        self.raise_sinks[-1].append((exc, val, s2))
                    else:
                        res.append((k2, v2, s2))
            outs = res
        return self.dedupe_outs(outs)

    ex_TryStar = ex_Try

    # -- entry points ------------------------------------------------------------------------------------------------

    def run_function(self, fn: Func, args, kwargs, st: State):
        """Analyse one function; returns (returns, raises): lists of (value, state) and (exc, value, state)."""
        self.raise_sinks.append([])
        try:
            rets = self.call_func(fn, args, kwargs, st, fn.node)
        finally:
            raised = self.raise_sinks.pop()
        self.paths += len(rets) + len(raised)
        return rets, raised

    def make_self(self, cls: Class, st: State, ref: str = 'self', opaque: bool = True) -> tuple:
        st.heap[ref] = HObj('obj', cls.qual, {}, opaque=opaque)
        return ('o', ref)


def _as_load(node):
    new = ast.parse(ast.unparse(node), mode='eval').body
    for n in ast.walk(new):
        for attr in ('lineno', 'col_offset', 'end_lineno', 'end_col_offset'):
            if hasattr(node, attr):
                setattr(n, attr, getattr(node, attr))
    return new
