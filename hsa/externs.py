"""
Models of calls that leave the analysed package: builtins, containers, queues, processes, everything else.

A call that is not modelled becomes a symbolic term naming the callee and its arguments, and may raise an unknown
exception where a handler could observe it.
"""

from __future__ import annotations

import shlex
from typing import List, Optional, Tuple

from .interp import (C, NONE, TRUE, FALSE, S, HObj, Event, is_const, cval, item, size, mentions, show,
                     BENIGN_BUILTINS, BENIGN_METHODS, BENIGN_EXTERNALS, PASS_BENIGN)

QUEUE_TYPES = {'queue.Queue', 'multiprocessing.JoinableQueue', 'multiprocessing.Queue', 'queue.SimpleQueue',
               'multiprocessing.queues.JoinableQueue', 'queue.LifoQueue', 'queue.PriorityQueue'}
SHARED = ('scheduled', 'completed', 'heartbeat', 'confirmed')
FRESH = {'datetime.datetime.now': 'datetime.datetime', 'datetime.datetime.utcnow': 'datetime.datetime',
         'time.time': 'builtins.float', 'time.monotonic': 'builtins.float', 'time.perf_counter': 'builtins.float',
         'random.uniform': 'builtins.float', 'random.random': 'builtins.float', 'uuid.uuid4': 'uuid.UUID'}
STR_METHODS = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'replace', 'startswith', 'endswith', 'split', 'rsplit',
               'splitlines', 'join', 'format', 'zfill', 'isdigit', 'isalpha', 'isalnum', 'isascii', 'isdecimal', 'isnumeric', 'isspace', 'isupper', 'islower', 'isprintable', 'isidentifier', 'encode', 'removeprefix',
               'removesuffix', 'partition', 'rpartition', 'find', 'count', 'capitalize', 'ljust', 'rjust', 'center'}


def is_queue(recv) -> bool:
    if recv is None or recv[0] != 's':
        return False
    if recv[2] in QUEUE_TYPES:
        return True
    t = recv[1]
    if t[0] == 'attr' and t[2] in SHARED:
        return True
    return t[0] == 'call' and t[1][0] == 'x' and t[1][1] in QUEUE_TYPES


def channel(recv) -> str:
    """Name of a queue: the shared queue's name, or the local term."""
    t = recv[1]
    if t[0] == 'attr' and t[2] in SHARED:
        return t[2]
    if t[0] == 'param':
        return f'local:{t[-1]}'
    if t[0] == 'attr':
        return f'local:{t[2]}'
    return f'local:{show(recv)}'


def _timed(args, kwargs, first: int) -> bool:
    """True when a queue operation can time out (block=False or a timeout that is not None)."""
    kw = dict((k, v) for k, v in kwargs if k)
    block = kw.get('block', args[first] if len(args) > first else TRUE)
    timeout = kw.get('timeout', args[first + 1] if len(args) > first + 1 else NONE)
    if block == FALSE:
        return True
    return timeout != NONE


def held_forms(ip, values, st) -> Optional[Tuple[bool, set]]:
    """(tracked, forms) of the custody items contained in `values`, or None."""
    forms = set()
    found = []

    def pred(x):
        forms.add(x[2])
        found.append(x[1])
        return False
    for v in values:
        ip.holds(v, st, pred)
    if not found:
        return None
    return any(found), forms


def fallback(ip, f, name, recv, args, kwargs, st, node, typ=None):
    """Unmodelled call: a term."""
    if ip.custody and name not in PASS_BENIGN:
        got = held_forms(ip, ([recv] if recv is not None else []) + list(args) + [v for _, v in kwargs], st)
        if got is not None and name not in ('.task_done', '.debug'):
            tracked, forms = got
            form = next(iter(forms)) if len(forms) == 1 else ('id' if forms == {'id'} else 'mixed')
            return [(item(tracked, form), st)]
    a = tuple(ip.snap(x, st) for x in args)
    k = tuple((n, ip.snap(x, st)) for n, x in kwargs)
    fs = f if f[0] != 's' or f[1][0] != 'attr' else S(('attr', ip.snap(f[1][1], st), f[1][2]))
    term = ('call', fs, a, k)
    if typ is None and name and not name.startswith('.') and name.split('.')[-1][:1].isupper():
        typ = name
    if size(term, 900) > 900:
        term = ('call', ('x', name), (S(('big', getattr(node, 'lineno', 0))),), ())
    return [(S(term, typ), st)]


def call(ip, f, name, recv, args, kwargs, st, node) -> List[Tuple[tuple, object]]:
    hook = getattr(ip, 'extern_hook', None)
    if hook is not None:
        got = hook(ip, f, name, recv, args, kwargs, st, node)
        if got is not None:
            return got
    if recv is not None and name.startswith('.'):
        return method(ip, f, name[1:], recv, args, kwargs, st, node)
    ip.emit(st, 'call', name=name, recv=recv, args=args, kwargs=kwargs, node=node)
    if name.startswith('builtins.'):
        got = builtin(ip, f, name[9:], args, kwargs, st, node)
        if got is not None:
            return got
        if name[9:].split('.')[-1] not in BENIGN_BUILTINS and not name[9:10].isupper():
            ip.maybe_external_raise(st, node)
        if name[9:10].isupper() or name[9:].endswith('Error'):
            return [(S(('exc', name, tuple(ip.snap(a, st) for a in args))), st)]
        return fallback(ip, f, name, recv, args, kwargs, st, node)
    if name in QUEUE_TYPES:       # each construction is a queue of its own
        where = f'{ip.fn.qual if ip.fn else "?"}:{getattr(node, "lineno", 0)}:{getattr(node, "col_offset", 0)}'
        return [(S(('call', f, tuple(ip.snap(x, st) for x in args), tuple((n, ip.snap(x, st)) for n, x in kwargs), where), name), st)]
    if name == 'subprocess.Popen':
        ip.maybe_external_raise(st, node)
        return [(S(('fresh', 'Popen', getattr(node, 'lineno', 0)), 'subprocess.Popen'), st)]
    if name in FRESH:
        return [(S(('fresh', name), FRESH[name]), st)]
    if name == 'functools.partial' and args:
        return [(('p', args[0], tuple(args[1:]), tuple(kwargs)), st)]
    if name == 'itertools.islice' and args:
        ent = ip.entries(args[0], st)
        if ent is not None and len(args) == 2 and is_const(args[1]) and all(m == '1' for m, _ in ent):
            n = cval(args[1])
            if args[0][0] == 'l' and st.heap[args[0][1]].cls == 'iter':
                st.heap[args[0][1]] = HObj('list', 'iter', ent[n:])
            return [(ip.new_list(st, ent[:n], node), st)]
        if ent is not None:
            return [(ip.new_list(st, tuple(('*', x) for _, x in ent), node), st)]
    if name == 'itertools.chain':
        ents = [ip.entries(a, st) for a in args]
        if all(e is not None for e in ents):
            return [(ip.new_list(st, tuple(x for e in ents for x in e), node), st)]
    if name == 'itertools.repeat' and args:
        return [(ip.new_list(st, (('*', args[0]),), node), st)]
    if name in ('copy.copy', 'copy.deepcopy') and args:
        return copy_of(ip, args[0], st, node)
    if name == 'shlex.split' and args and is_const(args[0]) and isinstance(cval(args[0]), str):
        return [(ip.new_list(st, tuple(('1', C(x)) for x in shlex.split(cval(args[0]))), node), st)]
    if name == 'shlex.split' and args and args[0][0] == 'j':
        return [(shlex_template(ip, args[0], st, node), st)]
    if name == 'typing.cast' and len(args) == 2:
        return [(args[1], st)]
    if name not in BENIGN_EXTERNALS:
        ip.maybe_external_raise(st, node)
    return fallback(ip, f, name, recv, args, kwargs, st, node)


def shlex_template(ip, v, st, node):
    """Tokenise an f-string whose holes are opaque."""
    text, holes = '', []
    for p in v[1]:
        if isinstance(p, str):
            text += p
        else:
            text += f'\x01{len(holes)}\x02'
            holes.append(p)
    out = []
    try:
        tokens = shlex.split(text)
    except ValueError:
        return S(('call', ('x', 'shlex.split'), (v,), ()))
    for tok in tokens:
        parts, buf, i = [], '', 0
        while i < len(tok):
            if tok[i] == '\x01':
                j = tok.index('\x02', i)
                if buf:
                    parts.append(buf)
                    buf = ''
                parts.append(holes[int(tok[i + 1:j])])
                i = j + 1
            else:
                buf += tok[i]
                i += 1
        if buf:
            parts.append(buf)
        out.append(('1', parts[0] if len(parts) == 1 and not isinstance(parts[0], str) else ip.make_str(parts)))
    return ip.new_list(st, tuple(out), node)


def copy_of(ip, v, st, node):
    if v[0] in ('l', 'd'):
        o = st.heap[v[1]]
        ref = ip.alloc(st, HObj(o.kind, o.cls, o.attrs), node)
        return [((v[0], ref), st)]
    return [(v, st)]


# -- builtins --------------------------------------------------------------------------------------------------------


def bounds_of_entries(ent):
    lo = sum(1 for m, _ in ent if m in ('1', '+'))
    hi = None if any(m in ('+', '*') for m, _ in ent) else len(ent)
    return lo, hi


def builtin(ip, f, name, args, kwargs, st, node):
    if '.' in name:
        # unbound method of a builtin type: str.strip, dict.fromkeys …
        typ, meth = name.split('.', 1)
        if typ == 'str' and args:
            return method(ip, S(('attr', args[0], meth)), meth, args[0], list(args[1:]), kwargs, st, node)
        if typ == 'dict' and meth == 'fromkeys' and args:
            ent = ip.entries(args[0], st)
            if ent is not None and all(m == '1' for m, _ in ent):
                val = args[1] if len(args) > 1 else NONE
                out = ()
                for _, x in ent:
                    out = ip._dict_put(out, x, val)
                return [(ip.new_dict(st, out, node), st)]
        return None
    a0 = args[0] if args else None
    if name == 'len' and args:
        if is_const(a0) and isinstance(cval(a0), (str, bytes)):
            return [(C(len(cval(a0))), st)]
        if a0[0] == 'd':
            ent = st.heap[a0[1]].attrs
            lo = sum(1 for k, _ in ent if k is not None)
            hi = len(ent) if all(k is not None for k, _ in ent) else None
        else:
            ent = ip.entries(a0, st)
            if ent is None:
                return [(S(('len', ip.snap(a0, st)), 'builtins.int'), st)]
            lo, hi = bounds_of_entries(ent)
        if hi is not None and lo == hi:
            return [(C(lo), st)]
        return [(S(('lenb', a0, lo, hi), 'builtins.int'), st)]
    if name == 'slice' and 1 <= len(args) <= 3:
        lo, hi, step = (NONE, args[0], NONE) if len(args) == 1 else (*args, NONE)[:3]
        return [(S(('sliceof', lo, hi, step), 'builtins.slice'), st)]
    if name in ('str', 'repr') and args:
        if is_const(a0) and name == 'str':
            return [(C(str(cval(a0))), st)]
        if a0[0] == 'j' and name == 'str':
            return [(a0, st)]
        if a0[0] == 's' and a0[2] == 'builtins.str' and name == 'str':
            return [(a0, st)]
        return [(S(('call', ('x', 'builtins.' + name), (ip.snap(a0, st),), ()), 'builtins.str'), st)]
    if name in ('int', 'float') and args:
        if is_const(a0):
            try:
                return [(C((int if name == 'int' else float)(cval(a0))), st)]
            except (ValueError, TypeError, OverflowError) as error:
                ip.maybe_raise('builtins.' + type(error).__name__, st, node, must=True)
                return []
        ip.maybe_raise('builtins.ValueError', st, node)
        return [(S(('call', ('x', 'builtins.' + name), (ip.snap(a0, st),), ()), 'builtins.' + name), st)]
    if name == 'bool' and args:
        return [(C(r), s) for r, s in ip.branch_value(a0, st, node)]
    if name in ('list', 'tuple', 'sorted', 'reversed', 'iter', 'set', 'frozenset') and args:
        if name == 'iter' and a0[0] == 'i':
            return [(iterator(ip, (('+', S(('elem', a0))),), st, node), st)]
        if a0[0] == 'i':
            return [(a0, st)]
        ent = iter_entries(ip, a0, st)
        if ent is not None:
            if name == 'iter':
                if a0[0] == 'l' and st.heap[a0[1]].cls == 'iter':
                    return [(a0, st)]
                return [(iterator(ip, ent, st, node), st)]
            if name == 'tuple' and all(m == '1' for m, _ in ent):
                return [(('t', tuple(x for _, x in ent)), st)]
            if name == 'sorted' and not kwargs and ip.constants(a0, st) is not None:
                try:
                    ent = tuple(('1', C(x)) for x in sorted(cval(x) for _, x in ent))
                except TypeError:
                    pass
            if name == 'reversed' or (name == 'sorted' and dict(kwargs).get('reverse') == TRUE):
                ent = tuple(reversed(ent))
            return [(ip.new_list(st, ent, node), st)]
        if name == 'iter':
            return [(S(('iter', a0)), st)]
        if name in ('list', 'tuple', 'set', 'frozenset'):
            return [(S(('call', ('x', 'builtins.' + name), (ip.snap(a0, st),), ())), st)]
        return None
    if name in ('list', 'tuple', 'set') and not args:
        return [((ip.new_list(st, (), node) if name != 'tuple' else ('t', ())), st)]
    if name == 'dict':
        ent = ()
        if args:
            if a0[0] == 'd':
                ent = st.heap[a0[1]].attrs
            else:
                sub = iter_entries(ip, a0, st)
                if sub is not None and all(x[0] == 't' and len(x[1]) == 2 for _, x in sub):
                    for m, x in sub:
                        ent = ip._dict_put(ent, x[1][0] if m == '1' else None, x[1][1])
                else:
                    ent = ((None, S(('val', a0)) if a0[0] != 'i' else a0),)
        for k, v in kwargs:
            ent = ip._dict_put(ent, C(k) if k else None, v)
        return [(ip.new_dict(st, ent, node), st)]
    if name == 'enumerate' and args:
        ent = iter_entries(ip, a0, st)
        if ent is not None:
            start = cval(args[1]) if len(args) > 1 and is_const(args[1]) else dict(kwargs).get('start', C(0))
            start = cval(start) if isinstance(start, tuple) and is_const(start) else start if isinstance(start, int) else 0
            out, exact = [], True
            for i, (m, x) in enumerate(ent):
                exact = exact and m == '1'
                out.append((m, ('t', (C(i + start) if exact else S(('index', getattr(node, 'lineno', 0)), 'builtins.int'), x))))
            return [(ip.new_list(st, tuple(out), node), st)]
        return None
    if name == 'zip' and args:
        ents = [iter_entries(ip, a, st) for a in args]
        if all(e is not None for e in ents):
            if all(all(m == '1' for m, _ in e) for e in ents):
                out = tuple(('1', ('t', tuple(x[1] for x in row))) for row in zip(*ents))
                return [(ip.new_list(st, out, node), st)]
            if len({tuple(m for m, _ in e) for e in ents}) == 1:
                out = tuple((row[0][0], ('t', tuple(x[1] for x in row))) for row in zip(*ents))
                return [(ip.new_list(st, out, node), st)]
            out = []
            for i in range(max(len(e) for e in ents)):
                out.append(('*', ('t', tuple(e[min(i, len(e) - 1)][1] if e else S(('elem', S(('none',)))) for e in ents))))
            return [(ip.new_list(st, tuple(out), node), st)]
        return None
    if name == 'map' and len(args) >= 2:
        ents = [iter_entries(ip, a, st) for a in args[1:]]
        if len(ents) == 1 and ents[0] is not None:
            results = [((), st)]
            for m, x in ents[0]:
                nxt = []
                for out, s in results:
                    for v, s2 in ip.call(a0, [x], [], s, node):
                        nxt.append((out + ((m, v),), s2))
                results = nxt
            return [(ip.new_list(s, out, node), s) for out, s in results]
        return [(S(('map', a0, *[ip.snap(a, st) for a in args[1:]])), st)]
    if name == 'filter' and len(args) == 2:
        ent = iter_entries(ip, args[1], st)
        if ent is not None:
            results = [((), st)]
            for m, x in ent:
                nxt = []
                for out, s in results:
                    vals = [(x, s)] if a0 == NONE else ip.call(a0, [x], [], s, node)
                    for v, s2 in vals:
                        for r, s3 in ip.branch_value(v, s2, node):
                            nxt.append((out + ((m, x),) if r else out, s3))
                results = nxt
            return [(ip.new_list(s, out, node), s) for out, s in results]
        return [(S(('filter', a0, ip.snap(args[1], st))), st)]
    if name == 'range':
        if all(is_const(a) and isinstance(cval(a), int) for a in args):
            r = range(*[cval(a) for a in args])
            if len(r) <= 12:
                return [(ip.new_list(st, tuple(('1', C(i)) for i in r), node), st)]
        return [(ip.new_list(st, (('*', S(('index', getattr(node, 'lineno', 0)), 'builtins.int')),), node), st)]
    if name == 'next' and args:
        return call_next(ip, args, st, node)
    if name == 'getattr' and len(args) >= 2:
        if is_const(args[1]) and isinstance(cval(args[1]), str):
            if len(args) > 2:
                if a0[0] == 'o':
                    obj = st.heap[a0[1]]
                    cls = ip.prog.classes.get(obj.cls)
                    if cval(args[1]) in obj.attrs:
                        return [(obj.attrs[cval(args[1])], st)]
                    if cls is not None and not obj.opaque and cls.find(cval(args[1]))[1] in (None, 'annotation'):
                        return [(args[2], st)]
                other = st.copy()
                return ip.get_attr(a0, cval(args[1]), st, node) + [(args[2], other)]
            return ip.get_attr(a0, cval(args[1]), st, node)
        return [(S(('getattr', a0, ip.snap(args[1], st))), st)]
    if name == 'setattr' and len(args) == 3:
        if is_const(args[1]):
            ip.set_attr(a0, cval(args[1]), args[2], st, node)
        return [(NONE, st)]
    if name == 'isinstance' and len(args) == 2:
        return isinstance_of(ip, a0, args[1], st, node)
    if name == 'callable' and args:
        if a0[0] in ('f', 'k', 'x', 'p'):
            return [(TRUE, st)]
        return [(S(('callable', ip.snap(a0, st)), 'builtins.bool'), st)]
    if name == 'type' and len(args) == 1:
        if a0[0] == 'o' and st.heap[a0[1]].cls:
            return [(('k', st.heap[a0[1]].cls), st)]
        if a0[0] == 'm':
            return [(('k', a0[1]), st)]
        return None
    if name in ('any', 'all') and args:
        ent = ip.entries(a0, st)
        if ent is not None and all(m == '1' for m, _ in ent):
            out, pending = [], [st]
            stop = name == 'any'
            for _, x in ent:
                nxt = []
                for s in pending:
                    for r, s2 in ip.branch_value(x, s, node):
                        (out.append((C(stop), s2)) if r == stop else nxt.append(s2))
                pending = nxt
            return out + [(C(not stop), s) for s in pending]
        return [(S(('call', ('x', 'builtins.' + name), (ip.snap(a0, st),), ()), 'builtins.bool'), st)]
    if name in ('min', 'max') and len(args) >= 2 and all(is_const(a) for a in args):
        try:
            return [(C((min if name == 'min' else max)(*[cval(a) for a in args])), st)]
        except Exception:
            return None
    if name in ('min', 'max', 'sum', 'abs', 'round'):
        return [(S(('call', ('x', 'builtins.' + name), tuple(ip.snap(a, st) for a in args),
                    tuple((k, ip.snap(v, st)) for k, v in kwargs))), st)]
    if name == 'vars' and args:
        return [(S(('vars', a0)), st)]
    if name == 'open':
        ip.maybe_raise('builtins.OSError', st, node)
        return [(S(('call', ('x', 'builtins.open'), tuple(ip.snap(a, st) for a in args),
                    tuple((k, ip.snap(v, st)) for k, v in kwargs)), 'typing.IO'), st)]
    if name == 'print':
        return [(NONE, st)]
    if name == 'object':
        return [(S(('object', getattr(node, 'lineno', 0))), st)]
    return None


def iterator(ip, ent, st, node):
    """An iterator: a list whose elements are removed by taking them."""
    v = ip.new_list(st, ent, node)
    st.heap[v[1]] = HObj('list', 'iter', ent)
    return v


def iter_entries(ip, v, st):
    if v[0] == 's' and v[1][0] == 'dictitems' and v[1][1][0] == 'd':
        return tuple(('1', ('t', (k, x))) if k is not None else ('*', ('t', (S(('key', x)), S(('val', x)) if x[0] != 'i' else x)))
                     for k, x in st.heap[v[1][1][1]].attrs)
    if v[0] == 's' and v[1][0] == 'iter' and isinstance(v[1][1], tuple):
        return ip.entries(v[1][1], st)
    return ip.entries(v, st)


def call_next(ip, args, st, node):
    hook = getattr(ip, 'next_hook', None)
    if hook is not None:
        got = hook(ip, args, st, node)
        if got is not None:
            return got
    it = args[0]
    out = []
    if it[0] in ('l',):
        ent = st.heap[it[1]].attrs
        kind = st.heap[it[1]].cls
        for i, (m, x) in enumerate(ent):
            s = st.copy()
            again = () if m == '1' else (('*', x),)
            s.heap[it[1]] = HObj('list', kind, again + ent[i + 1:])
            out.append((x, s))
            if m != '*':
                return out
        st.heap[it[1]] = HObj('list', kind, ())
    else:
        out.append((S(('fresh', 'next', ip.snap(it, st))), st.copy()))
    if len(args) > 1:
        out.append((args[1], st))
    else:
        ip.raise_sinks[-1].append(('builtins.StopIteration', S(('exc', 'builtins.StopIteration')), st))
    return out


# no object is an instance of two of these (bool and int apart)
DISJOINT = {'builtins.str', 'builtins.int', 'builtins.float', 'builtins.bool', 'builtins.bytes', 'builtins.dict', 'builtins.list',
            'datetime.datetime', 'datetime.timedelta'}


NONETYPE = S(('call', ('x', 'builtins.type'), (NONE,), ()))


def isinstance_of(ip, v, types, st, node):
    opts = types[1] if types[0] == 't' else (types,)
    known = None
    pyname = {'str': str, 'int': int, 'float': float, 'bool': bool, 'dict': dict, 'list': list, 'tuple': tuple, 'bytes': bytes}
    answers = []
    for t in opts:
        if t[0] == 'x' and t[1].startswith('builtins.') and t[1][9:] in pyname:
            n = t[1][9:]
            if is_const(v):
                answers.append(isinstance(cval(v), pyname[n]))
            elif v[0] == 'l':
                answers.append(n == 'list')
            elif v[0] == 'd':
                answers.append(n == 'dict')
            elif v[0] == 't':
                answers.append(n == 'tuple')
            elif v[0] == 'j':
                answers.append(n == 'str')
            elif v[0] == 's' and v[2] == t[1]:
                answers.append(True)
            elif v[0] in ('m', 'k', 'f', 'o'):
                answers.append(False)
            elif v[0] == 's' and v[2] in DISJOINT and not (v[2] == 'builtins.bool' and n == 'int'):
                answers.append(False)
            else:
                answers.append(None)
        elif t[0] == 'x' and t[1] in DISJOINT and (is_const(v) or v[0] in 'ldtj' or v[0] == 's' and v[2] in DISJOINT):
            answers.append(v[0] == 's' and v[2] == t[1])
        elif t == NONETYPE and (is_const(v) or v[0] in 'ldtjmkfo' or v[0] == 's' and v[2] is not None):
            answers.append(v == NONE)
        elif t[0] == 'k' and v[0] == 'o':
            cls = ip.prog.classes.get(st.heap[v[1]].cls)
            if cls is not None and cls.is_a(t[1]):
                answers.append(True)
            elif cls is not None and not st.heap[v[1]].opaque:
                answers.append(False)
            else:
                answers.append(None)
        elif t[0] == 'k' and (is_const(v) or v[0] == 's' and v[2] in DISJOINT and t[1] in ip.prog.classes
                              and v[2] not in ip.prog.classes[t[1]].all_ext_bases()):
            answers.append(False)
        else:
            answers.append(None)
    if any(a is True for a in answers):
        known = True
    elif answers and all(a is False for a in answers):
        known = False
    if known is not None:
        return [(C(known), st)]
    return [(S(('isinstance', v, types), 'builtins.bool'), st)]


# -- methods ---------------------------------------------------------------------------------------------------------


def list_pop(ip, recv, idx, st, node):
    """Remove and return an element of a list value; every element that could be at that position is considered."""
    ent = st.heap[recv[1]].attrs
    if not ent:
        ip.raise_sinks[-1].append(('builtins.IndexError', S(('exc', 'builtins.IndexError')), st))
        return []
    lo, hi = bounds_of_entries(ent)
    if lo == 0:
        empty = st.copy()
        empty.heap[recv[1]] = HObj('list', None, ())
        ip.raise_sinks[-1].append(('builtins.IndexError', S(('exc', 'builtins.IndexError')), empty))
    exact = all(m == '1' for m, _ in ent)
    if exact and is_const(idx) and isinstance(cval(idx), int) and -len(ent) <= cval(idx) < len(ent):
        i = cval(idx) % len(ent)
        cands = [i]
    else:
        cands = list(range(len(ent)))
    out = []
    for n, i in enumerate(cands):
        m, x = ent[i]
        alts = []
        if m == '1':
            alts.append(ent[:i] + ent[i + 1:])
        else:
            alts.append(ent[:i] + (('*', x),) + ent[i + 1:])
        for rest in alts:
            s = st.copy()
            s.heap[recv[1]] = HObj('list', None, rest)
            out.append((x, s))
    return out


def method(ip, f, meth, recv, args, kwargs, st, node):
    name = '.' + meth
    if is_queue(recv) and meth in ('put', 'put_nowait', 'get', 'get_nowait', 'task_done', 'join', 'empty', 'full', 'qsize'):
        return queue_method(ip, f, meth, recv, args, kwargs, st, node)
    ip.emit(st, 'call', name=name, recv=recv, args=args, kwargs=kwargs, node=node)
    if recv[0] == 'o' and '$list' in st.heap[recv[1]].attrs:
        recv = st.heap[recv[1]].attrs['$list']
    if recv[0] == 'l':
        got = list_method(ip, meth, recv, args, kwargs, st, node)
        if got is not None:
            return got
    if recv[0] == 'd':
        got = dict_method(ip, meth, recv, args, kwargs, st, node)
        if got is not None:
            return got
    if is_const(recv) and isinstance(cval(recv), str) and meth in STR_METHODS:
        if all(is_const(a) for a in args) and all(is_const(v) for _, v in kwargs):
            try:
                got = getattr(cval(recv), meth)(*[cval(a) for a in args], **{k: cval(v) for k, v in kwargs})
                if isinstance(got, list):
                    return [(ip.new_list(st, tuple(('1', C(x)) for x in got), node), st)]
                if isinstance(got, tuple):
                    return [(('t', tuple(C(x) for x in got)), st)]
                return [(C(got), st)]
            except Exception:
                pass
        if meth == 'replace' and len(args) == 2 and is_const(args[0]) and cval(args[0]) and not kwargs:
            pieces = cval(recv).split(cval(args[0]))
            if len(pieces) == 1:
                return [(recv, st)]
            parts = [pieces[0]]
            for piece in pieces[1:]:
                parts.extend([*ip.text_part(args[1]), piece])
            return [(ip.make_str(parts), st)]
        if meth == 'join' and args:
            ent = ip.entries(args[0], st)
            if ent is not None and all(m == '1' for m, _ in ent):
                parts = []
                for i, (_, x) in enumerate(ent):
                    if i and cval(recv):
                        parts.append(cval(recv))
                    p = ip.str_parts(x)
                    parts.extend(p if p is not None else (x,))
                return [(ip.make_str(parts), st)]
            return [(S(('join', recv, ip.snap(args[0], st)), 'builtins.str'), st)]
        if meth == 'format':
            got = ip.format_call(cval(recv), args, kwargs, st) if all(k is not None for k, _ in kwargs) else None
            if got is not None:
                return [(got, st)]
            return [(S(('strformat', recv, tuple(ip.snap(a, st) for a in args),
                        tuple((k, ip.snap(v, st)) for k, v in kwargs)), 'builtins.str'), st)]
    if recv[0] in ('j', 's') and meth == 'join' and len(args) == 1 and (recv[0] == 'j' or recv[2] == 'builtins.str'):
        ent = ip.entries(args[0], st)
        if ent is not None and ent and all(m == '1' for m, _ in ent):
            parts = []
            for i, (_, x) in enumerate(ent):
                parts.extend([*(ip.text_part(recv) if i else ()), *ip.text_part(x)])
            return [(ip.make_str(parts), st)]
    if recv[0] in ('j', 's') and meth in ('strip', 'lower', 'upper', 'replace', 'lstrip', 'rstrip'):
        return [(S(('strm', meth, recv, tuple(args)), 'builtins.str'), st)] if not (ip.custody and
                                                                                   held_forms(ip, [recv], st)) else [(recv, st)]
    if meth == 'wait' and (recv[0] == 's' and (recv[2] or '').endswith('Popen') or _has_timeout(args, kwargs)):
        if _has_timeout(args, kwargs) or args:
            ip.raise_sinks[-1].append(('subprocess.TimeoutExpired', S(('exc', 'subprocess.TimeoutExpired')), st.copy()))
        return [(S(('fresh', 'wait'), 'builtins.int'), st)]
    if meth == 'poll' and recv[0] == 's' and (recv[2] or '').endswith('Popen'):
        return [(S(('fresh', 'poll')), st)]
    if meth in ('__enter__',):
        return [(recv, st)]
    if recv[0] == 'd' and meth in ('items',):
        return [(S(('dictitems', recv)), st)]
    if meth not in BENIGN_METHODS:
        ip.maybe_external_raise(st, node)
    typ = None
    if meth in ('total_seconds',):
        typ = 'builtins.float'
    if recv[0] == 's' and recv[1][0] == 'fresh' and meth == 'astimezone':
        return [(recv, st)]
    if recv[0] == 's' and mentions(recv, lambda t: t[:1] == ('fresh',)) and meth in ('total_seconds', 'timestamp'):
        return [(S(('fresh', meth), 'builtins.float'), st)]
    return fallback(ip, f, name, recv, args, kwargs, st, node, typ)


def _has_timeout(args, kwargs):
    return any(k == 'timeout' and v != NONE for k, v in kwargs)


def list_method(ip, meth, recv, args, kwargs, st, node):
    ref = recv[1]
    if meth == 'append' and args:
        ip.list_append(recv, args[0], st)
        return [(NONE, st)]
    if meth == 'add' and args:
        if is_const(args[0]) and ('1', args[0]) in st.heap[ref].attrs:
            return [(NONE, st)]
        ip.list_append(recv, args[0], st)
        return [(NONE, st)]
    if meth == 'insert' and len(args) == 2:
        o = st.heap[ref]
        if args[0] == C(0) and not ip.custody:
            st.heap[ref] = HObj('list', None, (('1', args[1]),) + o.attrs)
        else:
            ip.list_append(recv, args[1], st)
        return [(NONE, st)]
    if meth in ('extend', 'update') and args:
        ent = iter_entries(ip, args[0], st)
        if ent is None:
            ent = (('*', S(('elem', ip.snap(args[0], st))) if args[0][0] != 'i' else args[0]),)
        for m, x in ent:
            ip.list_append(recv, x, st, m)
        return [(NONE, st)]
    if meth == 'clear':
        st.heap[ref] = HObj('list', None, ())
        return [(NONE, st)]
    if meth == 'copy':
        return [(ip.new_list(st, st.heap[ref].attrs, node), st)]
    if meth in ('pop', 'popleft'):
        idx = args[0] if args else (C(0) if meth == 'popleft' else C(-1))
        return list_pop(ip, recv, idx, st, node)
    if meth in ('remove', 'discard') and args:
        ent = st.heap[ref].attrs
        if meth == 'remove':
            ip.maybe_raise('builtins.ValueError', st, node)
        hit = [i for i, (m, x) in enumerate(ent) if x == args[0]]
        if hit:
            i = hit[0]
            m, x = ent[i]
            st.heap[ref] = HObj('list', None, ent[:i] + ((('*', x),) if m != '1' else ()) + ent[i + 1:])
        return [(NONE, st)]
    if meth in ('sort',):
        return [(NONE, st)]
    if meth == 'reverse':
        st.heap[ref] = HObj('list', None, tuple(reversed(st.heap[ref].attrs)))
        return [(NONE, st)]
    return None


def dict_method(ip, meth, recv, args, kwargs, st, node):
    ref = recv[1]
    ent = st.heap[ref].attrs
    keys_known = all(k is not None and (is_const(k) or k[0] in ('m', 'k', 'x')) for k, _ in ent)
    if meth == 'get' and args:
        default = args[1] if len(args) > 1 else NONE
        for k, x in reversed(ent):
            if k == args[0]:
                return [(x, st)]
            if k is None:
                break
        if keys_known and (is_const(args[0]) or args[0][0] in ('m', 'k', 'x')):
            return [(default, st)]
        outs = []
        for k, x in ent:
            if k is not None and not (is_const(args[0]) and is_const(k)):
                s = st.copy()
                ip.assume(s, ('eq', args[0], k), True)
                outs.append((x, s))
            elif k is None:
                s = st.copy()
                outs.append((S(('val', x)) if x[0] != 'i' else x, s))
        if len(outs) > 24:
            return [(S(('dget', ip.snap(recv, st), args[0])), st)]
        outs.append((default, st))
        return outs
    if meth == 'items':
        return [(S(('dictitems', recv)), st)]
    if meth == 'keys':
        return [(ip.new_list(st, tuple(('1', k) if k is not None else ('*', S(('key', x))) for k, x in ent), node), st)]
    if meth == 'values':
        return [(ip.new_list(st, tuple(('1', x) if k is not None else ('*', S(('val', x)) if x[0] != 'i' else x)
                                       for k, x in ent), node), st)]
    if meth == 'pop' and args:
        for k, x in ent:
            if k == args[0]:
                st.heap[ref] = HObj('dict', None, tuple((kk, xx) for kk, xx in ent if kk != k))
                return [(x, st)]
        if len(args) > 1:
            return [(args[1], st)]
        ip.maybe_raise('builtins.KeyError', st, node)
        return [(S(('dpop', ip.snap(recv, st), args[0])), st)]
    if meth == 'update':
        new = ent
        for a in args:
            if a[0] == 'd':
                for k, x in st.heap[a[1]].attrs:
                    new = ip._dict_put(new, k, x)
            else:
                new = new + ((None, a),)
        for k, v in kwargs:
            new = ip._dict_put(new, C(k) if k else None, v)
        st.heap[ref] = HObj('dict', None, new)
        return [(NONE, st)]
    if meth == 'setdefault' and args:
        for k, x in ent:
            if k == args[0]:
                return [(x, st)]
        v = args[1] if len(args) > 1 else NONE
        st.heap[ref] = HObj('dict', None, ip._dict_put(ent, args[0], v))
        return [(v, st)]
    if meth == 'copy':
        return [(ip.new_dict(st, ent, node), st)]
    if meth == 'clear':
        st.heap[ref] = HObj('dict', None, ())
        return [(NONE, st)]
    return None


def queue_method(ip, f, meth, recv, args, kwargs, st, node):
    chan = channel(recv)
    if meth in ('put', 'put_nowait'):
        value = args[0] if args else dict(kwargs).get('item', dict(kwargs).get('obj', NONE))
        timed = meth == 'put_nowait' or _timed(args, kwargs, 1)
        if timed:
            full = st.copy()
            ip.emit(full, 'qfull', name=chan, recv=recv, args=(value,), node=node)
            ip.raise_sinks[-1].append(('queue.Full', S(('exc', 'queue.Full')), full))
        ip.maybe_external_raise(st, node)
        ip.emit(st, 'put', name=chan, recv=recv, args=(value,), node=node, extra='timed' if timed else 'blocking')
        return [(NONE, st)]
    if meth in ('get', 'get_nowait'):
        timed = meth == 'get_nowait' or _timed(args, kwargs, 0)
        if timed:
            empty = st.copy()
            ip.emit(empty, 'qempty', name=chan, recv=recv, node=node)
            ip.raise_sinks[-1].append(('queue.Empty', S(('exc', 'queue.Empty')), empty))
        ip.maybe_external_raise(st, node)
        ip.emit(st, 'get', name=chan, recv=recv, node=node, extra='timed' if timed else 'blocking')
        hook = getattr(ip, 'get_hook', None)
        if hook is not None:
            got = hook(ip, chan, st, node)
            if got is not None:
                return got
        return [(S(('fresh', 'get', chan)), st)]
    if meth == 'task_done':
        ip.emit(st, 'task_done', name=chan, recv=recv, node=node)
        return [(NONE, st)]
    ip.emit(st, 'call', name='.' + meth, recv=recv, args=args, kwargs=kwargs, node=node)
    if meth in ('empty', 'full'):
        return [(S(('fresh', meth, chan), 'builtins.bool'), st)]
    return [(S(('fresh', meth, chan)), st)]
