"""The number of tasks reported is the number handed on (part of C01)."""
import ast

from ..interp import C, Interp, NONE, State, cval, is_const, mentions, show
from ..machine import entity_summaries
from .errors import shorthand
from .flow import machine
from .machines import construct
from .unset import Machine


def reported(prog, cls, held):
    """The numbers the loader holds that anything else in the package reads."""
    own = set().union(*(set(ast.walk(f.node)) for c in cls.mro for f in c.methods.values()))
    read = {node.attr for module in prog.modules.values() for node in ast.walk(module.tree)
            if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load) and node not in own
            and not (isinstance(node.value, ast.Name) and node.value.id == 'self')}
    return sorted(held & read)


def counted(rep):
    prog = rep.prog
    cls = machine(prog, 'Loader')
    ip, made = construct(prog, cls)
    names = reported(prog, cls, {k for me, st in made for k, v in st.heap[me[1]].attrs.items() if is_const(v) and type(cval(v)) is int})
    rep.check('reported', cls.name, bool(names), 'nothing reports how many tasks were read', cls.where)
    for me, st in made:
        for name in names:
            rep.check('begins', f'{cls.name}: {name}', st.heap[me[1]].attrs.get(name) == C(0), 'counting begins with something else than zero', cls.where)
    puts = 0
    for fn in Machine(prog, cls).actions().values():
        ip = Interp(prog, summaries=entity_summaries(prog))
        ip.extern_hook = shorthand
        ip.on_event = lambda ip, ev, st: setattr(st, 'mon', st.mon + ((ev.kind,) if ev.kind in ('put', 'qfull') else ()))
        st = State()
        st.mon = ()
        me = ip.make_self(cls, st, opaque=True)
        for v, s in ip.run_function(fn, [] if fn.kind == 'static' else [me], [], st)[0]:
            n = s.mon.count('put')
            puts += n
            for name in names:
                x = s.heap[me[1]].attrs.get(name)
                rep.check('counted', f'{fn.qual}: {name}', delta(x, name) == n or delta(x, name) is None and not mentions(x, lambda t: t[:1] == ('attr',) and t[2] == name), f'{n} tasks are handed on, but the count becomes {show(x or NONE)}', fn.where)
        rep.saw(ip)
    rep.floor('ways to hand a task on', puts, 1)


def delta(v, name):
    """By how much an attribute has grown; None if this is not known."""
    if v is None:
        return 0
    t = v[1] if v[0] == 's' else v
    if t[0] == 'attr' and t[2] == name:
        return 0
    if t[0] == 'bin' and t[1] in ('+', '-'):
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            d = delta(a, name) if a[0] in ('s', 'attr') else None
            if d is not None and is_const(b) and isinstance(cval(b), int):
                return d + cval(b) * (1 if t[1] == '+' else -1)
    return None
