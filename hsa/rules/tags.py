"""
Tags are checked and understood as documented (C53).

What reads a tag from a command line, and what checks a dictionary of tags, is interpreted with constants folded, over a
partition of names and values: each kind of value, each length around the limit, and each character on its own.
"""
from ..interp import C, State, show
from ..machine import TASK
from ..model import AnalysisBroken
from ..report import rule
from .tasks import Shell, Unknown, coerced, python

GOOD = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+._-')
BEYOND = 'é²٣ａßЖ中\u200b'
#: characters that split or strip a tag on the command line are given in dictionaries only
LONGEST = 120


def valid(v):
    if v is None or isinstance(v, (bool, int, float)):
        return True
    return isinstance(v, str) and (not v.strip() or len(v) <= LONGEST and set(v) <= GOOD)


class Tags:
    def __init__(self, prog):
        self.prog, self.sh = prog, Shell(prog)
        self.sh.ip.enter_objects = True
        self.task = prog.cls(TASK)

    def value(self, v, st):
        ip = self.sh.ip
        if isinstance(v, list):
            return ip.new_list(st, [('1', self.value(x, st)) for x in v], None)
        if isinstance(v, tuple):
            return 't', tuple(self.value(x, st) for x in v)
        if isinstance(v, dict):
            return ip.new_dict(st, [(C(k), self.value(x, st)) for k, x in v.items()], None)
        return C(v)

    def run(self, cls, name, *args, **kwargs):
        fn = cls.method(name)
        if fn is None:
            raise AnalysisBroken(f'{cls.name}.{name} is gone')
        st = State()
        st.mon = ((), frozenset())
        given = [self.value(a, st) for a in args]
        if fn.kind == 'class':
            given = [('k', cls.qual)] + given
        return fn, *self.sh.ip.run_function(fn, given, [(k, self.value(v, st)) for k, v in kwargs.items()], st)


def cases():
    """Dictionaries of tags."""
    for v in (None, True, False, 0, -7, 3.5, '', '   ', 'x', 'a-b_c.d+e', 'A' * 119, 'A' * 120, 'A' * 121, 'A' * 500, [1], [], {'a': 1}, {},
              b'abc', (1,), 'a b', 'a\tb', 'ab ', ' ab', 'a:b', ' ' * 121):
        yield {'key': v}
    for c in [chr(n) for n in range(128)] + list(BEYOND):
        yield {'key': f'a{c}b'}
        yield {'key': c}
        yield {'key': f'ab{c}'}
        yield {'key': f'{c}ab'}
    for v in ('', 1, 'ok'):
        for bad in ('a b', [1], 'B' * 121):
            yield {'one': v, 'two': bad}
            yield {'one': bad, 'two': v}
        yield {'one': v, 'two': 'fine', 'three': None}
    yield {}
    for key in (1, None, b'key', True):
        yield {key: 'value'}
        yield {'fine': 'value', key: ''}


def fine(tag):
    return all(isinstance(k, str) and valid(v) for k, v in tag.items())


def brief(x):
    return repr(x) if len(repr(x)) < 40 else repr(x)[:20] + f'... ({len(repr(x))} characters)'


def checked(rep, t):
    """What a new task accepts as its tags."""
    n = {True: 0, False: 0}
    for tag in cases():
        want = fine(tag)
        n[want] += 1
        fn, rets, raised = t.run(t.task, 'new', 'true', tag=tag)
        about = f'tags {brief(tag)}'
        rep.check('accepted' if want else 'refused', 'Task.new', bool(rets) == want and bool(raised) != want,
                  f'{about}: ' + ('refused although nothing is wrong with them' if want else 'accepted'), fn.where)
        for v, st in rets if want else ():
            try:
                got = python(st.heap[v[1]].attrs['tag'], st) if v[0] == 'o' else None
            except (Unknown, KeyError):
                got = show(v)
            rep.check('kept', 'Task.new', got == tag and all(type(got[k]) is type(tag[k]) for k in tag), f'{about}: recorded as {got!r}', fn.where)
    for other in (['a:b'], 'a:b', 5):
        fn, rets, raised = t.run(t.task, 'new', 'true', tag=other)
        rep.check('refused', 'Task.new', not rets and bool(raised), f'{brief(other)} is accepted as tags', fn.where)
    rep.floor('dictionaries of tags accepted', n[True], 50)
    rep.floor('dictionaries of tags refused', n[False], 100)


NAMES = ('k', 'key', 'a.b', 'x-1', 'UPPER')
VALUES = ('', 'v', 'Value-1', '0', '7', '-3', '2.5', '1e3', 'true', 'False', 'null', 'None', 'ok_1.2', '0x1', 'a:b', 'a b', 'é', 'z' * 120, 'z' * 121, 'a/b',
          'a,b', '$x', 'trueish', 'nullable', '1.2.3', '007', '00')


def read(rep, t):
    """What the texts of a command line mean."""
    cls = t.prog.cls('hypershell.task.Tag')
    lists = [([f'{n}{sep}{v}'], {n: coerced(v)}) for n in NAMES for v in VALUES for sep in (':', ': ', ' :') if sep == ':' or n == 'k']
    lists += [([n], {n: ''}) for n in NAMES] + [([f' {n} '], {n: ''}) for n in NAMES]
    lists += [([], {}), (['a:1', 'b:x', 'c'], {'a': 1, 'b': 'x', 'c': ''}), (['a:1', 'a:2'], {'a': 2}), (['a', 'b:c d'], {'a': '', 'b': 'c d'}),
              (['b:c d', 'a'], {'a': '', 'b': 'c d'}), (['x:1', 'y:1', 'X:2'], {'x': 1, 'y': 1, 'X': 2})]
    n = 0
    for texts, want in lists:
        fn, rets, raised = t.run(cls, 'parse_cmdline_list', texts)
        about = ' '.join(map(brief, texts)) or 'no tags'
        n += 1
        if not fine(want):
            rep.check('refused', 'Tag: command line', not rets and bool(raised), f'{about}: accepted', fn.where)
            continue
        rep.check('accepted', 'Tag: command line', bool(rets) and not raised, f'{about}: refused although nothing is wrong with it', fn.where)
        for v, st in rets:
            try:
                got = python(v, st)
            except Unknown:
                got = show(v)
            rep.check('meant', 'Tag: command line', got == want and {k: type(x) for k, x in got.items()} == {k: type(x) for k, x in want.items()},
                      f'{about}: understood as {got!r} and not as {want!r}', fn.where)
    rep.floor('texts of tags read', n, 100)


@rule('C53', technique='abstract interpretation with constant folding over a partition of tags', level='other',
      explanation='Every way a tag comes in (the texts of a command line, a dictionary for a new task) is interpreted over a partition '
                  'of values (kinds, lengths around the limit, each character): what is accepted, and as what, is compared with the '
                  'documentation.')
def tags(rep):
    t = Tags(rep.prog)
    checked(rep, t)
    read(rep, t)
    rep.saw(t.sh.ip)
