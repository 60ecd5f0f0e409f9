"""What a template makes of the arguments of a task."""

from __future__ import annotations

import ast
import builtins
import re

from ..interp import Interp, State, C, S, NONE, TRUE, FALSE, is_const, cval, show, mentions
from ..model import AnalysisBroken
from ..report import rule

ARGS = S(('args',), 'builtins.str')
WORDS = tuple(S(('word', i), 'builtins.str') for i in range(7))
MODULES = {'os': 'os', 'path': 'os.path', 'math': 'math', 'dt': 'datetime'}


def call_of(v):
    """(name, receiver, arguments) of a term that is a call."""
    if v[0] == 's' and v[1][0] == 'call':
        f = v[1][1]
        if f[0] == 'x':
            return f[1], None, v[1][2], dict(v[1][3])
        if f[0] == 's' and f[1][0] == 'attr':
            return '.' + f[1][2], f[1][1], v[1][2], dict(v[1][3])
    if v[0] == 's' and v[1][0] == 'strm':
        return '.' + v[1][1], v[1][2], v[1][3], {}
    return None, None, (), {}


def canon(v):
    """A term for a part of a path, however it is written."""
    name, recv, args, kw = call_of(v)
    if name in ('os.path.dirname', 'os.path.basename') and len(args) == 1:
        return (name[8:], canon(args[0]))
    if name in ('os.path.split', 'os.path.splitext') and len(args) == 1:
        return (name[8:], canon(args[0]))
    if name == 'builtins.str' and len(args) == 1:
        return canon(args[0])
    index = None
    if v[0] == 's' and v[1][0] == 'sub' and is_const(v[1][2]):
        inner, index = canon(v[1][1]), cval(v[1][2])
    if v[0] == 's' and v[1][0] == 'unpack' and len(v[1]) > 2 and isinstance(v[1][2], int):
        inner, index = canon(v[1][1]), v[1][2]
    if index in (0, 1, -1, -2) and isinstance(inner, tuple) and inner[0] in ('split', 'splitext'):
        first = index in (0, -2)
        return ({'split': ('dirname', 'basename'), 'splitext': ('root', 'ext')}[inner[0]][0 if first else 1], inner[1])
    if name in ('.strip', '.lstrip', '.removeprefix') and args == (C('.'),):
        inner = canon(recv)
        if isinstance(inner, tuple) and inner[0] == 'ext':
            return ('suffix', inner[1])
    if name == '.replace' and args[:2] == (C('.'), C('')):
        inner = canon(recv)
        if isinstance(inner, tuple) and inner[0] == 'ext':
            return ('suffix', inner[1])
    if v[0] == 's' and v[1][0] == 'slice' and v[1][2] == C(1) and v[1][3] == NONE and v[1][4] in (NONE, C(1)):
        inner = canon(v[1][1])
        if isinstance(inner, tuple) and inner[0] == 'ext':
            return ('suffix', inner[1])
    if v[0] == 'j' and len(v[1]) == 1 and not isinstance(v[1][0], str):
        return canon(v[1][0])
    return v


def parts(v):
    """A text as a sequence of constant pieces and canonical terms."""
    out = []

    def add(x):
        if isinstance(x, str):
            if out and isinstance(out[-1], str):
                out[-1] += x
            elif x:
                out.append(x)
        elif is_const(x) and isinstance(cval(x), str):
            add(cval(x))
        elif x[0] == 'j':
            for p in x[1]:
                add(p)
        elif x[0] == 's' and x[1][0] == 'bin' and x[1][1] in ('+', 'Add'):
            add(x[1][2])
            add(x[1][3])
        else:
            out.append(canon(x))
    add(v)
    return out


class Templates:
    """The template class, with the standard library folded on constants and the arguments of the task unknown."""

    def __init__(self, prog):
        self.prog = prog
        self.cls = prog.cls('hypershell.core.template.Template')
        self.ip = Interp(prog)
        self.ip.exact_lists = self.ip.enter_objects = True
        self.ip.extern_hook = self.library
        self.ip._globals = {}
        self.shell = []
        self.output = S(('output',), 'builtins.bytes')
        self.fails = False

    # -- the library on constants ---------------------------------------------------------------------------------------

    def wrap(self, x, st, node):
        if isinstance(x, tuple):
            return ('t', tuple(self.wrap(y, st, node) for y in x))
        if isinstance(x, list):
            return self.ip.new_list(st, tuple(('1', self.wrap(y, st, node)) for y in x), node)
        return C(x)

    def library(self, ip, f, name, recv, args, kwargs, st, node):
        kw = dict(kwargs)
        flat = list(args) + list(kw.values())
        if name.startswith('re.') and name != 're.escape' or recv is not None and is_const(recv) and isinstance(cval(recv), (re.Pattern, re.Match)):
            if recv is None and not hasattr(re, name[3:]):
                return None
            routine = getattr(re, name[3:], None) if recv is None else getattr(cval(recv), name[1:], None)
            if name.split('.')[-1] in ('sub', 'subn'):
                return self.substituted(recv, args, kw, st, node)
            if routine is not None and all(is_const(a) for a in flat):
                try:
                    got = routine(*[cval(a) for a in args], **{k: cval(v) for k, v in kw.items()})
                except (IndexError, TypeError, ValueError, re.error) as error:
                    ip.maybe_raise(f'builtins.{type(error).__name__}', st, node, must=True)
                    return []
                if name.split('.')[-1] == 'finditer':
                    got = list(got)
                return [(self.wrap(got, st, node), st)]
        if recv == ARGS and name == '.split' and not [a for a in flat if a != NONE and a != C(-1)]:
            return [(ip.new_list(st, tuple(('1', w) for w in WORDS), node), st)]
        if name in ('builtins.eval',) and args and is_const(args[0]) and isinstance(cval(args[0]), str):
            return self.evaluate(cval(args[0]), args[1:], st, node)
        if name.startswith('subprocess.') or name in ('os.popen', 'os.system'):
            return self.process(name, args, kw, st, node)
        if name in ('.communicate',) and recv is not None and recv[0] == 's' and recv[1][:1] == ('process',):
            return [(('t', (S(('attr', recv, 'stdout')), NONE)), st)]
        if recv is not None and recv[0] == 's' and recv[1] == ('text', self.output) and name in ('.strip', '.rstrip', '.rstrip'):
            if name == '.strip' and not flat:
                return [(S(('trimmed', self.output), 'builtins.str'), st)]
        if recv == self.output and name == '.decode':
            return [(S(('text', self.output), 'builtins.str'), st)]
        if recv == self.output and name == '.strip' and not flat:
            return [(S(('trimmed bytes', self.output), 'builtins.bytes'), st)]
        if recv is not None and recv[0] == 's' and recv[1] == ('trimmed bytes', self.output) and name == '.decode':
            return [(S(('trimmed', self.output), 'builtins.str'), st)]
        if name == 'builtins.str' and args == [self.output] and len(kw) == 1:
            return [(S(('text', self.output), 'builtins.str'), st)]
        return None

    def substituted(self, recv, args, kw, st, node):
        names = ['pattern', 'repl', 'string'][0 if recv is None else 1:]
        given = {**dict(zip(names, args)), **kw}
        pattern = recv if recv is not None else given.get('pattern', NONE)
        repl, text = given.get('repl', NONE), given.get('string', NONE)
        if not (is_const(pattern) and is_const(text)) or set(given) - {'pattern', 'repl', 'string'}:
            return None
        if is_const(repl):
            return [(C(re.sub(cval(pattern), cval(repl), cval(text))), st)]
        todo = [((), 0, st)]
        for m in re.finditer(cval(pattern), cval(text)):
            nxt = []
            for got, at, s in todo:
                for v, s2 in self.ip.call(repl, [C(m)], [], s, node):
                    nxt.append((got + (cval(text)[at:m.start()], v), m.end(), s2))
            todo = nxt
        out = []
        for got, at, s in todo:
            flat = [p for x in got + (cval(text)[at:],) for p in ([x] if isinstance(x, str) else self.ip.text_part(x))]
            out.append((self.ip.make_str(flat), s))
        return out

    def evaluate(self, text, spaces, st, node):
        """An expression in the text of a template: evaluated with exactly the names it is given."""
        try:
            tree = ast.parse(text.strip() if not text[:1].isspace() else text, mode='eval')
        except SyntaxError:
            self.ip.maybe_raise('builtins.SyntaxError', st, node, must=True)
            return []
        env = {}
        for space in spaces:
            entries = st.heap[space[1]].attrs if space[0] == 'd' else space[1] if space[0] == 'dct' else None
            if entries is None or any(k is None or not is_const(k) for k, _ in entries):
                return None
            env.update({cval(k): v for k, v in entries})
        bound = {a.arg for n in ast.walk(tree) if isinstance(n, ast.Lambda) for a in n.args.args}
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and n.id not in env and n.id not in bound and not hasattr(builtins, n.id):
                self.ip.maybe_raise('builtins.NameError', st, node, must=True)
                return []
        keep, st.env = st.env, dict(env)
        for n in ast.walk(tree):
            if hasattr(n, 'lineno'):
                n.lineno, n.col_offset = 100000 + abs(hash(text)) % 100000, n.col_offset
        out = self.ip.ev(tree.body, st)
        for _, s in out:
            s.env = dict(keep)
        return out

    def process(self, name, args, kw, st, node):
        """Something is run: note it; it may fail where failures are looked at."""
        short = name.split('.')[-1]
        command = args[0] if args else kw.get('args', NONE)
        text = kw.get('text', kw.get('universal_newlines', FALSE)) == TRUE or kw.get('encoding', NONE) != NONE
        through = kw.get('shell') == TRUE or short in ('getoutput', 'getstatusoutput', 'popen', 'system')
        if not through and command[0] in ('l', 't'):
            ent = self.ip.entries(command, st)
            words = [x for _, x in ent] if ent else []
            if len(words) == 3 and is_const(words[0]) and str(cval(words[0])).split('/')[-1] in ('sh', 'bash') and words[1] == C('-c'):
                through, command = True, words[2]
        if short in ('PIPE', 'DEVNULL', 'STDOUT'):
            return None
        result = S(('text', self.output), 'builtins.str') if text else self.output
        noticed = short in ('check_output', 'check_call') or kw.get('check') == TRUE
        self.shell.append((command, through, noticed))
        if self.fails:
            if noticed:
                self.ip.maybe_raise('subprocess.CalledProcessError', st, node, must=True)
                return []
        if short == 'check_output':
            return [(result, st)]
        if short == 'run':
            v = S(('process', name, kw.get('check') == TRUE))
            self.ip.known = {**self.ip.known, S(('attr', v, 'stdout')): result, S(('attr', v, 'returncode')): C(1 if self.fails else 0)}
            return [(v, st)]
        return None

    # -- asking ------------------------------------------------------------------------------------------------------------

    def expand(self, template, args=ARGS):
        """[(text, state)] of the expansion and the exceptions it may end with."""
        self.ip.known = {}
        self.shell = []
        results, failures = [], []
        st = State()
        self.ip.raise_sinks.append([])
        made = self.ip.call(('k', self.cls.qual), [C(template)], [], st, None)
        failures += self.ip.raise_sinks.pop()
        for v, s in made:
            fn = self.cls.method('expand')
            if fn is None:
                raise AnalysisBroken('templates have no method "expand"')
            rets, raised = self.ip.run_function(fn, [v, args], {}, s)
            results += [x for x, _ in rets]
            failures += raised
        return results, [e[0] for e in failures]


def pieces(v):
    return ' '.join(repr(p) if isinstance(p, str) else show(p) if p and p[0] in ('s', 'j', 'c') else str(p) for p in parts(v))


PATHS = {'.': ('dirname', ARGS), '..': ('dirname', ('dirname', ARGS)), '/': ('basename', ARGS), '/-': ('root', ('basename', ARGS)),
         '-': ('root', ARGS), '+': ('ext', ARGS), '++': ('suffix', ARGS), '': ARGS}
SAME = {('basename', ('root', ARGS)): ('root', ('basename', ARGS)), ('ext', ('basename', ARGS)): ('ext', ARGS),
        ('suffix', ('basename', ARGS)): ('suffix', ARGS)}      # an extension belongs to the last component
SLICES = ['0', '1', '-1', '-2', '1:3', ':4', '-2:', '::2', '1::2', '2:', ':', '::', '1:6:2', '::-1', ':-1', '-3:-1', '5:1:-2', '3:2', '0:1', '10:', ':10']
BAD_SLICES = ['a', '0,1', '1.5', '1:2:3:4', '0]+[1', 'x:y', '__import__("os")']
EXPRESSIONS = [('x * 2', '21', '42'), ('x * 2', '1.5', '3.0'), ('x * 2', 'ab', 'abab'), ('x * 2', '-3', '-6'), ('x is None', 'null', 'True'),
               ('x is None', 'none', 'True'), ('x is True', 'true', 'True'), ('x is True', 'TRUE', 'True'), ('x is None', 'NULL', 'True'), ('x', '007a', '007a'),
               ('x is False', 'false', 'True'), ('x == 2', '2', 'True'),
               ('x == 2', '3', 'False'), ('1 if x >= 2 else 0', '2', '1'), ('1 if x != 2 else 0', '2', '0'), ('(x, 2)[0]', '5', '5'),
               ('x % 4', '7', '3'), ('"{0}-%s" % x' if False else '"%s-%s" % (x, x)', 'a', 'a-a'), ('x + 1', '1e3', '1001.0'),
               ('x', 'some text', 'some text'), ('x.split(",")[1]', 'a,b', 'b'), ('x.replace("=", "-")', 'a=b', 'a-b'),
               ('x[1:]', 'abc', 'bc'), ('len(x)', 'abc', '3'), ('x.upper()', 'Abc', 'ABC'), ('str(x) + "/" + str(x)', '7', '7/7')]


@rule('C37', technique='abstract interpretation of the template language with unknown arguments; provenance of every piece of the result',
      explanation='Every documented notation is expanded by the abstract interpreter with unknown arguments: the result must consist of the text '
                  'around the notation and of exactly the documented part of the arguments; expressions see the coerced value and the documented '
                  'modules; commands go to the shell as written; what is not understood or fails is an error.')
def template_notations(rep):
    prog = rep.prog
    t = Templates(prog)
    where = t.cls.where

    def expect(construct, template, want, args=ARGS):
        results, failures = t.expand(template, args)
        got = [[SAME.get(p, p) if isinstance(p, tuple) else p for p in parts(v)] for v in results]
        shown = pieces(results[0]) if results else f'error ({", ".join(failures)[:80]})'
        good = bool(results) and all(g == want for g in got) and not failures
        rep.check('expands', construct, good, f'{template} becomes {shown[:150]}', where)

    def refused(construct, template, args=ARGS):
        results, failures = t.expand(template, args)
        rep.check('refused', construct, not results and bool(failures), f'{template} becomes {pieces(results[0])[:150] if results else "nothing"}', where)

    def joined(words):
        out = []
        for i, w in enumerate(words):
            out += ([' '] if i else []) + [w]
        return out

    for key, want in PATHS.items():
        expect(f'{{{key}}}', f'{{{key}}}', [want])
        expect(f'{{{key}}} within text', f'run -i {{{key}}} > out', ['run -i ', want, ' > out'])
        expect(f'{{{key}}} with blanks', f'{{ {key} }}', [want])
    expect('several notations', '{}{/} -o {.}/x{+}y{/-}', [ARGS, PATHS['/'], ' -o ', PATHS['.'], '/x', PATHS['+'], 'y', PATHS['/-']])
    expect('the same notation twice', 'cp {} {}.bak', ['cp ', ARGS, ' ', ARGS, '.bak'])
    expect('blanks at the ends', ' \t{}  ', [' \t', ARGS, '  '])
    expect('several lines', 'a {}\nb {/}\n', ['a ', ARGS, '\nb ', PATHS['/'], '\n'])
    for text in ('', ' two  blanks ', 'no notation', 'echo $HOME }{', 'a } b', "it's", '100%', '[0]', '=x='):
        expect('text without notation', text, [text] if text else [])
    for key in SLICES:
        chosen = WORDS[int(key)] if ':' not in key else None
        want = [chosen] if chosen is not None else joined(eval(f'w[{key}]', {'w': list(WORDS)}))
        expect(f'{{[{key}]}}', f'{{[{key}]}}', want)
    expect('slice within text', 'go {[0]} -n {[1:3]} end', ['go ', WORDS[0], ' -n ', WORDS[1], ' ', WORDS[2], ' end'])
    for key in BAD_SLICES:
        refused(f'{{[{key}]}}', f'{{[{key}]}}')
    refused('an argument that is not there', '{[9]}')
    refused('an argument that is not there', '{[-9]}')
    for key in ('...', '//', 'x', '0', '-/', '+-', '[0', '=x', '%x', '[0]x', 'x[0]', 'y=1=', 'x%y%', '=x=y', '%x%y', '.-'):
        refused(f'unknown notation {{{key}}}', f'echo {{{key}}}')
    for text, args, want in EXPRESSIONS:
        expect(f'{{= {text} =}} of {args}', f'a {{= {text} =}} b', [f'a {want} b'], C(args))
    expect('expression without blanks', '{=x+1=}', ['2'], C('1'))
    for text in ('x +', 'y', 'subprocess.run(x)', 'sys.exit()', '1/0 if False else unknown'):
        refused(f'{{= {text} =}}', f'{{= {text} =}}', C('1'))
    for name, module in MODULES.items():
        text = {'os': 'os.getpid()', 'path': 'path.getsize(x)', 'math': 'math.sqrt(x)', 'dt': 'dt.date.fromordinal(x)'}[name]
        results, failures = t.expand(f'{{= {text} =}}', C('4'))
        qual = module + text[len(name):text.index('(')]
        ok = bool(results) and all(
            mentions(v, lambda y: y == ('x', qual)) for v in results)
        rep.check('expands', f'module {name}', ok, f'expressions cannot use the module {module} as {name}', where)
    for command, want in (('basename @', ['basename ', ARGS]), ('mktemp -d', ['mktemp -d']), ('a @ @ b', ['a ', ARGS, ' ', ARGS, ' b']),
                          ('date +%F-@', ['date +%F-', ARGS]), ("awk '$1 == 2' @", ["awk '$1 == 2' ", ARGS]), ('echo "%s" @', ['echo "%s" ', ARGS])):
        for fails in (False, True):
            t.fails = fails
            template = f'in {{% {command} %}} out'
            results, failures = t.expand(template)
            construct = f'{{% {command} %}}' + (' which fails' if fails else '')
            if fails:
                rep.check('refused', construct, not results and bool(failures), f'the failure of the command in {template} goes unnoticed', where)
                continue
            runs = [(strip(parts(c)), through) for c, through, _ in t.shell]
            rep.check('runs', construct, runs == [(want, True)], f'{template} runs {[" ".join(map(str, r)) for r, _ in runs][:2]}'[:200], where)
            rep.check('expands', construct, bool(results) and all(parts(v) == ['in ', S(('trimmed', t.output), 'builtins.str'), ' out'] for v in results)
                      and not failures, f'{template} becomes {pieces(results[0])[:150] if results else failures[:1]}', where)
    t.fails = False
    for given in (3, None):
        t.ip.raise_sinks.append([])
        made = t.ip.call(('k', t.cls.qual), [C(given)], [], State(), None)
        raised = t.ip.raise_sinks.pop()
        rep.check('refused', 'a template that is no text', not made and bool(raised), 'a template that is no text is accepted', where)
    rep.saw(t.ip)
    rep.floor('notations of paths', len(PATHS), 8)


def strip(pieces_):
    """Without blanks at the ends (the shell ignores them)."""
    out = list(pieces_)
    if out and isinstance(out[0], str):
        out[0] = out[0].lstrip()
    if out and isinstance(out[-1], str):
        out[-1] = out[-1].rstrip()
    return [p for p in out if p != '']
