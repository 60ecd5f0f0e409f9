"""
Program model: parses every module of the package and resolves names.

Nothing of the analysed package is ever imported or run; the only input is the text of the files below
``src/hypershell`` in the repository (and, for some rules, its documentation).
"""

from __future__ import annotations

import ast
import builtins
import hashlib
import os
from typing import Dict, List, Optional, Tuple

REPO = os.environ.get('HSA_REPO', '/repo')
PACKAGE = 'hypershell'
BUILTINS = set(dir(builtins))


class AnalysisBroken(Exception):
    """The analysis cannot be carried out (an anchor vanished, the tree cannot be parsed)."""


class Func:
    """A function or method of the repository."""

    def __init__(self, qual: str, node, module: 'Module', cls: Optional['Class'] = None):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.name = node.name
        kind = 'plain'
        self.decorators: List[str] = []
        for deco in node.decorator_list:
            target = deco.func if isinstance(deco, ast.Call) else deco
            text = ast.unparse(target)
            self.decorators.append(text)
            last = text.split('.')[-1]
            if last == 'staticmethod':
                kind = 'static'
            elif last == 'classmethod':
                kind = 'class'
            elif last == 'property':
                kind = 'property'
            elif last == 'cached_property':
                kind = 'cached_property'
        self.kind = kind
        self.is_generator = _has_yield(node)

    @property
    def abstract(self) -> bool:
        return any(d.split('.')[-1] == 'abstractmethod' for d in self.decorators)

    @property
    def where(self) -> str:
        return f'{self.module.relpath}:{self.node.lineno}'

    def __repr__(self):
        return f'<Func {self.qual}>'


def _has_yield(fn) -> bool:
    stack = list(fn.body)
    while stack:
        node = stack.pop()
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(node, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(node))
    return False


class Class:
    """A class of the repository."""

    def __init__(self, qual: str, node: ast.ClassDef, module: 'Module', outer: Optional['Class'] = None):
        self.qual = qual
        self.node = node
        self.module = module
        self.outer = outer
        self.name = node.name
        self.methods: Dict[str, Func] = {}
        self.setters: Dict[str, Func] = {}
        self.annotations: Dict[str, ast.expr] = {}
        self.assigns: Dict[str, ast.expr] = {}
        self.order: List[str] = []
        self.classes: Dict[str, 'Class'] = {}
        self.bases: List[str] = []       # resolved qualified names, filled by Program
        self.mro: List['Class'] = []
        self._holders: Optional[Dict[str, str]] = None
        self.ext_bases: List[str] = []
        self.is_dataclass = any('dataclass' in ast.unparse(d) for d in node.decorator_list)
        for stmt in node.body:
            self._scan(stmt)

    def _scan(self, stmt):
        if isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef)):
            name = mangle(stmt.name, self)
            last = [ast.unparse(d).split('.')[-1] for d in stmt.decorator_list]
            if 'setter' in last:
                self.setters[name] = Func(f'{self.qual}.{stmt.name}.setter', stmt, self.module, self)
                return
            if 'deleter' in last:
                return
            self.methods[name] = Func(f'{self.qual}.{stmt.name}', stmt, self.module, self)
        elif isinstance(stmt, ast.ClassDef):
            self.classes[stmt.name] = Class(f'{self.qual}.{stmt.name}', stmt, self.module, self)
        elif isinstance(stmt, ast.AnnAssign) and isinstance(stmt.target, ast.Name):
            name = mangle(stmt.target.id, self)
            self.annotations[name] = stmt.annotation
            self.order.append(name)
            if stmt.value is not None:
                self.assigns[name] = stmt.value
        elif isinstance(stmt, ast.Assign):
            for target in stmt.targets:
                if isinstance(target, ast.Name):
                    self.assigns[mangle(target.id, self)] = stmt.value
                    self.order.append(mangle(target.id, self))
                elif isinstance(target, (ast.Tuple, ast.List)) and isinstance(stmt.value, (ast.Tuple, ast.List)) \
                        and len(target.elts) == len(stmt.value.elts):
                    for t, v in zip(target.elts, stmt.value.elts):
                        if isinstance(t, ast.Name):
                            self.assigns[mangle(t.id, self)] = v
                            self.order.append(mangle(t.id, self))
        elif isinstance(stmt, (ast.If, ast.Try, ast.With)):
            for sub in ast.iter_child_nodes(stmt):
                if isinstance(sub, ast.stmt):
                    self._scan(sub)

    def find(self, name: str) -> Tuple[Optional['Class'], Optional[str]]:
        """Return (defining class, kind) of an attribute looked up along the MRO."""
        for cls in self.mro:
            if name in cls.methods:
                return cls, 'method'
            if name in cls.assigns:
                return cls, 'assign'
            if name in cls.classes:
                return cls, 'class'
        for cls in self.mro:
            if name in cls.annotations:
                return cls, 'annotation'
        return None, None

    def setter(self, name: str) -> Optional[Func]:
        for cls in self.mro:
            if name in cls.setters:
                return cls.setters[name]
            if name in cls.methods or name in cls.assigns:
                return None
        return None

    def method(self, name: str) -> Optional[Func]:
        for cls in self.mro:
            if name in cls.methods:
                return cls.methods[name]
        return None

    def holder(self, name: str) -> str:
        """The attribute that keeps the constructor's parameter of that name (the name itself where it is an attribute)."""
        if self._holders is None:
            self._holders, found = {}, {}
            init = self.method('__init__')
            params = {a.arg for a in init.node.args.args[1:] + init.node.args.kwonlyargs} if init is not None else set()
            for stmt in ast.walk(init.node) if init is not None else ():
                if isinstance(stmt, (ast.Assign, ast.AnnAssign)) and stmt.value is not None:
                    for target in stmt.targets if isinstance(stmt, ast.Assign) else [stmt.target]:
                        pairs = zip(target.elts, stmt.value.elts) if isinstance(target, ast.Tuple) and isinstance(stmt.value, ast.Tuple) \
                            else [(target, stmt.value)]
                        for t, v in pairs:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == init.node.args.args[0].arg:
                                given = {n.id for n in ast.walk(v) if isinstance(n, ast.Name)} & params
                                if len(given) == 1:
                                    found.setdefault(given.pop(), {})[t.attr] = isinstance(v, ast.Name)
                                self._holders[t.attr] = t.attr
            for param, attrs in found.items():      # one attribute keeps the value itself, or only one is made from it
                plain = [a for a, whole in attrs.items() if whole] or list(attrs)
                if len(plain) == 1:
                    self._holders.setdefault(param, plain[0])
        return self._holders.get(name, name)

    def is_a(self, qual: str) -> bool:
        return any(c.qual == qual for c in self.mro) or qual in self.all_ext_bases()

    def all_ext_bases(self) -> List[str]:
        out = []
        for cls in self.mro:
            out.extend(cls.ext_bases)
        return out

    @property
    def is_enum(self) -> bool:
        return any(b.split('.')[-1] in ('Enum', 'IntEnum', 'Flag', 'StrEnum') for b in self.all_ext_bases())

    @property
    def where(self) -> str:
        return f'{self.module.relpath}:{self.node.lineno}'

    def __repr__(self):
        return f'<Class {self.qual}>'


def mangle(name: str, cls: Optional[Class]) -> str:
    if cls is not None and name.startswith('__') and not name.endswith('__'):
        return f'_{cls.name.lstrip("_")}{name}'
    return name


def plain_names(tree):
    """Undo aliases of imported names where the name itself is not used otherwise."""
    used = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)} | {n.arg for n in ast.walk(tree) if isinstance(n, ast.arg)} | \
        {n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))} | \
        {(a.asname or a.name).split('.')[0] for n in ast.walk(tree) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    public = {e.value for n in tree.body if isinstance(n, (ast.Assign, ast.AnnAssign)) for e in ast.walk(n) if isinstance(e, ast.Constant)
              and any(isinstance(t, ast.Name) and t.id == '__all__' for t in getattr(n, 'targets', [getattr(n, 'target', None)]))}
    names = {}
    for stmt in tree.body:
        if isinstance(stmt, ast.ImportFrom):
            for a in stmt.names:
                if a.asname and a.asname != a.name and a.name not in used and a.asname not in public:
                    names[a.asname] = a.name
                    used.add(a.name)
                    a.asname = None
    for node in ast.walk(tree):
        if isinstance(node, ast.Name) and node.id in names:
            node.id = names[node.id]
        elif isinstance(node, (ast.Global, ast.Nonlocal)):
            node.names = [names.get(n, n) for n in node.names]
    return tree


class Module:
    """One parsed source file."""

    def __init__(self, name: str, path: str, relpath: str):
        self.name = name
        self.path = path
        self.relpath = relpath
        with open(path, 'r', encoding='utf-8') as stream:
            self.source = stream.read()
        try:
            self.tree = plain_names(ast.parse(self.source, filename=path))
            for node in ast.walk(self.tree):
                if isinstance(node, (ast.Assign, ast.AnnAssign)) and isinstance(node.value, ast.GeneratorExp):
                    node.value.lazy = True
        except SyntaxError as error:
            raise AnalysisBroken(f'{relpath}: {error}') from error
        self.functions: Dict[str, Func] = {}
        self.classes: Dict[str, Class] = {}
        self.imports: Dict[str, str] = {}
        self.globals: Dict[str, List[ast.expr]] = {}
        self.global_annotations: Dict[str, ast.expr] = {}
        self.mutated_globals = set()
        for stmt in self.tree.body:
            self._scan(stmt)
        for node in ast.walk(self.tree):
            if isinstance(node, ast.Global):
                self.mutated_globals.update(node.names)

    def _scan(self, stmt):
        if isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.functions[stmt.name] = Func(f'{self.name}.{stmt.name}', stmt, self)
        elif isinstance(stmt, ast.ClassDef):
            self.classes[stmt.name] = Class(f'{self.name}.{stmt.name}', stmt, self)
        elif isinstance(stmt, ast.Import):
            for alias in stmt.names:
                if alias.asname:
                    self.imports[alias.asname] = alias.name
                else:
                    self.imports[alias.name.split('.')[0]] = alias.name.split('.')[0]
        elif isinstance(stmt, ast.ImportFrom):
            base = stmt.module or ''
            if stmt.level:
                parts = self.name.split('.')
                is_pkg = self.path.endswith('__init__.py')
                drop = stmt.level - (1 if is_pkg else 0)
                parts = parts[:len(parts) - drop] if drop else parts
                base = '.'.join(parts + ([base] if base else []))
            for alias in stmt.names:
                self.imports[alias.asname or alias.name] = f'{base}.{alias.name}' if base else alias.name
        elif isinstance(stmt, ast.Assign):
            for target in stmt.targets:
                if isinstance(target, ast.Name):
                    self.globals.setdefault(target.id, []).append(stmt.value)
                elif isinstance(target, (ast.Tuple, ast.List)):
                    for t in target.elts:
                        if isinstance(t, ast.Name):
                            self.globals.setdefault(t.id, []).append(None)
        elif isinstance(stmt, ast.AnnAssign) and isinstance(stmt.target, ast.Name):
            self.global_annotations[stmt.target.id] = stmt.annotation
            if stmt.value is not None:
                self.globals.setdefault(stmt.target.id, []).append(stmt.value)
            else:
                self.globals.setdefault(stmt.target.id, [])
        elif isinstance(stmt, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for sub in ast.iter_child_nodes(stmt):
                if isinstance(sub, ast.stmt):
                    self._scan(sub)
                elif isinstance(sub, ast.ExceptHandler):
                    for inner in sub.body:
                        self._scan(inner)


class Program:
    """All modules of the package."""

    def __init__(self, repo: str = None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, 'src', PACKAGE)
        if not os.path.isdir(self.root):
            raise AnalysisBroken(f'No package at {self.root}')
        self.modules: Dict[str, Module] = {}
        digest = hashlib.sha256()
        for folder, dirs, files in sorted(os.walk(self.root)):
            dirs.sort()
            for name in sorted(files):
                if not name.endswith('.py'):
                    continue
                path = os.path.join(folder, name)
                rel = os.path.relpath(path, self.root)
                parts = rel[:-3].split(os.sep)
                if parts[-1] == '__init__':
                    parts = parts[:-1]
                modname = '.'.join([PACKAGE, *parts]) if parts else PACKAGE
                module = Module(modname, path, os.path.relpath(path, self.repo))
                self.modules[modname] = module
                digest.update(rel.encode() + b'\0' + module.source.encode() + b'\0')
        self.digest = digest.hexdigest()
        self.classes: Dict[str, Class] = {}
        self.functions: Dict[str, Func] = {}
        for module in self.modules.values():
            for fn in module.functions.values():
                self.functions[fn.qual] = fn
            for cls in module.classes.values():
                self._add_class(cls)
        for cls in self.classes.values():
            self._link(cls)
        for cls in self.classes.values():
            cls.mro = self._mro(cls, ())

    # -- construction ------------------------------------------------------------------------------------------

    def _add_class(self, cls: Class):
        self.classes[cls.qual] = cls
        for fn in cls.methods.values():
            self.functions[fn.qual] = fn
        for sub in cls.classes.values():
            self._add_class(sub)

    def _link(self, cls: Class):
        for base in cls.node.bases:
            target = base.value if isinstance(base, ast.Subscript) else base
            got = self.resolve_expr(target, cls.module, cls.outer, skip_class=cls)
            if isinstance(got, Class):
                cls.bases.append(got.qual)
            elif isinstance(got, str):
                cls.ext_bases.append(got)

    def _mro(self, cls: Class, seen) -> List[Class]:
        if cls.qual in seen:
            return [cls]
        out = [cls]
        lists = [list(self._mro(self.classes[b], seen + (cls.qual,))) for b in cls.bases]
        # simple C3-like merge: keep order, push shared bases to the last occurrence
        merged: List[Class] = []
        for seq in lists:
            for item in seq:
                if item in merged:
                    merged.remove(item)
                merged.append(item)
        return out + merged

    # -- name resolution ---------------------------------------------------------------------------------------

    def resolve_qual(self, qual: str, depth: int = 0):
        """Resolve a dotted name: Module, Class, Func, ('global', module, name) or the name itself if external."""
        if depth > 12:
            return qual
        if qual in self.modules:
            return self.modules[qual]
        if qual in self.classes:
            return self.classes[qual]
        if qual in self.functions:
            return self.functions[qual]
        if '.' in qual:
            head, last = qual.rsplit('.', 1)
            owner = self.resolve_qual(head, depth + 1)
            if isinstance(owner, Module):
                return self.resolve_name(last, owner, depth=depth + 1, or_qual=qual)
            if isinstance(owner, Class):
                for sub in owner.mro or [owner]:
                    if last in sub.classes:
                        return sub.classes[last]
                    if last in sub.methods:
                        return sub.methods[last]
                return ('classattr', owner, last)
            if isinstance(owner, str):
                return f'{owner}.{last}'
            return qual
        return qual

    def resolve_name(self, name: str, module: Module, depth: int = 0, or_qual: str = None):
        """Resolve a bare name at module level."""
        if name in module.functions:
            return module.functions[name]
        if name in module.classes:
            return module.classes[name]
        if name in module.globals:
            return ('global', module, name)
        if name in module.imports:
            return self.resolve_qual(module.imports[name], depth + 1)
        sub = f'{module.name}.{name}'
        if sub in self.modules:
            return self.modules[sub]
        if name in BUILTINS:
            return f'builtins.{name}'
        return or_qual or None

    def resolve_expr(self, node, module: Module, cls: Optional[Class] = None, skip_class: Optional[Class] = None):
        """Resolve a Name/Attribute expression used as a type or decorator."""
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                return self.resolve_expr(ast.parse(node.value, mode='eval').body, module, cls)
            except SyntaxError:
                return None
        if isinstance(node, ast.Name):
            scope = cls
            while scope is not None:
                if node.id in scope.classes and scope.classes[node.id] is not skip_class:
                    return scope.classes[node.id]
                scope = scope.outer
            return self.resolve_name(node.id, module)
        if isinstance(node, ast.Attribute):
            owner = self.resolve_expr(node.value, module, cls)
            if isinstance(owner, Module):
                return self.resolve_name(node.attr, owner, or_qual=f'{owner.name}.{node.attr}')
            if isinstance(owner, Class):
                got = self.resolve_qual(f'{owner.qual}.{node.attr}')
                return got
            if isinstance(owner, str):
                return f'{owner}.{node.attr}'
        return None

    def type_of_annotation(self, node, module: Module, cls: Optional[Class] = None):
        """
        Return (type, optional): type is a Class, an external qualified name, or None; container element types
        are dropped except through ``element_of_annotation``.
        """
        if node is None:
            return None, False
        if isinstance(node, ast.Constant):
            if node.value is None:
                return 'builtins.NoneType', True
            if isinstance(node.value, str):
                try:
                    return self.type_of_annotation(ast.parse(node.value, mode='eval').body, module, cls)
                except SyntaxError:
                    return None, False
        if isinstance(node, ast.Subscript):
            base = self.resolve_expr(node.value, module, cls)
            name = base if isinstance(base, str) else getattr(base, 'qual', '')
            if name == 'typing.Optional':
                typ, _ = self.type_of_annotation(node.slice, module, cls)
                return typ, True
            if name == 'typing.Union':
                elts = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
                kinds = [self.type_of_annotation(e, module, cls)[0] for e in elts]
                real = [k for k in kinds if k not in (None, 'builtins.NoneType')]
                return (real[0] if len(real) == 1 else None), 'builtins.NoneType' in kinds
            if name in ('typing.Final', 'typing.ClassVar'):
                return self.type_of_annotation(node.slice, module, cls)
            return base, False
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            left, lo = self.type_of_annotation(node.left, module, cls)
            right, ro = self.type_of_annotation(node.right, module, cls)
            kinds = [k for k in (left, right) if k not in (None, 'builtins.NoneType')]
            opt = 'builtins.NoneType' in (left, right) or lo or ro
            return (kinds[0] if len(kinds) == 1 else None), opt
        return self.resolve_expr(node, module, cls), False

    # -- queries -----------------------------------------------------------------------------------------------

    def subclasses(self, qual: str) -> List[Class]:
        return [c for c in self.classes.values() if c.qual != qual and any(m.qual == qual for m in c.mro)]

    def cls(self, qual: str) -> Class:
        if qual in self.classes:
            return self.classes[qual]
        # moved: accept a unique class of the same name
        same = [c for c in self.classes.values() if c.name == qual.split('.')[-1]]
        if len(same) == 1:
            return same[0]
        raise AnalysisBroken(f'anchor vanished: class {qual}')

    def func(self, qual: str) -> Func:
        if qual in self.functions:
            return self.functions[qual]
        parts = qual.rsplit('.', 1)
        if len(parts) == 2:
            if parts[0] in self.modules:
                got = self.resolve_name(parts[1], self.modules[parts[0]])
                if isinstance(got, Func):
                    return got
            try:
                cls = self.cls(parts[0])
                fn = cls.method(parts[1])
                if fn is not None:
                    return fn
            except AnalysisBroken:
                pass
        raise AnalysisBroken(f'anchor vanished: function {qual}')


_cache: Dict[str, Program] = {}


def load(repo: str = None) -> Program:
    repo = repo or REPO
    if repo not in _cache:
        _cache[repo] = Program(repo)
    return _cache[repo]


# builtin and well-known exception hierarchy ---------------------------------------------------------------------

KNOWN_EXC_BASES = {
    'queue.Empty': 'builtins.Exception',
    'queue.Full': 'builtins.Exception',
    '_queue.Empty': 'builtins.Exception',
    'subprocess.SubprocessError': 'builtins.Exception',
    'subprocess.TimeoutExpired': 'subprocess.SubprocessError',
    'subprocess.CalledProcessError': 'subprocess.SubprocessError',
    'json.JSONDecodeError': 'builtins.ValueError',
    'json.decoder.JSONDecodeError': 'builtins.ValueError',
    'socket.gaierror': 'builtins.OSError',
    'socket.error': 'builtins.OSError',
    'multiprocessing.AuthenticationError': 'multiprocessing.ProcessError',
    'multiprocessing.ProcessError': 'builtins.Exception',
    'multiprocessing.managers.RemoteError': 'builtins.Exception',
    'cmdkit.cli.ArgumentError': 'builtins.Exception',
    'cmdkit.config.ConfigurationError': 'builtins.Exception',
}


def exc_bases(prog: Program, qual: str) -> List[str]:
    """The exception class `qual` and all its known base classes."""
    out = [qual]
    if qual in prog.classes:
        cls = prog.classes[qual]
        for c in cls.mro:
            out.append(c.qual)
            for ext in c.ext_bases:
                out.extend(exc_bases(prog, ext))
        return out
    name = qual.split('.')[-1]
    if qual.startswith('builtins.') and hasattr(builtins, name):
        obj = getattr(builtins, name)
        if isinstance(obj, type) and issubclass(obj, BaseException):
            return [f'builtins.{c.__name__}' for c in obj.__mro__ if c is not object]
    if qual in KNOWN_EXC_BASES:
        out.extend(exc_bases(prog, KNOWN_EXC_BASES[qual]))
        return out
    out.extend(['builtins.Exception', 'builtins.BaseException'])
    return out
