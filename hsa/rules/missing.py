"""
Nothing the program refers to is missing (C48).

The whole package is read once: every name that is looked up globally, every attribute that is read from an instance
of a class of the package (the object a method is called on, and objects of declared or constructed types), every
attribute of a class or module of the package, every import from the package, and every call of a function, method or
constructor of the package. Python looks all of these up only when the line is reached, so each of them is a command
that ends with a traceback in a situation the tests may never reach. What is dynamic (``setattr`` with a computed
name, ``**kwargs``, decorators that replace the signature) is left out and counted.
"""
import ast
import builtins
import glob
import importlib
import inspect
import os
import symtable
import sys
from typing import Dict, List, Optional, Set

from hsa import cli
from hsa.model import Class, Func, Module, Program, mangle
from hsa.report import rule
from hsa.rules.unset import unset

TECH = 'name resolution, member and signature checking over the syntax tree'
MODULE_NAMES = {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__path__', '__loader__', '__builtins__', '__dict__',
                '__debug__', '__annotations__', '__all__', '__version__'}
KEEPS_SIGNATURE = {'staticmethod', 'classmethod', 'property', 'cached_property', 'abstractmethod', 'contextmanager', 'cache', 'lru_cache',
                   'setter', 'override', 'final', 'overload'}
ORM_NAMES = {'metadata', 'registry', '__table__', '__mapper__', '__tablename__', '__table_args__', '__mapper_args__', '_sa_instance_state'}
ANYTHING = object()
STDLIB = set(sys.stdlib_module_names)


# -- what the bases outside the package bring along ------------------------------------------------------------------------


def library_file(modname: str) -> Optional[str]:
    for base in sorted(glob.glob('/opt/venv/lib/python3*/site-packages')) + [os.path.dirname(os.__file__)]:
        for path in (os.path.join(base, *modname.split('.')) + '.py', os.path.join(base, *modname.split('.'), '__init__.py')):
            if os.path.exists(path):
                return path
    return None


def names_in_class(tree: ast.Module, name: str, seen: Set[str]) -> Set[str]:
    out: Set[str] = set()
    if name in seen:
        return out
    seen.add(name)
    for node in ast.walk(tree):
        if isinstance(node, ast.ClassDef) and node.name == name:
            for sub in ast.walk(node):
                if isinstance(sub, (ast.FunctionDef, ast.ClassDef)):
                    out.add(sub.name)
                elif isinstance(sub, ast.Attribute):
                    out.add(sub.attr)
                elif isinstance(sub, ast.Name):
                    out.add(sub.id)
            for b in node.bases:
                out |= names_in_class(tree, ast.unparse(b).split('.')[-1].split('[')[0], seen)
    return out


_ext: Dict[str, object] = {}


def external_members(qual: str):
    """The names an external class offers its instances, or ANYTHING."""
    if qual in _ext:
        return _ext[qual]
    modname, _, name = qual.rpartition('.')
    out = ANYTHING
    if qual == 'sqlalchemy.orm.DeclarativeBase':
        out = set(ORM_NAMES)
    else:
        try:
            if modname == 'builtins' or modname.split('.')[0] in STDLIB:
                cls = getattr(importlib.import_module(modname), name)
                out = set(dir(cls))
                for base in getattr(cls, '__mro__', ()):
                    try:
                        out |= names_in_class(ast.parse(inspect.getsource(inspect.getmodule(base))), base.__name__, set())
                    except (TypeError, OSError):
                        pass
                if qual.endswith('Enum') or qual.endswith('Flag'):
                    out |= {'name', 'value', '_name_', '_value_', '__members__'}
            else:
                path = library_file(modname)
                if path:
                    with open(path, encoding='utf-8') as fh:
                        out = names_in_class(ast.parse(fh.read()), name, set()) or ANYTHING
        except Exception:
            out = ANYTHING
    if out is not ANYTHING:
        out |= set(dir(object))
    _ext[qual] = out
    return out


# -- members of the classes of the package ----------------------------------------------------------------------------------


class Members:

    def __init__(self, prog: Program):
        self.prog = prog
        self.own: Dict[str, object] = {}
        self.cache: Dict[str, object] = {}
        self.foreign: Set[str] = set()      # attributes stored through something other than the object of a method
        self.onclass: Dict[str, Set[str]] = {}
        for mod in prog.modules.values():
            receivers = {}
            for node in ast.walk(mod.tree):
                if isinstance(node, ast.ClassDef):
                    for fn in node.body:
                        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)) and fn.args.args:
                            for sub in ast.walk(fn):
                                receivers.setdefault(id(sub), fn.args.args[0].arg)
            for node in ast.walk(mod.tree):
                if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Store):
                    if not (isinstance(node.value, ast.Name) and receivers.get(id(node)) == node.value.id):
                        self.foreign.add(node.attr)
                elif isinstance(node, ast.Call) and ast.unparse(node.func).split('.')[-1] in ('setattr', '__setattr__') and len(node.args) > 1 \
                        and isinstance(node.args[-2], ast.Constant):
                    self.foreign.add(str(node.args[-2].value))
                elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'register':
                    # managers give their instances a method for each registered name
                    self.foreign |= {a.value for a in node.args[:1] + [k.value for k in node.keywords if k.arg == 'typeid']
                                     if isinstance(a, ast.Constant) and isinstance(a.value, str)}

    def of_class(self, cls: Class):
        """Names defined by the class itself and its methods."""
        if cls.qual in self.own:
            return self.own[cls.qual]
        out = set(cls.methods) | set(cls.assigns) | set(cls.classes) | set(cls.setters)
        if cls.is_dataclass or any(b in ('typing.Protocol', 'typing.NamedTuple', 'typing.TypedDict') for b in cls.all_ext_bases()):
            out |= set(cls.annotations)
        out |= {n for n, a in cls.annotations.items() if 'Mapped' in ast.unparse(a)}
        for fn in list(cls.methods.values()) + list(cls.setters.values()):
            if not fn.node.args.args:
                continue
            me = fn.node.args.args[0].arg
            for node in ast.walk(fn.node):
                if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Store) and isinstance(node.value, ast.Name) and node.value.id == me:
                    if not isinstance(getattr(node, '_parent', None), ast.AugAssign):
                        out.add(mangle(node.attr, cls))
                elif isinstance(node, ast.Call):
                    text = ast.unparse(node.func)
                    if text in ('setattr', 'object.__setattr__') and node.args and isinstance(node.args[0], ast.Name) and node.args[0].id == me \
                            and fn.kind != 'class' and not (len(node.args) > 1 and isinstance(node.args[1], ast.Constant)):
                        self.own[cls.qual] = ANYTHING
                        return ANYTHING
                elif isinstance(node, ast.Attribute) and node.attr == '__dict__' and isinstance(node.value, ast.Name) and node.value.id == me:
                    self.own[cls.qual] = ANYTHING
                    return ANYTHING
        if '__getattr__' in cls.methods or '__getattribute__' in cls.methods:
            out = ANYTHING
        elif any(b.startswith('cmdkit.app') for b in cls.all_ext_bases()):
            try:
                out |= {o.dest for o in cli.options(cls)}
            except Exception:
                out = ANYTHING
        self.own[cls.qual] = out
        return out

    def of(self, cls: Class):
        """Everything an instance may have: its own classes and those that derive from it (mixins and abstract bases)."""
        if cls.qual in self.cache:
            return self.cache[cls.qual]
        out: object = set(self.foreign)
        family = {c.qual: c for c in cls.mro}
        for sub in self.prog.subclasses(cls.qual):
            family.update({c.qual: c for c in sub.mro})
        for c in family.values():
            names = self.of_class(c)
            if names is ANYTHING:
                out = ANYTHING
                break
            out |= names
            for ext in c.ext_bases:
                names = external_members(ext)
                if names is ANYTHING:
                    out = ANYTHING
                    break
                out |= names
            if out is ANYTHING:
                break
        if out is not ANYTHING:
            out |= set(dir(object)) | {'__class__', '__dict__', '__module__', '__name__', '__qualname__', '__annotations__', '__mro__',
                                       '__subclasses__', '__members__', '__bases__'}
        self.cache[cls.qual] = out
        return out


# -- signatures -----------------------------------------------------------------------------------------------------------


def accepts(call: ast.Call, args: ast.arguments, skip: int) -> Optional[str]:
    """Why the call does not fit the parameters (``skip`` of which are bound already), or None."""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        open_ended = True
    else:
        open_ended = False
    pos = [a.arg for a in args.posonlyargs + args.args][skip:]
    only_pos = {a.arg for a in args.posonlyargs}
    need = len(args.posonlyargs + args.args) - len(args.defaults)
    required = [a.arg for a in (args.posonlyargs + args.args)[:need]][skip:]
    kwonly = [a.arg for a in args.kwonlyargs]
    kwneed = [a.arg for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is None]
    given = len([a for a in call.args if not isinstance(a, ast.Starred)])
    if given > len(pos) and not args.vararg:
        return f'{given} positional arguments for {len(pos)} parameters'
    names = [k.arg for k in call.keywords if k.arg is not None]
    for n in names:
        if n not in kwonly and (n not in pos or n in only_pos) and not args.kwarg:
            return f'no parameter named {n}'
        if not any(isinstance(a, ast.Starred) for a in call.args) and n in pos[:given] and n not in only_pos:
            return f'{n} is given twice'
    if open_ended:
        return None
    absent = [p for p in required[given:] if p not in names] + [p for p in kwneed if p not in names]
    return f'nothing is given for {", ".join(absent)}' if absent else None


class Checker:

    def __init__(self, rep, prog: Program):
        self.rep, self.prog, self.members = rep, prog, Members(prog)
        self.counts = {'names': 0, 'attributes': 0, 'members': 0, 'imports': 0, 'calls': 0, 'library': 0}
        self.left_out = 0
        self.globals: Dict[tuple, Optional[Class]] = {}

    def bad(self, what, construct, text, where):
        self.rep.bad(what, construct, text, where)

    # names

    def top_names(self, mod: Module) -> Optional[Set[str]]:
        out = set(MODULE_NAMES) | set(dir(builtins))
        with open(mod.path, encoding='utf-8') as fh:
            table = symtable.symtable(fh.read(), mod.path, 'exec')
        for sym in table.get_symbols():
            if sym.is_assigned() or sym.is_imported() or sym.is_namespace():
                out.add(sym.get_name())
        stack = list(table.get_children())
        while stack:
            t = stack.pop()
            stack.extend(t.get_children())
            for sym in t.get_symbols():
                if sym.is_declared_global() and sym.is_assigned():
                    out.add(sym.get_name())
        for sub in self.prog.modules:
            if sub.startswith(mod.name + '.'):
                out.add(sub[len(mod.name) + 1:].split('.')[0])
        if any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(mod.tree)):
            return None
        self.table = table
        return out

    def check_names(self, mod: Module):
        known = self.top_names(mod)
        if known is None:
            self.left_out += 1
            return
        lines = {}
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.Name):
                lines.setdefault(node.id, []).append(node.lineno)
        stack = [self.table]
        while stack:
            t = stack.pop()
            stack.extend(t.get_children())
            if t.get_type() not in ('module', 'function', 'class'):
                continue
            for sym in t.get_symbols():
                if not sym.is_referenced():
                    continue
                top = t.get_type() == 'module'
                if not top and not sym.is_global():
                    continue
                if t.get_type() == 'class' and (sym.is_assigned() or sym.is_imported()):
                    continue
                self.counts['names'] += 1
                if sym.get_name() not in known:
                    line = next((n for n in lines.get(sym.get_name(), []) if n >= t.get_lineno()), t.get_lineno())
                    self.bad('name', f'{mod.name}:{t.get_name()}', f'{sym.get_name()} is not defined anywhere', f'{mod.relpath}:{line}')

    # imports and members of modules and classes

    def module_has(self, mod: Module, name: str) -> bool:
        if self.prog.resolve_name(name, mod) is not None and not str(self.prog.resolve_name(name, mod)).startswith('builtins.'):
            return True
        known = self.top_names(mod)
        return known is None or (name in known and name not in dir(builtins)) or name in MODULE_NAMES

    def check_imports(self, mod: Module):
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.ImportFrom):
                base = node.module or ''
                if node.level:
                    parts = mod.name.split('.')
                    if not mod.path.endswith('__init__.py'):
                        parts = parts[:-1]
                    parts = parts[:len(parts) - node.level + 1]
                    base = '.'.join(parts + ([base] if base else []))
                if base.split('.')[0] != mod.name.split('.')[0]:
                    continue
                self.counts['imports'] += 1
                where = f'{mod.relpath}:{node.lineno}'
                if base not in self.prog.modules:
                    self.bad('import', mod.name, f'there is no module {base}', where)
                    continue
                for a in node.names:
                    if a.name != '*' and f'{base}.{a.name}' not in self.prog.modules and not self.module_has(self.prog.modules[base], a.name):
                        self.bad('import', mod.name, f'{base} has no {a.name}', where)

    # functions

    def check_function(self, fn: Func):
        mod, cls = fn.module, fn.cls
        args = fn.node.args
        params = {a.arg: a.annotation for a in args.posonlyargs + args.args + args.kwonlyargs}
        stored, built = {}, {}
        for node in ast.walk(fn.node):
            if isinstance(node, ast.Name) and isinstance(node.ctx, (ast.Store, ast.Del)):
                stored[node.id] = stored.get(node.id, 0) + 1
            elif isinstance(node, ast.ExceptHandler) and node.name:
                stored[node.name] = 9
            elif isinstance(node, (ast.Import, ast.ImportFrom)):
                for a in node.names:
                    stored[(a.asname or a.name).split('.')[0]] = 9
            elif isinstance(node, (ast.FunctionDef, ast.Lambda)) and node is not fn.node:
                for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
                    stored[a.arg] = 9
                if isinstance(node, ast.FunctionDef):
                    stored[node.name] = 9
        local = set(params) | set(stored) | {a.arg for a in (args.vararg, args.kwarg) if a}
        for node in ast.walk(fn.node):
            if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) \
                    and stored.get(node.targets[0].id) == 1 and node.targets[0].id not in params and isinstance(node.value, ast.Call):
                got = self.result(node.value, fn, local)
                if got is not None:
                    built[node.targets[0].id] = got
        me = None
        if cls is not None and fn.kind != 'static' and (args.posonlyargs + args.args):
            me = (args.posonlyargs + args.args)[0].arg
            if me in stored:
                me = None
        types: Dict[str, Class] = dict(built)
        for name, ann in params.items():
            if ann is not None and name not in stored and name != me:
                typ, _ = self.prog.type_of_annotation(ann, mod, cls)
                if isinstance(typ, Class) and not (isinstance(ann, ast.Subscript) and ast.unparse(ann.value).split('.')[-1] != 'Optional'):
                    types[name] = typ
        guarded = self.guards(fn.node)
        for node in ast.walk(fn.node):
            if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load) and id(node) not in guarded:
                self.check_attribute(node, fn, me, types, local)
            elif isinstance(node, ast.Call):
                self.check_call(node, fn, me, types, local)

    @staticmethod
    def guards(node) -> Set[int]:
        """Expressions whose absence is anticipated: within ``try`` with a handler for it, or tested with hasattr."""
        out = set()
        for sub in ast.walk(node):
            if isinstance(sub, ast.Try) and any(h.type is None or {'AttributeError', 'NameError', 'Exception', 'BaseException'} &
                                                {n.id for n in ast.walk(h.type) if isinstance(n, ast.Name)} for h in sub.handlers):
                anticipates = any(h.type is None or {'AttributeError', 'NameError'} & {n.id for n in ast.walk(h.type) if isinstance(n, ast.Name)}
                                  for h in sub.handlers)
                if anticipates:
                    out |= {id(x) for s in sub.body for x in ast.walk(s)}
            elif isinstance(sub, (ast.If, ast.IfExp, ast.BoolOp)) and any(
                    isinstance(x, ast.Call) and ast.unparse(x.func) == 'hasattr' or
                    isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x) in ('os.name', 'sys.platform', 'platform.system')
                    for x in ast.walk(sub.test if not isinstance(sub, ast.BoolOp) else sub)):
                out |= {id(x) for x in ast.walk(sub)}
        return out

    def static(self, node, fn: Func, local: Set[str]):
        """What an expression of names and attributes refers to at module or class level, or None."""
        root = node
        while isinstance(root, ast.Attribute):
            root = root.value
        if not isinstance(root, ast.Name) or root.id in local:
            return None
        return self.prog.resolve_expr(node, fn.module, None)

    def result(self, call: ast.Call, fn: Func, local: Set[str]) -> Optional[Class]:
        """The class of the package a constructor or declared function returns an instance of."""
        got = self.static(call.func, fn, local)
        if isinstance(got, Class):
            return got if not got.node.keywords and got.method('__new__') is None else None
        if isinstance(got, Func) and got.node.returns is not None and not got.is_generator and \
                all(d.split('.')[-1] in KEEPS_SIGNATURE - {'contextmanager', 'property', 'cached_property'} for d in got.decorators):
            if isinstance(got.node.returns, ast.Subscript) or isinstance(got.node, ast.AsyncFunctionDef):
                return None
            typ, _ = self.prog.type_of_annotation(got.node.returns, got.module, got.cls)
            if not isinstance(typ, Class):
                return None
            if got.cls is not None and got.kind == 'class' and isinstance(call.func, ast.Attribute):
                on = self.static(call.func.value, fn, local)
                return on if isinstance(on, Class) and typ in on.mro else None
            return typ
        return None

    def global_type(self, name: str, fn: Func) -> Optional[Class]:
        key = (fn.module.name, name)
        if key not in self.globals:
            got = self.prog.resolve_name(name, fn.module)
            typ = None
            if isinstance(got, tuple) and got[0] == 'global':
                home, name = got[1], got[2]
                stores = [n for n in ast.walk(home.tree) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)]
                value = [n.value for n in home.tree.body if isinstance(n, (ast.Assign, ast.AnnAssign)) and
                         any(isinstance(t, ast.Name) and t.id == name for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
                if len(stores) == 1 and len(value) == 1 and isinstance(value[0], ast.Call):
                    here = Func.__new__(Func)
                    here.module, here.cls = home, None
                    typ = self.result(value[0], here, set())
            self.globals[key] = typ
        return self.globals[key]

    def of_type(self, node, fn: Func, me, types, local) -> Optional[Class]:
        """The class an expression is an instance of, where that is declared or evident."""
        if isinstance(node, ast.Name):
            if node.id == me:
                return fn.cls
            return types.get(node.id) or (None if node.id in local else self.global_type(node.id, fn))
        if isinstance(node, ast.Attribute):
            owner = self.of_type(node.value, fn, me, types, local)
            if owner is None or (isinstance(node.value, ast.Name) and node.value.id == me and fn.kind == 'class'):
                return None
            for c in owner.mro:
                if node.attr in c.annotations:
                    ann = c.annotations[node.attr]
                    if isinstance(ann, ast.Subscript) and ast.unparse(ann.value).split('.')[-1] != 'Optional':
                        return None
                    typ, _ = self.prog.type_of_annotation(ann, c.module, c)
                    return typ if isinstance(typ, Class) else None
                prop = c.methods.get(node.attr)
                if prop is not None:
                    if prop.kind in ('property', 'cached_property') and prop.node.returns is not None and \
                            not isinstance(prop.node.returns, ast.Subscript):
                        typ, _ = self.prog.type_of_annotation(prop.node.returns, c.module, c)
                        return typ if isinstance(typ, Class) else None
                    return None
        return None

    def check_attribute(self, node: ast.Attribute, fn: Func, me, types, local):
        where = f'{fn.module.relpath}:{node.lineno}'
        owner = self.of_type(node.value, fn, me, types, local)
        if owner is not None:
            if isinstance(node.value, ast.Name) and node.value.id in types and self.narrowed(fn, node.value.id):
                self.left_out += 1
                return
            names = self.members.of(owner)
            if names is ANYTHING:
                self.left_out += 1
                return
            self.counts['attributes'] += 1
            if mangle(node.attr, fn.cls) not in names and node.attr not in names:
                self.bad('attribute', fn.qual, f'{ast.unparse(node)}: no {node.attr} is ever given to a {owner.name}', where)
            return
        got = self.static(node.value, fn, local)
        if isinstance(got, Class):
            names = self.members.of(got)
            if names is ANYTHING:
                self.left_out += 1
                return
            self.counts['members'] += 1
            if mangle(node.attr, fn.cls) not in names and node.attr not in names:
                self.bad('member', fn.qual, f'{got.name} has no {node.attr}', where)
        elif isinstance(got, Module):
            self.counts['members'] += 1
            if not self.module_has(got, node.attr):
                self.bad('member', fn.qual, f'module {got.name} has no {node.attr}', where)
        elif isinstance(got, str) and got.split('.')[0] in STDLIB and got.split('.')[0] != 'builtins':
            try:
                mod = importlib.import_module(got)
            except Exception:
                return
            self.counts['library'] += 1
            if not hasattr(mod, node.attr):
                try:
                    importlib.import_module(f'{got}.{node.attr}')
                except Exception:
                    self.bad('member', fn.qual, f'module {got} has no {node.attr}', where)

    @staticmethod
    def narrowed(fn: Func, name: str) -> bool:
        return any(isinstance(n, ast.Call) and ast.unparse(n.func) == 'isinstance' and n.args and ast.unparse(n.args[0]) == name
                   for n in ast.walk(fn.node))

    # calls

    def signature(self, target, bound: bool):
        """(arguments, how many are bound already) of what is called, or None where it is not evident."""
        if isinstance(target, Func):
            if any(d.split('.')[-1] not in KEEPS_SIGNATURE for d in target.decorators):
                return None
            if target.kind in ('property', 'cached_property'):
                return None
            skip = 0
            if target.cls is not None and target.kind != 'static':
                skip = 1 if target.kind == 'class' or bound else 0
            return target.node.args, skip
        if isinstance(target, Class):
            if any(k.arg == 'metaclass' and 'ABCMeta' not in ast.unparse(k.value) for k in target.node.keywords) or target.is_enum:
                return None
            init = target.method('__init__')
            if target.method('__new__') is not None:
                return None
            if init is not None:
                if any(d.split('.')[-1] not in KEEPS_SIGNATURE for d in init.decorators):
                    return None
                holder = next(c for c in target.mro if '__init__' in c.methods)
                before = target.mro[:target.mro.index(holder)]
                if any(c.is_dataclass for c in before):
                    return None
                return init.node.args, 1
            if target.is_dataclass:
                return self.dataclass_arguments(target)
            if all(b in ('abc.ABC', 'typing.Protocol') for b in target.all_ext_bases()):
                return ast.parse('def f(): pass').body[0].args, 0
        return None

    @staticmethod
    def dataclass_arguments(cls: Class):
        if len([c for c in cls.mro if c.is_dataclass]) > 1 or cls.all_ext_bases():
            return None
        parts = []
        for name in cls.order:
            if name not in cls.annotations or 'ClassVar' in ast.unparse(cls.annotations[name]):
                continue
            value = cls.assigns.get(name)
            if isinstance(value, ast.Call) and ast.unparse(value.func).split('.')[-1] == 'field':
                if any(k.arg in ('init', 'kw_only') for k in value.keywords):
                    return None
                has = any(k.arg in ('default', 'default_factory') for k in value.keywords)
            else:
                has = value is not None
            parts.append(name + ('=None' if has else ''))
        try:
            return ast.parse(f'def f({", ".join(parts)}): pass').body[0].args, 0
        except SyntaxError:
            return None

    def check_call(self, call: ast.Call, fn: Func, me, types, local):
        where = f'{fn.module.relpath}:{call.lineno}'
        target, bound = None, False
        func = call.func
        if isinstance(func, ast.Attribute):
            if isinstance(func.value, ast.Call) and ast.unparse(func.value) == 'super()' and fn.cls is not None:
                for c in fn.cls.mro[1:]:
                    if func.attr in c.methods:
                        target, bound = c.methods[func.attr], True
                        break
                if self.prog.subclasses(fn.cls.qual) and any(len(s.bases) > 1 for s in self.prog.subclasses(fn.cls.qual)):
                    target = None       # what follows depends on the class of the object
            elif isinstance(func.value, ast.Name) and func.value.id == me and fn.kind == 'class':
                target, bound = fn.cls.method(mangle(func.attr, fn.cls)), False
                if func.attr in {n for c in self.prog.subclasses(fn.cls.qual) for n in c.methods}:
                    target = None
            else:
                owner = self.of_type(func.value, fn, me, types, local)
                if owner is not None:
                    target, bound = owner.method(mangle(func.attr, fn.cls)), True
                    if any(func.attr in c.methods for c in self.prog.subclasses(owner.qual)):
                        target = None
                else:
                    got = self.static(func, fn, local)
                    if isinstance(got, (Func, Class)):
                        target = got
        elif isinstance(func, ast.Name):
            if func.id == me and fn.kind == 'class':
                target = fn.cls if not self.prog.subclasses(fn.cls.qual) else None
            else:
                got = self.static(func, fn, local)
                if isinstance(got, (Func, Class)):
                    target = got
        if target is None:
            return
        sig = self.signature(target, bound)
        if sig is None:
            self.left_out += 1
            return
        self.counts['calls'] += 1
        why = accepts(call, *sig)
        if why:
            self.bad('call', fn.qual, f'call of {target.qual.split(".", 1)[-1]}: {why}', where)


@rule('C48', technique=TECH, level='other',
      explanation='Every global name, every attribute read from objects, classes and modules of the package, every import from it and every '
                  'call of its functions and constructors is resolved over the whole package: the name has to be defined, the attribute '
                  'has to be given to such objects somewhere, and the arguments have to fit the parameters. What a state machine reads has to be '
                  'set on every way to the state that reads it.')
def missing(rep):
    prog = rep.prog
    checker = Checker(rep, prog)
    for mod in prog.modules.values():
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.AugAssign):
                node.target._parent = node
        checker.check_imports(mod)
        checker.check_names(mod)
    for fn in list(prog.functions.values()) + [s for c in prog.classes.values() for s in c.setters.values()]:
        checker.check_function(fn)
    for kind, n in checker.counts.items():
        if n:
            rep.ok(kind, 'package', f'{n} resolved')
    rep.floor('names', checker.counts['names'], 1000)
    rep.floor('attributes', checker.counts['attributes'], 500)
    rep.floor('calls', checker.counts['calls'], 150)
    rep.count('left out', checker.left_out)
    unset(rep, prog)
