"""Index of the Python package under analysis: modules, imports, classes, functions, annotations.

Nothing here imports or executes the analysed code; every fact comes from ``ast`` over the files that are in
/repo's working tree at the time of the run.
"""
from __future__ import annotations
import ast
import hashlib
from dataclasses import dataclass, field
from pathlib import Path
from typing import Optional


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone: the run gives no verdict (exit 2), never a silent pass."""


@dataclass(eq=False)
class Func:
    name: str
    node: ast.AST
    module: 'Module'
    cls: Optional['Class'] = None
    outer: Optional['Func'] = None

    @property
    def qualname(self):
        return f'{self.module.name}:{self.cls.name + "." if self.cls else ""}{self.name}'

    @property
    def decorators(self):
        out = []
        for d in getattr(self.node, 'decorator_list', []):
            out.append(ast.unparse(d))
        return out

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def is_property(self):
        return any(d == 'property' or d.endswith('cached_property') for d in self.decorators)

    def arg_names(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return f'<Func {self.qualname}>'


@dataclass(eq=False)
class Class:
    name: str
    node: ast.ClassDef
    module: 'Module'
    methods: dict = field(default_factory=dict)
    setters: dict = field(default_factory=dict)
    fields: dict = field(default_factory=dict)        # annotated class-level names -> annotation AST
    defaults: dict = field(default_factory=dict)      # name -> value AST (class-level assignment)
    inner: dict = field(default_factory=dict)
    outer: Optional['Class'] = None

    @property
    def is_dataclass(self):
        for d in self.node.decorator_list:
            t = ast.unparse(d)
            if t == 'dataclass' or t.startswith('dataclass(') or t.endswith('.dataclass'):
                return True
        return False

    @property
    def base_names(self):
        return [ast.unparse(b) for b in self.node.bases]

    def __repr__(self):
        return f'<Class {self.module.name}:{self.name}>'


@dataclass(eq=False)
class Module:
    name: str
    path: Path
    tree: ast.Module
    is_pkg: bool
    classes: dict = field(default_factory=dict)
    functions: dict = field(default_factory=dict)
    assigns: dict = field(default_factory=dict)
    imports: dict = field(default_factory=dict)  # local name -> (module, attr|None)

    @property
    def rel(self):
        return str(self.path)


class Project:
    def __init__(self, root='/repo', package='mccode_antlr', src='src', skip=('grammar',)):
        self.root = Path(root)
        self.src = self.root / src
        self.package = package
        self.modules: dict[str, Module] = {}
        self.digest = hashlib.sha256()
        base = self.src / package
        if not base.is_dir():
            raise AnalysisBroken(f'package directory {base} not found')
        for path in sorted(base.rglob('*.py')):
            relp = path.relative_to(self.src)
            if any(part in skip for part in relp.parts[1:-1]):
                continue
            self._load(path, relp)
        self.subclasses: dict[str, list] = {}
        for c in self.all_classes():
            for b in c.node.bases:
                r = self.resolve_expr_class(c.module, b)
                if r is not None:
                    self.subclasses.setdefault(id(r), []).append(c)

    def _load(self, path, relp):
        parts = list(relp.with_suffix('').parts)
        is_pkg = parts[-1] == '__init__'
        if is_pkg:
            parts = parts[:-1]
        name = '.'.join(parts)
        text = path.read_text(encoding='utf-8')
        self.digest.update(str(relp).encode() + b'\0' + text.encode())
        tree = ast.parse(text, filename=str(path))
        m = Module(name, path, tree, is_pkg)
        self.modules[name] = m
        for node in tree.body:
            self._top(m, node)
        # imports anywhere (function-level too); later/more-global wins only if not set
        for node in ast.walk(tree):
            if isinstance(node, ast.ImportFrom):
                target = self._abs_module(m, node.module, node.level)
                for a in node.names:
                    m.imports.setdefault(a.asname or a.name, (target, a.name))
            elif isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        m.imports.setdefault(a.asname, (a.name, None))
                    else:
                        m.imports.setdefault(a.name.split('.')[0], (a.name.split('.')[0], None))
        return m

    def _top(self, m, node):
        if isinstance(node, ast.ClassDef):
            m.classes[node.name] = self._class(m, node)
        elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            m.functions[node.name] = Func(node.name, node, m)
        elif isinstance(node, ast.Assign):
            for t in node.targets:
                if isinstance(t, ast.Name):
                    m.assigns[t.id] = node.value
        elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name) and node.value is not None:
            m.assigns[node.target.id] = node.value
        elif isinstance(node, (ast.If, ast.Try)):
            for sub in node.body + getattr(node, 'orelse', []):
                self._top(m, sub)

    def _class(self, m, node, outer=None):
        c = Class(node.name, node, m, outer=outer)
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(n.name, n, m, cls=c)
                if any(d.endswith('.setter') for d in f.decorators):
                    c.setters[n.name] = f
                else:
                    c.methods[n.name] = f
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                c.fields[n.target.id] = n.annotation
                if n.value is not None:
                    c.defaults[n.target.id] = n.value
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.defaults[t.id] = n.value
            elif isinstance(n, ast.ClassDef):
                c.inner[n.name] = self._class(m, n, outer=c)
        return c

    def _abs_module(self, m: Module, name, level):
        if level == 0:
            return name or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:len(parts) - (level - 1)]
        return '.'.join(parts + ([name] if name else []))

    # ------------------------------------------------------------------ lookup
    def all_classes(self):
        for m in self.modules.values():
            stack = list(m.classes.values())
            while stack:
                c = stack.pop()
                yield c
                stack.extend(c.inner.values())

    def all_functions(self):
        """every function and method, (not nested ones)"""
        for m in self.modules.values():
            yield from m.functions.values()
            stack = list(m.classes.values())
            while stack:
                c = stack.pop()
                yield from c.methods.values()
                yield from c.setters.values()
                stack.extend(c.inner.values())

    def module(self, name) -> Module:
        full = name if name.startswith(self.package) else f'{self.package}.{name}'
        if full not in self.modules:
            raise AnalysisBroken(f'module {full} not found')
        return self.modules[full]

    def find_class(self, name, optional=False) -> Class:
        found = [c for c in self.all_classes() if c.name == name]
        if len(found) == 1:
            return found[0]
        if not found:
            if optional:
                return None
            raise AnalysisBroken(f'class {name} not found')
        raise AnalysisBroken(f'class {name} is ambiguous: {found}')

    def find_function(self, name, optional=False) -> Func:
        found = [m.functions[name] for m in self.modules.values() if name in m.functions]
        if len(found) == 1:
            return found[0]
        if not found:
            if optional:
                return None
            raise AnalysisBroken(f'function {name} not found')
        raise AnalysisBroken(f'function {name} is ambiguous: {found}')

    def resolve_name(self, m: Module, name: str, seen=None):
        """Resolve a global name in module m to Class/Func/('value', Module, ast)/('module', name)/('ext', dotted)"""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        if name in m.classes:
            return m.classes[name]
        if name in m.functions:
            return m.functions[name]
        if name in m.assigns:
            return ('value', m, m.assigns[name])
        if name in m.imports:
            mod, attr = m.imports[name]
            if attr is None:
                return ('module', mod)
            if mod in self.modules:
                r = self.resolve_name(self.modules[mod], attr, seen)
                if r is not None:
                    return r
                if f'{mod}.{attr}' in self.modules:
                    return ('module', f'{mod}.{attr}')
            if f'{mod}.{attr}' in self.modules:
                return ('module', f'{mod}.{attr}')
            return ('ext', f'{mod}.{attr}')
        if m.is_pkg and f'{m.name}.{name}' in self.modules:
            return ('module', f'{m.name}.{name}')
        return None

    def resolve_expr_class(self, m: Module, node) -> Optional[Class]:
        if isinstance(node, ast.Name):
            r = self.resolve_name(m, node.id)
            return r if isinstance(r, Class) else None
        if isinstance(node, ast.Attribute):
            base = self.resolve_expr_class(m, node.value)
            if base is not None and node.attr in base.inner:
                return base.inner[node.attr]
            if isinstance(node.value, ast.Name):
                r = self.resolve_name(m, node.value.id)
                if isinstance(r, tuple) and r[0] == 'module' and r[1] in self.modules:
                    r = self.resolve_name(self.modules[r[1]], node.attr)
                    return r if isinstance(r, Class) else None
        return None

    def mro(self, c: Class):
        """simple linearisation good enough for single inheritance trees"""
        out, stack = [], [c]
        while stack:
            x = stack.pop(0)
            if x in out:
                continue
            out.append(x)
            for b in x.node.bases:
                r = self.resolve_expr_class(x.module, b)
                if r is not None:
                    stack.append(r)
        return out

    def method(self, c: Class, name: str) -> Optional[Func]:
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def class_fields(self, c: Class):
        """dataclass/Struct fields in order, following the MRO; name -> (annotation, owner class)"""
        out = {}
        for k in reversed(self.mro(c)):
            for f, ann in k.fields.items():
                out[f] = (ann, k)
        return out

    def class_default(self, c: Class, name):
        for k in self.mro(c):
            if name in k.defaults:
                return k.defaults[name], k
        return None, None

    def is_enum(self, c: Class):
        return any(b.split('.')[-1] in ('Enum', 'IntEnum', 'Flag') for k in self.mro(c) for b in k.base_names)

    def concrete_subclasses(self, c: Class):
        out = []
        for s in self.subclasses.get(id(c), []):
            out.append(s)
            out.extend(self.concrete_subclasses(s))
        return out
