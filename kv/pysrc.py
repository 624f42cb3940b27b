"""Mechanical extraction: the text that is verified is the AST of the files of
/repo/src/kiutils, re-read on every run.  What the extraction drops: comments,
docstrings (expression statements that are string constants), type annotations
of parameters/returns and of local variables.  Nothing else."""
import ast, os, builtins
from .values import Unsupported

REPO = os.environ.get('KV_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


HOOKS = ('__getattr__', '__getattribute__', '__setattr__', '__delattr__', '__new__', '__init_subclass__', '__set_name__', '__get__', '__set__',
         '__class_getitem__', '__instancecheck__', '__call__')


class ClassInfo:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.qual = module.name + '.' + name
        self.methods = {}      # name -> FunctionDef (plain, classmethod, staticmethod)
        self.kinds = {}        # name -> 'method' | 'classmethod' | 'staticmethod' | 'getter'
        self.setters = {}
        self.own_fields = []   # (name, annotation str, default expr | None)
        self.class_attrs = {}
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self.dataclass_node = None
        for d in node.decorator_list:
            f = d.func if isinstance(d, ast.Call) else d
            nm = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', '')
            if nm == 'dataclass':
                self.dataclass_node = d
        for s in node.body:
            if isinstance(s, (ast.FunctionDef,)):
                decs = [ast.unparse(d) for d in s.decorator_list]
                if any(d.endswith('.setter') for d in decs):
                    self.setters[s.name] = s
                    continue
                decs = [d.split('.')[-1] for d in decs]
                kind = 'method'
                if any(d not in ('abstractmethod', 'classmethod', 'staticmethod', 'property', 'override', 'final') for d in decs):
                    kind = 'decorated'
                elif 'classmethod' in decs:
                    kind = 'classmethod'
                elif 'staticmethod' in decs:
                    kind = 'staticmethod'
                elif 'property' in decs:
                    kind = 'getter'
                self.methods[s.name] = s
                self.kinds[s.name] = kind
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.own_fields.append((s.target.id, ast.unparse(s.annotation), s.value))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.class_attrs[t.id] = s.value
                        if t.id in self.methods:      # rebound: what runs is not the def
                            self.kinds[t.id] = 'decorated'
                        self.setters.pop(t.id, None)
                    else:
                        self.poison = 'class body: ' + ast.unparse(s)[:60]
            elif not isinstance(s, ast.Pass) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.poison = 'class body: ' + ast.unparse(s)[:60]
        self.base_nodes = node.bases
        for d in self.decorators:
            if d.split('(')[0].split('.')[-1] not in ('dataclass', 'final'):
                self.poison = 'class decorator ' + d
        for k in node.keywords:
            if k.arg != 'metaclass' or ast.unparse(k.value).split('.')[-1] != 'ABCMeta':
                self.poison = 'class keyword ' + str(k.arg)
        for m in self.methods:
            if m in HOOKS:
                self.poison = 'method ' + m

    poison = None      # why the text of the class is not what runs

    def check(self):
        for k in self._mro():
            if k.poison:
                raise Unsupported('%s: %s' % (k.name, k.poison))
            for b in k.base_nodes:
                if not (isinstance(b, ast.Name) and isinstance(k.module.resolve(b.id), ClassInfo)):
                    n = ast.unparse(b).split('[')[0].split('.')[-1]
                    if n not in ('ABC', 'object', 'Generic', 'Protocol') and not isinstance(getattr(builtins, n, None), type(ValueError)) or n in ('str', 'int', 'float', 'list', 'dict', 'tuple', 'set', 'frozenset', 'type'):
                        raise Unsupported('%s: base class %s' % (k.name, n))

    def mro(self):
        self.check()
        return self._mro()

    def _mro(self):
        out, seen = [self], {self.qual}
        for b in self.base_nodes:
            bi = self.module.resolve(b.id) if isinstance(b, ast.Name) else None
            if isinstance(bi, ClassInfo):
                for k in bi._mro():
                    if k.qual not in seen:
                        seen.add(k.qual)
                        out.append(k)
        return out

    def fields(self):
        """dataclass fields in definition order, bases first."""
        fs = {}
        for k in reversed(self.mro()):
            for (n, a, d) in k.own_fields:
                if a.startswith('ClassVar'):
                    continue
                fs[n] = (n, a, d, k)
        return list(fs.values())

    def find(self, name):
        for k in self.mro():
            if name in k.methods:
                return k.methods[name], k.kinds[name], k
        return None

    def find_setter(self, name):
        for k in self.mro():
            if name in k.setters:
                return k.setters[name], k
        return None

    def find_attr(self, name):
        for k in self.mro():
            if name in k.class_attrs:
                return k.class_attrs[name], k
            for (n, a, d) in k.own_fields:
                if n == name and d is not None:
                    return d, k
        return None

    def __repr__(self):
        return '<class %s>' % self.qual


class FuncInfo:
    def __init__(self, node, module, cls=None, kind='function', closure=None):
        self.node, self.module, self.cls, self.kind, self.closure = node, module, cls, kind, closure

    poison = None

    def __repr__(self):
        return '<func %s>' % getattr(self.node, 'name', 'lambda')


class ExtModule:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<ext %s>' % self.name


class ExtName:
    def __init__(self, module, name):
        self.module, self.name = module, name

    def __repr__(self):
        return '<ext %s.%s>' % (self.module, self.name)


class ConstExpr:
    def __init__(self, node, module):
        self.node, self.module = node, module


class Module:
    def __init__(self, prog, name, path):
        self.prog, self.name, self.path = prog, name, path
        self.text = open(path, encoding='utf-8').read()
        self.tree = ast.parse(self.text)
        self.defs = {}
        self.stars = []
        self.all = None
        self.odd = []          # statements at module level other than definitions
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.ClassDef):
                self.defs[s.name] = ClassInfo(s.name, self, s)
            elif isinstance(s, ast.FunctionDef):
                self.defs[s.name] = FuncInfo(s, self)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.defs[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                mod = s.module or ''
                if s.level:
                    base = self.name.split('.')
                    if not self.path.endswith('__init__.py'):
                        base = base[:-1]
                    base = base[:len(base) - (s.level - 1)]
                    mod = '.'.join(base + ([mod] if mod else []))
                for a in s.names:
                    if a.name == '*':
                        self.stars.append(mod)
                    else:
                        self.defs[a.asname or a.name] = ('from', mod, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ConstExpr(s.value, self)
                        if t.id == '__all__':
                            try:
                                self.all = ast.literal_eval(s.value)
                            except Exception:
                                pass
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.defs[s.target.id] = ConstExpr(s.value, self)
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
                if not (isinstance(s, ast.If) and ast.unparse(s.test).split('.')[-1] == 'TYPE_CHECKING'):
                    self.odd.append(s)
            elif not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass):
                self.odd.append(s)
            if isinstance(s, ast.Assign) and not all(isinstance(t, ast.Name) for t in s.targets):
                self.odd.append(s)

    def resolve(self, name):
        """Returns ClassInfo, FuncInfo, Module, ExtModule, ExtName, ConstExpr or None."""
        if name in self.defs:
            d = self.defs[name]
            if isinstance(d, tuple):
                if d[0] == 'import':
                    return self.prog.module_or_ext(d[1])
                m = self.prog.module(d[1])
                if m is None:
                    sub = self.prog.module(d[1] + '.' + d[2])
                    return sub if sub is not None else ExtName(d[1], d[2])
                r = m.resolve(d[2])
                if r is None:
                    r = self.prog.module(d[1] + '.' + d[2])
                return r
            return d
        for st in self.stars:
            m = self.prog.module(st)
            if m is not None:
                if m.all is not None and name not in m.all:
                    continue
                if name.startswith('_') and m.all is None:
                    continue
                r = m.resolve(name)
                if r is not None:
                    return r
        return None


class Program:
    def __init__(self, src=None):
        self.src = src or SRC
        self.mods = {}
        self.odd()

    def odd(self):
        """Statements run at import time that may change a class or function: what they mention is
        not decided by its text."""
        for n in self.all_modules():
            try:
                m = self.module(n)
            except SyntaxError:
                continue
            for s in m.odd:
                why = 'module level: ' + ast.unparse(s)[:60]
                hit = False
                for x in ast.walk(s):
                    r = m.resolve(x.id) if isinstance(x, ast.Name) else None
                    if isinstance(x, ast.Attribute):
                        for k in self.mods.values():
                            r = r or (k.defs.get(x.attr) if isinstance(k, Module) and not isinstance(k.defs.get(x.attr), tuple) else None)
                    if isinstance(r, (ClassInfo, FuncInfo)):
                        r.poison, hit = why, True
                if not hit and any(isinstance(x, ast.Name) and x.id in ('globals', 'setattr', 'exec', 'eval', 'vars', 'sys', 'locals') for x in ast.walk(s)):
                    for d in m.defs.values():
                        if isinstance(d, (ClassInfo, FuncInfo)):
                            d.poison = why

    def path_of(self, name):
        p = os.path.join(self.src, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.isdir(p) and name.split('.')[0] == 'kiutils':
            return 'NS'
        return None

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.path_of(name)
        if p is None:
            return None
        if p == 'NS':
            m = _NsModule(self, name)
        else:
            m = Module(self, name, p)
        self.mods[name] = m
        return m

    def module_or_ext(self, name):
        m = self.module(name)
        return m if m is not None else ExtModule(name)

    def all_modules(self):
        out = []
        for root, dirs, files in os.walk(os.path.join(self.src, 'kiutils')):
            dirs.sort()
            for f in sorted(files):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(root, f), self.src)[:-3]
                    parts = rel.split(os.sep)
                    if parts[-1] == '__init__':
                        parts = parts[:-1]
                    out.append('.'.join(parts))
        return out

    def cls(self, qual):
        """qual like 'items.common.Position'"""
        mod, _, n = qual.rpartition('.')
        m = self.module('kiutils.' + mod)
        r = m.resolve(n) if m is not None else None
        return r if isinstance(r, ClassInfo) else None


class _NsModule:
    stars, all = [], None

    def __init__(self, prog, name):
        self.prog, self.name, self.defs = prog, name, {}

    def resolve(self, name):
        return self.prog.module(self.name + '.' + name)
