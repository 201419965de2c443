"""Abstract interpretation of Python source over a *provenance and template* domain.

Each value is a term that records where it comes from (access paths rooted in the analysed entry point's arguments,
uninterpreted applications, string templates with holes).  Control flow is joined, never enumerated: an ``if`` merges
both branches under a guard (``Opt``/``Phi``), a loop body is analysed once over a symbolic element (``Rep``), calls
into the project are inlined by resolving the receiver through annotations and the class hierarchy.  No solver is
involved and nothing of the analysed program is executed.

The result of analysing a function is therefore a *shape*: which text is emitted, in which order, under which guards,
and from which fields each piece is derived.  The checks compare shapes with the obligations of a property, which
makes them insensitive to helper extraction, renaming of locals, list/loop/comprehension rewrites and the like.
"""
from __future__ import annotations
import ast
from dataclasses import dataclass, field
from typing import Any, Optional
from .project import Project, Class, Func, Module, AnalysisBroken


# ----------------------------------------------------------------------------- terms
class Term:
    __slots__ = ()


def _t(cls):
    """frozen term class with cached hash (terms share structure heavily)"""
    c = dataclass(frozen=True, eq=True, repr=False)(cls)
    base_hash, base_eq = c.__hash__, c.__eq__

    def __hash__(self):
        h = self.__dict__.get('_h')
        if h is None:
            h = base_hash(self)
            object.__setattr__(self, '_h', h)
        return h

    def __eq__(self, other):
        if self is other:
            return True
        if other.__class__ is not self.__class__ or hash(self) != hash(other):
            return False
        return base_eq(self, other)
    c.__hash__ = __hash__
    c.__eq__ = __eq__
    return c


@_t
class Const(Term):
    v: Any
    t: str

    def __repr__(self):
        return repr(self.v)


def K(v):
    return Const(v, type(v).__name__)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


@_t
class Sym(Term):
    name: str

    def __repr__(self):
        return self.name


@_t
class Attr(Term):
    base: Term
    name: str

    def __repr__(self):
        return f'{self.base!r}.{self.name}'


@_t
class Elem(Term):
    """the current element of iterating `base` in loop `lid`"""
    base: Term
    lid: int

    def __repr__(self):
        return f'{self.base!r}[*{self.lid}]'


@_t
class Index(Term):
    """the 0-based position of loop `lid` over `base`"""
    base: Term
    lid: int

    def __repr__(self):
        return f'#({self.base!r}){self.lid}'


@_t
class Item(Term):
    base: Term
    key: Term

    def __repr__(self):
        return f'{self.base!r}[{self.key!r}]'


@_t
class App(Term):
    fn: str
    args: tuple
    kw: tuple = ()

    def __repr__(self):
        a = [repr(x) for x in self.args] + [f'{k}={v!r}' for k, v in self.kw]
        return f'{self.fn}({", ".join(a)})'


@_t
class MCall(Term):
    """unresolved method call recv.name(args)"""
    recv: Term
    name: str
    args: tuple
    kw: tuple = ()

    def __repr__(self):
        a = [repr(x) for x in self.args] + [f'{k}={v!r}' for k, v in self.kw]
        return f'{self.recv!r}.{self.name}({", ".join(a)})'


@_t
class Str(Term):
    parts: tuple

    def __repr__(self):
        return 'S' + repr(list(self.parts))


@_t
class Seq(Term):
    kind: str       # tuple, list(frozen), set
    items: tuple

    def __repr__(self):
        return f'{self.kind}{list(self.items)!r}'


@_t
class Phi(Term):
    cond: Term
    a: Any
    b: Any

    def __repr__(self):
        return f'({self.cond!r} ? {self.a!r} : {self.b!r})'


@_t
class Ref(Term):
    id: int

    def __repr__(self):
        return f'&{self.id}'


@_t
class Carried(Term):
    """value of a variable at the start of a loop iteration"""
    name: str
    lid: int

    def __repr__(self):
        return f'{self.name}~{self.lid}'


@_t
class LoopOut(Term):
    """value after loop lid: init, or step of last iteration"""
    lid: int
    base: Any
    init: Any
    step: Any

    def __repr__(self):
        return f'loopout{self.lid}({self.init!r}, {self.step!r})'


@_t
class Clo(Term):
    fn: Any          # Func (identity hash)
    frame: Any       # frame id or None
    self_: Any = None

    def __repr__(self):
        return f'<{self.fn.qualname}>'


@_t
class Lam(Term):
    node: Any
    frame: Any
    module: Any

    def __repr__(self):
        return '<lambda>'


@_t
class ClsV(Term):
    cls: Any
    frame: Any = None      # defining frame of a class made inside a function

    def __repr__(self):
        return f'<class {self.cls.name}>'


@_t
class ModV(Term):
    name: str

    def __repr__(self):
        return f'<mod {self.name}>'


# items of sequences / templates
@_t
class Rep(Term):
    lid: int
    base: Any
    items: tuple

    def __repr__(self):
        return f'Rep{self.lid}<{self.base!r}>{list(self.items)!r}'


@_t
class Opt(Term):
    cond: Any
    a: tuple
    b: tuple = ()

    def __repr__(self):
        return f'Opt({self.cond!r}){list(self.a)!r}|{list(self.b)!r}'


@_t
class Splice(Term):
    base: Any

    def __repr__(self):
        return f'*{self.base!r}'


# heap cells
@dataclass
class HList:
    items: tuple
    kind: str = 'list'


@dataclass
class HObj:
    cls: Any
    fields: dict


@dataclass
class HDict:
    items: tuple    # of Seq('kv',(k,v)) / Rep / Opt / Splice


def neg(c):
    if isinstance(c, App) and c.fn == 'not':
        return c.args[0]
    if isinstance(c, Const):
        return K(not c.v)
    return App('not', (c,))


class Frame:
    _n = 0


class State:
    __slots__ = ('frames', 'heap', 'over', 'pc')

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.over = {}
        self.pc = ()

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.over = dict(self.over)
        s.pc = self.pc
        return s


@dataclass
class Abrupt:
    kind: str      # return, raise, break, continue
    conds: tuple   # guards relative to function entry pc (full pc)
    state: State
    value: Any = None
    node: Any = None


@dataclass
class Event:
    kind: str       # raise, setattr, call, emit, return
    node: ast.AST
    module: Module
    pc: tuple
    loops: tuple
    data: tuple
    func: Any = None


def strip_ends(parts, chars, left, right):
    """strip literal text at the ends of a template (holes are taken to carry no surrounding white space)"""
    parts = list(parts)
    if left:
        while parts and isinstance(parts[0], str):
            parts[0] = parts[0].lstrip(chars)
            if parts[0]:
                break
            parts.pop(0)
    if right:
        while parts and isinstance(parts[-1], str):
            parts[-1] = parts[-1].rstrip(chars)
            if parts[-1]:
                break
            parts.pop()
    return tuple(parts)


class Interp:
    MAXDEPTH = 28
    MAXSTEPS = 400000

    def __init__(self, project: Project, opaque=(), inline=True, opaque_fn=()):
        self.p = project
        self.opaque = set(opaque)            # class names never inlined
        self.exact = set()                   # terms whose class is known to be no subclass of their type
        self.opaque_new = set()              # class names whose construction is a term, methods still inlined
        self.opaque_fn = set(opaque_fn)      # function/method qualified "Cls.name" or "name" never inlined
        self.inline = inline
        self.max_rec = 2
        self.cut = set()                     # the functions inside others whose recursion is not followed
        self.carry_lists = False             # follow the lists that a `for` adds to and reads
        self.nheap = 0
        self.nloop = 0
        self.nframe = 0
        self.types: dict = {}
        self.events: list[Event] = []
        self.carried: dict = {}
        self.stepped: dict = {}      # variable of a loop -> its value at the end of an iteration
        self.started: dict = {}      # the same -> (its value before the loop, at the end of an iteration)
        self.repeats: dict = {}      # a while loop -> the condition to go on, in an iteration
        self.loop_base: dict = {}
        self.stack: list = []
        self.loops: list = []
        self.base_of = {}
        self.changes = {}
        self.steps = 0
        self.called: set = set()
        self.unknown: list = []
        self.truth: dict = {}               # assumed conditions: term -> bool
        self.identity: set = set()          # methods whose result counts as the receiver itself
        self.type_cache = {}
        self.stream_ids = {}
        self.lazy = set()
        self.frame_info = {}

    # ------------------------------------------------------------------ helpers
    def new_ref(self, st, cell):
        self.nheap += 1
        st.heap[self.nheap] = cell
        return Ref(self.nheap)

    def new_list(self, st, items=(), kind='list'):
        return self.new_ref(st, HList(tuple(items), kind))

    def fresh_lid(self):
        self.nloop += 1
        return self.nloop

    def sym(self, name, typ=None):
        s = Sym(name)
        if typ is not None:
            self.types[s] = self.as_type(typ)
        return s

    def as_type(self, typ):
        if isinstance(typ, Class):
            return ('C', typ)
        if isinstance(typ, str):
            return ('C', self.p.find_class(typ))
        return typ

    def event(self, kind, node, st, *data):
        self.events.append(Event(kind, node, self.stack[-1][0].module if self.stack else None, st.pc,
                                 tuple(self.loops), data, self.stack[-1][0] if self.stack else None))

    # ------------------------------------------------------------------ types
    def ann_type(self, m: Module, node):
        if node is None:
            return None
        if isinstance(node, ast.Constant):
            if isinstance(node.value, str):
                try:
                    return self.ann_type(m, ast.parse(node.value, mode='eval').body)
                except SyntaxError:
                    return None
            return None
        if isinstance(node, ast.Name):
            if node.id in ('str', 'int', 'bool', 'float', 'bytes'):
                return (node.id,)
            if node.id in ('list', 'tuple', 'set', 'List', 'Tuple'):
                return ('seq', None)
            if node.id in ('dict', 'Dict'):
                return ('dict', None, None)
            r = self.p.resolve_name(m, node.id)
            if isinstance(r, Class):
                return ('C', r)
            if isinstance(r, tuple) and r[0] == 'value':
                v = r[2]
                if isinstance(v, ast.Call) and ast.unparse(v.func).endswith('TypeVar'):
                    for k in v.keywords:
                        if k.arg == 'bound':
                            return self.ann_type(r[1], k.value)
                    return None
                if isinstance(v, (ast.Subscript, ast.BinOp, ast.Name)):
                    return self.ann_type(r[1], v)
            return None
        if isinstance(node, ast.Attribute):
            c = self.p.resolve_expr_class(m, node)
            return ('C', c) if c else None
        if isinstance(node, ast.Subscript):
            head = ast.unparse(node.value).split('.')[-1]
            args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            if head in ('list', 'List', 'set', 'Set', 'frozenset', 'Sequence', 'Iterable', 'Iterator', 'Generator'):
                return ('seq', self.ann_type(m, args[0]))
            if head in ('tuple', 'Tuple'):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return ('seq', self.ann_type(m, args[0]))
                if len(args) == 1:
                    return ('seq', self.ann_type(m, args[0]))
                return ('tuple', tuple(self.ann_type(m, a) for a in args))
            if head in ('dict', 'Dict', 'Mapping'):
                return ('dict', self.ann_type(m, args[0]), self.ann_type(m, args[1]) if len(args) > 1 else None)
            if head in ('Optional', 'Union', 'ClassVar', 'Final', 'Type'):
                ts = [self.ann_type(m, a) for a in args]
                ts = [t for t in ts if t is not None]
                cs = [t for t in ts if t[0] == 'C']
                return cs[0] if cs else (ts[0] if ts else None)
            return None
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            ts = [self.ann_type(m, a) for a in (node.left, node.right)]
            ts = [t for t in ts if t is not None]
            cs = [t for t in ts if t[0] == 'C']
            return cs[0] if cs else (ts[0] if ts else None)
        return None

    def attr_type(self, c: Class, name):
        key = (id(c), name)
        if key in self.type_cache:
            return self.type_cache[key]
        self.type_cache[key] = None
        t = None
        for k in self.p.mro(c):
            if name in k.fields:
                t = self.ann_type(k.module, k.fields[name])
                break
            if name in k.methods and k.methods[name].is_property:
                f = k.methods[name]
                t = self.ann_type(f.module, f.node.returns)
                break
        if t is None:
            # self.x = <param with annotation> / Class(...) in methods
            for k in self.p.mro(c):
                for f in k.methods.values():
                    ann = {a.arg: a.annotation for a in f.node.args.args if a.annotation is not None}
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Assign):
                            for tg in n.targets:
                                if isinstance(tg, ast.Attribute) and tg.attr == name and \
                                        isinstance(tg.value, ast.Name) and tg.value.id == 'self':
                                    v = n.value
                                    if isinstance(v, ast.Name) and v.id in ann:
                                        t = t or self.ann_type(f.module, ann[v.id])
                                    elif isinstance(v, ast.Call):
                                        cc = self.p.resolve_expr_class(f.module, v.func)
                                        if cc is not None:
                                            t = t or ('C', cc)
                        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) \
                                and n.target.attr == name:
                            t = t or self.ann_type(f.module, n.annotation)
                if t is not None:
                    break
        self.type_cache[key] = t
        return t

    def type_of(self, x, st=None):
        if x in self.types:
            return self.types[x]
        t = self._type_of(x, st)
        return t

    def _type_of(self, x, st):
        if isinstance(x, Const):
            if x.v is None:
                return None
            return (x.t,)
        if isinstance(x, Str):
            return ('str',)
        if isinstance(x, Attr):
            bt = self.type_of(x.base, st)
            if bt and bt[0] == 'C':
                return self.attr_type(bt[1], x.name)
            return None
        if isinstance(x, Elem):
            bt = self.type_of(x.base, st)
            if bt and bt[0] == 'seq':
                return bt[1]
            if bt and bt[0] == 'dict':
                return bt[1]
            if bt and bt[0] == 'tuple' and bt[1] and all(e == bt[1][0] for e in bt[1]):
                return bt[1][0]
            return None
        if isinstance(x, Index):
            return ('int',)
        if isinstance(x, Item):
            bt = self.type_of(x.base, st)
            if bt and bt[0] == 'seq':
                if isinstance(x.key, App) and x.key.fn == 'slice':
                    return bt
                return bt[1]
            if bt and bt[0] == 'dict':
                return bt[2]
            if bt and bt[0] == 'tuple' and isinstance(x.key, Const) and isinstance(x.key.v, int) \
                    and -len(bt[1]) <= x.key.v < len(bt[1]):
                return bt[1][x.key.v]
            return None
        if isinstance(x, Ref) and st is not None:
            c = st.heap.get(x.id)
            if isinstance(c, HObj):
                return ('C', c.cls)
            if isinstance(c, HList):
                if c.kind == 'stream':
                    return ('stream',)
                return ('seq', None)
            if isinstance(c, HDict):
                return ('dict', None, None)
        if isinstance(x, Seq):
            return ('seq', None)
        if isinstance(x, Phi):
            return self.type_of(x.a, st) or self.type_of(x.b, st)
        if isinstance(x, Carried):
            init = self.carried.get(x)
            return self.type_of(init, st) if init is not None else None
        if isinstance(x, LoopOut):
            return self.type_of(x.init, st) or self.type_of(x.step, st)
        if isinstance(x, App):
            if x.fn in ('len', 'int', 'index'):
                return ('int',)
            if x.fn in ('str', 'repr', 'fmt'):
                return ('str',)
            if x.fn in ('values',):
                bt = self.type_of(x.args[0], st)
                if bt and bt[0] == 'dict':
                    return ('seq', bt[2])
            if x.fn in ('keys',):
                bt = self.type_of(x.args[0], st)
                if bt and bt[0] == 'dict':
                    return ('seq', bt[1])
            if x.fn in ('tuple', 'list', 'sorted', 'set', 'reversed') and x.args:
                return self.type_of(x.args[0], st)
            if x.fn in ('add', 'or', 'and') and x.args:
                for a in x.args:
                    t = self.type_of(a, st)
                    if t is not None:
                        return t
        if isinstance(x, MCall):
            rt = self.type_of(x.recv, st)
            if rt and rt[0] == 'C':
                f = self.p.method(rt[1], x.name)
                if f is not None:
                    t = self.ann_type(f.module, f.node.returns)
                    if t is None and x.name == 'copy':
                        return rt
                    return t
            if rt and rt[0] == 'dict' and x.name == 'get':
                return rt[2]
        return None

    # ------------------------------------------------------------------ entry
    def run(self, func: Func, args=(), kwargs=None, self_=None, state=None):
        st = state or State()
        val = self.call_func(func, list(args), dict(kwargs or {}), st, self_=self_, node=func.node)
        return val, st

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, st, fid):
        """returns (state or None if dead, [Abrupt])"""
        abrupts = []
        cur = st
        for i, n in enumerate(body):
            if cur is None:
                break
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise AnalysisBroken('analysis step budget exceeded')
            cur, ab = self.exec_stmt(n, cur, fid)
            abrupts.extend(ab)
        return cur, abrupts

    def exec_stmt(self, n, st, fid):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.unknown.append(n)
            return st, []
        return m(n, st, fid)

    def s_Pass(self, n, st, fid):
        return st, []

    s_Import = s_Global = s_Nonlocal = s_Pass

    def s_ImportFrom(self, n, st, fid):
        mod = self.cur_module(fid)
        target = self.p._abs_module(mod, n.module, n.level)
        for a in n.names:
            v = None
            if target in self.p.modules:
                v = self.wrap_resolved(self.p.resolve_name(self.p.modules[target], a.name), st, a.name)
                if v is None and f'{target}.{a.name}' in self.p.modules:
                    v = ModV(f'{target}.{a.name}')
            if v is None:
                v = Sym(f'{target}.{a.name}')
            st.frames[fid][a.asname or a.name] = v
        return st, []

    def s_Import(self, n, st, fid):
        for a in n.names:
            st.frames[fid][a.asname or a.name.split('.')[0]] = ModV(a.name if a.asname else a.name.split('.')[0])
        return st, []

    def s_Expr(self, n, st, fid):
        self.ev(n.value, st, fid)
        return st, []

    def s_Assert(self, n, st, fid):
        c = self.ev(n.test, st, fid)
        self.event('assert', n, st, c)
        return st, []

    def s_Delete(self, n, st, fid):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.frames[fid].pop(t.id, None)
                self.event('del', n, st, K(t.id))
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fid)
                k = self.ev(t.slice, st, fid)
                self.event('delitem', n, st, b, k)
                if isinstance(b, Ref) and isinstance(st.heap.get(b.id), HDict):
                    c = st.heap[b.id]
                    st.heap[b.id] = HDict(self.without_key(c.items, k))
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st, fid)
                self.event('delattr', n, st, b, K(t.attr))
        return st, []

    def without_key(self, items, k):
        out = []
        for i in items:
            if isinstance(i, Seq) and i.items[0] == k:
                continue
            if isinstance(i, Opt):
                a, b = self.without_key(i.a, k), self.without_key(i.b, k)
                if a or b:
                    out.append(Opt(i.cond, a, b))
            else:
                out.append(i)
        return tuple(out)

    def s_FunctionDef(self, n, st, fid):
        f = Func(n.name, n, self.cur_module(fid), cls=None, outer=self.cur_func(fid))
        st.frames[fid][n.name] = Clo(f, fid, None)
        return st, []

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, fid):
        c = self.p._class(self.cur_module(fid), n)
        st.frames[fid][n.name] = ClsV(c, fid)
        return st, []

    def s_Return(self, n, st, fid):
        v = self.ev(n.value, st, fid) if n.value is not None else NONE
        self.event('return', n, st, v)
        return None, [Abrupt('return', st.pc, st, v, n)]

    def s_Raise(self, n, st, fid):
        v = self.ev(n.exc, st, fid) if n.exc is not None else NONE
        self.event('raise', n, st, v)
        return None, [Abrupt('raise', st.pc, st, v, n)]

    def s_Break(self, n, st, fid):
        return None, [Abrupt('break', st.pc, st, None, n)]

    def s_Continue(self, n, st, fid):
        return None, [Abrupt('continue', st.pc, st, None, n)]

    def s_Assign(self, n, st, fid):
        v = self.ev(n.value, st, fid)
        for t in n.targets:
            self.assign(t, v, st, fid, n)
        return st, []

    def s_AnnAssign(self, n, st, fid):
        if n.value is not None:
            v = self.ev(n.value, st, fid)
            self.assign(n.target, v, st, fid, n)
            if isinstance(v, (Sym, Elem, Item, App, MCall)) and v not in self.types:
                t = self.ann_type(self.cur_module(fid), n.annotation)
                if t:
                    self.types[v] = t
        return st, []

    def s_AugAssign(self, n, st, fid):
        cur = self.ev_load_target(n.target, st, fid)
        v = self.ev(n.value, st, fid)
        if isinstance(n.op, ast.Add) and isinstance(cur, Ref) and isinstance(st.heap.get(cur.id), HList):
            self.list_extend(cur, v, st, n)
            res = cur
        else:
            res = self.binop(type(n.op).__name__, cur, v, st)
        self.event('augassign', n, st, cur, v)
        self.assign(n.target, res, st, fid, n)
        return st, []

    def ev_load_target(self, t, st, fid):
        return self.ev(t, st, fid)

    def changed_names(self, fid):
        """names of this function for lists that it adds to or takes from"""
        f = self.cur_func(fid)
        if f is None:
            return ()
        if id(f.node) not in self.changes:
            self.changes[id(f.node)] = {x.func.value.id for x in ast.walk(f.node) if isinstance(x, ast.Call)
                                        and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)
                                        and x.func.attr in ('append', 'extend', 'insert', 'remove', 'pop', 'reverse', 'sort')} | {
                x.target.id for x in ast.walk(f.node) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        return self.changes[id(f.node)]

    def assign(self, t, v, st, fid, node):
        if isinstance(t, ast.Name):
            if fresh_list(v) and t.id in self.changed_names(fid):
                v = self.new_list(st, [Splice(v)])
            fr = st.frames[fid]
            owner = fid
            # nonlocal: write to defining frame
            f = self.cur_func(fid)
            if f is not None and any(isinstance(x, ast.Nonlocal) and t.id in x.names for x in ast.walk(f.node)):
                o = self.frame_info[fid][2]
                while o is not None:
                    if t.id in st.frames.get(o, {}):
                        owner = o
                        break
                    o = self.frame_info[o][2]
            st.frames[owner][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            if not star:
                vals = self.unpack(v, n, st)
            else:
                after = n - 1 - star[0]
                rest = self.slice(v, K(star[0]) if star[0] else NONE, K(-after) if after else NONE, NONE, st)
                vals = [self.item(v, K(i if i < star[0] else i - n), st) if i != star[0] else rest for i in range(n)]
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fid, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fid)
            self.setattr(b, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fid)
            k = self.ev(t.slice, st, fid)
            self.event('setitem', node, st, b, k, v)
            self.setitem(b, k, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fid, node)

    def setitem(self, b, k, v, st):
        if isinstance(b, Ref):
            c = st.heap.get(b.id)
            if isinstance(c, HDict):
                items = []
                done = False
                for i in c.items:
                    if isinstance(i, Seq) and i.kind == 'kv' and i.items[0] == k:
                        items.append(Seq('kv', (k, v)))
                        done = True
                    else:
                        items.append(i)
                if not done:
                    items.append(Seq('kv', (k, v)))
                st.heap[b.id] = HDict(tuple(items))
                return
            if isinstance(c, HList):
                if isinstance(k, Const) and isinstance(k.v, int) and -len(c.items) <= k.v < len(c.items) and \
                        not any(isinstance(i, (Rep, Opt, Splice)) for i in c.items):
                    it = list(c.items)
                    it[k.v] = v
                    st.heap[b.id] = HList(tuple(it), c.kind)
                else:
                    st.heap[b.id] = HList((App('setitem', (Seq('tuple', c.items), k, v)),) if False else
                                          tuple(c.items) + (App('stored', (k, v)),), c.kind)
                return
        st.over[('item', b, k)] = v

    def setattr(self, b, name, v, st, node):
        self.event('setattr', node, st, b, name, v)
        if isinstance(b, Phi):
            for x in (b.a, b.b):
                if isinstance(x, Term) and x != NONE:
                    old = self.attr(x, name, st, node, raw=True)
                    c = b.cond if x is b.a else neg(b.cond)
                    self._setattr(x, name, self.merge_val(c, v, old), st)
            return
        self._setattr(b, name, v, st)

    def _setattr(self, b, name, v, st):
        if isinstance(b, Ref):
            c = st.heap.get(b.id)
            if isinstance(c, HObj):
                s = self.find_setter(c.cls, name)
                f = dict(c.fields)
                f[name] = v
                st.heap[b.id] = HObj(c.cls, f)
                return
        st.over[('attr', b, name)] = v

    def find_setter(self, c, name):
        for k in self.p.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def s_If(self, n, st, fid):
        c = self.cond(self.ev(n.test, st, fid), st)
        if isinstance(c, Const):
            return self.exec_block(n.body if c.v else n.orelse, st, fid)
        base_pc = st.pc
        s1 = st.copy()
        s1.pc = base_pc + ((c, True),)
        s2 = st
        s2 = st.copy()
        s2.pc = base_pc + ((c, False),)
        r1, a1 = self.exec_block(n.body, s1, fid)
        r2, a2 = self.exec_block(n.orelse, s2, fid)
        ab = a1 + a2
        if r1 is not None and r2 is not None:
            r = self.merge_state(c, r1, r2, base_pc)
        elif r1 is not None:
            r = r1           # keeps pc including the guard (other side left)
        else:
            r = r2
        return r, ab

    def s_With(self, n, st, fid):
        for it in n.items:
            v = self.ev(it.context_expr, st, fid)
            self.event('with', n, st, v)
            if it.optional_vars is not None:
                vv = v if (isinstance(v, Ref)) else App('enter', (v,))
                t = self.type_of(v, st)
                if t is not None:
                    self.types.setdefault(vv, t)
                self.assign(it.optional_vars, vv, st, fid, n)
        return self.exec_block(n.body, st, fid)

    s_AsyncWith = s_With

    def s_Try(self, n, st, fid):
        pre = st.copy()
        r, ab = self.exec_block(n.body, st, fid)
        if r is not None and n.orelse:
            r, a2 = self.exec_block(n.orelse, r, fid)
            ab = ab + a2
        caught = bool(n.handlers)
        out = r
        if caught:
            # explicit raises inside the body may be caught; keep them recorded as events but not as exits when a
            # bare/broad handler exists
            for h in n.handlers:
                names = ast.unparse(h.type) if h.type is not None else 'BaseException'
                hs = pre.copy()
                exc = App('exception', (K(names), K(self.site(n))))
                hs.pc = pre.pc + ((exc, True),)
                if h.name:
                    hs.frames[fid][h.name] = App('caught', (K(names),))
                hr, ha = self.exec_block(h.body, hs, fid)
                ab = ab + ha
                if hr is not None:
                    out = hr if out is None else self.merge_state(exc, hr, out, pre.pc)
        if n.finalbody:
            if out is not None:
                out, fa = self.exec_block(n.finalbody, out, fid)
                ab = ab + fa
            else:
                # still evaluate for events
                self.exec_block(n.finalbody, pre.copy(), fid)
        return out, ab

    s_TryStar = s_Try

    def site(self, n):
        m = self.stack[-1][0].module.name if self.stack else '?'
        return f'{m}:{getattr(n, "lineno", 0)}'

    def s_Match(self, n, st, fid):
        subj = self.ev(n.subject, st, fid)
        out = None
        ab = []
        cur = st
        for case in n.cases:
            if cur is None:
                break
            cond = self.match_cond(case.pattern, subj, cur, fid)
            if case.guard is not None:
                cond = App('and', (cond, self.ev(case.guard, cur, fid)))
            cond = self.cond(cond, cur)
            if isinstance(cond, Const):
                if not cond.v:
                    continue
                r, a = self.exec_block(case.body, cur, fid)
                ab += a
                cur = None
                if r is not None:
                    out = r if out is None else self.merge_state(App('case', ()), r, out, st.pc)
                break
            s1 = cur.copy()
            s1.pc = cur.pc + ((cond, True),)
            s2 = cur.copy()
            s2.pc = cur.pc + ((cond, False),)
            r, a = self.exec_block(case.body, s1, fid)
            ab += a
            if r is not None:
                out = r if out is None else self.merge_state(cond, r, out, st.pc)
            cur = s2
        if cur is not None:
            out = cur if out is None else self.merge_state(App('nocase', ()), cur, out, st.pc)
        return out, ab

    def match_cond(self, p, subj, st, fid):
        if isinstance(p, ast.MatchValue):
            return App('eq', (subj, self.ev(p.value, st, fid)))
        if isinstance(p, ast.MatchSingleton):
            return App('is', (subj, K(p.value)))
        if isinstance(p, ast.MatchOr):
            return App('or', tuple(self.match_cond(x, subj, st, fid) for x in p.patterns))
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.match_cond(p.pattern, subj, st, fid)
            if p.name:
                st.frames[fid][p.name] = subj
            return c
        if isinstance(p, ast.MatchClass):
            return App('isinstance', (subj, self.ev(p.cls, st, fid)))
        return App('match', (subj, K(ast.dump(p))))

    # -- loops
    def assigned_names(self, body):
        names = []
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    continue
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in names:
                    names.append(x.id)
        return names

    def replaced_names(self, body):
        """names that the loop body only gives new values"""
        out = []
        every = [x for b in body for x in ast.walk(b)]
        for nm in self.assigned_names(body):
            made = [x for x in every if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in x.targets)]
            stores = [x for x in every if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Store)]
            changed = [x for x in every if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == nm and x.attr in CHANGERS or
                       isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Subscript) and isinstance(x.target.value, ast.Name) and x.target.value.id == nm]
            if len(made) == len(stores) and not changed:
                out.append(nm)
        return out

    def read_while_changed(self, body, test):
        """names of the lists that the loop body adds to and has another use for"""
        every = [x for b in body for x in ast.walk(b)]
        grown = [x.func.value for x in every if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)
                 and x.func.attr in CHANGERS]
        every += list(ast.walk(test)) if test is not None else []
        if self.carry_lists:
            # what is called with it can do both
            grown += [ast.Name(a.id, ast.Load()) for x in every if isinstance(x, ast.Call) for a in x.args if isinstance(a, ast.Name)]
        return [nm for nm in dict.fromkeys(x.id for x in grown)
                if any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load) and x not in grown for x in every)]

    def counter_names(self, body):
        """names the loop body does nothing to but add one, once and unconditionally, per iteration"""
        if any(isinstance(x, ast.Continue) for b in body for x in ast.walk(b)):
            return []
        out = []
        for b in body:
            if isinstance(b, ast.AugAssign) and isinstance(b.op, ast.Add) and isinstance(b.target, ast.Name) and \
                    isinstance(b.value, ast.Constant) and b.value.value == 1:
                nm = b.target.id
                stores = [x for c in body for x in ast.walk(c) if isinstance(x, ast.Name) and x.id == nm and
                          isinstance(x.ctx, (ast.Store, ast.Del))]
                if len(stores) == 1:
                    out.append(nm)
        return out

    def loop_over(self, iterable, st, body_fn, node):
        """Run body_fn(elem, state) -> state|None symbolically for each item *shape* of iterable; returns state."""
        items = self.seq_items(iterable, st)
        if items is None:
            lid = self.fresh_lid()
            if positions(iterable):      # the loop over the list, looking at the positions only
                base = listed(iterable)
                self.loop_base[lid] = base
                return self.loop_sym(base, lid, lambda s: Index(base, lid), st, body_fn, node)
            self.loop_base[lid] = iterable
            return self.loop_sym(iterable, lid, lambda s: self.elem_of(iterable, lid, s), st, body_fn, node)
        return self.loop_items(items, st, body_fn, node, iterable)

    def loop_items(self, items, st, body_fn, node, whole):
        cur = st
        for it in items:
            if cur is None:
                return None
            if isinstance(it, Rep):
                cur = self.loop_sym(it.base, it.lid, None, cur, body_fn, node, inner=it.items, whole=whole)
            elif isinstance(it, Opt):
                pc = cur.pc
                s1 = cur.copy(); s1.pc = pc + ((it.cond, True),)
                s2 = cur.copy(); s2.pc = pc + ((it.cond, False),)
                r1 = self.loop_items(it.a, s1, body_fn, node, whole)
                r2 = self.loop_items(it.b, s2, body_fn, node, whole)
                cur = r1 if r2 is None else (r2 if r1 is None else self.merge_state(it.cond, r1, r2, pc))
            elif isinstance(it, Splice):
                lid = self.fresh_lid()
                self.loop_base[lid] = it.base
                base = it.base
                cur = self.loop_sym(base, lid, lambda s, base=base, lid=lid: self.elem_of(base, lid, s), cur, body_fn,
                                    node)
            else:
                cur = body_fn(it, cur)
        return cur

    def loop_sym(self, base, lid, elem_fn, st, body_fn, node, inner=None, whole=None):
        pre_heap = dict(st.heap)
        for hid in list(self.stream_ids.values()):
            pre_heap.setdefault(hid, HList((), 'stream'))
        pre_over = dict(st.over)
        pre_frames = {k: dict(v) for k, v in st.frames.items()}
        s = st.copy()
        body = getattr(node, 'body', None)
        body = body if isinstance(body, list) else []
        names = self.assigned_names(body)
        replaced = self.replaced_names(body) if isinstance(node, ast.While) or self.carry_lists and isinstance(node, ast.For) else ()
        regrown = [x.func.value.id for b in body for x in ast.walk(b) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                   and isinstance(x.func.value, ast.Name) and x.func.value.id in names and x.func.attr in ('append', 'extend')]
        counters = {}
        if isinstance(node, ast.For) and (inner is None or len(inner) == 1 and not isinstance(inner[0], (Rep, Opt, Splice))):
            for nm in self.counter_names(body):
                v = s.frames.get(self._loop_fid, {}).get(nm)
                if isinstance(v, Const) and type(v.v) is int:
                    counters[nm] = v
        for fidk, fr in s.frames.items():
            for nm in names:
                if nm in fr and fidk == self._loop_fid:
                    v = fr[nm]
                    if nm in counters:
                        fr[nm] = self.affine('add', Index(strip_iter(base), lid), v)
                        continue
                    if self.carry_lists and nm in regrown and (
                            isinstance(s.heap.get(v.id), HList) if isinstance(v, Ref) else not isinstance(v, (Const, Clo, Lam, ClsV, ModV))):
                        c = Carried(nm, lid)
                        self.carried[c] = v
                        fr[nm] = self.new_list(s, [Splice(c)])
                        continue
                    if isinstance(v, Ref) and nm not in replaced or isinstance(v, (Clo, Lam, ClsV, ModV)):
                        continue
                    c = Carried(nm, lid)
                    self.carried[c] = v
                    fr[nm] = c
        list_c = {}
        if isinstance(node, ast.While) or self.carry_lists and isinstance(node, ast.For):
            for nm in self.read_while_changed(body, getattr(node, 'test', None)):
                v = s.frames.get(self._loop_fid, {}).get(nm)
                cell = s.heap.get(v.id) if isinstance(v, Ref) else None
                if isinstance(cell, HList) and cell.kind in ('list', 'set') and nm not in names:
                    c = list_c[v.id] = Carried(f'&{v.id}', lid)
                    self.carried[c] = Seq(cell.kind, cell.items)
                    s.heap[v.id] = HList((Splice(c),), cell.kind)
        # attributes augmented in the loop on symbolic bases
        aug = []
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Attribute):
                    aug.append(x.target.attr)
        over_c = {}
        for k, v in list(s.over.items()):
            if k[0] == 'attr' and k[2] in aug and not isinstance(v, Ref):
                c = Carried(f'.{k[2]}', lid)
                self.carried[c] = v
                s.over[k] = c
                over_c[k] = c
        obj_c = {}
        for hid, cell in list(s.heap.items()):
            if isinstance(cell, HObj) and any(f in aug for f in cell.fields):
                f2 = dict(cell.fields)
                for f in aug:
                    if f in f2 and not isinstance(f2[f], Ref):
                        c = Carried(f'&{hid}.{f}', lid)
                        self.carried[c] = f2[f]
                        f2[f] = c
                s.heap[hid] = HObj(cell.cls, f2)
        self.loops.append((lid, base))
        self.base_of[lid] = base
        s.pc = st.pc + ((App('in_loop', (K(lid),)), True),)
        if inner is not None:
            r = self.loop_items(inner, s, body_fn, node, whole)
        else:
            r = body_fn(elem_fn(s), s)
        self.loops.pop()
        if r is None:
            st2 = st.copy()
            return st2
        out = st.copy()
        # heap
        for hid, cell in r.heap.items():
            if hid not in pre_heap and hid in self.lazy:
                pre_heap[hid] = HList((), 'stream')
            if hid not in pre_heap:
                out.heap[hid] = cell
                continue
            old = pre_heap[hid]
            if cell is old or cell == old:
                continue
            if hid in list_c and isinstance(cell, HList):
                c, more = list_c[hid], cell.items[1:]
                self.started[c] = self.freeze(Seq(cell.kind, old.items), st), self.freeze(Seq(cell.kind, cell.items), r)
                if cell.items[:1] == (Splice(c),) and not any(x == c for y in more for x in walk(self.freeze(y, r))):
                    out.heap[hid] = HList(old.items + ((Rep(lid, base, more),) if more else ()), cell.kind)
                else:
                    out.heap[hid] = HList((Splice(LoopOut(lid, base, *self.started[c])),), cell.kind)
                continue
            if isinstance(cell, HList) and isinstance(old, HList):
                n = len(old.items)
                if cell.items[:n] == old.items:
                    delta = cell.items[n:]
                    if delta:
                        out.heap[hid] = HList(old.items + (Rep(lid, base, delta),), cell.kind)
                else:
                    out.heap[hid] = HList((LoopOut(lid, base, Seq('list', old.items), Seq('list', cell.items)),),
                                          cell.kind)
            elif isinstance(cell, HDict) and isinstance(old, HDict):
                n = len(old.items)
                if cell.items[:n] == old.items:
                    out.heap[hid] = HDict(old.items + (Rep(lid, base, cell.items[n:]),))
                else:
                    out.heap[hid] = HDict(cell.items)
            elif isinstance(cell, HObj) and isinstance(old, HObj):
                f = {}
                for nm in {**old.fields, **cell.fields}:
                    a, b = old.fields.get(nm, NONE), cell.fields.get(nm, NONE)
                    f[nm] = a if a == b else self.loop_out(lid, base, a, b, Carried(f'&{hid}.{nm}', lid))
                out.heap[hid] = HObj(cell.cls, f)
            else:
                out.heap[hid] = cell
        for k, v in r.over.items():
            if k not in pre_over:
                if k[0] == 'attr' and self.mentions(k[1], lid):
                    out.over[k] = v
                else:
                    out.over[k] = self.loop_out(lid, base, self.raw_over(k), v, over_c.get(k))
            elif pre_over[k] != v:
                out.over[k] = self.loop_out(lid, base, pre_over[k], v, over_c.get(k))
        for fidk, fr in r.frames.items():
            if fidk not in out.frames:
                out.frames[fidk] = fr
                continue
            for nm, v in fr.items():
                old = pre_frames.get(fidk, {}).get(nm)
                if old is None:
                    out.frames[fidk][nm] = v
                elif old == v or v == Carried(nm, lid):
                    pass
                elif nm in counters and fidk == self._loop_fid:
                    out.frames[fidk][nm] = self.affine('add', App('len', (strip_iter(base),)), counters[nm])
                elif isinstance(old, Ref) and isinstance(out.heap.get(old.id), HList) and Carried(nm, lid) not in self.carried and self.is_dedup(v, r, old, getattr(pre_heap.get(old.id), 'items', None)):
                    # `xs.extend(..); xs = list(dict.fromkeys(xs))` in a loop: the de-duplicated accumulation
                    out.frames[fidk][nm] = App('dedup', (self.freeze(old, out),))
                else:
                    self.stepped[Carried(nm, lid)] = v
                    if Carried(nm, lid) in self.carried:
                        self.started[Carried(nm, lid)] = self.freeze(old, st), self.freeze(v, out)
                    out.frames[fidk][nm] = self.loop_out(lid, base, old, v, Carried(nm, lid))
        out.pc = st.pc
        return out

    def is_dedup(self, v, st, old=None, pre=None):
        if isinstance(v, Phi) and old is not None and old in (v.a, v.b):
            # only when there is something to add; a list that is empty before has nothing twice
            return pre == () and self.is_dedup(v.b if v.a == old else v.a, st)
        items = self.seq_items(v, st)
        if items is not None and len(items) == 1 and isinstance(items[0], Splice):
            v = items[0].base
        return isinstance(v, App) and v.fn in DEDUP

    def raw_over(self, k):
        return Attr(k[1], k[2]) if k[0] == 'attr' else Item(k[1], k[2])

    def mentions(self, t, lid):
        return any(isinstance(x, (Elem, Index, Carried)) and x.lid == lid for x in walk(t))

    def loop_out(self, lid, base, init, step, carried):
        if carried is not None:
            if isinstance(step, Str) and step.parts and step.parts[0] == carried:
                ini = init.parts if isinstance(init, Str) else ((init.v,) if isinstance(init, Const) and isinstance(
                    init.v, str) else (init,))
                return mkstr(tuple(ini) + (Rep(lid, base, step.parts[1:]),))
            if isinstance(step, Seq) and step.items and step.items[0] == Splice(carried):
                ini = init.items if isinstance(init, Seq) else (Splice(init),)
                return Seq(step.kind, tuple(ini) + (Rep(lid, base, step.items[1:]),))
            if isinstance(init, (Str, Const)) and isinstance(step, Phi):
                a = self.loop_out(lid, base, init, step.a, carried) if step.a != carried else init
                b = self.loop_out(lid, base, init, step.b, carried) if step.b != carried else init
                if isinstance(a, Str) or isinstance(b, Str):
                    pa = self._tail(a, init); pb = self._tail(b, init)
                    if pa is not None and pb is not None:
                        ini = self._parts(init)
                        ra = pa[0].items if pa and isinstance(pa[0], Rep) else pa
                        rb = pb[0].items if pb and isinstance(pb[0], Rep) else pb
                        return mkstr(ini + (Rep(lid, base, (Opt(step.cond, tuple(ra), tuple(rb)),)),))
        return LoopOut(lid, base, init, step)

    @staticmethod
    def _parts(x):
        if isinstance(x, Str):
            return x.parts
        if isinstance(x, Const) and isinstance(x.v, str):
            return (x.v,) if x.v else ()
        return (x,)

    def _tail(self, x, init):
        p, i = self._parts(x), self._parts(init)
        if p[:len(i)] == i:
            return p[len(i):]
        return None

    def s_For(self, n, st, fid):
        it = self.ev(n.iter, st, fid)
        allab = []

        def body(elem, s):
            entry = s.pc
            self.assign(n.target, elem, s, fid, n)
            r, ab = self.exec_block(n.body, s, fid)
            conts = [a for a in ab if a.kind == 'continue']
            brks = [a for a in ab if a.kind == 'break']
            rest = [a for a in ab if a.kind in ('return', 'raise')]
            allab.extend(rest)
            for a in reversed(conts + brks):
                r = self.join_abrupt(a, r, entry)
            if r is not None:
                r.pc = entry
            return r

        save = getattr(self, '_loop_fid', None)
        self._loop_fid = fid
        pc0 = st.pc
        r = self.loop_over(it, st, body, n)
        self._loop_fid = save
        if r is not None:
            r.pc = pc0
            if n.orelse:
                r, ab2 = self.exec_block(n.orelse, r, fid)
                allab.extend(ab2)
        # returns inside a loop stay conditional on the loop
        return r, allab

    s_AsyncFor = s_For

    def s_While(self, n, st, fid):
        if not hasattr(n, 'counted'):
            n.counted = counted(n)
        if n.counted is not None:
            return self.s_For(n.counted, st, fid)
        allab = []
        lid = self.fresh_lid()
        cond = self.ev(n.test, st, fid)
        base = App('while', (cond,))
        self.loop_base[lid] = base

        def body(elem, s):
            entry = s.pc
            c = self.ev(n.test, s, fid)
            self.repeats[lid] = self.freeze(c, s)
            if not isinstance(c, Const):
                s.pc = s.pc + ((c, True),)
            r, ab = self.exec_block(n.body, s, fid)
            allab.extend(a for a in ab if a.kind in ('return', 'raise'))
            for a in reversed([a for a in ab if a.kind in ('continue', 'break')]):
                r = self.join_abrupt(a, r, entry)
            if r is not None:
                r.pc = entry
            return r

        save = getattr(self, '_loop_fid', None)
        self._loop_fid = fid
        pc0 = st.pc
        r = self.loop_sym(base, lid, lambda s: NONE, st, body, n)
        self._loop_fid = save
        if r is not None:
            r.pc = pc0
        return r, allab

    def join_abrupt(self, a, r, entry_pc):
        conds = a.conds[len(entry_pc):]
        c = conj(conds)
        if r is None:
            s = a.state
            s.pc = entry_pc
            return s
        return self.merge_state(c, a.state, r, entry_pc)

    # ------------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b or a == b:
            return a
        if isinstance(c, Const):
            return a if c.v else b
        if a is None:
            return b
        if b is None:
            return a
        if (isinstance(a, Str) or isinstance(b, Str)) and \
                isinstance(a, (Str, Const)) and isinstance(b, (Str, Const)) and \
                not (isinstance(a, Const) and not isinstance(a.v, str)) and \
                not (isinstance(b, Const) and not isinstance(b.v, str)):
            return self.merge_parts(c, self._parts(a), self._parts(b))
        if isinstance(a, Seq) and isinstance(b, Seq) and a.kind == b.kind:
            return Seq(a.kind, merge_items(c, a.items, b.items))
        return Phi(c, a, b)

    def merge_parts(self, c, pa, pb):
        return mkstr(merge_items(c, pa, pb))

    def merge_state(self, c, a: State, b: State, pc):
        out = State()
        out.pc = pc
        # if guards remained on either side beyond pc (a side left early), keep them: they are facts afterwards
        extra_a = a.pc[len(pc):]
        extra_b = b.pc[len(pc):]
        common = tuple(x for x in extra_a if x in extra_b)
        out.pc = pc + common
        for hid in {**a.heap, **b.heap}:
            ca, cb = a.heap.get(hid), b.heap.get(hid)
            if hid in self.lazy:
                ca = ca or HList((), 'stream')
                cb = cb or HList((), 'stream')
            if ca is None or cb is None or ca is cb or ca == cb:
                out.heap[hid] = ca if ca is not None else cb
                continue
            if isinstance(ca, HList) and isinstance(cb, HList):
                out.heap[hid] = HList(merge_items(c, ca.items, cb.items), ca.kind)
            elif isinstance(ca, HDict) and isinstance(cb, HDict):
                out.heap[hid] = HDict(merge_items(c, ca.items, cb.items))
            elif isinstance(ca, HObj) and isinstance(cb, HObj):
                out.heap[hid] = HObj(ca.cls, {k: self.merge_val(c, ca.fields.get(k), cb.fields.get(k))
                                              for k in {**ca.fields, **cb.fields}})
            else:
                out.heap[hid] = ca
        for k in {**a.over, **b.over}:
            va = a.over.get(k, None)
            vb = b.over.get(k, None)
            if va is None:
                va = self.raw_over(k)
            if vb is None:
                vb = self.raw_over(k)
            out.over[k] = self.merge_val(c, va, vb)
        for f in {**a.frames, **b.frames}:
            fa, fb = a.frames.get(f), b.frames.get(f)
            if fa is None or fb is None:
                out.frames[f] = dict(fa if fa is not None else fb)
                continue
            d = {}
            for nm in {**fa, **fb}:
                d[nm] = self.merge_val(c, fa.get(nm), fb.get(nm))
            out.frames[f] = d
        return out

    # ------------------------------------------------------------------ functions

    def cur_module(self, fid):
        return self.frame_info[fid][0]

    def cur_func(self, fid):
        return self.frame_info[fid][1]

    def call_func(self, func: Func, args, kwargs, st: State, self_=None, node=None, outer_frame=None):
        self.called.add(func.qualname)
        key = func
        depth = sum(1 for f, _ in self.stack if f is func)
        if depth >= self.max_rec or len(self.stack) > self.MAXDEPTH:
            a = tuple(args) if self_ is None else (self_,) + tuple(args)
            if outer_frame is not None:
                # what it does to the variables around it is not known
                self.cut.add(func.name)
            return App(func.name, a, tuple(kwargs.items()))
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(func.node)):
            return self.call_generator(func, args, kwargs, st, self_, outer_frame)
        return self._call(func, args, kwargs, st, self_, outer_frame)[0]

    def call_generator(self, func, args, kwargs, st, self_, outer_frame):
        ref = self.new_list(st)
        v, _ = self._call(func, args, kwargs, st, self_, outer_frame, yield_to=ref)
        return ref

    def _call(self, func, args, kwargs, st, self_, outer_frame, yield_to=None):
        self.nframe += 1
        fid = self.nframe
        self.frame_info[fid] = (func.module, func, outer_frame)
        env = {}
        st.frames[fid] = env
        if yield_to is not None:
            env['$yield'] = yield_to
        self.bind(func, args, kwargs, env, st, self_, fid)
        self.stack.append((func, fid))
        pc0 = st.pc
        r, ab = self.exec_block(func.node.body, st.copy(), fid)
        self.stack.pop()
        # combine returns
        val, cur = (NONE, r) if r is not None else (None, None)
        for a in reversed([a for a in ab if a.kind == 'return']):
            conds = a.conds[len(pc0):]
            c = conj(tuple(x for x in conds))
            if cur is None:
                val, cur = a.value, a.state
            else:
                val = self.merge_val(self.met(c, conds, st) if isinstance(a.value, Const) else c, a.value, val)
                cur = self.merge_state(c, a.state, cur, pc0)
        raises = [a for a in ab if a.kind == 'raise']
        if cur is None:
            # never returns normally: keep going with the entry state, mark value
            if raises:
                cur = raises[-1].state
            else:
                cur = st.copy()
            val = App('raises', (K(func.name),))
        # facts established by raising on the other side
        pc = pc0
        facts = []
        for a in raises:
            conds = a.conds[len(pc0):]
            if len(conds) == 1 and not any(isinstance(x[0], App) and x[0].fn in ('in_loop', 'exception')
                                           for x in conds):
                f = (conds[0][0], not conds[0][1])
                if f not in facts and f not in pc:
                    facts.append(f)
        pc = pc0 + tuple(facts)
        # copy result state back into st (in place)
        st.frames = cur.frames
        st.frames.pop(fid, None) if not self._captured(val, cur, fid) else None
        st.heap = cur.heap
        st.over = cur.over
        st.pc = pc
        if func.cls is not None and val is not None and val not in self.types:
            pass
        if isinstance(val, (App, MCall, Item, Elem, Phi)) and val not in self.types and func.node.returns is not None:
            t = self.ann_type(func.module, func.node.returns)
            if t is not None and t[0] != 'seq' and self._type_of(val, st) is None:
                self.types[val] = t
        return val, st

    def met(self, c, conds, st):
        """a fixed value returned from within a loop is returned when the condition is met by any element"""
        at = [i for i, x in enumerate(conds) if isinstance(x[0], App) and x[0].fn == 'in_loop']
        if at and at[0]:
            return conj(tuple(conds[:at[0]]) + ((self.met(conj(conds[at[0]:]), conds[at[0]:], st), True),))
        for lid in reversed([conds[i][0].args[0].v for i in at]):
            es = {e for e in walk(c) if isinstance(e, Elem) and e.lid == lid}
            if c == TRUE:
                return App('nonempty', (self.freeze(strip_iter(self.base_of[lid]), st),))
            if len(es) != 1 or c == FALSE:
                return c
            c = App('any', (Seq('list', (Rep(lid, es.pop().base, (c,)),)),))
        return c

    def _captured(self, val, st, fid):
        return True  # closures may outlive the frame; frames are small

    def bind(self, func, args, kwargs, env, st, self_, fid):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        anns = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        args = list(args)
        if self_ is not None:
            args = [self_] + args
        # expand splices in args when exact
        flat = []
        for x in args:
            flat.append(x)
        args = flat
        ndef = len(a.defaults)
        used = {}
        for i, nm in enumerate(names):
            if i < len(args) and not isinstance(args[i], Splice):
                env[nm] = args[i]
            elif i < len(args) and isinstance(args[i], Splice):
                env[nm] = Item(args[i].base, K(i))
            elif nm in kwargs:
                env[nm] = kwargs.pop(nm)
            else:
                j = i - (len(names) - ndef)
                if j >= 0:
                    env[nm] = self.ev_default(a.defaults[j], st, func, fid)
                else:
                    env[nm] = Sym(f'{func.name}.{nm}')
        if a.vararg:
            env[a.vararg.arg] = Seq('tuple', tuple(args[len(names):]))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif d is not None:
                env[x.arg] = self.ev_default(d, st, func, fid)
            else:
                env[x.arg] = Sym(f'{func.name}.{x.arg}')
        if a.kwarg:
            items = tuple(Seq('kv', (K(k), v)) if k != '**' else Splice(v) for k, v in kwargs.items())
            env[a.kwarg.arg] = self.new_ref(st, HDict(items))
        for nm, v in env.items():
            if isinstance(v, (Sym, Elem, Item, App, MCall, Attr)) and self.type_of(v, st) is None:
                t = self.ann_type(func.module, anns.get(nm))
                if t is not None:
                    self.types[v] = t

    def ev_default(self, d, st, func, fid):
        return self.ev(d, st, fid)

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st, fid):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.unknown.append(n)
            return App('?' + type(n).__name__, ())
        return m(n, st, fid)

    def e_Constant(self, n, st, fid):
        return K(n.value)

    def e_Name(self, n, st, fid):
        return self.lookup(n.id, st, fid)

    def lookup(self, name, st, fid):
        f = fid
        while f is not None:
            env = st.frames.get(f)
            if env is not None and name in env and env[name] is not None:
                return env[name]
            f = self.frame_info[f][2]
        m = self.cur_module(fid)
        v = self.wrap_resolved(self.p.resolve_name(m, name), st, name)
        if v is not None:
            return v
        return Sym(name)

    def wrap_resolved(self, r, st, name):
        if r is None:
            return None
        if isinstance(r, Class):
            return ClsV(r)
        if isinstance(r, Func):
            return Clo(r, None, None)
        if r[0] == 'module':
            return ModV(r[1])
        if r[0] == 'ext':
            return Sym(r[1])
        if r[0] == 'value':
            v = r[2]
            simple = self.const_value(v, r[1])
            if simple is not None:
                return simple
            key = ('gval', r[1].name, name)
            if key in st.over:
                return st.over[key]
            if isinstance(v, (ast.List, ast.Tuple, ast.Dict, ast.Call, ast.Set, ast.JoinedStr, ast.DictComp,
                              ast.ListComp, ast.Lambda, ast.BinOp)):
                if (r[1].name, name) in getattr(self, '_gbusy', set()):
                    return Sym(f'{r[1].name}.{name}')
                self._gbusy = getattr(self, '_gbusy', set()) | {(r[1].name, name)}
                self.nframe += 1
                f2 = self.nframe
                fake = Func('<module>', v, r[1])
                self.frame_info[f2] = (r[1], fake, None)
                st.frames[f2] = {}
                self.stack.append((fake, f2))
                try:
                    val = self.ev(v, st, f2)
                finally:
                    self.stack.pop()
                    self._gbusy = self._gbusy - {(r[1].name, name)}
                st.over[key] = val
                return val
            return Sym(f'{r[1].name}.{name}')
        return None

    def const_value(self, v, m):
        if isinstance(v, ast.Constant):
            return K(v.value)
        return None

    def e_JoinedStr(self, n, st, fid):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.extend(self.fmt_parts(v, st, fid))
        return mkstr(tuple(parts))

    def fmt_parts(self, v, st, fid):
        x = self.ev(v.value, st, fid)
        if v.format_spec is not None:
            spec = self.ev(v.format_spec, st, fid)
            return self.formatted(x, spec, st)
        if v.conversion == 114:
            return (App('repr', (x,)),)
        return self.to_parts(x, st)

    def formatted(self, x, spec, st):
        """parts of format(x, spec)"""
        if x in self.exact:
            t = self.type_of(x, st)
            f = self.p.method(t[1], '__format__') if t and t[0] == 'C' and t[1].name not in self.opaque else None
            if f is not None:
                return self.to_parts(self.call_func(f, [spec], {}, st, self_=x), st)
        return (App('fmt', (x, spec)),)

    def to_parts(self, x, st):
        """parts of str(x)"""
        if isinstance(x, Str):
            return x.parts
        if isinstance(x, Const):
            return (str(x.v),)
        if isinstance(x, Phi):
            a, b = self.to_parts(x.a, st), self.to_parts(x.b, st)
            return merge_items(x.cond, a, b)
        t = self.type_of(x, st)
        if t and t[0] == 'C' and t[1].name not in self.opaque:
            f = self.p.method(t[1], '__str__')
            if f is not None and not self.is_opaque(f):
                return self.to_parts(self.call_func(f, [], {}, st, self_=x), st)
        return (x,)

    def e_FormattedValue(self, n, st, fid):
        return mkstr(tuple(self.fmt_parts(n, st, fid)))

    def e_List(self, n, st, fid):
        return self.new_list(st, self.elts(n.elts, st, fid))

    def e_Tuple(self, n, st, fid):
        return Seq('tuple', self.elts(n.elts, st, fid))

    def e_Set(self, n, st, fid):
        return Seq('set', self.elts(n.elts, st, fid))

    def elts(self, elts, st, fid):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st, fid)
                items = self.seq_items(v, st)
                if items is None:
                    out.append(Splice(v))
                else:
                    out.extend(items)
            else:
                out.append(self.ev(e, st, fid))
        return tuple(out)

    def e_Dict(self, n, st, fid):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                b = self.ev(v, st, fid)
                items.extend(self.dict_items(b, st))
            else:
                kk = self.ev(k, st, fid)
                items.append(Seq('kv', (kk, self.ev(v, st, fid))))
        return self.new_ref(st, HDict(tuple(items)))

    def dict_items(self, b, st):
        if isinstance(b, Ref) and isinstance(st.heap.get(b.id), HDict):
            return st.heap[b.id].items
        return (Splice(b),)

    def e_Lambda(self, n, st, fid):
        return Lam(n, fid, self.cur_module(fid))

    def e_IfExp(self, n, st, fid):
        c = self.cond(self.ev(n.test, st, fid), st)
        if isinstance(c, Const):
            return self.ev(n.body if c.v else n.orelse, st, fid)
        pc = st.pc
        s1 = st.copy(); s1.pc = pc + ((c, True),)
        s2 = st.copy(); s2.pc = pc + ((c, False),)
        a = self.ev(n.body, s1, fid)
        b = self.ev(n.orelse, s2, fid)
        m = self.merge_state(c, s1, s2, pc)
        st.heap, st.over, st.frames = m.heap, m.over, m.frames
        return self.merge_val(c, a, b)

    def e_NamedExpr(self, n, st, fid):
        v = self.ev(n.value, st, fid)
        self.assign(n.target, v, st, fid, n)
        return v

    def e_Await(self, n, st, fid):
        return self.ev(n.value, st, fid)

    def e_Yield(self, n, st, fid):
        v = self.ev(n.value, st, fid) if n.value is not None else NONE
        y = self.find_yield(st, fid)
        if y is not None:
            self.list_append(y, v, st)
        return NONE

    def e_YieldFrom(self, n, st, fid):
        v = self.ev(n.value, st, fid)
        y = self.find_yield(st, fid)
        if y is not None:
            self.list_extend(y, v, st, n)
        return NONE

    def find_yield(self, st, fid):
        return st.frames[fid].get('$yield')

    def e_Starred(self, n, st, fid):
        return Splice(self.ev(n.value, st, fid))

    def e_BoolOp(self, n, st, fid):
        op = 'and' if isinstance(n.op, ast.And) else 'or'
        vals = []
        pc = st.pc
        for v in n.values:
            x = self.ev(v, st, fid)
            c = self.cond(x, st)
            if isinstance(c, Const):
                if op == 'and' and not c.v:
                    st.pc = pc
                    if not vals:
                        return x if isinstance(x, Const) else c
                    vals.append(FALSE)
                    break
                if op == 'or' and c.v:
                    if not vals:
                        st.pc = pc
                        return x
                    vals.append(x)
                    break
                # neutral element: drop unless last
                if v is n.values[-1]:
                    vals.append(x)
                continue
            vals.append(x)
            st.pc = st.pc + ((c, op == 'and'),)
        st.pc = pc
        if not vals:
            return K(op == 'and')
        if len(vals) == 1:
            return vals[0]
        return App(op, tuple(vals))

    def e_UnaryOp(self, n, st, fid):
        v = self.ev(n.operand, st, fid)
        if isinstance(n.op, ast.Not):
            return neg(self.cond(v, st))
        if isinstance(v, Const) and isinstance(v.v, (int, float)):
            if isinstance(n.op, ast.USub):
                return K(-v.v)
            if isinstance(n.op, ast.UAdd):
                return v
        if isinstance(n.op, ast.USub):
            return App('neg', (v,))
        return App(type(n.op).__name__.lower(), (v,))

    def e_Compare(self, n, st, fid):
        left = self.ev(n.left, st, fid)
        outs = []
        for op, c in zip(n.ops, n.comparators):
            r = self.ev(c, st, fid)
            outs.append(self.compare(type(op).__name__, left, r, st))
            left = r
        return outs[0] if len(outs) == 1 else App('and', tuple(outs))

    def compare(self, op, a, b, st):
        if op in ('NotEq', 'IsNot', 'NotIn'):
            return neg(self.compare({'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In'}[op], a, b, st))
        if op == 'Is':
            if a == NONE and b == NONE:
                return TRUE
            for x, y in ((a, b), (b, a)):
                if y == NONE:
                    if isinstance(x, (Str, Seq, Ref, ClsV, Clo, Lam)) or (isinstance(x, Const) and x.v is not None):
                        return FALSE
            if isinstance(a, Const) and isinstance(b, Const):
                return K(a.v is b.v)
            return App('is', (a, b))
        if op == 'Eq':
            if isinstance(a, Const) and isinstance(b, Const):
                return K(a.v == b.v)
            if isinstance(b, Term) and isinstance(a, Const) and not isinstance(b, Const):
                a, b = b, a
            if isinstance(a, (Str,)) and isinstance(b, Const) and not isinstance(b.v, str):
                return FALSE
            if isinstance(a, Phi) and isinstance(b, Const) and (isinstance(a.a, Const) or isinstance(a.b, Const)):
                return self.merge_val(a.cond, self.compare('Eq', a.a, b, st), self.compare('Eq', a.b, b, st))
            if isinstance(a, Str) and isinstance(b, Const):
                for end, i in ((a.parts[0], 0), (a.parts[-1], -1)):
                    if isinstance(end, str) and (not b.v or b.v[i] != end[i]):
                        return FALSE
                if len(a.parts) == 1 and isinstance(a.parts[0], Opt):
                    o = a.parts[0]
                    alt = [mkstr(o.a), mkstr(o.b)]
                    if any(isinstance(x, Const) for x in alt):
                        r = [self.compare('Eq', x, b, st) for x in alt]
                        if any(isinstance(x, Const) for x in r):
                            return self.cond(Phi(o.cond, *r), st)
            return App('eq', (a, b))
        if op == 'In':
            items = self.seq_items(b, st) if isinstance(b, (Seq, Ref)) else None
            if isinstance(a, Const) and items is not None and all(isinstance(i, Const) for i in items):
                return K(any(i.v == a.v for i in items))
            if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, str) and isinstance(b.v, str):
                return K(a.v in b.v)
            if isinstance(b, Ref) and isinstance(st.heap.get(b.id), HDict):
                ks = st.heap[b.id].items
                if isinstance(a, Const) and all(isinstance(i, Seq) and isinstance(i.items[0], Const) for i in ks):
                    return K(any(i.items[0].v == a.v for i in ks))
            bt = self.type_of(b, st)
            if bt and bt[0] == 'C' and bt[1].name not in self.opaque:
                f = self.p.method(bt[1], '__contains__')
                if f is not None and not self.is_opaque(f):
                    return self.call_func(f, [a], {}, st, self_=b)
            bb = b
            if isinstance(b, Ref):
                bb = self.freeze(b, st)
            return App('in', (a, bb))
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return K({'Lt': lambda: a.v < b.v, 'Gt': lambda: a.v > b.v, 'LtE': lambda: a.v <= b.v,
                          'GtE': lambda: a.v >= b.v}[op]())
            except TypeError:
                pass
        if op in ('Gt', 'GtE'):
            return App({'Gt': 'lt', 'GtE': 'le'}[op], (b, a))
        return App({'Lt': 'lt', 'LtE': 'le'}[op], (a, b))

    def cond(self, c, st):
        """normalise a term used as truth value"""
        if isinstance(c, Const):
            return K(bool(c.v))
        if c in self.truth:
            return K(self.truth[c])
        for (x, pol) in st.pc:
            if x == c:
                return K(pol)
            if x == neg(c):
                return K(not pol)
        if isinstance(c, Str):
            if any(isinstance(x, str) and x for x in c.parts):
                return TRUE
            if len(c.parts) == 1 and isinstance(c.parts[0], Opt):
                o = c.parts[0]
                return self.cond(Phi(o.cond, mkstr(o.a), mkstr(o.b)), st)
            if len(c.parts) == 1 and isinstance(c.parts[0], Term) and not isinstance(c.parts[0], (Rep, Splice)):
                return self.cond(c.parts[0], st) if c.parts[0] != c else c
        if isinstance(c, Seq):
            if any(not isinstance(i, (Rep, Opt, Splice)) for i in c.items):
                return TRUE
            if not c.items:
                return FALSE
            if len(c.items) == 1 and isinstance(c.items[0], Splice):
                return self.cond(c.items[0].base, st)
        if isinstance(c, Ref):
            cell = st.heap.get(c.id)
            if isinstance(cell, HList):
                if any(not isinstance(i, (Rep, Opt, Splice)) for i in cell.items):
                    return TRUE
                if not cell.items:
                    return FALSE
                return App('nonempty', (self.freeze(c, st),))
            if isinstance(cell, HDict):
                if not cell.items:
                    return FALSE
                if any(isinstance(i, Seq) for i in cell.items):
                    return TRUE
                return App('nonempty', (self.freeze(c, st),))
            if isinstance(cell, HObj):
                if self.p.method(cell.cls, '__bool__') is None and self.p.method(cell.cls, '__len__') is None:
                    return TRUE
        if isinstance(c, (ClsV, Clo, Lam, ModV)):
            return TRUE
        # len(x) / len(x) > 0 / len(x) != 0 : same truth as x
        if isinstance(c, App):
            if c.fn == 'bool' and len(c.args) == 1:
                return self.cond(c.args[0], st)
            if c.fn == 'len' and len(c.args) == 1:
                return self.cond(c.args[0], st)
            if c.fn == 'lt' and c.args[0] == K(0) and isinstance(c.args[1], App) and c.args[1].fn == 'len':
                return self.cond(c.args[1].args[0], st)
            if c.fn == 'le' and c.args[0] == K(1) and isinstance(c.args[1], App) and c.args[1].fn == 'len':
                return self.cond(c.args[1].args[0], st)
            if c.fn == 'eq' and c.args[1] == K(0) and isinstance(c.args[0], App) and c.args[0].fn == 'len':
                return neg(self.cond(c.args[0].args[0], st))
            if c.fn == 'not':
                return neg(self.cond(c.args[0], st))
            if c.fn in ('and', 'or'):
                absorbing = FALSE if c.fn == 'and' else TRUE
                cs = []
                for a in c.args:
                    a = self.cond(a, st)
                    if a == absorbing:
                        return a
                    if isinstance(a, Const):
                        continue
                    if a not in cs:
                        cs.append(a)
                if not cs:
                    return neg(absorbing)
                return cs[0] if len(cs) == 1 else App(c.fn, tuple(cs))
            if c.fn in ('eq', 'is') and len(c.args) == 2 and c.args[1] in (TRUE, FALSE):
                t = self.type_of(c.args[0], st)
                if t and t[0] == 'bool':
                    x = self.cond(c.args[0], st)
                    return x if c.args[1] == TRUE else neg(x)
        if isinstance(c, Phi):
            a, b = self.cond(c.a, st), self.cond(c.b, st)
            if a == b:
                return a
            if a == TRUE and b == FALSE:
                return self.cond(c.cond, st)
            if a == FALSE and b == TRUE:
                return neg(self.cond(c.cond, st))
            if b == FALSE:
                return App('and', (c.cond, a))
            if a == FALSE:
                return App('and', (neg(c.cond), b))
            if a == TRUE:
                return App('or', (c.cond, b))
            if b == TRUE:
                return App('or', (neg(c.cond), a))
        return c

    def e_BinOp(self, n, st, fid):
        a = self.ev(n.left, st, fid)
        b = self.ev(n.right, st, fid)
        return self.binop(type(n.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                if op == 'Add':
                    return K(a.v + b.v)
                if op == 'Sub':
                    return K(a.v - b.v)
                if op == 'Mult' and not (isinstance(a.v, str) and isinstance(b.v, int) and b.v > 500):
                    return K(a.v * b.v)
            except Exception:
                pass
        if op == 'Add':
            if self.is_strlike(a, st) and self.is_strlike(b, st) and (
                    self.is_strlike(a, st) is True or self.is_strlike(b, st) is True):
                return mkstr(tuple(self.to_parts(a, st)) + tuple(self.to_parts(b, st)))
            ia = self.seq_items(a, st) if isinstance(a, (Seq, Ref)) else None
            ib = self.seq_items(b, st) if isinstance(b, (Seq, Ref)) else None
            if ia is not None or ib is not None:
                ta = ia if ia is not None else (Splice(a),)
                tb = ib if ib is not None else (Splice(b),)
                if isinstance(a, Ref) or isinstance(b, Ref):
                    if isinstance(a, Ref) and isinstance(st.heap.get(a.id), HList) or \
                            isinstance(b, Ref) and isinstance(st.heap.get(b.id), HList):
                        return self.new_list(st, ta + tb)
                return Seq('tuple', ta + tb)
            at = self.type_of(a, st)
            if at and at[0] == 'seq':
                return Seq('tuple', (Splice(a), Splice(b)))
            return self.affine('add', a, b)
        if op == 'Sub':
            return self.affine('sub', a, b)
        if op == 'Mod' and self.is_strlike(a, st) is True:
            return mkstr(tuple(self.to_parts(a, st)) + (App('percent', (b,)),))
        if op == 'Mult':
            if isinstance(a, Const) and isinstance(a.v, (int, float)) and not isinstance(b, Const):
                a, b = b, a
        return App({'Mult': 'mul', 'Div': 'div', 'FloorDiv': 'floordiv', 'Pow': 'pow', 'Mod': 'mod',
                    'BitOr': 'bitor', 'BitAnd': 'bitand', 'BitXor': 'xor', 'LShift': 'shl', 'RShift': 'shr',
                    'MatMult': 'matmul'}.get(op, op.lower()), (a, b))

    def affine(self, op, a, b):
        """canonical integer offsets: add(x, c)"""
        if op == 'sub' and isinstance(b, Const) and isinstance(b.v, (int, float)) and not isinstance(b.v, bool):
            op, b = 'add', K(-b.v)
        if op == 'add':
            if isinstance(a, Const) and isinstance(a.v, (int, float)) and not isinstance(b, Const):
                a, b = b, a
            if isinstance(b, Const) and isinstance(b.v, (int, float)):
                if b.v == 0:
                    return a
                if isinstance(a, App) and a.fn == 'add' and isinstance(a.args[1], Const) \
                        and isinstance(a.args[1].v, (int, float)):
                    return self.affine('add', a.args[0], K(a.args[1].v + b.v))
        return App(op, (a, b))

    def is_strlike(self, x, st):
        """True: surely str; None/False: not; 'maybe': unknown term that can be concatenated to a str"""
        if isinstance(x, Str):
            return True
        if isinstance(x, Const):
            return isinstance(x.v, str)
        t = self.type_of(x, st)
        if t is not None:
            return t[0] == 'str'
        if isinstance(x, Phi):
            r = self.is_strlike(x.a, st), self.is_strlike(x.b, st)
            return True if True in r else (r[0] and r[1])
        if isinstance(x, (Sym, Attr, Item, Elem, App, MCall, Carried, LoopOut)):
            if isinstance(x, Carried):
                i = self.carried.get(x)
                return self.is_strlike(i, st) if i is not None else 'maybe'
            return 'maybe'
        return False

    def e_Subscript(self, n, st, fid):
        b = self.ev(n.value, st, fid)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(n.slice.lower, st, fid) if n.slice.lower else NONE
            hi = self.ev(n.slice.upper, st, fid) if n.slice.upper else NONE
            step = self.ev(n.slice.step, st, fid) if n.slice.step else NONE
            return self.slice(b, lo, hi, step, st)
        k = self.ev(n.slice, st, fid)
        return self.item(b, k, st)

    def stored(self, items):
        """every value a dictionary may hold"""
        for i in items:
            if isinstance(i, Seq) and i.kind == 'kv':
                yield i.items[1]
            elif isinstance(i, Rep):
                yield from self.stored(i.items)
            elif isinstance(i, Opt):
                yield from self.stored(i.a)
                yield from self.stored(i.b)
            else:
                yield None

    def slice(self, b, lo, hi, step, st):
        if lo == NONE and hi == NONE and step == NONE:
            items = self.seq_items(b, st)
            if items is not None and isinstance(b, Ref):
                return self.new_list(st, items)
            return b if isinstance(b, (Seq, Str, Const)) else Item(b, App('slice', (lo, hi, step)))
        if isinstance(b, (Seq,)) and all(isinstance(x, Const) for x in (lo, hi, step)) and \
                not any(isinstance(i, (Rep, Opt, Splice)) for i in b.items):
            return Seq(b.kind, b.items[slice(lo.v, hi.v, step.v)])
        if isinstance(b, Ref) and isinstance(st.heap.get(b.id), HList):
            c = st.heap[b.id]
            if all(isinstance(x, Const) for x in (lo, hi, step)) and \
                    not any(isinstance(i, (Rep, Opt, Splice)) for i in c.items):
                return self.new_list(st, c.items[slice(lo.v, hi.v, step.v)])
            b = self.freeze(b, st)
        r = Item(b, App('slice', (lo, hi, step)))
        return r

    def item(self, b, k, st):
        if ('item', b, k) in st.over:
            return st.over[('item', b, k)]
        if isinstance(b, Phi):
            return self.merge_val(b.cond, self.item(b.a, k, st), self.item(b.b, k, st))
        if isinstance(k, Index):
            if k.base == b and not isinstance(b, (Ref, Seq)):
                return Elem(b, k.lid)
            if isinstance(b, (Ref, Seq)):
                # the list itself, or one with an entry for each of its elements
                its = self.seq_items(b, st)
                if its is not None and len(its) == 1 and isinstance(its[0], Rep) and len(its[0].items) == 1 and \
                        not isinstance(its[0].items[0], (Opt, Rep, Splice)) and \
                        not (isinstance(its[0].items[0], App) and its[0].items[0].fn in ('and', 'or', 'not')) and \
                        k.base in (self.freeze(b, st), self.freeze(strip_iter(its[0].base), st)):
                    return self.elem_of(b, k.lid, st)
        if isinstance(b, App) and b.fn == 'sorted' and len(b.args) == 1 and k in (K(0), K(-1)):
            return App('min' if k == K(0) else 'max', b.args)
        if isinstance(b, Const) and isinstance(k, Const):
            try:
                return K(b.v[k.v])
            except Exception:
                pass
        if isinstance(b, Str) and k in (K(0), K(-1)):
            end = b.parts[k.v]
            if isinstance(end, str):
                return K(end[k.v])
            if isinstance(end, Opt):
                alt = [mkstr(x + b.parts[1:] if k.v == 0 else b.parts[:-1] + x) for x in (end.a, end.b)]
                if any(isinstance(x, Const) or isinstance(x.parts[k.v], str) for x in alt):
                    return self.merge_val(end.cond, *(self.item(x, k, st) if x != K('') else K('') for x in alt))
        items = self.seq_items(b, st) if isinstance(b, (Seq, Ref)) else None
        if items is not None and isinstance(k, Const) and isinstance(k.v, int):
            if not any(isinstance(i, (Rep, Opt, Splice)) for i in items) and -len(items) <= k.v < len(items):
                return items[k.v]
            if k.v >= 0 and k.v < len(items) and not any(isinstance(i, (Rep, Opt, Splice)) for i in items[:k.v + 1]):
                return items[k.v]
            if k.v < 0 and -k.v <= len(items) and not any(isinstance(i, (Rep, Opt, Splice)) for i in items[k.v:]):
                return items[k.v]
            # first/last element of a filtered comprehension
            if len(items) == 1 and isinstance(items[0], Rep):
                rep = items[0]
                its = rep.items
                conds = []
                while len(its) == 1 and isinstance(its[0], Opt) and not its[0].b:
                    conds.append(its[0].cond)
                    its = its[0].a
                if len(its) == 1 and not isinstance(its[0], (Opt, Rep, Splice)):
                    return App('pick', (its[0], K(k.v), App('and', tuple(conds)) if conds else TRUE,
                                        rep.base, K(rep.lid)))
        if isinstance(b, Ref):
            c = st.heap.get(b.id)
            if isinstance(c, HDict):
                hit = None
                for i in c.items:
                    if isinstance(i, Seq) and i.kind == 'kv' and i.items[0] == k:
                        hit = i.items[1]
                if hit is not None:
                    return hit
                if isinstance(k, Const) and self.const_keys(c.items):
                    hit = self.key_value(c.items, k)
                    if hit != App('absent', ()):
                        return hit
                # key computed in the same symbolic loop
                for i in c.items:
                    if isinstance(i, Rep):
                        for j in i.items:
                            if isinstance(j, Seq) and j.kind == 'kv' and j.items[0] == k:
                                return j.items[1]
                if c.items:
                    v = None
                    consts = [i for i in c.items if isinstance(i, Seq) and isinstance(i.items[0], Const)]
                    if len(consts) == len(c.items):
                        for i in reversed(consts):
                            v = i.items[1] if v is None else self.merge_val(App('eq', (k, i.items[0])), i.items[1], v)
                        return v
                out = Item(self.freeze(b, st), k)
                # whichever value it is: one of those stored, which are all of one class
                stored = {st.heap[v.id].cls if isinstance(v, Ref) and isinstance(st.heap.get(v.id), HObj) else None
                          for v in self.stored(c.items)}
                if len(stored) == 1 and None not in stored:
                    self.types[out] = ('C', stored.pop())
                return out
            b2 = self.freeze(b, st)
            return Item(b2, k)
        return Item(b, k)

    def e_Slice(self, n, st, fid):
        return App('slice', tuple(self.ev(x, st, fid) if x is not None else NONE for x in (n.lower, n.upper, n.step)))

    def e_Attribute(self, n, st, fid):
        b = self.ev(n.value, st, fid)
        return self.attr(b, n.attr, st, n)

    def attr(self, b, name, st, node=None, raw=False):
        if ('attr', b, name) in st.over:
            return st.over[('attr', b, name)]
        if isinstance(b, Phi):
            if b.a == NONE:
                return self.attr(b.b, name, st, node, raw)
            if b.b == NONE:
                return self.attr(b.a, name, st, node, raw)
            return self.merge_val(b.cond, self.attr(b.a, name, st, node, raw), self.attr(b.b, name, st, node, raw))
        if isinstance(b, Ref):
            c = st.heap.get(b.id)
            if isinstance(c, HObj):
                if name in c.fields:
                    return c.fields[name]
                return self.class_attr(c.cls, b, name, st, raw)
        if isinstance(b, ModV):
            if b.name in self.p.modules:
                v = self.wrap_resolved(self.p.resolve_name(self.p.modules[b.name], name), st, name)
                if v is not None:
                    return v
                if f'{b.name}.{name}' in self.p.modules:
                    return ModV(f'{b.name}.{name}')
            return Sym(f'{b.name}.{name}')
        if isinstance(b, ClsV):
            c = b.cls
            if name in c.inner:
                return ClsV(c.inner[name])
            if self.p.is_enum(c) and name in c.defaults:
                s = Sym(f'{c.name}.{name}')
                self.types.setdefault(s, ('C', c))
                return s
            f = self.p.method(c, name)
            if f is not None:
                if f.is_classmethod:
                    return Clo(f, b.frame, b)
                return Clo(f, b.frame, None)
            d, owner = self.p.class_default(c, name)
            if d is not None and isinstance(d, ast.Constant):
                return K(d.value)
            if d is not None and name not in self.p.class_fields(c):
                v = self.class_value(owner, name, d, b.frame, st)
                if v is not None:
                    return v
            if d is None and self.imported_in_class(c, name):
                v = self.wrap_resolved(self.p.resolve_name(c.module, name), st, name)
                if v is not None:
                    return v
            if name == '__name__':
                return K(c.name)
            return Sym(f'{c.name}.{name}')
        t = self.type_of(b, st)
        if t and t[0] == 'C':
            return self.class_attr(t[1], b, name, st, raw)
        if isinstance(b, Sym) and '.' in b.name and not b.name.startswith('self'):
            pass
        return Attr(b, name)

    def imported_in_class(self, c, name):
        return any(isinstance(x, (ast.Import, ast.ImportFrom)) and
                   any((a.asname or a.name).split('.')[0] == name for a in x.names) for x in c.node.body)

    def class_value(self, c, name, node, frame, st):
        """value of a class-level assignment (evaluated with the names of the class body in scope)"""
        if not isinstance(node, (ast.List, ast.Tuple, ast.Dict, ast.Call, ast.Set, ast.JoinedStr, ast.DictComp,
                                 ast.ListComp, ast.Lambda, ast.BinOp, ast.Name)):
            return None
        key = ('cval', c, name, frame)
        if key in st.over:
            return st.over[key]
        busy = getattr(self, '_cbusy', set())
        if key in busy:
            return None
        self._cbusy = busy | {key}
        self.nframe += 1
        f2 = self.nframe
        fake = Func('<class>', node, c.module)
        self.frame_info[f2] = (c.module, fake, frame)
        st.frames[f2] = {}
        for nm in {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}:
            if nm in c.defaults and c.defaults[nm] is not node or nm in c.methods or nm in c.inner:
                st.frames[f2][nm] = self.attr(ClsV(c, frame), nm, st)
        self.stack.append((fake, f2))
        try:
            val = self.ev(node, st, f2)
        finally:
            self.stack.pop()
            self._cbusy = self._cbusy - {key}
        st.over[key] = val
        return val

    def class_attr(self, c, b, name, st, raw=False):
        if raw:
            return Attr(b, name)
        if self.p.is_enum(c) and name in ('name', 'value'):
            return Attr(b, name)
        f = self.p.method(c, name)
        if f is not None:
            if f.is_property:
                if c.name in self.opaque or self.is_opaque(f):
                    return Attr(b, name)
                subs = [s for s in self.p.concrete_subclasses(c) if name in s.methods]
                if subs:
                    return Attr(b, name)
                return self.call_func(f, [], {}, st, self_=b)
            if f.is_static:
                return Clo(f, None, None)
            if f.is_classmethod:
                return Clo(f, None, ClsV(c))
            return Clo(f, None, b)
        d, owner = self.p.class_default(c, name)
        if d is not None and name not in self.p.class_fields(c) and name not in self.assigned_attrs(c):
            if isinstance(d, ast.Constant):
                return K(d.value)
        return Attr(b, name)

    def assigned_attrs(self, c):
        """attributes some method of the class or its bases sets on self"""
        cache = self.p.__dict__.setdefault('_assigned', {})
        if id(c) not in cache:
            out = set()
            subs = {id(k): k for s in self.p.concrete_subclasses(c) for k in self.p.mro(s)}
            own = {id(k) for k in self.p.mro(c)}
            for k in [*self.p.mro(c), *(k for i, k in subs.items() if i not in own)]:
                if id(k) not in own:
                    out |= set(k.defaults)
                for f in k.methods.values():
                    a = f.node.args.args
                    me = a[0].arg if a and not f.is_static else None
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                                isinstance(n.value, ast.Name) and n.value.id == me:
                            out.add(n.attr)
            cache[id(c)] = out
        return cache[id(c)]

    def is_opaque(self, f: Func):
        q = f'{f.cls.name}.{f.name}' if f.cls else f.name
        return (f.cls is not None and f.cls.name in self.opaque) or q in self.opaque_fn or f.name in self.opaque_fn

    # comprehension
    def comp(self, gens, st, fid, add, node):
        def rec(i, s):
            if i == len(gens):
                add(s)
                return s
            g = gens[i]
            it = self.ev(g.iter, s, fid)

            def body(elem, s2):
                self.assign(g.target, elem, s2, fid, node)
                pc = s2.pc
                conds = []
                for cnode in g.ifs:
                    c = self.cond(self.ev(cnode, s2, fid), s2)
                    if isinstance(c, Const):
                        if not c.v:
                            return s2
                        continue
                    conds.append(c)
                    s2.pc = s2.pc + ((c, True),)
                if not conds:
                    r = rec(i + 1, s2)
                    r.pc = pc
                    return r
                other = s2.copy()
                r = rec(i + 1, s2)
                c = conj(tuple((x, True) for x in conds))
                m = self.merge_state(c, r, other, pc)
                m.pc = pc
                return m

            save = getattr(self, '_loop_fid', None)
            self._loop_fid = None
            pc0 = s.pc
            r = self.loop_over(it, s, body, ast.Pass())
            self._loop_fid = save
            r.pc = pc0
            return r

        saved = dict(st.frames[fid])
        r = rec(0, st.copy())
        st.heap, st.over = r.heap, r.over
        for f, env in r.frames.items():
            if f != fid:
                st.frames[f] = env
        st.frames[fid] = saved

    def e_ListComp(self, n, st, fid):
        ref = self.new_list(st)
        self.comp(n.generators, st, fid, lambda s: self.list_append(ref, self.ev(n.elt, s, fid), s), n)
        return ref

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st, fid):
        ref = self.new_list(st, kind='set')
        self.comp(n.generators, st, fid, lambda s: self.list_append(ref, self.ev(n.elt, s, fid), s), n)
        return ref

    def e_DictComp(self, n, st, fid):
        ref = self.new_ref(st, HDict(()))

        def add(s):
            k = self.ev(n.key, s, fid)
            v = self.ev(n.value, s, fid)
            c = s.heap[ref.id]
            s.heap[ref.id] = HDict(c.items + (Seq('kv', (k, v)),))

        self.comp(n.generators, st, fid, add, n)
        return ref

    # ------------------------------------------------------------------ sequences
    def list_append(self, ref, v, st):
        c = st.heap[ref.id]
        st.heap[ref.id] = HList(c.items + (v,), c.kind)

    def list_extend(self, ref, v, st, node=None):
        c = st.heap[ref.id]
        if isinstance(v, Phi):
            ia, ib = self.seq_items(v.a, st), self.seq_items(v.b, st)
            ia = ia if ia is not None else (Splice(v.a),)
            ib = ib if ib is not None else (Splice(v.b),)
            st.heap[ref.id] = HList(c.items + merge_items(v.cond, ia, ib), c.kind)
            return
        items = self.seq_items(v, st)
        st.heap[ref.id] = HList(c.items + (items if items is not None else (Splice(v),)), c.kind)

    def seq_items(self, x, st):
        """the item shapes of a sequence, or None when it is an opaque symbolic sequence"""
        if isinstance(x, Seq):
            return x.items
        if isinstance(x, Ref):
            c = st.heap.get(x.id)
            if isinstance(c, HList):
                return c.items
            if isinstance(c, HDict):
                return self.dict_keys(c.items)
        if isinstance(x, Const) and isinstance(x.v, (tuple, list)):
            return tuple(K(i) for i in x.v)
        if isinstance(x, Const) and isinstance(x.v, str) and len(x.v) < 40:
            return tuple(K(i) for i in x.v)
        if isinstance(x, Phi):
            a = self.seq_items(x.a, st)
            b = self.seq_items(x.b, st)
            if a is None and b is None:
                return None
            a = a if a is not None else (Splice(x.a),)
            b = b if b is not None else (Splice(x.b),)
            return merge_items(x.cond, a, b)
        if isinstance(x, (Sym, Attr)):
            c = self.type_of(x, st)
            c = c[1] if c and c[0] == 'C' else None
            if c is not None and any(b.split('.')[-1] == 'NamedTuple' for b in c.base_names):
                return tuple(self.attr(x, f, st) for f in c.fields)
        if isinstance(x, App) and x.fn in ('enumerated', 'zipped', 'ditems', 'reversed_of', 'sorted_of', 'rangeof'):
            return None
        return None

    def dict_keys(self, items):
        out = []
        for i in items:
            if isinstance(i, Seq) and i.kind == 'kv':
                out.append(i.items[0])
            elif isinstance(i, Rep):
                out.append(Rep(i.lid, i.base, self.dict_keys(i.items)))
            elif isinstance(i, Opt):
                out.append(Opt(i.cond, self.dict_keys(i.a), self.dict_keys(i.b)))
            else:
                out.append(i)
        return tuple(out)

    def dict_pairs(self, items, what):
        out = []
        for i in items:
            if isinstance(i, Seq) and i.kind == 'kv':
                out.append(Seq('tuple', i.items) if what == 'items' else i.items[1])
            elif isinstance(i, Rep):
                out.append(Rep(i.lid, i.base, self.dict_pairs(i.items, what)))
            elif isinstance(i, Opt):
                out.append(Opt(i.cond, self.dict_pairs(i.a, what), self.dict_pairs(i.b, what)))
            elif isinstance(i, Splice):
                out.append(Splice(App('ditems' if what == 'items' else 'values', (i.base,))))
            else:
                out.append(i)
        return tuple(out)

    def elem_of(self, base, lid, st):
        """element of symbolic iterable"""
        if isinstance(base, App) and base.fn in SAME_ELEMENTS and base.args:
            # the elements of a de-duplicated/reordered/filtered sequence are elements of that sequence
            inner = self.seq_items(base.args[0], st)
            if inner is not None and len(inner) == 1 and isinstance(inner[0], (Rep, Splice)) or inner is None:
                return self.elem_of(base.args[0], lid, st)
            return Elem(self.freeze(base, st), lid)
        if isinstance(base, App):
            if base.fn == 'enumerated':
                src, start = base.args
                e = self.elem_of(src, lid, st)
                idx = Index(strip_iter(src), lid)
                return Seq('tuple', (self.affine('add', idx, start), e))
            if base.fn == 'zipped':
                return Seq('tuple', tuple(self.elem_of(s, lid, st) for s in base.args))
            if base.fn == 'ditems':
                d = base.args[0]
                k = Elem(App('keys', (d,)), lid)
                v = Elem(App('values', (d,)), lid)
                return Seq('tuple', (k, v))
            if base.fn == 'rangeof':
                if len(base.args) == 1:
                    a = base.args[0]
                    if isinstance(a, App) and a.fn == 'len':
                        return Index(strip_iter(a.args[0]), lid)
                    return Index(base, lid)
                if len(base.args) >= 2:
                    return self.affine('add', Index(base, lid), base.args[0]) \
                        if isinstance(base.args[0], Const) else App('add', (Index(base, lid), base.args[0]))
            if base.fn == 'mapped':
                return App('call', (base.args[0], self.elem_of(base.args[1], lid, st)))
        items = self.seq_items(base, st)
        if items is not None:
            if len(items) == 1 and isinstance(items[0], Rep) and len(items[0].items) == 1 and \
                    not isinstance(items[0].items[0], (Opt, Rep, Splice)):
                return subst_lid(items[0].items[0], items[0].lid, lid)
            fr = self.freeze(base, st)
            if items and not any(isinstance(i, (Rep, Opt, Splice)) for i in items):
                v = items[-1]
                return Elem(fr, lid)
            return Elem(fr, lid)
        return Elem(base, lid)

    def unpack(self, v, n, st):
        if isinstance(v, Phi):
            a, b = self.unpack(v.a, n, st), self.unpack(v.b, n, st)
            return [self.merge_val(v.cond, x, y) for x, y in zip(a, b)]
        items = self.seq_items(v, st)
        if items is not None and len(items) == n and not any(isinstance(i, (Rep, Opt, Splice)) for i in items):
            return list(items)
        if items is not None and len(items) == 1 and isinstance(items[0], Rep):
            return [self.item(v, K(i), st) for i in range(n)]
        return [self.item(v, K(i), st) for i in range(n)]

    def freeze(self, x, st, seen=()):
        """replace heap references by immutable snapshots (for results and for hashing)"""
        if ground(x):
            return x
        if isinstance(x, Ref):
            if x.id in seen:
                return x
            c = st.heap.get(x.id)
            seen = seen + (x.id,)
            if isinstance(c, HList):
                return Seq(c.kind, tuple(self.freeze(i, st, seen) for i in c.items))
            if isinstance(c, HDict):
                return Seq('dict', tuple(self.freeze(i, st, seen) for i in c.items))
            if isinstance(c, HObj):
                return App('new:' + c.cls.name, (), tuple((k, self.freeze(v, st, seen)) for k, v in c.fields.items()))
            return x
        if isinstance(x, Seq):
            return Seq(x.kind, tuple(self.freeze(i, st, seen) for i in x.items))
        if isinstance(x, Rep):
            return Rep(x.lid, self.freeze(x.base, st, seen), tuple(self.freeze(i, st, seen) for i in x.items))
        if isinstance(x, Opt):
            return Opt(self.freeze(x.cond, st, seen), tuple(self.freeze(i, st, seen) for i in x.a),
                       tuple(self.freeze(i, st, seen) for i in x.b))
        if isinstance(x, Splice):
            return Splice(self.freeze(x.base, st, seen))
        if isinstance(x, Phi):
            return Phi(self.freeze(x.cond, st, seen), self.freeze(x.a, st, seen), self.freeze(x.b, st, seen))
        if isinstance(x, Str):
            return Str(tuple(self.freeze(i, st, seen) if isinstance(i, Term) else i for i in x.parts))
        if isinstance(x, App):
            return App(x.fn, tuple(self.freeze(i, st, seen) for i in x.args),
                       tuple((k, self.freeze(v, st, seen)) for k, v in x.kw))
        if isinstance(x, MCall):
            return MCall(self.freeze(x.recv, st, seen), x.name, tuple(self.freeze(i, st, seen) for i in x.args),
                         tuple((k, self.freeze(v, st, seen)) for k, v in x.kw))
        if isinstance(x, Attr):
            return Attr(self.freeze(x.base, st, seen), x.name)
        if isinstance(x, Item):
            return Item(self.freeze(x.base, st, seen), self.freeze(x.key, st, seen))
        if isinstance(x, Elem):
            return Elem(self.freeze(x.base, st, seen), x.lid)
        if isinstance(x, LoopOut):
            return LoopOut(x.lid, self.freeze(x.base, st, seen), self.freeze(x.init, st, seen),
                           self.freeze(x.step, st, seen))
        return x

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st, fid):
        # super()
        fn = n.func
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fid)
                items = self.seq_items(v, st)
                if items is not None and not any(isinstance(i, (Rep, Opt, Splice)) for i in items):
                    args.extend(items)
                elif items is None and self.type_of(v, st) and self.type_of(v, st)[0] == 'tuple':
                    args.extend(Item(v, K(i)) for i in range(len(self.type_of(v, st)[1])))
                else:
                    args.append(Splice(v))
            else:
                args.append(self.ev(a, st, fid))
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value, st, fid)
            if k.arg is None:
                items = self.dict_items(v, st)
                keys = self.const_keys(items)
                if keys is not None and items:
                    for key in keys:
                        kwargs[key.v] = self.key_value(items, key)
                else:
                    for i in items:
                        if isinstance(i, Seq) and isinstance(i.items[0], Const):
                            kwargs[i.items[0].v] = i.items[1]
                        else:
                            kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super':
                return self.super_call(fn.attr, args, kwargs, st, fid, n)
            recv = self.ev(fn.value, st, fid)
            self.event('mcall', n, st, recv, fn.attr, Seq('tuple', tuple(args)),
                       Seq('tuple', tuple(Seq('kv', (K(k), v)) for k, v in kwargs.items())))
            if fn.attr in self.identity and not args and not kwargs and not isinstance(recv, (Ref, Sym)):
                return recv
            return self.method_call(recv, fn.attr, args, kwargs, st, n, fid)
        if isinstance(fn, ast.Name) and fn.id == 'super':
            return Sym('super')
        f = self.ev(fn, st, fid)
        if isinstance(f, Clo) and f.self_ is not None and f.fn.cls is not None:
            # a method that was looked up before
            self.event('mcall', n, st, f.self_, f.fn.name, Seq('tuple', tuple(args)),
                       Seq('tuple', tuple(Seq('kv', (K(k), v)) for k, v in kwargs.items())))
            return self.method_call(f.self_, f.fn.name, args, kwargs, st, n, fid)
        self.event('call', n, st, f, Seq('tuple', tuple(args)),
                   Seq('tuple', tuple(Seq('kv', (K(k), v)) for k, v in kwargs.items())))
        return self.call_value(f, args, kwargs, st, n, fid)

    def const_keys(self, items):
        """the keys of a mapping whose keys are all constants, else None"""
        out = []
        for i in items:
            if isinstance(i, Seq) and i.kind == 'kv' and isinstance(i.items[0], Const):
                out.append(i.items[0])
            elif isinstance(i, Opt):
                for x in (i.a, i.b):
                    r = self.const_keys(x)
                    if r is None:
                        return None
                    out.extend(r)
            else:
                return None
        return list(dict.fromkeys(out))

    def key_value(self, items, key):
        """what the last entry for `key` is; App('absent') when there is none"""
        v = App('absent', ())
        for i in items:
            if isinstance(i, Seq) and i.items[0] == key:
                v = i.items[1]
            elif isinstance(i, Opt):
                a, b = self.key_value(i.a, key), self.key_value(i.b, key)
                absent = App('absent', ())
                if a != absent or b != absent:
                    v = self.merge_val(i.cond, v if a == absent else a, v if b == absent else b)
        return v

    def super_call(self, name, args, kwargs, st, fid, n):
        func = self.cur_func(fid)
        while func is not None and func.cls is None:
            func = func.outer
        selfv = st.frames[fid].get('self', Sym('self'))
        self.event('mcall', n, st, Sym('super'), name, Seq('tuple', tuple(args)),
                   Seq('tuple', tuple(Seq('kv', (K(k), v)) for k, v in kwargs.items())))
        if func is not None:
            mro = self.p.mro(func.cls)[1:]
            for k in mro:
                if name in k.methods:
                    return self.call_func(k.methods[name], args, kwargs, st, self_=selfv, node=n)
        return App('super.' + name, tuple(args), tuple(kwargs.items()))

    def call_value(self, f, args, kwargs, st, n, fid):
        if isinstance(f, Phi):
            return self.call_phi(f, lambda x, s: self.call_value(x, args, dict(kwargs), s, n, fid), st)
        if isinstance(f, Clo):
            if self.is_opaque(f.fn) or not self.inline:
                a = tuple(args) if f.self_ is None else (f.self_,) + tuple(args)
                return App(f.fn.name, a, tuple(kwargs.items()))
            return self.call_func(f.fn, args, kwargs, st, self_=f.self_, node=n, outer_frame=f.frame)
        if isinstance(f, Lam):
            fake = Func('<lambda>', f.node, f.module)
            self.nframe += 1
            nf = self.nframe
            self.frame_info[nf] = (f.module, fake, f.frame)
            env = {}
            st.frames[nf] = env
            self.bind(fake, args, kwargs, env, st, None, nf)
            return self.ev(f.node.body, st, nf)
        if isinstance(f, ClsV):
            return self.construct(f.cls, args, kwargs, st, n)
        if isinstance(f, Sym):
            return self.builtin(f.name, args, kwargs, st, n, fid)
        return App('call', (f,) + tuple(args), tuple(kwargs.items()))

    def call_phi(self, f, k, st):
        s1 = st.copy(); s1.pc = st.pc + ((f.cond, True),)
        s2 = st.copy(); s2.pc = st.pc + ((f.cond, False),)
        a = k(f.a, s1)
        b = k(f.b, s2)
        m = self.merge_state(f.cond, s1, s2, st.pc)
        st.heap, st.over, st.frames = m.heap, m.over, m.frames
        return self.merge_val(f.cond, a, b)

    def construct(self, c: Class, args, kwargs, st, n):
        if self.p.is_enum(c):
            return App('enum:' + c.name, tuple(args))
        if c.name in self.opaque or c.name in self.opaque_new:
            r = App('new:' + c.name, tuple(args), tuple(kwargs.items()))
            self.types.setdefault(r, ('C', c))
            return r
        ref = self.new_ref(st, HObj(c, {}))
        self.event('construct', n, st, ClsV(c), ref, Seq('tuple', tuple(args)),
                   Seq('tuple', tuple(Seq('kv', (K(k), v)) for k, v in kwargs.items())))
        init = self.p.method(c, '__init__')
        if init is not None:
            self.call_func(init, args, kwargs, st, self_=ref, node=n)
            return ref
        fields = self.p.class_fields(c)
        vals = {}
        names = list(fields)
        kw = dict(kwargs)
        if len(args) == 1 and isinstance(args[0], (Splice, Rep)) and not kw and any(b.split('.')[-1] == 'NamedTuple' for b in c.base_names):
            # as many as there are fields
            of = args[0].base if isinstance(args[0], Splice) else Seq('list', (args[0],))
            args = [Item(of, K(i)) for i in range(len(names))]
        for i, nm in enumerate(names):
            if i < len(args):
                if isinstance(args[i], Splice):
                    vals[nm] = Item(args[i].base, K(i))
                else:
                    vals[nm] = args[i]
            elif nm in kw:
                vals[nm] = kw.pop(nm)
            else:
                d, owner = self.p.class_default(c, nm)
                vals[nm] = self.field_default(d, owner, st)
        for k, v in kw.items():
            vals.setdefault(k, v)
        st.heap[ref.id] = HObj(c, vals)
        post = self.p.method(c, '__post_init__')
        if post is not None and not self.is_opaque(post):
            self.call_func(post, [], {}, st, self_=ref, node=n)
        return ref

    def field_default(self, d, owner, st):
        if d is None:
            return App('missing', ())
        if isinstance(d, ast.Constant):
            return K(d.value)
        if isinstance(d, ast.Call) and ast.unparse(d.func).split('.')[-1] in ('field',):
            for k in d.keywords:
                if k.arg == 'default_factory':
                    t = ast.unparse(k.value)
                    if t == 'tuple':
                        return Seq('tuple', ())
                    if t == 'list':
                        return self.new_list(st)
                    if t == 'dict':
                        return self.new_ref(st, HDict(()))
                if k.arg == 'default':
                    return self.field_default(k.value, owner, st)
            return App('default', (K(ast.unparse(d)),))
        if isinstance(d, ast.Attribute):
            r = self.p.resolve_expr_class(owner.module, d.value)
            if r is not None:
                return self.attr(ClsV(r), d.attr, st)
        if isinstance(d, (ast.Tuple, ast.List)) and not d.elts:
            return Seq('tuple', ())
        return App('default', (K(ast.unparse(d)),))

    STRIP = {'strip', 'lstrip', 'rstrip', 'expandtabs'}

    def method_call(self, recv, name, args, kwargs, st, n, fid):
        if name == 'fromkeys' and recv in (Sym('dict'), Sym('collections.OrderedDict')) and len(args) == 1:
            items = self.seq_items(args[0], st)
            if items is not None and not any(isinstance(i, (Rep, Opt, Splice)) for i in items) \
                    and all(isinstance(i, Const) for i in items):
                return Seq('list', tuple(dict.fromkeys(items)))
            return App('dict.fromkeys', (self.freeze(args[0], st),))
        if isinstance(recv, Phi):
            if recv.a == NONE or recv.b == NONE:
                return self.method_call(recv.b if recv.a == NONE else recv.a, name, args, kwargs, st, n, fid)
            return self.call_phi(recv, lambda x, s: self.method_call(x, name, list(args), dict(kwargs), s, n, fid), st)
        if isinstance(recv, Ref):
            c = st.heap.get(recv.id)
            if isinstance(c, HList):
                r = self.list_method(recv, c, name, args, kwargs, st, n, fid)
                if r is not None:
                    return r
            elif isinstance(c, HDict):
                r = self.dict_method(recv, c, name, args, kwargs, st, n, fid)
                if r is not None:
                    return r
        if isinstance(recv, (Str,)) or (isinstance(recv, Const) and isinstance(recv.v, str)):
            r = self.str_method(recv, name, args, kwargs, st, n, fid)
            if r is not None:
                return r
        f = self.attr(recv, name, st, n)
        if isinstance(f, (Clo, ClsV, Lam)):
            if isinstance(f, Clo) and f.fn.cls is not None and f.self_ is not None and not isinstance(f.self_, ClsV):
                # dynamic dispatch: if subclasses override and the receiver is symbolic, keep as uninterpreted call
                t = self.type_of(recv, st)
                if t and t[0] == 'C' and not isinstance(recv, Ref):
                    subs = [s for s in self.p.concrete_subclasses(t[1]) if name in s.methods]
                    if subs and not getattr(self, 'exact_types', {}).get(recv):
                        return MCall(recv, name, tuple(args), tuple(kwargs.items()))
            return self.call_value(f, args, kwargs, st, n, fid)
        if isinstance(f, Sym):
            return self.builtin(f.name, args, kwargs, st, n, fid)
        if isinstance(f, Attr) and f.base == recv:
            if name == 'items' and not args:
                return App('ditems', (recv,))
            if name == 'values' and not args:
                return App('values', (recv,))
            if name == 'keys' and not args:
                return App('keys', (recv,))
            if name == 'format':
                return MCall(recv, name, tuple(args), tuple(kwargs.items()))
            if name == 'join' and len(args) == 1:
                return self.join(recv, args[0], st)
            if name == 'write' and args:
                self.emit(recv, args[0], st, n)
                return NONE
            return MCall(recv, name, tuple(self.freeze(a, st) for a in args),
                         tuple((k, self.freeze(v, st)) for k, v in kwargs.items()))
        if isinstance(f, Attr) or f is not None:
            return self.call_value(f, args, kwargs, st, n, fid)
        return MCall(recv, name, tuple(args), tuple(kwargs.items()))

    def emit(self, out, value, st, n, end=''):
        parts = self.to_parts(value, st)
        self.event('emit', n, st, out, mkstr(tuple(parts)))
        if isinstance(out, Ref) and isinstance(st.heap.get(out.id), HList):
            c = st.heap[out.id]
            extra = tuple(parts) + ((end,) if end else ())
            st.heap[out.id] = HList(c.items + extra, c.kind)
        else:
            sid = self.stream_ids.setdefault(out, None)
            if sid is None:
                self.nheap += 1
                sid = self.stream_ids[out] = self.nheap
                self.lazy.add(sid)
            c = st.heap.get(sid) or HList((), 'stream')
            st.heap[sid] = HList(c.items + tuple(parts) + ((end,) if end else ()), 'stream')

    def stream(self, out, st):
        """everything written to the symbolic file object `out`"""
        sid = self.stream_ids.get(out)
        if sid is None or sid not in st.heap:
            return ()
        return self.freeze(Seq('stream', st.heap[sid].items), st).items

    def list_method(self, ref, c, name, args, kwargs, st, n, fid):
        if c.kind == 'stream':
            if name == 'getvalue':
                return mkstr(c.items)
            if name == 'write':
                self.emit(ref, args[0], st, n)
                return NONE
            if name == 'close':
                return NONE
            if name in ('read',):
                return mkstr(c.items)
            return NONE
        if name in ('append', 'add') and args:
            self.list_append(ref, args[0], st)
            return NONE
        if name in ('extend', 'update') and args:
            self.list_extend(ref, args[0], st, n)
            return NONE
        if name == 'insert' and len(args) == 2:
            c = st.heap[ref.id]
            if args[0] == K(0):
                st.heap[ref.id] = HList((args[1],) + c.items, c.kind)
            else:
                st.heap[ref.id] = HList(c.items + (args[1],), c.kind)
            return NONE
        if name == 'copy':
            return self.new_list(st, c.items, c.kind)
        if name == 'clear':
            st.heap[ref.id] = HList((), c.kind)
            return NONE
        if name == 'pop':
            if c.items and not isinstance(c.items[-1], (Rep, Opt, Splice)) and not args:
                v = c.items[-1]
                st.heap[ref.id] = HList(c.items[:-1], c.kind)
                return v
            if self.carry_lists and len(args) < 2:
                whole = Seq(c.kind, c.items)
                at = args[0] if args else K(-1)
                st.heap[ref.id] = HList((Splice(App('popped', (whole, at))),), c.kind)
                return Item(whole, at)
            return App('pop', (self.freeze(ref, st),) + tuple(args))
        if name in ('union', 'intersection', 'difference'):
            if name == 'union':
                out = self.new_list(st, c.items, 'set')
                for a in args:
                    self.list_extend(out, a, st)
                return out
            r = App('set.' + name, (self.freeze(ref, st),) + tuple(self.freeze(a, st) for a in args))
            return r
        if name == 'index':
            return App('index', (self.freeze(ref, st),) + tuple(args))
        if name in ('sort', 'reverse'):
            st.heap[ref.id] = HList((Splice(App('sorted' if name == 'sort' else 'reversed',
                                                (Seq(c.kind, c.items),), tuple(kwargs.items()))),), c.kind)
            return NONE
        return MCall(self.freeze(ref, st), name, tuple(self.freeze(a, st) for a in args), tuple(kwargs.items()))

    def dict_method(self, ref, c, name, args, kwargs, st, n, fid):
        if name == 'items':
            return Seq('list', self.dict_pairs(c.items, 'items'))
        if name == 'values':
            return Seq('list', self.dict_pairs(c.items, 'values'))
        if name == 'keys':
            return Seq('list', self.dict_keys(c.items))
        if name == 'get' and args:
            hit = None
            allc = True
            for i in c.items:
                if isinstance(i, Seq) and i.kind == 'kv':
                    if i.items[0] == args[0]:
                        hit = i.items[1]
                    elif not isinstance(i.items[0], Const) or not isinstance(args[0], Const):
                        allc = False
                else:
                    allc = False
            dflt = args[1] if len(args) > 1 else NONE
            if hit is not None and allc:
                return hit
            if allc and isinstance(args[0], Const):
                return dflt
            consts = [i for i in c.items if isinstance(i, Seq) and i.kind == 'kv' and isinstance(i.items[0], Const)]
            if len(consts) == len(c.items):
                v = dflt
                for i in reversed(consts):
                    v = self.merge_val(App('eq', (args[0], i.items[0])), i.items[1], v)
                return v
            return App('dget', (self.freeze(ref, st),) + tuple(args))
        if name == 'update':
            new = c.items
            for a in args:
                new = new + self.dict_items(a, st)
            for k, v in kwargs.items():
                if k == '**':
                    new = new + self.dict_items(v, st)
                else:
                    new = new + (Seq('kv', (K(k), v)),)
            st.heap[ref.id] = HDict(new)
            return NONE
        if name == 'copy':
            return self.new_ref(st, HDict(c.items))
        if name == 'setdefault' and args:
            v = self.item(ref, args[0], st)
            if isinstance(v, Item):
                v = args[1] if len(args) > 1 else NONE
                self.setitem(ref, args[0], v, st)
            return v
        if name == 'pop' and args:
            v = self.item(ref, args[0], st)
            st.heap[ref.id] = HDict(self.without_key(c.items, args[0]))
            return v
        return MCall(self.freeze(ref, st), name, tuple(self.freeze(a, st) for a in args), tuple(kwargs.items()))

    def str_method(self, s, name, args, kwargs, st, n, fid):
        if name == 'join' and len(args) == 1:
            return self.join(s, args[0], st)
        if isinstance(s, Const) and all(isinstance(a, Const) for a in args) and not kwargs and \
                name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'split', 'replace',
                         'capitalize', 'title', 'encode', 'splitlines', 'zfill', 'isdigit', 'count', 'find'):
            try:
                r = getattr(s.v, name)(*[a.v for a in args])
                if isinstance(r, list):
                    return self.new_list(st, [K(x) for x in r])
                return K(r)
            except Exception:
                pass
        if name in self.STRIP and isinstance(s, Str):
            chars = args[0].v if args and isinstance(args[0], Const) else None
            return mkstr(strip_ends(s.parts, chars, name != 'rstrip', name != 'lstrip')) \
                if name != 'expandtabs' else s
        if name == 'splitlines' and isinstance(s, Str):
            return Seq('list', (s,))
        if name == 'format':
            return self.str_format(s, args, kwargs, st)
        return MCall(s, name, tuple(self.freeze(a, st) for a in args), tuple(kwargs.items()))

    def str_format(self, s, args, kwargs, st):
        if isinstance(s, Const):
            import string
            try:
                parts = []
                auto = 0
                for lit, fieldname, spec, conv in string.Formatter().parse(s.v):
                    if lit:
                        parts.append(lit)
                    if fieldname is None:
                        continue
                    if fieldname == '':
                        v = args[auto]
                        auto += 1
                    elif fieldname.isdigit():
                        v = args[int(fieldname)]
                    elif fieldname in kwargs:
                        v = kwargs[fieldname]
                    else:
                        v = App('field', (K(fieldname),) + tuple(args) + tuple(kwargs.values()))
                    if spec:
                        parts.append(App('fmt', (v, K(spec))))
                    else:
                        parts.extend(self.to_parts(v, st))
                return mkstr(tuple(parts))
            except Exception:
                pass
        return MCall(s, 'format', tuple(args), tuple(kwargs.items()))

    def join(self, sep, it, st):
        items = self.seq_items(it, st)
        if items is None:
            if isinstance(it, (Sym, Attr, Item, App, MCall, Elem, LoopOut)):
                return mkstr((App('join', (sep, it)),))
            return App('join', (sep, it))
        sp = self._parts(sep)
        out = self.join_items(items, sp, st)
        if items and sp and not isinstance(items[-1], (Rep, Opt, Splice)):
            out = out[:-len(sp)]        # no separator after a definite last item
        return mkstr(tuple(out))

    def join_items(self, items, sp, st):
        out = []
        for i, x in enumerate(items):
            if isinstance(x, Rep):
                out.append(Rep(x.lid, x.base, tuple(self.join_items(x.items, sp, st))))
            elif isinstance(x, Opt):
                out.append(Opt(x.cond, tuple(self.join_items(x.a, sp, st)), tuple(self.join_items(x.b, sp, st))))
            elif isinstance(x, Splice):
                out.append(App('join', (mkstr(tuple(sp)), x.base)))
                out.extend(sp)
            else:
                out.extend(self.to_parts(x, st))
                out.extend(sp)
        return out

    def iter_items(self, x, st, fn):
        """map fn over item shapes"""
        items = self.seq_items(x, st)
        if items is None:
            return None

        def rec(its):
            out = []
            for i in its:
                if isinstance(i, Rep):
                    out.append(Rep(i.lid, i.base, rec(i.items)))
                elif isinstance(i, Opt):
                    out.append(Opt(i.cond, rec(i.a), rec(i.b)))
                elif isinstance(i, Splice):
                    lid = self.fresh_lid()
                    self.loop_base[lid] = i.base
                    out.append(Rep(lid, i.base, (fn(self.elem_of(i.base, lid, st)),)))
                else:
                    out.append(fn(i))
            return tuple(out)

        return rec(items)

    def builtin(self, name, args, kwargs, st, n, fid):
        short = name.split('.')[-1]
        a0 = args[0] if args else None
        if name == 'print':
            out = kwargs.get('file')
            end = kwargs.get('end', K('\n'))
            parts = []
            for i, a in enumerate(args):
                if i:
                    parts.append(' ')
                if isinstance(a, Splice):
                    parts.append(App('join', (K(' '), a.base)))
                else:
                    parts.extend(self.to_parts(a, st))
            if out is None or out == NONE:
                self.event('stdout', n, st, mkstr(tuple(parts)))
                return NONE
            self.emit(out, mkstr(tuple(parts)), st, n, end=end.v if isinstance(end, Const) else '\n')
            return NONE
        if name == 'enumerate' and args:
            start = args[1] if len(args) > 1 else kwargs.get('start', K(0))
            items = self.seq_items(a0, st)
            if items is None:
                return App('enumerated', (a0, start))
            if not any(isinstance(i, (Rep, Opt, Splice)) for i in items):
                return Seq('list', tuple(Seq('tuple', (self.affine('add', start, K(i)) if not isinstance(start, Const)
                                                       else K(start.v + i), x)) for i, x in enumerate(items)))
            # a single Rep without filter keeps the base index
            if len(items) == 1 and isinstance(items[0], Rep) and len(items[0].items) == 1 and \
                    not isinstance(items[0].items[0], (Rep, Opt, Splice)):
                r = items[0]
                base = strip_iter(r.base)
                return Seq('list', (Rep(r.lid, r.base, (Seq('tuple', (
                    self.affine('add', Index(base, r.lid), start), r.items[0])),)),))
            if len(items) == 1 and isinstance(items[0], Splice):
                return App('enumerated', (items[0].base, start))
            fr = self.freeze(a0, st)
            lidx = [0]

            def f(x):
                lidx[0] += 1
                return Seq('tuple', (App('position', (fr, K(lidx[0]), start)), x))
            return Seq('list', self.iter_items(a0, st, f))
        if name == 'zip':
            shapes = [self.seq_items(a, st) for a in args]
            if all(s is not None and not any(isinstance(i, (Rep, Opt, Splice)) for i in s) for s in shapes):
                return Seq('list', tuple(Seq('tuple', t) for t in zip(*shapes)))
            if all(s is None or (len(s) == 1 and isinstance(s[0], Rep)) for s in shapes):
                return App('zipped', tuple(args)) if any(s is None for s in shapes) else \
                    App('zipped', tuple(self.freeze(a, st) for a in args))
            return App('zipped', tuple(self.freeze(a, st) for a in args))
        if name == 'range':
            if all(isinstance(a, Const) for a in args) and args:
                r = range(*[a.v for a in args])
                if len(r) <= 64:
                    return Seq('list', tuple(K(i) for i in r))
            return App('rangeof', tuple(self.freeze(a, st) for a in args))
        if name in ('reversed', 'sorted') and args:
            if kwargs or name == 'sorted':
                fr = self.freeze(a0, st)
                r = App(name, (fr,), tuple(kwargs.items()))
                return r
            items = self.seq_items(a0, st)
            if items is not None and not any(isinstance(i, (Rep, Opt, Splice)) for i in items):
                return Seq('list', tuple(reversed(items)))
            return App('reversed', (self.freeze(a0, st),))
        if name in ('list', 'tuple', 'set', 'frozenset', 'iter'):
            if not args:
                return self.new_list(st, kind='set' if name in ('set', 'frozenset') else 'list') if name != 'tuple' \
                    else Seq('tuple', ())
            items = self.seq_items(a0, st)
            if items is None:
                if name in ('set', 'frozenset'):
                    return self.new_list(st, (Splice(a0),), kind='set')
                if name == 'list':
                    # enumerate/zip objects must be expanded over a symbolic loop
                    if isinstance(a0, App) and a0.fn in ('enumerated', 'zipped', 'ditems', 'rangeof'):
                        lid = self.fresh_lid()
                        self.loop_base[lid] = a0
                        return self.new_list(st, (Rep(lid, strip_iter(a0), (self.elem_of(a0, lid, st),)),))
                    return self.new_list(st, (Splice(a0),))
                return Seq('tuple', (Splice(a0),))
            ordered_from_set = self.is_set(a0, st)
            if name in ('set', 'frozenset'):
                return self.new_list(st, items, kind='set')
            if ordered_from_set:
                fr = App('unordered', (self.freeze(a0, st),))
                return self.new_list(st, (Splice(fr),)) if name == 'list' else Seq('tuple', (Splice(fr),))
            return self.new_list(st, items) if name == 'list' else Seq('tuple', items)
        if name == 'dict':
            items = ()
            if args:
                its = self.seq_items(a0, st)
                if isinstance(a0, Ref) and isinstance(st.heap.get(a0.id), HDict):
                    items = st.heap[a0.id].items
                elif its is not None:
                    m = self.iter_items(a0, st, lambda x: Seq('kv', tuple(self.unpack(x, 2, st))))
                    items = m
                else:
                    items = (Splice(a0),)
            for k, v in kwargs.items():
                items = items + ((Splice(v),) if k == '**' else (Seq('kv', (K(k), v)),))
            return self.new_ref(st, HDict(items))
        if name == 'len' and args:
            items = self.seq_items(a0, st)
            if items is not None and not any(isinstance(i, (Rep, Opt, Splice)) for i in items) and \
                    not isinstance(a0, Const):
                return K(len(items))
            if isinstance(a0, Const) and isinstance(a0.v, (str, tuple)):
                return K(len(a0.v))
            return App('len', (self.freeze(a0, st),))
        if name == 'format' and len(args) == 2 and a0 in self.exact:
            return mkstr(self.formatted(a0, args[1], st))
        if name == 'str' and args:
            p = self.to_parts(a0, st)
            if p == (a0,):
                return mkstr(p)
            return mkstr(tuple(p))
        if name == 'str':
            return K('')
        if name == 'isinstance' and len(args) == 2:
            return self.isinst(a0, args[1], st)
        if name in ('any', 'all') and args:
            items = self.seq_items(a0, st)
            if items is not None:
                if not any(isinstance(i, (Rep, Opt, Splice)) for i in items):
                    if not items:
                        return K(name == 'all')
                    cs = [self.cond(i, st) for i in items]
                    if name == 'any':
                        if TRUE in cs:
                            return TRUE
                        cs = [c for c in cs if c != FALSE]
                    else:
                        if FALSE in cs:
                            return FALSE
                        cs = [c for c in cs if c != TRUE]
                    if not cs:
                        return K(name == 'all')
                    if len(cs) == 1:
                        return cs[0]
                    return App('or' if name == 'any' else 'and', tuple(cs))
            return App(name, (self.freeze(a0, st),))
        if name == 'next' and args:
            items = self.seq_items(a0, st)
            if items is not None:
                v = self.item(a0, K(0), st) if not isinstance(a0, Const) else None
                if len(args) > 1 and v is not None and not isinstance(v, Item):
                    return Phi(App('nonempty', (self.freeze(a0, st),)), v, args[1])
                if v is not None and (len(args) == 1 or not isinstance(v, Item)):
                    return v
            return App('next', tuple(self.freeze(a, st) for a in args))
        if name in ('getattr',) and len(args) >= 2 and isinstance(args[1], Const):
            return self.attr(a0, args[1].v, st, n)
        if name == 'setattr' and len(args) == 3 and isinstance(args[1], Const):
            self.setattr(a0, args[1].v, args[2], st, n)
            return NONE
        if name == 'type' and len(args) == 1:
            t = self.type_of(a0, st)
            if t and t[0] == 'C' and isinstance(a0, Ref):
                return ClsV(t[1])
            return App('type', (a0,))
        if name in ('min', 'max', 'sum', 'abs', 'int', 'float', 'bool', 'round', 'hash', 'repr', 'id', 'ord', 'chr',
                    'callable', 'hasattr', 'map', 'filter', 'super', 'object', 'open'):
            if name == 'map' and len(args) == 2:
                items = self.iter_items(a0 and args[1], st, lambda x: self.call_value(a0, [x], {}, st, n, fid))
                if items is not None:
                    return Seq('list', items)
                lid = self.fresh_lid()
                self.loop_base[lid] = args[1]
                return Seq('list', (Rep(lid, args[1], (self.call_value(a0, [self.elem_of(args[1], lid, st)], {}, st,
                                                                        n, fid),)),))
            if name == 'filter' and len(args) == 2:
                def g(x):
                    c = self.call_value(a0, [x], {}, st, n, fid) if a0 != NONE else x
                    return Opt(self.cond(c, st), (x,))
                items = self.iter_items(args[1], st, g)
                if items is not None:
                    return Seq('list', items)
                lid = self.fresh_lid()
                self.loop_base[lid] = args[1]
                return Seq('list', (Rep(lid, args[1], (g(self.elem_of(args[1], lid, st)),)),))
            return App(name, tuple(self.freeze(a, st) for a in args), tuple((k, self.freeze(v, st)) for k, v in
                                                                          kwargs.items()))
        if short == 'StringIO':
            r = self.new_list(st, kind='stream')
            if a0 is not None:
                self.emit(r, a0, st, n)
            return r
        if short == 'dedent' and len(args) == 1:
            return a0
        if short in ('deepcopy', 'copy') and name.startswith('copy.'):
            r = App('deepcopy' if short == 'deepcopy' else 'shallowcopy', (self.freeze(a0, st),))
            t = self.type_of(a0, st)
            if t:
                self.types.setdefault(r, t)
            return r
        if short == 'replace' and name.startswith('dataclasses') and args:
            return self.dc_replace(a0, kwargs, st, n)
        if short == 'chain' and name.startswith('itertools'):
            items = []
            for a in args:
                i = self.seq_items(a, st)
                items.extend(i if i is not None else (Splice(a),))
            return Seq('list', tuple(items))
        return App(name, tuple(self.freeze(a, st) for a in args),
                   tuple((k, self.freeze(v, st)) for k, v in kwargs.items()))

    def dc_replace(self, a0, kwargs, st, n):
        t = self.type_of(a0, st)
        if t and t[0] == 'C':
            names = list(self.p.class_fields(t[1]))
            full = {nm: kwargs.get(nm, self.attr(a0, nm, st, n)) for nm in names}
            return self.construct(t[1], [], full, st, n)
        return App('dataclasses.replace', (a0,), tuple(kwargs.items()))

    def is_set(self, x, st):
        if isinstance(x, Seq):
            return x.kind == 'set'
        if isinstance(x, Ref):
            c = st.heap.get(x.id)
            return isinstance(c, HList) and c.kind == 'set'
        if isinstance(x, App):
            return x.fn.startswith('set.')
        return False

    def isinst(self, x, c, st):
        cs = []
        if isinstance(c, Seq):
            cs = list(c.items)
        elif isinstance(c, App) and c.fn == 'bitor':
            cs = list(c.args)
        else:
            cs = [c]
        if isinstance(x, Const) or isinstance(x, Str):
            names = []
            for k in cs:
                if isinstance(k, Sym):
                    names.append(k.name)
                elif isinstance(k, ClsV):
                    names.append('$' + k.cls.name)
                else:
                    names.append('?')
            tn = 'str' if isinstance(x, Str) else x.t
            if tn in names:
                return TRUE
            if '?' not in names:
                return FALSE
        t = self.type_of(x, st)
        if (isinstance(x, Ref) or x in self.exact) and t and t[0] == 'C':
            mro = self.p.mro(t[1])
            if any(isinstance(k, ClsV) and k.cls in mro for k in cs):
                return TRUE
            if all(isinstance(k, (ClsV,)) or (isinstance(k, Sym) and k.name in (
                    'str', 'int', 'float', 'list', 'tuple', 'dict', 'set')) for k in cs):
                return FALSE
        if isinstance(x, (Seq, Ref)):
            kinds = {'tuple': 'tuple', 'list': 'list', 'set': 'set', 'dict': 'dict', 'stream': 'stream'}
            kd = x.kind if isinstance(x, Seq) else (getattr(st.heap.get(x.id), 'kind', 'dict'))
            if any(isinstance(k, Sym) and k.name == kd for k in cs):
                return TRUE
            if all(isinstance(k, (ClsV, Sym)) for k in cs) and kd in kinds:
                return FALSE
        return App('isinstance', (x, Seq('tuple', tuple(cs)) if len(cs) > 1 else cs[0]))


# ----------------------------------------------------------------------------- utilities
CHANGERS = ('append', 'extend', 'insert', 'add', 'update', 'remove', 'discard', 'pop', 'clear', 'sort', 'reverse', 'setdefault')
DEDUP = ('dict.fromkeys', 'dedup')
SAME_ELEMENTS = DEDUP + ('reversed', 'sorted', 'reversed_of', 'sorted_of')
_CHILD = {Attr: ('base',), Elem: ('base',), Item: ('base', 'key'), Splice: ('base',)}


def _direct(x):
    """direct sub-terms of any term, exactly as `freeze` visits them"""
    if isinstance(x, (Attr, Elem, Splice)):
        return (x.base,)
    if isinstance(x, Item):
        return (x.base, x.key)
    if isinstance(x, Seq):
        return x.items
    if isinstance(x, Rep):
        return (x.base,) + tuple(x.items)
    if isinstance(x, Opt):
        return (x.cond,) + tuple(x.a) + tuple(x.b)
    if isinstance(x, Phi):
        return (x.cond, x.a, x.b)
    if isinstance(x, Str):
        return x.parts
    if isinstance(x, App):
        return tuple(x.args) + tuple(v for _, v in x.kw)
    if isinstance(x, MCall):
        return (x.recv,) + tuple(x.args) + tuple(v for _, v in x.kw)
    if isinstance(x, LoopOut):
        return (x.base, x.init, x.step)
    return ()


def ground(x):
    """True if x holds no heap reference (cached on the term)"""
    if isinstance(x, Ref):
        return False
    if not isinstance(x, Term):
        return True
    g = x.__dict__.get('_g')
    if g is None:
        g = all(ground(c) for c in _direct(x))
        object.__setattr__(x, '_g', g)
    return g


def conj(conds):
    conds = [c if pol else neg(c) for c, pol in conds if not (isinstance(c, App) and c.fn == 'in_loop')]
    if not conds:
        return TRUE
    if len(conds) == 1:
        return conds[0]
    return App('and', tuple(conds))


def conjuncts(c, pol=True):
    """(term, polarity) facts that follow from `c` being true (pol) or false"""
    if isinstance(c, App) and c.fn == 'not':
        yield from conjuncts(c.args[0], not pol)
    elif isinstance(c, App) and c.fn == ('and' if pol else 'or'):
        for a in c.args:
            yield from conjuncts(a, pol)
    else:
        yield c, pol


def decide(c, facts):
    """truth of a condition under known facts {term: bool}, or None"""
    if isinstance(c, Const):
        return bool(c.v)
    if c in facts:
        return facts[c]
    if isinstance(c, App):
        if c.fn == 'not':
            r = decide(c.args[0], facts)
            return None if r is None else not r
        if c.fn in ('and', 'or'):
            rs = [decide(a, facts) for a in c.args]
            stop = c.fn == 'or'
            if stop in rs:
                return stop
            if None not in rs:
                return not stop
    return None


def prune(items, facts=None):
    """drop alternatives that the enclosing alternatives exclude"""
    facts = facts or {}
    out = []
    for i in items:
        if isinstance(i, Opt):
            d = decide(i.cond, facts)
            if d is not None:
                out.extend(prune(i.a if d else i.b, facts))
                continue
            fa, fb = dict(facts), dict(facts)
            fa.update(conjuncts(i.cond, True))
            fb.update(conjuncts(i.cond, False))
            a, b = prune(i.a, fa), prune(i.b, fb)
            out.append(i if a == i.a and b == i.b else Opt(i.cond, a, b))
        elif isinstance(i, Rep):
            b = prune(i.items, facts)
            out.append(i if b == i.items else Rep(i.lid, i.base, b))
        elif isinstance(i, Str):
            b = prune(i.parts, facts)
            out.append(i if b == i.parts else mkstr(b))
        elif isinstance(i, Phi):
            d = decide(i.cond, facts)
            out.extend(prune((i.a if d else i.b,), facts) if d is not None else (i,))
        else:
            out.append(i)
    return tuple(out)


def fresh_list(v):
    """a list that nobody else has"""
    if isinstance(v, Phi):
        return fresh_list(v.a) and fresh_list(v.b)
    return isinstance(v, MCall) and v.name in ('split', 'rsplit', 'splitlines')


def positions(x):
    """the positions in a list, one after the other: range(len(list))"""
    return isinstance(x, App) and x.fn == 'rangeof' and len(x.args) == 1 and isinstance(x.args[0], App) and \
        x.args[0].fn == 'len' and len(x.args[0].args) == 1


def listed(x):
    """the list whose positions those are; for a list with one entry for each element of another, the other"""
    x = strip_iter(x)
    while isinstance(x, Seq) and len(x.items) == 1 and isinstance(x.items[0], Rep) and len(x.items[0].items) == 1 and \
            not isinstance(x.items[0].items[0], (Opt, Rep, Splice)):
        x = strip_iter(x.items[0].base)
    return x


def strip_iter(x):
    while isinstance(x, App) and (x.fn == 'enumerated' or positions(x)):
        x = x.args[0] if x.fn == 'enumerated' else x.args[0].args[0]
    if isinstance(x, App) and x.fn == 'zipped':
        return strip_iter(x.args[0])
    return x


def merge_items(c, a, b):
    if a == b:
        return a
    if isinstance(c, Const):
        return a if c.v else b
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    j = 0
    while j < len(a) - i and j < len(b) - i and a[len(a) - 1 - j] == b[len(b) - 1 - j]:
        j += 1
    # never factor a common suffix past list semantic differences: order is preserved, so it is safe
    mid_a = a[i:len(a) - j]
    mid_b = b[i:len(b) - j]
    suffix = a[len(a) - j:] if j else ()
    if isinstance(c, App) and c.fn == 'not':
        return a[:i] + (Opt(c.args[0], mid_b, mid_a),) + suffix
    return a[:i] + (Opt(c, mid_a, mid_b),) + suffix


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, Const):
            p = str(p.v)
        if isinstance(p, Str):
            for q in p.parts:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
            continue
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return K('')
    if len(out) == 1 and isinstance(out[0], str):
        return K(out[0])
    return Str(tuple(out))


def children(t):
    if isinstance(t, (Const, Sym, Ref, Clo, Lam, ClsV, ModV, Carried)) or not isinstance(t, Term):
        return ()
    if isinstance(t, Attr):
        return (t.base,)
    if isinstance(t, (Elem, Index)):
        return (t.base,)
    if isinstance(t, Item):
        return (t.base, t.key)
    if isinstance(t, App):
        return t.args + tuple(v for _, v in t.kw)
    if isinstance(t, MCall):
        return (t.recv,) + t.args + tuple(v for _, v in t.kw)
    if isinstance(t, Str):
        return t.parts
    if isinstance(t, Seq):
        return t.items
    if isinstance(t, Phi):
        return (t.cond, t.a, t.b)
    if isinstance(t, LoopOut):
        return (t.base, t.init, t.step)
    if isinstance(t, Rep):
        return (t.base,) + t.items
    if isinstance(t, Opt):
        return (t.cond,) + t.a + t.b
    if isinstance(t, Splice):
        return (t.base,)
    return ()


def walk(t):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if not isinstance(x, Term):
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        stack.extend(children(x))


def counted(n):
    """`while i < N: ... i += 1 ...` as the loop over a range that it is, or None"""
    t = n.test
    if n.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE)) and isinstance(t.left, ast.Name)):
        return None
    i, end = t.left.id, t.comparators[0]
    inside = [x for b in n.body for x in ast.walk(b)]
    if not all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.Load)) for x in ast.walk(end)) or \
            any(isinstance(x, (ast.Continue, ast.Call, ast.Await, ast.Lambda, ast.FunctionDef, ast.NamedExpr)) for x in inside):
        return None
    names = {x.id for x in ast.walk(end) if isinstance(x, ast.Name)}
    attrs = {x.attr for x in ast.walk(end) if isinstance(x, ast.Attribute)}
    steps = [b for b in n.body if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and b.target.id == i]
    changed = [x for x in inside if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in names | {i}
               or isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in attrs]
    if len(steps) != 1 or len(changed) != 1 or not isinstance(steps[0].op, ast.Add) or getattr(steps[0].value, 'value', None) != 1:
        return None
    if isinstance(t.ops[0], ast.LtE):
        end = ast.BinOp(end, ast.Add(), ast.Constant(1))
    loop = ast.For(target=ast.Name(i, ast.Store()), iter=ast.Call(ast.Name('range', ast.Load()), [ast.Name(i, ast.Load()), end], []),
                   body=n.body, orelse=[], type_comment=None)
    return ast.fix_missing_locations(ast.copy_location(loop, n))


def walk_own(node):
    """AST nodes of a function body excluding nested function/lambda/class bodies"""
    stack = list(getattr(node, 'body', [])) if isinstance(getattr(node, 'body', []), list) else [node.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def subst_lid(t, old, new):
    if not isinstance(t, Term) or isinstance(t, (Const, Sym, Ref, Clo, Lam, ClsV, ModV)):
        return t
    s = lambda x: subst_lid(x, old, new)
    if isinstance(t, Elem):
        return Elem(s(t.base), new if t.lid == old else t.lid)
    if isinstance(t, Index):
        return Index(s(t.base), new if t.lid == old else t.lid)
    if isinstance(t, Attr):
        return Attr(s(t.base), t.name)
    if isinstance(t, Item):
        return Item(s(t.base), s(t.key))
    if isinstance(t, App):
        return App(t.fn, tuple(s(x) for x in t.args), tuple((k, s(v)) for k, v in t.kw))
    if isinstance(t, MCall):
        return MCall(s(t.recv), t.name, tuple(s(x) for x in t.args), tuple((k, s(v)) for k, v in t.kw))
    if isinstance(t, Str):
        return Str(tuple(s(x) for x in t.parts))
    if isinstance(t, Seq):
        return Seq(t.kind, tuple(s(x) for x in t.items))
    if isinstance(t, Phi):
        return Phi(s(t.cond), s(t.a), s(t.b))
    if isinstance(t, Rep):
        return Rep(t.lid, s(t.base), tuple(s(x) for x in t.items))
    if isinstance(t, Opt):
        return Opt(s(t.cond), tuple(s(x) for x in t.a), tuple(s(x) for x in t.b))
    if isinstance(t, Splice):
        return Splice(s(t.base))
    return t


def path_of(t):
    """access path string rooted at a symbol with loop ids erased, or None"""
    if isinstance(t, Sym):
        return t.name
    if isinstance(t, Attr):
        b = path_of(t.base)
        return None if b is None else f'{b}.{t.name}'
    if isinstance(t, Elem):
        b = path_of(t.base)
        return None if b is None else f'{b}[*]'
    if isinstance(t, Index):
        b = path_of(t.base)
        return None if b is None else f'#{b}'
    if isinstance(t, Item):
        b = path_of(t.base)
        if b is None:
            return None
        if isinstance(t.key, Const):
            return f'{b}[{t.key.v!r}]'
        k = path_of(t.key)
        if isinstance(t.key, App) and t.key.fn == 'slice':
            return f'{b}[:]'
        return f'{b}[{k or "?"}]'
    if isinstance(t, App) and t.fn in ('values', 'keys') and len(t.args) == 1:
        b = path_of(t.args[0])
        return None if b is None else f'{b}.{t.fn}()'
    if isinstance(t, App) and t.fn == 'enter':
        return path_of(t.args[0])
    return None


def paths(t):
    """all access paths read by a term (maximal ones)"""
    out = set()

    def rec(x):
        if not isinstance(x, Term):
            return
        p = path_of(x)
        if p is not None:
            out.add(p)
            # keys inside
            y = x
            while isinstance(y, (Attr, Elem, Item, Index)):
                if isinstance(y, Item):
                    rec(y.key)
                y = y.base
            return
        for c in children(x):
            rec(c)

    rec(t)
    return out
