"""Where does an arbitrary order become observable?  A small interprocedural dataflow over the syntax trees.

Kinds of a value: 'set' (iteration order is arbitrary), 'arb' (a sequence whose order is arbitrary), 'dirs' (a sequence
in the order the file system gives), 'rand' (differs from run to run).  A use that lets the order through is a sink."""
from __future__ import annotations
import ast
from .project import Project, Func, Class

SETCALLS = {'set', 'frozenset'}
SETOPS = {'union', 'difference', 'intersection', 'symmetric_difference', 'copy'}
INSENSITIVE = {'len', 'sorted', 'any', 'all', 'sum', 'min', 'max', 'set', 'frozenset', 'bool', 'Counter', 'isinstance',
               'type', 'id_of'}
KEEP = {'list', 'tuple', 'reversed', 'iter', 'enumerate', 'zip', 'filter', 'map', 'dict'}
RAND_MODULES = {'uuid', 'random', 'secrets'}
RAND_CALLS = {'uuid1', 'uuid4', 'token_hex', 'getpid', 'mkdtemp', 'urandom', 'time_ns', 'perf_counter', 'monotonic',
              'hash', 'id', 'now', 'utcnow', 'today'}
DIR_CALLS = {'glob', 'rglob', 'iterdir', 'listdir', 'scandir', 'walk'}
RANK = {None: 0, 'arb': 3, 'dirs': 1, 'set': 2, 'rand': 4}


def join(*ks):
    return max(ks, key=lambda k: RANK[k]) if ks else None


class Sink:
    def __init__(self, func, node, what, kind):
        self.func, self.node, self.what, self.kind = func, node, what, kind

    def __repr__(self):
        return f'{self.func.qualname}:{getattr(self.node, "lineno", "?")} {self.kind} {self.what}'


class Order:
    def __init__(self, p: Project, modules=None):
        self.p = p
        self.funcs = [f for f in p.all_functions() if modules is None or modules(f.module.name)]
        self.nested = []
        for f in list(self.funcs):
            for n in ast.walk(f.node):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not f.node:
                    self.nested.append(Func(n.name, n, f.module, f.cls, f))
        self.all = self.funcs + self.nested
        self.by_name = {}
        for f in self.all:
            self.by_name.setdefault(f.name, []).append(f)
        self.ret = {}
        self.par = {}
        self.attr = {}
        self.sinks = {}
        self.sources = 0
        self.examined = 0
        for _ in range(12):
            before = (dict(self.ret), dict(self.par), dict(self.attr))
            self.sinks = {}
            self.sources = self.examined = 0
            for f in self.all:
                Body(self, f).run()
            if (self.ret, self.par, self.attr) == before:
                break

    def callee(self, call):
        n = call.func
        name = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
        return name, self.by_name.get(name, [])


class Body:
    def __init__(self, o: Order, f: Func):
        self.o, self.f = o, f
        self.env = {}
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            k = o.par.get((id(f.node), x.arg))
            if x.annotation is not None and k is None:
                t = ast.unparse(x.annotation)
                if t.split('[')[0] in ('set', 'Set', 'frozenset'):
                    k = 'set'
            self.env[x.arg] = k
        self.single = []        # expressions known to have exactly one element

    def run(self):
        self.block(self.f.node.body)

    # ------------------------------------------------------------------------------------------- statements
    def block(self, body):
        n = 0
        for s in body:
            self.stmt(s)
            u = self.only_one_after(s)
            if u:
                self.single.append(u)
                n += 1
        for _ in range(n):
            self.single.pop()

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return
        if isinstance(s, ast.Assign):
            k = self.expr(s.value)
            for t in s.targets:
                self.assign(t, k, s)
        elif isinstance(s, ast.AnnAssign):
            k = self.expr(s.value) if s.value is not None else None
            self.assign(s.target, k, s)
        elif isinstance(s, ast.AugAssign):
            k = self.expr(s.value)
            old = self.expr(s.target) if isinstance(s.target, (ast.Name, ast.Attribute)) else None
            if old == 'set':
                k = 'set'
            elif k == 'set':
                k = 'arb'
            self.assign(s.target, join(old, k), s)
        elif isinstance(s, ast.For):
            k = self.expr(s.iter)
            if k in ('set', 'arb', 'dirs') and self.sensitive(s.body):
                if k == 'dirs':
                    self.mark_built(s.body, 'dirs')
                else:
                    self.sink(s, f'loop over {ast.unparse(s.iter)}', k)
            if k in ('set', 'arb'):
                pass
            self.assign(s.target, None, s)
            for _ in range(2):
                self.block(s.body)
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            self.expr(s.test)
            for _ in range(2):
                self.block(s.body)
            self.block(s.orelse)
        elif isinstance(s, ast.If):
            self.expr(s.test)
            save = dict(self.env)
            u = self.exactly_one(s.test)
            self.single.append(u)
            self.block(s.body)
            self.single.pop()
            a, self.env = self.env, dict(save)
            v = self.exactly_one(s.test, negated=True)
            self.single.append(v)
            self.block(s.orelse)
            self.single.pop()
            self.env = {k: join(a.get(k), self.env.get(k)) for k in {*a, *self.env}}
        elif isinstance(s, ast.With):
            for i in s.items:
                k = self.expr(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, k, s)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            for h in s.handlers:
                self.block(h.body)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Return):
            k = self.expr(s.value) if s.value is not None else None
            if k is not None:
                self.o.ret[id(self.f.node)] = join(self.o.ret.get(id(self.f.node)), k)
        elif isinstance(s, ast.Expr):
            self.expr(s.value)
        elif isinstance(s, (ast.Raise, ast.Assert, ast.Delete)):
            pass
        elif isinstance(s, ast.Match):
            self.expr(s.subject)
            for c in s.cases:
                self.block(c.body)

    def assign(self, t, k, s):
        if isinstance(t, ast.Name):
            self.env[t.id] = k
        elif isinstance(t, ast.Attribute):
            if k is not None:
                self.o.attr[t.attr] = join(self.o.attr.get(t.attr), k)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if k in ('set', 'arb'):
                self.sink(s, f'unpacking {ast.unparse(t)}', k)
            for e in t.elts:
                self.assign(e, None, s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, k, s)
        elif isinstance(t, ast.Subscript):
            self.expr(t.value)

    def mark_built(self, body, kind):
        pass

    def sensitive(self, body):
        """does the order in which the loop runs matter"""
        for s in body:
            if isinstance(s, (ast.Pass, ast.Continue, ast.Assert, ast.Raise)):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
                a = s.value.func
                if a.attr in ('add', 'discard', 'update') and self.quiet(a.value) == 'set':
                    continue
                if isinstance(a.value, ast.Name) and a.value.id in ('logger', 'log'):
                    continue
            if isinstance(s, ast.AugAssign) and (isinstance(s.op, (ast.BitOr, ast.BitAnd))):
                continue
            if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.value, ast.Constant) \
                    and isinstance(s.value.value, (int, float)):
                continue
            if isinstance(s, ast.If) and not self.sensitive(s.body) and not self.sensitive(s.orelse):
                continue
            if isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant)):
                continue
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) \
                    and all(isinstance(t, ast.Name) for t in s.targets):
                continue
            return True
        return False

    def quiet(self, e):
        save = dict(self.o.sinks)
        k = self.expr(e)
        self.o.sinks = save
        return k

    # ------------------------------------------------------------------------------------------ exactly one
    def exactly_one(self, test, negated=False):
        """text of the expression that has exactly one element when the test is true (false if negated)"""
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) and not negated:
            for v in test.values:
                u = self.exactly_one(v)
                if u:
                    return u
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.exactly_one(test.operand, not negated)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Call) \
                and isinstance(test.left.func, ast.Name) and test.left.func.id == 'len' and test.left.args:
            c = test.comparators[0]
            if isinstance(c, ast.Constant) and c.value == 1:
                if isinstance(test.ops[0], ast.Eq) and not negated or isinstance(test.ops[0], ast.NotEq) and negated:
                    return ast.unparse(test.left.args[0])
        return None

    def only_one_after(self, s):
        if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Raise, ast.Return, ast.Continue)):
            return self.exactly_one(s.test, negated=True)
        if isinstance(s, ast.Assert):
            return self.exactly_one(s.test)
        return None

    # ------------------------------------------------------------------------------------------ expressions
    def sink(self, node, what, kind):
        self.o.sinks.setdefault((id(self.f.node), getattr(node, 'lineno', 0), what), Sink(self.f, node, what, kind))

    def expr(self, e):
        self.o.examined += 1
        m = getattr(self, 'x_' + type(e).__name__, None)
        if m is not None:
            return m(e)
        out = None
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c)
        return out

    def x_Name(self, e):
        return self.env.get(e.id)

    def x_Attribute(self, e):
        k = self.expr(e.value)
        for f in self.o.by_name.get(e.attr, []):
            if f.is_property and self.o.ret.get(id(f.node)):
                return self.o.ret[id(f.node)]
        if e.attr in self.o.attr:
            return self.o.attr[e.attr]
        return 'rand' if k == 'rand' else None

    def x_Set(self, e):
        for x in e.elts:
            self.expr(x)
        self.o.sources += 1
        return 'set'

    def comp(self, e, insensitive=False):
        kinds = []
        for g in e.generators:
            k = self.expr(g.iter)
            kinds.append(k)
            self.assign_quiet(g.target)
            for i in g.ifs:
                self.expr(i)
        for x in (getattr(e, 'elt', None), getattr(e, 'key', None), getattr(e, 'value', None)):
            if x is not None:
                self.expr(x)
        k = join(*kinds)
        return 'arb' if k in ('set', 'arb') else k

    def assign_quiet(self, t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                self.env[n.id] = None

    def x_SetComp(self, e):
        self.comp(e)
        self.o.sources += 1
        return 'set'

    def x_ListComp(self, e):
        return self.comp(e)

    x_GeneratorExp = x_ListComp
    x_DictComp = x_ListComp

    def x_BinOp(self, e):
        a, b = self.expr(e.left), self.expr(e.right)
        if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and 'set' in (a, b):
            return 'set'
        return join(a, b)

    def x_BoolOp(self, e):
        return join(*[self.expr(v) for v in e.values])

    def x_IfExp(self, e):
        self.expr(e.test)
        return join(self.expr(e.body), self.expr(e.orelse))

    def x_Compare(self, e):
        for x in [e.left] + e.comparators:
            self.expr(x)
        return None

    def x_List(self, e):
        ks = []
        for x in e.elts:
            k = self.expr(x.value if isinstance(x, ast.Starred) else x)
            if isinstance(x, ast.Starred):
                ks.append('arb' if k == 'set' else k)
            elif k == 'rand':
                ks.append(k)
        return join(*ks) if ks else None

    x_Tuple = x_List

    def x_Starred(self, e):
        return self.expr(e.value)

    def x_JoinedStr(self, e):
        out = None
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                k = self.expr(v.value)
                if k in ('set', 'arb'):
                    self.sink(e, f'text of {ast.unparse(v.value)}', k)
                    out = 'rand'
                elif k == 'rand':
                    out = 'rand'
        return out

    def x_Subscript(self, e):
        k = self.expr(e.value)
        self.expr(e.slice)
        if isinstance(e.slice, ast.Slice):
            return k
        if k in ('arb', 'dirs'):
            if ast.unparse(e.value) not in [u for u in self.single if u]:
                self.sink(e, f'picking an element of {ast.unparse(e.value)}', k)
        return 'rand' if k == 'rand' else None

    def x_NamedExpr(self, e):
        k = self.expr(e.value)
        self.env[e.target.id] = k
        return k

    def x_Await(self, e):
        return self.expr(e.value)

    def x_Lambda(self, e):
        return None

    def x_Call(self, e):
        name, callees = self.o.callee(e)
        recv = self.expr(e.func.value) if isinstance(e.func, ast.Attribute) else None
        args = [self.expr(a) for a in e.args]
        kws = {k.arg: self.expr(k.value) for k in e.keywords}
        is_attr = isinstance(e.func, ast.Attribute)
        k0 = args[0] if args else None
        if is_attr and isinstance(e.func.value, ast.Name) and e.func.value.id in ('logger', 'log'):
            return None
        if is_attr and recv == 'set':
            if name in SETOPS:
                return 'set'
            if name == 'pop':
                self.sink(e, f'taking any element of {ast.unparse(e.func.value)}', 'set')
                return None
            return None
        if not is_attr and name in SETCALLS:
            self.o.sources += 1
            return 'set'
        if not is_attr and name == 'sorted':
            return None
        if not is_attr and name in INSENSITIVE:
            return 'rand' if 'rand' in args and name not in ('len', 'bool', 'any', 'all', 'isinstance') else None
        if name == 'next' and not is_attr and k0 in ('set', 'arb', 'dirs'):
            if k0 != 'dirs':
                self.sink(e, f'taking any element of {ast.unparse(e.args[0])}', k0)
            return None
        if not is_attr and name in KEEP:
            k = join(*args) if args else None
            return 'arb' if k == 'set' else k
        if name == 'fromkeys':
            return 'arb' if k0 == 'set' else k0
        if name in ('values', 'keys', 'items', 'copy') and is_attr:
            return recv
        if name == 'join' and is_attr:
            if k0 in ('set', 'arb'):
                self.sink(e, f'joining {ast.unparse(e.args[0])}', k0)
                return 'rand'
            return 'rand' if k0 == 'rand' else None
        if name in ('str', 'repr', 'print') and not is_attr:
            for a, k in zip(e.args, args):
                if k in ('set', 'arb'):
                    self.sink(e, f'text of {ast.unparse(a)}', k)
            return 'rand' if any(args) and any(k in ('set', 'arb', 'rand') for k in args) else None
        if name in DIR_CALLS and is_attr and not callees:
            self.o.sources += 1
            return 'dirs'
        if self.random(e, name, is_attr):
            self.o.sources += 1
            return 'rand'
        if is_attr and name in ('append', 'add', 'extend', 'insert', 'update') and args:
            k = args[-1]
            v = e.func.value
            if k in ('set', 'arb') and name in ('extend', 'update') or k == 'rand':
                k = 'arb' if k != 'rand' else k
                if recv != 'set':
                    self.taint(v, k)
            return None
        if is_attr and recv in ('set', 'arb') and name in ('index',):
            self.sink(e, f'position in {ast.unparse(e.func.value)}', recv)
        if callees:
            out = None
            for f in callees:
                names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
                if is_attr and f.cls is not None and not f.is_static:
                    names = names[1:]
                for n, k in list(zip(names, args)) + [(n, k) for n, k in kws.items()]:
                    if k is not None:
                        key = (id(f.node), n)
                        self.o.par[key] = join(self.o.par.get(key), k)
                out = join(out, self.o.ret.get(id(f.node)))
            return out
        return None

    def taint(self, v, k):
        if isinstance(v, ast.Name):
            self.env[v.id] = join(self.env.get(v.id), k)
        elif isinstance(v, ast.Attribute):
            self.o.attr[v.attr] = join(self.o.attr.get(v.attr), k)

    def random(self, e, name, is_attr):
        if name not in RAND_CALLS and not (is_attr and isinstance(e.func.value, ast.Name)
                                           and e.func.value.id in RAND_MODULES):
            return False
        if name in ('id', 'hash'):
            return not is_attr
        if name == 'time':
            return is_attr and isinstance(e.func.value, ast.Name) and e.func.value.id == 'time'
        return True
