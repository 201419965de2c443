"""Normal form of what a visitor of a parse tree produces, under a choice of which clauses are present.

`fold` decides the guards of a term from the scenario (clause present or absent, class of a value), `Norm` prints the
remainder in a notation that does not depend on how the code is written:

  Identifier        the node ctx.Identifier()          Identifier#0   one of several of them
  text(Identifier)  its text                            inner(X)       the text without its first and last character
  v(place)          the result of visiting ctx.place()  each(c: e)     e for every element of c, in order
"""
from __future__ import annotations
import ast
import dataclasses
from .absint import (Term, Sym, Const, Attr, Elem, Item, App, MCall, Str, Seq, Phi, Rep, Opt, Splice, Ref, ClsV, K, NONE,
                     TRUE, FALSE, HList, HObj, mkstr, LoopOut, neg)


class Scene:
    """present: accessor -> bool (a clause that is not named is undecided); isa: class name -> bool;
    flags: canonical text of any other condition -> bool"""

    def __init__(self, present=None, isa=None, flags=None, default=None):
        self.present, self.isa, self.flags, self.default = present or {}, isa or {}, flags or {}, default

    def there(self, x):
        n = accessor(x)
        if n is None:
            if isinstance(x, Seq):
                return bool(x.items) if not any(isinstance(i, (Rep, Opt, Splice)) for i in x.items) else None
            return None
        if n in self.present:
            return self.present[n]
        b = n.split('#')[0]
        if '#' in n and b in self.present and self.present[b] is False:
            return False
        return self.default if self.default is not None else None

    def decide(self, c, norm):
        if isinstance(c, Const):
            return bool(c.v)
        if isinstance(c, App):
            if c.fn == 'not':
                r = self.decide(c.args[0], norm)
                return None if r is None else not r
            if c.fn in ('and', 'or'):
                stop = c.fn == 'or'
                rs = [self.decide(a, norm) for a in c.args]
                if stop in rs:
                    return stop
                return None if None in rs else not stop
            if c.fn == 'in_loop':
                return True
            if c.fn in ('is', 'isnot', 'eq', 'ne') and len(c.args) == 2 and NONE in c.args:
                x = c.args[0] if c.args[1] == NONE else c.args[1]
                if x == NONE:
                    return c.fn in ('is', 'eq')
                if isinstance(x, (Const, Str, Seq)) and not (isinstance(x, Const) and x.v is None):
                    return c.fn in ('isnot', 'ne')
                if isinstance(x, App) and x.fn.startswith('new:'):
                    return c.fn in ('isnot', 'ne')
                r = self.there(x)
                if r is None and self.flags:
                    r = self.flags.get(norm(x) + ' given')
                if r is not None:
                    return r if c.fn in ('isnot', 'ne') else not r
            if c.fn in ('eq', 'ne') and all(isinstance(a, Const) for a in c.args):
                return (c.args[0].v == c.args[1].v) == (c.fn == 'eq')
            if c.fn == 'in' and len(c.args) == 2 and isinstance(c.args[0], Const) and isinstance(c.args[1], Seq) and \
                    all(isinstance(a, Const) for a in c.args[1].items):
                return c.args[0].v in [a.v for a in c.args[1].items]
            if c.fn == 'isinstance':
                ts = c.args[1].items if isinstance(c.args[1], Seq) else c.args[1:]
                names = [repr(t).replace('<class ', '').replace('>', '') for t in ts]
                x = c.args[0]
                if isinstance(x, (Seq, Const, Str)) or isinstance(x, App) and x.fn.startswith('new:'):
                    cls = x.kind if isinstance(x, Seq) else 'str' if isinstance(x, Str) else x.t if isinstance(x, Const) \
                        else x.fn[4:]
                    return cls in names
                rs = [self.isa.get(n) for n in names]
                if True in rs:
                    return True
                if rs and None not in rs:
                    return False
        if isinstance(c, App) and c.fn in ('le', 'lt', 'ge', 'gt') and len(c.args) == 2 and self.flags:
            a, b = norm(c.args[0]), norm(c.args[1])
            for text, val in ((f'{a}<={b}', c.fn in ('le', 'gt')), (f'{b}<={a}', c.fn in ('ge', 'lt'))):
                if text in self.flags and (c.fn in ('le', 'gt')) == (text == f'{a}<={b}'):
                    return self.flags[text] == (c.fn in ('le', 'ge'))
        r = self.there(c)
        if r is not None:
            return r
        if self.flags:
            return self.flags.get(norm(c))
        return None


def accessor(x):
    """ctx.X() -> 'X', ctx.X(2) or ctx.X()[2] -> 'X#2', an attribute ctx.label -> 'label'"""
    if isinstance(x, MCall) and x.recv == Sym('ctx'):
        if not x.args:
            return x.name
        if len(x.args) == 1 and isinstance(x.args[0], Const):
            return f'{x.name}#{x.args[0].v}'
    if isinstance(x, Attr) and x.base == Sym('ctx'):
        return x.name
    if isinstance(x, Item) and isinstance(x.key, Const):
        b = accessor(x.base)
        if b and '#' not in b:
            return f'{b}#{x.key.v}'
    return None


def rebuild(t, f):
    """t with f applied to its direct parts"""
    if not isinstance(t, Term) or not dataclasses.is_dataclass(t):
        return t
    new, changed = [], False
    for fl in dataclasses.fields(t):
        v = getattr(t, fl.name)
        w = part(v, f)
        changed = changed or w is not v
        new.append(w)
    return type(t)(*new) if changed else t


def part(v, f):
    if isinstance(v, Term):
        return f(v)
    if isinstance(v, tuple):
        w = tuple(part(x, f) for x in v)
        return v if all(a is b for a, b in zip(v, w)) else w
    return v


class Fold:
    def __init__(self, scene, norm):
        self.s, self.norm, self.memo = scene, norm, {}

    def __call__(self, t):
        if not isinstance(t, Term):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.fold(t)
        return r

    def items(self, its):
        out = []
        for i in its:
            if isinstance(i, Opt):
                c = self(i.cond)
                d = self.s.decide(c, self.norm)
                if d is not None:
                    out.extend(self.items(i.a if d else i.b))
                    continue
                out.append(Opt(c, self.items(i.a), self.items(i.b)))
            elif isinstance(i, Rep):
                base, its = self(i.base), self.items(i.items)
                if isinstance(base, App) and base.fn == 'rangeof' and len(base.args) == 1 and isinstance(base.args[0], App) and \
                        base.args[0].fn == 'len':
                    base = base.args[0].args[0]      # by position
                if len(its) == 1 and its[0] == Elem(i.base, i.lid):
                    out.append(Splice(base))
                elif its:
                    out.append(Rep(i.lid, base, its))
            elif isinstance(i, Splice):
                b = self(i.base)
                if isinstance(b, Seq):
                    out.extend(self.items(b.items))
                else:
                    out.append(Splice(b))
            else:
                out.append(self(i))
        return tuple(out)

    def fold(self, t):
        if isinstance(t, Phi):
            c = self(t.cond)
            d = self.s.decide(c, self.norm)
            if d is not None:
                return self(t.a if d else t.b)
            a, b = self(t.a), self(t.b)
            for c1, x, y in ((c, a, b), (neg(c), b, a)):
                # what there is, or nothing
                if x == K(None) and c1 == App('is', (y, K(None))):
                    return y
            return a if a == b else Phi(c, a, b)
        if isinstance(t, Seq):
            return Seq(t.kind, self.items(t.items))
        if isinstance(t, Str):
            return mkstr(self.items(t.parts))
        if isinstance(t, App) and t.fn in ('and', 'or'):
            stop, left = t.fn == 'or', []
            args = [self(a) for a in t.args]
            for i, a in enumerate(args):
                d = self.s.decide(a, self.norm)
                if d is None or d == stop or i == len(args) - 1:
                    left.append(a)
                if d == stop:
                    break
            if len(left) == 1:
                return left[0]
            return App(t.fn, tuple(left), t.kw)
        if isinstance(t, App) and t.fn in ('is', 'isnot', 'eq', 'ne', 'not', 'isinstance', 'in'):
            n = rebuild(t, self)
            d = self.s.decide(n, self.norm)
            return n if d is None else K(d)
        if isinstance(t, App) and t.fn == 'pick' and len(t.args) >= 5 and not getattr(self.s, 'keep_pick', False):
            e, i, cond, base, lid = t.args[:5]
            if isinstance(lid, Const) and isinstance(i, Const):
                return self(replace_elem(e, base, lid.v, i))
        n = rebuild(t, self)
        if isinstance(n, Item) and isinstance(n.base, Const) and isinstance(n.base.v, str) and isinstance(n.key, App) and \
                n.key.fn == 'slice' and all(isinstance(x, Const) for x in n.key.args):
            return K(n.base.v[slice(*[x.v for x in n.key.args])])
        if isinstance(n, Item) and isinstance(n.base, Seq) and isinstance(n.key, Const) and isinstance(n.key.v, int):
            its = n.base.items
            k = n.key.v
            if not any(isinstance(i, (Rep, Opt, Splice)) for i in its) and -len(its) <= k < len(its):
                return its[k]
            if k >= 0 and len(its) > k and not any(isinstance(i, (Rep, Opt, Splice)) for i in its[:k + 1]):
                return its[k]
            if len(its) == 1 and isinstance(its[0], Rep) and len(its[0].items) == 1 and \
                    not isinstance(its[0].items[0], (Rep, Opt, Splice)):
                return self(replace_elem(its[0].items[0], its[0].base, its[0].lid, n.key))
        if isinstance(n, Attr) and isinstance(n.base, App) and n.base.fn.startswith('new:'):
            for k, v in n.base.kw:
                if k == n.name:
                    return v
        return n


def replace_elem(t, base, lid, key):
    if isinstance(t, Elem) and t.lid == lid:
        return Item(t.base, key)
    return rebuild(t, lambda x: replace_elem(x, base, lid, key))


class Norm:
    """canonical text of a term; `params` gives positional constructor arguments their names"""

    def __init__(self, p=None):
        self.p = p
        self.names = {}

    def ctor(self, cls):
        if cls not in self.names:
            out = None
            if self.p is not None:
                try:
                    c = self.p.find_class(cls)
                    m = self.p.method(c, '__init__')
                    out = m.arg_names()[1:] if m is not None and hasattr(m, 'arg_names') else \
                        [x[0] if isinstance(x, tuple) else getattr(x, 'name', x) for x in self.p.class_fields(c)]
                except Exception:
                    out = None
            self.names[cls] = out
        return self.names[cls]

    def __call__(self, t):
        return self.nf(t)

    def seq(self, its):
        out = []
        for i in its:
            if isinstance(i, Rep):
                out.append(f'each({self.nf(i.base)}: {", ".join(self.seq(i.items))})')
            elif isinstance(i, Opt):
                out.append(f'({self.nf(i.cond)} ? {", ".join(self.seq(i.a))} : {", ".join(self.seq(i.b))})')
            elif isinstance(i, Splice):
                out.append('*' + self.nf(i.base))
            elif isinstance(i, str):
                out.append(repr(i))
            else:
                out.append(self.nf(i))
        return out

    def nf(self, t):
        if isinstance(t, str):
            return repr(t)
        if not isinstance(t, Term):
            return repr(t)
        a = accessor(t)
        if a is not None:
            return a
        if isinstance(t, Const):
            return repr(t.v)
        if isinstance(t, Sym):
            return t.name
        if isinstance(t, Str):
            if len(t.parts) == 1 and isinstance(t.parts[0], Term):
                return self.text(t.parts[0])
            return 'join(' + ', '.join(repr(x) if isinstance(x, str) else self.part(x) for x in t.parts) + ')'
        if isinstance(t, Elem):
            return self.nf(t.base) + '#*'
        if isinstance(t, Item):
            if isinstance(t.key, App) and t.key.fn == 'slice' and [getattr(x, 'v', 0) for x in t.key.args[:2]] == [1, -1]:
                return f'inner({self.plain(t.base)})'
            if isinstance(t.key, App) and t.key.fn == 'slice':
                return f'{self.nf(t.base)}[{":".join(self.nf(x) for x in t.key.args[:2])}]'
            return f'{self.nf(t.base)}[{self.nf(t.key)}]'
        if isinstance(t, Attr):
            return f'{self.nf(t.base)}.{t.name}'
        if isinstance(t, Seq):
            return '[' + ', '.join(self.seq(t.items)) + ']'
        if isinstance(t, ClsV):
            return t.cls.name
        if isinstance(t, Phi):
            return f'({self.nf(t.cond)} ? {self.nf(t.a)} : {self.nf(t.b)})'
        if isinstance(t, MCall):
            if t.recv == Sym('self') and t.name == 'visit' and len(t.args) == 1:
                return f'v({self.nf(t.args[0])})'
            if t.name == 'getText' and not t.args:
                return self.text(t.recv)
            return f'{self.nf(t.recv)}.{t.name}({self.signed(t.name, t.args, t.kw)})'
        if isinstance(t, App):
            if t.fn.startswith('new:'):
                cls = t.fn[4:]
                names = self.ctor(cls)
                kw = list(t.kw)
                args = list(t.args)
                if names and not any(isinstance(x, (Splice, Rep, Opt)) for x in args):
                    kw = [(names[i], x) for i, x in enumerate(args) if i < len(names)] + kw
                    args = args[len(names):]
                    order = {n: i for i, n in enumerate(names)}
                    kw.sort(key=lambda x: order.get(x[0], 99))
                    kw = [(k, v) for k, v in kw if k in order] or kw
                return f'{cls}({self.args(args, kw)})'
            if t.fn == 'call' and len(t.args) == 2 and t.args[0] == Attr(Sym('self'), 'visit'):
                return f'v({self.nf(t.args[1])})'
            if t.args and isinstance(t.args[0], ClsV):
                return f'{t.args[0].cls.name}.{t.fn}({self.args(t.args[1:], t.kw)})'
            return f'{t.fn}({self.signed(t.fn, t.args, t.kw)})'
        return repr(t)

    def signature(self, fn):
        """parameter names of the one function of the project with this name (without self), or None"""
        if not hasattr(self, 'sigs'):
            self.sigs = {}
            if self.p is not None:
                for m in self.p.modules.values():
                    for n in ast.walk(m.tree):
                        if isinstance(n, ast.FunctionDef):
                            a = [x.arg for x in n.args.posonlyargs + n.args.args]
                            if n.args.vararg or n.args.kwarg:
                                a = None
                            elif a and a[0] in ('self', 'cls'):
                                a = a[1:]
                            self.sigs.setdefault(n.name, []).append(a)
        s = self.sigs.get(fn)
        return s[0] if s and s[0] is not None and all(x == s[0] for x in s) else None

    def signed(self, fn, args, kw):
        """arguments in the order of the signature, as far as it is known"""
        names = self.signature(fn.split('.')[-1])
        if not names:
            return self.args(args, kw)
        args, kw = list(args), list(kw)
        if args and isinstance(args[-1], Splice) and not any(isinstance(x, (Splice, Rep, Opt)) for x in args[:-1]) and not kw:
            args = args[:-1] + [Item(args[-1].base, K(i)) for i in range(len(names) - len(args) + 1)]
        if any(isinstance(x, (Splice, Rep, Opt)) for x in args):
            return self.args(args, kw)
        d = dict(kw)
        while len(args) < len(names) and names[len(args)] in d:
            args.append(d.pop(names[len(args)]))
        return self.args(args, [(k, v) for k, v in kw if k in d])

    def args(self, args, kw):
        return ', '.join(self.seq(args) + [f'{k}={self.nf(v)}' for k, v in kw])

    def plain(self, t):
        """a token inside a call that makes text of it anyway"""
        if isinstance(t, Str) and len(t.parts) == 1 and isinstance(t.parts[0], Term):
            return self.nf(t.parts[0])
        if isinstance(t, MCall) and t.name == 'getText' and not t.args:
            return self.nf(t.recv)
        return self.nf(t)

    def part(self, x):
        if isinstance(x, (Rep, Opt, Splice)):
            return self.seq((x,))[0]
        return self.nf(x)

    def text(self, x):
        if isinstance(x, (Rep, Opt, Splice)):
            return 'join(' + self.part(x) + ')'
        s = self.nf(x)
        return f'text({s})' if accessor(x) is not None else s
