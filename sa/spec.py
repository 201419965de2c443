"""Facts about one function: what it returns, sets and does for arguments of a given shape, as normal forms.

`World` decides the conditions of a function from the types of its arguments; `Method` interprets the function once and is
asked for normal forms in such a world; `pieces` says what a sequence is put together from, however that is written."""
from __future__ import annotations
from .absint import (Interp, State, K, Term, App, MCall, Attr, Elem, Item, Const, Str, Phi, Seq, Rep, Opt, Splice, Sym, ClsV,
                     HList, HObj, Ref, walk, LoopOut)
from .norm import Scene, Fold, Norm, rebuild
from .project import AnalysisBroken


# the same with sides exchanged, and the opposite
SIZE = dict(lt=('gt', 'ge'), gt=('lt', 'le'), le=('ge', 'gt'), ge=('le', 'lt'))


# classes whose objects are always true
PLAIN = {'Instr', 'Instance', 'Comp', 'ComponentParameter', 'InstrumentParameter', 'Token', 'object'}


class World(Scene):
    """types: normal form of a term -> name of its class, several of them, or 'None'; flags: normal form -> bool"""
    keep_pick = False

    def __init__(self, types=None, flags=None, default=None, given=None):
        super().__init__(flags=flags or {'': False}, default=None)
        self.types = {k: {v} if isinstance(v, str) else set(v) for k, v in (types or {}).items()}
        self.other = default

    def flag(self, x):
        if x is not None and x not in self.flags and x.startswith('not('):
            v = self.flags.get(x[4:-1])
            return None if v is None else not v
        return self.flags.get(x)

    def type_of(self, x, norm):
        if isinstance(x, Seq):
            return {x.kind}
        if isinstance(x, Str):
            return {'str'}
        if isinstance(x, Const):
            return {'None' if x.v is None else x.t}
        if isinstance(x, App) and x.fn.startswith('new:'):
            return {x.fn[4:]}
        if isinstance(x, App) and x.fn == 'pick' and isinstance(x.args[0], Elem):
            return {'object'}
        return self.types.get(norm(x))

    def decide(self, c, norm):
        if isinstance(c, App):
            if c.fn in ('and', 'or', 'not'):
                return super().decide(c, norm)
            if c.fn == 'isinstance':
                t = self.type_of(c.args[0], norm)
                ts = c.args[1].items if isinstance(c.args[1], Seq) else c.args[1:]
                if t is not None:
                    names = {repr(x).replace('<class ', '').replace('>', '').split('.')[-1] for x in ts}
                    return bool(names & t)
            if c.fn in ('is', 'isnot', 'eq', 'ne') and len(c.args) == 2 and K(None) in c.args:
                x = c.args[0] if c.args[1] == K(None) else c.args[1]
                t = self.type_of(x, norm)
                if t is not None:
                    return (t == {'None'}) == (c.fn in ('is', 'eq'))
            if c.fn == 'hasattr' and len(c.args) == 2 and isinstance(c.args[1], (Const, Str)):
                t = self.type_of(c.args[0], norm)
                if t is not None and norm(c.args[1]) in ("'__len__'", "'__iter__'", "'__getitem__'"):
                    return bool(t & {'list', 'tuple', 'str', 'dict', 'set'})
            if c.fn in ('in', 'notin') and len(c.args) == 2:
                x, of = c.args
                if isinstance(of, App) and of.fn in ('list', 'tuple') and len(of.args) == 1:
                    of = of.args[0]
                if isinstance(of, Seq) and not of.items:
                    return c.fn == 'notin'
                if isinstance(of, Seq) and len(of.items) == 1 and isinstance(of.items[0], Splice):
                    return self.decide(App(c.fn, (x, of.items[0].base)), norm)
                if self.flags:
                    for fn in ('in', 'notin'):
                        v = self.flags.get(f'{fn}({norm(x)}, {norm(of)})')
                        if v is not None:
                            return v == (c.fn == fn)
            if c.fn in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') and len(c.args) == 2:
                a, b = (number(x) for x in c.args)
                if a is not None and b is not None:
                    return dict(eq=a == b, ne=a != b, lt=a < b, le=a <= b, gt=a > b, ge=a >= b)[c.fn]
                a, b = (word(x) for x in c.args)
                if a is not None and b is not None and c.fn in ('eq', 'ne'):
                    return (a == b) == (c.fn == 'eq')
                if c.fn in ('eq', 'ne') and self.flags:
                    for x, y in (c.args, c.args[::-1]):
                        for fn in ('eq', 'ne'):
                            v = self.flags.get(f'{fn}({norm(x)}, {norm(y)})')
                            if v is not None:
                                return v == (c.fn == fn)
                if c.fn in SIZE and self.flags:
                    a, b = (norm(x) for x in c.args)
                    for fn, x, y, same in ((c.fn, a, b, True), (SIZE[c.fn][0], b, a, True), (SIZE[c.fn][1], a, b, False),
                                           (SIZE[SIZE[c.fn][0]][1], b, a, False)):
                        v = self.flags.get(f'{fn}({x}, {y})')
                        if v is not None:
                            return v == same
        if isinstance(c, App) and c.fn == 'nonempty' and c.args[0] in (Seq('list', ()), Seq('tuple', ())):
            return False
        if isinstance(c, App) and c.fn == 'any' and len(c.args) == 1 and isinstance(c.args[0], Seq) and \
                all(i == K(False) or isinstance(i, Rep) and i.items == (K(False),) for i in c.args[0].items):
            return False
        if self.flags and isinstance(c, (App, Seq, Phi)):
            x = exists(c, norm)
            v = self.flag(x)
            if v is not None and (not v or not free(c)):
                return v
        if isinstance(c, Seq) and not any(isinstance(i, (Rep, Opt, Splice)) for i in c.items):
            return bool(c.items)
        if isinstance(c, App) and c.fn.startswith('new:'):
            return True
        if isinstance(c, Const):
            return bool(c.v)
        t = self.type_of(c, norm)
        if t == {'None'}:
            return False
        if t and t <= PLAIN:
            return True
        r = super().decide(c, norm)
        return self.other if r is None and not isinstance(c, App) else r


def test(c, norm):
    """canonical text of a condition: the sides of == in alphabetical order, != as its negation"""
    neg = False
    while isinstance(c, App) and (c.fn == 'not' or c.fn == 'and' and len(c.args) == 1):
        neg, c = neg != (c.fn == 'not'), c.args[0]
    x = exists(c, norm) if isinstance(c, App) and not free(c) else None
    if x is not None:
        return (x[4:-1] if x.startswith('not(') else f'not({x})') if neg else x
    if isinstance(c, App) and c.fn in ('eq', 'ne', 'is', 'isnot', 'in', 'notin') and len(c.args) == 2:
        a, b = norm(c.args[0]), norm(c.args[1])
        if c.fn in ('eq', 'ne') and b < a:
            a, b = b, a
        neg = neg != (c.fn in ('ne', 'isnot', 'notin'))
        t = f'{dict(ne="eq", isnot="is", notin="in").get(c.fn, c.fn)}({a}, {b})'
    else:
        t = exists(c, norm) or norm(c)
    return f'not({t})' if neg else t


def exists(c, norm):
    """`has(X: cond)` for a term that says whether the sequence X has an element with this condition, or None"""
    if isinstance(c, App) and c.fn in ('any', 'bool', 'len', 'nonempty') and len(c.args) == 1:
        return exists(c.args[0], norm)
    if isinstance(c, App) and c.fn in ('list', 'tuple', 'set') and len(c.args) == 1:
        return exists(c.args[0], norm)
    if isinstance(c, App) and c.fn == 'in' and isinstance(c.args[1], Seq) and len(c.args[1].items) == 1:
        r = c.args[1].items[0]
        if isinstance(r, Rep) and len(r.items) == 1 and not isinstance(r.items[0], (Rep, Opt, Splice)):
            return f'has({norm(r.base)}: {test(App("eq", (c.args[0], r.items[0])), norm)})'
    if isinstance(c, App) and c.fn in ('is', 'isnot') and len(c.args) == 2 and c.args[1] == K(None):
        a = lookup(c.args[0], norm)
        if len(a) == 2 and a[1] == 'None' and ': ' in a[0] and ' -> ' not in a[0]:
            return f'has({a[0]})' if c.fn == 'isnot' else f'not(has({a[0]}))'
    if isinstance(c, App) and c.fn == 'not':
        a = exists(c.args[0], norm)
        return None if a is None else a[4:-1] if a.startswith('not(') else f'not({a})'
    if isinstance(c, App) and c.fn in ('ne', 'gt', 'lt', 'ge', 'le') and len(c.args) == 2:
        a, b = c.args if c.fn in ('ne', 'gt', 'ge') or isinstance(c.args[1], App) else c.args
        if isinstance(a, App) and a.fn == 'len' and (c.fn in ('ne', 'gt') and b == K(0) or c.fn == 'ge' and b == K(1)):
            return exists(a.args[0], norm)
        if isinstance(b, App) and b.fn == 'len' and (c.fn in ('ne', 'lt') and a == K(0) or c.fn == 'le' and a == K(1)):
            return exists(b.args[0], norm)
    if isinstance(c, Seq) and len(c.items) == 1 and isinstance(c.items[0], Rep) and len(c.items[0].items) == 1:
        r, x = c.items[0], c.items[0].items[0]
        if isinstance(x, Opt) and not x.b and len(x.a) == 1 or isinstance(x, Opt) and not x.a and len(x.b) == 1:
            return f'has({norm(r.base)}: {test(x.cond if x.a else App("not", (x.cond,)), norm)})'
        if isinstance(x, App) and x.fn in ('eq', 'ne', 'in', 'notin', 'not'):
            return f'has({norm(r.base)}: {test(x, norm)})'
    if isinstance(c, Phi) and c.a == K(True) and c.b == K(False):
        return exists(c.cond, norm)
    if isinstance(c, Phi) and c.a == K(True) and exists(c.cond, norm) and exists(c.cond, norm) == exists(c.b, norm):
        return exists(c.b, norm)
    if isinstance(c, App) and c.fn == 'eq' and len(free(c)) == 1:
        return f'has({norm(next(iter(free(c))).base)}: {test(c, norm)})'
    if isinstance(c, App) and c.fn == 'and':
        es = {exists(a, norm) for a in c.args}
        return es.pop() if len(es) == 1 else None
    return None


def free(t, bound=frozenset()):
    """the loop elements of t that are not of a loop inside t"""
    out = set()
    if isinstance(t, Elem):
        if t.lid not in bound:
            out.add(t)
        return out | free(t.base, bound)
    if isinstance(t, Rep):
        bound = bound | {t.lid}
    if isinstance(t, App) and t.fn == 'pick' and len(t.args) >= 5 and isinstance(t.args[4], Const):
        bound = bound | {t.args[4].v}
    if isinstance(t, (Sym, Const)) or not isinstance(t, Term):
        return out
    import dataclasses
    for f in dataclasses.fields(t):
        v = getattr(t, f.name)
        for x in (v if isinstance(v, tuple) else (v,)):
            for y in (x if isinstance(x, tuple) else (x,)):
                out |= free(y, bound)
    return out


def close(t, bound=frozenset()):
    """a condition on the element of a loop that is over is on some element, unless that element is what is chosen"""
    if isinstance(t, Rep):
        return Rep(t.lid, close(t.base, bound), tuple(close(i, bound | {t.lid}) for i in t.items))
    if isinstance(t, Phi):
        a, b = close(t.a, bound), close(t.b, bound)
        e = {x for x in free(t.cond) if x.lid not in bound}
        return Phi(some(t.cond) if len(e) == 1 and not (free(a) | free(b)) & e else t.cond, a, b)
    if isinstance(t, (LoopOut, Elem, Sym, Const)) or isinstance(t, App) and t.fn == 'pick' or not isinstance(t, Term):
        return t
    return rebuild(t, lambda x: close(x, bound))


def some(c):
    if isinstance(c, App) and c.fn == 'not':
        return App('not', (some(c.args[0]),))
    e = next(iter(free(c)))
    return App('any', (Seq('list', (Rep(e.lid, e.base, (c,)),)),))


def lookup(t, norm, tried=frozenset()):
    """alternatives of a value in order: 'X: cond' (the first element of X with this condition) or the text of the value"""
    if isinstance(t, Phi) and isinstance(t.cond, App) and t.cond.fn == 'and' and tried:
        left = tuple(c for c in t.cond.args if test(c, norm) not in tried)
        if 0 < len(left) < len(t.cond.args):
            t = Phi(left[0] if len(left) == 1 else App('and', left), t.a, t.b)
    if isinstance(t, Phi):
        e = free(t.a)
        if e:
            conds = t.cond.args if isinstance(t.cond, App) and t.cond.fn == 'and' else (t.cond,)
            others = {test(c, norm) for c in conds if not free(c)}
            conds = list({test(c, norm): c for c in conds if free(c)}.values())
            b = norm(next(iter(e)).base)
            if len(e) == 1 and len(conds) == 1 and others <= tried | {f'has({b}: {test(conds[0], norm)})'}:
                own = norm(next(iter(e)))
                return [f'{b}: {test(conds[0], norm)}' + ('' if norm(t.a) == own else f' -> {norm(t.a)}')] + lookup(t.b, norm, tried)
        x = exists(t.cond, norm)
        a = lookup(t.a, norm)
        if x is not None and a[0] == x[4:-1] and (len(a) == 1 or a[1:] == ['None']):
            return a[:1] + lookup(t.b, norm, tried | {f'not({x})'})
        if isinstance(t.cond, App) and t.cond.fn == 'not':
            return lookup(Phi(t.cond.args[0], t.b, t.a), norm)
        return [norm(t)]
    if isinstance(t, App) and t.fn == 'pick':
        e, i, cond, base, lid = t.args[:5]
        if i == K(0):
            return [f'{norm(base)}: {test(cond, norm)}' + ('' if isinstance(e, Elem) else f' -> {norm(e)}')]
    if isinstance(t, (App, MCall)) and (t.fn if isinstance(t, App) else t.name) == 'next' and isinstance(t.args[0], Seq):
        x = exists(t.args[0], norm)
        if x is not None:
            return [x[4:-1]] + (lookup(t.args[1], norm) if len(t.args) > 1 else [])
    return [norm(t)]


def number(x):
    if isinstance(x, Const) and isinstance(x.v, (int, float)) and not isinstance(x.v, bool):
        return x.v
    if isinstance(x, App) and x.fn == 'len' and isinstance(x.args[0], Seq) and \
            not any(isinstance(i, (Rep, Opt, Splice)) for i in x.args[0].items):
        return len(x.args[0].items)
    if isinstance(x, App) and x.fn == 'len' and isinstance(x.args[0], Const) and isinstance(x.args[0].v, str):
        return len(x.args[0].v)
    return None


def word(x):
    if isinstance(x, Const) and isinstance(x.v, str):
        return x.v
    if isinstance(x, Str) and all(isinstance(i, str) for i in x.parts):
        return ''.join(x.parts)
    if isinstance(x, MCall) and x.name in ('lower', 'upper', 'strip') and not x.args:
        w = word(x.recv)
        return None if w is None else getattr(w, x.name)()
    return None


class Method:
    def __init__(self, p, func, args=(), kwargs=None, cls=None, opaque=(), opaque_fn=(), identity=(), self_=None, preset=None):
        self.p, self.f = p, func
        I = self.I = Interp(p)
        I.opaque |= set(opaque)
        I.opaque_fn |= set(opaque_fn)
        I.identity = set(identity)
        st = self.st = State()

        def term(a):
            return I.sym(a) if isinstance(a, str) else a
        args = [term(a) for a in args]
        self.me = None
        if func.is_classmethod:
            args = [ClsV(cls or func.cls)] + args
        elif func.cls is not None and not func.is_static:
            self.me = I.sym('self', cls or func.cls)
            args = [self.me] + args
        if preset:
            preset(self)
        self.raw = I.call_func(func, args, {k: term(v) for k, v in (kwargs or {}).items()}, st)
        self.norm = Norm(p)

    def freeze(self, t):
        return close(self.I.freeze(t, self.st)) if isinstance(t, Term) else t

    def fold(self, t, world):
        return Fold(world, self.norm)(self.freeze(t))

    def show(self, t, world):
        return self.norm(self.fold(t, world)) if isinstance(t, Term) else repr(t)

    def result(self, world):
        return self.show(self.raw, world)

    def field(self, path, of=None):
        t = self.me if of is None else of
        for x in path.split('.'):
            t = self.I.attr(t, x, self.st)
        return t

    def when(self, e, world):
        """does this event happen: True, False or None"""
        ds = []
        for c, pol in e.pc:
            c = self.fold(c, world)
            if isinstance(c, App) and c.fn == 'in_loop':
                continue
            d = world.decide(c, self.norm)
            if d is None and world.flags and (pol or not e.loops):
                # of some element of the loop, after it or in it
                d = world.flag(exists(c, self.norm))
            ds.append(d if pol or d is None else not d)
        return False if False in ds else None if None in ds else True

    def raises(self, world):
        """True: it always fails, None: perhaps, False: never"""
        rs = [self.when(e, world) for e in self.I.events if e.kind == 'raise']
        return True if True in rs else None if None in rs else False

    def done(self, world, names):
        """[(certain, text, event)] of calls of these names, in order"""
        out = []
        for e in self.I.events:
            if e.kind == 'mcall':
                recv, name, args, kw = (list(e.data) + [None] * 4)[:4]
            elif e.kind == 'call':
                recv, args, kw = None, e.data[1] if len(e.data) > 1 else None, e.data[2] if len(e.data) > 2 else None
                name = e.data[0] if isinstance(e.data[0], str) else self.norm(self.freeze(e.data[0]))
                name = name.strip('<>').split(':')[-1]
            else:
                continue
            short = name.split('.')[-1]
            if short not in names:
                continue
            w = self.when(e, world)
            if w is False:
                continue
            a = [self.fold(x, world) for x in args.items] if args is not None else []
            k = [(n, self.fold(v, world)) for n, v in pairs(kw)] if kw is not None else []
            r = self.show(recv, world) + '.' if isinstance(recv, Term) else ''
            text = f'{r}{short}({self.norm.signed(short, a, k)})'
            for lp in reversed(e.loops):
                b = lp[1] if isinstance(lp, tuple) else getattr(lp, 'base', lp)
                text = f'each({self.show(b, world) if isinstance(b, Term) else b}: {text})'
            out.append((w is True, text, e))
        return out

    def lookup(self, world):
        """`lookup` of what is returned, with the condition of its return when all else is an error"""
        t = self.fold(self.raw, world)
        if isinstance(t, Elem):
            for e in self.I.events:
                if e.kind == 'return' and e.func is self.f and self.fold(e.data[0], world) == t:
                    conds = [c if pol else App('not', (c,)) for c, pol in ((self.fold(c, world), pol) for c, pol in e.pc)]
                    conds = [c for c in conds if not (isinstance(c, App) and c.fn == 'in_loop') and (free(c) or world.decide(c, self.norm) is not True)]
                    if len(conds) == 1 and free(conds[0]):
                        return [f'{self.norm(t.base)}: {test(conds[0], self.norm)}']
        out = lookup(t, self.norm)
        if len(out) == 2 and out[1] == 'None':
            # what is not there may be an error
            w = world.__class__(world.types, {**world.flags, f'has({out[0]})': False})
            if self.raises(w) is True:
                return out[:1]
        return out

    def pieces(self, t, world):
        return pieces(self.fold(t, world), self.norm, world)


def pairs(kw):
    for x in kw.items if isinstance(kw, Seq) else kw:
        if isinstance(x, Seq):
            yield (x.items[0].v if isinstance(x.items[0], Const) else repr(x.items[0])), x.items[1]
        else:
            yield x


def pieces(t, norm, world=None, once=False):
    """[(sequence, element, conditions, once)]: what a sequence is made of, in order.  A single item has sequence ''."""
    if isinstance(t, Seq):
        out = []
        for i in t.items:
            out += item(i, norm, world, once, '', frozenset())
        return out
    if isinstance(t, Phi):
        a, b = pieces(t.a, norm, world, once), pieces(t.b, norm, world, once)
        if a[:len(b)] == b:
            return b + [(s, e, c | {norm(t.cond)}, o) for s, e, c, o in a[len(b):]]
        if b[:len(a)] == a:
            return a + [(s, e, c | {f'not({norm(t.cond)})'}, o) for s, e, c, o in b[len(a):]]
        return [('?', norm(t), frozenset(), once)]
    if isinstance(t, LoopOut):
        first = pieces(t.init, norm, world, once)
        more = carried(t.step, t.init, Rep(t.lid, t.base, ()), norm, world, once, frozenset())
        return [('?', norm(t), frozenset(), once)] if more is None else first + more
    if isinstance(t, App) and t.fn == 'add':
        return [x for a in t.args for x in pieces(a, norm, world, once)]
    if isinstance(t, App) and t.fn in ('list', 'tuple', 'iter') and len(t.args) == 1:
        return pieces(t.args[0], norm, world, once)
    if isinstance(t, (App, MCall)) and (t.fn if isinstance(t, App) else t.name).split('.')[-1] in ('fromkeys', 'keys', 'dict'):
        src = list(t.args) + ([t.recv] if isinstance(t, MCall) and t.name == 'keys' else [])
        src = [x for x in src if not isinstance(x, ClsV)]
        if len(src) == 1:
            return pieces(src[0], norm, world, True)
    if isinstance(t, Const) and t.v is None:
        return []
    return [(norm(t), '*', frozenset(), once)]


def carried(t, init, rep, norm, world, once, conds):
    """what one round of a loop adds after `init`, or None if that is not all it does"""
    if t == init:
        return []
    if isinstance(t, Phi):
        a = carried(t.a, init, rep, norm, world, once, conds | {norm(t.cond)})
        b = carried(t.b, init, rep, norm, world, once, conds | {f'not({norm(t.cond)})'})
        return None if a is None or b is None else a + b
    if isinstance(t, Seq) and t.items and t.items[0] == Splice(init):
        return [x for i in t.items[1:] for x in item(i, norm, world, once, rep, conds)]
    return None


def item(i, norm, world, once, base, conds):
    if isinstance(i, Splice):
        return [(s, e, c | conds, o) for s, e, c, o in pieces(i.base, norm, world, once)]
    if isinstance(i, Rep):
        if base:
            return [('?', norm(Seq('list', (i,))), conds, once)]
        out = []
        for x in i.items:
            out += item(x, norm, world, once, i, conds)
        return out
    if isinstance(i, Opt):
        out = []
        for x in i.a:
            out += item(x, norm, world, once, base, conds | {norm(i.cond)})
        for x in i.b:
            out += item(x, norm, world, once, base, conds | {f'not({norm(i.cond)})'})
        return out
    if isinstance(base, Rep):
        own = Elem(base.base, base.lid)
        inner = pieces(base.base, norm, world, once) if isinstance(base.base, (Seq, App)) else None
        b = norm(base.base)
        if i == own:
            if inner is not None and len(inner) == 1 and inner[0][1] == '*':
                return [(inner[0][0], '*', inner[0][2] | conds, inner[0][3])]
            return [(b, '*', conds, once)]
        return [(b, norm(i) if isinstance(i, Term) else repr(i), conds, once)]
    return [('', norm(i) if isinstance(i, Term) else repr(i), conds, once)]
