"""Queries over the generated-C view: what a hole may be, what a loop ranges over, which conditions are implied, and a
searchable rendering of the code tokens in which holes appear as «path»."""
from __future__ import annotations
import re
from .absint import (Term, App, MCall, Attr, Elem, Index, Item, Const, K, Str, Phi, Seq, Rep, Opt, Splice, Sym, LoopOut,
                     walk, path_of, paths, neg, DEDUP, conj, children)
from .ctmpl import canon
from .ctok import show_parts

THROUGH = set(DEDUP) | {'reversed', 'reversed_of', 'sorted', 'sorted_of', 'unordered', 'list', 'tuple', 'set',
                        'iter', 'enumerated', 'copy'}


def elements(base):
    """canonical paths of the things an iteration over `base` yields: (frozenset of paths, conditions met on the way)"""
    out = set()
    _elements(base, out, 0)
    return frozenset(out)


def _elements(base, out, depth):
    if depth > 40:
        out.add(canon(repr(base)))
        return
    if isinstance(base, App) and base.fn in THROUGH and base.args:
        _elements(base.args[0], out, depth + 1)
        return
    if isinstance(base, App) and base.fn == 'zipped':
        _elements(base.args[0], out, depth + 1)
        return
    if isinstance(base, Phi):
        _elements(base.a, out, depth + 1)
        _elements(base.b, out, depth + 1)
        return
    if isinstance(base, Seq):
        for i in base.items:
            _item(i, out, depth + 1)
        return
    if isinstance(base, Const) and isinstance(base.v, (str, tuple, list)):
        return
    for p in leafset(base, depth + 1):
        out.add(p + '[*]')


def _item(i, out, depth):
    if isinstance(i, Rep):
        for x in i.items:
            _item(x, out, depth + 1)
    elif isinstance(i, Opt):
        for x in i.a + i.b:
            _item(x, out, depth + 1)
    elif isinstance(i, Splice):
        _elements(i.base, out, depth + 1)
    else:
        out |= leafset(i, depth + 1)


def leafset(t, depth=0):
    """the canonical paths a term may denote"""
    if depth > 40:
        return frozenset({canon(repr(t))})
    d = depth + 1
    if isinstance(t, Phi):
        return leafset(t.a, d) | leafset(t.b, d)
    if isinstance(t, (Rep, Opt, Splice)):
        out = set()
        _item(t, out, d)
        return frozenset(out)
    if isinstance(t, Sym):
        return frozenset({t.name})
    if isinstance(t, Attr):
        return frozenset(x + '.' + t.name for x in leafset(t.base, d))
    if isinstance(t, Elem):
        return elements(t.base)
    if isinstance(t, Index):
        return frozenset('#' + x for x in elements(t.base))
    if isinstance(t, App) and t.fn == 'pick':
        return elements(t.args[0])
    if isinstance(t, App) and t.fn in THROUGH and t.args:
        return leafset(t.args[0], d)
    if isinstance(t, App) and t.fn == 'fmt':
        return leafset(t.args[0], d)
    if isinstance(t, App) and t.fn == 'enter':
        return leafset(t.args[0], d)
    if isinstance(t, App) and t.fn in ('values', 'keys') and len(t.args) == 1:
        return frozenset(f'{x}.{t.fn}()' for x in leafset(t.args[0], d))
    if isinstance(t, App) and t.fn == 'add' and len(t.args) == 2 and isinstance(t.args[1], Const):
        return frozenset(f'{x}+{t.args[1].v}' for x in leafset(t.args[0], d))
    if isinstance(t, App) and t.fn in ('max', 'min', 'len') and len(t.args) == 1:
        return frozenset(f'{t.fn}({x})' for x in leafset(t.args[0], d))
    if isinstance(t, Item):
        b = t.base
        if isinstance(t.key, Const):
            if isinstance(b, (Seq,)) or isinstance(b, App) and b.fn in THROUGH:
                return elements(b)
            return frozenset(f'{x}[{t.key.v!r}]' for x in leafset(b, d))
        if isinstance(t.key, App) and t.key.fn == 'slice':
            return frozenset(f'{x}[{",".join(canon(repr(a)) for a in t.key.args)}:]' for x in leafset(b, d))
        ks = '|'.join(sorted(leafset(t.key, d)))
        return frozenset(f'{x}[{ks}]' for x in leafset(b, d))
    if isinstance(t, Const):
        return frozenset({repr(t.v)})
    if isinstance(t, Str):
        if len(t.parts) == 1 and not isinstance(t.parts[0], str):
            return leafset(t.parts[0], d)
        return frozenset({canon('S[' + ''.join(x if isinstance(x, str) else '«' + '|'.join(sorted(leafset(x, d))) + '»'
                                               for x in t.parts) + ']')})
    return frozenset({canon(repr(t))})


def show_leaf(t):
    return '«' + '|'.join(sorted(leafset(t))) + '»'


_pk = {}


def parts_key(parts):
    """identity of a composed token: literal text and what its holes may be"""
    k = tuple(parts)
    r = _pk.get(k)
    if r is None:
        r = _pk[k] = ''.join(p if isinstance(p, str) else show_leaf(p) for p in parts)
    return r


def loop_key(loops):
    """what each enclosing repetition ranges over"""
    return tuple(elements(mapped(b)) for _, b in loops)


def mapped(base):
    """what a list in another order was made from, when it has one thing for each"""
    b = base
    while isinstance(b, App) and b.fn in ('reversed', 'reversed_of', 'sorted', 'sorted_of') and b.args:
        b = b.args[0]
    if b is not base and isinstance(b, Seq) and len(b.items) == 1 and isinstance(b.items[0], Rep) and len(b.items[0].items) == 1 \
            and not isinstance(b.items[0].items[0], (Rep, Opt, Splice)):
        return mapped(b.items[0].base)
    return base


# -------------------------------------------------------------------------------------------- searchable text
class Text:
    """code tokens joined by blanks, with the way back from an offset to the token"""

    def __init__(self, ats, strings=True):
        self.ats, self.off = [], []
        buf, n = [], 0
        for a in ats:
            k = parts_key(a.tok.parts)
            if a.kind == 'str':
                k = '"' + k + '"' if strings else '""'
            elif a.kind == 'chr':
                k = "'" + k + "'"
            self.off.append(n)
            self.ats.append(a)
            buf.append(k)
            n += len(k) + 1
        self.s = ' '.join(buf)

    def at(self, pos):
        import bisect
        return self.ats[bisect.bisect_right(self.off, pos) - 1]

    def find(self, pattern):
        for m in re.finditer(pattern, self.s):
            yield m, self.at(m.start())


def within(view, func):
    """code tokens of one C function body"""
    return [a for a in view.at if a.func is func and not a.directive and a.kind not in ('comhole', 'dir', 'enddir')]


def function(view, name):
    for f in view.functions:
        if parts_key(f['at'].tok.parts) == name:
            return f
    return None


def before(a):
    return a.tok


# ------------------------------------------------------------------------------------- conditions that must hold
EMPTY_CMP = {('gt', 0): True, ('ge', 1): True, ('ne', 0): True, ('eq', 0): False, ('lt', 1): False, ('le', 0): False}


def same_elem(a, b):
    return leafset(a) == leafset(b) and not isinstance(a, Const)


def holds(c, true_paths, same=('.type', '.type.name', '.name'), depth=0):
    """truth of a condition given that everything named in `true_paths` is present (non-empty, not None), and that
    two mentions of the same component or component type in nested loops mean the same one; None when not implied"""
    h = lambda x: holds(x, true_paths, same, depth + 1)
    if depth > 30:
        return None
    if isinstance(c, Const):
        return bool(c.v)
    ls = leafset(c)
    if ls and ls <= true_paths:
        return True
    if isinstance(c, App):
        if c.fn == 'not':
            r = h(c.args[0])
            return None if r is None else not r
        if c.fn in ('and', 'or'):
            rs = [h(a) for a in c.args]
            stop = c.fn == 'or'
            if stop in rs:
                return stop
            return (not stop) if None not in rs else None
        if c.fn in ('nonempty', 'bool', 'any', 'all') or c.fn in THROUGH:
            if c.fn == 'all':
                a = c.args[0]
                bodies = [x for i in getattr(a, 'items', ()) if isinstance(i, Rep) for x in i.items]
                rs = [h(x) for x in bodies if not isinstance(x, (Opt, Rep))]
                if rs and all(r is False for r in rs):
                    return False
                if rs and all(r is True for r in rs):
                    return True
                return None
            if c.fn == 'any':
                a = c.args[0]
                rs = []
                for i in getattr(a, 'items', ()):
                    if isinstance(i, Rep) and h(i.base) is True:
                        rs += [h(x.cond) if isinstance(x, Opt) else h(x) for x in i.items]
                return True if True in rs else None
            return h(c.args[0])
        if c.fn in ('is', 'eq', 'ne', 'isnot') and len(c.args) == 2:
            a, b = c.args
            if isinstance(b, Const) and b.v is None:
                l = leafset(a)
                if l <= true_paths:
                    return c.fn in ('ne', 'isnot')
                return None
            if same_elem(a, b) and any(x.endswith(s) for x in leafset(a) for s in same):
                return c.fn in ('is', 'eq')
        if (c.fn, getattr(c.args[-1], 'v', None) if c.args else None) in EMPTY_CMP and len(c.args) == 2:
            a = c.args[0]
            if isinstance(a, App) and a.fn == 'len' and about(a.args[0], true_paths):
                return EMPTY_CMP[(c.fn, c.args[1].v)]
    if isinstance(c, App) and c.fn == 'stored' and len(c.args) > 1:
        return h(c.args[-1])
    if isinstance(c, Phi):
        r = h(c.cond)
        if r is not None:
            return h(c.a if r else c.b)
        b = c.b
        if isinstance(b, Phi) and isinstance(b.cond, App) and b.cond.fn == 'and':      # reached when c.cond is false
            rest = [x for x in b.cond.args if x != App('not', (c.cond,))]
            b = Phi(App('and', tuple(rest)), b.a, b.b) if rest else b.a
        a, b = h(c.a), h(b)
        return a if a == b else None
    if isinstance(c, Item) and isinstance(c.key, Index) and isinstance(c.base, Seq):
        # an element of a list built by one pass over the same collection and then overwritten in places
        rs = [h(x) for i in c.base.items for x in rep_values(i)]
        if rs and all(r == rs[0] for r in rs):
            return rs[0]
        return None
    if isinstance(c, Seq):
        return nonempty(c.items, h)
    if isinstance(c, MCall) and c.name in ('strip', 'translate', 'replace', 'rstrip', 'lstrip'):
        ps = real_paths(c)
        if ps and ps <= true_paths | {q + '.source' for q in true_paths}:
            return True
    return None


def rep_values(i):
    if isinstance(i, Rep):
        for x in i.items:
            yield from rep_values(x)
    else:
        yield i


def real_paths(t):
    """canonical access paths a term depends on, builtins aside"""
    return {canon(x) for x in paths(t) if x.split('.')[0].split('[')[0] not in ('str', 'len', 're', 'textwrap', 'True',
                                                                                'False', 'None', 'isinstance', 'int')}


def about(t, true_paths):
    """is the term derived from one of these things alone"""
    l = leafset(t)
    if l and l <= true_paths:
        return True
    ps = real_paths(t)
    return bool(ps) and all(any(p == q or p.startswith(q + '[') or p.startswith(q + '.') for q in true_paths)
                            for p in map(canon, ps))


def nonempty(items, h):
    rs = []
    for i in items:
        if isinstance(i, Opt):
            r = h(i.cond)
            if r is True:
                rs.append(nonempty(i.a, h))
            elif r is False:
                rs.append(nonempty(i.b, h))
            else:
                rs.append(None)
        elif isinstance(i, Rep):
            rs.append(nonempty(i.items, h) if h(i.base) is True else None)
        elif isinstance(i, Splice):
            rs.append(h(i.base))
        else:
            rs.append(True)
    if True in rs:
        return True
    return False if not rs else None


def base_filter(base, out=None):
    """conditions under which elements are left out of an iteration"""
    out = [] if out is None else out
    if isinstance(base, App) and base.fn in THROUGH and base.args:
        base_filter(base.args[0], out)
    elif isinstance(base, Seq):
        _filters(base.items, out)
    elif isinstance(base, Phi):
        out.append((base.cond, True))
        base_filter(base.a, out)
        base_filter(base.b, out)
    return out


def _filters(items, out):
    for i in items:
        if isinstance(i, Opt):
            if i.a:
                out.append((i.cond, True))
            else:
                out.append((i.cond, False))
            _filters(i.a, out)
            _filters(i.b, out)
        elif isinstance(i, Rep):
            base_filter(i.base, out)
            _filters(i.items, out)
        elif isinstance(i, Splice):
            base_filter(i.base, out)


def unconditional(a, true_paths, ignore=()):
    """guards and filters over this token that do not follow from the presence of `true_paths`"""
    out = []
    for c, pol in list(a.tok.guards) + [f for _, b in a.tok.loops for f in base_filter(b)]:
        if isinstance(c, App) and c.fn == 'in_loop':
            continue
        r = holds(c, true_paths)
        if r is not pol:
            out.append((c, pol))
    return out


def select(ats, facts):
    """the tokens that can be present together when the named conditions are as given ({canonical path: bool})"""
    true = {k for k, v in facts.items() if v}
    false = {k for k, v in facts.items() if not v}
    out = []
    for a in ats:
        keep = True
        for c, pol in a.tok.guards:
            v = truth(c, true, false)
            if v is not None and v is not pol:
                keep = False
                break
        if keep:
            out.append(a)
    return out


def truth(c, true, false):
    ls = leafset(c)
    if ls and ls <= true:
        return True
    if ls and ls <= false:
        return False
    if isinstance(c, Const):
        return bool(c.v)
    if isinstance(c, App):
        if c.fn == 'not':
            r = truth(c.args[0], true, false)
            return None if r is None else not r
        if c.fn in ('and', 'or'):
            rs = [truth(a, true, false) for a in c.args]
            stop = c.fn == 'or'
            if stop in rs:
                return stop
            return (not stop) if None not in rs else None
        if c.fn in ('is', 'isnot', 'eq', 'ne') and len(c.args) == 2 and isinstance(c.args[1], Const) \
                and c.args[1].v is None:
            l = leafset(c.args[0])
            if l <= true:
                return c.fn in ('ne', 'isnot')
            if l <= false:
                return c.fn in ('is', 'eq')
        if c.fn in ('eq', 'ne') and len(c.args) == 2:
            k = '=='.join(sorted(x for y in c.args for x in leafset(y)))
            if k in true:
                return c.fn == 'eq'
            if k in false:
                return c.fn != 'eq'
    return None
