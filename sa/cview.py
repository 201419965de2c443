"""A positional view of the generated C template: every token with its bracket depth, enclosing C function, and whether
it is part of a preprocessor line; plus the macro definitions in force at each token."""
from __future__ import annotations
from .absint import (Term, App, MCall, Attr, Elem, Index, Item, Const, K, Str, Phi, Seq, Rep, Opt, Splice, Sym, walk,
                     path_of, paths, neg, strip_iter, DEDUP, conj)
from .ctok import Tok, RepT, OptT, show_parts, short
from .ctmpl import canon

OPEN, CLOSE = '([{', ')]}'


class At:
    __slots__ = ('tok', 'depth', 'func', 'directive', 'i')

    def __init__(self, tok, depth, directive, i):
        self.tok, self.depth, self.directive, self.i = tok, depth, directive, i
        self.func = None

    @property
    def kind(self):
        return self.tok.kind

    @property
    def text(self):
        return self.tok.text

    def __repr__(self):
        return f'{show_parts(self.tok.parts)}@{self.depth}'


class View:
    def __init__(self, g):
        self.g = g
        self.at = []
        self._dir = False
        self._walk(g.toks, 0)
        self._functions()
        self._macros()

    def _walk(self, toks, depth):
        for t in toks:
            if isinstance(t, RepT):
                depth = self._walk(t.toks, depth)
            elif isinstance(t, OptT):
                save = self._dir
                da = self._walk(t.a, depth)
                dir_a = self._dir
                self._dir = save
                db = self._walk(t.b, depth)
                self._dir = dir_a or self._dir
                depth = da if da != depth else db
            else:
                if t.kind == 'dir':
                    self._dir = True
                if t.kind == 'punct' and t.parts[0] in CLOSE and not self._dir:
                    depth -= 1
                self.at.append(At(t, depth, self._dir, len(self.at)))
                if t.kind == 'punct' and t.parts[0] in OPEN and not self._dir:
                    depth += 1
                if t.kind == 'enddir':
                    self._dir = False
        return depth

    def code(self):
        return [a for a in self.at if not a.directive and a.kind != 'comhole']

    def _functions(self):
        """definitions `name ( ... ) {` at file level"""
        self.functions = []
        code = self.code()
        n = len(code)
        i = 0
        cur = None
        end_depth = None
        while i < n:
            a = code[i]
            if cur is not None:
                a.func = cur
                if a.kind == 'punct' and a.text == '}' and a.depth == end_depth:
                    cur['end'] = a.i
                    cur = None
                i += 1
                continue
            if a.kind == 'ident' and i + 1 < n and code[i + 1].kind == 'punct' and code[i + 1].text == '(':
                j = i + 1
                d = code[j].depth
                while j < n and not (code[j].kind == 'punct' and code[j].text == ')' and code[j].depth == d):
                    j += 1
                if j + 1 < n and code[j + 1].kind == 'punct' and code[j + 1].text == '{':
                    cur = dict(name=canon(show_parts(a.tok.parts)), at=a, start=code[j + 1].i, end=None,
                               args=code[i + 2:j], before=code[max(0, i - 3):i])
                    self.functions.append(cur)
                    end_depth = code[j + 1].depth
                    for k in range(i, j + 2):
                        code[k].func = cur
                    i = j + 2
                    continue
            i += 1
        # directive and comment tokens belong to the function around them
        spans = [(f['start'], f['end'] if f['end'] is not None else len(self.at), f) for f in self.functions]
        for a in self.at:
            if a.func is None:
                for s, e, f in spans:
                    if s <= a.i <= e:
                        a.func = f
                        break

    def _macros(self):
        """#define/#undef events in order, each (kind, name tokens, body tokens, At)"""
        self.macros = []
        i = 0
        n = len(self.at)
        cpp = []
        self.cpp_at = []        # (token position, conditions from there on)
        while i < n:
            if self.at[i].kind == 'dir':
                j = i + 1
                while j < n and self.at[j].kind != 'enddir' and self.at[j].kind != 'dir':
                    j += 1
                words = self.at[i + 1:j]
                d = words[0].text if words else ''
                txt = ' '.join(show_parts(x.tok.parts) for x in words[1:])
                if d in ('ifdef', 'ifndef', 'if'):
                    cpp.append((d, txt))
                elif d in ('else', 'elif') and cpp:
                    cpp[-1] = (d, cpp[-1][0] + ' ' + cpp[-1][1] + (' ' + txt if txt else ''))
                elif d == 'endif' and cpp:
                    cpp.pop()
                self.cpp_at.append((j, tuple(cpp)))
                if words and words[0].text in ('define', 'undef') and len(words) > 1:
                    name = words[1]
                    self.macros.append(dict(kind=words[0].text, name=name.tok, at=name,
                                            key=canon(show_parts(name.tok.parts)), body=words[2:],
                                            cpp=tuple(cpp)))
                i = j
                continue
            i += 1


    def cpp(self, a):
        """preprocessor conditions in force at a token"""
        import bisect
        i = bisect.bisect_right([x for x, _ in self.cpp_at], a.i) - 1
        return self.cpp_at[i][1] if i >= 0 else ()


_views = {}


def views(p):
    from .ctmpl import programs
    k = id(p)
    if k not in _views:
        _views[k] = [View(g) for g in programs(p)]
    return _views[k]


# ------------------------------------------------------------------------------------------------ guards and loops
def loop_key(loops):
    """the collections a piece of text is repeated over, loop identities erased"""
    return tuple(canon(repr(strip_iter(unwrap(b)))) for _, b in loops)


def unwrap(b):
    while True:
        if isinstance(b, App) and b.fn in DEDUP + ('reversed', 'reversed_of', 'sorted', 'sorted_of', 'enumerated',
                                                   'unordered', 'list', 'tuple'):
            b = b.args[0]
            continue
        return b


def guard_key(guards):
    return frozenset((canon(c if pol else neg(c))) for c, pol in guards)


def guard_show(guards):
    return ' and '.join(short(c if pol else neg(c), 80) for c, pol in guards) or 'always'
