"""Text that the code writes, read again by a grammar of the repository: a template (text with holes for the values it is made
from) is cut into tokens, the tokens are matched with a rule of the grammar, and each hole has the rules it was read under."""
from __future__ import annotations
import re
import time
from pathlib import PurePath, PurePosixPath
from .absint import Str, Rep, Opt, Splice, App, Elem, Const, Phi, Attr, Sym, Seq, MCall, Item, Carried, LoopOut, Index, ClsV, Clo, Lam, ModV, strip_iter, walk
from .grammar import tokens as gtokens
from .project import AnalysisBroken


class Grammar:
    """parser rules as trees: ('seq', …) ('alt', …) ('opt', x) ('many', x) ('some', x) ('rule', name) ('tok', name)"""

    def __init__(self, directory, name, special=()):
        self.rules, self.spell, self.kind = {}, {}, {}
        todo, seen = [name], set()
        while todo:
            n = todo.pop(0)
            if n in seen:
                continue
            seen.add(n)
            path = directory / (n + '.g4')
            if not path.is_file():
                raise AnalysisBroken(f'grammar {path} not found')
            todo += self.load(gtokens(path.read_text(encoding='utf-8')))
        self.special = set(special)

    def load(self, toks):
        imports, i = [], 0
        while i < len(toks):
            v = toks[i][1]
            j = i
            while toks[j] != ('op', ';'):
                j += 1
            if v == 'import':
                imports += [t[1] for t in toks[i + 1:j] if t[0] == 'id']
            elif v not in ('grammar', 'parser', 'lexer', 'options', 'fragment') and toks[i + 1][1] == ':':
                body = toks[i + 2:j]
                if v[0].islower():
                    self.rules.setdefault(v, self.alt(body))
                elif all(t[0] == 'lit' or t[1] == '|' for t in body):
                    for t in body:
                        if t[0] == 'lit':
                            self.spell.setdefault(t[1][1:-1].replace("\\'", "'").replace('\\\\', '\\'), v)
            i = j + 1
        return imports

    def alt(self, body):
        parts, cur, depth = [], [], 0
        for t in body:
            depth += (t == ('op', '(')) - (t == ('op', ')'))
            if t == ('op', '|') and depth == 0:
                parts.append(cur)
                cur = []
            else:
                cur.append(t)
        parts.append(cur)
        out = []
        for x in parts:
            if len(x) >= 2 and x[-2] == ('op', '#'):
                x = x[:-2]
            out.append(self.seq(x))
        return out[0] if len(out) == 1 else ('alt', *out)

    def seq(self, part):
        out, i = [], 0
        while i < len(part):
            k, v = part[i]
            if (k, v) == ('op', '<'):
                while part[i] != ('op', '>'):
                    i += 1
                i += 1
                continue
            if k == 'id' and i + 1 < len(part) and part[i + 1][1] in ('=', '+='):
                i += 2
                continue
            if (k, v) == ('op', '('):
                depth, j = 1, i + 1
                while depth:
                    depth += (part[j] == ('op', '(')) - (part[j] == ('op', ')'))
                    j += 1
                x, i = self.alt(part[i + 1:j - 1]), j
            elif k in ('id', 'lit'):
                x = ('rule', v) if k == 'id' and v[0].islower() else ('tok', v) if k == 'id' else ('lit', v[1:-1])
                i += 1
            else:
                i += 1
                continue
            if i < len(part) and part[i][0] == 'op' and part[i][1] in '?*+':
                x = ({'?': 'opt', '*': 'many', '+': 'some'}[part[i][1]], x)
                i += 1
            out.append(x)
        return ('seq', *out)

    def token(self, text):
        return self.spell.get(text)

    def read(self, rule, toks):
        """(hole or token text, rules and token it is read under) in the reading of all toks by this rule, or None"""
        self.toks, self.far = toks, 0
        self.memo = {}
        r = self.match(('rule', rule), 0)
        return r.get(len(toks))

    def match(self, x, i):
        key = (id(x) if x[0] != 'rule' else x, i)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = {}
        out = self.step(x, i)
        self.memo[key] = out
        return out

    def step(self, x, i):
        k = x[0]
        if k in ('tok', 'lit'):
            t = self.toks[i] if i < len(self.toks) else None
            self.far = max(self.far, i)
            if t is None:
                return {}
            name = x[1] if k == 'tok' else self.spell.get(x[1], x[1])
            if t.is_a(name):
                return {i + 1: tuple((h, (name,)) for h in t.holes or (t.text,))}
            return {}
        if k == 'rule':
            if x[1] not in self.rules and x[1] not in self.special:
                raise AnalysisBroken(f'the grammar has no rule {x[1]}')
            t = self.toks[i] if i < len(self.toks) else None
            self.far = max(self.far, i)
            if t is not None and x[1] in t.kinds:
                return {i + 1: tuple((h, (x[1],)) for h in t.holes or (t.text,))}
            if x[1] in self.special:
                return {}
            return {e: tuple((h, (x[1],) + p) for h, p in got) for e, got in self.match(self.rules[x[1]], i).items()}
        if k == 'alt':
            out = {}
            for y in x[1:]:
                for e, g in self.match(y, i).items():
                    out.setdefault(e, g)
            return out
        if k == 'seq':
            at = {i: ()}
            for y in x[1:]:
                new = {}
                for s, g in at.items():
                    for e, h in self.match(y, s).items():
                        new.setdefault(e, g + h)
                at = new
            return at
        if k == 'opt':
            out = dict(self.match(x[1], i))
            out.setdefault(i, ())
            return out
        out, at = {} if k == 'some' else {i: ()}, {i: ()}
        while at:
            new = {}
            for s, g in at.items():
                for e, h in self.match(x[1], s).items():
                    if e > s and e not in out:
                        new[e] = out[e] = g + h
            at = new
        return out


class Tok:
    def __init__(self, kinds, holes=(), text=''):
        self.kinds, self.holes, self.text = set(kinds), tuple(holes), text

    def is_a(self, name):
        return name in self.kinds

    def __repr__(self):
        return self.text


class Unreadable(Exception):
    pass


def cut(parts, grammar, kinds):
    """tokens of a text with holes.  parts: text or holes (their normal form); kinds: normal form -> kinds of token"""
    out, i, pos = [], 0, 0
    parts = [p for p in parts if p != '']
    chars = []                                 # characters and holes
    for p in parts:
        chars += list(p[0]) if isinstance(p, tuple) and p[0] is not None else [Hole(p[1])] if isinstance(p, tuple) else list(p)
    n = len(chars)
    while i < n:
        c = chars[i]
        if isinstance(c, Hole):
            ks = kinds(c.name)
            if ks is None:
                raise Unreadable(f'{c.name} is not expected')
            j = i + 1
            if 'Text' in ks:                   # only in comments, strings and blocks
                raise Unreadable(f'{c.name} is outside of a comment, string or block')
            if j < n and (isinstance(chars[j], Hole) or chars[j].isalnum() or chars[j] in '_.') and 'closed' not in ks:
                raise Unreadable(f'{c.name} is not separated from what follows it')
            if i and not isinstance(chars[i - 1], Hole) and (chars[i - 1].isalnum() or chars[i - 1] in '_.') and 'closed' not in ks:
                raise Unreadable(f'{c.name} is not separated from what precedes it')
            out.append(Tok(ks, (c.name,), '{' + c.name + '}'))
            i = j
        elif c.isspace():
            i += 1
        elif c == '/' and i + 1 < n and chars[i + 1] == '*':
            j = find(chars, '*/', i + 2)
            i = j + 2
        elif c == '/' and i + 1 < n and chars[i + 1] == '/':
            while i < n and chars[i] != '\n':
                i += 1
        elif c == '%' and i + 1 < n and chars[i + 1] == '{':
            j = find(chars, '%}', i + 2)
            out.append(Tok(['UnparsedBlock'], [h.name for h in chars[i + 2:j] if isinstance(h, Hole)],
                           '%{' + ''.join('…' if isinstance(h, Hole) else h for h in chars[i + 2:j]) + '%}'))
            i = j + 2
        elif c == '"':
            j = i + 1
            while j < n and chars[j] != '"':
                j += 1
            if j == n:
                raise Unreadable('a string is not closed')
            out.append(Tok(['StringLiteral'], [h.name for h in chars[i + 1:j] if isinstance(h, Hole)],
                           '"' + ''.join('…' if isinstance(h, Hole) else h for h in chars[i + 1:j]) + '"'))
            i = j + 1
        elif c.isalpha() or c == '_':
            j = i
            while j < n and not isinstance(chars[j], Hole) and (chars[j].isalnum() or chars[j] == '_'):
                j += 1
            w = ''.join(chars[i:j])
            if j < n and isinstance(chars[j], Hole) and not set(kinds(chars[j].name) or ()) & {'closed'}:
                raise Unreadable(f'{w} is not separated from {chars[j].name}')
            t = grammar.token(w)
            out.append(Tok([t] if t else ['Identifier', 'expr'], (), w))
            i = j
        elif c.isdigit():
            j = i
            while j < n and not isinstance(chars[j], Hole) and (chars[j].isalnum() or chars[j] == '.'):
                j += 1
            out.append(Tok(['IntegerLiteral', 'expr'], (), ''.join(chars[i:j])))
            i = j
        else:
            for k in (3, 2, 1):
                w = chars[i:i + k]
                if len(w) == k and not any(isinstance(x, Hole) for x in w) and ''.join(w) in grammar.spell:
                    break
            else:
                k, w = 1, [c]
            w = ''.join(w)
            out.append(Tok([grammar.token(w) or w], (), w))
            i += k
    return out


class Hole:
    def __init__(self, name):
        self.name = name


def find(chars, what, i):
    while i + len(what) <= len(chars):
        w = chars[i:i + len(what)]
        if not any(isinstance(x, Hole) for x in w) and ''.join(w) == what:
            return i
        i += 1
    raise Unreadable(f'{what} is missing')


def flat(t, norm, counts, known=lambda t: None):
    """text and holes of a template: each Rep is written out counts(base text) times; known(term): its text, or None"""
    out = []
    if isinstance(t, str):
        return [t]
    k = known(t)
    if k is not None:
        return [k]
    if isinstance(t, Str):
        for x in t.parts:
            out += flat(x, norm, counts, known)
    elif isinstance(t, Const):
        out.append(str(t.v))
    elif isinstance(t, Rep):
        n = counts(norm(t.base))
        if n is None:
            raise Undecided(f'how many {norm(t.base)}')
        for k in range(n):
            items = t.items
            last = items[-1] if items else None
            if k == n - 1 and isinstance(last, str) and last.strip() and not any(c.isalnum() for c in last):
                items = items[:-1]             # what comes between two elements
            for x in items:
                out += flat(x, norm, counts, known)
    elif isinstance(t, App) and t.fn in ('str', 'format') and len(t.args) == 1:
        out += flat(t.args[0], norm, counts, known)
    elif isinstance(t, App) and t.fn == 'or' and len(t.args) == 2 and isinstance(t.args[1], Const):
        out += flat(t.args[0], norm, counts, known)
    elif isinstance(t, (Opt, Phi)):
        raise Undecided(norm(t.cond))
    elif isinstance(t, Splice):
        raise Undecided(norm(t.base))
    else:
        out.append((None, norm(t)))
    return out


class Undecided(Exception):
    pass


SAFE = ('startswith', 'endswith', 'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'partition', 'rpartition', 'find',
        'index', 'replace', 'removeprefix', 'removesuffix', 'isidentifier', 'isdigit', 'count', '__contains__')


class Unknown(Exception):
    pass


def value(t, norm, known):
    """the value of a term made from terms whose normal form has a known value"""
    if isinstance(t, str):
        return t
    if isinstance(t, Const):
        return t.v
    if isinstance(t, ClsV):
        return t.cls.name
    if isinstance(t, (Attr, Elem, Sym, Carried, Index)):
        n = norm(t)
        if n in known:
            return known[n]
        if isinstance(t, Sym) and t.name.startswith('re.') and isinstance(getattr(re, t.name[3:], None), re.RegexFlag):
            return getattr(re, t.name[3:])
        if isinstance(t, Attr):
            v = value(t.base, norm, known)
            if isinstance(v, PurePath) and t.name in ('name', 'stem', 'suffix', 'parts', 'parent'):
                return getattr(v, t.name)
            if isinstance(v, Thing):
                return v.fields[t.name]
        raise Unknown(repr(t)[:300])
    if isinstance(t, (Clo, Lam, ModV)) and isinstance(known.get('function'), Given):
        return known['function'].call(norm(t))
    if isinstance(t, Str):
        return ''.join(str(x) for x in items(t.parts, norm, known))
    if isinstance(t, Seq) and t.kind == 'dict':
        return dict(items(t.items, norm, known, pairs=True))
    if isinstance(t, Seq):
        got = items(t.items, norm, known)
        if t.kind == 'set':
            return [x for i, x in enumerate(got) if x not in got[:i]]
        return changed(got) if any(isinstance(x, Stored) for x in got) else got
    if isinstance(t, LoopOut):
        its = {x for x in walk(t.step) if isinstance(x, Carried) and x.lid == t.lid and x not in known.get('carried', ())}
        if len(its) > 1:
            raise Unknown
        now = value(t.init, norm, known)
        for k in bound(t.base, t.lid, norm, known):
            now = value(t.step, norm, {**k, **{norm(c): now for c in its}})
        return now
    if isinstance(t, Phi) and isinstance(t.cond, App) and t.cond.fn == 'exception' and isinstance(t.cond.args[0], Const):
        try:
            return value(t.b, norm, known)
        except (ValueError, TypeError, KeyError, IndexError) as x:
            if type(x).__name__ != t.cond.args[0].v:
                raise
            return value(t.a, norm, known)
    if isinstance(t, Phi):
        k = chosen(t.cond, norm, known)
        return value(t.b, norm, known) if k is None else value(t.a, norm, k)
    if isinstance(t, MCall) and (t.name in SAFE or t.name in PATHS) and not getattr(t, 'kw', None):
        v = value(t.recv, norm, known)
        if isinstance(v, str if t.name in SAFE else PurePath) or isinstance(v, (list, tuple)) and t.name in ('index', 'count'):
            return getattr(v, t.name)(*[value(x, norm, known) for x in t.args])
        raise Unknown(repr(t)[:300])
    if isinstance(t, (MCall, App)) and isinstance(known.get(t.name if isinstance(t, MCall) else t.fn), Given):
        if known[t.name if isinstance(t, MCall) else t.fn].whatever is not None:
            return known[t.name if isinstance(t, MCall) else t.fn].whatever
        args = items(t.args, norm, known)
        args = [value(t.recv, norm, known)] + args if isinstance(t, MCall) else args
        return known[t.name if isinstance(t, MCall) else t.fn].call(*args, **{k: value(x, norm, known) for k, x in t.kw})
    if isinstance(t, Item):
        k = t.key
        k = slice(*[value(x, norm, known) for x in k.args]) if isinstance(k, App) and k.fn == 'slice' else value(k, norm, known)
        return value(t.base, norm, known)[k]
    if isinstance(t, App):
        if t.fn == 'stored' and len(t.args) == 2:
            return Stored(*[value(x, norm, known) for x in t.args])
        if t.fn in ('and', 'or'):
            v = None
            for x in t.args:
                v = value(x, norm, known)
                if bool(v) == (t.fn == 'or'):
                    return v
            return v
        if t.fn == 'position':
            at = places(t.args[0])[value(t.args[1], norm, known) - 1:][:1]
            at = known.get('turn') if at == ['turn'] else at[0] if at else None
            if at is not None:
                return at + value(t.args[2], norm, known)
        if t.fn == 'pick':
            e, i, cond, base, lid = t.args[:5]
            got = [k for k in bound(base, value(lid, norm, known), norm, known) if value(cond, norm, k)]
            return value(e, norm, got[value(i, norm, known)])
        if t.fn == 'position' and len(t.args) == 3 and isinstance(t.args[0], Seq) and len(t.args[0].items) == 1 and isinstance(t.args[0].items[0], Rep) \
                and isinstance(t.args[1], Const) and t.args[1].v == 1 and len(t.args[0].items[0].items) == 1:
            # the number of an element of a list that is a part of another: of those that come before it
            r = t.args[0].items[0]
            here = known[norm(Index(r.base, r.lid))]
            n = 0
            for i, k in enumerate(bound(r.base, r.lid, norm, known)):
                if i == here:
                    return n + value(t.args[2], norm, known)
                n += len(items(r.items, norm, k))
        f = dict(abs=abs, index=lambda a, *x: a.index(*x), popped=lambda a, i: [x for j, x in enumerate(a) if j != i % len(a)], inner=lambda a: a[1:-1], neg=lambda a: -a, int=int, str=str, len=len, bool=bool, eq=lambda a, b: a == b, ne=lambda a, b: a != b,
                 lt=lambda a, b: a < b, gt=lambda a, b: a > b, le=lambda a, b: a <= b, ge=lambda a, b: a >= b,
                 add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b, floordiv=lambda a, b: a // b, mod=lambda a, b: a % b, isnot=lambda a, b: a is not b,
                 any=any, all=all, nonempty=bool, div=lambda a, b: PurePosixPath(a) / b if isinstance(a, PurePath) else a / b, sum=sum, max=max, min=min, bitor=lambda a, b: a | b, bitand=lambda a, b: a & b, list=list, tuple=list, sorted=sorted,
                 **{'in': lambda a, b: a in b, 'notin': lambda a, b: a not in b, 'not': lambda a: not a, 'is': lambda a, b: a is b,
                    'pathlib.Path': PurePosixPath}).get(t.fn)
        if f is not None and not getattr(t, 'kw', None):
            return f(*items(t.args, norm, known))
        if t.fn == 'sorted' and len(t.args) == 1 and not set(dict(t.kw)) - {'key', 'reverse'}:
            kw = dict(t.kw)
            key = (lambda x: known['()'](kw['key'], x)) if 'key' in kw else None
            return sorted(value(t.args[0], norm, known), key=key, reverse='reverse' in kw and value(kw['reverse'], norm, known))
        if t.fn == 'functools.reduce' and len(t.args) in (2, 3) and '()' in known:
            got = list(value(t.args[1], norm, known))
            got = [value(t.args[2], norm, known)] + got if len(t.args) == 3 else got
            now = got[0]
            for x in got[1:]:
                now = known['()'](t.args[0], now, x)
            return now
        if t.fn in ('dict.fromkeys', 'dedup') and len(t.args) == 1:
            got = value(t.args[0], norm, known)
            return [x for i, x in enumerate(got) if x not in got[:i]]
        if t.fn == 'join' and len(t.args) == 2:
            return value(t.args[0], norm, known).join(value(t.args[1], norm, known))
        if t.fn in ('zipped', 'ditems', 'enumerated', 'keys', 'values', 'rangeof'):
            return [x for x, _ in elements(t, 0, norm, known)]
        if t.fn in ('reversed', 'reversed_of') and len(t.args) == 1:
            return value(t.args[0], norm, known)[::-1]
        if t.fn == 'next' and len(t.args) in (1, 2):
            got = value(t.args[0], norm, known)
            return got[0] if got else value(t.args[1], norm, known)
    raise Unknown(repr(t)[:300])


class Stored:
    """a change of the list that is made so far"""

    def __init__(self, key, value):
        self.key, self.value = key, value


def places(t):
    """of each element of the lists that this can be: its number, or 'turn' if they are the elements of one loop"""
    if isinstance(t, (Phi, Opt)):
        return places(t.a) + places(t.b)
    if isinstance(t, tuple):
        return places(Seq('list', t))
    if isinstance(t, Seq) and not any(isinstance(x, (Opt, Rep, Splice)) for x in t.items):
        return list(range(len(t.items)))
    if isinstance(t, Seq):
        return places(t.items[0]) if len(t.items) == 1 else [None] * len(t.items)
    if isinstance(t, Rep):
        return ['turn'] if len(t.items) == 1 and not isinstance(t.items[0], (Opt, Rep, Splice)) else [None]
    return ['turn']


def changed(got):
    out = []
    for x in got:
        if isinstance(x, Stored):
            out[x.key] = x.value
        else:
            out.append(x)
    return out


class Thing:
    """an object with these attributes"""

    def __init__(self, **fields):
        self.fields = fields


class Given:
    """a method or function whose value for known arguments is given, or whose value is this whatever they are"""

    def __init__(self, call, whatever=None):
        self.call, self.whatever = call, whatever


PATHS = ('with_suffix', 'as_posix', 'with_name', 'joinpath', 'match', '__str__')


def bound(base, lid, norm, known):
    """what is known for each element of a loop"""
    if 'deadline' in known and time.monotonic() > known['deadline']:
        raise Unknown('it takes too long')
    at = norm(Index(strip_iter(base), lid))
    steps = {c: s for c, s in known.get('carried', {}).items() if c.lid == lid}
    now = {norm(c): v[0] for c, (start, _) in steps.items() for v in (valued(start, norm, known),) if v is not None}
    if isinstance(base, App) and base.fn == 'while':
        if lid not in known.get('repeats', {}):
            raise Unknown(f'how often {norm(base)}')
        for i in range(1000):
            k = {**known, at: i, 'turn': i, **now}
            if not value(known['repeats'][lid], norm, k):
                return
            yield k
            now = {norm(c): v[0] for c, (_, step) in steps.items() for v in (valued(step, norm, k),) if v is not None}
        raise Unknown(f'how often {norm(base)}')
    for i, (x, more) in enumerate(elements(base, lid, norm, known)):
        k = {**known, norm(Index(base, lid)): i, at: i, norm(Elem(base, lid)): x, **more, **now}
        yield k
        now = {norm(c): v[0] for c, (_, step) in steps.items() for v in (valued(step, norm, k),) if v is not None}


def elements(base, lid, norm, known):
    fn = base.fn if isinstance(base, App) else None
    if fn == 'ditems':
        d = base.args[0]
        k, v = norm(Elem(App('keys', (d,)), lid)), norm(Elem(App('values', (d,)), lid))
        d = value(d, norm, known)
        return [((a, b), {k: a, v: b}) for a, b in (d.items() if isinstance(d, dict) else d)]
    if fn in ('keys', 'values') and len(base.args) == 1:
        # both are named by the loops over either
        k, v = norm(Elem(App('keys', base.args), lid)), norm(Elem(App('values', base.args), lid))
        d = value(base.args[0], norm, known)
        return [(a if fn == 'keys' else b, {k: a, v: b}) for a, b in (d.items() if isinstance(d, dict) else d)]
    if fn == 'enumerated':
        start = value(base.args[1], norm, known) if len(base.args) > 1 else 0
        at = norm(Index(strip_iter(base.args[0]), lid))
        return [((start + i, x), {**more, at: i, norm(Elem(base.args[0], lid)): x})
                for i, (x, more) in enumerate(elements(base.args[0], lid, norm, known))]
    if fn in ('dict.fromkeys', 'dedup') and len(base.args) == 1:
        # each element is known as the one that has it first
        out, seen = [], []
        for x, more in elements(base.args[0], lid, norm, known):
            if not any(x is y or x == y for y in seen):
                seen.append(x)
                out.append((x, {**more, norm(Elem(base.args[0], lid)): x}))
        return out
    if fn == 'rangeof':
        args = [value(x, norm, known) for x in base.args]
        seq = base.args[0].args[0] if len(args) == 1 and isinstance(base.args[0], App) and base.args[0].fn == 'len' else None
        of = value(seq, norm, known) if seq is not None else None
        return [(i, {} if seq is None else {norm(Index(strip_iter(seq), lid)): i, norm(Elem(seq, lid)): of[i]}) for i in range(*args)]
    if fn in ('reversed', 'reversed_of') and len(base.args) == 1:
        return [(x, {**more, norm(Elem(base.args[0], lid)): x}) for x, more in elements(base.args[0], lid, norm, known)][::-1]
    if fn == 'sorted' and len(base.args) == 1 and not set(dict(base.kw)) - {'key', 'reverse'} and ('key' not in dict(base.kw) or '()' in known):
        kw = dict(base.kw)
        key = (lambda e: known['()'](kw['key'], e[0])) if 'key' in kw else (lambda e: e[0])
        return sorted([(x, {**more, norm(Elem(base.args[0], lid)): x}) for x, more in elements(base.args[0], lid, norm, known)],
                      key=key, reverse='reverse' in kw and value(kw['reverse'], norm, known))
    if fn == 'zipped' and any(isinstance(x, Splice) for x in base.args):
        return [(x, {}) for x in zip(*items(base.args, norm, known))]
    if fn == 'zipped':
        return [(tuple(x for x, _ in es), {a: b for i, (x, more) in enumerate(es)
                                           for a, b in {**more, norm(Elem(base.args[i], lid)): x}.items()})
                for es in zip(*[elements(x, lid, norm, known) for x in base.args])]
    if isinstance(base, Seq) and len(base.items) == 1 and isinstance(base.items[0], (Rep, Splice)) and fn is None:
        r = base.items[0]
        if isinstance(r, Splice):
            return [(x, {**more, norm(Elem(r.base, lid)): x}) for x, more in elements(r.base, lid, norm, known)]
        if len(r.items) == 1 and not isinstance(r.items[0], (Opt, Rep, Splice)):
            return [(value(r.items[0], norm, {**known, **k}), {**k})
                    for k in ({**more, norm(Elem(r.base, lid)): x, norm(Elem(r.base, r.lid)): x, **inner}
                              for (x, more), (_, inner) in zip(elements(r.base, r.lid, norm, known), elements(r.base, lid, norm, known)))]
    got = value(base, norm, known)
    return [(x, {}) for x in (list(got.values()) if fn == 'values' and isinstance(got, dict) else list(got))]


def chosen(cond, norm, known):
    """what is known when the condition holds, or None: with the first element of a search that it holds for"""
    e = next((e for e in free(cond) if norm(e) not in known and all(norm(x) in known for x in free(e.base))), None)
    if e is None:
        return known if value(cond, norm, known) else None
    now = valued(cond, norm, known)            # the searches in it may find their own elements
    if now is not None:
        return known if now[0] else None
    for k in bound(e.base, e.lid, norm, known):
        if value(cond, norm, k):
            return k
    return None


def free(t):
    """the elements in a term, in this order, of loops that are not in it"""
    got = FREE.get(id(t))
    if got is None or got[0] is not t:
        from .spec import free as find
        FREE[id(t)] = got = t, sorted(find(t), key=repr)
    return got[1]


FREE = {}


def items(its, norm, known, pairs=False):
    out = []
    for x in its:
        if isinstance(x, Rep):
            for i, k in enumerate(bound(x.base, x.lid, norm, known)):
                out += items(x.items, norm, {**k, 'turn': i}, pairs)
        elif isinstance(x, Opt) and isinstance(x.cond, App) and x.cond.fn == 'exception' and isinstance(x.cond.args[0], Const):
            try:
                out += items(x.b, norm, known, pairs)
            except (ValueError, TypeError, KeyError, IndexError) as e:
                if type(e).__name__ != x.cond.args[0].v:
                    raise
                out += items(x.a, norm, known, pairs)
        elif isinstance(x, Opt):
            k = chosen(x.cond, norm, known)
            out += items(x.b if k is None else x.a, norm, known if k is None else k, pairs)
        elif isinstance(x, Splice):
            v = value(x.base, norm, known)
            out += list(v.items() if pairs and isinstance(v, dict) else v)
        else:
            out.append(value(x, norm, known))
    return out


def valued(t, norm, known):
    """(value,) or None when it is not known"""
    try:
        return (value(t, norm, known),)
    except (Unknown, TypeError, ValueError, IndexError, KeyError, AttributeError):
        return None
