"""Lexing of C text *templates*.

The text a translator emits is known only as a template: literal fragments, holes (terms), repetitions (``Rep``) and
guarded alternatives (``Opt``).  This module lexes such a template without instantiating it: lexer states are threaded
through the tree, both branches of an alternative start in the same state and have to end in the same one, a repeated
body has to end in the state it started in.
"""
from __future__ import annotations
from dataclasses import dataclass, field
from .absint import Term, Rep, Opt, Splice, Str, Phi, Seq, Const, path_of, children, App, neg, MCall

CODE, STR, CHR, LC, BC = 'code', 'string literal', 'character literal', 'line comment', 'block comment'


@dataclass(eq=False)
class Tok:
    kind: str            # ident num str chr punct dir nl
    parts: tuple         # text pieces and hole terms
    guards: tuple = ()   # enclosing (cond, polarity)
    loops: tuple = ()    # enclosing (lid, base)
    hint: str = ''

    @property
    def text(self):
        return ''.join(p if isinstance(p, str) else '\u25a1' for p in self.parts)

    @property
    def holes(self):
        return [p for p in self.parts if not isinstance(p, str)]

    def __repr__(self):
        return f'{self.kind}:' + show_parts(self.parts)


@dataclass(eq=False)
class RepT:
    rep: Rep
    toks: list
    guards: tuple = ()
    loops: tuple = ()


@dataclass(eq=False)
class OptT:
    opt: Opt
    a: list
    b: list
    guards: tuple = ()
    loops: tuple = ()


def show_parts(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        else:
            out.append('<' + short(p) + '>')
    return ''.join(out)


def short(t, n=90):
    s = path_of(t)
    if s is None:
        s = repr(t)
    return s if len(s) <= n else s[:n] + '\u2026'


def normalise(items):
    """flatten nested Str, turn literal constants into text, and make an alternative between two plain inline pieces
    a single hole so that identifiers built from it stay in one token"""
    out = []
    for i in items:
        if isinstance(i, Str):
            out.extend(normalise(i.parts))
        elif isinstance(i, str):
            if i:
                out.append(i)
        elif isinstance(i, Const):
            out.append(str(i.v))
        elif isinstance(i, Opt):
            a, b = normalise(i.a), normalise(i.b)
            if not a and not b:
                continue
            o = Opt(i.cond, tuple(a), tuple(b))
            if inline_alt(o):
                out.append(Phi(i.cond, as_term(a), as_term(b)))
            else:
                out.append(o)
        elif isinstance(i, Rep):
            body = normalise(i.items)
            if body:
                out.append(Rep(i.lid, i.base, tuple(body)))
        elif isinstance(i, Phi):
            out.extend(phi_parts(i))
        else:
            out.append(i)
    # join adjacent text
    res = []
    for i in out:
        if isinstance(i, str) and res and isinstance(res[-1], str):
            res[-1] += i
        else:
            res.append(i)
    return res


def phi_parts(x):
    def one(v):
        if isinstance(v, (Str, Const, Phi)):
            return normalise((v,))
        return [v]
    a, b = one(x.a), one(x.b)
    o = Opt(x.cond, tuple(a), tuple(b))
    if inline_alt(o):
        return [Phi(x.cond, as_term(a), as_term(b))]
    return [o]


def as_term(parts):
    if len(parts) == 1 and isinstance(parts[0], Term):
        return parts[0]
    return Str(tuple(parts))


def inline_alt(o):
    """both alternatives are exactly one hole: treat the choice itself as the hole"""
    def ok(parts):
        return len(parts) == 1 and isinstance(parts[0], Term) and not isinstance(parts[0], (Rep, Opt, Splice))
    return ok(o.a) and ok(o.b)


class LexError(Exception):
    pass


class Lexer:
    def __init__(self):
        self.problems = []       # (message, context)
        self.recent = ''

    def problem(self, msg, where):
        self.problems.append((msg, where))

    def run(self, items):
        items = normalise(items)
        self.toks = []
        cur = Cur(CODE, True)
        toks, cur = self.seq(items, cur, (), ())
        self.flush(cur, toks, (), ())
        if cur.state != CODE and cur.state != LC:
            self.problem(f'text ends inside a {cur.state}', self.recent[-60:])
        return toks

    # ------------------------------------------------------------------
    def seq(self, items, cur, guards, loops):
        toks = []
        for it in items:
            if isinstance(it, str):
                self.recent = (self.recent + it)[-200:]
                self.text(it, cur, toks, guards, loops)
            elif isinstance(it, Rep):
                self.flush(cur, toks, guards, loops)
                entry = cur.key()
                start = self.recent[-50:]
                body, c2 = self.seq(it.items, cur.copy(), guards, loops + ((it.lid, it.base),))
                self.flush(c2, body, guards, loops + ((it.lid, it.base),))
                if c2.key()[0] != entry[0]:
                    self.problem(f'the repeated text over {short(it.base)} starts in {entry[0]} '
                                 f'but ends in {c2.key()[0]}', start)
                    c2 = cur
                toks.append(RepT(it, body, guards, loops))
                cur.state, cur.bol, cur.indir = c2.state, c2.bol, c2.indir
                cur.lit = []
            elif isinstance(it, Opt):
                # text inside literals/comments: keep literal pieces as alternatives, no token boundary needed
                if cur.state in (STR, CHR):
                    ca, cb = cur.copy(), cur.copy()
                    ta, ca = self.seq(it.a, ca, guards + ((it.cond, True),), loops)
                    tb, cb = self.seq(it.b, cb, guards + ((it.cond, False),), loops)
                    if ca.state != cb.state:
                        self.problem(f'only one alternative of {short(it.cond)} closes the {cur.state}',
                                     self.recent[-60:])
                    toks.append(OptT(it, ta, tb, guards, loops))
                    cur.state = ca.state
                    # literal continues: remember its hole content from both sides
                    cur.lit = ca.lit + [p for p in cb.lit if p not in ca.lit]
                    cur.bol, cur.indir = ca.bol, ca.indir
                    continue
                self.flush(cur, toks, guards, loops)
                ca, cb = cur.copy(), cur.copy()
                start = self.recent[-60:]
                ta, ca = self.seq(it.a, ca, guards + ((it.cond, True),), loops)
                self.flush(ca, ta, guards + ((it.cond, True),), loops)
                tb, cb = self.seq(it.b, cb, guards + ((it.cond, False),), loops)
                self.flush(cb, tb, guards + ((it.cond, False),), loops)
                if ca.state != cb.state:
                    self.problem(f'alternatives of {short(it.cond)} end in {ca.state} and in {cb.state}', start)
                toks.append(OptT(it, ta, tb, guards, loops))
                cur.state, cur.bol, cur.indir = ca.state, ca.bol and cb.bol, ca.indir or cb.indir
                cur.lit = []
            elif isinstance(it, Splice):
                self.hole(it.base, cur, toks, guards, loops)
            else:
                self.hole(it, cur, toks, guards, loops)
        return toks, cur

    def hole(self, t, cur, toks, guards, loops):
        self.recent = (self.recent + '<' + short(t, 40) + '>')[-200:]
        if cur.state == CODE:
            cur.word.append(t)
            cur.bol = False
        elif cur.state in (STR, CHR):
            cur.lit.append(t)
        elif cur.state in (LC, BC):
            cur.com.append(t)
            toks.append(Tok('comhole', (t,), guards, loops, cur.state))

    def flush(self, cur, toks, guards, loops):
        if cur.word:
            parts = []
            for p in cur.word:
                if isinstance(p, str) and parts and isinstance(parts[-1], str):
                    parts[-1] += p
                else:
                    parts.append(p)
            first = parts[0]
            kind = 'num' if isinstance(first, str) and first[0].isdigit() else 'ident'
            toks.append(Tok(kind, tuple(parts), guards, loops))
            cur.word = []

    def text(self, s, cur, toks, guards, loops):
        i, n = 0, len(s)
        while i < n:
            ch = s[i]
            if cur.state == CODE:
                if ch.isalnum() or ch == '_' or (ch == '.' and cur.word and isinstance(cur.word[0], str)
                                                 and cur.word[0][:1].isdigit()):
                    cur.word.append(ch)
                    cur.bol = False
                    i += 1
                    continue
                self.flush(cur, toks, guards, loops)
                if ch == '\\' and i + 1 < n and s[i + 1] == '\n':
                    i += 2
                    continue
                if ch == '\n':
                    if cur.indir:
                        toks.append(Tok('enddir', ('\n',), guards, loops))
                        cur.indir = False
                    cur.bol = True
                    i += 1
                    continue
                if ch in ' \t\r\f':
                    i += 1
                    continue
                if s.startswith('//', i):
                    cur.state = LC
                    i += 2
                    continue
                if s.startswith('/*', i):
                    cur.state = BC
                    i += 2
                    continue
                if ch == '"':
                    cur.state, cur.lit, cur.bol = STR, [], False
                    i += 1
                    continue
                if ch == "'":
                    cur.state, cur.lit, cur.bol = CHR, [], False
                    i += 1
                    continue
                if ch == '#' and cur.bol:
                    toks.append(Tok('dir', ('#',), guards, loops))
                    cur.indir, cur.bol = True, False
                    i += 1
                    continue
                cur.bol = False
                two = s[i:i + 2]
                if two in ('->', '++', '--', '&&', '||', '==', '!=', '<=', '>=', '+=', '-=', '*=', '/=', '##'):
                    toks.append(Tok('punct', (two,), guards, loops))
                    i += 2
                    continue
                toks.append(Tok('punct', (ch,), guards, loops))
                i += 1
            elif cur.state in (STR, CHR):
                q = '"' if cur.state == STR else "'"
                if ch == '\\' and i + 1 < n:
                    cur.lit.append(s[i:i + 2])
                    i += 2
                elif ch == q:
                    parts = []
                    for p in cur.lit:
                        if isinstance(p, str) and parts and isinstance(parts[-1], str):
                            parts[-1] += p
                        else:
                            parts.append(p)
                    toks.append(Tok('str' if q == '"' else 'chr', tuple(parts), guards, loops))
                    cur.state, cur.lit = CODE, []
                    i += 1
                elif ch == '\n':
                    self.problem(f'newline inside a {cur.state}', (self.recent[:-n] + s[:i])[-60:])
                    cur.state, cur.lit, cur.bol = CODE, [], True
                    i += 1
                else:
                    cur.lit.append(ch)
                    i += 1
            elif cur.state == LC:
                if ch == '\n':
                    cur.state = CODE
                    cur.com = []
                    continue
                i += 1
            else:
                j = s.find('*/', i)
                if j < 0:
                    return
                cur.state, cur.com = CODE, []
                i = j + 2


class Cur:
    def __init__(self, state, bol):
        self.state, self.bol, self.indir = state, bol, False
        self.word, self.lit, self.com = [], [], []

    def key(self):
        return (self.state, self.indir)

    def copy(self):
        c = Cur(self.state, self.bol)
        c.indir = self.indir
        c.word, c.lit, c.com = list(self.word), list(self.lit), list(self.com)
        return c


def lex(items):
    lx = Lexer()
    toks = lx.run(items)
    return toks, lx.problems


def flat(toks):
    """all tokens of a token tree in order"""
    for t in toks:
        if isinstance(t, RepT):
            yield from flat(t.toks)
        elif isinstance(t, OptT):
            yield from flat(t.a)
            yield from flat(t.b)
        else:
            yield t
