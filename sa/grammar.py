"""The grammars of the input languages (src/grammar/*.g4) and the contexts of the generated parsers, read as text."""
from __future__ import annotations
import ast
import re
from dataclasses import dataclass, field
from .project import AnalysisBroken

TOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<lit>'(?:\\.|[^'\\])*')|(?P<set>\[(?:\\.|[^\]\\])*\])|(?P<id>[A-Za-z_]\w*)"""
                 r"""|(?P<op>\+=|->|[:;|()?*+=~.#<>@{},])""", re.S)


@dataclass
class El:
    """one element of an alternative"""
    name: str              # rule, token, or the text of a literal
    kind: str              # 'rule', 'token' or 'literal'
    label: str = None
    optional: bool = False
    many: bool = False
    choice: tuple = ()     # ids of the (choice, branch) the element is in
    quant: object = None


@dataclass
class Alt:
    rule: str
    label: str
    els: list = field(default_factory=list)

    @property
    def name(self):
        n = self.label or self.rule
        return n[0].upper() + n[1:]


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if m is None:
            raise AnalysisBroken(f'grammar text not understood: {text[i:i + 30]!r}')
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


class Grammar:
    def __init__(self, directory, name):
        self.rules = {}        # rule -> [Alt]
        self.literals = {}     # literal -> token name
        self.n = 0
        seen = set()
        todo = [name]
        while todo:
            n = todo.pop(0)
            if n in seen:
                continue
            seen.add(n)
            path = directory / (n + '.g4')
            if not path.is_file():
                raise AnalysisBroken(f'grammar {path} not found')
            todo += self.load(path.read_text(encoding='utf-8'))

    def load(self, text):
        toks = tokens(text)
        imports, i = [], 0
        while i < len(toks):
            k, v = toks[i]
            if v in ('grammar', 'parser', 'lexer', 'options', 'fragment', 'import'):
                j = i
                while toks[j][1] != ';' and not (v == 'fragment' and toks[j][1] == ':'):
                    j += 1
                if v == 'import':
                    imports += [t[1] for t in toks[i + 1:j] if t[0] == 'id']
                if v != 'fragment':
                    i = j + 1
                    continue
                while toks[j][1] != ';':
                    j += 1
                i = j + 1
                continue
            if k == 'id' and i + 1 < len(toks) and toks[i + 1][1] == ':':
                j = i + 2
                while toks[j][1] != ';':
                    j += 1
                body = toks[i + 2:j]
                if v[0].islower():
                    self.rules.setdefault(v, self.alts(v, body))
                elif len(body) == 1 and body[0][0] == 'lit':
                    self.literals.setdefault(body[0][1], v)
                i = j + 1
                continue
            raise AnalysisBroken(f'grammar: unexpected {v!r}')
        return imports

    def split(self, body):
        """top-level alternatives"""
        out, cur, depth = [], [], 0
        for t in body:
            if t[1] == '(' and t[0] == 'op':
                depth += 1
            if t[1] == ')' and t[0] == 'op':
                depth -= 1
            if t == ('op', '|') and depth == 0:
                out.append(cur)
                cur = []
            else:
                cur.append(t)
        return out + [cur]

    def alts(self, rule, body):
        out = []
        for part in self.split(body):
            label = None
            if len(part) >= 2 and part[-2] == ('op', '#'):
                label = part[-1][1]
                part = part[:-2]
            out.append(Alt(rule, label, self.seq(part, False, False, ())))
        if not any(a.label for a in out) and len(out) > 1:
            # unlabelled alternatives share one context
            els = []
            self.n += 1
            cid = self.n
            for j, a in enumerate(out):
                for e in a.els:
                    e.choice = ((cid, j),) + e.choice
                    e.optional = True
                    els.append(e)
            out = [Alt(rule, None, els)]
        return out

    def seq(self, part, optional, many, choice):
        out, i, label = [], 0, None
        while i < len(part):
            k, v = part[i]
            if (k, v) == ('op', '<'):            # <assoc=right>
                while part[i] != ('op', '>'):
                    i += 1
                i += 1
                continue
            if k == 'id' and i + 1 < len(part) and part[i + 1][1] in ('=', '+='):
                label = v
                i += 2
                continue
            if (k, v) == ('op', '('):
                depth, j = 1, i + 1
                while depth:
                    if part[j] == ('op', '('):
                        depth += 1
                    if part[j] == ('op', ')'):
                        depth -= 1
                    j += 1
                inner = part[i + 1:j - 1]
                q = part[j][1] if j < len(part) and part[j][0] == 'op' and part[j][1] in '?*+' else ''
                branches = self.split(inner)
                self.n += 1
                cid = self.n
                for b, br in enumerate(branches):
                    els = self.seq(br, optional or q in ('?', '*') or len(branches) > 1, many or q in ('*', '+'),
                                   choice + (((cid, b),) if len(branches) > 1 else ()))
                    for e in els:
                        if label and e.label is None:
                            e.label = label
                    out += els
                    if not br and len(branches) > 1:
                        pass
                label = None
                i = j + (1 if q else 0)
                continue
            if k in ('id', 'lit'):
                q = part[i + 1][1] if i + 1 < len(part) and part[i + 1][0] == 'op' and part[i + 1][1] in '?*+' else ''
                name, kind = v, 'rule' if v[0].islower() else 'token'
                if k == 'lit':
                    name, kind = (self.literals[v], 'token') if v in self.literals else (v, 'literal')
                out.append(El(name, kind, label, optional or q in ('?', '*'), many or q in ('*', '+'), choice))
                out[-1].literal = v if k == 'lit' else None
                label = None
                i += 2 if q else 1
                continue
            i += 1
        return out

    def finish(self):
        """literal tokens are named in grammars that are imported later"""
        for alts in self.rules.values():
            for a in alts:
                for e in a.els:
                    if e.kind == 'literal' and e.name in self.literals:
                        e.name, e.kind = self.literals[e.name], 'token'
        return self

    def alternatives(self):
        return [a for alts in self.rules.values() for a in alts]


@dataclass
class Context:
    name: str                                  # without the trailing Context
    one: set = field(default_factory=set)      # accessors that give one node
    many: set = field(default_factory=set)     # accessors that give a list, or one node with an index
    attrs: set = field(default_factory=set)


def contexts(path):
    """contexts of a generated parser: name -> Context"""
    if not path.is_file():
        raise AnalysisBroken(f'generated parser {path} not found')
    tree = ast.parse(path.read_text(encoding='utf-8'))
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef) and n.name.endswith('Context'):
            c = Context(n.name[:-7])
            for f in n.body:
                if isinstance(f, ast.FunctionDef):
                    if f.name == '__init__':
                        for a in ast.walk(f):
                            if isinstance(a, ast.Attribute) and isinstance(a.ctx, ast.Store):
                                c.attrs.add(a.attr)
                    elif 'getTypedRuleContexts' in ast.dump(f) or "attr='getTokens'" in ast.dump(f):
                        c.many.add(f.name)
                    elif 'getTypedRuleContext' in ast.dump(f) or "attr='getToken'" in ast.dump(f):
                        c.one.add(f.name)
            out[c.name] = c
    return out
