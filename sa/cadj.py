"""Which tokens follow each other in a template of C code.

Walks the token tree of a template, with both sides of every alternative and a repetition done never, once and twice,
and asks of every two neighbours that no number, text or name follows an operand, and that statements end.
"""
from __future__ import annotations
import re
from .absint import App, Const, Index
from .ctok import RepT, OptT, flat
from .cquery import leafset

KEYWORDS = {'return', 'case', 'goto', 'else', 'sizeof', 'do', 'defined', 'typedef', 'static', 'extern', 'inline', 'const',
            'volatile', 'register', 'auto', 'default', 'break', 'continue', 'struct', 'union', 'enum', 'unsigned', 'signed'}
HEADS = {'if', 'while', 'for', 'switch', 'sizeof'}
ENDS = {';', '{', '}', ':'}


def macro(s):
    """names of macros may stand anywhere"""
    return re.fullmatch(r'[A-Z_][A-Z0-9_]*|__\w+|PRI\w+', s) is not None


def certain(h):
    """what a hole on its own is: a number, an operand, or anything"""
    if isinstance(h, App) and h.fn == 'fmt' and len(h.args) > 1 and isinstance(h.args[1], Const) and h.args[1].v == 'p':
        return 'name'
    if isinstance(h, Index) or isinstance(h, App) and h.fn in ('len', 'max', 'min', 'sub'):
        return 'num'
    if isinstance(h, App) and h.fn == 'add' and any(isinstance(x, (Index, Const)) for x in h.args):
        return 'num'
    ls = leafset(h)
    if ls and all(x.endswith('.name') for x in ls):
        return 'name'
    return None


def kind_of(t):
    if t.kind in ('num', 'str', 'chr'):
        return t.kind
    if t.kind == 'punct':
        return t.text
    if t.kind == 'ident':
        lits = [x for x in t.parts if isinstance(x, str)]
        if not lits:
            return certain(t.parts[0]) if len(t.parts) == 1 else None
        if len(t.parts) > 1 and not isinstance(t.parts[0], str) and certain(t.parts[0]) is None:
            return None
        if len(t.parts) > 1 and not isinstance(t.parts[-1], str) and certain(t.parts[-1]) is None:
            return None
        if t.text in KEYWORDS or t.text in HEADS:
            return 'word'
        return 'name'
    return None


class State:
    """what comes before: the last token and the brackets that are open"""
    __slots__ = ('prev', 'text', 'before', 'stack')

    def __init__(self, prev=None, text='', before='', stack=()):
        self.prev, self.text, self.before, self.stack = prev, text, before, stack

    def key(self):
        return self.prev, self.text, self.before, self.stack


class Neighbours:
    LIMIT = 48

    def __init__(self):
        self.problems, self.pairs = [], 0
        self.directive = False

    def only(self, states):
        out = {}
        for s in states:
            out.setdefault(s.key(), s)
        out = list(out.values())
        if len(out) > self.LIMIT:
            out = [State()]
        return out

    def seq(self, toks, states):
        for t in toks:
            if isinstance(t, RepT):
                was = self.directive
                once = self.seq(t.toks, states)
                twice = self.seq(t.toks, once)
                self.directive = was and self.directive
                states = self.only(list(states) + once + twice)
            elif isinstance(t, OptT):
                was = self.directive
                a = self.seq(t.a, states)
                end = self.directive
                self.directive = was
                b = self.seq(t.b, states)
                self.directive = self.directive or end
                states = self.only(a + b)
            else:
                states = self.only([self.one(t, s) for s in states])
        return states

    def one(self, t, s):
        if t.kind == 'dir':
            self.directive = True
        if t.kind == 'enddir':
            self.directive = False
            return State(stack=s.stack)
        if self.directive or t.kind == 'dir':
            return State(stack=s.stack)
        if t.kind == 'comhole':
            return s
        k = kind_of(t)
        text = t.text
        if k is None:
            return State(stack=s.stack)
        self.pairs += 1
        wrong = self.wrong(s, k, text, t)
        if wrong:
            self.problems.append((wrong, t))
        stack = s.stack
        before = s.text if s.prev == 'name' else ''
        if k in ('(', '['):
            stack += ((k, s.prev, s.text),)
        elif k == '{':
            init = s.prev in ('=', ',', '(', '{') and (s.prev != '{' or (stack and stack[-1][0] == 'list')) \
                or s.prev == ')' and s.text == 'cast' or s.text == 'enum' or s.before == 'enum'
            stack += (('list' if init else 'block', s.prev, s.text),)
        elif k in (')', ']', '}'):
            top = stack[-1] if stack else None
            stack = stack[:-1]
            if k == ')' and top is not None:
                head = 'call' if top[2] in ('return', 'sizeof') or top[1] == 'name' and not macro(top[2]) else 'macro' if top[1] == 'name' else \
                    'head' if top[1] == 'word' else 'cast'
                return State(')', head, top[2], stack)
            if k == '}' and top is not None:
                return State('}', top[0], '', stack)
            return State(k, '', '', stack)
        return State(k, text, before if k == 'name' else s.before if k == 'word' else '', stack)

    def wrong(self, s, k, text, t):
        p = s.prev
        if k in ('num', 'chr') and p in ('num', 'str', 'chr', 'name', ']') and not (p == 'name' and macro(s.text)):
            return 'a number after'
        if k == 'num' and p == ')' and s.text == 'call':
            return 'a number after'
        if k == 'str' and p in ('num', 'chr', 'name', ']') and not (p == 'name' and macro(s.text)):
            return 'a text after'
        if k == 'name' and not macro(text) and (p in ('num', 'str', 'chr', ']') or p == ')' and s.text == 'call'):
            return 'a name after'
        if k == '}' and s.stack and s.stack[-1][0] == 'block' and \
                (p in ('num', 'str', 'chr', 'name', ']') or p == ')' and s.text == 'call') \
                and not (p == 'name' and macro(s.text)):
            return 'the end of a block after'
        if k in (',', ')', ']') and p in (',', '=', '+', '-', '/', '==', '!=', '<=', '>=', '&&', '||') or \
                k == ',' and p == '(' or k == ';' and p in (',', '=', '+', '-', '/', '==', '!=', '(', '&&', '||') and \
                not (p == '(' and s.stack and s.stack[-1][2] == 'for'):
            return f'{k} after'
        return None


# ------------------------------------------------------------------------------------------------ numbers of arguments
LIBRARY = {'strlen': 1, 'strcmp': 2, 'strcpy': 2, 'strncpy': 3, 'strncmp': 3, 'memcpy': 3, 'memset': 3, 'malloc': 1, 'calloc': 2,
           'free': 1, 'exit': 1, 'floor': 1, 'ceil': 1, 'fabs': 1, 'sqrt': 1, 'stracpy': 3, 'coords_set': 3, 'coords_add': 2,
           'coords_sub': 2, 'rot_set_rotation': 4, 'rot_mul': 3, 'rot_copy': 2, 'rot_transpose': 2, 'rot_apply': 2}
VARIADIC = {'printf', 'fprintf', 'sprintf', 'snprintf', 'sscanf', 'fscanf', 'scanf'}


def calls(toks):
    """(name token, number of arguments) of every name ( ... ) whose arguments are there under the same conditions, all of them
    separated by commas outside of brackets"""
    code, directive = [], False
    for t in flat(toks):
        if t.kind == 'dir':
            directive = True
        if not directive and t.kind != 'comhole':
            code.append(t)
        if t.kind == 'enddir':
            directive = False
    for i, t in enumerate(code[:-1]):
        if t.kind != 'ident' or code[i + 1].text != '(' or code[i + 1].kind != 'punct' or kind_of(t) != 'name':
            continue
        depth, n, j = 0, 0, i + 1
        same = True
        while j < len(code):
            x = code[j]
            same = same and x.guards == t.guards and x.loops == t.loops
            if x.kind == 'punct' and x.text in ('(', '[', '{'):
                depth += 1
            elif x.kind == 'punct' and x.text in (')', ']', '}'):
                depth -= 1
                if depth == 0:
                    break
            elif depth == 1 and x.kind == 'punct' and x.text == ',':
                n += 1
            if not same or j - i > 200:
                same = False
                break
            j += 1
        if same and j < len(code):
            inner = [x for x in code[i + 2:j]]
            if any(x.kind == 'ident' and kind_of(x) is None and len(x.parts) > 1 for x in inner):
                continue
            yield t, (n + 1 if inner and not (len(inner) == 1 and inner[0].text == 'void') else 0)
