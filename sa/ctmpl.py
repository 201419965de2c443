"""The C program the translator writes, as a template, plus structural passes over it."""
from __future__ import annotations
import ast
import re
from .project import Project, Func, AnalysisBroken
from .absint import (Interp, State, HDict, HList, Ref, Seq, K, Const, Sym, Attr, Elem, Index, Item, App, MCall, Str, Phi,
                     Rep, Opt, Splice, Term, path_of, paths, walk, children, neg, conj, strip_iter, prune)
from .ctok import lex, flat, Tok, RepT, OptT, short, show_parts

OPAQUE_BASE = {'Expr', 'Value', 'BinaryOp', 'UnaryOp', 'TrinaryOp', 'Op', 'Vector', 'Angles', 'Orient'}

CONFIGS = [
    ('mcstas', dict(project=1, name='mcstas', fancy='McStas', url='http://www.mcstas.org'),
     dict(default_main=True, enable_trace=True, portable=True, include_runtime=True, embed_instrument_file=False)),
    ('mcxtrace', dict(project=2, name='mcxtrace', fancy='McXtrace', url='http://www.mcxtrace.org'),
     dict(default_main=True, enable_trace=True, portable=True, include_runtime=True, embed_instrument_file=True)),
    ('mcstas, external runtime', dict(project=1, name='mcstas', fancy='McStas', url='http://www.mcstas.org'),
     dict(default_main=False, enable_trace=False, portable=False, include_runtime=False,
          embed_instrument_file=False)),
]


def c_classes(p: Project):
    """helper classes of the translators package that describe C declarations: uninterpreted"""
    out = set()
    for m in p.modules.values():
        if m.name.endswith('translators.c_listener'):
            out |= {c.name for c in m.classes.values()}
    return out


def canon(t):
    """representation of a term with loop identities erased"""
    s = t if isinstance(t, str) else repr(t)
    s = re.sub(r'\[\*\d+\]', '[*]', s)
    s = re.sub(r'#\((.*?)\)\d+', r'#(\1)', s)
    s = re.sub(r'Rep\d+<', 'Rep<', s)
    s = re.sub(r'~\d+', '~', s)
    s = re.sub(r', \d+\)', ', _)', s)
    return s


class CProgram:
    def __init__(self, p: Project, name, runtime, config):
        self.p, self.name = p, name
        I = self.I = Interp(p, opaque=OPAQUE_BASE | c_classes(p))
        I.max_rec = 1
        # which libraries there are is not part of the text around them
        I.opaque_fn |= {'sort_include_hierarchy', '_handle_raw_c_include'}
        cls = p.find_class('CTargetVisitor')
        s = self.self_ = I.sym('self', cls)
        I.exact_types = {s: True}
        st = State()

        def mkdict(d):
            I.nheap += 1
            st.heap[I.nheap] = HDict(tuple(Seq('kv', (K(k), K(v))) for k, v in d.items()))
            return Ref(I.nheap)
        st.over[('attr', s, 'runtime')] = mkdict(runtime)
        st.over[('attr', s, 'config')] = mkdict(config)
        st.over[('attr', s, 'output')] = K(None)
        f = p.method(cls, 'translate')
        if f is None:
            raise AnalysisBroken('CTargetVisitor.translate not found')
        self.entry = f
        v, st = I.run(f, [], self_=s, state=st)
        self.state = st
        v = I.freeze(v, st)
        self.items = prune(v.items if isinstance(v, Seq) else (v,))
        n = sum(1 for _ in self.leaves(self.items))
        if n < 200:
            raise AnalysisBroken(f'the generated C template has only {n} pieces; translate() was not followed')
        self.toks, self.lex_problems = lex(self.items)
        self.source = 'self.source'

    def functions(self):
        """qualified names of the project functions interpreted to build this template"""
        return sorted({getattr(f, 'qualname', str(f)) for f in self.I.called})

    def leaves(self, items, guards=(), loops=()):
        """(leaf, guards, loops) in emission order"""
        for i in items:
            if isinstance(i, Rep):
                yield from self.leaves(i.items, guards, loops + ((i.lid, i.base),))
            elif isinstance(i, Opt):
                yield from self.leaves(i.a, guards + ((i.cond, True),), loops)
                yield from self.leaves(i.b, guards + ((i.cond, False),), loops)
            elif isinstance(i, Str):
                yield from self.leaves(i.parts, guards, loops)
            elif isinstance(i, Phi):
                yield from self.leaves((i.a,), guards + ((i.cond, True),), loops)
                yield from self.leaves((i.b,), guards + ((i.cond, False),), loops)
            else:
                yield i, guards, loops


_progs = {}


def programs(p: Project):
    key = id(p)
    if key not in _progs:
        _progs[key] = [CProgram(p, *c) for c in CONFIGS]
    return _progs[key]


def locate(p: Project, text, prefer='translators'):
    """file:line (function) of a string constant of the project containing `text` (for reports)"""
    text = text.strip('\n')
    best = None
    for m in sorted(p.modules.values(), key=lambda m: prefer not in m.name):
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Constant) and isinstance(node.value, str) and text and text in node.value:
                fn = enclosing(m, node.lineno)
                line = node.lineno + node.value[:node.value.find(text)].count('\n')
                best = f'{m.path}:{line}' + (f' ({fn})' if fn else '')
                return best
    return best


def enclosing(m, line):
    out = None
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.lineno <= line <= (n.end_lineno or n.lineno):
            out = n.name if out is None else f'{out}.{n.name}'
    return out


def where_of(p, fragments):
    """best location for any of the text fragments, longest first"""
    for f in sorted((x for x in fragments if isinstance(x, str)), key=len, reverse=True):
        f = f.strip()
        if len(f) >= 2:
            w = locate(p, f)
            if w:
                return w
    return None


# ---------------------------------------------------------------------------------------------- bracket balance
PAIR = {'(': ')', '[': ']', '{': '}'}
CLOSE = {v: k for k, v in PAIR.items()}


class Comp_:
    """conditional or repeated bundle of brackets"""
    def __init__(self, kind, key, syms, tok):
        self.kind, self.key, self.syms, self.tok = kind, key, tuple(syms), tok

    def __repr__(self):
        return f'{self.kind}<{self.key[:80]}>{list(self.syms)}'


def sym_eq_open_close(o, c):
    """does closer symbol c close opener symbol o"""
    if isinstance(o, tuple) and isinstance(c, tuple):
        return PAIR.get(o[0]) == c[0]
    if isinstance(o, Comp_) and isinstance(c, Comp_):
        if o.kind != c.kind or o.key != c.key:
            return False
        if len(o.syms) != len(c.syms):
            return False
        return all(sym_eq_open_close(a, b) for a, b in zip(o.syms, reversed(c.syms)))
    return False


def sym_show(s):
    if isinstance(s, tuple):
        return s[0]
    return ''.join(sym_show(x) for x in s.syms) + f' when {s.key[:100]}'


class Balance:
    """stack effect of a token tree; a syntactic necessary condition for the output to be a C program"""

    def __init__(self, p):
        self.p = p
        self.problems = []
        self.brackets = 0
        self.directives = 0
        self.optional = 0

    def report(self, msg, ctx):
        self.problems.append((msg, ctx))

    def ctx(self, toks, i):
        out = []
        for t in toks[max(0, i - 8):i + 4]:
            if isinstance(t, Tok):
                out.append(show_parts(t.parts))
            elif isinstance(t, RepT):
                out.append('{{repeat ...}}')
            else:
                out.append('{{optional ...}}')
        return ' '.join(out)

    def reduce(self, closers, openers, add, toks, i):
        """append symbol `add` = ('open'|'close', sym)"""
        k, s = add
        if k == 'open':
            openers.append(s)
            return
        if openers:
            if sym_eq_open_close(openers[-1], s):
                openers.pop()
                return
            if isinstance(s, tuple) and isinstance(openers[-1], tuple):
                self.report(f"'{sym_show(s)}' closes '{sym_show(openers[-1])}'", self.ctx(toks, i))
                openers.pop()
                return
            if isinstance(openers[-1], tuple) and isinstance(s, Comp_):
                closers.append(s)   # conditional close of an outer bracket: decided by the caller
                return
        closers.append(s)

    def seq(self, toks):
        closers, openers = [], []
        pp = []          # stack of dict(start=(closers,openers), branches=[...], key)
        i = 0
        n = len(toks)
        while i < n:
            t = toks[i]
            if isinstance(t, Tok):
                if t.kind == 'punct' and t.parts[0] in PAIR:
                    self.brackets += 1
                    openers.append((t.parts[0], t))
                elif t.kind == 'punct' and t.parts[0] in CLOSE:
                    self.reduce(closers, openers, ('close', (t.parts[0], t)), toks, i)
                elif t.kind == 'dir':
                    self.directives += 1
                    j = i + 1
                    words = []
                    while j < n and not (isinstance(toks[j], Tok) and toks[j].kind == 'enddir'):
                        words.append(toks[j])
                        j += 1
                    w = words[0].text if words and isinstance(words[0], Tok) else ''
                    key = ' '.join(show_parts(x.parts) if isinstance(x, Tok) else '\u2026' for x in words)
                    if w in ('if', 'ifdef', 'ifndef'):
                        pp.append(dict(c=list(closers), o=list(openers), br=[], key=key, els=False, i=i))
                    elif w in ('else', 'elif'):
                        if not pp:
                            self.report(f'#{w} without #if', self.ctx(toks, i))
                        else:
                            e = pp[-1]
                            e['br'].append((list(closers), list(openers)))
                            e['els'] = e['els'] or w == 'else'
                            closers, openers = list(e['c']), list(e['o'])
                    elif w == 'endif':
                        if not pp:
                            self.report('#endif without #if', self.ctx(toks, i))
                        else:
                            e = pp.pop()
                            e['br'].append((list(closers), list(openers)))
                            if not e['els']:
                                e['br'].append((list(e['c']), list(e['o'])))
                            closers, openers = self.join_pp(e, toks)
                    elif w == 'define':
                        # a macro body is its own balanced unit
                        c, o = self.seq([x for x in words[1:]])
                        if c or o:
                            bad = ''.join(sym_show(x) for x in c + o)
                            self.report(f"unbalanced '{bad}' in the body of a #define", self.ctx(toks, i + 3) + ' '.join(
                                show_parts(x.parts) for x in words if isinstance(x, Tok)))
                    i = j
            elif isinstance(t, RepT):
                self.optional += 1
                c, o = self.seq(t.toks)
                if c or o:
                    c, o = self.rep(t, c, o, toks, i)
                for s in c:
                    self.reduce(closers, openers, ('close', s), toks, i)
                openers.extend(o)
            elif isinstance(t, OptT):
                self.optional += 1
                ca, oa = self.seq(t.a)
                cb, ob = self.seq(t.b)
                c, o = self.opt(t, (ca, oa), (cb, ob), toks, i)
                for s in c:
                    self.reduce(closers, openers, ('close', s), toks, i)
                openers.extend(o)
            i += 1
        for e in pp:
            self.report(f'#{e["key"]} has no #endif in the same part of the output', self.ctx(toks, e['i'] + 4))
        return closers, openers

    @staticmethod
    def same(a, b):
        def k(x):
            return x[0] if isinstance(x, tuple) else (x.kind, x.key, tuple(k(s) for s in x.syms))
        return [k(x) for x in a] == [k(x) for x in b]

    def join_pp(self, e, toks):
        base = e['br'][0]
        if all(self.same(base[0], b[0]) and self.same(base[1], b[1]) for b in e['br'][1:]):
            return base
        # only-open or only-close relative to the entry
        c0, o0 = e['c'], e['o']
        key = 'cpp ' + e['key']
        deltas = []
        for c, o in e['br']:
            if self.same(c[:len(c0)], c0) and self.same(o[:len(o0)], o0):
                deltas.append((c[len(c0):], o[len(o0):]))
            elif self.same(c, c0) and self.same(o, o0[:len(o)]):
                # closed some of the outer openers
                closed = [(PAIR[x[0]], x[1]) if isinstance(x, tuple) else x for x in reversed(o0[len(o):])]
                if any(isinstance(x, Comp_) for x in closed):
                    # closing a composite inside the conditional: cannot be expressed, report below
                    deltas.append(None)
                else:
                    deltas.append((closed, []))
            else:
                deltas.append(None)
        if None not in deltas:
            nonempty = [d for d in deltas if d[0] or d[1]]
            if len(nonempty) >= 1:
                c, o = nonempty[0]
                if all(self.same(c, d[0]) and self.same(o, d[1]) for d in nonempty):
                    if o and not c:
                        return c0, o0 + [Comp_('OPT', key, o, None)]
                    if c and not o:
                        cl, op = list(c0), list(o0)
                        self.reduce(cl, op, ('close', Comp_('OPT', key, c, None)), toks, e['i'])
                        return cl, op
        self.report(f'the alternatives of #{e["key"]} do not open and close the same brackets', self.ctx(toks, e['i'] + 4))
        return c0, o0

    def opt(self, t, A, B, toks, i):
        (ca, oa), (cb, ob) = A, B
        if self.same(ca, cb) and self.same(oa, ob):
            return ca, oa
        cond = t.opt.cond
        k1, k0 = canon(cond), canon(neg(cond))
        if not ca and not cb:
            out = []
            if oa:
                out.append(Comp_('OPT', k1, oa, t))
            if ob:
                out.append(Comp_('OPT', k0, ob, t))
            return [], out
        if not oa and not ob:
            out = []
            if ca:
                out.append(Comp_('OPT', k1, ca, t))
            if cb:
                out.append(Comp_('OPT', k0, cb, t))
            return out, []
        self.report(f'alternatives of "{short(cond)}" open and close different brackets: '
                    f"{''.join(map(sym_show, ca))}|{''.join(map(sym_show, oa))} against "
                    f"{''.join(map(sym_show, cb))}|{''.join(map(sym_show, ob))}", self.ctx(toks, i))
        return [], []

    def rep(self, t, c, o, toks, i):
        key = canon(repr(strip_iter(unwrap(t.rep.base))))
        if not c:
            return [], [Comp_('REP', key, o, t)]
        if not o:
            return [Comp_('REP', key, c, t)], []
        # first iteration / later iterations
        lid = t.rep.lid
        first = self.seq(self.spec(t.toks, lid, True))
        later = self.seq(self.spec(t.toks, lid, False))
        lc, lo = later
        if self.preserving(lc, lo):
            return first
        self.report(f'each repetition over {short(t.rep.base)} changes the bracket nesting: closes '
                    f"{' '.join(map(sym_show, lc))} opens {' '.join(map(sym_show, lo))}", self.ctx(t.toks, 0))
        return [], []

    @staticmethod
    def preserving(lc, lo):
        if len(lc) != len(lo):
            return False
        return all(sym_eq_open_close(a, b) for a, b in zip(lo, reversed(lc)))

    def spec(self, toks, lid, first):
        """specialise guards on the position being 0 (first) or positive"""
        out = []
        for t in toks:
            if isinstance(t, OptT):
                c = fold_index(t.opt.cond, lid, first)
                if c is True:
                    out.extend(self.spec(t.a, lid, first))
                elif c is False:
                    out.extend(self.spec(t.b, lid, first))
                else:
                    out.append(OptT(Opt(c, t.opt.a, t.opt.b), self.spec(t.a, lid, first), self.spec(t.b, lid, first),
                                    t.guards, t.loops))
            elif isinstance(t, RepT):
                out.append(RepT(t.rep, self.spec(t.toks, lid, first), t.guards, t.loops))
            else:
                out.append(t)
        return out


def unwrap(b):
    while isinstance(b, App) and b.fn in ('reversed', 'reversed_of', 'enumerated', 'sorted', 'sorted_of'):
        b = b.args[0]
    return b


def fold_index(c, lid, first):
    """simplify a condition knowing Index(lid)==0 (first) or >0; returns True/False/term"""
    if isinstance(c, Const):
        return bool(c.v)
    if isinstance(c, Index) and c.lid == lid:
        return not first
    if isinstance(c, App):
        if c.fn == 'not':
            r = fold_index(c.args[0], lid, first)
            return (not r) if isinstance(r, bool) else App('not', (r,))
        if c.fn in ('and', 'or'):
            out = []
            for a in c.args:
                r = fold_index(a, lid, first)
                if isinstance(r, bool):
                    if c.fn == 'and' and not r:
                        return False
                    if c.fn == 'or' and r:
                        return True
                else:
                    out.append(r)
            if not out:
                return c.fn == 'and'
            return out[0] if len(out) == 1 else App(c.fn, tuple(out))
        if c.fn in ('eq', 'lt', 'le', 'gt', 'ge', 'ne', 'is') and len(c.args) == 2:
            a, b = c.args
            def isidx(x):
                return isinstance(x, Index) and x.lid == lid
            def const(x):
                return x.v if isinstance(x, Const) and isinstance(x.v, int) else None
            if isidx(a) and const(b) is not None:
                k = const(b)
                if first:
                    return dict(eq=0 == k, lt=0 < k, le=0 <= k, gt=0 > k, ge=0 >= k, ne=0 != k, **{'is': 0 == k})[c.fn]
                if k <= 0:
                    return dict(eq=False, lt=False, le=False, gt=True, ge=True, ne=True, **{'is': False})[c.fn]
            if isidx(b) and const(a) is not None:
                k = const(a)
                if first:
                    return dict(eq=0 == k, lt=k < 0, le=k <= 0, gt=k > 0, ge=k >= 0, ne=0 != k, **{'is': 0 == k})[c.fn]
                if k <= 0:
                    return dict(eq=False, lt=True, le=True, gt=False, ge=False, ne=True, **{'is': False})[c.fn]
    return c
