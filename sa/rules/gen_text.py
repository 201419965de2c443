"""C01: the generated C file is lexically well formed and bracket-balanced for every instrument"""
from __future__ import annotations
import re
from ..ctmpl import programs, Balance, canon, where_of
from ..ctok import flat, show_parts
from ..cadj import Neighbours, State, calls, LIBRARY, VARIADIC


def frags(ctx):
    return [x for x in re.split(r'<[^<>]*>|\{\{[^}]*\}\}|\s{2,}', ctx) if len(x.strip()) > 3]


def c01(p, rep):
    rep.rule('lexical', 'every comment and every string/character literal the template opens is closed again, on both '
             'sides of every alternative and at the end of every repeated piece')
    rep.rule('brackets', 'every ( [ { is closed by its partner: within one repetition, or by a repetition/alternative '
             'over the same collection under the same condition; macro bodies are balanced on their own')
    rep.rule('conditionals', 'every #if/#ifdef/#ifndef has its #endif in the same part of the output and its branches '
             'open and close the same brackets')
    rep.rule('adjacent', 'no number, text or name follows a number, a text, a call or (numbers and texts) a name without an '
             'operator or separator between; no statement ends before its end; no separator has nothing before it')
    rep.rule('arguments', 'all calls and definitions of one function have the same number of arguments, those of the C library '
             'and the geometry functions of the runtime the number these have')
    seen = set()
    for g in programs(p):
        rep.uses(*g.functions())
        lits = sum(1 for t in flat(g.toks) if t.kind in ('str', 'chr', 'comhole'))
        rep.ok('lexical', f'{g.name}: {lits} literals and comment holes', lits)
        for msg, ctx in g.lex_problems:
            k = canon(re.sub(r'S\[.*', 'S[', msg)) + ' near ' + canon(ctx.strip().splitlines()[-1] if ctx.strip() else '')
            if k not in seen:
                seen.add(k)
                rep.bad('lexical', k, f'{msg}; near: {ctx.strip()}', where_of(p, frags(ctx)), dict(config=g.name))
        b = Balance(p)
        c, o = b.seq(g.toks)
        rep.ok('brackets', f'{g.name}: {b.brackets} brackets in {b.optional} optional or repeated pieces', b.brackets)
        rep.ok('conditionals', f'{g.name}: {b.directives} preprocessor lines', b.directives)
        from ..ctmpl import sym_show
        for s in c + o:
            rep.bad('brackets', f'unclosed {canon(sym_show(s))}', f'{sym_show(s)} is never matched',
                    where_of(p, [sym_show(s)]), dict(config=g.name))
        for msg, ctx in b.problems:
            k = canon(msg) + ' near ' + canon(ctx)[:160]
            if k in seen:
                continue
            seen.add(k)
            rule = 'conditionals' if '#if' in msg or '#endif' in msg or 'cpp' in msg or msg.startswith('#') \
                or 'alternatives of #' in msg else 'brackets'
            rep.bad(rule, k, f'{msg}; near: {ctx}', where_of(p, frags(ctx)), dict(config=g.name))
        n = Neighbours()
        n.seq(g.toks, [State()])
        rep.ok('adjacent', f'{g.name}: {n.pairs} tokens', n.pairs)
        for msg, t in n.problems:
            k = f'{msg} before {canon(show_parts(t.parts))}'
            if k not in seen:
                seen.add(k)
                rep.bad('adjacent', k, f'{msg} what is before {show_parts(t.parts)}', where_of(p, frags(show_parts(t.parts))),
                        dict(config=g.name))
        counts = {}
        for t, n in calls(g.toks):
            name = canon(show_parts(t.parts))
            if name not in VARIADIC:
                counts.setdefault(name, {}).setdefault(n, t)
        for name, c in counts.items():
            right = LIBRARY.get(name)
            if len(c) > 1 or right is not None and set(c) != {right}:
                rep.bad('arguments', name, f'{name} is used with {" and with ".join(str(n) for n in sorted(c))} arguments'
                        + (f', it has {right}' if right is not None else ''), where_of(p, frags(name)), dict(config=g.name))
            else:
                rep.ok('arguments', f'{name} has {next(iter(c))}')
    rep.need('arguments', 150, 'functions')
    rep.need('adjacent', 20000, 'pairs of tokens')
    rep.need('brackets', 1500, 'brackets')
    rep.need('conditionals', 600, 'preprocessor lines')
