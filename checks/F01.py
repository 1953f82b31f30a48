"""F01: keywords and operators are read and written with the same spelling."""
from front import *

RULES = {'spelled': 'every keyword and operator is written as a constant word: a letter followed by letters and digits', 'distinct': 'no two keywords or operators are written alike',
         'read': 'the written word, followed by anything that is not a letter or digit (or by the end of the input), is read as that very keyword or operator',
         'only': 'a keyword or operator is read only for its own spelling', 'other': 'a word that is nobody\'s spelling is an error that is reported', 'floor': 'number of words'}
KW, OP = F + 'token::Keyword', 'koopa::ir::BinaryOp'


def words(ir, c):
    """{(enum, variant): spelling as written}"""
    out = {}
    for enum, root in ((KW, 'front::keyword_display'), (OP, 'disp::binop')):
        for v in ir.variants(enum):
            e = Eng(ir.u)
            st = St.new()
            f = Sym('f')
            outs = e.run(ir.fn(root), [ir.variant(enum, v), f], st)
            c.ran(e, outs)
            ws = {tuple(x.args[1] for x in o.st.eff if x.name == 'out') for o in outs if not any(x.name == 'iofail' for x in o.st.eff)}
            w = text(ws.pop()) if len(ws) == 1 else None
            ok = w is not None and w.op == 'str' and w.a[0] and ord(w.a[0][0]) in ALPHA and all(ord(x) in ALNUM for x in w.a[0])
            c.ob('spelled', '%s::%s' % (enum.split('::')[-1], v), ok and all(o.kind == 'ret' for o in outs), 'written as %s' % (show(w) if w else 'several texts'), outs[0].st.eff[0].site if outs and outs[0].st.eff else None)
            if ok: out[(enum, v)] = w.a[0]
    return out


def text(parts):
    return models.fmtcat(*[models.as_text(p) for p in parts]) if parts else Str('')


def run():
    c = Check('F01', 'The spelling each Display impl writes is computed by constant propagation over its MIR. The lexer is analysed abstractly (1) on every spelling followed by an arbitrary byte (a set of 256 values, split by the predicates '
              'the lexer applies) and an arbitrary rest, and (2) on completely arbitrary input: on every path that yields a keyword or operator the path condition must say that the word read equals its spelling.', RULES,
              ['std char predicates on one-byte characters follow Unicode', 'phf maps look a key up in their entries'])
    u = univ()
    ir = IR(u)
    f = Front(ir)
    ws = guarded(c, 'spelled', 'Display', lambda: words(ir, c)) or {}
    by = {}
    for k, w in ws.items(): by.setdefault(w, []).append(k[1])
    for w, vs in by.items(): c.ob('distinct', '`%s`' % w, len(vs) == 1, 'is the spelling of %s' % ', '.join(vs))

    def want(k): return f.kw(k[1]) if k[0] == KW else f.op(k[1])

    def exact(k, w):
        e, runs = f.tokens(reads(list(w)), 1, max_rec=1)
        c.ran(e, runs)
        seen = set()
        for st, (o,), (eff,) in runs:
            last = [x for x in eff if x.name in ('read', 'eof', 'ioerror')]
            tail = last[len(w):]
            if not tail: continue
            t = tail[0]
            if t.name == 'ioerror': continue
            if t.name == 'read' and e.bytedom(st, t.args[0]) & ALNUM: continue      # a longer word
            seen.add(t.name)
            got = f.is_tok(e, st, o)
            c.ob('read', '`%s`' % w, got is want(k), 'is not read as %s: %s' % (k[1], show_out(e, o)), eff[-1].site)
        c.ob('read', '`%s`' % w, seen == {'read', 'eof'}, 'followers analysed: %s' % sorted(seen))
    for k, w in sorted(ws.items()):
        guarded(c, 'read', '`%s`' % w, lambda: exact(k, w))

    def arbitrary():
        e, runs = f.tokens(reads([ALPHA]), 1, max_rec=1)
        c.ran(e, runs)
        back = {}
        for k, w in ws.items(): back[want(k)] = (k, w)
        nk = set()
        for st, (o,), (eff,) in runs:
            ins = [x for x in eff if x.name in ('read', 'eof', 'ioerror')]
            if ins[-1].name == 'ioerror': continue
            got = f.is_tok(e, st, o)
            word = [x.args[0] for x in ins if x.name == 'read']
            if ins[-1].name == 'read': word = word[:-1]
            if got is None:
                c.ob('other', 'arbitrary word', o.kind == 'ret' and any(x.name == 'error' for x in eff), 'is refused without an error: ' + show_out(e, o), eff[-1].site)
                continue
            if got not in back:
                c.ob('other', 'arbitrary word', False, 'is read as %s: %s' % (show(got), show_out(e, o)), eff[-1].site)
                continue
            k, w = back[got]
            eq = Eq(text_of(word), Str(w))
            c.ob('only', k[1], e.decide(st, eq) is True, 'is read for a word that need not be `%s`: %s' % (w, show_out(e, o)), eff[-1].site)
            nk.add(got)
        c.floor('words', len(nk), 32)
    guarded(c, 'only', 'arbitrary word', arbitrary)
    return c


if __name__ == "__main__":
    main(run)
