"""F09: every byte of the input belongs to exactly one token, comment or gap, and tokens carry exactly their bytes."""
from front import *

RULES = {'symbol': 'a symbol is @ or % and the letters, digits and underscores that follow it, all of them and nothing else', 'number': 'an integer token is the number its digits denote, over all adjacent digits',
         'word': 'a keyword or operator consists of letters and digits, all that are adjacent, and nothing else', 'other': 'any other character is a token of its own', 'end': 'the end token is produced only at the end of the input',
         'comment': 'a comment extends from // to the end of the line or from /* to the next */, and the token after it is produced', 'fatal': 'a read error ends lexing with a fatal error that is reported',
         'progress': 'refusing a token consumes at least one of its bytes', 'refused': 'input that is no token is refused with a reported error', 'accepted': 'well-formed tokens are accepted whatever follows them', 'position': 'a token\'s span is the line and column of its first and last character',
         'floor': 'number of analysed paths'}
US = frozenset(b'_')
AZ = frozenset(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
D9 = frozenset(b'0123456789')


def as_txt(t): return models.fmtcat(models.as_text(t))


def run():
    c = Check('F09', 'Abstract interpretation of the MIR of Lexer::next_token on arbitrary input: every byte is a set of 256 values split by the predicates the code applies, the input may end or fail at any read. '
              'On every path the bytes read since the last token are matched against the token produced. Loops are analysed for the first and a generic later iteration.', RULES,
              ['Read::read on a one-byte buffer returns 0 at the end, 1 with a byte, or an error', 'std char predicates and integer parsing behave as documented'])
    u = univ()
    ir = IR(u)
    f = Front(ir)
    TKN = F + 'token::TokenKind'
    kinds = {v: i for i, v in enumerate(ir.variants(TKN))}
    npaths = 0

    def dom(e, st, b): return frozenset([b.a[0]]) if b.op == 'int' else e.bytedom(st, b)

    def token(where, e, st, o, eff, pending, ended):
        """judge one token; returns the lookahead byte (or None) and whether the input has ended"""
        nonlocal npaths
        npaths += 1
        io = [x for x in eff if x.name in ('read', 'eof', 'ioerror')]
        site = eff[-1].site if eff else o.site
        det = lambda s: '%s; bytes: %s; %s' % (s, ' '.join(shown(e, st, b) for b in bs), show_out(e, o))
        bs = ([pending] if pending is not None else []) + [x.args[0] for x in io if x.name == 'read']
        if any(x.name == 'ioerror' for x in io):
            v = e.canon(st, o.val) if o.kind == 'ret' else None
            ok = v is not None and v.op == 'adt' and v.a[1] == 1 and e.tyk(v.a[2].a[0])['vs'][v.a[2].a[1]]['n'] == 'Fatal' and any(x.name == 'error' for x in eff)
            c.ob('fatal', where, ok, det('a read error is not reported as fatal'), site)
            return None
        end = ended or any(x.name == 'eof' for x in io)
        look = None if end or not bs else bs[-1]
        used = bs if end or not bs else bs[:-1]
        while used and dom(e, st, used[0]) <= SPACE: used = used[1:]
        rec = [x for x in eff if x.name.startswith('rec:')]
        ds = [dom(e, st, b) for b in used]
        if rec:
            # a comment, then the token after it
            one = len(ds) >= 2 and ds[0] == ds[1] == frozenset(b'/')
            blk = len(ds) >= 4 and ds[0] == ds[-1] == frozenset(b'/') and ds[1] == ds[-2] == frozenset(b'*')
            stop = one and not any(d & NL for d in ds[2:]) and (look is None or dom(e, st, look) <= NL)
            c.ob('comment', where, blk or stop, det('text that is no complete comment is skipped'), site)
            if blk: c.ob('comment', where, not any(a == frozenset(b'*') and b == frozenset(b'/') for a, b in zip(ds[2:-2], ds[3:-1])), det('a comment extends beyond its end'), site)
            rv = e.canon(st, o.val) if o.kind == 'ret' else None
            c.ob('comment', where, rv is not None and 'rec:' in show(rv), det('the token after a comment is not produced'), site)
            return None
        if o.kind != 'ret':
            c.ob('refused', where, False, det('panics'), o.site)
            return None
        k = f.is_tok(e, st, o)
        if k is None:
            c.ob('refused', where, any(x.name == 'error' for x in eff), det('refused without an error'), site)
            c.ob('progress', where, bool(used) or end, det('refused without consuming anything: the parser would read it again for ever'), site)
            return None
        n = ir.variants(TKN)[k.a[1]]
        if n == 'End':
            c.ob('end', where, end and not used, det('end of input, but there is more'), site)
            return None, True
        txt = text_of(used)
        if n == 'Symbol':
            ok = len(used) >= 2 and ds[0] <= frozenset(b'@%') and all(d <= ALNUM | US for d in ds[1:])
            c.ob('symbol', where, ok and as_txt(k.a[2]) is txt, det('symbol %s' % show(k.a[2])), site)
            if ok and look is not None and not ds[1] & NUM: c.ob('symbol', where, not dom(e, st, look) & (ALNUM | US), det('symbol %s ends early' % show(k.a[2])), site)
        elif n == 'Int':
            v = e.canon(st, k.a[2])
            okv = v.op == 'int' and txt.op == 'str' and v.a[0] == int(txt.a[0]) or v.op == 'app' and v.a[0] == 'ok' and v.a[1].a[0] == 'parse:i64' and as_txt(v.a[1].a[1]) is txt
            ok = ds and ds[0] <= NUM | frozenset(b'-') and all(d <= NUM for d in ds[1:])
            c.ob('number', where, ok and okv, det('number %s' % show(v)), site)
            if look is not None: c.ob('number', where, not dom(e, st, look) & NUM, det('number %s ends early' % show(v)), site)
        elif n in ('Keyword', 'BinaryOp'):
            c.ob('word', where, ds and ds[0] <= ALPHA and all(d <= ALNUM for d in ds[1:]), det('word'), site)
            if look is not None: c.ob('word', where, not dom(e, st, look) & ALNUM, det('word ends early'), site)
        elif n == 'Other':
            v = e.canon(st, k.a[2])
            c.ob('other', where, len(used) == 1 and v is as_char(used[0]), det('character %s' % show(v)), site)
        else:
            c.ob('refused', where, False, det('unknown token'), site)
        return look, end

    def shown(e, st, b):
        d = dom(e, st, b)
        if len(d) == 1: return repr(chr(min(d)))
        return '[%s]' % ''.join(chr(x) for x in sorted(d) if 33 <= x < 127)[:30]

    def arbitrary():
        e, runs = f.tokens(reads(), 1, max_rec=1)
        c.ran(e, runs)
        for st, (o,), (eff,) in runs: token('first token', e, st, o, eff, None, False)
        c.sample('first token of arbitrary input: %d paths' % len(runs))

    def after(name, prefix, kind):
        """the token after a given first one, in arbitrary input"""
        e = f.eng(reads(prefix))
        e.max_rec = 1
        st = St.new()
        l = e.heap(st, f.lexer())
        for o in e.run(ir.fn('front::next_token'), [l], st):
            if any(x.name == 'ioerror' for x in o.st.eff) or any(k.op == 'app' and k.a[0] == 'failed' and v for k, v in o.st.conds): continue
            r = token('`%s`' % name, e, o.st, o, o.st.eff, None, False)
            k = f.is_tok(e, o.st, o)
            c.ob('accepted', '`%s`' % name, k is not None and ir.variants(TKN)[k.a[1]] == kind, 'not read as %s: %s' % (kind, show_out(e, o)), o.st.eff[-1].site)
            if r is None: continue
            look, end = r
            m = len(o.st.eff)
            outs = e.run(ir.fn('front::next_token'), [l], o.st)
            c.ran(e, outs)
            for q in outs: token('after `%s`' % name, e, q.st, q, q.st.eff[m:], look, end)

    guarded(c, 'refused', 'first token', arbitrary)
    NOTID, NOTNUM, ANY = ALL - ALNUM - US, ALL - NUM, ALL
    for name, prefix, kind in (('%x', ['%', AZ | US, NOTID], 'Symbol'), ('(', ['('], 'Other'), ('7', [D9, NOTNUM], 'Int'), ('add', ['a', 'd', 'd', ALL - ALNUM], 'BinaryOp'), ('%0', ['%', '0', ANY], 'Symbol')):
        guarded(c, 'accepted', '`%s`' % name, lambda: after(name, prefix, kind))

    def written(e, root, v):
        e2 = Eng(u)
        st = St.new()
        outs = [q for q in e2.run(ir.fn(root), [e2.heap(st, v), Sym('f')], st) if not any(x.name == 'iofail' for x in q.st.eff)]
        if len(outs) != 1: return None
        t = models.fmtcat(*[models.as_text(x.args[1]) for x in outs[0].st.eff if x.name == 'out'])
        if t.op == 'fmt': t = models.fmtcat(*[written(e, 'span::pos_display', p.a[0]) or p if p.op == 'disp' and p.a[0].op == 'adt' and root != 'span::pos_display' else p for p in t.a])
        return t

    def accept(name, prefix, kind, follow, start=None, stop=None, lead=()):
        """prefix + any follower (or the end) must be the token; start and stop are its line and column"""
        for tail in (True, False):
            e, runs = f.tokens(reads(list(lead) + list(prefix) + ([follow] if tail else []), rest=tail, fail=False), 1, max_rec=4)
            c.ran(e, runs)
            for st, (o,), (eff,) in runs:
                site = eff[-1].site if eff else o.site
                if any(k.op == 'app' and k.a[0] == 'failed' and v and 'parse:' in show(k) and len(prefix) < 20 for k, v in st.conds): continue
                k = f.is_tok(e, st, o)
                ok = k is not None and ir.variants(TKN)[k.a[1]] == kind
                bs = [x.args[0] for x in eff if x.name == 'read'][len(lead):][:len(prefix)]
                if ok and kind == 'Symbol': ok = as_txt(k.a[2]) is text_of(bs)
                if ok and kind == 'Other': ok = k.a[2] is as_char(bs[0])
                c.ob('accepted', name, ok, 'is not accepted as %s: %s' % (kind, show_out(e, o)), site)
                if start and ok:
                    sp = e.canon(st, e._adt_field(e.canon(st, o.val).a[2], 'span'))
                    got = written(e, 'span::debug', sp)
                    want = Str('%d:%d-%d:%d' % (start + stop))
                    c.ob('position', name, got is want, 'spans %s, expected %s' % (show(got) if got else 'nothing', show(want)), site)
    cases = [('%a', ['%', AZ | US], 'Symbol', NOTID), ('@a', ['@', AZ | US], 'Symbol', NOTID), ('%ab', ['%', AZ | US, AZ | US | D9], 'Symbol', NOTID), ('@abc', ['@', AZ | US, AZ | US | D9, AZ | US | D9], 'Symbol', NOTID),
             ('%0', ['%', '0'], 'Symbol', ANY), ('%1', ['%', D9 - {48}], 'Symbol', NOTNUM), ('%12', ['%', D9 - {48}, D9], 'Symbol', NOTNUM), ('%123', ['%', D9 - {48}, D9, D9], 'Symbol', NOTNUM),
             ('1', [D9], 'Int', NOTNUM), ('-1', ['-', D9], 'Int', NOTNUM), ('12', [D9, D9], 'Int', NOTNUM), ('-12', ['-', D9, D9], 'Int', NOTNUM), ('-2147483648', list('-2147483648'), 'Int', NOTNUM)] + \
            [(x, [x], 'Other', ANY) for x in '(){}[],:=*']
    for name, p, k, fo in cases: guarded(c, 'accepted', name, lambda: accept(name, p, k, fo))
    for what, lead, l, col in (('at the start', '', 1, 0), ('after spaces', '  ', 1, 2), ('on the next line', '\n', 2, 0), ('after blank lines', '\n \n\t', 3, 1), ('after a line comment', '// x\n ', 2, 1), ('after a block comment', '/* a\n*/', 2, 2),
                               ('after a block comment on the line', '/* *x**/ ', 1, 9), ('after two comments', '/**///*/\n', 2, 0), ('after CR LF', '\r\n', 2, 0), ('after a slashed comment', '/*/ */', 1, 6), ('after an empty line comment', '//\n', 2, 0)):
        for name, p, k, fo in cases[:1] + cases[8:9] + cases[13:14]:
            guarded(c, 'position', '`%s` %s' % (name, what), lambda: accept('`%s` %s' % (name, what), p, k, fo, (l, col + 1), (l, col + len(p)), lead))
        guarded(c, 'position', 'word ' + what, lambda: accept('word ' + what, 'add', 'BinaryOp', ALL - ALNUM, (l, col + 1), (l, col + 3), lead))

    def readfail():
        for lead in ('', ' ', '(', '%', '%a', '1', 'add', '/', '//', '/*', '/**', '%1', '$a'):
            e, runs = f.tokens(reads(list(lead), rest=True), 1, max_rec=1)
            for st, (o,), (eff,) in runs:
                if any(x.name == 'ioerror' for x in eff): token('read error', e, st, o, eff, None, False)
    guarded(c, 'fatal', 'read error', readfail)
    c.floor('paths', npaths, 5000)
    return c


if __name__ == "__main__":
    main(run)
