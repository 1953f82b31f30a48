"""F08: what the Koopa printer writes is in the grammar the parser reads, with the same operands in the same roles."""
from printers import *
import parse
from building import diff
import re

RULES = {'word': 'keywords and operators are written as one constant word each, no two alike, and read from it', 'tokens': 'the written text consists of words, punctuation, names and integers of the language', 'read': 'the parser accepts the text and reads the construct that was printed, every operand in its role',
         'ok': 'printing succeeds when the writer accepts everything', 'floor': 'number of programs'}


class Unfit(Exception): pass


class Words(parse.Parse):
    """token streams whose operators are known: ('op', '=Add')"""
    def token(self, t, n):
        if t[0] == 'op' and t[1][0] == '=': return self.ir.struct(parse.F + 'token::Token', {'span': self.span(t[2], 2 * n % 60 + 1, 2 * n % 60 + 2), 'kind': self.op(t[1][1:])})
        return super().token(t, n)

    def tree(self, e, st, t):
        t = e.canon(st, t)
        if t.op == 'adt' and t.a[0] != 'tuple' and t.a[0] == self.op('Add').a[2].a[0]: return ('op', '=' + self.ir.variants('koopa::ir::BinaryOp')[t.a[1]])
        return super().tree(e, st, t)


def spelled(ir, c):
    """{word: token class} as the Display impls write them"""
    out = {}
    for enum, root, k in ((parse.F + 'token::Keyword', 'front::keyword_display', 'kw'), ('koopa::ir::BinaryOp', 'disp::binop', 'op')):
        for v in ir.variants(enum):
            e = Eng(ir.u)
            outs = e.run(ir.fn(root), [ir.variant(enum, v), Sym('f')], St.new())
            c.ran(e, outs)
            ws = {tuple(flat([x.args[1] for x in o.st.eff if x.name == 'out'])) for o in outs if not any(x.name == 'iofail' for x in o.st.eff)}
            w = ws.pop() if len(ws) == 1 else ()
            ok = len(w) == 1 and w[0].op == 'str' and w[0].a[0] not in out
            c.ob('word', v, ok, 'is not written as one constant word of its own')
            if ok: out[w[0].a[0]] = (k, v if k == 'kw' else '=' + v)
    # the lexer has the last word
    f = parse.Front(ir)
    for w, (k, v) in out.items():
        e, runs = f.tokens(parse.reads(list(w) + [' '], rest=False, fail=False), 1, max_rec=1)
        c.ran(e, runs)
        got = {f.is_tok(e, st, o) for st, (o,), _ in runs}
        c.ob('word', w, got == {f.kw(v) if k == 'kw' else f.op(v.lstrip('='))}, 'is read as %s' % ' '.join(show(x) if x else 'an error' for x in got), runs[0][1][0].site if runs else None)
    return out


def scan(text, words):
    """token classes of a text in which placeholders stand for the digits of unknown integers; or the offending text"""
    out, line, i = [], 1, 0
    for m in re.finditer(r'\s+|//[^\n]*|[@%](?:0|[1-9]\d*|[A-Za-z_]\w*)|-?(?:\d+|\x01\w+\x02)+|[A-Za-z][A-Za-z0-9]*|[(){}\[\],:=*]', text):
        if m.start() != i: break
        i, w = m.end(), m.group()
        line += w.count('\n')
        if w.isspace() or w[:2] == '//': continue
        if w[0] in '@%': t = ('sym', w)
        elif w[0] == '\x01' and w.count('\x01') == 1 and w[-1] == '\x02': t = ('int', w[1:-1])
        elif '\x01' in w: return out, w
        elif w[0] in '-0123456789': t = ('int', w)
        elif w.isalnum():
            if w not in words: return out, w
            t = words[w]
        else: t = ('ch', w)
        out.append(t + (line,))
    return out, text[i:i + 20] or None


class Expect:
    """the tree that stands for the described program"""
    def __init__(self, ir, d, name): self.ir, self.d, self.name = ir, d, name

    def ty(self, t):
        n = self.ir.variants('koopa::ir::TypeKind')[t.a[1]]
        if n == 'Int32': return ('IntType',)
        if n == 'Pointer': return ('PointerType', self.ty(t.a[2]))
        if n == 'Array': return ('ArrayType', self.ty(t.a[2]), t.a[3].a[0])
        if n == 'Function': return ('FunType', [self.ty(x) for x in t.a[2].a], self.ret(t.a[3]))
        raise Unfit('unit')

    def ret(self, t): return None if t is self.ir.UNIT else self.ty(t)

    def init(self, x):
        if x[0] == 'int': return ('IntVal', x[1] if isinstance(x[1], int) else ('lit', x[1].a[0]))
        if x[0] == 'zero': return ('ZeroInit',)
        if x[0] == 'undef': return ('UndefVal',)
        return ('Aggregate', [self.init(y) for y in x[2]])

    def value(self, x):
        if not isinstance(x, tuple): return ('SymbolRef', self.name(x))
        if x[0] in ('zero', 'agg'): raise Unfit('the grammar has no %s operand' % x[0])
        return self.init(x)

    def stmt(self, v, kind, o):
        def q(n): return self.value(o[n])
        def s(n):
            if isinstance(o[n], tuple): raise Unfit('the grammar has no constant there')
            return self.name(o[n])
        def vs(n): return [self.value(x) for x in o[n]]
        if kind == 'Store': return ('Store', self.init(o['value']) if isinstance(o['value'], tuple) else q('value'), s('dest'))
        if kind == 'Branch': return ('Branch', q('cond'), s('true_bb'), vs('true_args'), s('false_bb'), vs('false_args'))
        if kind == 'Jump': return ('Jump', s('target'), vs('args'))
        if kind == 'Return': return ('Return', None if o['value'] is None else q('value'))
        if kind == 'Call': x = ('FunCall', s('callee'), vs('args'))
        elif kind == 'Alloc': x = ('MemDecl', self.ty(self.d.ty[v].a[2]))
        elif kind == 'Load': x = ('Load', s('src'))
        elif kind == 'GetPtr': x = ('GetPointer', s('src'), q('index'))
        elif kind == 'GetElemPtr': x = ('GetElementPointer', s('src'), q('index'))
        else: x = ('BinaryExpr', ('op', '=' + opname(self.ir, o['op'])), q('lhs'), q('rhs'))
        return x if self.d.ty[v] is self.ir.UNIT else ('SymbolDef', self.name(v), x)

    def params(self, ps): return [(self.name(p), self.ty(self.d.ty[p])) for p in ps]

    def items(self):
        d, out = self.d, []
        for v, c in d.globals: out.append(('GlobalDef', self.name(v), ('GlobalDecl', self.ty(d.ty[v].a[2]), self.init(c))))
        for fn in [x for x in d.funcs if x.placed]:
            n = self.name(fn.o.f)
            if not fn.blocks: out.append(('FunDecl', n, [self.ty(t) for t in fn.ptys], self.ret(fn.ret)))
            else: out.append(('FunDef', n, self.params(fn.params), self.ret(fn.ret), [('Block', self.name(b), self.params(ps), [self.stmt(*i) for i in insts]) for b, ps, insts in fn.blocks]))
        return out + [('End',)]


def ended(d):
    """every block of the description ends with its only terminator"""
    END = ('Branch', 'Jump', 'Return')
    return all(insts and insts[-1][1] in END and not any(k in END for _, k, _ in insts[:-1]) for fn in d.funcs for _, _, insts in fn.blocks)


def terminated(mkd):
    """the description with a return added where a block does not end"""
    def f(d):
        mkd(d)
        for fn in d.funcs:
            for b, ps, insts in fn.blocks:
                if not insts or insts[-1][1] not in ('Branch', 'Jump', 'Return'):
                    fn.inst(b, 'end:%s' % show(b), d.ir.UNIT, 'Return', {'value': None})
        return d
    return f


def tup(x): return tuple(tup(y) for y in x) if isinstance(x, (tuple, list)) else x


def run():
    c = Check('F08', 'Abstract interpretation of the MIR of the Koopa printer on the seeded programs of B01 and B05 (opaque names and literals), giving the pieces written; the text is divided into tokens with the spellings the Display impls write, '
              'names standing for arbitrary distinct symbols and unknown integers for arbitrary integers; then abstract interpretation of the MIR of the parser on those tokens. The tree read must be the one of the printed program.', RULES,
              ['the lexer divides text into tokens as F01 and F09 check', 'names come from the NameManager (B03) and are symbols of the language'])
    u = univ()
    ir = IR(u)
    K = Koopa(ir)
    P = Words(ir)
    words = spelled(ir, c)
    types = {}
    jobs = [*cases(ir, ('koopa::back::koopa', 'koopa::back::generator')), *orders(ir)]
    unfit = []

    def typetext(t):
        if t not in types:
            e = Eng(u)
            outs = [o for o in e.run(ir.fn('types::kind_fmt'), [t, Sym('f')]) if o.kind == 'ret' and not any(x.name == 'iofail' for x in o.st.eff)]
            ws = {tuple(flat([x.args[1] for x in o.st.eff if x.name == 'out'])) for o in outs}
            if len(ws) != 1 or mk('disp', t) in min(ws): raise Imprecise('text of type %s' % show(t))
            types[t] = render(min(ws), {}, None)
        return types[t]

    def render(parts, names, name):
        s = ''
        for p in flat(parts):
            if p.op == 'str': s += p.a[0]
            elif p.op == 'disp' and p.a[0].op == 'int': s += str(p.a[0].a[0])
            elif p.op == 'disp' and p.a[0].op == 'str': s += p.a[0].a[0]
            elif p.op == 'disp' and p.a[0].op == 'char': s += chr(p.a[0].a[0])
            elif p.op == 'disp' and p.a[0].op == 'sym': s += '\x01' + p.a[0].a[0] + '\x02'
            elif p.op == 'disp' and p.a[0].op == 'adt' and p.a[0].a[0] == ir.I32.a[0]: s += typetext(p.a[0])
            elif p.op == 'app' and p.a[0] == 'N': s += name(p.a[1])
            else: s += '\0' + show(p)
        return s

    def one(dd, j):
        con, mkd = j

        def go():
            e = Eng(u)
            d = D(ir, e)
            terminated(mkd)(d)
            if not ended(d): return
            st = d.build()
            names = {}

            def name(x):
                if x not in names:
                    n = len(names)
                    names[x] = '@n%d' % n if x in d.P.fs or x in d.P.globs else ['%%n%d' % n, '%%%d' % n][n % 2]
                return names[x]
            try: want = Expect(ir, d, name).items()
            except Unfit: return unfit.append(con)
            outs, res = generate(d, K.root, st)
            dd.ran(e, outs)
            ok = 0
            for o, w, failed, after in res:
                if failed is not None: continue
                v = e.canon(o.st, o.val)
                good = o.kind == 'ret' and v.op == 'adt' and u.variant(v.a[0], v.a[1])['n'] == 'Ok'
                dd.ob('ok', con, good, show_out(e, o, 4), o.site)
                if not good: continue
                ok += 1
                site = ([x.site for x in o.st.eff if x.name == 'out' and 'rustlib' not in (x.site or '')] or [o.site])[-1]
                txt = render(named(d, w, K.table()), names, name)
                ts, rest = scan(txt, words)
                dd.ob('tokens', con, rest is None, 'writes "%s", which is no token, after %s' % (rest, txt[:300]), site)
                if rest is not None: continue
                e2, runs = P.parse(ts, 12)
                dd.ran(e2, [])
                dd.sample('%s: %d tokens' % (con, len(ts)))
                dd.ob('read', con, bool(runs), 'is not read', site)
                for st2, rs, k in runs:
                    errs = [x for x in st2.eff if x.name == 'error']
                    dd.ob('read', con, k == 'end' and not errs, '"%s" ends as %s%s' % (txt.replace("\n", " "), k, ': ' + show(errs[0].args[1]) if errs else ''), site)
                    if k == 'end' and not errs: dd.ob('read', con, repr(rs) == repr(want), '"%s" is read as %s' % (txt.replace("\n", " "), diff(tup(rs), tup(want), 'tree')), site)
            dd.ob('ok', con, ok >= 1, 'no successful outcome')
        guarded(dd, 'read', con, go)

    def named(d, parts, table):
        def go(t):
            if t.op == 'app' and t.a[0] == 'name' and t.a[1].a[0] != 'temp': return App('N', d.entity(t)[1])
            if t.op in ('fmt', 'disp'): return mk(t.op, *[go(x) for x in t.a])
            return t
        return [strip_disp(go(expand(p, table))) for p in flat(parts)]
    n0 = len(c.samples) if hasattr(c, 'samples') else 0
    parallel(c, jobs, one)
    c.floor('programs printed and read', len({x[1] for x in c.obl if x[0] == 'read'}), 240)
    return c


if __name__ == "__main__":
    main(run)
