"""The parser on seeded token streams, and a reference grammar for them."""
from front import *

NEXT = F + 'lexer::Lexer::<T>::next_token'
KWS = ['I32', 'Undef', 'ZeroInit', 'Global', 'Alloc', 'Load', 'Store', 'GetPtr', 'GetElemPtr', 'Br', 'Jump', 'Call', 'Ret', 'Fun', 'Decl']
WORD = {'i32': 'I32', 'undef': 'Undef', 'zeroinit': 'ZeroInit', 'global': 'Global', 'alloc': 'Alloc', 'load': 'Load', 'store': 'Store', 'getptr': 'GetPtr',
        'getelemptr': 'GetElemPtr', 'br': 'Br', 'jump': 'Jump', 'call': 'Call', 'ret': 'Ret', 'fun': 'Fun', 'decl': 'Decl'}
LASTERR = mk('loc', 'lasterr', 0)
CHARS = '(){}[],:=*'


class Illegal(Exception): pass


def lit(v): return int(v) if v.lstrip('-').isdigit() else ('lit', v)


def toks(text):
    """token classes of a template: words, punctuation, SYMBOLS (@x, %x), #n (integer); `;` starts a new line"""
    out, line = [], 1
    import re
    for w in re.findall(r'[@%]\w+|#\w+|\w+|\S', text):
        if w == ';': line += 1; continue
        if w[0] in '@%': t = ('sym', w)
        elif w[0] == '#': t = ('int', w[1:])
        elif w in WORD: t = ('kw', WORD[w])
        elif w == 'op': t = ('op', 'o%d' % len(out))
        else: t = ('ch', w)
        out.append(t + (line,))
    return out


class Ref:
    """the grammar of the text form (one top-level item), over token classes; builds the expected tree as nested tuples"""
    def __init__(self, ts):
        self.ts, self.i = ts, 0

    def cur(self): return self.ts[self.i] if self.i < len(self.ts) else ('end', None, 10 ** 6)

    def take(self, k, v=None):
        t = self.cur()
        if t[0] != k or (v is not None and t[1] != v): raise Illegal(self.i)
        self.i += 1
        return t

    def at(self, k, v): return self.cur()[:2] == (k, v)
    def kw(self, v): self.take('kw', v)
    def ch(self, v): self.take('ch', v)
    def sym(self): return self.take('sym')[1]

    def item(self):
        t = self.cur()
        if t[0] == 'end': return ('End',)
        if t[0] != 'kw': raise Illegal(self.i)
        if t[1] == 'Global':
            self.i += 1
            n = self.sym(); self.ch('='); self.kw('Alloc'); ty = self.type(); self.ch(',')
            return ('GlobalDef', n, ('GlobalDecl', ty, self.init()))
        if t[1] == 'Fun':
            self.i += 1
            n = self.sym()
            ps = self.list(self.param)
            r = self.ret()
            self.ch('{')
            bs = [self.block()]
            while not self.at('ch', '}'): bs.append(self.block())
            self.i += 1
            return ('FunDef', n, ps, r, bs)
        if t[1] == 'Decl':
            self.i += 1
            n = self.sym()
            return ('FunDecl', n, self.list(self.type), self.ret())
        raise Illegal(self.i)

    def ret(self):
        if not self.at('ch', ':'): return None
        self.i += 1
        return self.type()

    def param(self):
        n = self.sym(); self.ch(':')
        return (n, self.type())

    def list(self, f):
        self.ch('(')
        out = []
        if not self.at('ch', ')'):
            out.append(f())
            while self.at('ch', ','):
                self.i += 1
                out.append(f())
        self.ch(')')
        return out

    def opt(self, f): return self.list(f) if self.at('ch', '(') else []

    def type(self):
        t = self.cur()
        if t[:2] == ('kw', 'I32'): self.i += 1; return ('IntType',)
        if t[:2] == ('ch', '*'): self.i += 1; return ('PointerType', self.type())
        if t[:2] == ('ch', '['):
            self.i += 1
            b = self.type(); self.ch(',')
            n = self.take('int')[1]; self.ch(']')
            return ('ArrayType', b, lit(n))
        if t[:2] == ('ch', '('): return ('FunType', self.list(self.type), self.ret())
        raise Illegal(self.i)

    def value(self):
        t = self.cur()
        self.i += 1
        if t[0] == 'sym': return ('SymbolRef', t[1])
        if t[0] == 'int': return ('IntVal', lit(t[1]))
        if t[:2] == ('kw', 'Undef'): return ('UndefVal',)
        raise Illegal(self.i - 1)

    def init(self):
        t = self.cur()
        self.i += 1
        if t[0] == 'int': return ('IntVal', lit(t[1]))
        if t[:2] == ('kw', 'Undef'): return ('UndefVal',)
        if t[:2] == ('kw', 'ZeroInit'): return ('ZeroInit',)
        if t[:2] == ('ch', '{'):
            es = [self.init()]
            while self.at('ch', ','):
                self.i += 1
                es.append(self.init())
            self.ch('}')
            return ('Aggregate', es)
        raise Illegal(self.i - 1)

    def block(self):
        n = self.sym()
        ps = self.opt(self.param)
        self.ch(':')
        out = []
        while True:
            s, last = self.stmt()
            out.append(s)
            if last: return ('Block', n, ps, out)

    def stmt(self):
        t = self.cur()
        if t[0] == 'sym':
            n = self.sym(); self.ch('=')
            return ('SymbolDef', n, self.expr()), False
        if t[0] != 'kw': raise Illegal(self.i)
        self.i += 1
        if t[1] == 'Store':
            if self.cur()[0] == 'sym': v = ('SymbolRef', self.sym())
            else: v = self.init()
            self.ch(',')
            return ('Store', v, self.sym()), False
        if t[1] == 'Call': return self.call(), False
        if t[1] == 'Br':
            c = self.value(); self.ch(',')
            a = self.sym(); x = self.opt(self.value); self.ch(',')
            b = self.sym(); y = self.opt(self.value)
            return ('Branch', c, a, x, b, y), True
        if t[1] == 'Jump':
            a = self.sym()
            return ('Jump', a, self.opt(self.value)), True
        if t[1] == 'Ret':
            return ('Return', self.value() if self.cur()[2] == t[2] else None), True
        raise Illegal(self.i - 1)

    def call(self):
        n = self.sym()
        return ('FunCall', n, self.list(self.value))

    def expr(self):
        t = self.cur()
        self.i += 1
        if t[0] == 'op':
            l = self.value(); self.ch(',')
            return ('BinaryExpr', ('op', t[1]), l, self.value())
        if t[0] != 'kw': raise Illegal(self.i - 1)
        if t[1] == 'Alloc': return ('MemDecl', self.type())
        if t[1] == 'Load': return ('Load', self.sym())
        if t[1] == 'GetPtr':
            s = self.sym(); self.ch(',')
            return ('GetPointer', s, self.value())
        if t[1] == 'GetElemPtr':
            s = self.sym(); self.ch(',')
            return ('GetElementPointer', s, self.value())
        if t[1] == 'Call': return self.call()
        raise Illegal(self.i - 1)


ITEMS = {'global zeroinit': 'global @x = alloc i32 , zeroinit', 'global aggregate': 'global @x = alloc [ i32 , #n ] , { #a , { undef , zeroinit } }', 'global undef': 'global @x = alloc * i32 , undef', 'global integer': 'global @x = alloc i32 , #a',
         'decl without parameters': 'decl @f ( )', 'decl': 'decl @f ( i32 , * ( i32 ) : i32 ) : [ i32 , #n ]', 'fun without parameters': 'fun @f ( ) { ; %e : ; ret ; }',
         'fun': 'fun @f ( %a : i32 , %b : [ i32 , #n ] ) : i32 { ; %e ( %p : i32 , %q : ( ) ) : ; ret %a ; }', 'fun with blocks': 'fun @f ( %a : i32 ) : i32 { ; %e : ; jump %r ; %r : ; ret %a ; }'}
STMTS = {'alloc': '%x = alloc * i32', 'load': '%x = load %y', 'getptr': '%x = getptr %y , #a', 'getelemptr': '%x = getelemptr %y , %z', 'binary': '%x = op %y , undef', 'call': '%x = call @g ( %y , #a )', 'call without value': 'call @g ( )',
         'store': 'store %x , %y', 'store integer': 'store #a , %y', 'store aggregate': 'store { #a , { zeroinit } } , %y', 'store undef': 'store undef , %y'}
ENDS = {'br': 'br %c , %a ( %x , #a ) , %b ( undef )', 'br without arguments': 'br #a , %a , %b', 'jump': 'jump %a ( %x )', 'jump without arguments': 'jump %a', 'ret': 'ret undef', 'ret integer': 'ret #a', 'ret without value': 'ret'}


def templates():
    """{name: (tokens, first and last position that may be changed)}"""
    out = {}
    pre, post = toks('fun @f ( ) { ; %e : ;'), len(toks('ret }'))
    for n, t in ITEMS.items(): out[n] = (toks(t), 0, len(toks(t)))
    for n, t in STMTS.items():
        ts = toks('fun @f ( ) { ; %e : ; ' + t + ' ; ret ; }')
        out[n] = (ts, len(pre), len(ts) - post + 1)
    for n, t in ENDS.items():
        ts = toks('fun @f ( ) { ; %e : ; ' + t + ' ; }')
        out[n] = (ts, len(pre), len(ts))
    return out


CLASSES = [('sym', '@n'), ('int', 'm'), ('op', 'o')] + [('kw', k) for k in KWS] + [('ch', x) for x in CHARS + '%'] + [('end', None)]
FAILS = [('err', None), ('fatal', None)]


def cname(t): return {'sym': 'a symbol', 'int': 'an integer', 'op': 'an operator', 'end': 'the end of the input', 'err': 'an unreadable token', 'fatal': 'a read error'}.get(t[0]) or {'kw': 'keyword ', 'ch': ''}[t[0]] + str(t[1])


BAD = ['fun @f ( ) { }', 'fun @f ( ) { } ; decl @g ( )', 'fun @f ( %a : i32 , ) { ; %e : ; ret ; }', 'fun @f ( %a ) { ; %e : ; ret ; }', 'fun @f ( i32 ) { ; %e : ; ret ; }', 'fun @f ( ) { ; %e : ; }', 'fun @f ( ) { ; %e : ; ret', 'fun @f ( ) { ; %e : ; ret ; %n = load %y ; }',
       'fun @f ( ) { ; %e : ; ret ; ret ; }', 'fun @f ( ) { ; %e : ; jump %e ; %r : ; }', 'fun @f ( ) { ; %e ( ) ; ret ; }', 'fun @f ( ) { ; ret ; }', 'fun @f ( ) ret', 'fun @f ( ) : { ; %e : ; ret ; }', 'global @x = alloc i32', 'global @x = alloc i32 ,', 'global @x = alloc i32 , { }',
       'global @x = alloc i32 , { #a , }', 'global @x = alloc i32 , { , #a }', 'global @x = alloc i32 , { #a #b }', 'global @x = alloc i32 , @y', 'global @x = alloc i32 , { @y }', 'global @x = load @y', 'decl @f ( i32 , )', 'decl @f ( , i32 )', 'decl @f ( i32 i32 )', 'decl @f', 'decl @f ( %a : i32 )', 'decl @f ( ) :',
       'decl @f ( [ i32 ] )', 'decl @f ( [ i32 , ] )', 'decl @f ( [ i32 , @n ] )', 'decl @f ( * )', 'decl @f ( [ , #n ] )', '#a', '@x = alloc i32', '; ; }', 'fun @f ( ) { ; %e : ; %x = store %a , %b ; ret ; }', 'fun @f ( ) { ; %e : ; %x = ret ; }', 'fun @f ( ) { ; %e : ; load %x ; ret ; }',
       'fun @f ( ) { ; %e : ; %x = %y ; ret ; }', 'fun @f ( ) { ; %e : ; %x = op %y ; ret ; }', 'fun @f ( ) { ; %e : ; br %c , %a ; }', 'fun @f ( ) { ; %e : ; br %c ; }', 'fun @f ( ) { ; %e : ; jump ; }', 'fun @f ( ) { ; %e : ; jump #a ; }', 'fun @f ( ) { ; %e : ; store %a ; ret ; }',
       'fun @f ( ) { ; %e : ; store zeroinit ; ret ; }', 'fun @f ( ) { ; %e : ; store %a , #b ; ret ; }', 'fun @f ( ) { ; %e : ; %x = call @g ; ret ; }', 'fun @f ( ) { ; %e : ; call @g ( %a , ) ; ret ; }', 'fun @f ( ) { ; %e : ; ret zeroinit ; }', 'fun @f ( ) { ; %e : ; %x = load #a ; ret ; }',
       'fun @f ( ) { ; %e : ; %x = getptr #a , %y ; ret ; }', 'fun @f ( ) { ; %e : ; %x = op zeroinit , #a ; ret ; }', 'fun @f ( ) { ; %e : ; ret { #a } ; }', 'fun @f ( ) { ; fun @g ( ) { ; %e : ; ret ; } }', 'fun @f ( ) { ; global @x = alloc i32 , #a ; %e : ; ret ; }', 'global global @x = alloc i32 , #a', '% x', 'fun @f ( ) { ; %e : ; ret ; } }']


def bad():
    for t in BAD:
        ts = toks(t)
        assert not reference(ts)[1], t
        yield t.replace(' ;', ''), ts


QUICK = [('sym', '@n'), ('int', 'm'), ('ch', ','), ('ch', ':')]


def changed(insert=True):
    """(name, tokens): every template with one token replaced, removed or inserted, followed by another item"""
    tail = toks('; decl @z ( )')
    for n, (ts, a, b) in templates().items():
        t2 = [(k, v, l + ts[-1][2]) for k, v, l in tail]
        for i in range(a, b):
            old = (cname(ts[i]) if ts[i][0] != 'int' else 'the integer') + ' (token %d)' % (i - a + 1)
            yield '%s without %s' % (n, old), ts[:i] + ts[i + 1:] + t2
            for c in CLASSES + FAILS:
                if c[:2] != ts[i][:2] and not (c[0] == ts[i][0] and c[0] in ('sym', 'int', 'op')):
                    yield '%s with %s in place of %s' % (n, cname(c), old), ts[:i] + [c + (ts[i][2],)] + (ts[i + 1:] + t2 if c[0] != 'end' else [])
                if insert or c[:2] in QUICK: yield '%s with %s before %s' % (n, cname(c), old), ts[:i] + [c + (ts[i][2],)] + (ts[i:] + t2 if c[0] != 'end' else [])


ASTF = {'IntType': (), 'ArrayType': ('base', 'len'), 'PointerType': ('base',), 'FunType': ('params', 'ret'), 'SymbolRef': ('symbol',), 'IntVal': ('value',), 'UndefVal': (), 'Aggregate': ('elems',),
        'ZeroInit': (), 'SymbolDef': ('name', 'value'), 'GlobalDef': ('name', 'value'), 'MemDecl': ('ty',), 'GlobalDecl': ('ty', 'init'), 'Load': ('symbol',), 'Store': ('value', 'symbol'),
        'GetPointer': ('symbol', 'value'), 'GetElementPointer': ('symbol', 'value'), 'BinaryExpr': ('op', 'lhs', 'rhs'), 'Branch': ('cond', 'tbb', 'targs', 'fbb', 'fargs'), 'Jump': ('target', 'args'),
        'FunCall': ('fun', 'args'), 'Return': ('value',), 'FunDef': ('name', 'params', 'ret', 'bbs'), 'Block': ('name', 'params', 'stmts'), 'FunDecl': ('name', 'params', 'ret'), 'End': (), 'Error': ()}


def reference(ts):
    """([trees of the items], legal)"""
    r = Ref(ts)
    out = []
    try:
        while True:
            out.append(r.item())
            if out[-1] == ('End',): return out, True
    except Illegal:
        return out, False


class Parse(Front):
    def __init__(self, ir):
        super().__init__(ir, 14)
        self._pos = {}
        self._spans = {}

    # ---------- spans and tokens
    def pos(self, line, col):
        if (line, col) not in self._pos:
            e = self.eng()
            if (line, col) == (1, 0):
                o, = e.run(self.ir.fn('span::pos_new'), [])
                self._pos[line, col] = e.canon(o.st, o.val)
            else:
                p, c = ((line, col - 1), ' ') if col else ((line - 1, 0), '\n')
                st = St.new()
                h = e.heap(st, self.pos(*p))
                o, = e.run(self.ir.fn('span::pos_update'), [h, Char(ord(c))], st)
                self._pos[line, col] = e.canon(o.st, e.read(o.st, h.a[0], h.a[1]))
        return self._pos[line, col]

    def span(self, line, c1, c2):
        k = (line, c1, c2)
        if k not in self._spans:
            e = self.eng()
            o, = e.run(self.ir.fn('span::new'), [self.pos(line, c1)])
            st = o.st
            h = e.heap(st, e.canon(st, o.val))
            o, = e.run(self.ir.fn('span::update'), [h, self.pos(line, c2)], st)
            self._spans[k] = e.canon(o.st, e.read(o.st, h.a[0], h.a[1]))
        return self._spans[k]

    def token(self, t, n):
        k, v, line = t
        kind = {'kw': lambda: self.kw(v), 'op': lambda: self.tk('BinaryOp', Sym('op:' + v)), 'ch': lambda: self.ch(v), 'sym': lambda: self.sym(Sym('s:' + v)),
                'int': lambda: self.tk('Int', self.intsym(v)), 'end': lambda: self.end}[k]()
        return self.ir.struct(F + 'token::Token', {'span': self.span(line, 2 * n % 60 + 1, 2 * n % 60 + 2), 'kind': kind})

    def intsym(self, v): return Int(int(v)) if v.lstrip('-').isdigit() else App('lit', Str(v))

    def stream(self, ts):
        """the lexer yields these tokens, then the end for ever; 'err' and 'fatal' are errors it has reported"""
        def h(e, st, args, C):
            n = st.store.get(POS, Int(0)).a[0]
            st.store[POS] = Int(n + 1)
            t = ts[n] if n < len(ts) else ('end', None, ts[-1][2] + 1 if ts else 1)
            if t[0] in ('err', 'fatal'):
                counted(e, st, ERRS)
                e.effect(st, 'error', (Str('Fatal' if t[0] == 'fatal' else 'Normal'), Str('lexer')), C.site)
                return [Out(st, 'ret', Adt(C.dtid, 1, self.error(e, 'Fatal' if t[0] == 'fatal' else 'Normal')))]
            return [Out(st, 'ret', Adt(C.dtid, 0, self.token(t, n)))]
        return {NEXT: h}

    def ast(self, kind, n=0, **fs):
        """an Ast term of this kind; unset fields are opaque"""
        t = self.ir.tid(F + 'ast::' + kind)
        names = [x for x, _ in self.u.types[t]['vs'][0]['fs']]
        return self.ir.struct(F + 'ast::Ast', {'span': Sym('span%s' % n), 'kind': self.ir.variant(F + 'ast::AstKind', kind, self.ir.struct(F + 'ast::' + kind, {x: fs.get(x, Sym('%s%s' % (x, n))) for x in names}))})

    def error(self, e, kind):
        t = F + 'span::Error'
        vs = [v for v in self.ir.variants(t)]
        n = len(self.u.types[self.ir.tid(t)]['vs'][vs.index(kind)]['fs'])
        return self.ir.variant(t, kind, *[App('message', Str('lexer'))] * n)

    # ---------- results
    def start(self, e, ts):
        """a state in which the literals of the stream are in range"""
        st = St.new()
        for t in ts:
            if t[0] == 'int' and not t[1].lstrip('-').isdigit(): st.bnd[self.intsym(t[1])] = self.ranges.get(t[1], (1, 2 ** 31 - 1))
        return st
    ranges = {}

    def parse(self, ts, limit=8):
        """all outcomes of parsing the whole stream: (engine, [(state, [results], kind of end)]); the end is 'end', 'err', 'fatal', 'panic' or 'more'"""
        e = self.eng(self.stream(ts))
        done = []
        runs = []
        for o in e.run(self.ir.fn('front::parser_new'), [Sym('lexer')], self.start(e, ts)):
            r = self.result(e, o.st, o, new=True)
            if isinstance(r, str): done.append((o.st, [], r))
            else: runs.append((o.st, [], e.heap(o.st, r)))
        for _ in range(limit):
            nxt = []
            for s, rs, p in runs:
                for o in e.run(self.ir.fn('front::parse_next'), [p], s):
                    r = self.result(e, o.st, o)
                    if isinstance(r, str): done.append((o.st, rs, r))
                    elif r[0] == 'End': done.append((o.st, rs + [r], 'end'))
                    else: nxt.append((o.st, rs + [r], p))
            runs = nxt
        return e, done + [(s, rs, 'more') for s, rs, _ in runs]

    def result(self, e, st, o, new=False):
        """the tree (or parser), or 'err' / 'fatal' / 'panic' / 'unknown'"""
        if o.kind != 'ret': return 'panic'
        v = e.canon(st, o.val)
        if v.op != 'adt': return 'unknown'
        if v.a[1] == 1:
            x = v.a[2]
            st.store[LASTERR] = x
            return 'fatal' if x.op == 'adt' and self.ir.variants(F + 'span::Error')[x.a[1]] == 'Fatal' else 'err'
        return v.a[2] if new else self.tree(e, st, v.a[2])

    def tree(self, e, st, t):
        """an Ast term as nested tuples (spans left out)"""
        t = e.canon(st, t)
        if t.op == 'ref': t = e.canon(st, e.read(st, t.a[0], t.a[1]))
        if t.op == 'str': return t.a[0]
        if t.op == 'sym' and t.a[0][:2] in ('s:', 'op'): return t.a[0][2:] if t.a[0][0] == 's' else ('op', t.a[0][3:])
        if t.op == 'int': return t.a[0]
        if t.op == 'app' and t.a[0] in ('cast:i32', 'cast:usize') and t.a[1].op == 'app' and t.a[1].a[0] == 'lit':
            lo, hi = st.bnd.get(t.a[1], (None, None))
            if lo is not None and lo >= (-2 ** 31 if t.a[0] == 'cast:i32' else 0) and (t.a[0] == 'cast:usize' or hi is not None and hi < 2 ** 31): t = t.a[1]
        if t.op == 'app' and t.a[0] == 'lit': return ('lit', t.a[1].a[0])
        if t.op == 'list': return [self.tree(e, st, x) for x in t.a]
        if t.op == 'adt' and t.a[0] == 'tuple': return tuple(self.tree(e, st, x) for x in t.a[2:])
        if t.op == 'adt':
            ty = e.tyk(t.a[0])
            if ty['name'] == 'std::option::Option': return self.tree(e, st, t.a[2]) if t.a[1] else None
            if ty['name'] == F + 'ast::Ast': return self.tree(e, st, e._adt_field(t, 'kind'))
            if ty['name'] == F + 'ast::AstKind':
                n = ty['vs'][t.a[1]]['n']
                x = e.canon(st, t.a[2])
                return (n,) + tuple(self.tree(e, st, e._adt_field(x, f)) for f in ASTF.get(n, ()))
        return t
