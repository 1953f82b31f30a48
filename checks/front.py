"""The front end on seeded inputs: character streams, token streams and syntax trees."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *

POS = mk('loc', 'stream', 0)
ERRS, WARNS = mk('loc', 'errs', 0), mk('loc', 'warns', 0)
F = 'koopa::front::'
SPAN = F + 'span::Span::'
EOF = None


def counted(e, st, cell, n=1):
    st.store[cell] = add(st.store.get(cell, Int(0)), Int(n))


def loggers():
    """the logging functions of Span as events (what they do themselves is decided by F02/F03)"""
    def err(kind):
        def h(e, st, args, C):
            counted(e, st, ERRS)
            st.n += 1
            e.effect(st, 'error', (Str(kind), as_msg(e, st, args[-1]), Int(st.n)), C.site)
            t = e.tyk(C.dtid)
            vi = [v['n'] for v in t['vs']].index(kind)
            return [Out(st, 'ret', Adt(C.dtid, vi, *[App('message', Int(st.n))] * len(t['vs'][vi]['fs'])))]
        return h

    def warn(e, st, args, C):
        counted(e, st, WARNS)
        e.effect(st, 'warning', (as_msg(e, st, args[-1]),), C.site)
        return [Out(st, 'ret', UNIT)]

    def num(cell):
        def h(e, st, args, C):
            return [Out(st, 'ret', st.store.get(cell, Int(0)))]
        return h

    def glob(e, st, args, C): return [Out(st, 'ret', UNIT)]
    return {SPAN + 'log_error': err('Normal'), SPAN + 'log_raw_error': err('Normal'), SPAN + 'log_fatal_error': err('Fatal'), SPAN + 'log_raw_fatal_error': err('Fatal'),
            SPAN + 'log_warning': warn, SPAN + 'log_raw_warning': warn, SPAN + 'error_num': num(ERRS), SPAN + 'warning_num': num(WARNS), SPAN + 'log_global': glob}


def as_msg(e, st, t):
    return e.canon(st, t)


def chars(text, fail_at=None):
    """the reader delivers exactly these characters (one per read), then the end of input; it fails at position fail_at"""
    def h(e, st, args, C):
        p = st.store.get(POS, Int(0)).a[0]
        st.store[POS] = Int(p + 1)
        if fail_at == p: return [Out(st, 'ret', Adt(C.dtid, 1, App('ioerror')))]
        if p >= len(text):
            st.store[POS] = Int(len(text) + 1)
            return [Out(st, 'ret', Adt(C.dtid, 0, Int(0)))]
        import models
        ptr = models.lastptr(e, st, args[1])
        root, path = e.to_place(ptr)
        c = text[p]
        e.write(st, root, path, Adt('array', 0, Int(ord(c)) if isinstance(c, str) else c), effect=False)
        return [Out(st, 'ret', Adt(C.dtid, 0, Int(1)))]
    return {'std::io::Read::read': h}


def reads(prefix=(), rest=True, fail=True):
    """the reader delivers the bytes of the prefix (characters, or sets of byte values), then (rest) any bytes; after the prefix
    it may end, and (fail) it may fail, at any point"""
    def h(e, st, args, C):
        import models
        e.bytes_in_use = True
        n = st.store.get(POS, Int(0)).a[0]
        out = []
        if n >= len(prefix):
            if fail:
                s = st.copy()
                e.effect(s, 'ioerror', (), C.site)
                out.append(Out(s, 'ret', Adt(C.dtid, 1, App('ioerror'))))
            s = st.copy() if rest else st
            e.effect(s, 'eof', (), C.site)
            s.store[POS] = Int(len(prefix) + 1)
            out.append(Out(s, 'ret', Adt(C.dtid, 0, Int(0))))
            if not rest: return out
        else:
            st.store[POS] = Int(n + 1)
        root, path = e.to_place(models.lastptr(e, st, args[1]))
        if n < len(prefix) and isinstance(prefix[n], str):
            b = Int(ord(prefix[n]))
        else:
            st.n += 1
            b = mk('byte', 'c%d' % st.n)
            if n < len(prefix): st.facts[mk('dom', b)] = mk('set', frozenset(prefix[n]))
        e.write(st, root, path, Adt('array', 0, b), effect=False)
        e.effect(st, 'read', (b,), C.site)
        return out + [Out(st, 'ret', Adt(C.dtid, 0, Int(1)))]
    return {'std::io::Read::read': h}


def as_char(b):
    return Char(b.a[0]) if b.op == 'int' else App('cast:char', b)


def text_of(bs):
    return models.fmtcat(*[as_char(b) for b in bs]) if bs else Str('')


ALL = frozenset(range(256))
def cls(f): return frozenset(i for i in range(256) if f(chr(i)))
ALPHA, NUM, ALNUM, SPACE = cls(models.CH['is_alphabetic']), cls(models.CH['is_numeric']), cls(models.CH['is_alphanumeric']), cls(models.CH['is_whitespace'])
NL = frozenset(b'\r\n')


class Front:
    def __init__(self, ir, max_rec=14):
        self.ir, self.u = ir, ir.u
        self.max_rec = max_rec

    def eng(self, opaque=None, **kw):
        e = Eng(self.u, opaque={**loggers(), **(opaque or {})}, **kw)
        e.max_rec = self.max_rec
        e.cells = (POS,)
        return e

    def tokens(self, oracle, n=1, max_rec=None, st=None):
        """the first n tokens of an input; yields (engine, state, [result or outcome], effects per token)"""
        e = self.eng(oracle)
        if max_rec: e.max_rec = max_rec
        st = st or St.new()
        l = e.heap(st, self.lexer())
        runs = [(st, [], [])]
        for _ in range(n):
            nxt = []
            for s, rs, es in runs:
                k = len(s.eff)
                for o in e.run(self.ir.fn('front::next_token'), [l], s):
                    nxt.append((o.st, rs + [o], es + [o.st.eff[k:]]))
            runs = nxt
        return e, runs

    def is_tok(self, e, st, o, kind=None):
        """the token kind of a successful result (None otherwise)"""
        if o.kind != 'ret': return None
        v = e.canon(st, o.val)
        if v.op == 'adt' and v.a[1] == 0:
            t = v.a[2]
            return e.canon(st, e._adt_field(t, 'kind')) if t.op == 'adt' else None
        return None

    # ---------- tokens
    def tk(self, kind, *fs):
        return self.ir.variant(F + 'token::TokenKind', kind, *fs)

    def kw(self, name): return self.tk('Keyword', self.ir.variant(F + 'token::Keyword', name))
    def op(self, name): return self.tk('BinaryOp', self.ir.variant('koopa::ir::BinaryOp', name))
    def ch(self, c): return self.tk('Other', Char(ord(c)))
    def sym(self, s): return self.tk('Symbol', Str(s) if isinstance(s, str) else s)
    def int(self, i): return self.tk('Int', Int(i) if isinstance(i, int) else i)
    @property
    def end(self): return self.tk('End')

    def lexer(self):
        """a fresh lexer term"""
        e = self.eng()
        outs = e.run(self.ir.fn('front::lexer_new'), [])
        assert len(outs) == 1
        return e.canon(outs[0].st, outs[0].val)

    def lex(self, text, fail_at=None):
        """outcomes of the first next_token on this text"""
        e = self.eng(chars(text, fail_at))
        st = St.new()
        l = e.heap(st, self.lexer())
        outs = e.run(self.ir.fn('front::next_token'), [l], st)
        return e, outs
