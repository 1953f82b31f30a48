"""F07: literals out of range are rejected, not wrapped."""
from building import *

RULES = {'token': 'an integer token is the number written, or the text is refused with an error', 'in range': 'a literal in range is accepted and keeps its value', 'out of range': 'a literal or array length out of range is reported as an error',
         'kept': 'the number in the program is the number in the tree', 'panic': 'nothing panics', 'floor': 'number of places'}
I32, I64 = (-2 ** 31, 2 ** 31 - 1), (-2 ** 63, 2 ** 63 - 1)
WHERE = {'value of ret': 'fun @f ( ) : i32 { ; %e : ; ret #a ; }', 'value of store': 'fun @f ( ) { ; %e : ; store #a , %y ; ret ; }', 'element of store': 'fun @f ( ) { ; %e : ; store { undef , #a } , %y ; ret ; }', 'nested element of store': 'fun @f ( ) { ; %e : ; store { { #a } , undef } , %y ; ret ; }',
         'operand': 'fun @f ( ) { ; %e : ; %x = op #a , %y ; ret ; }', 'second operand': 'fun @f ( ) { ; %e : ; %x = op %y , #a ; ret ; }', 'index of getptr': 'fun @f ( ) { ; %e : ; %x = getptr %y , #a ; ret ; }', 'index of getelemptr': 'fun @f ( ) { ; %e : ; %x = getelemptr %y , #a ; ret ; }',
         'argument': 'fun @f ( ) { ; %e : ; call @g ( %y , #a ) ; ret ; }', 'argument of a named call': 'fun @f ( ) { ; %e : ; %x = call @g ( #a ) ; ret ; }', 'condition': 'fun @f ( ) { ; %e : ; br #a , %b , %c ; }', 'argument of br': 'fun @f ( ) { ; %e : ; br %x , %b ( #a ) , %c ; }', 'second argument of br': 'fun @f ( ) { ; %e : ; br %x , %b , %c ( %y , #a ) ; }',
         'argument of jump': 'fun @f ( ) { ; %e : ; jump %b ( #a ) ; }', 'initialiser': 'global @x = alloc i32 , #a', 'element of an initialiser': 'global @x = alloc [ i32 , #2 ] , { undef , #a }', 'nested element': 'global @x = alloc i32 , { { zeroinit , #a } }'}
LENS = {'length in alloc': 'fun @f ( ) { ; %e : ; %x = alloc [ i32 , #a ] ; ret ; }', 'length in a parameter': 'fun @f ( %p : [ i32 , #a ] ) { ; %e : ; ret ; }', 'length in a block parameter': 'fun @f ( ) { ; %e ( %p : [ i32 , #a ] ) : ; ret ; }', 'length in a result': 'fun @f ( ) : [ i32 , #a ] { ; %e : ; ret undef ; }',
        'length in a declaration': 'decl @f ( [ i32 , #a ] )', 'length in the result of a declaration': 'decl @f ( ) : [ i32 , #a ]', 'length in a pointer': 'decl @f ( * [ i32 , #a ] )', 'outer length': 'decl @f ( [ [ i32 , #2 ] , #a ] )', 'inner length': 'decl @f ( [ [ i32 , #a ] , #2 ] )', 'length in a global': 'global @x = alloc [ i32 , #a ] , undef', 'length in a function type': 'decl @f ( ( [ i32 , #a ] ) : i32 )'}


def run():
    c = Check('F07', 'Abstract interpretation of the MIR of the lexer on arbitrary digit strings, of the parser on every place of the grammar that takes a number, with the number known only to lie in one of the ranges that partition the 64-bit integers, and of Builder::build_on with opaque numbers.', RULES,
              ['i64 parsing fails exactly on numbers outside 64 bits (std)', 'usize has 64 bits'])
    ir = IR(univ())
    f = Build(ir)
    f.pos(1, 0)
    D9 = cls(models.CH['is_numeric'])

    def lexer(name, lead, n):
        e, runs = f.tokens(reads(lead + [D9] * n + [ALL - D9], fail=False), 1, max_rec=3)
        c.ran(e, runs)
        for st, (o,), (eff,) in runs:
            site = eff[-1].site if eff else o.site
            c.ob('panic', name, o.kind == 'ret', 'panics: ' + show_out(e, o), o.site)
            if o.kind != 'ret': continue
            k = f.is_tok(e, st, o)
            if k is None:
                c.ob('token', name, any(x.name == 'error' for x in eff), 'refused without an error', site)
                continue
            bs = [x.args[0] for x in eff if x.name == 'read'][:len(lead) + n]
            txt = text_of(bs)
            v = e.canon(st, k.a[2])
            okv = v.op == 'int' and txt.op == 'str' and v.a[0] == int(txt.a[0]) or v.op == 'app' and v.a[0] == 'ok' and v.a[1].a[0] == 'parse:i64' and models.fmtcat(models.as_text(v.a[1].a[1])) is txt
            c.ob('token', name, okv, 'the token of %s is %s' % (show(txt), show(v)), site)
    for s in ([], ['-']):
        for n in (1, 2, 3, 12, 20, 40): guarded(c, 'token', '%s%d digits' % (''.join(s), n), lambda: lexer('%s%d digits' % (''.join(s), n), s, n))
    for t in ('9223372036854775807', '-9223372036854775808', '9223372036854775808', '18446744073709551616', '-9223372036854775809', '340282366920938463463374607431768211457', '4294967296', '-2147483649', '00012', '-0', '-', '--1', '0x1'):
        def one():
            e, outs = f.lex(t + ' ')
            c.ran(e, outs)
            for o in outs:
                k = f.is_tok(e, o.st, o)
                want = int(t) if t.lstrip('-').isdigit() and t.count('-') < 2 and I64[0] <= int(t) <= I64[1] else None
                if t == '0x1': want = 0
                site = o.st.eff[-1].site if o.st.eff else o.site
                c.ob('token', '`%s`' % t, (k is not None and k.a[2] is Int(want)) if want is not None else o.kind == 'ret' and k is None and any(x.name == 'error' for x in o.st.eff), 'read as %s' % show_out(e, o), site)
        guarded(c, 'token', '`%s`' % t, one)

    def place(name, text, rng, ok):
        ts = toks(text)
        f.ranges = {'a': rng}
        want = reference(ts)[0]
        e, outs = f.parse(ts + [('kw', 'Decl', 99), ('sym', '@z', 99), ('ch', '(', 99), ('ch', ')', 99)])
        c.ran(e, outs)
        n = '%s in %d..%d' % (name, *rng)
        for st, rs, k in outs:
            errs = [x for x in st.eff if x.name == 'error']
            site = errs[0].site if errs else (st.eff[-1].site if st.eff else None)
            c.ob('panic', n, k != 'panic', 'panics', site)
            if k == 'panic': continue
            if ok: c.ob('in range', n, not errs and k == 'end' and repr(rs[:-2]) == repr(want[:-1]), '%s %s, expected %s' % ('refused:' if errs else 'read as', errs[0].args[1] if errs else rs[:-2], want[:-1]), site)
            else: c.ob('out of range', n, bool(errs), 'accepted as %s' % (rs[:-2],), site)
        f.ranges = {}
    for name, t in WHERE.items():
        for rng, ok in (((I64[0], I32[0] - 1), False), (I32, True), ((I32[1] + 1, I64[1]), False), ((I32[0], I32[0]), True), ((I32[1], I32[1]), True)): guarded(c, 'in range' if ok else 'out of range', name, lambda: place(name, t, rng, ok))
    for name, t in LENS.items():
        for rng, ok in (((I64[0], -1), False), ((0, 0), False), ((1, I64[1]), True), ((1, 1), True)): guarded(c, 'in range' if ok else 'out of range', name, lambda: place(name, t, rng, ok))
    c.floor('places', len(WHERE) + len(LENS), 25)

    for name, t in {**WHERE, **LENS}.items():
        t = DECLS.replace('#a', '#z') + ' ' + t.replace('%y', '@gi').replace('@x', '@xx').replace('@f', '@ff').replace('@g ', '@d1 ').replace('%b', '%e')
        items, ok = reference(toks(t))
        s = Sem(items)
        if s.errors: continue
        f.ranges = {'a': (1, I64[1])} if name in LENS else {}
        guarded(c, 'kept', name, lambda: verdict(c, f, name, items, ('kept', None, 'panic', 'kept')))
    return c


if __name__ == "__main__":
    main(run)
