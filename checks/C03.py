"""C03: reading a raw program back yields the same program."""
from rawlib import *

RULES = {'same': 'the program made of a raw program has, in the order of the raw slices, exactly its functions, blocks, instructions and globals, each of its kind with each operand in its role', 'success': 'a well-formed raw program is accepted',
         'refused': 'a raw program with a slice of the wrong sort, a name that is no text, a function without a name or with a type that does not fit is refused with the documented code, and the output is left alone', 'panic': 'no path panics', 'floor': 'number of raw programs'}


class Back(Reader):
    def __init__(self, f, e, p, st):
        self.f, self.ir, self.e, self.st, self.p, self.vals = f, f.ir, e, st, p, {}

    def plain(self, v):
        c = self.c(v)
        return self.e.tyk(c.a[0])['vs'][c.a[1]]['n'] if c.op == 'adt' and not isinstance(c.a[0], str) and len(c.a) == 2 else super().plain(v)


def ops(t, shift=0):
    """operators of the reference become concrete ones"""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'op': return BINOPS[(int(t[1][1:]) + shift) % len(BINOPS)]
        return tuple(ops(x, shift) for x in t)
    return t


def permute(prog, how):
    """the same program with its blocks (but the first) and functions in another order"""
    globs, funcs = prog

    def blocks(bs):
        n = len(bs)
        order = [0] + (list(range(n - 1, 0, -1)) if how == 'reversed' else list(range(2, n)) + ([1] if n > 1 else []))
        new = {o: i for i, o in enumerate(order)}

        def op(x):
            if isinstance(x, tuple) and x and x[0] in ('bparam', 'inst') and isinstance(x[1], int): return (x[0], new[x[1]]) + x[2:]
            return tuple(op(y) for y in x) if isinstance(x, tuple) else x

        def inst(i):
            nm, t, k = i
            if k[0] == 'Branch': k = (k[0], op(k[1]), new[k[2]], op(k[3]), new[k[4]], op(k[5]))
            elif k[0] == 'Jump': k = (k[0], new[k[1]], op(k[2]))
            else: k = (k[0],) + tuple(op(y) for y in k[1:])
            return nm, t, k
        return tuple((bs[o][0], bs[o][1], tuple(inst(i) for i in bs[o][2])) for o in order)
    m = len(funcs)
    order = list(range(m - 1, -1, -1)) if how == 'reversed' else list(range(1, m)) + [0]
    new = {o: i for i, o in enumerate(order)}

    def callee(b): return tuple((n, ps, tuple((nm, t, (k[0], new[k[1]]) + k[2:] if k[0] == 'Call' else k) for nm, t, k in ins)) for n, ps, ins in b)
    return globs, tuple((funcs[o][0], funcs[o][1], funcs[o][2], callee(blocks(funcs[o][3]) if funcs[o][3] else ())) for o in order)


def engine(f, R):
    e = f.eng({**TYPE_GET, **f.counters()}, max_steps=400000, no_models=[m for m in models.MODELS if m.startswith('key_node_list')])
    e.unique_maps = e.unroll = e.fork_insert = True
    R.setup(e)
    st = St.new()
    for n, r in f.ranges.items(): st.bnd[App('lit', Str(n))] = r
    return e, st


OLD = Sym('old contents of the output')


def generate(R, e, st, raw):
    out = e.heap(st, OLD)
    return out, e.run(R.fns['koopa_generate_raw_to_koopa'], [e.heap(st, raw), out], st)


def code(R, e, o):
    v = e.canon(o.st, o.val)
    return e.tyk(v.a[0])['vs'][v.a[1]]['n'] if v.op == 'adt' and not isinstance(v.a[0], str) else show(v)[:100]


def same(d, f, R, n, prog):
    e, st = engine(f, R)
    raw = Writer(f, R, e, st).program(prog)
    out, outs = generate(R, e, st, raw)
    d.ran(e, outs)
    for o in outs:
        d.ob('panic', n, o.kind == 'ret', 'panics: %s' % show(o.val)[:300], o.site)
        if o.kind != 'ret': continue
        k = code(R, e, o)
        d.ob('success', n, k == 'Success', 'is refused with %s' % k, o.site)
        if k != 'Success': continue
        p = o.st.store[out.a[0]]
        if p.op != 'ref':
            d.ob('same', n, False, 'the output is %s' % show(p)[:100], o.site)
            continue
        try:
            got = Back(f, e, p, o.st).program()
            d.ob('same', n, got == prog, 'yields %s' % diff(got, prog), o.site)
        except Odd as x: d.ob('same', n, False, 'yields something unreadable: %s' % x, o.site)


def broken(f, R, prog):
    """(name, expected code, raw structures with one defect): every slice with items, every name and every function signature of the program"""
    W = []

    def writer():
        e, st = engine(f, R)
        return Writer(f, R, e, st)

    class Spoil(Writer):
        def __init__(self, e, st, at, how):
            super().__init__(f, R, e, st)
            self.at, self.how, self.k, self.what = at, how, -1, None

        def hit(self, sort, what):
            if sort != self.how[0]: return False
            self.k += 1
            if self.k == self.at: self.what = what
            return self.k == self.at

        def slice(self, kind, items):
            r = super().slice(kind, items)
            if items and self.hit('slice', 'a slice of %d %s items' % (len(items), kind)):
                wrong = [k for k in ('Unknown', 'Type', 'Function', 'BasicBlock', 'Value') if k != kind][self.how[1]]
                self.what += ' said to be of sort ' + wrong
                t = R.tid('RawSlice')
                return Adt(t, 0, *[self.V('RawSliceItemKind', wrong) if x == 'kind' else y for (x, _), y in zip(self.u.types[t]['vs'][0]['fs'], r.a[2:])])
            return r

        def name(self, s):
            if s is not None and self.hit('name', 'name %s is no UTF-8' % s): return App('cptr', App('bad utf8'))
            return super().name(s)

        def func(self, p, name, ty, params, blocks):
            if self.hit('noname', 'function %s has no name' % name): name = None
            if self.hit('type', 'function %s has a type that is none of a function' % name): ty = [INT, UNT, ('ptr', ty), ('arr', INT, 2)][self.how[1]]
            if blocks:
                if self.hit('params', 'function %s has a parameter less than its type' % name): ty = ('func', ty[1] + (INT,), ty[2])
                if self.hit('params', 'function %s has a parameter more than its type' % name): params = params + (('%more', INT),)
            super().func(p, name, ty, params, blocks)
    for how, want in [(('slice', i), 'RawSliceItemKindMismatch') for i in range(4)] + [(('name', 0), 'InvalidUtf8String'), (('noname', 0), 'NullPointerError')] + [(('type', i), 'TypeMismatch') for i in range(4)] + [(('params', 0), 'FuncParamNumMismatch')]:
        at = 0
        while True:
            e, st = engine(f, R)
            w = Spoil(e, st, at, how)
            raw = w.program(prog)
            if w.what is None: break
            yield w.what, want, e, st, raw
            at += 1


def refused(d, f, R, what, want, e, st, raw):
    out, outs = generate(R, e, st, raw)
    d.ran(e, outs)
    for o in outs:
        d.ob('panic', what, o.kind == 'ret', 'panics: %s' % show(o.val)[:300], o.site)
        if o.kind != 'ret': continue
        k = code(R, e, o)
        d.ob('refused', what, k == want, 'gives %s, expected %s' % (k, want), o.site)
        if k == want: d.ob('refused', what, o.st.store[out.a[0]] is OLD, 'the output is changed to %s' % show(o.st.store[out.a[0]])[:100], o.site)


EVERY = DECLS + ' fun @f ( %i : i32 , %p : * i32 , %a : * [ i32 , #2 ] ) : i32 { ; %e : ; %y = alloc [ i32 , #2 ] ; store { #k , #m } , %y ; %x = op %i , #k ; %l = load %p ; %q = getptr %p , %x ; %r = getelemptr %a , %l ; %w = call @d1 ( %x ) ; br %w , %s ( %x , %q ) , %t ; ' \
    '%s ( %b : i32 , %c : * i32 ) : ; store %b , %c ; jump %u ( %b ) ; %t : ; call @g ( %x , %r ) ; ret #z ; %u ( %v : i32 ) : ; ret %v ; } ; fun @g ( %n : i32 , %m : * i32 ) { ; %e : ; %0 = load @gi ; store undef , %m ; call @d0 ( ) ; ret ; }'


def run():
    c = Check('C03', 'Abstract interpretation of the MIR of koopa_generate_raw_to_koopa on raw programs built directly from a reference, covering every construct (every statement, initialiser, operand sort, control-flow graph and name class of the language) and several orders of blocks and functions; '
              'the resulting program is read back through the public accessors and compared with the reference. Use lists and phantom fields are arbitrary. Every slice, name and signature is then made wrong in turn.', RULES,
              ['std containers, boxes and CStr behave as documented', 'pointers other than names and return values are not null and point to structures of the declared type (documented requirement)'])
    u = univ('libkoopa')
    f = RawBuild(IR(u))
    R = RawRun(f)
    jobs, progs = [], {}
    for t in dict.fromkeys([*typed(), *named(), *mixed(3 if c.tier == 'thorough' else 2, False), *CFGS.values(), EVERY]):
        items, ok = reference(toks(t))
        s = Sem(items)
        if s.errors or s.grey: continue
        n = t.replace(DECLS, '..').replace(PARAMS, '..').replace(' ;', '')
        p = ops(s.program())
        progs.setdefault(p, n)
        if t in CFGS.values() or t is EVERY:
            for h in ('reversed', 'rotated'): progs.setdefault(permute(p, h), n + ' (%s)' % h)
            for k in range(1, len(BINOPS)) if t is EVERY else (): progs.setdefault(ops(s.program(), k), n + ' (operator %d)' % k)
    lens_ = []
    for t in LENGTHS: lens_.append((t.replace(' ;', ''), ops(Sem(reference(toks(t))[0]).program())))
    jobs = [('same', n, p) for p, n in progs.items()] + [('lens', n, p) for n, p in lens_]
    every = ops(Sem(reference(toks(EVERY))[0]).program())
    bad_ = list(broken(f, R, every))
    jobs += [('refused', i) for i in range(len(bad_))]
    jobs = spread(jobs, [('same', '%s: 258' % w, ops(Sem(reference(toks(t))[0]).program())) for w, t in BIG(258)])

    def go(d, j):
        if j[0] == 'refused': return guarded(d, 'refused', bad_[j[1]][0], lambda: refused(d, f, R, *bad_[j[1]]))
        f.ranges = LENS if j[0] == 'lens' else {}
        guarded(d, 'same', j[1], lambda: same(d, f, R, j[1], j[2]))
    parallel(c, jobs, go)
    c.floor('raw programs', len(progs), 300)
    c.floor('raw programs with a defect', len(bad_), 60)
    for n in list(progs.values())[:3]: c.sample(n)
    return c


if __name__ == '__main__': main(run)
