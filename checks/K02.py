"""K02: value_uses / bb_uses list every operand of every kind of value, exactly once, in order."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *

# the specification: operands by public accessor, in order
VALUES = {'Aggregate': ['elems*'], 'GlobalAlloc': ['init'], 'Load': ['src'], 'Store': ['value', 'dest'], 'GetPtr': ['src', 'index'],
          'GetElemPtr': ['src', 'index'], 'Binary': ['lhs', 'rhs'], 'Branch': ['cond', 'true_args*', 'false_args*'], 'Jump': ['args*'],
          'Call': ['args*'], 'Return': ['value?']}
BBS = {'Branch': ['true_bb', 'false_bb'], 'Jump': ['target']}


LENS = [0, 1, 2, 3]


def shapes(k):
    """assignments of symbolic operands to a kind: list lengths 0..3 (each list), option none/some"""
    out = [{}]
    for f in FIELDS[k]:
        n = f.strip('*?')
        nxt = []
        for a in out:
            if f.endswith('*'):
                for L in LENS:
                    nxt.append(dict(a, **{n: [Sym('%s%d' % (n, i)) for i in range(L)]}))
            elif f.endswith('?'):
                nxt += [dict(a, **{n: None}), dict(a, **{n: Sym(n)})]
            else:
                nxt.append(dict(a, **{n: Sym(n)}))
        out = nxt
    return out


def expected(spec, k, a):
    r = []
    for f in spec.get(k, []):
        v = a[f.strip('*?')]
        if isinstance(v, list): r += v
        elif v is not None: r.append(v)
    return r


def kind_term(ir, k, a):
    ops = {}
    for f in FIELDS[k]:
        n = f.strip('*?')
        v = a[n]
        if f.endswith('?'):
            v = ir.option(ir.kind_field_tid(k, n), v)
        ops[n] = v
    return ir.kind(k, **ops)


def run():
    c = Check('K02', 'Abstract interpretation of the MIR of ValueKind::value_uses/bb_uses together with the iterator it returns, once per variant of '
              'ValueKind, list shape and option shape, with opaque operands; the sequence of operands handed to the consumer is compared with the operand '
              'table. A second pass leaves every list symbolic (zero, first and one generic widened iteration) and requires each yielded element to be an '
              'operand position of that kind.',
              {'order': 'the iterator yields exactly the operands of the kind, each once, in operand order', 'generic': 'with lists of unknown length every element '
               'yielded is an operand and the walk ends only when every list is exhausted', 'exhaustive': 'the operand table covers every variant of ValueKind',
               'accessor': 'the _mut accessor of an operand addresses the same operand as the reader'},
              ['models of core/alloc containers and iterators (engine/models.py)'])
    u = univ()
    ir = IR(u)
    LENS[:] = lens(u, [0, 1, 2, 3])
    vs = ir.variants('koopa::ir::ValueKind')
    c.ob('exhaustive', 'ValueKind', set(vs) == set(KINDS), 'variants: %s' % vs)
    for k, l in FIELDS.items():
        for f in l:
            n = f.strip('*?')
            def acc(k=k, n=n):
                a, b = ir.path('acc::%s_%s' % (k.lower(), n)), ir.path('acc::%s_%s_mut' % (k.lower(), n))
                c.ob('accessor', '%s::%s' % (k, n), a == b and len(a) == 1, '%s reads %s, %s_mut gives %s' % (n, a, n, b))
            guarded(c, 'accessor', '%s::%s' % (k, n), acc)
        fs = [tuple(ir.path('acc::%s_%s' % (k.lower(), f.strip('*?')))) for f in l]
        c.ob('accessor', '%s: distinct' % k, len(set(fs)) == len(fs), 'accessors of %s read %s' % (k, fs))
    n = 0
    for which, spec, root in (('value_uses', VALUES, 'uses::values'), ('bb_uses', BBS, 'uses::bbs')):
        for k in KINDS:
            for a in shapes(k):
                con = '%s of %s' % (which, k)
                def one():
                    e = Eng(u)
                    st = St.new()
                    p = e.heap(st, kind_term(ir, k, a))
                    outs = e.run(ir.fn(root), [p, Sym('f')], st)
                    c.ran(e, outs)
                    want = expected(spec, k, a)
                    shape = ', '.join('%s=%s' % (x, y if not isinstance(y, list) else '[%d]' % len(y)) for x, y in a.items())
                    if len(outs) != 1 or outs[0].kind != 'ret':
                        c.ob('order', con, False, '%s: %d outcomes, %s' % (shape, len(outs), [show_out(e, o) for o in outs[:3]]))
                        return
                    got = [x.args[1] for x in outs[0].st.eff if x.name == 'apply']
                    other = [x for x in outs[0].st.eff if x.name != 'apply']
                    c.ob('order', con, got == want and not other, 'with %s: yields %s, operands are %s%s' % (
                        shape, [show(x) for x in got], [show(x) for x in want], ' and has effects %s' % other if other else ''),
                        outs[0].st.eff[0].site if outs[0].st.eff else None)
                    if len(want) > 2: c.sample('%s(%s) -> %s' % (con, shape, [show(x) for x in got]))
                guarded(c, 'order', con, one)
                n += 1
            # symbolic lists
            if any(f.endswith('*') for f in spec.get(k, [])):
                con = '%s of %s, unknown length' % (which, k)
                def gen():
                    e = Eng(u)
                    st = St.new()
                    a = {f.strip('*?'): Sym(f.strip('*?')) for f in FIELDS[k]}
                    p = e.heap(st, kind_term(ir, k, a))
                    outs = e.run(ir.fn(root), [p, Sym('f')], st)
                    c.ran(e, outs)
                    lists = [Sym(f[:-1]) for f in spec[k] if f.endswith('*')]
                    singles = [Sym(f) for f in spec[k] if not f.endswith('*')]
                    c.ob('generic', con + ': outcomes', all(o.kind == 'ret' for o in outs), '\n'.join(show_out(e, o) for o in outs if o.kind != 'ret'))
                    seen = set()
                    for o in outs:
                        for x in o.st.eff:
                            if x.name != 'apply': continue
                            v = x.args[1]
                            ok = v in singles or (v.op == 'elem' and v.a[0] in lists)
                            if v.op == 'elem': seen.add(v.a[0])
                            c.ob('generic', con, ok, 'yields %s' % show(v), x.site)
                    c.ob('generic', con + ': every list', seen == set(lists), 'lists walked: %s' % [show(x) for x in seen])
                guarded(c, 'generic', con, gen)
    c.floor('kind shapes', n, 84)
    return c


if __name__ == '__main__':
    main(run)
