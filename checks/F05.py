"""F05: ill-typed text is reported as an error; no text makes the builder panic."""
from building import *

RULES = {'refused': 'a statement with an operand of a wrong type, a wrong number of arguments or a wrong target is reported as an error at its place', 'panic': 'the builder does not panic', 'recovered': 'whatever the parser makes of text outside the grammar can be built without a panic',
         'floor': 'number of programs'}


def run():
    c = Check('F05', 'Abstract interpretation of the MIR of Builder::build_on on syntax trees: every statement, initialiser and terminator with an operand of every type shape, every literal form and an unknown name in every place, and every argument count around the right one, against a reference type checker; '
              'and on everything the parser returns (abstract interpretation of its MIR) for the token sequences outside the grammar. The assertions of the IR builders are part of the analysed code. Literals are opaque.', RULES, ['std containers, Rc and atomics behave as documented'])
    f = Build(IR(univ()))
    jobs = list(dict.fromkeys(typed()))

    def one(d, t):
        items, ok = reference(toks(t))
        assert ok, t
        n = t.replace(DECLS, '..').replace(PARAMS, '..').replace(' ;', '')
        guarded(d, 'refused', n, lambda: verdict(d, f, n, items, (None, 'refused', 'panic', None)))
    parallel(c, jobs, one)
    c.floor('programs', len(jobs), 1200)
    f.pos(1, 0)
    streams = [*bad(), *changed(c.tier == 'thorough')]
    found = {}

    def parse(d, j):
        n, ts = j

        def go():
            e, outs = f.parse(ts)
            for st, rs, k in outs: d.fns.add(('tree', n, repr(fixed_lengths(rs))))
        guarded(d, 'recovered', n, go)
    parallel(c, streams, parse)
    for x in [x for x in c.fns if isinstance(x, tuple) and x[0] == 'tree']:
        c.fns.discard(x)
        if x[2] not in found or x[1] < found[x[2]]: found[x[2]] = x[1]
    trees = sorted((n, r) for r, n in found.items())

    def two(d, j):
        n, r = j
        items = eval(r)
        guarded(d, 'recovered', n, lambda: verdict(d, f, n, items, (None, None, 'recovered', None)))
    parallel(c, trees, two)
    c.floor('trees', len(trees), 150)
    for t in jobs[:3]: c.sample(t)
    return c


if __name__ == "__main__":
    main(run)
