"""F06: parsed statements become the instruction that was written."""
from building import *

RULES = {'parsed': 'a token sequence of the grammar is parsed to the tree it spells', 'accepted': 'a well-typed program is accepted without an error', 'built': 'every definition and statement becomes the construct of its name with the operands in their roles, at its place, with its name and type',
         'floor': 'number of programs'}


def run():
    c = Check('F06', 'Abstract interpretation of the MIR of (1) the parser on every template of the grammar and every sequence of the grammar one token away from one, compared with the tree of a reference grammar; '
              '(2) Builder::build_on on the trees of well-typed programs covering every statement, literal form and operand sort, the resulting program being read back through the public accessors and compared with a reference. Names of tokens, literals and operators are opaque in (1), literals and operators in (2).', RULES,
              ['std containers, Rc and atomics behave as documented'])
    f = Build(IR(univ()))
    f.pos(1, 0)
    streams = [(n, ts) for n, (ts, _, _) in templates().items()] + [(n, ts) for n, ts in changed(c.tier == 'thorough') if not any(t[0] in ('err', 'fatal') for t in ts) and reference(ts)[1]]

    def parse(d, j):
        n, ts = j

        def go():
            want = reference(ts)[0]
            e, outs = f.parse(ts)
            d.ran(e, outs)
            for st, rs, k in outs:
                errs = [x for x in st.eff if x.name == 'error']
                site = errs[0].site if errs else (st.eff[-1].site if st.eff else None)
                d.ob('parsed', n, k == 'end' and not errs, 'ends as %s%s' % (k, ': ' + show(errs[0].args[1]) if errs else ''), site)
                if k == 'end' and not errs: d.ob('parsed', n, repr(rs) == repr(want), 'parsed as %s, expected %s' % (rs, want), site)
        guarded(d, 'parsed', n, go)
    parallel(c, streams, parse)
    c.floor('token sequences', len(streams), 110)
    jobs = []
    for t in dict.fromkeys([*typed(), *named(), *mixed(4 if c.tier == 'thorough' else 3, False)]):
        items, ok = reference(toks(t))
        assert ok, t
        s = Sem(items)
        if not s.errors and not s.grey: jobs.append((t, items))

    def one(d, j):
        t, items = j
        n = t.replace(DECLS, '..').replace(PARAMS, '..').replace(' ;', '')
        guarded(d, 'built', n, lambda: verdict(d, f, n, items, ('accepted', None, 'accepted', 'built')))
    parallel(c, jobs, one)
    c.floor('programs', len(jobs), 400)
    for t, _ in jobs[:3]: c.sample(t)
    return c


if __name__ == "__main__":
    main(run)
