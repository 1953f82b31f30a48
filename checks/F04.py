"""F04: names in the text are resolved to their one definition; duplicates and unknown names are errors."""
from building import *

RULES = {'visible': 'a program whose names are each defined once, before and on every way to their uses, is accepted, and every use means that definition', 'defined': 'a second definition of a name of the same sort, or a use of a name that is not defined, is reported as an error at its place',
         'panic': 'the builder does not panic', 'floor': 'number of programs'}


def run():
    c = Check('F04', 'Abstract interpretation of the MIR of Builder::build_on on syntax trees that partition the name space: every sort of definition (global, function, declaration, parameter, block, block parameter, local) with every class of name, '
              'every pair of definitions of the same name, every sort of use of unknown or foreign names, and uses at a distance over several control-flow graphs. Names are concrete representatives, literals are opaque. '
              'The program is read back through the public accessors and compared with a reference resolver.', RULES, ['std containers, Rc and atomics behave as documented'])
    f = Build(IR(univ()))
    jobs = [(t, rev) for t in dict.fromkeys([*named(), *mixed(4 if c.tier == 'thorough' else 3, False), *mixed(3)]) for rev in ((False, True) if 'unreach' in t or t in CFGS.values() else (False,))]

    def one(d, j):
        t, rev = j
        items, ok = reference(toks(t))
        assert ok, t
        n = t.replace(' ;', '')
        guarded(d, 'visible', n, lambda: verdict(d, f, n, items, ('visible', 'defined', 'panic', 'visible'), rev))
    parallel(c, jobs, one)
    c.floor('programs', len(jobs), 800)
    for t, _ in jobs[:3]: c.sample(t)
    return c


if __name__ == "__main__":
    main(run)
