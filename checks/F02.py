"""F02: every error reported while parsing makes generation fail, and every rejection is reported."""
from parse import *
import logs
from driver import driver

RULES = {'counted': 'every logging function raises its own counter by one and nothing else; a reset zeroes both', 'lexer': 'text that is no token is refused with a reported error', 'parser': 'a token sequence outside the grammar is refused with a reported error, without a panic, and the parser reaches the end',
         'fatal': 'a read error ends parsing as a fatal error', 'driver': 'the program is returned only if no error was counted after the last item, and then every item was built once, in order',
         'start': 'the counters are reset, for the right source, before the first token is read', 'floor': 'number of inputs'}


def run():
    c = Check('F02', 'Abstract interpretation of the MIR of (1) the logging functions of Span in both feature configurations; (2) Lexer::next_token on arbitrary bytes; (3) the parser on every template of the grammar with one token '
              'replaced by every token class, removed or preceded by one (thorough: by every one), compared with a reference grammar; (4) Driver::generate_program with a parser and builder whose results and error counts are unknown.', RULES,
              ['thread_local and RefCell are transparent', 'token payloads (names, numbers) do not influence the grammar beyond their class: they are opaque here'])
    for which, name in (('roots', 'with logger'), ('roots-nofl', 'without logger')): logs.counting(c, which, name)
    u = univ()
    ir = IR(u)
    f = Parse(ir)
    guarded(c, 'driver', 'generate_program', lambda: driver(c, ir))

    def lexer():
        e, runs = f.tokens(reads(), 1, max_rec=1)
        c.ran(e, runs)
        for st, (o,), (eff,) in runs:
            if o.kind == 'ret' and f.is_tok(e, st, o) is not None: continue
            if any(x.name.startswith('rec:') for x in eff): continue
            c.ob('lexer', 'Lexer::next_token', o.kind == 'ret' and any(x.name == 'error' for x in eff), 'refuses without an error: ' + show_out(e, o), eff[-1].site if eff else o.site)
        c.floor('lexer paths', len(runs), 100)
    guarded(c, 'lexer', 'Lexer::next_token', lexer)

    jobs = [(n, ts) for n, ts in [*bad(), *changed(c.tier == 'thorough')] if any(t[0] in ('err', 'fatal') for t in ts) or not reference(ts)[1]]

    def one(d, j):
        n, ts = j

        def go():
            e, outs = f.parse(ts)
            d.ran(e, outs)
            for st, rs, k in outs:
                errors = [x for x in st.eff if x.name == 'error']
                site = errors[-1].site if errors else (st.eff[-1].site if st.eff else None)
                if any(t[0] == 'fatal' for t in ts): d.ob('fatal', n, k == 'fatal', 'ends as %s' % k, site)
                else: d.ob('parser', n, bool(errors) and k in ('end', 'err'), ('parsed as %s' % (rs,) if not errors else '') + ' ends as %s' % k, site)
        guarded(d, 'parser', n, go)
    f.pos(1, 0)
    parallel(c, jobs, one)
    c.floor('token sequences', len(jobs), 7000)
    for n, ts in jobs[:4]: c.sample(n)
    return c


if __name__ == "__main__":
    main(run)
