"""F03: the front end without the logger counts the same errors and warnings, and returns the same error contents."""
from parse import *
import logs, re
from logs import LOGS
from driver import driver

RULES = {'counted': 'every logging function raises its own counter by one and nothing else, in both configurations', 'message': 'without the logger, an error carries exactly the message the logger would print, and its position',
         'printed': 'with the logger, every message is printed exactly once', 'returned': 'without the logger, a failing operation returns the contents of an error it has reported',
         'parser': 'the parser reports the same errors in the same order and yields the same items in both configurations', 'lexer': 'the lexer reports the same errors and yields the same tokens in both configurations',
         'driver': 'the driver accepts and builds the same items in both configurations', 'start': 'the driver starts the same way in both configurations', 'floor': 'number of inputs'}


def fine(c, which):
    """judge of one logging function: the message is kept, or printed once"""
    def f(fn, e, o, v):
        site = o.st.eff[0].site if o.st.eff else o.site
        printed = [x for x in o.st.eff if x.name in ('eprint', 'print')]
        where = 'Span::' + fn
        if which == 'roots':
            n = sum(show(x.args[0]).count('disp(msg)') for x in printed)
            c.ob('printed', where, n == 1, 'the message is printed %d times' % n, site)
            return
        c.ob('printed', where + ' (without logger)', not printed, 'prints without the logger', site)
        if LOGS[fn][3]:
            m = [models.fmtcat(models.as_text(e.canon(o.st, x))) for x in v.a[2:]] if v.op == 'adt' else []
            want = r'disp\(msg\)' if 'raw' in fn else r'fmt\(disp\(.*\), ":", disp\(span\.start\), ": ", disp\(msg\)\)'
            c.ob('message', where, len(m) == 1 and re.fullmatch(r'fmt\(disp\(msg\)\)|' + want, show(m[0])) and ('raw' in fn) == ('span' not in show(m[0])), 'the error carries %s' % ' '.join(show(x) for x in m)[:300], site)
    return f


def norm(texts):
    """symbol names made independent of numbering"""
    t = '\n'.join(texts)
    names = {}
    t = re.sub(r"\bc\d+\b", lambda m: names.setdefault(m.group(), 'c#%d' % len(names)), t)
    return re.sub(r'message\(\d+\)', 'message', t)


def events(st):
    return [x.name + ' ' + ' '.join(show(a) for a in x.args[:2 if x.name == 'error' else None]) for x in st.eff if x.name in ('error', 'warning', 'read', 'eof', 'ioerror')]


def run():
    c = Check('F03', 'Abstract interpretation of the MIR of both feature configurations (with the logger and no-front-logger): the logging functions are compared with one table; Lexer::next_token on arbitrary bytes, the parser on every '
              'template of the grammar with one token changed, and Driver::generate_program on unknown results must have the same outcomes and events in both.', RULES,
              ['thread_local and RefCell are transparent', 'what goes to standard error besides the message is free'])
    for which, name in (('roots', 'with logger'), ('roots-nofl', 'without logger')): logs.counting(c, which, name, fine=fine(c, which))
    irs = [IR(univ('roots')), IR(univ('roots-nofl'))]
    fs = [Parse(x) for x in irs]
    for ir, name in zip(irs, (' (with logger)', ' (without logger)')): guarded(c, 'driver', 'generate_program', lambda: driver(c, ir, name))

    def lexer():
        got = []
        for f in fs:
            e, runs = f.tokens(reads(), 1, max_rec=1)
            c.ran(e, runs)
            d = {}
            for st, (o,), (eff,) in runs:
                v = e.canon(o.st, o.val) if o.kind == 'ret' else None
                if v is not None and v.op == 'adt' and v.a[1] == 1: v = f.ir.variants(F + 'span::Error')[v.a[2].a[1]] if v.a[2].op == 'adt' else show(v)
                elif v is not None: v = norm([show(v)]).replace('roots-nofl', 'roots')
                bs = [''.join(chr(x) for x in sorted(e.bytedom(o.st, x.args[0])) if 31 < x < 127) if x.name == 'read' else x.name for x in o.st.eff if x.name in ('read', 'eof', 'ioerror')]
                key = norm([o.kind, ' '.join(bs)] + events(st))
                d.setdefault((key, v), o.st.eff[-1].site if o.st.eff else o.site)
            got.append(d)
        for k in set(got[0]) | set(got[1]):
            c.ob('lexer', 'Lexer::next_token', k in got[0] and k in got[1], 'only %s the logger: %s gives %s' % ('with' if k in got[0] else 'without', k[0].replace('\n', '; ')[:200], str(k[1])[:200]), got[0].get(k) or got[1].get(k))
        c.floor('lexer outcomes', len(got[0]), 20)
    guarded(c, 'lexer', 'Lexer::next_token', lexer)
    jobs = [(n, ts) for n, (ts, _, _) in templates().items()] + [*bad(), *changed(c.tier == 'thorough')]

    def one(d, j):
        n, ts = j

        def go():
            got = []
            for f in fs:
                e, outs = f.parse(ts)
                d.ran(e, outs)
                got.append([(k, rs, events(st)) for st, rs, k in outs])
                site = next((x.site for st, _, _ in outs for x in reversed(st.eff)), None)
            a, b = [sorted(map(str, g)) for g in got]
            diff = ''
            if a != b: diff = 'with: %s; without: %s' % tuple(' '.join(x for x in p if x not in q)[:300] for p, q in ((a, b), (b, a)))
            d.ob('parser', n, a == b, diff, site)
            for st, rs, k in outs:
                if k not in ('err', 'fatal'): continue
                x = e.canon(st, st.store[LASTERR])
                said = {App('message', y.args[2]) for y in st.eff if y.name == 'error' and len(y.args) > 2} | {App('message', Str('lexer')) for t in ts if t[0] in ('err', 'fatal')}
                d.ob('returned', n, x.op == 'adt' and len(x.a) == 3 and x.a[2] in said, 'fails with %s, reported: %s' % (show(x), ' '.join(map(show, said))), site)
        guarded(d, 'parser', n, go)
    for f in fs: f.pos(1, 0)
    parallel(c, jobs, one)
    c.floor('token sequences', len(jobs), 7000)
    for n, ts in jobs[:4]: c.sample(n)
    return c


if __name__ == "__main__":
    main(run)
