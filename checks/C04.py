"""C04: C calls report failure by code and set outputs only on success."""
from ffi import *
import C03

RULES = {'told': 'each kind of failure the operation can have is reported by its code on some path', 'code': 'a failing call makes the function return the code of that kind of failure', 'success': 'success is returned when nothing failed', 'did': 'success is returned only after the operation was done, on the given program, file and text, in the form asked for',
         'once': 'the operation is done once', 'output': 'the output parameter is set to the parsed program on success', 'kept': 'nothing is written to output parameters on failure', 'panic': 'no path panics', 'buffered': 'nothing is left in a buffer whose write errors are lost',
         'floor': 'number of functions and paths'}


def source(f, name):
    """what the text comes from, by the last word of the C name"""
    k = name.rsplit('_', 1)[1]
    s = {'file': ('std::fs::File::open', 'std::fs::File::create'), 'string': None, 'stdin': ('std::io::stdin',), 'stdout': ('std::io::stdout',), 'raw': ('from_raw_fd',)}
    return k, s.get(k)


def run():
    c = Check('C04', 'Abstract interpretation of every exported function that returns an error code: each fallible call (text conversion, opening a file, parsing, generating, C string conversion) succeeds or fails; '
              'the returned code, the writes through output parameters and the operation done are compared with the table of failures.', RULES,
              ['Driver::generate_program and Generator::generate_on are decided by F02 and B04', 'models of std in checks/ffi.py', 'pointer parameters are valid as documented'])
    u = univ('libkoopa')
    f = Ffi(u)
    nf = np = 0
    for name, fn in sorted(f.fns.items()):
        rt = u.types[fn['locals'][0]]
        if not rt.get('name', '').endswith('ErrorCode') or 'raw_to' in name: continue
        e, outs = f.run(fn)
        c.ran(e, outs)
        nf += 1
        np += len(outs)
        dump = '_dump_' in name
        kind, srcs = source(f, name)
        arg = Sym('a1' if dump else 'a0')
        okpaths = 0
        for i, o in enumerate(outs):
            fails = failures(o)
            where = '%s: %s' % (name, 'when %s fails' % ' and '.join(x.a[0].split('::', 1)[1] for x in fails) if fails else 'nothing fails%s' % ('' if f.code(o) == 'Success' else ', %s' % f.code(o)))
            site = o.site or (o.st.eff[-1].site if o.st.eff else fn['span'])
            c.ob('panic', where, o.kind == 'ret', 'panics: %s' % show(o.val), site)
            if o.kind != 'ret': continue
            code = f.code(o)
            sets = [x for x in o.st.eff if x.name in ('set', 'copy')]
            if fails:
                want = expected(fails[0])
                c.ob('code', where, code == want if want else code not in (None, 'Success'), 'returns %s, expected %s' % (code or show(o.val)[:80], want or 'an error'), site)
                c.ob('kept', where, not sets, 'writes %s' % [repr(x)[:120] for x in sets], site)
                continue
            if 'to_string' in name and code == 'InsufficientBufferLength':
                c.ob('kept', where, not sets, 'writes %s' % [repr(x)[:120] for x in sets], site)
                ops = [x for x in o.st.eff if x.name == 'generate']
                continue
            c.ob('success', where, code == 'Success', 'returns %s' % (code or show(o.val)[:80]), site)
            okpaths += 1
            ops = [x for x in o.st.eff if x.name in ('generate', 'parse')]
            c.ob('once', where, len(ops) == 1, 'does %d operations' % len(ops), site)
            if len(ops) != 1: continue
            x = ops[0]
            if dump:
                w, v, before, prog, k = x.args
                want = 'koopa::back::llvm::Visitor' if '_llvm_' in name else 'koopa::back::koopa::Visitor'
                c.ob('did', where + ': form', v.a[0] == want, 'generates with %s, expected %s' % (v.a[0], want), x.site)
                c.ob('did', where + ': program', prog is Sym('a0'), 'generates %s' % show(prog), x.site)
                if kind != 'string':
                    s = show(before)
                    good = any(n in names(before) or any(m.endswith(n) for m in names(before)) for n in srcs) and (kind == 'stdout' or find(before, lambda t: t is arg) is not None)
                    if kind == 'file': good = good and 'std::fs::File::create' in names(before) and 'std::ffi::CStr::from_ptr' in names(before)
                    c.ob('did', where + ': destination', good, 'writes to %s' % s[:200], x.site)
                    flushed = [y for y in o.st.eff if y.name in ('flush',) or 'into_inner' in y.name]
                    direct = w.a[0] in ('std::fs::File', 'std::io::Stdout', 'std::io::StdoutLock', 'std::io::Stderr')
                    c.ob('buffered', where, direct or flushed and o.st.eff.index(flushed[-1]) > o.st.eff.index(x), 'writes through %s, which is not flushed' % w.a[0], x.site)
                else:
                    got = [y for y in o.st.eff if y.name == 'copy'] + [y for y in o.st.eff if y.name == 'set']
                    t = got and find(got[0].args[1], lambda t: t.op == 'app' and t.a[0] == 'generated') or None
                    c.ob('did', where + ': text', t is not None and t.a[3] is k, 'stores %s' % (show(got[0].args[1])[:200] if got else 'nothing'), x.site)
            else:
                v, k = x.args
                ns = names(v)
                if kind == 'string': good = 'std::ffi::CStr::from_ptr' in ns and find(v, lambda t: t is arg) is not None and not any('File' in n for n in ns)
                else: good = any(m.endswith(n) for n in srcs for m in ns) and (kind == 'stdin' or find(v, lambda t: t is arg) is not None)
                c.ob('did', where + ': source', good, 'parses %s' % show(v)[:250], x.site)
                out = Sym('a%d' % (fn['argc'] - 1))
                res = App('into_raw', Str(PROGRAM), App('ok', App(PARSE, v, k)))
                s = [y for y in sets if y.name == 'set']
                c.ob('output', where, len(sets) == 1 and len(s) == 1 and s[0].args[0] is out and s[0].args[1] is res, 'writes %s' % [repr(y)[:200] for y in sets], s[0].site if s else site)
        c.ob('success', name, okpaths >= 1, 'never succeeds')
        codes = {f.code(o) for o in outs if o.kind == 'ret'}
        need = (['IoError'] if dump and kind != 'string' else [] if dump else ['InvalidKoopaProgram']) + (['InvalidFile', 'InvalidUtf8String'] if kind == 'file' else []) + \
            ((['NullByteError', 'InsufficientBufferLength'] if dump else ['InvalidUtf8String']) if kind == 'string' else [])
        for n in need: c.ob('told', '%s: %s' % (name, n), n in codes, 'this failure is never reported', fn['span'])
        c.sample({'function': name, 'paths': [{'fails': [x.a[0] for x in failures(o)], 'returns': f.code(o)} for o in outs]})
    # reading raw programs: what can fail is the program itself
    F = C03.RawBuild(IR(u))
    R = C03.RawRun(F)
    prog = C03.ops(C03.Sem(C03.reference(C03.toks(C03.EVERY))[0]).program())
    name = 'koopa_generate_raw_to_koopa'
    jobs = [(None, 'Success')] + list(C03.broken(F, R, prog))

    def go(d, i):
        if jobs[i][0] is None:
            e, st = C03.engine(F, R)
            raw = C03.Writer(F, R, e, st).program(prog)
        else: e, st, raw = jobs[i][2:]
        out, outs = C03.generate(R, e, st, raw)
        d.ran(e, outs)
        what, want = jobs[i][:2]
        where = name + ': ' + (what or 'nothing fails')
        for o in outs:
            d.ob('panic', where, o.kind == 'ret', 'panics: %s' % show(o.val)[:200], o.site)
            if o.kind != 'ret': continue
            k = C03.code(R, e, o)
            d.ob('success' if what is None else 'code', where, k == want, 'returns %s, expected %s' % (k, want), o.site)
            v = o.st.store[out.a[0]]
            if what is None: d.ob('output', where, v is not C03.OLD, 'the output is not set', o.site)
            else: d.ob('kept', where, v is C03.OLD, 'the output is set to %s' % show(v)[:80], o.site)
    parallel(c, list(range(len(jobs))), lambda d, i: guarded(d, 'code', name, lambda: go(d, i)))
    c.floor('raw programs', len(jobs), 60)
    c.floor('functions', nf, 12)
    c.floor('paths', np, 36)
    return c


if __name__ == '__main__': main(run)
