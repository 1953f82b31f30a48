"""C06: dumping to a caller buffer never overruns it and reports the length."""
from ffi import *

RULES = {'length': 'without a buffer, the length of the complete text is stored, not counting the NUL', 'fits': 'bytes are stored only when the text and its NUL fit the given length', 'refused': 'a buffer that is too short is refused with InsufficientBufferLength, untouched',
         'accepted': 'a buffer that is long enough is accepted', 'stored': 'exactly the text and its NUL are stored, from the start of the buffer', 'null': 'nothing is stored through a null pointer', 'len': 'the length parameter only ever receives the length of the text', 'panic': 'no path panics', 'floor': 'number of functions and paths'}


def run():
    c = Check('C06', 'Abstract interpretation of the functions that dump to a caller buffer, for an arbitrary generated text, buffer and length: every byte written through the buffer, with the path conditions on the length, against the table of cases.', RULES,
              ['CString::new accepts exactly texts without NUL and appends one', 'the length given is the size of the buffer'])
    u = univ('libkoopa')
    f = Ffi(u)
    nf = np = 0
    for name, fn in sorted(f.fns.items()):
        if 'to_string' not in name or fn['argc'] != 3: continue
        nf += 1
        obs, n, loops = judge(c, f, name, fn, None)
        if loops and not all(o[2] for o in obs):
            # bytes moved one by one: texts of known length, opaque bytes
            obs = []
            for k in lens(u, [0, 1, 2, 3], 'libkoopa::back'): obs += judge(c, f, name, fn, k)[0]
        for o in obs: c.ob(*o)
        np += n
    c.floor('functions', nf, 2)
    c.floor('paths', np, 6)
    return c


def judge(c, f, name, fn, k):
    """obligations of one function, for texts of k bytes or of unknown length"""
    obs, np, loops = [], 0, False
    def ob(*a): obs.append(a)
    con = name if k is None else '%s: text of %d bytes' % (name, k)
    buf, length = Sym('a1'), Sym('a2')
    e, outs = f.run(fn, k=k)
    c.ran(e, outs)
    seen = set()
    for o in outs:
        site = o.site or fn['span']
        st = o.st
        loops |= any('loopvar' in show(b) for b, v in st.conds)
        if k is not None and o.kind != 'ret' and 'capacity' in show(o.val): continue
        ob('panic', con, o.kind == 'ret', 'panics: %s' % show(o.val), site)
        if o.kind != 'ret' or failures(o): continue
        np += 1
        ops = [x for x in st.eff if x.name == 'generate']
        if len(ops) != 1:
            ob('stored', con, False, '%d texts generated' % len(ops), site)
            continue
        cs = [b for b, v in st.conds if not v and b.op == 'app' and b.a[0] == 'failed' and b.a[1].a[0] == 'std::ffi::CString::new']
        text = cs[0].a[1].a[1] if cs else None
        if text is None or not (k == 0 and text is List([]) or find(text, lambda t: t.op == 'app' and t.a[0] == 'generated' and t.a[3] is ops[0].args[4])):
            ob('stored', con, False, 'the text is not the generated one: %s' % (text and show(text)[:200]), site)
            continue
        n = e.length(st, text)
        null = e.decide(st, App('is_null', buf))
        short = e.decide(st, Lt(length, add(n, Int(1))))
        copies = [x for x in st.eff if x.name in ('copy', 'set') and place(x.args[0])[0] is buf]
        lens_ = [x for x in st.eff if x.name == 'set' and place(x.args[0])[0] is length]
        other = [x for x in st.eff if x.name == 'set' and x not in copies and x not in lens_]
        code = f.code(o)
        ob('len', con, not other and all(x.args[0] is length and same(e, st, x.args[1], n) for x in lens_), 'stores %s' % [repr(x)[:200] for x in lens_ + other], site)
        if null is True:
            seen.add('null')
            ob('null', con, not copies, 'stores %s' % copies, site)
            ob('length', con, code == 'Success' and len(lens_) >= 1, 'returns %s, length parameter set: %s' % (code, bool(lens_)), site)
            continue
        if null is None and not copies and code == 'Success' and not lens_:
            ob('stored', con, False, 'success without storing anything', site)
            continue
        if code == 'InsufficientBufferLength':
            seen.add('short')
            ob('refused', con, not copies and not lens_, 'stores %s' % [repr(x)[:100] for x in copies + lens_], site)
            ob('accepted', con, short is True and null is False, 'refuses a buffer that is long enough', site)
            continue
        seen.add('copy')
        ob('null', con, null is False or not copies, 'may store through a null pointer', site)
        ob('fits', con, short is False, 'stores though the length is not known to suffice', copies[0].site if copies else site)
        ob('stored', con, code == 'Success' and stored(e, st, copies, buf, text, n), 'returns %s, stores %s' % (code, [repr(x)[:160] for x in copies]), copies[0].site if copies else site)
    ob('length', con + ': cases', seen == {'null', 'short', 'copy'}, 'cases found: %s' % sorted(seen))
    c.sample({'function': con, 'paths': [{'returns': f.code(o), 'effects': [x.name for x in o.st.eff][:6]} for o in outs]})
    return obs, np, loops


def place(p):
    """(base, offset) of a place in a buffer"""
    off = Int(0)
    while True:
        if p.op == 'app' and p.a[0] == 'at': off, p = add(off, p.a[2]), p.a[1]
        elif p.op == 'app' and p.a[0] == 'slice': off, p = add(off, p.a[2]), p.a[1]
        elif p.op == 'app' and p.a[0] == 'rawslice': p = p.a[1]
        elif p.op == 'elem': off, p = add(off, p.a[1]), p.a[0]
        else: return p, off


def same(e, st, a, b):
    return e.decide(st, Eq(a, b)) is True


def stored(e, st, writes, buf, text, n):
    """the writes cover exactly the text and then one NUL, in any order"""
    full = List(list(text.a) + [Int(0)]) if text.op == 'list' else App('withnul', text)
    if text.op == 'list':
        mem = {}
        for x in writes:
            p, off = place(x.args[0])
            if off.op != 'int': return False
            if x.name == 'set': src = [x.args[1]]
            else:
                if x.args[1].op != 'list' or x.args[2].op != 'int' or len(x.args[1].a) < x.args[2].a[0]: return False
                src = list(x.args[1].a[:x.args[2].a[0]])
            for i, b in enumerate(src): mem[off.a[0] + i] = b.a[1] if b.op == 'app' and b.a[0].startswith('cast:') else b
        return [mem.get(i) for i in range(len(full.a))] == list(full.a) and len(mem) == len(full.a)
    segs = []
    for x in writes:
        p, off = place(x.args[0])
        if x.name == 'copy':
            src, k = x.args[1], x.args[2]
            if src is full and same(e, st, k, add(n, Int(1))): segs.append(('all', off))
            elif src in (text, full) and same(e, st, k, n): segs.append(('text', off))
            else: return False
        else:
            if x.args[1] is not Int(0): return False
            segs.append(('nul', off))
    if len(segs) == 1: return segs[0][0] == 'all' and same(e, st, segs[0][1], Int(0))
    if len(segs) != 2 or {s[0] for s in segs} != {'text', 'nul'}: return False
    d = dict(segs)
    return same(e, st, d['text'], Int(0)) and same(e, st, d['nul'], n)


if __name__ == '__main__': main(run)
