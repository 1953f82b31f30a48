"""Meaning of the standard-library calls that appear in (or may be refactored into) the analysed code."""
from terms import *
import terms
import absint

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def _out():
    from absint import Out
    return Out


def ret(st, v):
    return [_out()(st, 'ret', v)]


def panic(st, msg, C):
    return [_out()(st, 'panic', msg if isinstance(msg, T) else Str(msg), C.site)]


def tname(e, tid):
    t = e.tyk(tid) if tid is not None else None
    if t is None: return ''
    while t['k'] in ('ref', 'ptr'):
        t = e.tyk(t['e'])
    return t.get('name', t['k'])


def opt_none(tid): return Adt(tid, 0)
def opt_some(tid, v): return Adt(tid, 1, v)


def val(e, st, ptr):
    """raw value behind a pointer"""
    root, path = e.to_place(ptr)
    return e.read(st, root, path)


def cval(e, st, ptr):
    return e.canon(st, ptr)


def deep(e, st, v):
    """follow pointers to the underlying value, keep the last pointer"""
    p = None
    n = 0
    while v.op == 'ref' and n < 20:
        p, v = v, e.read(st, v.a[0], v.a[1])
        n += 1
    return p, v


def next_fn(e, tid, std=False):
    """the analysed `Iterator::next` of a user-defined iterator type"""
    tab = getattr(e.u, '_nextfns', None)
    if tab is None:
        tab = e.u._nextfns = {}
        for f in e.u.fns.values():
            if f['path'].endswith('as std::iter::Iterator>::next') and f['argc'] == 1:
                tab[e.pointee(f['locals'][1])] = f
    f = tab.get(tid)
    return f if f is not None and (std or f.get('crate') not in ('std', 'core', 'alloc')) else None


def deepit(e, st, a, C):
    """like deep, viewing a user-defined iterator value as an iterator term"""
    p, v = deep(e, st, a)
    if v.op == 'it' or not C.targs: return p, v
    tid = C.targs[0]
    while e.tyk(tid)['k'] == 'ref': tid = e.tyk(tid)['e']
    f = next_fn(e, tid)
    if f is None: return p, v
    if p is None: p = e.heap(st, v)
    return p, mk('it', 'user', p, f['key'], UNIT)


def lastptr(e, st, v):
    """collapse pointers to pointers: innermost pointer to a non-pointer value"""
    n = 0
    while v.op == 'ref' and n < 20:
        w = e.read(st, v.a[0], v.a[1])
        if w.op == 'ref': v = w
        elif w.op == 'deref' : v = w.a[0]
        else: break
        n += 1
    return v


def mutate(e, st, ptr, name, args, C, new=None):
    ptr = lastptr(e, st, ptr)
    root, path = e.to_place(ptr)
    old = e.read(st, root, path)
    args = [e.canon(st, a) for a in args]
    if new is None:
        co = e.canon(st, old)
        new = App('mut:' + name, co, *args)
    if root.op in ('obj', 'heap') and root.op == 'obj':
        e.effect(st, name, (e.pterm(st, root, path),) + tuple(args), C.site)
    if root.op == 'cst':
        return
    e.write(st, root, path, new, effect=False)


# ---------------------------------------------------------------- strings
def fmtcat(*parts):
    out = []
    def put(p):
        if p.op == 'fmt':
            for q in p.a: put(q)
        elif p.op == 'str':
            if not p.a[0]: return
            if out and out[-1].op == 'str': out[-1] = Str(out[-1].a[0] + p.a[0])
            else: out.append(p)
        elif p.op == 'char':
            put(Str(chr(p.a[0])))
        elif p.op == 'disp':
            put(disp(p.a[0]))
        else:
            out.append(mk('disp', p))
    def disp(x):
        if x.op in ('str', 'fmt'): return x
        if x.op == 'char': return Str(chr(x.a[0]))
        if x.op == 'int': return Str(str(x.a[0]))
        if x.op == 'bool': return Str(str(x.a[0]).lower())
        return x
    for p in parts:
        if p.op == 'disp':
            q = disp(p.a[0])
            if q is p.a[0] and q.op not in ('str', 'fmt'):
                out.append(p)
            else:
                put(q)
        else:
            put(p)
    # merge again
    res = []
    for p in out:
        if p.op == 'str' and res and res[-1].op == 'str': res[-1] = Str(res[-1].a[0] + p.a[0])
        else: res.append(p)
    if not res: return Str('')
    if len(res) == 1 and res[0].op == 'str': return res[0]
    return mk('fmt', *res)


def as_text(t):
    """a term used as text"""
    if t.op in ('str', 'fmt', 'char'): return t
    if t.op == 'bytes':
        try: return Str(t.a[0].decode())
        except Exception: return t
    return mk('disp', t)


def decode_template(b, args):
    i, out, nxt = 0, [], 0
    while i < len(b):
        n = b[i]; i += 1
        if n == 0: break
        if n < 0x80:
            out.append(Str(b[i:i + n].decode())); i += n
        elif n == 0x80:
            l = b[i] | b[i + 1] << 8; i += 2
            out.append(Str(b[i:i + l].decode())); i += l
        else:
            opts = []
            if n & 1: opts.append(int.from_bytes(b[i:i + 4], 'little')); i += 4
            if n & 2: opts.append(('w', b[i] | b[i + 1] << 8)); i += 2
            if n & 4: opts.append(('p', b[i] | b[i + 1] << 8)); i += 2
            if n & 8: nxt = b[i] | b[i + 1] << 8; i += 2
            a = args[nxt] if nxt < len(args) else mk('bot')
            nxt += 1
            if opts and opts != [0x60000020] and any(o != 0xE0000020 for o in opts):
                a = mk('dispopt', a, repr(opts))
            out.append(a)
    return out


@model('core::fmt::rt::Argument::<\'_>::new_display')
def _(e, st, args, C):
    return ret(st, mk('disp', e.canon(st, args[0])))


def _dbg(kind):
    def f(e, st, args, C):
        return ret(st, mk('dispas', e.canon(st, args[0]), kind))
    return f


for k in ('debug', 'lower_hex', 'upper_hex', 'octal', 'binary', 'pointer', 'lower_exp', 'upper_exp'):
    MODELS["core::fmt::rt::Argument::<'_>::new_" + k] = _dbg(k)


@model("core::fmt::rt::Argument::<'_>::from_usize")
def _(e, st, args, C):
    t = e.canon(st, args[0])
    hi = st.bnd.get(t, (None, None))[1]
    if t.op == 'int': hi = t.a[0]
    if t.op == 'app' and t.a[0].startswith('cast:') and 'log10(' in show(t): hi = 39      # no finite float has a larger decimal logarithm
    O = _out()
    ok = O(st, 'ret', App('fmtwidth', t))
    if hi is not None and hi <= 0xFFFF: return [ok]
    s = st.copy()
    s.bnd[t] = (0x10000, s.bnd.get(t, (None, None))[1])
    return [ok, O(s, 'panic', Str('formatting width out of range: ' + show(t)[:200]), C.site)]


@model("std::fmt::Arguments::<'a>::new", 'std::fmt::Arguments::new')
def _(e, st, args, C):
    t = e.canon(st, args[0])
    a = e.canon(st, args[1])
    items = list(a.a[2:]) if a.op == 'adt' and a.a[0] == 'array' else list(a.a) if a.op == 'list' else []
    if t.op == 'adt' and t.a[0] == 'array':
        t = Bytes(bytes(x.a[0] for x in t.a[2:]))
    if t.op != 'bytes':
        return ret(st, App('fmtargs?', t, a))
    return ret(st, fmtcat(*decode_template(t.a[0], items)))


@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst", "std::fmt::Arguments::<'a>::new_const")
def _(e, st, args, C):
    return ret(st, fmtcat(as_text(e.canon(st, args[0]))))


@model('std::fmt::format', 'std::hint::must_use', 'std::hint::black_box')
def _(e, st, args, C):
    return ret(st, args[0])


def fork_io(e, st, C, what):
    t = e.tyk(C.dtid)
    ok = e.tyk(t['vs'][0]['fs'][0][1])
    okv = UNIT if ok['k'] == 'tuple' and not ok['fs'] else App('ok', what)
    O = _out()
    if e.assume_ok:
        return [O(st, 'ret', Adt(C.dtid, 0, okv))]
    s2 = st.copy()
    st.n += 1
    s2.n = st.n
    err = App('err', what, Int(st.n))
    s2.eff = s2.eff + (e.mkeff('iofail', (Int(len(s2.eff)), err), C.site, s2),)
    return [O(st, 'ret', Adt(C.dtid, 0, okv)), O(s2, 'ret', Adt(C.dtid, 1, err))]


def emit(e, st, w, text, C):
    """text written to writer w (a pointer)"""
    w = lastptr(e, st, w)
    _, wv = deep(e, st, w)
    if tname(e, C.wtid) == 'std::string::String' or wv.op in ('str', 'fmt'):
        root, path = e.to_place(w)
        old = e.canon(st, e.read(st, root, path))
        e.write(st, root, path, fmtcat(as_text(old), text), effect=root.op == 'obj', site=C.site)
        return
    root, path = e.to_place(w)
    e.effect(st, 'out', (e.pterm(st, root, path) if root.op == 'obj' else e.canon(st, w), text), C.site)


def writer_tid(e, C):
    a = C.targs
    return a[0] if a else None


@model('std::io::Write::write_fmt', 'std::io::Write::write_all', 'std::fmt::Write::write_fmt', 'std::fmt::Write::write_str',
       'std::fmt::Write::write_char', "std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'a>::write_fmt",
       "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_char")
def _(e, st, args, C):
    text = as_text(e.canon(st, args[1]))
    C.wtid = writer_tid(e, C)
    text = fmtcat(text)
    emit(e, st, args[0], text, C)
    return fork_io(e, st, C, App('out'))


@model('std::io::Write::flush')
def _(e, st, args, C):
    e.effect(st, 'flush', (e.canon(st, args[0]),), C.site)
    return fork_io(e, st, C, App('flush'))


# `impl Display for X` reached through `x.fmt(f)` where X has no analysed body
@model('std::fmt::Display::fmt')
def _(e, st, args, C):
    if C.has_body(): return None
    C.wtid = None
    emit(e, st, args[1], fmtcat(mk('disp', e.canon(st, args[0]))), C)
    return fork_io(e, st, C, App('out'))


@model('std::string::ToString::to_string', 'std::string::SpecToString::spec_to_string', '<T as std::string::ToString>::to_string')
def _(e, st, args, C):
    return ret(st, fmtcat(mk('disp', e.canon(st, args[0]))))


@model('std::borrow::ToOwned::to_owned', 'std::str::<impl str>::to_owned', 'std::string::String::as_str', 'std::string::String::as_mut_str',
       'std::string::String::as_bytes', 'core::str::<impl str>::as_bytes', 'std::string::String::into_boxed_str', 'std::str::<impl str>::into_string',
       'std::string::String::into_bytes', 'core::str::<impl str>::to_string', 'std::borrow::Cow::<\'_, B>::into_owned')
def _(e, st, args, C):
    p, v = deep(e, st, args[0])
    return ret(st, e.canon(st, args[0]) if tname(e, C.dtid) in ('std::string::String', 'str') else v)


@model('std::string::String::new')
def _(e, st, args, C):
    return ret(st, Str(''))


@model('std::string::String::with_capacity')
def _(e, st, args, C):
    return ret(st, Str(''))


def str_append(e, st, ptr, text, C):
    ptr = lastptr(e, st, ptr)
    root, path = e.to_place(ptr)
    old = e.canon(st, e.read(st, root, path))
    e.write(st, root, path, fmtcat(as_text(old), text), effect=root.op == 'obj', site=C.site)


@model('std::string::String::push', 'std::string::String::push_str')
def _(e, st, args, C):
    x = e.canon(st, args[1])
    ptr = lastptr(e, st, args[0])
    root, path = e.to_place(ptr)
    old = e.canon(st, e.read(st, root, path))
    if old.op in ('str', 'fmt') or (old.op == 'disp'):
        e.write(st, root, path, fmtcat(old, as_text(x)), effect=False)
    else:
        e.write(st, root, path, fmtcat(as_text(old), as_text(x)), effect=False)
    return ret(st, UNIT)


@model('std::string::String::truncate', 'std::string::String::clear', 'std::string::String::insert', 'std::string::String::insert_str',
       'std::string::String::retain', 'std::string::String::pop', 'std::string::String::remove')
def _(e, st, args, C):
    n = C.decl.rsplit('::', 1)[1]
    if n == 'clear':
        mutate(e, st, args[0], 'str_clear', [], C, Str(''))
        return ret(st, UNIT)
    mutate(e, st, args[0], 'str_' + n, args[1:], C)
    r = UNIT if n not in ('pop', 'remove') else App('str_' + n, e.canon(st, args[0]))
    return ret(st, r)


def lenof(e, st, v):
    return e.length(st, v)


@model('core::str::<impl str>::len', 'std::string::String::len', 'core::slice::<impl [T]>::len', 'std::vec::Vec::<T, A>::len',
       'std::collections::HashMap::<K, V, S, A>::len', 'std::collections::HashSet::<T, S, A>::len', 'std::collections::VecDeque::<T, A>::len',
       'std::iter::ExactSizeIterator::len')
def _(e, st, args, C):
    p, v = deep(e, st, args[0])
    if v.op == 'it':
        return ret(st, it_len(e, st, v))
    return ret(st, lenof(e, st, args[0]))


@model('core::str::<impl str>::is_empty', 'std::string::String::is_empty', 'core::slice::<impl [T]>::is_empty', 'std::vec::Vec::<T, A>::is_empty',
       'std::collections::HashMap::<K, V, S, A>::is_empty', 'std::collections::HashSet::<T, S, A>::is_empty', 'std::collections::VecDeque::<T, A>::is_empty')
def _(e, st, args, C):
    return ret(st, Eq(lenof(e, st, args[0]), Int(0)))


def conststr(t):
    if t.op == 'str': return t.a[0]
    if t.op == 'char': return chr(t.a[0])
    return None


def prefix_of(t):
    """known literal beginning of a text term"""
    if t.op == 'str': return t.a[0], True
    if t.op == 'fmt' and t.a[0].op == 'str': return t.a[0].a[0], False
    return None, False


@model('core::str::<impl str>::starts_with')
def _(e, st, args, C):
    s_, p = e.canon(st, args[0]), e.canon(st, args[1])
    # array / slice of chars
    pats = None
    if p.op == 'adt' and p.a[0] == 'array': pats = p.a[2:]
    elif p.op == 'list': pats = p.a
    elif p.op in ('str', 'char'): pats = (p,)
    if pats is None or p.op == 'fn' or any(conststr(x) is None for x in pats):
        if p.op == 'fn' or (p.op == 'adt' and p.a[0] != 'array'):
            # closure pattern: apply it to the first character
            e.unsigned.add(App('len', s_))
            res = []
            for s2, emp in e.branch(st, Eq(lenof(e, st, args[0]), Int(0))):
                if emp: res += ret(s2, FALSE)
                else: res += e.call_value(s2, args[1], [mk('elem', App('chars', s_), Int(0))], C.site)
            return res
        return ret(st, App('starts_with', s_, p))
    pre, full = prefix_of(s_)
    texts = [conststr(x) for x in pats]
    if pre is not None and (full or all(len(x) <= len(pre) for x in texts)):
        return ret(st, Bool(any(pre.startswith(x) for x in texts)))
    atoms = []
    for x in sorted(set(texts)):
        atoms.append(App('starts_with', s_, Str(x)))
    # a disjunction, decided one alternative at a time
    res, rest = [], [st]
    for a in atoms:
        nxt = []
        for s0 in rest:
            for s2, r in e.branch(s0, a):
                if r: res += ret(s2, TRUE)
                else: nxt.append(s2)
        rest = nxt
    for s0 in rest: res += ret(s0, FALSE)
    return res


def pure(name, *keys):
    def f(e, st, args, C):
        r = App(name, *[e.canon(st, a) for a in args])
        t = e.tyk(C.dtid) if C.dtid is not None else None
        if t and t['k'] == 'uint': e.unsigned.add(r)
        return ret(st, r)
    for k in keys: MODELS[k] = f


for n in ('ends_with', 'contains', 'find', 'rfind', 'trim', 'trim_start', 'trim_end', 'lines', 'split', 'split_whitespace',
          'to_lowercase', 'to_uppercase', 'is_char_boundary', 'bytes', 'trim_matches', 'eq_ignore_ascii_case', 'repeat', 'matches', 'char_indices',
          'trim_start_matches', 'trim_end_matches', 'rsplit', 'is_ascii', 'splitn'):
    pure('str_' + n, 'core::str::<impl str>::' + n, 'std::str::<impl str>::' + n)


@model('core::str::<impl str>::strip_prefix')
def _(e, st, args, C):
    s_, p = e.canon(st, args[0]), e.canon(st, args[1])
    pre, full = prefix_of(s_)
    c = conststr(p)
    if pre is not None and c is not None and (full or len(c) <= len(pre)):
        if not pre.startswith(c): return ret(st, opt_none(C.dtid))
        rest = Str(pre[len(c):])
        if s_.op == 'fmt': rest = fmtcat(rest, *s_.a[1:])
        return ret(st, opt_some(C.dtid, rest))
    a = App('starts_with', s_, Str(c) if c is not None else p)
    out = []
    for s2, r in e.branch(st, a):
        out += ret(s2, opt_some(C.dtid, App('str_from', s_, Int(len(c.encode())) if c is not None else App('len', p))) if r else opt_none(C.dtid))
    return out


@model('std::str::<impl str>::replace', 'core::str::<impl str>::replace', 'std::str::<impl str>::replacen')
def _(e, st, args, C):
    s_, a, b = [e.canon(st, x) for x in args[:3]]
    ca, cb = conststr(a), conststr(b)
    if s_.op == 'str' and ca is not None and cb is not None:
        return ret(st, Str(s_.a[0].replace(ca, cb)))
    return ret(st, App('str_replace', s_, Str(ca) if ca is not None else a, Str(cb) if cb is not None else b))


INT_RANGE = {'i8': (-1 << 7, (1 << 7) - 1), 'i16': (-1 << 15, (1 << 15) - 1), 'i32': (-1 << 31, (1 << 31) - 1), 'i64': (-1 << 63, (1 << 63) - 1), 'i128': (-1 << 127, (1 << 127) - 1),
             'isize': (-1 << 63, (1 << 63) - 1), 'u8': (0, (1 << 8) - 1), 'u16': (0, (1 << 16) - 1), 'u32': (0, (1 << 32) - 1), 'u64': (0, (1 << 64) - 1), 'usize': (0, (1 << 64) - 1), 'u128': (0, (1 << 128) - 1)}


@model('core::str::<impl str>::parse')
def _(e, st, args, C):
    s_ = e.canon(st, args[0])
    ty = e.tyk(C.targs[0]).get('s', '?') if C.targs else '?'
    r = App('parse:' + ty, s_)
    if s_.op == 'str' and ty in INT_RANGE:
        import re
        lo, hi = INT_RANGE[ty]
        if re.fullmatch(r'[+-]?[0-9]+' if lo else r'\+?[0-9]+', s_.a[0], re.A) and lo <= int(s_.a[0]) <= hi:
            return ret(st, Adt(C.dtid, 0, Int(int(s_.a[0]))))
        return ret(st, Adt(C.dtid, 1, App('err', r)))
    out = []
    for s2, f in e.branch(st, App('failed', r)):
        out += ret(s2, Adt(C.dtid, 1, App('err', r)) if f else Adt(C.dtid, 0, App('ok', r)))
    return out


@model('core::str::<impl str>::chars')
def _(e, st, args, C):
    s_ = e.canon(st, args[0])
    if s_.op == 'str':
        return ret(st, seq(List([Char(ord(c)) for c in s_.a[0]])))
    return ret(st, seq(App('chars', s_)))


CH = {'is_alphabetic': str.isalpha, 'is_alphanumeric': str.isalnum, 'is_numeric': str.isnumeric, 'is_whitespace': lambda c: c.isspace() and c not in '\x1c\x1d\x1e\x1f',
      'is_ascii_digit': lambda c: c in '0123456789', 'is_ascii_alphabetic': lambda c: c.isascii() and c.isalpha(),
      'is_ascii_alphanumeric': lambda c: c.isascii() and c.isalnum(), 'is_ascii_whitespace': lambda c: c in ' \t\n\r\x0c',
      'is_ascii': str.isascii, 'is_uppercase': str.isupper, 'is_lowercase': str.islower, 'is_ascii_punctuation': lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != ' ', 'is_control': lambda c: ord(c) < 32 or 127 <= ord(c) < 160,
      'is_digit': None, 'is_ascii_hexdigit': lambda c: c in '0123456789abcdefABCDEF', 'is_ascii_uppercase': lambda c: c.isascii() and c.isupper(),
      'is_ascii_lowercase': lambda c: c.isascii() and c.islower(), 'is_ascii_control': lambda c: ord(c) < 32 or ord(c) == 127, 'is_ascii_graphic': lambda c: 33 <= ord(c) < 127}
for n, fn in CH.items():
    def f(e, st, args, C, n=n, fn=fn):
        c = e.canon(st, args[0])
        if c.op == 'char' and fn: return ret(st, Bool(fn(chr(c.a[0]))))
        fc = st.facts.get(c)
        if fc is not None and fc.op == 'char' and fn: return ret(st, Bool(fn(chr(fc.a[0]))))
        return ret(st, App('ch_' + n, c, *[e.canon(st, a) for a in args[1:]]))
    MODELS['std::char::methods::<impl char>::' + n] = f
    MODELS['core::char::methods::<impl char>::' + n] = f
for n in ('len_utf8', 'to_digit', 'to_ascii_lowercase', 'to_ascii_uppercase'):
    pure('ch_' + n, 'std::char::methods::<impl char>::' + n)

# ---------------------------------------------------------------- panics


@model('std::rt::panic_fmt', 'core::panicking::panic_fmt', 'core::panicking::panic', 'core::panicking::panic_display', 'core::panicking::panic_str_2015',
       'std::rt::panic_display', 'core::panicking::panic_explicit', 'std::rt::begin_panic', 'core::panicking::panic_nounwind')
def _(e, st, args, C):
    return panic(st, e.canon(st, args[0]) if args else 'panic', C)


@model('core::panicking::unreachable_display')
def _(e, st, args, C):
    return panic(st, fmtcat(Str('internal error: entered unreachable code: '), as_text(e.canon(st, args[0]))), C)


def _pm(msg):
    def f(e, st, args, C):
        return panic(st, msg, C)
    return f


for n, m in (('core::panicking::unreachable_default_msg', 'internal error: entered unreachable code'),
             ('core::panicking::unimplemented_default_msg', 'not implemented'), ('core::panicking::todo_default_msg', 'not yet implemented'),
             ('core::panicking::panic_default_msg', 'explicit panic'), ('std::option::unwrap_failed', 'unwrap on None'),
             ('std::result::unwrap_failed', 'unwrap on Err'), ('std::result::unwrap_failed::unwrap_failed_inner', 'unwrap on Err'),
             ('core::panicking::assert_failed', 'assert_eq'), ('core::panicking::assert_failed_inner', 'assert_eq'), ('core::slice::index::slice_index_fail', 'slice'),
             ('std::process::abort', 'abort'), ('std::process::exit', 'exit')):
    MODELS[n] = _pm(m)


@model('std::option::expect_failed')
def _(e, st, args, C):
    return panic(st, e.canon(st, args[0]), C)


@model('std::io::_eprint', 'std::io::_print')
def _(e, st, args, C):
    e.effect(st, 'eprint' if C.decl.endswith('_eprint') else 'print', (e.canon(st, args[0]),), C.site)
    return ret(st, UNIT)


# ---------------------------------------------------------------- pointers, cells, conversions
@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut', 'std::borrow::Borrow::borrow',
       'std::borrow::BorrowMut::borrow_mut')
def _(e, st, args, C):
    if C.has_body() and C.crate() not in ('std', 'core', 'alloc'): return None
    t = tname(e, C.targs[0]) if C.targs else ''
    if t in ('std::rc::Rc', 'std::boxed::Box', 'std::cell::Ref', 'std::cell::RefMut', 'std::sync::Arc', 'std::sync::MutexGuard'):
        v = val(e, st, args[0])
        return ret(st, v)
    return ret(st, args[0])


@model('std::cell::RefCell::<T>::borrow', 'std::cell::RefCell::<T>::borrow_mut', 'std::cell::RefCell::<T>::as_ptr', 'std::cell::RefCell::<T>::get_mut',
       'std::cell::UnsafeCell::<T>::get', 'std::cell::UnsafeCell::<T>::get_mut', 'std::cell::UnsafeCell::<T>::raw_get', 'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', 'std::boxed::Box::<T, A>::as_ref',
       'std::pin::Pin::<Ptr>::as_ref', 'std::vec::Vec::<T, A>::as_ptr', 'core::slice::<impl [T]>::as_ptr', 'std::vec::Vec::<T, A>::into_boxed_slice',
       'core::slice::<impl [T]>::as_mut_ptr', 'std::vec::Vec::<T, A>::leak', 'std::slice::<impl [T]>::into_vec')
def _(e, st, args, C):
    return ret(st, args[0])


@model('std::cell::Ref::<\'b, T>::map', 'std::cell::RefMut::<\'b, T>::map')
def _(e, st, args, C):
    return e.call_value(st, args[1], [args[0]], C.site)


def shared(e, st, v):
    c = e.canon(st, v)
    if e.unique_maps and c.op == 'app' and c.a[0] in ('emptymap', 'emptyset') and len(c.a) > 1: return c       # a shared map is known by its own identity
    return e.heap(st, v)


@model('std::rc::Rc::<T>::new', 'std::boxed::Box::<T>::new', 'std::sync::Arc::<T>::new')
def _(e, st, args, C):
    return ret(st, shared(e, st, args[0]) if C.decl.startswith('std::rc::Rc') else e.heap(st, args[0]))


@model('std::cell::RefCell::<T>::new', 'std::cell::Cell::<T>::new', 'std::cell::UnsafeCell::<T>::new', 'std::cell::UnsafeCell::<T>::into_inner', 'std::cell::RefCell::<T>::into_inner', 'std::cell::Cell::<T>::into_inner')
def _(e, st, args, C):
    return ret(st, args[0])


@model('std::cell::Cell::<T>::get')
def _(e, st, args, C):
    return ret(st, val(e, st, args[0]))


@model('std::cell::Cell::<T>::set', 'std::cell::RefCell::<T>::replace', 'std::cell::Cell::<T>::replace', 'std::mem::replace')
def _(e, st, args, C):
    root, path = e.to_place(args[0])
    old = e.read(st, root, path)
    e.write(st, root, path, args[1], C.site)
    return ret(st, UNIT if C.decl.endswith('::set') else old)


@model('std::mem::take')
def _(e, st, args, C):
    root, path = e.to_place(args[0])
    old = e.read(st, root, path)
    d = default_value(e, C.dtid)
    if d is None: return None
    e.write(st, root, path, d, C.site)
    return ret(st, old)


@model('std::mem::swap')
def _(e, st, args, C):
    a, b = e.to_place(args[0]), e.to_place(args[1])
    va, vb = e.read(st, *a), e.read(st, *b)
    e.write(st, a[0], a[1], vb, C.site)
    e.write(st, b[0], b[1], va, C.site)
    return ret(st, UNIT)


@model('std::mem::drop', 'std::mem::forget')
def _(e, st, args, C):
    if e.trace_drop:
        e.effect(st, C.decl, (e.canon(st, args[0]),), C.site)
    return ret(st, UNIT)


@model('std::rc::Rc::<T, A>::downgrade', 'std::rc::Rc::<T, A>::as_ptr', 'std::rc::Rc::<T>::into_raw')
def _(e, st, args, C):
    return ret(st, val(e, st, args[0]))


@model('std::rc::Weak::<T>::new')
def _(e, st, args, C):
    return ret(st, App('Weak::new'))


@model('std::rc::Weak::<T, A>::upgrade')
def _(e, st, args, C):
    p = val(e, st, args[0])
    if p.op == 'ref':
        return ret(st, opt_some(C.dtid, p))
    if e.unique_maps:
        q = map_base(e.canon(st, p))
        if q.op == 'app' and q.a[0] in ('emptymap', 'emptyset'): return ret(st, opt_some(C.dtid, q))     # the shared map itself, whose owner is at hand
    out = []
    for s2, r in e.branch(st, App('alive', e.strip(e.name(p) if p.op in ('deref', 'fld') else e.canon(st, p)))):
        out += ret(s2, opt_some(C.dtid, p) if r else opt_none(C.dtid))
    return out


@model('std::rc::Rc::<T, A>::ptr_eq', 'std::ptr::eq', 'std::ptr::addr_eq')
def _(e, st, args, C):
    return ret(st, Eq(e.canon(st, args[0]), e.canon(st, args[1])))


@model('std::clone::Clone::clone')
def _(e, st, args, C):
    if C.has_body() and C.crate() not in ('std', 'core', 'alloc') and not C.fn().get('derived'):
        return None
    v = val(e, st, args[0])
    return ret(st, v)


@model('std::slice::<impl [T]>::to_vec', 'core::slice::<impl [T]>::to_vec')
def _(e, st, args, C):
    p, v = deep(e, st, args[0])
    return ret(st, e.canon(st, args[0]))


@model('std::cmp::PartialEq::eq')
def _(e, st, args, C):
    if C.has_body() and C.crate() not in ('std', 'core', 'alloc') and not C.fn().get('derived'):
        return None
    return ret(st, Eq(e.canon(st, args[0]), e.canon(st, args[1])))


@model('std::cmp::PartialEq::ne')
def _(e, st, args, C):
    return ret(st, Not(Eq(e.canon(st, args[0]), e.canon(st, args[1]))))


def _cmp(op):
    def f(e, st, args, C):
        return ret(st, e.binop(op, e.canon(st, args[0]), e.canon(st, args[1])))
    return f


for n, op in (('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')):
    MODELS['std::cmp::PartialOrd::' + n] = _cmp(op)


@model('std::cmp::Ord::max', 'std::cmp::max', 'std::cmp::Ord::min', 'std::cmp::min')
def _(e, st, args, C):
    a, b = e.canon(st, args[0]), e.canon(st, args[1])
    mx = C.decl.endswith('max')
    out = []
    for s2, r in e.branch(st, Lt(a, b)):
        out += ret(s2, (b if mx else a) if r else (a if mx else b))
    return out


def _arith(op, assign):
    def f(e, st, args, C):
        if C.has_body() and C.crate() not in ('std', 'core', 'alloc'): return None
        if assign:
            root, path = e.to_place(args[0])
            if tname(e, C.targs[0]) == 'std::string::String':
                str_append(e, st, args[0], as_text(e.canon(st, args[1])), C)
                return ret(st, UNIT)
            old = e.canon(st, e.read(st, root, path))
            e.write(st, root, path, e.binop(op, old, e.canon(st, args[1])), C.site)
            return ret(st, UNIT)
        if tname(e, C.targs[0]) == 'std::string::String' and op == 'Add':
            return ret(st, fmtcat(as_text(e.canon(st, args[0])), as_text(e.canon(st, args[1]))))
        return ret(st, e.binop(op, e.canon(st, args[0]), e.canon(st, args[1])))
    return f


for n in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
    MODELS['std::ops::%s::%s' % (n, n.lower())] = _arith(n, False)
    MODELS['std::ops::%sAssign::%s_assign' % (n, n.lower())] = _arith(n, True)


@model('std::ops::Not::not')
def _(e, st, args, C):
    return ret(st, Not(e.canon(st, args[0])))


@model('std::convert::From::from', '<T as std::convert::Into<U>>::into', 'std::convert::Into::into')
def _(e, st, args, C):
    if C.has_body() and C.crate() not in ('std', 'core', 'alloc'): return None
    if C.has_body() and 'Into' in C.f['path']: return None
    d = tname(e, C.dtid)
    t = e.tyk(C.dtid)
    if t['k'] in ('int', 'uint') : return ret(st, e.canon(st, args[0]))
    if d == 'std::string::String': return ret(st, fmtcat(as_text(e.canon(st, args[0]))) if e.canon(st, args[0]).op in ('str', 'fmt', 'char') else e.canon(st, args[0]))
    if d == 'std::option::Option':
        v = args[0]
        if len(C.targs) > 1 and C.targs[1] == C.dtid: return ret(st, v)
        return ret(st, opt_some(C.dtid, v))
    if d in ('std::rc::Rc', 'std::boxed::Box'):
        if tname(e, C.targs[1] if len(C.targs) > 1 else None) in ('std::vec::Vec', 'std::boxed::Box'): return ret(st, args[0])
        if d == 'std::boxed::Box' and e.tyk(t['args'][0])['k'] in ('dyn', 'slice', 'str'): return ret(st, args[0])
        return ret(st, e.heap(st, args[0]))
    if d == 'std::vec::Vec':
        return ret(st, as_list(e, st, args[0]))
    return ret(st, args[0])


@model('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def _(e, st, args, C):
    if C.has_body(): return None
    t = e.tyk(C.dtid)
    it = e.tyk(t['vs'][0]['fs'][0][1])
    c = e.canon(st, args[0])
    if it['k'] in ('int', 'uint'):
        bits, sg = e.INTB[it['n']]
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        out, rest = [], []
        errv = Adt(C.dtid, 1, App('err', App('tryfrom', c)))
        for s2, r in e.branch(st, Lt(c, Int(lo))):
            if r: out += ret(s2, errv)
            else: rest.append(s2)
        for s1 in rest:
            for s2, r in e.branch(s1, Lt(Int(hi), c)):
                out += ret(s2, errv if r else Adt(C.dtid, 0, c))
        return out
    return e.result_fork(st, App('try_from', c), C)


@model('std::num::NonZero::<T>::new_unchecked', 'std::num::NonZero::<T>::get')
def _(e, st, args, C):
    return ret(st, args[0])


@model('std::num::NonZero::<T>::new')
def _(e, st, args, C):
    c = e.canon(st, args[0])
    out = []
    for s2, r in e.branch(st, Eq(c, Int(0))):
        out += ret(s2, opt_none(C.dtid) if r else opt_some(C.dtid, c))
    return out


def _intm(n):
    def f(e, st, args, C):
        a = [e.canon(st, x) for x in args]
        if n in ('wrapping_add', 'saturating_add', 'wrapping_sub', 'saturating_sub', 'wrapping_mul'):
            if n == 'wrapping_add' and a[1].op == 'int': return ret(st, App('wrap_add', *a))
        return ret(st, App('int_' + n, *a))
    return f


for t in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'isize', 'usize'):
    for n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'saturating_add', 'saturating_sub', 'saturating_mul', 'pow', 'abs', 'rem_euclid', 'checked_add',
              'checked_sub', 'checked_mul', 'is_positive', 'is_negative', 'leading_zeros', 'ilog10', 'wrapping_neg', 'unsigned_abs', 'div_ceil'):
        MODELS['core::num::<impl %s>::%s' % (t, n)] = _intm(n)
        MODELS['std::%s::<impl %s>::%s' % (t, t, n)] = _intm(n)


def _atomic(n):
    def f(e, st, args, C):
        a = [e.canon(st, x) for x in args[1:]]
        p = e.canon(st, args[0])
        if n == 'load':
            v = App('atomic', p)
            k = st.store.get(mk('atomicv', p))
            return ret(st, k if k is not None else v)
        st.n += 1
        old = App('atomic', p, Int(st.n)) if st.store.get(mk('atomicv', p)) is not None else App('atomic', p)
        e.effect(st, 'atomic_' + n, [p] + a, C.site)
        if n == 'store':
            st.store[mk('atomicv', p)] = a[0]
            return ret(st, UNIT)
        st.store[mk('atomicv', p)] = App('atomic', p, Int(st.n + 1))
        return ret(st, App('atomic_' + n, p, *a, Int(st.n)))
    return f


for ty in ('u32', 'usize', 'i32', 'u64', 'bool', 'i64', 'isize'):
    for n in ('fetch_add', 'fetch_sub', 'load', 'store', 'swap', 'compare_exchange', 'fetch_max'):
        MODELS['std::sync::atomic::Atomic::<%s>::%s' % (ty, n)] = _atomic(n)


@model('std::thread::LocalKey::<T>::with')
def _(e, st, args, C):
    k = e.canon(st, args[0])
    return e.call_value(st, args[1], [App('tls', k)], C.site)


@model('std::thread::LocalKey::<std::cell::RefCell<T>>::with_borrow', 'std::thread::LocalKey::<std::cell::RefCell<T>>::with_borrow_mut')
def _(e, st, args, C):
    k = e.canon(st, args[0])
    return e.call_value(st, args[1], [App('tls', k)], C.site)


def empty_map(e, kind):
    """a new empty map or set; with unique_maps each has its own identity"""
    if not e.unique_maps: return App(kind)
    e.fid += 1
    return App(kind, Int(e.fid))


def default_value(e, tid):
    t = e.tyk(tid)
    k = t['k']
    n = t.get('name', '')
    if k in ('int', 'uint'): return Int(0)
    if k == 'bool': return FALSE
    if k == 'tuple':
        fs = [default_value(e, f) for f in t['fs']]
        return None if any(f is None for f in fs) else Tuple(*fs)
    if n == 'std::string::String': return Str('')
    if n in ('std::vec::Vec', 'std::collections::VecDeque'): return List([])
    if n == 'std::option::Option': return opt_none(tid)
    if n in ('std::collections::HashMap', 'std::collections::BTreeMap'): return empty_map(e, 'emptymap')
    if n in ('std::collections::HashSet', 'std::collections::BTreeSet'): return empty_map(e, 'emptyset')
    if n in ('std::cell::RefCell', 'std::cell::Cell'): return default_value(e, t['args'][0])
    return None


@model('std::default::Default::default')
def _(e, st, args, C):
    if C.has_body() and C.crate() not in ('std', 'core', 'alloc'): return None
    v = default_value(e, C.dtid)
    n = tname(e, C.dtid)
    if v is None and n in ('std::rc::Rc', 'std::boxed::Box'):
        i = default_value(e, e.tyk(C.dtid)['args'][0])
        if i is not None: return ret(st, shared(e, st, i) if n == 'std::rc::Rc' else e.heap(st, i))
    if v is None and n == 'std::rc::Weak': return ret(st, App('Weak::new'))
    return ret(st, v) if v is not None else None


# ---------------------------------------------------------------- sequences
@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::collections::VecDeque::<T>::new', 'std::collections::VecDeque::<T>::with_capacity')
def _(e, st, args, C):
    return ret(st, List([]))


@model('std::boxed::Box::<T>::new_uninit')
def _(e, st, args, C):
    return ret(st, e.heap(st, mk('uninit', mk('box', e.fid))))


@model('std::boxed::box_assume_init_into_vec_unsafe')
def _(e, st, args, C):
    return ret(st, as_list(e, st, args[0]))


@model('std::vec::from_elem')
def _(e, st, args, C):
    n = e.canon(st, args[1])
    v = e.canon(st, args[0])
    if n.op == 'int' and n.a[0] <= 16: return ret(st, List([v] * n.a[0]))
    return ret(st, App('repeat', v, n))


def as_list(e, st, v):
    c = e.canon(st, v)
    if c.op == 'adt' and c.a[0] == 'array': return List(c.a[2:])
    return c


def pushto(e, st, ptr, x, C, front=False):
    ptr = lastptr(e, st, ptr)
    root, path = e.to_place(ptr)
    old = e.read(st, root, path)
    if old.op not in ('list', 'olist'):
        co = e.canon(st, old)
        if co.op == 'list': old = co
    if old.op == 'list' and front:
        e.write(st, root, path, List([x] + list(old.a)), effect=False)
        if root.op == 'obj': e.effect(st, 'push_front', (e.pterm(st, root, path), e.canon(st, x)), C.site)
    elif old.op in ('list', 'olist'):
        cx = x
        e.write(st, root, path, mk(old.op, *(old.a + (cx,))), effect=False)
        if root.op == 'obj':
            e.effect(st, 'push', (e.pterm(st, root, path), e.canon(st, x)), C.site)
    else:
        mutate(e, st, ptr, 'push_front' if front else 'push', [x], C)


@model('std::vec::Vec::<T, A>::push', 'std::collections::VecDeque::<T, A>::push_back')
def _(e, st, args, C):
    pushto(e, st, args[0], args[1], C)
    return ret(st, UNIT)


@model('std::collections::VecDeque::<T, A>::push_front')
def _(e, st, args, C):
    pushto(e, st, args[0], args[1], C, True)
    return ret(st, UNIT)


@model('std::collections::VecDeque::<T, A>::pop_front', 'std::vec::Vec::<T, A>::pop', 'std::collections::VecDeque::<T, A>::pop_back')
def _(e, st, args, C):
    ptr = lastptr(e, st, args[0])
    root, path = e.to_place(ptr)
    old = e.read(st, root, path)
    front = C.decl.endswith('front')
    if old.op == 'list':
        if not old.a: return ret(st, opt_none(C.dtid))
        x = old.a[0] if front else old.a[-1]
        e.write(st, root, path, List(old.a[1:] if front else old.a[:-1]), effect=False)
        if root.op == 'obj': e.effect(st, 'pop', (e.pterm(st, root, path),), C.site)
        return ret(st, opt_some(C.dtid, x))
    out = []
    c = e.canon(st, old)
    for s2, emp in e.branch(st, Eq(e.length(st, c), Int(0))):
        if emp: out += ret(s2, opt_none(C.dtid))
        else:
            x = mk('elem', c, Int(0) if front else add(e.length(s2, c), Int(-1)))
            mutate(e, s2, ptr, 'pop_front' if front else 'pop_back', [], C)
            out += ret(s2, opt_some(C.dtid, x))
    return out


@model('std::vec::Vec::<T, A>::clear', 'std::collections::VecDeque::<T, A>::clear')
def _(e, st, args, C):
    mutate(e, st, args[0], 'clear', [], C, List([]))
    return ret(st, UNIT)


@model('std::vec::Vec::<T, A>::reserve', 'std::collections::HashMap::<K, V, S, A>::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit', 'std::string::String::reserve')
def _(e, st, args, C):
    return ret(st, UNIT)


@model('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove', 'std::vec::Vec::<T, A>::insert', 'std::vec::Vec::<T, A>::truncate',
       'std::vec::Vec::<T, A>::retain', 'std::vec::Vec::<T, A>::extend_from_slice', 'std::vec::Vec::<T, A>::append', 'std::vec::Vec::<T, A>::dedup',
       'core::slice::<impl [T]>::sort', 'std::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::reverse', 'core::slice::<impl [T]>::swap',
       'core::slice::<impl [T]>::sort_unstable', 'std::slice::<impl [T]>::sort_by_key', 'std::vec::Vec::<T, A>::drain', 'core::slice::<impl [T]>::sort_unstable_by_key')
def _(e, st, args, C):
    n = C.decl.rsplit('::', 1)[1]
    ptr = lastptr(e, st, args[0])
    root, path = e.to_place(ptr)
    old = e.read(st, root, path)
    if n == 'extend_from_slice':
        o = as_list(e, st, args[1])
        if old.op == 'list' and o.op == 'list':
            e.write(st, root, path, List(old.a + o.a), effect=False)
            if root.op == 'obj': e.effect(st, 'extend', (e.pterm(st, root, path), o), C.site)
            return ret(st, UNIT)
        if old.op == 'list' and not old.a:
            e.write(st, root, path, o, effect=False)
            if root.op == 'obj': e.effect(st, 'extend', (e.pterm(st, root, path), o), C.site)
            return ret(st, UNIT)
    if n == 'reverse' and old.op == 'list':
        e.write(st, root, path, List(old.a[::-1]), effect=False)
        return ret(st, UNIT)
    if old.op != 'list' and e.canon(st, old).op == 'list': old = e.canon(st, old)
    if old.op == 'list':
        ints = [e.canon(st, a) for a in args[1:]]
        def done(s, l, r, name=None):
            e.write(s, root, path, List(l), effect=False)
            if root.op == 'obj': e.effect(s, 'vec_' + (name or n), (e.pterm(s, root, path),) + tuple(x for x in ints if x.op != 'fn'), C.site)
            return ret(s, r)
        l = list(old.a)
        if n in ('remove', 'swap_remove', 'insert') and ints[0].op == 'int':
            i = ints[0].a[0]
            if i > len(l) or (i == len(l) and n != 'insert'): return panic(st, 'index out of bounds', C)
            if n == 'insert':
                l.insert(i, args[2])
                return done(st, l, UNIT)
            x = l[i]
            if n == 'remove': del l[i]
            else:
                l[i] = l[-1]
                l.pop()
            return done(st, l, x)
        if n == 'swap' and ints[0].op == 'int' and ints[1].op == 'int':
            i, j = ints[0].a[0], ints[1].a[0]
            if max(i, j) >= len(l): return panic(st, 'index out of bounds', C)
            l[i], l[j] = l[j], l[i]
            return done(st, l, UNIT)
        if n == 'truncate' and ints[0].op == 'int': return done(st, l[:ints[0].a[0]], UNIT)
        if n == 'append' and ints[0].op == 'list':
            r2, p2 = e.to_place(lastptr(e, st, args[1]))
            e.write(st, r2, p2, List([]), effect=False)
            return done(st, l + list(ints[0].a), UNIT)
        if n == 'retain' and len(l) <= 12:
            outs, states = [], [(st, [])]
            for x in l:
                nxt = []
                for s, kept in states:
                    for o in e.call_value(s, args[1], [x if x.op != 'adt' else e.heap(s, x)], C.site):
                        if o.kind != 'ret':
                            outs.append(o)
                            continue
                        for s2, b in e.branch(o.st, e.canon(o.st, o.val)):
                            nxt.append((s2, kept + [x] if b else kept))
                states = nxt
            for s, kept in states: outs += done(s, kept, UNIT)
            return outs
    c = e.canon(st, old)
    args2 = args[1:]
    if n == 'retain':
        # the predicate, on a generic element
        g = mk('elem', c, Sym('ι'))
        rs = [o for o in e.call_value(st.copy(), args[1], [g], C.site) if o.kind == 'ret']
        if len(rs) == 1: args2 = [rs[0].val]
    mutate(e, st, ptr, 'vec_' + n, args2, C)
    if n in ('remove', 'swap_remove'):
        return ret(st, mk('elem', c, e.canon(st, args[1])))
    return ret(st, UNIT)


@model('std::vec::Vec::<T, A>::extend', 'std::iter::Extend::extend')
def _(e, st, args, C):
    it = make_iter(e, st, args[1], C.targs[-1] if len(C.targs) > 1 else None)
    if it is None: return None
    ptr = lastptr(e, st, args[0])
    root, path = e.to_place(ptr)
    n = tname(e, C.targs[0]) if C.targs else ''
    O = _out()
    if n in ('std::collections::HashSet', 'std::collections::HashMap'):
        def body(s, x):
            mutate(e, s, ptr, 'insert', list(x.a[2:]) if x.op == 'adt' and x.a[0] == 'tuple' else [x], C)
            return [(s, 'cont', None)]
    else:
        def body(s, x):
            pushto(e, s, ptr, x, C)
            return [(s, 'cont', None)]
    return [O(s, 'ret', UNIT) if k != 'out' else v for s, k, v in iterate(e, st, it, body, C)]


def getidx(e, st, ptr, i, C, mut, tid):
    """Option<&elem>"""
    p = lastptr(e, st, ptr)
    c = e.canon(st, p)
    out = []
    ln = e.length(st, c)
    for s2, r in e.branch(st, Lt(i, ln)):
        if not r: out += ret(s2, opt_none(tid))
        else:
            if mut and p.op == 'ref':
                v = Ref(p.a[0], p.a[1] + (('ix', i),))
            else:
                v = e.index(s2, c, i)
            out += ret(s2, opt_some(tid, v))
    return out


@model('core::slice::<impl [T]>::get', 'std::vec::Vec::<T, A>::get', 'core::slice::<impl [T]>::get_mut', 'std::collections::VecDeque::<T, A>::get')
def _(e, st, args, C):
    i = e.canon(st, args[1])
    if i.op in ('adt', 'range'): return None
    return getidx(e, st, args[0], i, C, C.decl.endswith('mut'), C.dtid)


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'std::collections::VecDeque::<T, A>::front', 'std::collections::VecDeque::<T, A>::back',
       'core::slice::<impl [T]>::last_mut', 'core::slice::<impl [T]>::first_mut')
def _(e, st, args, C):
    c = e.canon(st, args[0])
    n = C.decl.rsplit('::', 1)[1]
    if n in ('first', 'front', 'first_mut'): i = Int(0)
    else: i = add(e.length(st, c), Int(-1))
    out = []
    for s2, emp in e.branch(st, Eq(e.length(st, c), Int(0))):
        if emp: out += ret(s2, opt_none(C.dtid))
        else:
            p = lastptr(e, s2, args[0])
            if n.endswith('_mut') and p.op == 'ref':
                x = Ref(p.a[0], p.a[1] + (('ix', i),))
            else: x = e.index(s2, c, i)
            out += ret(s2, opt_some(C.dtid, x))
    return out


@model('core::slice::<impl [T]>::contains', 'std::vec::Vec::<T, A>::contains')
def _(e, st, args, C):
    c, x = e.canon(st, args[0]), e.canon(st, args[1])
    if c.op == 'adt' and c.a[0] == 'array': c = List(c.a[2:])
    if c.op == 'list':
        res, rest = [], [st]
        for y in c.a:
            nxt = []
            for s0 in rest:
                for s2, r in e.branch(s0, Eq(x, y)):
                    if r: res += ret(s2, TRUE)
                    else: nxt.append(s2)
            rest = nxt
        return res + [o for s0 in rest for o in ret(s0, FALSE)]
    return ret(st, App('contains', c, x))


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def _(e, st, args, C):
    if C.has_body() and C.crate() not in ('std', 'core', 'alloc'): return None
    n = tname(e, C.targs[0]) if C.targs else ''
    if n in ('std::collections::HashMap', 'std::collections::BTreeMap'):
        key = e.canon(st, args[1])
        out = []
        for s2, r, p in map_get(e, st, args[0], key):
            if r: out += ret(s2, p)
            else: out += panic(s2, 'no entry found for key', C)
        return out
    itid = C.targs[1] if len(C.targs) > 1 else None
    it = e.tyk(itid) if itid is not None else {'k': ''}
    c = e.canon(st, args[0])
    if it['k'] == 'uint':
        i = e.canon(st, args[1])
        ln = e.length(st, c)
        ok = Lt(i, ln)
        d = e.decide(st, ok)
        if d is False: return panic(st, 'index out of bounds', C)
        if d is None:
            st.risks = st.risks + (('bounds', ok, C.site),)
            e.assume(st, ok, True, record=False)
        p = lastptr(e, st, args[0])
        if C.decl.endswith('_mut') and p.op == 'ref':
            return ret(st, Ref(p.a[0], p.a[1] + (('ix', i),)))
        return ret(st, e.index(st, c, i))
    # ranges
    r = e.canon(st, args[1])
    rn = it.get('name', '').rsplit('::', 1)[-1]
    fs = list(r.a[2:]) if r.op == 'adt' else [r]
    if c.op == 'str' and all(f.op == 'int' for f in fs):
        b = c.a[0].encode()
        a0, a1 = {'RangeFrom': lambda: (fs[0].a[0], len(b)), 'RangeTo': lambda: (0, fs[0].a[0]), 'Range': lambda: (fs[0].a[0], fs[1].a[0]), 'RangeFull': lambda: (0, len(b))}.get(rn, lambda: (0, len(b)))()
        if a1 > len(b) or a0 > a1: return panic(st, 'slice', C)
        return ret(st, Str(b[a0:a1].decode()))
    if c.op == 'list' and all(f.op == 'int' for f in fs):
        b = c.a
        a0, a1 = {'RangeFrom': lambda: (fs[0].a[0], len(b)), 'RangeTo': lambda: (0, fs[0].a[0]), 'Range': lambda: (fs[0].a[0], fs[1].a[0])}.get(rn, lambda: (0, len(b)))()
        return ret(st, List(b[a0:a1]))
    if c.op == 'fmt' and rn == 'RangeFrom' and fs[0].op == 'int' and c.a[0].op == 'str' and len(c.a[0].a[0]) >= fs[0].a[0]:
        return ret(st, fmtcat(Str(c.a[0].a[0][fs[0].a[0]:]), *c.a[1:]))
    if rn == 'RangeFull': return ret(st, args[0])
    if e.tyk(C.targs[0])['k'] == 'str' or n in ('std::string::String', 'str'):
        if rn == 'RangeFrom':
            st.risks = st.risks + (('slice', App('charbound', c, fs[0]), C.site),)
            return ret(st, App('str_from', c, fs[0]))
        st.risks = st.risks + (('slice', App('charbound', c, *fs), C.site),)
        return ret(st, App('str_slice:' + rn, c, *fs))
    ln = e.length(st, c)
    lo = {'RangeFrom': fs[0], 'RangeTo': Int(0), 'Range': fs[0]}.get(rn, Int(0)) if fs else Int(0)
    hi = {'RangeFrom': ln, 'RangeTo': fs[0] if fs else ln, 'Range': fs[1] if len(fs) > 1 else ln}.get(rn, ln)
    st.risks = st.risks + (('slice', App('slicebound', c, lo, hi), C.site),)
    sl = App('slice', c, lo, hi)
    e.assume(st, Eq(e.length(st, sl), add(hi, lo, -1)), True, False)
    return ret(st, sl)


@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def _(e, st, args, C):
    c = e.canon(st, args[0])
    first = C.decl.endswith('first')
    out = []
    for s2, emp in e.branch(st, Eq(e.length(st, c), Int(0))):
        if emp: out += ret(s2, opt_none(C.dtid))
        else:
            if c.op == 'list':
                t = Tuple(c.a[0], List(c.a[1:])) if first else Tuple(c.a[-1], List(c.a[:-1]))
            else:
                ln = e.length(s2, c)
                t = Tuple(e.index(s2, c, Int(0)), App('slice', c, Int(1), ln)) if first else Tuple(e.index(s2, c, add(ln, Int(-1))), App('slice', c, Int(0), add(ln, Int(-1))))
            out += ret(s2, opt_some(C.dtid, t))
    return out


# ---------------------------------------------------------------- maps and sets
def map_base(m):
    while m.op == 'app' and m.a[0] in ('mut:insert', 'mut:remove'):
        m = m.a[1]
    return m


def map_find(e, st, contents, key):
    """('yes', value|None) / ('no',) / ('atom', atom)"""
    m = contents
    while True:
        if m.op == 'app' and m.a[0] == 'mut:insert':
            if m.a[2] is key: return ('yes', m.a[3] if len(m.a) > 3 else UNIT)
            r = e.decide(st, Eq(m.a[2], key))
            if r is True: return ('yes', m.a[3] if len(m.a) > 3 else UNIT)
            if r is False:
                m = m.a[1]
                continue
            return ('atom', App('has', m, key))
        if m.op == 'app' and m.a[0] == 'mut:remove':
            if m.a[2] is key: return ('no',)
            r = e.decide(st, Eq(m.a[2], key))
            if r is True: return ('no',)
            if r is False:
                m = m.a[1]
                continue
            return ('atom', App('has', m, key))
        if m.op == 'app' and m.a[0] in ('emptymap', 'emptyset'): return ('no',)
        return ('atom', App('has', e.strip(m), key))


def newtype_text(e, tid):
    """a struct whose only field is a string (possibly shared): looked up by that string through Borrow"""
    t = e.tyk(tid) if not isinstance(tid, str) else None
    if not t or t.get('k') != 'adt' or len(t.get('vs', ())) != 1 or len(t['vs'][0]['fs']) != 1 or not t.get('name', '').startswith('koopa'): return False
    f = e.tyk(t['vs'][0]['fs'][0][1])
    while f.get('name') in ('std::rc::Rc', 'std::boxed::Box', 'std::sync::Arc'): f = e.tyk(f['args'][0])
    return f.get('name') == 'std::string::String'


def mapkey(e, key):
    return key.a[2] if key.op == 'adt' and len(key.a) == 3 and newtype_text(e, key.a[0]) else key


def map_place(e, st, root, path, contents):
    """what identifies the map in slot(map, key)"""
    b = map_base(contents)
    if b.op == 'app' and b.a[0] in ('emptymap', 'emptyset') and len(b.a) > 1: return b
    if root.op == 'obj': return e.pterm(st, root, path)
    if contents.op == 'app' and contents.a[0].startswith('mut:'): return e.strip(b)
    return e.strip(e.canon(st, b))


def known_entries(e, st, src):
    """[(key, value or None)] of a map made of insertions and removals of decidably different keys, or None"""
    ops = []
    m = src
    while m.op == 'app' and m.a[0] in ('mut:insert', 'mut:remove'):
        ops.append(m)
        m = m.a[1]
    if not (m.op == 'app' and m.a[0] in ('emptymap', 'emptyset')): return None
    out = []
    for o in reversed(ops):
        same = []
        for i, (k, v) in enumerate(out):
            r = True if k is o.a[2] else e.decide(st, Eq(k, o.a[2]))
            if r is None: return None
            if r: same.append(i)
        if o.a[0] == 'mut:insert':
            x = (out[same[0]][0] if same else o.a[2], o.a[3] if len(o.a) > 3 else None)
            if same: out[same[0]] = x
            else: out.append(x)
        else:
            for i in same: del out[i]
    return out[::-1] if e.rev_maps else out


def map_get(e, st, mptr, key):
    """[(state, found, pointer-to-value)]"""
    p = lastptr(e, st, mptr)
    root, path = e.to_place(p)
    contents = e.canon(st, e.read(st, root, path))
    r = map_find(e, st, contents, key)
    if r[0] == 'no': return [(st, False, None)]
    slot = App('slot', map_place(e, st, root, path, contents), key)
    if r[0] == 'yes':
        s_ = mk('obj', slot)
        if r[1] is not None and s_ not in st.store:
            st.store[s_] = r[1]
        return [(st, True, slot)]
    out = []
    for s2, b in e.branch(st, r[1]):
        out.append((s2, b, slot))
    return out


@model('std::collections::HashMap::<K, V>::new', 'std::collections::HashMap::<K, V>::with_capacity', 'std::collections::BTreeMap::<K, V>::new')
def _(e, st, args, C):
    return ret(st, empty_map(e, 'emptymap'))


@model('std::collections::HashSet::<T>::new', 'std::collections::HashSet::<T>::with_capacity', 'std::collections::BTreeSet::<T>::new')
def _(e, st, args, C):
    return ret(st, empty_map(e, 'emptyset'))


@model('std::collections::HashMap::<K, V, S, A>::get', 'std::collections::HashMap::<K, V, S, A>::get_mut', 'std::collections::HashSet::<T, S, A>::get',
       'std::collections::BTreeMap::<K, V, A>::get', 'std::collections::BTreeMap::<K, V, A>::get_mut')
def _(e, st, args, C):
    key = mapkey(e, e.canon(st, args[1]))
    out = []
    isset = 'HashSet' in C.decl
    for s2, r, p in map_get(e, st, args[0], key):
        if r and isset and C.targs and newtype_text(e, C.targs[0]):
            p = Adt(C.targs[0], 0, key)
        elif isset: p = key
        out += ret(s2, opt_some(C.dtid, p) if r else opt_none(C.dtid))
    return out


@model('std::collections::HashMap::<K, V, S, A>::contains_key', 'std::collections::HashSet::<T, S, A>::contains', 'std::collections::BTreeMap::<K, V, A>::contains_key')
def _(e, st, args, C):
    p = lastptr(e, st, args[0])
    r = map_find(e, st, e.canon(st, p), mapkey(e, e.canon(st, args[1])))
    return ret(st, TRUE if r[0] == 'yes' else FALSE if r[0] == 'no' else r[1])


def drop_slot(e, st, mptr, key):
    p = lastptr(e, st, mptr)
    root, path = e.to_place(p)
    st.store.pop(mk('obj', App('slot', map_place(e, st, root, path, e.canon(st, e.read(st, root, path))), key)), None)


@model('std::collections::HashMap::<K, V, S, A>::insert', 'std::collections::HashSet::<T, S, A>::insert', 'std::collections::BTreeMap::<K, V, A>::insert',
       'std::collections::HashSet::<T, S, A>::replace')
def _(e, st, args, C):
    key = mapkey(e, e.canon(st, args[1]))
    isset = 'Set' in C.decl
    found = map_get(e, st.copy(), args[0], key)
    p = lastptr(e, st, args[0])
    r = map_find(e, st, e.canon(st, p), key)
    old = App('prev', e.canon(st, p), key)
    drop_slot(e, st, args[0], key)
    mutate(e, st, args[0], 'insert', [key] + list(args[2:]), C)
    if isset:
        res = FALSE if r[0] == 'yes' else TRUE if r[0] == 'no' else Not(r[1])
        return ret(st, res)
    if r[0] == 'no': return ret(st, opt_none(C.dtid))
    if r[0] == 'yes': return ret(st, opt_some(C.dtid, old))
    if not e.fork_insert:
        return ret(st, App('insert_ret', old))
    out = []
    for s2, b in e.branch(st, r[1]):
        out += ret(s2, opt_some(C.dtid, old) if b else opt_none(C.dtid))
    return out


@model('std::collections::HashMap::<K, V, S, A>::remove', 'std::collections::HashMap::<K, V, S, A>::remove_entry', 'std::collections::HashSet::<T, S, A>::remove',
       'std::collections::BTreeMap::<K, V, A>::remove', 'std::collections::HashSet::<T, S, A>::take')
def _(e, st, args, C):
    key = mapkey(e, e.canon(st, args[1]))
    n = C.decl.rsplit('::', 1)[1]
    isset = 'Set' in C.decl
    if isset and n == 'remove':
        p = lastptr(e, st, args[0])
        r = map_find(e, st, e.canon(st, p), key)
        mutate(e, st, args[0], 'remove', [key], C)
        return ret(st, TRUE if r[0] == 'yes' else FALSE if r[0] == 'no' else r[1])
    out = []
    for s2, b, slot in map_get(e, st, args[0], key):
        if not b:
            mutate(e, s2, args[0], 'remove', [key], C)
            out += ret(s2, opt_none(C.dtid))
            continue
        v = val(e, s2, slot)
        if v.op == 'deref': v = slot
        s2.store.pop(mk('obj', slot), None)
        mutate(e, s2, args[0], 'remove', [key], C)
        out += ret(s2, opt_some(C.dtid, Tuple(key, v) if n == 'remove_entry' else v))
    return out


@model('std::collections::HashMap::<K, V, S, A>::clear', 'std::collections::HashSet::<T, S, A>::clear')
def _(e, st, args, C):
    mutate(e, st, args[0], 'clear', [], C, empty_map(e, 'emptyset' if 'Set' in C.decl else 'emptymap'))
    return ret(st, UNIT)


@model('std::collections::HashMap::<K, V, S, A>::retain', 'std::collections::HashSet::<T, S, A>::retain')
def _(e, st, args, C):
    isset = 'Set' in C.decl
    mp = lastptr(e, st, args[0])
    c = e.canon(st, mp)
    ln = e.length(st, c)
    lo, hi = (ln.a[0], ln.a[0]) if ln.op == 'int' else e.bound(st, ln)
    if lo is None or lo != hi or lo > 8:
        return None
    outs, states = [], [st]
    for i in range(lo):
        nxt = []
        for s in states:
            key = e.canon(s, App('key', e.strip(c), Int(i)))
            got = map_get(e, s, mp, key) if not isset else [(s, True, None)]
            for s1, _b, sl in got:
                for o in e.call_value(s1, args[1], [key] if isset else [key, sl], C.site):
                    if o.kind != 'ret':
                        outs.append(o)
                        continue
                    for s2, b in e.branch(o.st, e.canon(o.st, o.val)):
                        if not b:
                            mutate(e, s2, args[0], 'remove', [key], C)
                        nxt.append(s2)
        states = nxt
    O = _out()
    return outs + [O(s, 'ret', UNIT) for s in states]


def variant_index(e, tid, name):
    for i, v in enumerate(e.tyk(tid)['vs']):
        if v['n'] == name: return i


@model('std::collections::HashMap::<K, V, S, A>::entry')
def _(e, st, args, C):
    key = e.canon(st, args[1])
    out = []
    mp = lastptr(e, st, args[0])
    for s2, b, slot in map_get(e, st, args[0], key):
        i = variant_index(e, C.dtid, 'Occupied' if b else 'Vacant')
        out += ret(s2, Adt(C.dtid, i, mk('entry', mp, key, slot if slot is not None else UNIT)))
    return out


def _entry(e, st, a):
    p, v = deep(e, st, a)
    if v.op == 'adt' and len(v.a) > 2 and v.a[2].op == 'entry': return v.a[1], v.a[2]
    if v.op == 'entry': return None, v
    return None, None


def _entry_insert(e, st, en, x, C):
    mp, key = en.a[0], en.a[1]
    drop_slot(e, st, mp, key)
    mutate(e, st, mp, 'insert', [key, x], C)
    for s2, r, p in map_get(e, st, mp, key):
        return s2, p


@model("std::collections::hash_map::VacantEntry::<'a, K, V, A>::insert")
def _(e, st, args, C):
    _, en = _entry(e, st, args[0])
    if en is None: return None
    s2, p = _entry_insert(e, st, en, args[1], C)
    return ret(s2, p)


@model("std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::get", "std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::get_mut",
       "std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::into_mut")
def _(e, st, args, C):
    _, en = _entry(e, st, args[0])
    return ret(st, en.a[2]) if en is not None else None


@model("std::collections::hash_map::Entry::<'a, K, V, A>::or_insert", "std::collections::hash_map::Entry::<'a, K, V, A>::or_insert_with",
       "std::collections::hash_map::Entry::<'a, K, V, A>::or_default", "std::collections::hash_map::Entry::<'a, K, V, A>::or_insert_with_key")
def _(e, st, args, C):
    p, v = deep(e, st, args[0])
    _, en = _entry(e, st, args[0])
    if en is None: return None
    if e.u.variant(v.a[0], v.a[1])['n'] == 'Occupied': return ret(st, en.a[2])
    n = C.decl.rsplit('::', 1)[1]
    if n == 'or_insert': xs = ret(st, args[1])
    elif n == 'or_insert_with': xs = e.call_value(st, args[1], [], C.site)
    elif n == 'or_insert_with_key': xs = e.call_value(st, args[1], [en.a[1]], C.site)
    else:
        d = default_value(e, e.pointee(C.dtid))
        if d is None: return None
        xs = ret(st, d)
    out = []
    for o in xs:
        if o.kind != 'ret': out.append(o); continue
        s2, p = _entry_insert(e, o.st, en, o.val, C)
        out += ret(s2, p)
    return out


def static_entries(e, m, C):
    """the (key, value) pairs of a constant hash table"""
    if m.op != 'static' or m.a[0] not in e.u.statics: return None
    for f in e.u.statics[m.a[0]]['val'].get('fs', ()):
        a = f.get('ref', f).get('arr') if isinstance(f.get('ref', f), dict) else None
        if a and all('tuple' in x and len(x['tuple']) == 2 and 'str' in x['tuple'][0] for x in a):
            return [(Str(x['tuple'][0]['str']), e.cval(x['tuple'][1], C.targs[1] if len(C.targs) > 1 else 0)) for x in a]
    return None


def static_lookup(e, st, args, C):
    """[(state, value or None)]"""
    m, k = e.canon(st, args[0]), e.canon(st, args[1])
    es = static_entries(e, m, C)
    if es is None:
        return [(s2, App('slot', m, k) if b else None) for s2, b in e.branch(st, App('has', m, k))]
    out, rest = [], st
    for key, v in es:
        nxt = None
        for s2, b in e.branch(rest, Eq(k, key)):
            if b: out.append((s2, v))
            else: nxt = s2
        if nxt is None: return out
        rest = nxt
    return out + [(rest, None)]


@model('phf::map::Map::<K, V>::get')
def _(e, st, args, C):
    out = []
    for s2, v in static_lookup(e, st, args, C):
        out += ret(s2, opt_none(C.dtid) if v is None else opt_some(C.dtid, v if v.op == 'app' else e.heap(s2, v)))
    return out


@model('phf::map::Map::<K, V>::contains_key')
def _(e, st, args, C):
    out = []
    for s2, v in static_lookup(e, st, args, C): out += ret(s2, Bool(v is not None))
    return out


# ---------------------------------------------------------------- iterators
def seq(src, ptr=None, lo=None, hi=None):
    return mk('it', 'seq', src, lo or Int(0), hi or UNIT, ptr or UNIT)


def key_at(e, st, base, i):
    k = App('key', base, i)
    return st.facts[k] if k in st.facts else e.canon(st, k)


def kvseq(kind, src):
    """iteration over an unordered container: kind in keys/values/pairs"""
    return mk('it', 'kv', kind, src, Int(0))


def make_iter(e, st, v, tid):
    """IntoIterator::into_iter / iter()"""
    p, x = deep(e, st, v)
    if x.op == 'it': return x
    t = e.tyk(tid) if tid is not None else None
    mut = bool(t and t['k'] == 'ref' and t.get('m'))
    base = t
    while base is not None and base['k'] in ('ref', 'ptr'):
        base = e.tyk(base['e'])
    n = base.get('name', base['k']) if base else ''
    if n in ('std::boxed::Box', 'std::rc::Rc'):
        base = e.tyk(base['args'][0]); n = base.get('name', base['k'])
    if n in ('std::vec::Vec', 'slice', 'array', 'std::collections::VecDeque'):
        c = as_list(e, st, v)
        return seq(c, lastptr(e, st, v) if mut else None)
    if n in ('std::collections::HashMap', 'std::collections::BTreeMap'):
        return kvseq('pairs_mut' if mut else 'pairs', e.canon(st, v))
    if n in ('std::collections::HashSet', 'std::collections::BTreeSet'):
        return kvseq('keys', e.canon(st, v))
    if n == 'key_node_list::list::KeyNodeList':
        return mk('it', 'seq', App('nodes', e.canon(st, v)), Int(0), UNIT, UNIT)
    if n == 'std::ops::Range':
        c = e.canon(st, v)
        if c.op == 'adt' and len(c.a) == 4: return mk('it', 'range', c.a[2], c.a[3])
        return None
    if n == 'std::ops::RangeFrom':
        c = e.canon(st, v)
        return mk('it', 'rangefrom', c.a[2] if c.op == 'adt' else Fld(c, 'start'))
    if n == 'std::ops::RangeInclusive':
        c = e.canon(st, v)
        if c.op == 'adt': return mk('it', 'range', c.a[2], add(c.a[3], Int(1)))
        if c.op == 'app' and c.a[0] == 'rangeinc': return mk('it', 'range', c.a[1], add(c.a[2], Int(1)))
    if n == 'std::option::Option':
        if x.op == 'adt': return seq(List(x.a[2:]))
        return None
    if tid is not None:
        while e.tyk(tid)['k'] == 'ref': tid = e.tyk(tid)['e']
        f = next_fn(e, tid)
        if f is not None: return mk('it', 'user', p if p is not None else e.heap(st, v), f['key'], UNIT)
    return None


@model('std::ops::RangeInclusive::<Idx>::new')
def _(e, st, args, C):
    return ret(st, App('rangeinc', e.canon(st, args[0]), e.canon(st, args[1])))


@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'std::collections::HashMap::<K, V, S, A>::iter', 'std::collections::HashMap::<K, V, S, A>::iter_mut',
       'std::collections::HashSet::<T, S, A>::iter', 'std::iter::IntoIterator::into_iter', 'std::collections::VecDeque::<T, A>::iter', 'std::collections::BTreeMap::<K, V, A>::iter')
def _(e, st, args, C):
    if C.has_body() and C.crate() not in ('std', 'core', 'alloc'): return None
    d = C.decl
    if d == 'std::iter::IntoIterator::into_iter':
        it = make_iter(e, st, args[0], C.targs[0] if C.targs else None)
    elif 'HashMap' in d or 'BTreeMap' in d:
        it = kvseq('pairs_mut' if d.endswith('mut') else 'pairs', e.canon(st, args[0]))
    elif 'HashSet' in d:
        it = kvseq('keys', e.canon(st, args[0]))
    else:
        c = as_list(e, st, args[0])
        it = seq(c, lastptr(e, st, args[0]) if d.endswith('mut') else None)
    if it is None:
        if C.f['path'].startswith('<I as std::iter::IntoIterator>'): return ret(st, args[0])
        return None
    return ret(st, it)


@model('std::collections::HashMap::<K, V, S, A>::keys', 'std::collections::HashMap::<K, V, S, A>::values', 'std::collections::HashMap::<K, V, S, A>::values_mut',
       'std::collections::HashMap::<K, V, S>::into_keys', 'std::collections::HashMap::<K, V, S>::into_values')
def _(e, st, args, C):
    k = 'keys' if C.decl.endswith('keys') else 'values_mut' if C.decl.endswith('mut') else 'values'
    return ret(st, kvseq(k, e.canon(st, args[0])))


@model('core::slice::<impl [T]>::windows', 'core::slice::<impl [T]>::chunks')
def _(e, st, args, C):
    c, n = as_list(e, st, args[0]), e.canon(st, args[1])
    if C.decl.endswith('windows') and n.op == 'int':
        if c.op == 'list':
            return ret(st, seq(List([List(c.a[i:i + n.a[0]]) for i in range(len(c.a) - n.a[0] + 1)])))
        return ret(st, mk('it', 'windows', c, n, Int(0)))
    if n.op == 'int' and n.a[0] > 0 and c.op == 'list' and not C.decl.endswith('windows'):
        return ret(st, seq(List([List(c.a[i:i + n.a[0]]) for i in range(0, len(c.a), n.a[0])])))
    return ret(st, App('chunks', c, n))


IT1 = ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'inspect', 'flat_map', 'map_while')


@model(*['std::iter::Iterator::' + n for n in IT1])
def _(e, st, args, C):
    p, v = deepit(e, st, args[0], C)
    if v.op != 'it': return None
    return ret(st, mk('it', C.decl.rsplit('::', 1)[1], v, args[1], C.targs[1] if len(C.targs) > 1 and C.decl.endswith('flat_map') else None))


@model('std::iter::Iterator::enumerate')
def _(e, st, args, C):
    p, v = deepit(e, st, args[0], C)
    if v.op != 'it': return None
    return ret(st, mk('it', 'enum', v, it_pos(v) or UNIT, Int(0)))


@model('std::iter::Iterator::zip', 'std::iter::zip')
def _(e, st, args, C):
    p, v = deepit(e, st, args[0], C)
    if v.op != 'it':
        v = make_iter(e, st, args[0], C.targs[0])
    b = make_iter(e, st, args[1], C.targs[1])
    if v is None or v.op != 'it' or b is None: return None
    return ret(st, mk('it', 'zip', v, b))


@model('std::iter::Iterator::chain')
def _(e, st, args, C):
    p, v = deepit(e, st, args[0], C)
    if v.op != 'it': return None
    b = make_iter(e, st, args[1], C.targs[1])
    if b is None: return None
    return ret(st, mk('it', 'chain', v, b))


@model('std::iter::Iterator::rev')
def _(e, st, args, C):
    p, v = deepit(e, st, args[0], C)
    if v.op != 'it': return None
    if v.a[0] == 'seq' and v.a[1].op == 'list' and v.a[2].op == 'int' and v.a[3] is UNIT and v.a[4] is UNIT:
        return ret(st, seq(List(v.a[1].a[v.a[2].a[0]:][::-1])))
    return ret(st, mk('it', 'rev', v, Int(0)))


@model('std::iter::Iterator::skip', 'std::iter::Iterator::take', 'std::iter::Iterator::step_by')
def _(e, st, args, C):
    p, v = deepit(e, st, args[0], C)
    if v.op != 'it': return None
    n = e.canon(st, args[1])
    k = C.decl.rsplit('::', 1)[1]
    if k == 'skip' and v.a[0] == 'seq':
        return ret(st, mk('it', 'seq', v.a[1], add(v.a[2], n), v.a[3], v.a[4]))
    if k == 'take' and v.a[0] == 'seq' and v.a[3] is UNIT and v.a[1].op == 'list' and n.op == 'int':
        return ret(st, mk('it', 'seq', List(v.a[1].a[:v.a[2].a[0] + n.a[0]]), v.a[2], v.a[3], v.a[4]))
    return ret(st, mk('it', k, v, n))


@model('std::iter::Iterator::cloned', 'std::iter::Iterator::copied', 'std::iter::Iterator::by_ref', 'std::iter::Iterator::fuse')
def _(e, st, args, C):
    p, v = deepit(e, st, args[0], C)
    if C.decl.endswith('by_ref'): return ret(st, args[0])
    return ret(st, v) if v.op == 'it' else None


@model('std::iter::Iterator::peekable')
def _(e, st, args, C):
    p, v = deepit(e, st, args[0], C)
    return ret(st, mk('it', 'peekable', v)) if v.op == 'it' else None


@model('std::iter::once')
def _(e, st, args, C):
    return ret(st, seq(List([args[0]])))


@model('std::iter::empty')
def _(e, st, args, C):
    return ret(st, seq(List([])))


@model('std::iter::repeat')
def _(e, st, args, C):
    return ret(st, mk('it', 'repeat', args[0]))


def it_pos(it):
    k = it.a[0]
    if k == 'seq': return it.a[2]
    if k in ('range', 'rangefrom'): return it.a[1]
    if k == 'kv': return it.a[3]
    if k in ('map', 'inspect', 'enum', 'zip', 'peekable'): return it_pos(it.a[1])
    if k == 'windows': return it.a[3]
    if k == 'rev': return it.a[2]
    return None


def it_len(e, st, it):
    k = it.a[0]
    if k == 'seq':
        return add(e.length(st, it.a[1]) if it.a[3] is UNIT else it.a[3], it.a[2], -1)
    if k == 'range': return add(it.a[2], it.a[1], -1)
    if k in ('map', 'enum', 'inspect'): return it_len(e, st, it.a[1])
    if k == 'kv':
        ks = known_entries(e, st, it.a[2])
        return add(e.length(st, it.a[2]) if ks is None else Int(len(ks)), it.a[3], -1)
    return App('itlen', it)


def known_len(e, st, ln):
    if ln.op == 'int': return ln.a[0] <= 40
    lo, hi = e.bound(st, ln)
    return lo is not None and lo == hi and lo <= 40


def concrete(it, e=None, st=None):
    """does iterating it terminate by itself with every decision known?"""
    k = it.a[0]
    if k == 'seq':
        if it.a[1].op == 'list': return it.a[2].op == 'int'
        return e is not None and it.a[2].op == 'int' and known_len(e, st, e.length(st, e.canon(st, it.a[1])) if it.a[3] is UNIT else it.a[3])
    if k == 'user' and e is not None:
        if e.fnstack.count(it.a[2]) > e.max_rec: return False
        rs = e.exec_fn(st.copy(), e.u.fns[it.a[2]], [it.a[1]])
        return len(rs) == 1 and rs[0].kind == 'ret' and len(rs[0].st.conds) == len(st.conds) and len(opt_cases(e, rs[0].st, rs[0].val)) == 1
    if k == 'kv' and e is not None:
        if known_entries(e, st, it.a[2]) is not None: return it.a[3].op == 'int'
        return it.a[3].op == 'int' and known_len(e, st, e.length(st, e.strip(it.a[2])))
    if k == 'range': return it.a[1].op == 'int' and it.a[2].op == 'int'
    if k in ('rangefrom', 'kv', 'windows', 'repeat'): return False
    if k == 'zip': return concrete(it.a[1], e, st) or concrete(it.a[2], e, st)
    if k == 'chain': return concrete(it.a[1], e, st) and concrete(it.a[2], e, st)
    if k == 'flat': return concrete(it.a[1], e, st) and (it.a[4] is UNIT or concrete(it.a[4], e, st))
    if k in ('skip', 'take', 'step_by', 'stepped', 'rev', 'map', 'filter', 'filter_map', 'enum', 'take_while', 'inspect', 'peekable', 'skip_while', 'flat_map', 'map_while'):
        return concrete(it.a[1], e, st)
    return False


def infinite(it):
    return it.a[0] in ('rangefrom', 'repeat') or (it.a[0] in ('map', 'enum', 'inspect', 'filter', 'filter_map') and infinite(it.a[1]))


def next_it(e, st, it, C):
    """[(state, elem | None, iterator', Out|None)]"""
    k = it.a[0]
    if k == 'seq':
        _, src, i, end, ptr = it.a
        if src.op == 'list' and i.op == 'int' and end is UNIT:
            if i.a[0] >= len(src.a): return [(st, None, it, None)]
            x = Ref(ptr.a[0], ptr.a[1] + (('ix', i),)) if ptr.op == 'ref' else src.a[i.a[0]]
            return [(st, x, mk('it', 'seq', src, add(i, Int(1)), end, ptr), None)]
        csrc = e.canon(st, src)
        ln = e.length(st, csrc) if end is UNIT else end
        out = []
        for s2, r in e.branch(st, Lt(i, ln)):
            if not r: out.append((s2, None, it, None))
            else:
                if ptr.op == 'ref': x = Ref(ptr.a[0], ptr.a[1] + (('ix', i),))
                elif ptr is not UNIT: x = mk('elem', ptr, i)
                elif src.op == 'olist':
                    x = src.a[i.a[0]] if i.op == 'int' and i.a[0] < len(src.a) else src.a[-1]
                else: x = e.index(s2, src, i)
                out.append((s2, x, mk('it', 'seq', src, add(i, Int(1)), end, ptr), None))
        return out
    if k == 'range':
        _, lo, hi = it.a
        out = []
        for s2, r in e.branch(st, Lt(lo, hi)):
            out.append((s2, lo, mk('it', 'range', add(lo, Int(1)), hi), None) if r else (s2, None, it, None))
        return out
    if k == 'rangefrom':
        return [(st, it.a[1], mk('it', 'rangefrom', add(it.a[1], Int(1))), None)]
    if k == 'repeat':
        return [(st, it.a[1], it, None)]
    if k == 'user':
        out = []
        for o in e.exec_fn(st, e.u.fns[it.a[2]], [it.a[1]]):
            if o.kind != 'ret': out.append((o.st, None, it, o)); continue
            for s2, x in opt_cases(e, o.st, o.val):
                out.append((s2, x, mk('it', 'user', it.a[1], it.a[2], add(it.a[3], Int(1)) if it.a[3] is not UNIT else Int(1)), None))
        return out
    if k == 'kv':
        _, kind, src, i = it.a
        if src.op == 'app' and src.a[0] in ('emptymap', 'emptyset'): return [(st, None, it, None)]
        out = []
        base = e.strip(src)
        ks = known_entries(e, st, src) if i.op == 'int' else None
        if ks is not None:
            n = i.a[0]
            if n >= len(ks): return [(st, None, it, None)]
            key, v0 = ks[n]
            v = v0 if v0 is not None else UNIT
            if len(map_base(src).a) > 1:
                v = App('slot', map_base(src), key)
                s_ = mk('obj', v)
                if v0 is not None and s_ not in st.store: st.store[s_] = v0
            x = key if kind == 'keys' else v if kind.startswith('values') else Tuple(key, v)
            return [(st, x, mk('it', 'kv', kind, src, add(i, Int(1))), None)]
        for s2, r in e.branch(st, Lt(i, e.length(st, base))):
            if not r: out.append((s2, None, it, None)); continue
            key = key_at(e, s2, base, i)
            e.assume(s2, App('has', base, key), True, False)
            v = App('slot', base, key)
            x = key if kind == 'keys' else v if kind.startswith('values') else Tuple(key, v)
            out.append((s2, x, mk('it', 'kv', kind, src, add(i, Int(1))), None))
        return out
    if k == 'windows':
        _, src, n, i = it.a
        out = []
        for s2, r in e.branch(st, Lt(add(i, add(n, Int(-1))), e.length(st, src))):
            if not r: out.append((s2, None, it, None)); continue
            out.append((s2, List([e.index(s2, src, add(i, Int(j))) for j in range(n.a[0])]), mk('it', 'windows', src, n, add(i, Int(1))), None))
        return out
    if k == 'map' or k == 'inspect':
        out = []
        for s2, x, i2, o in next_it(e, st, it.a[1], C):
            ni = mk('it', k, i2, it.a[2], it.a[3])
            if o is not None or x is None: out.append((s2, None, ni, o)); continue
            for r in e.call_value(s2, it.a[2], [x], C.site):
                if r.kind != 'ret': out.append((r.st, None, ni, r))
                else: out.append((r.st, r.val if k == 'map' else x, ni, None))
        return out
    if k == 'enum':
        out = []
        _, inner, p0, n = it.a
        pos = it_pos(inner)
        idx = add(pos, p0, -1) if pos is not None and p0 is not UNIT else n
        for s2, x, i2, o in next_it(e, st, inner, C):
            ni = mk('it', 'enum', i2, p0, add(n, Int(1)) if p0 is UNIT else n)
            out.append((s2, None if x is None else Tuple(idx, x), ni, o))
        return out
    if k == 'zip':
        out = []
        for s2, x, a2, o in next_it(e, st, it.a[1], C):
            if x is None: out.append((s2, None, mk('it', 'zip', a2, it.a[2]), o)); continue
            for s3, y, b2, o2 in next_it(e, s2, it.a[2], C):
                ni = mk('it', 'zip', a2, b2)
                out.append((s3, None if y is None else Tuple(x, y), ni, o2))
        return out
    if k == 'chain':
        out = []
        for s2, x, a2, o in next_it(e, st, it.a[1], C):
            if x is not None or o is not None: out.append((s2, x, mk('it', 'chain', a2, it.a[2]), o)); continue
            out += next_it(e, s2, it.a[2], C)
        return out
    if k == 'filter' or k == 'filter_map':
        if concrete(it) is False:
            # opaque: one candidate, kept or the end (elements that are not kept are skipped)
            pass
        out = []
        for s2, x, i2, o in next_it(e, st, it.a[1], C):
            ni = mk('it', k, i2, it.a[2], it.a[3])
            if x is None: out.append((s2, None, ni, o)); continue
            fa = x
            if k == 'filter': fa = e.heap(s2, x)
            for r in e.call_value(s2, it.a[2], [fa], C.site):
                if r.kind != 'ret': out.append((r.st, None, ni, r)); continue
                if k == 'filter':
                    for s3, b in e.branch(r.st, e.canon(r.st, r.val)):
                        if b: out.append((s3, x, ni, None))
                        elif concrete(i2) or True:
                            out += [(s4, y, j, o4) for s4, y, j, o4 in next_skip(e, s3, ni, C)]
                else:
                    for s3, y in opt_cases(e, r.st, r.val):
                        if y is not None: out.append((s3, y, ni, None))
                        else: out += next_skip(e, s3, ni, C)
        return out
    if k == 'rev':
        _, inner, j = it.a
        if inner.a[0] == 'seq':
            src, i = inner.a[1], inner.a[2]
            ln = e.length(st, src) if inner.a[3] is UNIT else inner.a[3]
            idx = add(add(ln, Int(-1)), j, -1)
        elif inner.a[0] == 'range':
            idx = add(add(inner.a[2], Int(-1)), j, -1); i = inner.a[1]; src = None
        else:
            return [(st, App('rev', inner), it, None)]
        out = []
        for s2, r in e.branch(st, Not(Lt(idx, i))):
            if not r: out.append((s2, None, it, None))
            else: out.append((s2, idx if src is None else e.index(s2, src, idx), mk('it', 'rev', inner, add(j, Int(1))), None))
        return out
    if k == 'take':
        _, inner, n = it.a
        out = []
        for s2, r in e.branch(st, Lt(Int(0), n)):
            if not r: out.append((s2, None, it, None)); continue
            for s3, x, i2, o in next_it(e, s2, inner, C):
                out.append((s3, x, mk('it', 'take', i2, add(n, Int(-1))), o))
        return out
    if k == 'skip':
        _, inner, n = it.a
        if n.op == 'int':
            if n.a[0] == 0: return next_it(e, st, inner, C)
            out = []
            for s2, x, i2, o in next_it(e, st, inner, C):
                ni = mk('it', 'skip', i2, add(n, Int(-1)))
                if x is None: out.append((s2, None, ni, o))
                else: out += next_it(e, s2, ni, C)
            return out
    if k == 'peekable':
        return [(s2, x, mk('it', 'peekable', i2), o) for s2, x, i2, o in next_it(e, st, it.a[1], C)]
    if k in ('take_while', 'map_while'):
        out = []
        for s2, x, i2, o in next_it(e, st, it.a[1], C):
            ni = mk('it', k, i2, it.a[2], it.a[3])
            if x is None: out.append((s2, None, ni, o)); continue
            if k == 'take_while':
                for r in e.call_value(s2, it.a[2], [e.heap(s2, x)], C.site):
                    if r.kind != 'ret': out.append((r.st, None, ni, r)); continue
                    for s3, b in e.branch(r.st, e.canon(r.st, r.val)):
                        out.append((s3, x if b else None, ni, None))
            else:
                for r in e.call_value(s2, it.a[2], [x], C.site):
                    if r.kind != 'ret': out.append((r.st, None, ni, r)); continue
                    for s3, y in opt_cases(e, r.st, r.val): out.append((s3, y, ni, None))
        return out
    if k == 'skip_while':
        return drop_while(e, st, it.a[1], it.a[2], C, concrete(it.a[1], e, st))
    if k == 'step_by' and it.a[2].op == 'int' and it.a[2].a[0] > 0:
        out = []
        for s2, x, i2, o in next_it(e, st, it.a[1], C):
            ni = mk('it', 'skip', i2, Int(it.a[2].a[0] - 1))
            out.append((s2, x, mk('it', 'stepped', ni, it.a[2]), o))
        return out
    if k == 'stepped':
        out = []
        for s2, x, i2, o in next_it(e, st, it.a[1], C):
            out.append((s2, x, mk('it', 'stepped', mk('it', 'skip', i2, Int(it.a[2].a[0] - 1)), it.a[2]), o))
        return out
    if k == 'flat_map' and concrete(it.a[1], e, st):
        it = mk('it', 'flat', it.a[1], it.a[2], it.a[3], UNIT)
        k = 'flat'
    if k == 'flat':
        _, outer, f, tid, cur = it.a
        out = []
        if cur is not UNIT:
            for s2, x, c2, o in next_it(e, st, cur, C):
                if x is not None or o is not None: out.append((s2, x, mk('it', 'flat', outer, f, tid, c2), o))
                else: out += next_it(e, s2, mk('it', 'flat', outer, f, tid, UNIT), C)
            return out
        for s2, x, o2, o in next_it(e, st, outer, C):
            if x is None: out.append((s2, None, mk('it', 'flat', o2, f, tid, UNIT), o)); continue
            for r in e.call_value(s2, f, [x], C.site):
                if r.kind != 'ret': out.append((r.st, None, it, r)); continue
                c = make_iter(e, r.st, r.val, tid)
                if c is None: raise absint.Imprecise('flat_map over %s' % show(r.val))
                out += next_it(e, r.st, mk('it', 'flat', o2, f, tid, c), C)
        return out
    # anything else: an unknown sequence
    i = App('itlen', it)
    st.n += 1
    out = []
    for s2, r in e.branch(st, App('more', it, Int(st.n))):
        out.append((s2, App('item', it, Int(st.n)) if r else None, it, None))
    return out


def drop_while(e, st, it, f, C, conc, depth=0):
    """the next element of skip_while, whose predicate still applies"""
    out = []
    for s2, x, i2, o in next_it(e, st, it, C):
        if x is None: out.append((s2, None, i2, o)); continue
        for r in e.call_value(s2, f, [e.heap(s2, x)], C.site):
            if r.kind != 'ret': out.append((r.st, None, i2, r)); continue
            for s3, b in e.branch(r.st, e.canon(r.st, r.val)):
                if not b: out.append((s3, x, i2, None))
                elif conc and concrete(i2, e, s3): out += drop_while(e, s3, i2, f, C, conc, depth)
                elif depth < 1: out += drop_while(e, s3, i2, f, C, conc, depth + 1)
                else: raise absint.Imprecise('skip_while over a sequence of unknown length at %s' % C.site)
    return out


SKIPD = [0]


def next_skip(e, st, ni, C):
    """after a filtered-out element"""
    if concrete(ni):
        return next_it(e, st, ni, C)
    if SKIPD[0] >= 1:
        return [(st, None, ni, None)]
    SKIPD[0] += 1
    try:
        return next_it(e, st, ni, C)
    finally:
        SKIPD[0] -= 1


def opt_cases(e, st, v):
    """[(state, payload | None)] of an Option value"""
    c = v
    if c.op == 'ref': p, c = deep(e, st, c)
    if c.op == 'adt':
        return [(st, c.a[2] if c.a[1] == 1 else None)]
    c = e.canon(st, c)
    if c.op == 'adt':
        return [(st, c.a[2] if c.a[1] == 1 else None)]
    out = []
    for s2, r in e.branch(st, mk('eq', mk('discr', c), Int(1))):
        out.append((s2, Fld(c, 'Some.0') if r else None))
    return out


def iterate(e, st, it, body, C):
    """Drive an iterator. body(state, elem) -> [(state, 'cont'|'break'|'out', value)].
    Result: [(state, 'done'|'break'|'out', value, iterator)]"""
    out = []
    e.fid += 1
    tag = ('it', e.fid)
    acc = mk('heap', ('iter', e.fid))
    work = [(st, it, 0)]
    snap = dict(st.store)
    while work:
        s, i, n = work.pop()
        e.steps += 1
        if e.steps > e.max_steps:
            from absint import Budget
            raise Budget('iterate at %s' % C.site)
        conc = concrete(i, e, s)
        if n == 1 and not conc:
            s.store[acc] = i
            e.widen_store(s, snap_with(snap, acc, it))
            i = s.store.pop(acc)
            s.gen = s.gen | {tag}
        nc = len(s.conds)
        nx = next_it(e, s, i, C)
        if not conc and len(nx) == 1 and len(nx[0][0].conds) == nc and not s.gen & {tag} and e.steps < e.max_steps // 2 and not infinite(i):
            conc = True
        for s2, x, i2, o in nx:
            if o is not None:
                out.append((s2, 'out', o, i2)); continue
            if x is None:
                s2.gen = s2.gen - {tag}
                out.append((s2, 'done', None, i2)); continue
            for s3, k, v in body(s2, x):
                if k == 'cont':
                    if conc: work.append((s3, i2, 0 if n == 0 else n))
                    elif n >= 1:
                        s3.gen = s3.gen - {tag}
                        out.append((s3, 'done', None, i2))
                    else: work.append((s3, i2, n + 1))
                else:
                    s3.gen = s3.gen - {tag}
                    out.append((s3, k, v, i2))
    return [(s, k, v) for s, k, v, i in out] if True else out


def snap_with(snap, acc, it):
    d = dict(snap)
    d[acc] = it
    return d


@model('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back')
def _(e, st, args, C):
    p, v = deep(e, st, args[0])
    if v.op == 'adt' and not isinstance(v.a[0], str) and e.tyk(v.a[0]).get('name') in ('std::ops::Range', 'std::ops::RangeFrom'):
        v = make_iter(e, st, v, v.a[0])
    if v.op == 'app' and v.a[0].startswith('mut:') : return None
    if v.op != 'it': return None
    if C.decl.endswith('next_back'):
        c = e.canon(st, v)
        st.n += 1
        return ret(st, App('next_back', c, Int(st.n)))
    out = []
    O = _out()
    for s2, x, i2, o in next_it(e, st, v, C):
        if o is not None: out.append(o); continue
        e.write(s2, p.a[0], p.a[1], i2, effect=False)
        out.append(O(s2, 'ret', opt_none(C.dtid) if x is None else opt_some(C.dtid, x)))
    return out


@model('std::iter::Iterator::nth')
def _(e, st, args, C):
    p, v = deep(e, st, args[0])
    n = e.canon(st, args[1])
    if v.op != 'it' or v.a[0] != 'seq': return None
    v2 = mk('it', 'seq', v.a[1], add(v.a[2], n), v.a[3], v.a[4])
    out = []
    O = _out()
    for s2, x, i2, o in next_it(e, st, v2, C):
        if o is not None: out.append(o); continue
        if p is not None: e.write(s2, p.a[0], p.a[1], i2, effect=False)
        out.append(O(s2, 'ret', opt_none(C.dtid) if x is None else opt_some(C.dtid, x)))
    return out


@model('std::iter::Iterator::last')
def _(e, st, args, C):
    p, v = deepit(e, st, args[0], C)
    if v.op != 'it' or v.a[0] != 'seq': return None
    c = v.a[1]
    out = []
    for s2, emp in e.branch(st, Eq(it_len(e, st, v), Int(0))):
        out += ret(s2, opt_none(C.dtid) if emp else opt_some(C.dtid, e.index(s2, c, add(e.length(s2, c), Int(-1)))))
    return out


def outs(e, res, f):
    O = _out()
    r = []
    for s, k, v in res:
        if k == 'out': r.append(v)
        else: r += f(s, k, v)
    return r


@model('std::iter::Iterator::for_each')
def _(e, st, args, C):
    p, v = deepit(e, st, args[0], C)
    if v.op != 'it': return None
    def body(s, x):
        return [(r.st, 'cont', None) if r.kind == 'ret' else (r.st, 'out', r) for r in e.call_value(s, args[1], [x], C.site)]
    return outs(e, iterate(e, st, v, body, C), lambda s, k, x: ret(s, UNIT))


@model('std::iter::Iterator::all', 'std::iter::Iterator::any')
def _(e, st, args, C):
    p, v = deepit(e, st, args[0], C)
    if v.op != 'it': return None
    al = C.decl.endswith('all')
    def body(s, x):
        r = []
        for o in e.call_value(s, args[1], [x], C.site):
            if o.kind != 'ret': r.append((o.st, 'out', o)); continue
            for s2, b in e.branch(o.st, e.canon(o.st, o.val)):
                r.append((s2, 'cont', None) if b == al else (s2, 'break', None))
        return r
    return outs(e, iterate(e, st, v, body, C), lambda s, k, x: ret(s, Bool(al if k == 'done' else not al)))


@model('std::iter::Iterator::position', 'std::iter::Iterator::find', 'std::iter::Iterator::find_map', 'std::iter::Iterator::rposition')
def _(e, st, args, C):
    p, v = deepit(e, st, args[0], C)
    if v.op != 'it': return None
    n = C.decl.rsplit('::', 1)[1]
    en = mk('it', 'enum', v, it_pos(v) or UNIT, Int(0))
    def body(s, ix):
        i, x = ix.a[2], ix.a[3]
        r = []
        a = e.heap(s, x) if n == 'find' else x
        for o in e.call_value(s, args[1], [a], C.site):
            if o.kind != 'ret': r.append((o.st, 'out', o)); continue
            if n == 'find_map':
                for s2, y in opt_cases(e, o.st, o.val):
                    r.append((s2, 'cont', None) if y is None else (s2, 'break', y))
            else:
                for s2, b in e.branch(o.st, e.canon(o.st, o.val)):
                    r.append((s2, 'break', i if 'position' in n else x) if b else (s2, 'cont', None))
        return r
    return outs(e, iterate(e, st, en, body, C), lambda s, k, x: ret(s, opt_none(C.dtid) if k == 'done' else opt_some(C.dtid, x)))


@model('std::iter::Iterator::count')
def _(e, st, args, C):
    p, v = deepit(e, st, args[0], C)
    if v.op == 'it' and v.a[0] in ('seq', 'range', 'kv', 'map', 'enum'): return ret(st, it_len(e, st, v))
    return ret(st, App('count', e.canon(st, v)))


@model('std::iter::Iterator::fold')
def _(e, st, args, C):
    p, v = deepit(e, st, args[0], C)
    if v.op != 'it': return None
    accp = e.heap(st, args[1])
    def body(s, x):
        r = []
        for o in e.call_value(s, args[2], [e.read(s, accp.a[0], accp.a[1]), x], C.site):
            if o.kind != 'ret': r.append((o.st, 'out', o)); continue
            e.write(o.st, accp.a[0], accp.a[1], o.val, effect=False)
            r.append((o.st, 'cont', None))
        return r
    return outs(e, iterate(e, st, v, body, C), lambda s, k, x: ret(s, e.read(s, accp.a[0], accp.a[1])))


def res_cases(e, st, v):
    """Result value: [(state, ok?, value)]"""
    p, c = deep(e, st, v)
    if c.op != 'adt': c = e.canon(st, c)
    if c.op == 'adt': return [(st, c.a[1] == 0, c)]
    return [(s2, r, c) for s2, r in e.branch(st, mk('eq', mk('discr', c), Int(0)))]


@model('std::iter::Iterator::try_for_each', 'std::iter::Iterator::try_fold')
def _(e, st, args, C):
    p, v = deepit(e, st, args[0], C)
    if v.op != 'it': return None
    if tname(e, C.dtid) != 'std::result::Result': return None
    tf = C.decl.endswith('fold')
    accp = e.heap(st, args[1] if tf else UNIT)
    def body(s, x):
        r = []
        for o in e.call_value(s, args[-1], ([e.read(s, accp.a[0], accp.a[1])] if tf else []) + [x], C.site):
            if o.kind != 'ret': r.append((o.st, 'out', o)); continue
            for s2, ok, c in res_cases(e, o.st, o.val):
                if ok:
                    if tf: e.write(s2, accp.a[0], accp.a[1], c.a[2] if c.op == 'adt' else Fld(c, 'Ok.0'), effect=False)
                    r.append((s2, 'cont', None))
                else: r.append((s2, 'break', c.a[2] if c.op == 'adt' else Fld(c, 'Err.0')))
        return r
    return outs(e, iterate(e, st, v, body, C), lambda s, k, x: ret(s, Adt(C.dtid, 0, e.read(s, accp.a[0], accp.a[1])) if k == 'done' else Adt(C.dtid, 1, x)))


IOTA = Sym('ι')


def symbolic_map(e, st, it, C):
    """the sequence `it` as one term, when its generic element is a single pure expression"""
    k = it.a[0]
    if k == 'seq' and it.a[2] is Int(0) and it.a[3] is UNIT and it.a[4] is UNIT and it.a[1].op != 'list':
        return it.a[1]
    if concrete(it): return None
    src = it_src(it)
    if src.op == 'app' and src.a[0] == 'kv' and concrete(it, e, st): return None       # a table whose entries are all known
    probe = generic_at(it)
    if probe is None: return None
    s = st.copy()
    n0, c0 = len(s.eff), len(s.conds)
    s.facts = dict(s.facts)
    rs = [r for r in next_it(e, s, probe[0], C)]
    live = [(s2, x) for s2, x, i2, o in rs if x is not None and o is None]
    if any(o is not None for _, _, _, o in rs) or len(live) != 1: return None
    s2, x = live[0]
    if len(s2.eff) != n0: return None
    extra = [c for c in s2.conds[c0:]]
    if len(extra) > 1: return None
    return App('seq', it_src(it), e.canon(s2, x))


def it_src(it):
    k = it.a[0]
    if k in ('map', 'enum', 'inspect', 'filter', 'filter_map'): return it_src(it.a[1])
    if k == 'seq': return it.a[1] if it.a[2] is Int(0) else App('from', it.a[1], it.a[2])
    if k == 'zip': return App('zip', it_src(it.a[1]), it_src(it.a[2]))
    if k == 'range': return App('range', it.a[1], it.a[2])
    if k == 'kv': return App('kv', it.a[2])
    if k == 'windows': return App('windows', it.a[1], it.a[2])
    return it


def generic_at(it):
    """the iterator positioned at the generic index ι"""
    k = it.a[0]
    if k == 'seq': return (mk('it', 'seq', it.a[1], add(IOTA, it.a[2]), it.a[3], it.a[4]),)
    if k == 'kv': return (mk('it', 'kv', it.a[1], it.a[2], add(IOTA, it.a[3])),)
    if k == 'range': return (mk('it', 'range', add(IOTA, it.a[1]), it.a[2]),)
    if k in ('map', 'inspect'):
        g = generic_at(it.a[1])
        return (mk('it', k, g[0], it.a[2], it.a[3]),) if g else None
    if k == 'enum':
        if it.a[2] is UNIT: return None
        g = generic_at(it.a[1])
        return (mk('it', k, g[0], it.a[2], it.a[3]),) if g else None
    if k == 'rangefrom': return (mk('it', 'rangefrom', add(IOTA, it.a[1])),)
    return None


@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter', '<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter')
def _(e, st, args, C):
    p, v = deepit(e, st, args[0], C)
    if v.op != 'it':
        if not C.decl.endswith('from_iter'): return None
        v = make_iter(e, st, args[0], C.targs[2] if len(C.targs) > 2 else None)
        if v is None: return None
    return collect(e, st, v, C, C.dtid)


def collect(e, st, v, C, dtid):
    O = _out()
    n = tname(e, dtid)
    if n in ('std::vec::Vec', 'std::boxed::Box', 'std::rc::Rc', 'std::collections::VecDeque'):
        s = symbolic_map(e, st, v, C)
        if s is not None: return ret(st, s)
    if n in ('std::result::Result', 'std::option::Option'):
        inner = e.tyk(dtid)['vs'][0 if n.endswith('Result') else 1]['fs'][0][1]
        accp = e.heap(st, default_value(e, inner) if default_value(e, inner) is not None else List([]))
        def body(s, x):
            r = []
            if n.endswith('Result'):
                for s2, ok, c in res_cases(e, s, x):
                    if ok:
                        add_to(e, s2, accp, c.a[2] if c.op == 'adt' else Fld(c, 'Ok.0'), inner, C)
                        r.append((s2, 'cont', None))
                    else: r.append((s2, 'break', c.a[2] if c.op == 'adt' else Fld(c, 'Err.0')))
            else:
                for s2, y in opt_cases(e, s, x):
                    if y is None: r.append((s2, 'break', None))
                    else:
                        add_to(e, s2, accp, y, inner, C)
                        r.append((s2, 'cont', None))
            return r
        okv, erv = (0, 1) if n.endswith('Result') else (1, 0)
        def fin(s, k, x):
            if k == 'done': return ret(s, Adt(dtid, okv, e.read(s, accp.a[0], accp.a[1])))
            return ret(s, Adt(dtid, erv, x) if x is not None else Adt(dtid, erv))
        return outs(e, iterate(e, st, v, body, C), fin)
    d = default_value(e, dtid)
    accp = e.heap(st, d if d is not None else List([]))
    def body(s, x):
        add_to(e, s, accp, x, dtid, C)
        return [(s, 'cont', None)]
    return outs(e, iterate(e, st, v, body, C), lambda s, k, x: ret(s, e.read(s, accp.a[0], accp.a[1])))


def add_to(e, st, ptr, x, tid, C):
    n = tname(e, tid)
    if n == 'std::string::String': str_append(e, st, ptr, as_text(e.canon(st, x)), C)
    elif 'Map' in n and x.op == 'adt': mutate(e, st, ptr, 'insert', list(x.a[2:]), C)
    elif 'Map' in n or 'Set' in n: mutate(e, st, ptr, 'insert', [x], C)
    elif n == 'tuple': pass
    else: pushto(e, st, ptr, x, C)


@model('std::iter::Iterator::unzip')
def _(e, st, args, C):
    p, v = deepit(e, st, args[0], C)
    if v.op != 'it': return None
    s = symbolic_map(e, st, v, C)
    if s is not None and s.op == 'app' and s.a[0] == 'seq' and s.a[2].op == 'adt' and len(s.a[2].a) == 4:
        return ret(st, Tuple(App('seq', s.a[1], s.a[2].a[2]), App('seq', s.a[1], s.a[2].a[3])))
    a, b = e.heap(st, List([])), e.heap(st, List([]))
    def body(s, x):
        x = x if x.op == 'adt' else e.canon(s, x)
        xs = x.a[2:] if x.op == 'adt' else (Fld(x, '0'), Fld(x, '1'))
        pushto(e, s, a, xs[0], C)
        pushto(e, s, b, xs[1], C)
        return [(s, 'cont', None)]
    return outs(e, iterate(e, st, v, body, C), lambda s, k, x: ret(s, Tuple(e.read(s, a.a[0], a.a[1]), e.read(s, b.a[0], b.a[1]))))


@model('std::iter::Iterator::size_hint')
def _(e, st, args, C):
    return ret(st, Tuple(App('size_hint', e.canon(st, args[0])), App('size_hint', e.canon(st, args[0]))))


# ---------------------------------------------------------------- colored, io, misc
@model('colored::Colorize::blue', 'colored::Colorize::bold', 'colored::Colorize::bright_red', 'colored::Colorize::color', 'colored::Colorize::yellow', 'colored::Colorize::red',
       'colored::Colorize::bright_blue', 'colored::Colorize::bright_yellow')
def _(e, st, args, C):
    return ret(st, args[0])


@model('std::io::Read::read', 'std::io::Read::read_exact', 'std::io::Read::read_to_end', 'std::io::Read::read_to_string')
def _(e, st, args, C):
    st.n += 1
    r = App('read', e.canon(st, args[0]), Int(st.n))
    e.effect(st, 'read', (e.strip(e.canon(st, args[0])),), C.site)
    e.havoc(st, lastptr(e, st, args[1]), 'read')
    return e.result_fork(st, r, C)


@model('std::path::Path::display')
def _(e, st, args, C):
    return ret(st, args[0])


@model('std::io::Cursor::<T>::new', 'std::io::BufReader::<R>::new')
def _(e, st, args, C):
    return ret(st, args[0])


@model('std::intrinsics::discriminant_value', 'std::mem::discriminant')
def _(e, st, args, C):
    p, v = deep(e, st, args[0])
    if v.op != 'adt': v = e.canon(st, args[0])
    return ret(st, e.discr_term(v))


for n in ('likely', 'unlikely', 'assume'):
    MODELS['std::intrinsics::' + n] = lambda e, st, args, C: ret(st, args[0])


@model('std::intrinsics::cold_path')
def _(e, st, args, C):
    return ret(st, UNIT)


@model('std::ptr::null', 'std::ptr::null_mut')
def _(e, st, args, C):
    return ret(st, App('null'))


@model('std::ptr::const_ptr::<impl *const T>::is_null', 'std::ptr::mut_ptr::<impl *mut T>::is_null')
def _(e, st, args, C):
    c = e.canon(st, args[0])
    if c.op == 'app' and c.a[0] == 'null' or c.op == 'int' and c.a[0] == 0: return ret(st, TRUE)
    if c.op == 'ref' and c.a[0] in e.atoms or c.op == 'app' and c.a[0] == 'cptr': return ret(st, FALSE)
    return ret(st, App('is_null', c))


@model('std::hash::Hash::hash')
def _(e, st, args, C):
    if C.has_body() and C.crate() not in ('std', 'core', 'alloc') and not C.fn().get('derived'): return None
    e.effect(st, 'hash', (e.canon(st, args[0]),), C.site)
    return ret(st, UNIT)


@model('std::hash::Hasher::write_usize', 'std::hash::Hasher::write_u32', 'std::hash::Hasher::write_u64', 'std::hash::Hasher::write')
def _(e, st, args, C):
    e.effect(st, 'hash', (e.canon(st, args[1]),), C.site)
    return ret(st, UNIT)


@model('std::any::type_name')
def _(e, st, args, C):
    return ret(st, App('type_name'))


# ---------------------------------------------------------------- key_node_list (the intrusive lists of the layout)
KNL = 'key_node_list::list::KeyNodeList::<K, N, M>::'


@model(KNL + 'iter', KNL + 'keys', KNL + 'nodes')
def _(e, st, args, C):
    k = {'iter': 'pairs', 'keys': 'keys', 'nodes': 'values'}[C.decl.rsplit('::', 1)[1]]
    return ret(st, kvseq(k, e.canon(st, args[0])))


@model(KNL + 'node', KNL + 'node_mut')
def _(e, st, args, C):
    key = e.canon(st, args[1])
    out = []
    for s2, r, p in map_get(e, st, args[0], key):
        out += ret(s2, opt_some(C.dtid, p) if r else opt_none(C.dtid))
    return out


@model(KNL + 'contains_key')
def _(e, st, args, C):
    return ret(st, App('has', e.strip(e.canon(st, args[0])), e.canon(st, args[1])))


@model(KNL + 'front_key', KNL + 'back_key', KNL + 'front_node', KNL + 'back_node')
def _(e, st, args, C):
    c = e.strip(e.canon(st, args[0]))
    n = C.decl.rsplit('::', 1)[1]
    i = Int(0) if n.startswith('front') else add(e.length(st, c), Int(-1))
    out = []
    for s2, r in e.branch(st, Lt(Int(0), e.length(st, c))):
        k = key_at(e, s2, c, i)
        if r: e.assume(s2, App('has', c, k), True, False)
        out += ret(s2, opt_some(C.dtid, k if n.endswith('key') else App('slot', c, k)) if r else opt_none(C.dtid))
    return out


@model(KNL + 'len')
def _(e, st, args, C):
    return ret(st, e.length(st, e.strip(e.canon(st, args[0]))))


@model(KNL + 'is_empty')
def _(e, st, args, C):
    return ret(st, Eq(e.length(st, e.strip(e.canon(st, args[0]))), Int(0)))
