"""The exported C functions, analysed path by path with every fallible call failing or succeeding."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *
from absint import mk

GEN, PARSE = 'koopa::back::Generator::<W, V>::generate_on', 'koopa::front::Driver::<T>::generate_program'
PROGRAM, RPB = 'koopa::ir::Program', 'RawProgramBuilder'


def subterms(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple): todo += x
        if not hasattr(x, 'op') or id(x) in seen: continue
        seen.add(id(x))
        yield x
        todo += x.a


def names(t):
    """names of the applications in a term"""
    return {x.a[0] for x in subterms(t) if x.op == 'app'}


def find(t, pred):
    return next((x for x in subterms(t) if pred(x)), None)


def tname(e, tid):
    t = e.tyk(tid) if tid is not None else {'k': '?'}
    return t.get('name') or t['k']


def subst(t, a, b):
    if t is a: return b
    if not hasattr(t, 'op') or t.op in ('int', 'str', 'sym'): return t
    return mk(t.op, *[subst(x, a, b) if hasattr(x, 'op') else x for x in t.a])


class Ffi:
    def __init__(self, u):
        self.u, self.ir = u, IR(u)
        self.fns = {f['key']: f for f in u.fns.values() if f['exported']}

    # ---- models of the calls the C functions are made of
    def hooks(self, k=None):
        """k: number of (opaque) bytes of generated texts, or None for a text of unknown length"""
        def fork(e, st, C, name, *args, ok=None):
            r = App(name, *args)
            s2 = st.copy()
            st.conds, s2.conds = st.conds + ((App('failed', r), False),), s2.conds + ((App('failed', r), True),)
            t = e.tyk(C.dtid)
            ev = App('err', r)
            return [Out(st, 'ret', Adt(C.dtid, 0, App('ok', r) if ok is None else ok)), Out(s2, 'ret', Adt(C.dtid, 1, ev))]

        def gen(e, st, args, C):
            g = models.lastptr(e, st, args[0])
            root, path = e.to_place(g)
            before = e.canon(st, e.read(st, root, path))
            w, v = [tname(e, x) for x in C.targs[:2]] if len(C.targs) >= 2 else ('?', '?')
            st.n += 1
            n = Int(st.n)
            e.effect(st, 'generate', (Str(w), Str(v), before, e.canon(st, args[1]), n), C.site)
            after = App('generated', before, e.canon(st, args[1]), n)
            if k is not None and w == 'std::vec::Vec':
                # the writer now holds a text of k bytes, none of them NUL
                bs = [App('byte', after, Int(i)) for i in range(k)]
                e.write(st, root, path, subst(before, List([]), List(bs)), C.site, effect=False)
                st.notes = st.notes + (('text', List(bs)),)
            else: e.write(st, root, path, after, C.site, effect=False)
            return fork(e, st, C, GEN, n, before, ok=UNIT)

        def parse(e, st, args, C):
            st.n += 1
            v = e.canon(st, args[0])
            e.effect(st, 'parse', (v, Int(st.n)), C.site)
            return fork(e, st, C, PARSE, v, Int(st.n))

        def into_raw(e, st, args, C):
            t = C.targs[0] if C.targs else None
            v = App('into_raw', Str(tname(e, t)), e.canon(st, args[0]))
            e.effect(st, 'into_raw', (v,), C.site)
            return [Out(st, 'ret', v)]

        def from_raw(e, st, args, C):
            t = C.targs[0] if C.targs else None
            p = e.canon(st, args[0])
            e.effect(st, 'from_raw', (Str(tname(e, t)), p), C.site)
            return [Out(st, 'ret', App('from_raw', Str(tname(e, t)), p))]

        def freeing(name):
            def f(e, st, args, C):
                e.effect(st, name, tuple(e.canon(st, a) for a in args), C.site)
                return [Out(st, 'ret', App(name, *[e.canon(st, a) for a in args]))]
            return f

        def cstring(e, st, args, C):
            return fork(e, st, C, 'std::ffi::CString::new', e.canon(st, args[0]), ok=App('cstring', e.canon(st, args[0])))

        def text(e, st, a):
            v = e.canon(st, a)
            while v.op == 'app' and v.a[0] in ('cstring', 'withnul'): v = v.a[1]
            return v

        def nul(t): return List(list(t.a) + [Int(0)]) if t.op == 'list' else App('withnul', t)

        def data(e, st, a):
            """the bytes a pointer to characters points to"""
            c = e.canon(st, a)
            if c.op == 'app' and c.a[0] == 'cstring': return nul(c.a[1])
            return c

        def withnul(e, st, args, C): return [Out(st, 'ret', nul(text(e, st, args[0])))]
        def without(e, st, args, C): return [Out(st, 'ret', text(e, st, args[0]))]
        def whole(e, st, args, C): return [Out(st, 'ret', App('dataptr', data(e, st, args[0])))]
        def dataptr(e, st, args, C): return [Out(st, 'ret', App('dataptr', e.canon(st, args[0])))]
        def count(e, st, args, C): return [Out(st, 'ret', e.length(st, text(e, st, args[0])))]

        def rawslice(e, st, args, C): return [Out(st, 'ret', App('rawslice', e.canon(st, args[0]), e.canon(st, args[1])))]

        def slen(e, st, v):
            v = e.canon(st, v)
            if v.op == 'app' and v.a[0] == 'rawslice': return v.a[2]
            if v.op == 'app' and v.a[0] == 'slice': return add(v.a[3], v.a[2], -1)
            return e.length(st, v)

        def split(e, st, args, C):
            c, n = e.canon(st, args[0]), e.canon(st, args[1])
            return [Out(st, 'ret', Tuple(App('slice', c, Int(0), n), App('slice', c, n, slen(e, st, c))))]

        def copy_slice(e, st, args, C):
            d, s = e.canon(st, args[0]), e.canon(st, args[1])
            outs = []
            eq = Eq(slen(e, st, d), slen(e, st, s))
            k = e.decide(st, eq)
            if k is not True: outs.append(Out(st.copy(), 'panic', Str('copy_from_slice: lengths differ'), C.site))
            if k is not False:
                e.effect(st, 'copy', (d, s, slen(e, st, s)), C.site)
                outs.append(Out(st, 'ret', UNIT))
            return outs

        def copy_raw(swap):
            def f(e, st, args, C):
                s, d = (args[1], args[0]) if swap else (args[0], args[1])
                s, d = e.canon(st, s), e.canon(st, d)
                if s.op == 'app' and s.a[0] == 'dataptr': s = s.a[1]
                n = e.canon(st, args[2])
                e.effect(st, 'copy', (d, s, n), C.site)
                return [Out(st, 'ret', UNIT)]
            return f

        def offset(e, st, args, C): return [Out(st, 'ret', App('at', e.canon(st, args[0]), e.canon(st, args[1])))]

        def wr(e, st, args, C):
            e.effect(st, 'set', (e.canon(st, args[0]), e.canon(st, args[1])), C.site)
            return [Out(st, 'ret', UNIT)]

        h = {GEN: gen, PARSE: parse, 'koopa::front::Driver::<T>::new': True, 'std::ffi::CString::new': cstring,
             'std::boxed::Box::<T>::into_raw': into_raw, 'std::boxed::Box::<T, A>::into_raw': into_raw, 'std::boxed::Box::<T, A>::leak': into_raw,
             'std::boxed::Box::<T>::from_raw': from_raw, 'std::slice::from_raw_parts_mut': rawslice,
             'core::slice::<impl [T]>::split_at_mut': split, 'core::slice::<impl [T]>::split_at': split, 'core::slice::<impl [T]>::copy_from_slice': copy_slice, 'core::slice::<impl [T]>::clone_from_slice': copy_slice}
        for n in ('std::ptr::drop_in_place', 'std::ptr::read', 'std::alloc::dealloc', 'std::ptr::mut_ptr::<impl *mut T>::drop_in_place', 'std::ptr::mut_ptr::<impl *mut T>::read', 'std::rc::Rc::<T>::from_raw',
                  'std::ptr::mut_ptr::<impl *mut T>::replace', 'std::ptr::replace', 'std::os::fd::OwnedFd::from_raw_fd'): h[n] = freeing(n)
        for n in ('std::ffi::CString::as_bytes_with_nul', 'std::ffi::CStr::to_bytes_with_nul', 'std::ffi::CString::into_bytes_with_nul'): h[n] = withnul
        for n in ('std::ffi::CString::as_bytes', 'std::ffi::CStr::to_bytes', 'std::ffi::CString::into_bytes', 'std::ffi::CString::as_c_str'): h[n] = without
        h['std::ffi::CString::as_c_str'] = lambda e, st, args, C: [Out(st, 'ret', e.canon(st, args[0]))]
        for n in ('std::ffi::CStr::as_ptr', 'std::ffi::CString::as_ptr'): h[n] = whole
        h['std::ffi::CStr::count_bytes'] = count
        for n in ('core::slice::<impl [T]>::as_ptr', 'std::vec::Vec::<T, A>::as_ptr'): h[n] = dataptr
        for n in ('std::ptr::copy_nonoverlapping', 'std::ptr::copy', 'std::intrinsics::copy_nonoverlapping', 'std::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping', 'std::ptr::const_ptr::<impl *const T>::copy_to'): h[n] = copy_raw(False)
        for n in ('std::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping', 'std::ptr::mut_ptr::<impl *mut T>::copy_from'): h[n] = copy_raw(True)
        for n in ('std::ptr::mut_ptr::<impl *mut T>::add', 'std::ptr::mut_ptr::<impl *mut T>::offset'): h[n] = offset
        for n in ('std::ptr::write', 'std::ptr::mut_ptr::<impl *mut T>::write'): h[n] = wr
        return h

    def engine(self, extra=None, steps=400000, k=None):
        h = self.hooks(k)
        h.update(extra or {})
        return Eng(self.u, opaque=h, max_steps=steps, trace_drop=True)

    def run(self, f, extra=None, args=None, st=None, k=None):
        e = self.engine(extra, k=k)
        if k is not None: e.unroll = True
        outs = e.run(f, args or [Sym('a%d' % i) for i in range(f['argc'])], st or St.new())
        return e, outs

    def code(self, o):
        """name of the returned error code"""
        v = o.val
        if v.op == 'adt' and self.u.types[v.a[0]].get('name', '').endswith('ErrorCode'): return self.ir.variants(self.u.types[v.a[0]]['name'])[v.a[1]]
        return None


def failures(o):
    """calls that failed on this path"""
    return [c.a[1] for c, b in o.st.conds if b and c.op == 'app' and c.a[0] == 'failed']


def expected(call):
    n = call.a[0]
    if n.endswith('to_str') or 'from_utf8' in n: return 'InvalidUtf8String'
    if n == PARSE: return 'InvalidKoopaProgram'
    if n == 'std::ffi::CString::new': return 'NullByteError'
    if n == GEN: return 'IoError'
    if 'fs::File::' in n or 'OpenOptions' in n: return 'InvalidFile'
    if 'flush' in n or 'write' in n or 'into_inner' in n or 'sync_' in n: return 'IoError'
    return None
