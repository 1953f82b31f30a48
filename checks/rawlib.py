"""Raw programs: what the raw builder makes of a program, compared object by object with the program itself."""
import collections
from building import *
from printers import BINOPS
from ffi import Ffi

RAW = 'Raw'


def rawtype(e, tid):
    """is this (the contents of) a raw structure?"""
    t = e.tyk(tid) if tid is not None else {'k': '?'}
    for _ in range(4):
        n = t.get('name', '')
        if n.split('::')[-1].startswith('Raw') and n.split('::')[-1] != 'RawProgramBuilder': return True
        if n.startswith('std::') and t.get('args'): t = e.tyk(t['args'][0])
        else: return False
    return False


class RawRun:
    """engine set-up in which raw structures have an identity and pointers to texts and slices remember what they point to"""
    def __init__(self, f):
        self.f, self.u = f, f.u
        self.fns = {x['key']: x for x in f.u.fns.values() if x['exported']}

    def hooks(self, e):
        def boxnew(e, st, args, C):
            p = e.heap(st, args[0])
            if C.targs and rawtype(e, C.targs[0]): e.atoms.add(p.a[0])
            return [Out(st, 'ret', p)]

        def newuninit(e, st, args, C):
            p = e.heap(st, mk('uninit', mk('box', e.fid)))
            if C.targs and rawtype(e, C.targs[0]): e.atoms.add(p.a[0])
            return [Out(st, 'ret', p)]

        def ident(e, st, args, C): return [Out(st, 'ret', args[0])]

        def cstring(e, st, args, C):
            s = e.canon(st, args[0])
            e.fid += 1
            if s.op != 'str': raise Imprecise('a C string of ' + show(s)[:100])
            return [Out(st, 'ret', Adt(C.dtid, 0, App('cstring', s, Int(e.fid))) if '\0' not in s.a[0] else Adt(C.dtid, 1, App('nul')))]

        def cptr(e, st, args, C): return [Out(st, 'ret', App('cptr', e.canon(st, args[0])))]
        def vecptr(e, st, args, C): return [Out(st, 'ret', App('vecptr', e.canon(st, args[0])))]
        h = {'std::ffi::CString::new': cstring, 'std::ffi::CString::as_ptr': cptr, 'std::ffi::CStr::as_ptr': cptr, 'std::ffi::CString::into_raw': cptr,
             'std::boxed::Box::<T>::new': boxnew, 'std::boxed::Box::<T>::new_uninit': newuninit}
        for n in ('core::slice::<impl [T]>::as_ptr', 'std::vec::Vec::<T, A>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr', 'std::vec::Vec::<T, A>::as_mut_ptr'): h[n] = vecptr
        for n in ('std::boxed::Box::<T>::into_raw', 'std::boxed::Box::<T, A>::into_raw', 'std::boxed::Box::<T, A>::leak', 'std::boxed::Box::<T>::from_raw', 'std::boxed::Box::<T>::leak',
                  'std::boxed::Box::<std::mem::MaybeUninit<T>, A>::assume_init', 'std::boxed::Box::<T>::as_ptr', 'std::boxed::Box::<T, A>::as_ptr', 'std::boxed::Box::<T, A>::as_mut_ptr'): h[n] = ident
        # ---- reading raw structures
        def text(e, st, p):
            c = e.canon(st, p)
            if c.op != 'app' or c.a[0] != 'cptr': raise Imprecise('a C string at ' + show(c)[:100])
            return c.a[1].a[1] if c.a[1].op == 'app' and c.a[1].a[0] == 'cstring' else c.a[1]

        def fromptr(e, st, args, C): return [Out(st, 'ret', App('cstr', text(e, st, args[0])))]

        def cstr(e, st, a):
            c = e.canon(st, a)
            return c.a[1] if c.op == 'app' and c.a[0] == 'cstr' else c

        def tostr(e, st, args, C):
            s = cstr(e, st, args[0])
            if s.op == 'app' and s.a[0] == 'bad utf8': return [Out(st, 'ret', Adt(C.dtid, 1, App('utf8 error')))]
            return [Out(st, 'ret', Adt(C.dtid, 0, s))]

        def tobytes(e, st, args, C): return [Out(st, 'ret', cstr(e, st, args[0]))]

        def lossy(e, st, args, C):
            s = cstr(e, st, args[0])
            return [Out(st, 'ret', Adt(C.dtid, 0, App('lossy', s) if s.op != 'str' else s))]

        def offset(e, st, args, C):
            i, p = e.canon(st, args[1]), args[0]
            if p.op != 'ref': p = e.canon(st, p)
            if p.op != 'ref' or i.op != 'int': raise Imprecise('pointer arithmetic on ' + show(p)[:100])
            base, k = (p.a[1], 0) if not p.a[1] or p.a[1][-1][0] != 'ix' else (p.a[1][:-1], p.a[1][-1][1].a[0])
            return [Out(st, 'ret', mk('ref', p.a[0], base + (('ix', Int(k + i.a[0])),)))]

        def parts(e, st, args, C):
            p, n = args[0], e.canon(st, args[1])
            if p.op != 'ref': p = e.canon(st, p)
            l = e.read(st, p.a[0], p.a[1]) if p.op == 'ref' else p
            if l.op != 'list' or n.op != 'int' or n.a[0] > len(l.a): raise Imprecise('a slice of %s items of %s' % (show(n), show(l)[:100]))
            return [Out(st, 'ret', List(list(l.a[:n.a[0]])))]

        def read(e, st, args, C):
            p = args[0] if args[0].op == 'ref' else e.canon(st, args[0])
            return [Out(st, 'ret', e.read(st, p.a[0], p.a[1]))]

        def asref(e, st, args, C):
            c = args[0] if args[0].op == 'ref' and args[0].a[0] in e.atoms and not args[0].a[1] else e.canon(st, args[0])
            if c.op == 'app' and c.a[0] == 'null' or c is Int(0): return [Out(st, 'ret', Adt(C.dtid, 0))]
            return [Out(st, 'ret', Adt(C.dtid, 1, c))]
        for n in ('core::ffi::CStr::from_ptr', 'std::ffi::CStr::from_ptr', 'std::ffi::c_str::CStr::from_ptr'): h[n] = fromptr
        for n in ('std::ffi::CStr::to_str', 'core::ffi::CStr::to_str', 'std::str::from_utf8', 'core::str::from_utf8'): h[n] = tostr
        for n in ('std::ffi::CStr::to_bytes', 'core::ffi::CStr::to_bytes'): h[n] = tobytes
        for n in ('std::ffi::CStr::to_string_lossy', 'std::string::String::from_utf8_lossy'): h[n] = lossy
        for k in ('const_ptr::<impl *const T>', 'mut_ptr::<impl *mut T>'):
            for n in ('add', 'offset', 'wrapping_add', 'wrapping_offset'): h['std::ptr::%s::%s' % (k, n)] = offset
            for n in ('read', 'read_unaligned'): h['std::ptr::%s::%s' % (k, n)] = read
            for n in ('as_ref', 'as_mut'): h['std::ptr::%s::%s' % (k, n)] = asref
        for n in ('std::ptr::read', 'std::ptr::read_unaligned'): h[n] = read
        for n in ('std::slice::from_raw_parts', 'core::slice::from_raw_parts'): h[n] = parts
        return h

    def tid(self, name):
        l = [i for i, t in enumerate(self.u.types) if t and t['k'] == 'adt' and t['name'].split('::')[-1] == name and '::raw::' in t['name']]
        if not l: raise KeyError('type %s' % name)
        return l[0]

    def setup(self, e):
        e.atoms = set()
        e.max_rec = 40
        e.max_steps = max(e.max_steps, 3000000)
        e.opaque.update(self.hooks(e))


class Mismatch(Exception): pass


class Compare:
    """a raw program against the program it was built from, read through the public accessors"""
    def __init__(self, r, e, st, rd):
        self.r, self.e, self.st, self.rd = r, e, st, rd
        self.obj, self.back = {}, {}      # entity -> raw object, and back
        self.todo, self.slices, self.strs, self.later = [], [], [], []

    def call(self, root, *a):
        self.rd.st = self.st
        v = self.rd.call(root, *a)
        self.st = self.rd.st
        return v

    def c(self, v): return self.e.canon(self.st, v)

    def adt(self, v, name, what):
        if v.op == 'ref': v = self.e.read(self.st, v.a[0], v.a[1])
        if v.op != 'adt' or isinstance(v.a[0], str) or not self.e.tyk(v.a[0]).get('name', '').endswith(name): raise Mismatch('%s is %s, expected a %s' % (what, show(v)[:100], name))
        return v

    def fields(self, v):
        """field name -> value; enum variants: (variant, fields)"""
        t = self.e.tyk(v.a[0])
        names = [n for n, _ in t['vs'][v.a[1]]['fs']]
        return t['vs'][v.a[1]]['n'], dict(zip(names, v.a[2:]))

    def ptr(self, p, what):
        if p.op != 'ref': p = self.c(p)
        p = models.lastptr(self.e, self.st, p)
        if p.op != 'ref' or p.a[0] not in self.e.atoms: raise Mismatch('%s is no pointer to a raw object: %s' % (what, show(p)[:100]))
        return p

    def null(self, p): return self.c(p) in (App('null'), Int(0))

    def text(self, p, want, what):
        c = self.c(p)
        if want is None:
            if not self.null(p): raise Mismatch('%s is %s, expected null' % (what, show(c)[:100]))
            return
        if c.op != 'app' or c.a[0] != 'cptr' or c.a[1].op != 'app' or c.a[1].a[0] != 'cstring': raise Mismatch('%s is %s, expected the text %s' % (what, show(c)[:100], want))
        if c.a[1].a[1].a[0] != want: raise Mismatch('%s is %s, expected %s' % (what, c.a[1].a[1].a[0], want))
        self.strs.append((c.a[1], what))

    def slice(self, v, kind, what):
        _, f = self.fields(self.adt(v, 'RawSlice', what))
        k, _ = self.fields(self.adt(f['kind'], 'RawSliceItemKind', what))
        n, b = self.c(f['len']), self.c(f['buffer'])
        if k != kind: raise Mismatch('the slice of %s has kind %s, expected %s' % (what, k, kind))
        if n.op != 'int': raise Mismatch('the slice of %s has length %s' % (what, show(n)[:100]))
        if n.a[0] == 0: return []
        if b.op != 'app' or b.a[0] != 'vecptr' or b.a[1].op != 'list': raise Mismatch('the slice of %s points to %s' % (what, show(b)[:100]))
        if len(b.a[1].a) < n.a[0]: raise Mismatch('the slice of %s has length %d, but the buffer has %d items' % (what, n.a[0], len(b.a[1].a)))
        self.slices.append((b.a[1], what))
        return list(b.a[1].a[:n.a[0]])

    def ty(self, p, what, depth=0):
        p = self.ptr(p, what)
        n, f = self.fields(self.adt(p, 'RawTypeKind', what))
        fs = list(f.values())
        if depth > 12: raise Mismatch('%s is a type without end' % what)
        if n == 'Int32': return INT
        if n == 'Unit': return UNT
        if n == 'Pointer': return ('ptr', self.ty(fs[0], what, depth + 1))
        if n == 'Array': return ('arr', self.ty(fs[0], what, depth + 1), self.rd.plain(fs[1]))
        return ('func', tuple(self.ty(x, what, depth + 1) for x in self.slice(fs[0], 'Type', 'parameter types of ' + what)), self.ty(fs[1], what, depth + 1))

    def same_ty(self, raw, t, what):
        want = self.rd.ty(t)
        got = self.ty(raw, 'the type of ' + what)
        if got != want: raise Mismatch('the type of %s is %s, expected %s' % (what, got, want))

    def link(self, x, p, what):
        """entity x is the raw object p; True if seen for the first time"""
        p = self.ptr(p, what)
        x = self.c(x)
        if x in self.obj:
            if self.obj[x] is not p: raise Mismatch('%s is another raw object than before' % what)
            return False
        if p in self.back: raise Mismatch('%s is the raw object of %s' % (what, self.back[p]))
        self.obj[x], self.back[p] = p, what
        return True

    def opt(self, v): return self.rd.opt(v, self.rd.plain)

    def seq(self, slice_, kind, want, what):
        got = self.slice(slice_, kind, what)
        if len(got) != len(want): raise Mismatch('%d %s, expected %d' % (len(got), what, len(want)))
        return list(zip(want, got))

    def program(self, raw):
        n, f = self.fields(self.adt(raw, 'RawProgram', 'the program'))
        gs = self.rd.items(self.call('program::inst_layout', self.rd.p))
        fs = self.rd.items(self.call('program::func_layout', self.rd.p))
        for x, p in self.seq(f['values'], 'Value', gs, 'global values'): self.value(x, p, None, 'a global value')
        for x, p in self.seq(f['funcs'], 'Function', fs, 'functions'): self.func(x, p, 'a function')
        while self.todo: self.todo.pop(0)()

    def func(self, x, p, what):
        if not self.link(x, p, what): return
        def go():
            d = self.call('program::func', self.rd.p, x)
            _, f = self.fields(self.adt(self.ptr(p, what), 'RawFunctionData', what))
            name = self.rd.plain(self.call('data::func_name', d))
            self.text(f['name'], name, 'the name of function ' + name)
            self.same_ty(f['ty'], self.call('data::func_ty', d), 'function ' + name)
            for i, (v, q) in enumerate(self.seq(f['params'], 'Value', self.rd.items(self.call('data::func_params', d)), 'parameters of ' + name)): self.value(v, q, d, 'parameter %d of %s' % (i, name))
            lay = self.call('data::func_layout', d)
            for i, (b, q) in enumerate(self.seq(f['bbs'], 'BasicBlock', self.rd.items(self.call('keys::bbs', lay)), 'blocks of ' + name)): self.block(b, q, d, 'block %d of %s' % (i, name))
        self.todo.append(go)

    def block(self, x, p, d, what):
        if not self.link(x, p, what): return
        def go():
            bd = self.call('dfg::bb', d, x)
            _, f = self.fields(self.adt(self.ptr(p, what), 'RawBasicBlockData', what))
            self.text(f['name'], self.opt(self.call('data::bb_name', bd)), 'the name of ' + what)
            for i, (v, q) in enumerate(self.seq(f['params'], 'Value', self.rd.items(self.call('data::bb_params', bd)), 'parameters of ' + what)): self.value(v, q, d, 'parameter %d of %s' % (i, what))
            lay = self.call('data::func_layout', d)
            for i, (v, q) in enumerate(self.seq(f['insts'], 'Value', self.rd.items(self.call('keys::insts', lay, x)), 'instructions of ' + what)): self.value(v, q, d, 'instruction %d of %s' % (i, what))
            self.users(f['used_by'], self.call('data::bb_used_by', bd), 'users of ' + what)
        self.todo.append(go)

    def value(self, x, p, d, what):
        if not self.link(x, p, what): return
        def go():
            g = d is None or self.c(self.call('program::is_global', x)) is TRUE
            vd = self.call('program::borrow_value', self.rd.p, x) if g else self.call('dfg::value', d, x)
            _, f = self.fields(self.adt(self.ptr(p, what), 'RawValueData', what))
            self.text(f['name'], self.opt(self.call('data::name', vd)), 'the name of ' + what)
            self.same_ty(f['ty'], self.call('data::ty', vd), what)
            k = self.c(self.call('data::kind', vd))
            if k.op == 'ref': k = self.c(self.e.read(self.st, k.a[0], k.a[1]))
            t = self.e.tyk(k.a[0])['vs'][k.a[1]]
            rk = self.adt(f['kind'], 'RawValueKind', 'the kind of ' + what)
            rn, rf = self.fields(rk)
            if rn != t['n']: raise Mismatch('%s is of kind %s, expected %s' % (what, rn, t['n']))
            raws, h = {}, None
            if rf:
                _, raws = self.fields(self.adt(list(rf.values())[0], 'Raw' + rn, 'the contents of ' + what))
                h = self.e.heap(self.st, k.a[2])
            want = [n.rstrip('?*') for n in FIELDS[rn]]
            if sorted(raws) != sorted(want): raise Mismatch('%s (%s) has the fields %s' % (what, rn, sorted(raws)))
            for n in FIELDS[rn]:
                m = n.rstrip('?*')
                self.operand(self.call('acc::%s_%s' % (rn.lower(), m), h), raws[m], n, d, '%s of %s (%s)' % (m, what, rn))
            self.users(f['used_by'], self.call('data::used_by', vd), 'users of ' + what)
        self.todo.append(go)

    def operand(self, x, raw, n, d, what):
        c = self.c(x)
        if n in ('value', 'index', 'op') and c.op in ('int', 'bool') or n == 'value' and c.op == 'app' and c.a[0] == 'lit' or n == 'index' and self.c(raw).op == 'int':
            if self.c(raw) is not c: raise Mismatch('%s is %s, expected %s' % (what, show(self.c(raw))[:100], show(c)[:100]))
        elif n == 'op':
            got, _ = self.fields(self.adt(raw, 'RawBinaryOp', what))
            want = self.e.tyk(c.a[0])['vs'][c.a[1]]['n']
            if got != want: raise Mismatch('%s is %s, expected %s' % (what, got, want))
        elif n.endswith('*'):
            for i, (v, q) in enumerate(self.seq(raw, 'Value', self.rd.items(c), what)): self.value(v, q, d, 'item %d in %s' % (i, what))
        elif n.endswith('?'):
            v = self.rd.opt(c, lambda y: y)
            if v is None:
                if not self.null(raw): raise Mismatch('%s is %s, expected null' % (what, show(self.c(raw))[:100]))
            else: self.value(v, raw, d, what)
        elif n in ('true_bb', 'false_bb', 'target'): self.block(c, raw, d, what)
        elif n == 'callee': self.func(c, raw, what)
        else: self.value(c, raw, d, what)

    def users(self, raw, want, what):
        want = self.members(want)
        self.later.append((raw, want, what))

    def members(self, s):
        r = models.known_entries(self.e, self.st, self.c(s))
        if r is None: raise Mismatch('unknown set ' + show(self.c(s))[:100])
        return [x[0] if isinstance(x, tuple) else x for x in r]

    def finish(self, owner):
        """use lists, once every object is known; and everything pointed to is owned by the builder"""
        for raw, want, what in self.later:
            got = [self.ptr(q, what) for q in self.slice(raw, 'Value', what)]
            if len(set(got)) != len(got): raise Mismatch('an object twice among the ' + what)
            placed = {self.obj[self.c(x)] for x in want if self.c(x) in self.obj}
            free = sum(self.c(x) not in self.obj for x in want)
            extra = [q for q in got if q not in placed]
            if [q for q in placed if q not in got]: raise Mismatch('%d %s, expected %d' % (len(got), what, len(placed)))
            if len(extra) > free or any(q in self.back for q in extra): raise Mismatch('%s among the %s' % (self.back.get(extra[0], 'a stranger'), what))
        have, todo, seen = collections.Counter(), [owner], set()
        while todo:
            t = todo.pop()
            if t.op == 'ref':
                if t in seen: continue
                seen.add(t)
                todo.append(self.e.read(self.st, t.a[0], t.a[1]))
                continue
            if t.op == 'list': have[self.c(t)] += 1
            if t.op == 'app' and t.a[0] in ('vecptr', 'cptr'): continue     # a pointer owns nothing
            if t.op == 'app' and t.a[0] == 'cstring': have[t] += 1
            ents = models.known_entries(self.e, self.st, t) if t.op in ('app', 'sym') else None
            if ents is not None: todo += [y for x in ents for y in (x if isinstance(x, tuple) else (x,))]
            todo += [x for x in t.a if hasattr(x, 'op')]
        need = collections.Counter()
        for l, what in self.slices:
            if l.a: need[l, what] += 1
        for (l, what) in need:
            if not have[l]: raise Mismatch('the items of %s are not kept by the builder' % what)
        for s, what in self.strs:
            if not have[s]: raise Mismatch('%s is not kept by the builder' % what)
        objs = {q for q in self.obj.values()}
        if not objs <= seen: raise Mismatch('%s is not kept by the builder' % self.back[next(iter(objs - seen))])


class RawBuild(Build):
    shift = 0

    def field(self, tid, x, path, sub):
        if isinstance(x, tuple) and x[0] == 'op': return self.ir.variant('koopa::ir::values::BinaryOp', BINOPS[(int(x[1][1:]) + self.shift) % len(BINOPS)])
        return super().field(tid, x, path, sub)


class Writer:
    """raw structures for a program given as nested tuples (the form of Sem.program())"""
    def __init__(self, f, R, e, st):
        self.f, self.ir, self.u, self.R, self.e, self.st = f, f.ir, f.u, R, e, st
        self.n = 0
        self.types = {}
        self.share = True          # equal types and constants are one raw object

    def S(self, struct_, **fs):
        t = self.R.tid(struct_)
        for n, _ in self.u.types[t]['vs'][0]['fs']: fs.setdefault(n, self.any(n))
        return Adt(t, 0, *[fs[n] for n, _ in self.u.types[t]['vs'][0]['fs']])

    def V(self, name, var, *fs):
        t = self.R.tid(name)
        return Adt(t, [v['n'] for v in self.u.types[t]['vs']].index(var), *fs)

    def new(self, v=None):
        r = self.e.heap(self.st, v if v is not None else UNIT)
        self.e.atoms.add(r.a[0])
        return r

    def put(self, p, v): self.st.store[p.a[0]] = v

    def slice(self, kind, items):
        b = self.e.heap(self.st, List(items))
        self.e.atoms.add(b.a[0])
        return self.S('RawSlice', buffer=b, len=Int(len(items)), kind=self.V('RawSliceItemKind', kind))

    def any(self, what):
        """something that must not matter"""
        self.n += 1
        return Sym('any %s %d' % (what, self.n))

    def name(self, s): return App('null') if s is None else App('cptr', s if hasattr(s, 'op') else Str(s))

    def int(self, x): return Int(x) if isinstance(x, int) else App('lit', Str(x[1]))

    def ty(self, t):
        if self.share and t in self.types: return self.types[t]
        K = lambda v, *a: self.V('RawTypeKind', v, *a)
        k = K('Int32') if t == INT else K('Unit') if t == UNT else K('Pointer', self.ty(t[1])) if t[0] == 'ptr' else K('Array', self.ty(t[1]), self.int(t[2])) if t[0] == 'arr' else K('Function', self.slice('Type', [self.ty(x) for x in t[1]]), self.ty(t[2]))
        self.types[t] = self.new(k)
        return self.types[t]

    def kind(self, n, **fs): return self.V('RawValueKind', n, *([self.S('Raw' + n, **fs)] if fs else []))

    def value(self, name, ty, kind): return self.S('RawValueData', ty=self.ty(ty), name=self.name(name), kind=kind)

    def const(self, c):
        if c[0] == 'int': return self.new(self.value(None, INT, self.kind('Integer', value=self.int(c[1]))))
        if c[0] in ('zero', 'undef'): return self.new(self.value(None, c[1], self.kind({'zero': 'ZeroInit', 'undef': 'Undef'}[c[0]])))
        return self.new(self.value(None, c[1], self.kind('Aggregate', elems=self.slice('Value', [self.const(x) for x in c[2]]))))

    def program(self, prog):
        globs, funcs = prog
        self.gs = [self.new() for _ in globs]
        self.fs = [self.new() for _ in funcs]
        for p, (n, t, i) in zip(self.gs, globs): self.put(p, self.value(n, t, self.kind('GlobalAlloc', init=self.const(i))))
        for p, f in zip(self.fs, funcs): self.func(p, *f)
        return self.S('RawProgram', values=self.slice('Value', self.gs), funcs=self.slice('Function', self.fs))

    def func(self, p, name, ty, params, blocks):
        args = [self.new(self.value(n, t, self.kind('FuncArgRef', index=Int(i)))) for i, (n, t) in enumerate(params)]
        bbs = [self.new() for _ in blocks]
        bps = [[self.new(self.value(n, t, self.kind('BlockArgRef', index=Int(i)))) for i, (n, t) in enumerate(ps)] for _, ps, _ in blocks]
        ins = [[self.new() for _ in i] for _, _, i in blocks]

        def val(x):
            if x[0] == 'global': return self.gs[x[1]]
            if x[0] == 'arg': return args[x[1]]
            if x[0] == 'bparam': return bps[x[1]][x[2]]
            if x[0] == 'inst': return ins[x[1]][x[2]]
            return self.const(x)

        def vals(xs): return self.slice('Value', [val(x) for x in xs])
        for j, (bn, ps, insts) in enumerate(blocks):
            for q, (n, t, k) in zip(ins[j], insts):
                o = k[0]
                if o == 'Alloc': kk = self.kind('Alloc')
                elif o == 'Load': kk = self.kind(o, src=val(k[1]))
                elif o == 'Store': kk = self.kind(o, value=val(k[1]), dest=val(k[2]))
                elif o in ('GetPtr', 'GetElemPtr'): kk = self.kind(o, src=val(k[1]), index=val(k[2]))
                elif o == 'Binary': kk = self.kind(o, op=self.V('RawBinaryOp', k[1]), lhs=val(k[2]), rhs=val(k[3]))
                elif o == 'Branch': kk = self.kind(o, cond=val(k[1]), true_bb=bbs[k[2]], false_bb=bbs[k[4]], true_args=vals(k[3]), false_args=vals(k[5]))
                elif o == 'Jump': kk = self.kind(o, target=bbs[k[1]], args=vals(k[2]))
                elif o == 'Call': kk = self.kind(o, callee=self.fs[k[1]], args=vals(k[2]))
                else: kk = self.kind(o, value=App('null') if k[1] is None else val(k[1]))
                self.put(q, self.value(n, t, kk))
            self.put(bbs[j], self.S('RawBasicBlockData', name=self.name(bn), params=self.slice('Value', bps[j]), insts=self.slice('Value', ins[j])))
        self.bbs, self.ins, self.args, self.bps = bbs, ins, args, bps
        self.put(p, self.S('RawFunctionData', ty=self.ty(ty), name=self.name(name), params=self.slice('Value', args), bbs=self.slice('BasicBlock', bbs)))


LENS = {'n': (1, 2 ** 62), 'm': (2 ** 62 + 1, 2 ** 63 - 1)}     # apart: types of the two lengths differ
LENGTHS = ['global @g = alloc [ [ i32 , #n ] , #m ] , zeroinit', 'fun @f ( %a : * [ i32 , #n ] ) { ; %e : ; %x = alloc [ * i32 , #m ] ; ret ; }', 'decl @f ( [ i32 , #n ] , ( [ * i32 , #m ] ) ) : [ i32 , #n ]']


def BIG(n):
    """(what, program) with n items in one list"""
    R = range(n)
    yield 'elements', 'global @g = alloc [ i32 , #%d ] , { %s }' % (n, ' , '.join('#k%d' % i for i in R))
    yield 'parameters and arguments', 'decl @d ( %s ) ; fun @f ( %s ) { ; %%e : ; call @d ( %s ) ; ret ; }' % (' , '.join('i32' for i in R), ' , '.join('%%p%d : i32' % i for i in R), ' , '.join('%%p%d' % i for i in R))
    yield 'instructions', 'fun @f ( ) { ; %e : ; ' + ''.join('%%x%d = alloc i32 ; ' % i for i in R) + 'ret ; }'
    yield 'block parameters', 'fun @f ( %%i : i32 , %%j : i32 ) { ; %%e : ; jump %%b ( %s ) ; %%b ( %s ) : ; ret ; }' % (' , '.join('%i' if i % 3 else '%j' for i in R), ' , '.join('%%p%d : i32' % i for i in R))
    yield 'blocks', 'fun @f ( ) { ; %e : ; jump %b0 ; ' + ''.join('%%b%d : ; jump %%b%d ; ' % (i, i + 1) for i in range(n - 1)) + '%%b%d : ; ret ; }' % (n - 1)
    yield 'users', 'fun @f ( %p : i32 ) { ; %e : ; ' + ''.join('%%x%d = op %%p , #k ; ' % i for i in R) + 'ret ; }'
    yield 'functions', ' ; '.join('decl @d%d ( )' % i for i in R)
    yield 'globals', ' ; '.join('global @g%d = alloc i32 , #k%d' % (i, i) for i in R)


def spread(jobs, slow):
    """the slow jobs first, each in a share of its own (see parallel)"""
    return list(slow) + list(jobs)
