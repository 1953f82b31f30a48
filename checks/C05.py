"""C05: handles given to C are released exactly by their delete function."""
from ffi import *
import C03

RULES = {'fresh': 'each successful call hands out one newly allocated object of the type of the handle', 'leak': 'no handle is allocated that is not handed out', 'delete': 'there is exactly one delete function for each type of handle',
         'frees': 'the delete function frees the object it is given, once, as the type it was allocated with', 'only': 'the delete function frees nothing else and does nothing else', 'lent': 'no other function frees, takes over or moves out of an object it is lent',
         'inner': 'the raw builder and the raw reader free only what they have just allocated themselves', 'panic': 'no path panics', 'floor': 'number of functions and handles'}

FREE = ('std::boxed::Box::<T>::from_raw', 'std::boxed::Box::<T, A>::from_raw', 'std::boxed::Box::<T, A>::from_raw_in', 'std::ptr::drop_in_place', 'std::ptr::mut_ptr::<impl *mut T>::drop_in_place', 'std::alloc::dealloc', 'std::rc::Rc::<T>::from_raw', 'std::ffi::CString::from_raw',
        'std::vec::Vec::<T>::from_raw_parts', 'std::vec::Vec::<T, A>::from_raw_parts')
MOVE = ('std::ptr::read', 'std::ptr::mut_ptr::<impl *mut T>::read', 'std::ptr::const_ptr::<impl *const T>::read', 'std::ptr::mut_ptr::<impl *mut T>::replace', 'std::ptr::replace', 'std::mem::take', 'std::mem::replace', 'std::mem::swap', 'std::ptr::swap')
OWN = ('std::boxed::Box::<T>::into_raw', 'std::boxed::Box::<T, A>::into_raw', 'std::boxed::Box::<T, A>::leak', 'std::boxed::Box::<T>::leak', 'std::alloc::alloc', 'std::ffi::CString::into_raw', 'std::rc::Rc::<T>::into_raw')


def mentions(t, s): return find(t, lambda x: x is s) is not None


class Scan:
    """where the pointers handed to freeing functions come from"""
    def __init__(self, u, roots):
        self.u = u
        self.reach, todo = {}, list(roots)
        while todo:
            f = todo.pop()
            if f['key'] in self.reach: continue
            self.reach[f['key']] = f
            for c in self.calls(f):
                g = u.fns.get(c[1]['key'])
                if g is not None: todo.append(g)
            for t in f['locals']:
                t = u.types[t]
                if t['k'] in ('closure', 'fndef') and t.get('callee') and t['callee']['key'] in u.fns: todo.append(u.fns[t['callee']['key']])

    def calls(self, f):
        return [b['t'] for b in f['blocks'] if b['t'][0] == 'call' and isinstance(b['t'][1], dict) and 'key' in b['t'][1]]

    def origins(self, f, local, seen=()):
        """the calls a local's value comes from, back to the calls of this function"""
        if (f['key'], local) in seen: return set()
        seen = seen + ((f['key'], local),)
        if 1 <= local <= f['argc']:
            out = set()
            for g in self.reach.values():
                for c in self.calls(g):
                    if c[1]['key'] == f['key']: out |= self.operand(g, c[2][local - 1], seen)
            return out or {'a parameter'}
        out = set()
        for b in f['blocks']:
            for x in b['s']:
                if x[0] == '=' and x[1][0] == local: out |= self.rvalue(f, x[2], seen)
        for c in self.calls(f):
            if c[3][0] == local:
                n = c[1].get('decl') or c[1]['path']
                if n in OWN: out.add('own')
                elif c[1]['key'] in self.reach: out |= self.origins(self.reach[c[1]['key']], 0, seen)
                elif c[2] and any(w in n for w in ('::cast', '::as_ptr', '::as_mut_ptr', '::add', 'into', 'NonNull')): out |= self.operand(f, c[2][0], seen)
                else: out.add(n)
        return out or {'nowhere'}

    def operand(self, f, o, seen):
        return self.origins(f, o[1][0], seen) if o[0] in ('c', 'm') else {'a constant'}

    def rvalue(self, f, r, seen):
        if r[0] == 'use': return self.operand(f, r[1], seen)
        if r[0] == 'cast': return self.operand(f, r[2], seen)
        if r[0] in ('ref', 'rawptr', 'addr', 'aof'):
            p = next((x for x in r[1:] if isinstance(x, list) and x and isinstance(x[0], int)), None)
            return self.origins(f, p[0], seen) if p and p[1] else {'a borrow'}
        return {r[0]}

    def sites(self):
        for f in self.reach.values():
            if not f['span'][0].startswith('libkoopa') and 'libkoopa' not in str(f['span']): continue
            for c in self.calls(f):
                n = c[1].get('decl') or c[1]['path']
                if n in FREE or n in MOVE: yield f, c, n


def run():
    c = Check('C05', 'Abstract interpretation of the exported functions with every allocation, conversion to and from a raw pointer, drop and move through a raw pointer recorded, on every path; and a backward data-flow scan of everything reachable from the raw builder and reader for the pointers they free.', RULES,
              ['the file descriptors of the *_raw functions are taken over (not judged)', 'that the raw structures belong to their builder is decided by C02', 'Box, Rc and drop glue behave as documented'])
    u = univ('libkoopa')
    f = Ffi(u)
    nf, handles, deleters = 0, {}, {}

    def pointee(t):
        t = u.types[t]
        return u.types[t['e']] if t['k'] in ('ptr', 'ref') else {'k': '?'}

    def handle(t):
        """type name when t is a raw pointer to an opaque Rust object"""
        p = pointee(t)
        return p['name'] if u.types[t]['k'] == 'ptr' and p['k'] == 'adt' and 'repr' in p and 'c: true' not in p['repr'].lower() and 'IS_C' not in p['repr'] else None
    for name, fn in sorted(f.fns.items()):
        ret_, params = fn['locals'][0], fn['locals'][1:fn['argc'] + 1]
        gives = [h for t in [ret_] for h in [handle(t)] if h]
        outp = [(i, h) for i, t in enumerate(params) if u.types[t]['k'] in ('ref', 'ptr') for h in [handle(u.types[t]['e'])] if h]
        takes = [(i, h) for i, t in enumerate(params) for h in [handle(t)] if h]
        nf += 1
        for h in gives + [h for _, h in outp]: handles.setdefault(h, []).append(name)
        if takes: deleters.setdefault(takes[0][1], []).append(name)
        if fn['path'].split('::')[-1] in ('koopa_build_raw_program', 'koopa_generate_raw_to_koopa'): continue
        e, outs = f.run(fn)
        c.ran(e, outs)
        for o in outs:
            site = o.site or fn['span']
            c.ob('panic', name, o.kind == 'ret', 'panics: %s' % show(o.val), site)
            if o.kind != 'ret': continue
            st = o.st
            made = [x for x in st.eff if x.name == 'into_raw']
            sets = [x for x in st.eff if x.name == 'set' and any(x.args[0] is Sym('a%d' % i) for i, _ in outp)]
            given = [(h, o.val, site) for h in gives] + [(h, x.args[1], x.site) for i, h in outp for x in sets if x.args[0] is Sym('a%d' % i)]
            for h, v, s in given:
                good = v.op == 'app' and v.a[0] == 'into_raw' and v.a[1].a[0] == h and any(x.args[0] is v for x in made)
                c.ob('fresh', name, good, 'hands out %s, expected a new %s' % (show(v)[:150], h), s)
            if outp and not failures(o) and f.code(o) == 'Success': c.ob('fresh', name, len(sets) == 1, 'success hands out %d objects' % len(sets), site)
            c.ob('leak', name, len([x for x in made if x.args[0].a[1].a[0] in (PROGRAM, 'koopa::raw::builder::RawProgramBuilder')]) == len(given), '%d allocated, %d handed out' % (len(made), len(given)), site)
            lent = [Sym('a%d' % i) for i in range(fn['argc'])]
            freed = [x for x in st.eff if x.name in ('from_raw',) or x.name in FREE or x.name in MOVE]
            if not takes:
                bad_ = [x for x in freed if not x.name.endswith('from_raw_fd') and any(mentions(a, s) for a in x.args for s in lent)]
                c.ob('lent', name, not bad_, 'frees or moves out of what it is lent: %s' % [repr(x)[:150] for x in bad_], bad_[0].site if bad_ else site)
                continue
            i, h = takes[0]
            a = Sym('a%d' % i)
            if any(v and b.op == 'app' and b.a[0] == 'is_null' and b.a[1] is a for b, v in st.conds): continue
            box = App('from_raw', Str(h), a)
            drops = [x for x in st.eff if x.name in ('drop', 'std::mem::drop') and mentions(x.args[0], box)]
            place = [x for x in st.eff if x.name.endswith('drop_in_place') and x.args[0] is a]
            deal = [x for x in st.eff if x.name == 'std::alloc::dealloc' and mentions(x.args[0], a)]
            conv = [x for x in freed if x.name == 'from_raw']
            c.ob('frees', name, len(drops) + len(place) == 1 and len(conv) + len(deal) == 1, 'the object is dropped %d times and its memory released %d times' % (len(drops) + len(place), len([x for x in drops if conv]) + len(deal)), site)
            for x in conv: c.ob('frees', name + ': type', x.args[0].a[0] == h and x.args[1] is a, 'releases %s as %s' % (show(x.args[1]), x.args[0].a[0]), x.site)
            rest = [x for x in st.eff if x not in drops + place + deal + conv]
            c.ob('only', name, not rest, 'also does %s' % [repr(x)[:120] for x in rest], rest[0].site if rest else site)
        c.sample({'function': name, 'hands out': gives + [h for _, h in outp], 'takes back': [h for _, h in takes], 'paths': len(outs)})
    for h, ns in sorted(handles.items()): c.ob('delete', h, len(deleters.get(h, [])) == 1, 'handed out by %s, deleted by %s' % (ns, deleters.get(h)))
    for h, ns in sorted(deleters.items()): c.ob('delete', h + ': given', h in handles, 'taken back by %s, but never handed out' % ns)
    c.floor('functions', nf, 17)
    c.floor('types of handles', len(handles), 2)
    # the raw reader hands out one new program, or nothing
    F = C03.RawBuild(IR(u))
    R = C03.RawRun(F)
    for t, at in (('fun @f ( %i : i32 ) { ; %e : ; ret ; }', None), ('fun @f ( %i : i32 ) { ; %e : ; ret ; }', 'bad')):
        p = C03.ops(C03.Sem(C03.reference(C03.toks(t))[0]).program())
        e, st, raw = (C03.engine(F, R) + (None,)) if at is None else next(C03.broken(F, R, p))[2:]
        if at is None: raw = C03.Writer(F, R, e, st).program(p)
        old = {}
        for n in OWN[:4]:
            def h(e, st, args, C, n=n, g=e.opaque.get(n)):
                if C.targs and tname(e, C.targs[0]) == PROGRAM: e.effect(st, 'made', (e.canon(st, args[0]),), C.site)
                return g(e, st, args, C) if callable(g) else [Out(st, 'ret', args[0])]
            e.opaque[n] = h
        out, outs = C03.generate(R, e, st, raw)
        c.ran(e, outs)
        name = 'koopa_generate_raw_to_koopa'
        for o in outs:
            site = o.site or ''
            c.ob('panic', name, o.kind == 'ret', 'panics: %s' % show(o.val)[:200], site)
            if o.kind != 'ret': continue
            made = [x for x in o.st.eff if x.name == 'made']
            given = o.st.store[out.a[0]] is not C03.OLD
            c.ob('leak', name, len(made) == int(given), '%d programs allocated, %d handed out' % (len(made), given), site)
            if at is None: c.ob('fresh', name, given and o.st.store[out.a[0]].op == 'ref', 'hands out %s' % show(o.st.store[out.a[0]])[:100], site)
    roots_ = [fn for n, fn in f.fns.items() if fn['path'].split('::')[-1] in ('koopa_build_raw_program', 'koopa_generate_raw_to_koopa')]
    sc = Scan(u, roots_)
    n = 0
    for fn, call, what in sc.sites():
        t = call[1].get('targs') or []
        ty = u.types[t[0]].get('name', u.types[t[0]]['k']) if t else '?'
        if what in MOVE and ty not in (PROGRAM, 'koopa::raw::builder::RawProgramBuilder'): continue
        n += 1
        og = sc.operand(fn, call[2][0], ()) if what in FREE else {'a lent object'}
        c.ob('inner', '%s: %s of %s' % (fn['path'], what, ty), og == {'own'}, 'the pointer comes from %s' % ', '.join(sorted(og - {'own'})), fn['span'])
    c.ob('inner', 'functions scanned', len(sc.reach) > 40, 'only %d functions are reachable' % len(sc.reach))
    return c


if __name__ == '__main__': main(run)
