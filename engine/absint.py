"""Abstract interpreter over monomorphic MIR.

Values are terms (access paths from the parameters, constants, constructed aggregates and
uninterpreted applications).  States are partitioned by the branch facts that were needed to get
there.  Calls into the analysed crates are followed (so helpers, closures and adaptors are
transparent); everything else has a model in models.py or is an uninterpreted application.
Loops are analysed for zero iterations, for a peeled first iteration and for one generic later
iteration in which everything the loop changes numerically has been widened.
"""
import json, sys
from terms import *
import terms

sys.setrecursionlimit(20000)


class Univ:
    def __init__(self, path):
        d = json.load(open(path))
        self.types, self.items, self.exported = d['types'], d['items'], d['exported']
        self.fns = {f['key']: f for f in d['fns']}
        self.by_path = {}
        for f in d['fns']:
            self.by_path.setdefault(f['path'], []).append(f)
        self.statics = {s['name']: s for s in d['statics']}
        self.adt_by_name = {}
        for i, t in enumerate(self.types):
            if t['k'] == 'adt':
                self.adt_by_name.setdefault(t['name'], []).append(i)
        for f in d['fns']:
            f['_loops'] = None

    def fn(self, path):
        l = self.by_path.get(path)
        return l[0] if l else None

    def find(self, pred):
        return [f for f in self.fns.values() if pred(f)]

    def ty(self, tid): return self.types[tid]

    def variant(self, tid, v):
        t = self.types[tid]
        return t.get('vs', [{}])[v] if t['k'] == 'adt' and t.get('vs') else None

    def tyname(self, key):
        tid, v = key
        if isinstance(tid, str):
            return tid
        t = self.types[tid]
        if t['k'] == 'adt':
            n = t['name'].split('::')[-1]
            if t.get('vs') and t['ak'] == 'Enum':
                return n + '::' + t['vs'][v]['n'] if v < len(t['vs']) else n
            return n
        return t['k']


def loops_of(fn):
    """header -> set of blocks of the natural loop"""
    if fn['_loops'] is not None:
        return fn['_loops']
    bl = fn['blocks']

    def succ(i):
        t = bl[i]['t']
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        if k == 'drop': return [t[2]]
        if k == 'assert': return [t[4]]
        return []
    color, back, stack = {}, [], [(0, iter(succ(0)))]
    color[0] = 1
    while stack:
        n, it = stack[-1]
        for m in it:
            if color.get(m, 0) == 0:
                color[m] = 1
                stack.append((m, iter(succ(m))))
                break
            elif color[m] == 1:
                back.append((n, m))
        else:
            color[n] = 2
            stack.pop()
    preds = {}
    for n in color:
        for m in succ(n):
            preds.setdefault(m, []).append(n)
    out = {}
    for n, h in back:
        body = out.setdefault(h, {h})
        w = [n]
        while w:
            x = w.pop()
            if x in body: continue
            body.add(x)
            w += preds.get(x, [])
    fn['_loops'] = out
    fn['_reach'] = set(color)
    return out


class St:
    __slots__ = ('store', 'facts', 'neq', 'bnd', 'eff', 'conds', 'gen', 'risks', 'notes', 'n')

    def copy(self):
        s = St()
        s.store, s.facts, s.neq, s.bnd = dict(self.store), dict(self.facts), dict(self.neq), dict(self.bnd)
        s.eff, s.conds, s.gen, s.risks, s.notes, s.n = self.eff, self.conds, self.gen, self.risks, self.notes, self.n
        return s

    @staticmethod
    def new():
        s = St()
        s.store, s.facts, s.neq, s.bnd = {}, {}, {}, {}
        s.eff = s.conds = s.risks = s.notes = ()
        s.gen = frozenset()
        s.n = 0
        return s


class Eff(tuple):
    """(name, args, site, generic?)"""
    __slots__ = ()
    @property
    def name(self): return self[0]
    @property
    def args(self): return self[1]
    @property
    def site(self): return self[2]
    def __repr__(self): return '%s(%s)%s' % (self[0], ', '.join(map(show, self[1])), '*' if self[3] else '')


class Out:
    __slots__ = ('st', 'kind', 'val', 'site')
    def __init__(self, st, kind, val, site=None):
        self.st, self.kind, self.val, self.site = st, kind, val, site


class Budget(Exception):
    pass


class Imprecise(Exception):
    pass


TRANSP = ('std::ptr::Unique', 'std::ptr::NonNull', 'std::cell::RefCell', 'std::cell::UnsafeCell', 'std::mem::ManuallyDrop',
          'std::mem::MaybeUninit', 'std::cell::Cell', 'std::mem::MaybeDangling', 'koopa::ir::Type', 'koopa::ir::types::Type')


CONDS = mk('loc', 'conds', 0)


def subterms(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if not hasattr(x, 'op') or id(x) in seen: continue
        seen.add(id(x))
        yield x
        todo += x.a


class Eng:
    def __init__(self, univ, opaque=None, max_steps=400000, max_depth=60, model_override=None, assume_ok=False, fork_insert=False, trace_drop=False, no_models=()):
        import models
        self.u = univ
        terms.TYNAME = univ.tyname
        terms.DISCR = self.enum_discr
        self.opaque = opaque or {}
        self.models = dict(models.MODELS)
        if model_override:
            self.models.update(model_override)
        for n in no_models:
            for k in [k for k in self.models if k.startswith(n)]:
                del self.models[k]
        self.fork_insert, self.trace_drop = fork_insert, trace_drop
        self.discr_dom = {}
        self.fid = 0
        self.unique_maps = False
        self.rev_maps = False      # iterate known maps in the opposite order
        self.unroll = False         # keep running loops whose conditions are all decided
        self.steps = 0
        self.max_steps, self.max_depth = max_steps, max_depth
        self.unsigned = set()
        self.fnstack = []
        self.visited_fns = set()
        self.unknown = {}
        self.sites = 0
        self.assume_ok = assume_ok
        self.max_rec = 1
        self.atoms = ()             # places whose pointers have an identity of their own
        self.cells = ()
        self.bytes_in_use = False
        self._bsym, self._bsplit = {}, {}
        self.pruned_err = 0

    # ---------- types ----------
    def tyk(self, tid): return self.u.types[tid]

    def pointee(self, tid):
        t = self.tyk(tid)
        if t['k'] in ('ref', 'ptr'):
            return t['e']
        if t['k'] == 'adt' and t['args']:
            return t['args'][0]
        return None

    # ---------- store ----------
    def fname(self, ctid, variant, idx):
        t = self.tyk(ctid)
        if t['k'] == 'adt' and t.get('vs'):
            vs = t['vs']
            if t['ak'] == 'Enum':
                v = vs[variant if variant is not None else 0]
                return '%s.%s' % (v['n'], v['fs'][idx][0])
            return vs[0]['fs'][idx][0]
        return str(idx)

    def nfields(self, ctid, variant):
        t = self.tyk(ctid)
        if t['k'] == 'adt' and t.get('vs'):
            return len(t['vs'][variant or 0]['fs'])
        if t['k'] == 'tuple':
            return len(t['fs'])
        if t['k'] == 'closure':
            return len(self.tyk(t['up'])['fs'])
        return None

    def fld(self, base, pe):
        _, idx, name, variant, ctid = pe
        t = self.tyk(ctid)
        if t['k'] == 'adt' and (t.get('box') or t['name'] in TRANSP):
            return base
        r = Fld(self.name(base), name)
        if r.meta is None:
            # remember integer signedness for the interval domain
            ft = None
            if t['k'] == 'adt' and t.get('vs'):
                ft = t['vs'][variant or 0]['fs'][idx][1]
            elif t['k'] == 'tuple':
                ft = t['fs'][idx]
            if ft is not None and self.tyk(ft)['k'] == 'uint':
                self.unsigned.add(r)
            r.meta = ('ty', ft)
        return r

    def project(self, st, v, pe):
        k = pe[0]
        if k == 'f':
            if v.op == 'adt':
                t = self.tyk(pe[4]) if not isinstance(pe[4], str) else None
                if t and t['k'] == 'adt' and (t.get('box') or t['name'] in TRANSP) and not isinstance(v.a[0], str) and v.a[0] != pe[4]:
                    return v
                if 2 + pe[1] < len(v.a):
                    return v.a[2 + pe[1]]
                return mk('bot')
            return self.fld(v, pe)
        if k == 'ix':
            return self.index(st, v, pe[1])
        if k == 'ci':
            off, fe = pe[1], pe[2]
            if v.op == 'list' or (v.op == 'adt' and v.a[0] == 'array'):
                it = v.a if v.op == 'list' else v.a[2:]
                i = len(it) - off if fe else off
                if 0 <= i < len(it):
                    return it[i]
            return mk('elem', v, add(mk('app', 'len', v), Int(off), -1) if fe else Int(off))
        if k == 'ss':
            return App('subslice', v, Int(pe[1]), Int(pe[2]))
        raise Imprecise('proj %r' % (pe,))

    def index(self, st, v, i):
        it = v.a if v.op == 'list' else v.a[2:] if v.op == 'adt' and v.a[0] == 'array' else None
        if it is not None and i.op == 'int' and 0 <= i.a[0] < len(it):
            return it[i.a[0]]
        return Elem(self.canon(st, v), self.canon(st, i))

    def read(self, st, root, path):
        v = st.store.get(root)
        if v is None:
            if root.op == 'obj':
                v = root.a[0] if root.a[0].op in ('adt', 'list') else mk('deref', root.a[0])
            else:
                v = mk('uninit', root)
        for pe in path:
            if pe[0] == 'f' and v.op in ('ref',):
                t = self.tyk(pe[4])
                if t['k'] == 'adt' and (t.get('box') or t['name'] in TRANSP):
                    continue
            if v.op == 'fld':
                w = st.store.get(mk('obj', v))
                if w is not None: v = w
            v = self.project(st, v, pe)
        return v

    def seeded(self, st, root, path):
        """a prefix of the place that has a current content of its own"""
        if root.op != 'obj' or not path: return root, path
        v = st.store.get(root)
        if v is None: v = mk('deref', root.a[0])
        for i, pe in enumerate(path):
            v = self.project(st, v, pe)
            if v.op == 'fld':
                o = mk('obj', v)
                if o is not root and o in st.store: return self.seeded(st, o, path[i + 1:])
            if v.op not in ('fld', 'adt'): break
        return root, path

    def upd(self, st, v, path, val):
        if not path:
            return val
        pe = path[0]
        if pe[0] == 'f':
            t = self.tyk(pe[4])
            if t['k'] == 'adt' and (t.get('box') or t['name'] in TRANSP):
                return self.upd(st, v, path[1:], val)
            if v.op != 'adt' or len(v.a) - 2 <= pe[1]:
                n = self.nfields(pe[4], pe[3])
                if n is None:
                    return App('mut:setfield', v, Str(pe[2]), val)
                if v.op == 'uninit' or v.op == 'adt':
                    fs = [mk('uninit', v, i) for i in range(n)]
                else:
                    fs = [self.fld(v, ('f', i, self.fname(pe[4], pe[3], i), pe[3], pe[4])) for i in range(n)]
                cid = 'tuple' if t['k'] == 'tuple' else pe[4]
                v = Adt(cid, pe[3] or 0, *fs)
            fs = list(v.a[2:])
            fs[pe[1]] = self.upd(st, fs[pe[1]], path[1:], val)
            return Adt(v.a[0], v.a[1], *fs)
        if pe[0] in ('ix', 'ci'):
            i = pe[1] if pe[0] == 'ix' else Int(pe[1])
            it = v.a if v.op == 'list' else v.a[2:] if v.op == 'adt' and v.a[0] == 'array' else None
            if it is not None and i.op == 'int' and i.a[0] < len(it):
                l = list(it)
                l[i.a[0]] = self.upd(st, l[i.a[0]], path[1:], val)
                return List(l) if v.op == 'list' else Adt('array', 0, *l)
            return App('mut:setidx', v, i, self.upd(st, self.index(st, v, i), path[1:], val))
        raise Imprecise('upd %r' % (pe,))

    def write(self, st, root, path, val, site=None, effect=True):
        r0, p0 = root, path
        root, path = self.seeded(st, root, path)
        old = st.store.get(root)
        if old is None:
            old = mk('deref', root.a[0]) if root.op == 'obj' else mk('uninit', root)
        st.store[root] = self.upd(st, old, path, val)
        if effect and root.op == 'obj':
            self.effect(st, 'set', (self.pterm(st, r0, p0), self.canon(st, val)), site)

    def pterm(self, st, root, path):
        """access path of a place, ignoring updates"""
        if root.op == 'obj':
            t = self.strip(self.name(root.a[0]))
        else:
            t = root
        for pe in path:
            if pe[0] == 'f':
                t = self.fld(t, pe)
            elif pe[0] == 'ix':
                t = Elem(t, self.canon(st, pe[1]))
            else:
                t = mk('elem', t, Str(str(pe)))
        return t

    def strip(self, t):
        """forget in-place updates: mut:f(old, ..) -> old"""
        while t.op == 'app' and t.a[0].startswith('mut:'):
            t = t.a[1]
        if t.op == 'fld':
            b = self.strip(t.a[0])
            if b is not t.a[0]:
                n = Fld(b, t.a[1])
                n.meta = t.meta
                return n
        return t

    def to_place(self, v):
        if v.op == 'ref':
            return v.a[0], v.a[1]
        return mk('obj', self.name(v)), ()

    def heap(self, st, val):
        self.fid += 1
        r = mk('heap', self.fid)
        st.store[r] = val
        return Ref(r)

    # A pointer and the initial content of what it points to share one name (references, boxes and
    # Rcs are transparent).  `deref p` is that initial content; a bare pointer p stands for the
    # current content when it is canonicalised.
    def name(self, t):
        if t.op == 'deref':
            return self.name(t.a[0])
        if t.op == 'fld':
            b = self.name(t.a[0])
            if b is t.a[0]: return t
            n = Fld(b, t.a[1])
            if n.meta is None: n.meta = t.meta
            if t in self.unsigned: self.unsigned.add(n)
            return n
        return t

    def canon(self, st, t, d=0):
        o = t.op
        if o in ('int', 'bool', 'str', 'bytes', 'char', 'lin', 'uninit', 'loc', 'heap', 'bot', 'fn', 'gen'):
            return t
        if d > 200:
            return t
        if o == 'ref':
            if t.a[0] in self.atoms and not t.a[1]: return t
            return self.canon(st, self.read(st, t.a[0], t.a[1]), d + 1)
        if o == 'deref':
            return self.name(t)
        if o in ('sym', 'fld', 'app', 'elem'):
            n = self.name(t) if o == 'fld' else t
            v = st.store.get(mk('obj', n))
            if v is not None and v is not n:
                return self.canon(st, v, d + 1)
            return n
        if o == 'adt':
            return self.collapse(t.a[0], t.a[1], tuple(self.canon(st, x, d + 1) for x in t.a[2:]))
        if o in ('list', 'olist'):
            na = tuple(self.canon(st, x, d + 1) for x in t.a)
            return t if all(x is y for x, y in zip(na, t.a)) else mk(o, *na)
        return t

    def _adt_field(self, b, name):
        tid, v = b.a[0], b.a[1]
        if isinstance(tid, str):
            return b.a[2 + int(name)] if name.isdigit() and 2 + int(name) < len(b.a) else None
        n = self.nfields(tid, v)
        for i in range(n or 0):
            if self.fname(tid, v, i) == name:
                return b.a[2 + i] if 2 + i < len(b.a) else None
        return None

    NEWTYPES = ('koopa::ir::Type', 'koopa::ir::types::Type')

    def collapse(self, tid, v, fs):
        if len(fs) == 1 and not isinstance(tid, str) and self.tyk(tid).get('name') in self.NEWTYPES:
            return fs[0]
        if fs and all(f.op == 'fld' for f in fs) and not isinstance(tid, str) and len({f.a[0] for f in fs}) == 1:
            base = fs[0].a[0]
            t = self.tyk(tid)
            if (t['k'] == 'tuple' or (t.get('ak') == 'Struct')) and self.nfields(tid, v) == len(fs):
                if all(f.a[1] == self.fname(tid, v, i) for i, f in enumerate(fs)):
                    return base
        return Adt(tid, v, *fs)

    # ---------- facts ----------
    def bound(self, st, P):
        """interval of linear form P (no constant)"""
        lo, hi = st.bnd.get(P, (None, None))
        c, d = lin_parts(P)
        l = h = 0
        for x, k in d.items():
            xl, xh = st.bnd.get(x, (None, None))
            if xl is None and (x in self.unsigned or (x.op == 'app' and x.a[0] == 'len')):
                xl = 0
            a, b = (xl, xh) if k > 0 else (xh, xl)
            l = None if l is None or a is None else l + a * k
            h = None if h is None or b is None else h + b * k
        if l is not None and (lo is None or l > lo): lo = l
        if h is not None and (hi is None or h < hi): hi = h
        return lo, hi

    def _split(self, L):
        """L = sign*P + c with P sign-normalised (first coefficient positive, no constant)"""
        c, d = lin_parts(L)
        first = sorted(d.items(), key=lambda p: show(p[0]))[0]
        s = 1 if first[1] > 0 else -1
        return s, lin_make(0, {x: k * s for x, k in d.items()}), c

    # ---------- bytes of the input: finite sets of values ----------
    def bytesym(self, b, d=0):
        """the only input byte that b speaks about (None if none, or several)"""
        r = self._bsym.get(b)
        if r is not None: return r[0]
        out = None
        if b.op == 'byte':
            out = b
        elif d < 8:
            for x in (b.a[1] if b.op == 'lin' else b.a):
                if b.op == 'lin': x = x[0]
                if isinstance(x, T) and x.op not in ('int', 'str', 'char', 'bool'):
                    y = self.bytesym(x, d + 1)
                    if y is not None and out is not None and y is not out:
                        out = None
                        break
                    out = out or y
        self._bsym[b] = (out,)
        return out

    def byteval(self, b, x, v):
        """b with byte x replaced by v; None when that has no definite value"""
        import models
        if b is x: return Int(v)
        if b.op == 'app':
            n, r = b.a[0], [self.byteval(y, x, v) for y in b.a[1:]]
            if any(y is None for y in r): return None
            if n == 'cast:char': return Char(r[0].a[0])
            if n.startswith('cast:') and r[0].op in ('char', 'int'): return Int(r[0].a[0]) if v < 128 else None
            if n.startswith('ch_') and len(r) == 1 and r[0].op == 'char' and models.CH.get(n[3:]): return Bool(models.CH[n[3:]](chr(r[0].a[0])))
            return None
        if b.op == 'lin':
            t = Int(b.a[0])
            for y, k in b.a[1]:
                y = self.byteval(y, x, v)
                if y is None or y.op not in ('int', 'char'): return None
                t = add(t, scale(Int(y.a[0]), k))
            return t
        if b.op in ('eq', 'eq0', 'lt0', 'not', 'and', 'or'):
            r = [self.byteval(y, x, v) for y in b.a]
            if any(y is None for y in r): return None
            r = [Int(y.a[0]) if y.op == 'char' and b.op in ('eq0', 'lt0') else y for y in r]
            if b.op == 'eq': return Eq(*r)
            if b.op == 'eq0': return eq0(r[0])
            if b.op == 'lt0': return lt0(r[0])[0]
            if b.op == 'not': return Not(r[0])
            if b.op == 'and': return Bool(all(y.a[0] for y in r))
            return Bool(any(y.a[0] for y in r))
        return b if is_const(b) else None

    def bytesplit(self, st, b):
        """(byte, values where b holds, values where it does not), or None"""
        x = self.bytesym(b)
        if x is None: return None
        k = (b, x)
        vs = self._bsplit.get(k)
        if vs is None:
            vs = [self.byteval(b, x, v) for v in range(256)]
            vs = self._bsplit[k] = None if any(v is None or v.op != 'bool' for v in vs) else frozenset(i for i, v in enumerate(vs) if v.a[0])
        if vs is None: return None
        d = self.bytedom(st, x)
        return x, d & vs, d - vs

    ALLBYTES = frozenset(range(256))

    def bytedom(self, st, x):
        d = st.facts.get(mk('dom', x))
        return d.a[0] if d is not None else self.ALLBYTES

    def decide(self, st, b):
        if b.op == 'bool':
            return b.a[0]
        if self.bytes_in_use:
            sp = self.bytesplit(st, b)
            if sp is not None:
                return True if not sp[2] else False if not sp[1] else None
        if b.op == 'int':
            return b.a[0] != 0
        if b.op == 'not':
            r = self.decide(st, b.a[0])
            return None if r is None else not r
        if b in st.facts:
            f = st.facts[b]
            return f.a[0] if f.op == 'bool' else None
        if b.op == 'lt0':
            s, P, c = self._split(b.a[0])
            lo, hi = self.bound(st, P)
            if s < 0:
                lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
            if hi is not None and hi + c < 0: return True
            if lo is not None and lo + c >= 0: return False
        elif b.op == 'eq0':
            s, P, c = self._split(b.a[0])
            lo, hi = self.bound(st, P)
            v = -c * s
            if lo is not None and lo == hi: return lo == v
            if (lo is not None and v < lo) or (hi is not None and v > hi): return False
            if v in st.neq.get(P, ()): return False
        elif b.op == 'and':
            rs = [self.decide(st, x) for x in b.a]
            if any(r is False for r in rs): return False
            if all(r is True for r in rs): return True
        elif b.op == 'or':
            rs = [self.decide(st, x) for x in b.a]
            if any(r is True for r in rs): return True
            if all(r is False for r in rs): return False
        elif b.op == 'eq':
            x, y = b.a
            for x, y in ((x, y), (y, x)):
                if x in st.facts:
                    r = Eq(st.facts[x], y)
                    if r.op == 'bool': return r.a[0]
                if is_const(y) and y in st.neq.get(x, ()): return False
                # objects with an identity of their own
                if x.op == 'ref' and x.a[0] in self.atoms and not x.a[1] and (y.op == 'ref' and y.a[0] in self.atoms and not y.a[1] or y.op == 'app' and y.a[0] in ('null', 'cptr')): return False
                # comparison with a field-less enum constant
        return None

    def _setb(self, st, P, lo, hi):
        l, h = self.bound(st, P)
        if lo is not None and (l is None or lo > l): l = lo
        if hi is not None and (h is None or hi < h): h = hi
        ne = st.neq.get(P, ())
        while l is not None and l in ne: l += 1
        while h is not None and h in ne: h -= 1
        if l is not None and h is not None and l > h:
            return False
        st.bnd[P] = (l, h)
        return True

    def assume(self, st, b, val, record=True):
        """st is mutated; returns False when infeasible"""
        if b.op == 'not':
            return self.assume(st, b.a[0], not val, record)
        r = self.decide(st, b)
        if r is not None:
            return r == val
        if record:
            st.conds = st.conds + ((b, val),)
        if self.bytes_in_use:
            sp = self.bytesplit(st, b)
            if sp is not None:
                st.facts[mk('dom', sp[0])] = mk('set', sp[1] if val else sp[2])
                return True
        st.facts[b] = Bool(val)
        if b.op == 'and':
            if val:
                return all(self.assume(st, x, True, False) for x in b.a)
            un = [x for x in b.a if self.decide(st, x) is not True]
            if len(un) == 1:
                return self.assume(st, un[0], False, False)
            return True
        if b.op == 'or':
            if not val:
                return all(self.assume(st, x, False, False) for x in b.a)
            return True
        if b.op == 'lt0':
            s, P, c = self._split(b.a[0])
            # s*P + c < 0
            if val:
                return self._setb(st, P, None, -c - 1) if s > 0 else self._setb(st, P, c + 1, None)
            return self._setb(st, P, -c, None) if s > 0 else self._setb(st, P, None, c)
        if b.op == 'eq0':
            s, P, c = self._split(b.a[0])
            v = -c * s
            if val:
                return self._setb(st, P, v, v)
            st.neq[P] = frozenset(st.neq.get(P, ())) | {v}
            return self._setb(st, P, None, None)
        if b.op == 'eq':
            for x, y in (b.a, b.a[::-1]):
                if is_const(y):
                    if val: st.facts[x] = y
                    else:
                        st.neq[x] = frozenset(st.neq.get(x, ())) | {y}
                        if x.op == 'discr':
                            left = self.left_variants(x, st.neq[x])
                            if left is not None:
                                if not left: return False
                                if len(left) == 1: st.facts[x] = Int(left[0])
        return True

    def branch(self, st, b):
        """[(state, bool)]; may reuse st"""
        r = self.decide(st, b)
        if r is not None:
            return [(st, r)]
        if len(st.conds) > 1200: raise Budget('more than 1200 conditions on one path')
        out = []
        s2 = st.copy()
        if self.assume(st, b, True): out.append((st, True))
        if self.assume(s2, b, False): out.append((s2, False))
        return out

    def discr_val(self, tid, v):
        return self.tyk(tid)['vs'][v]['d']

    def enum_discr(self, tid, v):
        if isinstance(tid, str): return None
        t = self.tyk(tid)
        if t.get('ak') != 'Enum': return None
        return t['vs'][v]['d']

    def discr_term(self, val):
        if val.op == 'adt' and not isinstance(val.a[0], str):
            vs = self.tyk(val.a[0]).get('vs')
            if vs and vs[val.a[1]]['d'] is not None:
                return Int(vs[val.a[1]]['d'])
            return Int(0)
        return mk('discr', val)

    # ---------- effects ----------
    def effect(self, st, name, args, site):
        st.eff = st.eff + (Eff((name, tuple(args), site, bool(st.gen))),)

    def mkeff(self, name, args, site, st):
        return Eff((name, tuple(args), site, bool(st.gen)))

    def fresh(self, name='fresh'):
        self.fid += 1
        return mk('gen', name, self.fid)

    # ---------- constants ----------
    def const(self, c):
        tid, v = c['t'], c['v']
        return self.cval(v, tid)

    def cval(self, v, tid):
        t = self.tyk(tid)
        if v is None:
            return App('const?', Str(t.get('s', '?')))
        if 'i' in v: return Int(v['i'])
        if 'b' in v: return Bool(v['b'])
        if 'ch' in v: return Char(v['ch'])
        if 'str' in v: return Str(v['str'])
        if 'bytes' in v: return Bytes(bytes(v['bytes']))
        if 'ref' in v:
            inner = self.cval(v['ref'], self.pointee(tid)) if self.pointee(tid) is not None else App('const?')
            if inner.op in ('str', 'bytes'):
                return inner
            return mk('ref', mk('cst', inner), ())
        if 'arr' in v:
            e = t.get('e')
            return Adt('array', 0, *[self.cval(x, e) for x in v['arr']])
        if 'tuple' in v:
            if not v['tuple']: return UNIT
            return Tuple(*[self.cval(x, ft) for x, ft in zip(v['tuple'], t['fs'])])
        if 'adt' in v:
            vs = t.get('vs')
            if not vs:
                fs = [self.cval(x, 0) if x is None else self._cval_untyped(x) for x in v['fs']]
                if 'NonZero' in t.get('name', '') and len(fs) == 1: return fs[0]
                return App('const:' + t.get('name', '?'), *fs)
            return Adt(v['adt'], v['v'], *[self.cval(x, ft[1]) for x, ft in zip(v['fs'], vs[v['v']]['fs'])])
        if 'zst' in v:
            zt = self.tyk(v['zst'])
            if zt['k'] in ('fndef', 'closure'):
                return mk('fn', v['zst'])
            if zt['k'] == 'tuple':
                return UNIT
            if zt['k'] == 'adt' and zt.get('vs') is not None:
                return Adt(v['zst'], 0)
            return App('zst:' + zt.get('name', zt['k']))
        if 'fn' in v: return mk('fnk', v['fn']['key'], v['fn']['path'])
        if 'static' in v: return mk('static', v['static'])
        if 'addr' in v: return Int(v['addr'])
        if 'uneval' in v: return App('const:' + v['uneval'])
        return App('const?', Str(json.dumps(v)[:80]))

    def _cval_untyped(self, x):
        if isinstance(x, dict):
            if 'fn' in x: return mk('fnk', x['fn']['key'], x['fn']['path'])
            if 'str' in x: return Str(x['str'])
            if 'i' in x: return Int(x['i'])
            if 'adt' in x: return self.cval(x, x['adt'])
        return App('const?')

    # ---------- places / operands ----------
    def place(self, st, fr, p):
        root, path, tid = mk('loc', fr.id, p[0]), (), fr.fn['locals'][p[0]]
        variant = None
        for pe in p[1]:
            if pe == '*':
                v = self.read(st, root, path)
                root, path = self.to_place(v)
                tid = self.pointee(tid)
                variant = None
            elif pe[0] == 'f':
                path = path + (('f', pe[1], self.fname(tid, variant, pe[1]), variant, tid),)
                tid = pe[2]
                variant = None
            elif pe[0] == 'd':
                variant = pe[1]
            elif pe[0] == 'i':
                iv = self.canon(st, self.read(st, mk('loc', fr.id, pe[1]), ()))
                path = path + (('ix', iv),)
                tid = self.tyk(tid).get('e')
            elif pe[0] == 'ci':
                path = path + (('ci', pe[1], pe[2]),)
                tid = self.tyk(tid).get('e')
            elif pe[0] == 'ss':
                path = path + (('ss', pe[1], pe[2], pe[3]),)
            elif pe[0] == 'oc':
                tid = pe[1]
        if variant is not None and root is not None:
            pass
        return root, path, tid

    def operand(self, st, fr, o):
        if o[0] in ('c', 'm'):
            p = o[1]
            root, path, tid = self.place(st, fr, p)
            v = self.read(st, root, path)
            if tid is not None and self.tyk(tid)['k'] == 'uint' and not is_const(v):
                if v.op != 'lin': self.unsigned.add(v)
                cv = self.canon(st, v)
                if cv.op not in ('int', 'lin'): self.unsigned.add(cv)
            return v
        if o[0] == 'k':
            v = self.const(o[1])
            if v.op == 'ref' and v.a[0].op == 'cst':
                r = v.a[0]
                if r not in st.store:
                    st.store[r] = r.a[0]
            return v
        return Bool(True)

    def op_tid(self, fr, o, st):
        if o[0] in ('c', 'm'):
            return self.place(st, fr, o[1])[2]
        if o[0] == 'k':
            return o[1]['t']
        return None

    # ---------- rvalues ----------
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            root, path, tid = self.place(st, fr, r[1])
            return Ref(root, path)
        if k == 'agg':
            fs = [self.operand(st, fr, o) for o in r[3]]
            if r[1] == 'array': return Adt('array', 0, *fs)
            if r[1] == 'tuple': return Tuple(*fs)
            if r[1] == 'adt':
                if r[5] is not None: return fs[0]
                return Adt(r[2], r[4], *fs)
            if r[1] == 'closure': return Adt(r[2], 0, *fs)
            if r[1] == 'rawptr': return fs[0]
            return App('agg', *fs)
        if k in ('bin', 'cbin'):
            a, b = self.canon(st, self.operand(st, fr, r[2])), self.canon(st, self.operand(st, fr, r[3]))
            v = self.binop(r[1], a, b)
            return Tuple(v, FALSE) if k == 'cbin' else v
        if k == 'un':
            a = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                tid = self.op_tid(fr, r[2], st)
                if tid is not None and self.tyk(tid)['k'] != 'bool':
                    return App('bitnot', a)
                return Not(self.canon(st, a))
            if r[1] == 'Neg': return scale(self.canon(st, a), -1)
            if r[1] == 'PtrMetadata': return self.length(st, a)
            return App('un:' + r[1], a)
        if k == 'cast':
            return self.cast(st, fr, r)
        if k == 'discr':
            root, path, tid = self.place(st, fr, r[1])
            v = self.read(st, root, path)
            if v.op != 'adt': v = self.canon(st, v)
            if v.op == 'adt':
                return self.discr_term(v)
            d = mk('discr', v)
            t = self.tyk(tid) if tid is not None else {}
            if t.get('k') == 'adt' and t.get('vs'):
                self.discr_dom[d] = [x['d'] for x in t['vs']]
            return d
        if k == 'len':
            root, path, tid = self.place(st, fr, r[1])
            return self.length(st, Ref(root, path))
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            return Adt('array', 0, *([v] * r[2])) if r[2] is not None and r[2] <= 16 else App('repeat', v, Int(r[2] or 0))
        if k == 'tls':
            return mk('static', r[1])
        return App('rv:' + k)

    def length(self, st, v):
        c = self.canon(st, v)
        if c.op == 'list': return Int(len(c.a))
        if c.op == 'adt' and c.a[0] == 'array': return Int(len(c.a) - 2)
        if c.op in ('str',): return Int(len(c.a[0].encode()))
        if c.op == 'bytes': return Int(len(c.a[0]))
        if c.op == 'app' and c.a[0] in ('emptyset', 'emptymap'): return Int(0)
        if c.op == 'app' and c.a[0] == 'rawslice': return c.a[2]
        if c.op == 'app' and c.a[0] == 'withnul': return add(self.length(st, c.a[1]), Int(1))
        if self.bytes_in_use and (c.op == 'fmt' or c.op == 'app' and c.a[0] == 'cast:char'):
            # a text made of input bytes, each encoded in one or two bytes
            n = Int(0)
            for p in (c.a if c.op == 'fmt' else (c,)):
                q = p.a[0] if p.op == 'disp' else p
                if q.op == 'str': n = add(n, Int(len(q.a[0].encode())))
                elif q.op == 'app' and q.a[0] == 'cast:char' and q.a[1].op == 'byte':
                    d = self.bytedom(st, q.a[1])
                    if max(d) < 128: n = add(n, Int(1))
                    elif min(d) >= 128: n = add(n, Int(2))
                    else:
                        l = App('len', q)
                        self.unsigned.add(l)
                        if l not in st.bnd: st.bnd[l] = (1, 2)
                        n = add(n, l)
                else:
                    n = None
                    break
            if n is not None: return n
        t = App('len', c)
        self.unsigned.add(t)
        if c.op == 'app' and c.a[0] == 'mut:insert' and t not in st.bnd: st.bnd[t] = (1, None)
        return t

    def binop(self, op, a, b):
        op = op.replace('Unchecked', '')
        if op == 'Add': return add(a, b)
        if op == 'Sub': return add(a, b, -1)
        if op == 'Eq': return Eq(a, b)
        if op == 'Ne': return Not(Eq(a, b))
        if op in ('Lt', 'Gt', 'Le', 'Ge'):
            a, b = [Int(x.a[0]) if x.op == 'char' else x for x in (a, b)]
            if op == 'Lt': return Lt(a, b)
            if op == 'Gt': return Lt(b, a)
            if op == 'Le': return Not(Lt(b, a))
            return Not(Lt(a, b))
        if a.op == 'int' and b.op == 'int':
            x, y = a.a[0], b.a[0]
            if op == 'Mul': return Int(x * y)
            if op == 'Div' and y: return Int(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
            if op == 'Rem' and y: return Int((abs(x) % abs(y)) * (1 if x >= 0 else -1))
            if op == 'BitAnd': return Int(x & y)
            if op == 'BitOr': return Int(x | y)
            if op == 'BitXor': return Int(x ^ y)
            if op == 'Shl': return Int(x << y)
            if op == 'Shr': return Int(x >> y)
        if op == 'Mul':
            if a.op == 'int': return scale(b, a.a[0])
            if b.op == 'int': return scale(a, b.a[0])
        BOOLISH = ('bool', 'not', 'eq', 'lt0', 'eq0', 'and', 'or')
        if op == 'BitAnd' and (a.op in BOOLISH or b.op in BOOLISH):
            if a is FALSE or b is FALSE: return FALSE
            if a is TRUE: return b
            if b is TRUE: return a
            return mk('and', a, b)
        if op == 'BitOr' and (a.op in BOOLISH or b.op in BOOLISH):
            if a is TRUE or b is TRUE: return TRUE
            if a is FALSE: return b
            if b is FALSE: return a
            return mk('or', a, b)
        return App('bin:' + op, a, b)

    INTB = {'I8': (8, 1), 'I16': (16, 1), 'I32': (32, 1), 'I64': (64, 1), 'I128': (128, 1), 'Isize': (64, 1),
            'U8': (8, 0), 'U16': (16, 0), 'U32': (32, 0), 'U64': (64, 0), 'U128': (128, 0), 'Usize': (64, 0)}

    def cast(self, st, fr, r):
        kind, tid = r[1], r[3]
        v = self.operand(st, fr, r[2])
        t = self.tyk(tid)
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Transmute', 'BoxDerefTransmute', 'FnPtrToPtr', 'Subtype') or 'PointerExpose' in kind or 'PointerWith' in kind:
            return v
        if kind == 'IntToInt':
            c = self.canon(st, v)
            src = self.op_tid(fr, r[2], st)
            sk = self.tyk(src) if src is not None else {'k': '?'}
            if t['k'] in ('int', 'uint'):
                bits, sg = self.INTB[t['n']]
                if c.op in ('int', 'bool', 'char'):
                    x = int(c.a[0]) & ((1 << bits) - 1)
                    if sg and x >> (bits - 1): x -= 1 << bits
                    return Int(x)
                if sk['k'] in ('int', 'uint'):
                    sb, ss = self.INTB[sk['n']]
                    if (sb < bits and (ss <= sg)) or (sb == bits and ss == sg):
                        return c
                return App('cast:' + t['n'].lower(), c)
            if t['k'] == 'char':
                if c.op == 'int': return Char(c.a[0])
                return App('cast:char', c)
            return c
        return App('cast:' + kind, v)

    # ---------- execution ----------
    def run(self, fn, args, st=None):
        """explore all abstract paths of fn; args: list of terms. Returns outcomes"""
        self.steps = 0
        st = st or St.new()
        return self.exec_fn(st, fn, args)

    def exec_fn(self, st, fn, args):
        if len(self.fnstack) > self.max_depth:
            raise Budget('depth at ' + fn['path'])
        self.visited_fns.add(fn['path'])
        loops = loops_of(fn)
        self.fid += 1
        fr = Frame(self.fid, fn, loops)
        self.fnstack.append(fn['key'])
        try:
            n = fn['argc']
            if fn['spread'] is not None and len(args) < n:
                tup = args[-1]
                args = args[:-1] + ([tup.a[2 + i] for i in range(n - len(args) + 1)] if tup.op == 'adt' else [Fld(tup, str(i)) for i in range(n - len(args) + 1)])
            for i, a in enumerate(args[:n]):
                st.store[mk('loc', fr.id, i + 1)] = a
            outs = []
            work = [(st, 0, {})]
            while work:
                s, b, lc = work.pop()
                while True:
                    self.steps += 1
                    if self.steps > self.max_steps:
                        raise Budget('steps in ' + fn['path'])
                    # loop bookkeeping
                    if loops:
                        r = self.enter_block(s, fr, b, lc)
                        if r is None:
                            break
                        lc = r
                    blk = fn['blocks'][b]
                    site = self.site(fr, blk['l'], blk.get('lf'))
                    for x in blk['s']:
                        if x[0] == '=':
                            v = self.rvalue(s, fr, x[2])
                            root, path, _ = self.place(s, fr, x[1])
                            self.write(s, root, path, v, self.site(fr, x[3], None))
                        elif x[0] == 'sd':
                            root, path, tid = self.place(s, fr, x[1])
                            self.write(s, root, path, Adt(tid, x[2], *[self.fld(self.read(s, root, path), ('f', i, self.fname(tid, x[2], i), x[2], tid)) for i in range(self.nfields(tid, x[2]) or 0)]), site)
                    t = blk['t']
                    k = t[0]
                    if k == 'goto':
                        b = t[1]
                    elif k == 'drop':
                        if self.trace_drop:
                            root, path, _ = self.place(s, fr, t[1])
                            v = self.canon(s, self.read(s, root, path))
                            if any(x.op == 'app' and x.a[0] == 'from_raw' for x in subterms(v)): self.effect(s, 'drop', (v,), site)
                        b = t[2]
                    elif k == 'ret':
                        v = s.store.get(mk('loc', fr.id, 0), UNIT)
                        outs.append(Out(s, 'ret', v, site))
                        break
                    elif k == 'unreachable' or k in ('resume', 'abort', 'asm'):
                        break
                    elif k == 'assert':
                        c = self.canon(s, self.operand(s, fr, t[1]))
                        if c.op in ('bool',):
                            if c.a[0] == t[2]:
                                b = t[4]
                                continue
                            outs.append(Out(s, 'panic', Str('assert:' + t[3][0]), site))
                            break
                        d = self.decide(s, c)
                        if d is not None and d != t[2]:
                            outs.append(Out(s, 'panic', Str('assert:' + t[3][0]), site))
                            break
                        if d is None:
                            s.risks = s.risks + ((t[3][0], c if t[2] else Not(c), site),)
                            if not self.assume(s, c, t[2], record=False):
                                break
                        b = t[4]
                    elif k == 'switch':
                        nxt = self.switch(s, fr, t)
                        if not nxt:
                            break
                        for s2, b2 in nxt[1:]:
                            work.append((s2, b2, dict(lc)))
                        s, b = nxt[0]
                    elif k == 'call':
                        res = self.call(s, fr, t, site)
                        live = []
                        for o in res:
                            if o.kind == 'ret' and t[4] is not None:
                                root, path, _ = self.place(o.st, fr, t[3])
                                self.write(o.st, root, path, o.val, site)
                                live.append(o.st)
                            elif o.kind == 'ret':
                                outs.append(Out(o.st, 'panic', Str('diverges'), site))
                            else:
                                outs.append(Out(o.st, o.kind, o.val, o.site))
                        if not live:
                            break
                        for s2 in live[1:]:
                            work.append((s2, t[4], dict(lc)))
                        s, b = live[0], t[4]
                    else:
                        raise Imprecise('term ' + k)
            for o in outs:
                # drop this frame's locals (nothing may point to them after return)
                keep = self.escapes(o.val, fr.id) if o.kind == 'ret' else False
                if not keep:
                    for l in range(len(fn['locals'])):
                        o.st.store.pop(mk('loc', fr.id, l), None)
            return outs
        finally:
            self.fnstack.pop()

    def escapes(self, v, fid, seen=None):
        if not isinstance(v, T): return False
        if v.op == 'loc': return v.a[0] == fid
        if v.op in ('ref', 'adt', 'it', 'app', 'list', 'olist', 'fld', 'deref', 'elem'):
            return any(self.escapes(x, fid) for x in v.a if isinstance(x, T))
        return False

    def site(self, fr, line, lf):
        f = lf or fr.fn['span'].rsplit(':', 1)[0]
        f = f.split('/repo/')[-1]
        return '%s:%s' % (f, line)

    def enter_block(self, s, fr, b, lc):
        # leaving loops
        for h in [h for h in lc if b not in fr.loops[h]]:
            lc = dict(lc)
            del lc[h]
            s.gen = s.gen - {(fr.id, h)}
        if b in fr.loops:
            c, snap, neff = lc.get(b, (0, None, None))
            lc = dict(lc)
            if c == 0:
                lc[b] = (1, {**s.store, CONDS: len(s.conds)}, None)
            elif c == 1:
                if self.unroll and snap[CONDS] == len(s.conds) or self.concrete_loop(s, fr, b, snap):
                    lc[b] = (1, {**s.store, CONDS: len(s.conds)}, None)
                else:
                    self.widen_store(s, snap)
                    s.gen = s.gen | {(fr.id, b)}
                    lc[b] = (2, None, None)
            elif c == 2:
                lc[b] = (3, None, len(s.eff))
            else:
                return None
        for h, (c, snap, neff) in lc.items():
            if c == 3 and len(s.eff) > neff:
                return None
        return lc

    def concrete_loop(self, s, fr, h, snap):
        """the loop consumed one element of a source whose length is known"""
        import models
        for c in self.cells:
            # a finite input stream was advanced
            if s.store.get(c) is not snap.get(c): return True
        for l in range(len(fr.fn['locals'])):
            r = mk('loc', fr.id, l)
            o, n = snap.get(r), s.store.get(r)
            if o is not None and n is not None and o is not n and n.op == 'it' and o.op == 'it' and models.concrete(n, self, s):
                return True
            if o is not None and n is not None and o is not n and n.op == 'adt' and not isinstance(n.a[0], str):
                f = models.next_fn(self, n.a[0], True)
                if f is not None and self.fnstack.count(f['key']) < self.max_rec:
                    c = s.copy()
                    rs = self.exec_fn(c, f, [self.heap(c, n)])
                    if len(rs) == 1 and len(rs[0].st.conds) == len(s.conds): return True
            if o is not None and n is not None and o is not n and n.op == o.op == 'adt' and n.a[:2] == o.a[:2] and not isinstance(n.a[0], str):
                t = self.tyk(n.a[0])
                if t.get('name') == 'std::ops::Range' and n.a[2].op == 'int' and n.a[3].op == 'int':
                    return True
        return False

    def widen_term(self, st, old, new, memo):
        if new is old or new is None or old is None:
            return new
        if new.op == 'int' and old.op == 'int':
            k = (old, new)
            if k not in memo:
                g = self.fresh('loopvar')
                memo[k] = g
                if new.a[0] > old.a[0]: st.bnd[g] = (new.a[0], None)
                else: st.bnd[g] = (None, new.a[0])
            return memo[k]
        if new.op in ('int', 'lin', 'app', 'fld', 'sym', 'gen', 'elem') and old.op in ('int', 'lin', 'fld', 'app', 'sym', 'gen', 'elem') and (new.op in INTISH or old.op in INTISH):
            d = add(new, old, -1)
            if d.op == 'int':
                k = (old, new)
                if k not in memo:
                    # old + d, old + 2d, ...: new + |d| * (n - 1) with n the iteration number
                    kk = ('iter', 1)
                    if kk not in memo:
                        g = self.fresh('loopvar')
                        st.bnd[g] = (0, None)
                        memo[kk] = g
                    memo[k] = add(new, scale(memo[kk], d.a[0]))
                return memo[k]
            return new
        if new.op == 'bool' and old.op == 'bool':
            return new
        if new.op == 'adt' and old.op == 'adt' and new.a[:2] == old.a[:2] and len(new.a) == len(old.a):
            return Adt(new.a[0], new.a[1], *[self.widen_term(st, o, n, memo) for o, n in zip(old.a[2:], new.a[2:])])
        if new.op == 'it' and old.op == 'it' and new.a[0] == old.a[0] and len(new.a) == len(old.a):
            return mk('it', *[self.widen_term(st, o, n, memo) if isinstance(n, T) and isinstance(o, T) else n for o, n in zip(old.a, new.a)])
        if new.op == 'list' and old.op == 'list' and len(new.a) > len(old.a) and new.a[:len(old.a)] == old.a:
            return List(new.a, True)
        return new

    def widen_store(self, s, snap):
        memo = {}
        for r, old in snap.items():
            new = s.store.get(r)
            if new is None or new is old or r is CONDS:
                continue
            s.store[r] = self.widen_term(s, old, new, memo)
        for r, new in list(s.store.items()):
            # a field that was first written in the loop: before, it held what its place names
            if r not in snap and r.op == 'obj' and r.a[0].op in ('fld', 'sym'):
                s.store[r] = self.widen_named(s, r.a[0], new, memo)

    def widen_named(self, s, place, new, memo):
        if new.op == 'adt' and not isinstance(new.a[0], str) and self.tyk(new.a[0])['k'] == 'adt' and len(self.tyk(new.a[0]).get('vs', ())) == 1:
            fs = [self.widen_named(s, Fld(place, self.fname(new.a[0], new.a[1], i)), x, memo) for i, x in enumerate(new.a[2:])]
            return new if all(x is y for x, y in zip(fs, new.a[2:])) else Adt(new.a[0], new.a[1], *fs)
        return self.widen_term(s, place, new, memo)

    def switch(self, s, fr, t):
        v = self.canon(s, self.operand(s, fr, t[1]))
        targets, other = t[2], t[3]
        tid = t[4]
        tk = self.tyk(tid)
        signed = tk['k'] == 'int'
        def conv(x):
            if signed:
                bits = self.INTB[tk['n']][0]
                return x - (1 << bits) if x >> (bits - 1) else x
            return x
        if v.op in ('int', 'bool', 'char'):
            x = int(v.a[0])
            for val, b in targets:
                if conv(val) == x: return [(s, b)]
            return [(s, other)]
        out = []
        if tk['k'] == 'bool':
            tb = dict(targets)
            for s2, r in self.branch(s, v):
                out.append((s2, tb.get(1, other) if r else tb.get(0, other)))
            return out
        if (v.op == 'discr' or tk['k'] == 'char') and not (self.bytes_in_use and self.bytesym(v) is not None):
            f = s.facts.get(v)
            if f is not None:
                for val, b in targets:
                    if val == int(f.a[0]): return [(s, b)]
                return [(s, other)]
            ne = s.neq.get(v, frozenset())
            cst = Char if tk['k'] == 'char' else Int
            for val, b in targets:
                key = cst(val)
                if key in ne: continue
                s2 = s.copy()
                s2.facts[v] = key
                s2.conds = s2.conds + ((mk('eq', v, key), True),)
                out.append((s2, b))
            blk = fr.fn['blocks'][other]
            if not (blk['t'][0] == 'unreachable'):
                s.neq[v] = ne | frozenset(cst(x) for x, _ in targets)
                s.conds = s.conds + tuple((mk('eq', v, cst(x)), False) for x, _ in targets if cst(x) not in ne)
                # only one variant left?
                rest = self.left_variants(v, s.neq[v])
                if rest is not None and len(rest) == 1: s.facts[v] = Int(rest[0])
                if rest is None or rest: out.append((s, other))
            return out
        rest = s
        for val, b in targets:
            e = Eq(v, Char(val) if tk['k'] == 'char' else Int(conv(val)))
            nxt = None
            for s2, r in self.branch(rest, e):
                if r: out.append((s2, b))
                else: nxt = s2
            if nxt is None:
                return out
            rest = nxt
        out.append((rest, other))
        return out

    def left_variants(self, v, ne):
        ds = getattr(self, 'discr_dom', {}).get(v)
        if ds is None: return None
        return [d for d in ds if Int(d) not in ne]

    # ---------- calls ----------
    def call(self, st, fr, t, site):
        f, args = t[1], [self.operand(st, fr, a) for a in t[2]]
        self.sites += 1
        return self.invoke(st, f, args, site, t[5], fr)

    def invoke(self, st, f, args, site, dtid=None, fr=None):
        if f.get('kind') == 'indirect':
            fv = self.operand(st, fr, f['op'])
            return self.call_value(st, fv, args, site, dtid)
        decl, path = f.get('decl') or f['path'], f['path']
        C = Call(self, f, decl, site, dtid, fr)
        for n in (path, decl):
            h = self.opaque.get(n)
            if h is not None:
                r = h(self, st, args, C) if callable(h) else self.opaque_call(st, args, C, n)
                if r is not None:
                    return r
        for n in (decl, path):
            m = self.models.get(n)
            if m is not None:
                r = m(self, st, args, C)
                if r is not None:
                    return r
        # closures through Fn* traits
        if decl.startswith('std::ops::Fn') and decl.rsplit('::', 1)[1] in ('call', 'call_mut', 'call_once'):
            tup = args[1]
            a = list(tup.a[2:]) if tup.op == 'adt' else None
            if a is not None:
                return self.call_value(st, args[0], a, site, dtid)
        if f.get('body') and f['key'] in self.u.fns:
            fn = self.u.fns[f['key']]
            if self.fnstack.count(f['key']) >= self.max_rec:
                return self.opaque_call(st, args, C, 'rec:' + path)
            if fn['path'].find('{closure') >= 0 and len(args) == 2 and args[1].op == 'adt' and args[1].a[0] == 'tuple' and fn['argc'] != 2:
                args = [args[0]] + list(args[1].a[2:])
            return self.exec_fn(st, fn, args)
        if path == 'koopa::opt::ModulePass::run_on' or f.get('kind', '').startswith('Virtual'):
            return self.opaque_call(st, args, C, decl)
        self.unknown[decl] = self.unknown.get(decl, 0) + 1
        return self.opaque_call(st, args, C, decl)

    def call_value(self, st, fv, args, site, dtid=None):
        v = fv
        for _ in range(6):
            if v.op == 'ref':
                nv = self.read(st, v.a[0], v.a[1])
                if nv.op in ('fn', 'adt', 'ref', 'fnk'):
                    env, v = v, nv
                    if v.op != 'ref': break
                    continue
            break
        if v.op == 'fnk':
            fn = self.u.fns.get(v.a[0])
            if fn: return self.exec_fn(st, fn, args)
        if v.op == 'fn' or (v.op == 'adt' and not isinstance(v.a[0], str) and self.tyk(v.a[0])['k'] == 'closure'):
            tid = v.a[0]
            t = self.tyk(tid)
            if t['k'] == 'fndef':
                return self.invoke(st, t['callee'], args, site, dtid)
            cal = t.get('callee')
            if cal and cal['key'] in self.u.fns:
                fn = self.u.fns[cal['key']]
                if self.fnstack.count(cal['key']) >= self.max_rec:
                    raise Imprecise('recursive closure')
                et = self.tyk(fn['locals'][1])
                env = v
                if et['k'] == 'ref':
                    if fv.op == 'ref':
                        # pointer to the closure value itself
                        p = fv
                        while self.read(st, p.a[0], p.a[1]).op == 'ref':
                            p = self.read(st, p.a[0], p.a[1])
                        env = p
                    else:
                        env = self.heap(st, v)
                return self.exec_fn(st, fn, [env] + list(args))
        # unknown function value
        r = App('apply', self.canon(st, fv), *[self.canon(st, a) for a in args])
        self.effect(st, 'apply', (self.canon(st, fv),) + tuple(self.canon(st, a) for a in args), site)
        for a in args:
            self.havoc(st, a, 'apply')
        return [Out(st, 'ret', r)]

    def havoc(self, st, a, name):
        if a.op == 'ref' and a.a[0].op in ('loc', 'heap', 'obj'):
            old = self.read(st, a.a[0], a.a[1])
            if old.op in ('fn', 'it'):
                return
            self.write(st, a.a[0], a.a[1], App('mut:' + name, self.canon(st, old)), effect=False)

    def opaque_call(self, st, args, C, name):
        """uninterpreted call: pure when it gets no &mut, otherwise an effect"""
        tids = C.arg_tids()
        ca = []
        muts = []
        for i, a in enumerate(args):
            m = tids and i < len(tids) and tids[i] is not None and self.tyk(tids[i])['k'] in ('ref', 'ptr') and self.tyk(tids[i]).get('m')
            if m:
                root, path = self.to_place(a)
                ca.append(self.pterm(st, root, path) if root.op == 'obj' else self.canon(st, a))
                muts.append(a)
            else:
                ca.append(self.canon(st, a))
        r = App(name, *ca)
        if muts or name.startswith('rec:') or C.f.get('kind', '').startswith('Virtual'):
            self.effect(st, name, ca, C.site)
            st.n += 1
            r = App(name, *(ca + [Int(st.n)]))
            for a in muts:
                if a.op != 'ref':
                    a = mk('ref', mk('obj', a), ())
                self.havoc(st, a, name)
        return self.result_fork(st, r, C)

    def result_fork(self, st, r, C):
        t = self.tyk(C.dtid) if C.dtid is not None else None
        if t and t['k'] == 'uint': self.unsigned.add(r)
        if t and t['k'] == 'adt' and t['name'] == 'std::result::Result':
            ok = t['vs'][0]['fs'][0][1]
            okt = self.tyk(ok)
            okv = UNIT if okt['k'] == 'tuple' and not okt['fs'] else App('ok', r)
            if self.assume_ok:
                return [Out(st, 'ret', Adt(C.dtid, 0, okv))]
            s2 = st.copy()
            c = App('failed', r)
            st.conds = st.conds + ((c, False),)
            s2.conds = s2.conds + ((c, True),)
            return [Out(st, 'ret', Adt(C.dtid, 0, okv)), Out(s2, 'ret', Adt(C.dtid, 1, App('err', r)))]
        return [Out(st, 'ret', r)]


class Frame:
    __slots__ = ('id', 'fn', 'loops')
    def __init__(self, i, fn, loops):
        self.id, self.fn, self.loops = i, fn, loops


class Call:
    __slots__ = ('e', 'f', 'decl', 'site', 'dtid', 'fr', 'wtid')
    def __init__(self, e, f, decl, site, dtid, fr):
        self.e, self.f, self.decl, self.site, self.dtid, self.fr = e, f, decl, site, dtid, fr

    def fn(self): return self.e.u.fns.get(self.f.get('key'))
    def has_body(self): return bool(self.f.get('body')) and self.f.get('key') in self.e.u.fns
    def crate(self): return self.f.get('crate')

    @property
    def targs(self): return self.f.get('targs', [])

    def targ(self, i=0):
        a = self.targs
        return self.e.tyk(a[i]) if i < len(a) else None

    def arg_tids(self):
        k = self.f.get('key')
        fn = self.e.u.fns.get(k)
        if fn: return fn['locals'][1:1 + fn['argc']]
        return self.f.get('_atids')
