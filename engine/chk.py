"""Shared machinery of the checks: reporting, evidence, the IR vocabulary and seeded worlds."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import facts
from terms import *
from absint import Univ, Eng, St, Out, Eff, Budget, Imprecise
import models


class Check:
    """collects obligations; each has a rule, a construct (no line numbers) and a verdict"""

    def __init__(self, pid, explanation, rules, assumptions=()):
        self.pid, self.explanation, self.rules, self.assumptions = pid, explanation, rules, list(assumptions)
        self.t0 = time.time()
        self.obl = []          # (rule, construct, ok, detail, site)
        self.fns, self.paths, self.sites = set(), 0, 0
        self.samples = []
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.notes = []

    def ob(self, rule, construct, ok, detail='', site=None):
        self.obl.append((rule, construct, bool(ok), detail, site))
        return ok

    def floor(self, what, n, least):
        self.ob('floor', what, n >= least, 'found %d, at least %d confirmed by hand' % (n, least))

    def ran(self, e, outs):
        self.fns |= e.visited_fns
        self.paths += len(outs)
        self.sites += e.sites

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def finish(self):
        known = {}
        kf = os.path.join(HERE, 'known_findings.json')
        if os.path.exists(kf):
            for x in json.load(open(kf)):
                if x.get('status') == 'known' and x['property'] == self.pid:
                    known[x['key']] = x
        bad, seen = {}, set()
        for r, c, ok, d, s in self.obl:
            if not ok:
                bad.setdefault(r + '|' + c, (r, c, d, s))
        viol = []
        for k, (r, c, d, s) in bad.items():
            s = entry_site(s)
            if k in known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k]['what']))
            else:
                viol.append((k, r, c, d, s))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        rp = os.path.join(HERE, 'evidence', self.pid + '.violation.txt')
        if os.path.exists(rp):
            os.remove(rp)
        if viol:
            with open(rp, 'w') as f:
                for k, r, c, d, s in viol:
                    f.write('property %s\nrule      %s: %s\nconstruct %s\nat        %s\n%s\n\n' % (self.pid, r, self.rules.get(r, r), c, s or '-', d))
            for k, r, c, d, s in viol[:20]:
                print('[%s] %s: %s%s' % (r, c, d.strip().splitlines()[0] if d.strip() else '', ' (%s)' % s if s else ''))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
        by = {}
        for r, c, ok, d, s in self.obl:
            a = by.setdefault(r, [0, 0])
            a[0] += 1
            a[1] += ok
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed, 'level': 'other',
              'coverage': {'explanation': self.explanation, 'obligations': len(self.obl), 'discharged': sum(o[2] for o in self.obl),
                           'functions_analysed': len(self.fns), 'abstract_paths': self.paths, 'call_sites_followed': self.sites,
                           'rules': {r: {'text': self.rules.get(r, ''), 'instances': a[0], 'satisfied': a[1]} for r, a in sorted(by.items())},
                           'samples': self.samples, 'functions': sorted(f for f in self.fns if f.startswith('koopa') or 'koopa' in f)[:80],
                           'notes': self.notes, 'source_key': facts.source_key()},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(viol)}
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d functions, %d abstract paths, %.1fs' % (
            self.pid, len(self.obl), sum(o[2] for o in self.obl), len(self.fns), self.paths, time.time() - self.t0))
        return 1 if viol else 0


_U = {}


def thresholds(u, *mods, lo=3, hi=70):
    """integer constants (other than 0..lo) that code of the given modules compares or computes with: list lengths around them are analysed too"""
    ints = {i for i, t in enumerate(u.types) if t and t['s'] in ('usize', 'isize', 'u32', 'i32', 'u64', 'i64', 'u8', 'i8', 'u16', 'i16')}
    found = set()

    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 'k' and isinstance(x[1], dict):
                v = x[1].get('v')
                if isinstance(v, dict) and 'i' in v: found.add(v['i'])
                return
            for y in x: walk(y)
        elif isinstance(x, dict):
            for y in x.values(): walk(y)
    for f in u.fns.values():
        if f.get('crate') not in ('koopa', 'libkoopa') or f.get('derived') or not any(m in f['path'] for m in mods): continue
        if f['path'].endswith('::fmt'): continue
        for b in f.get('blocks') or []:
            for s in b['s']: walk(s)
            t = b['t']
            if t[0] == 'call': walk(t[2])
            elif t[0] == 'switch' and t[4] in ints and u.types[t[4]]['s'] != 'isize': found |= {v for v, _ in t[2] if isinstance(v, int)}
    return sorted(c for c in found if isinstance(c, int) and lo < c <= hi)


def lens(u, base, *mods):
    """list lengths to analyse: the given ones, and those around every constant of the code"""
    r = set(base)
    for c in thresholds(u, *(mods or ('koopa::ir::',))): r |= {c - 1, c, c + 1}
    return sorted(r)


def parallel(c, jobs, f, procs=None):
    """run f(sub-check, job) for every job in forked workers and merge what they found"""
    import multiprocessing as mp
    jobs = list(jobs)
    n = procs or min(8, os.cpu_count() or 1)
    if n <= 1 or len(jobs) < 4:
        for j in jobs: f(c, j)
        return
    global _work
    def _work(k):
        d = Check(c.pid, '', c.rules)
        for j in jobs[k::n * 4]: f(d, j)
        return d.obl, d.fns, d.paths, d.sites, d.samples
    with mp.get_context('fork').Pool(n) as pool:
        for obl, fns, paths, sites, samples in pool.imap(_run, range(n * 4)):
            c.obl += obl
            c.fns |= fns
            c.paths += paths
            c.sites += sites
            for x in samples: c.sample(x)


def _run(k): return _work(k)


def entry_site(s):
    """a verdict on the result of an entry point is reported at the function of the repository it calls"""
    if not s or not s.startswith('src/lib.rs:'): return s
    for u in _U.values():
        tab = getattr(u, '_entry_sites', None)
        if tab is None:
            tab = u._entry_sites = {}
            for f in u.fns.values():
                if f.get('crate') != 'roots': continue
                for b in f.get('blocks') or []:
                    t = b['t']
                    g = u.fns.get(t[1].get('key')) if t[0] == 'call' and isinstance(t[1], dict) else None
                    if g and g.get('crate') != 'roots' and g['span'].startswith('/repo'[:1]) and 'rustlib' not in g['span']:
                        tab['src/lib.rs:%s' % b['l']] = '%s in %s' % (g['span'].split('/repo/')[-1], g['path'])
        if s in tab: return tab[s]
    return s


def univ(which='roots'):
    if which not in _U:
        _U[which] = Univ(facts.build(which))
        terms_reset(_U[which])
    return _U[which]


def terms_reset(u):
    import terms
    terms.TYNAME = u.tyname


def pure_ret(f):
    def h(e, st, args, C):
        return [Out(st, 'ret', f(e, st, args, C))]
    return h


def uses_hook(name):
    return pure_ret(lambda e, st, args, C: models.seq(App(name, e.canon(st, args[0]))))


# Type::get interns: as a value a type *is* its kind (decided on its own by K07)
TYPE_GET = {'koopa::ir::Type::get': pure_ret(lambda e, st, args, C: e.canon(st, args[0]))}

KINDS = ('Integer', 'ZeroInit', 'Undef', 'Aggregate', 'FuncArgRef', 'BlockArgRef', 'Alloc', 'GlobalAlloc', 'Load', 'Store', 'GetPtr', 'GetElemPtr',
         'Binary', 'Branch', 'Jump', 'Call', 'Return')
# operands by public accessor; '*' marks a list, '?' an option
FIELDS = {'Integer': ['value'], 'ZeroInit': [], 'Undef': [], 'Aggregate': ['elems*'], 'FuncArgRef': ['index'], 'BlockArgRef': ['index'], 'Alloc': [],
          'GlobalAlloc': ['init'], 'Load': ['src'], 'Store': ['value', 'dest'], 'GetPtr': ['src', 'index'], 'GetElemPtr': ['src', 'index'],
          'Binary': ['op', 'lhs', 'rhs'], 'Branch': ['cond', 'true_bb', 'false_bb', 'true_args*', 'false_args*'], 'Jump': ['target', 'args*'],
          'Call': ['callee', 'args*'], 'Return': ['value?']}


class IR:
    """names of the IR data structures, resolved through types and public accessors (never through private names)"""

    def __init__(self, u):
        self.u = u
        self.e = Eng(u)
        self._acc = {}

    def tid(self, name):
        l = [i for i, t in enumerate(self.u.types) if t and t['k'] == 'adt' and t['name'] == name]
        if not l:
            l = [i for i, t in enumerate(self.u.types) if t and t['k'] == 'adt' and t['name'].endswith('::' + name.split('::')[-1]) and t['name'].startswith('koopa')]
        if not l:
            raise KeyError('type %s not found' % name)
        return l[0]

    def variants(self, name):
        return [v['n'] for v in self.u.types[self.tid(name)]['vs']]

    def fn(self, root):
        f = self.u.fn('roots::' + root) or self.u.fn('koopa::roots::' + root)
        if f is None:
            raise KeyError('entry point roots::%s not found' % root)
        return f

    def path(self, root):
        """field path read by accessor root (as names)"""
        if root not in self._acc:
            outs = self.e.run(self.fn(root), [Sym('x')])
            r = [o for o in outs if o.kind == 'ret']
            if len(outs) != 1 or not r:
                raise KeyError('accessor %s is not a plain read' % root)
            t = self.e.canon(r[0].st, r[0].val)
            p = []
            while t.op == 'fld':
                p.append(t.a[1])
                t = t.a[0]
            if t is not Sym('x'):
                raise KeyError('accessor %s reads %s' % (root, show(t)))
            self._acc[root] = tuple(reversed(p))
        return self._acc[root]

    def at(self, base, *roots):
        for r in roots:
            for n in self.path(r):
                base = Fld(base, n)
        return base

    def struct(self, name, fields, default=None):
        """construct a struct term from {field name: term}"""
        tid = self.tid(name)
        fs = self.u.types[tid]['vs'][0]['fs']
        out = []
        for n, t in fs:
            if n in fields:
                out.append(fields[n])
            elif default is not None:
                out.append(Fld(default, n))
            else:
                raise KeyError('%s.%s unset' % (name, n))
        extra = set(fields) - {n for n, _ in fs}
        if extra:
            raise KeyError('%s has no field %s' % (name, extra))
        return Adt(tid, 0, *out)

    def variant(self, enum, v, *fs):
        tid = self.tid(enum)
        return Adt(tid, self.variants(enum).index(v), *fs)

    def option(self, like_tid, v):
        return Adt(like_tid, 0) if v is None else Adt(like_tid, 1, v)

    def kind(self, k, **ops):
        """ValueKind term of variant k with operands given by public accessor name"""
        vk = self.tid('koopa::ir::ValueKind')
        vi = self.variants('koopa::ir::ValueKind').index(k)
        inner = self.u.types[vk]['vs'][vi]['fs'][0][1]
        it = self.u.types[inner]
        fs = {}
        for n, v in ops.items():
            p = self.path('acc::%s_%s' % (k.lower(), n))
            if len(p) != 1:
                raise KeyError('%s.%s is not a field' % (k, n))
            if isinstance(v, (list, tuple)):
                v = List(v)
            fs[p[0]] = v
        out = []
        for n, t in it['vs'][0]['fs']:
            v = fs.get(n)
            if v is None:
                v = Sym('?%s.%s' % (k, n))
            if isinstance(v, tuple) or v == 'none':
                pass
            out.append(v)
        return Adt(vk, vi, Adt(inner, 0, *out))

    def kind_field_tid(self, k, n):
        vk = self.tid('koopa::ir::ValueKind')
        vi = self.variants('koopa::ir::ValueKind').index(k)
        inner = self.u.types[vk]['vs'][vi]['fs'][0][1]
        p = self.path('acc::%s_%s' % (k.lower(), n))[0]
        return [t for f, t in self.u.types[inner]['vs'][0]['fs'] if f == p][0]

    def kind_get(self, kt, k, n):
        """operand n of a ValueKind term"""
        p = self.path('acc::%s_%s' % (k.lower(), n))[0]
        inner = kt.a[2]
        fs = [f for f, _ in self.u.types[inner.a[0]]['vs'][0]['fs']]
        return inner.a[2 + fs.index(p)]

    def tystr(self, tid, d=0):
        t = self.u.types[tid] if tid is not None else None
        if t is None or d > 8: return '?'
        k = t['k']
        if k == 'adt':
            return t['name'] + ('<%s>' % ', '.join(self.tystr(x, d + 1) for x in t['args']) if t.get('args') else '')
        if k in ('ref', 'ptr'): return '&' + self.tystr(t['e'], d + 1)
        if k == 'tuple': return '(%s)' % ', '.join(self.tystr(x, d + 1) for x in t['fs'])
        return k

    def field_by_type(self, adt, *subs, no=()):
        """the one field of struct adt whose type mentions all of subs"""
        r = [n for n, t in self.u.types[self.tid(adt)]['vs'][0]['fs']
             if all(s in self.tystr(t) for s in subs) and not any(s in self.tystr(t) for s in no)]
        if len(r) != 1:
            raise KeyError('%s: fields of type %s: %s' % (adt, subs, r))
        return r[0]

    def fields(self, adt):
        return {n: self.tystr(t) for n, t in self.u.types[self.tid(adt)]['vs'][0]['fs']}

    # types
    def ty(self, k, *fs):
        return self.variant('koopa::ir::TypeKind', k, *fs)

    @property
    def I32(self): return self.ty('Int32')
    @property
    def UNIT(self): return self.ty('Unit')
    def ptr(self, t): return self.ty('Pointer', t)
    def arr(self, t, n): return self.ty('Array', t, Int(n) if isinstance(n, int) else n)
    def func(self, ps, r): return self.ty('Function', List(ps), r)

    def vdata(self, ty, kind, used_by=None, name=None, base=None):
        f = {self.path('data::ty')[0]: ty, self.path('data::kind')[0]: kind}
        if used_by is not None: f[self.path('data::used_by')[0]] = used_by
        if name is not None: f[self.path('data::name')[0]] = name
        return self.struct('koopa::ir::entities::ValueData', f, base or Sym('vd'))

    def vget(self, vd, what):
        """field of a ValueData term by accessor (ty, kind, name, used_by)"""
        n = self.path('data::' + what)[0]
        if vd.op != 'adt':
            return Fld(vd, n)
        fs = [f for f, _ in self.u.types[vd.a[0]]['vs'][0]['fs']]
        return vd.a[2 + fs.index(n)]


def assume(e, st, atom, val=True):
    if not e.assume(st, atom, val, record=False):
        raise KeyError('inconsistent seed %s' % show(atom))


def distinct(e, st, v, others):
    """the seeded handles are different entities"""
    for o in others:
        if o is not v: assume(e, st, Eq(v, o), False)


def has(m, k): return App('has', m, k)
def slot(m, k): return App('slot', m, k)


def put(st, ptr, content):
    st.store[mk('obj', ptr)] = content


def keyed(e, st, m, keys, only=True):
    """map m holds exactly these keys, iterated in this order"""
    assume(e, st, Eq(App('len', m), Int(len(keys))))
    for i, k in enumerate(keys):
        put(st, App('key', m, Int(i)), k)
        assume(e, st, has(m, k))
        distinct(e, st, k, keys[:i])


def net(effs, table):
    """net removals/insertions on a map or set: {key: 'in'|'out'}"""
    r = {}
    for x in effs:
        if x.args and x.args[0] is table:
            if x.name in ('insert', 'push'): r[x.args[1]] = 'in'
            elif x.name in ('remove', 'remove_entry', 'take'): r[x.args[1]] = 'out'
            else: r[Sym('!' + x.name)] = 'other'
    return r


def show_out(e, o, n=14):
    l = ['%s %s' % (o.kind, show(e.canon(o.st, o.val)))]
    l += ['  when %s%s' % ('' if v else 'not ', show(c)) for c, v in o.st.conds[:n]]
    l += ['  effect %r at %s' % (f, f.site) for f in o.st.eff[:n]]
    return '\n'.join(l)


def main(run):
    """entry of a check script: exit 0/1, fail closed on analysis failures"""
    try:
        c = run()
    except facts.FactsError as x:
        print('cannot analyse the tree: %s' % x)
        sys.exit(2)
    sys.exit(c.finish())


def guarded(check, rule, construct, f):
    """run f; an analysis failure is an undecided obligation, reported as a violation"""
    try:
        return f()
    except Exception as x:
        tb = traceback.extract_tb(x.__traceback__)[-1]
        check.ob(rule, construct, False, 'could not be decided: %s: %s [%s:%s]' % (type(x).__name__, x, os.path.basename(tb.filename), tb.lineno))
        return None


class Local:
    """a function under construction: symbolic FunctionData whose tables hold the seeded entities"""

    def __init__(self, ir, e, st=None, base='d', attached=True):
        self.ir, self.e, self.st = ir, e, st or St.new()
        self.d = base if isinstance(base, T) else Sym(base)
        D = 'koopa::ir::dfg::DataFlowGraph'
        self.dfg = ir.at(self.d, 'data::func_dfg')
        self.values = ir.at(self.dfg, 'data::dfg_values')
        self.bbs = ir.at(self.dfg, 'data::dfg_bbs')
        self.globals = Fld(self.dfg, ir.field_by_type(D, 'Weak', 'ValueData'))
        self.func_tys = Fld(self.dfg, ir.field_by_type(D, 'Weak', 'ir::Type'))
        for w in (self.globals, self.func_tys):
            assume(e, self.st, App('alive', w), attached)
        self.known = {}

    def value(self, name, where, ty=None, kind=None, used_by=None):
        """where: local | global | missing"""
        v = Sym(name) if isinstance(name, str) else name
        e, st, ir = self.e, self.st, self.ir
        assume(e, st, has(self.globals, v), where == 'global')
        assume(e, st, has(self.values, v), where == 'local')
        distinct(e, st, v, self.known)
        if where != 'missing':
            m = self.globals if where == 'global' else self.values
            s = slot(m, v)
            ty = ty if ty is not None else Sym('ty_%s' % show(v))
            kind = kind if kind is not None else Sym('kind_%s' % show(v))
            put(st, s, ir.vdata(ty, kind, used_by if used_by is not None else Sym('users_%s' % show(v)), base=Sym('data_%s' % show(v))))
        self.known[v] = where
        return v

    _bs = None

    def block(self, name, params=(), present=True, used_by=None):
        b = Sym(name)
        e, st, ir = self.e, self.st, self.ir
        assume(e, st, has(self.bbs, b), present)
        self._bs = self._bs or {}
        distinct(e, st, b, self._bs)
        self._bs[b] = 1
        if present:
            n = ir.path('data::bb_params')[0]
            u = ir.path('data::bb_used_by')[0]
            put(st, slot(self.bbs, b), ir.struct('koopa::ir::entities::BasicBlockData',
                {n: params if isinstance(params, T) else List(params), u: used_by if used_by is not None else Sym('users_%s' % name)}, Sym('bb_%s' % name)))
        return b

    def func(self, name, ty, present=True):
        f = Sym(name)
        assume(self.e, self.st, has(self.func_tys, f), present)
        if present:
            put(self.st, slot(self.func_tys, f), ty)
        return f

    def users(self, v):
        """place of the use list of a value"""
        m = self.globals if self.known.get(v) == 'global' else self.values
        return Fld(slot(m, v), self.ir.path('data::used_by')[0])

    def bb_users(self, b):
        return Fld(slot(self.bbs, b), self.ir.path('data::bb_used_by')[0])


class Global:
    """a program: symbolic Program with seeded global values"""

    def __init__(self, ir, e, st=None, base='p'):
        self.ir, self.e, self.st = ir, e, st or St.new()
        P = 'koopa::ir::Program'
        self.p = Sym(base)
        self.values = Fld(self.p, ir.field_by_type(P, 'HashMap', 'ValueData', no=('FunctionData',)))
        self.funcs = ir.at(self.p, 'program::funcs')
        self.func_tys = Fld(self.p, ir.field_by_type(P, 'HashMap<koopa::ir::Function, koopa::ir::Type'))
        self.inst_layout = ir.at(self.p, 'program::inst_layout')
        self.func_layout = ir.at(self.p, 'program::func_layout')
        self.known = {}

    def value(self, name, present=True, ty=None, kind=None, used_by=None):
        v = Sym(name) if isinstance(name, str) else name
        e, st, ir = self.e, self.st, self.ir
        assume(e, st, has(self.values, v), present)
        distinct(e, st, v, self.known)
        self.known[v] = 1
        if present:
            put(st, slot(self.values, v), ir.vdata(ty if ty is not None else Sym('ty_' + name), kind if kind is not None else Sym('kind_' + name),
                used_by if used_by is not None else Sym('users_' + name), base=Sym('data_' + name)))
        return v

    def users(self, v):
        return Fld(slot(self.values, v), self.ir.path('data::used_by')[0])


def membership(effs, place, member):
    """net effect of the insert/remove effects on set `place` for `member`: 'in' | 'out' | None (untouched) | 'other'"""
    r = None
    for x in effs:
        if not x.args or x.args[0] is not place:
            continue
        if x.name in ('insert', 'push') and len(x.args) >= 2 and x.args[1] is member: r = 'in'
        elif x.name in ('remove', 'take') and len(x.args) >= 2 and x.args[1] is member: r = 'out'
        elif x.name in ('insert', 'remove'): pass
        else: r = 'other'
    return r


def set_touches(effs, suffix):
    """effects on any set stored in a field called suffix"""
    return [x for x in effs if x.args and x.args[0].op == 'fld' and x.args[0].a[1] == suffix]
