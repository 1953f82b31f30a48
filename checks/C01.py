"""C01: the C header describes exactly what the library exports."""
import json, os, re, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *
import facts

RULES = {'declared': 'every function the library exports is declared in the header', 'exported': 'every function declared in the header is exported by the library', 'convention': 'exported functions use the C calling convention and as many parameters as declared',
         'type': 'corresponding parameters, results and fields have the same type on every target', 'layout': 'corresponding structures have the same size, alignment and field offsets', 'fixed': 'the layout of every definition reachable from the interface is fixed by its representation attribute',
         'field': 'a field has the same name and place on both sides', 'constant': 'an enumeration constant has the same value on both sides, and both sides have the same constants', 'variant': 'each tag selects the union member that is its payload',
         'const': 'data written through a pointer is not declared constant', 'header': 'the header compiles as C and as C++ with the computed layout', 'floor': 'number of declarations compared'}
HEADER = 'libkoopa/include/koopa.h'
BUILTIN = {'void': ('void',), 'char': ('int', 'char', 1), 'signed char': ('int', 'i8', 1), 'unsigned char': ('int', 'u8', 1), 'short': ('int', 'i16', 2), 'unsigned short': ('int', 'u16', 2), 'int': ('int', 'i32', 4), 'unsigned int': ('int', 'u32', 4),
           'unsigned': ('int', 'u32', 4), 'long': ('int', 'long', 8), 'unsigned long': ('int', 'ulong', 8), 'long long': ('int', 'i64', 8), 'unsigned long long': ('int', 'u64', 8), '_Bool': ('int', 'bool', 1), 'bool': ('int', 'bool', 1)}
STD = {'size_t': ('int', 'usize', 8), 'uintptr_t': ('int', 'usize', 8), 'intptr_t': ('int', 'isize', 8), 'ptrdiff_t': ('int', 'isize', 8), 'ssize_t': ('int', 'isize', 8)}
for w in (8, 16, 32, 64): STD['int%d_t' % w], STD['uint%d_t' % w] = ('int', 'i%d' % w, w // 8), ('int', 'u%d' % w, w // 8)


class Header:
    """declarations of the header, from the syntax tree of clang"""
    def __init__(self, path):
        self.path = path
        self.dir = tempfile.mkdtemp(prefix='c01.')
        src = os.path.join(self.dir, 'h.c')
        open(src, 'w').write('#include "%s"\n' % path)
        p = subprocess.run(['clang', '-fsyntax-only', '-Xclang', '-ast-dump=json', src], capture_output=True, text=True)
        if p.returncode: raise Imprecise('the header does not compile: ' + p.stderr[:500])
        self.ids, self.typedefs, self.tags, self.funcs = {}, {}, {}, {}
        self.mine = []
        inside, line = False, None
        for n in json.loads(p.stdout)['inner']:
            l = n.get('loc', {})
            l = l.get('expansionLoc', l)
            if 'file' in l: inside = os.path.realpath(l['file']) == os.path.realpath(path)
            if 'line' in l: line = l['line']
            n['line'] = line
            self.index(n)
            k = n['kind']
            if k == 'TypedefDecl': self.typedefs[n['name']] = n
            elif k in ('RecordDecl', 'EnumDecl') and n.get('name') and (n.get('completeDefinition') or k == 'EnumDecl'): self.tags[n['name']] = n
            elif k == 'FunctionDecl' and inside: self.funcs[n['name']] = n
        self.memo = {}

    def index(self, n):
        if 'id' in n: self.ids[n['id']] = n
        for x in n.get('inner', ()):
            if isinstance(x, dict): self.index(x)

    def site(self, n): return '%s:%s' % (HEADER, n.get('line') or n.get('loc', {}).get('line') or '?')

    def parse(self, s, anon=None):
        """type of a C type text: ('void',) | ('int', name, size) | ('ptr', type, const) | ('rec', id) | ('enum', id)"""
        s = s.strip()
        if s.endswith('const') and s[:-5].rstrip().endswith('*'): s = s[:-5].rstrip()
        if s.endswith('*'):
            t = s[:-1].strip()
            const = bool(re.match(r'const\b', t)) and not t.endswith('*') or bool(re.search(r'\*\s*const$', t))
            return ('ptr', self.parse(t, anon), const)
        s = re.sub(r'\b(const|volatile)\b', '', s).strip()
        if '(' in s or '[' in s:
            if anon is not None: return ('rec' if anon['kind'] == 'RecordDecl' else 'enum', anon['id'])
            raise Imprecise('type ' + s)
        if s in STD: return STD[s]
        if s in BUILTIN: return BUILTIN[s]
        m = re.match(r'(struct|union|enum) (\w+)$', s)
        if m:
            n = self.tags.get(m.group(2))
            if n is None: raise Imprecise('incomplete type ' + s)
            return ('rec' if n['kind'] == 'RecordDecl' else 'enum', n['id'])
        if s in self.typedefs:
            n = self.typedefs[s]
            i = n['inner'][0]
            own = i.get('ownedTagDecl')
            if own:
                d = self.ids[own['id']]
                d = self.tags.get(d.get('name'), d) if d.get('name') else d
                return ('rec' if d['kind'] == 'RecordDecl' else 'enum', d['id'])
            return self.parse(n['type']['qualType'])
        raise Imprecise('type ' + s)

    def record(self, rid):
        """(is union, [(name, type, offset)], size, align)"""
        if rid in self.memo: return self.memo[rid]
        n = self.ids[rid]
        fs, off, al, anon = [], 0, 1, None
        union = n.get('tagUsed') == 'union'
        for x in n.get('inner', ()):
            if x['kind'] in ('RecordDecl', 'EnumDecl'): anon = x
            if x['kind'] == 'FieldDecl':
                if x.get('isBitfield'): raise Imprecise('bit field ' + x['name'])
                t = self.parse(x['type']['qualType'], anon)
                s, a = self.size(t)
                if not union: off = (off + a - 1) // a * a
                fs.append((x.get('name', ''), t, 0 if union else off))
                off = max(off, s) if union else off + s
                al = max(al, a)
        self.memo[rid] = (union, fs, (off + al - 1) // al * al, al)
        return self.memo[rid]

    def size(self, t):
        if t[0] == 'ptr': return 8, 8
        if t[0] == 'int': return t[2], t[2]
        if t[0] == 'enum': return 4, 4
        if t[0] == 'rec': return self.record(t[1])[2:]
        raise Imprecise('size of %s' % (t,))

    def constants(self, eid):
        out, v = [], -1
        def lit(n):
            if 'value' in n: return int(n['value'], 0)
            for y in n.get('inner', ()):
                r = lit(y)
                if r is not None: return r
        for x in self.ids[eid].get('inner', ()):
            if x['kind'] == 'EnumConstantDecl':
                e = next((lit(y) for y in x.get('inner', ()) if y['kind'] == 'ConstantExpr'), None)
                v = v + 1 if e is None else e
                out.append((x['name'], v))
        return out

    def name(self, t):
        if t[0] in ('rec', 'enum'): return self.ids[t[1]].get('name') or next((k for k, d in self.typedefs.items() if d['inner'][0].get('ownedTagDecl', {}).get('id') == t[1]), 'unnamed')
        return str(t)

    def witness(self):
        """the computed layout as assertions for the compilers"""
        out = ['#include <stddef.h>', '#include "%s"' % self.path, '#ifdef __cplusplus', '#define A(x) static_assert(x, #x)', '#else', '#define A(x) _Static_assert(x, #x)', '#endif']
        k = 0
        for name, d in self.typedefs.items():
            if not d.get('name', '').startswith('koopa'): continue
            try: t = self.parse(name)
            except Imprecise: continue
            if t == ('void',): continue
            s, a = self.size(t)
            out.append('A(sizeof(%s) == %d);' % (name, s))
            if t[0] == 'enum': out += ['A(%s == %d);' % c for c in self.constants(t[1])]
            if t[0] == 'rec':
                def walk(rid, path, base):
                    for n, ft, off in self.record(rid)[1]:
                        p = path + ('.' if path else '') + n
                        out.append('A(offsetof(%s, %s) == %d);' % (name, p, base + off))
                        if ft[0] == 'rec': walk(ft[1], p, base + off)
                walk(t[1], '', 0)
        src = os.path.join(self.dir, 'w.c')
        open(src, 'w').write('\n'.join(out) + '\n')
        res = []
        for cmd in (['clang', '-x', 'c'], ['clang', '-x', 'c++', '-Wno-invalid-offsetof'], ['gcc', '-x', 'c'], ['g++', '-x', 'c++', '-Wno-invalid-offsetof']):
            p = subprocess.run(cmd + ['-fsyntax-only', src], capture_output=True, text=True)
            res.append((' '.join(cmd[:3]), p.returncode == 0, p.stderr[:400]))
        return len(out), res


def norm(s): return re.sub(r'[^a-z0-9]', '', s.lower())


def run():
    c = Check('C01', 'The declarations of the C header (syntax tree of clang, layout confirmed by compile-time assertions with four compilers) are compared, starting from the functions, with the definitions the library is compiled from (types, representation attributes and layouts as computed by rustc): '
              'exported symbols, calling convention, parameters, results, and every structure, union, enumeration and constant reachable from them.', RULES,
              ['the C enumerations are represented as int-sized, as all supported compilers do', 'the Windows branch of the header is not analysed'])
    u = univ('libkoopa')
    h = Header(os.path.join(facts.REPO, HEADER))
    try: return compare(c, u, h)
    finally:
        import shutil
        shutil.rmtree(h.dir, ignore_errors=True)


def compare(c, u, h):
    exp = {f['key']: f for f in u.fns.values() if f.get('exported')}
    n = [0]

    def T(tid): return u.types[tid]

    def opaque(t):
        """a type whose contents are not part of the interface"""
        if t['k'] in ('tuple', 'other'): return True
        return t['k'] == 'adt' and not any(x in t.get('repr', '') for x in ('is_c: true', 'is_transparent: true', 'int: Some')) 

    def interface(t): return t['k'] == 'adt' and (t.get('span') or '').startswith('libkoopa')
    done = set()

    def ty(ct, tid, where, site, byval=True):
        t = T(tid)
        n[0] += 1
        def bad(why): c.ob('type', where, False, why, site)
        if t['k'] in ('ref', 'ptr'):
            if ct[0] != 'ptr': return bad('a pointer to %s in the library, %s in the header' % (T(t['e'])['s'], ct))
            c.ob('type', where, True, '', site)
            e = T(t['e'])
            if ct[1] == ('void',):
                ok = not (interface(e) and not opaque(e)) and e['k'] not in ('int', 'uint', 'ptr', 'ref') or 'c_void' in e.get('name', '')
                c.ob('type', where + ': pointee', ok, 'void * for a pointer to %s' % e['s'], site)
                return
            if 'c_void' in e.get('name', ''):
                c.ob('type', where + ': pointee', True, '', site)
                return
            c.ob('const', where, not (t.get('m') and ct[2]), 'the library writes through the pointer, which is declared as a pointer to constant data', site)
            return ty(ct[1], t['e'], where + ' pointee', site, False)
        if t['k'] in ('int', 'uint'):
            name = {'Isize': 'isize', 'Usize': 'usize'}.get(t['n'], t['n'].lower())
            if t['n'].startswith('I') and t['n'] != 'Isize' or t['n'].startswith('U') and t['n'] != 'Usize': name = t['n'].lower()
            got = ct[1] if ct[0] == 'int' else None
            ok = got is not None and (got == name or got == 'char' and name in ('i8', 'u8'))
            return c.ob('type', where, ok, '%s in the library, %s in the header' % (t['s'], got or h.name(ct)), site)
        if t['k'] == 'bool':
            return c.ob('type', where, ct[0] == 'int' and ct[1] == 'bool', 'bool in the library, %s in the header' % (ct,), site)
        if t['k'] == 'tuple' and not t['fs']:
            return c.ob('type', where, ct == ('void',), 'nothing in the library, %s in the header' % (ct,), site)
        if t['k'] == 'never': return c.ob('type', where, ct == ('void',), 'no result', site)
        if t['k'] != 'adt': return bad('%s in the library' % t['s'])
        if t.get('name', '').endswith('option::Option') and len(t['args']) == 1 and T(t['args'][0])['k'] in ('ref', 'fnptr') or t.get('name', '').endswith('NonNull'):
            return ty(ct, t['args'][0], where, site) if T(t['args'][0])['k'] != 'fnptr' else bad('function pointer')
        if not t.get('vs'): return bad('%s in the library, %s in the header' % (t['s'], h.name(ct)))
        c.ob('type', where, ct[0] in ('rec', 'enum'), '%s in the library, %s in the header' % (t['s'], ct), site)
        if ct[0] not in ('rec', 'enum'): return
        key = (ct[1], tid)
        if key in done: return
        done.add(key)
        adt(ct, t, t['s'].rsplit('::', 1)[-1].split('<')[0])

    def fixed(t, con, site):
        c.ob('fixed', con, not opaque(t), 'the representation of %s is left to the compiler' % t['s'], site)

    def zero(tid):
        t = T(tid)
        return t.get('name', '').endswith('PhantomData') or t['k'] == 'tuple' and not t['fs'] or (t.get('layout') or {}).get('size') == 0

    def adt(ct, t, con):
        site = t.get('span')
        fixed(t, con, site)
        lay = t['layout']
        if 'is_transparent: true' in t.get('repr', '') and t['ak'] == 'Struct':
            for f, ft in t['vs'][0]['fs']:
                if not zero(ft): ty(ct, ft, con + '.' + f, site)
            return
        s, a = h.size(ct)
        c.ob('layout', con + ': size', (lay['size'], lay['align']) == (s, a), 'size %d, alignment %d in the library; size %d, alignment %d in the header' % (lay['size'], lay['align'], s, a), site)
        if t['ak'] == 'Struct':
            if ct[0] != 'rec' or h.record(ct[1])[0]: return c.ob('type', con, False, 'a structure in the library, not in the header', site)
            cf = h.record(ct[1])[1]
            rf = [(f, ft, o) for (f, ft), o in zip(t['vs'][0]['fs'], lay['offsets']) if not zero(ft)]
            fields(con, cf, rf, site)
            return
        if t['ak'] == 'Union':
            return c.ob('type', con, False, 'a union in the library', site)
        payload = any(not zero(ft) for v in t['vs'] for _, ft in v['fs'])
        if not payload:
            if ct[0] != 'enum': return c.ob('type', con, False, 'an enumeration in the library, not in the header', site)
            return consts(con, h.constants(ct[1]), t, site)
        # tag and union
        if ct[0] != 'rec' or h.record(ct[1])[0]: return c.ob('type', con, False, 'a tagged union in the library, not in the header', site)
        fs = h.record(ct[1])[1]
        ok = len(fs) == 2 and fs[0][1][0] == 'enum' and fs[0][2] == 0 and fs[1][1][0] == 'rec' and h.record(fs[1][1][1])[0]
        c.ob('type', con + ': tag and union', ok, 'the header does not declare a tag followed by a union', site)
        if not ok: return
        c.ob('layout', con + ': tag', (lay.get('tag') or '').startswith('Direct') and 'length: I32' in lay['tag'], 'the tag is stored as %s' % lay.get('tag'), site)
        names = consts(con, h.constants(fs[0][1][1]), t, site)
        members = {norm(m[0]): m for m in h.record(fs[1][1][1])[1]}
        used = set()
        order = h.record(fs[1][1][1])[1]
        pay = [(i, v) for i, v in enumerate(t['vs']) if any(not zero(ft) for _, ft in v['fs'])]
        c.ob('variant', con + ': number of payloads', len(pay) == len(order), '%d variants with data, %d members of the union' % (len(pay), len(order)), site)
        for k, (i, v) in enumerate(pay):
            vn = norm(v['n'])
            m = members.get(vn) or next((x for y, x in members.items() if vn.startswith(y) or y.startswith(vn)), None) or (order[k] if k < len(order) else None)
            vc = '%s::%s' % (con, v['n'])
            c.ob('variant', vc, m is not None and m[0] not in used, 'no member of the union for it', site)
            if m is None: continue
            used.add(m[0])
            base = fs[1][2] + m[2]
            rf = [(f, ft, o) for (f, ft), o in zip(v['fs'], lay['variants'][i]) if not zero(ft)]
            if len(rf) == 1 and T(rf[0][1])['k'] == 'adt' and m[1][0] == 'rec':
                c.ob('layout', vc, rf[0][2] == base, 'the data is at offset %d in the library, %d in the header' % (rf[0][2], base), site)
                ty(m[1], rf[0][1], vc, site)
            elif m[1][0] == 'rec': fields(vc, [(x, y, z + base) for x, y, z in h.record(m[1][1])[1]], rf, site)
            elif len(rf) == 1:
                c.ob('layout', vc, rf[0][2] == base, 'the data is at offset %d in the library, %d in the header' % (rf[0][2], base), site)
                ty(m[1], rf[0][1], vc, site)
            else: c.ob('type', vc, False, '%d fields in the library' % len(rf), site)

    def fields(con, cf, rf, site):
        c.ob('layout', con + ': fields', len(cf) == len(rf), 'fields %s in the library, %s in the header' % ([x[0] for x in rf], [x[0] for x in cf]), site)
        at = {o: (f, t) for f, t, o in cf}
        byname = {norm(f): o for f, t, o in cf}
        for f, ft, o in rf:
            fc = '%s.%s' % (con, f)
            c.ob('layout', fc, o in at, 'no field of the header at offset %d; offsets are %s' % (o, sorted(at)), site)
            if norm(f) in byname: c.ob('field', fc, byname[norm(f)] == o, 'at offset %d in the library, %d in the header' % (o, byname[norm(f)]), site)
            if o in at: ty(at[o][1], ft, fc, site)
        c.sample('%s: %s' % (con, ', '.join('%s at %d' % (f, o) for f, _, o in rf)))

    def consts(con, cs, t, site):
        pre = os.path.commonprefix([n for n, _ in cs]) if len(cs) > 1 else ''
        pre = pre[:pre.rfind('_') + 1]
        cv = {norm(k[len(pre):]): v for k, v in cs}
        rv = {norm(v['n']): v['d'] for v in t['vs']}
        for k, v in rv.items():
            if k in cv: c.ob('constant', '%s::%s' % (con, k), cv[k] == v, '%d in the library, %d in the header' % (v, cv[k]), site)
        c.ob('constant', con, sorted(cv.values()) == sorted(rv.values()), 'values %s in the library, %s in the header' % (sorted(rv.values()), sorted(cv.values())), site)
        lost = sorted(set(rv) - set(cv)), sorted(set(cv) - set(rv))
        # a constant with another spelling is the same constant when its value is that of the only unmatched one
        for k in lost[0]: c.ob('constant', '%s::%s' % (con, k), any(cv[x] == rv[k] for x in lost[1]), 'the header has no such constant with value %d' % rv[k], site)
        c.sample('%s: %d constants' % (con, len(cv)))

    for k, f in sorted(exp.items()):
        site = f['span']
        c.ob('declared', k, k in h.funcs, 'exported but not declared in the header', site)
    for k, d in sorted(h.funcs.items()):
        c.ob('exported', k, k in exp, 'declared in the header but not exported', h.site(d))
        f = exp.get(k)
        if not f: continue
        c.fns.add(f['path'])
        site = h.site(d)
        ps = [x for x in d.get('inner', ()) if x['kind'] == 'ParmVarDecl']
        c.ob('convention', k, f['abi'].startswith('C'), 'calling convention %s' % f['abi'], f['span'])
        c.ob('convention', k + ': parameters', len(ps) == f['argc'], '%d parameters in the library, %d in the header' % (f['argc'], len(ps)), site)
        q = d['type']['qualType']
        def one(what, text, tid):
            guarded(c, 'type', '%s: %s' % (k, what), lambda: ty(h.parse(text), tid, '%s: %s' % (k, what), site))
        one('result', q[:q.index('(')], f['locals'][0])
        for i, (p, tid) in enumerate(zip(ps, f['locals'][1:])): one('parameter %d' % (i + 1), p['type']['qualType'], tid)
    # items of untyped slices: structures of the header that no function or field leads to, found by name, or else by their fields
    mine = [(i, t) for i, t in enumerate(u.types) if interface(t) and t.get('vs') and not opaque(t)]
    for _ in range(2):
        for name in h.typedefs:
            if not name.startswith('koopa'): continue
            try: ct = h.parse(name)
            except Imprecise: continue
            if ct[0] not in ('rec', 'enum') or any(x == ct[1] for x, _ in done): continue
            w = norm(name)
            w = w[len('koopa'):] if w.startswith('koopa') else w
            w = w[:-1] if name.endswith('_t') else w
            free = [(i, t) for i, t in mine if not any(y == i for _, y in done)]
            m = [i for i, t in free if norm(t['s'].rsplit('::', 1)[-1].split('<')[0]) == w]
            if not m and ct[0] == 'rec':
                names = {norm(x[0]) for x in h.record(ct[1])[1]}
                m = [i for i, t in free if t['ak'] == 'Struct' and {norm(f) for f, ft in t['vs'][0]['fs'] if not zero(ft)} == names]
                m = m if len(m) == 1 else []
            if m: guarded(c, 'type', name, lambda: ty(ct, m[0], name, T(m[0]).get('span')))
    for name in h.typedefs:
        if not name.startswith('koopa'): continue
        try: ct = h.parse(name)
        except Imprecise: continue
        if ct[0] == 'rec' or ct[0] == 'enum': 
            tag = any(ct[1] == f[1][1] for x, y in done if h.ids[x]['kind'] == 'RecordDecl' for f in h.record(x)[1] if f[1][0] == 'enum')
            c.ob('exported', name, any(x == ct[1] for x, _ in done) or tag, 'no definition in the library corresponds to it', h.site(h.typedefs[name]))
    k, res = h.witness()
    for comp, ok, err in res: c.ob('header', comp, ok, err, HEADER)
    c.floor('declarations compared', n[0], 120)
    c.floor('assertions on the layout of the header', k, 150)
    return c


if __name__ == '__main__':
    main(run)
