"""B03: printed names are unique in their scope and stable; explicit names are kept when they are free."""
from printers import *
RULES = {'stable': 'an entity that has a name gets that name again and nothing changes', 'fresh': 'a new name is not in the set of used names, and is recorded there and for its entity', 'explicit': 'a free explicit name is kept (with its sigil replaced by the prefix in force)',
         'generated': 'a generated name starts with the prefix for generated names', 'sets': 'functions, globals, local values and temporaries draw from one set of used names', 'scope': 'entering and leaving a function forgets names of local entities only',
         'discipline': 'printers open the scope of a function before its local names and close it after', 'namespace': 'LLVM labels and local values, which share one namespace, do not get equal names', 'floor': 'numbers of analysed paths'}
NM = 'koopa::back::NameManager'
PF = 'koopa::back::Prefix'


def run():
    c = Check('B03', 'Abstract interpretation of the MIR of every NameManager operation from an arbitrary state (induction over histories: each operation keeps "every recorded name is in the set of used names and no two are equal"), '
              'for every prefix and for named and unnamed entities; and of both printers for the order of scopes and mentions.', RULES, ['an entity is identified by its address, which is stable while the program is borrowed', 'models of std::fmt, HashMap and HashSet (engine/models.py)'])
    u = univ()
    ir = IR(u)
    m = Sym('m')
    pfield = ir.field_by_type(NM, 'Prefix')
    N_, T_, M_ = Sym('named'), Sym('temp'), Sym('maxlen')
    ptid = ir.tid(PF)

    def custom(lim):
        fs = u.variant(ptid, 1)['fs']
        vals = {'named': N_, 'temp': T_, 'max_len': ir.option(dict((f[0], f[1]) for f in fs)['max_len'], lim)}
        return Adt(ptid, 1, *[vals[f[0]] for f in fs])
    prefixes = [('default prefix', ir.variant(PF, 'Default')), ('custom prefix', custom(None)), ('custom prefix with a length limit', custom(M_))]
    tables, sets = {}, {}
    npaths = 0

    def entity(sort, named):
        e = Eng(u)
        st = St.new()
        x = Sym('x')
        if sort == 'function':
            return e, st, x, 'func_name', None
        if sort == 'block':
            nf = ir.field_by_type('koopa::ir::entities::BasicBlockData', 'Option<std::string::String')
            ty = 'koopa::ir::entities::BasicBlockData'
            meth = 'bb_name'
        else:
            nf = ir.field_by_type('koopa::ir::entities::ValueData', 'Option<std::string::String')
            ty = 'koopa::ir::entities::ValueData'
            meth = 'value_name'
        t = [f for f in u.variant(ir.tid(ty), 0)['fs'] if f[0] == nf][0][1]
        fields = {nf: ir.option(t, Sym('nm') if named else None)}
        if sort != 'block':
            k = ir.kind('GlobalAlloc', init=Sym('i')) if sort == 'global' else ir.kind('Load', src=Sym('s')) if sort == 'instruction' else ir.kind('Alloc') if sort == 'allocation' else ir.kind('FuncArgRef', index=Sym('ix')) if sort == 'parameter' else ir.kind('BlockArgRef', index=Sym('ix'))
            fields[ir.field_by_type(ty, 'ValueKind')] = k
        for f, v in fields.items(): put(st, Fld(x, f), v)
        return e, st, x, meth, None

    def judge(con, e, outs, x, explicit, pre):
        """outs of a naming operation for entity x (None: temporary)"""
        nonlocal npaths
        kept = 0
        for o in outs:
            if o.kind != 'ret':
                # slicing an empty explicit name is outside the claim
                c.ob('fresh', con, False, show_out(e, o, 5), o.site)
                continue
            npaths += 1
            n = text(e.canon(o.st, o.val))
            ins = [y for y in o.st.eff if y.name == 'insert']
            if x is not None and not any(y.args[1] is x for y in ins):
                # already named
                slots = [a for a, b in o.st.conds if b and a.op == 'app' and a.a[0] == 'has' and a.a[2] is x]
                muts = [y for y in o.st.eff if y.name not in ('name',)]
                v = e.canon(o.st, o.val)
                ok = len(slots) == 1 and e.strip(unref(v)) is slot(slots[0].a[1], x) and not muts
                c.ob('stable', con, ok, show_out(e, o, 5), o.site)
                if ok: tables.setdefault(con.split(',')[0], slots[0].a[1])
                continue
            rec = [y for y in ins if y.args[1] is x and len(y.args) == 3] if x is not None else []
            mem = [y for y in ins if len(y.args) == 2 and text(y.args[1]) is n]
            others = [y for y in o.st.eff if y.name in ('insert', 'remove', 'clear', 'take', 'push') and y not in rec and y not in mem and not (y.name == 'insert' and len(y.args) == 2 and (App('has', y.args[0], y.args[1]), True) in o.st.conds)]
            free = bool(mem) and any(not b and a.op == 'app' and a.a[0] == 'has' and a.a[1] is mem[0].args[0] and text(a.a[2]) is n for a, b in o.st.conds)
            ok = bool(mem) and free and not others and (x is None or len(rec) == 1 and text(rec[0].args[2]) is n and (App('has', rec[0].args[0], x), False) in o.st.conds)
            c.ob('fresh', con, ok, show_out(e, o, 6), o.site)
            if not ok: continue
            sets.setdefault(con.split(',')[0], set()).add(mem[0].args[0])
            if rec: tables.setdefault(con.split(',')[0], rec[0].args[0])
            at = [b for a, b in o.st.conds if a.op == 'app' and a.a[0] == 'starts_with']
            if explicit is not None:
                if pre[1].a[1] == 0: base = explicit
                elif not at:
                    c.ob('explicit', con, False, 'the sigil of the name is not looked at: %s' % show_out(e, o, 4), o.site)
                    continue
                else: base = flat1([mk('disp', N_ if at[0] else T_), mk('disp', App('str_from', explicit, Int(1)))])
                has_base = [b for a, b in o.st.conds if a.op == 'app' and a.a[0] == 'has' and a.a[1] is mem[0].args[0] and same_base(a.a[2], base, 'limit' in pre[0])]
                if not has_base:
                    c.ob('explicit', con, False, 'the explicit name is not asked for: %s' % show_out(e, o, 6), o.site)
                elif not has_base[0]:
                    c.ob('explicit', con, same_base(n, base, 'limit' in pre[0]), 'a free explicit name is replaced: %s' % show_out(e, o, 4), o.site)
                    kept += 1
            else:
                first = n.a[0] if n.op == 'fmt' else n
                good = (first.op == 'str' and first.a[0].startswith('%')) if pre[1].a[1] == 0 else first.op == 'disp' and first.a[0] is T_
                c.ob('generated', con, good, show_out(e, o, 4), o.site)
        if explicit is not None: c.ob('explicit', con, kept > 0, 'no path keeps the explicit name')

    for sort in ('function', 'block', 'global', 'instruction', 'allocation', 'parameter', 'block parameter'):
        for named in (True, False) if sort != 'function' else (True,):
            for pre in prefixes:
                con = '%s, %s, %s' % (sort, 'named' if named else 'unnamed', pre[0])

                def one():
                    e, st, x, meth, _ = entity(sort, named)
                    put(st, Fld(m, pfield), pre[1])
                    outs = e.run(ir.fn('nm::' + meth), [m, x], st)
                    c.ran(e, outs)
                    explicit = None
                    if named: explicit = Sym('nm') if sort != 'function' else ir.at(x, 'data::func_name')
                    judge(con, e, outs, x, explicit, pre)
                guarded(c, 'fresh', con, one)
    for pre in prefixes:
        def one():
            e = Eng(u)
            st = St.new()
            put(st, Fld(m, pfield), pre[1])
            outs = e.run(ir.fn('nm::temp_value_name'), [m], st)
            c.ran(e, outs)
            judge('temporary, %s' % pre[0], e, outs, None, None, pre)
        guarded(c, 'fresh', 'temporary, %s' % pre[0], one)
    # one set for all but blocks
    names = set()
    for s, v in sets.items():
        c.ob('sets', s, len(v) == 1, 'names are recorded in %s' % ', '.join(show(y) for y in v))
        if s != 'block': names |= v
    c.ob('sets', 'functions, globals, values, temporaries', len(names) == 1, 'names are recorded in %s' % ', '.join(show(y) for y in names))
    for s in ('function', 'block', 'global', 'instruction', 'allocation', 'parameter', 'block parameter'):
        c.ob('stable', s, s in tables, 'no path finds the name given before')
    lt = {tables.get(s) for s in ('instruction', 'allocation', 'parameter', 'block parameter')}
    gt = {tables.get(s) for s in ('function', 'global')}
    # scopes
    rel, clr = {}, {}
    for meth in ('enter_func_scope', 'exit_func_scope', 'set_prefix'):
        def one():
            e = Eng(u)
            outs = e.run(ir.fn('nm::' + meth), [m] + ([Sym('pf')] if meth == 'set_prefix' else []), St.new())
            c.ran(e, outs)
            for o in outs:
                if o.kind != 'ret': continue
                cleared, removed = [y.args[0] for y in o.st.eff if y.name == 'clear'], [y for y in o.st.eff if y.name in ('remove', 'take')]
                other = [y for y in o.st.eff if y.name not in ('clear', 'remove', 'take', 'set') or y.name == 'set' and (y.args[0] in gt or y.args[0] in names)]
                bad = []
                for y in cleared:
                    if y in gt: bad.append('the names of functions or globals are forgotten')
                    if y in names: bad.append('the set of used names is emptied while functions and globals keep theirs')
                for y in removed:
                    if y.args[0] in gt: bad.append('the name of a function or global is forgotten')
                    if y.args[0] in names and not any(y.args[1].op == 'app' and y.args[1].a[0] == 'slot' and y.args[1].a[1] is l for l in lt):
                        bad.append('a name that is still in use is released: %s' % show(y.args[1]))
                if meth == 'set_prefix' and (cleared or removed): bad.append('set_prefix forgets names')
                c.ob('scope', meth, not bad and not other, '; '.join(bad) or show_out(e, o, 5), o.site)
            rel[meth] = any(y.name in ('remove', 'take') and y.args[0] in names for o in outs for y in o.st.eff)
            clr[meth] = [{y.args[0] for y in o.st.eff if y.name == 'clear'} for o in outs if o.kind == 'ret']
        guarded(c, 'scope', meth, one)
    always = lambda meth, t: bool(clr.get(meth)) and all(t in s for s in clr[meth])
    if any(rel.values()):
        for l in lt: c.ob('scope', 'local tables', l is not None and (always('enter_func_scope', l) or always('exit_func_scope', l)), 'names of locals are released but %s keeps them' % (show(l) if l is not None else '-'))
    bs = next(iter(sets.get('block', [None])))
    if bs is not None and bs not in names:
        for meth in ('enter_func_scope', 'exit_func_scope'):
            for s in clr.get(meth, []):
                c.ob('scope', 'blocks', bs not in s or tables.get('block') in s or always('enter_func_scope', tables.get('block')), 'the names of blocks are released but the blocks keep them')
    # printers: scopes around local names
    pfx = {}
    for K, tag in ((Koopa(ir), 'Koopa'), (Llvm(ir), 'LLVM')):
        cs = list(orders(ir)) + [x for i, x in enumerate(cases(ir, ())) if i % 5 == 0]
        for con, mkd in cs:
            con = '%s: %s' % (tag, con)

            def one():
                nonlocal npaths
                e = Eng(u)
                d = D(ir, e)
                mkd(d)
                outs, res = generate(d, K.root, d.build())
                c.ran(e, outs)
                owner = {}
                for fn in d.funcs:
                    for v in fn.vals: owner[v] = fn.o.f
                    for b in fn.o.bbs: owner[b] = fn.o.f
                for o, w, failed, after in res:
                    if failed is not None: continue
                    npaths += 1
                    cur, seen, bad = None, [], None
                    for y in o.st.eff:
                        if y.name == 'enter':
                            if cur is not None: bad = bad or (y, 'a scope is opened in a scope')
                            cur = 'new'
                        elif y.name == 'exit':
                            if cur is None: bad = bad or (y, 'no scope is open')
                            cur = None
                        elif y.name == 'name':
                            x = d.ent.get(y.args[1])
                            if x in owner:
                                if cur is None: bad = bad or (y, 'local %s is named outside its function scope' % show(x))
                                elif cur == 'new':
                                    if owner[x] in seen: bad = bad or (y, 'the names of %s are given in two scopes' % show(owner[x]))
                                    cur = owner[x]
                                    seen.append(cur)
                                elif cur is not owner[x]: bad = bad or (y, 'local %s is named in the scope of another function' % show(x))
                                pfx.setdefault(tag, {}).setdefault(y.args[0].a[0], set()).add(y.args[2])
                    if cur is not None: bad = bad or (o.st.eff[-1], 'the scope is not closed')
                    c.ob('discipline', con, bad is None, bad[1] if bad else '', bad[0].site if bad else None)
            guarded(c, 'discipline', con, one)
    bp, vp = pfx.get('LLVM', {}).get('bb', set()), pfx.get('LLVM', {}).get('value', set())
    c.ob('namespace', 'LLVM labels and local values', bs in names or not (bp & vp), 'labels and values are both named under %s from separate sets of used names' % ', '.join(show(y) for y in bp & vp), 'koopa/src/back/llvm.rs')
    c.floor('paths', npaths, 200)
    return c


def unref(t):
    return t.a[0] if t.op in ('deref',) else t


def text(t):
    while True:
        if t.op == 'disp': t = t.a[0]
        elif t.op == 'adt' and len(t.a) == 3: t = t.a[2]
        else: return t


def flat1(parts):
    f = flat(parts)
    return mk('fmt', *f) if len(f) > 1 else f[0]


def same_base(t, base, limited):
    t = text(t)
    if t is base: return True
    if t.op == 'fmt' and base.op == 'fmt' and flat([t]) == flat([base]): return True
    if limited and t.op == 'app' and t.a[0].endswith('str_truncate'): return same_base(t.a[1], base, False)
    return False


if __name__ == '__main__': main(run)
