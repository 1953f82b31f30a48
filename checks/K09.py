"""K09: value_eq/data_eq is true only for equal type, kind, payload and pairwise equal operands; and true on a value compared with itself."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from chk import *
from K01 import OPERANDS, BLOCKS

RULES = {'same': 'a value equals itself, and equals a value with equal type, kind, payload and operands', 'type': 'different types are never equal',
         'kind': 'different kinds are never equal', 'payload': 'a difference in constant, operator, index, callee, target or operand count is never equal',
         'operand': 'a difference in any operand, at any nesting depth, is never equal', 'floor': 'number of comparisons analysed'}
PAYLOAD = {'Integer': ['value'], 'FuncArgRef': ['index'], 'BlockArgRef': ['index'], 'Binary': ['op'], 'Call': ['callee'], 'Branch': ['true_bb', 'false_bb'], 'Jump': ['target']}


def run():
    c = Check('K09', 'Abstract interpretation of the MIR of value_eq and data_eq on pairs of values of every two kinds, with seeded operands (equal, identical, or differing in one '
              'place: type, kind, payload, count or one operand, directly or two levels down) in the local and global tables; the returned truth value is compared with the definition.', RULES,
              ['operand lists of lengths 0..3 and nesting depth 2 stand for all: the comparison is one structural recursion', 'models of std (engine/models.py)'])
    u = univ()
    ir = IR(u)
    nops = variants_op = ir.variants('koopa::ir::values::BinaryOp')
    optid = ir.tid('koopa::ir::values::BinaryOp')
    n = 0

    def eng():
        e = Eng(u)
        e.max_rec = 6
        return e

    class Pair:
        """left and right values of kind k; slots: list of (operand field, index) that can be made to differ"""
        def __init__(self, e, k, lens, share, place):
            self.e, self.k, self.w = e, k, Local(ir, e)
            self.ops = [{}, {}]
            self.slots = []
            w = self.w
            i = 0
            for f in FIELDS[k]:
                nme = f.strip('*?')
                if f in OPERANDS.get(k, []):
                    m = lens if f.endswith('*') else 1
                    if f.endswith('?') and lens == 0: m = 0
                    both = []
                    for j in range(m):
                        num = Int(100 + i)
                        pl = place[i % len(place)]
                        l = w.value('l%d' % i, pl, ty=ir.I32, kind=ir.kind('Integer', value=num))
                        r = l if share else w.value('r%d' % i, place[(i + 1) % len(place)], ty=ir.I32, kind=ir.kind('Integer', value=num))
                        both.append((l, r))
                        self.slots.append((nme, j, i))
                        i += 1
                    for s in (0, 1):
                        x = [b[s] for b in both]
                        if f.endswith('*'): self.ops[s][nme] = x
                        elif f.endswith('?'): self.ops[s][nme] = ir.option(ir.kind_field_tid(k, nme), x[0] if x else None)
                        else: self.ops[s][nme] = x[0]
                elif f in BLOCKS.get(k, []):
                    b = w.block('bb_' + nme)
                    self.ops[0][nme] = self.ops[1][nme] = b
                elif nme == 'op':
                    self.ops[0][nme] = self.ops[1][nme] = Adt(optid, 3)
                elif nme in ('value', 'index'):
                    self.ops[0][nme] = self.ops[1][nme] = Int(7)
                elif nme == 'callee':
                    self.ops[0][nme] = self.ops[1][nme] = w.func('f', ir.func([], ir.I32))
            self.tys = [ir.I32, ir.I32]

        def alt(self, i, ty=None, kind=None, name=None):
            return self.w.value(name or 'alt%d' % i, 'local', ty=ty if ty is not None else ir.I32, kind=kind if kind is not None else ir.kind('Integer', value=Int(999 + i)))

        def replace(self, slot_, v):
            nme, j, i = slot_
            o = self.ops[1]
            if isinstance(o[nme], list): o[nme] = [v if q == j else x for q, x in enumerate(o[nme])]
            elif o[nme].op == 'adt' and 'option' in ir.tystr(o[nme].a[0]).lower(): o[nme] = ir.option(o[nme].a[0], v)
            else: o[nme] = v

        def compare(self, how, kind2=None, ops2=None):
            w, e = self.w, self.e
            lk = ir.kind(self.k, **self.ops[0])
            rk = ir.kind(kind2 or self.k, **(self.ops[1] if ops2 is None else ops2))
            self.kinds = lk, rk
            if how == 'data':
                a, b = Sym('ldata'), Sym('rdata')
                put(w.st, a, ir.vdata(self.tys[0], lk, base=Sym('ld')))
                put(w.st, b, ir.vdata(self.tys[1], rk, base=Sym('rd')))
                return e.run(ir.fn('dfg::data_eq'), [w.d, a, b], w.st)
            lp, rp = {'local': ('local', 'local'), 'global': ('global', 'global'), 'mixed': ('local', 'global'), 'mixed2': ('global', 'local')}[how]
            x = w.value('left', lp, ty=self.tys[0], kind=lk)
            y = w.value('right', rp, ty=self.tys[1], kind=rk)
            return e.run(ir.fn('dfg::value_eq'), [w.d, x, y], w.st)

    def judge(rule, con, detail, e, outs, want):
        nonlocal n
        n += 1
        c.ran(e, outs)
        ok = bool(outs)
        for o in outs:
            v = e.canon(o.st, o.val) if o.kind == 'ret' else None
            d = e.decide(o.st, v) if v is not None else None
            if v in (TRUE, FALSE): d = v is TRUE
            if d is not want: ok = False
        c.ob(rule, con, ok, '%s: expected %s\n%s' % (detail, want, '\n'.join(show_out(e, o) for o in outs[:4])), outs[0].site if outs else None)

    PL = ['local', 'global']
    for k in KINDS:
        has_list = any(f.endswith(('*', '?')) for f in FIELDS[k])
        for lens in ((0, 1, 2, 3) if has_list else (1,)):
            for how in ('data', 'local', 'global', 'mixed', 'mixed2'):
                def same():
                    for share in (True, False):
                        e = eng()
                        p = Pair(e, k, lens, share, PL)
                        judge('same', k, '%s comparison, list length %d, %s operands' % (how, lens, 'identical' if share else 'equal'), e, p.compare(how), True)
                guarded(c, 'same', k, same)
                def ty():
                    for t2 in (ir.UNIT, ir.ptr(ir.I32), ir.arr(ir.I32, 2)):
                        e = eng()
                        p = Pair(e, k, lens, True, PL)
                        p.tys[1] = t2
                        judge('type', k, '%s comparison, types i32 and %s' % (how, show(t2)), e, p.compare(how), False)
                    e = eng()
                    p = Pair(e, k, lens, True, PL)
                    p.tys = [ir.arr(ir.I32, 3), ir.arr(ir.I32, 4)]
                    judge('type', k, '%s comparison, array types of different length' % how, e, p.compare(how), False)
                if lens in (1, 2): guarded(c, 'type', k, ty)
                def payload():
                    for nme in PAYLOAD.get(k, []):
                        alts = [Int(8), Int(0), Int(-7)] if nme in ('value', 'index') else [Adt(optid, i) for i in range(len(nops)) if i != 3] if nme == 'op' else [None]
                        for a in alts:
                            e = eng()
                            p = Pair(e, k, lens, True, PL)
                            if a is None:
                                a = p.w.func('g', ir.func([], ir.I32)) if nme == 'callee' else p.w.block('bb_other')
                                if nme == 'callee': distinct(e, p.w.st, Sym('f'), [a])
                            p.ops[1] = dict(p.ops[1], **{nme: a})
                            judge('payload', '%s: %s' % (k, nme), '%s comparison, %s %s and %s' % (how, nme, show(p.ops[0][nme]), show(a)), e, p.compare(how), False)
                    # symbolic: any two different numbers
                    for nme in PAYLOAD.get(k, []):
                        if nme in ('value', 'index'):
                            e = eng()
                            p = Pair(e, k, lens, True, PL)
                            p.ops[0] = dict(p.ops[0], **{nme: Sym('n')})
                            p.ops[1] = dict(p.ops[1], **{nme: Sym('m')})
                            assume(e, p.w.st, Eq(Sym('n'), Sym('m')), False)
                            judge('payload', '%s: %s' % (k, nme), '%s comparison, any two different numbers' % how, e, p.compare(how), False)
                    # both targets swapped
                    if k == 'Branch':
                        e = eng()
                        p = Pair(e, k, lens, True, PL)
                        p.ops[1] = dict(p.ops[1], true_bb=p.ops[1]['false_bb'], false_bb=p.ops[1]['true_bb'])
                        judge('payload', k + ': targets swapped', how, e, p.compare(how), False)
                        e = eng()
                        p = Pair(e, k, 3, True, PL)
                        t, f = p.ops[1]['true_args'], p.ops[1]['false_args']
                        p.ops[1] = dict(p.ops[1], true_args=t + f[:1], false_args=f[1:])
                        judge('payload', k + ': argument moved to the other list', how, e, p.compare(how), False)
                    # operand counts
                    for f in FIELDS[k]:
                        nme = f.strip('*?')
                        if not f.endswith(('*', '?')): continue
                        for d in (-1, 1):
                            e = eng()
                            p = Pair(e, k, lens, True, PL)
                            if f.endswith('?'):
                                o = p.ops[1][nme]
                                alt = ir.option(o.a[0], None if o.a[1] else p.alt(0))
                            else:
                                l = p.ops[1][nme]
                                if d < 0 and not l: continue
                                alt = l[:-1] if d < 0 else l + [l[-1] if l else p.alt(0)]
                            p.ops[1] = dict(p.ops[1], **{nme: alt})
                            judge('payload', '%s: number of %s' % (k, nme), '%s comparison, %d %s' % (how, lens, 'fewer' if d < 0 else 'more'), e, p.compare(how), False)
                guarded(c, 'payload', k, payload)
                def operand():
                    e0 = eng()
                    for si, sl in enumerate(Pair(e0, k, lens, False, PL).slots):
                        for diff in ('value', 'type', 'kind', 'deep', 'index'):
                            e = eng()
                            p = Pair(e, k, lens, False, PL)
                            w = p.w
                            if diff == 'value': a = p.alt(sl[2])
                            elif diff == 'type': a = p.alt(sl[2], ty=ir.ptr(ir.I32), kind=ir.kind('Integer', value=Int(100 + sl[2])))
                            elif diff == 'kind': a = p.alt(sl[2], kind=ir.kind('Undef'))
                            elif diff == 'index': a = p.alt(sl[2], kind=ir.kind('FuncArgRef', index=Int(100 + sl[2])))
                            else:
                                x, y, z = [w.value('in%d' % q, 'local', ty=ir.I32, kind=ir.kind('Integer', value=Int(v))) for q, v in enumerate((1, 1, 2))]
                                a = w.value('deepr', 'local', ty=ir.I32, kind=ir.kind('Binary', op=Adt(optid, 3), lhs=x, rhs=z))
                                b = w.value('deepl', 'local', ty=ir.I32, kind=ir.kind('Binary', op=Adt(optid, 3), lhs=x, rhs=y))
                                p.ops.reverse(); p.replace(sl, b); p.ops.reverse()
                            p.replace(sl, a)
                            judge('operand', '%s: %s[%d]' % (k, sl[0], sl[1]), '%s comparison, list length %d, operand differs in %s' % (how, lens, diff), e, p.compare(how), False)
                if how in ('data', 'mixed'): guarded(c, 'operand', k, operand)
        # symmetric operands are not interchangeable
        def swapped():
            names = {'Binary': ('lhs', 'rhs'), 'Store': ('value', 'dest'), 'GetPtr': ('src', 'index'), 'GetElemPtr': ('src', 'index')}.get(k)
            if names:
                e = eng()
                p = Pair(e, k, 1, True, PL)
                p.ops[1] = dict(p.ops[1], **{names[0]: p.ops[1][names[1]], names[1]: p.ops[1][names[0]]})
                judge('operand', '%s: operands swapped' % k, 'data comparison', e, p.compare('data'), False)
        guarded(c, 'operand', k, swapped)
        for k2 in KINDS:
            if k2 == k: continue
            def kinds():
                for how in ('data', 'local'):
                    for t in (ir.I32, ir.UNIT):
                        e = eng()
                        p = Pair(e, k, 1, True, PL)
                        p.tys = [t, t]
                        q = Pair(eng(), k2, 1, True, PL)
                        for b in ('true_bb', 'false_bb', 'target'):
                            if b in q.ops[0] and b not in p.ops[0]: p.w.block('bb_' + b)
                        ops = q.ops[0]
                        for i in range(len(p.slots), len(q.slots)): p.w.value('l%d' % i, PL[i % 2], ty=ir.I32, kind=ir.kind('Integer', value=Int(100 + i)))
                        judge('kind', '%s and %s' % (k, k2), '%s comparison at type %s' % (how, show(t)), e, p.compare(how, k2, ops), False)
            guarded(c, 'kind', '%s and %s' % (k, k2), kinds)
        def itself():
            for place in PL:
                e = eng()
                p = Pair(e, k, 2, True, PL)
                v = p.w.value('self', place, ty=Sym('anyty'), kind=ir.kind(k, **p.ops[0]))
                judge('same', k, '%s value compared with itself' % place, e, e.run(ir.fn('dfg::value_eq'), [p.w.d, v, v], p.w.st), True)
        guarded(c, 'same', k, itself)
    c.floor('comparisons analysed', n, 2800)
    return c


if __name__ == '__main__':
    main(run)
