"""What the logging functions of Span do to the counters, in one feature configuration."""
from front import *

LOGS = {'log_raw_error': (False, 1, 0, 'Normal'), 'log_raw_fatal_error': (False, 1, 0, 'Fatal'), 'log_raw_warning': (False, 0, 1, None), 'log_error': (True, 1, 0, 'Normal'), 'log_fatal_error': (True, 1, 0, 'Fatal'), 'log_warning': (True, 0, 1, None)}


def num(ir, st, root, c=None):
    e = Eng(ir.u)
    outs = e.run(ir.fn('span::' + root), [], st)
    if c: c.ran(e, outs)
    return e.canon(outs[0].st, outs[0].val) if len(outs) == 1 and outs[0].kind == 'ret' else None


def counting(c, which, name, rule='counted', fine=lambda *a: None):
    """every logging function changes the counters as its name says; fine(fn, e, outcome, error term) judges the rest"""
    ir = IR(univ(which))
    e0, w0 = num(ir, St.new(), 'error_num', c), num(ir, St.new(), 'warning_num', c)
    c.ob(rule, 'error_num, warning_num (%s)' % name, e0 is not None and w0 is not None and e0 is not w0, 'do not read two counters')
    for fn, (span, de, dw, kind) in LOGS.items():
        def one():
            e = Eng(ir.u)
            args = ([Sym('span')] if span else []) + [Sym('msg')]
            outs = e.run(ir.fn('span::' + fn), args, St.new())
            c.ran(e, outs)
            for o in outs:
                s = o.st.eff[0].site if o.st.eff else o.site
                c.ob(rule, 'Span::%s (%s)' % (fn, name), o.kind == 'ret', 'may panic: ' + show_out(e, o), o.site or s)
                if o.kind != 'ret': continue
                e1, w1 = num(ir, o.st, 'error_num'), num(ir, o.st, 'warning_num')
                c.ob(rule, 'Span::%s (%s)' % (fn, name), e1 is add(e0, Int(de)) and w1 is add(w0, Int(dw)), 'changes the counters by %s and %s' % (show(add(e1, e0, -1)) if e1 else '?', show(add(w1, w0, -1)) if w1 else '?'), s)
                v = e.canon(o.st, o.val)
                if kind:
                    got = ir.variants(F + 'span::Error')[v.a[1]] if v.op == 'adt' else None
                    c.ob(rule, 'Span::%s (%s)' % (fn, name), got == kind, 'returns %s' % show(v), s)
                fine(fn, e, o, v)
        guarded(c, rule, 'Span::%s (%s)' % (fn, name), one)

    def other():
        e = Eng(ir.u)
        for o in e.run(ir.fn('span::reset'), [Sym('file')], St.new()):
            s = o.st.eff[0].site if o.st.eff else o.site
            c.ob(rule, 'Span::reset (%s)' % name, o.kind == 'ret' and num(ir, o.st, 'error_num') is Int(0) and num(ir, o.st, 'warning_num') is Int(0), 'leaves %s' % show_out(e, o), s)
        e = Eng(ir.u)
        outs = e.run(ir.fn('span::log_global'), [], St.new())
        c.ran(e, outs)
        for o in outs:
            c.ob(rule, 'Span::log_global (%s)' % name, o.kind == 'ret' and num(ir, o.st, 'error_num') is e0 and num(ir, o.st, 'warning_num') is w0, 'changes the counters: ' + show_out(e, o), o.site)
        for k in ('Normal', 'Fatal'):
            e = Eng(ir.u)
            t = F + 'span::Error'
            n = len(ir.u.types[ir.tid(t)]['vs'][ir.variants(t).index(k)]['fs'])
            st = St.new()
            for o in e.run(ir.fn('front::is_fatal'), [e.heap(st, ir.variant(t, k, *[Sym('m')] * n))], st):
                c.ob(rule, 'Error::is_fatal (%s)' % name, o.kind == 'ret' and o.val is Bool(k == 'Fatal'), '%s: %s' % (k, show_out(e, o)), o.site)
        e = Eng(ir.u)
        for o in e.run(ir.fn('front::error_default'), [], St.new()):
            v = e.canon(o.st, o.val)
            c.ob(rule, 'Error::default (%s)' % name, v.op == 'adt' and ir.variants(F + 'span::Error')[v.a[1]] == 'Normal', show(v), o.site)
    guarded(c, rule, 'Span (%s)' % name, other)
