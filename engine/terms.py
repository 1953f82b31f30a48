"""Hash-consed terms: the value domain of the analysis (access paths, constants, applications)."""

class T:
    __slots__ = ('op', 'a', 'h', '_s', 'meta')
    _tab = {}

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op,) + tuple((id(x) if isinstance(x, T) else (type(x).__name__, x)) for x in a)
    t = T._tab.get(key)
    if t is None:
        t = T()
        t.op, t.a = op, a
        t._s = None
        t.meta = None
        t.h = hash(key)
        T._tab[key] = t
    return t


def Int(n): return mk('int', n)
def Bool(b): return mk('bool', bool(b))
def Str(s): return mk('str', s)
def Bytes(b): return mk('bytes', bytes(b))
def Char(n): return mk('char', n)
def Sym(n): return mk('sym', n)
def Adt(t, v, *fs): return mk('adt', t, v, *fs)
def App(n, *a): return mk('app', n, *a)
def Tuple(*fs): return mk('adt', 'tuple', 0, *fs)


UNIT = Tuple()
TRUE, FALSE = Bool(True), Bool(False)


def is_const(t): return t.op in ('int', 'bool', 'str', 'bytes', 'char')


def List(items, open_=False):
    return mk('olist' if open_ else 'list', *items)


def Ref(root, path=()):
    """pointer to a place; a pointer to the object behind opaque pointer t is t itself"""
    if root.op == 'obj' and not path:
        return root.a[0]
    return mk('ref', root, tuple(path))


def Elem(b, i):
    it = b.a if b.op == 'list' else b.a[2:] if b.op == 'adt' and b.a[0] == 'array' else None
    if it is not None and i.op == 'int' and 0 <= i.a[0] < len(it):
        return it[i.a[0]]
    return mk('elem', b, i)


def Fld(base, name): return mk('fld', base, name)


# ---- linear integer forms -------------------------------------------------
def lin_parts(t):
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], {x: c for x, c in t.a[1]}
    return 0, {t: 1}


def lin_make(c, d):
    d = {x: k for x, k in d.items() if k}
    if not d:
        return Int(c)
    if c == 0 and len(d) == 1:
        (x, k), = d.items()
        if k == 1:
            return x
    return mk('lin', c, LinTup(sorted(d.items(), key=lambda p: show(p[0]))))


class LinTup(tuple):
    __slots__ = ()
    def __hash__(self): return hash(tuple((id(x), k) for x, k in self))
    def __eq__(self, o): return len(self) == len(o) and all(a is b and k == l for (a, k), (b, l) in zip(self, o))
    def __ne__(self, o): return not self == o


def add(x, y, s=1):
    c1, d1 = lin_parts(x)
    c2, d2 = lin_parts(y)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + s * v
    return lin_make(c1 + s * c2, d)


def scale(x, k):
    c, d = lin_parts(x)
    return lin_make(c * k, {t: v * k for t, v in d.items()})


def lt0(t):
    """atom for  t < 0  over the integers, as (atom, polarity)"""
    c, d = lin_parts(t)
    if not d:
        return Bool(c < 0), True
    first = sorted(d.items(), key=lambda p: show(p[0]))[0]
    if first[1] < 0:   # normalise sign:  -P + c < 0  <=>  P > c  <=> not (P - c - 1 < 0)... P<=c is P-c-1<0
        n = lin_make(-c - 1, {x: -k for x, k in d.items()})
        return mk('lt0', n), False
    return mk('lt0', t), True


def eq0(t):
    c, d = lin_parts(t)
    if not d:
        return Bool(c == 0)
    first = sorted(d.items(), key=lambda p: show(p[0]))[0]
    if first[1] < 0:
        t = scale(t, -1)
    return mk('eq0', t)


def Not(t):
    if t.op == 'bool':
        return Bool(not t.a[0])
    if t.op == 'not':
        return t.a[0]
    return mk('not', t)


def Lt(a, b):
    at, pol = lt0(add(a, b, -1))
    return at if pol else Not(at)


def occurs(x, t):
    return any(y is x or isinstance(y, T) and y.op in ('adt', 'list') and occurs(x, y) for y in t.a)


INTISH = ('int', 'lin')
DISCR = None


def Eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        if a.op == b.op:
            return FALSE
        if {a.op, b.op} == {'int', 'char'} or {a.op, b.op} == {'int', 'bool'}:
            return Bool(int(a.a[0]) == int(b.a[0]))
        if {a.op, b.op} == {'str', 'bytes'}:
            x, y = a.a[0], b.a[0]
            x = x.encode() if isinstance(x, str) else x
            y = y.encode() if isinstance(y, str) else y
            return Bool(x == y)
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'discr' and y.op == 'int':
            return mk('eq', x, y)
        if y.op == 'adt' and len(y.a) == 2 and x.op != 'adt' and DISCR is not None:
            d = DISCR(y.a[0], y.a[1])
            if d is not None: return mk('eq', mk('discr', x), Int(d))
    if a.op in INTISH or b.op in INTISH:
        if a.op not in ('char', 'bool', 'str') and b.op not in ('char', 'bool', 'str'):
            return eq0(add(a, b, -1))
    if b.op == 'bool':
        return a if b.a[0] else Not(a)
    if a.op == 'bool':
        return b if a.a[0] else Not(b)
    if a.op == 'list' and b.op == 'list' and len(a.a) != len(b.a):
        return FALSE
    if a.op == 'list' and b.op == 'list' or a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0]:
        if a.op == 'adt' and a.a[1] != b.a[1]:
            return FALSE
        k = 2 if a.op == 'adt' else 0
        out = [Eq(x, y) for x, y in zip(a.a[k:], b.a[k:])]
        out = [o for o in out if o is not TRUE]
        if any(o is FALSE for o in out):
            return FALSE
        if not out:
            return TRUE
        if len(out) == 1:
            return out[0]
        return mk('and', *out)
    if a.op == 'adt' and b.op != 'adt' and occurs(b, a) or b.op == 'adt' and a.op != 'adt' and occurs(a, b):
        return FALSE     # finite data: nothing equals a constructor term it is part of
    x, y = sorted((a, b), key=show)
    return mk('eq', x, y)


# ---- printing --------------------------------------------------------------
def show(t):
    if not isinstance(t, T):
        return str(t)
    if t._s is None:
        t._s = _show(t)
    return t._s


TYNAME = lambda t: str(t)


def _show(t):
    o, a = t.op, t.a
    if o == 'int' or o == 'bool':
        return str(a[0]).lower()
    if o == 'str':
        return '"%s"' % a[0].replace('\n', '\\n')
    if o == 'bytes':
        return 'b%r' % (a[0],)
    if o == 'char':
        return "'%s'" % (chr(a[0]) if a[0] < 0x110000 else a[0])
    if o == 'sym':
        return a[0]
    if o == 'fld':
        return '%s.%s' % (show(a[0]), a[1])
    if o == 'deref':
        return '*%s' % show(a[0])
    if o == 'ref':
        return '&%s%s' % (show(a[0]), ''.join('.' + '/'.join(show(y) for y in p) for p in a[1]))
    if o == 'loc':
        return '_%s:%s' % (a[0], a[1])
    if o == 'obj':
        return '[%s]' % show(a[0])
    if o == 'heap':
        return 'heap%s' % a[0]
    if o == 'adt':
        if a[0] == 'tuple':
            return '(%s)' % ', '.join(show(x) for x in a[2:])
        return '%s{%s}' % (TYNAME((a[0], a[1])), ', '.join(show(x) for x in a[2:]))
    if o in ('list', 'olist'):
        return '[%s%s]' % (', '.join(show(x) for x in a), '..' if o == 'olist' else '')
    if o == 'app':
        return '%s(%s)' % (a[0], ', '.join(show(x) for x in a[1:]))
    if o == 'lin':
        return '(%s%s)' % (' '.join('%+d*%s' % (k, show(x)) if k != 1 else '+' + show(x) for x, k in a[1]), ' %+d' % a[0] if a[0] else '')
    if o == 'lt0':
        return '%s<0' % show(a[0])
    if o == 'eq0':
        return '%s==0' % show(a[0])
    if o == 'not':
        return '!%s' % show(a[0])
    if o == 'eq':
        return '%s==%s' % (show(a[0]), show(a[1]))
    if o == 'discr':
        return 'discr(%s)' % show(a[0])
    if o == 'elem':
        return '%s[%s]' % (show(a[0]), show(a[1]))
    return '%s(%s)' % (o, ', '.join(show(x) for x in a))
