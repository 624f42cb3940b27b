"""Symbolic values, ropes (symbolic texts), guarded sequences, logical terms."""
import z3, time

TRUE, FALSE = True, False


# ----------------------------------------------------------------- logic
def And_(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or_(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not_(x):
    if x is True:
        return False
    if x is False:
        return True
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return False
    return a.eq(b)


class Unsupported(Exception):
    """The construct is outside the verified subset: the obligation is undecided."""


# ----------------------------------------------------------------- values
class Sc:
    """Symbolic scalar.  kind: num | int | str | bool."""
    __slots__ = ('t', 'kind', 'dom', 'path', 'tag')

    def __init__(self, t, kind, dom=None, path=None, tag=None):
        self.t, self.kind, self.dom, self.path, self.tag = t, kind, dom, path, tag

    def __repr__(self):
        return 'Sc(%s:%s)' % (self.t, self.kind)


class Ite:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Ite(%s, %r, %r)' % (self.c, self.a, self.b)


class Ref:
    """Reference to a heap cell (object, list or dict)."""
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(('ref', self.oid))

    def __repr__(self):
        return 'Ref#%s' % (self.oid,)


class TupleV:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Poison:
    """Value unknown to the analysis (e.g. last value of a loop temporary)."""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Poison(%s)' % self.why


class Opaque:
    """Uninterpreted value: name applied to arguments."""
    __slots__ = ('name', 'args')

    def __init__(self, name, args=()):
        self.name, self.args = name, tuple(args)

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.name == self.name and len(o.args) == len(self.args) and \
            all(val_same(x, y) for x, y in zip(self.args, o.args))

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '%s(%s)' % (self.name, ', '.join(map(repr, self.args)))


# ----------------------------------------------------------------- ropes
class Rope:
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __repr__(self):
        return 'Rope[%s]' % ' '.join(map(repr, self.segs))


class Hole:
    """str() of a scalar, after the textual operations `ops`."""
    __slots__ = ('v', 'ops')

    def __init__(self, v, ops=()):
        self.v, self.ops = v, tuple(ops)

    def __repr__(self):
        return '{%s%s}' % (self.v.path or self.v.t, ''.join('!%s' % (o,) for o in self.ops))


class RIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return '<%s?%r:%r>' % (self.c, self.a, self.b)


class RStar:
    """Concatenation, over the elements of src in order, of body (a rope in src.elem)."""
    __slots__ = ('src', 'body', 'sep')

    def __init__(self, src, body, sep=''):
        self.src, self.body, self.sep = src, body, sep

    def __repr__(self):
        return '(*%s: %r)' % (self.src.path, self.body)


class RSub:
    """Text produced by obj.to_sexpr under its contract."""
    __slots__ = ('obj', 'cls', 'indent', 'newline', 'ops')

    def __init__(self, obj, cls, indent, newline, ops=()):
        self.obj, self.cls, self.indent, self.newline, self.ops = obj, cls, indent, newline, ops

    def __repr__(self):
        return '[[%s %s]]' % (self.cls.name, self.obj)


class RSp:
    """n spaces, n >= 0 symbolic."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return '_%s_' % self.n


class RAcc:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return 'ACC(%s)' % (self.loc,)


def seg_same(x, y):
    if x is y:
        return True
    if isinstance(x, str) or isinstance(y, str):
        return isinstance(x, str) and isinstance(y, str) and x == y
    if type(x) is not type(y):
        return False
    if isinstance(x, Hole):
        return val_same(x.v, y.v) and x.ops == y.ops
    if isinstance(x, RIte):
        return same(x.c, y.c) and rope_same(x.a, y.a) and rope_same(x.b, y.b)
    if isinstance(x, RStar):
        return x.src is y.src and rope_same(x.body, y.body) and x.sep == y.sep
    if isinstance(x, RSub):
        return val_same(x.obj, y.obj) and x.cls is y.cls and val_same(x.indent, y.indent) and \
            val_same(x.newline, y.newline) and x.ops == y.ops
    if isinstance(x, RSp):
        return same(x.n, y.n) if not isinstance(x.n, int) and not isinstance(y.n, int) else x.n is y.n
    if isinstance(x, RAcc):
        return x.loc == y.loc
    return False


def rope_same(a, b):
    return len(a.segs) == len(b.segs) and all(seg_same(x, y) for x, y in zip(a.segs, b.segs))


def val_same(a, b):
    """Syntactic identity of values (sound, incomplete)."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Sc):
        return a.kind == b.kind and a.t.eq(b.t)
    if isinstance(a, Ite):
        return same(a.c, b.c) and val_same(a.a, b.a) and val_same(a.b, b.b)
    if isinstance(a, Ref):
        return a.oid == b.oid
    if isinstance(a, TupleV):
        return len(a.items) == len(b.items) and all(val_same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Rope):
        return rope_same(a, b)
    if isinstance(a, (Poison,)):
        return a.why == b.why
    if isinstance(a, (bool, int, float, str, type(None))):
        return a == b
    if isinstance(a, Opaque):
        return a == b
    if isinstance(a, (GOne, GStar)):
        return g_same(a, b)
    return False


def to_rope(v):
    """Value -> Rope for string formatting of an already-string value."""
    if isinstance(v, Rope):
        return v
    if isinstance(v, str):
        return Rope((v,)) if v else Rope(())
    if isinstance(v, Sc):
        return Rope((Hole(v),))
    if isinstance(v, Ite):
        return Rope((RIte(v.c, to_rope(v.a), to_rope(v.b)),))
    raise Unsupported('to_rope %r' % (v,))


def rope_value(r):
    """Normalise a rope to the simplest value."""
    segs = [s for s in r.segs if s != '']
    if not segs:
        return ''
    if all(isinstance(s, str) for s in segs):
        return ''.join(segs)
    if len(segs) == 1 and isinstance(segs[0], Hole) and not segs[0].ops and segs[0].v.kind == 'str':
        return segs[0].v
    return Rope(segs)


def cat(*vs):
    segs = []
    for v in vs:
        segs.extend(to_rope(v).segs)
    return rope_value(Rope(segs))


def is_strlike(v):
    return isinstance(v, (str, Rope)) or (isinstance(v, Sc) and v.kind == 'str')


def merge_ropes(c, a, b):
    ra, rb = to_rope(a), to_rope(b)
    if rope_same(ra, rb):
        return a
    k = 0
    while k < len(ra.segs) and k < len(rb.segs) and seg_same(ra.segs[k], rb.segs[k]):
        k += 1
    pre = list(ra.segs[:k])
    ta, tb = list(ra.segs[k:]), list(rb.segs[k:])
    # one literal a proper prefix of the other: factor it
    if ta and tb and isinstance(ta[0], str) and isinstance(tb[0], str):
        if tb[0].startswith(ta[0]):
            pre.append(ta[0])
            tb[0] = tb[0][len(ta[0]):]
            ta = ta[1:]
        elif ta[0].startswith(tb[0]):
            pre.append(tb[0])
            ta[0] = ta[0][len(tb[0]):]
            tb = tb[1:]
    ta = [s for s in ta if s != '']
    tb = [s for s in tb if s != '']
    if not pre:
        return Ite(c, a, b)
    # common suffix (syntactic)
    suf = []
    while ta and tb and seg_same(ta[-1], tb[-1]):
        suf.insert(0, ta[-1])
        ta.pop()
        tb.pop()
    mid = [] if (not ta and not tb) else [RIte(c, Rope(ta), Rope(tb))]
    return rope_value(Rope(pre + mid + suf))


# --------------------------------------------------- guarded sequences
class GOne:
    __slots__ = ('g', 'v')

    def __init__(self, g, v):
        self.g, self.v = g, v

    def __repr__(self):
        return '%s%r' % ('' if self.g is True else '[%s]' % self.g, self.v)


class GStar:
    """for each element of src (in order): the items `body` (tuple of GOne/GStar)."""
    __slots__ = ('g', 'src', 'body', 'born')

    def __init__(self, g, src, body, born=None):
        self.g, self.src, self.body = g, src, tuple(body)
        self.born = born        # cells up to this number existed before the loop: shared by all its elements

    def __repr__(self):
        return '%s*%s%r' % ('' if self.g is True else '[%s]' % self.g, self.src.path, self.body)


class GAcc:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


def g_same(x, y):
    if x is y:
        return True
    if type(x) is not type(y):
        return False
    if isinstance(x, GOne):
        return same(x.g, y.g) and val_same(x.v, y.v)
    if isinstance(x, GStar):
        return same(x.g, y.g) and x.src is y.src and len(x.body) == len(y.body) and \
            all(g_same(p, q) for p, q in zip(x.body, y.body))
    if isinstance(x, GAcc):
        return x.loc == y.loc
    return False


def g_guard(c, it):
    if isinstance(it, GOne):
        return GOne(And_(c, it.g), it.v)
    if isinstance(it, GStar):
        return GStar(And_(c, it.g), it.src, it.body)
    raise Unsupported('guarded accumulator')


def merge_items(c, a, b):
    k = 0
    while k < len(a) and k < len(b) and g_same(a[k], b[k]):
        k += 1
    pre = list(a[:k])
    a, b = list(a[k:]), list(b[k:])
    suf = []
    while a and b and g_same(a[-1], b[-1]):
        suf.insert(0, a.pop())
        b.pop()
    return tuple(pre + [g_guard(c, x) for x in a] + [g_guard(Not_(c), x) for x in b] + suf)


class StarSrc:
    """A symbolic list of arbitrary length n >= 0 with generic element `elem`
    at generic index `idx` (0 <= idx < n)."""

    def __init__(self, path, n, idx, elem_fn):
        self.path, self.n, self.idx, self._fn = path, n, idx, elem_fn
        self._elem = None

    @property
    def elem(self):
        if self._elem is None:
            self._elem = self._fn(self.path + '[*]')
        return self._elem

    def __repr__(self):
        return '<%s>' % self.path


# ------------------------------------------------------------- heap cells
class HObj:
    __slots__ = ('cls', 'fields', 'origin', 'src')

    def __init__(self, cls, fields, origin='fresh', src=None):
        self.cls, self.fields, self.origin, self.src = cls, fields, origin, src

    def with_(self, name, v):
        f = dict(self.fields)
        f[name] = v
        return HObj(self.cls, f, self.origin, self.src)


class HList:
    __slots__ = ('items', 'origin', 'sub')

    def __init__(self, items, origin='fresh', sub=None):
        self.items, self.origin, self.sub = tuple(items) if items is not None else None, origin, sub


class HDict:
    """Ordered items: GOne(g, TupleV(k, v)) / GStar."""
    __slots__ = ('items', 'origin')

    def __init__(self, items, origin='fresh'):
        self.items, self.origin = tuple(items), origin
