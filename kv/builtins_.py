"""Assumed contracts of the Python built-ins the code uses (listed in evidence)."""
import re
import z3, ast
from .values import *
from . import interp as X
from .interp import BuiltinV, TypeV, IterV, FileV, PathV, MatchV, res, _Lazy, Dead, ClassInfo
from .pysrc import ExtName, FuncInfo

ASSUMED = set()


MUTATORS = ('list.sort', 'list.reverse', 'list.remove', 'dict.pop', 'dict.update', 'dict.setdefault', 'dict.clear', 'dict.popitem')


def call(I, st, f, args, kwargs, node):
    ASSUMED.add(f.name)
    fn = globals().get('b_' + f.name.replace('.', '_'))
    if fn is None:
        if '.' in f.name and f.recv is None:
            # list.append(xs, v) style
            t, m = f.name.split('.', 1)
            if args:
                return I.leaves(st, args[0], lambda s, x: call(I, s, BuiltinV(f.name, x), args[1:], kwargs, node))
        kind = f.name.split('.')[0]
        if '.' in f.name and kind in ('list', 'dict', 'str') and not hasattr({'list': list, 'dict': dict, 'str': str}[kind], f.name.split('.')[1]):
            I.do_raise(st, 'AttributeError', node, f.name)
        if f.name in MUTATORS and isinstance(f.recv, Ref):
            _mut(I, st, f.recv)
        raise Unsupported('built-in %s' % f.name)
    if '.' in f.name and f.recv is None and args:
        return I.leaves(st, args[0], lambda s, x: fn(I, s, x, list(args[1:]), kwargs, node))
    if '.' in f.name:
        return fn(I, st, f.recv, list(args), kwargs, node)
    return fn(I, st, list(args), kwargs, node)


def call_ext(I, st, f, args, kwargs, node):
    name = f.module + '.' + f.name
    ASSUMED.add(name)
    h = I.stubs.get(('ext', name))
    if h is not None:
        return h(I, st, None, args, kwargs, node)
    if name == 'pathlib.Path' and len(args) == 1 and not kwargs:
        p = I.prune(st, args[0])
        return p if isinstance(p, PathV) else PathV(p)
    if name == 'io.StringIO' and not args and not kwargs:
        return X.BufV(I.alloc(st, HList(())))
    if name in ('operator.attrgetter', 'operator.itemgetter') and args and not kwargs:
        keys = [I.prune(st, a) for a in args]
        if all(isinstance(k, (str, int)) and not (f.name == 'attrgetter' and '.' in k) for k in keys):
            return X.GetterV(f.name, keys)
    if name == 'functools.partial' and args:
        return X.PartialV(args[0], args[1:], kwargs)
    if name == 'itertools.chain' and not kwargs:
        return IterV([i for a in args for i in I.iter_items(st, a, node)], True)
    if name == 'itertools.islice' and len(args) == 3 and not kwargs and I.prune(st, args[2]) is None and isinstance(I.prune(st, args[1]), int):
        tmp = '.islice%d' % next(I.oid)
        st.locals[tmp] = args[0]
        e = ast.Subscript(value=ast.Name(id=tmp, ctx=ast.Load()),
                          slice=ast.Slice(lower=ast.Constant(I.prune(st, args[1]))), ctx=ast.Load())
        return IterV(I.iter_items(st, I.ev(ast.fix_missing_locations(ast.copy_location(e, node)), st), node), True)
    if name == 'os.fspath' and len(args) == 1:
        return unpath(I, st, args[0])
    if name in ('os.path.isfile', 'os.path.exists') and len(args) == 1:
        p = unpath(I, st, args[0])
        return Sc(z3.Bool('%s(%r)' % (f.name, p)), 'bool')
    if name in ('copy.deepcopy', 'copy.copy'):
        raise Unsupported(name)
    if name == 're.compile' and len(args) == 1 and not kwargs and isinstance(I.prune(st, args[0]), str):
        return X.PatV(I.prune(st, args[0]))
    if name == 're.finditer' and len(args) == 2 and not kwargs:
        pat = I.prune(st, args[0])
        if isinstance(pat, X.PatV):
            pat = pat.pat
        if isinstance(pat, str):
            return X.TokensV(pat, args[1])
    if name == 're.sub' and len(args) == 3 and not kwargs:
        pat, rep = I.prune(st, args[0]), I.prune(st, args[1])
        if isinstance(pat, X.PatV):
            pat = pat.pat
        return sub_text(I, st, pat, rep, args[2], node)
    if name == 're.escape' and len(args) == 1 and isinstance(I.prune(st, args[0]), str):
        return re.escape(I.prune(st, args[0]))
    if name == 're.match' and len(args) == 2:
        pat = I.prune(st, args[0])
        if not isinstance(pat, str) or kwargs:
            raise Unsupported('regular expression')

        def f(s, x):
            if isinstance(x, str):
                m = re.match(pat, x)
                return None if m is None else MatchV(pat, x, {i: m.group(i) for i in range(m.re.groups + 1)})
            if not isinstance(x, Rope) and not (isinstance(x, Sc) and x.kind == 'str'):
                I.do_raise(s, 'TypeError', node, 're.match')
            from . import regex
            r = regex.match(I, s, pat, x)
            return Ite(r[0], r[1], None) if isinstance(r, tuple) else r
        return I.leaves(st, args[1], f)
    if f.module.startswith('typing'):
        return None
    if name.startswith(('datetime.', 'calendar.', 'time.', 'uuid.', 'os.')):
        return Opaque('func:' + name, tuple(args))
    raise Unsupported('external %s' % name)


def sub_text(I, st, pat, rep, subject, node):
    """re.sub of a pattern that means one character"""
    if not isinstance(pat, str) or not isinstance(rep, str):
        raise Unsupported('regular expression')
    if len(pat) == 3 and pat[0] == '(' and pat[2] == ')':
        pat = pat[1]
        rep = rep.replace('\\1', '\\g<0>')
    ch = pat[1] if len(pat) == 2 and pat[0] == '\\' and not pat[1].isalnum() else pat
    if len(ch) != 1 or ch in '.^$*+?{}[]\\|()' and ch == pat:
        raise Unsupported('regular expression')
    new = re.sub(pat, rep, ch)

    def f(s, x):
        if isinstance(x, str):
            return re.sub(pat, rep, x)
        if not X.is_text(x):
            I.do_raise(s, 'TypeError', node, 're.sub')
        return I.rope_op(x, ('rep', ch, new))
    return I.leaves(st, subject, f)


# ---------------------------------------------------------------- functions
def b_len(I, st, a, k, n):
    def f(s, x):
        if isinstance(x, str):
            return len(x)
        if isinstance(x, TupleV):
            return len(x.items)
        if isinstance(x, Sc) and x.kind == 'str':
            return Sc(I.w.slen(x.t), 'int', 'len')
        if isinstance(x, Ref):
            c = I.cell(s, x)
            if isinstance(c, (HList, HDict)):
                its = tuple(I.items_of(s, x))
                try:
                    v = I.seq_len(s, its)
                except Unsupported:
                    if not isinstance(c, HList) or any(isinstance(i, GAcc) for i in its):
                        raise
                    I.w.approx.append('length of a filtered list')
                    v = Sc(z3.Int('len!%d' % next(I.oid)), 'int', 'len')
                    s.pc = s.pc + (v.t >= 0,)
                if isinstance(v, Sc):
                    v = Sc(v.t, 'int', 'len', None, ('len', its))
                return v
            I.do_raise(s, 'TypeError', n, 'len')
        if isinstance(x, Rope):
            n = z3.Int('len:%s' % I.w.rope_id(x))
            I.w.ax(n >= 0)
            e = I.rope_empty(s, x)
            I.w.ax((n == 0) == (z3.BoolVal(e) if isinstance(e, bool) else e))
            return Sc(n, 'int', 'len')
        if isinstance(x, Opaque):
            return Sc(z3.Int('len:%r' % x), 'int', 'len')
        I.do_raise(s, 'TypeError', n, 'len of %r' % (x,))
    return I.leaves(st, a[0], f)


def b_str(I, st, a, k, n):
    return I.tostr(st, a[0], n) if a else ''


def b_repr(I, st, a, k, n):
    raise Unsupported('repr')


def b_format(I, st, a, k, n):
    return I.fmt(st, a[0], a[1] if len(a) > 1 else '', n)


def b_bool(I, st, a, k, n):
    return X._b2v(I.truth(st, a[0], n)) if a else False


def b_float(I, st, a, k, n):
    def f(s, x):
        if isinstance(x, (int, float)):
            return float(x)
        if isinstance(x, Sc) and x.kind in ('num', 'int'):
            return x if x.kind == 'num' else Sc(z3.ToReal(x.t), 'num', 'num')
        if isinstance(x, str):
            try:
                return float(x)
            except ValueError:
                I.do_raise(s, 'ValueError', n)
        if x is None or isinstance(x, Ref):
            I.do_raise(s, 'TypeError', n, 'float(%r)' % (x,))
        if isinstance(x, Rope) and len(x.segs) == 1 and isinstance(x.segs[0], Hole) and not x.segs[0].ops and \
                x.segs[0].v.kind in ('num', 'int'):
            return f(s, x.segs[0].v)
        raise Unsupported('float()')
    return I.leaves(st, a[0], f)


def b_int(I, st, a, k, n):
    def f(s, x):
        if isinstance(x, (bool, int, float)):
            return int(x)
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError:
                I.do_raise(s, 'ValueError', n)
        if isinstance(x, Sc) and x.kind == 'int':
            return x
        if isinstance(x, Rope) and len(x.segs) == 1 and isinstance(x.segs[0], Hole) and not x.segs[0].ops and x.segs[0].v.kind in ('num', 'int'):
            ty = I.w.syms.get(x.segs[0].v.path, (None, None, None))[2]
            if x.segs[0].v.kind == 'int' or getattr(ty, 'int_', False):
                return x.segs[0].v
        if x is None or isinstance(x, Ref):
            I.do_raise(s, 'TypeError', n, 'int(%r)' % (x,))
        if isinstance(x, Sc) and x.kind == 'num':
            if I.on_tokens is not None and not I.sat(s, z3.Not(z3.IsInt(x.t))):
                return Sc(z3.ToInt(x.t), 'int', 'num')
            F = z3.Function('trunc', z3.RealSort(), z3.RealSort())
            I.w.ax(z3.And(z3.IsInt(F(x.t)), z3.Implies(z3.IsInt(x.t), F(x.t) == x.t)))
            return Sc(F(x.t), 'num', 'num')
        raise Unsupported('int()')
    return I.leaves(st, a[0], f)


def b_round(I, st, a, k, n):
    """round(): a multiple of 10**-digits no further than half a unit away (which of two equally near
    ones, and the floating-point error of the scaling, are left open)."""
    d = I.prune(st, a[1] if len(a) > 1 else k.get('ndigits'))

    def f(s, x):
        if d is not None and not isinstance(d, int):
            raise Unsupported('round() digits')
        if isinstance(x, (bool, int, float)):
            return round(x, d) if d is not None else round(x)
        if isinstance(x, Sc) and x.kind == 'int' and (d is None or d >= 0):
            return x
        if isinstance(x, Sc) and x.kind == 'num':
            p = z3.RealVal(10 ** abs(d or 0))
            unit = p if (d or 0) < 0 else 1 / p
            F = z3.Function('round%d' % (d or 0), z3.RealSort(), z3.RealSort())
            r = F(x.t)
            I.w.ax(z3.And(z3.IsInt(r / unit), r - x.t <= unit / 2, x.t - r <= unit / 2))
            return Sc(r, 'num', 'num')
        if x is None or X.is_text(x) or isinstance(x, Ref):
            I.do_raise(s, 'TypeError', n, 'round(%r)' % (x,))
        raise Unsupported('round()')
    return I.leaves(st, a[0], f)


def b_isinstance(I, st, a, k, n):
    return I.leaves(st, a[0], lambda s, x: X._b2v(I.isinst(s, x, a[1])))


def b_type(I, st, a, k, n):
    return I.leaves(st, a[0], lambda s, x: I.pytype(s, x))


def b_callable(I, st, a, k, n):
    raise Unsupported('callable')


def b_print(I, st, a, k, n):
    f = I.prune(st, k.get('file'))
    if f is not None and not isinstance(f, (FileV, X.BufV)):
        raise Unsupported('print to %r' % (f,))
    if f is None:
        return None
    sep, end = I.prune(st, k.get('sep', ' ')), I.prune(st, k.get('end', '\n'))
    out = []
    for i, x in enumerate(a):
        out += [sep if sep is not None else ' '] * (i > 0) + [b_str(I, st, [x], {}, n)]
    (b_buf_write if isinstance(f, X.BufV) else b_file_write)(I, st, f, [cat(*(out + [end if end is not None else '\n']))], {}, n)
    return None


def b_buf_write(I, st, r, a, k, n):
    def f(s, x):
        if not (isinstance(x, str) or X.is_text(x)):
            I.do_raise(s, 'TypeError', n, 'write of %r' % (x,))
        return x
    x = I.leaves(st, a[0], f)
    b_list_append(I, st, r.ref, [x], {}, n)
    return Opaque('written', (x,))


def b_buf_writelines(I, st, r, a, k, n):
    b_list_extend(I, st, r.ref, [a[0]], {}, n)
    return None


def b_buf_getvalue(I, st, r, a, k, n):
    return b_str_join(I, st, '', [r.ref], {}, n)


def b_buf_close(I, st, r, a, k, n):
    return None


def b_range(I, st, a, k, n):
    v = [I.prune(st, x) for x in a]
    if all(isinstance(x, int) for x in v):
        r = range(*v)
        if len(r) > 5000:
            raise Unsupported('range size')
        return IterV([GOne(True, i) for i in r])
    lo = v[0] if len(v) > 1 else 0
    t = v[1] if len(v) > 1 else v[0]
    if isinstance(t, Sc) and t.tag and t.tag[0] == 'len' and isinstance(lo, int) and lo >= 0 and (len(v) < 3 or v[2] == 1):
        return IterV(indices(I, st, t.tag[1], lo, n))
    if len(v) == 1 or (len(v) == 2 and v[0] == 0):
        t = v[-1]
        if isinstance(t, Sc):
            for c in I.w.cells.values():
                if isinstance(c, HList) and c.items and len(c.items) == 1 and isinstance(c.items[0], GStar):
                    src = c.items[0].src
                    if src.n.eq(t.t):
                        return IterV([GStar(True, src, (GOne(True, Sc(src.idx, 'int', 'idx')),))])
    raise Unsupported('range')


def indices(I, st, items, lo, n):
    """range(lo, len(xs)) for xs = items: the positions, each knowing the entry at it"""
    keep = I.drop(st, items, lo, n)
    k0 = len(items) - len(keep)
    if not all(x is y for x, y in zip(items[k0:], keep)):
        raise Unsupported('range over optional entries')
    pos, out = 0, []

    def idx(t, v, approx=False):
        if approx:
            I.w.approx.append('position in a filtered list')
        return Sc(z3.IntVal(t) if isinstance(t, int) else t, 'int', 'idx', None, ('idx', items, res(v)))
    for j, it in enumerate(items):
        if isinstance(it, GAcc):
            raise Unsupported('range over accumulator')
        if isinstance(it, GOne):
            new = GOne(it.g, idx(pos, it.v))
            step = 1 if it.g is True else z3.If(it.g, 1, 0)
        else:
            flat = all(isinstance(b, GOne) and b.g is True for b in it.body)
            m = len(it.body)
            F = None if flat else z3.Function('pos!%d' % next(I.oid), z3.IntSort(), z3.IntSort(), z3.IntSort())

            def walk(body, src):
                r = []
                for q, b in enumerate(body):
                    if isinstance(b, GOne):
                        r.append(GOne(b.g, idx(pos + src.idx * m + q if flat else F(src.idx, q), b.v, not flat)))
                    elif isinstance(b, GStar):
                        r.append(GStar(b.g, b.src, walk(b.body, b.src)))
                    else:
                        raise Unsupported('range over accumulator')
                return r
            new = GStar(it.g, it.src, walk(it.body, it.src))
            step = it.src.n * m if flat else z3.Int('len!%d' % next(I.oid))
            if it.g is not True:
                step = z3.If(it.g, step, 0)
        if j >= k0:
            out.append(new)
        pos = pos + step
    return out


def b_enumerate(I, st, a, k, n):
    start = 0
    if len(a) > 1 or 'start' in k:
        start = I.prune(st, a[1] if len(a) > 1 else k['start'])
        if not isinstance(start, int):
            raise Unsupported('enumerate start')
    items = I.iter_items(st, a[0], n)
    def pair(x, y):
        if isinstance(x, GOne):
            ix = x.v if not start else Sc(z3.simplify(x.v.t + start), 'int', 'idx')
            if z3.is_int_value(ix.t):
                ix = ix.t.as_long()
            return GOne(x.g, TupleV((ix, res(y.v))))
        return GStar(x.g, x.src, [pair(p, q) for p, q in zip(x.body, y.body)])
    return IterV([pair(x, y) for x, y in zip(indices(I, st, tuple(items), 0, n), items)], True)


def b_list(I, st, a, k, n):
    if not a:
        return I.alloc(st, HList(()))
    return I.alloc(st, HList(I.iter_items(st, a[0], n)))


def b_tuple(I, st, a, k, n):
    if not a:
        return TupleV(())
    its = I.iter_items(st, a[0], n)
    if I.is_simple(its):
        return TupleV([res(i.v) for i in its])
    return IterV(its)


def b_set(I, st, a, k, n):
    return X.SetV(I.iter_items(st, a[0], n) if a else ())


b_frozenset = b_set


def b_dict(I, st, a, k, n):
    items = []
    if a:
        v = I.prune(st, a[0])
        c = I.cell(st, v) if isinstance(v, Ref) else None
        if isinstance(c, HDict):
            items = list(c.items)
        else:
            its = [I.prune(st, i.v) if isinstance(i, GOne) and i.g is True else None for i in I.iter_items(st, v, n)]
            if not all(isinstance(x, TupleV) and len(x.items) == 2 for x in its):
                raise Unsupported('dict()')
            r = I.alloc(st, HDict(()))
            for x in its + [TupleV(x) for x in k.items()]:
                I.dict_set(st, r, x.items[0], x.items[1], n)
            return r
    for kk, vv in k.items():
        items.append(GOne(True, TupleV((kk, vv))))
    return I.alloc(st, HDict(items))


def b_iter(I, st, a, k, n):
    return IterV(I.iter_items(st, a[0], n), True)


def b_map(I, st, a, k, n):
    if len(a) != 2:
        raise Unsupported('map')
    name = '.mapf%d' % next(I.oid)
    st.locals[name] = a[0]
    nm2 = '.mapi%d' % next(I.oid)
    st.locals[nm2] = a[1]
    e = ast.parse('[F(x) for x in XS]', mode='eval').body
    for q in ast.walk(e):
        if isinstance(q, ast.Name):
            q.id = {'F': name, 'XS': nm2, 'x': '.x' + name}.get(q.id, q.id)
    e.shown = n
    return IterV(I.comp(e, st), True)


def b_filter(I, st, a, k, n):
    name = '.filf%d' % next(I.oid)
    st.locals[name] = a[0]
    nm2 = '.fili%d' % next(I.oid)
    st.locals[nm2] = a[1]
    src = '[x for x in XS if F(x)]' if a[0] is not None else '[x for x in XS if x]'
    e = ast.parse(src, mode='eval').body
    for q in ast.walk(e):
        if isinstance(q, ast.Name):
            q.id = {'F': name, 'XS': nm2, 'x': '.x' + name}.get(q.id, q.id)
    e.shown = n
    return IterV(I.comp(e, st), True)


def b_zip(I, st, a, k, n):
    its = [I.iter_items(st, x, n) for x in a]
    if all(I.is_simple(x) for x in its):
        return IterV([GOne(True, TupleV([res(q.v) for q in t])) for t in zip(*its)], True)
    raise Unsupported('zip')


def b_any(I, st, a, k, n):
    out = False
    for it in I.iter_items(st, a[0], n):
        if isinstance(it, GOne):
            if I.sat(st, it.g):
                out = Or_(out, And_(it.g, I.truth(I.fork(st, it.g), res(it.v), n)))
        else:
            c = False
            for b in it.body:
                c = Or_(c, And_(b.g, I.truth(I.fork(st, And_(it.g, it.src.n > 0)), res(b.v), n)))
            if c is False:
                continue
            ex = z3.Bool('any:%s:%s' % (it.src.path, next(I.w.fresh)))
            I.w.ax(z3.Implies(ex, it.src.n > 0))
            I.w.ax(z3.Implies(z3.And(it.src.n > 0, X._z(c)), ex))
            I.w.approx.append('existential over %s' % it.src.path)
            out = Or_(out, And_(it.g, ex))
    return X._b2v(out)


def b_all(I, st, a, k, n):
    out = True
    for it in I.iter_items(st, a[0], n):
        if isinstance(it, GOne):
            if I.sat(st, it.g):
                out = And_(out, Or_(Not_(it.g), I.truth(I.fork(st, it.g), res(it.v), n)))
        else:
            raise Unsupported('all over unbounded list')
    return X._b2v(out)


def b_getattr(I, st, a, k, n):
    name = I.prune(st, a[1])
    if not isinstance(name, str):
        raise Unsupported('getattr with symbolic name')
    if len(a) == 3:
        def f(s, x):
            if isinstance(x, Ref) and isinstance(I.cell(s, x), HObj):
                c = I.cell(s, x)
                if not I.has_field(s, x, name) and c.cls.find(name) is None and c.cls.find_attr(name) is None:
                    return a[2]
                return I.getattr(s, x, name, n)
            raise Unsupported('getattr default')
        return I.leaves(st, a[0], f)
    return I.leaves(st, a[0], lambda s, x: I.getattr(s, x, name, n))


def b_hasattr(I, st, a, k, n):
    name = I.prune(st, a[1])

    def f(s, x):
        if isinstance(x, Ref) and isinstance(I.cell(s, x), HObj):
            c = I.cell(s, x)
            return I.has_field(s, x, name) or c.cls.find(name) is not None or c.cls.find_attr(name) is not None
        raise Unsupported('hasattr')
    return I.leaves(st, a[0], f)


def b_setattr(I, st, a, k, n):
    name = I.prune(st, a[1])
    if not isinstance(name, str):
        raise Unsupported('setattr with symbolic name')
    I.leaves(st, a[0], lambda s, x: I.setattr(s, x, name, a[2], n))
    return None


def b_min(I, st, a, k, n):
    return _minmax(I, st, a, k, n, min)


def b_max(I, st, a, k, n):
    return _minmax(I, st, a, k, n, max)


def _minmax(I, st, a, k, n, fn):
    v = [I.prune(st, x) for x in a]
    if len(v) > 1 and all(isinstance(x, (int, float)) for x in v) and not k:
        return fn(v)
    raise Unsupported('min/max')


def b_abs(I, st, a, k, n):
    v = I.prune(st, a[0])
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Sc) and v.kind in ('num', 'int'):
        return Sc(z3.If(v.t >= 0, v.t, -v.t), v.kind, 'num')
    raise Unsupported('abs')


def b_round(I, st, a, k, n):
    v = [I.prune(st, x) for x in a]
    if all(isinstance(x, (int, float)) for x in v):
        return round(*v)
    if isinstance(v[0], Sc) and v[0].kind in ('num', 'int') and (len(v) == 1 or isinstance(v[1], int)):
        if v[0].kind == 'int':
            return v[0]
        I.w.approx.append('round()')
        F = z3.Function('round%s' % (v[1] if len(v) > 1 else ''), z3.RealSort(), z3.RealSort())
        return Sc(F(v[0].t), 'num', 'num')
    raise Unsupported('round')


def b_sorted(I, st, a, k, n):
    v = I.prune(st, a[0])
    if isinstance(v, X.SetV) and I.is_simple(v.items) and all(isinstance(res(i.v), (int, float, str)) for i in v.items) and not k:
        return I.alloc(st, HList([GOne(True, x) for x in sorted({res(i.v) for i in v.items})]))
    its = I.iter_items(st, a[0], n)
    if I.is_simple(its) and not k and all(isinstance(res(i.v), (int, float, str)) for i in its):
        return I.alloc(st, HList([GOne(True, v) for v in sorted(res(i.v) for i in its)]))
    if len(its) <= 1 and I.is_simple(its):
        return I.alloc(st, HList(its))
    # a permutation of the input: modelled as an unrelated list of the same length
    raise Unsupported('sorted')


def b_reversed(I, st, a, k, n):
    its = I.iter_items(st, a[0], n)
    if all(isinstance(i, GOne) for i in its):
        return IterV(its[::-1], True)
    raise Unsupported('reversed')


def b_object(I, st, a, k, n):
    raise Unsupported('object()')


def b_open(I, st, a, k, n):
    kw = dict(k)
    path = unpath(I, st, a[0] if a else kw.pop('file', None))
    kw.pop('file', None)
    mode = a[1] if len(a) > 1 else kw.pop('mode', 'r')
    kw.pop('mode', None)
    if len(a) > 3:
        kw['encoding'] = a[3]
    if len(a) > 2 and I.prune(st, a[2]) != -1:
        raise Unsupported('open buffering')
    h = 'fh%d' % next(I.oid)
    if getattr(I, 'open_raises', False) and isinstance(I.prune(st, mode), str) and 'r' in I.prune(st, mode):
        I.raise_if(st, z3.Not(z3.Bool('isfile(%r)' % (I.prune(st, path),))), 'OSError', n, 'no such file')
    st.trace = st.trace + (('open', h, path, I.prune(st, mode), tuple(sorted(kw.items(), key=lambda t: t[0]))),)
    return FileV(h)


def unpath(I, st, p):
    p = I.prune(st, p)
    return p.p if isinstance(p, PathV) else p


def b_path_is_file(I, st, r, a, k, n):
    return Sc(z3.Bool('isfile(%r)' % (r.p,)), 'bool')


def b_path_exists(I, st, r, a, k, n):
    return Sc(z3.Bool('exists(%r)' % (r.p,)), 'bool')


def b_path_open(I, st, r, a, k, n):
    return b_open(I, st, [r.p] + list(a), k, n)


def b_path_read_text(I, st, r, a, k, n):
    kw = dict(zip(('encoding', 'errors'), a), **k)
    f = b_open(I, st, [r.p, 'r'], kw, n)
    v = b_file_read(I, st, f, [], {}, n)
    b_file_close(I, st, f, [], {}, n)
    return v


def b_path_write_text(I, st, r, a, k, n):
    text = a[0] if a else k['data']
    kw = dict(zip(('encoding', 'errors', 'newline'), a[1:]), **{x: y for x, y in k.items() if x != 'data'})
    f = b_open(I, st, [r.p, 'w'], kw, n)
    b_file_write(I, st, f, [text], {}, n)
    b_file_close(I, st, f, [], {}, n)
    return None


def b_file_read(I, st, recv, a, k, n):
    size = I.prune(st, a[0]) if a else -1
    if size is not None and not isinstance(size, int) or any(e[0] == 'read' and e[1] == recv.h for e in st.trace):
        raise Unsupported('partial read')
    st.trace = st.trace + (('read', recv.h),)
    return I.w.strsc(('content:%s' if size is None or size < 0 else 'at most ' + str(size) + ' characters of %s') % [e for e in st.trace if e[0] == 'open' and e[1] == recv.h][0][1])


def b_file_write(I, st, recv, a, k, n):
    st.trace = st.trace + (('write', recv.h, a[0]),)
    return None


def b_file_writelines(I, st, recv, a, k, n):
    for it in I.iter_items(st, a[0], n):
        if not isinstance(it, GOne) or it.g is not True:
            raise Unsupported('writelines')
        b_file_write(I, st, recv, [it.v], {}, n)
    return None


def b_file_close(I, st, recv, a, k, n):
    st.trace = st.trace + (('close', recv.h),)
    return None


# -------------------------------------------------------------- list methods
def _mut(I, st, r):
    c = I.cell(st, r)
    if c.origin in ('input', 'global'):
        I.mutated_input.append((r.oid, 'list', st.pc))
    return c


def b_list_append(I, st, r, a, k, n):
    c = _mut(I, st, r)
    st.heap[r.oid] = HList(tuple(I.items_of(st, r)) + (GOne(True, a[0]),), c.origin, None)
    return None


def b_list_extend(I, st, r, a, k, n):
    c = _mut(I, st, r)
    st.heap[r.oid] = HList(tuple(I.items_of(st, r)) + tuple(I.iter_items(st, a[0], n)), c.origin, None)
    return None


def b_list_insert(I, st, r, a, k, n):
    c = _mut(I, st, r)
    i = I.prune(st, a[0])
    its = list(I.items_of(st, r))
    if i == 0:
        st.heap[r.oid] = HList([GOne(True, a[1])] + its, c.origin, None)
        return None
    raise Unsupported('insert')


def b_list_copy(I, st, r, a, k, n):
    return I.alloc(st, HList(I.items_of(st, r)))


def b_list_clear(I, st, r, a, k, n):
    c = _mut(I, st, r)
    st.heap[r.oid] = HList((), c.origin, None)
    return None


def b_list_pop(I, st, r, a, k, n):
    c = _mut(I, st, r)
    its = list(I.items_of(st, r))
    i = I.prune(st, a[0]) if a else -1
    if isinstance(i, int) and i in (0, -1):
        if not its:
            I.do_raise(st, 'IndexError', n)
        it = its[i]
        if isinstance(it, GOne) and it.g is True:
            its.pop(i)
            st.heap[r.oid] = HList(its, c.origin, None)
            return res(it.v)
        if len(its) <= 6 and all(isinstance(x, GOne) for x in its):
            # the first (last) entry that is there; the others stay
            seq = list(range(len(its))) if i == 0 else list(reversed(range(len(its))))
            I.raise_if(st, And_(*[Not_(x.g) for x in its]), 'IndexError', n, 'pop')
            none, out, v = True, list(its), None
            for j in seq:
                out[j] = GOne(And_(its[j].g, Not_(none)), its[j].v)
                none = And_(none, Not_(its[j].g))
            for j in reversed(seq):
                v = res(its[j].v) if v is None and j == seq[-1] else I.mv(its[j].g, res(its[j].v), v) if its[j].g is not True else res(its[j].v)
            st.heap[r.oid] = HList([x for x in out if x.g is not False], c.origin, None)
            return v
    raise Unsupported('pop')


def b_list_index(I, st, r, a, k, n):
    its = I.items_of(st, r)
    for j, it in enumerate(its):
        if not (isinstance(it, GOne) and it.g is True):
            raise Unsupported('index()')
        e = I.eq(st, a[0], res(it.v), n)
        if e is True:
            return j
        if e is not False:
            raise Unsupported('index()')
    I.do_raise(st, 'ValueError', n)


def b_list_count(I, st, r, a, k, n):
    raise Unsupported('count')


# -------------------------------------------------------------- dict methods
def b_dict_items(I, st, r, a, k, n):
    return IterV(I.cell(st, r).items)


def b_dict_keys(I, st, r, a, k, n):
    return IterV([I.map_item(i, lambda kv: kv.items[0]) for i in I.cell(st, r).items])


def b_dict_values(I, st, r, a, k, n):
    return IterV([I.map_item(i, lambda kv: kv.items[1]) for i in I.cell(st, r).items])


def b_dict_get(I, st, r, a, k, n):
    return I.dict_get(st, r, a[0], n, a[1] if len(a) > 1 else None, False)


def b_dict_copy(I, st, r, a, k, n):
    return I.alloc(st, HDict(I.cell(st, r).items))


def b_dict_setdefault(I, st, r, a, k, n):
    has = I.dict_has(st, r, a[0], n)
    if has is False:
        I.dict_set(st, r, a[0], a[1] if len(a) > 1 else None, n)
    elif has is not True:
        raise Unsupported('setdefault')
    return I.dict_get(st, r, a[0], n, None, True)


def b_dict_update(I, st, r, a, k, n):
    if a:
        v = I.prune(st, a[0])
        c = I.cell(st, v) if isinstance(v, Ref) else None
        if not isinstance(c, HDict):
            raise Unsupported('update')
        for it in c.items:
            if isinstance(it, GOne) and it.g is True:
                I.dict_set(st, r, it.v.items[0], it.v.items[1], n)
            elif isinstance(it, GStar) and not I.cell(st, r).items:
                cc = I.cell(st, r)
                st.heap[r.oid] = HDict((it,), cc.origin)
            else:
                raise Unsupported('update')
    for kk, vv in k.items():
        I.dict_set(st, r, kk, vv, n)
    return None


# --------------------------------------------------------------- str methods
def b_match_group(I, st, r, a, k, n):
    g = [I.prune(st, x) for x in a] or [0]
    if r.named is not None and g == [0]:
        raise Unsupported('whole match')
    if len(g) == 1 and isinstance(g[0], str) and r.named:
        g = [i for i, m in r.named.items() if m == g[0]] or g
    if len(g) != 1 or not isinstance(g[0], int):
        raise Unsupported('match.group')
    if g[0] not in r.groups:
        raise Unsupported('match group %r' % g[0])
    return r.groups[g[0]]


def b_match_groupdict(I, st, r, a, k, n):
    if not r.named or a or k:
        raise Unsupported('groupdict')
    return I.alloc(st, HDict([GOne(True, TupleV((r.named[i], r.groups[i]))) for i in sorted(r.named)]))


def b_pattern_sub(I, st, r, a, k, n):
    if len(a) != 2 or k:
        raise Unsupported('regular expression')
    return sub_text(I, st, r.pat, I.prune(st, a[0]), a[1], n)


def b_str_maketrans(I, st, r, a, k, n):
    if a:
        if isinstance(r, str) and len(a) == 1 and isinstance(I.prune(st, a[0]), str):
            return I.alloc(st, HDict([GOne(True, TupleV((x, chr(y)))) for x, y in str.maketrans(r, I.prune(st, a[0])).items()]))
        raise Unsupported('maketrans')
    c = I.cell(st, r) if isinstance(r, Ref) else None
    if not isinstance(c, HDict) or not all(isinstance(i, GOne) and i.g is True for i in c.items):
        raise Unsupported('maketrans')
    out = []
    for i in c.items:
        x = I.prune(st, i.v.items[0])
        out.append(GOne(True, TupleV((ord(x) if isinstance(x, str) and len(x) == 1 else x, i.v.items[1]))))
    return I.alloc(st, HDict(out))


def b_pattern_finditer(I, st, r, a, k, n):
    if len(a) != 1 or k:
        raise Unsupported('finditer')
    return X.TokensV(r.pat, a[0])


def b_pattern_match(I, st, r, a, k, n):
    from .pysrc import ExtName
    return call_ext(I, st, ExtName('re', 'match'), [r.pat] + list(a), k, n)


def b_match_groups(I, st, r, a, k, n):
    return TupleV(tuple(r.groups[i] for i in sorted(r.groups) if i))


def b_num_is_integer(I, st, r, a, k, n):
    if isinstance(r, (int, float)):
        return float(r).is_integer()
    return True if r.kind == 'int' else X._b2v(z3.IsInt(r.t))


def b_ord(I, st, a, k, n):
    x = I.prune(st, a[0])
    if isinstance(x, str) and len(x) == 1:
        return ord(x)
    raise Unsupported('ord')


def b_chr(I, st, a, k, n):
    x = I.prune(st, a[0])
    if isinstance(x, int):
        return chr(x)
    raise Unsupported('chr')


def b_str_lower(I, st, r, a, k, n):
    return I.rope_op(r, ('lower',))


def b_str_upper(I, st, r, a, k, n):
    return I.rope_op(r, ('upper',))


def b_str_replace(I, st, r, a, k, n):
    x, y = I.prune(st, a[0]), I.prune(st, a[1])
    if len(a) > 2 or not isinstance(x, str) or not isinstance(y, str):
        raise Unsupported('replace')
    return I.rope_op(r, ('rep', x, y))


def b_str_join(I, st, r, a, k, n):
    sep = r
    if isinstance(sep, Ite):
        return I.leaves(st, sep, lambda s, x: b_str_join(I, s, x, a, k, n))
    src = I.prune(st, a[0])
    if isinstance(src, X.PiecesV) and isinstance(sep, str):
        return I.rope_op(src.text, ('rep', src.sep, sep))
    items = I.iter_items(st, a[0], n)
    out = []
    pend = False       # something before (unconditionally)
    maybe = []         # conditions under which something was emitted before
    for it in items:
        if isinstance(it, GOne):
            def chk(s, x):
                if not is_strlike(x):
                    I.do_raise(s, 'TypeError', n, 'join of non-text')
                return x
            v = I.leaves(st, res(it.v), chk) if it.g is True else _chk(I, I.fork(st, it.g), res(it.v), n)
            piece = to_rope(v)
            if sep:
                before = Or_(*maybe)
                if before is True:
                    piece = Rope(tuple(to_rope(sep).segs) + piece.segs)
                elif before is not False:
                    piece = Rope((RIte(before, Rope(to_rope(sep).segs), Rope(())),) + piece.segs)
            out.append((it.g, piece))
            maybe.append(it.g)
        elif isinstance(it, GStar):
            if sep and not all(isinstance(b, GOne) and b.g is True for b in it.body):
                raise Unsupported('join over nested/filtered list')
            body = join_body(I, I.fork(st, And_(it.g, it.src.n > 0)), it.body, sep, n)
            if sep and Or_(*maybe) is True and not hasattr(it.src, 'text'):
                out.append((it.g, I.mk_rstar(st, it.src, Rope(tuple(to_rope(sep).segs) + body.segs))))
                maybe.append(And_(it.g, it.src.n > 0))
                continue
            if not isinstance(sep, str):
                raise Unsupported('join separator')
            star = I.mk_rstar(st, it.src, body, sep)
            if sep and maybe:
                before = And_(Or_(*maybe), it.src.n > 0)
                star = Rope((RIte(before, Rope(to_rope(sep).segs), Rope(())),) + star.segs)
            out.append((it.g, star))
            maybe.append(And_(it.g, it.src.n > 0))
        else:
            raise Unsupported('join accumulator')
    return rope_value(group_guards([(conjuncts(g), p) for g, p in out])) if out else ''


def join_body(I, st, items, sep, n):
    out = []
    for k, b in enumerate(items):
        if isinstance(b, GOne):
            piece = to_rope(_chk(I, st if b.g is True else I.fork(st, b.g), res(b.v), n))
            if sep and k:
                piece = Rope(tuple(to_rope(sep).segs) + piece.segs)
        elif isinstance(b, GStar):
            if not isinstance(sep, str):
                raise Unsupported('join separator')
            piece = I.mk_rstar(st, b.src, join_body(I, I.fork(st, And_(b.g, b.src.n > 0)), b.body, sep, n), sep)
        else:
            raise Unsupported('join accumulator')
        out.append((conjuncts(b.g), piece))
    return group_guards(out)


def conjuncts(g):
    if g is True:
        return ()
    if g is False:
        return (False,)
    if z3.is_and(g):
        return tuple(x for c in g.children() for x in conjuncts(c))
    return (g,)


def group_guards(items):
    """Texts under guards, in order -> a rope in which neighbours under the same or opposite conditions share one conditional."""
    segs = []
    i = 0
    while i < len(items):
        cs, p = items[i]
        if not cs:
            segs += p.segs
            i += 1
            continue
        if cs[0] is False:
            i += 1
            continue
        c = cs[0].children()[0] if z3.is_not(cs[0]) else cs[0]
        A, B = [], []
        j = i
        while j < len(items):
            ds = items[j][0]
            if any(d is not False and same(d, c) for d in ds):
                A.append((tuple(d for d in ds if d is False or not same(d, c)), items[j][1]))
            elif any(z3.is_not(d) and same(d.children()[0], c) for d in ds if d is not False):
                B.append((tuple(d for d in ds if d is False or not (z3.is_not(d) and same(d.children()[0], c))), items[j][1]))
            else:
                break
            j += 1
        a, b = group_guards(A), group_guards(B)
        m = merge_ropes(c, rope_value(a), rope_value(b)) if a.segs and b.segs else None
        if m is None or isinstance(m, Ite):
            segs.append(RIte(c, a, b))
        else:
            segs += to_rope(m).segs
        i = j
    return Rope(segs)


def _chk(I, s, v, n):
    v = res(v)
    if isinstance(v, Ite):
        return I.mv(v.c, _chk(I, I.fork(s, v.c), v.a, n), _chk(I, I.fork(s, Not_(v.c)), v.b, n))
    if not is_strlike(v):
        I.raises.append((s.copy(), 'TypeError', getattr(n, 'lineno', 0), 'join of non-text'))
        return ''
    return v


def b_str_startswith(I, st, r, a, k, n):
    p = I.prune(st, a[0])
    if isinstance(r, str) and isinstance(p, str):
        return r.startswith(p)
    if isinstance(p, str) and isinstance(r, Rope) and r.segs and isinstance(r.segs[0], str):
        if len(r.segs[0]) >= len(p):
            return r.segs[0].startswith(p)
        if not p.startswith(r.segs[0]):
            return False
    if isinstance(p, str) and p == '':
        return True
    if isinstance(r, Sc) and isinstance(p, str):
        F = z3.Function('startswith:' + p, z3.IntSort(), z3.BoolSort())
        I.w.ax(F(I.w.intern(p)))
        for c, t in list(I.w.strs.items()):
            I.w.ax(F(t) == c.startswith(p))
        I.w.ax(z3.Implies(F(r.t), I.w.slen(r.t) >= len(p)))
        if len(p) == 1:
            I.w.ax(z3.Implies(r.t != I.w.intern(''), F(r.t) == (I.w.sat0(r.t) == I.w.intern(p))))
        return Sc(F(r.t), 'bool')
    raise Unsupported('startswith')


def b_str_endswith(I, st, r, a, k, n):
    p = I.prune(st, a[0])
    if isinstance(r, str) and isinstance(p, str):
        return r.endswith(p)
    if isinstance(p, str) and isinstance(r, Rope) and r.segs and isinstance(r.segs[-1], str):
        if len(r.segs[-1]) >= len(p):
            return r.segs[-1].endswith(p)
        if not p.endswith(r.segs[-1]):
            return False
    if isinstance(p, str):
        if p == '':
            return True
        v = text_fun(I, r, 'endswith(%r)' % p, lambda c: c.endswith(p), ['a' + p], True)
        I.w.ax(z3.Implies(v.t, I.w.slen(bare_sc(r).t) >= len(p)))
        return v
    raise Unsupported('endswith')


def bare_sc(r):
    if isinstance(r, Rope) and len(r.segs) == 1 and isinstance(r.segs[0], Hole) and not r.segs[0].ops:
        r = r.segs[0].v
    return r if isinstance(r, Sc) and r.kind == 'str' else None


TEXT_WITNESS = [' lead', 'trail ', 'tab\t', 'line\n', 'Mixed Case', '\u00e9\u00df', 'a"b', '007']


def text_fun(I, r, name, fn, extra=(), pred=False):
    """A function of a text: known on every constant text of the task and on some witnesses (so that
    "it changes nothing" is refuted), arbitrary elsewhere; what is refuted with it must be replayed."""
    x = bare_sc(r)
    if x is None:
        raise Unsupported('%s of composed text' % name)
    w = I.w
    F = z3.Function('text:' + name, z3.IntSort(), z3.BoolSort() if pred else z3.IntSort())
    if name not in w.textfuns:
        w.textfuns[name] = lambda c, t: w.ax(F(t) == (fn(c) if pred else w.intern(fn(c))))
        for c, t in list(w.strs.items()):
            w.textfuns[name](c, t)
        for c in TEXT_WITNESS + list(extra):
            w.intern(c)
        w.approx.append('text function ' + name)
    if pred:
        return Sc(F(x.t), 'bool')
    return Sc(F(x.t), 'str', 'text', '%s.%s' % (x.path or '', name))


def _textop(name, *bad):
    def f(I, st, r, a, k, n):
        a = [I.prune(st, x) for x in a]
        if k or not all(isinstance(x, (str, int)) for x in a):
            raise Unsupported(name)
        if isinstance(r, str):
            return getattr(r, name)(*a)
        ws = [x for q in a if isinstance(q, str) for x in (q + 'a', 'a' + q, q + 'a' + q)]
        return text_fun(I, r, '%s(%s)' % (name, ', '.join(map(repr, a))), lambda c: getattr(c, name)(*a), ws)
    return f


for _n in ('lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase', 'removeprefix', 'removesuffix', 'expandtabs', 'zfill',
           'ljust', 'rjust', 'center'):
    if 'b_str_' + _n not in globals():
        globals()['b_str_' + _n] = _textop(_n)


def b_str_strip(I, st, r, a, k, n):
    return _strip(I, r, a, 'lr')


def b_str_rstrip(I, st, r, a, k, n):
    return _strip(I, r, a, 'r')


def b_str_lstrip(I, st, r, a, k, n):
    return _strip(I, r, a, 'l')


def _strip(I, r, a, side):
    if isinstance(r, str) and all(isinstance(x, str) for x in a):
        return {'lr': str.strip, 'l': str.lstrip, 'r': str.rstrip}[side](r, *a)
    if all(isinstance(x, str) for x in a):
        fn = {'lr': str.strip, 'l': str.lstrip, 'r': str.rstrip}[side]
        return text_fun(I, r, '%sstrip(%s)' % ('' if side == 'lr' else side, ', '.join(map(repr, a))), lambda c: fn(c, *a),
                        [y for q in a for x in q[:3] for y in (x + 'a', 'a' + x)])
    raise Unsupported('strip of symbolic text')


def b_str_split(I, st, r, a, k, n):
    if isinstance(r, str) and all(isinstance(I.prune(st, x), (str, int)) for x in a):
        return I.alloc(st, HList([GOne(True, x) for x in r.split(*a)]))
    if len(a) == 1 and not k and X.is_text(r):
        sep = I.prune(st, a[0])
        if isinstance(sep, str) and len(sep) == 1:
            return X.PiecesV(r, sep)
    raise Unsupported('split of symbolic text')


def b_str_translate(I, st, r, a, k, n):
    t = I.prune(st, a[0])
    c = I.cell(st, t) if isinstance(t, Ref) else None
    if not isinstance(c, HDict) or not all(isinstance(i, GOne) and i.g is True for i in c.items):
        raise Unsupported('translate')
    m = {}
    for i in c.items:
        x, y = (I.prune(st, z) for z in i.v.items)
        if isinstance(x, Sc) and z3.is_int_value(x.t):
            x = x.t.as_long()
        if not isinstance(x, int) or not isinstance(y, str):
            raise Unsupported('translate')
        m[chr(x)] = y
    # one replacement after the other, when none touches what another has put in
    for x in m:
        if any(x in y for z, y in m.items() if z != x):
            raise Unsupported('translate')
    for x, y in m.items():
        r = I.rope_op(r, ('rep', x, y))
    return r


def b_str_format(I, st, r, a, k, n):
    if not isinstance(r, str):
        raise Unsupported('format')
    import string
    out, auto = [], 0
    for lit, fld, spec, conv in string.Formatter().parse(r):
        if lit:
            out.append(lit)
        if fld is None:
            continue
        if conv not in (None, 's') or (spec and '{' in spec):
            raise Unsupported('format')
        if fld == '':
            v = a[auto]
            auto += 1
        elif fld.isdigit():
            v = a[int(fld)]
        elif fld in k:
            v = k[fld]
        else:
            raise Unsupported('format field')
        out.append(I.fmt(st, v, spec or '', n))
    return cat(*out) if out else ''


def b_str_isdigit(I, st, r, a, k, n):
    if isinstance(r, str):
        return r.isdigit()
    raise Unsupported('isdigit')


def b_opaque_group(I, st, r, a, k, n):
    return Opaque('group', (r,) + tuple(a))


def b_next(I, st, a, k, n):
    """next() of an iterator made for this call"""
    fresh = isinstance(n, ast.Call) and n.args and (isinstance(n.args[0], ast.GeneratorExp) or isinstance(n.args[0], ast.Call)
                                                    and isinstance(n.args[0].func, ast.Name) and n.args[0].func.id in ('iter', 'filter', 'map', 'reversed', 'zip', 'enumerate'))
    if not fresh or k:
        raise Unsupported('next')
    items = I.iter_items(st, a[0], n)

    def go(s, its):
        if not its:
            if len(a) > 1:
                return a[1]
            I.do_raise(s, 'StopIteration', n)
        it = its[0]
        if isinstance(it, GStar):
            if not I.sat(s, And_(it.g, it.src.n > 0, Or_(*[b.g for b in it.body]))):
                return go(s, its[1:])
            raise Unsupported('next of a list of unknown length')
        if not isinstance(it, GOne):
            raise Unsupported('next')
        if it.g is True or not I.sat(s, Not_(it.g)):
            return res(it.v)
        if not I.sat(s, it.g):
            return go(s, its[1:])
        sa, sb = I.fork(s, it.g), I.fork(s, Not_(it.g))
        try:
            rb = go(sb, its[1:])
        except X.Dead:
            s.become(sa)
            return res(it.v)
        s.become(I.merge(sa, sb))
        return I.mv(it.g, res(it.v), rb)
    return go(st, list(items))

