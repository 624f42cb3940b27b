"""Symbolic executor for the Python subset kiutils is written in.

State merging (no path explosion), guarded sequences for parsed S-expression
lists, ropes for the texts being built, inferred fold invariants for loops over
lists of unbounded length, contracts at calls of other classes'
to_sexpr/from_sexpr and of libId."""
import ast, builtins, copy, itertools, re as _re
import z3
from .values import *
from . import pysrc, cross
from .pysrc import ClassInfo, FuncInfo, Module, ExtModule, ExtName, ConstExpr
from . import dom as D


class Dead(Exception):
    """No normal continuation (every path raised)."""


class State:
    __slots__ = ('frames', 'cur', 'heap', 'pc', 'trace')

    def __init__(self):
        self.frames, self.cur, self.heap, self.pc, self.trace = {}, 0, {}, (), ()

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.cur, s.heap, s.pc, s.trace = self.cur, dict(self.heap), self.pc, self.trace
        return s

    def become(self, o):
        self.frames, self.cur, self.heap, self.pc, self.trace = o.frames, o.cur, o.heap, o.pc, o.trace

    @property
    def locals(self):
        return self.frames[self.cur]


class Frame:
    def __init__(self, func, cls=None):
        self.func, self.cls = func, cls
        self.returns = []


class BoundV:
    __slots__ = ('func', 'recv', 'cls')

    def __init__(self, func, recv, cls):
        self.func, self.recv, self.cls = func, recv, cls


class BuiltinV:
    __slots__ = ('name', 'recv')

    def __init__(self, name, recv=None):
        self.name, self.recv = name, recv

    def __eq__(self, o):
        return isinstance(o, BuiltinV) and o.name == self.name and self.recv is None and o.recv is None

    def __hash__(self):
        return hash(self.name)


class TypeV:
    """type(x) results / type names."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, TypeV) and o.name == self.name

    def __hash__(self):
        return hash(('ty', self.name))


class IterV:
    """an iterable already turned into guarded items; once: an iterator, empty after its first use"""
    __slots__ = ('items', 'once')

    def __init__(self, items, once=False):
        self.items = tuple(items)
        self.once = once


class SetV:
    """a set: membership, but no order and no number of elements"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class PathV:
    """pathlib.Path of a text"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class BufV:
    """io.StringIO: a list of the texts written, which only write adds to"""
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref

    def __eq__(self, o):
        return isinstance(o, BufV) and o.ref == self.ref

    def __hash__(self):
        return hash(('buf', self.ref))


class GetterV:
    """operator.attrgetter / itemgetter"""
    __slots__ = ('kind', 'keys')

    def __init__(self, kind, keys):
        self.kind, self.keys = kind, tuple(keys)


class PartialV:
    """functools.partial"""
    __slots__ = ('f', 'args', 'kwargs')

    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, tuple(args), dict(kwargs)


class FileV:
    __slots__ = ('h',)

    def __init__(self, h):
        self.h = h


EXC_BASES = {
    'BaseException': (), 'Exception': ('BaseException',), 'TypeError': ('Exception',),
    'ValueError': ('Exception',), 'LookupError': ('Exception',), 'IndexError': ('LookupError',),
    'KeyError': ('LookupError',), 'AttributeError': ('Exception',), 'AssertionError': ('Exception',),
    'NotImplementedError': ('RuntimeError',), 'RuntimeError': ('Exception',), 'NameError': ('Exception',),
    'ZeroDivisionError': ('ArithmeticError',), 'ArithmeticError': ('Exception',), 'OSError': ('Exception',),
    'FileNotFoundError': ('OSError',), 'UnboundLocalError': ('NameError',), 'StopIteration': ('Exception',),
}


def exc_isa(name, base):
    if name == base:
        return True
    return any(exc_isa(b, base) for b in EXC_BASES.get(name, ('Exception',) if name != 'BaseException' else ()))


BUILTINS = {'len', 'str', 'int', 'float', 'bool', 'isinstance', 'type', 'range', 'enumerate', 'list', 'dict',
            'tuple', 'open', 'print', 'any', 'all', 'zip', 'getattr', 'setattr', 'hasattr', 'sorted', 'reversed',
            'map', 'filter', 'iter', 'next', 'min', 'max', 'sum', 'abs', 'repr', 'object', 'super', 'set',
            'round', 'format', 'callable', 'id', 'vars', 'ord', 'chr'}


class World:
    """Symbols and axioms of one verification task."""

    def __init__(self, prog, interp=None):
        self.prog = prog
        self.axioms = []
        self.no_axioms = []
        self.cells = {}          # symbolic cells: oid -> HObj/HList/HDict
        self.gvals = {}          # values of module-level expressions, evaluated once
        self.objty = {}          # oid -> TObj
        self.strs = {}           # interned string constants
        self.textfuns = {}       # functions of texts, known on the interned ones
        self.ropes = []
        self.needles = {}        # substring predicates
        self.syms = {}           # path -> (kind, term, type)
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.n_ax = 0
        self.memo = {}
        self.queries = 0
        self.solver_s = 0.0
        self.unknowns = 0
        self.slen = z3.Function('slen', z3.IntSort(), z3.IntSort())
        self.sat0 = z3.Function('char0', z3.IntSort(), z3.IntSort())
        self.fresh = itertools.count(1)
        self.approx = []
        self.decomp = {}        # text symbol -> ropes it equals when it matched a pattern
        self.re_assume = []
        self.invs_for = {}      # path -> replacement of the class invariant
        self.wide = False        # include values that may be written but are not read back
        self.intern('')

    # ---- strings as interned integers
    def intern(self, s):
        if s in self.strs:
            return self.strs[s]
        k = len(self.strs)
        t = z3.IntVal(k)
        self.strs[s] = t
        self.ax(self.slen(t) == len(s))
        for nd, p in self.needles.items():
            self.ax(p(t) == (nd in s))
        if s:
            self.ax(self.sat0(t) == self.intern(s[0]))
        if len(self.strs) < 400:
            for f in list(self.textfuns.values()):
                f(s, t)
        return t

    def rope_id(self, r):
        for i, q in enumerate(self.ropes):
            if rope_same(q, r):
                return i
        self.ropes.append(r)
        return len(self.ropes) - 1

    def has(self, needle, t):
        """needle in text t, for a constant needle"""
        if needle == '':
            return True
        p = self.needles.get(needle)
        if p is None:
            p = self.needles[needle] = z3.Function('has:' + needle, z3.IntSort(), z3.BoolSort())
            for s, k in list(self.strs.items()):
                self.ax(p(k) == (needle in s))
        for nd, q in self.needles.items():
            if nd != needle and nd in needle:
                self.ax(z3.Implies(p(t), q(t)))
            elif nd != needle and needle in nd:
                self.ax(z3.Implies(q(t), p(t)))
        self.ax(z3.Implies(p(t), self.slen(t) >= len(needle)))
        return p(t)

    def ax(self, e):
        if e is True or (not isinstance(e, bool) and z3.is_true(e)):
            return
        if e is False:
            e = z3.BoolVal(False)
        self.axioms.append(e)

    def _sync(self):
        while self.n_ax < len(self.axioms):
            self.solver.add(self.axioms[self.n_ax])
            self.n_ax += 1
            self.memo.clear()

    def sat(self, *conds):
        cs = []
        for c in conds:
            if c is False:
                return False
            if c is True:
                continue
            cs.append(c)
        self._sync()
        key = frozenset(c.get_id() for c in cs)
        r = self.memo.get(key)
        if r is not None:
            return r[0]
        t0 = time.time()
        self.solver.push()
        for c in cs:
            self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        self.queries += 1
        self.solver_s += time.time() - t0
        if r == z3.unknown:
            self.unknowns += 1
        res = (r != z3.unsat)
        if not res:
            cross.rec(self.axioms, self.n_ax, cs)
        self.memo[key] = (res, cs)
        return res

    def model(self, *conds):
        cs = [c for c in conds if c is not True]
        if any(c is False for c in cs):
            return None
        self._sync()
        t0 = time.time()
        self.solver.push()
        for c in cs:
            self.solver.add(c)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.queries += 1
        self.solver_s += time.time() - t0
        if r == z3.unsat:
            cross.rec(self.axioms, self.n_ax, cs)
        return m

    def valid(self, pc, c):
        if c is True:
            return True
        return not self.sat(*(list(pc) + [Not_(c)]))

    # ---- symbols
    def scalar(self, path, kind, dom, ty=None):
        if path in self.syms:
            return self.syms[path][1]
        if kind == 'num':
            t = z3.Real(path)
        elif kind in ('int', 'str'):
            t = z3.Int(path)
        else:
            t = z3.Bool(path)
        v = Sc(t, kind, dom, path)
        self.syms[path] = (kind, v, ty)
        if kind == 'str':
            self.ax(t >= 0)
            self.ax(self.slen(t) >= 0)
            self.ax((self.slen(t) == 0) == (t == self.intern('')))
            if dom in ('bare', 'word', 'line'):
                self.ax(t != self.intern(''))
        return v

    def strsc(self, path, dom='text'):
        return self.scalar(path, 'str', dom)

    def make(self, ty, path):
        if isinstance(ty, D.TNum):
            new = path not in self.syms
            v = self.scalar(path, 'num', 'num' if ty.fix is None else 'fix%d' % ty.fix, ty)
            if new and ty.nat:
                self.ax(v.t >= 0)
            if new and ty.int_:
                self.ax(z3.IsInt(v.t))
            return v
        if isinstance(ty, D.TText):
            new = path not in self.syms
            v = self.scalar(path, 'str', 'text', ty)
            if new:
                for x in ty.excl:
                    self.ax(v.t != self.intern(x))
            return v
        if isinstance(ty, D.TLayer):
            new = path not in self.syms
            v = self.scalar(path, 'str', 'layer', ty)
            if new:
                self.ax(z3.Implies(z3.Or(self.has('*.', v.t), self.has('&', v.t)), z3.Not(z3.Bool(path + '!notbare'))))
            return v
        if isinstance(ty, D.TWord):
            return self.scalar(path, 'str', 'line' if isinstance(ty, D.TLine) else 'word', ty)
        if isinstance(ty, D.TBare):
            return self.scalar(path, 'str', 'bare0' if ty.empty else 'bare', ty)
        if isinstance(ty, D.TBool):
            return self.scalar(path, 'bool', 'bool', ty)
        if isinstance(ty, D.TConst):
            return ty.v
        if isinstance(ty, D.TEnum):
            new = path not in self.syms
            v = self.scalar(path, 'str', 'enum', ty)
            if new:
                self.ax(Or_(*[v.t == self.intern(x) for x in ty.vals]))
            return v
        if isinstance(ty, D.TOpt):
            if ty.wonly and not self.wide:
                return self.make(ty.t, path)
            p = self.scalar(path + '?', 'bool', 'present', ty)
            return Ite(p.t, self.make(ty.t, path), None)
        if isinstance(ty, D.TObj):
            if path not in self.cells:
                ci = self.prog.cls(D.qual(ty.key))
                if ci is None:
                    raise Unsupported('class %s not found' % ty.key)
                self.cells[path] = HObj(ci, {}, 'input', None)
                self.objty[path] = ty
                self.on_new_obj(path, ty, ci)
            return Ref(path)
        if isinstance(ty, D.TList):
            if path not in self.cells:
                n = z3.Int(path + '#')
                self.ax(n >= ty.lo)
                if ty.hi is not None:
                    self.ax(n <= ty.hi)
                src = StarSrc(path, n, z3.Int(path + '@'), lambda p, t=ty.t: self.make(t, p))
                self.ax(z3.And(src.idx >= 0))
                src.ty = ty
                self.cells[path] = HList((GStar(True, src, (GOne(True, _Lazy(src)),)),), 'input')
                self.objty[path] = ty
            return Ref(path)
        if isinstance(ty, D.TDict):
            if path not in self.cells:
                n = z3.Int(path + '#')
                self.ax(n >= 0)
                src = StarSrc(path, n, z3.Int(path + '@'),
                              lambda p, t=ty: TupleV((self.make(t.k, p + '.key'), self.make(t.v, p + '.val'))))
                self.ax(z3.And(src.idx >= 0))
                src.ty = ty
                src.isdict = True
                self.cells[path] = HDict((GStar(True, src, (GOne(True, _Lazy(src)),)),), 'input')
                self.objty[path] = ty
            return Ref(path)
        if isinstance(ty, D.TUnion):
            names = ty.names()
            vals = [self.make(a, path + ':' + n) for a, n in zip(ty.alts, names)]
            v = vals[-1]
            for n, x in list(zip(names, vals))[-2::-1]:
                tag = self.scalar(path + ':is:' + n, 'bool', 'tag', ty)
                v = Ite(tag.t, x, v)
            return v
        if isinstance(ty, D.TSkip):
            return Opaque('skip:' + path)
        raise Unsupported('domain type %r' % ty)

    def on_new_obj(self, path, ty, ci):
        pass

    def init_field(self, oid, name):
        ty = self.objty[oid]
        fd = D.table()[ty.key].fields
        if name in ty.over:
            return self.make(ty.over[name], oid + '.' + name)
        if name in fd:
            return self.make(fd[name], oid + '.' + name)
        return None


class _Lazy:
    """Placeholder for src.elem, resolved on access (avoids infinite recursion)."""
    __slots__ = ('src',)

    def __init__(self, src):
        self.src = src


def res(v):
    return v.src.elem if isinstance(v, _Lazy) else v


class Interp:
    def __init__(self, prog, world, contracts=True):
        self.prog, self.w = prog, world
        self.contracts = contracts          # use contracts at calls of specified classes
        self.raises = []                    # [(state, excname, lineno, info)]
        self.frame = None
        self.loopstack = []
        self.fid = itertools.count(1)
        self.oid = itertools.count(1)
        self.depth = 0
        self.steps = 0
        self.inline_to_sexpr = set()
        self.funcs_seen = set()
        self.mutated_input = []
        self.notes = []
        self.file_model = None
        world.on_new_obj = self._on_new_obj
        self.libid_contract = True
        self.no_sfx = False     # ids that look like that of a unit are excluded
        self.libid_alias = {}   # object -> text its libId was shown to read as
        self.on_tokens = None
        self.used_contracts = set()
        self.comps = {}
        self.charsrc = {}
        self.keep = []
        self.track, self.tag = None, None   # read/write sets per iteration of the outermost loops
        self.stubs = {}      # (clskey, method) -> handler(interp, st, recv/cls, args, kwargs)

    # ------------------------------------------------------------ states
    def sat(self, st, c=True):
        if c is False:
            return False
        return self.w.sat(*(st.pc + ((c,) if c is not True else ())))

    def fork(self, st, c):
        s = st.copy()
        if c is not True:
            s.pc = st.pc + (c,)
        return s

    def assume(self, st, c):
        if c is True:
            return
        st.pc = st.pc + (c,)

    def merge(self, s1, s2):
        """s1, s2: states with mutually exclusive pcs."""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        k = 0
        while k < len(s1.pc) and k < len(s2.pc) and same(s1.pc[k], s2.pc[k]):
            k += 1
        r1, r2 = s1.pc[k:], s2.pc[k:]
        out = State()
        out.cur = s1.cur
        if r1 and r2 and same(r1[0], Not_(r2[0])):
            c = r1[0]
            if len(r1) == 1 and len(r2) == 1:
                out.pc = s1.pc[:k]
            else:
                out.pc = s1.pc[:k] + (Or_(And_(*r1), And_(*r2)),)
        else:
            c = And_(*r1)
            d = Or_(And_(*r1), And_(*r2))
            out.pc = s1.pc[:k] + ((d,) if d is not True else ())
        if c is True:      # degenerate: s1 has no extra condition
            c = Not_(And_(*r2))
        if s1.trace is s2.trace or s1.trace == s2.trace:
            out.trace = s1.trace
        else:
            out.trace = merge_trace(c, s1.trace, s2.trace)
        for f in s1.frames:
            if f not in s2.frames:
                continue
            l1, l2 = s1.frames[f], s2.frames[f]
            d = {}
            for n in l1:
                if n in l2:
                    d[n] = l1[n] if l1[n] is l2[n] else self.mv(c, l1[n], l2[n])
                else:
                    d[n] = Ite(c, l1[n], Poison('unbound ' + n))
            for n in l2:
                if n not in l1:
                    d[n] = Ite(Not_(c), l2[n], Poison('unbound ' + n))
            out.frames[f] = d
        heap = {}
        for o, x in s1.heap.items():
            y = s2.heap.get(o)
            if x is y:
                heap[o] = x
            elif y is None:
                base = self.w.cells.get(o)
                heap[o] = x if base is None else self.mcell(o, c, x, base)
            else:
                heap[o] = self.mcell(o, c, x, y)
        for o, y in s2.heap.items():
            if o not in s1.heap:
                base = self.w.cells.get(o)
                heap[o] = y if base is None else self.mcell(o, c, base, y)
        out.heap = heap
        return out

    def mcell(self, oid, c, x, y):
        if isinstance(x, HObj):
            f = {}
            for n in set(x.fields) | set(y.fields):
                vx = x.fields.get(n, _MISS)
                vy = y.fields.get(n, _MISS)
                if vx is _MISS:
                    vx = self.init_of(oid, x, n)
                if vy is _MISS:
                    vy = self.init_of(oid, y, n)
                f[n] = self.mv(c, vx, vy)
            return HObj(x.cls, f, x.origin, x.src)
        if isinstance(x, HList):
            if x.items is None or y.items is None:
                if x.items is y.items:
                    return x
                raise Unsupported('merge of lazily expanded list')
            return HList(merge_items(c, x.items, y.items), x.origin, x.sub)
        return HDict(merge_items(c, x.items, y.items), x.origin)

    def mv(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Ite) and same(a.c, c):
            a = a.a
        if isinstance(b, Ite) and same(b.c, c):
            b = b.b
        if isinstance(a, Ite) and same(a.c, Not_(c)):
            a = a.b
        if isinstance(b, Ite) and same(b.c, Not_(c)):
            b = b.a
        if val_same(a, b):
            return a
        if is_strlike(a) and is_strlike(b):
            return merge_ropes(c, a, b)
        if self._strtree(a) and self._strtree(b) and (isinstance(a, Rope) or isinstance(b, Rope)):
            return merge_ropes(c, a, b)
        if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.items) == len(b.items):
            return TupleV([self.mv(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, bool) and isinstance(b, bool):
            return Sc(c if a else Not_(c), 'bool') if not isinstance(c, bool) else (a if c else b)
        if isinstance(b, Ite) and val_same(a, b.a):
            # c ? a : (d ? a : e)
            return self.mv(Or_(c, b.c), a, b.b)
        return Ite(c, a, b)

    def _strtree(self, v):
        if isinstance(v, Ite):
            return self._strtree(v.a) and self._strtree(v.b)
        return is_strlike(v)

    # split on Ite leaves
    def leaves(self, st, v, f):
        """Apply f(state, leaf) to every feasible leaf of v, merging the resulting
        states into st; returns the merged value."""
        v = res(v)
        if not isinstance(v, Ite):
            if isinstance(v, Poison):
                raise Unsupported('read of ' + v.why)
            return f(st, v)
        ca, cb = self.sat(st, v.c), self.sat(st, Not_(v.c))
        if not ca and not cb:
            raise Dead()
        if not cb:
            return self.leaves(st, v.a, f)
        if not ca:
            return self.leaves(st, v.b, f)
        sa, sb = self.fork(st, v.c), self.fork(st, Not_(v.c))
        try:
            ra = self.leaves(sa, v.a, f)
        except Dead:
            sa, ra = None, None
        try:
            rb = self.leaves(sb, v.b, f)
        except Dead:
            sb, rb = None, None
        if sa is None and sb is None:
            raise Dead()
        m = self.merge(sa, sb)
        st.become(m)
        if sa is None:
            return rb
        if sb is None:
            return ra
        return self.mv(v.c, ra, rb)

    def prune(self, st, v):
        v = res(v)
        while isinstance(v, Ite):
            ca = self.sat(st, v.c)
            if not ca:
                v = res(v.b)
                continue
            if not self.sat(st, Not_(v.c)):
                v = res(v.a)
                continue
            break
        return v

    def do_raise(self, st, exc, node=None, info=''):
        self.raises.append((st.copy(), exc, getattr(node, 'lineno', 0), info))
        raise Dead()

    def raise_if(self, st, c, exc, node=None, info=''):
        if c is False:
            return
        if self.sat(st, c):
            s = self.fork(st, c)
            self.raises.append((s, exc, getattr(node, 'lineno', 0), info))
            nc = Not_(c)
            if not self.sat(st, nc):
                raise Dead()
            self.assume(st, nc)

    # -------------------------------------------------------------- heap
    def cell(self, st, ref):
        c = st.heap.get(ref.oid)
        if c is None:
            c = self.w.cells.get(ref.oid)
        if c is None:
            raise Unsupported('dangling %r' % (ref,))
        if self.tag is not None and not isinstance(c, HObj):
            self.tag[0].add((ref.oid, '[]'))
        return c

    def alloc(self, st, cell):
        o = next(self.oid)
        st.heap[o] = cell
        return Ref(o)

    def init_of(self, oid, cell, name):
        """Initial value of a field not overridden in this cell."""
        if cell.origin == 'input':
            v = self.w.init_field(oid, name)
            if v is None and name not in D.table()[self.w.objty[oid].key].fields:
                raise Unsupported('field %s of %s outside the domain table' % (name, cell.cls.name))
            return v
        if cell.src is not None:
            return self.copyval(self.init_any(cell.src, name), oid, name)
        raise Unsupported('uninitialised field %s' % name)

    def init_any(self, ref, name):
        c = self.w.cells[ref.oid]
        return self.init_of(ref.oid, c, name)

    def copyval(self, v, oid, name):
        v = res(v)
        if isinstance(v, Ite):
            return Ite(v.c, self.copyval(v.a, oid, name), self.copyval(v.b, oid, name))
        if isinstance(v, Ref):
            c = self.w.cells[v.oid]
            o = ('cp', oid, name, v.oid)
            if o not in self.w.cells:
                if isinstance(c, HObj):
                    self.w.cells[o] = HObj(c.cls, {}, 'fresh', v)
                elif isinstance(c, HList):
                    self.w.cells[o] = HList(c.items, 'fresh', c.sub)
                else:
                    self.w.cells[o] = HDict(c.items, 'fresh')
            return Ref(o)
        return v

    def has_field(self, st, ref, name):
        c = self.cell(st, ref)
        if name in c.fields:
            return True
        if c.origin == 'input' or c.src is not None:
            return any(n == name for (n, *_) in c.cls.fields())
        return False

    def getfield(self, st, ref, name):
        c = self.cell(st, ref)
        if self.tag is not None:
            self.tag[0].add((ref.oid, name))
        if name in c.fields:
            return c.fields[name]
        return self.init_of(ref.oid, c, name)

    def setfield(self, st, ref, name, v):
        c = self.cell(st, ref)
        if c.origin in ('input', 'global'):
            self.mutated_input.append((ref.oid, name, st.pc))
        st.heap[ref.oid] = c.with_(name, v)

    # ------------------------------------------------------------- types
    def pytype(self, st, v):
        v = res(v)
        if v is None:
            return TypeV('NoneType')
        if isinstance(v, bool):
            return TypeV('bool')
        if isinstance(v, int):
            return TypeV('int')
        if isinstance(v, float):
            return TypeV('float')
        if is_strlike(v):
            return TypeV('str')
        if isinstance(v, Sc):
            return {'bool': TypeV('bool'), 'int': TypeV('int'), 'num': TypeV('num')}[v.kind]
        if isinstance(v, TupleV):
            return TypeV('tuple')
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, HList):
                return TypeV('list')
            if isinstance(c, HDict):
                return TypeV('dict')
            return c.cls
        if isinstance(v, Opaque):
            if v.name.startswith('node'):
                return TypeV('list')
        raise Unsupported('type of %r' % (v,))

    def isinst(self, st, v, ty):
        if isinstance(ty, TupleV):
            return Or_(*[self.isinst(st, v, t) for t in ty.items])
        ty = self.as_type(ty)
        if isinstance(res(v), Opaque) and res(v).name == 'entry' and res(v).args and isinstance(ty, TypeV):
            return self.entry_fact('isinstance %s' % ty.name, res(v))
        t = self.pytype(st, v)
        if isinstance(ty, ClassInfo):
            return isinstance(t, ClassInfo) and ty in t.mro()
        if isinstance(ty, TypeV):
            if isinstance(t, ClassInfo):
                return ty.name == 'object'
            if ty.name == 'object':
                return True
            if t.name == 'num':
                if ty.name == 'int':
                    return z3.IsInt(res(v).t)
                if ty.name == 'float':
                    raise Unsupported('isinstance(number, float)')
                return False
            if ty.name == 'int' and t.name == 'bool':
                return True
            return t.name == ty.name
        raise Unsupported('isinstance with %r' % (ty,))

    def entry_fact(self, what, v):
        """Unknown fact about an arbitrary entry of the input."""
        n = '%s: %r' % (what, v)
        if 'arbitrary entries' not in self.w.approx:
            self.w.approx.append('arbitrary entries')
        return z3.Bool(n)

    def as_type(self, ty):
        if isinstance(ty, BuiltinV) and ty.name in ('list', 'str', 'int', 'float', 'bool', 'dict', 'tuple', 'object'):
            return TypeV(ty.name)
        return ty

    # ------------------------------------------------------------- truth
    def truth(self, st, v, node=None):
        v = res(v)
        if isinstance(v, Ite):
            box = []

            def f(s, x):
                return _b2v(self.truth(s, x, node))
            r = self.leaves(st, v, f)
            return self.vbool(r)
        if isinstance(v, Poison):
            raise Unsupported('read of ' + v.why)
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str)):
            return bool(v)
        if isinstance(v, Sc):
            if v.kind == 'bool':
                return v.t
            if v.kind == 'str':
                return v.t != self.w.intern('')
            return v.t != 0
        if isinstance(v, Rope):
            return Not_(self.rope_empty(st, v))
        if isinstance(v, TupleV):
            return len(v.items) > 0
        if isinstance(v, SetV) and all(isinstance(i, GOne) for i in v.items):
            return Or_(*[i.g for i in v.items])
        if isinstance(v, MatchV):
            return True
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, HObj):
                if c.cls.find('__bool__') or c.cls.find('__len__'):
                    raise Unsupported('__bool__')
                return True
            return Not_(self.seq_empty(st, self.items_of(st, v)))
        if isinstance(v, (ClassInfo, FuncInfo, BoundV, BuiltinV, Module, TypeV)):
            return True
        if isinstance(v, Opaque):
            return z3.Bool('truth:%r' % (v,))
        raise Unsupported('truth of %r' % (v,))

    def vbool(self, v):
        """bool-ish value (from leaves) -> condition"""
        if isinstance(v, bool):
            return v
        if isinstance(v, Sc):
            return v.t
        if isinstance(v, Ite):
            return Or_(And_(v.c, self.vbool(v.a)), And_(Not_(v.c), self.vbool(v.b)))
        raise Unsupported('vbool %r' % (v,))

    def seq_empty(self, st, items):
        conds = []
        for it in items:
            if isinstance(it, GOne):
                conds.append(Not_(it.g))
            elif isinstance(it, GStar):
                if any(isinstance(b, GOne) and b.g is True for b in it.body):
                    conds.append(Or_(Not_(it.g), it.src.n == 0))
                else:
                    raise Unsupported('emptiness of filtered list')
            else:
                raise Unsupported('emptiness of accumulator')
        return And_(*conds)

    def rope_empty(self, st, r):
        conds = []
        for s in to_rope(r).segs:
            if isinstance(s, str):
                if s:
                    return False
            elif isinstance(s, Hole):
                if s.v.kind == 'str' and all(o[0] == 'rep' and o[2] != '' for o in s.ops):
                    conds.append(s.v.t == self.w.intern(''))
                elif s.v.kind == 'str' and s.ops:
                    raise Unsupported('emptiness of transformed text')
                else:
                    return False
            elif isinstance(s, RIte):
                a, b = self.rope_empty(st, s.a), self.rope_empty(st, s.b)
                conds.append(Or_(And_(s.c, a), And_(Not_(s.c), b)))
            elif isinstance(s, RStar):
                e = self.rope_empty(st, s.body)
                if e is False:
                    conds.append(s.src.n == 0)
                else:
                    raise Unsupported('emptiness of star')
            elif isinstance(s, RSp):
                conds.append(s.n == 0 if not isinstance(s.n, int) else s.n == 0)
            elif isinstance(s, RSub):
                conds.append(self.rope_empty(st, self.expand_sub(st, s)))
            else:
                raise Unsupported('emptiness of %r' % (s,))
        return And_(*conds)

    def expand_sub(self, st, s):
        """Body of the callee's to_sexpr at this object (used where the contract is not enough)."""
        key = ('sub', repr(s.obj), s.cls.qual, repr(s.indent), repr(s.newline))
        cache = getattr(self.w, '_subcache', None)
        if cache is None:
            cache = self.w._subcache = {}
        if key in cache:
            return cache[key]
        f, kind, k = s.cls.find('to_sexpr')
        st2 = st.copy()
        st2.trace = ()
        saved = self.raises
        self.raises = []
        try:
            r = self.call_func(st2, FuncInfo(f, k.module, s.cls, kind), [s.obj],
                               {'indent': s.indent, 'newline': s.newline} if s.indent is not None else {})
        finally:
            self.raises = saved
        r = to_rope(r) if not isinstance(r, Ite) else Rope((RIte(r.c, to_rope(r.a), to_rope(r.b)),))
        for op in s.ops:
            r = to_rope(self.rope_op(r, op))
        cache[key] = r
        return r

    # ---------------------------------------------------------- equality
    def eq(self, st, a, b, node=None):
        """Condition for Python a == b."""
        a, b = res(a), res(b)
        if isinstance(a, Ite) or isinstance(b, Ite):
            r = self.leaves(st, a, lambda s, x: self.leaves(s, b, lambda s2, y: _b2v(self.eq(s2, x, y, node))))
            return self.vbool(r)
        if a is b:
            return True
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('comparison with unknown')
        if a is None or b is None:
            return a is b
        ca = isinstance(a, (bool, int, float, str))
        cb = isinstance(b, (bool, int, float, str))
        if ca and cb:
            return a == b
        if isinstance(a, Rope) or isinstance(b, Rope):
            if not (is_strlike(a) and is_strlike(b)):
                return False
            la, lb = lit_cases(a), lit_cases(b)
            if isinstance(la, Ite) or isinstance(lb, Ite):
                return self.eq(st, la, lb, node)
            ra, rb = to_rope(a), to_rope(b)
            if rope_same(ra, rb):
                return True
            if isinstance(b, str) and b == '':
                return self.rope_empty(st, ra)
            if isinstance(a, str) and a == '':
                return self.rope_empty(st, rb)
            return self.rope_eq_guess(st, ra, rb)
        if isinstance(a, Sc) or isinstance(b, Sc):
            ka, kb = self._kind(a), self._kind(b)
            if ka is None or kb is None:
                return False
            if (ka == 'str') != (kb == 'str'):
                return False
            if ka == 'str':
                return self.term(a) == self.term(b)
            if ka == 'bool' and kb == 'bool':
                x, y = self.term(a), self.term(b)
                if isinstance(x, bool):
                    return y if x else Not_(y)
                if isinstance(y, bool):
                    return x if y else Not_(x)
                return x == y
            x, y = self.numterm(a), self.numterm(b)
            return x == y
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            if len(a.items) != len(b.items):
                return False
            return And_(*[self.eq(st, x, y, node) for x, y in zip(a.items, b.items)])
        if isinstance(a, (TypeV, ClassInfo, BuiltinV)) or isinstance(b, (TypeV, ClassInfo, BuiltinV)):
            a, b = self.as_type(a), self.as_type(b)
            for t in (a, b):
                if isinstance(t, TypeV) and t.name == 'num':
                    o = b if t is a else a
                    if isinstance(o, TypeV) and o.name in ('list', 'str', 'dict', 'NoneType', 'tuple', 'bool'):
                        return False
                    raise Unsupported('type() of number')
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.oid == b.oid:
                return True
            x, y = self.cell(st, a), self.cell(st, b)
            if type(x) is not type(y):
                return False
            if isinstance(x, HList) and x.sub is None and y.sub is None and self.is_simple(x.items) and self.is_simple(y.items):
                if len(x.items) != len(y.items):
                    return False
                return And_(*[self.eq(st, p.v, q.v) for p, q in zip(x.items, y.items)])
            if isinstance(x, HObj):
                if x.cls is not y.cls:
                    return False
                if x.cls.dataclass_node is not None and not x.cls.find('__eq__'):
                    return And_(*[self.eq(st, self.getfield(st, a, n), self.getfield(st, b, n))
                                  for (n, *_r) in x.cls.fields()])
            if isinstance(x, (HList, HDict)):
                e1, e2 = self.items_of(st, a), self.items_of(st, b)
                if not e1:
                    return self.seq_empty(st, e2)
                if not e2:
                    return self.seq_empty(st, e1)
            raise Unsupported('equality of heap structures')
        if isinstance(a, Ref) or isinstance(b, Ref):
            return False
        if isinstance(a, TupleV) or isinstance(b, TupleV):
            return False
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a == b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opaque) and x.name == 'entry' and x.args and (y is None or isinstance(y, (str, int, float))):
                return self.entry_fact('== %r' % (y,), x)
        raise Unsupported('eq %r %r' % (a, b))

    def rope_eq_guess(self, st, ra, rb):
        """Decide inequality of a rope and a constant where one literal end settles it."""
        for r, o in ((ra, rb), (rb, ra)):
            if all(isinstance(s, str) for s in o.segs):
                c = ''.join(o.segs)
                # total length lower bound
                lo = sum(len(s) for s in r.segs if isinstance(s, str))
                if lo > len(c):
                    return False
                if r.segs and isinstance(r.segs[0], str) and not c.startswith(r.segs[0]):
                    return False
                if r.segs and isinstance(r.segs[-1], str) and not c.endswith(r.segs[-1]):
                    return False
                for s in r.segs:
                    if isinstance(s, str) and s not in c:
                        return False
        raise Unsupported('equality of composed texts')

    def is_simple(self, items):
        return items is not None and all(isinstance(i, GOne) and i.g is True for i in items)

    def _kind(self, v):
        if isinstance(v, Sc):
            return v.kind
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, (int, float)):
            return 'num'
        if isinstance(v, str):
            return 'str'
        return None

    def term(self, v):
        if isinstance(v, Sc):
            return v.t
        if isinstance(v, bool):
            return v
        if isinstance(v, str):
            return self.w.intern(v)
        return self.numterm(v)

    def numterm(self, v):
        if isinstance(v, Sc):
            if v.kind == 'bool':
                return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
            if v.kind == 'int':
                return v.t
            return v.t
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                raise Unsupported('non-finite')
            return z3.RealVal(repr(v) if 'e' not in repr(v) else '%.20f' % v)
        raise Unsupported('numterm %r' % (v,))

    # ------------------------------------------------------- name lookup
    def module_of(self):
        return self.frame.func.module

    def lookup(self, st, name, node=None):
        if name in st.locals:
            v = st.locals[name]
            return v
        clo = self.frame.func.closure
        while clo is not None:
            fid, snap, parent = clo
            loc = st.frames.get(fid, snap)
            if name in loc:
                return loc[name]
            clo = parent
        return self.global_(self.frame.func.module, name, st, node)

    def global_(self, module, name, st, node=None):
        r = module.resolve(name)
        if r is not None:
            if isinstance(r, ConstExpr):
                return self.const(r, st)
            return r
        if name in BUILTINS:
            return BuiltinV(name)
        if name in EXC_BASES:
            return TypeV(name)
        if name == 'NotImplemented':
            return None
        if hasattr(builtins, name):
            raise Unsupported('builtin ' + name)
        self.do_raise(st, 'NameError', node, name)

    def const(self, ce, st):
        if not isinstance(ce.node, (ast.List, ast.Dict, ast.Tuple, ast.Set)):
            try:
                return ast.literal_eval(ce.node)
            except (ValueError, TypeError, SyntaxError):
                pass
        return self.once(ce.module, ce.node, st)

    def once(self, module, node, st):
        """An expression evaluated once, when the module is loaded (module and class variables,
        default arguments): what it creates is shared state, the same at every use."""
        key = id(node)
        if key not in self.w.gvals:
            s = st.copy()
            before = dict(s.heap)
            npc = len(s.pc)
            v = self.in_module(module, node, s)
            if len(s.pc) != npc or any(s.heap.get(o) is not c for o, c in before.items()):
                raise Unsupported('module-level expression with effects')
            for o, c in s.heap.items():
                if o in before:
                    continue
                if o in self.w.cells:
                    raise Unsupported('module-level expression with effects')
                self.w.cells[o] = HObj(c.cls, c.fields, 'global', c.src) if isinstance(c, HObj) else \
                    HList(c.items, 'global', c.sub) if isinstance(c, HList) else HDict(c.items, 'global')
            self.w.gvals[key] = (node, v)
        return self.w.gvals[key][1]

    def in_module(self, module, node, st):
        fi = FuncInfo(node, module)
        saved, self.frame = self.frame, Frame(fi)
        fid = next(self.fid)
        cur = st.cur
        st.frames[fid] = {}
        st.cur = fid
        try:
            return self.ev(node, st)
        finally:
            self.frame = saved
            st.cur = cur
            st.frames.pop(fid, None)

    # -------------------------------------------------------- expressions
    def ev(self, e, st):
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported('too many steps')
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, st)

    def ev_Constant(self, e, st):
        if isinstance(e.value, (bytes, complex)) or e.value is Ellipsis:
            raise Unsupported('constant')
        return e.value

    def ev_Name(self, e, st):
        v = self.lookup(st, e.id, e)
        if isinstance(v, Ite) and (isinstance(v.a, Poison) or isinstance(v.b, Poison)):
            v = self.prune(st, v)
            if isinstance(v, Ite):
                for c, x in ((v.c, v.a), (Not_(v.c), v.b)):
                    if isinstance(x, Poison) and x.why.startswith('unbound'):
                        self.raise_if(st, c, 'UnboundLocalError', e, e.id)
                        v = v.b if x is v.a else v.a
                        break
        if isinstance(v, Poison):
            raise Unsupported('read of %s (%s)' % (e.id, v.why))
        return res(v)

    def ev_Attribute(self, e, st):
        o = self.ev(e.value, st)
        return self.leaves(st, o, lambda s, x: self.getattr(s, x, e.attr, e))

    def getattr(self, st, o, name, node=None):
        o = res(o)
        if isinstance(o, Ref):
            c = self.cell(st, o)
            if isinstance(c, HObj):
                if name == '__class__':
                    return c.cls
                if name.startswith('__') and name.endswith('__') and c.cls.find(name) is None:
                    raise Unsupported('attribute ' + name)
                pm = c.cls.find(name)
                if pm is not None and pm[1] == 'getter':
                    return self.get_property(st, o, c, name, pm)
                if self.has_field(st, o, name):
                    return self.getfield(st, o, name)
                if pm is not None:
                    f, kind, k = pm
                    fi = FuncInfo(f, k.module, k, kind)
                    if kind == 'classmethod':
                        return BoundV(fi, c.cls, c.cls)
                    if kind == 'staticmethod':
                        return fi
                    if kind == 'decorated':
                        raise Unsupported('decorated method')
                    return BoundV(fi, o, c.cls)
                ca = c.cls.find_attr(name)
                if ca is not None:
                    return self.class_attr(st, c.cls, name, ca)
                self.do_raise(st, 'AttributeError', node, name)
            return BuiltinV(('list' if isinstance(c, HList) else 'dict') + '.' + name, o)
        if isinstance(o, ClassInfo):
            if name in ('__name__', '__qualname__'):
                return o.name
            pm = o.find(name)
            if pm is not None:
                f, kind, k = pm
                fi = FuncInfo(f, k.module, k, kind)
                if kind == 'classmethod':
                    return BoundV(fi, o, o)
                if kind in ('getter', 'decorated'):
                    raise Unsupported('unbound property')
                return fi
            ca = o.find_attr(name)
            if ca is not None:
                return self.class_attr(st, o, name, ca)
            if name.startswith('__') or name == 'mro':
                raise Unsupported('attribute ' + name)
            self.do_raise(st, 'AttributeError', node, name)
        if isinstance(o, Module) or isinstance(o, pysrc._NsModule):
            r = o.resolve(name)
            if r is None:
                if name.startswith('__'):
                    raise Unsupported('attribute ' + name)
                self.do_raise(st, 'AttributeError', node, name)
            if isinstance(r, ConstExpr):
                return self.const(r, st)
            return r
        if isinstance(o, ExtModule):
            return ExtName(o.name, name)
        if isinstance(o, ExtName):
            return ExtName(o.module + '.' + o.name, name)
        if is_strlike(o):
            return BuiltinV('str.' + name, o)
        if isinstance(o, BuiltinV) and o.recv is None:
            return BuiltinV(o.name + '.' + name, None)
        if isinstance(o, FileV):
            return BuiltinV('file.' + name, o)
        if isinstance(o, BufV):
            return BuiltinV('buf.' + name, o)
        if isinstance(o, PathV):
            return BuiltinV('path.' + name, o)
        if isinstance(o, Opaque):
            return BuiltinV('opaque.' + name, o)
        if isinstance(o, MatchV):
            if name == 'lastgroup' and o.last is not None:
                return o.last
            return BuiltinV('match.' + name, o)
        if isinstance(o, PatV):
            return BuiltinV('pattern.' + name, o)
        if isinstance(o, (ClassInfo, TypeV)) and name == '__name__':
            return o.name
        if isinstance(o, TypeV):
            return BuiltinV(o.name + '.' + name, None)
        if (isinstance(o, Sc) and o.kind in ('num', 'int') or isinstance(o, (int, float))) and hasattr(0.0, name):
            return BuiltinV('num.' + name, o)
        if isinstance(o, TupleV) and hasattr((), name):
            raise Unsupported('tuple.' + name)
        if o is None or isinstance(o, (bool, int, float, Sc, TupleV)):
            self.do_raise(st, 'AttributeError', node, '%s of %r' % (name, o))
        raise Unsupported('attribute %s of %r' % (name, o))

    def class_attr(self, st, cls, name, ca):
        expr, k = ca
        if isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and expr.func.id == 'field':
            raise Unsupported('class attribute of dataclass field')
        if isinstance(expr, ast.Call):
            saved = self.frame
            try:
                return self.once(k.module, expr, st)
            except Unsupported:
                # computed once when the class is defined: an arbitrary fixed value
                self.frame = saved
                return Opaque('classattr:%s.%s' % (k.qual, name))
        return self.once(k.module, expr, st)

    def libid_axioms(self, o, c, v):
        """Composition contract (C16): without nickname and unit the id is the entry name. And the
        precondition of reading such an id: it looks like that of a unit only in a top-level symbol."""
        names = {f[0] for f in c.cls.fields()}

        def isnone(n):
            x = self.init_any(o, n) if n in names else None
            return x.c if isinstance(x, Ite) and x.a is None and x.b is not None else Not_(x.c) if isinstance(x, Ite) and x.b is None and x.a is not None else x is None
        plain = And_(isnone('libraryNickname'), isnone('unitId'))
        e = self.init_any(o, 'entryName')
        if isinstance(e, Sc):
            self.w.ax(z3.Implies(_z(plain), v.t == e.t))
        if 'unitId' in names:
            sfx = z3.Bool(o.oid + '!sfx')
            top = [Not_(isnone('extends'))]
            for n in ('properties', 'units'):
                for it in self.w.cells[self.init_any(o, n).oid].items:
                    top.append(it.src.n > 0 if isinstance(it, GStar) else True)
            self.w.ax(z3.Implies(sfx, _z(And_(plain, Or_(*top)))))

    def get_property(self, st, o, c, name, pm):
        if name == 'libId' and self.libid_contract and c.origin == 'input' and not (set(c.fields) & LIBID_FIELDS):
            v = self.w.scalar(o.oid + '.libId', 'str', 'text', None)
            if v.tag is None:
                v.tag = ('libid', o.oid)
                self.libid_axioms(o, c, v)
            self.used_contracts.add((D.key_of(c.cls), 'libId.get'))
            return v
        if name == 'libId' and o.oid in self.libid_alias:
            return self.libid_alias[o.oid]
        f, kind, k = pm
        return self.call_func(st, FuncInfo(f, k.module, k, 'method'), [o], {})

    def ev_Subscript(self, e, st):
        o = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, st) if e.slice.lower else None
            hi = self.ev(e.slice.upper, st) if e.slice.upper else None
            if e.slice.step is not None:
                raise Unsupported('slice step')
            return self.leaves(st, o, lambda s, x: self.do_slice(s, x, lo, hi, e))
        i = self.ev(e.slice, st)
        return self.leaves(st, o, lambda s, x: self.leaves(s, i, lambda s2, j: self.do_index(s2, x, j, e)))

    def items_of(self, st, ref):
        c = self.cell(st, ref)
        if isinstance(c, HList) and c.sub is not None and c.items is None:
            return self.expand_node(st, ref, c)
        return c.items

    def expand_node(self, st, ref, c):
        """Tree of a sub-object: children of the list its to_sexpr emits."""
        from . import lexer
        rope = self.expand_sub(st, RSub(c.sub[0], c.sub[1], 0, False))
        items = lexer.lex(self, st, rope)
        nodes = [i for i in items if self.sat(st, i.g)]
        if len(nodes) != 1 or not isinstance(nodes[0], GOne):
            raise Unsupported('sub expression is not a single list')
        inner = self.cell(st, nodes[0].v) if isinstance(nodes[0].v, Ref) else None
        if not isinstance(inner, HList):
            raise Unsupported('sub expression is not a list')
        its = self.items_of(st, nodes[0].v)
        self.w.cells[ref.oid] = HList(its, 'input', c.sub)
        return its

    def do_index(self, st, o, i, node):
        o = res(o)
        if isinstance(o, Opaque):
            if o.name == 'node':
                return Opaque('node', (o, i))
            if o.name == 'entry' and o.args and isinstance(i, int):
                self.raise_if(st, self.entry_fact('no [%d]' % i, o), 'IndexError', node)
                return Opaque('entry', (o, i))
            raise Unsupported('index of opaque')
        if isinstance(o, TupleV):
            if isinstance(i, int):
                if -len(o.items) <= i < len(o.items):
                    return o.items[i]
                self.do_raise(st, 'IndexError', node)
            raise Unsupported('tuple index')
        if isinstance(o, str) and isinstance(i, int):
            if -len(o) <= i < len(o):
                return o[i]
            self.do_raise(st, 'IndexError', node)
        if isinstance(o, Sc) and o.kind == 'str' and isinstance(i, int):
            if i == 0:
                self.raise_if(st, o.t == self.w.intern(''), 'IndexError', node, 'empty text %s' % o.path)
                v = Sc(self.w.sat0(o.t), 'str', 'text', (o.path or '') + '[0]')
                self.w.ax(self.w.slen(v.t) == 1)
                return v
            raise Unsupported('text index')
        if isinstance(o, Rope):
            if isinstance(i, int) and i == 0 and o.segs and isinstance(o.segs[0], str) and o.segs[0]:
                return o.segs[0][0]
            raise Unsupported('rope index')
        if isinstance(o, MatchV):
            from . import builtins_
            return builtins_.b_match_group(self, st, o, [i], {}, node)
        if isinstance(o, (bool, int, float, Sc)) or o is None:
            self.do_raise(st, 'TypeError', node, 'not subscriptable')
        if isinstance(o, Ref):
            c = self.cell(st, o)
            if isinstance(c, HDict):
                return self.dict_get(st, o, i, node, None, True)
            if isinstance(c, HList):
                if isinstance(c.sub, tuple) and c.items is None and i == 0:
                    h = self.sub_head(c)
                    if h is not None:
                        return h
                return self.list_index(st, self.items_of(st, o), i, node)
            if isinstance(c, HObj):
                pm = c.cls.find('__getitem__')
                if pm:
                    return self.call_func(st, FuncInfo(pm[0], pm[2].module, pm[2], 'method'), [o, i], {})
                self.do_raise(st, 'TypeError', node)
        raise Unsupported('index %r[%r]' % (o, i))

    def sub_head(self, c):
        t = D.table().get(D.key_of(c.sub[1]))
        return t.head if t is not None else None

    def list_index(self, st, items, i, node):
        if isinstance(i, bool) or not isinstance(i, (int, Sc)):
            self.do_raise(st, 'TypeError', node, 'list index')
        if isinstance(i, Sc):
            if i.tag and i.tag[0] == 'idx' and len(i.tag[1]) == len(items) and all(g_same(x, y) for x, y in zip(i.tag[1], items)):
                return i.tag[2]
            if z3.is_int_value(i.t):
                return self.list_index(st, items, i.t.as_long(), node)
            # generic index of a star source
            for it in items:
                if isinstance(it, GStar) and it.g is True and len(items) == 1 and i.t.eq(it.src.idx) and \
                        len(it.body) == 1 and isinstance(it.body[0], GOne) and it.body[0].g is True:
                    self.assume(st, z3.And(it.src.idx < it.src.n, it.src.idx >= 0))
                    return res(it.body[0].v)
            raise Unsupported('symbolic index')
        if i < 0:
            rev = self.list_index_rev(st, items, -i - 1, node)
            return rev
        return self._walk(st, list(items), i, node)

    def _walk(self, st, items, i, node):
        if not items:
            self.do_raise(st, 'IndexError', node)
        it = items[0]
        if isinstance(it, GAcc):
            raise Unsupported('index into accumulator')
        if isinstance(it, GStar):
            if len(items) == 1 and it.g is True and len(it.body) == 1 and isinstance(it.body[0], GOne) \
                    and it.body[0].g is True and isinstance(it.body[0].v, _Lazy):
                self.raise_if(st, it.src.n <= i, 'IndexError', node, it.src.path)
                return self.src_at(it.src, i)
            if not self.sat(st, it.g) or not self.sat(st, it.src.n > 0):
                return self._walk(st, items[1:], i, node)
            # element i of a mapped star: split on length only for i == 0 .. small
            if it.g is True or not self.sat(st, Not_(it.g)):
                if all(isinstance(b, GOne) and b.g is True for b in it.body) and len(it.body) == 1 and isinstance(it.body[0].v, (_Lazy,)):
                    sa = self.fork(st, it.src.n > i)
                    ok_a = self.sat(sa)
                    ok_b = self.sat(st, it.src.n <= i)
                    if ok_a and not ok_b:
                        return self.src_at(it.src, i)
            if len(items) == 1 and it.g is True and len(it.body) == 1 and isinstance(it.body[0].v, Opaque) and it.body[0].v.name == 'entry':
                # arbitrary further entries: any value
                self.raise_if(st, it.src.n <= i, 'IndexError', node, it.src.path)
                return Opaque('entry', (it.src.path, i))
            raise Unsupported('index past an unbounded list')
        if it.g is True or not self.sat(st, Not_(it.g)):
            if i == 0:
                return res(it.v)
            return self._walk(st, items[1:], i - 1, node)
        if not self.sat(st, it.g):
            return self._walk(st, items[1:], i, node)
        sa, sb = self.fork(st, it.g), self.fork(st, Not_(it.g))
        try:
            ra = res(it.v) if i == 0 else self._walk(sa, items[1:], i - 1, node)
        except Dead:
            sa = None
        try:
            rb = self._walk(sb, items[1:], i, node)
        except Dead:
            sb = None
        if sa is None and sb is None:
            raise Dead()
        st.become(self.merge(sa, sb))
        if sa is None:
            return rb
        if sb is None:
            return ra
        return self.mv(it.g, ra, rb)

    def list_index_rev(self, st, items, k, node):
        its = list(items)[::-1]
        if its and isinstance(its[0], GStar):
            it = its[0]
            if len(its) == 1 and it.g is True and len(it.body) == 1 and isinstance(it.body[0], GOne) and it.body[0].g is True and isinstance(it.body[0].v, _Lazy):
                self.raise_if(st, it.src.n <= k, 'IndexError', node)
                # only decidable when the length is fixed by the path condition
                for n in range(k + 1, 6):
                    if self.w.valid(st.pc, it.src.n == n):
                        return self.src_at(it.src, n - 1 - k)
            raise Unsupported('negative index into unbounded list')
        return self._walk(st, its, k, node)

    def src_at(self, src, i):
        cache = src.__dict__.setdefault('_at', {})
        if i not in cache:
            cache[i] = src._fn('%s[%d]' % (src.path, i))
        return cache[i]

    def do_slice(self, st, o, lo, hi, node):
        o = res(o)
        lo, hi = self.prune(st, lo), self.prune(st, hi)
        if isinstance(lo, Ite) and hi is None and isinstance(o, Ref):
            def items_for(s, x):
                x = self.prune(s, x)
                if isinstance(x, Ite):
                    return merge_items(x.c, tuple(items_for(self.fork(s, x.c), x.a)),
                                       tuple(items_for(self.fork(s, Not_(x.c)), x.b)))
                if not isinstance(x, int) or x < 0:
                    raise Unsupported('slice bound')
                return self.drop(s, list(self.items_of(s, o)), x, node)
            if isinstance(self.cell(st, o), HList):
                return self.alloc(st, HList(items_for(st, lo)))
        if isinstance(o, str) and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
            return o[lo:hi]
        if isinstance(o, TupleV):
            return TupleV(o.items[lo:hi])
        if isinstance(o, Ref):
            c = self.cell(st, o)
            if isinstance(c, HList):
                items = list(self.items_of(st, o))
                if hi is None and (lo is None or (isinstance(lo, int) and lo >= 0)):
                    return self.alloc(st, HList(self.drop(st, items, lo or 0, node)))
                if self.is_simple(items) and not isinstance(lo, Sc) and not isinstance(hi, Sc):
                    return self.alloc(st, HList(items[lo:hi]))
                if isinstance(hi, int) and hi >= 0 and (lo is None or isinstance(lo, int)) :
                    # all items up to hi must be plain
                    if all(isinstance(x, GOne) and x.g is True for x in items[:hi]) and len(items) >= hi:
                        return self.alloc(st, HList(items[lo or 0:hi]))
                return self.alloc(st, HList(self.cut(st, items, lo, hi)))
            if isinstance(c, HDict):
                self.do_raise(st, 'TypeError', node)
        if isinstance(o, (Sc, Rope)) and is_strlike(o):
            return self.str_slice(st, o, lo, hi)
        if o is None or isinstance(o, (int, float, Sc)):
            self.do_raise(st, 'TypeError', node)
        if isinstance(o, Opaque) and o.name == 'node':
            return Opaque('node', (o, 'slice', lo, hi))
        raise Unsupported('slice of %r' % (o,))

    def cut(self, st, items, lo, hi):
        """items[lo:hi] of a list with entries that may be missing and runs of any length: every
        entry stays under the condition that its position lies in the range."""
        if not all(b is None or (isinstance(b, int) and not isinstance(b, bool)) for b in (lo, hi)):
            raise Unsupported('slice bound')
        pos, out = z3.IntVal(0), []

        def upto(its):
            n = z3.IntVal(0)
            for it in its:
                if isinstance(it, GOne):
                    k = z3.IntVal(1)
                elif isinstance(it, GStar) and all(isinstance(b, GOne) and b.g is True for b in it.body):
                    k = it.src.n * len(it.body)
                else:
                    raise Unsupported('slice')
                n = n + (k if it.g is True else z3.If(_z(it.g), k, z3.IntVal(0)))
            return n
        total = upto(items)
        bound = lambda b: z3.IntVal(b) if b >= 0 else total + b
        def keep(p):
            c = [] if lo is None else [p >= bound(lo)]
            c += [] if hi is None else [p < bound(hi)]
            c = z3.simplify(z3.And(*c)) if c else z3.BoolVal(True)
            return True if z3.is_true(c) else False if z3.is_false(c) else c
        for k, it in enumerate(items):
            pos = upto(items[:k])
            if isinstance(it, GOne):
                g = And_(it.g, keep(pos))
                if g is not False:
                    out.append(GOne(g, it.v))
                continue
            m = len(it.body)
            body = [GOne(keep(pos + it.src.idx * m + q), b.v) for q, b in enumerate(it.body)]
            body = [b for b in body if b.g is not False]
            if body:
                out.append(GStar(it.g, it.src, body, it.born))
        return out

    def str_slice(self, st, o, lo, hi):
        r = to_rope(o)
        segs = list(r.segs)
        if isinstance(lo, int) and lo > 0 and hi is None:
            k = lo
            while k and segs and isinstance(segs[0], str):
                d = min(k, len(segs[0]))
                segs[0] = segs[0][d:]
                k -= d
                if not segs[0]:
                    segs.pop(0)
            if k == 0:
                return rope_value(Rope(segs))
        if isinstance(lo, int) and lo > 0 and isinstance(hi, int) and hi < 0 and len(segs) >= 2 and \
                isinstance(segs[0], str) and isinstance(segs[-1], str) and len(segs[0]) >= lo and len(segs[-1]) >= -hi:
            return self.str_slice(st, self.str_slice(st, o, None, hi), lo, None)
        if (lo in (0, None)) and isinstance(hi, int) and hi < 0:
            k = -hi
            while k and segs and isinstance(segs[-1], str):
                d = min(k, len(segs[-1]))
                segs[-1] = segs[-1][:len(segs[-1]) - d]
                k -= d
                if not segs[-1]:
                    segs.pop()
            if k == 0:
                return rope_value(Rope(segs))
        if all(b is None or (isinstance(b, int) and not isinstance(b, bool)) for b in (lo, hi)):
            from . import builtins_
            k = max([abs(b) for b in (lo, hi) if b is not None] or [0])
            x = builtins_.bare_sc(r)
            if x is not None and k < 10 ** 6:
                v = builtins_.text_fun(self, r, '[%s:%s]' % ('' if lo is None else lo, '' if hi is None else hi), lambda c: c[lo:hi], ['x' * (k + 1)])
                if not lo and hi is not None and hi >= 0:
                    self.w.ax(z3.If(self.w.slen(x.t) <= hi, v.t == x.t, self.w.slen(v.t) == hi))
                return v
        raise Unsupported('text slice')

    def drop(self, st, items, k, node):
        items = list(items)
        while k > 0 and items:
            it = items[0]
            if isinstance(it, GOne) and (it.g is True or not self.sat(st, Not_(it.g))):
                items.pop(0)
                k -= 1
            elif isinstance(it, GOne) and not self.sat(st, it.g):
                items.pop(0)
            elif isinstance(it, GOne):
                # optional positional: split
                a = self.drop(self.fork(st, it.g), items[1:], k - 1, node)
                b = self.drop(self.fork(st, Not_(it.g)), items[1:], k, node)
                return merge_items(it.g, tuple(a), tuple(b)) if not self._suffix(a, b) else self._suffix_merge(it.g, a, b)
            elif isinstance(it, GStar) and not self.sat(st, And_(it.g, it.src.n > 0)):
                items.pop(0)
            else:
                raise Unsupported('slice into an unbounded list')
        return items

    def _suffix(self, a, b):
        a, b = list(a), list(b)
        return (len(b) <= len(a) and all(g_same(x, y) for x, y in zip(a[len(a) - len(b):], b))) or \
            (len(a) < len(b) and all(g_same(x, y) for x, y in zip(b[len(b) - len(a):], a)))

    def _suffix_merge(self, c, a, b):
        a, b = list(a), list(b)
        if len(b) <= len(a):
            k = len(a) - len(b)
            return [g_guard(c, x) for x in a[:k]] + b
        k = len(b) - len(a)
        return [g_guard(Not_(c), x) for x in b[:k]] + a

    def ev_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return _b2v(Not_(self.cond(e.operand, st)))
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.USub):
            def f(s, x):
                if isinstance(x, (int, float)):
                    return -x
                if isinstance(x, Sc) and x.kind in ('num', 'int'):
                    return Sc(-x.t, x.kind, 'num')
                self.do_raise(s, 'TypeError', e)
            return self.leaves(st, v, f)
        raise Unsupported('unary op')

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        return self._boolop(list(e.values), st, isand)

    def _boolop(self, vals, st, isand):
        v = self.ev(vals[0], st)
        if len(vals) == 1:
            return v
        c = self.truth(st, v, vals[0])
        go = c if isand else Not_(c)
        if go is False or not self.sat(st, go):
            return v
        if go is True or not self.sat(st, Not_(go)):
            return self._boolop(vals[1:], st, isand)
        sa, sb = self.fork(st, go), self.fork(st, Not_(go))
        try:
            ra = self._boolop(vals[1:], sa, isand)
        except Dead:
            sa, ra = None, None
        st.become(self.merge(sa, sb))
        if sa is None:
            return v
        if isinstance(v, (bool,)) or (isinstance(v, Sc) and v.kind == 'bool'):
            if isinstance(ra, bool) or (isinstance(ra, Sc) and ra.kind == 'bool'):
                rc = ra if isinstance(ra, bool) else ra.t
                return _b2v(And_(go, rc) if isand else Or_(Not_(go), rc))
        return self.mv(go, ra, v)

    def cond(self, e, st):
        v = self.ev(e, st)
        return self.truth(st, v, e)

    def ev_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = True
        for op, right in zip(e.ops, e.comparators):
            r = self.ev(right, st)
            c = self.compare(st, op, left, r, e)
            out = And_(out, c)
            if out is False:
                return False
            left = r
            if len(e.ops) > 1 and not isinstance(out, bool):
                # short-circuit evaluation of pure operands is unobservable here
                pass
        return _b2v(out)

    def compare(self, st, op, a, b, node):
        if isinstance(op, ast.Eq):
            return self.eq(st, a, b, node)
        if isinstance(op, ast.NotEq):
            return Not_(self.eq(st, a, b, node))
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.vbool(self.leaves(st, a, lambda s, x: self.leaves(s, b, lambda s2, y: _b2v(self.is_(s2, x, y)))))
            return r if isinstance(op, ast.Is) else Not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.vbool(self.leaves(st, b, lambda s, y: _b2v(self.contains(s, a, y, node))))
            return r if isinstance(op, ast.In) else Not_(r)
        def f(s, x, y):
            x, y = res(x), res(y)
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
            kx, ky = self._kind(x), self._kind(y)
            if kx in ('num', 'int', 'bool') and ky in ('num', 'int', 'bool'):
                p, q = self.numterm(x), self.numterm(y)
                return Sc({ast.Lt: p < q, ast.LtE: p <= q, ast.Gt: p > q, ast.GtE: p >= q}[type(op)], 'bool')
            if kx == 'str' and ky == 'str':
                raise Unsupported('text ordering')
            self.do_raise(s, 'TypeError', node, 'ordering')
        return self.vbool(self.leaves(st, a, lambda s, x: self.leaves(s, b, lambda s2, y: f(s2, x, y))))

    def is_(self, st, x, y):
        x, y = res(x), res(y)
        if x is None or y is None:
            return x is y
        if isinstance(x, bool) or isinstance(y, bool):
            # identity with True/False: only bools qualify
            kx, ky = self._kind(x), self._kind(y)
            if kx == 'bool' and ky == 'bool':
                return self.eq(st, x, y)
            return False
        if isinstance(x, Ref) and isinstance(y, Ref):
            return x.oid == y.oid
        if isinstance(x, (TypeV, ClassInfo, BuiltinV)) or isinstance(y, (TypeV, ClassInfo, BuiltinV)):
            return self.eq(st, x, y)
        if type(x) is not type(y):
            return False
        raise Unsupported('is')

    def contains(self, st, x, cont, node):
        cont = res(cont)
        if isinstance(cont, TupleV):
            return Or_(*[self.eq(st, x, y, node) for y in cont.items])
        if isinstance(cont, Ref):
            c = self.cell(st, cont)
            if isinstance(c, HDict):
                return self.dict_has(st, cont, x, node)
            if isinstance(c, HList):
                return self.items_contain(st, self.items_of(st, cont), x, node)
        if isinstance(cont, str):
            def f(s, y):
                if isinstance(y, str):
                    return y in cont
                raise Unsupported('substring test')
            return self.vbool(self.leaves(st, x, f))
        if isinstance(cont, (IterV, SetV)):
            if getattr(cont, 'once', False):
                raise Unsupported('in iterator')
            return self.items_contain(st, cont.items, x, node)
        if isinstance(cont, Sc) and cont.kind == 'str':
            def g(s, y):
                if isinstance(y, str):
                    return _b2v(self.w.has(y, cont.t))
                if isinstance(y, (Sc, Rope)) and is_strlike(y):
                    raise Unsupported('substring test')
                self.do_raise(s, 'TypeError', node, 'in <text>')
            return self.vbool(self.leaves(st, x, g))
        if is_strlike(cont):
            k = self.prune(st, x)
            if isinstance(k, str) and isinstance(cont, Rope):
                return self.rope_has(cont, k)
            raise Unsupported('substring test')
        if cont is None or isinstance(cont, (int, float, Sc)):
            self.do_raise(st, 'TypeError', node)
        raise Unsupported('in %r' % (cont,))

    def rope_has(self, r, k):
        """a character occurs in a text"""
        if len(k) != 1:
            raise Unsupported('substring test')
        out = []
        for s in r.segs:
            if isinstance(s, str):
                if k in s:
                    return True
            elif isinstance(s, Hole) and s.v.kind in ('num', 'int') and not s.ops and k not in '0123456789+-.e':
                pass
            elif isinstance(s, Hole) and s.v.kind == 'str' and not s.ops:
                out.append(self.w.has(k, s.v.t))
            elif isinstance(s, RIte):
                out += [And_(s.c, self.rope_has(s.a, k)), And_(Not_(s.c), self.rope_has(s.b, k))]
            else:
                raise Unsupported('substring test')
        return Or_(*out)

    def items_contain(self, st, items, x, node):
        outs = []
        for it in items:
            if isinstance(it, GOne):
                if not self.sat(st, it.g):
                    continue
                s2 = self.fork(st, it.g)
                outs.append(And_(it.g, self.eq(s2, x, res(it.v), node)))
            elif isinstance(it, GStar):
                s2 = self.fork(st, And_(it.g, it.src.n > 0))
                for b in it.body:
                    if not isinstance(b, GOne):
                        raise Unsupported('in nested star')
                    c = self.eq(self.fork(s2, b.g), x, res(b.v), node)
                    if c is False:
                        continue
                    if not self.sat(s2, And_(b.g, c)):
                        continue
                    # exists an element equal to x: fresh predicate, true when the generic one is
                    ex = z3.Bool('exists:%s:%s' % (it.src.path, next(self.w.fresh)))
                    self.w.ax(z3.Implies(ex, it.src.n > 0))
                    self.w.approx.append('existential over %s' % it.src.path)
                    cc = And_(b.g, c)
                    if cc is True:
                        self.w.ax(z3.Implies(it.src.n > 0, ex))
                    else:
                        self.w.ax(z3.Implies(z3.And(it.src.n > 0, cc), ex))
                    outs.append(And_(it.g, ex))
            else:
                raise Unsupported('in accumulator')
        return Or_(*outs)

    def ev_IfExp(self, e, st):
        c = self.cond(e.test, st)
        ca, cb = self.sat(st, c), self.sat(st, Not_(c))
        if not ca and not cb:
            raise Dead()
        if not cb:
            return self.ev(e.body, st)
        if not ca:
            return self.ev(e.orelse, st)
        sa, sb = self.fork(st, c), self.fork(st, Not_(c))
        try:
            ra = self.ev(e.body, sa)
        except Dead:
            sa, ra = None, None
        try:
            rb = self.ev(e.orelse, sb)
        except Dead:
            sb, rb = None, None
        if sa is None and sb is None:
            raise Dead()
        st.become(self.merge(sa, sb))
        if sa is None:
            return rb
        if sb is None:
            return ra
        return self.mv(c, ra, rb)

    def ev_JoinedStr(self, e, st):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                parts.append(self.ev_FormattedValue(p, st))
        return cat(*parts)

    def ev_FormattedValue(self, e, st):
        v = self.ev(e.value, st)
        if e.conversion not in (-1, 115):
            raise Unsupported('conversion')
        spec = ''
        if e.format_spec is not None:
            spec = self.ev(e.format_spec, st)
        return self.fmt(st, v, spec, e)

    def fmt(self, st, v, spec, node=None):
        if isinstance(spec, str) and spec == '':
            return self.tostr(st, v, node)

        def f(s, x):
            if isinstance(x, Sc) and x.kind in ('num', 'int'):
                return Rope((Hole(x, (('fmt', spec if isinstance(spec, str) else repr(spec)),)),))
            if isinstance(x, (int, float)) and isinstance(spec, str):
                return format(x, spec)
            if isinstance(x, str) and isinstance(spec, str):
                return format(x, spec)
            raise Unsupported('format spec on %r' % (x,))
        return self.leaves(st, v, f)

    def tostr(self, st, v, node=None):
        """str(v) as a value (str, Sc str, Rope, or Ite of those)."""
        v = res(v)
        if isinstance(v, Ite):
            # no state effects: build the Ite directly, pruning infeasible leaves
            v = self.prune(st, v)
            if isinstance(v, Ite):
                a = self.tostr(self.fork(st, v.c), v.a, node)
                b = self.tostr(self.fork(st, Not_(v.c)), v.b, node)
                return self.mv(v.c, a, b)
        if isinstance(v, Poison):
            raise Unsupported('read of ' + v.why)
        if isinstance(v, str) or isinstance(v, Rope):
            return v
        if v is None or isinstance(v, (bool, int, float)):
            return str(v)
        if isinstance(v, Sc):
            if v.kind == 'str':
                return v
            if v.kind == 'bool':
                return Ite(v.t, 'True', 'False')
            return Rope((Hole(v),))
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, HObj) and c.cls.find('__str__') and not c.cls.find('__format__'):
                f, kind, k = c.cls.find('__str__')
                return self.call_func(st, FuncInfo(f, k.module, k, kind), [v], {})
            if isinstance(c, HObj) and (c.cls.find('__repr__') or c.cls.find('__format__')):
                raise Unsupported('__repr__')
            return Rope(('<repr of %s>' % (c.cls.name if isinstance(c, HObj) else 'list'),))
        if isinstance(v, (ClassInfo, BoundV, BuiltinV, TypeV, FuncInfo)):
            return Rope(('<repr>',))
        if isinstance(v, Opaque):
            return Rope((Hole(Sc(z3.Int('str:%r' % (v,)), 'str', 'text', 'str:%r' % (v,))),))
        raise Unsupported('str of %r' % (v,))

    def ev_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(st, e.op, a, b, e)

    def binop(self, st, op, a, b, node):
        if isinstance(op, ast.Add) and self._strtree(a) and self._strtree(b):
            return cat(a, b)
        return self.leaves(st, a, lambda s, x: self.leaves(s, b, lambda s2, y: self.binop1(s2, op, x, y, node)))

    def binop1(self, st, op, a, b, node):
        a, b = res(a), res(b)
        num = (int, float)
        if isinstance(a, num) and isinstance(b, num):
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                        ast.Div: lambda: a / b, ast.Mod: lambda: a % b, ast.FloorDiv: lambda: a // b,
                        ast.LShift: lambda: a << b if b < 64 else {}[0], ast.RShift: lambda: a >> b, ast.BitOr: lambda: a | b,
                        ast.BitAnd: lambda: a & b, ast.BitXor: lambda: a ^ b, ast.Pow: lambda: a ** b if abs(b) < 64 else {}[0]}[type(op)]()
            except (KeyError, OverflowError):
                raise Unsupported('operator')
            except (TypeError, ValueError) as x:
                self.do_raise(st, type(x).__name__, node)
            except ZeroDivisionError:
                self.do_raise(st, 'ZeroDivisionError', node)
        if isinstance(op, ast.Add):
            if is_strlike(a) and is_strlike(b):
                return cat(a, b)
            if isinstance(a, TupleV) and isinstance(b, TupleV):
                return TupleV(a.items + b.items)
            if isinstance(a, Ref) and isinstance(b, Ref):
                x, y = self.cell(st, a), self.cell(st, b)
                if isinstance(x, HList) and isinstance(y, HList):
                    return self.alloc(st, HList(tuple(self.items_of(st, a)) + tuple(self.items_of(st, b))))
        if isinstance(op, ast.Mult):
            if is_strlike(b) and not is_strlike(a):
                a, b = b, a
            if isinstance(a, str) and isinstance(b, int):
                return a * b
            if isinstance(a, str) and isinstance(b, Sc) and b.kind in ('int', 'num'):
                if a == '':
                    return ''
                if set(a) <= {' '}:
                    n = b.t * len(a) if len(a) > 1 else b.t
                    return Rope((RSp(n),))
                if a.strip() == '':
                    return Rope((RSp(b.t * len(a)),))
            if isinstance(a, Ref) and isinstance(b, int):
                x = self.cell(st, a)
                if isinstance(x, HList):
                    return self.alloc(st, HList(tuple(x.items) * b))
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return self.percent(st, a, b, node)
        ka, kb = self._kind(a), self._kind(b)
        if ka in ('num', 'int', 'bool') and kb in ('num', 'int', 'bool'):
            p, q = self.numterm(a), self.numterm(b)
            k = 'int' if (z3.is_int(p) and z3.is_int(q)) else 'num'
            if isinstance(op, ast.Add):
                return Sc(p + q, k, 'num')
            if isinstance(op, ast.Sub):
                return Sc(p - q, k, 'num')
            if isinstance(op, ast.Mult):
                return Sc(p * q, k, 'num')
            if isinstance(op, ast.Mod) and k == 'int' and isinstance(b, int) and b > 0:
                return Sc(p % q, k, 'num')
            if isinstance(op, ast.FloorDiv) and k == 'int' and isinstance(b, int) and b > 0:
                return Sc(p / q, k, 'num')
            if isinstance(op, ast.Div) and isinstance(b, (int, float)) and b != 0:
                return Sc(z3.ToReal(p) / q if z3.is_int(p) else p / q, 'num', 'num')
            raise Unsupported('arithmetic')
        if a is None or b is None or ka or kb:
            self.do_raise(st, 'TypeError', node, 'operands %r %r' % (type(a), type(b)))
        raise Unsupported('binop %r %r' % (a, b))

    def percent(self, st, f, b, node):
        args = list(b.items) if isinstance(b, TupleV) else [b]
        out, i = [], 0
        for m in _re.finditer(r'%(?:%|(-?[0-9.]*)([sdrf]))|[^%]+', f):
            g = m.group(0)
            if g == '%%':
                out.append('%')
            elif g[0] == '%':
                if m.group(1) or m.group(2) != 's' or i >= len(args):
                    raise Unsupported('% format')
                out.append(self.tostr(st, args[i], node))
                i += 1
            else:
                out.append(g)
        return cat(*out)

    def ev_List(self, e, st):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                items.extend(self.iter_items(st, self.ev(x.value, st), x))
            else:
                items.append(GOne(True, self.ev(x, st)))
        return self.alloc(st, HList(items))

    def ev_Tuple(self, e, st):
        return TupleV([self.ev(x, st) for x in e.elts])

    def ev_Set(self, e, st):
        return SetV([GOne(True, self.ev(x, st)) for x in e.elts])

    def ev_Dict(self, e, st):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.prune(st, self.ev(v, st))
                c = self.cell(st, d) if isinstance(d, Ref) else None
                if not isinstance(c, HDict) or items and not (self.is_simple(c.items) and all(isinstance(i.v.items[0], str) for i in c.items)):
                    raise Unsupported('dict unpacking')
                if not items:
                    items.extend(c.items)
                    continue
                for it in c.items:
                    items[:] = [i for i in items if res(i.v.items[0]) != it.v.items[0]] + [it]
                continue
            kk, vv = self.ev(k, st), self.ev(v, st)
            if isinstance(res(kk), (str, int, float)):
                dup = [i for i, it in enumerate(items) if res(it.v.items[0]) == res(kk)]
                if dup:
                    items[dup[0]] = GOne(True, TupleV((items[dup[0]].v.items[0], vv)))
                    continue
            elif items:
                raise Unsupported('dict display with computed keys')
            items.append(GOne(True, TupleV((kk, vv))))
        return self.alloc(st, HDict(items))

    def ev_Lambda(self, e, st):
        return FuncInfo(e, self.frame.func.module, self.frame.func.cls, 'function',
                        (st.cur, dict(st.locals), self.frame.func.closure))

    def ev_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.locals[e.target.id] = v
        return v

    def ev_ListComp(self, e, st):
        return self.alloc(st, HList(self.comp(e, st)))

    def ev_GeneratorExp(self, e, st):
        return IterV(self.comp(e, st), True)

    def ev_SetComp(self, e, st):
        return SetV(self.comp(e, st))

    def ev_DictComp(self, e, st):
        e2 = ast.ListComp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators)
        ast.copy_location(e2, e)
        items = []
        for it in self.comp(e2, st):
            if isinstance(it, GStar):
                self.check_dict_star(st, it, it.body)
                if items:
                    raise Unsupported('dict from several parts')
                items.append(it)
                continue
            kk = res(res(it.v).items[0])
            if not isinstance(kk, (str, int, float)) or any(isinstance(x, GStar) for x in items):
                raise Unsupported('dict with computed keys')
            dup = [i for i, x in enumerate(items) if res(x.v.items[0]) == kk and self.sat(st, And_(x.g, it.g))]
            if dup and (len(dup) > 1 or items[dup[0]].g is not True):
                raise Unsupported('dict key may collide')
            if dup:
                old = items[dup[0]].v
                items[dup[0]] = GOne(True, TupleV((old.items[0], self.mv(it.g, it.v.items[1], old.items[1]) if it.g is not True else it.v.items[1])))
            else:
                items.append(it)
        return self.alloc(st, HDict(items))

    def comp(self, e, st):
        """list comprehension as a loop appending to a fresh list"""
        acc = self.alloc(st, HList(()))
        self.comps[acc.oid] = (getattr(e, 'shown', e), self.frame.func.node)
        name = '.comp%d' % acc.oid
        st.locals[name] = acc
        body = [ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=name, ctx=ast.Load()), attr='append', ctx=ast.Load()),
                                  args=[e.elt], keywords=[]))]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        saved = dict(st.locals)
        mod = ast.Module(body=body, type_ignores=[])
        ast.copy_location(body[0], e)
        ast.fix_missing_locations(mod)
        r = self.block(body, st)
        if r is None:
            raise Dead()
        st.become(r)
        for n in list(st.locals):
            if n not in saved:
                del st.locals[n]
            elif n != name and not val_same(st.locals[n], saved[n]) and not isinstance(saved[n], Poison):
                # comprehension variables are local in Python 3
                st.locals[n] = saved[n]
        st.locals.pop(name, None)
        return self.cell(st, acc).items

    # ---------------------------------------------------------- iteration
    def iter_items(self, st, v, node):
        v = self.prune(st, v)
        if isinstance(v, Ite):
            # items guarded by the condition
            sa, sb = self.fork(st, v.c), self.fork(st, Not_(v.c))
            a = self.iter_items(sa, v.a, node)
            b = self.iter_items(sb, v.b, node)
            for s in (sa, sb):
                for k in s.heap:
                    if isinstance(k, tuple) and k[0] == 'used':
                        st.heap[k] = _USED
            return merge_items(v.c, tuple(a), tuple(b))
        if isinstance(v, TupleV):
            return [GOne(True, x) for x in v.items]
        if isinstance(v, str):
            return [GOne(True, x) for x in v]
        if isinstance(v, IterV):
            if v.once:
                key = ('used', id(v))
                if key in st.heap:
                    raise Unsupported('iterator used twice')
                self.keep.append(v)
                st.heap[key] = _USED
            return list(v.items)
        if isinstance(v, SetV):
            vals = [res(i.v) if isinstance(i, GOne) and i.g is True else _MISS for i in v.items]
            if all(isinstance(x, (int, str, float)) for x in vals) and len(set(vals)) <= 1:
                return list(v.items[:1])
            raise Unsupported('order of a set')
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, HList):
                return list(self.items_of(st, v))
            if isinstance(c, HDict):
                out = []
                for it in c.items:
                    out.append(self.map_item(it, lambda kv: kv.items[0]))
                return out
        if v is None or isinstance(v, (int, float, bool)) or (isinstance(v, Sc) and v.kind != 'str'):
            self.do_raise(st, 'TypeError', node, 'not iterable')
        if is_text(v):
            return [self.chars(v)]
        raise Unsupported('iteration over %r' % (v,))

    def chars(self, text):
        """The characters of a text, as a list of unknown length."""
        path = 'chars:%s' % self.w.rope_id(to_rope(text))
        src = self.charsrc.get(path)
        if src is None:
            n = z3.Int(path + '#')
            self.w.ax(n >= 0)

            def mk(p):
                c = z3.Int(p)
                self.w.ax(self.w.slen(c) == 1)
                return Sc(c, 'str', None, p)
            src = self.charsrc[path] = StarSrc(path, n, z3.Int(path + '@'), mk)
            src.text = text
        return GStar(True, src, [GOne(True, src.elem)])

    def mk_rstar(self, st, src, body, sep=''):
        """Text repeated for every element; for the characters of a text: what this does to each of them."""
        if not hasattr(src, 'text'):
            return Rope((RStar(src, body, sep),))
        if sep:
            raise Unsupported('characters with separators')
        c = src.elem

        def flat(s, r):
            out = []
            for x in r.segs:
                if isinstance(x, RIte):
                    if self.sat(s, x.c):
                        if self.sat(s, Not_(x.c)):
                            raise Unsupported('characters')
                        out += flat(s, x.a)
                    else:
                        out += flat(s, x.b)
                else:
                    out.append(x)
            return out

        def is_c(x):
            return isinstance(x, Hole) and not x.ops and isinstance(x.v, Sc) and x.v.t.eq(c.t)
        m, other = {}, st
        for k in [k for k in self.w.strs if len(k) == 1]:
            e = c.t == self.w.intern(k)
            segs = flat(self.fork(st, e), body)
            if not all(isinstance(x, str) or is_c(x) for x in segs):
                raise Unsupported('characters')
            new = ''.join(x if isinstance(x, str) else k for x in segs)
            if new != k:
                m[k] = new
            other = self.fork(other, Not_(e))
        segs = flat(other, body)
        if len(segs) != 1 or not is_c(segs[0]):
            raise Unsupported('characters')
        for x in m:
            if any(x in y for z, y in m.items() if z != x):
                raise Unsupported('characters')
        r = src.text
        for x, y in m.items():
            r = self.rope_op(r, ('rep', x, y))
        return to_rope(r)

    def map_item(self, it, f):
        if isinstance(it, GOne):
            return GOne(it.g, f(res(it.v)))
        if isinstance(it, GStar):
            n = next(self.oid)
            return GStar(it.g, it.src, [self.map_item(b, f) for b in it.body], n)
        raise Unsupported('accumulator')

    # ------------------------------------------------------------- dicts
    def dict_get(self, st, ref, k, node, default, must):
        c = self.cell(st, ref)
        k = self.prune(st, k)
        cands = []
        for it in c.items:
            if isinstance(it, GStar):
                hit = self.generic_entry(it, k)
                if hit is not None and len(c.items) == 1:
                    return hit
                raise Unsupported('lookup in symbolic dict')
            kk, vv = it.v.items
            cands.append((And_(it.g, self.eq(st, k, kk, node)), vv))
        out_states = []
        # last match wins
        def go(s, cs):
            if not cs:
                if must:
                    self.do_raise(s, 'KeyError', node)
                return default
            cnd, vv = cs[-1]
            ca, cb = self.sat(s, cnd), self.sat(s, Not_(cnd))
            if ca and not cb:
                return vv
            if not ca:
                return go(s, cs[:-1])
            sa, sb = self.fork(s, cnd), self.fork(s, Not_(cnd))
            try:
                rb = go(sb, cs[:-1])
            except Dead:
                sb = None
            s.become(self.merge(sa, sb))
            return vv if sb is None else self.mv(cnd, vv, rb)
        return go(st, cands)

    def generic_entry(self, it, k):
        """value stored under the generic key of a symbolic dict (its keys are distinct)"""
        if it.g is True and getattr(it.src, 'isdict', False) and len(it.body) == 1 and isinstance(it.body[0], GOne) \
                and it.body[0].g is True and isinstance(it.body[0].v, _Lazy):
            kk, vv = it.src.elem.items
            if val_same(res(kk), res(k)):
                return res(vv)
        return None

    def dict_has(self, st, ref, k, node):
        c = self.cell(st, ref)
        outs = []
        for it in c.items:
            if isinstance(it, GStar):
                if self.generic_entry(it, k) is not None:
                    return True
                raise Unsupported('lookup in symbolic dict')
            outs.append(And_(it.g, self.eq(st, k, it.v.items[0], node)))
        return Or_(*outs)

    def dict_set(self, st, ref, k, v, node):
        c = self.cell(st, ref)
        if c.origin in ('input', 'global'):
            self.mutated_input.append((ref.oid, '[]', st.pc))
        k = self.prune(st, k)
        if isinstance(k, Ref) and isinstance(self.cell(st, k), (HList, HDict)):
            self.do_raise(st, 'TypeError', node, 'unhashable')
        items = list(c.items)
        for n, it in enumerate(items):
            if isinstance(it, GAcc):
                continue
            if isinstance(it, GStar):
                # overwriting an existing key of an earlier group is possible unless disjoint
                raise Unsupported('dict update after star')
            e = self.eq(st, k, it.v.items[0], node)
            if e is True and it.g is True:
                items[n] = GOne(True, TupleV((it.v.items[0], v)))
                st.heap[ref.oid] = HDict(items, c.origin)
                return
            if e is not False and self.sat(st, And_(it.g, e)):
                raise Unsupported('dict key may collide')
        items.append(GOne(True, TupleV((k, v))))
        st.heap[ref.oid] = HDict(items, c.origin)

    # ------------------------------------------------------------- calls
    def ev_Call(self, e, st):
        # super().method(...)
        f = self.ev(e.func, st)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                its = self.iter_items(st, self.ev(a.value, st), a)
                if not self.is_simple(its):
                    raise Unsupported('star args')
                args.extend(res(i.v) for i in its)
            else:
                args.append(self.ev(a, st))
        star = []
        for k in e.keywords:
            if k.arg is None:
                star.append(self.prune(st, self.ev(k.value, st)))
            else:
                kwargs[k.arg] = self.ev(k.value, st)

        def go(s, ds, kw):
            if not ds:
                return self.leaves(s, f, lambda s2, fn: self.call(s2, fn, args, kw, e))

            def one(s2, d):
                c = self.cell(s2, d) if isinstance(d, Ref) else None
                if not (isinstance(c, HDict) and self.is_simple(c.items) and all(isinstance(i.v.items[0], str) for i in c.items)):
                    raise Unsupported('** args')
                kw2 = dict(kw)
                for i in c.items:
                    if i.v.items[0] in kw2:
                        self.do_raise(s2, 'TypeError', e, 'multiple values for keyword argument')
                    kw2[i.v.items[0]] = i.v.items[1]
                return go(s2, ds[1:], kw2)
            return self.leaves(s, ds[0], one)
        return go(st, star, kwargs)

    def call(self, st, f, args, kwargs, node):
        if isinstance(f, ClassInfo):
            return self.construct(st, f, args, kwargs, node)
        if isinstance(f, BoundV):
            return self.call_method(st, f, args, kwargs, node)
        if isinstance(f, FuncInfo):
            st_key = (f.module.name, getattr(f.node, 'name', None))
            if st_key in self.stubs:
                return self.stubs[st_key](self, st, None, args, kwargs, node)
            if f.cls is not None and f.kind == 'method' and args and isinstance(res(args[0]), Ref):
                return self.call_method(st, BoundV(f, args[0], f.cls), args[1:], kwargs, node)
            return self.call_func(st, f, args, kwargs, node)
        if isinstance(f, BuiltinV):
            from . import builtins_ as B
            return B.call(self, st, f, args, kwargs, node)
        if isinstance(f, (ExtName,)):
            from . import builtins_ as B
            return B.call_ext(self, st, f, args, kwargs, node)
        if isinstance(f, TypeV):
            if f.name in EXC_BASES:
                return Opaque('exc:' + f.name)
            from . import builtins_ as B
            return B.call(self, st, BuiltinV(f.name), args, kwargs, node)
        if isinstance(f, GetterV) and len(args) == 1 and not kwargs:
            tmp = '.get%d' % next(self.oid)
            st.locals[tmp] = args[0]
            o = ast.Name(id=tmp, ctx=ast.Load())
            es = [ast.Attribute(value=o, attr=k, ctx=ast.Load()) if f.kind == 'attrgetter' else
                  ast.Subscript(value=o, slice=ast.Constant(k), ctx=ast.Load()) for k in f.keys]
            e = es[0] if len(es) == 1 else ast.Tuple(elts=es, ctx=ast.Load())
            return self.ev(ast.fix_missing_locations(ast.copy_location(e, node)), st)
        if isinstance(f, PartialV):
            return self.call(st, f.f, list(f.args) + list(args), dict(f.kwargs, **kwargs), node)
        if isinstance(f, Opaque) and f.name.startswith('func:'):
            return Opaque('apply', (f,) + tuple(args))
        if f is None or isinstance(f, (int, str, float, Sc, Rope)):
            self.do_raise(st, 'TypeError', node, 'not callable')
        raise Unsupported('call of %r' % (f,))

    def call_method(self, st, f, args, kwargs, node):
        name = getattr(f.func.node, 'name', '')
        key = D.key_of(f.cls) if isinstance(f.cls, ClassInfo) else None
        recv = res(f.recv)
        stub = self.stubs.get((key, name))
        if stub is not None:
            return stub(self, st, recv, args, kwargs, node)
        if self.contracts and key in D.table():
            if name == 'to_sexpr' and isinstance(recv, Ref):
                r = self.contract_to(st, recv, f, args, kwargs, node)
                if r is not None:
                    return r
            if name == 'from_sexpr' and isinstance(recv, ClassInfo):
                r = self.contract_from(st, recv, f, args, kwargs, node)
                if r is not None:
                    return r
        return self.call_func(st, f.func, [f.recv] + list(args), kwargs, node)

    def contract_to(self, st, recv, f, args, kwargs, node):
        c = self.cell(st, recv)
        if c.origin != 'input' or c.fields:
            return None
        key = D.key_of(c.cls)
        t = D.table()[key]
        if t.shape == 'inline':
            return None
        ty = self.w.objty.get(recv.oid)
        if ty is None or not D.in_contract(ty):
            return None          # outside the callee's precondition: verify its body here
        try:
            bound = self.bind(st, f.func, [recv] + list(args), kwargs, node)
        except Unsupported:
            return None
        ind, nl = bound.get('indent'), bound.get('newline')
        if 'indent' not in bound or 'newline' not in bound:
            return None
        for n, v in bound.items():      # further layout switches
            if n not in ('indent', 'newline', 'self') and not (isinstance(v, bool) or isinstance(v, Sc) and v.kind == 'bool'):
                return None
        if not (isinstance(ind, int) and not isinstance(ind, bool) and ind >= 0 or isinstance(ind, Sc) and ind.kind in ('int',)):
            return None
        if not (isinstance(nl, bool) or isinstance(nl, Sc) and nl.kind == 'bool'):
            return None
        self.used_contracts.add((key, 'to_sexpr'))
        return Rope((RSub(recv, c.cls, ind, nl),))

    def contract_from(self, st, cls, f, args, kwargs, node):
        if len(args) != 1 or kwargs:
            return None
        a = self.prune(st, args[0])
        if isinstance(a, Opaque) and a.name == 'node':
            key = D.key_of(cls)
            self.used_contracts.add((key, 'from_sexpr'))
            return Opaque('decode:' + key, (a,))
        if not isinstance(a, Ref):
            return None
        c = self.cell(st, a)
        if not isinstance(c, HList) or c.sub is None or c.origin != 'input':
            return None
        obj, scls = c.sub
        if scls is not cls:
            return None
        key = D.key_of(cls)
        if D.table()[key].shape == 'inline':
            return None
        self.used_contracts.add((key, 'from_sexpr'))
        return self.alloc(st, HObj(cls, {}, 'fresh', obj))

    def bind(self, st, fi, args, kwargs, node):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kwargs = dict(kwargs)
        if len(args) > len(names) and a.vararg is None:
            self.do_raise(st, 'TypeError', node, 'too many arguments')
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = TupleV(args[len(names):])
        for n in list(kwargs):
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                if n in out:
                    self.do_raise(st, 'TypeError', node, 'duplicate argument ' + n)
                out[n] = kwargs.pop(n)
        if kwargs:
            if a.kwarg is None:
                self.do_raise(st, 'TypeError', node, 'unexpected argument %s' % sorted(kwargs))
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.alloc(st, HDict([GOne(True, TupleV((k, v))) for k, v in kwargs.items()]))
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                if n not in defaults:
                    self.do_raise(st, 'TypeError', node, 'missing argument ' + n)
                d = defaults[n]
                out[n] = self.once(fi.module, d, st)
        return out

    def call_func(self, st, fi, args, kwargs, node=None):
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            raise Unsupported('recursion depth')
        try:
            if fi.poison or fi.kind == 'decorated':
                raise Unsupported(fi.poison or 'decorated method')
            if fi.cls is not None:
                fi.cls.check()
            if isinstance(fi.node, ast.FunctionDef):
                extra = [ast.unparse(d) for d in fi.node.decorator_list]
                if fi.kind == 'function' and extra and not all(d in ('staticmethod', 'classmethod') for d in extra):
                    raise Unsupported('decorated function')
                if own_yields(fi.node):
                    return self.generator(st, fi, args, kwargs, node)
            bound = self.bind(st, fi, args, kwargs, node)
            if getattr(fi, 'gen', None) is not None:
                bound['.gen'] = fi.gen
            fid = next(self.fid)
            saved_frame, saved_cur, saved_loops = self.frame, st.cur, self.loopstack
            fr = Frame(fi, fi.cls)
            self.frame = fr
            self.loopstack = []
            st.frames[fid] = bound
            st.cur = fid
            fr.fid = fid
            self.funcs_seen.add((fi.module.name, (fi.cls.name + '.' if fi.cls else '') + getattr(fi.node, 'name', '<lambda>')))
            try:
                if isinstance(fi.node, ast.Lambda):
                    v = self.ev(fi.node.body, st)
                    fr.returns.append((st.copy(), v))
                    end = None
                else:
                    end = self.block(fi.node.body, st.copy())
            finally:
                self.frame, self.loopstack = saved_frame, saved_loops
            rets = list(fr.returns)
            if end is not None:
                rets.append((end, None))
            if not rets:
                raise Dead()
            acc, val = None, None
            for (s, v) in rets:
                s.frames.pop(fid, None)
                s.cur = saved_cur
                if acc is None:
                    acc, val = s, v
                else:
                    # discriminator
                    k = 0
                    while k < len(acc.pc) and k < len(s.pc) and same(acc.pc[k], s.pc[k]):
                        k += 1
                    r1, r2 = acc.pc[k:], s.pc[k:]
                    if r1 and r2 and same(r1[0], Not_(r2[0])):
                        c = r1[0]
                    else:
                        c = And_(*r1)
                        if c is True:
                            c = Not_(And_(*r2))
                    val = self.mv(c, val, v)
                    acc = self.merge(acc, s)
            st.become(acc)
            return val
        finally:
            self.depth -= 1

    def generator(self, st, fi, args, kwargs, node):
        """A generator function, run to its end: what it yields, in order."""
        acc = self.alloc(st, HList(()))
        fi2 = copy.copy(fi)
        fi2.node = gather_yields(fi.node)
        fi2.gen = acc
        self.call_func(st, fi2, args, kwargs, node)
        return IterV(self.items_of(st, acc), True)

    def construct(self, st, cls, args, kwargs, node):
        stub = self.stubs.get((D.key_of(cls), '__init__'))
        if stub is not None:
            return stub(self, st, cls, args, kwargs, node)
        if any(isinstance(b, ast.Name) and b.id == 'ABC' for b in cls.base_nodes):
            for n, f in cls.methods.items():
                if any('abstractmethod' in ast.unparse(d) for d in f.decorator_list):
                    self.do_raise(st, 'TypeError', node, 'abstract class')
        init = cls.find('__init__')
        ref = self.alloc(st, HObj(cls, {}, 'fresh', None))
        if init is not None:
            self.call_func(st, FuncInfo(init[0], init[2].module, init[2], 'method'), [ref] + list(args), kwargs, node)
            return ref
        if cls.dataclass_node is None and not any(k.dataclass_node is not None for k in cls.mro()):
            if args or kwargs:
                self.do_raise(st, 'TypeError', node)
            return ref
        if isinstance(cls.dataclass_node, ast.Call) and cls.dataclass_node.keywords:
            for k in cls.dataclass_node.keywords:
                if k.arg in ('init', 'frozen', 'slots', 'kw_only') and not (isinstance(k.value, ast.Constant) and k.value.value is False) and not (k.arg == 'init' and k.value.value is True):
                    raise Unsupported('dataclass(%s)' % k.arg)
        names = []
        for (n, ann, d, k) in cls.fields():
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'field' and \
                    any(kw.arg == 'init' and isinstance(kw.value, ast.Constant) and kw.value.value is False for kw in d.keywords):
                continue
            names.append(n)
        if len(args) > len(names):
            self.do_raise(st, 'TypeError', node, 'too many arguments')
        given = dict(zip(names, args))
        for k, v in kwargs.items():
            if k not in names or k in given:
                self.do_raise(st, 'TypeError', node, 'unexpected keyword ' + k)
            given[k] = v
        for (n, ann, d, k) in cls.fields():
            if n in given:
                v = given[n]
            else:
                v = self.default_of(st, cls, n, d, k, node)
            c = st.heap[ref.oid]
            st.heap[ref.oid] = c.with_(n, v)
        post = cls.find('__post_init__')
        if post is not None:
            self.call_func(st, FuncInfo(post[0], post[2].module, post[2], 'method'), [ref], {}, node)
        return ref

    def default_of(self, st, cls, n, d, k, node):
        if d is None:
            self.do_raise(st, 'TypeError', node, 'missing argument ' + n)
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'field':
            for kw in d.keywords:
                if kw.arg == 'default_factory':
                    fac = self.in_module(k.module, kw.value, st)
                    return self.call(st, fac, [], {}, node)
                if kw.arg == 'default':
                    return self.once(k.module, kw.value, st)
            self.do_raise(st, 'TypeError', node, 'missing argument ' + n)
        v = self.class_attr(st, cls, n, (d, k))
        return v

    # --------------------------------------------------------- statements
    def block(self, stmts, st):
        for s in stmts:
            try:
                st = self.stmt(s, st)
            except Dead:
                return None
            if st is None:
                return None
        return st

    def stmt(self, s, st):
        self.steps += 1
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, st)

    def st_Pass(self, s, st):
        return st

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st)
        return st

    def st_Global(self, s, st):
        raise Unsupported('global statement')

    def st_Import(self, s, st):
        for a in s.names:
            st.locals[a.asname or a.name.split('.')[0]] = self.prog.module_or_ext(a.name if a.asname else a.name.split('.')[0])
        return st

    def st_ImportFrom(self, s, st):
        for a in s.names:
            m = self.prog.module(s.module)
            if m is not None:
                r = m.resolve(a.name)
                st.locals[a.asname or a.name] = self.const(r, st) if isinstance(r, ConstExpr) else r
            else:
                st.locals[a.asname or a.name] = ExtName(s.module, a.name)
        return st

    def st_FunctionDef(self, s, st):
        if s.decorator_list:
            raise Unsupported('decorated nested function')
        st.locals[s.name] = FuncInfo(s, self.frame.func.module, self.frame.func.cls, 'function',
                                     (st.cur, dict(st.locals), self.frame.func.closure))
        # allow self recursion
        return st

    def st_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else None
        self.frame.returns.append((st, v))
        return None

    def st_Raise(self, s, st):
        name = 'Exception'
        if s.exc is None:
            name = 'Exception'
        else:
            x = s.exc
            if isinstance(x, ast.Call):
                # arguments are evaluated (may raise themselves)
                for a in x.args:
                    try:
                        self.ev(a, st)
                    except Unsupported:
                        pass
                x = x.func
            if isinstance(x, ast.Name):
                name = x.id
                r = self.frame.func.module.resolve(name)
                if isinstance(r, ClassInfo):
                    bases = [ast.unparse(b) for b in r.node.bases]
                    EXC_BASES.setdefault(name, tuple(bases) or ('Exception',))
        self.do_raise(st, name, s, 'raise statement')

    def st_Assert(self, s, st):
        c = self.cond(s.test, st)
        self.raise_if(st, Not_(c), 'AssertionError', s)
        return st

    def st_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(st, t, v, s)
        return st

    def st_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(st, s.target, self.ev(s.value, st), s)
        return st

    def st_Delete(self, s, st):
        raise Unsupported('del')

    def assign(self, st, t, v, node):
        if isinstance(t, ast.Name):
            st.locals[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            v = self.prune(st, v)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                k = [isinstance(x, ast.Starred) for x in t.elts].index(True)
                post = len(t.elts) - k - 1

                def cut(s, x):
                    if isinstance(x, TupleV):
                        x = self.alloc(s, HList([GOne(True, y) for y in x.items]))
                    if not isinstance(x, Ref) or not isinstance(self.cell(s, x), HList):
                        if x is None or isinstance(x, (bool, int, float)):
                            self.do_raise(s, 'TypeError', node, 'unpack')
                        raise Unsupported('starred assignment of %r' % (x,))
                    its = list(self.iter_items(s, x, node))
                    if post:
                        if not self.is_simple(its):
                            raise Unsupported('starred assignment')
                        if len(its) < k + post:
                            self.do_raise(s, 'ValueError', node, 'unpack')
                        n = len(its) - post
                        return TupleV([res(i.v) for i in its[:k]] + [self.alloc(s, HList(its[k:n]))] + [res(i.v) for i in its[n:]])
                    head = [self.list_index(s, its, i, node) for i in range(k)]
                    return TupleV(head + [self.alloc(s, HList(self.drop(s, its, k, node)))])
                v = self.leaves(st, v, cut)
                t = ast.Tuple(elts=[x.value if isinstance(x, ast.Starred) else x for x in t.elts], ctx=ast.Store())
            if isinstance(v, Ite):
                parts = []
                for i in range(len(t.elts)):
                    parts.append(self.leaves(st, v, lambda s, x, i=i: self._unpack(s, x, len(t.elts), node)[i]))
            else:
                parts = self._unpack(st, v, len(t.elts), node)
            for x, y in zip(t.elts, parts):
                self.assign(st, x, y, node)
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.leaves(st, o, lambda s, x: self.setattr(s, x, t.attr, v, node))
            return
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            if isinstance(t.slice, ast.Slice):
                if t.slice.lower is None and t.slice.upper is None and t.slice.step is None:
                    def fs(s, x):
                        c = self.cell(s, x) if isinstance(x, Ref) else None
                        if isinstance(c, HList):
                            if c.origin in ('input', 'global'):
                                self.mutated_input.append((x.oid, '[:]=', s.pc))
                            s.heap[x.oid] = HList(self.iter_items(s, v, node), c.origin, None)
                            return None
                        raise Unsupported('slice assignment')
                    self.leaves(st, o, fs)
                    return
                raise Unsupported('slice assignment')
            i = self.ev(t.slice, st)

            def f(s, x):
                if isinstance(x, Ref):
                    c = self.cell(s, x)
                    if isinstance(c, HDict):
                        self.dict_set(s, x, i, v, node)
                        return None
                    if isinstance(c, HList) and isinstance(i, int) and c.items is not None and len(c.items) > i >= -len(c.items) and \
                            all(isinstance(q, GOne) and q.g is True for q in (c.items[:i + 1] if i >= 0 else c.items[i:])):
                        if c.origin in ('input', 'global'):
                            self.mutated_input.append((x.oid, '[]=', s.pc))
                        its = list(c.items)
                        its[i] = GOne(True, v)
                        s.heap[x.oid] = HList(its, c.origin, c.sub)
                        return None
                raise Unsupported('subscript assignment')
            self.leaves(st, o, f)
            return
        raise Unsupported('assignment target')

    def _unpack(self, st, v, n, node):
        v = res(v)
        if isinstance(v, TupleV):
            if len(v.items) != n:
                self.do_raise(st, 'ValueError', node, 'unpack')
            return list(v.items)
        if isinstance(v, Ref):
            its = self.iter_items(st, v, node)
            if self.is_simple(its):
                if len(its) != n:
                    self.do_raise(st, 'ValueError', node, 'unpack')
                return [res(i.v) for i in its]
            ln = self.seq_len(st, its)
            self.raise_if(st, ln.t != n if isinstance(ln, Sc) else ln != n, 'ValueError', node, 'unpack')
            return [self.list_index(st, its, i, node) for i in range(n)]
        if v is None or isinstance(v, (int, float)):
            self.do_raise(st, 'TypeError', node, 'unpack')
        raise Unsupported('unpack %r' % (v,))

    def seq_len(self, st, items):
        total, const = [], 0
        for it in items:
            if isinstance(it, GOne):
                if it.g is True:
                    const += 1
                else:
                    total.append(z3.If(it.g, 1, 0))
            elif isinstance(it, GStar):
                ks = 0
                for b in it.body:
                    if isinstance(b, GOne) and b.g is True:
                        ks += 1
                    else:
                        raise Unsupported('length of filtered list')
                t = it.src.n * ks if ks != 1 else it.src.n
                total.append(t if it.g is True else z3.If(it.g, t, 0))
            else:
                raise Unsupported('length of accumulator')
        if not total:
            return const
        t = total[0]
        for x in total[1:]:
            t = t + x
        return Sc(t + const if const else t, 'int', 'len')

    def setattr(self, st, o, name, v, node):
        o = res(o)
        if isinstance(o, Ref):
            c = self.cell(st, o)
            if isinstance(c, HObj):
                ss = c.cls.find_setter(name)
                if ss is not None:
                    return self.set_property(st, o, c, name, v, ss, node)
                pm = c.cls.find(name)
                if pm is not None and pm[1] == 'getter':
                    self.do_raise(st, 'AttributeError', node, 'no setter ' + name)
                self.setfield(st, o, name, v)
                return None
        if isinstance(o, ClassInfo):
            self.mutated_input.append((o.qual, name, st.pc))
            raise Unsupported('class attribute assignment')
        if o is None or isinstance(o, (int, float, str, Sc, Rope)):
            self.do_raise(st, 'AttributeError', node, 'set ' + name)
        raise Unsupported('setattr on %r' % (o,))

    def set_property(self, st, o, c, name, v, ss, node):
        v = self.prune(st, v)
        if name == 'libId' and self.libid_contract and isinstance(v, Sc) and v.tag and v.tag[0] == 'libid':
            src = Ref(v.tag[1])
            key = D.key_of(c.cls)
            self.used_contracts.add((key, 'libId.set'))
            sc = self.w.cells[src.oid]
            if sc.cls is c.cls:
                for n in ('libraryNickname', 'entryName', 'unitId', 'styleId'):
                    if any(f[0] == n for f in c.cls.fields()):
                        x = self.init_any(src, n)
                        if n != 'libraryNickname' and any(f[0] == 'unitId' for f in c.cls.fields()) and not self.no_sfx:
                            # a plain id that looks like that of a unit is taken apart as such
                            y = self.w.scalar(src.oid + '!sfx.' + n, 'str', 'text') if n == 'entryName' else self.w.scalar(src.oid + '!sfx.' + n, 'num', 'num')
                            x = Ite(z3.Bool(src.oid + '!sfx'), y, x)
                        self.setfield(st, o, n, x)
                # effect on units (Symbol): contract applies to an object without units
                if any(f[0] == 'units' for f in c.cls.fields()):
                    u = self.getfield(st, o, 'units')
                    its = self.iter_items(st, u, node)
                    if its:
                        raise Unsupported('libId assignment after units were loaded')
                return None
        f, k = ss
        self.call_func(st, FuncInfo(f, k.module, k, 'method'), [o, v], {}, node)
        return None

    def st_AugAssign(self, s, st):
        t = s.target
        load = ast.copy_location(type(t)(**{**{f: getattr(t, f) for f in t._fields}, 'ctx': ast.Load()}), t)
        cur = self.ev(load, st)
        v = self.ev(s.value, st)
        cur1 = self.prune(st, cur)
        if isinstance(s.op, ast.Add) and isinstance(cur1, Ref) and isinstance(self.cell(st, cur1), HList):
            c = self.cell(st, cur1)
            if c.origin in ('input', 'global'):
                self.mutated_input.append((cur1.oid, '+=', st.pc))
            st.heap[cur1.oid] = HList(tuple(self.items_of(st, cur1)) + tuple(self.iter_items(st, v, s)), c.origin, None)
            return st
        self.assign(st, t, self.binop(st, s.op, cur, v, s), s)
        return st

    def st_If(self, s, st):
        c = self.cond(s.test, st)
        ca, cb = self.sat(st, c), self.sat(st, Not_(c))
        if not ca and not cb:
            return None
        if not cb:
            return self.block(s.body, st)
        if not ca:
            return self.block(s.orelse, st) if s.orelse else st
        sa, sb = self.fork(st, c), self.fork(st, Not_(c))
        ra = self.block(s.body, sa)
        rb = self.block(s.orelse, sb) if s.orelse else sb
        return self.merge(ra, rb)

    def st_Match(self, s, st):
        subj = self.ev(s.subject, st)
        name = '.match%d' % next(self.oid)
        st.locals[name] = subj

        def seq(e):
            return ast.Call(func=ast.Name(id='isinstance', ctx=ast.Load()), keywords=[], args=[
                e, ast.Tuple(elts=[ast.Name(id='list', ctx=ast.Load()), ast.Name(id='tuple', ctx=ast.Load())], ctx=ast.Load())])

        def ln(e):
            return ast.Call(func=ast.Name(id='len', ctx=ast.Load()), keywords=[], args=[e])

        def conj(cs):
            cs = [c for c in cs if not (isinstance(c, ast.Constant) and c.value is True)]
            return ast.Constant(True) if not cs else cs[0] if len(cs) == 1 else ast.BoolOp(op=ast.And(), values=cs)

        def test(p, e, binds):
            if isinstance(p, ast.MatchValue):
                return ast.Compare(left=e, ops=[ast.Eq()], comparators=[p.value])
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(left=e, ops=[ast.Is()], comparators=[ast.Constant(p.value)])
            if isinstance(p, ast.MatchOr):
                bs = []
                r = ast.BoolOp(op=ast.Or(), values=[test(q, e, bs) for q in p.patterns])
                if bs:
                    raise Unsupported('captures below an or pattern')
                return r
            if isinstance(p, ast.MatchAs):
                r = ast.Constant(True) if p.pattern is None else test(p.pattern, e, binds)
                if p.name is not None:
                    binds.append((p.name, e))
                return r
            if isinstance(p, ast.MatchClass) and isinstance(p.cls, (ast.Name, ast.Attribute)):
                cs = [ast.Call(func=ast.Name(id='isinstance', ctx=ast.Load()), keywords=[], args=[e, p.cls])]
                if p.patterns:
                    if len(p.patterns) != 1 or not (isinstance(p.cls, ast.Name) and p.cls.id in ('str', 'int', 'float', 'list', 'tuple', 'bool', 'dict')):
                        raise Unsupported('positional class pattern')
                    cs.append(test(p.patterns[0], e, binds))
                if p.kwd_attrs:
                    raise Unsupported('class pattern with attributes')
                return conj(cs)
            if isinstance(p, ast.MatchSequence):
                n = len(p.patterns)
                star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
                if not star:
                    cs = [seq(e), ast.Compare(left=ln(e), ops=[ast.Eq()], comparators=[ast.Constant(n)])]
                else:
                    cs = [seq(e)]
                    if n > 1:
                        cs.append(ast.Compare(left=ln(e), ops=[ast.GtE()], comparators=[ast.Constant(n - 1)]))
                for i, q in enumerate(p.patterns):
                    if isinstance(q, ast.MatchStar):
                        if q.name is not None:
                            up = None if i == n - 1 else ast.Constant(i - n + 1)
                            x = ast.Subscript(value=e, slice=ast.Slice(lower=ast.Constant(i), upper=up), ctx=ast.Load())
                            binds.append((q.name, ast.Call(func=ast.Name(id='list', ctx=ast.Load()), args=[x], keywords=[])))
                        continue
                    k = i if not star or i < star[0] else i - n
                    cs.append(test(q, ast.Subscript(value=e, slice=ast.Constant(k), ctx=ast.Load()), binds))
                return conj(cs)
            raise Unsupported('match pattern')
        node = []
        for c in reversed(s.cases):
            binds = []
            t = test(c.pattern, ast.Name(id=name, ctx=ast.Load()), binds)
            body = c.body
            if binds and c.guard is not None:
                # bound before the guard runs; a pattern that fails binds nothing that is read later
                t = conj([t] + [ast.List(elts=[ast.NamedExpr(target=ast.Name(id=k, ctx=ast.Store()), value=v)], ctx=ast.Load()) for k, v in binds])
            elif binds:
                body = [ast.Assign(targets=[ast.Name(id=k, ctx=ast.Store())], value=v) for k, v in binds] + list(body)
            if c.guard is not None:
                t = conj([t, c.guard])
            node = [ast.If(test=t, body=body, orelse=node)]
        for x in node:
            ast.copy_location(x, s)
            ast.fix_missing_locations(x)
        return self.block(node, st)

    def st_Continue(self, s, st):
        self.loopstack[-1]['cont'].append(st)
        return None

    def st_Break(self, s, st):
        self.loopstack[-1]['brk'].append(st)
        return None

    def st_With(self, s, st):
        from . import builtins_ as B
        files = []
        for w in s.items:
            v = self.ev(w.context_expr, st)
            v = self.prune(st, v)
            if not isinstance(v, (FileV, BufV)):
                raise Unsupported('with %r' % (v,))
            if isinstance(v, FileV):
                files.append(v)
            if w.optional_vars is not None:
                self.assign(st, w.optional_vars, v, s)
        nr = len(self.raises)
        nret = len(self.frame.returns)
        r = self.block(s.body, st)

        def close(x):
            x.trace = x.trace + tuple(('close', f.h) for f in reversed(files))
        if r is not None:
            close(r)
        for (x, e, l, i) in self.raises[nr:]:
            close(x)
        for (x, v) in self.frame.returns[nret:]:
            close(x)
        return r

    def st_Try(self, s, st):
        if s.finalbody:
            # run finally on every outcome
            inner = ast.Try(body=s.body, handlers=s.handlers, orelse=s.orelse, finalbody=[])
            ast.copy_location(inner, s)
            saved = self.raises
            self.raises = []
            rets0 = len(self.frame.returns)
            r = self.block([inner], st) if s.handlers else self.block(s.body + s.orelse, st)
            mine, self.raises = self.raises, saved
            pend = self.frame.returns[rets0:]
            del self.frame.returns[rets0:]
            for (x, v) in pend:
                y = self.block(s.finalbody, x)
                if y is not None:
                    self.frame.returns.append((y, v))
            for (x, e, l, i) in mine:
                y = self.block(s.finalbody, x)
                if y is not None:
                    self.raises.append((y, e, l, i))
            return self.block(s.finalbody, r) if r is not None else None
        saved = self.raises
        self.raises = []
        r = self.block(s.body, st)
        mine, self.raises = self.raises, saved
        if r is not None and s.orelse:
            r = self.block(s.orelse, r)
        out = r
        for (x, e, l, i) in mine:
            handled = False
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = ['BaseException']
                elif isinstance(h.type, ast.Tuple):
                    names = [ast.unparse(t).split('.')[-1] for t in h.type.elts]
                else:
                    names = [ast.unparse(h.type).split('.')[-1]]
                if any(exc_isa(e, n) for n in names):
                    if h.name:
                        x.locals[h.name] = Opaque('exc:' + e)
                    y = self.block(h.body, x)
                    out = self.merge(out, y) if out is not None and y is not None else (out or y)
                    handled = True
                    break
            if not handled:
                self.raises.append((x, e, l, i))
        return out

    # -------------------------------------------------------------- loops
    def st_For(self, s, st):
        it = self.ev(s.iter, st)
        if isinstance(res(it), TokensV):
            if self.on_tokens is None:
                raise Unsupported('loop over matches')
            return self.on_tokens(s, st, res(it))
        items = self.iter_items(st, it, s)
        src_ref = self.prune(st, it)
        frame_breaks = []
        st = self.run_items(items, s, st, frame_breaks)
        if s.orelse and st is not None:
            st = self.block(s.orelse, st)
        for b in frame_breaks:
            st = self.merge(st, b)
        return st

    def run_items(self, items, s, st, breaks):
        if self.track is not None and self.tag is None:
            rec = self.track.setdefault((len(self.track), s, self.frame.func.node), {})
            for k, it in enumerate(items):
                if st is None:
                    return None
                h0 = dict(st.heap)
                self.tag = (set(), set())
                try:
                    st = self.run_items((it,), s, st, breaks)
                    rd = self.tag[0]
                finally:
                    self.tag = None
                if st is not None:
                    rec[k] = (self.outside(rd, h0), self.changed(h0, st), it)
            return st
        for it in items:
            if st is None:
                return None
            if isinstance(it, GOne):
                ca = self.sat(st, it.g)
                if not ca:
                    continue
                if it.g is True or not self.sat(st, Not_(it.g)):
                    st = self.one_iter(s, st, res(it.v), breaks)
                else:
                    sa, sb = self.fork(st, it.g), self.fork(st, Not_(it.g))
                    r = self.one_iter(s, sa, res(it.v), breaks)
                    st = self.merge(r, sb)
            elif isinstance(it, GStar):
                c = And_(it.g, it.src.n > 0)
                if not self.sat(st, c):
                    continue
                st = self.star_iter(s, st, it, breaks)
            else:
                raise Unsupported('iteration over accumulator')
        return st

    def outside(self, reads, h0):
        return {(o, n) for o, n in reads if o in h0}

    def changed(self, h0, st):
        out = set()
        for o, c in h0.items():
            x = st.heap.get(o)
            if x is c:
                continue
            if isinstance(c, HObj) and isinstance(x, HObj):
                for n in set(c.fields) | set(x.fields):
                    if n not in c.fields or n not in x.fields or not val_same(c.fields[n], x.fields[n]):
                        out.add((o, n))
            else:
                out.add((o, '[]'))
        for o, x in st.heap.items():
            if o not in h0 and o in self.w.cells:
                out.add((o, '*'))
        return out

    def one_iter(self, s, st, v, breaks):
        self.assign(st, s.target, v, s)
        ctx = {'cont': [], 'brk': []}
        self.loopstack.append(ctx)
        try:
            r = self.block(s.body, st)
        finally:
            self.loopstack.pop()
        for x in ctx['cont']:
            r = self.merge(r, x) if r is not None else x
        breaks.extend(ctx['brk'])
        return r

    def body_once(self, s, st, item):
        """Run the loop body for the items of one star element (generic)."""
        br = []
        out = st
        for b in item.body:
            if out is None:
                return None, br
            if isinstance(b, GOne):
                ca = self.sat(out, b.g)
                if not ca:
                    continue
                if b.g is True or not self.sat(out, Not_(b.g)):
                    out = self.one_iter(s, out, res(b.v), br)
                else:
                    sa, sb = self.fork(out, b.g), self.fork(out, Not_(b.g))
                    out = self.merge(self.one_iter(s, sa, res(b.v), br), sb)
            else:
                out = self.star_iter(s, out, b, br)
        return out, br

    def star_iter(self, s, st, item, breaks):
        marks = (self.raises, self.mutated_input, self.frame.returns)
        ns = [len(m) for m in marks]
        try:
            return self.fold_iter(s, st, item, breaks)
        except Unsupported as e:
            if 'loop variable' not in str(e) and 'loop-carried' not in str(e):
                raise
            for m, n in zip(marks, ns):
                del m[n:]
            try:
                return self.lag_iter(s, st, item)
            except Unsupported:
                for m, n in zip(marks, ns):
                    del m[n:]
                raise e

    def lag_iter(self, s, st, item):
        """Loop whose state after an element depends on that element only (a parser that
        keeps the element it is reading and stores it when the next one starts).  With SA the
        state after the body from the state before the loop, and SB the state after the body
        from SA[previous element]: SB must be SA again, so by induction the state after n > 0
        elements is SA[last element]; a list grows by a piece of the element (every element)
        or of the previous element (all but the last)."""
        src = item.src
        if hasattr(src, 'lag') or hasattr(src, 'text'):
            raise Unsupported('loop over a partial list')
        old = src.path + '[*]'
        c = And_(item.g, src.n > 0)
        entry = self.fork(st, c)
        self.assume(entry, z3.And(src.idx >= 0, src.idx < src.n))
        fid = st.cur
        tmp = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}

        def once(s0):
            k = len(s0.pc)
            n_r, n_m = len(self.raises), len(self.mutated_input)
            nret = len(self.frame.returns)
            out, br = self.body_once(s, s0.copy(), item)
            if br or out is None or len(self.frame.returns) != nret or len(self.raises) != n_r or len(self.mutated_input) != n_m \
                    or len(out.pc) != k or out.trace != s0.trace:
                raise Unsupported('loop-carried state with exits')
            for f in s0.frames:
                if f != fid and any(not val_same(v, out.frames[f].get(n, _MISS)) for n, v in s0.frames[f].items()):
                    raise Unsupported('loop changes an outer frame')
            return out

        def is_new(o):
            return o not in st.heap and o not in self.w.cells

        def changed(s0, s1):
            return [o for o, x in s1.heap.items() if not is_new(o) and (s0.heap.get(o) or self.w.cells.get(o)) is not x]
        SA = once(entry)
        # objects only a local variable knows: their identity is of no consequence
        moved = [o for o in changed(entry, SA) if isinstance(SA.heap[o], HObj) and self.private(entry, fid, o)]
        if moved:
            m = {o: next(self.oid) for o in moved}
            for o, o2 in m.items():
                entry.heap[o2] = entry.heap.pop(o)
            for n, v in entry.frames[fid].items():
                if isinstance(v, Ref) and v.oid in m:
                    entry.frames[fid][n] = Ref(m[v.oid])
            SA = once(entry)
        names = [n for n, v in SA.frames[fid].items() if n not in tmp and (n not in entry.frames[fid] or not val_same(entry.frames[fid][n], v)
                                                                             or isinstance(v, Ref) and is_new(v.oid))]
        objs = [o for o in changed(entry, SA) if isinstance(SA.heap[o], HObj)]
        lists = [o for o in changed(entry, SA) if not isinstance(SA.heap[o], HObj)]

        def shifted(new):
            """SA with the element replaced, as a successor of `entry`"""
            r = _Rename(self, old, new)
            out = entry.copy()
            fresh = [o for o in SA.heap if is_new(o)]
            for o in fresh:
                r.oids[o] = next(self.oid)
            for o in fresh:
                out.heap[r.oids[o]] = r.cell(SA.heap[o])
            for n in names:
                out.frames[fid][n] = r(SA.frames[fid][n])
            for o in objs:
                out.heap[o] = r.cell(SA.heap[o])
            for n in tmp:
                out.frames[fid][n] = Poison('loop variable ' + n)
            r.axioms()
            return out, r
        S1, r1 = shifted(src.path + '[<]')
        SB = once(S1)
        for o in changed(S1, SB):
            if o not in objs and isinstance(SB.heap[o], HObj) and o not in r1.oids.values():
                raise Unsupported('loop-carried object')
            if not isinstance(SB.heap[o], HObj) and o not in lists:
                lists.append(o)
        for o in lists:
            x = self.cell(st, Ref(o))
            if not isinstance(x, HList):
                raise Unsupported('loop-carried dict')
            S1.heap[o] = HList((GAcc(o),), x.origin, x.sub)
        SB = once(S1)
        back = {v: k for k, v in r1.oids.items()}

        def iso(a, b, m):
            """b (in SB) is a (in SA), up to the identity of new objects"""
            a, b = res(a), res(b)
            if isinstance(a, Ite) and isinstance(b, Ite):
                return same(a.c, b.c) and iso(a.a, b.a, m) and iso(a.b, b.b, m)
            if isinstance(a, TupleV) and isinstance(b, TupleV):
                return len(a.items) == len(b.items) and all(iso(x, y, m) for x, y in zip(a.items, b.items))
            if not (isinstance(a, Ref) and isinstance(b, Ref)):
                return val_same(a, b)
            if not is_new(a.oid) or not is_new(b.oid) or b.oid in back:
                return a.oid == b.oid
            if a.oid in m:
                return m[a.oid] == b.oid
            if b.oid in m.values():
                return False
            m[a.oid] = b.oid
            return cells(SA.heap[a.oid], SB.heap[b.oid], m)

        def cells(x, y, m):
            if isinstance(x, HObj) and isinstance(y, HObj):
                return x.cls is y.cls and set(x.fields) == set(y.fields) and all(iso(x.fields[n], y.fields[n], m) for n in x.fields)
            if type(x) is type(y) and x.items is not None and y.items is not None:
                return items(x.items, y.items, m)
            return False

        def items(xs, ys, m):
            return len(xs) == len(ys) and all(isinstance(x, GOne) and isinstance(y, GOne) and (x.g is y.g or same(x.g, y.g))
                                              and iso(x.v, y.v, m) for x, y in zip(xs, ys))
        m = {}
        if set(n for n in SB.frames[fid] if n not in tmp) != set(n for n in SA.frames[fid] if n not in tmp):
            raise Unsupported('loop-carried locals')
        for n in SA.frames[fid]:
            if n not in tmp and not iso(SA.frames[fid][n], SB.frames[fid][n], m):
                raise Unsupported('loop-carried value of ' + n)
        for o in objs:
            if not cells(SA.heap[o], SB.heap[o], m):
                raise Unsupported('loop-carried object')
        R, r2 = shifted(src.path + '[-1]')
        for o, x in SA.heap.items():
            if is_new(o):
                R.heap[o] = x          # what one element contributes
        for o in lists:
            base = self.items_of(st, Ref(o))
            da = self.items_of(SA, Ref(o))
            if len(da) < len(base) or any(x is not y for x, y in zip(base, da)):
                raise Unsupported('loop-carried list')
            da = da[len(base):]
            db = self.delta_items(o, SB.heap[o].items)
            x = self.cell(st, Ref(o))
            if da:
                if not items(da, db, m):
                    raise Unsupported('loop-carried list')
                R.heap[o] = HList(tuple(base) + (GStar(item.g, src, da),), x.origin, x.sub)
                continue
            if not all(isinstance(d, GOne) and d.g is True and isinstance(res(d.v), Ref) and res(d.v).oid in back for d in db):
                raise Unsupported('loop-carried list')
            for d in db:               # not changed since
                o2 = res(d.v).oid
                if not isinstance(SB.heap[o2], HObj) or SB.heap[o2] is not S1.heap[o2]:
                    raise Unsupported('loop-carried object')
            pre = StarSrc(src.path + '<', src.n - 1, src.idx, None)
            pre._elem = src.elem
            pre.lag = (src, {back[res(d.v).oid]: r2.oids[back[res(d.v).oid]] for d in db}, r2)
            R.heap[o] = HList(tuple(base) + (GStar(item.g, pre, tuple(GOne(True, Ref(back[res(d.v).oid])) for d in db)),), x.origin, x.sub)
        R0 = self.fork(st, Not_(c))
        for n in tmp:
            R0.frames[fid][n] = Poison('loop variable ' + n)
        out = self.merge(R, R0 if self.sat(R0) else None)
        out.pc = st.pc
        return out

    def private(self, st, fid, o):
        """a new object that nothing but local variables of this frame refer to"""
        if o not in st.heap or o in self.w.cells or st.heap[o].origin != 'fresh':
            return False

        def refers(v):
            v = res(v)
            if isinstance(v, Ref):
                return v.oid == o
            if isinstance(v, Ite):
                return refers(v.a) or refers(v.b)
            if isinstance(v, (TupleV, IterV, SetV)):
                return any(refers(i) for i in v.items)
            if isinstance(v, GOne):
                return refers(v.v)
            if isinstance(v, GStar):
                return any(refers(b) for b in v.body)
            if isinstance(v, HObj):
                return any(refers(x) for x in v.fields.values())
            if isinstance(v, (HList, HDict)):
                return v.items is not None and any(refers(i) for i in v.items)
            if isinstance(v, (BoundV, BuiltinV)):
                return refers(v.recv)
            return isinstance(v, FuncInfo)
        return not (any(refers(x) for x in st.heap.values()) or
                    any(refers(v) and not (f == fid and isinstance(v, Ref)) for f in st.frames for v in st.frames[f].values()))

    def fold_iter(self, s, st, item, breaks):
        """Fold rule.  Run the body once on a generic element with every location it
        changes replaced by an accumulator; the loop is summarised when each changed
        location is (a) an accumulator extended by a piece that depends on the element
        only, (b) overwritten/temporary, (c) a flag."""
        src = item.src
        entry = self.fork(st, And_(item.g, src.n > 0))
        self.assume(entry, z3.And(src.idx >= 0, src.idx < src.n))
        # pass 1: which locations change
        n_r = len(self.raises)
        n_m = len(self.mutated_input)
        nret = len(self.frame.returns)
        probe, br = self.body_once(s, entry.copy(), item)
        del self.raises[n_r:]
        del self.mutated_input[n_m:]
        if br or len(self.frame.returns) != nret:
            del self.frame.returns[nret:]
            raise Unsupported('break/return inside an unbounded loop')
        if probe is None:
            # the body raises for every element
            _, _ = self.body_once(s, entry, item)
            out = self.fork(st, Not_(And_(item.g, src.n > 0)))
            return out if self.sat(out) else None
        ch_l = []
        fid = st.cur
        for n, v in probe.frames[fid].items():
            if n not in st.frames[fid]:
                ch_l.append((n, True))
            elif not val_same(st.frames[fid][n], v):
                ch_l.append((n, False))
        for f in st.frames:
            if f != fid and f in probe.frames:
                for n, v in probe.frames[f].items():
                    if n not in st.frames[f] or not val_same(st.frames[f][n], v):
                        raise Unsupported('loop changes an outer frame')
        ch_h = []
        for o, x in probe.heap.items():
            base = st.heap.get(o)
            if base is None:
                base = self.w.cells.get(o)
            if base is None:
                continue       # allocated inside
            if base is not x:
                ch_h.append(o)
        # pass 2 with accumulators
        acc = entry.copy()
        for n, new in ch_l:
            if new:
                continue
            old = st.frames[fid][n]
            if self._strtree(old):
                acc.frames[fid][n] = Rope((RAcc(('l', n)),))
            else:
                acc.frames[fid][n] = Poison('loop variable ' + n)
        flds = {}
        for o in ch_h:
            c = self.cell(st, Ref(o))
            p = probe.heap[o]
            if isinstance(c, HList):
                acc.heap[o] = HList((GAcc(o),), c.origin, c.sub)
            elif isinstance(c, HDict):
                acc.heap[o] = HDict((GAcc(o),), c.origin)
            else:
                f = dict(c.fields)
                flds[o] = []
                for n in p.fields:
                    ov = c.fields.get(n, _MISS)
                    if ov is _MISS:
                        try:
                            ov = self.init_of(o, c, n)
                        except Unsupported:
                            ov = _MISS
                    if ov is _MISS or not val_same(ov, p.fields[n]):
                        flds[o].append(n)
                        if ov is not _MISS and self._strtree(ov):
                            f[n] = Rope((RAcc(('f', o, n)),))
                        else:
                            f[n] = Poison('loop-carried field ' + n)
                acc.heap[o] = HObj(c.cls, f, c.origin, c.src)
        n_r = len(self.raises)
        pre_pc = len(acc.pc)
        self.fold_depth = getattr(self, 'fold_depth', 0) + 1
        try:
            out, br = self.body_once(s, acc, item)
        finally:
            self.fold_depth -= 1
        if br:
            raise Unsupported('break inside an unbounded loop')
        # exceptional outcomes: state is after some prefix of iterations; keep as is
        if out is None:
            r = self.fork(st, Not_(And_(item.g, src.n > 0)))
            return r if self.sat(r) else None
        res_ = st.copy()
        # iterations that raised do not continue: assumption on the generic element
        extra = out.pc[pre_pc:]
        if extra:
            res_.pc = res_.pc + (z3.Implies(_z(And_(item.g, src.n > 0)), _z(And_(*extra))),)
        # new heap cells allocated inside (templates)
        for o, x in out.heap.items():
            if o not in res_.heap and o not in self.w.cells:
                res_.heap[o] = x
        for n, new in ch_l:
            v = out.frames[fid].get(n)
            if new:
                res_.frames[fid][n] = Poison('loop temporary ' + n)
                continue
            old = st.frames[fid][n]
            res_.frames[fid][n] = self.summarise(res_, ('l', n), old, v, item, n)
        for o in ch_h:
            c, x = self.cell(st, Ref(o)), out.heap[o]
            if isinstance(c, HList):
                d = self.delta_items(o, x.items)
                base = self.items_of(st, Ref(o))
                res_.heap[o] = HList(tuple(base) + self._mkstar(st, item, d), c.origin, c.sub)
            elif isinstance(c, HDict):
                d = self.delta_items(o, x.items)
                if d is None:
                    raise Unsupported('dict overwritten in loop')
                self.check_dict_star(st, item, d)
                res_.heap[o] = HDict(tuple(c.items) + self._mkstar(st, item, d), c.origin)
            else:
                f = dict(c.fields)
                for n in flds[o]:
                    ov = c.fields.get(n, _MISS)
                    if ov is _MISS:
                        ov = self.init_of(o, c, n)
                    f[n] = self.summarise(res_, ('f', o, n), ov, x.fields[n], item, n)
                res_.heap[o] = HObj(c.cls, f, c.origin, c.src)
        if out.trace != st.trace:
            raise Unsupported('effects inside an unbounded loop')
        return res_

    def _mkstar(self, st, item, d):
        if d is None:
            raise Unsupported('list overwritten in loop')
        if not d:
            return ()
        return (GStar(item.g, item.src, d, max((o for o in st.heap if isinstance(o, int)), default=0)),)

    def delta_items(self, o, items):
        if items and isinstance(items[0], GAcc) and items[0].loc == o and \
                not any(isinstance(i, GAcc) for i in items[1:]):
            for i in items[1:]:
                self.no_acc_item(i)
            return tuple(items[1:])
        raise Unsupported('loop does not extend its list')

    def no_acc_item(self, i):
        if isinstance(i, GOne):
            self.no_acc(i.v)
        else:
            for b in i.body:
                self.no_acc_item(b)

    def no_acc(self, v):
        if isinstance(v, _Lazy):
            return
        if isinstance(v, Rope):
            for s in v.segs:
                if isinstance(s, RAcc):
                    raise Unsupported('element depends on loop-carried text')
                if isinstance(s, RIte):
                    self.no_acc(s.a)
                    self.no_acc(s.b)
                if isinstance(s, RStar):
                    self.no_acc(s.body)
        elif isinstance(v, Ite):
            self.no_acc(v.a)
            self.no_acc(v.b)
        elif isinstance(v, Poison):
            raise Unsupported('element depends on loop-carried value')
        elif isinstance(v, TupleV):
            for x in v.items:
                self.no_acc(x)

    def check_dict_star(self, st, item, d):
        """Insertion over a source with pairwise distinct keys, using exactly that key."""
        src = item.src
        base = src
        if not getattr(src, 'isdict', False):
            raise Unsupported('dict built from a list with possibly equal keys')
        el = src.elem
        for i in d:
            if not (isinstance(i, GOne) and isinstance(i.v, TupleV) and val_same(res(i.v.items[0]), res(el.items[0]))):
                raise Unsupported('dict key is not the source key')

    def summarise(self, st, loc, old, v, item, name):
        src = item.src
        if self._strtree(old):
            d = self.rope_delta(loc, v)
            if d is not None:
                if not d.segs:
                    return old
                star = self.mk_rstar(st, src, d)
                if item.g is not True:
                    star = Rope((RIte(item.g, star, Rope(())),))
                return cat(old, star)
        # flags and temporaries
        leaves = []

        def walk(x, c):
            if isinstance(x, Ite):
                walk(x.a, And_(c, x.c))
                walk(x.b, And_(c, Not_(x.c)))
            else:
                leaves.append((c, x))
        walk(v, True)
        keep = Or_(*[c for c, x in leaves if isinstance(x, Poison) or (isinstance(x, Rope) and any(isinstance(q, RAcc) for q in x.segs))])
        vals = [(c, x) for c, x in leaves if not isinstance(x, Poison)]
        if vals and all(isinstance(x, (bool, int, float, str, type(None))) for c, x in vals) and \
                all(val_same(x, vals[0][1]) for c, x in vals):
            cset = Or_(*[c for c, x in vals])
            if cset is True or not self._mentions(cset, src):
                cc = And_(item.g, src.n > 0, cset)
                return self.mv(cc, vals[0][1], old) if cc is not True else vals[0][1]
            # exists an element that sets the flag
            ex = z3.Bool('anyset:%s:%s' % (src.path, next(self.w.fresh)))
            self.w.ax(z3.Implies(ex, src.n > 0))
            self.w.ax(z3.Implies(z3.And(src.n > 0, _z(cset)), ex))
            self.w.approx.append('flag set by some element of %s' % src.path)
            return self.mv(_z(And_(item.g, ex)), vals[0][1], old)
        # loop invariant value (same every iteration)?
        if len(vals) == len(leaves) and len(vals) == 1 and self.elem_free(vals[0][1], src):
            cc = And_(item.g, src.n > 0)
            return self.mv(cc, vals[0][1], old)
        return Poison('last value of %s' % name)

    def _mentions(self, c, src):
        p = src.path + '['
        seen = set()

        def go(e):
            if e.get_id() in seen:
                return False
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = e.decl().name()
                if n.startswith(p) or n == src.path + '@':
                    return True
            return any(go(x) for x in e.children())
        return go(c)

    def elem_free(self, v, src):
        if isinstance(v, (bool, int, float, str, type(None))):
            return True
        if isinstance(v, Sc):
            return not self._mentions(v.t, src)
        return False

    def rope_delta(self, loc, v):
        """v == ACC(loc) ++ delta ?  returns delta or None"""
        if isinstance(v, Ite):
            a, b = self.rope_delta(loc, v.a), self.rope_delta(loc, v.b)
            if a is None or b is None:
                return None
            return Rope((RIte(v.c, a, b),))
        if not isinstance(v, Rope):
            return None
        segs = v.segs
        if segs and isinstance(segs[0], RAcc) and segs[0].loc == loc:
            d = Rope(segs[1:])
            try:
                self.no_acc(d)
            except Unsupported:
                return None
            return d
        if segs and isinstance(segs[0], RIte):
            a, b = self.rope_delta(loc, segs[0].a), self.rope_delta(loc, segs[0].b)
            if a is None or b is None:
                return None
            return Rope((RIte(segs[0].c, a, b),) + segs[1:])
        return None

    def st_While(self, s, st):
        # concrete unrolling only
        n = 0
        brks = []
        if isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and isinstance(s.test.comparators[0], (ast.Name, ast.Call)):
            v = self.ev(s.test.comparators[0], st.copy())
            if isinstance(v, Sc) and v.tag and v.tag[0] == 'len':
                r = self.while_index(s, st)
                if r is not _MISS:
                    return r
        while True:
            c = self.cond(s.test, st)
            if c is False or not self.sat(st, c):
                break
            if c is not True and self.sat(st, Not_(c)):
                r = self.while_index(s, st)
                if r is not _MISS:
                    return r
                raise Unsupported('while loop with symbolic condition')
            n += 1
            if n > 2000:
                raise Unsupported('while loop bound')
            ctx = {'cont': [], 'brk': []}
            self.loopstack.append(ctx)
            try:
                r = self.block(s.body, st)
            finally:
                self.loopstack.pop()
            for x in ctx['cont']:
                r = self.merge(r, x) if r is not None else x
            brks.extend(ctx['brk'])
            if r is None:
                st = None
                break
            st = r
        if st is not None and s.orelse:
            st = self.block(s.orelse, st)
        for b in brks:
            st = self.merge(st, b) if st is not None else b
        return st

    def while_index(self, s, st):
        """while i < len(xs): ... i += 1   (i not otherwise assigned) == for i in range(i0, len(xs))"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name)):
            return _MISS
        i = t.left.id
        inc = [p for p, x in enumerate(s.body) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == i
               and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1]
        if len(inc) != 1:
            return _MISS
        p = inc[0]
        for k, x in enumerate(s.body):
            for n in ast.walk(x) if k != p else ():
                if isinstance(n, ast.Name) and n.id == i and isinstance(n.ctx, ast.Store):
                    return _MISS
                if isinstance(n, (ast.Continue, ast.Break)) and k < p:
                    return _MISS
        start = self.prune(st, st.locals.get(i))
        if not isinstance(start, int) or start < 0:
            return _MISS

        class Next(ast.NodeTransformer):
            def visit_Name(self, n):
                return ast.BinOp(n, ast.Add(), ast.Constant(1)) if n.id == i else n
        import copy
        f = ast.For(target=ast.Name(id=i, ctx=ast.Store()),
                    iter=ast.Call(func=ast.Name(id='range', ctx=ast.Load()), args=[ast.Constant(start), t.comparators[0]], keywords=[]),
                    body=(s.body[:p] + [Next().visit(copy.deepcopy(x)) for x in s.body[p + 1:]]) or [ast.Pass()], orelse=s.orelse)
        ast.copy_location(f, s)
        ast.fix_missing_locations(f)
        f.orig = s
        r = self.st_For(f, st)
        if r is not None:
            r.locals[i] = Poison('while index')
        return r

    # -------------------------------------------------------- text ops
    def rope_op(self, v, op):
        """Apply a textual operation to a string value."""
        if isinstance(v, Ite):
            return self.mv(v.c, self.rope_op(v.a, op), self.rope_op(v.b, op))
        if isinstance(v, str):
            if op[0] == 'rep':
                return v.replace(op[1], op[2])
            if op[0] == 'lower':
                return v.lower()
            if op[0] == 'upper':
                return v.upper()
        r = to_rope(v)
        if op[0] == 'rep' and len(op[1]) != 1 and not (len(r.segs) == 1 and isinstance(r.segs[0], Hole) and r.segs[0].v.kind == 'str'):
            raise Unsupported('replace of a multi-character text')
        segs = []
        for s in r.segs:
            if isinstance(s, str):
                segs.append(self.rope_op(s, op))
            elif isinstance(s, Hole):
                if s.v.kind in ('num', 'int') and op[0] == 'rep' and op[1] == '"':
                    segs.append(s)
                else:
                    segs.append(Hole(s.v, s.ops + (op,)))
            elif isinstance(s, RIte):
                segs.append(RIte(s.c, to_rope(self.rope_op(s.a, op)), to_rope(self.rope_op(s.b, op))))
            elif isinstance(s, RStar):
                segs.append(RStar(s.src, to_rope(self.rope_op(s.body, op)), s.sep if not s.sep else self.rope_op(s.sep, op)))
            elif isinstance(s, RSp):
                if op[0] == 'rep' and op[1] == ' ':
                    raise Unsupported('replace of spaces')
                segs.append(s)
            elif isinstance(s, RSub):
                segs.append(RSub(s.obj, s.cls, s.indent, s.newline, s.ops + (op,)))
            else:
                raise Unsupported('text operation on accumulator')
        return rope_value(Rope(segs))

    def match_group(self, st, m, i, node):
        raise Unsupported('match group')

    def _on_new_obj(self, path, ty, ci):
        """Assert the class invariants of spec/domain.txt for a new symbolic object."""
        t = D.table().get(ty.key)
        invs = self.w.invs_for[path] if path in self.w.invs_for else t.invs if t is not None else ()
        for inv in invs:
            e = ast.parse(inv, mode='eval').body
            s = State()
            s.frames[0] = {'self': Ref(path)}
            s.cur = 0
            saved = (self.frame, self.raises, self.loopstack, self.libid_contract)
            self.frame, self.raises, self.loopstack = Frame(FuncInfo(e, ci.module)), [], []
            try:
                c = self.cond(e, s)
            finally:
                self.frame, self.raises, self.loopstack, self.libid_contract = saved
            self.w.ax(_z(c))


def lit_cases(v):
    """A rope of literals and conditionals of literals -> Ite of constants (else unchanged)."""
    if not isinstance(v, Rope):
        return v
    if sum(isinstance(s, RIte) for s in v.segs) > 4:
        return v

    def go(segs):
        if not segs:
            return ''
        rest = go(segs[1:])
        if rest is None:
            return None
        s = segs[0]
        if isinstance(s, str):
            return app(s, rest)
        if isinstance(s, RIte):
            a, b = go(s.a.segs), go(s.b.segs)
            if a is None or b is None:
                return None
            return Ite(s.c, join(a, rest), join(b, rest))
        return None

    def app(p, v):
        return Ite(v.c, app(p, v.a), app(p, v.b)) if isinstance(v, Ite) else p + v

    def join(x, y):
        return Ite(x.c, join(x.a, y), join(x.b, y)) if isinstance(x, Ite) else app(x, y)
    r = go(list(v.segs))
    return v if r is None else r


LIBID_FIELDS = {'libraryNickname', 'entryName', 'unitId', 'styleId'}


class MatchV:
    __slots__ = ('pat', 'subject', 'groups', 'named', 'last')

    def __init__(self, pat, subject, groups):
        self.pat, self.subject, self.groups = pat, subject, groups
        self.named, self.last = None, None


class TokensV:
    """re.finditer(pat, subject)"""
    __slots__ = ('pat', 'subject')

    def __init__(self, pat, subject):
        self.pat, self.subject = pat, subject


class _Rename:
    """Values of one list element -> the same values of another."""

    def __init__(self, I, old, new):
        self.I, self.old, self.new = I, old, new
        self.oids, self.consts = {}, {}

    def term(self, t):
        if isinstance(t, bool):
            return t
        sub = []
        seen = set()

        def go(e):
            if e.get_id() in seen:
                return
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = e.decl().name()
                if n.startswith(self.old):
                    k = z3.Const(self.new + n[len(self.old):], e.sort())
                    self.consts[n] = k
                    sub.append((e, k))
                elif self.old in n:
                    raise Unsupported('renaming of ' + n)
            for x in e.children():
                go(x)
        go(t)
        return z3.substitute(t, *sub) if sub else t

    def __call__(self, v):
        v = res(v)
        if isinstance(v, Sc):
            p = v.path
            return Sc(self.term(v.t), v.kind, v.dom, self.new + p[len(self.old):] if p and p.startswith(self.old) else p)
        if isinstance(v, Ite):
            return Ite(self.term(v.c), self(v.a), self(v.b))
        if isinstance(v, TupleV):
            return TupleV([self(x) for x in v.items])
        if isinstance(v, Ref):
            if v.oid in self.oids:
                return Ref(self.oids[v.oid])
            if isinstance(v.oid, str) and self.old in v.oid:
                raise Unsupported('renaming of an object')
            return v
        if isinstance(v, Rope):
            return Rope([self.seg(x) for x in v.segs])
        if isinstance(v, Opaque) and self.old in repr(v):
            raise Unsupported('renaming of %r' % (v,))
        return v

    def seg(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, Hole):
            return Hole(self(x.v), x.ops)
        if isinstance(x, RIte):
            return RIte(self.term(x.c), self(x.a), self(x.b))
        raise Unsupported('renaming of a text')

    def cell(self, x):
        if isinstance(x, HObj):
            if x.src is not None:
                raise Unsupported('renaming of an object')
            return HObj(x.cls, {n: self(v) for n, v in x.fields.items()}, x.origin, x.src)
        if x.items is None or getattr(x, 'sub', None) is not None or not all(isinstance(i, GOne) for i in x.items):
            raise Unsupported('renaming of a list')
        its = [GOne(self.term(i.g), self(i.v)) for i in x.items]
        return HList(its, x.origin) if isinstance(x, HList) else HDict(its, x.origin)

    def axioms(self):
        """what is known of the element holds for the other one"""
        for a in list(self.I.w.axioms):
            try:
                b = self.term(a)
            except Unsupported:
                continue
            if not b.eq(a):
                self.I.w.ax(b)


_GATHER = {}


def own_yields(f):
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and walk(c):
                return True
        return False
    return walk(f)


def gather_yields(f):
    """The function with each `yield x` turned into an append to the list `.gen`."""
    if id(f) in _GATHER:
        return _GATHER[id(f)][1]

    class T(ast.NodeTransformer):
        top = True

        def visit_FunctionDef(self, n):
            if not self.top:
                return n
            self.top = False
            return self.generic_visit(n)

        def visit_Lambda(self, n):
            return n

        def visit_Expr(self, n):
            v = n.value
            if isinstance(v, (ast.Yield, ast.YieldFrom)):
                arg = v.value if v.value is not None else ast.Constant(None)
                call = ast.Call(func=ast.Attribute(value=ast.Name(id='.gen', ctx=ast.Load()),
                                                   attr='append' if isinstance(v, ast.Yield) else 'extend', ctx=ast.Load()),
                                args=[arg], keywords=[])
                return ast.copy_location(ast.Expr(ast.copy_location(call, v)), n)
            return self.generic_visit(n)

        def visit_Yield(self, n):
            raise Unsupported('value of a yield')
        visit_YieldFrom = visit_Yield
    g = ast.fix_missing_locations(T().visit(copy.deepcopy(f)))
    _GATHER[id(f)] = (f, g)
    return g


class PiecesV:
    """text.split(sep), only good for joining"""
    __slots__ = ('text', 'sep')

    def __init__(self, text, sep):
        self.text, self.sep = text, sep


def is_text(v):
    return isinstance(v, Rope) or isinstance(v, Sc) and v.kind == 'str'


class PatV:
    """re.compile(pat)"""
    __slots__ = ('pat',)

    def __init__(self, pat):
        self.pat = pat


class _Miss:
    pass


_MISS = _Miss()
_USED = HList(())


def _b2v(c):
    """condition -> bool value"""
    if isinstance(c, bool):
        return c
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return Sc(c, 'bool')


def _z(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def merge_trace(c, a, b):
    k = 0
    while k < len(a) and k < len(b) and a[k] == b[k]:
        k += 1
    if len(a) == k and len(b) == k:
        return a
    return a[:k] + (('ite', c, a[k:], b[k:]),)
