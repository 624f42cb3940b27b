"""Obligations: generated from /repo's current source, decided by z3."""
import ast, time, traceback, re
import z3
from .values import *
from . import dom as D, interp, lexer, pysrc, cross
from .interp import Interp, World, State, Frame, Dead, res, _z, _Lazy
from .pysrc import FuncInfo, ClassInfo

PROVED, FAILED, UNDEC = 'proved', 'failed', 'undecided'


class Ob:
    """One named obligation and its outcome."""
    def __init__(self, name, status, detail='', model=None, func=None, world=None):
        self.name, self.status, self.detail, self.model, self.func, self.world = name, status, detail, model, func, world

    def __repr__(self):
        return '%-9s %s %s' % (self.status, self.name, self.detail)


class Task:
    """A symbolic run of real functions plus the obligations derived from it."""

    def __init__(self, prog, key, contracts=True):
        self.prog, self.key = prog, key
        self.w = World(prog)
        self.I = Interp(prog, self.w, contracts)
        self.st = State()
        self.st.frames[0] = {}
        self.st.cur = 0
        self.I.frame = Frame(FuncInfo(ast.parse('pass').body[0], prog.module('kiutils.items.common')))
        self.obs = []

    def add(self, name, status, detail='', model=None, q=None):
        o = Ob('%s: %s' % (self.key, name), status, detail, model, world=self.w)
        o.textdep = status == FAILED and q is not None and self.plain_ok(q)
        self.obs.append(o)

    def plain_ok(self, q):
        """The failure q needs a text that is not an ordinary word."""
        w = self.w
        cs = []
        for path, (kind, v, ty) in w.syms.items():
            if kind == 'str' and isinstance(ty, (D.TText, D.TWord, D.TLayer)):
                cs += [v.t != k for k in w.strs.values()] + [z3.Not(p(v.t)) for p in w.needles.values()]
                cs += [z3.Not(z3.Bool(path + '!quote'))]
        return bool(cs) and self.query(tuple(q) + tuple(cs))[1] == 'unsat'

    def prove(self, name, pc, cond, detail=''):
        """Discharge pc => cond."""
        if cond is True:
            self.add(name, PROVED)
            return True
        m, r = self.query(tuple(pc) + (Not_(cond),))
        if r == 'unsat':
            self.add(name, PROVED)
            return True
        if r == 'sat':
            self.add(name, FAILED, detail or str(cond)[:300], m, q=tuple(pc) + (Not_(cond),))
        else:
            self.add(name, UNDEC, 'solver: unknown')
        return False

    def query(self, conds):
        cs = [c for c in conds if c is not True]
        if any(c is False for c in cs):
            return None, 'unsat'
        w = self.w
        w._sync()
        t0 = time.time()
        w.solver.push()
        for c in cs:
            w.solver.add(c)
        r = w.solver.check()
        m = w.solver.model() if r == z3.sat else None
        w.solver.pop()
        w.queries += 1
        w.solver_s += time.time() - t0
        if r == z3.unsat:
            cross.rec(w.axioms, w.n_ax, cs)
        return m, str(r)

    def norais(self, name, since=0, ok=lambda exc, info: False):
        """No exceptional outcome among I.raises[since:]"""
        bad = 0
        for (s, exc, line, info) in self.I.raises[since:]:
            if ok(exc, info):
                continue
            m, r = self.query(s.pc)
            if r == 'unsat':
                continue
            bad += 1
            self.add('%s: %s at line %s %s' % (name, exc, line, info), FAILED if r == 'sat' else UNDEC,
                     '%s %s' % (exc, info), m, q=s.pc)
        if not bad:
            self.add(name, PROVED)
        return not bad


def method(ci, name):
    m = ci.find(name)
    if m is None:
        return None
    f, kind, k = m
    return FuncInfo(f, k.module, k, kind)


def param_names(fi):
    a = fi.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def run_to(T, ref, cls, indent=None, newline=None, fname='to_sexpr'):
    fi = method(cls, fname)
    if fi is None:
        raise Unsupported('no %s' % fname)
    kw = {}
    ps = param_names(fi)
    if 'indent' in ps and indent is not None:
        kw['indent'] = indent
    if 'newline' in ps and newline is not None:
        kw['newline'] = newline
    a = fi.node.args
    for n, d in list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]:
        if n.arg not in ('indent', 'newline') and isinstance(d, ast.Constant) and isinstance(d.value, bool) and newline is not None:
            kw[n.arg] = T.w.scalar('layout:' + n.arg, 'bool', 'layout')
    return T.I.call_func(T.st, fi, [ref], kw)


def sym_layout(T):
    ind = T.w.scalar('indent', 'int', 'layout')
    T.w.ax(ind.t >= 0)
    nl = T.w.scalar('newline', 'bool', 'layout')
    return ind, nl


class Equiv:
    """Value equality of an original (input) value and a result, as obligations per field."""

    def __init__(self, T):
        self.T, self.I, self.w = T, T.I, T.w

    def both(self, a, b, pc, k):
        """k(a_leaf, b_leaf, pc) over feasible leaves -> conjunction of implications"""
        a, b = res(a), res(b)
        if isinstance(a, Ite):
            return self._split(a.c, pc, lambda p: self.both(a.a, b, p, k), lambda p: self.both(a.b, b, p, k))
        if isinstance(b, Ite):
            return self._split(b.c, pc, lambda p: self.both(a, b.a, p, k), lambda p: self.both(a, b.b, p, k))
        return k(a, b, pc)

    def _split(self, c, pc, f, g):
        out = []
        for cc, h in ((c, f), (Not_(c), g)):
            if cc is False or not self.w.sat(*(tuple(pc) + (cc,))):
                continue
            r = h(tuple(pc) + (cc,))
            out.append(True if r is True else z3.Implies(_z(cc), _z(r)))
        return And_(*out)

    def eq(self, a, b, pc=(), depth=0):
        return self.both(a, b, pc, lambda x, y, p: self.leaf(x, y, p, depth))

    def leaf(self, a, b, pc, depth):
        I = self.I
        st = self.T.st
        if isinstance(a, Opaque) and a.name.startswith('skip:'):
            return True
        if isinstance(b, Poison):
            raise Unsupported('result is ' + b.why)
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = I.cell(st, a), I.cell(st, b)
            if type(ca) is not type(cb):
                return False
            if isinstance(ca, HObj):
                if ca.cls is not cb.cls:
                    return False
                if cb.src == a and not cb.fields:
                    return True
                if a == b:
                    return True
                return And_(*[self.eq(I.init_of(a.oid, ca, n) if a.oid in self.w.cells else I.getfield(st, a, n), I.getfield(st, b, n), pc, depth + 1)
                              for n in self.fields(a) if n not in self.hints(ca.cls)])
            if isinstance(ca, HList):
                return self.seq(self.I.items_of(st, a), I.items_of(st, b), pc, depth)
            return self.seq(ca.items, cb.items, pc, depth)
        if isinstance(a, Ref) or isinstance(b, Ref):
            if isinstance(a, TupleV) or isinstance(b, TupleV):
                raise Unsupported('tuple vs list')
            return False
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            if len(a.items) != len(b.items):
                return False
            return And_(*[self.eq(x, y, pc, depth) for x, y in zip(a.items, b.items)])
        if a is None or b is None:
            return a is b
        s = State()
        s.pc = tuple(st.pc) + tuple(pc)
        s.frames, s.cur, s.heap = st.frames, st.cur, st.heap
        ka, kb = I._kind(a), I._kind(b)
        if isinstance(a, Rope) or isinstance(b, Rope):
            for x in (a, b):
                if not isinstance(x, (Rope, str)) and not (isinstance(x, Sc) and x.kind == 'str'):
                    return False
            return self.rope_eq(a, b, s)
        if (ka == 'bool') != (kb == 'bool'):
            return False
        return I.eq(s, a, b)

    def rope_eq(self, a, b, s):
        ra, rb = norm_rope(to_rope(a)), norm_rope(to_rope(b))
        if rope_same(ra, rb):
            return True
        return self.I.eq(s, a, b)

    def fields(self, ref):
        ty = self.w.objty.get(ref.oid)
        c = self.I.cell(self.T.st, ref)
        names = [n for (n, *_r) in c.cls.fields()]
        return names

    def hints(self, ci):
        t = D.table().get(D.key_of(ci))
        return t.hints if t else ()

    def nelem(self, items):
        return all(isinstance(i, GOne) for i in items)

    def seq(self, ia, ib, pc, depth):
        I = self.I
        live = [i for i in ib if not (i.g is False) and self.w.sat(*(tuple(self.T.st.pc) + tuple(pc) + ((i.g,) if i.g is not True else ()) +
                                                                  ((i.src.n > 0,) if isinstance(i, GStar) else ())))]
        if len(ia) == 1 and isinstance(ia[0], GStar):
            src = ia[0].src
            live = self.whole(live, src, pc)
            if not live:
                return src.n == 0
            if all(isinstance(x, GStar) for x in live):
                for g in live:
                    if g.src is not src:
                        raise Unsupported('list built from %s, expected %s' % (g.src.path, src.path))
                body = live[0].body if len(live) == 1 else [g_guard(g.g, b) for g in live for b in g.body]
                gen = tuple(pc) + (src.n > 0, src.idx >= 0, src.idx < src.n)
                el = res(ia[0].body[0].v)
                sg = [x.g for x in live]
                conds = [Or_(src.n == 0, *sg)]
                for i in range(len(sg)):
                    for j in range(i + 1, len(sg)):
                        conds.append(Or_(src.n == 0, Not_(And_(sg[i], sg[j]))))
                one = []
                gs = [b.g for b in body]
                if not all(isinstance(b, GOne) for b in body):
                    raise Unsupported('nested star')
                # exactly one guard
                ex = Or_(*gs)
                conds.append(Or_(src.n == 0, ex))
                for i in range(len(gs)):
                    for j in range(i + 1, len(gs)):
                        conds.append(Or_(src.n == 0, Not_(And_(gs[i], gs[j]))))
                for b in body:
                    e = self.eq(el, b.v, gen + ((b.g,) if b.g is not True else ()), depth + 1)
                    conds.append(e if e is True else Or_(src.n == 0, Not_(b.g), e))
                return And_(*[c if c is True else z3.Implies(z3.And(src.idx >= 0, src.idx < src.n), _z(c)) if not _is_len(c) else c for c in conds])
            if self.nelem(live):
                # explicit elements: compare by position
                return self.explicit(src, live, pc, depth)
            raise Unsupported('list built from several parts')
        if self.nelem(ia) and self.nelem(live) and all(i.g is True for i in ia) and all(i.g is True for i in live):
            if len(ia) != len(live):
                return False
            return And_(*[self.eq(x.v, y.v, pc, depth + 1) for x, y in zip(ia, live)])
        raise Unsupported('list shape')

    def whole(self, live, src, pc):
        """all elements but the last, then the last one -> all elements"""
        if not (len(live) == 2 and isinstance(live[0], GStar) and isinstance(live[1], GOne) and getattr(live[0].src, 'lag', None)):
            return live
        orig, last, ren = live[0].src.lag
        st = self.T.st
        s = State()
        s.pc = tuple(st.pc) + tuple(pc) + (src.n > 0,)
        a, b = live[0].body, self.I.prune(s, live[1].v)
        if orig is not src or len(a) != 1 or not isinstance(b, Ref) or last.get(res(a[0].v).oid) != b.oid:
            return live
        x, y = st.heap.get(res(a[0].v).oid), st.heap.get(b.oid)
        if not (isinstance(x, HObj) and isinstance(y, HObj) and x.cls is y.cls and set(x.fields) == set(y.fields)
                and all(val_same(ren(x.fields[n]), res(y.fields[n])) for n in x.fields)):
            return live
        for g in (live[0].g, live[1].g):
            if self.w.sat(*(tuple(st.pc) + tuple(pc) + (src.n > 0, Not_(g)))):
                return live
        if live[1].g is True or self.w.sat(*(tuple(st.pc) + tuple(pc) + (src.n <= 0, live[1].g))):
            return live
        return [GStar(True, src, a)]

    def explicit(self, src, live, pc, depth):
        # enumerate which guards hold (few)
        if len(live) > 8:
            raise Unsupported('many explicit elements')

        def go(k, pos, p):
            if not self.w.sat(*(tuple(self.T.st.pc) + tuple(p))):
                return True
            if k == len(live):
                return src.n == pos
            it = live[k]
            out = []
            for cc, inc in ((it.g, True), (Not_(it.g), False)):
                if cc is False:
                    continue
                p2 = tuple(p) + ((cc,) if cc is not True else ())
                if not self.w.sat(*(tuple(self.T.st.pc) + p2)):
                    continue
                if inc:
                    e = And_(src.n > pos, self.eq(self.I.src_at(src, pos), it.v, p2, depth + 1), go(k + 1, pos + 1, p2))
                else:
                    e = go(k + 1, pos, p2)
                out.append(z3.Implies(_z(cc), _z(e)))
            return And_(*out)
        return go(0, 0, tuple(pc))


def _is_len(c):
    return False


def norm_rope(r):
    return Rope([s for s in r.segs if s != ''])


def single_list(T, items):
    """Exactly one top-level list?  Returns its Ref."""
    live = [i for i in items if T.I.sat(T.st, i.g)]
    if len(live) == 1 and isinstance(live[0], GOne) and isinstance(res(live[0].v), Ref):
        return live[0], True
    return None, False


def rt_task(prog, key, wide=False):
    """Round trip of class `key` for every object of its domain and every layout argument."""
    T = Task(prog, key)
    t = D.table()[key]
    ci = prog.cls(D.qual(key))
    if ci is None:
        T.add('class present', UNDEC, 'class not found')
        return T
    if t.shape == 'none':
        return T
    I, w, st = T.I, T.w, T.st
    w.wide = wide
    try:
        ref = w.make(D.TObj(key), 'o')
        ind, nl = sym_layout(T)
        m, r = T.query(())
        if r != 'sat':
            T.add('domain satisfiable', UNDEC, r)
            return T
        try:
            text = run_to(T, ref, ci, ind, nl)
        except Dead:
            T.norais('to_sexpr: no exception')
            return T
        T.text = text
        T.norais('to_sexpr: no exception')
        n = len(I.raises)
        try:
            items = lexer.lex(I, st, text)
        except lexer.Unbalanced as u:
            T.add('text is balanced', FAILED, str(u), T.query(st.pc)[0])
            return T
        T.norais('text lexes to the intended tokens', n)
        T.items = items
        layout_obs(T, items)
        if t.shape == 'inline':
            return T
        one, ok = single_list(T, items)
        if t.shape == 'seq':
            one, ok = GOne(True, lexer.Lexer(I, st).node(items)), True
        if t.shape == 'optlist':
            for it in items:
                pass
            live = [i for i in items if I.sat(st, i.g)]
            if not all(isinstance(i, GOne) and isinstance(res(i.v), Ref) for i in live):
                T.add('text is at most one list', FAILED, repr(live)[:200])
                return T
            if len(live) != 1:
                T.add('text is at most one list', UNDEC, repr(live)[:200])
                return T
            g, one = live[0].g, live[0]
            ok = True
        if not ok:
            not_one(T, 'text is exactly one list', items)
            return T
        if t.shape == 'list':
            T.prove('text is exactly one list', st.pc, one.g)
        node = res(one.v)
        T.node = node
        if t.head:
            h = I.list_index(st, I.items_of(st, node), 0, None)
            T.prove('head is %s' % t.head, st.pc, I.eq(st, h, t.head))
        if t.shape == 'optlist' and one.g is not True:
            # nothing written: object must be indistinguishable from the default
            absent = one.g
            st.pc = st.pc + (one.g,)
        n = len(I.raises)
        fi = method(ci, 'from_sexpr')
        try:
            out = I.call_func(st, fi, [ci, node], {})
        except Dead:
            T.norais('from_sexpr accepts the written text', n)
            return T
        T.norais('from_sexpr accepts the written text', n)
        T.result = out
        E = Equiv(T)
        out = I.prune(st, out)
        if not isinstance(out, Ref):
            T.add('from_sexpr returns an object', UNDEC, repr(out)[:200])
            return T
        c = I.cell(st, out)
        if not isinstance(c, HObj) or c.cls is not ci:
            T.add('from_sexpr returns a %s' % ci.name, FAILED, repr(c)[:100], T.query(st.pc)[0])
            return T
        for nme in [f[0] for f in ci.fields()]:
            if isinstance(t.fields.get(nme), D.TSkip) or nme in t.hints:
                continue
            try:
                a = I.init_of('o', w.cells['o'], nme)
                b = I.getfield(st, out, nme)
                cnd = E.eq(a, b, st.pc)
                T.prove('field %s survives' % nme, st.pc, cnd)
            except (Unsupported, z3.Z3Exception) as e:
                T.add('field %s survives' % nme, UNDEC, str(e))
    except Unsupported as e:
        T.add('round trip', UNDEC, 'unsupported: %s' % e)
    except Dead:
        T.add('round trip', UNDEC, 'dead')
    except lexer.Unbalanced as e:
        T.add('nested text is balanced', FAILED, str(e), T.query(st.pc)[0])
    return T


def not_one(T, name, items):
    """the text is not syntactically one list: it may still be one of several"""
    live = [i for i in items if T.I.sat(T.st, i.g)]
    if live and all(isinstance(i, GOne) and isinstance(res(i.v), Ref) for i in live):
        gs = [i.g if not isinstance(i.g, bool) else z3.BoolVal(i.g) for i in live]
        m, r = T.query(T.st.pc + (z3.Not(z3.PbEq([(g, 1) for g in gs], 1)),))
        if r != 'sat':
            T.add(name, UNDEC, 'one list, in %d forms' % len(live))
            return
        T.add(name, FAILED, repr(items)[:200], m)
        return
    T.add(name, FAILED, repr(items)[:200], T.query(T.st.pc)[0])


def hints(w, m):
    """The part of a solver model that describes the input object, as plain data."""
    if m is None:
        return None
    out = {}
    lits = {t.as_long(): s for s, t in w.strs.items()}
    consts = {d.name() for d in m.decls() if d.arity() == 0}

    def num(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            f = x.as_fraction()
            return int(f) if f.denominator == 1 else float(f)
        return None
    for path, (kind, v, ty) in w.syms.items():
        if path not in consts and kind != 'str':
            continue
        x = m.eval(v.t, model_completion=True)
        if kind == 'bool':
            out[path] = z3.is_true(x)
        elif kind in ('num', 'int'):
            n = num(x)
            if n is not None:
                out[path] = n
        elif kind == 'str':
            k = x.as_long() if z3.is_int_value(x) else None
            if k in lits:
                if path in consts:
                    out[path] = lits[k]
            else:
                d = {}
                if path + '!quote' in consts and z3.is_true(m.eval(z3.Bool(path + '!quote'))):
                    d['quote'] = True
                if path + '!notbare' in consts and z3.is_true(m.eval(z3.Bool(path + '!notbare'))):
                    d['notbare'] = True
                hs = [nd for nd, p in w.needles.items() if z3.is_true(m.eval(p(v.t)))]
                if hs:
                    d['has'] = hs
                n = num(m.eval(w.slen(v.t)))
                if n:
                    d['len'] = n
                out[path] = d
    for c in consts:
        if c.endswith('!sfx') and z3.is_true(m.eval(z3.Bool(c))):
            out[c] = True
        if c.endswith(('#', '@')):
            n = num(m[next(d for d in m.decls() if d.name() == c)])
            if n is not None:
                out[c] = n
    return out


LAYOUT = re.compile(r'^(indent|newline|layout:.*)$')


def _consts(e, acc, seen):
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc[x.decl().name()] = x
        todo.extend(x.children())


def layout_obs(T, items):
    """The tree denoted by the text does not depend on indent/newline arguments."""
    bad, odd = [], []
    seen = set()

    def dep(e):
        if isinstance(e, bool) or e is None:
            return []
        acc = {}
        _consts(e, acc, set())
        return [c for n, c in acc.items() if LAYOUT.match(n)]

    def guard(g, where):
        ds = dep(g)
        if not ds:
            return
        sub = [(c, z3.Const(c.decl().name() + "'", c.sort())) for c in ds]
        g2 = z3.substitute(g, *sub)
        pc2 = [z3.substitute(p, *sub) for p in T.st.pc if not isinstance(p, bool)]
        m, r = T.query(tuple(T.st.pc) + tuple(pc2) + (g != g2, z3.Int("indent'") >= 0))
        if r == 'sat':
            bad.append((where, m))
        elif r != 'unsat':
            odd.append(where)

    def val(v, where):
        v = res(v)
        if isinstance(v, Ite):
            guard(v.c, where)
            val(v.a, where)
            val(v.b, where)
        elif isinstance(v, Sc):
            if dep(v.t):
                bad.append((where, T.query(T.st.pc)[0]))
        elif isinstance(v, Rope):
            rope(v, where)
        elif isinstance(v, Ref):
            c = T.I.cell(T.st, v)
            if isinstance(c, HList) and c.sub is None and c.items is not None and v.oid not in seen:
                seen.add(v.oid)
                walk(c.items, where)

    def rope(r, where):
        for s in r.segs:
            if isinstance(s, RSp):
                bad.append((where, T.query(T.st.pc)[0]))
            elif isinstance(s, RIte):
                guard(s.c, where)
                rope(s.a, where)
                rope(s.b, where)
            elif isinstance(s, Hole):
                val(s.v, where)
            elif isinstance(s, RStar):
                rope(s.body, where)

    def same_v(a, b):
        a, b = res(a), res(b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            ca, cb = T.I.cell(T.st, a), T.I.cell(T.st, b)
            if not (isinstance(ca, HList) and isinstance(cb, HList)):
                return False
            if ca.sub is not None or cb.sub is not None:
                return ca.sub == cb.sub
            return same_items(merged(ca.items), merged(cb.items))
        if isinstance(a, Ite) and isinstance(b, Ite):
            return same_g(a.c, b.c) and same_v(a.a, b.a) and same_v(a.b, b.b)
        if isinstance(a, Sc) and isinstance(b, Sc):
            return a.kind == b.kind and same_g(a.t, b.t)
        if isinstance(a, Rope) and isinstance(b, Rope):
            return rope_same(norm_rope(a), norm_rope(b))
        return type(a) is type(b) and not isinstance(a, (Ref, Ite, Sc, Rope)) and a == b

    def same_g(a, b):
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        return a.eq(b)

    def same_items(x, y):
        return len(x) == len(y) and all(
            type(p) is type(q) and same_g(p.g, q.g) and (same_v(p.v, q.v) if isinstance(p, GOne) else p.src is q.src and same_items(merged(p.body), merged(q.body)))
            for p, q in zip(x, y))

    def merged(its):
        its = list(its)
        if not any(dep(i.g) for i in its):
            return its
        i = 0
        while i < len(its):
            j = i + 1
            while j < len(its):
                a, b = its[i], its[j]
                if dep(a.g) and dep(b.g) and type(a) is type(b) and (
                        same_v(a.v, b.v) if isinstance(a, GOne) else a.src is b.src and same_items(merged(a.body), merged(b.body))) and \
                        all(not T.w.sat(*(tuple(T.st.pc) + (k.g, b.g))) for k in its[i:j]):
                    g = z3.simplify(z3.Or(a.g, b.g))
                    if not T.w.sat(*(tuple(T.st.pc) + (z3.Not(g),))):
                        g = True
                    its[i] = GOne(g, a.v) if isinstance(a, GOne) else GStar(g, a.src, a.body)
                    del its[j]
                else:
                    j += 1
            i += 1
        return its

    def walk(its, where):
        its = merged(its)
        for i, it in enumerate(its):
            guard(it.g, where)
            if isinstance(it, GStar):
                walk(it.body, where + '[*]')
            else:
                val(it.v, where + '[%d]' % i)
    walk(items, '')
    if bad:
        T.add('content independent of indent/newline', FAILED, str(bad[0][0]), bad[0][1])
    elif odd:
        T.add('content independent of indent/newline', UNDEC, str(odd[0]))
    else:
        T.add('content independent of indent/newline', PROVED)
