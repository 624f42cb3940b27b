"""C10: readers do not depend on the order of tokens, ignore unknown tokens, and leave
attributes whose token is missing at the declared default."""
import ast
import z3
from .values import *
from . import dom as D, lexer
from .interp import Dead, res, _z, State, lit_cases
from .oblig import *
from .oblig2 import start, attempt, heads


def tokens():
    out, cur = {}, None
    for l in open(D.VERIF + '/spec/tokens.txt'):
        l = l.split('#')[0].rstrip()
        if not l:
            continue
        if l[0] != ' ':
            cur = out[l.strip()] = dict(map={}, required=set(), first=set(), also=set(), ordered=False, closed=False, some=False)
        else:
            p = l.split()
            if p[0] in ('!required', '!first', '!also'):
                cur[p[0][1:]] |= set(p[1:])
            elif p[0][0] == '!':
                cur[p[0][1:]] = True
            else:
                cur['map'][p[0]] = p[1:]
    return out


class EqHeap(Equiv):
    """Equality of two values that both live in the heap."""

    def leaf(self, a, b, pc, depth):
        I, st = self.I, self.T.st
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = I.cell(st, a), I.cell(st, b)
            if isinstance(ca, HObj) and isinstance(cb, HObj):
                if ca.cls is not cb.cls:
                    return False
                return And_(*[self.eq(I.getfield(st, a, n), I.getfield(st, b, n), pc, depth + 1) for (n, *_r) in ca.cls.fields()])
        return super().leaf(a, b, pc, depth)


def heads_of(T, v):
    """Literal first tokens of a list value; None when it is not a list."""
    v = res(v)
    if isinstance(v, Ite):
        a, b = heads_of(T, v.a), heads_of(T, v.b)
        return None if a is None or b is None else a | b
    if isinstance(v, Sc) and v.tag and v.tag[0] == 'idx':
        return heads_of(T, v.tag[2])
    if isinstance(v, TupleV):
        for x in v.items:
            if isinstance(res(x), Ref):
                return heads_of(T, x)
    if not isinstance(v, Ref):
        return None
    c = T.I.cell(T.st, v)
    if not isinstance(c, HList):
        return None
    s = T.st.copy()
    n = len(T.I.raises)
    try:
        h = T.I.list_index(s, T.I.items_of(s, v), 0, None)
    except Dead:
        return None
    finally:
        del T.I.raises[n:]
    out = set()

    def walk(h):
        h = lit_cases(res(h))
        if isinstance(h, Rope) and len(h.segs) == 1 and isinstance(h.segs[0], Hole) and not h.segs[0].ops:
            h = res(h.segs[0].v)
        if isinstance(h, Ite):
            walk(h.a)
            walk(h.b)
        elif isinstance(h, str):
            out.add(h)
        elif isinstance(h, Sc) and h.path in T.w.syms and isinstance(T.w.syms[h.path][2], D.TEnum):
            out.update(x for x in T.w.syms[h.path][2].vals)
        elif isinstance(h, Sc) and str(h.path).startswith('unk'):
            out.add('?' + h.path)
        else:
            raise Unsupported('first token %r' % (h,))
    walk(h)
    return out


def units(T, items):
    """[(item, heads or None)]; heads of a list entry, None for a bare one"""
    out = []
    for it in items:
        if isinstance(it, GOne):
            out.append((it, heads_of(T, it.v)))
        else:
            hs = set()
            for b in it.body:
                h = heads_of(T, b.v) if isinstance(b, GOne) else None
                if h is None:
                    hs = None
                    break
                hs |= h
            out.append((it, hs))
    return out


def guard(it, g):
    if g is True:
        return it
    return GOne(And_(it.g, g), it.v) if isinstance(it, GOne) else GStar(And_(it.g, g), it.src, it.body)


def source_literals(ci):
    out = set()
    for n in ast.walk(ci.module.tree if hasattr(ci.module, 'tree') else ci.node):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 60:
            out.add(n.value)
    return out


def carried(loop, func):
    """Local names through which one iteration of the loop could influence another one or the code after it."""
    tgt = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
    stored = {n.id for s in loop.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
    bad = set()

    def reads(e, asg):
        bound = {n.id for c in ast.walk(e) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in stored and n.id not in asg and n.id not in bound:
                bad.add(n.id)

    def stores(e):
        return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def block(ss, asg):
        """-> names assigned on every path that reaches the end, None if it is not reached"""
        for s in ss:
            if asg is None:
                return None
            if isinstance(s, ast.If):
                reads(s.test, asg)
                asg = asg | stores(s.test)
                a, b = block(s.body, set(asg)), block(s.orelse, set(asg))
                asg = b if a is None else a if b is None else a & b
            elif isinstance(s, (ast.For,)):
                reads(s.iter, asg)
                block(s.body, asg | stores(s.target))
                block(s.orelse, set(asg))
            elif isinstance(s, ast.While):
                reads(s.test, asg)
                block(s.body, set(asg))
            elif isinstance(s, ast.With):
                for w in s.items:
                    reads(w.context_expr, asg)
                asg = block(s.body, asg | {x for w in s.items if w.optional_vars for x in stores(w.optional_vars)})
            elif isinstance(s, ast.Try):
                block(s.body, set(asg))
                for h in s.handlers:
                    block(h.body, set(asg))
                block(s.orelse, set(asg))
                block(s.finalbody, set(asg))
            elif isinstance(s, (ast.Continue, ast.Break, ast.Return, ast.Raise)):
                reads(s, asg)
                return None
            elif isinstance(s, ast.AugAssign):
                if isinstance(s.target, ast.Name) and s.target.id not in asg:
                    bad.add(s.target.id)
                reads(s.value, asg)
                if not isinstance(s.target, ast.Name):
                    reads(s.target, asg)
            else:
                reads(s, asg)
                asg = asg | stores(s)
        return asg
    block(loop.body, set(tgt))
    inside = {id(n) for n in ast.walk(getattr(loop, 'orig', loop))}
    for n in ast.walk(func):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in inside and n.id in stored | tgt and n.lineno > loop.lineno:
            # read after the loop: fine when it is assigned again before (approximated: some store after the loop precedes it)
            if not any(isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store) and m.id == n.id and id(m) not in inside and loop.lineno < m.lineno <= n.lineno for m in ast.walk(func)):
                bad.add(n.id)
    if any(isinstance(n, (ast.Break, ast.Return)) for s in loop.body for n in ast.walk(s)):
        bad.add('(early exit)')
    return bad


def tol_task(prog, key):
    sp = tokens()[key]
    t = D.table()[key]
    hi = heads()[key][2] if key in heads() else None
    out = []

    def run(mode, name):
        T = start(prog, key)
        out.append(T)
        if T.ci is None:
            return
        I, st, w = T.I, T.st, T.w

        def f():
            ref = w.make(D.TObj(key), 'o')
            # an id that looks like that of a unit is told apart by the tokens after it
            w.ax(z3.Not(z3.Bool('o!sfx')))
            text = run_to(T, ref, T.ci, None, None)
            items = lexer.lex(I, st, text)
            if t.shape == 'seq':
                node = lexer.Lexer(I, st).node(items)
            else:
                live = [i for i in items if I.sat(st, i.g)]
                if len(live) != 1 or not isinstance(res(live[0].v), Ref):
                    T.add(name, UNDEC, 'text is not one list')
                    return
                node = res(live[0].v)
                if live[0].g is not True:
                    st.pc = st.pc + (live[0].g,)
            del I.raises[:]
            us = units(T, I.items_of(st, node))
            known = set(sp['map']) | sp['required'] | sp['first'] | sp['also']
            keep = {}

            def kv(hs):
                if hs & sp['required']:
                    return True
                n = '|'.join(sorted(hs))
                for x in keep:
                    if set(x.split('|')) & hs:
                        n = x
                return keep.setdefault(n, z3.Bool('keep:' + n))
            pos = [i for i, (it, hs) in enumerate(us) if hs is not None]
            new = list(us)
            if mode == 'reverse':
                mv = [i for i in pos if not us[i][1] & sp['first']]
                # entries of one kind keep their order among themselves
                blocks = []
                for i in mv:
                    for b in blocks:
                        if us[b[0]][1] & us[i][1]:
                            b.append(i)
                            break
                    else:
                        blocks.append([i])
                order = [i for b in reversed(blocks) for i in b]
                for dst, s_ in zip(mv, order):
                    new[dst] = us[s_]
            its, nunk = [], 0

            def unknown():
                h = w.scalar('unk%d' % len(its), 'str', 'text')
                for x in known:
                    w.ax(h.t != w.intern(x))
                n = z3.Int('unkrest%d#' % len(its))
                w.ax(n >= 0)
                src = StarSrc('unkrest%d' % len(its), n, z3.Int('unkrest%d@' % len(its)), lambda p: Opaque('entry'))
                w.ax(src.idx >= 0)
                c = ('t', next(w.fresh))
                w.cells[c] = HList((GOne(True, h), GStar(True, src, (GOne(True, Opaque('entry')),))), 'input')
                return GOne(z3.Bool('has:unk%d' % len(its)), Ref(c))
            unk_ok = mode == 'drop' and hi is None and not sp['closed']
            for i, (it, hs) in enumerate(new):
                if unk_ok and hs is not None and not hs & sp['first'] and (i == 0 or new[i - 1][1] is None or len(pos) <= 12 or i in (pos[0], pos[-1], pos[len(pos) // 2])):
                    its.append(unknown())
                its.append(guard(it, kv(hs)) if hs is not None else it)
            if unk_ok:
                its.append(unknown())
            c = ('t', next(w.fresh))
            w.cells[c] = HList(tuple(its), 'input')
            tree = Ref(c)
            if sp['some']:
                w.ax(_z(Or_(*[x.g for x in its if isinstance(x, GOne) and isinstance(res(x.v), (Ref, Ite))])))
            I.track = {} if mode == 'drop' else None
            fi = method(T.ci, 'from_sexpr')
            n = len(I.raises)
            try:
                r = I.call_func(st, fi, [T.ci, tree], {})
            except Dead:
                T.norais(name + ': no exception', n)
                return
            T.norais(name + ': no exception', n)
            tr, I.track = I.track, None
            r = I.prune(st, r)
            d = I.construct(st, T.ci, [], {}, None)
            E, EH = Equiv(T), EqHeap(T)
            for nme in [x[0] for x in T.ci.fields()]:
                if isinstance(t.fields.get(nme), D.TSkip) or nme in t.hints or nme == 'filePath':
                    continue
                N = '%s: attribute %s' % (name, nme)
                car = {h for h, fs in sp['map'].items() if nme in fs}
                ks = {n: k for n, k in keep.items() if set(n.split('|')) & car}
                K = And_(*ks.values())
                try:
                    a = I.init_of('o', w.cells['o'], nme)
                    b = I.getfield(st, r, nme)
                    pc = tuple(st.pc) + ((K,) if K is not True else ())
                    T.prove(N + ' is unaffected by the other tokens', pc, E.eq(a, b, pc))
                    if ks and mode == 'drop':
                        pc = tuple(st.pc) + tuple(Not_(k) for k in ks.values())
                        T.prove(N + ' without its token has the declared default', pc, EH.eq(I.getfield(st, d, nme), b, pc))
                except (Unsupported, z3.Z3Exception) as e:
                    T.add(N, UNDEC, str(e))
            if tr is not None and not sp['ordered'] and not sp['closed']:
                commute(T, tr, its)
        attempt(T, name, f)
    run('drop', 'missing and unknown tokens')
    if not sp['ordered']:
        run('reverse', 'tokens in reverse order')
    return out


def only_iterated(T, oid):
    """the list is the value of a comprehension over the entries which is used for nothing but another loop (which is judged by itself)"""
    e, func = T.I.comps.get(oid, (None, None))
    if e is None:
        return False
    iters = [n.iter for n in ast.walk(func) if isinstance(n, (ast.For, ast.comprehension))]
    if any(n is e for n in iters):
        return True
    for n in ast.walk(func):
        if isinstance(n, ast.Assign) and n.value is e and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            return all(m in iters for m in ast.walk(func) if isinstance(m, ast.Name) and m.id == n.targets[0].id and isinstance(m.ctx, ast.Load))
    return False


def commute(T, tr, units):
    """Bernstein conditions: no list entry writes what another entry reads or writes."""
    N = 'the entries of the loop are independent of each other (any order)'
    n = 0
    for (lid, loop, func), its in tr.items():
        hs = {}
        for k, (rd, wr, it) in its.items():
            hs[k] = [h for b in ([it] if isinstance(it, GOne) else it.body) for h in [heads_of(T, b.v) if isinstance(b, GOne) else set()]]
        if not any(h is not None for x in hs.values() for h in x):
            continue
        n += 1
        c = carried(loop, func)
        if c:
            T.add(N, UNDEC, 'loop variables %s' % sorted(c))
            return
        ks = list(its)
        for i in range(len(ks)):
            for j in range(i + 1, len(ks)):
                (ra, wa, ia), (rb, wb, ib) = its[ks[i]], its[ks[j]]
                ha, hb = ({h for x in hs[k] if x for h in x} for k in (ks[i], ks[j]))
                if not ha and not hb or ha & hb:
                    continue
                x = {y for y in (wa & (rb | wb)) | (wb & ra) if not (y[1] == '[]' and only_iterated(T, y[0]))}
                if x and T.query(tuple(T.st.pc) + (ia.g, ib.g))[1] != 'unsat':
                    T.add(N, UNDEC, 'entries %s and %s share %s' % (ha, hb, sorted(map(str, x))[:2]))
                    return
    T.add(N, PROVED if n else UNDEC, '' if n else 'no loop over the entries')
