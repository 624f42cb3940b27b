"""Obligations for the frame, isolation, rejection and presence properties."""
import ast, re
import z3
from .values import *
from . import dom as D, lexer
from .interp import Dead, res, _z, State
from .oblig import *
from .oblig import _consts


def attempt(T, name, f, frame=False):
    try:
        return f()
    except Unsupported as e:
        if frame:
            # what was executed so far may already break the frame
            for oid, what, pc in T.I.mutated_input[T.since:]:
                m, r = T.query(pc)
                if r == 'sat':
                    T.add(name, FAILED, 'writes %s %s' % (oid, what), m)
                    return
        T.add(name, UNDEC, 'unsupported: %s' % e)
    except Dead:
        T.add(name, UNDEC, 'no normal path')
    except lexer.Unbalanced as e:
        T.add(name, UNDEC, 'unbalanced text')
    except lexer.Unbal as e:
        T.add(name, UNDEC, 'unbalanced text')


def start(prog, key, wide=False):
    T = Task(prog, key)
    T.w.wide = wide
    T.since = 0
    T.ci = prog.cls(D.qual(key))
    if T.ci is None:
        T.add('class present', UNDEC, 'class not found')
    return T


IMPLICIT = ('AttributeError', 'TypeError', 'NameError', 'KeyError', 'IndexError', 'UnboundLocalError', 'ValueError')


def no_mutation(T, name, since=0, allowed=(), early=IMPLICIT):
    bad = None
    for (s, exc, line, info) in T.I.raises:
        # an exception no statement asks for ends a path early: another property's failure; not a proof of this one
        if exc in early and T.query(s.pc)[1] != 'unsat':
            bad = (exc, 'at line %s' % line, None, 'early')
            break
    for oid, what, pc in T.I.mutated_input[since:]:
        if (oid, what) in allowed:
            continue
        m, r = T.query(pc)
        if r != 'unsat':
            bad = (oid, what, m, r)
            break
    if bad is None:
        T.add(name, PROVED)
    else:
        T.add(name, FAILED if bad[3] == 'sat' else UNDEC, ('%s %s' if bad[3] == 'early' else 'writes %s %s') % (bad[0], bad[1]), bad[2])


def frame_task(prog, key):
    """C13: to_sexpr assigns nothing reachable from its argument or from module/class state."""
    T = start(prog, key)
    if T.ci is None:
        return T

    def f():
        ref = T.w.make(D.TObj(key), 'o')
        ind, nl = sym_layout(T)
        try:
            run_to(T, ref, T.ci, ind, nl)
        except Dead:
            pass
        no_mutation(T, 'to_sexpr assigns nothing outside its own frame')
    if method(T.ci, 'to_sexpr') is not None:
        attempt(T, 'to_sexpr assigns nothing outside its own frame', f, frame=True)
    return T


def reach(T, v, seen, path, out, pc=(), born=()):
    """Mutable values reachable from v: out gets those that live in the input or in module/class
    state, and those that are reached on two ways at once."""
    v = res(v)
    if isinstance(v, Ite):
        reach(T, v.a, seen, path, out, pc + (v.c,), born)
        reach(T, v.b, seen, path, out, pc + (Not_(v.c),), born)
        return
    if isinstance(v, TupleV):
        for x in v.items:
            reach(T, x, seen, path, out, pc, born)
        return
    if not isinstance(v, Ref):
        return
    if v.oid in seen:
        p0, pc0 = seen[v.oid]
        if p0 != path:
            out.append((path, 'attribute %s' % p0, pc + pc0))
        return
    seen[v.oid] = (path, pc)
    c = T.I.cell(T.st, v)
    for b, n in born:
        if isinstance(v.oid, int) and v.oid <= b and isinstance(c, (HObj, HList, HDict)):
            out.append((path, 'other entries of the same list', pc + (n >= 2,)))
            return
    if c.origin in ('input', 'global'):
        out.append((path, 'the parsed input' if c.origin == 'input' else 'module/class state', pc))
        return
    if isinstance(c, HObj):
        for n, x in c.fields.items():
            reach(T, x, seen, path + '.' + n, out, pc, born)
    elif isinstance(c, (HList, HDict)):
        def walk(its, pc, born):
            for k, it in enumerate(its):
                g = pc if it.g is True else pc + (it.g,)
                if isinstance(it, GStar):
                    walk(it.body, g, born + ((it.born, it.src.n),) if it.born is not None else born)
                else:
                    reach(T, it.v, seen, path + '[%d]' % k, out, g, born)
        if c.items is not None and getattr(c, 'sub', None) is None:
            walk(c.items, pc, born)


def fresh_ob(T, name, v):
    out = []
    reach(T, v, {}, '', out)
    und = None
    for p, what, pc in out:
        m, r = T.query(tuple(T.st.pc) + pc)
        if r == 'sat':
            T.add(name, FAILED, 'attribute %s is shared with %s' % (p or '(the object itself)', what), m)
            return
        und = und or (r != 'unsat' and (p, what))
    if und:
        T.add(name, UNDEC, 'attribute %s may be shared with %s' % und)
    else:
        T.add(name, PROVED)


def iso_task(prog, key):
    """C14: from_sexpr leaves its input tree alone and returns an object that shares no mutable
    state with the tree, with other objects or with class/module state; default construction likewise."""
    T = start(prog, key)
    if T.ci is None:
        return T
    t = D.table()[key]
    T2 = start(prog, key)

    def g():
        o = T2.I.construct(T2.st, T2.ci, [], {}, None)
        fresh_ob(T2, 'default construction shares no state', o)
    needs = [n for (n, a, d, k) in T2.ci.fields() if d is None]
    if not needs and not any('ABC' in ast.unparse(b) for b in T2.ci.base_nodes):
        attempt(T2, 'default construction shares no state', g)
    if t.shape in ('none', 'inline') or method(T.ci, 'from_sexpr') is None:
        return [T, T2]
    N = 'from_sexpr leaves its input unchanged'

    def f():
        ref = T.w.make(D.TObj(key), 'o')
        ind, nl = sym_layout(T)
        text = run_to(T, ref, T.ci, ind, nl)
        items = lexer.lex(T.I, T.st, text)
        live = [i for i in items if T.I.sat(T.st, i.g)]
        if t.shape == 'seq':
            node = lexer.Lexer(T.I, T.st).node(items)
        elif len(live) == 1 and isinstance(res(live[0].v), Ref):
            node = res(live[0].v)
            if live[0].g is not True:
                T.st.pc = T.st.pc + (live[0].g,)
        else:
            v = None
            for i in live:
                v = res(i.v) if v is None else Ite(i.g, res(i.v), v)
            node = v
        n = T.since = len(T.I.mutated_input)
        out = T.I.call_func(T.st, method(T.ci, 'from_sexpr'), [T.ci, node], {})
        no_mutation(T, N, n)
        fresh_ob(T, 'from_sexpr returns an object sharing no state', out)
    attempt(T, N, f, frame=True)
    T3 = start(prog, key)
    N3 = 'from_sexpr leaves its input unchanged: any entries missing'

    def h():
        """the same for trees in which any of the entries after the first are missing"""
        I, st, w = T3.I, T3.st, T3.w
        ref = w.make(D.TObj(key), 'o')
        ind, nl = sym_layout(T3)
        items = lexer.lex(I, st, run_to(T3, ref, T3.ci, ind, nl))
        if t.shape == 'seq':
            node = lexer.Lexer(I, st).node(items)
        else:
            live = [i for i in items if I.sat(st, i.g)]
            if len(live) != 1 or not isinstance(res(live[0].v), Ref):
                raise Unsupported('text is not one list')
            node = res(live[0].v)
        its = list(I.items_of(st, node))
        new = its[:1]
        for k, it in enumerate(its[1:]):
            v = res(it.v) if isinstance(it, GOne) else None
            drop = not isinstance(it, GOne) or isinstance(v, str) or isinstance(v, Ref) and isinstance(I.cell(st, v), HList)
            g = z3.Bool('has:%d' % k)
            new.append(it if not drop else GOne(And_(it.g, g), it.v) if isinstance(it, GOne) else GStar(And_(it.g, g), it.src, it.body))
        c = ('t', next(w.fresh))
        w.cells[c] = HList(tuple(new), 'input')
        n = T3.since = len(I.mutated_input)
        out = I.call_func(st, method(T3.ci, 'from_sexpr'), [T3.ci, Ref(c)], {})
        no_mutation(T3, N3, n, early=IMPLICIT[:3])
        fresh_ob(T3, 'from_sexpr returns an object sharing no state: any entries missing', out)
    attempt(T3, N3, h, frame=True)
    return [T, T2, T3]


def none_task(prog, key):
    """C18: an unset attribute never shows up as the word None (or an object address)."""
    T = start(prog, key, wide=True)
    if T.ci is None or method(T.ci, 'to_sexpr') is None:
        return T
    N = 'unset attributes leave no trace in the text'

    def f():
        ref = T.w.make(D.TObj(key), 'o')
        ind, nl = sym_layout(T)
        text = run_to(T, ref, T.ci, ind, nl)
        bad = []

        def scan(r, pc, q):
            """q: inside quotes"""
            for s in to_rope(r).segs:
                if isinstance(s, str):
                    parts = s.split('"')
                    for i, p in enumerate(parts):
                        if re.search(r'(?<![A-Za-z0-9_.\-])None(?![A-Za-z0-9_.\-])', p):
                            bad.append((pc, s))
                        if i < len(parts) - 1:
                            q = not q
                elif isinstance(s, RIte):
                    scan(s.a, pc + (s.c,), q)
                    scan(s.b, pc + (Not_(s.c),), q)
                elif isinstance(s, RStar):
                    scan(s.body, pc + (s.src.n > 0,), q)
        scan(text, tuple(T.st.pc), False)
        for pc, s in bad:
            m, r = T.query(pc)
            if r != 'unsat':
                T.add(N, FAILED if r == 'sat' else UNDEC, 'writes %r' % s[:80], m)
                return
        T.norais('to_sexpr handles every unset attribute')
        T.add(N, PROVED)
    attempt(T, N, f)
    return T


def heads():
    out = {}
    for l in open(D.VERIF + '/spec/heads.txt'):
        l = l.split('#')[0].split()
        if l:
            lo, hi = l[2].split('..')
            out[l[0]] = ([] if l[1] == '-' else l[1].split('|'), int(lo), int(hi) if hi else None)
    return out


def reject_task(prog, key):
    """C11: the reader returns normally only for a list with its own first token and the required number of entries."""
    hs, lo, hi = heads()[key]
    out = []

    def case(name, make):
        T = start(prog, key)
        out.append(T)
        if T.ci is None:
            return
        fi = method(T.ci, 'from_sexpr')
        if fi is None:
            T.add(name, UNDEC, 'no from_sexpr')
            return

        def f():
            v = make(T)
            try:
                r = T.I.call_func(T.st, fi, [T.ci, v], {})
            except Dead:
                T.add(name, PROVED)
                return
            m, q = T.query(T.st.pc)
            if q == 'unsat':
                T.add(name, PROVED)
            else:
                T.add(name, FAILED if q == 'sat' else UNDEC, 'returns normally', m)
        attempt(T, name, f)

    def lst(T, items):
        k = ('t', next(T.w.fresh))
        T.w.cells[k] = HList(items, 'input')
        return Ref(k)

    def rest(T, cond=None):
        n = z3.Int('rest#')
        T.w.ax(n >= 0)
        src = StarSrc('rest', n, z3.Int('rest@'), lambda p: Opaque('entry'))
        T.w.ax(src.idx >= 0)
        if cond is not None:
            T.w.ax(cond(n))
        return GStar(True, src, (GOne(True, Opaque('entry')),))
    case('rejects None', lambda T: None)
    case('rejects text', lambda T: T.w.scalar('input', 'str', 'text'))
    case('rejects numbers', lambda T: T.w.scalar('input', 'num', 'num'))
    for k in (0, 1, 2, 3, 5, 8):
        for h in (hs if hs and hs[0][0] != '@' else [None]):
            case('rejects tuples (%d entries)' % k, lambda T, h=h, k=k: TupleV(tuple(
                h if h and i == 0 else T.w.scalar('input%d' % i, 'str', 'text') for i in range(k))))
    case('rejects mappings', lambda T: T.I.alloc(T.st, HDict(())))
    case('rejects an empty list', lambda T: lst(T, ()))
    if hs == ['@version']:
        case('rejects a first entry that is not a list', lambda T: lst(T, (GOne(True, T.w.scalar('h', 'str', 'text')), rest(T))))

        def mk(T):
            h = T.w.scalar('h', 'str', 'text')
            T.w.ax(h.t != T.w.intern('version'))
            return lst(T, (GOne(True, lst(T, (GOne(True, h), rest(T)))),))
        case('rejects a wrong first token', mk)
    elif hs:
        def mk(T):
            h = T.w.scalar('h', 'str', 'text')
            for x in hs:
                T.w.ax(h.t != T.w.intern(x))
            return lst(T, (GOne(True, h), rest(T)))
        case('rejects a wrong first token', mk)
        case('rejects a number as first token', lambda T: lst(T, (GOne(True, T.w.scalar('h', 'num', 'num')), rest(T))))
        case('rejects a list as first token', lambda T: lst(T, (GOne(True, lst(T, (GOne(True, hs[0]),))), rest(T))))
    if lo > 1:
        for h in hs or [None]:
            case('rejects fewer than %d entries' % lo, lambda T, h=h: lst(T, (GOne(True, h if h else T.w.scalar('h', 'str', 'text')), rest(T, lambda n: n < lo - 1))))
    if hi is not None:
        for h in hs or [None]:
            case('rejects more than %d entries' % hi, lambda T, h=h: lst(T, (GOne(True, h if h else T.w.scalar('h', 'str', 'text')), rest(T, lambda n: n > hi - 1))))
    return out


CARD = 'self.angle is None or self.angle in [0.0, 90.0, 180.0, 270.0]'
TB = [('a non-cardinal angle without exactly four corner points', {'pts': '[xy]{0..9}'}, 'not (%s) and len(self.pts) != 4' % CARD),
      ('no or a cardinal angle without start or end', {'pts': '[xy]{0..9}'}, '(%s) and (self.start is None or self.end is None)' % CARD)]
REFUSE = {
    'common.PageSettings': [('a User page without width or height', {}, "self.paperSize == 'User' and (self.width is None or self.height is None)")],
    'dimensions.Dimension': [('a dimension without points', {'pts': '[xy]{0}'}, None)],
    'zones.Zone': [('a zone without layers', {'layers': '[text]{0}'}, None)],
    'common.Position': [('a position on its own', {}, None)],
    'wks.WksPosition': [('a worksheet position on its own', {}, None)],
    'wks.Polygon': [('a worksheet polygon', {}, None)],
    'gritems.GrTextBox': TB,
    'fpitems.FpTextBox': TB,
}
# readers: (class, what, list literal; * = any further entries)
REFUSE_READ = [
    ('common.PageSettings', 'a User page without width and height', [['paper', 'User'], ['paper', 'User', 100]]),
    ('footprint.Footprint', 'a dimension in a footprint', [['footprint', 'x', ['dimension', '*']], ['module', 'x', ['layer', 'F.Cu'], ['dimension', '*'], '*']]),
    ('footprint.Pad', 'a dimension in custom pad primitives', [['pad', '1', 'smd', 'custom', ['primitives', ['dimension', '*']]]]),
    ('wks.Polygon', 'a worksheet polygon', [['polygon', '*']]),
    ('schitems.BusAlias', 'a bus alias without members', [['bus_alias', 'x', ['other', '*']], ['bus_alias', 'x', 'members']]),
    ('brditems.StackupSubLayer', 'a stackup sublayer on its own', [['x', '*']]),
]


def refuse_obj(key, over, cond):
    t = D.TObj(key, {n: D._P(x).type() for n, x in over.items()})
    return t


def refuse_task(prog, key):
    """C19: objects / expressions that have no valid representation are refused."""
    out = []
    for what, over, cond in REFUSE.get(key, ()):
        T = start(prog, key)
        out.append(T)
        N = 'writing %s raises' % what
        if T.ci is None:
            continue

        def f():
            T.w.invs_for['o'] = [cond] if cond else []
            ref = T.w.make(refuse_obj(key, over, cond), 'o')
            ind, nl = sym_layout(T)
            m, r = T.query(())
            if r != 'sat':
                T.add(N, UNDEC, 'vacuous: %s' % r)
                return
            try:
                run_to(T, ref, T.ci, ind, nl)
            except Dead:
                T.add(N, PROVED)
                return
            m, q = T.query(T.st.pc)
            T.add(N, PROVED if q == 'unsat' else FAILED if q == 'sat' else UNDEC, 'returns normally', m if q == 'sat' else None)
        attempt(T, N, f)
    for k, what, lits in REFUSE_READ:
        if k != key:
            continue
        for i, lit in enumerate(lits):
            T = start(prog, key)
            out.append(T)
            N = 'reading %s raises (%d)' % (what, i)
            fi = method(T.ci, 'from_sexpr') if T.ci else None
            if fi is None:
                T.add(N, UNDEC, 'no from_sexpr')
                continue
            cnt = [0]

            def mk(x):
                if not isinstance(x, list):
                    return x
                its = []
                for y in x:
                    if y == '*':
                        cnt[0] += 1
                        n = z3.Int('rest%d#' % cnt[0])
                        T.w.ax(n >= 0)
                        src = StarSrc('rest%d' % cnt[0], n, z3.Int('rest%d@' % cnt[0]), lambda p: Opaque('entry'))
                        T.w.ax(src.idx >= 0)
                        its.append(GStar(True, src, (GOne(True, Opaque('entry')),)))
                    else:
                        its.append(GOne(True, mk(y)))
                c = ('t', next(T.w.fresh))
                T.w.cells[c] = HList(its, 'input')
                return Ref(c)

            def f():
                try:
                    T.I.call_func(T.st, fi, [T.ci, mk(lit)], {})
                except Dead:
                    T.add(N, PROVED)
                    return
                m, q = T.query(T.st.pc)
                T.add(N, PROVED if q == 'unsat' else FAILED if q == 'sat' else UNDEC, 'returns normally', m if q == 'sat' else None)
            attempt(T, N, f)
    return out


LIBID = {
    'symbol.Symbol': [('with a library nickname', {'libraryNickname': 'word', 'entryName': 'line', 'unitId': '=None', 'styleId': '=None'}, ['libraryNickname', ':', 'entryName']),
                      ('of a unit', {'libraryNickname': '=None', 'unitId': 'nat', 'styleId': 'nat'}, ['entryName', '_', 'unitId', '_', 'styleId']),
                      ('without nickname and unit', {'libraryNickname': '=None', 'unitId': '=None', 'styleId': '=None'}, ['entryName'])],
    'schitems.SchematicSymbol': [('with a library nickname', {'libraryNickname': 'word', 'entryName': 'line'}, ['libraryNickname', ':', 'entryName']),
                                 ('without nickname', {'libraryNickname': '=None'}, ['entryName'])],
    'footprint.Footprint': [('with a library nickname', {'libraryNickname': 'word', 'entryName': 'line'}, ['libraryNickname', ':', 'entryName']),
                            ('without nickname', {'libraryNickname': '=None'}, ['entryName'])],
}
LIBF = ('libraryNickname', 'entryName', 'unitId', 'styleId')


def over_t(key, over):
    return D.TObj(key, {n: D.TConst(None) if x == '=None' else D._P(x).type() for n, x in over.items()})


def reads_as(T, v, x):
    """Cases in which the composed library id v is not the text x it was decomposed from."""
    w, bad = T.w, []
    def walk(v, pc):
        v = res(v)
        if isinstance(v, Ite):
            for c, b in ((v.c, v.a), (Not_(v.c), v.b)):
                if T.query(pc + (c,))[1] != 'unsat':
                    walk(b, pc + (c,))
            return
        if isinstance(v, Rope):
            for i, sg in enumerate(v.segs):
                if isinstance(sg, RIte):
                    walk(Ite(sg.c, Rope(list(v.segs[:i]) + list(sg.a.segs) + list(v.segs[i + 1:])), Rope(list(v.segs[:i]) + list(sg.b.segs) + list(v.segs[i + 1:]))), pc)
                    return
        if isinstance(v, Sc) and v is x or isinstance(v, Rope) and rope_same(v, Rope([Hole(x)])):
            return
        for pat, r in w.decomp.get(x.path, []):
            if isinstance(v, Rope) and rope_same(v, r) and T.query(pc + (Not_(z3.Bool('match:%s:%s' % (x.path, pat))),))[1] == 'unsat':
                return
        bad.append((v, pc))
    walk(v, T.st.pc)
    return bad


def libid_task(prog, key, fresh=False):
    """C16: the library id is composed from, and decomposed into, its parts without loss."""
    out = []

    def begin():
        T = start(prog, key)
        T.I.libid_contract = False
        T.w.re_assume, T.w.decomp = [], {}
        T.w.invs_for['o'] = T.w.invs_for['p'] = []
        out.append(T)
        return T

    def plain_entry(T):
        def f(segs, S):
            # precondition of the plain form: the entry name does not itself look like a unit id
            from .regex import notin, DIGIT, NL
            if len(segs) == 1 and isinstance(segs[0], Hole) and segs[0].v.path == 'o.entryName':
                return [z3.Not(z3.InRe(S, z3.Concat(z3.Plus(notin([NL])), z3.Re('_'), z3.Plus(DIGIT), z3.Re('_'), z3.Plus(DIGIT))))]
            return []
        T.w.re_assume.append(f)
    for what, over, want in LIBID[key]:
        T = begin()
        N1, N2 = 'library id %s is composed of its parts' % what, 'setting the library id of an object %s restores its parts' % what
        names = [f[0] for f in T.ci.fields()] if T.ci else []
        N3 = 'setting the library id %s changes nothing else' % what
        if T.ci is None:
            continue
        if 'unitId' in names and 'of a unit' not in what and 'nickname:' not in what:
            plain_entry(T)
        if want == ['entryName']:
            plain_entry(T)

        def f():
            I, st, w = T.I, T.st, T.w
            ref = w.make(over_t(key, over), 'o')
            v = I.getattr(st, ref, 'libId', None)
            rope = []
            for p in want:
                if len(p) > 1:
                    rope += to_rope(I.getfield(st, ref, p) if not isinstance(I.getfield(st, ref, p), str) else I.getfield(st, ref, p)).segs
                else:
                    rope.append(p)
            T.norais(N1 + ' (no exception)')
            exp = rope_value(Rope(rope))
            v = I.prune(st, v)
            E = Equiv(T)
            T.prove(N1, st.pc, E.eq(exp, v, st.pc))
            n = len(I.raises)
            if fresh:
                tgt = I.construct(st, T.ci, [], {}, None)
            else:
                tgt = w.make(D.TObj(key), 'p')
            I.setattr(st, tgt, 'libId', v, None)
            T.norais(N2 + ' (no exception)', n)
            conds = []
            for x in LIBF:
                if x in names:
                    conds.append(E.eq(I.getfield(st, ref, x), I.getfield(st, tgt, x), st.pc))
            T.prove(N2, st.pc, And_(*conds))
            if fresh:
                return
            allowed = {('p', x) for x in LIBF if x in names}
            if 'units' in names:
                us = [it for it in I.items_of(st, I.getfield(st, tgt, 'units'))]
                NU = 'the units of an object %s take over the entry name' % what
                if len(us) != 1 or not isinstance(us[0], GStar) or len(us[0].body) != 1:
                    T.add(NU, UNDEC, repr(us)[:100])
                else:
                    u = res(us[0].body[0].v)
                    src = us[0].src
                    pc = st.pc + (src.n > 0, src.idx >= 0, src.idx < src.n)
                    allowed.add((u.oid, 'entryName'))
                    T.prove(NU, pc, E.eq(I.getfield(st, u, 'entryName'), I.getfield(st, tgt, 'entryName'), pc))
            no_mutation(T, N3, allowed=allowed)
        attempt(T, N2, f)
    if fresh:
        return out
    T = begin()
    N = 'the library id reads as it was set'

    def g():
        I, st, w = T.I, T.st, T.w
        x = w.scalar('x', 'str', 'line')
        tgt = w.make(D.TObj(key), 'p')
        I.setattr(st, tgt, 'libId', x, None)
        v = I.getattr(st, tgt, 'libId', None)
        T.norais(N + ' (no exception)')
        bad = reads_as(T, v, x)
        if bad:
            T.add(N, FAILED, repr(bad[0][0])[:200], T.query(bad[0][1])[0])
        else:
            T.add(N, PROVED)
    if T.ci:
        attempt(T, N, g)
    return out


FILES = ['board.Board', 'footprint.Footprint', 'schematic.Schematic', 'symbol.SymbolLib', 'wks.WorkSheet', 'dru.DesignRules', 'libraries.LibTable']
FAIL = 'SerializationFailed'


def flat_trace(T, tr, pc, out):
    """All feasible linear traces: [(events, pc)]"""
    cur = [((), pc)]
    for e in tr:
        if e[0] == 'ite':
            _, c, a, b = e
            nxt = []
            for ev, p in cur:
                for br, cc in ((a, c), (b, Not_(c))):
                    p2 = p + (cc,)
                    if T.query(p2)[1] != 'unsat':
                        sub = []
                        flat_trace(T, br, p2, sub)
                        nxt += [(ev + x, q) for x, q in sub]
            cur = nxt
        else:
            cur = [(ev + (e,), p) for ev, p in cur]
    out += cur


def text_mode(m):
    return isinstance(m, str) and m.replace('t', '') in ('r', 'w')


def writes(e):
    return e[0] == 'open' and (not isinstance(e[3], str) or any(c in e[3] for c in 'wax+'))


def io_task(prog, key):
    """C15: to_file / from_file."""
    out = []

    def begin():
        T = start(prog, key)
        out.append(T)
        T.I.open_raises = True
        T.content, T.calls = [], []
        return T

    def texts(T, fail):
        def to_stub(I, st, recv, args, kwargs, node):
            T.calls.append(recv)
            if fail:
                I.raise_if(st, z3.Bool('fails'), FAIL, node)
            v = I.w.scalar('TEXT', 'str', 'line')
            v.tag = ('text', recv.oid)
            return v
        T.I.stubs[(key, 'to_sexpr')] = to_stub
    E = None

    def tofile(name, given, stored, check, fail=False):
        T = begin()
        fi = method(T.ci, 'to_file') if T.ci else None
        if fi is None:
            T.add(name, UNDEC, 'no to_file')
            return

        def f():
            I, st, w = T.I, T.st, T.w
            texts(T, fail)
            w.invs_for['o'] = []
            ref = w.make(D.TObj(key, {'filePath': D.TLine() if stored else D.TConst(None)}), 'o')
            path = '' if given == 'empty' else w.make(D.TLine(), 'filepath') if given else None
            enc = w.make(D.TOpt(D.TLine()), 'encoding')
            kw = dict(encoding=enc)
            n = len(I.raises)
            dead = False
            try:
                I.call_func(st, fi, [ref] + ([path] if given else []), kw)
            except Dead:
                dead = True
            check(T, ref, path, enc, dead, n)
        attempt(T, name, f)

    def good(name, which):
        def check(T, ref, path, enc, dead, n):
            I, st = T.I, T.st
            if dead:
                T.add(name, FAILED, 'always raises', T.query(())[0])
                return
            T.norais(name + ': no exception', n)
            want = path if which == 'arg' else I.getfield(st, ref, 'filePath') if False else I.init_of('o', T.w.cells['o'], 'filePath')
            trs = []
            flat_trace(T, st.trace, st.pc, trs)
            E = Equiv(T)
            for ev, pc in trs:
                evs = [e for e in ev if e[0] != 'close']
                if len(evs) > 2 and evs[0][0] == 'open' and all(e[0] == 'write' and e[1] == evs[0][1] for e in evs[1:]):
                    evs = [evs[0], ('write', evs[0][1], cat(*[e[2] for e in evs[1:]]))]
                if len(evs) != 2 or evs[0][0] != 'open' or evs[1][0] != 'write' or evs[1][1] != evs[0][1]:
                    T.add(name, FAILED, 'file operations: %s' % ([e[0] for e in ev],), T.query(pc)[0])
                    return
                _, h, p, mode, kws = evs[0]
                kws = dict(kws)
                if not isinstance(mode, str) or mode.replace('t', '') != 'w' or any(k not in ('encoding', 'newline', 'errors') for k in kws):
                    T.add(name, UNDEC, 'open mode %r %s' % (mode, sorted(kws)))
                    return
                if I.prune(st, kws.get('errors')) not in (None, 'strict'):
                    T.add(name + ': texts outside the encoding are not altered', FAILED, 'errors=%r' % (I.prune(st, kws.get('errors')),), T.query(pc)[0])
                if I.prune(st, kws.get('newline')) not in (None, '\n', ''):
                    T.add(name, UNDEC, 'open arguments')
                    return
                T.prove(name + ': the target path', pc, E.eq(want, p, pc))
                T.prove(name + ': the encoding', pc, E.eq(enc, kws.get('encoding'), pc))
                v = I.prune(st, evs[1][2])
                if isinstance(v, Rope) and len(v.segs) == 1 and isinstance(v.segs[0], Hole):
                    v = v.segs[0].v if not v.segs[0].ops else v
                ok = isinstance(v, Sc) and v.tag == ('text', 'o')
                T.add(name + ': writes exactly the serialised object', PROVED if ok else FAILED, repr(v)[:100], T.query(pc)[0] if not ok else None)
                if ('close', h) not in ev:
                    T.add(name + ': the file is closed', UNDEC, '')
            no_mutation(T, name + ': the object is unchanged')
        return check
    N1, N2 = 'saving to a given path', 'saving to the stored path'
    tofile(N1, True, True, good(N1, 'arg'))
    tofile(N1 + ' without a stored path', True, False, good(N1 + ' without a stored path', 'arg'))
    tofile(N2, False, True, good(N2, 'self'))
    N1e = 'saving to an empty path never writes to another file'

    def empty(T, ref, path, enc, dead, n):
        states = [(T.st.trace, T.st.pc)] if not dead else []
        states += [(s.trace, s.pc) for (s, exc, line, info) in T.I.raises[n:]]
        for tr, pc0 in states:
            if T.query(pc0)[1] == 'unsat':
                continue
            trs = []
            flat_trace(T, tr, pc0, trs)
            for ev, pc in trs:
                for e in ev:
                    if writes(e) and e[0] == 'open':
                        E = Equiv(T)
                        own = E.eq(T.I.init_of('o', T.w.cells['o'], 'filePath'), e[2], pc)
                        if T.query(pc + (Not_(own),))[1] == 'unsat':
                            T.prove(N1e, pc, False)
                        elif T.query(pc + (Not_(E.eq('', e[2], pc)),))[1] != 'unsat':
                            T.add(N1e, UNDEC, 'writes to %r' % (e[2],))
                    elif writes(e) and e[0] != 'write':
                        T.add(N1e, UNDEC, 'file operation %s' % e[0])
        T.add(N1e, PROVED)
    tofile(N1e, 'empty', True, empty)
    N3 = 'saving without any path raises and touches no file'

    def none(T, ref, path, enc, dead, n):
        if not dead and T.query(T.st.pc)[1] != 'unsat':
            T.add(N3, FAILED, 'returns normally', T.query(T.st.pc)[0])
            return
        for (s, exc, line, info) in T.I.raises[n:]:
            if T.query(s.pc)[1] != 'unsat':
                trs = []
                flat_trace(T, s.trace, s.pc, trs)
                if any(writes(e) for ev, pc in trs for e in ev):
                    T.add(N3, FAILED, 'opens a file first', T.query(s.pc)[0])
                    return
        T.add(N3, PROVED)
    tofile(N3, False, False, none)
    N4 = 'if serialising fails the target file is untouched and the error is raised'

    def fails(T, ref, path, enc, dead, n):
        hit = False
        for (s, exc, line, info) in T.I.raises[n:]:
            if T.query(s.pc)[1] == 'unsat':
                continue
            if exc == FAIL:
                hit = True
            trs = []
            flat_trace(T, s.trace, s.pc, trs)
            if any(writes(e) for ev, pc in trs for e in ev):
                T.add(N4, FAILED, 'the file has been opened for writing before', T.query(s.pc)[0])
                return
        if T.query(T.st.pc + (z3.Bool('fails'),))[1] != 'unsat' and not dead:
            T.add(N4, FAILED, 'the error is swallowed', T.query(T.st.pc + (z3.Bool('fails'),))[0])
        else:
            T.add(N4, PROVED if hit else UNDEC, '' if hit else 'to_sexpr not called')
    tofile(N4, True, True, fails, fail=True)

    # ------------------------------------------------------------------ reading
    def fromfile(name, check, isfile):
        T = begin()
        fi = method(T.ci, 'from_file') if T.ci else None
        if fi is None:
            T.add(name, UNDEC, 'no from_file')
            return

        def f():
            I, st, w = T.I, T.st, T.w
            path = w.make(D.TLine(), 'filepath')
            enc = w.make(D.TOpt(D.TLine()), 'encoding')
            isf, ex = z3.Bool('isfile(%r)' % (I.prune(st, path),)), z3.Bool('exists(%r)' % (I.prune(st, path),))
            w.ax(z3.Implies(isf, ex))
            w.ax(isf if isfile else z3.Not(isf))

            def parse(I, st, recv, args, kwargs, node):
                T.calls.append(('parse', I.prune(st, args[0]) if args else None, st.pc))
                return Opaque('tree')

            def frm(I, st, recv, args, kwargs, node):
                T.calls.append(('from', args[0], st.pc))
                o = I.construct(st, T.ci, [], {}, node)
                T.built = o
                T.fields0 = dict(I.cell(st, o).fields)
                return o
            I.stubs[('kiutils.utils.sexpr', 'parse_sexp')] = parse
            I.stubs[(key, 'from_sexpr')] = frm
            dead, v = False, None
            n = len(I.raises)
            try:
                v = I.call_func(st, fi, [T.ci, path], dict(encoding=enc))
            except Dead:
                dead = True
            check(T, path, enc, dead, v, n)
        attempt(T, name, f)
    N5 = 'loading a path that is not a file raises'

    def nofile(T, path, enc, dead, v, n):
        if dead or T.query(T.st.pc)[1] == 'unsat':
            T.add(N5, PROVED)
        else:
            T.add(N5, FAILED, 'returns normally', T.query(T.st.pc)[0])
    fromfile(N5, nofile, False)
    N6 = 'loading'

    def loads(T, path, enc, dead, v, n):
        I, st = T.I, T.st
        if dead:
            T.add(N6, FAILED, 'always raises', T.query(())[0])
            return
        T.norais(N6 + ': no exception', n)
        trs = []
        flat_trace(T, st.trace, st.pc, trs)
        E = Equiv(T)
        for ev, pc in trs:
            evs = [e for e in ev if e[0] != 'close']
            if [e[0] for e in evs] != ['open', 'read']:
                T.add(N6, FAILED if any(writes(e) for e in evs) else UNDEC, 'file operations: %s' % [e[0] for e in ev], T.query(pc)[0])
                return
            _, h, p, mode, kws = evs[0]
            kws = dict(kws)
            if not isinstance(mode, str) or mode.replace('t', '') != 'r' or any(k not in ('encoding', 'newline', 'errors') for k in kws) or \
                    I.prune(st, kws.get('newline')) is not None:
                T.add(N6, UNDEC, 'open arguments %r %s' % (mode, sorted(kws)))
                return
            if I.prune(st, kws.get('errors')) not in (None, 'strict'):
                T.add(N6 + ': undecodable content is not altered', FAILED, 'errors=%r' % (I.prune(st, kws.get('errors')),), T.query(pc)[0])
            T.prove(N6 + ': reads the given path', pc, E.eq(path, p, pc))
            T.prove(N6 + ': with the given encoding', pc, E.eq(enc, kws.get('encoding'), pc))
        ps = [c for c in T.calls if c[0] == 'parse']
        fs = [c for c in T.calls if c[0] == 'from']
        if len(ps) != 1 or len(fs) != 1:
            T.add(N6 + ': parses the content', UNDEC, repr(T.calls)[:100])
            return
        c = to_rope(ps[0][1]).segs
        wrap = D.table()[key].shape == 'seq'
        core = [s for s in c if isinstance(s, Hole)]
        lit = ''.join(s for s in c if isinstance(s, str))
        ok = len(core) == 1 and not core[0].ops and str(core[0].v.path).startswith('content:') and len(core) + sum(isinstance(s, str) for s in c) == len(c)
        ok = ok and (lit.split() == ['()'] or lit.replace(' ', '').replace('\n', '') == '()' if wrap else lit.strip() == '')
        T.add(N6 + ': parses the whole content', PROVED if ok else FAILED, repr(c)[:150], None if ok else T.query(st.pc)[0])
        a = I.prune(st, fs[0][1])
        T.add(N6 + ': the parsed tree is what is loaded', PROVED if isinstance(a, Opaque) and a.name == 'tree' else FAILED, repr(a)[:100], T.query(st.pc)[0])
        v = I.prune(st, v)
        ok = isinstance(v, Ref) and v.oid == T.built.oid
        T.add(N6 + ': the loaded object is returned', PROVED if ok else FAILED, repr(v)[:100], T.query(st.pc)[0])
        if ok:
            T.prove(N6 + ': filePath is the given path', st.pc, E.eq(path, I.getfield(st, v, 'filePath'), st.pc))
            ch = [m for m, x in I.cell(st, v).fields.items() if m != 'filePath' and not val_same(x, T.fields0.get(m))]
            T.add(N6 + ': nothing else of the loaded object is changed', PROVED if not ch else FAILED, 'assigns %s' % ch, T.query(st.pc)[0])
    fromfile(N6, loads, True)
    return out


# ------------------------------------------------------------------ new documents (C17)
STD_LAYERS = [(0, 'F.Cu', 'signal', None), (31, 'B.Cu', 'signal', None), (32, 'B.Adhes', 'user', 'B.Adhesive'), (33, 'F.Adhes', 'user', 'F.Adhesive'), (34, 'B.Paste', 'user', None),
              (35, 'F.Paste', 'user', None), (36, 'B.SilkS', 'user', 'B.Silkscreen'), (37, 'F.SilkS', 'user', 'F.Silkscreen'), (38, 'B.Mask', 'user', None), (39, 'F.Mask', 'user', None),
              (40, 'Dwgs.User', 'user', 'User.Drawings'), (41, 'Cmts.User', 'user', 'User.Comments'), (42, 'Eco1.User', 'user', 'User.Eco1'), (43, 'Eco2.User', 'user', 'User.Eco2'),
              (44, 'Edge.Cuts', 'user', None), (45, 'Margin', 'user', None), (46, 'B.CrtYd', 'user', 'B.Courtyard'), (47, 'F.CrtYd', 'user', 'F.Courtyard'), (48, 'B.Fab', 'user', None),
              (49, 'F.Fab', 'user', None)] + [(49 + i, 'User.%d' % i, 'user', None) for i in range(1, 10)]


class Arg:
    def __init__(self, n):
        self.n = n


def rows(path, names, vals):
    return [(path + '.#', len(vals))] + [('%s.%d.%s' % (path, i, n), x) for i, v in enumerate(vals) for n, x in zip(names, v)]


PROPN = ('key', 'value', 'id', 'effects.hide')
# class -> (arguments: name -> (domain type, default or ...), content)
CREATE = {
    'board.Board': ({}, rows('layers', ('ordinal', 'name', 'type', 'userName'), STD_LAYERS) + rows('nets', ('number', 'name'), [(0, '')])),
    'footprint.Footprint': ({'library_id': ('line', ...), 'value': ('text', ...), 'type': ('{smd,through_hole,other}', 'other'), 'reference': ('text', 'REF**')},
                            rows('graphicItems', ('type', 'text', 'layer'), [('reference', Arg('reference'), 'F.SilkS'), ('value', Arg('value'), 'F.Fab'), ('user', '${REFERENCE}', 'F.Fab')]) +
                            [('libId', Arg('library_id')), ('attributes.type', Arg('type'))]),
    'schematic.Schematic': ({}, rows('sheetInstances', ('instancePath', 'page'), [('/', '1')])),
    'symbol.Symbol': ({'id': ('line', ...), 'reference': ('text', ...), 'value': ('text', ...), 'footprint': ('text', ''), 'datasheet': ('text', '')},
                      rows('properties', PROPN, [('Reference', Arg('reference'), 0, False), ('Value', Arg('value'), 1, False), ('Footprint', Arg('footprint'), 2, True), ('Datasheet', Arg('datasheet'), 3, True)]) +
                      [('libId', Arg('id')), ('inBom', True), ('onBoard', True)]),
    'wks.WorkSheet': ({}, []),
    'dru.DesignRules': ({}, [('version', 1)]),
    'libraries.LibTable': ({'type': ('{fp_lib_table,sym_lib_table}', 'sym_lib_table')}, [('type', Arg('type'))]),
}


def create_content(key):
    args, content = CREATE[key]
    named = {p.split('.')[0] for p, _ in content}
    return args, content + [(n + '.#', 0) for n, t in D.table()[key].fields.items() if isinstance(t, (D.TList, D.TDict)) and n not in named]


def new_task(prog, key):
    """C17: create_new gives a complete, fresh, savable document with the arguments in their places."""
    args, content = create_content(key)
    out = []

    def begin():
        T = start(prog, key)
        T.w.re_assume, T.w.decomp = [], {}
        out.append(T)
        return T

    def create(full):
        T = begin()
        tag = '' if full else ' with default arguments'
        fi = method(T.ci, 'create_new') if T.ci else None
        N = 'create_new%s' % tag
        if fi is None:
            T.add(N, UNDEC, 'no create_new')
            return

        def f():
            I, st, w = T.I, T.st, T.w
            given = {}
            for n, (ty, dflt) in args.items():
                if full or dflt is ...:
                    given[n] = w.make(D._P(ty).type(), n)
            vals = {n: given.get(n, dflt) for n, (ty, dflt) in args.items()}
            try:
                o = I.call_func(st, fi, [T.ci], dict(given))
            except Dead:
                T.add(N + ': no exception', FAILED, 'always raises', T.query(())[0])
                return
            T.norais(N + ': no exception')
            o = I.prune(st, o)
            if not isinstance(o, Ref) or not isinstance(I.cell(st, o), HObj) or I.cell(st, o).cls is not T.ci:
                T.add(N + ': returns a %s' % T.ci.name, UNDEC, repr(o)[:100])
                return
            no_mutation(T, N + ': changes nothing else')
            fresh_ob(T, N + ': shares no state', o)
            if key == 'footprint.Footprint' and isinstance(I.getfield(st, o, 'tedit'), Opaque):
                # the time stamp computed when the class is defined: a hexadecimal number, taken to be a bare token (assumed)
                I.setfield(st, o, 'tedit', w.make(D.TBare(), 'tedit'))
            E = Equiv(T)

            def get(path):
                v = o
                for p in path.split('.'):
                    if p == '#':
                        return I.builtin_len(st, v) if hasattr(I, 'builtin_len') else len(I.items_of(st, I.prune(st, v)))
                    v = I.prune(st, v)
                    v = I.list_index(st, I.items_of(st, v), int(p), None) if p.isdigit() else I.getattr(st, v, p, None)
                return v
            for path, want in content:
                name = '%s: %s' % (N, path)
                if isinstance(want, Arg):
                    name = '%s: argument %s is stored in %s' % (N, want.n, path)
                    want = vals[want.n]
                    if path == 'attributes.type':
                        want = want if not isinstance(want, str) else (None if want == 'other' else want)
                        if not isinstance(want, (str, type(None))):
                            want = Ite(I.eq(st, want, 'other'), None, want)
                n = len(I.raises)
                try:
                    v = get(path)
                except Dead:
                    T.add(name, FAILED, 'missing', T.query(())[0])
                    return
                T.norais(name + ' exists', n)
                if path == 'libId' and not isinstance(want, str):
                    bad = reads_as(T, v, want)
                    T.add(name, FAILED if bad else PROVED, repr(bad)[:150], T.query(bad[0][1])[0] if bad else None)
                    if bad:
                        return
                    I.libid_alias = {o.oid: want}
                else:
                    T.prove(name, st.pc, E.eq(want, v, st.pc))
            fields = {f[0]: I.getfield(st, o, f[0]) for f in T.ci.fields()}
            ind, nl = sym_layout(T)
            n = len(I.raises)
            text = run_to(T, o, T.ci, ind, nl)
            T.norais(N + ': can be written', n)
            try:
                items = lexer.lex(I, st, text)
            except lexer.Unbalanced as u:
                T.add(N + ': text is balanced', FAILED, str(u), T.query(st.pc)[0])
                return
            if D.table()[key].shape == 'seq':
                node = lexer.Lexer(I, st).node(items)
            else:
                one, ok = single_list(T, items)
                if not ok:
                    T.add(N + ': text is one list', FAILED, repr(items)[:100], T.query(st.pc)[0])
                    return
                T.prove(N + ': text is one list', st.pc, one.g)
                node = res(one.v)
            n = len(I.raises)
            b = I.prune(st, I.call_func(st, method(T.ci, 'from_sexpr'), [T.ci, node], {}))
            T.norais(N + ': can be loaded again', n)
            for x, a in fields.items():
                if isinstance(D.table()[key].fields.get(x), D.TSkip) or x in D.table()[key].hints:
                    continue
                y = I.getfield(st, b, x)
                if x == 'version' and isinstance(a, str) and a.isdigit():
                    a = int(a)
                T.prove('%s: field %s survives saving and loading' % (N, x), st.pc, E.eq(a, y, st.pc))
        attempt(T, N, f)
    create(True)
    if any(d is not ... for _, d in args.values()):
        create(False)
    if key == 'footprint.Footprint':
        T = begin()
        N = 'create_new refuses unsupported footprint types'
        fi = method(T.ci, 'create_new') if T.ci else None
        if fi is not None:
            def f():
                I, st, w = T.I, T.st, T.w
                t = w.scalar('type', 'str', 'text')
                for x in ('smd', 'through_hole', 'other'):
                    w.ax(t.t != w.intern(x))
                try:
                    I.call_func(st, fi, [T.ci], dict(library_id=w.make(D.TLine(), 'library_id'), value=w.make(D.TText(), 'value'), type=t))
                except Dead:
                    T.add(N, PROVED)
                    return
                m, q = T.query(st.pc)
                T.add(N, PROVED if q == 'unsat' else FAILED if q == 'sat' else UNDEC, 'returns normally', m if q == 'sat' else None)
            attempt(T, N, f)
    return out
