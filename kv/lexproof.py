"""C12: contract of parse_sexp, discharged on its real text.

 1. Token recognition: lemmas about term_regex (kv/rx.py), for texts of any length.
 2. Tree building: the loop over the matches keeps the invariant
        (enclosing lists, current list) = result of folding the tokens read so far
    -- each token kind is run through the real loop body from an arbitrary state, and
    the induction step for a nested list runs '(' , <forest by induction hypothesis> , ')'.
 3. Texts: what is taken from a quoted token undoes the escaping done by dequote
    (composition of the two replacements is the identity: transducer exploration)."""
import ast, re, itertools, collections
import z3
from .values import *
from . import dom as D, rx
from .interp import Dead, res, MatchV, TokensV
from .pysrc import FuncInfo
from .oblig import *
from .oblig2 import attempt

NUM = r'[+-]?\d+\.\d+|-?\d+|[+-]?\d+(?:\.\d+)?e[+-]\d+'
ANY = r'[\s\S]*'
LEMMAS = [
    ('an opening bracket is recognised', 'brackl', dict(tok=r'\(', rest=ANY)),
    ('a closing bracket is recognised', 'brackr', dict(tok=r'\)', rest=ANY)),
    ('a number followed by white space or a bracket is one number token', 'num', dict(tok='(?:%s)' % NUM, rest=r'[\s()]' + ANY)),
    ('a quoted text with escaped quotes is one token ending at its closing quote', 'sq', dict(tok=r'"(?:[^"\\]|\\+[^"\\]|\\+")*"', rest=r'[\s)]' + ANY)),
    ('a bare word is one token up to the next blank or bracket', 's', dict(tok=r'[^\s()"][^\s()]*', rest=r'(?:[\s()]%s)?' % ANY, unless=NUM)),
]


# ------------------------------------------------------------------- replacements
def rep_step(p, r, buf, c):
    buf += c
    if buf == p:
        return '', r
    out = ''
    while buf and not p.startswith(buf):
        out += buf[0]
        buf = buf[1:]
    return buf, out


def ops_identity(ops):
    """Is the composition of the replacements the identity on all texts?  None or a counterexample."""
    for o in ops:
        if o[0] != 'rep' or not o[1]:
            raise Unsupported('text operation %r' % (o,))
    chars = sorted({c for o in ops for c in o[1] + o[2]})
    alpha = chars + [next(c for c in 'abcdefghijklmnopqrstuvwxyz' if c not in chars)]

    def feed(bufs, s):
        bufs = list(bufs)
        for k, o in enumerate(ops):
            out = ''
            for c in s:
                bufs[k], x = rep_step(o[1], o[2], bufs[k], c)
                out += x
            s = out
        return tuple(bufs), s

    def flush(bufs):
        bufs = list(bufs)
        total = ''
        for k in range(len(ops)):
            tail, bufs[k] = bufs[k], ''
            s = tail
            for j in range(k + 1, len(ops)):
                out = ''
                for c in s:
                    bufs[j], x = rep_step(ops[j][1], ops[j][2], bufs[j], c)
                    out += x
                s = out
            total += s
        return total
    s0 = (tuple('' for _ in ops), '')
    seen = {s0: ''}
    todo = collections.deque([s0])
    while todo:
        s = todo.popleft()
        bufs, lag = s
        if flush(bufs) != lag:
            return seen[s]
        for c in alpha:
            b2, out = feed(bufs, c)
            want = lag + c
            if not want.startswith(out):
                return seen[s] + c
            n = (b2, want[len(out):])
            if len(n[1]) > 30:
                raise Unsupported('replacement lag')
            if n not in seen:
                seen[n] = seen[s] + c
                todo.append(n)
    return None


# ---------------------------------------------------------------------- the loop
class Rep:
    """How the loop state represents (enclosing lists, current list)."""

    def __init__(self, kind, names):
        self.kind, self.names = kind, names

    def put(self, I, st, S, O):
        """S: items, O: Ref"""
        if self.kind == 'two':
            st.locals[self.names[0]] = I.alloc(st, HList(S))
            st.locals[self.names[1]] = O
        else:
            st.locals[self.names[0]] = I.alloc(st, HList(list(S) + [GOne(True, O)]))

    def get(self, I, st):
        def lst(n):
            v = I.prune(st, st.locals.get(n))
            if not isinstance(v, Ref) or not isinstance(I.cell(st, v), HList):
                raise Unsupported('loop state')
            return v
        if self.kind == 'two':
            return list(I.items_of(st, lst(self.names[0]))), lst(self.names[1])
        its = list(I.items_of(st, lst(self.names[0])))
        if not its or not isinstance(its[-1], GOne) or its[-1].g is not True:
            raise Unsupported('loop state')
        return its[:-1], res(its[-1].v)


def same_items(a, b):
    return len(a) == len(b) and all(g_same(x, y) for x, y in zip(a, b))


class Wrong(Exception):
    pass


def star(T, name):
    n, i = z3.Int(name + '#'), z3.Int(name + '@')
    T.w.ax(n >= 0)
    T.w.ax(i >= 0)
    src = StarSrc(name, n, i, lambda p: Opaque('entry:' + name))
    return GStar(True, src, (GOne(True, src.elem),))


def assigned(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    return out


class Loop:
    def __init__(self, T, mode, names, record):
        self.T, self.mode, self.names, self.record = T, mode, names, record

    def token(self, kind, value):
        ids = {n: i + 1 for i, n in enumerate(self.names)}
        g = {ids[n]: (value if n == kind else None) for n in ids}
        m = MatchV('tokens', None, g)
        m.named = {v: k for k, v in ids.items()}
        m.last = kind
        return m

    def reps(self, st):
        empty = [n for n, v in st.locals.items() if isinstance(res(v), Ref) and isinstance(self.T.I.cell(st, res(v)), HList) and tuple(self.T.I.items_of(st, res(v))) == ()]
        out = [Rep('two', (a, b)) for a, b in itertools.permutations(empty, 2) if res(st.locals[a]).oid != res(st.locals[b]).oid]
        for n, v in st.locals.items():
            v = res(v)
            if isinstance(v, Ref) and isinstance(self.T.I.cell(st, v), HList):
                its = list(self.T.I.items_of(st, v))
                if len(its) == 1 and isinstance(its[0], GOne) and isinstance(res(its[0].v), Ref) and isinstance(self.T.I.cell(st, res(its[0].v)), HList) \
                        and tuple(self.T.I.items_of(st, res(its[0].v))) == ():
                    out.append(Rep('one', (n,)))
        return out

    def __call__(self, node, st, tv):
        if node.orelse:
            raise Unsupported('else of the token loop')
        self.node, self.entry = node, st
        reps = self.reps(st)
        if not reps:
            raise Unsupported('loop state not recognised')
        best = None
        for r in reps:
            res_ = self.steps(r)
            if best is None or sum(s == PROVED for _, s, _ in res_) > sum(s == PROVED for _, s, _ in best[1]):
                best = (r, res_)
        if self.record:
            good = sum(s == PROVED for _, s, _ in best[1])
            if good < 5:
                self.T.w.approx.append('the loop invariant is a candidate')
            for n, s, d in best[1]:
                self.T.add(n, s, d, {} if s == FAILED else None)
        return self.after(best[0])

    def start(self, rep, S, O):
        I = self.T.I
        st = I.fork(self.entry, True)
        for n in assigned(self.node.body) | assigned([self.node]):
            if n not in rep.names:
                st.locals[n] = Poison('loop variable')
        o = I.alloc(st, HList(O))
        rep.put(I, st, S, o)
        return st, o

    def run(self, st, tok):
        br = []
        heap = dict(st.heap)
        r = self.T.I.one_iter(self.node, st, tok, br)
        if br:
            raise Unsupported('break in the token loop')
        return r

    def steps(self, rep):
        T, I = self.T, self.T.I
        S0, O0, P0, F0 = star(T, 'S'), star(T, 'O'), star(T, 'P'), star(T, 'F')
        x = T.w.scalar('x', 'str', 'text')
        n = T.w.scalar('n', 'num', 'num')
        b = T.w.scalar('b', 'str', 'bare')
        out = []

        def ob(name, f):
            k = len(I.raises)
            try:
                d = f()
                out.append((name, PROVED, '') if d is None else (name, FAILED, d))
            except Wrong as e:
                out.append((name, FAILED, str(e)))
            except Dead:
                out.append((name, FAILED, 'no normal path: %s' % [(e, l) for _, e, l, _ in I.raises[k:]][:2]))
            except Unsupported as e:
                out.append((name, UNDEC, 'unsupported: %s' % e))
            del I.raises[k:]

        def noraise(k, pcof):
            for (s, exc, line, info) in I.raises[k:]:
                if T.query(s.pc)[1] != 'unsat':
                    raise Wrong('%s at line %s %s' % (exc, line, info))

        def frame(before, st, mine):
            for oid, c in before.items():
                if oid in mine:
                    continue
                c2 = st.heap.get(oid)
                if c2 is not c:
                    raise Wrong('changes %s' % (oid,))

        def opening():
            st, o = self.start(rep, [S0], [O0])
            before = dict(st.heap)
            k = len(I.raises)
            r = self.run(st, self.token('brackl', '('))
            noraise(k, r)
            S, O = rep.get(I, r)
            if not (same_items(S, [S0, GOne(True, o)]) and tuple(I.items_of(r, O)) == () and O.oid != o.oid and same_items(list(I.items_of(r, o)), [O0])):
                return 'state after the token: %r %r' % (S, list(I.items_of(r, O)))
            frame(before, r, {res(st_v).oid for st_v in self.entry.locals.values() if isinstance(res(st_v), Ref)} | self.own(r, rep, before))
        ob('an opening bracket starts a new list inside the current one', opening)

        def closing():
            st, o = self.start(rep, [S0, GOne(True, Ref('P!'))], [O0])
            st.heap['P!'] = HList([P0])
            k = len(I.raises)
            before = dict(st.heap)
            r = self.run(st, self.token('brackr', ')'))
            noraise(k, r)
            S, O = rep.get(I, r)
            if not (same_items(S, [S0]) and O.oid == 'P!' and same_items(list(I.items_of(r, O)), [P0, GOne(True, o)]) and same_items(list(I.items_of(r, o)), [O0])):
                return 'state after the token: %r %r' % (S, list(I.items_of(r, O)))
        ob('a closing bracket appends the finished list to the enclosing one', closing)

        def surplus():
            st, o = self.start(rep, [], [O0])
            try:
                r = self.run(st, self.token('brackr', ')'))
            except Dead:
                return None
            if r is None or T.query(r.pc)[1] == 'unsat':
                return None
            return 'accepted'
        ob('a closing bracket without an opening one raises', surplus)

        def atom(kind, value, good):
            def f():
                st, o = self.start(rep, [S0], [O0])
                k = len(I.raises)
                r = self.run(st, self.token(kind, value))
                noraise(k, r)
                S, O = rep.get(I, r)
                its = list(I.items_of(r, O))
                if not (same_items(S, [S0]) and O.oid == o.oid and len(its) == 2 and g_same(its[0], O0) and isinstance(its[1], GOne) and its[1].g is True):
                    return 'state after the token: %r %r' % (S, its)
                return good(r, res(its[1].v))
            return f

        def isnum(r, v):
            pc = r.pc

            def leaf(v, pc):
                v = res(v)
                if isinstance(v, Ite):
                    return leaf(v.a, pc + (v.c,)) or leaf(v.b, pc + (Not_(v.c),))
                if T.query(pc)[1] == 'unsat':
                    return None
                if not (isinstance(v, Sc) and v.kind in ('num', 'int')):
                    return 'value %r' % (v,)
                t = z3.ToReal(v.t) if z3.is_int(v.t) else v.t
                if T.query(pc + (t != n.t,))[1] != 'unsat':
                    return 'another number'
                if not z3.is_int(v.t) and v.kind != 'int' and T.query(pc + (z3.IsInt(n.t),))[1] != 'unsat':
                    return 'a whole number is not read as int'
                return None
            return leaf(v, pc)
        ob('a number token adds its value', atom('num', Rope([Hole(n)]), isnum))

        def istext(r, v):
            v = I.prune(r, v)
            if isinstance(v, Sc) and v is x:
                return None
            if isinstance(v, Rope) and len(v.segs) == 1 and isinstance(v.segs[0], Hole) and v.segs[0].v is x:
                w = ops_identity(v.segs[0].ops)
                return None if w is None else 'the text %r comes out changed' % w
            return 'value %r' % (v,)
        ob('a quoted token adds the text that was escaped', atom('sq', Rope(['"', Hole(x, (('rep', '"', '\\"'),)), '"']), istext))

        def isword(r, v):
            v = I.prune(r, v)
            if isinstance(v, Sc) and v is b or isinstance(v, Rope) and rope_same(v, Rope([Hole(b)])):
                return None
            return 'value %r' % (v,)
        ob('a bare word adds itself', atom('s', b, isword))

        def nested():
            st, o = self.start(rep, [S0], [O0])
            r = self.run(st, self.token('brackl', '('))
            S, O = rep.get(I, r)
            # induction hypothesis: the tokens of a forest F append F to the current list
            r.heap[O.oid] = HList(list(I.items_of(r, O)) + [F0], I.cell(r, O).origin, None)
            for v in assigned(self.node.body) | assigned([self.node]):
                if v not in rep.names:
                    r.locals[v] = Poison('loop variable')
            r = self.run(r, self.token('brackr', ')'))
            S, O = rep.get(I, r)
            its = list(I.items_of(r, O))
            if not (same_items(S, [S0]) and O.oid == o.oid and len(its) == 2 and g_same(its[0], O0) and isinstance(its[1], GOne)):
                return 'state after the list: %r %r' % (S, its)
            inner = res(its[1].v)
            if not isinstance(inner, Ref) or not same_items(list(I.items_of(r, inner)), [F0]):
                return 'inner list'
        ob('induction step: a bracketed forest appends exactly that list', nested)
        return out

    def own(self, st, rep, before):
        return {res(st.locals[n]).oid for n in rep.names if isinstance(res(st.locals.get(n)), Ref)} | {oid for oid in before if isinstance(before[oid], HList)}

    def after(self, rep):
        T, I = self.T, self.T.I
        F = star(T, 'T')
        st, o = self.start(rep, {'one': [], 'none': [], 'open': [star(T, 'S2'), GOne(True, Ref('P2!'))]}[self.mode],
                           {'one': [GOne(True, Ref('T!'))], 'none': [], 'open': [star(T, 'O2')]}[self.mode])
        st.heap['T!'] = HList([F])
        st.heap['P2!'] = HList([star(T, 'P2')])
        return st


def lex_task(prog, key):
    out = []
    mod = prog.module('kiutils.utils.sexpr')
    f = mod.resolve('parse_sexp') if mod else None
    pats = []

    def begin():
        T = Task(prog, 'utils.sexpr.parse_sexp')
        out.append(T)
        return T

    def fi():
        d = mod.resolve('parse_sexp')
        d = d if isinstance(d, FuncInfo) else FuncInfo(d, mod)
        return d
    for mode, name in (('one', 'the list that was read is returned'), ('open', 'an unclosed bracket raises'), ('none', 'a text without an expression raises')):
        T = begin()

        def g():
            names = ['brackl', 'brackr', 'num', 'sq', 's']

            def hook(node, st, tv):
                pats.append(tv.pat)
                try:
                    gd = re.compile(tv.pat).groupindex
                except re.error as e:
                    raise Unsupported('regular expression: %s' % e)
                if set(gd) != set(names):
                    raise Unsupported('token groups %s' % sorted(gd))
                order = sorted(gd, key=gd.get)
                return Loop(T, mode, order, mode == 'one')(node, st, tv)
            T.I.on_tokens = hook
            x = T.w.scalar('sexp', 'str', 'text')
            try:
                v = T.I.call_func(T.st, fi(), [x], {})
            except Dead:
                if mode == 'one':
                    T.add(name, FAILED, 'raises')
                    T.w.approx.append('loop invariant')
                else:
                    T.add(name, PROVED)
                return
            if mode == 'one':
                bad = [r for r in T.I.raises if T.query(r[0].pc)[1] != 'unsat']
                v = T.I.prune(T.st, v)
                ok = not bad and isinstance(v, Ref) and v.oid == 'T!'
                T.add(name, PROVED if ok else FAILED, '' if ok else 'returns %r %s' % (v, bad[:1]))
            else:
                q = T.query(T.st.pc)[1]
                T.add(name, PROVED if q == 'unsat' else FAILED, 'returns normally')
            if T.obs[-1].status == FAILED:
                T.w.approx.append('loop invariant')
        attempt(T, name, g)
    T = begin()
    # the pattern
    if not pats:
        T.add('token recognition', UNDEC, 'no re.finditer loop found')
        return out

    def h():
        P = rx.Prog(pats[0])
        srcs = set(P.sets())
        L = [rx.Lemma(n, g, **kw) for n, g, kw in LEMMAS] + [rx.Lemma('trailing white space holds no token', None, r'', r'')]
        A = rx.Alphabet(srcs | {r'[\s)]', r'[\s()]'} | set().union(*[con_sets(l) for l in L]))
        for l in L:
            try:
                s, d = rx.decide(P, l, alphabet=A)
            except Unsupported as e:
                T.add(l.name, UNDEC, str(e))
                continue
            T.w.queries += 1
            if s == 'proved':
                T.add(l.name, PROVED)
            else:
                T.w.approx.append('the text after the token is arbitrary')
                T.add(l.name, FAILED, 'for the text %r' % (d,), {})
                T.obs[-1].extra = dict(texts=witness(d, l.group))
    attempt(T, 'token recognition', h)
    return out


def witness(text, group):
    """well-formed texts around a token for which a lemma failed"""
    m = re.match(r'(?s)(\s*)("(?:[^"\\]|\\+[^"\\]|\\+")*"|[()]|[^\s()]+)', text)
    if not m or group in ('brackl', 'brackr'):
        return []
    t = m.group(2)
    if group == 'num':
        f = float(t)
        v = int(f) if f.is_integer() else f
    elif group == 'sq':
        v = t[1:-1].replace('\\"', '"')
    else:
        v = t
    nxt = text[m.end():m.end() + 1]
    out = [['(h %s)' % t, ['h', v]], ['(h %s x "y" 1)' % t, ['h', v, 'x', 'y', 1]]]
    if nxt and nxt.isspace():
        out += [['(h %s%s)' % (t, nxt), ['h', v]], ['(h %s%s1 x)' % (t, nxt), ['h', v, 1, 'x']], ['(h%s%s%s"a")' % (m.group(1) or ' ', t, nxt), ['h', v, 'a']]]
    if nxt == '(' and group == 's':
        out += [['(h %s(a))' % t, ['h', v, ['a']]]]
    return out


def con_sets(l):
    s = rx.Prog('(?:%s)(?:%s)(?:%s)' % (l.ws, l.tok, l.rest), dotall=True).sets()
    if l.unless:
        s |= rx.Prog(l.unless).sets()
    return s
