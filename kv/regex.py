"""re.match on symbolic text: decided with z3's string theory.

Supported patterns: ^ pieces $ where a piece is a literal or a group of one repeated
character class.  The groups reported are those of the first match in backtracking
order; that the candidate is first is itself discharged as a query."""
import re, time
import z3
from . import cross
try:
    import re._parser as sp
    import re._constants as sc
except ImportError:
    import sre_parse as sp
    import sre_constants as sc
from .values import *

NL = '\n'
ANYC = z3.AllChar(z3.ReSort(z3.StringSort()))


def notin(chars):
    r = ANYC
    for c in chars:
        r = z3.Intersect(r, z3.Complement(z3.Re(c)))
    return r


DIGIT = z3.Range('0', '9')


class Piece:
    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)


def pieces(pat):
    t = list(sp.parse(pat))
    out, end, begin = [], False, True       # re.match anchors at the start
    for op, av in t:
        if op is sc.AT and av is sc.AT_BEGINNING and not out:
            continue
        if op is sc.AT and av in (sc.AT_END, sc.AT_END_STRING):
            end = True
            continue
        if end:
            raise Unsupported('regular expression %r' % pat)
        if op is sc.LITERAL:
            out.append(Piece('lit', text=chr(av)))
        elif op is sc.SUBPATTERN:
            gid, _, _, body = av
            body = list(body)
            if gid is None or len(body) != 1:
                raise Unsupported('regular expression %r' % pat)
            o, a = body[0]
            if o not in (sc.MIN_REPEAT, sc.MAX_REPEAT):
                raise Unsupported('regular expression %r' % pat)
            lo, hi, it = a
            it = list(it)
            if hi is not sc.MAXREPEAT or lo not in (0, 1) or len(it) != 1:
                raise Unsupported('regular expression %r' % pat)
            io, ia = it[0]
            if io is sc.ANY:
                c = notin(NL)
            elif io is sc.IN and ia == [(sc.CATEGORY, sc.CATEGORY_DIGIT)]:
                c = DIGIT
            elif io is sc.IN and ia[0][0] is sc.NEGATE and all(x[0] is sc.LITERAL for x in ia[1:]):
                c = notin([chr(x[1]) for x in ia[1:]])
            elif io is sc.NOT_LITERAL:
                c = notin([chr(ia)])
            else:
                raise Unsupported('regular expression %r' % pat)
            out.append(Piece('grp', id=gid, lo=lo, re=z3.Plus(c) if lo else z3.Star(c), lazy=o is sc.MIN_REPEAT, digit=io is sc.IN))
        else:
            raise Unsupported('regular expression %r' % pat)
    if not end:
        raise Unsupported('regular expression %r' % pat)
    return out


def seg_term(w, s, cons):
    if isinstance(s, str):
        return z3.StringVal(s)
    if isinstance(s, Hole) and not s.ops:
        v = s.v
        name = '$' + (v.path or str(v.t))
        x = z3.String(name)
        if v.kind == 'str':
            if v.dom == 'word':
                cons.append(z3.InRe(x, z3.Plus(notin([':', NL]))))
            elif v.dom == 'line':
                cons.append(z3.InRe(x, z3.Plus(notin([NL]))))
            else:
                cons.append(z3.InRe(x, z3.Star(notin([NL]))))
            return x
        ty = w.syms.get(v.path, (None, None, None))[2]
        if ty is not None and getattr(ty, 'nat', False):
            cons.append(z3.InRe(x, z3.Plus(DIGIT)))
            return x
    raise Unsupported('regular expression on %r' % (s,))


def chk(w, cons):
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(*cons)
    t0 = time.time()
    r = s.check()
    w.queries += 1
    w.solver_s += time.time() - t0
    if r == z3.unsat:
        cross.rec(w.no_axioms, 0, cons)
    return str(r)


def match(I, st, pat, subj):
    """-> MatchV, None, or (bool, MatchV) for 'depends on the text'"""
    from .interp import MatchV
    w = I.w
    ps = pieces(pat)
    segs = [s for s in to_rope(subj).segs if s != '']
    cons = []
    terms = [seg_term(w, s, cons) for s in segs]
    S = z3.Concat(*terms) if len(terms) > 1 else terms[0] if terms else z3.StringVal('')
    for f in getattr(w, 're_assume', ()):
        cons += f(segs, S)
    R = z3.Concat(*[z3.Re(p.text) if p.kind == 'lit' else p.re for p in ps]) if len(ps) > 1 else ps[0].re
    may = chk(w, cons + [z3.InRe(S, R)])
    if may == 'unsat':
        return None
    no = chk(w, cons + [z3.Not(z3.InRe(S, R))])
    if may == 'sat' and no == 'sat':
        # depends on the text: name the groups
        if len(segs) != 1 or not isinstance(segs[0], Hole):
            raise Unsupported('match depends on part of the text')
        path = segs[0].v.path
        gs, rope = {}, []
        for p in ps:
            if p.kind == 'lit':
                rope.append(p.text)
                continue
            n = '%s/%s/%d' % (path, pat, p.id)
            if p.digit:
                from . import dom as D
                v = w.make(D.TNum(int_=True, nat=True), n)
            else:
                v = w.scalar(n, 'str', 'line')
                if p.lo:
                    w.ax(v.t != w.intern(''))
            gs[p.id] = rope_value(Rope([Hole(v)]))
            rope.append(Hole(v))
        rr = []
        for x in rope:
            if isinstance(x, str) and rr and isinstance(rr[-1], str):
                rr[-1] += x
            else:
                rr.append(x)
        w.decomp.setdefault(path, []).append((pat, Rope(rr)))
        return z3.Bool('match:%s:%s' % (path, pat)), MatchV(pat, subj, gs)
    if no != 'unsat':
        raise Unsupported('string solver: %s/%s' % (may, no))
    # always matches: find the grouping in backtracking order
    flat = []
    for s in segs:
        flat.extend(s) if isinstance(s, str) else flat.append(s)

    def align(i, j):
        if i == len(ps):
            if j == len(flat):
                yield {}
            return
        p = ps[i]
        if p.kind == 'lit':
            if j < len(flat) and flat[j] == p.text:
                yield from align(i + 1, j + 1)
            return
        order = range(j + 1, len(flat) + 1)
        for k in (order if p.lazy else reversed(order)):
            for r in align(i + 1, k):
                yield {**r, p.id: (j, k)}
    cand = next(align(0, 0), None)
    if cand is None:
        raise Unsupported('no grouping found')

    def t_of(a, b):
        ts = [seg_term(w, x, cons) for x in flat[a:b]]
        return z3.Concat(*ts) if len(ts) > 1 else ts[0]
    G = {p.id: t_of(*cand[p.id]) for p in ps if p.kind == 'grp'}
    for p in ps:
        if p.kind == 'grp' and chk(w, cons + [z3.Not(z3.InRe(G[p.id], p.re))]) != 'unsat':
            raise Unsupported('grouping not established')
    # no other boundary comes first: the boundary of each group in turn may not lie elsewhere
    for q, p in enumerate(ps):
        if p.kind != 'grp':
            continue
        a, b = cand[p.id]
        Rr = [z3.Re(x.text) if x.kind == 'lit' else x.re for x in ps[q + 1:]]
        Rrest = z3.Concat(*Rr) if len(Rr) > 1 else Rr[0] if Rr else z3.Re('')
        rng = range(a, b) if p.lazy else range(b, len(flat))
        for k in rng:
            # boundary inside (or at the edge of) segment k
            extra = []
            if isinstance(flat[k], str):
                cuts = [(flat[a:k], flat[k:])] if p.lazy else [(flat[a:k + 1], flat[k + 1:])]
                pre, post = [[seg_term(w, x, extra) for x in c] for c in cuts[0]]
            else:
                u, v = z3.String('cut:u'), z3.String('cut:v')
                whole = seg_term(w, flat[k], extra)
                extra = [z3.substitute(c, (whole, z3.Concat(u, v))) for c in cons + extra]
                extra.append(z3.Length(v if p.lazy else u) > 0)
                pre = [seg_term(w, x, []) for x in flat[a:k]] + [u]
                post = [v] + [seg_term(w, x, []) for x in flat[k + 1:]]
                if not isinstance(whole, z3.SeqRef) or any(whole.eq(x) for x in pre + post):
                    raise Unsupported('repeated text in a matched text')

            def catz(xs):
                return z3.Concat(*xs) if len(xs) > 1 else xs[0] if xs else z3.StringVal('')
            r = chk(w, (extra if not isinstance(flat[k], str) else cons + extra) + [z3.InRe(catz(pre), p.re), z3.InRe(catz(post), Rrest)])
            if r != 'unsat':
                raise Unsupported('grouping not first in order (%s)' % r)
    return MatchV(pat, subj, {g: rope_value(Rope(flat[a:b])) for g, (a, b) in cand.items()})
