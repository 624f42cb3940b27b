"""Contract of parse_sexp applied to a rope: the guarded tree it denotes.

Lexical rules (the lexer contract, proved about utils/sexpr.py in lexproof.py):
 L1  '(' and ')' outside quotes open/close a list
 L2  '"' w '"' followed by whitespace or ')' where every '"' in w is preceded by a
     backslash and w does not end in a backslash: one text atom, \\" -> "
 L3  decimal number followed by white space, '(' or ')': a number atom
 L4  other maximal run of characters outside ( ) and whitespace: a text atom
"""
import re, z3
from .values import *

NUM = re.compile(r'[+-]?\d+\.\d+|-?\d+|[+-]?\d+(?:\.\d+)?e[+-]\d+')


class Unbal(Exception):
    def __init__(self, kind, info=None):
        self.kind, self.info = kind, info
        self.pc = ()


class Q:            # a quote character
    def __repr__(self):
        return 'Q'


QUOTE = Q()


class Txt(str):
    pass


class WS(str):
    pass


class Par(str):
    pass


OPEN, CLOSE = Par('('), Par(')')
ENDS = {'ws', ')', 'end'}


def micro(segs):
    out = []
    for s in segs:
        if isinstance(s, str):
            for m in re.finditer(r'\s+|\(|\)|"|\\"|[^\s()"\\]+|\\', s):
                g = m.group(0)
                if g == '(':
                    out.append(OPEN)
                elif g == ')':
                    out.append(CLOSE)
                elif g == '"':
                    out.append(QUOTE)
                elif g.isspace():
                    out.append(WS(g))
                else:
                    out.append(Txt(g))
        else:
            out.append(s)
    return out


class Lexer:
    def __init__(self, I, st):
        self.I, self.st, self.w = I, st, I.w

    def node(self, items, sub=None):
        k = ('t', next(self.w.fresh))
        self.w.cells[k] = HList(items, 'input', sub)
        return Ref(k)

    def err(self, pc, cond, why):
        """parse would not see the intended structure under cond"""
        s = self.st.copy()
        s.pc = s.pc + tuple(pc)
        if self.w.sat(*(s.pc + (cond,))):
            s2 = self.I.fork(s, cond)
            self.I.raises.append((s2, 'LexError', 0, why))
            self.st.pc = self.st.pc + (z3.Implies(_z(And_(*pc)), _z(Not_(cond))),)

    def quote(self, v):
        """the text contains a double quote"""
        b = z3.Bool((v.path or str(v.t)) + '!quote')
        if '"' in self.w.needles:
            self.w.ax(b == self.w.has('"', v.t))
        return b

    # FIRST classes
    def first(self, segs, k=0):
        out = set()
        i = k
        while i < len(segs):
            s = segs[i]
            if isinstance(s, WS):
                out.add('ws')
                return out
            if s is OPEN or s == '(' and isinstance(s, Par):
                out.add('(')
                return out
            if isinstance(s, Par):
                out.add(')')
                return out
            if s is QUOTE:
                out.add('q')
                return out
            if isinstance(s, Txt):
                out.add('x')
                return out
            if isinstance(s, Hole):
                out.add('x')
                return out
            if isinstance(s, RSp):
                out.add('ws')
                i += 1
                continue
            if isinstance(s, RIte):
                a = self.first(micro(s.a.segs))
                b = self.first(micro(s.b.segs))
                out |= (a | b) - {'end'}
                if 'end' not in a and 'end' not in b:
                    return out
                i += 1
                continue
            if isinstance(s, RStar):
                out |= self.first(micro(s.body.segs)) - {'end'}
                i += 1
                continue
            if isinstance(s, RSub):
                out |= {'(', 'ws'}
                if self.sub_optional(s):
                    i += 1
                    continue
                return out
            raise Unsupported('first of %r' % (s,))
        out.add('end')
        return out

    def sub_optional(self, s):
        from . import dom as D
        t = D.table().get(D.key_of(s.cls))
        return t is None or t.shape == 'optlist'

    def follow(self, segs, k, follow):
        f = self.first(segs, k)
        if 'end' in f:
            f = (f - {'end'}) | follow
        return f

    def cases(self, segs, follow, pc, left=None):
        """seq, by cases on the conditions in the text where needed, until each case is balanced or certainly not"""
        left = left or [64]
        mark = len(self.I.raises), self.st.pc
        try:
            return self.seq(segs, follow, pc)
        except Unbal as u:
            err = u
        if err.kind == 'mid' and isinstance(err.info, str):
            raise err
        for k, s in enumerate(segs):
            if isinstance(s, RIte):
                left[0] -= 1
                if left[0] < 0:
                    raise Unsupported('text balance (too many cases)')
                del self.I.raises[mark[0]:]
                self.st.pc = mark[1]
                out = []
                for c, r in ((s.c, s.a), (Not_(s.c), s.b)):
                    if self.w.sat(*(self.st.pc + pc + (c,))):
                        out += [g_guard(c, x) for x in self.cases(segs[:k] + micro(r.segs) + segs[k + 1:], follow, pc + (c,), left)]
                return out
        err.pc = pc
        raise err

    def seq(self, segs, follow, pc):
        """Lex a balanced sequence of micro segments."""
        segs = list(segs)
        stack = []          # open lists: item lists
        cur = []
        i = 0
        while i < len(segs):
            s = segs[i]
            if isinstance(s, (WS, RSp)):
                i += 1
                continue
            if isinstance(s, Par):
                if s == '(':
                    stack.append(cur)
                    cur = []
                else:
                    if not stack:
                        raise Unbal('neg', (segs[:i], segs[i + 1:]))
                    n = self.node(cur)
                    cur = stack.pop()
                    cur.append(GOne(True, n))
                i += 1
                continue
            if s is QUOTE:
                pieces, j = self.quoted(segs, i + 1, pc)
                if j is None:
                    raise Unbal('mid', i)
                fol = self.follow(segs, j, follow)
                if not fol <= ENDS:
                    if fol & {'ws', ')'} and j < len(segs) and isinstance(segs[j], (RIte,)):
                        r = segs[j]
                        pre = Rope(['"'] + _raw(segs[i + 1:j - 1]) + ['"'])
                        segs[i:j + 1] = [RIte(r.c, Rope(pre.segs + r.a.segs), Rope(pre.segs + r.b.segs))]
                        continue
                    if j >= len(segs):
                        raise Unbal('mid', 'quoted text followed by %s' % sorted(fol))
                    self.err(pc, True, 'quoted text directly followed by %s' % sorted(fol))
                    raise Unsupported('quoted text followed by %s' % sorted(fol))
                cur.append(GOne(True, self.text_value(pieces, pc)))
                i = j
                continue
            if isinstance(s, (Txt, Hole)):
                j = i
                while j < len(segs) and isinstance(segs[j], (Txt, Hole)):
                    j += 1
                fol = self.follow(segs, j, follow)
                if j < len(segs) and isinstance(segs[j], (RIte, RStar, RSub)) and not fol <= ENDS:
                    if isinstance(segs[j], RIte):
                        r = segs[j]
                        pre = _raw(segs[i:j])
                        segs[i:j + 1] = [RIte(r.c, Rope(pre + list(r.a.segs)), Rope(pre + list(r.b.segs)))]
                        continue
                    if not fol <= ENDS | {'('}:
                        raise Unsupported('atom boundary')
                if 'q' in fol or 'x' in fol:
                    raise Unbal('mid', i)
                cur.append(GOne(True, self.bare_value(segs[i:j], fol, pc)))
                i = j
                continue
            if isinstance(s, RSub):
                cur.extend(self.sub(s, pc))
                i += 1
                continue
            if isinstance(s, RStar):
                body = micro(s.body.segs)
                fol = {'ws'} if s.sep and s.sep.isspace() else self.first(body)
                fol = (fol - {'end'}) | self.follow(segs, i + 1, follow)
                if s.sep and not s.sep.isspace():
                    raise Unsupported('separator %r' % s.sep)
                try:
                    its = self.cases(body, fol, pc + (s.src.n > 0, ))
                except Unbal as u:
                    if u.kind == 'mid' and isinstance(u.info, str):
                        self.err(pc + (s.src.n > 0, ), True, u.info)
                        raise Unsupported(u.info)
                    raise
                cur.append(GStar(True, s.src, its))
                i += 1
                continue
            if isinstance(s, RIte):
                ok_a = self.w.sat(*(self.st.pc + tuple(pc) + (s.c,)))
                ok_b = self.w.sat(*(self.st.pc + tuple(pc) + (Not_(s.c),)))
                if not ok_b:
                    segs[i:i + 1] = micro(s.a.segs)
                    continue
                if not ok_a:
                    segs[i:i + 1] = micro(s.b.segs)
                    continue
                a, b = micro(s.a.segs), micro(s.b.segs)
                while True:
                    rest = i + 1
                    fol = self.follow(segs, rest, follow)
                    ua = ub = None
                    ra = rb = None
                    try:
                        ra = self.seq(a, fol, pc + (s.c,))
                    except Unbal as u:
                        ua = u
                    try:
                        rb = self.seq(b, fol, pc + (Not_(s.c),))
                    except Unbal as u:
                        ub = u
                    if ua is None and ub is None:
                        cur.extend(g_guard(s.c, x) for x in ra)
                        cur.extend(g_guard(Not_(s.c), x) for x in rb)
                        del segs[i]
                        break
                    if ua is not None and ub is not None and ua.kind == 'neg' and ub.kind == 'neg':
                        new = []
                        x1, x2 = ua.info
                        y1, y2 = ub.info
                        if x1 or y1:
                            new.append(RIte(s.c, Rope(_raw(x1)), Rope(_raw(y1))))
                        new.append(CLOSE)
                        if x2 or y2:
                            new.append(RIte(s.c, Rope(_raw(x2)), Rope(_raw(y2))))
                        segs[i:i + 1] = new
                        break
                    if rest >= len(segs):
                        # push the problem to the caller
                        for u in (ua, ub):
                            if u is not None:
                                raise Unbal('ite', i)
                    nxt = segs[rest]
                    a.append(nxt)
                    b.append(nxt)
                    del segs[rest]
                continue
            raise Unsupported('lex %r' % (s,))
        if stack:
            raise Unbal('pos')
        return cur

    def quoted(self, segs, i, pc):
        """collect pieces until the closing quote; returns (pieces, index after) or (.., None)"""
        pieces = []
        while i < len(segs):
            s = segs[i]
            if s is QUOTE:
                if pieces and isinstance(pieces[-1], str) and pieces[-1].endswith('\\'):
                    pieces.append('"')
                    i += 1
                    continue
                return pieces, i + 1
            if isinstance(s, str):
                pieces.append(str(s))
            elif isinstance(s, (Hole, RSp, RStar, RSub)):
                pieces.append(s)
            elif isinstance(s, RIte):
                ma, mb = micro(s.a.segs), micro(s.b.segs)
                if QUOTE in ma or QUOTE in mb:
                    raise Unsupported('quote inside conditional text')
                pieces.append(s)
            else:
                raise Unsupported('quoted %r' % (s,))
            i += 1
        return pieces, None

    def text_value(self, pieces, pc):
        out = []
        for p in pieces:
            out.extend(self.text_piece(p, pc))
        # coalesce, unescape literals
        lit = []
        for p in out:
            if isinstance(p, str) and lit and isinstance(lit[-1], str):
                lit[-1] += p
            else:
                lit.append(p)
        lit = [p.replace('\\"', '"') if isinstance(p, str) else p for p in lit]
        return rope_value(Rope(lit))

    def text_piece(self, p, pc):
        if isinstance(p, str):
            return [p]
        if isinstance(p, Hole):
            v = p.v
            if v.kind in ('num', 'int'):
                return [p]
            esc = ('rep', '"', '\\"')
            if p.ops == (esc,):
                return [Hole(v)]
            if p.ops == ():
                if v.dom in ('bare', 'bare0', 'enum'):
                    return [Hole(v)]
                b = self.quote(v)
                self.err(pc, b, 'text %s written without escaping' % v.path)
                return [Hole(v)]
            if all(o == esc for o in p.ops):
                # escaped twice: comes back with a backslash before each quote
                b = self.quote(v)
                self.err(pc, b, 'text %s escaped %d times' % (v.path, len(p.ops)))
                return [Hole(v)]
            raise Unsupported('text operations %r' % (p.ops,))
        if isinstance(p, RIte):
            a, b = [], []
            for q in p.a.segs:
                a.extend(self.text_piece(q, pc + (p.c,)))
            for q in p.b.segs:
                b.extend(self.text_piece(q, pc + (Not_(p.c),)))
            if rope_same(Rope(a), Rope(b)):
                return a
            return [RIte(p.c, Rope(a), Rope(b))]
        return [p]

    def bare_value(self, pieces, fol, pc):
        if len(pieces) == 1 and isinstance(pieces[0], Hole):
            p = pieces[0]
            v = p.v
            if v.kind in ('num', 'int'):
                if not p.ops:
                    return v
                if len(p.ops) == 1 and p.ops[0][0] == 'fmt':
                    spec = p.ops[0][1]
                    m = re.fullmatch(r'\.(\d+)f', spec)
                    if m and v.dom == 'fix' + m.group(1):
                        return v
                    if v.dom and v.dom.startswith('fix') and m and int(m.group(1)) > int(v.dom[3:]):
                        return v
                    if not m:
                        raise Unsupported('number format %r' % spec)
                    F = z3.Function('fmt' + spec, z3.RealSort(), z3.RealSort())
                    t = v.t if v.kind == 'num' else z3.ToReal(v.t)
                    return Sc(F(t), 'num', 'num', None)
                raise Unsupported('number text operations')
            if v.kind == 'str':
                ops = [o for o in p.ops if not (o[0] == 'rep' and o[1] == '"')]
                if ops:
                    raise Unsupported('operations on bare text')
                if v.dom not in ('bare', 'bare0', 'enum'):
                    b = z3.Bool((v.path or str(v.t)) + '!notbare')
                    self.err(pc, b, 'text %s written without quotes' % v.path)
                if v.dom != 'bare':
                    self.err(pc, v.t == self.w.intern(''), 'empty text %s written without quotes' % v.path)
                return v
            raise Unsupported('bare %r' % (p,))
        if all(isinstance(p, str) for p in pieces):
            t = ''.join(pieces)
            if NUM.fullmatch(t):
                v = float(t)
                return int(v) if v.is_integer() else v
            return t
        out = []
        for p in pieces:
            if isinstance(p, str):
                out.append(str(p))
            else:
                v = p.v
                if v.kind == 'str' and v.dom not in ('bare', 'bare0', 'enum'):
                    b = z3.Bool((v.path or str(v.t)) + '!notbare')
                    self.err(pc, b, 'text %s written without quotes' % v.path)
                out.append(p)
        if isinstance(pieces[0], str) and not re.match(r'[-+\d.]', pieces[0]):
            return rope_value(Rope(out))
        raise Unsupported('composite token %r' % (pieces,))

    def sub(self, s, pc):
        """Contract of the callee: exactly one list (or, for optlist classes, possibly nothing)."""
        from . import dom as D
        key = D.key_of(s.cls)
        t = D.table()[key]
        if s.ops:
            raise Unsupported('text operation on nested expression')
        n = self.node(None, (s.obj, s.cls))
        if t.shape == 'list':
            return [GOne(True, n)]
        if t.shape == 'optlist':
            s2 = self.st.copy()
            s2.pc = s2.pc + tuple(pc)
            its = self.seq(micro(self.I.expand_sub(s2, s).segs), ENDS, pc)
            its = [x for x in its if self.w.sat(*(self.st.pc + tuple(pc) + ((x.g,) if x.g is not True else ())))]
            if not its:
                return []
            if not all(isinstance(x, GOne) for x in its):
                raise Unsupported('optional sub expression')
            g = Or_(*[x.g for x in its])
            return [GOne(g, n)]
        raise Unsupported('shape %s' % t.shape)


def _raw(ms):
    out = []
    for m in ms:
        if m is QUOTE:
            out.append('"')
        elif isinstance(m, str):
            out.append(str(m))
        else:
            out.append(m)
    return out


def _z(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def lex(I, st, rope):
    """Guarded top-level items of the text."""
    L = Lexer(I, st)
    try:
        return L.cases(micro(to_rope(rope).segs), {'end'}, ())
    except Unbal as u:
        L.st.pc = L.st.pc + tuple(u.pc)
        raise Unbalanced(u.kind)


class Unbalanced(Exception):
    """The text is not a balanced token sequence."""
