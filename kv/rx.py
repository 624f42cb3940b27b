"""Regular-expression lemmas: what Python's matcher does, for texts of any length.

A pattern is compiled to a priority NFA (the thread-list semantics of a backtracking
matcher without back references: ordered alternatives, greedy/lazy repeats, one
character of look-ahead/look-behind).  A lemma gives the form of the text -- white
space, a token of a given language, an admissible rest -- and the expected first match.
It is decided by exhaustive exploration of the product of the text automaton and the
ordered thread list over the minterms of all character sets involved: a finite state
space, so the answer holds for all texts, and a failure comes with a text."""
import re, sys, collections
try:
    import re._parser as sp
    import re._constants as sc
except ImportError:
    import sre_parse as sp
    import sre_constants as sc
from .values import Unsupported

_ALL = None
_setcache = {}


def universe():
    global _ALL
    if _ALL is None:
        _ALL = ''.join(map(chr, list(range(0xD800)) + list(range(0xE000, 0x110000))))
    return _ALL


_us = None


def universe_set():
    global _us
    if _us is None:
        _us = frozenset(universe())
    return _us


def members(src):
    """characters matched by the one-character pattern src"""
    if src not in _setcache:
        _setcache[src] = frozenset(re.findall(src, universe(), re.S))
    return _setcache[src]


CAT = {sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D', sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_NOT_SPACE: r'\S',
       sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}


def esc(c):
    return '\\U%08x' % c


def set_src(op, av):
    if op is sc.LITERAL:
        return esc(av)
    if op is sc.NOT_LITERAL:
        return '[^%s]' % esc(av)
    if op is sc.ANY:
        return r'[^\n]'
    if op is sc.IN:
        s = ''
        neg = False
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                s += esc(a)
            elif o is sc.RANGE:
                s += esc(a[0]) + '-' + esc(a[1])
            elif o is sc.CATEGORY and a in CAT:
                s += CAT[a]
            else:
                raise Unsupported('regular expression: set item %s' % o)
        return '[%s%s]' % ('^' if neg else '', s)
    return None


class Prog:
    def __init__(self, pattern, dotall=False):
        self.code = []
        self.groups = {}
        t = sp.parse(pattern)
        fl = t.state.flags
        if fl & (re.I | re.L | re.A):
            raise Unsupported('regular expression flags')
        self.dotall = dotall or bool(fl & re.S)
        self.multi = bool(fl & re.M)
        self.names = {v: k for k, v in t.state.groupdict.items()}
        self.seq(t)
        self.emit('match')

    def emit(self, *i):
        self.code.append(list(i))
        return len(self.code) - 1

    def cset(self, op, av):
        if op is sc.ANY and self.dotall:
            return r'[\s\S]'
        return set_src(op, av)

    def seq(self, t):
        for op, av in t:
            self.node(op, av)

    def node(self, op, av):
        s = self.cset(op, av)
        if s is not None:
            self.emit('char', s)
        elif op is sc.SUBPATTERN:
            gid, add, dele, body = av
            if add or dele:
                raise Unsupported('regular expression: inline flags')
            if gid is not None:
                self.emit('open', gid)
            self.seq(body)
            if gid is not None:
                self.emit('close', gid)
        elif op is sc.BRANCH:
            ends = []
            alts = av[1]
            for k, a in enumerate(alts):
                if k < len(alts) - 1:
                    sp_ = self.emit('split', None, None)
                    self.code[sp_][1] = len(self.code)
                    self.seq(a)
                    ends.append(self.emit('jmp', None))
                    self.code[sp_][2] = len(self.code)
                else:
                    self.seq(a)
            for e in ends:
                self.code[e][1] = len(self.code)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, body = av
            if body.getwidth()[0] == 0 and hi is sc.MAXREPEAT:
                raise Unsupported('regular expression: repeat of a possibly empty item')
            if lo > 12 or hi is not sc.MAXREPEAT and hi > 12:
                raise Unsupported('regular expression: large repeat')
            g = op is sc.MAX_REPEAT
            for _ in range(lo):
                self.seq(body)
            if hi is sc.MAXREPEAT:
                L = self.emit('split', None, None)
                b = len(self.code)
                self.seq(body)
                self.emit('jmp', L)
                e = len(self.code)
                self.code[L][1:] = [b, e] if g else [e, b]
            else:
                ls = []
                for _ in range(hi - lo):
                    L = self.emit('split', None, None)
                    ls.append((L, len(self.code)))
                    self.seq(body)
                e = len(self.code)
                for L, b in ls:
                    self.code[L][1:] = [b, e] if g else [e, b]
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            d, body = av
            alts = None
            b = list(body)
            if len(b) == 1 and b[0][0] is sc.SUBPATTERN and b[0][1][0] is None:
                b = list(b[0][1][3])
            if len(b) == 1 and b[0][0] is sc.BRANCH:
                alts = [list(a) for a in b[0][1][1]]
            else:
                alts = [b]
            srcs, end = [], False
            for a in alts:
                if len(a) == 1 and self.cset(*a[0]) is not None:
                    srcs.append(self.cset(*a[0]))
                elif len(a) == 1 and a[0] == (sc.AT, sc.AT_END_STRING):
                    end = True
                elif len(a) == 1 and a[0] == (sc.AT, sc.AT_END) and not self.multi:
                    raise Unsupported('regular expression: $')
                elif len(a) == 1 and a[0] == (sc.AT, sc.AT_END) and self.multi:
                    end = True
                    srcs.append(r'\n')
                else:
                    raise Unsupported('regular expression: assertion of more than one character')
            src = '(?:' + '|'.join(srcs) + ')' if len(srcs) > 1 else srcs[0] if srcs else r'[^\s\S]'
            self.emit('next' if d == 1 else 'prev', src, op is sc.ASSERT_NOT, end)
        else:
            raise Unsupported('regular expression: %s' % op)

    def sets(self):
        return {i[1] for i in self.code if i[0] in ('char', 'next', 'prev')}


class Alphabet:
    """minterms of a collection of one-character patterns"""

    def __init__(self, srcs):
        srcs = sorted(srcs)
        mem = [members(s) for s in srcs]
        rep, self.sets = {}, {s: set() for s in srcs}
        base, small = 0, {}
        for i, m in enumerate(mem):
            if 2 * len(m) > len(universe()):
                base += 1 << i
                for c in universe_set() - m:
                    small[c] = small.get(c, 0) ^ (1 << i)
            else:
                for c in m:
                    small[c] = small.get(c, 0) ^ (1 << i)
        for c, x in small.items():
            v = base ^ x
            r = rep.get(v)
            if r is None or (c.isascii(), c.isprintable(), -ord(c)) > (r.isascii(), r.isprintable(), -ord(r)):
                rep[v] = c
        if base not in rep:
            rep[base] = next(c for c in 'xyzbcdfghijk' + universe() if c not in small)
        self.rep = list(rep.values())
        for k, v in enumerate(rep):
            for i, s in enumerate(srcs):
                if v >> i & 1:
                    self.sets[s].add(k)
        self.n = len(self.rep)


END = -1


class Lemma:
    """For every text W T R with W in ws*, T in `tok`, R in `rest` (a pattern for the whole rest) -- and T not in
    `unless` when R starts with a character of unless_next -- the first match at the start of the text ends right after T
    and group `group` is exactly T (group None: no match at all is expected)."""

    def __init__(self, name, group, tok, rest, unless=None, unless_next=None, ws=r'\s*'):
        self.name, self.group, self.tok, self.rest, self.unless, self.unless_next, self.ws = name, group, tok, rest, unless, unless_next, ws


def decide(prog, lem, limit=200000, alphabet=None):
    """-> ('proved', None) | ('failed', (text, token start, token end)); raises Unsupported"""
    con = Prog.__new__(Prog)
    con.code, con.names, con.dotall, con.multi = [], {}, True, False
    con.seq(sp.parse(lem.ws))
    con.emit('open', 0)
    con.seq(sp.parse(lem.tok))
    con.emit('close', 0)
    con.seq(sp.parse(lem.rest))
    con.emit('match')
    un = Prog(lem.unless) if lem.unless else None
    srcs = prog.sets() | con.sets() | (un.sets() if un else set()) | ({lem.unless_next} if lem.unless_next else set())
    A = alphabet if alphabet is not None and srcs <= set(alphabet.sets) else Alphabet(srcs)

    def nclosure(code, pcs):
        out, todo, seen = set(), list(pcs), set()
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            seen.add(p)
            i = code[p]
            if i[0] == 'split':
                todo += i[1:]
            elif i[0] == 'jmp':
                todo.append(i[1])
            elif i[0] in ('char', 'match'):
                out.add(p)
            elif i[0] in ('open', 'close'):
                todo.append(p + 1)
            else:
                raise Unsupported('assertion in a contract language')
        return frozenset(out)

    def cclosure(pc):
        """[(pc at char/match, marks passed)]"""
        out, todo, seen = [], [(pc, ())], set()
        while todo:
            p, m = todo.pop()
            if (p, m) in seen:
                continue
            seen.add((p, m))
            i = con.code[p]
            if i[0] == 'split':
                todo += [(i[1], m), (i[2], m)]
            elif i[0] == 'jmp':
                todo.append((i[1], m))
            elif i[0] in ('open', 'close'):
                todo.append((p + 1, m + (i[0],)))
            elif i[0] in ('char', 'match'):
                out.append((p, m))
            else:
                raise Unsupported('assertion in a contract language')
        return out
    gid = next((k for k, v in prog.names.items() if v == lem.group), None) if lem.group else None
    if lem.group and gid is None:
        raise Unsupported('no group named %s' % lem.group)
    named = set(prog.names)

    def vclosure(threads, prev, nxt, started, ended):
        """threads: ordered [(pc, caps)] -> ordered [(pc of char, caps)], match descriptor or None"""
        out, seen = [], set()
        for t in threads:
            stack = [t]
            while stack:
                p, caps = stack.pop()
                if p in seen:
                    continue
                seen.add(p)
                i = prog.code[p]
                if i[0] == 'split':
                    stack.append((i[2], caps))
                    stack.append((i[1], caps))
                elif i[0] == 'jmp':
                    stack.append((i[1], caps))
                elif i[0] == 'open':
                    if i[1] in named:
                        caps = caps[:-1] + ((i[1], started, None),) if False else caps + ((i[1], started, None),)
                    stack.append((p + 1, caps))
                elif i[0] == 'close':
                    if i[1] in named:
                        caps = tuple((g, s, ended if g == i[1] and e is None else e) for g, s, e in caps)
                        if len(caps) > 4:
                            raise Unsupported('nested named groups')
                    stack.append((p + 1, caps))
                elif i[0] == 'char':
                    out.append((p, caps))
                elif i[0] == 'next':
                    ok = i[3] if nxt == END else nxt in A.sets[i[1]]
                    if ok != i[2]:
                        stack.append((p + 1, caps))
                elif i[0] == 'prev':
                    ok = i[3] if prev is None else prev in A.sets[i[1]]
                    if ok != i[2]:
                        stack.append((p + 1, caps))
                elif i[0] == 'match':
                    good = ended and lem.group is not None and caps == ((gid, True, True),)
                    return out, ('good' if good else 'bad')
        return out, None
    # state: (contract pc, threads, prev, best, phase, unless pcs)
    # phase: 0 before token, 1 inside, 2 after
    init = (0, ((0, ()),), None, None, 0, None)
    parent = {init: None}
    todo = collections.deque([init])

    def text_of(s):
        out = []
        while parent[s] is not None:
            s, a = parent[s]
            out.append(a)
        return ''.join(A.rep[a] for a in reversed(out))

    def moves(s):
        """contract moves of a state: (marks, symbol, next contract pc, next unless)"""
        pc, _, prev, best, phase, ups = s
        for p, marks in cclosure(pc):
            ups2 = ups
            if 'open' in marks and un:
                ups2 = nclosure(un.code, [0])
            i = con.code[p]
            syms = [END] if i[0] == 'match' else sorted(A.sets[i[1]])
            for a in syms:
                if 'close' in marks and un and any(un.code[q][0] == 'match' for q in ups2) and (a != END and a in A.sets[lem.unless_next] if lem.unless_next else True):
                    continue
                ph = 2 if 'close' in marks or phase == 2 else 1 if 'open' in marks or phase == 1 else 0
                nu = None
                if un and ph == 1 and a != END:
                    nu = nclosure(un.code, [q + 1 for q in ups2 if un.code[q][0] == 'char' and a in A.sets[un.code[q][1]]])
                yield marks, a, p + 1, nu, ph

    def complete(s):
        """a completion of the text from state s (contract only)"""
        key = (s[0], s[4], s[5])
        par = {key: None}
        q = collections.deque([(key, s)])
        while q:
            k, st = q.popleft()
            for marks, a, np_, nu, ph in moves(st):
                if a == END:
                    out = []
                    while par[k] is not None:
                        k, x = par[k]
                        out.append(x)
                    return ''.join(A.rep[x] for x in reversed(out))
                n = (np_, (), a, None, ph, nu)
                nk = (np_, ph, nu)
                if nk not in par:
                    par[nk] = (k, a)
                    q.append((nk, n))
        return None
    n = 0
    bad = None
    while todo:
        s = todo.popleft()
        n += 1
        if n > limit:
            raise Unsupported('regular expression lemma: state limit')
        pc, threads, prev, best, phase, ups = s
        for marks, a, np_, nu, ph in moves(s):
            started = 'open' in marks
            ended = 'close' in marks
            live, m = vclosure(threads, prev, a, started, ended)
            nb = m or best
            step = () if a == END else tuple((p + 1, c) for p, c in live if a in A.sets[prog.code[p][1]])
            if not step:
                want = 'good' if lem.group else None
                if nb != want:
                    if a == END:
                        return 'failed', text_of(s)
                    ns = (np_, (), a, nb, ph, nu)
                    c = complete(ns)
                    if c is not None:
                        return 'failed', text_of(s) + A.rep[a] + c
                continue
            ns = (np_, step, a, nb, ph, nu)
            if ns not in parent:
                parent[ns] = (s, a)
                todo.append(ns)
    return 'proved', n
