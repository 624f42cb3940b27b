"""Domains: the stated precondition of every contract.

spec/domain.txt lists, for every class, the values each field may take
('well-formed object').  The same table drives the symbolic verifier (it
becomes z3 constants plus axioms) and the concrete replayer / bounded stand-in
(it becomes a generator of real objects)."""
import os, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODMAP = {'common': 'items.common', 'brditems': 'items.brditems', 'gritems': 'items.gritems',
          'fpitems': 'items.fpitems', 'zones': 'items.zones', 'dimensions': 'items.dimensions',
          'schitems': 'items.schitems', 'syitems': 'items.syitems'}


def qual(key):
    m, n = key.split('.')
    return MODMAP.get(m, m) + '.' + n


def key_of(clsinfo):
    return clsinfo.module.name.split('.')[-1] + '.' + clsinfo.name


class T:
    pass


class TNum(T):
    def __init__(self, fix=None, int_=False, nat=False):
        self.fix, self.int_, self.nat = fix, int_, nat


class TText(T):
    def __init__(self, excl=()):
        self.excl = tuple(excl)


class TBare(T):
    def __init__(self, empty=False):
        self.empty = empty


class TWord(T):
    """libId component: nonempty text without ':' (and no newline)"""


class TLine(TWord):
    """nonempty text without newline"""


class TLayer(T):
    """pad layer name: text; a wildcard name (contains '*.' or '&') is a bare token"""


class TBool(T):
    pass


class TConst(T):
    def __init__(self, v):
        self.v = v


class TEnum(T):
    def __init__(self, vals):
        self.vals = vals


class TOpt(T):
    def __init__(self, t, wonly=False):
        self.t, self.wonly = t, wonly      # wonly: None may be written but is not read back


class TObj(T):
    def __init__(self, key, over=None):
        self.key, self.over = key, over or {}


class TList(T):
    def __init__(self, t, lo=0, hi=None):
        self.t, self.lo, self.hi = t, lo, hi


class TDict(T):
    def __init__(self, k, v):
        self.k, self.v = k, v


class TUnion(T):
    def __init__(self, alts):
        self.alts = alts

    def names(self):
        ns = [a.key.split('.')[-1] for a in self.alts]
        return [n if ns.count(n) == 1 else '%s%d' % (n, i) for i, n in enumerate(ns)]


class TSkip(T):
    """Not part of the document (e.g. the path a file was loaded from)."""


_tok = re.compile(r"\s*(@[\w.]+|[A-Za-z_]\w*|'[^']*'|\{[^}]*\}|-?\d+(?:\.\d+)?|\?w\b|[?\[\]<>():|,=!])")
MACROS = {'xy': "@common.Position(angle=none,unlocked=false)",
          'xya': "@common.Position(angle=num?,unlocked=false)",
          'xyau': "@common.Position"}


class _P:
    def __init__(self, s):
        self.toks = []
        i = 0
        s = s.strip()
        while i < len(s):
            m = _tok.match(s, i)
            if not m:
                raise SyntaxError('domain: %r at %d' % (s, i))
            self.toks.append(m.group(1))
            i = m.end()
            while i < len(s) and s[i].isspace():
                i += 1
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def expect(self, x):
        t = self.next()
        assert t == x, (t, x, self.toks)

    def type(self):
        t = self.base()
        while self.peek() in ('?', '?w'):
            t = TOpt(t, self.next() == '?w')
        return t

    def base(self):
        t = self.next()
        if t == 'num':
            return TNum()
        if t == 'int':
            return TNum(int_=True)
        if t == 'nat':
            return TNum(int_=True, nat=True)
        m = re.fullmatch(r'fix(\d+)', t)
        if m:
            return TNum(fix=int(m[1]))
        if t == 'text':
            if self.peek() == '!':
                self.next()
                return TText([x.strip() for x in self.next()[1:-1].split(',')])
            return TText()
        if t == 'bare':
            return TBare()
        if t == 'bare0':
            return TBare(True)
        if t == 'layer':
            return TLayer()
        if t == 'word':
            return TWord()
        if t == 'line':
            return TLine()
        if t == 'bool':
            return TBool()
        if t == 'skip':
            return TSkip()
        if t == 'none':
            return TConst(None)
        if t == 'true':
            return TConst(True)
        if t == 'false':
            return TConst(False)
        if t[0] == "'":
            return TConst(t[1:-1])
        if re.fullmatch(r'-?\d+(\.\d+)?', t):
            return TConst(float(t) if '.' in t else int(t))
        if t[0] == '{':
            return TEnum([x.strip() for x in t[1:-1].split(',')])
        if t in MACROS:
            return _P(MACROS[t]).type()
        if t == '[':
            e = self.type()
            self.expect(']')
            lo, hi = 0, None
            if self.peek() and self.peek()[0] == '{':
                b = self.next()[1:-1]
                if '..' in b:
                    l, h = b.split('..')
                    lo, hi = int(l), (int(h) if h else None)
                else:
                    lo = hi = int(b)
            return TList(e, lo, hi)
        if t == '<':
            k = self.type()
            self.expect(':')
            v = self.type()
            self.expect('>')
            return TDict(k, v)
        if t == '(':
            alts = [self.type()]
            while self.peek() == '|':
                self.next()
                alts.append(self.type())
            self.expect(')')
            return TUnion(alts)
        if t[0] == '@':
            over = {}
            if self.peek() == '(':
                self.next()
                while True:
                    n = self.next()
                    self.expect('=')
                    over[n] = self.type()
                    if self.next() == ')':
                        break
            return TObj(t[1:], over)
        raise SyntaxError('domain type %r' % t)


class ClassDom:
    def __init__(self, key):
        self.key = key
        self.fields = {}
        self.invs = []       # (python expr over self, comment)
        self.cinvs = []      # preconditions carried symbolically by the libId contract
        self.head = None     # const head token of the emitted list
        self.shape = 'list'
        self.hints = set()   # fields that are formatting hints, not document content


def load(path=None):
    path = path or os.path.join(VERIF, 'spec', 'domain.txt')
    D = {}
    cur = None
    for line in open(path):
        line = line.split('#')[0].rstrip() if not line.lstrip().startswith(('!inv', '!cinv')) else line.rstrip()
        if not line.strip():
            continue
        if not line[0].isspace():
            cur = ClassDom(line.strip())
            D[cur.key] = cur
        else:
            n, _, ty = line.strip().partition(' ')
            if n == '!inv':
                cur.invs.append(ty.strip())
            elif n == '!cinv':
                cur.cinvs.append(ty.strip())
            elif n == '!head':
                cur.head = ty.strip()
            elif n == '!shape':
                cur.shape = ty.strip()
            elif n == '!hint':
                cur.hints.add(ty.strip())
            elif n.startswith('!'):
                raise SyntaxError(line)
            else:
                cur.fields[n] = _P(ty).type()
    return D


_D = None


def table():
    global _D
    if _D is None:
        _D = load()
    return _D


def subtype(a, b):
    """every value of a is a value of b (sound, incomplete)"""
    if isinstance(b, TSkip):
        return True
    if isinstance(b, TOpt):
        if isinstance(a, TConst) and a.v is None:
            return True
        return subtype(a.t if isinstance(a, TOpt) else a, b.t)
    if isinstance(a, TOpt):
        return False
    if isinstance(a, TConst):
        if isinstance(b, TConst):
            return a.v == b.v and type(a.v) is type(b.v)
        if isinstance(b, TBool):
            return isinstance(a.v, bool)
        if isinstance(b, TNum):
            return isinstance(a.v, (int, float)) and not isinstance(a.v, bool) and b.fix is None
        if isinstance(b, TEnum):
            return a.v in b.vals
        return isinstance(b, TText) and isinstance(a.v, str) and a.v not in b.excl
    if isinstance(a, TEnum):
        if isinstance(b, TEnum):
            return set(a.vals) <= set(b.vals)
        return isinstance(b, TText) and not set(a.vals) & set(b.excl)
    if isinstance(a, TText):
        return isinstance(b, TText) and set(b.excl) <= set(a.excl)
    if isinstance(a, TNum):
        return isinstance(b, TNum) and (b.fix is None or a.fix == b.fix)
    if isinstance(a, TObj) and isinstance(b, TObj):
        if a.key != b.key:
            return False
        fd = table()[a.key].fields
        for n in set(a.over) | set(b.over):
            if not subtype(a.over.get(n, fd.get(n)), b.over.get(n, fd.get(n))):
                return False
        return True
    if isinstance(a, TList) and isinstance(b, TList):
        return subtype(a.t, b.t) and a.lo >= b.lo and (b.hi is None or (a.hi is not None and a.hi <= b.hi))
    if isinstance(a, TUnion) and isinstance(b, TUnion):
        return all(any(subtype(x, y) for y in b.alts) for x in a.alts)
    if isinstance(a, TDict) and isinstance(b, TDict):
        return subtype(a.k, b.k) and subtype(a.v, b.v)
    return type(a) is type(b)


def in_contract(tobj):
    """Is every object of this (possibly narrowed) type in the domain of its class's contract?"""
    t = table().get(tobj.key)
    return t is not None and all(n in t.fields and subtype(x, t.fields[n]) for n, x in tobj.over.items())
