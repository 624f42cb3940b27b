"""Concrete side: objects generated from the same domain table the verifier uses,
run through the real code.  Used (a) to replay counterexamples of failed
obligations, (b) as the labelled bounded stand-in where an obligation is
undecided, (c) to cross-check the verifier itself.  Never counted as proof."""
import sys, os, re, types, random, importlib, copy, time, signal, json, itertools, inspect
sys.dont_write_bytecode = True
from . import dom as D

REPO = os.environ.get('KV_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


def setup():
    if SRC not in sys.path:
        sys.path.insert(0, SRC)


def cls_of(key):
    m, n = D.qual(key).rsplit('.', 1)
    return getattr(importlib.import_module('kiutils.' + m), n)


def key_for(o):
    return type(o).__module__.split('.')[-1] + '.' + type(o).__name__


class Timeout(Exception):
    pass


class alarm:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def h(*a):
            raise Timeout('no result within %s s' % self.s)
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


# ------------------------------------------------------------- reference parser
class Bad(Exception):
    pass


_NUM = re.compile(r'[+-]?\d+\.\d+|-?\d+|[+-]?\d+(?:\.\d+)?e[+-]\d+')


def ref_parse(s):
    """Independent reading of an S-expression text: list of top-level items.
    Atoms: Str (quoted), numbers, bare words."""
    out, stack = [], []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1
        elif c == '(':
            stack.append(out)
            out = []
            i += 1
        elif c == ')':
            if not stack:
                raise Bad('unbalanced ) at %d' % i)
            t, out = out, stack.pop()
            out.append(t)
            i += 1
        elif c == '"':
            j = i + 1
            while True:
                j = s.find('"', j)
                if j < 0:
                    raise Bad('unterminated text at %d' % i)
                if s[j - 1] == '\\' and j - 1 > i:
                    j += 1
                    continue
                break
            if j + 1 < n and not (s[j + 1].isspace() or s[j + 1] == ')'):
                raise Bad('text directly followed by %r at %d' % (s[j + 1], j))
            out.append(Str(s[i + 1:j].replace('\\"', '"')))
            i = j + 1
        else:
            j = i
            while j < n and not s[j].isspace() and s[j] not in '()':
                j += 1
            w = s[i:j]
            if _NUM.fullmatch(w) and j < n:
                v = float(w)
                out.append(int(v) if v.is_integer() else v)
            else:
                out.append(w)
            i = j
    if stack:
        raise Bad('unbalanced: %d lists not closed' % len(stack))
    return out


class Str(str):
    __slots__ = ()


def has_none(t):
    if isinstance(t, list):
        return any(has_none(x) for x in t)
    return isinstance(t, str) and not isinstance(t, Str) and ('None' == t or t.startswith('<') and ' at 0x' in t)


# -------------------------------------------------------------------- generator
NUMS = [0, 1, -1, 0.5, -0.25, 1.27, 1e-06, 123456.789, 100, 3.0, 0.1, 45, 90, 20221018, 0.1234567891, 98765432.1234567, 1e-09, 1e+16, -2.5e+22]
INTS = [0, 1, -1, 2, 7, 100, 31]
TEXTS = ['', 'a', 'two words', 'quo"te', '"', 'a(b)c', ')', '(', '(at 1 2)', 'back\\slash', 'ünïcödé Ω', 'line\nbreak', 'None', '0', '1.5',
         'locked', ' lead', 'trail ', 'tab\t', 'hide', 'true', 'false', '\\" mix', '{x}', '%s', 'yes', 'User', 'portrait', '${VAR}', "it's",
         'a,b;c', '*.Cu', 'F&B.Cu', 'unlocked', 'knockout', 'addsublayer', 'A4', '"quoted"', '~', ' ', 'at', '007', 'layer', 'oval', '-', 'x' * 70,
         'e\u0301\u212b\ufb01', '\ufeffx\u200b', '\u00a0nb\u00a0', 'a\u2028b\x85c\x0bd\x1ce', '\u0130\u00df\u017f', 'a\n\nb\n', 'a  b', '<b>&amp;', '\\n', 'long word ' * 130, 'Mixed_CASE-x']
BARES = ['abc', 'a_b', '00000000-0000-0000-0000-00005f1a7b2c', 'x.y', 'p/q', 'a:b', '5e1f', '0x00010fc_ffffffff', 'none', 'yes', 'solid', 'true',
         'ünï', 'iVBORw0KGgo+/=', 'thru_hole', '1a', '-x', 'locked', 'a^b', '^']
LINES = ['a:b', ':', 'x:', ':y', 'a_1_2:b', 'a:b_1_2', '_1_2', '1_2', '_', 'p:q:r', ' ', 'x_1_', 'x__1']
WORDS = ['R', 'Device', 'a b', 'x"y', 'R_1', 'Ω', 'a.b/c', 'None', 'C_Small', 'Mount(ing)', '0', '12', 'A_1_b', 'Filter_16_1']
LAYERS = ['F.Cu', '*.Cu', 'F&B.Cu', '*.Mask', 'In1.Cu', 'User "x"', 'a b', 'B.Paste', 'x*y', 'top *new', '*', 'a "*" b', 'x. y', '']


class Gen:
    def __init__(self, rng, wide=False, depth=4):
        self.r, self.wide, self.maxd = rng, wide, depth
        self.force = {}         # path -> chooser
        self.soft = {}          # same, dropped where the invariant cannot be met
        self.relax = False

    def num(self, t):
        r = self.r
        if t.int_:
            return r.choice([x for x in INTS if x >= 0 or not t.nat])
        if t.fix is not None:
            return r.choice([0, 1, 0.5, 100, round(r.uniform(-50, 200), t.fix), round(1 / 8, t.fix), 12])
        k = r.random()
        if k < .6:
            return r.choice(NUMS)
        if k < .8:
            return r.randint(-1000, 1000)
        return round(r.uniform(-500, 500), r.randint(0, 6))

    def length(self, t, d):
        if t.lo == 0 and (d > self.maxd or self.relax and self.r.random() < .5):
            n = 0
        else:
            n = self.r.choice([0, 1, 1, 2, 3, 5]) if d < 3 else self.r.choice([0, 1, 2])
        n = max(n, t.lo)
        return n if t.hi is None else min(n, t.hi)

    def pick(self, t, path, d):
        r = self.r
        if isinstance(t, D.TNum):
            return self.num(t)
        if isinstance(t, D.TText):
            while True:
                if r.random() < .75:
                    s = r.choice(TEXTS)
                else:
                    s = ''.join(r.choice('ab ()"\\^\'é:_0.\n') for _ in range(r.randint(0, 12)))
                    s = s.rstrip('\\')
                if s not in t.excl:
                    return s
        if isinstance(t, D.TLayer):
            return r.choice(LAYERS)
        if isinstance(t, D.TWord):
            return r.choice(WORDS + (LINES if isinstance(t, D.TLine) else []))
        if isinstance(t, D.TBare):
            return '' if t.empty and r.random() < .3 else r.choice(BARES)
        if isinstance(t, D.TBool):
            return r.random() < .5
        if isinstance(t, D.TConst):
            return t.v
        if isinstance(t, D.TEnum):
            return r.choice(t.vals)
        if isinstance(t, D.TOpt):
            if t.wonly and not self.wide:
                return self.value(t.t, path, d)
            if r.random() < (.75 if d > self.maxd else .4):
                return None
            return self.value(t.t, path, d)
        if isinstance(t, D.TObj):
            return self.obj(t, path, d)
        if isinstance(t, D.TList):
            n = self.length(t, d)
            return [self.value(t.t, '%s[%d]' % (path, i), d + 1) for i in range(n)]
        if isinstance(t, D.TDict):
            n = r.choice([0, 1, 2, 4])
            return {self.value(t.k, path + '.k', d): self.value(t.v, path + '.v', d) for _ in range(n)}
        if isinstance(t, D.TUnion):
            a = r.choice(t.alts)
            return self.value(a, path, d)
        raise TypeError(t)

    def value(self, t, path, d=0):
        if path in self.force:
            return self.force[path](self, t, path, d)
        if path in self.soft and not self.relax:
            return self.soft[path](self, t, path, d)
        return self.pick(t, path, d)

    def obj(self, t, path, d):
        tab = D.table()[t.key]
        cls = cls_of(t.key)
        names = [f.name for f in cls.__dataclass_fields__.values()]
        inv = set(re.findall(r'self\.(\w+)', ' '.join(tab.invs + tab.cinvs)))

        def sample(n, kw):
            ty = t.over.get(n, tab.fields.get(n))
            if ty is not None and not isinstance(ty, D.TSkip):
                kw[n] = self.value(ty, path + '.' + n, d + 1)
        once, soft = {}, {}       # forced values are made once
        for n in names:
            if n in inv and path + '.' + n in self.force:
                sample(n, once)
        # lists of objects in an invariant: first the length, the entries when it fits
        lists = [n for n in names if n in inv and n not in once and isinstance(t.over.get(n, tab.fields.get(n)), D.TList)
                 and isinstance(t.over.get(n, tab.fields.get(n)).t, (D.TObj, D.TUnion))
                 and not re.search(r'self\.%s\b(?!\)| or| and|$)' % n, ' '.join(tab.invs + tab.cinvs))]
        for attempt in range(150):
            kw = dict(once)
            self.relax = attempt >= 12 and path == 'o'
            for n in names:
                if n in lists and path + '.' + n in self.soft and not self.relax:
                    if n not in soft:
                        sample(n, soft)
                    kw[n] = soft[n]
                elif n in lists:
                    self.relax = attempt >= 12
                    kw[n] = [None] * self.length(t.over.get(n, tab.fields.get(n)), d + 1)
                    self.relax = attempt >= 12 and path == 'o'
                elif n in inv and n not in once:
                    sample(n, kw)
            self.relax = False
            if inv_ok(types.SimpleNamespace(**kw), tab):
                for n in names:
                    if n in lists and kw[n] is soft.get(n):
                        pass
                    elif n in lists:
                        ty = t.over.get(n, tab.fields.get(n))
                        kw[n] = [self.value(ty.t, '%s.%s[%d]' % (path, n, i), d + 2) for i in range(len(kw[n]))]
                    elif n not in inv:
                        sample(n, kw)
                o = cls(**kw)
                if inv_ok(o, tab):
                    return o
        raise Infeasible('invariant of %s' % t.key)


class Same(Gen):
    """All numbers equal, all texts equal."""
    def num(self, t):
        return 1 if t.int_ or self.relax else Gen.num(self, t) if t.fix is not None else 2

    def pick(self, t, path, d):
        if isinstance(t, D.TText) and 'a' not in t.excl and not self.relax:
            return 'a'
        return Gen.pick(self, t, path, d)


def same_text(v):
    class SameText(Gen):
        """Every text is v, at every depth."""
        def pick(self, t, path, d):
            if isinstance(t, D.TText) and v not in t.excl and not self.relax:
                return v
            return Gen.pick(self, t, path, d)
    return SameText


class Infeasible(Exception):
    pass


def inv_ok(o, tab):
    for inv in tab.invs + tab.cinvs:
        try:
            if not eval(inv, {'re': re}, {'self': o}):
                return False
        except Exception:
            return False
    return True


_mined = {}


def mined(key):
    """Constants occurring in the source of the class: boundary values for the search."""
    if key not in _mined:
        strs, nums = [], []
        try:
            import ast, textwrap
            mod = ast.parse(inspect.getsource(sys.modules[cls_of(key).__module__]))
            trees = [ast.parse(textwrap.dedent(inspect.getsource(cls_of(key))))]
            trees += [x for x in mod.body if not isinstance(x, (ast.ClassDef, ast.Import, ast.ImportFrom))]
            trees += [ast.parse(open(os.path.join(SRC, 'kiutils', 'utils', f)).read()) for f in sorted(os.listdir(os.path.join(SRC, 'kiutils', 'utils'))) if f.endswith('.py')]
            nodes = [n for x in trees for n in ast.walk(x)]
            doc = {id(n.value) for n in nodes if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
            for n in nodes:
                if isinstance(n, ast.Constant) and id(n) not in doc:
                    v = n.value
                    if isinstance(v, str) and len(v) < 30 and not v.endswith('\\') and v not in TEXTS and v not in strs:
                        strs.append(v)
                    elif isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) < 1e9:
                        nums += [x for x in (v, v + 1, v - 1) if x not in nums and x not in NUMS]
        except Exception:
            pass
        _mined[key] = (strs[:60], nums[:40])
    return _mined[key]


def forced(v):
    return lambda g, t, p, d: copy.deepcopy(v)


def long_list(g, t, path, d, n):
    few = [g.value(t, '%s[%d]' % (path, i), max(d, 3)) for i in range(min(n, 12))]
    return [copy.deepcopy(few[i % len(few)]) for i in range(n)]


def pattern(g, t, path, d, w):
    made = {}
    for i, c in enumerate(w):
        if c not in made:
            made[c] = g.value(t, '%s[%d]' % (path, i), max(d, 3))
    return [copy.deepcopy(made[c]) for c in w]


def variants(t, wide, extra=((), ())):
    """Interesting values of one field: list of (label, chooser)."""
    out = []
    if isinstance(t, D.TOpt):
        if not t.wonly or wide:
            out.append(('absent', forced(None)))
        t2 = t.t
        for l, c in variants(t2, wide, extra):
            out.append((l, c))
        if not out or all(l == 'absent' for l, c in out):
            out.append(('present', lambda g, tt, p, d: g.value(t2, p + '!', d)))
        return out
    if isinstance(t, D.TBool):
        return [('true', forced(True)), ('false', forced(False))]
    if isinstance(t, D.TNum):
        vals = [0, 1, -1, 0.5, 12] if t.fix is not None else [x for x in INTS if x >= 0 or not t.nat] if t.int_ else NUMS + list(extra[1])
        return [('=%r' % v, forced(v)) for v in vals]
    if isinstance(t, D.TText):
        return [('=%r' % v, forced(v)) for v in TEXTS + list(extra[0]) if v not in t.excl]
    if isinstance(t, D.TLayer):
        return [('=%r' % v, forced(v)) for v in LAYERS]
    if isinstance(t, D.TWord):
        return [('=%r' % v, forced(v)) for v in WORDS]
    if isinstance(t, D.TBare):
        return [('=%r' % v, forced(v)) for v in BARES + [x for x in extra[0] if re.fullmatch(r'[A-Za-z][\w.]*', x)] + ([''] if t.empty else [])]
    if isinstance(t, D.TEnum):
        return [('=%r' % v, forced(v)) for v in t.vals]
    if isinstance(t, D.TList):
        ns = [n for n in (0, 1, 2, 3, 4, 5, 9, 40) if n >= t.lo and (t.hi is None or n <= t.hi)]
        if not (ns):
            ns = [t.lo]
        vs = [('len %d' % n, lambda g, tt, p, d, n=n: [g.value(t.t, '%s[%d]' % (p, i), max(d, 3 if n > 3 else d)) for i in range(n)]) for n in ns]
        for n in sorted({x + 1 for x in extra[1] if isinstance(x, int) and 6 < x < 20000 and x not in ns and x + 1 not in ns} if t.hi is None else ())[:3]:
            vs.append(('len %d' % n, lambda g, tt, p, d, n=n: long_list(g, t.t, p, d, n)))
        if t.hi is None:
            # equal entries: next to each other, around another one, first and last
            vs += [('pattern ' + w, lambda g, tt, p, d, w=w: pattern(g, t.t, p, d, w)) for w in ('aab', 'aba', 'abcda') if len(w) >= t.lo]
        if isinstance(t.t, D.TUnion):
            for a in t.t.alts:
                vs.append(('one ' + a.key, lambda g, tt, p, d, a=a: [g.value(a, p + '[0]', d)]))
        elif not isinstance(t.t, D.TObj):
            for l, c in variants(t.t, wide):
                vs.append(('elem ' + l, lambda g, tt, p, d, c=c: [c(g, t.t, p + '[0]', d)] * max(1, t.lo)))
        return vs
    if isinstance(t, D.TDict):
        def mk(n):
            def f(g, tt, p, d):
                r = {}
                for _ in range(50):
                    if len(r) < n:
                        r[g.value(t.k, p + '.k', d)] = g.value(t.v, p + '.v', d)
                return r
            return f
        vs = [('len %d' % n, mk(n)) for n in (0, 1, 2, 7)]
        for l, c in variants(t.k, wide):
            vs.append(('key ' + l, lambda g, tt, p, d, c=c: {c(g, t.k, p, d): g.value(t.v, p + '.v', d)}))
        for l, c in variants(t.v, wide):
            vs.append(('value ' + l, lambda g, tt, p, d, c=c: {g.value(t.k, p + '.k', d): c(g, t.v, p, d)}))
        return vs
    if isinstance(t, D.TUnion):
        return [('is ' + a.key, lambda g, tt, p, d, a=a: g.value(a, p + '!', d)) for a in t.alts]
    return []


def base_force(tab, cls, kind, wide):
    f = {}
    for n in [x.name for x in cls.__dataclass_fields__.values()]:
        t = tab.fields.get(n)
        if isinstance(t, D.TOpt) and (not t.wonly or wide):
            f['o.' + n] = forced(None) if kind == 'min' else (lambda g, tt, p, d: g.value(tt.t, p + '!', d))
        elif isinstance(t, D.TBool):
            f['o.' + n] = forced(kind == 'max')
        elif isinstance(t, D.TList) and kind == 'min':
            f['o.' + n] = lambda g, tt, p, d: [g.value(tt.t, '%s[%d]' % (p, i), d) for i in range(tt.lo)]
        elif isinstance(t, D.TList) and kind == 'max':
            f['o.' + n] = lambda g, tt, p, d: [g.value(tt.t, '%s[%d]' % (p, i), d + 1) for i in range(min(max(2, tt.lo), tt.hi or 99))]
    return f


def objects(key, seed, n_random, wide=False, fields=None):
    """Systematic then random objects of the domain of class `key`: (label, thunk)."""
    tab = D.table()[key]
    cls = cls_of(key)
    ty = D.TObj(key)

    def make(soft, force, s, depth=4, kind=Gen):
        def thunk():
            g = kind(random.Random('%s/%s/%s' % (seed, key, s)), wide, depth)
            g.force, g.soft = force, soft
            return g.obj(ty, 'o', 0)
        return thunk
    yield 'min', make(base_force(tab, cls, 'min', wide), {}, 'min')
    yield 'max', make(base_force(tab, cls, 'max', wide), {}, 'max')
    yield 'all alike', make({}, {}, 'same', 3, Same)
    # the words the reader itself knows, and near misses of them, as the texts at every depth
    near = []
    for v in mined(key)[0][:40]:
        if re.search('[A-Za-z]', v):
            near += [x for x in (v, v.upper(), v.lower(), v.title(), v.replace(' ', ''), v + ' ') if x not in near]
    for v in near:
        yield 'all texts %r' % v, make(base_force(tab, cls, 'max', wide), {}, 'text', 3, same_text(v))
    for n in [x.name for x in cls.__dataclass_fields__.values()]:
        if fields is not None and n not in fields:
            continue
        t = tab.fields.get(n)
        if t is None or isinstance(t, D.TSkip):
            continue
        for l, c in variants(t, wide, mined(key)):
            for kind in ('min', 'max'):
                f = base_force(tab, cls, kind, wide)
                yield '%s %s (%s)' % (n, l, kind), make(f, {'o.' + n: c}, n + l + kind)
    for i in range(n_random):
        yield 'random %d' % i, make({}, {}, 'r%d' % i, 3 if i % 4 else 5)


# ------------------------------------------------------------------ comparison
def diff(a, b, t, path, out, wide=False):
    if len(out) > 5:
        return
    if isinstance(t, D.TSkip):
        return
    if isinstance(t, D.TOpt):
        if a is None:
            if t.wonly:
                return
            if b is not None:
                out.append('%s: unset came back as %s' % (path, short(b)))
            return
        return diff(a, b, t.t, path, out)
    if isinstance(t, D.TUnion):
        for x in t.alts:
            if key_for(a) == x.key:
                return diff(a, b, x, path, out)
        out.append('%s: %s' % (path, type(a)))
        return
    if isinstance(t, D.TObj):
        if type(a) is not type(b):
            out.append('%s: %s came back as %s' % (path, type(a).__name__, short(b)))
            return
        tab = D.table()[t.key]
        for n in a.__dataclass_fields__:
            ty = t.over.get(n, tab.fields.get(n))
            if ty is None or n in tab.hints:
                continue
            if not hasattr(b, n):
                out.append('%s.%s missing' % (path, n))
                continue
            diff(getattr(a, n), getattr(b, n), ty, path + '.' + n, out)
        return
    if isinstance(t, D.TList):
        if not isinstance(b, list) or len(a) != len(b):
            out.append('%s: %d elements came back as %s' % (path, len(a), short(b) if not isinstance(b, list) else '%d elements' % len(b)))
            return
        for i, (x, y) in enumerate(zip(a, b)):
            diff(x, y, t.t, '%s[%d]' % (path, i), out)
        return
    if isinstance(t, D.TDict):
        if not isinstance(b, dict) or list(a.items()) != list(b.items()):
            out.append('%s: %s came back as %s' % (path, short(a), short(b)))
        return
    if isinstance(t, (D.TNum,)):
        if isinstance(b, bool) or not isinstance(b, (int, float)) or a != b:
            out.append('%s: %r came back as %s' % (path, a, short(b)))
        return
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool)) or a != b:
        out.append('%s: %s came back as %s' % (path, short(a), short(b)))


def short(x):
    r = repr(x)
    return r if len(r) < 80 else r[:77] + '...'


# ------------------------------------------------------------ object -> source
def code(o):
    if hasattr(o, '__dataclass_fields__'):
        return '%s(%s)' % (key_for(o), ', '.join('%s=%s' % (n, code(getattr(o, n))) for n in o.__dataclass_fields__))
    if isinstance(o, list):
        return '[%s]' % ', '.join(map(code, o))
    if isinstance(o, dict):
        return '{%s}' % ', '.join('%r: %s' % (k, code(v)) for k, v in o.items())
    return repr(o)


def uncode(s):
    ns = {}
    for m in ['board', 'footprint', 'schematic', 'symbol', 'wks', 'dru', 'libraries'] + ['items.' + x for x in
              ('common', 'brditems', 'gritems', 'fpitems', 'zones', 'dimensions', 'schitems', 'syitems')]:
        ns[m.split('.')[-1]] = importlib.import_module('kiutils.' + m)
    return eval(s, ns)


# ------------------------------------------------------------------- checks
_layouts = {}


def layouts(o):
    if type(o) not in _layouts:
        _layouts[type(o)] = layouts_(o)
    return [dict(x) for x in _layouts[type(o)]]


def layouts_(o):
    fn = type(o).to_sexpr
    ps = inspect.signature(fn).parameters
    out = [{}]
    for kw in ({'indent': 0, 'newline': False}, {'indent': 3, 'newline': True}, {'indent': 0, 'newline': True}, {'indent': 4, 'newline': False}):
        out.append({k: v for k, v in kw.items() if k in ps})
    try:
        nums = sorted({int(x) for x in re.findall(r'indent\w*\W{1,6}(\d+)|(?<=[\s(])(\d+)\W{1,6}indent', inspect.getsource(fn)) for x in x if x and int(x) < 500})
    except Exception:
        nums = []
    if 'indent' in ps:
        out.append({'indent': 64})
        for x in nums[:6]:
            out += [{'indent': y} for y in (x - 1, x, x + 1) if y > 8]
    for p in ps.values():
        if p.name not in ('self', 'indent', 'newline') and isinstance(p.default, bool):
            out.append({p.name: not p.default})
            if 'indent' in ps:
                out.append({p.name: not p.default, 'indent': 0, 'newline': False})
    u = []
    for x in out:
        if x not in u:
            u.append(x)
    return u


def wrap(key, text):
    """The text handed to the reader for this class (design rule files are wrapped)."""
    return '(' + text + ')' if D.table()[key].shape in ('seq', 'inline') else text


def check_rt(o, key, what=('rt', 'one', 'none'), all_layouts=True, wide=False):
    """list of (kind, message)"""
    from kiutils.utils import sexpr
    out = []
    tab = D.table()[key]
    tree0 = None
    for kw in (layouts(o) if all_layouts else [{}]):
        try:
            text = o.to_sexpr(**kw)
        except Timeout:
            raise
        except Exception as e:
            out.append(('raise', 'to_sexpr(%s) raised %s: %s' % (fmt_kw(kw), type(e).__name__, e)))
            continue
        if not isinstance(text, str):
            out.append(('one', 'to_sexpr(%s) returned %s' % (fmt_kw(kw), short(text))))
            continue
        try:
            top = ref_parse(wrap(key, text))
        except Bad as e:
            out.append(('balance', 'to_sexpr(%s): %s' % (fmt_kw(kw), e)))
            continue
        if tab.shape == 'optlist' and not top:
            continue
        if len(top) != 1 or not isinstance(top[0], list):
            out.append(('one', 'to_sexpr(%s) is not one S-expression but %d items' % (fmt_kw(kw), len(top))))
            continue
        if 'none' in what and has_none(top):
            out.append(('none', 'to_sexpr(%s) contains None for an unset attribute' % fmt_kw(kw)))
        if tree0 is None:
            tree0 = top
        elif top != tree0:
            out.append(('layout', 'content depends on layout arguments %s' % fmt_kw(kw)))
        if 'rt' in what and tab.shape != 'inline':
            try:
                tree = sexpr.parse_sexp(wrap(key, text))
            except Timeout:
                raise
            except BaseException as e:
                out.append(('parse', 'parse_sexp rejected to_sexpr(%s): %s %s' % (fmt_kw(kw), type(e).__name__, e)))
                continue
            if tree != top[0]:
                out.append(('lex', 'parse_sexp read %s for %s' % (short(tree), short(top[0]))))
            try:
                o2 = type(o).from_sexpr(tree)
            except Timeout:
                raise
            except Exception as e:
                out.append(('load', 'from_sexpr rejected its own output: %s: %s' % (type(e).__name__, e)))
                continue
            d = []
            diff(o, o2, D.TObj(key), key.split('.')[1], d, wide)
            for m in d:
                out.append(('field', m))
        if len(out) > 6:
            break
    return out


def fmt_kw(kw):
    return ', '.join('%s=%r' % x for x in kw.items())


KINDS = {'rt': check_rt}


SAMPLES = []


def search(key, seed, n_random, budget, check, wide=False, stop=1, fields=None, per=5.0):
    """Run `check(obj)` over the domain.  Returns (n_cases, n_distinct, failures)."""
    t0 = time.time()
    n, bad, seen, infeas = 0, [], set(), 0
    for label, thunk in objects(key, seed, n_random, wide, fields):
        if time.time() - t0 > budget:
            break
        try:
            o = thunk()
        except Infeasible:
            infeas += 1
            continue
        n += 1
        try:
            src = code(o)
            seen.add(hash(src))
            if n % 97 == 5 and len(src) < 3000:
                SAMPLES.append(label + ': ' + src)
            with alarm(per):
                r = check(o)
        except Timeout as e:
            r = [('timeout', str(e))]
        if r:
            bad.append((label, src, r))
            if len(bad) >= stop:
                break
    return n, len(seen), bad


class Hinted(Gen):
    """Objects following a solver model (path -> value)."""

    def __init__(self, rng, hints, wide=False, level=0):
        Gen.__init__(self, rng, wide, 4)
        self.h, self.level = hints, level
        self.soft = {k[:-1]: None for k in hints if k.endswith('#')}

    def value(self, t, path, d=0):
        h = self.h
        if isinstance(t, D.TOpt):
            if t.wonly and not self.wide:
                return self.value(t.t, path, d)
            if path + '?' in h:
                return self.value(t.t, path, d) if h[path + '?'] else None
            return self.pick(t, path, d)
        if isinstance(t, D.TUnion):
            names = t.names()
            alt = None
            known = any(path + ':is:' + n in h for n in names)
            for n, a in zip(names, t.alts):
                if h.get(path + ':is:' + n):
                    alt = (n, a)
                    break
            if alt is None:
                alt = (names[-1], t.alts[-1]) if known else self.r.choice(list(zip(names, t.alts)))
            return self.value(alt[1], path + ':' + alt[0], d)
        if isinstance(t, D.TList):
            n = h.get(path + '#')
            if n is None or n > 20000 or (n > 60 and d):
                return self.pick(t, path, d)
            if n > 60:
                return long_list(self, t.t, path, d, n)
            g = h.get(path + '@', 0)
            any_ = any(k.startswith(path + '[*]') for k in h)
            return [self.value(t.t, path + '[*]' if (any_ and (i == g or n == 1)) else '%s[%d]' % (path, i), d + 1) for i in range(n)]
        if isinstance(t, D.TDict):
            n = h.get(path + '#')
            if n is None or n > 60:
                return self.pick(t, path, d)
            r = {}
            for i in range(n * 20):
                if len(r) < n:
                    q = path + '[*]' if not r else path + '[%d]' % i
                    r[self.value(t.k, q + '.key', d)] = self.value(t.v, q + '.val', d)
            return r
        if path.endswith('.entryName') and h.get(path[:-10] + '!sfx'):
            return self.r.choice(['R_0_1', 'a b_12_3', 'X_1_0'])
        if path in h:
            v = h[path]
            if isinstance(t, D.TNum) and isinstance(v, (int, float)) and not isinstance(v, bool):
                return int(v) if float(v).is_integer() and self.level % 2 == 0 else v
            if isinstance(t, D.TBool) and isinstance(v, bool):
                return v
            if isinstance(v, dict):          # fresh text with properties
                if isinstance(t, D.TText):
                    return text_with(v, self.r)
                if isinstance(t, D.TLayer) and v.get('has'):
                    return ('L' if '*.' in v['has'] or '&' in v['has'] else 'L "x" ') + ''.join(v['has'])
            elif isinstance(v, str) and isinstance(t, (D.TText, D.TWord, D.TBare, D.TLayer)):
                return v
            elif isinstance(t, D.TEnum) and v in t.vals:
                return v
        return self.pick(t, path, d)


def text_with(v, rng):
    s = rng.choice(['t', 'name', 'x y', 'abc'])
    n = v.get('len')
    if n is not None and 0 < n < 100000 and not v.get('has'):
        s = (s * (n // len(s) + 1))[:n]
    if v.get('quote'):
        s = s[:1] + '"' + s[1:]
    for x in v.get('has', ()):
        s += x
    if v.get('notbare') and ' ' not in s:
        s += ' y'
    return s
