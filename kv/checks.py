"""Concrete checks by name: check(o, key) -> [(kind, message)]."""
import copy, time, random, re, itertools
from . import concrete as C, dom as D

CHECKS = {}


def check(name):
    def deco(f):
        CHECKS[name] = f
        return f
    return deco


@check('rt')
def _rt(o, key):
    return [x for x in C.check_rt(o, key, what=('rt',)) if x[0] != 'layout']


@check('shape')
def _shape(o, key):
    return [x for x in C.check_rt(o, key, what=('rt',)) if x[0] in ('balance', 'one', 'layout', 'parse', 'lex')]


def run_job(job):
    """job: check, key, seed, n_random, budget, fields, hints, wide, objects, kinds"""
    kind = job.get('kind', 'search')
    if kind in SPECIAL:
        return SPECIAL[kind](job)
    fn = CHECKS[job['check']]
    key = job['key']
    kinds = job.get('kinds')

    def run(o):
        r = fn(o, key)
        return [x for x in r if not kinds or x[0] in kinds]
    res = {'n': 0, 'distinct': 0, 'bad': [], 'infeasible': 0}
    for src in job.get('objects', ()):
        o = C.uncode(src)
        res['n'] += 1
        try:
            with C.alarm(10):
                r = run(o)
        except C.Timeout as e:
            r = [('timeout', str(e))]
        if r:
            res['bad'].append(['replay', src, r])
    if job.get('hints') is not None:
        t0 = time.time()
        for i in range(job.get('hint_tries', 25)):
            if time.time() - t0 > 15:
                break
            g = C.Hinted(random.Random('%s/%d' % (job['seed'], i)), job['hints'], wide=job.get('wide', False), level=i)
            try:
                o = g.obj(D.TObj(key), 'o', 0)
            except C.Infeasible:
                res['infeasible'] += 1
                continue
            res['n'] += 1
            try:
                src = C.code(o)
                with C.alarm(10):
                    r = run(o)
            except C.Timeout as e:
                r = [('timeout', str(e))]
            if r:
                res['bad'].append(['counterexample of the failed obligation', src, r])
                return res
        res['hint_runs'] = res['n']
    if job.get('search', True):
        n, u, bad = C.search(key, job['seed'], job['n_random'], job['budget'], run, wide=job.get('wide', False),
                             fields=job.get('fields'), stop=job.get('stop', 1))
        res['n'] += n
        res['distinct'] += u
        res['bad'] += [list(b) for b in bad]
        res['samples'] = C.SAMPLES[:2]
    return res


SPECIAL = {}


def text_fields(key):
    from . import props
    return props.text_fields(key)


@check('text')
def _text(o, key):
    fs = set(text_fields(key))
    out = []
    for k, m in C.check_rt(o, key, what=('rt',), all_layouts=False):
        if k == 'layout':
            continue
        x = re.match(r'\w+\.(\w+)', m) if k == 'field' else None
        if x is None or x.group(1) not in fs:
            # only if it does not happen with ordinary texts
            rest = C.check_rt(plain_texts(o, key), key, what=('rt',), all_layouts=False)
            if any(k2 != 'field' or x is not None and re.match(r'\w+\.' + x.group(1) + r'\b', m2) for k2, m2 in rest):
                continue
            m += ' (not so with ordinary texts)'
        out.append((k, m))
    return out


def plain_texts(o, key):
    """A copy whose free texts, at every depth, are unremarkable words."""
    n = [0]

    def go(v, t):
        if isinstance(t, D.TOpt):
            return None if v is None else go(v, t.t)
        if isinstance(t, (D.TText, D.TWord, D.TLayer)) and isinstance(v, str):
            n[0] += 1
            return v if v in ('*.Cu', 'F&B.Cu', '*.Mask') else 'word%d' % n[0]
        if isinstance(t, D.TList) and isinstance(v, list):
            return [go(x, t.t) for x in v]
        if isinstance(t, D.TDict) and isinstance(v, dict):
            return {go(a, t.k): go(b, t.v) for a, b in v.items()}
        if isinstance(t, D.TUnion):
            alts = [a for a in t.alts if C.cls_of(a.key) is type(v)]
            return go(v, alts[0]) if len(alts) == 1 else v
        if isinstance(t, D.TObj) and hasattr(v, '__dataclass_fields__'):
            tab = D.table()[t.key]
            q = copy.deepcopy(v)
            for f in v.__dataclass_fields__:
                ty = t.over.get(f, tab.fields.get(f))
                if ty is not None:
                    setattr(q, f, go(getattr(v, f), ty))
            return q if C.inv_ok(q, tab) else v
        return v
    return go(o, D.TObj(key))


@check('opt')
def _opt(o, key):
    from . import props
    fs = set(props.opt_fields(key))
    out = []
    for k, m in C.check_rt(o, key, what=('rt',), all_layouts=False):
        x = re.match(r'\w+\.(\w+)', m)
        if k == 'field' and x and x.group(1) in fs:
            out.append((k, m))
    return out


def known(job):
    """A recorded finding still fails?"""
    ns = {}
    exec(job['expr'], ns)
    return {'n': 1, 'distinct': 1, 'bad': [], 'fails': bool(ns['fails']())}


SPECIAL['known'] = known


def mut_ids(o, acc=None, path='o'):
    """id -> path of every mutable object reachable"""
    acc = {} if acc is None else acc
    if id(o) in acc:
        return acc
    if hasattr(o, '__dataclass_fields__'):
        acc[id(o)] = path
        for n in list(vars(o)):
            mut_ids(getattr(o, n), acc, path + '.' + n)
    elif isinstance(o, (list, tuple, set)):
        if not isinstance(o, tuple):
            acc[id(o)] = path
        for i, x in enumerate(o):
            mut_ids(x, acc, '%s[%d]' % (path, i))
    elif isinstance(o, dict):
        acc[id(o)] = path
        for k, x in o.items():
            mut_ids(x, acc, path + '[%r]' % (k,))
    return acc


def class_state(key):
    cls = C.cls_of(key)
    import sys
    m = sys.modules[cls.__module__]
    out = {}
    for d in (vars(cls), vars(m)):
        for n, v in d.items():
            if not n.startswith('__') and isinstance(v, (list, dict, set, int, float, str, bool)) or hasattr(v, '__dataclass_fields__') and not isinstance(v, type):
                out[n] = C.code(v) if not isinstance(v, set) else repr(sorted(map(repr, v)))
    return out


def extras(o, path='', acc=None, seen=None):
    """attributes of the objects that are not among their declared fields"""
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if id(o) in seen:
        return acc
    seen.add(id(o))
    if hasattr(o, '__dataclass_fields__'):
        for n, v in vars(o).items():
            if n not in o.__dataclass_fields__:
                acc.append('%s.%s = %.200r' % (path, n, v))
            else:
                extras(v, path + '.' + n, acc, seen)
    elif isinstance(o, (list, tuple)):
        for i, x in enumerate(o):
            extras(x, '%s[%d]' % (path, i), acc, seen)
    elif isinstance(o, dict):
        for k, x in o.items():
            extras(x, '%s[%r]' % (path, k), acc, seen)
    return acc


def written(o, kw):
    try:
        return o.to_sexpr(**kw)
    except C.Timeout:
        raise
    except Exception as e:
        return 'raises ' + type(e).__name__


def leaves(o, path='', out=None):
    out = [] if out is None else out
    for n in o.__dataclass_fields__:
        v = getattr(o, n)
        if hasattr(v, '__dataclass_fields__'):
            leaves(v, path + '.' + n, out)
        elif isinstance(v, (bool, int, float, str)) and n not in ('filePath', 'precision'):
            out.append((o, n, path + '.' + n))
        elif isinstance(v, list) and v and hasattr(v[0], '__dataclass_fields__'):
            leaves(v[-1], path + '.' + n + '[-1]', out)
    return out


def stale(o, key):
    """written again after a change, an object gives the text of an equal object that was never written before"""
    ls = leaves(o)
    random.Random(len(ls)).shuffle(ls)
    for ob, n, path in ls[:3]:
        old = getattr(ob, n)
        setattr(ob, n, (not old) if isinstance(old, bool) else old + 1 if isinstance(old, (int, float)) else old + 'x')
        try:
            for kw in C.layouts(o)[:2]:
                if written(o, kw) != written(C.uncode(C.code(o)), kw):
                    return [('frame', 'after writing the object and setting %s to %r, to_sexpr(%s) differs from that of an equal object' % (path[1:], getattr(ob, n), C.fmt_kw(kw)))]
        finally:
            setattr(ob, n, old)
    return []


@check('frame')
def _frame(o, key):
    a = C.code(o)
    ex = extras(o)
    ids = list(mut_ids(o))
    g = class_state(key)
    out, prev = [], {}
    for rnd in (0, 1):
        for i, kw in enumerate(C.layouts(o)):
            try:
                t = o.to_sexpr(**kw)
            except C.Timeout:
                raise
            except Exception as e:
                t = 'raises ' + type(e).__name__
            if rnd and prev[i] != t:
                out.append(('determinism', 'to_sexpr(%s) gave different texts for the same object' % C.fmt_kw(kw)))
            prev[i] = t
            b = C.code(o)
            if a != b:
                k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), 0)
                return out + [('frame', 'to_sexpr(%s) changed the object: ...%s -> ...%s' % (C.fmt_kw(kw), a[max(0, k - 40):k + 40], b[max(0, k - 40):k + 40]))]
    if ids != list(mut_ids(o)):
        out.append(('frame', 'to_sexpr replaced sub-objects'))
    ex2 = extras(o)
    if ex != ex2:
        out.append(('frame', 'to_sexpr changed the object: %s' % (sorted(set(ex) ^ set(ex2))[:2],)))
    out += stale(o, key)
    g2 = class_state(key)
    for n in sorted(set(g) | set(g2)):
        if g.get(n) != g2.get(n):
            out.append(('frame', 'to_sexpr changed %s' % n))
    return out


@check('iso')
def _iso(o, key):
    import copy
    out = []
    cls = type(o)
    try:
        a, b = cls(), cls()
    except TypeError:
        a = None
    if a is not None:
        x, y = mut_ids(a), mut_ids(b)
        for i in x:
            if i in y:
                out.append(('shared', 'two default %s objects share %s' % (cls.__name__, x[i])))
                break
    if D.table()[key].shape in ('none', 'inline'):
        return out
    g = class_state(key)
    try:
        text = o.to_sexpr()
        top = C.ref_parse(C.wrap(key, text))
    except (C.Bad, Exception):
        return out
    if len(top) != 1:
        return out
    for lab, t in variants(plain(top[0])):
        r = iso_tree(cls, t)
        out += [(k, m + lab) for k, m in r]
        if out:
            break
    g2 = class_state(key)
    for n in sorted(set(g) | set(g2)):
        if g.get(n) != g2.get(n):
            out.append(('mutated', 'loading changed %s' % n))
    return out


def variants(t):
    """the tree; without one of its list entries or closing words; with list entries repeated; only its head"""
    yield '', t
    yield ' (head only)', t[:1]
    idx = list(range(1, len(t)))
    if len(idx) > 12:
        idx = sorted(random.Random(len(t)).sample(idx, 12))
    for i in idx:
        if isinstance(t[i], list) or not any(isinstance(x, list) for x in t[i:]):
            yield ' (entry %d missing)' % i, t[:i] + t[i + 1:]
        if isinstance(t[i], list):
            yield ' (entry %d twice)' % i, t[:i + 1] + [plain(t[i])] + t[i + 1:]
            ls = t[i][1:]
            if ls and all(isinstance(x, list) and x and x[0] in ('xy', ls[0][0]) for x in ls) and ls[0][0] == 'xy':
                yield ' (entry %d.1 twice)' % i, t[:i] + [t[i][:2] + [plain(t[i][1])] + t[i][2:]] + t[i + 1:]


def iso_tree(cls, t1):
    import copy
    out = []
    orig = copy.deepcopy(t1)
    t2 = copy.deepcopy(t1)
    snap = repr(t1)
    try:
        o1 = cls.from_sexpr(t1)
    except C.Timeout:
        raise
    except Exception:
        return out
    if repr(t1) != snap:
        out.append(('mutated', 'from_sexpr changed the tree it was given'))
    try:
        o2 = cls.from_sexpr(t2)
        o3 = cls.from_sexpr(orig)
    except C.Timeout:
        raise
    except Exception as e:
        return out + [('mutated', 'loading the same tree again fails: %s' % e)]
    if C.code(o2) != C.code(o3) or C.code(o1) != C.code(o2):
        out.append(('history', 'loading the same tree again gives a different object'))
    x, y, z = mut_ids(o1), mut_ids(t1), mut_ids(o2)
    for i in x:
        if i in y:
            out.append(('shared', 'the loaded object shares %s with the parsed tree' % (x[i] or 'itself')))
            break
    for i in x:
        if i in z:
            out.append(('shared', 'two loaded objects share %s' % (x[i] or 'themselves')))
            break
    al = aliases(o1)
    if al:
        out.append(('shared', 'in the loaded object %s and %s are the same object' % al[0]))
    return out


def aliases(o):
    seen, out = {}, []

    def walk(o, path):
        if hasattr(o, '__dataclass_fields__') or isinstance(o, (list, dict, set)):
            if id(o) in seen:
                out.append((seen[id(o)], path))
                return
            seen[id(o)] = path
        if hasattr(o, '__dataclass_fields__'):
            for n, v in vars(o).items():
                walk(v, path + '.' + n)
        elif isinstance(o, (list, tuple)):
            for i, x in enumerate(o):
                walk(x, '%s[%d]' % (path, i))
        elif isinstance(o, dict):
            for k, x in o.items():
                walk(x, '%s[%r]' % (path, k))
    walk(o, '')
    return out


def plain(t):
    return [plain(x) for x in t] if isinstance(t, list) else str(t) if isinstance(t, str) else t


@check('none')
def _none(o, key):
    out = []
    for kw in C.layouts(o):
        try:
            text = o.to_sexpr(**kw)
        except C.Timeout:
            raise
        except Exception as e:
            out.append(('raise', 'to_sexpr(%s) raised %s: %s' % (C.fmt_kw(kw), type(e).__name__, e)))
            continue
        try:
            top = C.ref_parse(C.wrap(key, text))
        except C.Bad:
            continue
        if C.has_none(top):
            out.append(('none', 'to_sexpr(%s) writes None for an unset attribute' % C.fmt_kw(kw)))
    return out


def bad_inputs(key):
    from .oblig2 import heads
    hs, lo, hi = heads()[key]
    allh = sorted({h for x in heads().values() for h in x[0] if h[0] != '@'} | {'', 'x', 'kicad_pcb2', 'KICAD_PCB'})
    out = ['None', "''", "'text'", '0', '1', '2.5', 'True', '()', '{}', 'set()', '[]', '[[]]', 'object()', "b'x'"]
    out += ["(%r,)" % h for h in hs] + ["%r" % h for h in hs] + ["{%r: 1}" % h for h in hs]
    out += ["(%r, 'a', 'b', 1, ['at', 1, 2], ['layers', 'F.Cu'])" % h for h in hs] + ["(%r, %s)" % (h, ', '.join(["'a'"] * k)) for h in hs for k in (1, 2, 3, 5)]
    fill = ['1', "'a'", "['at', 1, 2]", "['layers', 'F.Cu']", "['x']", "['uuid', 'a']"]
    own = hs if hs != ['@version'] else []
    if hs == ['@version']:
        out += ["['version', 1]", "[['rule', 'x']]", "[['Version', 1]]", "[['rule', 'x'], ['version', 1]]", "['version']"]
    elif hs:
        for h in allh + [0, 1.5, None]:
            if h in own:
                continue
            out.append('[%r]' % (h,))
            for f in fill:
                out.append('[%r, %s]' % (h, ', '.join([f] * 4)))
            out.append('[%r, %s]' % (h, ', '.join(fill)))
            for o in own:
                out.append('[%r, %r, %s]' % (h, o, ', '.join(fill)))
        out += ['[[%r]]' % own[0], '[[%r, 1, 2, 3], 1, 2, 3]' % own[0], '[%r]' % (own[0].upper()), '[%r, 1, 2, 3, 4]' % (own[0] + ' '),
                '[%r, 1, 2, 3, 4]' % own[0][:-1], '[%r, 1, 2, 3, 4]' % (own[0] + 's')]
        near = []
        for o in own:
            near += [o.replace('_', x) for x in ('-', '', ' ', '__', '.')] + [o.title(), o.capitalize(), o.swapcase(), ' ' + o, o + '\n', o + '\0', '"%s"' % o, o[1:], o[::-1], o * 2, o + '2', 'x' + o]
            ms = [m for m in C.mined(key)[0] if 0 < len(m) < 12]
            near += [m + o for m in ms] + [o + m for m in ms] + [o.replace(a, b) for a in ms if a in o for b in ms if len(a) < 4 and len(b) < 4]
            near += [o.replace(b, a) for b in ('_',) for a in ms]
        for h in sorted(set(near) - set(own)):
            out += ['[%r, %s]' % (h, ', '.join([f] * 4)) for f in fill] + ['[%r]' % h, '[%r, %s]' % (h, ', '.join(fill))]
    for h in own or ['at']:
        for n in list(range(1, lo)) + (list(range(hi + 1, hi + 5)) if hi is not None else []):
            for f in fill:
                out.append('[%s]' % ', '.join([repr(h)] + [f] * (n - 1)))
    return out


def reject(job):
    """Every given (or generated) wrong input is refused with an exception."""
    key = job['key']
    cls = C.cls_of(key)
    bad, n = [], 0
    srcs = job.get('inputs')
    for src in srcs if srcs is not None else bad_inputs(key):
        v = eval(src)
        n += 1
        try:
            with C.alarm(5):
                r = cls.from_sexpr(v)
        except C.Timeout as e:
            bad.append(['timeout', dict(kind='reject', key=key, inputs=[src]), [('timeout', 'from_sexpr(%s) does not return' % src)]])
        except Exception:
            continue
        else:
            bad.append(['accepted', dict(kind='reject', key=key, inputs=[src]), [('accepted', '%s.from_sexpr(%s) returned %s instead of raising' % (cls.__name__, src, C.short(r)))]])
        if len(bad) > 3:
            break
    if srcs is None and D.table().get(key) and D.table()[key].shape == 'list' and not bad:
        # a well-formed tree under a foreign first token
        from .oblig2 import heads
        hs = heads()[key][0]
        if hs and hs[0][0] != '@':
            for i, (label, thunk) in enumerate(C.objects(key, job.get('seed', 1), 5)):
                if i > 12 or bad:
                    break
                try:
                    t = plain(C.ref_parse(thunk().to_sexpr())[0])
                except Exception:
                    continue
                lo, hi = heads()[key][1:]
                for v in ([t + [x] * k for k in (1, 2) for x in (1, 'a', ['x'], t[-1])] if hi is not None and len(t) == hi else []) + [t[:k] for k in range(1, lo)]:
                    n += 1
                    try:
                        with C.alarm(5):
                            cls.from_sexpr(plain(v))
                    except Exception:
                        continue
                    bad.append(['accepted', dict(kind='reject', key=key, inputs=[repr(v)]), [('accepted', '%s.from_sexpr accepted %d entries: %s' % (cls.__name__, len(v), str(v)[:200]))]])
                    break
                for h in ('kicad_pcb', 'gr_line', 'version', hs[0] + '_'):
                    if h in hs or bad:
                        continue
                    t[0] = h
                    n += 1
                    try:
                        with C.alarm(5):
                            cls.from_sexpr(t)
                    except Exception:
                        continue
                    bad.append(['accepted', dict(kind='reject', key=key, inputs=[repr(t)]), [('accepted', '%s.from_sexpr accepted a (%s ...) expression' % (cls.__name__, h))]])
    return {'n': n, 'distinct': n, 'bad': bad, 'samples': ['from_sexpr(%s) raises' % x for x in bad_inputs(key)[-1:]]}


SPECIAL['reject'] = reject


def expand_star(lit):
    """A list literal with '*' entries -> concrete lists"""
    fills = [[], [1], ['a'], [['at', 1, 2]], [['layers', 'F.Cu'], ['at', 1, 2], 'x'], [['type', 'aligned'], ['layer', 'F.Cu'], ['tstamp', 'x'], ['pts', ['xy', 0, 0], ['xy', 1, 1]]]]

    def ex(x, f):
        if not isinstance(x, list):
            return x
        out = []
        for y in x:
            if y == '*':
                out += f
            else:
                out.append(ex(y, f))
        return out
    seen = []
    for f in fills:
        v = ex(lit, f)
        if v not in seen:
            seen.append(v)
    return seen


def refuse(job):
    """Objects / expressions without a valid representation are refused."""
    from .oblig2 import REFUSE, REFUSE_READ, refuse_obj
    key = job['key']
    cls = C.cls_of(key)
    bad, n, seen = [], 0, set()

    def writes(src, what):
        o = C.uncode(src)
        for kw in C.layouts(o):
            try:
                with C.alarm(5):
                    o.to_sexpr(**kw)
            except Exception:
                continue
            bad.append(['written', dict(kind='refuse', key=key, write=[src]), [('accepted', 'to_sexpr(%s) writes %s instead of raising' % (C.fmt_kw(kw), what))]])
            return

    def reads(lit, what):
        try:
            with C.alarm(5):
                cls.from_sexpr(eval(repr(lit)))
        except Exception:
            return
        bad.append(['read', dict(kind='refuse', key=key, read=[lit]), [('accepted', 'from_sexpr accepts %s: %r' % (what, lit))]])
    if 'write' in job or 'read' in job:
        for s in job.get('write', ()):
            writes(s, 'the object')
        for l in job.get('read', ()):
            reads(l, 'the expression')
        return {'n': 1, 'distinct': 1, 'bad': bad}
    t0 = time.time()
    for what, over, cond in REFUSE.get(key, ()):
        tab = D.table()[key]
        inv0 = tab.invs, tab.cinvs
        tab.invs, tab.cinvs = [cond] if cond else [], []
        try:
            for i in range(60 + 4 * job.get('n_random', 0)):
                if time.time() - t0 > job.get('budget', 10) or bad:
                    break
                g = C.Gen(random.Random('%s/%s/%d' % (job.get('seed', 1), what, i)))
                try:
                    o = g.obj(refuse_obj(key, over, cond), 'o', 0)
                except C.Infeasible:
                    continue
                src = C.code(o)
                n += 1
                seen.add(src)
                writes(src, what)
        finally:
            tab.invs, tab.cinvs = inv0
    for k, what, lits in REFUSE_READ:
        if k == key:
            for lit in lits:
                for v in expand_star(lit):
                    n += 1
                    seen.add(repr(v))
                    reads(v, what)
    return {'n': n, 'distinct': len(seen), 'bad': bad[:3], 'samples': sorted(seen)[:1]}


SPECIAL['refuse'] = refuse


def unit_like(o):
    """A symbol whose plain id looks like that of a unit."""
    return hasattr(o, 'unitId') and hasattr(o, 'entryName') and not o.libraryNickname and o.unitId is None and re.fullmatch(r'.+_\d+_\d+', o.entryName or '', re.S) is not None


IDS = ['a:b', 'a:b:c', 'Device:R', 'R_1_2', 'R_0_1', 'a_b_10_20', 'x_1_2_3', 'a_1', 'a_1_', '_1_2', ':a', 'a:', ':', '::', ':::', 'a_1_2:b', 'a:b_1_2', 'R', 'R-US', '0', '12', 'a b:c d',
       'Ω:µ', 'x"y:z', '1_2_3', '1_2', 'a__1_2', 'a_x_1', 'a_1_x', 'Lib_1_2', 'Lib:', 'MCU_ST:STM32_x', 'None', 'None:None', 'a_1_1_', 'a_-1_1', 'a_1.0_1', ' : ', ' ']


@check('libid')
def _libid(o, key):
    import copy
    out = []
    tab = D.table()[key]
    parts = [n for n in ('libraryNickname', 'entryName', 'unitId', 'styleId') if n in tab.fields]
    nick, entry = o.libraryNickname, o.entryName
    unit = getattr(o, 'unitId', None)
    want = '%s:%s' % (nick, entry) if nick else '%s_%s_%s' % (entry, unit, o.styleId) if unit is not None else entry
    got = o.libId
    if got != want:
        out.append(('libid', 'libId of %s is %r, not %r' % ([getattr(o, n) for n in parts], got, want)))
    a = C.code(o)
    if C.code(o) != a or o.libId != got:
        out.append(('libid', 'reading libId has an effect'))
    r = random.Random(len(a))

    def assign(x, expect=None):
        for _ in range(20):
            try:
                p = C.Gen(r).obj(D.TObj(key), 'o', 2)
                break
            except C.Infeasible:
                pass
        else:
            return
        q = copy.deepcopy(p)
        try:
            p.libId = x
        except C.Timeout:
            raise
        except Exception as e:
            out.append(('libid', 'setting libId to %r raises %s: %s' % (x, type(e).__name__, e)))
            return
        if p.libId != x:
            out.append(('libid', 'libId set to %r reads as %r' % (x, p.libId)))
        if expect and [getattr(p, n) for n in parts] != expect:
            out.append(('libid', 'setting libId to %r gives %s, not %s' % (x, [getattr(p, n) for n in parts], expect)))
        for n in parts:
            setattr(q, n, getattr(p, n))
        for u in getattr(q, 'units', ()):
            u.entryName = p.entryName
        if C.code(q) != C.code(p):
            out.append(('libid', 'setting libId to %r changes something else (or leaves the units behind)' % (x,)))
    assign(want, None if unit_like(o) else [getattr(o, n) for n in parts])
    for x in r.sample(IDS, 4):
        assign(x)
    if nick:
        for e in C.LINES:
            assign(nick + ':' + e, [nick, e] + [None] * (len(parts) - 2))
    return out


SEPS = [' ', '  ', '\n', '\t', '\n    ', ' \r\n\t', '\x0b', '\u2003']
NUMTOK = ['0', '1', '-1', '12', '007', '-0', '1.5', '-1.5', '+1.5', '0.0', '3.0', '100.25', '20221018', '1e-05', '-2.5e-07', '1.0e-10', '123456.789', '0.1', '-0.000001', '1e+16', '-2.5e+20', '12345678901', '1234567890.5', '-98765432101.25', '0.30000000000000004', '1.0000000001', '123456789.12345679', '5e-324', '999999999999.5']
WORDTOK = ['a', 'kicad_pcb', 'x.y', '1a', '1.2.3', '-', '+', '+5', '--1', '1.', '.5', 'a"b', "it's", '0x1f', '5e1f', '1e5', 'é', 'a-b_c', 'F.Cu', '*.Cu', 'a\\b', '1e-', 'None', '~', '{x}', '%', '1,5',
           '00000000-0000-0000-0000-00005f1a7b2c', 'a' * 80, '\\', 'a\\', '1\\', '-x', '+1', '1-2', '12e-1x', '1_000', 'e-5', '\u0661a', 'a^b', '^', '^x', '1e+', '5e+1x',
           '#x', '#', ';x', ';', '//', '/*', '|a|', '@x', '!', '[a]', '`', '$x', '&', '<x>', 'inf', 'nan', 'Infinity', 'a;b', 'a#b', 'e\u0301', '=', ',', ':', '\'', '\'a', 'TRUE', '-inf', '+-1', '1/2', '0b1', '1j']
TEXTTOK = ['', 'a', ' ', 'a b', ')', '(', '()', ') (', '"', '""', '" "', 'a"b', 'a")b', 'a" b', 'x\ny', '\\a', 'a\\b', 'a\\\\b', 'a\\"b', '\\"', '\\\\"', '1', '1.5', 'a^b', '^', '\t', ' x ', 'tab\there', "'", '# c', ';', '")', '" (x) "',
           'é', '\u2003', 'x' * 300, '"\n"', '(a "b" c)', '" ', '")"', 'a\\ b',
           'a\\nb', '\\t', '\\u0041', '\\x41', 'x\n# y\nz', 'x\n; y', 'x\n// y', '/* c */', 'x\n\n\ny', 'x\n   y\n', 'a\rb', 'e\u0301\ufb01', '\ufeff', '\0', '%s', '{0}', '$1', '\\1', '\\g<0>', '&quot;', '&#34;', "''", '\\(', '\\)', 'a  b', '\\\'']


def tok_text(r):
    k = r.random()
    if k < .3:
        v = r.choice(NUMTOK)
        return v, 'num'
    if k < .6:
        return r.choice(WORDTOK), 'word'
    return r.choice(TEXTTOK), 'text'


def lex_tree(r, d):
    """random tree: list of tokens and lists"""
    n = r.choice([0, 1, 1, 2, 3, 5]) if d else r.choice([1, 2, 4])
    out = []
    for _ in range(n):
        if d < 4 and r.random() < .35:
            out.append(lex_tree(r, d + 1))
        else:
            out.append(tok_text(r))
    return out


def lex_render(r, t, seps):
    """text of a tree and the value it must be read as"""
    s, val = '(', []
    for i, x in enumerate(t):
        last = i == len(t) - 1
        nxt = r.choice(seps) if r.random() < .8 or not last else ''
        if isinstance(x, list):
            a, v = lex_render(r, x, seps)
            s += a + (nxt if r.random() < .7 else '')
            val.append(v)
            continue
        v, kind = x
        if kind == 'text':
            s += '"' + v.replace('"', '\\"') + '"' + (nxt or ('' if last else ' '))
            val.append(v)
        else:
            if not last and nxt == '':
                nxt = ' '
            s += v + nxt
            if kind == 'num':
                f = float(v)
                val.append(int(f) if f.is_integer() else f)
            else:
                val.append(v)
    return s + ')', val


def typed(v):
    return [typed(x) for x in v] if isinstance(v, list) else (type(v).__name__, v)


def sexpr_strings():
    """Short texts the parser's source mentions."""
    import ast, inspect, sys
    try:
        t = ast.parse(inspect.getsource(sys.modules['kiutils.utils.sexpr']))
    except Exception:
        return []
    return sorted({n.value for n in ast.walk(t) if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) < 12 and not n.value.endswith('\\') and '\r' not in n.value})


def lex(job):
    """parse_sexp reads every well-formed text as the tree it denotes, and refuses unbalanced ones."""
    from kiutils.utils.sexpr import parse_sexp
    bad, n, seen = [], 0, set()

    def one(text, want):
        try:
            with C.alarm(10):
                got = parse_sexp(text)
        except C.Timeout as e:
            return 'parse_sexp(%s) does not return' % C.short(text)
        except Exception as e:
            return None if want is None else 'parse_sexp(%s) raises %s: %s' % (C.short(text), type(e).__name__, e)
        if want is None:
            return 'parse_sexp(%s) accepts an unbalanced text: %s' % (C.short(text), C.short(got))
        if typed(got) != typed(want):
            return 'parse_sexp(%s) reads %s instead of %s' % (C.short(text), C.short(got), C.short(want))

    def chk(text, want):
        nonlocal n
        n += 1
        seen.add(text)
        m = one(text, want)
        if m:
            bad.append(['text', dict(kind='lex', texts=[[text, want]]), [('lex', m)]])
    if 'texts' in job:
        for text, want in job['texts']:
            chk(text, want)
        return {'n': n, 'distinct': n, 'bad': bad}
    r = random.Random(job.get('seed', 1))
    t0 = time.time()
    if job.get('only') == 'text':
        alpha = ['"', '\\"', '\\', ')', '(', ' ', 'a', '\n', '^', '1', "'", 'é']
        for k in (1, 2, 3):
            for cs in itertools.product(alpha, repeat=k):
                x = ''.join(cs)
                if len(bad) < 3 and not x.endswith('\\'):
                    q = '"' + x.replace('"', '\\"') + '"'
                    chk('(h %s (b) %s\n%s)' % (q, q, q), ['h', x, ['b'], x, x])
        for x in TEXTTOK + ['q' * 300, 'q"' * 40000, 'q' * 1100000]:
            if len(bad) < 3:
                q = '"' + x.replace('"', '\\"') + '"'
                chk('(h %s "z" 1 (b %s))' % (q, q), ['h', x, 'z', 1, ['b', x]])
        return {'n': n, 'distinct': len(seen), 'bad': bad[:3]}
    ms = sexpr_strings()
    ws = [x for m in ms for x in (m, m + 'x', 'x' + m) if re.fullmatch(r'[^\s()"]+', x) and not re.match(r'[+-]?\d', x)]
    extra = [(x, 'word') for x in ws] + [(x, 'text') for m in ms for x in (m, 'x' + m + 'y', 'x\n' + m + ' y') if not x.endswith('\\')]
    extra = [x for x in dict.fromkeys(extra) if x[0] not in WORDTOK + TEXTTOK]
    toks = extra[:120] + [(x, 'num') for x in NUMTOK] + [(x, 'word') for x in WORDTOK] + [(x, 'text') for x in TEXTTOK]
    for a in toks:
        for tree in ([a], [('h', 'word'), a], [a, ('z', 'word')], [[a], a], [a, a], [('h', 'word'), [a], ('1', 'num')], [('q"', 'text'), a, ('q', 'text')]):
            for sp_ in ([' '], ['\n'], SEPS):
                if len(bad) < 3:
                    chk(*lex_render(r, tree, sp_))
    for a in toks:
        for b in toks:
            if len(bad) < 3:
                chk(*lex_render(r, [('h', 'word'), a, b], [' ']))
    for a, k in toks:
        if k != 'text' and len(bad) < 3:
            v = (int(float(a)) if float(a).is_integer() else float(a)) if k == 'num' else a
            chk('(h %s(b) %s\n(%s\t%s\r\n%s))' % ((a,) * 5), ['h', v, ['b'], v, [v, v, v]])
    for d in (1, 2, 10, 60, 130, 300):
        t = [('x', 'word')]
        for _ in range(d):
            t = [('d', 'word'), t, ('1', 'num')]
        if len(bad) < 3:
            chk(*lex_render(r, t, [' ']))
            s = lex_render(r, t, [' '])[0]
            chk(s[:-1], None)
            chk('(' + s, None)
            chk(s + ')', None)
            chk(')' + s, None)
    if len(bad) < 3:
        chk(*lex_render(r, [('1', 'num'), ('a', 'word'), ('"', 'text')] * 700, [' ']))
        for s in ('(', ')', '(()', '())', ')(', '(a (b) c', '(a "b"', '', ' ', '\n', '(a))(', '((a) (b)'):
            chk(s, None)
    import inspect, sys
    nums = [int(x) for x in re.findall(r'(?<![\w.])\d{1,7}(?![\w.])', inspect.getsource(sys.modules['kiutils.utils.sexpr']))]
    for k in sorted({y for x in nums for y in (x - 1, x, x + 1, x + 2) if 0 < y <= 3000000} | {1200, 70000, 1100000}):
        if len(bad) < 3:
            for d in ((k,) if k < 900 else ()):
                w = ['e']
                for _ in range(d):
                    w = ['d', w, 1]
                chk('(d ' * d + '(e)' + ' 1)' * d, w)
            if k <= 100000:
                chk('(h ' + ' '.join(['x 1 "a"'] * k) + ')', ['h'] + ['x', 1, 'a'] * k)
            chk('(h "%s" %s %d %d.5 -%d z)' % ('q' * k, 'w' * k, k, k, k), ['h', 'q' * k, 'w' * k, k, k + .5, -k, 'z'])
    for pre in ('', ' ', '\n', '\t\n '):
        for post in ('', ' ', '\n', '\n\n', ' \t'):
            if len(bad) < 3:
                chk(pre + '(a (b "c d") 1)' + post, ['a', ['b', 'c d'], 1])
    while time.time() - t0 < min(job.get('budget', 5), 60) and n < 3000 + 200 * job.get('n_random', 0) and len(bad) < 3:
        t = lex_tree(r, 0)
        s, v = lex_render(r, t, [' '] if r.random() < .5 else SEPS)
        chk(s, v)
        if r.random() < .2:
            i = r.choice([k for k, c in enumerate(s) if c in '()'])
            try:
                C.ref_parse(s[:i] + s[i + 1:])
            except C.Bad as e:
                if '"' not in s and 'unbalanced' in str(e):
                    chk(s[:i] + s[i + 1:], None)
    return {'n': n, 'distinct': len(seen), 'bad': bad[:3], 'samples': sorted(seen)[5:7]}


SPECIAL['lex'] = lex


# ------------------------------------------------------------------ files (C15)
ENCS = ['utf-8', 'utf-16', 'utf-16-le', 'utf-32', 'utf-8-sig', None, 'latin-1']


ODD = ['~/a', '$KVX/a', '%KVX%/a', '${KVX}', 'Name with  blanks .KICAD ', 'noext', '\u00fc/e\u0301', 'a.b.c', '-', 'x*?[1]', 'file:a', 'a\\b', '.hidden', 'CON', 'x.gz', 'a%20b', 'name.']


def _io_one(o, key, enc, d, i):
    """All file checks for one object in the scratch directory d."""
    import os, pathlib
    cls = type(o)
    bad = []
    o.filePath = None
    try:
        text = o.to_sexpr()
        text.encode(enc or 'utf-8')
        if enc is None:
            text.encode('ascii')
    except C.Timeout:
        raise
    except Exception:
        return []
    snap = C.code(o)
    p1, p2, p3 = (os.path.join(d, '%d%s' % (i, x)) for x in ('a.kicad', 'b.kicad', 'c.kicad'))

    def content(p):
        with open(p, 'rb') as f:
            return f.read().decode(enc or 'ascii')

    def chk(c, kind, msg):
        if not c:
            bad.append((kind, msg))
    try:
        o.to_file()
    except Exception:
        pass
    else:
        bad.append(('nopath', 'to_file() without any path does not raise'))
    chk(C.code(o) == snap, 'frame', 'a refused to_file() changed the object')
    kw = {} if enc is None else {'encoding': enc}
    try:
        if i % 2:
            with open(p1, 'w') as f:
                f.write('old content\n' * 3000)
        o.to_file(p1, **kw)
        chk(C.code(o) == snap, 'frame', 'to_file changed the object')
        chk(content(p1) == text, 'content', 'the file does not hold exactly the serialised object (encoding %s)' % enc)
        o.filePath = p2
        snap2 = C.code(o)
        o.to_file(**kw)
        chk(os.path.isfile(p2) and content(p2) == text, 'content', 'to_file() did not write the object to its filePath')
        chk(C.code(o) == snap2, 'frame', 'to_file changed the object')
        with open(p2, 'wb') as f:
            f.write(b'keep')
        o.to_file(filepath=p3, **kw)
        chk(content(p3) == text, 'content', 'to_file(path) did not write the given path when filePath is set')
        with open(p2, 'rb') as f:
            chk(f.read() == b'keep', 'target', 'to_file(path) wrote to filePath instead')
        chk(C.code(o) == snap2, 'frame', 'to_file(path) changed the object')
        try:
            o.to_file('', **kw)
        except Exception:
            pass
        with open(p2, 'rb') as f:
            chk(f.read() == b'keep', 'target', 'to_file("") wrote to filePath instead')
        try:
            ref = cls.from_sexpr(plain(C.ref_parse(C.wrap(key, text))[0]))
        except Exception:
            ref = None
        for p in (p1, pathlib.Path(p1)):
            b = cls.from_file(p, **kw)
            chk(str(getattr(b, 'filePath', None)) == p1, 'filePath', 'from_file stored %r as filePath' % (getattr(b, 'filePath', None),))
            b.filePath = None
            if ref is not None:
                ref.filePath = None
                chk(C.code(b) == C.code(ref), 'load', 'from_file gives a different object than reading the text (encoding %s)' % enc)
        chk(content(p1) == text, 'content', 'from_file changed the file')
        if i == 0 and ref is not None:
            with open(p3, 'wb') as f:
                f.write((' ' * 1100000 + text).encode(enc or 'ascii'))
            b = cls.from_file(p3, **kw)
            b.filePath = None
            chk(C.code(b) == C.code(ref), 'load', 'from_file does not read the whole of a large file')
        for rel in (os.path.basename(p1), './/' + os.path.basename(p1), os.path.join(d, '..', os.path.basename(d), os.path.basename(p1))):
            os.chdir(d)
            b = cls.from_file(rel, **kw)
            chk(b.filePath == rel, 'filePath', 'from_file(%r) stored %r as filePath' % (rel, b.filePath))
            os.chdir(os.path.dirname(d))
        nd = os.path.join(os.path.dirname(d), 'n')
        for rel in ODD if i < 2 and os.path.isdir(nd) else ():
            t = os.path.join(nd, rel)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            try:
                os.chdir(nd)
                o.to_file(rel, **kw)
                chk(os.path.isfile(t) and content(t) == text, 'target', 'to_file(%r) did not write that file' % rel)
                b = cls.from_file(rel, **kw)
                chk(b.filePath == rel, 'filePath', 'from_file(%r) stored %r as filePath' % (rel, b.filePath))
                os.unlink(t)
            finally:
                os.chdir(os.path.dirname(d))
        if enc not in (None, 'latin-1'):
            raw = text.encode('utf-8' if enc == 'utf-8-sig' else enc)[:-1] + b'\xff\xfe\xff'
            with open(p1, 'wb') as f:
                f.write(raw)
            try:
                raw.decode(enc)
                ok = True
            except UnicodeError:
                ok = False
            try:
                if ok:
                    raise ValueError
                cls.from_file(p1, encoding=enc)
            except Exception:
                pass
            else:
                bad.append(('undecodable', 'from_file loads a file that is not valid %s' % enc))
        left = set(os.listdir(d)) - {os.path.basename(x) for x in (p1, p2, p3)}
        chk(not left, 'stray', 'files left behind: %s' % sorted(left))
        if not text.isascii():
            try:
                o.to_file(p3, encoding='ascii')
            except UnicodeError:
                pass
            else:
                bad.append(('unencodable', 'to_file(encoding=ascii) silently alters texts that are not ASCII'))
    except C.Timeout:
        raise
    except Exception as e:
        bad.append(('raise', '%s: %s' % (type(e).__name__, str(e)[:200])))
    for x in os.listdir(d):
        os.unlink(os.path.join(d, x))
    # serialising fails: the target is not touched
    o.filePath = p2
    orig = cls.to_sexpr

    def boom(self, *a, **k):
        raise ValueError('cannot serialise')
    for target, args in ((p1, (p1,)), (p2, ())):
        with open(target, 'wb') as f:
            f.write(b'precious')
        cls.to_sexpr = boom
        try:
            o.to_file(*args, **kw)
        except ValueError:
            pass
        except Exception as e:
            bad.append(('error', 'a failed serialisation surfaces as %s' % type(e).__name__))
        else:
            bad.append(('error', 'a failed serialisation is swallowed by to_file'))
        finally:
            cls.to_sexpr = orig
        with open(target, 'rb') as f:
            chk(f.read() == b'precious', 'destroyed', 'a failed serialisation destroys the existing file')
    # the same with a real unserialisable object
    for n in list(vars(o)):
        v = getattr(o, n)
        if isinstance(v, list):
            setattr(o, n, v + [None])
            try:
                try:
                    o.to_sexpr()
                    continue
                except Exception:
                    pass
                with open(p1, 'wb') as f:
                    f.write(b'precious')
                try:
                    o.to_file(p1, **kw)
                    bad.append(('error', 'to_file succeeds although to_sexpr raises'))
                except Exception:
                    pass
                with open(p1, 'rb') as f:
                    chk(f.read() == b'precious', 'destroyed', 'a failed serialisation destroys the existing file (a None in %s)' % n)
            finally:
                setattr(o, n, v)
    o.filePath = None
    return bad


def io(job):
    import tempfile, shutil, os
    key = job['key']
    cls = C.cls_of(key)
    d = tempfile.mkdtemp(prefix='kvio')
    old = os.getcwd()
    env = dict(os.environ)
    bad, n, seen = [], 0, set()
    try:
        os.chdir(d)
        for x in ('w', 'n', 'home', 'var'):
            os.mkdir(os.path.join(d, x))
        os.environ.update(HOME=os.path.join(d, 'home'), KVX=os.path.join(d, 'var'))
        w = os.path.join(d, 'w')
        for what, p in (('a missing path', os.path.join(d, 'nope')), ('a directory', d), ('an empty path', '')):
            n += 1
            try:
                cls.from_file(p)
            except Exception:
                continue
            bad.append(['accepted', dict(kind='io', key=key, paths=1), [('accepted', 'from_file accepts %s' % what)]])
        if 'paths' in job:
            return {'n': n, 'distinct': n, 'bad': bad}

        def run(src, enc, i):
            try:
                with C.alarm(20):
                    r = _io_one(C.uncode(src), key, enc, w, i)
            except C.Timeout as e:
                r = [('timeout', str(e))]
            for x in os.listdir(w):
                os.unlink(os.path.join(w, x))
            if r:
                bad.append(['file', dict(kind='io', key=key, objs=[[src, enc, i]]), r])
        if 'objs' in job:
            for src, enc, i in job['objs']:
                n += 1
                run(src, enc, i)
            return {'n': n, 'distinct': n, 'bad': bad}
        t0 = time.time()
        for i, (label, thunk) in enumerate(C.objects(key, job.get('seed', 1), 30 + job.get('n_random', 0))):
            if time.time() - t0 > min(job.get('budget', 10), 60) or len(bad) > 2 or i > 150 + 5 * job.get('n_random', 0):
                break
            try:
                o = thunk()
            except C.Infeasible:
                continue
            src = C.code(o)
            n += 1
            seen.add(src)
            run(src, ENCS[i % len(ENCS)], i // len(ENCS))
    finally:
        os.environ.clear()
        os.environ.update(env)
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    return {'n': n, 'distinct': len(seen), 'bad': bad[:3], 'samples': ['to_file/from_file of ' + s[:200] for s in sorted(seen)[:1]]}


SPECIAL['io'] = io


# ------------------------------------------------------------------ tolerant reading (C10)
UNK = [['zz_unknown'], ['zz_unknown', 'a', 1, ['b', 2]], ['Zone', ['at', 1, 2]], ['lockedx', 'yes'], ['new_token', ['layer', 'F.Cu'], ['uuid', 'x']], ['kv'] + [0] * 12]


def bump(x):
    """The same payload with other values."""
    return [bump(y) if isinstance(y, list) else y + 1.5 if isinstance(y, (int, float)) and not isinstance(y, bool) else y + 'zz' if i or not isinstance(y, str) else y for i, y in enumerate(x)]


@check('tol')
def _tol(o, key):
    from .tol import tokens
    from .oblig2 import heads
    sp = tokens()[key]
    tab = D.table()[key]
    hi = heads()[key][2] if key in heads() else None
    cls = type(o)
    if unit_like(o):
        return []
    try:
        t = plain(C.ref_parse(C.wrap(key, o.to_sexpr()))[0])
        base = cls.from_sexpr(t)
        dflt = cls()
    except C.Timeout:
        raise
    except Exception:
        return []
    r = random.Random(C.code(o))
    names = [n for n in cls.__dataclass_fields__ if n != 'filePath' and n not in tab.hints and not isinstance(tab.fields.get(n), D.TSkip)]
    grp = {}                  # heads whose order among themselves counts: those carrying a common attribute
    for h, fs in sp['map'].items():
        for f in fs:
            grp.setdefault(f, set()).add(h)

    def kind(h):
        out = {h}
        while True:
            n = set(out)
            for s in grp.values():
                if s & out:
                    n |= s
            if n == out:
                return frozenset(out)
            out = n
    isl = [i for i, x in enumerate(t) if isinstance(x, list) and x and isinstance(x[0], str) and x[0] not in sp['first']]
    hs = sorted({t[i][0] for i in isl} - sp['required'])
    cases = []
    for h in hs:
        cases.append(({h}, None, []))
    cases.append((set(hs), None, []))
    for _ in range(2):
        cases.append(({h for h in hs if r.random() < .5}, r.choice([None, 'perm']), []))
    if not sp['ordered']:
        cases += [(set(), 'rev', []), (set(), 'perm', []), (set(), 'perm', [])]
    if hi is None and not sp['closed']:
        for u in r.sample(UNK, 3):
            cases.append((set(), None, [u]))
        cases.append((set(), None, UNK))
        known = set(sp['map']) | sp['required'] | sp['first'] | sp['also']
        near = [(n, v) for n in sorted(sp['map']) for v in (n + 'x', n + '_x', n + 's', n[:-1], n[1:], 'x' + n, 'x_' + n, n.upper(), n.title(), n.replace('_', '-'), n.split('_')[0]) if v and v not in known and v != 'gr' and v != 'fp']
        seen = {}
        for n, v in near:
            seen.setdefault(v, n)
        # words of the reader that are no tokens of its format
        for v in r.sample(sorted(x for x in C.mined(key)[0] if x not in known and re.fullmatch(r'[a-z][a-z_]*', x)) or [''], 1):
            if v:
                cases.append((set(), None, [[v] + r.choice([[7.25, 7.5], ['zz'], [], ['yes'], [3], [['zz', 1]]])]))
        for v in r.sample(sorted(seen), min(8, len(seen))):
            real = [x for x in t if isinstance(x, list) and x and x[0] == seen[v]]
            pay = r.choice([[7.25, 7.5], ['zz'], [['zz', 1]], [], [['thickness', 5]], ['yes'], [3]] + [bump(x[1:]) for x in real] * 3)
            cases.append((set(), None, [[v] + pay]))
        cases.append(({h for h in hs if r.random() < .3}, 'perm' if not sp['ordered'] else None, [r.choice(UNK)]))
    out = []
    for drop, perm, unk in cases:
        seq = [t[i] for i in isl]
        if perm and not sp['ordered']:
            ks = [kind(x[0]) for x in seq]
            q = list(ks)
            if perm == 'rev':
                q = list(reversed(ks))
            else:
                r.shuffle(q)
            pools = {}
            for k, x in zip(ks, seq):
                pools.setdefault(k, []).append(x)
            seq = [pools[k].pop(0) for k in q]
        t2 = list(t)
        for i, x in zip(isl, seq):
            t2[i] = x
        t2 = [x for x in t2 if not (isinstance(x, list) and x and x[0] in drop)]
        if sp['some'] and not any(isinstance(x, list) for x in t2):
            continue
        lo = max([i for i, x in enumerate(t2) if not isinstance(x, list)] + [-1]) + 1
        firsts = [i for i, x in enumerate(t2) if isinstance(x, list)]
        lo = firsts[0] if firsts else lo
        if firsts and t2[firsts[0]] and t2[firsts[0]][0] in sp['first']:
            lo += 1
        for u in unk:
            t2.insert(r.randrange(lo, len(t2) + 1), [y for y in u])
        try:
            b = cls.from_sexpr(plain(t2))
        except C.Timeout:
            raise
        except Exception as e:
            out.append(('raise', 'from_sexpr(%s) raises %s: %s' % (str(t2)[:300], type(e).__name__, e)))
            continue
        for n in names:
            car = {h for h, fs in sp['map'].items() if n in fs}
            v = C.code(getattr(b, n))
            if not car & drop:
                if v != C.code(getattr(base, n)):
                    out.append(('field', '%s is %s instead of %s when reading %s' % (n, v[:80], C.code(getattr(base, n))[:80], str(t2)[:300])))
            elif car <= drop and v != C.code(getattr(dflt, n)):
                out.append(('default', '%s is %s instead of the default %s when its token is missing: %s' % (n, v[:80], C.code(getattr(dflt, n))[:80], str(t2)[:300])))
        if out:
            return out
    # entries that feed the same list: each adds what it adds alone, in the order of the entries
    for n in names:
        car = {h for h, fs in sp['map'].items() if n in fs}
        ix = [i for i in isl if t[i][0] in car]
        v = getattr(base, n)
        if sp['ordered'] or not isinstance(v, (list, dict)) or not 2 <= len(ix) <= 12 or car & sp['required']:
            continue
        want = type(v)()
        try:
            for i in ix:
                b = cls.from_sexpr(plain([x for j, x in enumerate(t) if j == i or j not in ix]))
                x = getattr(b, n)
                want = want + x if isinstance(v, list) else {**want, **x}
        except C.Timeout:
            raise
        except Exception:
            continue
        if C.code(want) != C.code(v):
            out.append(('field', '%s is %s instead of %s, what its entries give one by one: %s' % (n, C.code(v)[:120], C.code(want)[:120], str(t)[:300])))
            return out
    return out


# ------------------------------------------------------------------ new documents (C17)
TEXTS = ['', 'R1', 'a b', 'q"q', '(x)', ')', '(', 'None', '0', '1.5', 'yes', 'hide', 'true', 'l1\nl2', ' pad ', 'µΩ', 'back\\slash', '${REFERENCE}', 'reference', "it's", '{x}', '%s', '"', '""', 'a\tb']
LINES = [x for x in TEXTS if x and '\n' not in x] + ['Device:R', 'L:a:b', 'a_1_2', 'L:a_1_2', ':x', 'x:', 'a"b:c(d', 'Lib_0_1']


def _new_one(cls, key, given, args, content):
    from .oblig2 import Arg
    bad = []
    a = cls.create_new(**given)
    b = cls.create_new(**given)
    vals = {n: given.get(n, d) for n, (_, d) in args.items()}
    ia, ib = mut_ids(a), mut_ids(b)
    if set(ia) & set(ib):
        bad.append(('shared', 'two new documents share state: %s' % [ia[i] for i in set(ia) & set(ib)][:3]))
    if type(a) is not cls:
        bad.append(('type', 'create_new returns a %s' % type(a).__name__))

    def get(path):
        v = a
        for p in path.split('.'):
            v = len(v) if p == '#' else v[int(p)] if p.isdigit() else getattr(v, p)
        return v
    for path, want in content:
        if isinstance(want, Arg):
            want = vals[want.n]
            if path == 'attributes.type' and want == 'other':
                want = None
        try:
            v = get(path)
        except (IndexError, AttributeError) as e:
            bad.append(('content', '%s is missing: %s' % (path, e)))
            continue
        if v != want or isinstance(v, bool) != isinstance(want, bool):
            bad.append(('content', '%s is %r, not %r' % (path, v, want)))
    if bad:
        return bad
    text = a.to_sexpr()
    try:
        r = cls.from_sexpr(plain(C.ref_parse(C.wrap(key, text))[0]))
    except C.Timeout:
        raise
    except Exception as e:
        return [('load', 'a new document cannot be loaded again: %s: %s' % (type(e).__name__, e))]
    for n in vars(a):
        x, y = getattr(a, n), getattr(r, n)
        if isinstance(D.table()[key].fields.get(n), D.TSkip) or n in D.table()[key].hints:
            continue
        if n in ('version', 'tedit'):
            x, y = str(x), str(y)
        if x == y:
            continue
        bad.append(('differs', 'attribute %s changes from %.150r to %.150r when a new document is saved and loaded' % (n, x, y)))
    return bad


def new(job):
    from .oblig2 import create_content
    key = job['key']
    cls = C.cls_of(key)
    args, content = create_content(key)
    bad, n, seen = [], 0, set()

    def run(given):
        nonlocal n
        n += 1
        seen.add(repr(given))
        try:
            with C.alarm(10):
                r = _new_one(cls, key, given, args, content)
        except Exception as e:
            r = [('raise', 'create_new(%s): %s: %s' % (given, type(e).__name__, e))]
        if r:
            bad.append(['create_new', dict(kind='new', key=key, given=[given]), r])

    def refuse(t):
        nonlocal n
        n += 1
        try:
            cls.create_new(library_id='a:b', value='v', type=t)
        except Exception:
            return
        bad.append(['create_new', dict(kind='new', key=key, refuse=[t]), [('accepted', 'create_new accepts the footprint type %r' % (t,))]])
    if 'given' in job or 'refuse' in job:
        for g in job.get('given', ()):
            run(g)
        for t in job.get('refuse', ()):
            refuse(t)
        return {'n': n, 'distinct': n, 'bad': bad}
    if job.get('hints'):
        # the verifier's counterexample: literal arguments as given by the solver
        h = job['hints']
        for alt in TEXTS[1:4]:
            run({m: h[m] if isinstance(h.get(m), str) else alt if ty in ('text', 'line') else D._P(ty).type().vals[0] for m, (ty, d) in args.items()})
    words = sorted(x for x in C.mined(key)[0] if isinstance(x, str) and '\r' not in x and not x.endswith('\\'))
    TEXTS_, LINES_ = TEXTS + words, LINES + [x for x in words if x and '\n' not in x]
    pools = {m: (TEXTS_ if ty == 'text' else LINES_ if ty == 'line' else D._P(ty).type().vals) for m, (ty, d) in args.items()}
    req = {m: pools[m][1] for m, (ty, d) in args.items() if d is ...}
    run(req)
    for m in args:
        for v in pools[m]:
            run({**req, m: v})
    rnd = random.Random('new/%s' % job.get('seed', 1))
    for i in range(50 + 10 * job.get('n_random', 0) if args else 0):
        run({m: rnd.choice(pools[m]) for m in args if m in req or rnd.random() < 0.7})
    if key == 'footprint.Footprint':
        for t in ['', 'SMD', 'tht', None, 'through-hole', 'smd ', 'virtual', 'none', 'board_only', 0, 'exclude_from_bom', 'smdthrough_hole', 'o', 'ther']:
            refuse(t)
    return {'n': n, 'distinct': len(seen), 'bad': bad[:3], 'samples': ['%s.create_new(%s)' % (key, s) for s in sorted(seen)[:1]]}


SPECIAL['new'] = new


# ------------------------------------------------------------------ other processes (C13)
def _texts(objs):
    out = []
    for src in objs:
        try:
            with C.alarm(10):
                out.append(C.uncode(src).to_sexpr())
        except C.Timeout:
            out.append('timeout')
        except Exception as e:
            out.append('raises ' + type(e).__name__)
    return out


def texts_job(job):
    return {'n': len(job['objs']), 'distinct': 0, 'bad': [], 'texts': _texts(job['objs'])}


SPECIAL['texts'] = texts_job


def proc(job):
    """An object is written alike in another process (hash seed, time zone, directory, environment differ)."""
    import json, os, subprocess, sys, tempfile, itertools
    objs, labels = [o for o in job.get('objs', ())], []
    for key in job.get('keys', ()):
        k = 0
        for label, thunk in itertools.chain(itertools.islice(C.objects(key, job['seed'], 0), 2), (x for x in C.objects(key, job['seed'], 9, fields=()) if x[0].startswith('random'))):
            try:
                with C.alarm(5):
                    objs.append(C.code(thunk()))
            except (C.Infeasible, C.Timeout):
                pass
    mine = _texts(objs)
    bad = []
    with tempfile.TemporaryDirectory() as d:
        for hs, tz in (('1', 'UTC'), ('77', 'Asia/Tokyo')):
            if bad:
                break
            root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
            env = dict(os.environ, PYTHONHASHSEED=hs, TZ=tz, PYTHONPATH=root, COLUMNS='40', HOME=d, PYTHONDONTWRITEBYTECODE='1')
            p = subprocess.run([sys.executable, '-m', 'kv.worker'], input=json.dumps(dict(kind='texts', objs=objs)), capture_output=True, text=True, timeout=100, cwd=d, env=env)
            if p.returncode:
                return {'n': 0, 'distinct': 0, 'bad': [], 'error': p.stderr[-300:]}
            for src, a, b in zip(objs, mine, json.loads(p.stdout)['texts']):
                if a != b and 'timeout' not in (a, b):
                    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), 0)
                    bad.append(['another process', dict(kind='proc', objs=[src]), [('determinism', 'an equal object is written differently in another process: ...%r instead of ...%r' % (b[max(0, i - 20):i + 60], a[max(0, i - 20):i + 60]))]])
                    break
    return {'n': len(objs), 'distinct': len(set(objs)), 'bad': bad}


SPECIAL['proc'] = proc
