"""The properties: which obligations state them, how a failure is replayed."""
import re
from . import dom as D
from .driver import closure

TRUST = ['kv/ (this verifier: symbolic interpreter of the Python subset used by kiutils, obligation generator)',
         'z3 4.x (solver back end)',
         'CPython semantics of the modelled built-ins (kv/builtins_.py)',
         'lexer contract L1-L4 of parse_sexp (decided by C12)',
         'spec/domain.txt: the precondition (well-formed objects) of every contract']
ASM = ['numbers are mathematical reals; int/float text round trip (repr) assumed for |x| < 1e16',
       'texts contain no carriage return and do not end in a backslash (known finding, C09)',
       'bare tokens (enumerations, uuids, hex masks) are non-empty and contain no whitespace, quotes, parentheses or ^ and do not read as numbers',
       'list element contracts are applied to the generic element (induction over the list, no bound)']

LIBID = ['symbol.Symbol', 'schitems.SchematicSymbol', 'footprint.Footprint']
ALL = list(D.table())
ROOTS = {'C01': 'board.Board', 'C02': 'footprint.Footprint', 'C03': 'schematic.Schematic', 'C04': 'symbol.SymbolLib',
         'C05': 'wks.WorkSheet', 'C06': 'dru.DesignRules', 'C07': 'libraries.LibTable'}


_reach = {}


def has_text(key):
    """a text somewhere in the expression of this class"""
    if key not in _reach:
        _reach[key] = False

        def has(t):
            if isinstance(t, (D.TOpt, D.TList)):
                return has(t.t)
            if isinstance(t, D.TDict):
                return has(t.k) or has(t.v)
            if isinstance(t, D.TUnion):
                return any(has(a) for a in t.alts)
            if isinstance(t, D.TObj):
                return has_text(t.key)
            return isinstance(t, (D.TText, D.TWord, D.TLayer))
        _reach[key] = any(has(t) for t in D.table()[key].fields.values())
    return _reach[key]


def rt_keys(keys):
    return [k for k in keys if D.table()[k].shape not in ('none', 'inline')]


def base(**kw):
    d = dict(level='proof', trusted=TRUST, assumptions=ASM)
    d.update(kw)
    return d


PROPS = {}
for _p, _r in ROOTS.items():
    PROPS[_p] = base(
        tasks=lambda tier, r=_r: [('rt', k, {}) for k in rt_keys(closure(r))] + [('libid', k, {'fresh': True}) for k in LIBID if k in closure(r)],
        select=lambda r, o: 'independent of indent' not in o['name'] and (r['task'] != 'libid' or 'restores its parts' in o['name']),
        concrete=lambda task, key: dict(check='rt'))


def text_fields(key):
    def has(t):
        if isinstance(t, (D.TOpt, D.TList)):
            return has(t.t)
        if isinstance(t, D.TDict):
            return has(t.k) or has(t.v)
        return isinstance(t, (D.TText, D.TWord, D.TLayer))
    return [n for n, t in D.table()[key].fields.items() if has(t)]


def opt_fields(key):
    """attributes with a value of their own: everything but nested expressions, which answer for theirs"""
    def own(t):
        if isinstance(t, D.TObj):
            return D.table()[t.key].shape in ('none', 'inline')
        if isinstance(t, D.TList):
            return own(t.t)
        return not isinstance(t, (D.TUnion, D.TSkip, D.TConst))
    return [n for n, t in D.table()[key].fields.items() if own(t)]


def heads():
    from .oblig2 import heads
    return heads()


def refusals():
    from .oblig2 import REFUSE, REFUSE_READ
    return list(dict.fromkeys(list(REFUSE) + [k for k, _, _ in REFUSE_READ]))


PROPS['C11'] = base(
    tasks=lambda tier: [('reject', k, {}) for k in heads()],
    concrete=lambda task, key: dict(kind='reject'))

PROPS['C16'] = base(
    tasks=lambda tier: [('libid', k, {}) for k in LIBID],
    concrete=lambda task, key: dict(check='libid', fields=['libraryNickname', 'entryName', 'unitId', 'styleId']))

PROPS['C12'] = base(
    trusted=[t for t in TRUST if 'L1-L4' not in t] + ['kv/rx.py: priority-automaton model of Python regular expressions (no back references, one character of look-around)'],
    assumptions=['float(text) of a decimal text is that number (mathematical reals)', 'assert statements are executed (not python -O)',
                 'induction over the token sequence / nesting depth from the discharged base and step obligations'],
    tasks=lambda tier: [('lex', 'utils.sexpr', {})],
    concrete=lambda task, key: dict(kind='lex'))

PROPS['C19'] = base(
    tasks=lambda tier: [('refuse', k, {}) for k in refusals()],
    concrete=lambda task, key: dict(kind='refuse'))

PROPS['C08'] = base(
    tasks=lambda tier: [('rt', k, {}) for k in ALL if D.table()[k].shape != 'none'],
    select=lambda r, o: 'from_sexpr' not in o['name'] and 'survives' not in o['name'],
    concrete=lambda task, key: dict(check='shape'))

def c09(r, o):
    """Obligations about texts: of the lexer, of the text attributes, and any that fails for particular texts only."""
    if o['status'] == 'undecided':
        return True
    if r['task'] == 'lex':
        return 'quoted' in o['name']
    if any(o['name'].endswith('field %s survives' % f) for f in text_fields(r['key'])):
        return True
    if o['status'] == 'failed':
        return o.get('textdep') or re.search(r'text o[.\[]', o['name']) is not None
    return 'independent of indent' not in o['name']


PROPS['C09'] = base(
    tasks=lambda tier: [('rt', k, {}) for k in rt_keys(ALL) if has_text(k)] + [('lex', 'utils.sexpr', {})],
    select=lambda r, o: c09(r, o),
    concrete=lambda task, key: dict(kind='lex', only='text') if task == 'lex' else dict(check='text', fields=text_fields(key) or None))

PROPS['C13'] = base(
    tasks=lambda tier: [('frame', k, {}) for k in ALL],
    concrete=lambda task, key: dict(check='frame') if D.table()[key].shape not in ('none', 'inline') else None,
    extra_jobs=lambda tier, seed: [dict(kind='proc', what='written alike in another process', seed=seed, budget=90, keys=[k for k in ALL if D.table()[k].shape not in ('none', 'inline')][i::4]) for i in range(4)])

PROPS['C14'] = base(
    tasks=lambda tier: [('iso', k, {}) for k in ALL],
    concrete=lambda task, key: dict(check='iso'))

PROPS['C18'] = base(
    tasks=lambda tier: [('none', k, {}) for k in rt_keys(ALL)] + [('rt', k, {}) for k in rt_keys(ALL) if opt_fields(k)],
    select=lambda r, o: r['task'] == 'none' or any(o['name'].endswith('field %s survives' % f) for f in opt_fields(r['key'])) or o['status'] == 'undecided',
    concrete=lambda task, key: dict(check='none', wide=True) if task == 'none' else dict(check='opt', fields=opt_fields(key)))


def files():
    from .oblig2 import FILES
    return FILES


PROPS['C15'] = base(
    tasks=lambda tier: [('io', k, {}) for k in files()],
    assumptions=['the operating system stores and returns what is written (open/read/write/close, path.isfile)',
                 'the chosen text codec decodes what it encoded; the text has characters of that encoding only and no carriage return',
                 'interruption of the process between open and close is outside the statement'],
    concrete=lambda task, key: dict(kind='io'))


def tol_keys():
    from .tol import tokens
    return list(tokens())


PROPS['C10'] = base(
    tasks=lambda tier: [('tol', k, {}) for k in tol_keys()],
    assumptions=ASM + ['spec/tokens.txt: which list tokens carry which attributes; required tokens are present',
                       'any order: from the Bernstein conditions of the reading loop (discharged) by induction over adjacent exchanges; entries that feed the same list keep their relative order'],
    concrete=lambda task, key: dict(check='tol'))


def creatable():
    from .oblig2 import CREATE
    return list(CREATE)


PROPS['C17'] = base(
    tasks=lambda tier: [('new', k, {}) for k in creatable()],
    assumptions=ASM + ['the edit time stamp computed when Footprint is defined is a bare token (a hexadecimal number that does not read as a decimal one)',
                       'library ids are non-empty and single-line'],
    concrete=lambda task, key: dict(kind='new'))
