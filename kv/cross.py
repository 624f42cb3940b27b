"""Second opinion (thorough tier): every query that z3 answered 'unsat' -- the answers the
proofs rest on -- is written out as SMT-LIB and decided again by cvc5."""
import subprocess, os, time, collections
import z3

LOG = None          # list of (kind, axioms, conds) while recording


def on():
    global LOG
    LOG = []


def rec(axioms, n, conds):
    """z3 said: axioms[:n] and conds is unsatisfiable"""
    if LOG is not None:
        LOG.append((axioms, n, list(conds)))


def _decls(e, seen, out):
    todo = [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out[d.get_id()] = d
            todo.extend(x.children())


def scripts():
    """One incremental script per axiom list."""
    groups = collections.OrderedDict()
    for axs, n, cs in LOG or ():
        groups.setdefault(id(axs), (axs, []))[1].append((n, cs))
    for axs, qs in groups.values():
        seen, decls, body = set(), {}, []
        done = 0
        for n, cs in qs:
            for a in axs[done:n]:
                _decls(a, seen, decls)
                body.append('(assert %s)' % a.sexpr())
            done = max(done, n)
            body.append('(push 1)')
            for c in cs:
                _decls(c, seen, decls)
                body.append('(assert %s)' % c.sexpr())
            body.append('(check-sat)\n(pop 1)')
        head = ['(set-logic ALL)'] + [d.sexpr() for d in decls.values()]
        # a bar inside a quoted symbol is not SMT-LIB (back slashes in string literals are printed as \u{5c})
        yield '\n'.join(head + body).replace('\\|', '!'), len(qs)


def run(limit=300):
    """-> dict(confirmed, unknown, refuted, seconds, note)"""
    out = dict(confirmed=0, unknown=0, refuted=0, seconds=0.0, note='')
    t0 = time.time()
    for text, n in scripts():
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--incremental', '--strings-exp', '--tlimit-per=10000', '-'],
                               input=text, capture_output=True, text=True, timeout=max(5, limit - (time.time() - t0)))
            res = p.stdout.split('\n')
            if p.returncode and not out['note']:
                out['note'] = (p.stdout + p.stderr)[-300:]
        except subprocess.TimeoutExpired as e:
            o = e.stdout or b''
            res = (o.decode() if isinstance(o, bytes) else o).split('\n')
            out['note'] = 'time limit'
        res = [r for r in res if r in ('sat', 'unsat', 'unknown')]
        out['confirmed'] += res.count('unsat')
        out['refuted'] += res.count('sat')
        out['unknown'] += n - res.count('unsat') - res.count('sat')
    out['seconds'] = round(time.time() - t0, 2)
    return out
