"""S08: expansion keeps the value."""
import math

from common import *
from engine import LV
import model as M
from check import parallel
from equiv import decide_path, Result
from sym import SymConfig, ECELL, EKIND
from props_s import facprims, ref_of
import props_cell as pc


def operands(f):
    """Indices of the parameters that carry a value."""
    return [i for i, p in enumerate(f['params']) if strip_type(p['type']) in (EXPR, 'double', 'int', 'unsigned int', 'long')]


def val_of(m, t, ty, c):
    return m.E(t, c) if ty == EXPR else m.num(t, c)


def candidates(n):
    out = []
    if n == 1:
        out.append(('the operand', lambda x: x[0]))
    if n >= 2:
        def prod(x):
            r = x[0]
            for y in x[1:]:
                r = M.mul(r, y)
            return r

        def sm(x):
            r = x[0]
            for y in x[1:]:
                r = M.add(r, y)
            return r
        out += [('the product of the operands', prod), ('the sum of the operands', sm)]
    if n == 2:
        out += [('the power of the operands', lambda x: M.powr(x[0], x[1])), ('the quotient of the operands', lambda x: M.div(x[0], x[1])),
                ('the difference of the operands', lambda x: M.sub(x[0], x[1]))]
    for i in range(n):
        if n > 1:
            out.append(('operand %d' % (i + 1), lambda x, i=i: x[i]))
    return out


def helper_cfg(env, entries, extra):
    cfg = SymConfig(env.prog, env.roles, extra_prims=extra)
    base = cfg.prim

    def term(I, ref, obj, args):
        f = entries[ref['fid']]
        t = ('app', 'X:' + ref['fid']) + tuple(canon(I.settle(args[i])) for i in operands(f))
        I.types.setdefault(t, EXPR)
        return t

    def prim(I, ref):
        if ref['fid'] in entries:
            if I is not None and ref['fid'] not in I.stack and I.stack and I.stack[0] == ref['fid']:
                return None
            return lambda I, n, r, obj, args: term(I, r, obj, args)
        return base(I, ref)
    cfg.prim = prim
    return cfg


def mentions(p, name):
    s = repr(p.facts)
    return name in s


def ext_for(solved):
    ext = {}
    for fid, (f, cand) in solved.items():
        idx = operands(f)
        tys = [strip_type(f['params'][i]['type']) for i in idx]

        def sem(m, t, c, tys=tys, cand=cand):
            return cand[1]([val_of(m, x, ty, c) for x, ty in zip(t[2:], tys)])
        ext['X:' + fid] = sem
    return ext


def decide(env, name, f, I, paths, spec, ext, allow):
    r = Result(name, f)
    per = []
    for p in paths:
        q = Result(name, f)
        decide_path(env, q, I, p, spec, ret_E, ext, allow_abort=allow)
        q.paths = 1
        per.append(q)
        r.merge(q)
    return r, per


def solve_helpers(env, entries, extra):
    """Guess and check what each recursive helper computes."""
    solved, results = {}, []
    explored = {}
    for fid, f in entries.items():
        cfg = helper_cfg(env, entries, extra)
        I = Interp(env.prog, cfg)
        first = pc.setup_for(f)
        explored[fid] = (I, I.explore(f, first))
    todo = dict(entries)

    def attempt(fid, cand):
        f = entries[fid]
        I, paths = explored[fid]
        ext = ext_for(dict(solved, **{fid: (f, cand)}))
        idx = operands(f)

        def spec(m, p):
            return cand[1]([val_of(m, ('sym', pc.pname(f, i)), strip_type(f['params'][i]['type']), C0) for i in idx])
        return decide(env, short_id(f), f, I, paths, spec, ext, lambda m, p: True)

    def unsolved(fid):
        """Paths of fid that call a helper not yet understood."""
        I, paths = explored[fid]
        bad = 0
        for p in paths:
            s = repr((p.facts, p.outcome))
            if any(o != fid and o not in solved and repr('X:' + o)[1:-1] in s for o in entries):
                bad += 1
        return bad
    while todo:
        fid = min(todo, key=lambda x: (unsolved(x) / max(1, len(explored[x][1])), x))
        f = todo.pop(fid)
        best = None
        for cand in candidates(len(operands(f))):
            r, per = attempt(fid, cand)
            score = (len(r.violations) - 1.5 * r.agree, len(r.undecided))
            if best is None or score < best[0]:
                best = (score, cand, r)
            if not r.violations and r.agree and not unsolved(fid):
                break
        if best is None or not best[2].agree or best[2].agree <= len(best[2].violations):
            r = Result(short_id(f), f)
            r.undecided.append('%s: what this recursive helper computes was not recognised' % short_id(f))
            results.append(r)
            continue
        solved[fid] = (f, best[1])
        results.append((fid, best))
    # decide again, now that every helper has its meaning
    out = []
    for x in results:
        if not isinstance(x, tuple):
            out.append(x)
            continue
        fid, (_, cand, _) = x
        r, _ = attempt(fid, cand)
        r.note = 'computes %s' % cand[0]
        out.append(r)
    return solved, out


def flag_wrapper(env, f):
    r = Result(short_id(f), f)
    I = Interp(env.prog, SymConfig(env.prog, env.roles, inline=(f['fid'],)))
    for p in I.explore(f, pc.setup_for(f)):
        r.paths += 1
        if p.outcome[0] != 'ret':
            continue
        t = show(canon(p.outcome[1]))
        if t in ('true', 'false') or t.startswith('not'):
            r.violations.append((r.name, '%s: returns %s instead of the flag of the node' % (r.fn, t)))
        elif f['n'] in t or 'include_ite_' in t or 'is_polynomial_' in t:
            r.agree += 1
        else:
            r.undecided.append('%s: returns %s' % (r.name, t[:100]))
    return r


def short_id(f):
    return f['fid'].replace(DS, '')


def check_S08(c):
    env = make_env(c)
    prog = env.prog
    prims = facprims(prog)
    expand = pc.cells(prog, ECELL, 'Expand')
    base = SymConfig(prog, env.roles, extra_prims=prims)

    def cut(g):
        ref = ref_of(g)
        return ref is None or base.prim(None, ref) is not None
    fns = prog.reach([f for _, _, f in expand], cut)
    comps, succ = prog.cycles(fns)
    entries = {}
    for comp in comps:
        for v in comp:
            f = fns[v]
            if strip_type(f['ret']) != EXPR or not operands(f) or f['n'] == 'Expand':
                continue
            outside = any(v in [w['fid'] for w in succ[u]] for u in succ if u not in comp)
            if outside and len(operands(f)) <= 3:
                entries[v] = f
    solved, res = solve_helpers(env, entries, prims)
    c.add(res)
    ext = ext_for(solved)

    def one(kind, cls, f):
        if kind == 'NaN':
            return pc.throws_always(env, f, cls, 'NaN is expanded')

        def allow(m, p):
            return mentions(p, 'E.expand')
        name = '%s::%s' % (pc.short(cls), f['n'])
        cfg = helper_cfg(env, entries, prims)
        return run(env, name, f, pc.this_setup(f, cls), lambda m, p: m.E(pc.THIS, C0), ret_E, cfg=cfg, ext=ext, allow_abort=allow,
                   allow_throw=(kind == 'IfThenElse') or None)
    jobs = [lambda x=x: one(*x) for x in expand]
    for f in pc.wrappers(prog, EXPR, 'Expand'):
        jobs.append(lambda f=f: pc.wrapper_obligation(env, f, ECELL))
    from props_attr import ctor_jobs
    jobs += ctor_jobs(env, 'attr')
    for n in ('is_polynomial', 'include_ite'):
        for f in pc.wrappers(prog, EXPR, n) + pc.wrappers(prog, FORM, n):
            jobs.append(lambda f=f: flag_wrapper(env, f))
    c.add(parallel(jobs))
    c.rules.append('For every constructor of a node, the recorded if-then-else flag equals that of any operand (true for if-then-else itself) and the '
                   'polynomial flag is set only for sums and products of polynomials with non-negative integer constant exponents.')
    c.rules.append('For every kind of expression the summary of its expansion has the value of the node (expansion of the operands is the induction '
                   'hypothesis); recursive helpers (%s) are given the one meaning, among product, power, quotient, sum and difference, that '
                   'their paths satisfy.' % '; '.join('%s: %s' % (short_id(f), cd[0]) for f, cd in solved.values()))
    c.assumptions += ['real arithmetic up to rounding', 'assertions that an operand is already expanded are not checked']
    return len(c.results)
