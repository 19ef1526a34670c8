"""Comparing the summary of a function with its specification."""
import model as M
import sym
from engine import Interp, LV, show
from model import Ctx, Model, Opaque, Reject, Skip, same, seed_of, val


class Result:
    def __init__(self, name, fn=None):
        self.name = name
        self.fn = '%s (%s:%s)' % (fn['q'], fn['file'].replace('/repo/', ''), fn['line']) if fn else name
        self.paths = 0
        self.agree = 0
        self.vacuous = 0
        self.samples = 0
        self.undecided = []
        self.violations = []    # (key, text)
        self.note = ''

    def merge(self, o):
        self.paths += o.paths
        self.agree += o.agree
        self.vacuous += o.vacuous
        self.samples += o.samples
        self.undecided += o.undecided
        self.violations += o.violations


class Env:
    """Shared analysis context."""

    def __init__(self, prog, roles, tier='quick', seed=1):
        self.prog = prog
        self.roles = roles
        self.tier = tier
        self.seed = seed
        self.nsamples = 48 if tier == 'quick' else 160
        self.tries = 600 if tier == 'quick' else 2400


def fnum(x):
    if isinstance(x, M.Dual):
        return '%r' % x.v
    if isinstance(x, frozenset):
        return '{%s}' % ', '.join('v%s' % v for v in sorted(x))
    return repr(x)


def describe_model(m, limit=12):
    out = []
    for k, v in m.memo.items():
        if k[0] == 'E' and len(k) == 5:
            out.append('%s%s = %r' % (show(k[1]), '[subst]' if k[3] or k[4] else '', v))
        elif k[0] == 'F' and len(k) == 5:
            out.append('%s%s = %r' % (show(k[1]), '[subst]' if k[3] or k[4] else '', v))
        elif k[0] == 'L' and k[1] and k[1][0] not in ('n', 'uf', 'enum'):
            out.append('%s = %r' % (show(k[1]), v))
    return '; '.join(out[:limit])


def run(env, name, fn, setup, spec, result=None, cfg=None, ext=None, allow_throw=None, allow_abort=None, cfg_mod=None,
        sizes=(0, 1, 2), inline=(), extra_prims=None, limit=None, compare=None, pre=None, key=None, undefined=None, partial=False, strict=None):
    """partial: a result may be undefined where the specification is defined.
    strict(model, path): every operand the specification evaluates must be evaluated on the path, or an error in it is lost.
    undefined(model, path): complaint about a path where the specification is undefined, or None.
    spec(model, interp) -> expected value; result(model, path) -> actual value.
    allow_throw(path, type) -> True if this error is permitted on this path."""
    r = Result(name, fn)
    cfg = cfg or sym.SymConfig(env.prog, env.roles, inline=inline, sizes=sizes, extra_prims=extra_prims)
    if cfg_mod:
        cfg_mod(cfg)
    I = Interp(env.prog, cfg)
    paths = I.explore(fn, setup, limit=limit)
    r.truncated = I.truncated
    for p in paths:
        r.paths += 1
        decide_path(env, r, I, p, spec, result, ext, allow_throw, allow_abort, compare, pre, key, undefined, partial, strict)
    return r


def decide_path(env, r, I, p, spec, result, ext, allow_throw=None, allow_abort=None, compare=None, pre=None, key=None, undefined=None, partial=False, strict=None):
    kind = p.outcome[0]
    if kind == 'unsupported':
        r.undecided.append('%s: %s [%s]' % (r.name, p.outcome[1], p.describe()[:200]))
        return
    if kind == 'throw' and allow_throw is not None and allow_throw is True:
        r.agree += 1
        return
    got = 0
    spec_skips = rejects = 0
    why = None
    for i in range(env.tries):
        if got >= env.nsamples:
            break
        if i >= 60 and got == 0 and rejects == i and i >= env.tries // 2:
            pass
        try:
            m = Model(p, I, env.roles, seed_of(p, i) ^ (env.seed * 0x9E3779B1 & 0xffffffff))
            m.ext = ext or {}
            if pre:
                pre(m, p)
            m.touched = set()
            m.check_facts()
            facts_touch, m.touched = m.touched, set()
        except Reject:
            rejects += 1
            continue
        except Skip:
            rejects += 1
            continue
        except Opaque as e:
            why = str(e)
            break
        try:
            want = spec(m, p)
            if m.big:
                raise Skip()
        except Skip:
            spec_skips += 1
            if undefined and not m.big:
                try:
                    w = undefined(m, p)
                except (Skip, Reject, Opaque):
                    w = None
                if w:
                    viol(r, p, m, w, key)
                    return
            continue
        except Reject:
            rejects += 1
            continue
        except Opaque as e:
            why = 'spec: ' + str(e)
            break
        try:
            if kind == 'throw':
                if allow_throw is not None and allow_throw(m, p, p.outcome[1]):
                    got += 1
                    continue
                viol(r, p, m, 'throws %s although the operation is defined (value %s)' % (p.outcome[1], fnum(want)), key)
                return
            if kind == 'abort':
                if allow_abort is not None and allow_abort(m, p):
                    got += 1
                    continue
                viol(r, p, m, 'reaches "%s" although the result is defined' % p.outcome[1], key)
                return
            try:
                spec_touch, m.touched = m.touched, set()
                have = result(m, p)
                if m.big:
                    spec_skips += 1
                    continue
            except Skip:
                if partial:
                    spec_skips += 1
                    continue
                viol(r, p, m, 'the result %s is undefined where the operation has value %s' % (show(p.outcome[1])[:300], fnum(want)), key)
                return
            if not (compare or same)(want, have):
                viol(r, p, m, 'the result %s has value %s, expected %s' % (show(p.outcome[1])[:300], fnum(have), fnum(want)), key)
                return
            if strict:
                lost = spec_touch - facts_touch - m.touched
                if lost and strict(m, p):
                    viol(r, p, m, 'a value is returned although %s is not evaluated, so an error in it is lost' % show(sorted(lost, key=str)[0]), key)
                    return
            got += 1
        except Reject:
            rejects += 1
            continue
        except Opaque as e:
            why = str(e)
            break
    r.samples += got
    if why:
        r.undecided.append('%s: %s [%s]' % (r.name, why[:200], p.describe()[:200]))
    elif got:
        r.agree += 1
    elif spec_skips:
        r.vacuous += 1
    else:
        r.undecided.append('%s: no interpretation satisfies the path [%s]' % (r.name, p.describe()[:300]))


def viol(r, p, m, text, key=None):
    lines = [str(l) for l in p.lines if l]
    r.violations.append((key(p, m) if key else r.name,
                         '%s: %s: when %s (e.g. %s): %s%s' % (r.name, r.fn, p.describe()[:700], describe_model(m), text,
                                                                     ' [decided at line %s]' % lines[-1] if lines else '')))
