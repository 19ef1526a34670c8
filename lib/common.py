"""Shared pieces of the property modules."""
import os

import engine
import extract
import sym
from engine import DECLINE, Interp, canon, is_coll, show
from equiv import Env, Result, run, decide_path
from extract import AnalysisBroken
from model import Ctx, Model, Opaque, Reject, Skip, same
from program import Program, strip_type, template_args
from sym import DS, ENV, EXPR, FORM, VAR, VARS, FKIND, EKIND, KIND_CLASS_E, KIND_CLASS_F, RELKIND, UNARY, BINARY

_P = {}


def program(tus=None):
    key = tuple(tus) if tus else None
    if key not in _P:
        _P[key] = Program(extract.extract(tus))
    return _P[key]


def make_env(c, tus=None):
    prog = program(tus)
    return Env(prog, sym.Roles(prog), c.tier, c.seed)


C0 = Ctx()


class Hyp:
    """Induction hypotheses: how a recursive call is summarised."""

    def __init__(self):
        self.seen = {}      # fid -> ref of the recursive functions met

    def hook(self, handler):
        def recursion(I, ref, obj, args):
            r = handler(I, ref, obj, args)
            if r is not None:
                self.seen.setdefault(ref['fid'], ref)
            return r
        return recursion


def cut_cfg(cfg, handler):
    """Replace calls by the induction hypothesis wherever the handler accepts the arguments,
    not only where a call is recursive."""
    base = cfg.prim

    def prim(I, ref):
        h = base(I, ref)
        if h is not None or ref.get('op') or '(ctor)' in ref['fid'] or not ref['q'].startswith('dreal::'):
            return h

        def hh(I, n, ref, obj, args):
            r = handler(I, ref, obj, args)
            return DECLINE if r is None else r
        return hh
    cfg.prim = prim


def subterm(t, root):
    """Is t a proper component of root?"""
    while isinstance(t, tuple) and t and t[0] in ('fld', 'elem'):
        t = t[1]
        if t == root:
            return True
    return False


def param_index(ref, type_):
    return [i for i, t in enumerate(ref['pt']) if strip_type(t) == type_]


def setup_for(fn, names=None, this_cls=None):
    """Symbolic this and arguments."""
    def setup(I):
        this = None
        if fn.get('cls') and not fn.get('static'):
            this = I.sym_lv('this', this_cls or fn['cls'])
        args = []
        for i, p in enumerate(fn['params']):
            args.append(I.sym_lv(names[i] if names and i < len(names) else (p.get('name') or 'a%d' % i), p['type']))
        return this, args
    return setup


def ret_F(m, p):
    return m.F(p.outcome[1], C0)


def ret_E(m, p):
    return m.E(p.outcome[1], C0)


def ret_num(m, p):
    return m.num(p.outcome[1], C0)


def ret_bool(m, p):
    return m.B(p.outcome[1], C0)
