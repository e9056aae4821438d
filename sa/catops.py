"""Operations on a model's catalogue: public methods of the model class and their path effects, projected onto chosen effects."""

import ast

from .catalogue import make_paths
from .paths import Paths
from .repo import AnalysisBroken

MODEL = 'resqpy.model._model.Model'


def model_class(repo):
    c = repo.classes.get(MODEL)
    if c is None:
        cs = [c for q, c in repo.classes.items() if q.startswith('resqpy.model') and c.name == 'Model']
        if len(cs) != 1:
            raise AnalysisBroken('model class not found')
        c = cs[0]
    return c


def defaults(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    out = {x.arg: d.value for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults) if isinstance(d, ast.Constant)}
    out.update({x.arg: d.value for x, d in zip(a.kwonlyargs, a.kw_defaults) if isinstance(d, ast.Constant)})
    return out


def operations(repo):
    """public methods of the model class, by name."""
    c = model_class(repo)
    return {f.name: f for f in repo.all_fns() if f.cls is c and f.parent is None and
            (f.name == '__init__' or not f.name.startswith('_'))}


def projected(repo, keep, found, branch=None, extra=None):
    """path engine over the model class whose effects are mapped by keep(effect) -> effect or None."""
    p = make_paths(repo, model_class(repo), extra_effects=extra, found=found)
    inner = p.effects_of

    def eff(fn, node, aliases):
        return {k for k in (keep(e) for e in inner(fn, node, aliases)) if k is not None}
    p.effects_of = eff
    p.branch = branch
    return p
