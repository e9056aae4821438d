"""C21: an optional number which is zero is never taken for one that was left out."""

import ast

from sa.optnum import OptNum, N, O, Z, _own

# reviewed places where zero and absent rightly lead to the same: module, name, why
SAME = {
    ('resqpy.olio.zmap_reader', 'null_value'): 'the text of a field in the header of a zmap file, which is either empty or not',
    ('resqpy.rq_import._grid_from_cp', '__k_gaps'): 'a grid with no k gaps and one for which k gaps are not considered are treated alike',
    ('resqpy.surface._pointset', 'patch_count'): 'a point set with no patches is as bad as one for which the number is not known',
    ('resqpy.surface._pointset', 'random_point_count'): 'asking for no random points is asking for the points of the polyline',
}


def last(e):
    return e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None


def check(chk):
    repo = chk.repo
    chk.rule('values are inferred to be a number or None (documented and annotated argument types, default None, number-valued functions that may return None, attributes '
             'holding such values); no such value may decide a branch, a loop, an assertion, or an and/or/not/if expression, by its truth, which confuses zero with None: it has '
             'to be compared with None (or with a number)')
    o = OptNum(repo)
    good = 0
    for f in o.fns:
        env = o.local.get(f.qual, {})
        for e, node in o.sites(f):
            nm = last(e)
            t = ast.unparse(e)
            if (f.module.name, nm) in SAME:
                chk.ok({'function': f.qual, 'tests': t, 'reviewed': SAME[(f.module.name, nm)]})
                continue
            chk.check(False, f'{f.qual[7:]} {t}', f.loc(e), f'{f.qual[7:]}: {t} is a number or None, and is tested for truth, so that zero is taken for None')
        for x in _own(f.node):
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Is, ast.IsNot)) and isinstance(x.comparators[0], ast.Constant) and x.comparators[0].value is None:
                ks = o.kind(f, x.left, env)
                if N in ks and Z in ks and O not in ks:
                    good += 1
                    chk.ok({'function': f.qual, 'compares with None': ast.unparse(x.left)} if good % 20 == 1 else None)
    chk.floor('comparisons of optional numbers with None', good, 60)
    chk.floor('functions', len(o.fns), 1000)
