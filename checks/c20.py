"""C20: indices, extents and dimensions in the directions of a grid, or of space, are kept in their order."""

from sa.axes import Axes, Cells, Space

# reviewed places where another order is meant: module, rule, directions
MEANT = {
    ('resqpy.grid._pillars', 'order', 'jiji'): 'indexed by column and then by which of its pillars',
    ('resqpy.grid._face_functions', 'comparison', 'jk'): 'split_horizon_points names a column or row of cells ji whichever face it is of; for a K face the first is K',
    ('resqpy.grid._regular_grid', 'order', 'ijk'): 'lattice steps are in x, y, z order, which is I, J, K for an aligned grid',
    ('resqpy.rq_import._import_nexus', 'order', 'ijk'): 'the extent is logged in the I, J, K order of Nexus',
    ('resqpy.grid_surface._find_faces', 'argument', 'xy'): 'points are projected along x, so that y and z serve as the two dimensions',
    ('resqpy.grid_surface._find_faces', 'argument', 'yz'): 'points are projected along x or y, so that z serves as the second dimension',
    ('resqpy.surface._pointset', 'order', 'yx'): 'the sides of the rectangle are exchanged so that the shorter is first, and the angle turned by 90 degrees',
    ('resqpy.well._blocked_well', 'order', 'zxy'): 'a row of WELLSPEC has DEPTH, X and Y in the order of its columns',
}
RULES = {'order': 'in another order', 'dimension': 'along another dimension', 'comparison': 'compared', 'flattening': 'in flattening', 'assignment': 'assigned', 'argument': 'as argument', 'product': 'multiplied'}


def check(chk):
    repo = chk.repo
    chk.rule('the direction (K, J, I; or x, y, z) of indices, extents, coordinates and dimensions of arrays is inferred from the extents of grids, the headings of sequences, the loops over '
             'them, unpacking, and arguments; items of different directions appear in a subscript, shape or sequence in the order of the directions, index the dimensions of their '
             'direction, are compared with, assigned to and passed as indices of their direction, and are flattened with the extent of their own direction')
    total = {}
    for system in (Cells, Space):
        a = Axes(repo, system)
        found = a.run()
        rules = ('argument', 'order') if system is Space else tuple(RULES)
        seen = set()
        for f, n, rule, axes, text in found:
            if rule not in rules or (f.module.name, rule, axes) in MEANT:
                continue
            key = f'{rule} {f.qual} {axes}'
            if key in seen:
                continue
            seen.add(key)
            chk.check(False, key, f'{f.path}:{n.lineno}', f'{f.short}: {text}', {'function': f.qual, 'rule': rule, 'directions': axes})
        for r in rules:
            n = a.count.get(r, 0)
            total[r] = total.get(r, 0) + n
            for i in range(n - len([1 for x in found if x[2] == r])):
                chk.ok(a.samples.pop(0) if a.samples else None)
    for r, least in (('order', 500), ('dimension', 60), ('comparison', 25), ('flattening', 15), ('assignment', 20), ('argument', 150)):
        chk.floor(f'places judged by rule {r}', total.get(r, 0), least)
