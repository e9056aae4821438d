"""Effects of package code on the model's catalogue (used by the catalogue and modified-flag checks)."""

import ast

from .paths import Paths

DICTS = {'parts_forest': 'P', 'rels_forest': 'R', 'other_forest': 'OT', 'uuid_part_dict': 'U', 'uuid_rels_dict': 'X', 'object_parts': 'O'}
LAZY = {'_load_part', 'load_part'}


def catalogue_base(e, aliases, depth=0):
    """which catalogue dictionary (letter) an expression denotes, also through a local name; None for other things."""
    if isinstance(e, ast.Attribute) and e.attr in DICTS:
        if isinstance(e.value, ast.Name) and e.value.id.startswith('other'):
            return None
        return DICTS[e.attr]
    if isinstance(e, ast.Name) and e.id in aliases and depth < 4:
        return catalogue_base(aliases[e.id], aliases, depth + 1)
    return None


def rel_index(e, aliases, depth=0):
    """which of the three relation sets (referenced, referring, soft) an expression denotes."""
    if isinstance(e, ast.Name) and e.id in aliases and depth < 5:
        return rel_index(aliases[e.id], aliases, depth + 1)
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and \
            not isinstance(e.slice.value, bool):
        return e.slice.value
    return None


def mentions(e, attr, aliases, depth=0):
    """does an expression derive (through local names) from an attribute of that name?"""
    for n in ast.walk(e):
        if isinstance(n, ast.Attribute) and n.attr == attr:
            return not (isinstance(n.value, ast.Name) and n.value.id.startswith('other'))
        if isinstance(n, ast.Name) and n.id in aliases and depth < 5 and mentions(aliases[n.id], attr, aliases, depth + 1):
            return True
    return False


# functions of the xml module which change the tree they are given
TREE_EDITS = {'cut_extra_metadata', 'cut_obj_references', 'cut_nodes_of_types'}
# functions which add to the node they are given: a change if the node is in the model already
NODE_ADDERS = {'create_source', 'create_metadata_xml', 'SubElement'}
LOOKUPS = {'find_tag', 'find_nested_tags', 'find_metadata_item_node_in_xml', 'list_of_tag', 'list_obj_references', 'list_of_descendant_tag',
           'find_tag_with_attribute'}


def found_node(e, aliases, depth=0):
    """is a node one that was found in an existing tree (as opposed to newly made)?"""
    if isinstance(e, ast.Name) and e.id in aliases and depth < 5:
        return found_node(aliases[e.id], aliases, depth + 1)
    if isinstance(e, ast.Call):
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ''
        return nm in LOOKUPS
    if isinstance(e, ast.Subscript):
        return found_node(e.value, aliases, depth + 1)
    return False


def iterated_node(e, aliases, depth=0):
    """is a node one met when iterating over an existing tree?"""
    if isinstance(e, ast.Name) and e.id in aliases and depth < 5:
        return iterated_node(aliases[e.id], aliases, depth + 1)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        return e.func.attr.lstrip('_') in ('iter', 'getroot', 'findall', 'iterfind', 'root_for_part', 'root_for_uuid')
    return False


def existing_root(e, aliases, depth=0):
    """is it the root node of a part of a model (as opposed to a node being made)?"""
    if isinstance(e, ast.Name) and e.id in aliases and depth < 5:
        return existing_root(aliases[e.id], aliases, depth + 1)
    if isinstance(e, ast.Attribute):
        return e.attr == 'root' and isinstance(e.value, ast.Name) and e.value.id not in ('self', 'cls')
    if isinstance(e, ast.Call):
        f = e.func
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
        return nm.lstrip('_') in ('root_for_part', 'root_for_uuid')
    return False


def effects_of(fn, node, aliases):
    out = set()
    if isinstance(node, ast.Attribute):
        # mentions: the relation entries, or the content types tree, are consulted
        return {'X~'} if node.attr == 'uuid_rels_dict' else {'M~'} if node.attr in ('main_root', 'main_tree') else out
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
        for t in (node.targets if isinstance(node, ast.Assign) else [node.target]):
            for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                if isinstance(x, ast.Subscript):
                    b = catalogue_base(x.value, aliases)
                    if b:
                        out.add(b + '+')
                    elif isinstance(x.value, ast.Attribute) and x.value.attr == 'attrib' and iterated_node(x.value.value, aliases):
                        out.add('T')
                elif isinstance(x, ast.Attribute):
                    if x.attr == 'modified':
                        v = node.value
                        out.add('D' if isinstance(v, ast.Constant) and v.value is True else 'notD')
                    elif x.attr in DICTS:
                        out.add(DICTS[x.attr] + '=')
        if isinstance(node, ast.Assign):
            for t in node.targets:
                if isinstance(t, ast.Attribute) and t.attr == 'text' and \
                        (found_node(t.value, aliases) or iterated_node(t.value, aliases)):
                    out.add('T')
    elif isinstance(node, ast.Delete):
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                b = catalogue_base(t.value, aliases)
                if b:
                    out.add(b + '-')
    elif isinstance(node, ast.Call):
        f = node.func
        if isinstance(f, ast.Attribute):
            b = catalogue_base(f.value, aliases)
            if b:
                if f.attr in ('pop', 'popitem', 'clear'):
                    out.add(b + '-')
                elif f.attr in ('update', 'setdefault'):
                    out.add(b + '+')
            if f.attr in ('add', 'discard', 'remove', 'update') and mentions(f.value, 'uuid_rels_dict', aliases) and not b:
                out.add('X+' if f.attr in ('add', 'update') else 'X-')
                i = rel_index(f.value, aliases)
                out.add(f"X{'+' if f.attr in ('add', 'update') else '-'}{'?' if i is None else i}")
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
        if name.lstrip('_') == 'list_obj_references':
            out.add('XR')       # the references in an object's xml are consulted
        if name in TREE_EDITS and any(isinstance(x, ast.expr) for x in node.args):
            out.add('T')
        if name.lstrip('_') in NODE_ADDERS:
            for x in list(node.args) + [k.value for k in node.keywords]:
                if existing_root(x, aliases):
                    out.add('T')
        if name == 'SubElement' and node.args:
            if mentions(node.args[0], 'main_root', aliases) or mentions(node.args[0], 'main_tree', aliases):
                out.add('M+')
            if mentions(node.args[0], 'rels_forest', aliases):
                out.add('RT')
            elif mentions(node.args[0], 'parts_forest', aliases):
                out.add('T')
        if isinstance(f, ast.Attribute) and f.attr in ('append', 'insert', 'remove') and mentions(f.value, 'main_root', aliases):
            out.add('M+' if f.attr != 'remove' else 'M-')
        if isinstance(f, ast.Attribute) and f.attr in ('append', 'insert', 'remove') and mentions(f.value, 'rels_forest', aliases) and \
                catalogue_base(f.value, aliases) is None:
            out.add('RT')
    return out


def make_paths(repo, model_cls, extra_effects=None, inline=None, found=False):
    def resolve(fn, call):
        f = call.func
        ent = repo.resolve_expr(fn, f)
        if ent is not None and ent[0] == 'fn':
            return ent[1]
        if isinstance(f, ast.Attribute):
            base = ast.unparse(f.value)
            if base == 'self' and fn.cls is not None:
                return repo.find_method(fn.cls, f.attr)
            if base == 'model' or base.endswith('.model'):
                return repo.find_method(model_cls, f.attr)
        return None

    def eff(fn, node, aliases):
        out = effects_of(fn, node, aliases)
        if extra_effects is not None:
            out |= set(extra_effects(fn, node, aliases))
        return out

    # loading a part on demand does not change the content of the model
    inline = inline or (lambda t: t.module.name.startswith('resqpy.model') and t.name not in LAZY)
    return Paths(repo, eff, inline, resolve, found=found)
