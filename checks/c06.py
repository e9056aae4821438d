"""C06: any change to the content of a model is flagged as unsaved; the flag is only lowered once everything has been written."""

import ast

from sa.guardcheck import check_guards
from sa.catops import defaults, model_class, operations, projected
from sa.catalogue import effects_of

CONTENT = {'P+', 'P-', 'R+', 'R-', 'OT+', 'OT-', 'M+', 'M-', 'RT', 'T'}
# loading a model, and the internal steps of loading (documented as not usually called directly), start or stay unmodified
LOADING = {'__init__', 'load_epc', 'initialize', 'fell_part', 'remove_part_from_main_tree', 'tidy_up_forests', 'load_part', 'root_for_part',
           'tree_for_part'}
# these edit the xml of the copy which they have just made (and flagged when adding it); when the part was already present (forced copy)
# the copy is not part of the model
EDIT_OWN_COPY = {'copy_part_from_other_model', 'copy_uuid_from_other_model', 'copy_all_parts_from_other_model'}
WRITERS = {'write_xml'}


def keep_cd(e):
    return 'T' if e == 'T' else 'C' if e in CONTENT else 'D' if e == 'D' else 'notD' if e == 'notD' else None


def keep_store(e):
    return e if e in ('D', 'notD', 'W', 'mod', 'unmod') else None


def writes(fn, node, aliases):
    if isinstance(node, ast.Call):
        f = node.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
        if name in WRITERS:
            return {'W'}
        if name == 'ZipFile' and any(isinstance(x, ast.Constant) and x.value in ('w', 'a', 'x')
                                     for x in list(node.args[1:]) + [k.value for k in node.keywords]):
            return {'W'}
    return set()


def branch_modified(fn, test):
    if isinstance(test, ast.Attribute) and test.attr == 'modified':
        return {'mod'}, {'unmod'}
    return None


def check(chk):
    repo = chk.repo
    chk.rule('R1 (path-effect analysis with helper functions inlined): on every normal path of every public model operation, other than those '
             'which load, each change of the parts, relationships, document properties or content-types catalogue, or of the text of an '
             'existing xml node, is accompanied by raising the modified flag. R2 the same for every function outside the model package '
             'which edits an existing xml node of a part. R3 the flag is lowered only by initialising, loading and storing. R4 storing '
             'lowers it only on paths which write; a store which writes nothing happens only when the flag is down and that was asked '
             'for.')
    chk.assumptions.append('a path which raises an exception is not judged; xml nodes are changed by assignment to text or attributes, '
                           'by SubElement, append, insert, remove, or the cut functions of the xml module.')
    ops = operations(repo)
    chk.floor('public model methods', len(ops), 100)
    n_content = 0
    engines = {f: projected(repo, keep_cd, f) for f in (True, False)}
    lowering = set()
    raised_any = set()
    for name, f in sorted(ops.items()):
        for found, p in engines.items():
            for b in ({}, defaults(f)):
                s = p.summary(f, b)
                if any('notD' in x for x in s.normal):
                    lowering.add(name)
                if any('D' in x for x in s.normal):
                    raised_any.add(name)
                if name in LOADING:
                    continue
                content = {'C'} if name in EDIT_OWN_COPY else {'C', 'T'}
                has = any(content & x for x in s.normal)
                if not has:
                    continue
                n_content += 1
                chk.check(not any(content & x and 'D' not in x for x in s.normal), f'unflagged {name}', f.loc(),
                          f'{name}() has a path which changes the content of the model without flagging it as modified',
                          sample=f'{name} found={found} defaults={bool(b)}: {len(s.normal)} effect sets, all content changes flagged')
    chk.floor('operation modes which change content', n_content, 30)
    for name in sorted(lowering):
        chk.check(name in LOADING or name == 'store_epc', f'lowered {name}', ops[name].loc(),
                  f'{name}() lowers the modified flag')
    # outside the model package
    outside = 0
    for fn in repo.all_fns():
        if fn.module.name.startswith('resqpy.model') or fn.module.name.startswith('resqpy.olio') or fn.parent is not None:
            continue
        aliases = {}
        lowers = []
        direct = False
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                aliases.setdefault(n.targets[0].id, n.value)
        for n in ast.walk(fn.node):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Call, ast.Delete)):
                es = effects_of(fn, n, aliases)
                if 'notD' in es:
                    lowers.append(n)
                if es & (CONTENT - {'M+', 'M-'}):
                    direct = True
        chk.count('functions outside the model scanned')
        for n in lowers:
            chk.bad(f'lowered {fn.short}', f'{fn.path}:{n.lineno}', f'{fn.short} lowers the modified flag of a model')
        if direct:
            outside += 1
            for found in (True, False):
                p = engines[found]
                for b in ({}, defaults(fn)):
                    s = p.summary(fn, b)
                    chk.check(not any(x & {'C', 'T'} and 'D' not in x for x in s.normal), f'unflagged {fn.short}', fn.loc(),
                              f'{fn.short} edits existing xml of a part on a path which does not flag the model as modified')
    chk.floor('functions outside the model which edit xml of parts', outside, 0)
    # set_modified and store
    sm = ops.get('set_modified')
    if chk.check(sm is not None, 'set_modified missing', 'resqpy/model', 'no set_modified method'):
        s = engines[False].summary(sm, {})
        chk.check(all('D' in x for x in s.normal), 'set_modified', sm.loc(), 'set_modified() does not always raise the flag')
    st = ops['store_epc']
    for found in (True, False):
        p = projected(repo, keep_store, found, branch=branch_modified, extra=writes)
        for mode, b in (('always', {**defaults(st), 'only_if_modified': False}), ('only_if_modified', {**defaults(st), 'only_if_modified': True}),
                        ('free', {})):
            s = p.summary(st, b)
            chk.check(bool(s.normal), 'store never returns', st.loc(), 'store_epc() has no normal path')
            chk.check(all('W' in x for x in s.normal if 'notD' in x), f'store lowers without writing', st.loc(),
                      f'store_epc() [{mode}] lowers the modified flag on a path which writes nothing')
            chk.check(all('notD' in x for x in s.normal if 'W' in x), f'store does not lower', st.loc(),
                      f'store_epc() [{mode}] writes without lowering the modified flag')
            chk.check(all('W' in x or ('unmod' in x and mode != 'always') for x in s.normal), f'store writes nothing {mode}', st.loc(),
                      f'store_epc() [{mode}] has a path which writes nothing although the model is (or may be) modified')
    # the grid level flag
    for fn in repo.all_fns():
        if fn.name == 'set_modified' and fn.cls is not None and fn.cls is not model_class(repo) and fn.parent is None:
            s = engines[True].summary(fn, {})
            chk.check(all('D' in x for x in s.normal), f'set_modified {fn.short}', fn.loc(),
                      f'{fn.short} does not always flag the parent model as modified')
    chk.rule('G: each of the effects on which the property rests happens under the reviewed condition (boolean formulas over normalised tests, compared by truth table).')
    check_guards(chk, 'C06', 15)
