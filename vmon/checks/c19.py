"""Configuration operations: random histories on the real manager, every step compared with a model of the folder."""
from .. import chain, wsops

RULE = ('one case = one history of about 70 configuration operations (create standard / CryoSat, copy, rename, delete, select, '
        'rewrite and external edits, reading, listing, injected operating system errors) in several workspaces that are themselves copied and renamed; after '
        'every operation the complete file tree, the result and the error are compared with the model. '
        'Non-trivial = operations executed')
ASSUMPTIONS = ['configuration names are plain file names (no path separators, not "." or "..")']

OPS = (['create_workspace', 'copy_workspace', 'rename_workspace', 'delete_workspace'] + ['create_config'] * 5 + ['delete_config'] * 2 +
       ['copy_config'] * 4 + ['rename_config'] * 4 + ['select_config'] * 3 + ['write_config'] * 4 + ['read_config'] * 4 + ['touch'] * 3 +
       ['remove_outputs', 'add_inputs'] + ['fault_config'] * 3)


def history(seed):
    return wsops.history(seed, 19, OPS, ['create_workspace'] * 2 + ['create_config'] * 3, 70)


def fresh():
    """newly created configurations are of the current version"""
    from .. import harness, compare
    import os, shutil
    from dedop.ui.workspace_manager import WorkspaceManager
    from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
    d = harness.scratch('f')
    m = WorkspaceManager(os.path.join(d, 'w'))
    L = compare.Log(dict(part='fresh'))
    with harness.quiet():
        m.create_workspace('w')
        for cryo in (False, True):
            c = 'c%d' % cryo
            m.create_config('w', c, cryosat=cryo)
            try:
                cst = ConstantsFile(m.get_config_file('w', c, 'CST'))
                CharacterisationFile(cst, m.get_config_file('w', c, 'CHD'))
                ConfigurationFile(m.get_config_file('w', c, 'CNF'))
            except Exception as e:
                L.bad('new configuration (cryosat=%s) is refused: %s' % (cryo, e))
            if tuple(m.get_all_config_version('w', c)) != tuple(m.get_all_default_config_version()):
                L.bad('new configuration (cryosat=%s) has versions %s' % (cryo, m.get_all_config_version('w', c)))
            L.n('new configurations loaded')
    shutil.rmtree(d, ignore_errors=True)
    return L.viol, L.counts, L.desc


def run(ck):
    chain.many(ck, __name__, 'fresh', [()])
    chain.many(ck, __name__, 'history', [(ck.seed * 100000 + i,) for i in range(6000 if ck.thorough else 300)])
