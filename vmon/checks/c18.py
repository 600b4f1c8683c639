"""Workspace operations: random histories on the real manager, every step compared with a model of the folder."""
from .. import chain, wsops

RULE = ('one case = one history of about 60 operations (create, copy, rename, delete, select, list, delete all, edits of the '
        'contents, injected operating system errors) over hostile workspace names; after every operation the complete file '
        'tree, the result and the error are compared with the model. Non-trivial = operations executed')
ASSUMPTIONS = ['workspace names are plain file names (no path separators, not "." or "..")']

OPS = (['create_workspace'] * 4 + ['delete_workspace'] * 2 + ['copy_workspace'] * 4 + ['rename_workspace'] * 4 + ['select_workspace'] * 4 +
       ['list_workspaces'] * 5 + ['delete_all'] + ['fault'] * 3 + ['touch'] * 6 + ['create_config'] * 2 + ['select_config', 'add_inputs'])


def history(seed):
    return wsops.history(seed, 18, OPS, ['list_workspaces', 'select_workspace'] * (seed % 3 == 0) + ['create_workspace', 'create_config'] * 2, 60)


def run(ck):
    chain.many(ck, __name__, 'history', [(ck.seed * 100000 + i,) for i in range(8000 if ck.thorough else 400)])
