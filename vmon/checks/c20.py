"""Inputs, outputs, notebooks: random histories on the real manager, every step compared with a model of the folder."""
from .. import chain, wsops

RULE = ('one case = one history of about 80 operations (add, list, remove inputs; list, remove outputs; notebooks; edits; '
        'copies of workspaces and configurations, injected operating system errors) with name patterns, missing files, odd file names and links; after every '
        'operation the complete file tree, returned lists, errors and the files outside are compared with the model. '
        'Non-trivial = operations executed')

OPS = (['create_workspace', 'copy_workspace', 'rename_workspace', 'delete_workspace'] + ['create_config'] * 2 + ['delete_config', 'copy_config', 'rename_config'] +
       ['add_inputs'] * 6 + ['remove_inputs'] * 4 + ['list_inputs'] * 6 + ['remove_outputs'] * 3 + ['touch'] * 12 + ['notebook'] * 3 + ['fault_files'] * 3)


def history(seed):
    return wsops.history(seed, 20, OPS, ['create_workspace'] * 2 + ['create_config'] * 3 + ['add_inputs'], 80)


def run(ck):
    chain.many(ck, __name__, 'history', [(ck.seed * 100000 + i,) for i in range(6000 if ck.thorough else 300)])
