"""Upgrade of stored configurations against an independent model of the change log."""
import copy, json, os, shutil, warnings
import numpy as np
from .. import chain, harness, compare, tree

RULE = ('one case = one workspace with configurations whose files are set back to random older (or current, newer, '
        'unversioned) versions by undoing the change log of the delivered template, with random user edits, extra '
        'parameters and key order; upgraded by the real manager, stored files compared with the model, loaded with the '
        'real readers, upgraded again. Plus random change histories through the merging step. Non-trivial = files upgraded')

KEYS = ('CHD', 'CNF', 'CST')
# values of parameters the current version does not have any more
OLD = dict(flag_remove_doppler_ambiguities_cnf=0, ambiguity_mask_margin_cnf=3, elevation_reference_value_cnf=12.5,
           flag_azimuth_processing_method_cnf=1)


def version(c):
    return c['__metainf__']['version'] if '__metainf__' in c else -1


def model(user, default):
    """last change of each parameter since the user's version decides"""
    v = version(user)
    if v >= version(default):
        return copy.deepcopy(user)
    last = {}
    for ch in default['__metainf__']['changelog']:
        if ch['version'] > v:
            for p in ch['parameters']:
                last[p[0]] = p[1]
    out = {k: x for k, x in user.items() if last.get(k) is None}
    out.update({k: default[k] for k, how in last.items() if how in '+*'})
    out['__metainf__'] = default['__metainf__']
    return copy.deepcopy(out)


def edit(rng, val):
    if isinstance(val, bool): return bool(rng.integers(2))
    if isinstance(val, int): return val + int(rng.integers(0, 3))
    if isinstance(val, float): return val * float(rng.uniform(.5, 2)) + float(rng.normal())
    return val


def older(rng, tpl, v):
    """a user's file of version v"""
    c = copy.deepcopy(tpl)
    log = c['__metainf__']['changelog']
    if v < version(tpl):
        for ch in log:
            if ch['version'] > v:
                for p in ch['parameters']:
                    if p[1] == '+': c.pop(p[0], None)
                    elif p[1] == '-': c[p[0]] = dict(value=OLD.get(p[0], 1), description='old', units='flag')
                    else: c[p[0]]['value'] = OLD.get(p[0], 1)
    c['__metainf__']['version'] = v
    c['__metainf__']['changelog'] = [ch for ch in log if ch['version'] <= v]
    for k in list(c):
        if k == '__metainf__': continue
        r = rng.random()
        if r < .4: c[k]['value'] = edit(rng, c[k]['value'])
        elif r < .45 and k not in OLD: c[k]['description'] = 'my own text é %d' % rng.integers(99)
    opt = dict(min_lat_cnf=10.5, max_lat_cnf=20, min_lon_cnf=-3, look_angle_mask_min_chd=-.6, my_parameter_cnf=[1, 2])
    for k, val in opt.items():
        if rng.random() < .3: c[k] = dict(value=val, units=None)
    if v < version(tpl) and rng.random() < .15:        # a newer parameter already added by hand
        for ch in tpl['__metainf__']['changelog']:
            for p in ch['parameters']:
                if ch['version'] > v and p[1] == '+' and p[0] in tpl:
                    c[p[0]] = dict(value=tpl[p[0]]['value'], description='by hand')
    items = list(c.items())
    c = dict(items[i] for i in rng.permutation(len(items)))
    if v < 0: c.pop('__metainf__')
    return c


def stored(seed):
    from dedop.ui.workspace_manager import WorkspaceManager
    from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
    rng = np.random.default_rng([seed, 17])
    d = harness.scratch('up')
    L = compare.Log(dict(seed=seed, part='stored'))
    m = WorkspaceManager(os.path.join(d, 'ws'))
    vers = []
    with harness.quiet():
        m.create_workspace('w1')
        m.create_workspace('w2')
        for w, c, cryo in (('w1', 'a', False), ('w1', 'b', False), ('w1', 'cs', True), ('w2', 'a', False)):
            m.create_config(w, c, cryosat=cryo)
        # the delivered (current) templates
        m.create_config('w2', 'ref')
        tpl = {k: json.load(open(m.get_config_file('w2', 'ref', k))) for k in KEYS}
        user = {}
        for w, c in (('w1', 'a'), ('w1', 'b'), ('w2', 'a')):
            for k in KEYS:
                cur = version(tpl[k])
                v = int((-1, cur, cur + 1, cur + 5)[int(rng.integers(4))]) if rng.random() < .4 else int(rng.integers(-1, cur + 1))
                f = older(rng, tpl[k], v)
                user[w, c, k] = f
                with open(m.get_config_file(w, c, k), 'w') as fp:
                    json.dump(f, fp, indent=[None, 2, 8][int(rng.integers(3))])
                vers.append('%s:%d' % (k, v))
        L.desc['versions'] = vers
        for w, c in (('w1', 'a'), ('w2', 'a'), ('w1', 'b')):
            before = tree.snap(m.workspaces_dir)
            ks = KEYS if rng.random() < .5 else tuple(rng.permutation(KEYS)[:int(rng.integers(1, 3))])
            old = m.get_all_config_version(w, c)
            if tuple(old) != tuple(version(user[w, c, k]) for k in KEYS):
                L.bad('versions reported as %s' % (old,))
            if len(ks) == 3:
                ret = list(m.upgrade_all_config(w, c))
            else:
                ret = [m.upgrade_config(w, c, str(k)) for k in ks]
            after = tree.snap(m.workspaces_dir)
            mine = ['%s/configs/%s/%s.json' % (w, c, k) for k in ks]
            t = tree.diff({k: v for k, v in after.items() if k not in mine}, {k: v for k, v in before.items() if k not in mine})
            if t: L.bad('upgrading changed other files: ' + t)
            for k, rv in zip(ks, ret):
                want = model(user[w, c, k], tpl[k])
                got = json.loads(after['%s/configs/%s/%s.json' % (w, c, k)].decode('utf-8'))
                if got != want:
                    bad = [x for x in set(got) | set(want) if got.get(x) != want.get(x)]
                    L.bad('%s version %d upgraded: %s' % (k, version(user[w, c, k]), [(x, got.get(x), want.get(x)) for x in bad[:2]]))
                if rv != version(want): L.bad('%s: upgrade returned version %r, stored %d' % (k, rv, version(want)))
                L.n('files upgraded', version(want) != version(user[w, c, k]))
                L.n('files left alone', version(want) == version(user[w, c, k]))
                L.n('parameters compared', len(want))
                with open(m.get_config_file(w, c, k)) as fp: fp.read()
            # again
            for k in ks: m.upgrade_config(w, c, str(k))
            again = tree.snap(m.workspaces_dir)
            for x in mine:
                if json.loads(again[x].decode()) != json.loads(after[x].decode()):
                    L.bad('upgrading twice differs from upgrading once: %s' % x)
            # usable
            if len(ks) == 3 and all(version(user[w, c, k]) <= version(tpl[k]) for k in KEYS):
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    cst = ConstantsFile(m.get_config_file(w, c, 'CST'))
                    chd = CharacterisationFile(cst, m.get_config_file(w, c, 'CHD'))
                    cnf = ConfigurationFile(m.get_config_file(w, c, 'CNF'))
                    from .c16 import SPEC
                    for o, key in ((cst, 'CST'), (chd, 'CHD'), (cnf, 'CNF')):
                        for a, sp in SPEC[key].items():
                            if not sp[0].startswith('antenna_'): getattr(o, a)
                L.n('upgraded configurations loaded')
            if L.viol: break
        dv = m.get_all_default_config_version()
        if tuple(dv) != tuple(version(tpl[k]) for k in KEYS): L.bad('default versions reported as %s' % (dv,))
    shutil.rmtree(d, ignore_errors=True)
    return L.viol, L.counts, L.desc


def merging(seed):
    """random change histories"""
    from dedop.ui.workspace_manager import WorkspaceManager
    rng = np.random.default_rng([seed, 171])
    L = compare.Log(dict(seed=seed, part='histories'))
    fn = getattr(WorkspaceManager, '_do_upgrade_config', None)
    if fn is None:
        return [], {}, L.desc
    pool = ['p%d' % i for i in range(6)]
    for _ in range(40):
        have = {p: i for i, p in enumerate(pool) if rng.random() < .5}
        states, log = [dict(have)], [dict(version=0, parameters=[], comment='initial')]
        nv = int(rng.integers(1, 7))
        first = int(rng.integers(0, 3))
        log[0]['version'] = first
        v = first
        for _v in range(nv):
            v += int((1, 1, 1, 2)[int(rng.integers(4))])
            ps = []
            for _c in range(int(rng.integers(0, 5))):
                p = pool[int(rng.integers(6))]
                if p in have:
                    if rng.random() < .5: ps.append([p, '-', '']); del have[p]
                    else: ps.append([p, '*', '']); have[p] += 10
                else: ps.append([p, '+', '']); have[p] = int(rng.integers(100))
            log.append(dict(version=v, parameters=ps))
            states.append(dict(have))
        d = {k: dict(value=x, units='u') for k, x in have.items()}
        d['__metainf__'] = dict(version=v, changelog=log)
        i = int(rng.integers(0, len(states)))
        uv = log[i]['version'] if rng.random() < .9 else -1
        u = {k: dict(value='user %s' % x) for k, x in states[i].items()}
        if rng.random() < .2: u['mine'] = dict(value=1)
        if rng.random() < .2 and u: u.pop(list(u)[0])
        if uv >= 0: u['__metainf__'] = dict(version=uv, changelog=log[:i + 1])
        want = model(u, d)
        d0, u0 = copy.deepcopy(d), copy.deepcopy(u)
        got = fn(u, d)
        if got != want:
            L.bad('history %s from version %d: got %s, expected %s' % (
                [(c['version'], [p[:2] for p in c['parameters']]) for c in log], uv, {k: x for k, x in got.items() if k != '__metainf__'},
                {k: x for k, x in want.items() if k != '__metainf__'}))
            break
        if d != d0: L.bad('the default definition was changed by the upgrade')
        if fn(copy.deepcopy(got), d) != want: L.bad('upgrading twice differs')
        L.n('histories merged')
    return L.viol, L.counts, L.desc


def run(ck):
    k = 120 if ck.thorough else 6
    chain.many(ck, __name__, 'stored', [(ck.seed * 10000 + i,) for i in range(80 * k)])
    chain.many(ck, __name__, 'merging', [(ck.seed * 10000 + i,) for i in range(40 * k)])
