"""File trees of the workspace manager as data, for model-based monitors."""
import os, shutil


def snap(root):
    """{relative path: bytes, or None for a folder} of everything below root"""
    out = {}
    if not os.path.isdir(root):
        return None
    for d, ds, fs in os.walk(root):
        r = os.path.relpath(d, root)
        r = '' if r == '.' else r + '/'
        for x in ds:
            out[r + x] = None
        for x in fs:
            with open(os.path.join(d, x), 'rb') as fp:
                out[r + x] = fp.read()
    return out


def canon(t):
    """files (selection files without line end), workspaces and configurations; other empty folders do not count"""
    if t is None:
        t = {}
    out = {}
    for p, c in t.items():
        f = p.split('/')
        if c is None:
            if len(f) == 1 or (len(f) == 3 and f[1] == 'configs'):
                out[p + '/'] = None
        elif f[-1] == '.current' and (len(f) == 1 or (len(f) == 3 and f[1] == 'configs')):
            c = c.decode('utf-8', 'replace').split('\n')[0].strip('\r')
            if c:       # an empty selection is no selection
                out[p] = c
        else:
            out[p] = c
    return out


def diff(got, want):
    """-> None or a text"""
    got, want = canon(got), canon(want)
    if got == want:
        return None
    a = sorted(set(got) - set(want))[:3]
    b = sorted(set(want) - set(got))[:3]
    c = sorted(k for k in set(got) & set(want) if got[k] != want[k])[:3]
    t = []
    if a: t.append('unexpected: %s' % a)
    if b: t.append('missing: %s' % b)
    if c: t.append('changed: %s' % [(k, got[k][:60] if got[k] else got[k], want[k][:60] if want[k] else want[k]) for k in c])
    return '; '.join(t)


def under(t, p):
    return {k: v for k, v in t.items() if k == p or k.startswith(p + '/')}


def remove(t, p):
    return {k: v for k, v in t.items() if not (k == p or k.startswith(p + '/'))}


def copy(t, p, q):
    out = dict(t)
    for k, v in under(t, p).items():
        out[q + k[len(p):]] = v
    return out


def rename(t, p, q):
    return remove(copy(t, p, q), p)


def put(t, p, c):
    """sets a file or folder (None), with parents"""
    t = dict(t)
    f = p.split('/')
    for i in range(1, len(f)):
        t.setdefault('/'.join(f[:i]), None)
    t[p] = c
    return t
