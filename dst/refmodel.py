"""Small independent reference model of what the commands must compute.

Nothing here imports the program under test.
"""

import math
import re

import numpy as np

from world import FIELDS, fname


# -- decoding of outputs ------------------------------------------------------------
class Ambiguous(Exception):
    """The inputs are outside of the domain of the property."""


class Bad(Exception):
    """An output file which is not a complete, well formed file."""


def dec_gmx(b):
    z = b.find(b'\0')
    if z < 0:
        raise Bad('no end of header')
    head = b[:z].decode('latin-1').splitlines()
    if not head or not head[0].startswith('FORMAT GMX_FLOW_'):
        raise Bad('no format line')
    info, fields, num = {}, None, None
    for l in head:
        w = l.split()
        if not w:
            continue
        if w[0] == 'SHAPE':
            info['shape'] = (int(w[1]), int(w[2]))
        elif w[0] == 'SPACING':
            info['spacing'] = (float(w[1]), float(w[2]))
        elif w[0] == 'ORIGIN':
            info['origin'] = (float(w[1]), float(w[2]))
        elif w[0] == 'NUMDATA':
            num = int(w[1])
        elif w[0] == 'FIELDS':
            fields = w[1:]
    if num is None or fields is None or len(info) != 3:
        raise Bad('incomplete header')
    size = sum(8 if f in ('IX', 'IY') else 4 for f in fields) * num
    body = b[z + 1:]
    if len(body) != size:
        raise Bad('body has %d bytes instead of %d' % (len(body), size))
    pos, raw = 0, {}
    for f in fields:
        t, s = ('<u8', 8) if f in ('IX', 'IY') else ('<f4', 4)
        raw[f] = np.frombuffer(body, t, num, pos)
        pos += s * num
    out = {l: np.zeros(info['shape']) for l in FIELDS}
    ix, iy = raw['IX'].astype(int), raw['IY'].astype(int)
    if num and (ix.max() >= info['shape'][0] or iy.max() >= info['shape'][1]):
        raise Bad('bin outside of the grid')
    for l in FIELDS:
        out[l][ix, iy] = raw[l]
    out.update(info)
    return out


def _grid(rows):
    if rows.ndim != 2 or rows.shape[1] != 7 or len(rows) == 0:
        raise Bad('not a table of 7 columns')
    xs = np.unique(np.round(rows[:, 0], 4))
    ys = np.unique(np.round(rows[:, 1], 4))
    nx, ny = len(xs), len(ys)
    if nx * ny != len(rows):
        raise Bad('%d rows do not make a %dx%d grid' % (len(rows), nx, ny))
    out = {'shape': (nx, ny), 'x': xs, 'y': ys}
    o = np.lexsort((np.round(rows[:, 1], 4), np.round(rows[:, 0], 4)))
    rows = rows[o].reshape(nx, ny, 7)
    for k, l in enumerate(FIELDS):
        out[l] = rows[:, :, 2 + k]
    return out


def dec_simple(b):
    if len(b) % 28:
        raise Bad('%d bytes are no multiple of a record' % len(b))
    return _grid(np.frombuffer(b, '<f4').astype(float).reshape(-1, 7))


def dec_plain(b):
    t = b.decode('latin-1')
    if not t.endswith('\n'):
        raise Bad('torn last line')
    lines = t.split('\n')[:-1]
    if lines[0].split() != ['X', 'Y', 'N', 'T', 'M', 'U', 'V']:
        raise Bad('no column header')
    try:
        rows = np.array([[float(v) for v in l.split()] for l in lines[1:]])
    except ValueError as e:
        raise Bad(str(e))
    return _grid(rows)


def dec(b, ftype):
    return {'gmx': dec_gmx, 'simple': dec_simple, 'simple_plain': dec_plain}[ftype](b)


# -- frames as the program sees them ---------------------------------------------------
def seen(fr):
    """The contents of a frame at the precision of its file."""
    return {l: fr[l] for l in FIELDS}


def coords(fr):
    nx, ny = fr['shape']
    x = fr['origin'][0] + fr['spacing'][0] * (np.arange(nx) + 0.5)
    y = fr['origin'][1] + fr['spacing'][1] * (np.arange(ny) + 0.5)
    return x, y


def close(a, b, rtol=2e-5, atol=2e-5):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def average(frs):
    """M, N: means; U, V weighed by M and T by N; zero without weight."""
    k = len(frs)
    M = sum(f['M'] for f in frs)
    N = sum(f['N'] for f in frs)
    out = {'M': M / k, 'N': N / k}
    for l, w, W in (('U', 'M', M), ('V', 'M', M), ('T', 'N', N)):
        s = sum(f[l] * f[w] for f in frs)
        out[l] = np.where(W != 0, s / np.where(W != 0, W, 1), 0.0)
    return out


# -- averages of cut, recentred, combined and split maps ------------------------------------
def edges_outermost(fr, floor, cutoff, radius, bins):
    """Outermost droplet cells (left, right) of the floor layer, without periodic
    boundary; without a floor, of the lowest layer which has any."""
    nx, ny = fr['shape']
    dx, dy = fr['spacing']
    full = fr['M'] >= cutoff
    _, y = coords(fr)
    if floor is None:
        js = range(ny)
    else:
        d = [abs(math.ceil(v - floor) - 1) for v in y]
        js = [d.index(min(d))]
    for j in js:
        ok = []
        for i in range(nx):
            if not full[i, j]:
                continue
            n = sum(1 for a in range(nx) for b in range(ny)
                    if full[a, b] and (a, b) != (i, j)
                    and ((a - i) * dx)**2 + ((b - j) * dy)**2 <= radius**2)
            if n >= bins:
                ok.append(i)
        if ok:
            return ok[0], ok[-1]
    return None


def cut(fr, lims):
    x, y = coords(fr)
    keep = []
    for v, (lo, hi) in zip((x, y), lims):
        k = [i for i, c in enumerate(v)
             if (lo is None or c >= lo) and (hi is None or c <= hi)]
        if not k:
            raise Ambiguous('nothing left')
        keep.append((k[0], k[-1] + 1))
    (a, b), (c, d) = keep
    out = {l: fr[l][a:b, c:d] for l in FIELDS}
    out['shape'] = out['M'].shape
    out['spacing'] = fr['spacing']
    out['origin'] = (fr['origin'][0] + a * fr['spacing'][0], fr['origin'][1] + c * fr['spacing'][1])
    return out


def whole(v):
    """Nearest whole number."""
    if abs(v - math.floor(v) - 0.5) < 2e-3:
        raise Ambiguous('halfway between two bins')
    return int(round(v))


def recentre(frs, how, floor, cutoff, radius, bins):
    """Maps moved by whole bins so that their centres are in the same place,
    which is that of the first bin before, and cut to what all of them have."""
    nx = frs[0]['shape'][0]
    at = []
    for fr in frs:
        if fr['shape'][0] < 2 or fr['shape'][1] < 2:
            raise Ambiguous('no grid')
        if how == 'com':
            W = fr['M'].sum()
            if W == 0:
                raise Ambiguous('no mass')
            at.append(whole(float((fr['M'].sum(axis=1) * np.arange(nx)).sum() / W)))
        else:
            e = edges_outermost(fr, floor, cutoff, radius, bins)
            if e is None:
                raise Ambiguous('no droplet')
            at.append(e[how == 'right'])
    lo, hi = max(-a for a in at), min(nx - 1 - a for a in at)
    if hi - lo < 1:
        raise Ambiguous('nothing in common')
    out = []
    for fr, a in zip(frs, at):
        g = {l: fr[l][lo + a:hi + a + 1] for l in FIELDS}
        g['shape'] = g['M'].shape
        g['spacing'] = fr['spacing']
        g['origin'] = (fr['origin'][0] + lo * fr['spacing'][0], fr['origin'][1])
        out.append(g)
    return out


def combined(f, nx, ny):
    """Sums of M and N over blocks of bins, means of the others by weight."""
    X, Y = f['M'].shape[0] // nx, f['M'].shape[1] // ny
    if not X or not Y:
        raise Ambiguous('no whole block')
    blk = lambda v: v[:X * nx, :Y * ny].reshape(X, nx, Y, ny).sum(axis=(1, 3))
    out = {'M': blk(f['M']), 'N': blk(f['N'])}
    for l, w in (('U', 'M'), ('V', 'M'), ('T', 'N')):
        W = out[w]
        out[l] = np.where(W != 0, blk(f[l] * f[w]) / np.where(W != 0, W, 1), 0.0)
    return out


def split(f, k):
    """Bins split k-fold along both axes, smoothed over the k - 1 nearest ones."""
    if k == 1:
        return dict(f)
    fine = {l: np.kron(f[l], np.ones((k, k))) for l in FIELDS}
    nx, ny = fine['M'].shape
    out = {l: np.zeros((nx, ny)) for l in FIELDS}
    for i in range(nx):
        for j in range(ny):
            s = (slice(max(0, i - k + 1), i + k), slice(max(0, j - k + 1), j + k))
            for l in 'MN':
                out[l][i, j] = fine[l][s].mean()
            for l, w in (('U', 'M'), ('V', 'M'), ('T', 'N')):
                W = fine[w][s].sum()
                out[l][i, j] = (fine[l][s] * fine[w][s]).sum() / W if W else 0.0
    return out


def average_of(c, frs):
    """(fields, origin of the corner, spacing, offsets of the origin along x and y
    which the conventions of the formats allow)"""
    frs = [cut(fr, (c.get('xlim') or (None, None), c.get('ylim') or (None, None))) for fr in frs]
    if c.get('recenter'):
        frs = recentre(frs, c['recenter'], c.get('floor'), c.get('co', 0.0), c.get('cr', 1.0), c.get('cb', 1))
    out = average(frs)
    origin, sp = list(frs[0]['origin']), list(frs[0]['spacing'])
    offs = [[0, 0.5 * d] for d in sp]
    if c.get('combine'):
        n = c['combine']
        out = combined(out, *n)
        offs = [[a + b for a in o for b in (0, 0.5 * d * (m - 1))] for o, d, m in zip(offs, sp, n)]
        sp = [d * m for d, m in zip(sp, n)]
    if c.get('supersample'):
        out = split(out, c['supersample'])
        sp = [d / c['supersample'] for d in sp]
    return out, origin, sp, offs


def same_frame(got, want, ftype, src_fmt, origin=None, spacing=None):
    """Compare a decoded output with expected fields; returns '' or the problem."""
    shape = want['M'].shape
    if tuple(got['shape']) != tuple(shape):
        return 'shape %r instead of %r' % (tuple(got['shape']), tuple(shape))
    mask = want['M'] != 0 if ftype == 'gmx' else np.ones(shape, bool)
    for l in FIELDS:
        w = np.where(mask, want[l], 0.0)
        if not close(got[l], w):
            bad = np.argmax(np.abs(np.asarray(got[l]) - w))
            i, j = np.unravel_index(bad, shape)
            return 'field %s of bin (%d, %d) is %r instead of %r' % (
                l, i, j, float(got[l][i, j]), float(w[i, j]))
    if origin is not None:
        if ftype == 'gmx':
            if not close(got['spacing'], spacing, 1e-6, 2e-6) or not close(got['origin'], origin, 1e-6, 2e-6):
                return 'grid %r %r instead of %r %r' % (got['origin'], got['spacing'],
                                                        origin, spacing)
        else:
            for ax, n in ((0, shape[0]), (1, shape[1])):
                w = origin[ax] + spacing[ax] * (np.arange(n) + 0.5)
                if not close(got['xy'[ax]], w, atol=3e-4):
                    return 'coordinates along %s differ' % 'xy'[ax]
    return ''


# -- frame selection --------------------------------------------------------------------
def select(numbers, begin=1, end=None):
    """Numbers read: consecutive from begin while the file exists, up to end."""
    have, out, n = set(numbers), [], begin
    while n in have and (end is None or n <= end):
        out.append(n)
        n += 1
    return out


def windows(numbers, group, begin=1, end=None, rolling=False):
    """[(frames of the window, number of the output)]"""
    sel = select(numbers, begin, end)
    out = []
    if rolling:
        num, step = begin, 1
    else:
        num, step = int(math.ceil(begin / group)), group
    i = 0
    while i + group <= len(sel):
        out.append((sel[i:i + group], num))
        num += 1
        i += step
    return out


# -- wetted layers -----------------------------------------------------------------------
def cutoff_of(fr, cutoff):
    if cutoff is not None:
        return cutoff
    lo, hi = float(fr['M'].min()), float(fr['M'].max())
    return None if lo == hi else 0.5 * (lo + hi)


def stretch(fr, j, cutoff, radius, bins):
    """(left, right, unique) cells of the longest wet stretch of layer j in the
    periodic box, or None; unique tells whether the answer is unambiguous."""
    nx, ny = fr['shape']
    dx, dy = fr['spacing']
    co = cutoff_of(fr, cutoff)
    if co is None:
        return None
    M = fr['M']
    wet = []
    for i in range(nx):
        if M[i, j] < co:
            wet.append(False)
            continue
        cnt = 0
        ri, rj = int(radius / dx) + 1, int(radius / dy) + 1
        seen = set()
        for di in range(-ri, ri + 1):
            for dj in range(-rj, rj + 1):
                if (di, dj) == (0, 0) or not 0 <= j + dj < ny:
                    continue
                if (di * dx)**2 + (dj * dy)**2 > radius**2:
                    continue
                c = ((i + di) % nx, j + dj)
                if c == (i, j) or c in seen:
                    continue
                seen.add(c)
                cnt += M[c] >= co
        wet.append(cnt >= bins)
    if not any(wet):
        return None
    if all(wet):
        return 0, nx - 1, True
    best = []
    s = next(i for i in range(nx) if not wet[i])
    i = s
    while i < s + nx:
        if wet[i % nx]:
            k = i
            while wet[(k + 1) % nx]:
                k += 1
            best.append((k - i + 1, i % nx, k % nx))
            i = k + 1
        else:
            i += 1
    best.sort(reverse=True)
    uniq = len(best) == 1 or best[0][0] > best[1][0]
    return best[0][1], best[0][2], uniq


def radius_ok(sp, radius):
    """No lattice vector ends within rounding distance of the circle."""
    dx, dy = sp
    for a in range(0, int(radius / dx) + 2):
        for b in range(0, int(radius / dy) + 2):
            if abs((a * dx)**2 + (b * dy)**2 - radius**2) < 1e-3:
                return False
    return True


def nearest_image(cell, prev, nx):
    """The periodic image of a cell closest to the previous unwrapped one."""
    return cell + nx * round((prev - cell) / nx)


def unwrap(prev, cells, nx):
    """Unwrapped (left, right) following prev; checks the preconditions."""
    l, r = cells
    if prev is None:
        return (l, r if r >= l else r + nx)
    a, b = nearest_image(l, prev[0], nx), nearest_image(r, prev[1], nx)
    if abs(a - prev[0]) * 4 >= nx or abs(b - prev[1]) * 4 >= nx:
        raise Ambiguous('edge moved too far')
    if (a // nx != prev[0] // nx) and (b // nx != prev[1] // nx):
        raise Ambiguous('both edges crossed')
    if not 0 <= b - a <= nx - 3:
        raise Ambiguous('width')
    return a, b


def spreading(frames, floor_layer, cutoff, radius, bins, dt, t0=0.0):
    """Rows (t, radius, left, right) and the index of the impact frame."""
    rows, impact, prev, t = [], None, None, t0
    for i, fr in enumerate(frames):
        st = stretch(fr, floor_layer, cutoff, radius, bins)
        if st is None:
            continue
        if not st[2]:
            raise Ambiguous('two longest stretches')
        nx = fr['shape'][0]
        width = (st[1] - st[0]) % nx + 1
        if width > nx - 2:
            raise Ambiguous('layer nearly full')
        prev = unwrap(prev, st[:2], nx)
        x, _ = coords(fr)
        xl, xr = (x[0] + c * fr['spacing'][0] for c in prev)
        if impact is None:
            impact = i
        rows.append((t, 0.5 * (xr - xl), xl, xr))
        t += dt
    return rows, impact


def interface(frames, cutoff, radius, bins, recenter=None, lims=None):
    """Outlines: list of (xs, ys) as they are written, one per frame."""
    lo, hi = lims or (None, None)
    out, prev, prevlayers = [], {}, None
    for fr in frames:
        nx, ny = fr['shape']
        x, y = coords(fr)
        layers = []
        cur = {}
        for j in range(ny):
            if lo is not None and y[j] < lo or hi is not None and y[j] > hi:
                continue
            st = stretch(fr, j, cutoff, radius, bins)
            if st is None:
                continue
            if not st[2]:
                raise Ambiguous('two longest stretches')
            if (st[1] - st[0]) % nx + 1 > nx - 2:
                raise Ambiguous('layer nearly full')
            layers.append((j, st))
        js = [j for j, _ in layers]
        if len(js) < 2 or js != list(range(js[0], js[-1] + 1)):
            raise Ambiguous('layers are not connected')
        if prevlayers is not None and (js[-1] < prevlayers[0] or js[0] > prevlayers[-1]):
            raise Ambiguous('layers of two frames do not overlap')
        for j, st in layers:
            if not prev:
                if st[1] < st[0]:
                    raise Ambiguous('starts across the boundary')
                cur[j] = (st[0], st[1])
            else:
                q = min(max(j, prevlayers[0]), prevlayers[-1])
                cur[j] = unwrap(prev[q], st[:2], nx)
        dx = fr['spacing'][0]
        left = [x[0] + dx * cur[j][0] for j in js]
        right = [x[0] + dx * cur[j][1] for j in js]
        ys = [y[j] - y[js[0]] for j in js]
        xs = left + right[::-1]
        if recenter == 'zero':
            c = 0.5 * (xs[0] + xs[-1])
        elif recenter == 'com':
            if any(a < 0 or b > nx - 1 for a, b in cur.values()):
                raise Ambiguous('centre of mass across the boundary')
            W = fr['M'].sum()
            c = float((fr['M'].sum(axis=1) * x).sum() / W)
        else:
            c = 0.0
        out.append(([v - c for v in xs], ys + ys[::-1]))
        prev, prevlayers = cur, js
    return out


# -- text outputs -----------------------------------------------------------------------
def rows_of(b, complete=False):
    """Numeric rows of a text output (comment lines left out)."""
    t = b.decode('latin-1')
    if complete and t and not t.endswith('\n'):
        raise Bad('torn last line')
    rows = []
    for l in t.split('\n'):
        if not l.strip() or l.lstrip().startswith('#'):
            continue
        try:
            rows.append([float(v) for v in l.split()])
        except ValueError:
            raise Bad('bad line %r' % l)
    return rows


_date = re.compile(rb'(# Creation date:)[^\n]*')


def norm(b):
    """Contents without the creation date."""
    return _date.sub(rb'\1', b)


def area(xs, ys):
    n = len(xs) // 2
    l, r = xs[:n], xs[n:][::-1]
    w = [b - a for a, b in zip(l, r)]
    return sum(0.5 * (w[k] + w[k + 1]) * (ys[k + 1] - ys[k]) for k in range(n - 1))


def length(xs, ys):
    return sum(math.hypot(xs[k + 1] - xs[k], ys[k + 1] - ys[k])
               for k in range(len(xs) - 1))


def angle_fit(xs, ys):
    n = len(xs) // 2
    return 2 * math.degrees(math.atan(2 * max(ys[:n]) / (xs[-1] - xs[0])))


def angle_at(xs, ys, h):
    n = len(xs) // 2
    k = min(range(n), key=lambda q: (abs(ys[q] - ys[0] - h), q))
    dy = ys[k] - ys[0]
    dl = xs[k] - xs[0]
    r = xs[n:][::-1]
    dr = -(r[k] - r[0])
    f = lambda d: math.degrees(math.acos(d / math.hypot(d, dy)))
    return f(dl), f(dr)


def iface_mean(pts):
    """Mean outline over the layers which all interfaces have."""
    edges = []
    for side in (0, 1):
        maps = []
        for xs, ys in pts:
            n = len(xs) // 2
            a = list(zip(ys, xs))
            maps.append(dict(a[:n] if side == 0 else a[n:]))
        keys = sorted(set(maps[0]).intersection(*maps[1:]))
        edges.append([(k, sum(m[k] for m in maps) / len(maps)) for k in keys])
    l, r = edges
    return ([x for _, x in l] + [x for _, x in r[::-1]],
            [y for y, _ in l] + [y for y, _ in r[::-1]])


def slope(v, d, ax):
    """Derivative along an axis, of second order up to the border."""
    v = np.moveaxis(v, ax, 0)
    out = np.zeros(v.shape)
    for i in range(1, len(v) - 1):
        out[i] = (v[i + 1] - v[i - 1]) / (2 * d)
    out[0] = (-3 * v[0] + 4 * v[1] - v[2]) / (2 * d)
    out[-1] = (3 * v[-1] - 4 * v[-2] + v[-3]) / (2 * d)
    return np.moveaxis(out, 0, ax)


def dissipation(U, V, dx, dy, mu=8.77e-4):
    ux, uy, vx, vy = slope(U, dx, 0), slope(U, dy, 1), slope(V, dx, 0), slope(V, dy, 1)
    return 2 * mu * (ux**2 + vy**2 - (ux + vy)**2 / 3) + mu * (vx + uy)**2


def slip(U, y, floor):
    """Distances below the floor at which the flow of the columns is zero,
    from the line of height over flow."""
    out = []
    for u in U:
        if u.std() < 0.05:
            raise Ambiguous('flow does not change with height')
        b = ((u - u.mean()) * (y - y.mean())).sum() / ((u - u.mean())**2).sum()
        out.append(floor - (y.mean() - b * u.mean()))
    return float(np.mean(out)), float(np.std(out))


def sample(fr, label, total, cutoff_label=None, cutoff=None, lims=None, floor=0.0):
    """(value, spread or None) of a label over the bins of a frame."""
    if label in ('visc_diss', 'slip_length'):
        f = cut(fr, lims or ((None, None), (None, None)))
        if min(f['shape']) < 3:
            raise Ambiguous('too few bins')
        if label == 'slip_length':
            return slip(f['U'], coords(f)[1], floor)
        v = dissipation(f['U'], f['V'], *f['spacing'])
        if cutoff_label:
            w = f[cutoff_label]
            v = v[w >= (0.5 * (w.max() + w.min()) if cutoff is None else cutoff)]
        return (float(v.sum()), None) if total else (float(v.mean()), float(v.std()))
    d = {l: fr[l].ravel() for l in FIELDS}
    x, y = coords(fr)
    X, Y = [a.ravel() for a in np.meshgrid(x, y, indexing='ij')]
    sel = np.ones(X.shape, bool)
    if lims:
        for A, (lo, hi) in ((X, lims[0]), (Y, lims[1])):
            if lo is not None:
                sel &= A >= lo
            if hi is not None:
                sel &= A <= hi
    d = {l: v[sel] for l, v in d.items()}
    if label == 'inertial_energy':
        v = 0.5 * d['M'] * (d['U']**2 + d['V']**2)
    elif label == 'flow_angle':
        v = None
    else:
        v = d[label]
    keep = np.ones(len(d['M']), bool)
    if cutoff_label:
        c = cutoff
        if c is None:
            c = 0.5 * (d[cutoff_label].max() + d[cutoff_label].min())
        keep = d[cutoff_label] >= c
    if label == 'flow_angle':
        return math.degrees(math.atan2((d['V'] * d['M'])[keep].sum(),
                                       (d['U'] * d['M'])[keep].sum())), None
    v = v[keep]
    if total:
        return float(v.sum()), None
    return float(v.mean()), float(v.std())


# -- bins at the contact lines ---------------------------------------------------------------
def outer_layers(fr, floor, cutoff, radius, bins):
    """[(layer, left, right)]: outermost droplet cells of every layer from the
    floor up which has any, without periodic boundary."""
    nx, ny = fr['shape']
    dx, dy = fr['spacing']
    co = cutoff_of(fr, cutoff)
    if co is None:
        raise Ambiguous('homogeneous')
    full = fr['M'] >= co
    _, y = coords(fr)
    near = [(a, b) for a in range(-nx, nx + 1) for b in range(-ny, ny + 1)
            if (a, b) != (0, 0) and (a * dx)**2 + (b * dy)**2 <= radius**2]
    out = []
    for j in range(ny):
        if floor is not None and y[j] < floor:
            continue
        ok = [i for i in range(nx) if full[i, j] and
              sum(1 for a, b in near if 0 <= i + a < nx and 0 <= j + b < ny and full[i + a, j + b]) >= bins]
        if ok:
            out.append((j, ok[0], ok[-1]))
    return out


def tips(fr, c):
    """Bins at the left and right contact line: [(fields on a rectangle, column
    and height of the innermost lowest bin)] for both edges."""
    dx, dy = fr['spacing']
    lay = outer_layers(fr, c.get('floor'), c.get('co'), c['cr'], c.get('cb', 1))
    if not lay:
        raise Ambiguous('no contact line')
    w, h = c.get('ea') or (0.0, 0.0)
    j0 = lay[0][0]
    lay = [q for q in lay if (q[0] - j0) * dy <= h + 1e-9]
    at = [q for q in lay if (q[0] - j0) * dy <= c.get('eh', 0.0) + 1e-9]
    k = 0
    while k < len(at) - 1 and at[k + 1] == lay[k + 1]:
        k += 1
    n = int(w / dx + 1e-9)
    nx = fr['shape'][0]
    out = []
    for e, s in ((1, 1), (2, -1)):
        cells = [q[e] for q in lay]
        inner = lay[k][e] + s * n
        lo, hi = max(0, min(cells + [inner])), min(nx - 1, max(cells + [inner]))
        f = {l: fr[l][lo:hi + 1, j0:lay[-1][0] + 1] for l in FIELDS}
        out.append((f, hi if e == 1 else lo))
    return out


def placed(f, i, j, size):
    """The fields in a larger rectangle."""
    out = {}
    for l in FIELDS:
        out[l] = np.zeros(size)
        a, b = f[l].shape
        out[l][i:i + a, j:j + b] = f[l]
    return out


def tip_means(frs, c):
    """Mean bins at both contact lines of a window: [(fields, index of the
    innermost column, its mean position in bins from x = 0)]."""
    both = [tips(fr, c) for fr in frs]
    out = []
    for e in (0, 1):
        fs = [b[e][0] for b in both]
        wide, high = max(f['M'].shape[0] for f in fs), max(f['M'].shape[1] for f in fs)
        fs = [placed(f, wide - f['M'].shape[0] if e == 0 else 0, 0, (wide, high)) for f in fs]
        at = np.mean([fr['origin'][0] / fr['spacing'][0] + b[e][1] + 0.5 for fr, b in zip(frs, both)])
        out.append((average(fs), wide - 1 if e == 0 else 0, float(at)))
    return out


def floors(v):
    """Whole numbers at or below, both where rounding decides."""
    n = int(round(v))
    return [n - 1, n] if abs(v - n) < 1e-3 else [int(math.floor(v))]


def contact_maps(frs, c):
    """All maps a window may give: [(fields, origin)], more than one where the
    position of an edge is between two columns."""
    dx, dy = frs[0]['spacing']
    (L, li, lx), (R, ri, rx) = tip_means(frs, c)
    if c.get('norecenter'):
        pl, pr = lx, rx
    else:
        pl, pr = -0.5 * (rx - lx), 0.5 * (rx - lx)
    out = []
    for a in floors(pl):
        for b in floors(pr):
            if c.get('fuse'):
                a, b = -1, 0
            l0, r0 = a - li, b - ri               # first columns of both
            i0 = min(l0, r0)
            i1 = max(l0 + L['M'].shape[0], r0 + R['M'].shape[0])
            size = (i1 - i0, max(L['M'].shape[1], R['M'].shape[1]))
            A, B = placed(L, l0 - i0, 0, size), placed(R, r0 - i0, 0, size)
            m = {}
            for l in FIELDS:
                p, q = (A[l] != 0), (B[l] != 0)
                w = {'U': 'M', 'V': 'M', 'T': 'N'}.get(l)
                if w:
                    W = A[w] + B[w]
                    both = np.where(W != 0, (A[l] * A[w] + B[l] * B[w]) / np.where(W != 0, W, 1), 0.0)
                else:
                    both = 0.5 * (A[l] + B[l])
                m[l] = np.where(p & q, both, A[l] + B[l])
            out.append((m, (i0 * dx, 0.0)))
    return out


def contact_sample(frs, c, label):
    """Mean (or sum) of a label over the bins of the left and the right edge,
    velocities pointing away from the droplet."""
    vals = []
    for e, (f, _, _) in enumerate(tip_means(frs, c)):
        f = dict(f)
        if e == 0:
            f['U'] = -f['U']
        f['shape'], f['spacing'], f['origin'] = f['M'].shape, frs[0]['spacing'], (0.0, 0.0)
        co = c.get('co')
        lim = 0.5 * (f['M'].max() + f['M'].min()) if co is None else co
        d = np.abs(f['M'] - lim)
        if np.any((d < 1e-6 * max(1, abs(lim))) & (d > 0)):
            raise Ambiguous('mass at the cut-off')
        v = sample(f, label, c.get('sum'), 'M', lim - 1e-9, None)[0]
        if v != v:
            raise Ambiguous('no bin')
        vals.append(v)
    return float(sum(vals)) if c.get('sum') else float(np.mean(vals))


# -- spreading series ------------------------------------------------------------------------
def spread_view(sets, tau=1.0, R=1.0, sync=None):
    """Series scaled, and moved in time so that all pass a radius together."""
    out = [([t / tau for t in ts], [r / R for r in rs]) for ts, rs in sets]
    if sync is None or not out:
        return out
    at = []
    for ts, rs in out:
        d = [abs(r - sync) for r in rs]
        k = min(range(len(d)), key=lambda i: d[i])
        if any(abs(v - d[k]) < 1e-5 for i, v in enumerate(d) if i != k):
            raise Ambiguous('two closest times')
        at.append(ts[k])
    return [([t - (a - min(at)) for t in ts], rs) for (ts, rs), a in zip(out, at)]


def _within(ts, lims):
    lo, hi = lims or (None, None)
    ok = [(lo is None or t >= lo) and (hi is None or t <= hi) for t in ts]
    return ok if any(ok) else [True] * len(ts)


def spread_fit(sets, lims=None, out_lims=None):
    """([(a, k)], fitted series)"""
    par, out = [], []
    for ts, rs in sets:
        if min(rs) <= 0:
            raise Ambiguous('no logarithm')
        q = [(math.log(t), math.log(r)) for t, r, ok in zip(ts, rs, _within(ts, lims)) if ok and t > 0]
        if len({x for x, _ in q}) < 2:
            raise Ambiguous('nothing to fit')
        mx, my = sum(x for x, _ in q) / len(q), sum(y for _, y in q) / len(q)
        k = sum((x - mx) * (y - my) for x, y in q) / sum((x - mx)**2 for x, _ in q)
        a = math.exp(my - k * mx)
        if abs(k) > 20 or a > 1e6:
            raise Ambiguous('steep')
        par.append((a, k))
        xs = [t for t, ok in zip(ts, _within(ts, out_lims)) if ok]
        if min(xs) < 0 or min(xs) == 0 and k < 1e-6:
            raise Ambiguous('no power of negative times')
        out.append((xs, [a * x**k for x in xs]))
    return par, out


def graph_sets(b):
    """Sets of a graph file: [(times, values)]"""
    out = None
    for l in b.decode('latin-1').split('\n'):
        if l.startswith('@target'):
            out = (out or []) + [([], [])]
        elif not l.strip() or l[0] in '#@&':
            continue
        else:
            if not out:
                raise Bad('values before the first set')
            try:
                v = [float(x) for x in l.split()]
            except ValueError:
                raise Bad('bad line %r' % l)
            if len(v) != 2:
                raise Bad('bad line %r' % l)
            out[-1][0].append(v[0])
            out[-1][1].append(v[1])
    return out or []
