"""Generated inputs: flow maps of a droplet world, interface and spreading files.

Everything is built from JSON parameters, by encoders which are written from
the description of the formats and share no code with the program under test.
"""

import math
import random

import numpy as np

FIELDS = ['N', 'T', 'M', 'U', 'V']
GMX = ('gmx', 'gmx_min', 'gmx_perm', 'gmx2')


# -- encoders -------------------------------------------------------------------
def enc_gmx(fr, style='gmx', seed=0):
    nx, ny = fr['shape']
    M = fr['M']
    sel = [(i, j) for i in range(nx) for j in range(ny) if M[i, j] != 0.0]
    order = ['IX', 'IY', 'N', 'T', 'M', 'U', 'V']
    fmt = 'FORMAT GMX_FLOW_1'
    comments = []
    rng = random.Random(seed)
    if style == 'gmx':
        comments = ['COMMENT ' + 'line %d of a comment ' % k + 'x' * 60
                    for k in range(14)]
    elif style == 'gmx_perm':
        rng.shuffle(order)
        rng.shuffle(sel)
        comments = ['COMMENT short']
    elif style == 'gmx2':
        fmt = 'FORMAT GMX_FLOW_2'
        rng.shuffle(sel)
    lines = [fmt,
             'ORIGIN %s %s' % (fr['origin'][0], fr['origin'][1]),
             'SHAPE %d %d' % (nx, ny),
             'SPACING %s %s' % (fr['spacing'][0], fr['spacing'][1]),
             'NUMDATA %d' % len(sel),
             'FIELDS ' + ' '.join(order)] + comments
    if style == 'gmx_perm':
        head = lines[1:]
        rng.shuffle(head)
        lines = [fmt] + head
    out = ('\n'.join(lines) + '\n').encode('ascii') + b'\0'
    ii = np.array([a for a, _ in sel], dtype='<u8')
    jj = np.array([b for _, b in sel], dtype='<u8')
    for l in order:
        if l == 'IX':
            out += ii.tobytes()
        elif l == 'IY':
            out += jj.tobytes()
        else:
            out += np.array([fr[l][a, b] for a, b in sel], dtype='<f4').tobytes()
    return out


def table(fr):
    nx, ny = fr['shape']
    x0, y0 = fr['origin']
    dx, dy = fr['spacing']
    rows = []
    for i in range(nx):
        for j in range(ny):
            rows.append([x0 + dx * (i + 0.5), y0 + dy * (j + 0.5)]
                        + [float(fr[l][i, j]) for l in FIELDS])
    return rows


def enc_simple(fr):
    return np.array(table(fr), dtype='<f4').tobytes()


def enc_plain(fr, records=False):
    """records: blanks at the end make it as long as some whole number of binary records."""
    out = ['X Y N T M U V']
    for r in table(fr):
        out.append(' '.join('%.6f' % v for v in r))
    text = '\n'.join(out)
    return (text + ' ' * (-(len(text) + 1) % 28 if records else 0) + '\n').encode('ascii')


def encode(fr, fmt, seed=0):
    if fmt in GMX:
        return enc_gmx(fr, fmt, seed)
    if fmt == 'simple':
        return enc_simple(fr)
    if fmt == 'plain':
        return enc_plain(fr, seed % 2)
    raise ValueError(fmt)


# -- frames ---------------------------------------------------------------------
def f4(v):
    return np.array(v, dtype=np.float32).astype(np.float64)


def random_frame(p, n):
    """A frame with unrelated random contents: exercises averaging, conversion."""
    rs = np.random.RandomState((p['seed'] * 1009 + n * 7919 + 1) % (2**31))
    nx, ny = p['shape']
    hole = rs.rand(nx, ny) < p.get('holes', 0.3)
    fr = {'shape': (nx, ny), 'origin': tuple(p['origin']),
          'spacing': tuple(p['spacing'])}
    M = np.round(1 + 30 * rs.rand(nx, ny), 3)
    M[hole] = 0
    fr['M'] = f4(M)
    N = np.round(1 + 9 * rs.rand(nx, ny), 3)
    N[hole] = 0
    if p.get('n_zero'):
        # mass without atoms: the temperature has no weight
        N[rs.rand(nx, ny) < 0.15] = 0
    fr['N'] = f4(N)
    for l, s in (('T', 300), ('U', 2), ('V', 2)):
        v = np.round(s * (rs.rand(nx, ny) - (0 if l == 'T' else 0.5)), 3)
        v[hole] = 0
        fr[l] = f4(v)
    if p.get('traces'):
        # next to no mass, next to no atoms
        for l, top in (('M', 1e-3), ('N', 1e-4), ('T', 1e-2)):
            c = (rs.rand(nx, ny) < 0.25) & (fr[l] != 0)
            fr[l][c] = f4(np.maximum(np.round(top * 10 ** (-3 * rs.rand(nx, ny)), 6), 1e-6))[c]
    if n in p.get('empty', ()):
        # nothing is in the system: a map without any record
        for l in 'MNTUV':
            fr[l] = np.zeros_like(fr[l])
    elif not fr['M'].any():
        fr['M'][0, 0] = 1.0
        fr['N'][0, 0] = 1.0
    return fr


def gen_empty(rng, p, prob=0.12):
    """Let some of the random maps be empty."""
    if 'drop' not in p and rng.random() < prob:
        p['empty'] = sorted(rng.sample(range(len(p['numbers'])),
                                       rng.randint(1, len(p['numbers']))))


def droplet_frame(p, n):
    """Frame number n of a droplet history p['drop'][n] = list per layer of
    None or [left, right] (cell indices, unwrapped, inclusive)."""
    rs = np.random.RandomState((p['seed'] * 1013 + n * 7907 + 5) % (2**31))
    nx, ny = p['shape']
    M = np.zeros((nx, ny))
    vap = p.get('vapour', 0.0)
    if vap:
        cells = rs.rand(nx, ny) < vap
        M[cells] = np.round(0.5 + 2 * rs.rand(nx, ny), 3)[cells]
    if p.get('dense'):
        # vapour everywhere, which half of the top density would take for liquid
        M = np.round(5 + 5.5 * rs.rand(nx, ny), 3)
        M[0, ny - 1] = 5.0
    for j, lr in enumerate(p['drop'][n]):
        if lr is None:
            continue
        for i in range(lr[0], lr[1] + 1):
            M[i % nx, j] = round(10 + 8 * rs.rand(), 3) if not p.get('dense') else round(15 + 3 * rs.rand(), 3)
        if p.get('thin') and lr[1] - lr[0] > 4:
            # the outermost cells are hardly filled
            for i in lr:
                M[i % nx, j] = round(2.5 + rs.rand(), 3)
    for i, j in p.get('specks', {}).get(str(n), ()):
        M[i, j] = 9.0 if not p.get('dense') else 14.5      # a filled cell without neighbours
    fr = {'shape': (nx, ny), 'origin': tuple(p['origin']),
          'spacing': tuple(p['spacing']), 'M': f4(M)}
    full = fr['M'] != 0
    for l, s, o in (('N', 9, 1), ('T', 300, 10), ('U', 2, -1), ('V', 2, -1)):
        v = np.round(o + s * rs.rand(nx, ny), 3)
        v[~full] = 0
        fr[l] = f4(v)
    return fr


RESOLVE = None                          # contents of derived input sets, see props_chain


def frame(p, n):
    if 'from' in p:
        return RESOLVE(p)[p['numbers'][n]]
    fr = droplet_frame(p, n) if 'drop' in p else random_frame(p, n)
    if p.get('still'):
        # flow along one of the axes
        r = np.random.RandomState((p['seed'] * 1019 + n * 7901 + 3) % (2**31)).rand(*p['shape'])
        fr['U'][r < 0.15] = 0
        fr['V'][r > 0.85] = 0
    return fr


def fname(base, num, ext):
    s = str(num)
    return base + '0' * max(0, 5 - len(s)) + s + ext


def flow_files(p):
    """path (relative to the working directory) -> bytes, and frames by number."""
    files, frames = {}, {}
    for n, num in enumerate(p['numbers']):
        fr = frame(p, n)
        frames[num] = fr
        files[fname(p['base'], num, p['ext'])] = encode(fr, p['fmt'], p['seed'] + n)
    return files, frames


SPACINGS = [(0.25, 0.25), (0.5, 0.5), (0.5, 0.4), (0.3, 0.35), (0.2, 0.25), (1.0, 0.75)]


def gen_names(rng, what='f'):
    d = rng.choice(['in', 'in', 'data', 'run 1', 'a.b', 'in/deep', '.', 'd\u00e5ta'])
    s = rng.choice(['f_', 'flow_', 'map-', '', 'x.', '#q', 'f %s', '0'])
    if d == '.':
        return what + s if s in ('', '#q') else s
    return d + '/' + what + s


def gen_flow(rng, kind='random', nmin=1, nmax=6, fmts=None, small=False, first=None,
             x0zero=False):
    """Parameters of a set of flow maps."""
    dx, dy = rng.choice(SPACINGS)
    p = {'seed': rng.randrange(10**6), 'spacing': [dx, dy],
         'fmt': rng.choice(fmts or ['gmx', 'gmx', 'gmx_min', 'gmx_perm', 'gmx2',
                                    'simple', 'plain']),
         'base': gen_names(rng), 'ext': rng.choice(['.dat', '.dat', '.dat', '.map', ''])}
    n = rng.randint(nmin, nmax)
    long = nmax >= 5 and rng.random() < 0.04
    if long:
        n, small = rng.randint(9, 16), kind == 'random'
    if first is None:
        first = rng.choice([1, 1, 1, 1, 0, 3, 9, 42, 99998, 9997])
    p['numbers'] = list(range(first, first + n))
    if rng.random() < 0.12:
        p['still'] = True
    if kind == 'random':
        if rng.random() < 0.25:
            # many digits
            p['spacing'] = [round(rng.uniform(0.2, 2), 5), round(rng.uniform(0.2, 20), 4)]
        if rng.random() < 0.2:
            p['traces'] = True
        p['shape'] = [rng.randint(2, 5 if small else 9), rng.randint(2, 4 if small else 7)]
        if not long and rng.random() < 0.05:
            p['shape'] = [rng.randint(9, 14), rng.randint(9, 14)]
        k = rng.choice([2, 2, 4, 6])
        p['origin'] = [0.0, 0.0] if rng.random() < 0.6 else \
            [round(rng.uniform(-3, 3), k), round(rng.uniform(-30, 30), k)]
        p['holes'] = rng.choice([0.0, 0.2, 0.5, 0.9])
        p['n_zero'] = rng.random() < 0.4
    else:
        gen_droplet(rng, p, n)
    return p


def gen_droplet(rng, p, n, cross=None, lead=None, nx=None, ny=None, layers=None,
                ground=None, dry=0.0, march=None, lean=None):
    """A spreading droplet, possibly drifting through the periodic boundary.

    Constraints: in every layer at most one edge crosses the boundary per step,
    edges move less than a quarter of the box, width at most nx - 3.
    dry: probability of frames without contact in the midst of the history;
    march: steady drift in one direction; lean: layers shifted to one side."""
    nx = nx or rng.randint(12, 24)
    ny = ny or rng.randint(4, 7)
    p['shape'] = [nx, ny]
    p['origin'] = [0.0, 0.0]
    p['vapour'] = rng.choice([0.0, 0.0, 0.1, 0.5])
    p.pop('dense', None)
    if rng.random() < 0.12:
        p['dense'] = True
    p.pop('thin', None)
    if 'dense' not in p and rng.random() < 0.15:
        p['thin'] = True
    lead = rng.choice([0, 0, 0, 1, 2]) if lead is None else lead
    ground = 0 if ground is None else ground
    if cross is None:
        cross = rng.random() < 0.5
    if march is None:
        march = cross and rng.random() < 0.3
    top = ny - 1
    nl = layers or rng.randint(2, ny - 1 - ground)
    w = rng.randint(2, max(2, nx // 3))
    drift = 0
    if cross:
        left = rng.choice([rng.randint(0, 2), nx - w - rng.randint(0, 2)])
        drift = rng.choice([-1, 1]) if march or rng.random() < 0.7 else 0
        left = max(0, min(left, nx - w))
    else:
        left = rng.randint(1, max(1, nx - w - 1))
    right = left + w - 1
    sl, sr = [0], [0]
    for _ in range(ny):
        t = rng.choice([0, 0, 1])
        sl.append(sl[-1] + t)
        sr.append(sr[-1] + t)
    if lean is None:
        lean = rng.random() < 0.3
    if lean:
        d = rng.choice([-1, 1])
        for k in range(1, ny + 1):
            sl[k] += d * k
            sr[k] -= d * k
        lo = min(left + sl[j] for j in range(nl))
        hi = max(right - sr[j] for j in range(nl))
        sh = max(0, -lo) - max(0, hi - nx + 1)
        left, right = left + sh, right + sh
    hist = []
    cl, cr = left, right
    maxstep = max(1, (nx - 1) // 4)
    for k in range(n):
        layers_now = [None] * ny
        if k < lead or rng.random() < dry:
            # not in contact: hovering above the floor layer
            for j in range(ground + 2, min(ny, ground + 2 + nl)):
                layers_now[j] = [cl, cr]
            if all(l is None for l in layers_now):
                layers_now[top] = [cl, cr]
            if ground + 2 > top:
                layers_now = [None] * ny
            hist.append(layers_now)
            if k >= lead and hist[lead][ground] is not None:
                continue                    # and it stays where it was
        else:
            for j in range(ground, min(ny, ground + nl)):
                a, b = cl + sl[j - ground], cr - sr[j - ground]
                if b - a < 1:
                    break
                layers_now[j] = [a, b]
            hist.append(layers_now)
        # next step
        for _ in range(20):
            if march:
                q = drift * rng.choice([1, 1, 2])
                dl, dr = q - rng.choice([0, 0, 1]), q + rng.choice([0, 0, 0, 1, -1])
            else:
                dl = -rng.randint(0, 2) + drift * rng.randint(0, 2)
                dr = rng.randint(0, 2) + drift * rng.randint(0, 2)
            if abs(dl) > maxstep or abs(dr) > maxstep:
                continue
            nl_, nr_ = cl + dl, cr + dr
            if not 1 <= nr_ - nl_ + 1 <= nx - 3:
                continue
            ok = True
            if not cross and (nl_ < 0 or nr_ > nx - 1):
                ok = False
            # in no layer may both edges cross the boundary at once
            for s, t in set(zip(sl, sr)):
                x = ((cl + s) // nx != (nl_ + s) // nx) + \
                    ((cr - t) // nx != (nr_ - t) // nx)
                if x > 1:
                    ok = False
            if ok:
                cl, cr = nl_, nr_
                break
    p['drop'] = hist
    # isolated filled cells away from the droplet
    p.pop('specks', None)
    if rng.random() < 0.3:
        sp = {}
        for k in range(n):
            lr = hist[k][ground]
            if lr is None:
                continue
            free = [i for i in range(nx)
                    if all((i - q) % nx not in range(0, 4) and (q - i) % nx not in range(0, 4)
                           for q in (lr[0], lr[1]))
                    and not any((i - c) % nx == 0 for c in range(lr[0], lr[1] + 1))]
            if free:
                sp[str(k)] = [[rng.choice(free), ground]]
        p['specks'] = sp


# -- interface files --------------------------------------------------------------
def interface_points(p, n):
    rs = np.random.RandomState((p['seed'] * 977 + n * 7129 + 3) % (2**31))
    m = p['heights'][n % len(p['heights'])]
    ys = [round(p['dy'] * k, 3) for k in range(m)]
    c = p.get('centre', 5.0)
    left = [round(c - 3 + 0.2 * k - rs.rand(), 3) for k in range(m)]
    right = [round(c + 3 - 0.2 * k + rs.rand(), 3) for k in range(m)]
    return left + right[::-1], ys + ys[::-1]


def enc_interface(xs, ys):
    out = ['# Interface coordinates of a droplet', '# ', '# x (nm) y (nm)']
    out += ['%.3f %.3f' % (x, y) for x, y in zip(xs, ys)]
    return ('\n'.join(out) + '\n').encode()


def gen_interfaces(rng, nmin=1, nmax=6, first=None):
    n = rng.randint(nmin, nmax)
    if first is None:
        first = rng.choice([1, 1, 1, 0, 4, 99999])
    h = rng.randint(3, 8)
    if rng.random() < 0.04:
        if nmax >= 5 and rng.random() < 0.5:
            n = rng.randint(9, 14)
        else:
            h = rng.randint(30, 60)
    return {'seed': rng.randrange(10**6), 'base': gen_names(rng, 'i'), 'ext': '.xvg',
            'numbers': list(range(first, first + n)), 'dy': rng.choice([0.25, 0.5, 0.3]),
            'heights': [h + rng.randint(0, 2) for _ in range(n)], 'iface': True}


def interface_files(p):
    files, pts = {}, {}
    for n, num in enumerate(p['numbers']):
        xs, ys = interface_points(p, n)
        pts[num] = (xs, ys)
        files[fname(p['base'], num, p['ext'])] = enc_interface(xs, ys)
    return files, pts


# -- spreading files ----------------------------------------------------------------
def spreading_rows(p, k):
    rs = np.random.RandomState((p['seed'] * 31 + k * 101 + 7) % (2**31))
    n = p['lengths'][k]
    a, e = 0.5 + 3 * rs.rand(), 0.2 + 0.4 * rs.rand()
    rows = []
    for i in range(n):
        t = 1.0 + i * p['dt']
        r = round(a * t**e + 0.01 * rs.rand(), 3)
        rows.append((round(t, 3), r))
    return rows


def enc_spreading(rows):
    out = ['# Spreading radius of a droplet impacting a substrate', '# ',
           '# Time (ps) Radius (nm)']
    out += ['%.3f %.3f' % r for r in rows]
    return ('\n'.join(out) + '\n').encode()


def spreading_sets(p, k):
    """[(times, radii)] of the sets in a file."""
    if 'from' in p:
        return RESOLVE(p)
    rows = spreading_rows(p, k)
    t = [r[0] - p.get('back', 0.0) for r in rows]
    rs = np.random.RandomState((p['seed'] * 17 + k * 7 + 1) % (2**31))
    return [(t, [round(r[1] * (1 if not c else 0.5 + rs.rand()) * (rs.rand() >= p.get('zeros', 0)), 3) for r in rows])
            for c in range(p['cols'][k])]


def enc_sets(p, k):
    """The same as columns, or one after the other as a graph."""
    sets = spreading_sets(p, k)
    if not p['graph'][k]:
        out = ['# Spreading radius of a droplet impacting a substrate', '# ']
        out += [' '.join('%.3f' % v for v in (t,) + r) for t, r in
                zip(sets[0][0], zip(*[r for _, r in sets]))]
        return ('\n'.join(out) + '\n').encode()
    out = ['# Spreading radius', '# ', '@with g0'] + ['@    s%d comment "set"' % i for i in range(len(sets))]
    for i, (t, r) in enumerate(sets):
        out += ['@target G0.S%d' % i, '@type xy'] + ['%.3f    %.3f' % q for q in zip(t, r)]
        if i + 1 < len(sets):
            out.append('&')
    return ('\n'.join(out) + '\n').encode()


def gen_spreadings(rng, kmin=1, kmax=4):
    k = rng.randint(kmin, kmax)
    d = rng.choice(['', 'sp/', 'run 2/'])
    return {'seed': rng.randrange(10**6), 'dt': rng.choice([0.5, 1.0, 2.5]),
            'lengths': [rng.randint(3, 12) for _ in range(k)],
            'names': ['%ss%d.xvg' % (d, i) for i in range(k)], 'spread': True}


def spreading_files(p):
    if 'cols' in p:
        return {nm: enc_sets(p, k) for k, nm in enumerate(p['names'])}
    return {nm: enc_spreading(spreading_rows(p, k))
            for k, nm in enumerate(p['names'])}


def files_of(p):
    if p.get('iface'):
        return interface_files(p)[0]
    if p.get('spread'):
        return spreading_files(p)
    return flow_files(p)[0]
