"""What figures show, judged against the data of their inputs."""

import copy
import json
import random

import numpy as np

import cmds as C
import refmodel as rm
import world as W
from props_fault import bufsize
from props_model import C24, ModelProp
from sim import fail, probe
from world import fname

NAN = float('nan')
MAPS = ('viridis', 'magma', 'jet', 'Greys', 'plasma')
COLOURS = {'red': [1, 0, 0], 'blue': [0, 0, 1], 'k': [0, 0, 0], 'yellow': [1, 1, 0], '#336699': [0.2, 0.4, 0.6]}
DEFAULT = {'height': 'Droplet height map', 'contour': 'Droplet contours', 'flow': 'Droplet height map',
           'sview': 'Droplet spreading', 'sfit': 'Droplet spreading with fit', 'iview': 'Droplet interface', 'isample': 'Droplet interface', 'iangle': 'Contact angles'}


def field(fr, label):
    """Values (nx, ny) of a label of a map."""
    dx, dy = fr['spacing']
    if label == 'flow':
        return np.sqrt(fr['U'] ** 2 + fr['V'] ** 2)
    if label in ('visc', 'visc_diss'):
        with np.errstate(all='ignore'):
            return rm.dissipation(fr['U'] * fr['M'], fr['V'] * fr['M'], dx, dy) / fr['M'] ** 2
    if label == 'evaporation':
        return fr['U'] * grad(fr['M'], dx, 0) + fr['V'] * grad(fr['M'], dy, 1)
    if label == 'radial':
        x, y = rm.coords(fr)
        x, y = np.meshgrid(x, y, indexing='ij')
        m = fr['M'].sum()
        x, y = x - (x * fr['M']).sum() / m, y - (y * fr['M']).sum() / m
        r = np.hypot(x, y)
        with np.errstate(all='ignore'):
            return (fr['U'] * y - fr['V'] * x) / r
    return fr[label]


def grad(v, d, ax):
    """Central differences, one-sided at the ends."""
    v = np.moveaxis(v, ax, 0)
    out = np.empty_like(v)
    out[1:-1] = (v[2:] - v[:-2]) / (2 * d)
    out[0] = (v[1] - v[0]) / d
    out[-1] = (v[-1] - v[-2]) / d
    return np.moveaxis(out, 0, ax)


def tol(v):
    f = np.abs(v[np.isfinite(v)])
    return 1e-5 * (f.max() if f.size else 0) + 2e-6


def out_of(v, lims, eps):
    """-> (below or above, too close to tell)"""
    o = np.zeros(np.shape(v), bool)
    q = np.zeros(np.shape(v), bool)
    for lim, s in zip(lims, (1, -1)):
        if lim is not None:
            with np.errstate(all='ignore'):
                o |= s * v < s * lim
                q |= ((v != lim) | (float(np.float32(lim)) != lim)) & (np.abs(v - lim) < eps)
    return o, q


def same(a, b, eps):
    if not np.isfinite(b):
        return not np.isfinite(a)
    return abs(a - b) <= eps + 1e-4 * abs(b)


class C25(ModelProp):
    id = 'C25'
    jobs = {'quick': 260, 'thorough': 14000}
    nvar = 4
    rule = ('view height, contour and flow (arrows and lines of flow) with labels, limits, cut-offs, colours and decorations on 1-3 random or droplet maps, interface view, sample and '
            'angle, spreading view and fit with figures; shown or saved; after, beside and again after other runs as in C09. What is in every figure is compared with the data. '
            'Non-trivial: a fault, a second command or a context switch.')

    # -- making commands
    def job(self, rng):
        if rng.random() < 0.3:
            return self.iface(rng)
        if rng.random() < 0.2:
            return self.series(rng)
        for _ in range(40):
            if rng.random() < 0.75:
                p = W.gen_flow(rng, 'random', 1, 3)
                p['holes'] = rng.choice([0, 0, 0.2, 0.5])
                p.pop('traces', None)
                if rng.random() < 0.35:
                    # around zero
                    p['origin'] = [-round(s * rng.choice([1, 1.5, 2, 2.25]), 4) for s in p['spacing']]
            else:
                p = W.gen_flow(rng, 'droplet', 1, 2)
            if min(p['shape']) >= 3:
                c = self.view(rng, p)
                if c is not None:
                    return p, c
        raise AssertionError('no view')

    def iface(self, rng):
        p = W.gen_interfaces(rng, 1, 5)
        k = rng.choice(['iview', 'iview', 'isample', 'iangle'])
        c = C.gen_cmd(rng, k, p)
        self.surfaces(rng, c, lambda: C.add_fig(rng, c))
        if not c.get('fig') and not c.get('show'):
            c['show'] = True
        c['deco'] = d = self.deco(rng)
        for n in ('xlim', 'ylim'):
            if rng.random() < 0.2:
                d[n] = rng.choice([[0.0, None], [None, 3.5], [-1.5, 4.0]])
        if rng.random() < 0.3:
            c['out'] = None
        return p, c

    def series(self, rng):
        while True:
            p, cs = C24.job(C24(), rng)
            if len(cs) == 1:
                break
        c, = cs
        self.surfaces(rng, c, lambda: C.add_fig(rng, c))
        if not c.get('fig') and not c.get('show'):
            c['show'] = True
        c['deco'] = self.deco(rng)
        if rng.random() < 0.3:
            c['loglog'] = True
        for n in ('xlim', 'ylim'):
            if rng.random() < 0.2:
                c['deco'][n] = rng.choice([[0.25, None], [None, 3.5], [0.5, 4.0]])
        if rng.random() < 0.3:
            c['out'] = None
        if c['kind'] == 'sfit' and rng.random() < 0.3:
            c['nolegend'] = True
        return p, c

    @staticmethod
    def surfaces(rng, c, add):
        r = rng.random()
        if r < 0.7:
            c['show'] = True
        if r > 0.35:
            add()

    @staticmethod
    def deco(rng):
        d = {}
        for n, v in (('title', ['a title', 'x', 'T%d']), ('xlabel', ['length', 'x']), ('ylabel', ['time', 'y (1)'])):
            if rng.random() < 0.2:
                d[n] = rng.choice(v)
        return d

    def view(self, rng, p, tag=''):
        fr = C.frames_of(p)
        names = {n: fname(p['base'], n, p['ext']) for n in p['numbers']}
        t = rng.choice(['height', 'height', 'contour', 'flow', 'flow'])
        nums = list(p['numbers']) if rng.random() < 0.5 else [rng.choice(p['numbers']) for _ in range(rng.randint(1, 3))]
        c = {'kind': 'view', 'type': t, 'files': [names[n] for n in nums], 'nums': nums, 'out': None}

        def add():
            c['out'] = 'fig' + tag + rng.choice(['.png', '.pdf', '.svg'])
        self.surfaces(rng, c, add)
        if c['out'] is None:
            c['show'] = True
        c['view'] = v = {}
        fs = [fr[n] for n in nums]

        def some(label, q=None):
            """A limit of the values of a label which tells them apart."""
            a = field(rng.choice(fs), label)
            a = np.sort(a[np.isfinite(a)].ravel())
            return round(float(rng.choice(list(a)) + rng.choice([-1, 0.3, 0.5]) * 10 * tol(a)), 4)

        def pair(label):
            a, b = sorted([some(label), some(label)])
            if rng.random() < 0.5 and label in ('U', 'V', 'evaporation'):
                a, b = rng.choice([(0.0, b), (a, 0.0)])
                if a > b:
                    a, b = b, a
            if not b - a > 1e-3:
                b = a + 1.0
            return rng.choice([[a, None], [None, b], [a, b]])
        if t == 'height':
            v['l'] = rng.choice(['M', 'M', 'N', 'T', 'U', 'U', 'V', 'V', 'flow', 'visc_diss', 'evaporation'])
            if rng.random() < 0.35:
                v['clim'] = pair(v['l'])
            if rng.random() < 0.35:
                v['vlim'] = pair(v['l'])
            if rng.random() < 0.4:
                v['cl'] = rng.choice(['M', 'N', 'U', 'V', 'None', 'flow', 'visc'])
                v['co'] = some({'None': 'M', 'visc': 'visc_diss'}.get(v['cl'], v['cl']))
                if rng.random() < 0.2:
                    v['co'] = 0.0
            elif rng.random() < 0.2:
                v['co'] = some('M')
            if rng.random() < 0.3:
                v['bar'] = False
        elif t == 'contour':
            v['l'] = rng.choice(['M', 'M', 'N', 'T', 'U', 'V', 'flow'])
            if rng.random() < 0.3:
                v['n'] = rng.choice([3, 5, 20])
            if rng.random() < 0.3:
                v['levels'] = sorted({some(v['l']) for _ in range(rng.randint(2, 4))})
                if len(v['levels']) < 2:
                    v.pop('levels')
            if rng.random() < 0.3:
                v['vlim'] = pair(v['l'])
            v['filled'] = rng.random() < 0.35
            if rng.random() < 0.3:
                v['colours'] = rng.sample(sorted(COLOURS), rng.randint(1, 4))
            if rng.random() < 0.25:
                v['bar'] = True
        else:
            if rng.random() < 0.8:
                v['colour'] = rng.choice(['M', 'N', 'U', 'V', 'None', 'flow', 'radial', 'evaporation', 'visc'])
            if rng.random() < 0.6:
                v['co'] = rng.choice([0.0, some('M'), some('M')])
            if rng.random() < 0.3:
                v['vlim'] = [rng.choice([0.0, round(rng.uniform(-1, 1), 2)]), 20.5]
            if rng.random() < 0.3:
                v['scale'] = rng.choice([2.5, 10.0])
            if rng.random() < 0.3:
                v['width'] = rng.choice([0.002, 0.01])
            if rng.random() < 0.3:
                v['pivot'] = rng.choice(['tail', 'tip', 'middle'])
            if rng.random() < 0.25:
                v['bar'] = True
            if rng.random() < 0.3:
                v['stream'] = True
        bar = v.get('bar', t == 'height')
        if bar and rng.random() < 0.3:
            v['cbarlabel'] = rng.choice(['a bar', 'M (u)'])
        if bar and rng.random() < 0.2:
            v['ticks'] = [q / 4 for q in sorted(rng.sample(range(81), 3))]
            if rng.random() < 0.6:
                v['ticklabels'] = ['a', 'b2', 'c']
        if rng.random() < 0.3:
            v['cmap'] = rng.choice(MAPS)
        if rng.random() < 0.25:
            v['dims'] = rng.choice([[400, 300], [600, 750]])
        if rng.random() < 0.25 and t != 'contour':
            v['dpi'] = rng.choice([75, 200])
        if rng.random() < 0.2:
            v['transparent'] = True
        if rng.random() < 0.2:
            v['noaxis'] = True
        c['deco'] = d = self.deco(rng)
        for n, w in zip(('xlim', 'ylim'), rm.coords(fs[0])):
            if rng.random() < 0.3:
                h = w[1] - w[0]
                i, j = sorted([rng.randrange(len(w)), rng.randrange(len(w))])
                lo, hi = round(float(w[i] - 0.4 * h), 3), round(float(w[j] + 0.4 * h), 3)
                if not hi > lo:
                    continue
                d[n] = rng.choice([[lo, None], [None, hi], [lo, hi]])
            if w[0] < 0 < w[-1] and rng.random() < 0.4:
                d[n] = rng.choice([[0.0, None], [0.0, round(float(w[-1] + 0.4 * (w[1] - w[0])), 3)], [None, 0.0]])
        c['opts'] = self.opts(c)
        # nothing near a limit, something left to draw
        for f in fs:
            if t == 'height':
                if not self.kept(f, v)[0].any() or self.kept(f, v)[1].any():
                    return None
            if v.get('stream') and self.streams(f, v, d) is None:
                return None
            if t == 'flow' and (not self.arrows(f, v, d)[0].any() or self.arrows(f, v, d)[1].any()):
                return None
        return c

    @staticmethod
    def opts(c):
        v, t, o = c['view'], c['type'], []
        lim = lambda x: ['none' if q is None else q for q in x]
        for k, n in (('l', '-l'), ('cl', '-cl'), ('co', '-co'), ('n', '-n'), ('colour', '-cl'), ('scale', '--scale'),
                     ('width', '--width'), ('pivot', '--pivot'), ('cbarlabel', '--cbarlabel'), ('cmap', '-cmap'), ('dpi', '--dpi')):
            if k in v:
                o += [n, v[k]]
        for k in ('clim', 'vlim', 'dims'):
            if k in v:
                o += ['--' + k] + lim(v[k])
        if 'colours' in v:
            o += ['-c', ' '.join(v['colours'])]
        if 'levels' in v:
            o += ['-lv', ' '.join(str(x) for x in v['levels'])]
        if v.get('filled'):
            o += ['--filled']
        if v.get('stream'):
            o += ['--streamlines']
        if v.get('ticks'):
            o += ['--cbarticks', ' '.join(str(x) for x in v['ticks'])]
        if v.get('ticklabels'):
            o += ['--cbarticklabels', ' '.join(v['ticklabels'])]
        if 'bar' in v:
            o += ['--colourbar' if v['bar'] else '--nocolourbar']
        if v.get('transparent'):
            o += ['--transparent']
        if v.get('noaxis'):
            o += ['--nodrawaxes'] if t == 'height' else ['--noaxis', '1']
        return o

    # -- which bins a view shows
    @staticmethod
    def kept(f, v):
        keep = np.ones(f['shape'], bool)
        q = np.zeros(f['shape'], bool)
        if v.get('cl', 'None') != 'None':
            a = field(f, {'visc': 'visc_diss'}.get(v['cl'], v['cl']))
            o, q = out_of(a, [v['co'], None], tol(a) * 3)
            keep = ~o & (a == a)
        return keep, q

    @staticmethod
    def arrows(f, v, d):
        x, y = np.meshgrid(*rm.coords(f), indexing='ij')
        keep = (f['U'] != 0) | (f['V'] != 0)
        q = np.zeros(f['shape'], bool)
        for a, lims in ((x, d.get('xlim')), (y, d.get('ylim')), (f['M'], [v.get('co'), None])):
            if lims:
                o, z = out_of(a, lims, 1e-3 if a is not f['M'] else tol(a) * 3)
                keep, q = keep & ~o, q | z
        return keep, q

    @staticmethod
    def streams(f, v, d):
        """Bins (i, j ranges) between which lines of a flow are drawn, and those cut off."""
        cut = []
        for w, lims in zip(rm.coords(f), (d.get('xlim'), d.get('ylim'))):
            o, q = out_of(w, lims or (None, None), 1e-3)
            k = np.flatnonzero(~o)
            if q.any() or len(k) < 3:
                return None
            cut.append(slice(k[0], k[-1] + 1))
        cut = tuple(cut)
        o, q = out_of(f['M'], [v.get('co'), None], tol(f['M']) * 3)
        on = ~o[cut]
        w = field(f, v.get('colour', 'T'))[cut] if v.get('colour') != 'None' else np.ones(on.shape)
        box = on[on.any(1)][:, on.any(0)]
        cells = box[1:, 1:] & box[:-1, 1:] & box[1:, :-1] & box[:-1, :-1]
        # room enough for a line
        if q.any() or min(box.shape) < 3 or cells.mean() < 0.6 or not np.isfinite(w[on]).all() or not f['M'][cut][on].max() > 1e-3:
            return None
        return cut, on, w

    def pre(self, rng, sc):
        out = super().pre(rng, sc)
        p = sc['worlds'][0]
        if p.get('iface') or p.get('spread'):
            for k, c in enumerate(out):
                if rng.random() < 0.6:
                    C.add_fig(rng, c, 'pre%d' % k)
            return out
        for k in range(rng.choice([1, 1, 2])):
            c = self.view(rng, p, 'pre%d' % k) if min(p['shape']) >= 3 else None
            if c is not None:
                out.append(c)
        rng.shuffle(out)
        return out[:3]

    # -- judging
    def judge(self, env, sc, c, r):
        p = sc['worlds'][0]
        fr = self.frames(sc) if c['kind'] == 'view' else None
        screen = r.screen
        if sc['mode'] == 'session':
            screen = screen[r.actor.marks[-1]['screen']:]
        if c['kind'] == 'view':
            want = [(lambda g, n=n: self.map_figure(c, fr[n], g)) for n in c['nums']]
            saved = [(c['out'], want[-1])] if c['out'] is not None else []
        else:
            lines = [(c.get('fig'), self.series_of(sc, c))] if p.get('spread') else self.lines_of(p, c, sc)
            want = [(lambda g, l=l: self.line_figure(c, l, g)) for _, l in lines]
            saved = [(o, w) for (o, _), w in zip(lines, want)] if c.get('fig') else []
        if not c.get('show'):
            if screen:
                fail('screen', '%d figures are shown although none should be' % len(screen))
        else:
            if len(screen) != len(want):
                fail('screen', '%d figures are shown instead of %d:\n%s' % (len(screen), len(want), (r.out + r.err)[-400:]))
            for w, g in zip(want, screen):
                w(g)
            probe('figures shown', len(want))
        for o, w in saved:
            try:
                g = json.loads(self.outfile(env, o))
            except ValueError:
                fail('bad-file', 'the figure %r is incomplete' % o)
            s = g['saved']
            if c['kind'] == 'view':
                v = c['view']
                dpi = v.get('dpi', 150)
                if s.get('dpi') != dpi:
                    fail('dpi', 'figure %r is saved with %r dots per inch instead of %r' % (o, s.get('dpi'), dpi))
                if bool(s.get('transparent')) != bool(v.get('transparent')):
                    fail('transparent', 'figure %r: transparent is %r' % (o, s.get('transparent')))
                if 'dims' in v and any(abs(a * dpi - b) > 1 for a, b in zip(g['size'], v['dims'])):
                    fail('dims', 'figure %r has %r pixels instead of %r' % (o, [a * dpi for a in g['size']], v['dims']))
            w(g)
            probe('figures saved')

    def frame(self, c, g, default):
        """Titles, labels and limits; -> the axes with the data."""
        if not g['axes']:
            fail('empty', 'a figure without axes')
        a = g['axes'][0]
        d = c.get('deco', {})
        for k, v in (('title', a['title']), ('xlabel', a['labels'][0]), ('ylabel', a['labels'][1])):
            w = d.get(k, default.get(k))
            if w is not None and v != w:
                fail('decoration', '%s is %r instead of %r' % (k, v, w))
        for k in ('xlim', 'ylim'):
            for x, y in zip(d.get(k, ()), a[k]):
                if x is not None and abs(x - y) > 1e-6 * (1 + abs(x)):
                    if None in d[k] and abs(sum(a[k]) / 2 - x) < 1e-9 * (1 + abs(x)):
                        continue        # pyplot expands a range of no extent
                    fail('limits', '%s is %r instead of %r' % (k, a[k], d[k]))
        if a['scale'] != ['log' if c.get('loglog') else 'linear'] * 2:
            fail('decoration', 'axes are %r' % a['scale'])
        return a

    def map_figure(self, c, f, g):
        v, t = c['view'], c['type']
        a = self.frame(c, g, {'title': DEFAULT[t], 'xlabel': 'x (nm)', 'ylabel': 'y (nm)'})
        if a['aspect'] not in ('1.0', 'equal'):
            fail('decoration', 'aspect is %r' % a['aspect'])
        if a['on'] == bool(v.get('noaxis')):
            fail('decoration', 'axes are %s' % ('on' if a['on'] else 'off'))
        bar = v.get('bar', t == 'height')
        if len(g['axes']) != 1 + bar:
            fail('decoration', '%d axes, colour bar %r' % (len(g['axes']), bar))
        if bar:
            b = g['axes'][1]
            if v.get('cbarlabel', '') != b['labels'][1]:
                fail('decoration', 'label of the colour bar is %r' % b['labels'][1])
            if v.get('ticks') and not (len(b['ticks']) == len(v['ticks']) and np.allclose(b['ticks'], v['ticks'], atol=1e-6)):
                fail('decoration', 'ticks of the colour bar are %r instead of %r' % (b['ticks'], v['ticks']))
            if v.get('ticklabels') and b['ticklabels'] != v['ticklabels']:
                fail('decoration', 'tick labels of the colour bar are %r' % b['ticklabels'])
        if len(a['collections']) != 1 or a['lines']:
            fail('content', 'the figure has %d collections and %d lines' % (len(a['collections']), len(a['lines'])))
        q = a['collections'][0]
        if q.get('cmap', 'viridis') != v.get('cmap', 'viridis') and 'colours' not in v and (t != 'flow' or v.get('colour') != 'None'):
            fail('colours', 'colour map is %r instead of %r' % (q['cmap'], v.get('cmap', 'viridis')))
        if t != 'contour':
            drawn = [x for x in q.get('array', ()) if np.isfinite(x)]
            for x, y in zip(v.get('vlim', ()), q.get('clim', ())):
                if x is None or None in v['vlim'] and not (drawn and min(drawn) < x < max(drawn)):
                    continue
                if abs(x - y) > 1e-6 * (1 + abs(x)):
                    fail('colours', 'colours span %r instead of %r' % (q['clim'], v['vlim']))
        t = 'stream' if v.get('stream') else t
        getattr(self, 'see_' + t)(v, c['deco'], f, q)
        probe(t + ' figures')

    def see_height(self, v, d, f, q):
        if q['type'] != 'QuadMesh':
            fail('content', 'a %s is drawn' % q['type'])
        z = field(f, v['l'])
        keep, _ = self.kept(f, v)
        eps = tol(z) * 2
        clim = v.get('clim', (None, None))
        hide, unclear = out_of(z, clim, eps)
        zero_hidden = bool(out_of(np.zeros(()), clim, 0)[0])
        xe, ye = (np.array(e) for e in q['corners'])
        z2 = np.array(q['array']).reshape(len(ye) - 1, len(xe) - 1)
        x, y = rm.coords(f)
        free = np.ones(z2.shape, bool)

        def cells(e, w, h):
            return [k for k in range(len(e) - 1) if e[k] - 1e-3 * h <= w <= e[k + 1] + 1e-3 * h]
        for i in range(f['shape'][0]):
            ks = cells(xe, x[i], f['spacing'][0])
            for j in range(f['shape'][1]):
                if not keep[i, j]:
                    continue
                js = cells(ye, y[j], f['spacing'][1])
                hit = [(b, a) for a in ks for b in js if free[b, a] and (
                    same(z2[b, a], NAN if hide[i, j] else z[i, j], eps) or unclear[i, j] and (
                        z2[b, a] != z2[b, a] or same(z2[b, a], z[i, j], eps)))]
                if not hit:
                    fail('values', 'bin (%.4g, %.4g) is drawn as %r instead of %.6g%s' % (
                        x[i], y[j], [z2[b, a] for a in ks for b in js], z[i, j], ', which is hidden' if hide[i, j] else ''))
                free[hit[0]] = False
        rest = z2[free]
        bad = rest[(rest == rest) & ((rest != 0) | zero_hidden)]
        if bad.size:
            fail('values', 'cells without a bin are drawn as %r' % bad[:5])

    def see_flow(self, v, d, f, q):
        if q['type'] != 'Quiver':
            fail('content', 'a %s is drawn' % q['type'])
        keep, _ = self.arrows(f, v, d)
        label = v.get('colour', 'T')
        w = np.ones(f['shape']) if label == 'None' else field(f, label)
        x, y = rm.coords(f)
        n = keep.sum()
        off = np.array(q['offsets']).reshape(-1, 2)
        arr = q.get('array')
        if not len(off) == len(q['U']) == len(q['V']) == len(arr or ()):
            fail('content', '%d arrows with %d colours' % (len(off), len(arr or ())))
        seen = set()
        for (ox, oy), U, V, z in zip(off, q['U'], q['V'], arr):
            i, j = int(np.abs(x - ox).argmin()), int(np.abs(y - oy).argmin())
            if abs(x[i] - ox) > 1e-3 * f['spacing'][0] or abs(y[j] - oy) > 1e-3 * f['spacing'][1]:
                fail('values', 'an arrow at (%r, %r), which is no bin' % (ox, oy))
            if (i, j) in seen or not keep[i, j]:
                fail('values', 'an arrow at bin (%r, %r), which should have none' % (ox, oy))
            seen.add((i, j))
            if not (same(U, f['U'][i, j], 1e-5) and same(V, f['V'][i, j], 1e-5)):
                fail('values', 'the arrow at (%r, %r) is (%r, %r) instead of (%r, %r)' % (ox, oy, U, V, f['U'][i, j], f['V'][i, j]))
            if not same(z, w[i, j], tol(w) * 2):
                fail('colours', 'the arrow at (%r, %r) has %s %r instead of %r' % (ox, oy, label, z, w[i, j]))
        if len(seen) != n:
            fail('values', '%d arrows are drawn instead of %d' % (len(seen), n))
        s = [v.get('scale', 1.0), v.get('width', 0.0015), v.get('pivot', 'middle').replace('middle', 'mid')]
        got = [q['arrow'][0], q['arrow'][1], str(q['arrow'][2]).replace('middle', 'mid')]
        if got != s:
            fail('arrows', 'scale, width and pivot are %r instead of %r' % (got, s))

    def see_stream(self, v, d, f, q):
        """Every piece of a line follows the flow where it is, within the tolerance of the
        library's integrator, and has the colour and width of that place."""
        if q['type'] != 'LineCollection':
            fail('content', 'a %s is drawn' % q['type'])
        cut, on, w = self.streams(f, v, d)
        x, y = (e[k] for e, k in zip(rm.coords(f), cut))
        U, V, M = (f[k][cut] for k in 'UVM')
        nx, ny = on.shape
        size = np.array([nx - 1, ny - 1])
        grid = f['spacing']
        segs = q['segments']
        colours = q.get('array')
        if (v.get('colour') == 'None') != (colours is None) or colours is not None and len(colours) != len(segs):
            fail('content', '%d pieces of lines with %r colours' % (len(segs), colours and len(colours)))
        top = M[on].max()
        long = 0

        def whole(g):
            # in a cell none of whose bins is cut off
            return any(on[a:a + 2, b:b + 2].all() for a in {min(max(int(g[0] + e), 0), nx - 2) for e in (-1e-5, 1e-5)}
                       for b in {min(max(int(g[1] + e), 0), ny - 2) for e in (-1e-5, 1e-5)})

        for k, s in enumerate(segs):
            ends = []
            for px, py in (s[:2], s[-2:]):
                g = [(px - x[0]) / grid[0], (py - y[0]) / grid[1]]
                if not (-1e-3 < g[0] < nx - 1 + 1e-3 and -1e-3 < g[1] < ny - 1 + 1e-3):
                    fail('values', 'a line of flow passes (%r, %r) outside of the bins or limits' % (px, py))
                ends.append([min(max(g[0], 0), nx - 1), min(max(g[1], 0), ny - 1)])
            step = (np.array(ends[1]) - ends[0]) / size
            good = False
            for g in ends:
                if not whole(g):
                    continue
                u = np.array([bilinear(U, *g) / grid[0], bilinear(V, *g) / grid[1]]) / size
                n = np.hypot(*u)
                if n == 0:
                    continue
                along, across = step @ u / n, abs(step[0] * u[1] - step[1] * u[0]) / n
                good = good or along > -0.0035 and across < 0.0035
            if not good:
                fail('values', 'a line of flow runs from %r to %r, which is not along the flow there' % (s[:2], s[-2:]))
            long += np.hypot(*step) > 0.0035
            if whole(ends[0]):
                if colours is not None and abs(colours[k] - bilinear(w, *ends[0])) > 2 * tol(w[on]) + 1e-4 * np.abs(w[on]).max():
                    fail('colours', 'the line of flow at %r has %s %r instead of %r' % (
                        s[:2], v.get('colour', 'T'), colours[k], bilinear(w, *ends[0])))
                e = 1.5 * bilinear(M, *ends[0]) / top
                if abs(q['widths'][k] - e) > 2e-3:
                    fail('values', 'the line of flow at %r has width %r instead of %r' % (s[:2], q['widths'][k], e))
        if not long and on.all() and (np.hypot(U, V) > 1e-3).all():
            fail('values', 'no lines of flow are drawn')
        if colours is not None and 'vlim' not in v:
            for a, b in zip(q['clim'], (w[on].min(), w[on].max())):
                if not same(a, b, 2 * tol(w[on])):
                    fail('colours', 'colours span %r instead of those of the bins' % (q['clim'],))
        probe('pieces of lines of flow', len(segs))

    def see_contour(self, v, d, f, q):
        if 'levels' not in q:
            fail('content', 'a %s is drawn' % q['type'])
        if q['filled'] != v['filled']:
            fail('content', 'contours are filled: %r' % q['filled'])
        z = field(f, v['l'])
        lv = q['levels']
        if 'colours' in v:
            # the colours in turn
            got = [[round(x, 4) for x in e[:3]] for e in q['colors'] or ()]
            want = [COLOURS[n] for n in v['colours']]
            if not got or any(e != want[k % len(want)] for k, e in enumerate(got)):
                fail('colours', 'contours are drawn in %r instead of %r' % (got, want))
            probe('contours in colours')
        if 'levels' in v:
            if len(lv) != len(v['levels']) or not np.allclose(lv, v['levels'], atol=1e-6):
                fail('levels', 'levels are %r instead of %r' % (lv, v['levels']))
        else:
            lo, hi = v.get('vlim', (None, None))
            z = np.clip(z, -np.inf if lo is None else lo, np.inf if hi is None else hi)
            n = v.get('n', 10)
            if len(lv) > n + 4 or z.max() - z.min() > 1e-3 and len(lv) < n / 4:
                fail('levels', '%d levels instead of about %d' % (len(lv), n))
        x, y = rm.coords(f)
        dx, dy = f['spacing']
        span = float(z.max() - z.min())
        eps = 2e-4 * span + 1e-5
        nx, ny = f['shape']
        spots = {}
        for k, path in enumerate(q['paths']):
            for seg in path:
                vx, vy = seg[-2:]
                i, j = (vx - x[0]) / dx, (vy - y[0]) / dy
                if not (-1e-3 < i < nx - 1 + 1e-3 and -1e-3 < j < ny - 1 + 1e-3):
                    fail('values', 'a contour passes (%r, %r) outside of the map' % (vx, vy))
                i, j = min(max(i, 0), nx - 1), min(max(j, 0), ny - 1)
                if abs(i - round(i)) > 1e-3 and abs(j - round(j)) > 1e-3:
                    continue
                w = bilinear(z, i, j)
                if q['filled']:
                    ok = lv[k] - eps <= w <= lv[k + 1] + eps
                else:
                    ok = abs(w - lv[k]) <= eps
                if not ok:
                    fail('values', 'the contour of %r passes (%.6g, %.6g) where %s is %.6g' % (
                        lv[k:k + 1 + q['filled']], vx, vy, v['l'], w))
                spots.setdefault(k, []).append((i, j))
        # every crossing of a level is drawn
        for k, l in enumerate(lv):
            at = spots.get(k, []) + (spots.get(k - 1, []) if q['filled'] else [])
            if q['filled'] and not 0 < k < len(lv) - 1 and span:
                continue
            at = np.array(at).reshape(-1, 2)
            for (a, b) in edges(nx, ny):
                za, zb = z[a], z[b]
                if not (za - l) * (zb - l) < 0 or min(abs(za - l), abs(zb - l)) < 0.02 * abs(za - zb) + 2 * eps:
                    continue
                s = (l - za) / (zb - za)
                pos = [a[0] + s * (b[0] - a[0]), a[1] + s * (b[1] - a[1])]
                if not len(at) or np.abs(at - pos).max(axis=1).min() > 0.01:
                    fail('values', 'no contour of %r between bins %r and %r with %.6g and %.6g' % (l, a, b, za, zb))

    # figures of lines
    def lines_of(self, p, c, sc):
        num = {n: k for k, n in enumerate(p['numbers'])}
        P = lambda n: W.interface_points(p, num[n])
        if c['kind'] == 'iview':
            out = []
            for w, k in C.windows_of(c, self.have(sc)):
                xs, ys = rm.iface_mean([P(n) for n in w])
                if len(xs) > 1:
                    out.append((fname(c['fig'], k, c.get('extfig', '.png')) if c.get('fig') else None, [(None, xs, ys)]))
            return out
        sel = C.selected(c, self.have(sc))
        ts = [i * c.get('dt', 1.0) for i in range(len(sel))]
        if c['kind'] == 'isample':
            fn = rm.area if c['var'] == 'area' else rm.length
            return [(c.get('fig'), [(None, ts, [fn(*P(n)) for n in sel])])]
        out = []
        if c.get('fit'):
            out.append(('fit', ts, [rm.angle_fit(*P(n)) for n in sel]))
        if c.get('height') is not None:
            out.append(('measured', ts, [sum(rm.angle_at(*P(n), c['height'])) / 2 for n in sel]))
        return [(c.get('fig'), out)]

    def series_of(self, sc, c):
        p = sc['worlds'][0]
        par, out = self.expect(sc, c, lambda: C24.model(p, [c]))
        at = {n: W.spreading_sets(p, k) for k, n in enumerate(p['names'])}
        raw = [('%s.%d' % (f, i + 1), s) for f in c['files'] for i, s in enumerate(at[f])]
        if par is None:
            return [(None, list(t), list(v)) for t, v in out]
        lines = []
        for (n, (t, v)), (ft, fv), ak in zip(raw, out, par):
            lines += [(n, list(t), list(v)), (ak, list(ft), list(fv))]
        return lines

    def line_figure(self, c, lines, g):
        k = c['kind']
        a = self.frame(c, g, {'title': DEFAULT[k], 'xlabel': {'iview': 'x (nm)', 'sview': 'Time (ps)', 'sfit': 'Time (ps)'}.get(k, 't (ps)'),
                              'ylabel': {'sview': 'Radius (nm)', 'sfit': 'Radius (nm)', 'iview': 'y (nm)', 'iangle': 'angle (deg.)'}.get(
                                  k, {'area': 'A (nm^2)', 'length': 'L (nm)'}.get(c.get('var')))})
        if len(g['axes']) != 1 or len(a['lines']) != len(lines) or a['collections']:
            fail('content', '%d lines are drawn instead of %d' % (len(a['lines']), len(lines)))
        for (name, xs, ys), l in zip(lines, a['lines']):
            if isinstance(name, tuple):
                got = dict(q.partition('=')[::2] for q in l['label'].split(', '))
                try:
                    ok = set(got) == {'a', 'k'} and all(abs(float(got[n]) - w) < 6e-4 + 1e-4 * abs(w) for n, w in zip('ak', name))
                except ValueError:
                    ok = False
                if not ok:
                    fail('content', 'the fit of %r is labelled %r' % (name, l['label']))
                name = l['label']
            if name is not None and l['label'] != name:
                fail('content', 'the line of %r is labelled %r' % (name, l['label']))
            if len(l['x']) != len(xs) or len(l['y']) != len(ys) or any(
                    not same(u, w, 2e-3) for u, w in zip(l['x'] + l['y'], list(xs) + list(ys))):
                fail('values', 'the line is %r instead of %r' % (list(zip(l['x'], l['y']))[:12], [
                    (round(float(u), 4), round(float(w), 4)) for u, w in zip(xs, ys)][:12]))
        if (k == 'iangle' or k == 'sfit' and not c.get('nolegend')) and a.get('legend') != [l['label'] for l in a['lines']]:
            fail('decoration', 'the legend is %r' % a.get('legend'))
        probe(k + ' figures')


def edges(nx, ny):
    for i in range(nx):
        for j in range(ny):
            if i + 1 < nx:
                yield (i, j), (i + 1, j)
            if j + 1 < ny:
                yield (i, j), (i, j + 1)


def bilinear(z, i, j):
    a, b = min(int(i), z.shape[0] - 2), min(int(j), z.shape[1] - 2)
    s, t = i - a, j - b
    return float((1 - s) * (1 - t) * z[a, b] + s * (1 - t) * z[a + 1, b] + (1 - s) * t * z[a, b + 1] + s * t * z[a + 1, b + 1])
