"""Commands of the program: command lines, frames they read, files they write."""

import math
import os
import random

import refmodel as rm
from world import fname, frame, gen_flow, gen_droplet, gen_interfaces, gen_spreadings

FLOW_LOG = ('scollect', 'sample')
FRAME_OUT = ('convert', 'average', 'icollect', 'iview', 'ccollect')
LOGS = ('scollect', 'sample', 'isample', 'csample')
ONE_OUT = ('scollect', 'sample', 'isample', 'iangle', 'sview', 'sfit', 'csample')
READS_FLOW = ('convert', 'average', 'icollect', 'scollect', 'sample', 'ccollect', 'csample')
CONTACT = ('ccollect', 'csample')
GROUPED = ('average', 'iview') + CONTACT
READS_IFACE = ('iview', 'isample', 'iangle')
READS_SPREAD = ('sview', 'sfit')
ALL = READS_FLOW + READS_IFACE + READS_SPREAD
DTS = [0.5, 2.0, 12.5, 40000.125] * 6 + [0.0]
DRAWS = ('iview', 'isample', 'iangle', 'sview', 'sfit', 'view')
FIG = ('view',)                     # draws a figure of flow maps


def _rng_opts(c, a, ext):
    if c.get('begin', 1) != 1:
        a += ['-b', c['begin']]
    if c.get('end') is not None:
        a += ['-e', c['end']]
    if c.get('ext', ext) != ext:
        a += ['--ext', c['ext']]


def _cut_opts(c, a):
    for k, o in (('co', '-co'), ('cr', '-cr'), ('cb', '-cb')):
        if c.get(k) is not None and not (k == 'cr' and c[k] == 1.0 or k == 'cb' and c[k] == 1 and c.get('cr', 1.0) < 1.1):
            # the defaults are not always given
            a += [o, c[k]]


def argv(c):
    k = c['kind']
    if k == 'convert':
        a = ['convert', c['base'], c['out']]
        if 'ftype' in c:
            a += ['--ftype', c['ftype']]
        _rng_opts(c, a, '.dat')
    elif k == 'average':
        a = ['average', c['base'], c['out'], c['group']]
        if c.get('rolling'):
            a += ['--rolling']
        if c.get('recenter'):
            a += ['--recenter', c['recenter']]
            if c.get('floor') is not None:
                a += ['--floor', c['floor']]
            _cut_opts(c, a)
        if c.get('combine'):
            a += ['--combine'] + list(c['combine'])
        if c.get('supersample'):
            a += ['--supersample', c['supersample']]
        for n in ('xlim', 'ylim'):
            if c.get(n):
                a += ['--' + n] + ['none' if v is None else v for v in c[n]]
        _rng_opts(c, a, '.dat')
    elif k == 'icollect':
        a = ['interface', 'collect', c['base'], c['out']]
        if 'recenter' in c:
            a += ['--recenter', c['recenter']]
        if c.get('ylim'):
            a += ['--ylim'] + ['none' if v is None else v for v in c['ylim']]
        _cut_opts(c, a)
        _rng_opts(c, a, '.dat')
    elif k == 'scollect':
        a = ['spreading', 'collect']
        if c.get('out') is None:
            a += ['--nooutput']
        else:
            a += ['-o', c['out']]
        if 'dt' in c:
            a += ['-dt', c['dt']]
        if 't0' in c:
            a += ['-t0', c['t0']]
        if c.get('verbose'):
            a += ['-v']
        _cut_opts(c, a)
        _rng_opts(c, a, '.dat')
        a += ['--', c['base'], c['floor']]
    elif k == 'sample':
        a = ['sample', c['base']] + list(c['labels'])
        a += ['-o', c['out'] if c.get('out') is not None else '']
        if 'dt' in c:
            a += ['-dt', c['dt']]
        if c.get('sum'):
            a += ['--process', 'sum']
        if c.get('cl'):
            a += ['-cl', c['cl']]
        if c.get('co') is not None:
            a += ['-co', c['co']]
        if 'fl' in c:
            a += ['-fl', c['fl']]
        for n in ('xlim', 'ylim'):
            if c.get(n):
                a += ['--' + n] + ['none' if v is None else v for v in c[n]]
        if c.get('noshow'):
            a += ['--noshow']
        _rng_opts(c, a, '.dat')
    elif k in CONTACT:
        if k == 'ccollect':
            a = ['contact-line', 'collect', c['base'], c['out']]
            if c.get('fuse'):
                a += ['--fuse']
        else:
            a = ['contact-line', 'sample', c['base']] + list(c['labels'])
            if c.get('out') is not None:
                a += ['--save', c['out']]
            if 'dt' in c:
                a += ['-dt', c['dt']]
            if c.get('sum'):
                a += ['--process', 'sum']
        if c.get('group', 1) != 1:
            a += ['-av', c['group']]
        if c.get('rolling'):
            a += ['--rolling']
        if c.get('norecenter'):
            a += ['--norecenter']
        if c.get('floor') is not None:
            a += ['--floor', c['floor']]
        if k == 'ccollect' or c.get('ea'):
            a += ['-ea'] + list(c.get('ea') or (0.0, 0.0))
        if 'eh' in c:
            a += ['-eh', c['eh']]
        _cut_opts(c, a)
        _rng_opts(c, a, '.dat')
    elif k == 'isample':
        a = ['interface', 'sample', c['base'], c['var'], '--show' if c.get('show') else '--noshow']
        if c.get('fig'):
            a += ['-o', c['fig']]
        if c.get('out') is not None:
            a += ['-x', c['out']]
        if 'dt' in c:
            a += ['-dt', c['dt']]
        _rng_opts(c, a, '.xvg')
    elif k == 'iview':
        a = ['interface', 'view', c['base'], '--show' if c.get('show') else '--noshow']
        if c.get('group', 1) != 1:
            a += ['-av', c['group']]
        if c.get('out') is not None:
            a += ['-x', c['out']]
        if c.get('fig'):
            a += ['-o', c['fig']]
        if c.get('extfig'):
            a += ['--extfig', c['extfig']]
        _rng_opts(c, a, '.xvg')
    elif k == 'iangle':
        a = ['interface', 'angle', c['base']] + ['--show'] * bool(c.get('show'))
        if c.get('fig'):
            a += ['-o', c['fig']]
        if c.get('fit'):
            a += ['--fit']
        if c.get('height') is not None:
            a += ['-h', c['height']]
        if c.get('out') is not None:
            a += ['-x', c['out']]
        if 'dt' in c:
            a += ['-dt', c['dt']]
        _rng_opts(c, a, '.xvg')
    elif k == 'sview':
        a = ['spreading', 'view'] + list(c['files']) + ['--show' if c.get('show') else '--noshow']
        a += _line_opts(c)
        if c.get('out') is not None:
            a += ['-x', c['out']]
        for n, o in (('tau', '-t'), ('R', '-r'), ('rs', '-rs')):
            if n in c:
                a += [o, c[n]]
    elif k == 'sfit':
        a = ['spreading', 'fit'] + list(c['files']) + ['--show' if c.get('show') else '--noshow']
        a += _line_opts(c)
        if c.get('out') is not None:
            a += ['-x', c['out']]
        for n in ('lims', 'out_lims'):
            if c.get(n):
                a += ['--' + n] + ['none' if v is None else v for v in c[n]]
    elif k == 'view':
        # showing is the default
        a = ['view', c['type']] + list(c['files']) + ([] if c.get('show') and len(c.get('view') or '') % 2 else ['--show' if c.get('show') else '--noshow'])
        if c.get('out') is not None:
            a += ['-o', c['out']]
        a += list(c['opts'])
    else:
        raise ValueError(k)
    for n in ('title', 'xlabel', 'ylabel'):
        if n in c.get('deco', ()):
            a += ['--' + n, c['deco'][n]]
    for n in ('xlim', 'ylim'):
        if n in c.get('deco', ()):
            a += ['--' + n] + ['none' if v is None else v for v in c['deco'][n]]
    return styled([str(x) for x in a], k, c.get('style', 0))


DEFAULTS = {'-cr': ('1.0',), '-cb': ('1',), '--ftype': ('gmx',), '-eh': ('0.0',), '-b': ('1',)}
KIND_DEFAULTS = {('icollect', '--recenter'): ('zero',), ('ccollect', '-ea'): ('1.0', '1.0'),
                 ('csample', '-ea'): ('0.0', '0.0'), ('scollect', '-o'): ('spread.xvg',),
                 ('sample', '-o'): ('sample.xvg',)}
LONG = {'-b': '--begin', '-e': '--end', '-co': '--cutoff', '-cr': '--cutoff_radius',
        '-cb': '--cutoff_bins', '-dt': '--delta_t', '-t0': '--time_init', '-x': '--save_xvg',
        '-ea': '--extract_area', '-eh': '--extract_height', '-av': '--average',
        '-cl': '--cutoff_label', '-fl': '--floor', '-h': '--height', '-v': '--verbose'}


def styled(a, kind, style):
    """The same command line in another style: 1 leaves out what is the default, 2 uses
    the long names of the options, 4 gives defaults explicitly."""
    if not style or kind in FIG:
        return a
    end = a.index('--') if '--' in a else len(a)
    out, n = [], 0
    while n < end:
        d = KIND_DEFAULTS.get((kind, a[n])) or DEFAULTS.get(a[n])
        if style & 1 and d and tuple(a[n + 1:n + 1 + len(d)]) == d:
            n += 1 + len(d)
            continue
        out.append(a[n])
        n += 1
    if style & 4:
        has = lambda *o: any(x in out for x in o)
        if kind not in READS_SPREAD and not has('-b'):
            out += ['-b', '1']
        if kind in LOGS + ('iangle',) and not has('-dt'):
            out += ['-dt', '1']
        if kind in ('average',) + CONTACT and not has('--rolling'):
            out += ['--norolling']
        if kind in CONTACT and not has('--norecenter'):
            out += ['--recenter']
        if kind == 'ccollect' and not has('--fuse'):
            out += ['--nofuse']
        if kind in ('iview',) + CONTACT and not has('-av'):
            out += ['-av', '1']
        if kind == 'iangle' and not has('--fit'):
            out += ['--nofit']
        if kind in ('sample', 'csample') and not has('--process'):
            out += ['--process', 'mean']
        if kind == 'average' and not has('--recenter'):
            out += ['--recenter', 'none']
        if kind == 'average' and not has('--xlim'):
            out += ['--xlim', 'none', 'none']
    if style & 2:
        long = dict(LONG, **{'-o': '--output' if kind in ('scollect', 'sample') else '--save_fig'})
        out = [long.get(x, x) for x in out]
    return out + a[end:]


def _line_opts(c):
    a = ['-o', c['fig']] if c.get('fig') else []
    if c.get('loglog'):
        a += ['--loglog']
    if c.get('nolegend'):
        a += ['--nolegend']
    if c.get('noprint'):
        a += ['--noprint']
    return a


def in_ext(c):
    return c.get('ext', '.xvg' if c['kind'] in READS_IFACE else '.dat')


def out_ext(c):
    return '.xvg' if c['kind'] == 'icollect' else in_ext(c)


def selected(c, exists):
    """Numbers of the frames which the command reads."""
    out, n = [], c.get('begin', 1)
    while exists(fname(c['base'], n, in_ext(c))) and \
            (c.get('end') is None or n <= c['end']):
        out.append(n)
        n += 1
    return out


def inputs(c, exists):
    """Input files in the order of reading."""
    if c['kind'] in READS_SPREAD + FIG:
        return list(c['files'])
    sel = selected(c, exists)
    if c['kind'] in ('average', 'iview'):
        return [fname(c['base'], n, in_ext(c))
                for w, _ in windows_of(c, exists) for n in w]
    return [fname(c['base'], n, in_ext(c)) for n in sel]


def windows_of(c, exists):
    """[(numbers read for it, number of the output)] for commands with one
    output per frame or bundle."""
    sel = selected(c, exists)
    b = c.get('begin', 1)
    if c['kind'] in ('convert', 'icollect'):
        return [([n], n) for n in sel]
    if c['kind'] in CONTACT:
        w = rm.windows(sel, c.get('group', 1), b, None, c.get('rolling', False))
        return [(ns, b + i) for i, (ns, _) in enumerate(w)]
    return rm.windows(sel, c.get('group', 1), b, None, c.get('rolling', False))


def outputs(c, exists):
    """[(output path, inputs it is made from)] in order of creation."""
    if c.get('out') is None:
        return []
    if c['kind'] in FIG:
        return [(c['out'], list(c['files']))]
    if c['kind'] in FRAME_OUT:
        return [(fname(c['out'], k, out_ext(c)),
                 [fname(c['base'], n, in_ext(c)) for n in w])
                for w, k in windows_of(c, exists)]
    return [(c['out'], inputs(c, exists))]


def figures(c, exists):
    """Paths of the figures besides the outputs."""
    if not c.get('fig'):
        return []
    if c['kind'] == 'iview':
        return [fname(c['fig'], k, c.get('extfig', '.png')) for _, k in windows_of(c, exists)]
    return [c['fig']]


# -- generation --------------------------------------------------------------------------
def out_base(rng, tag=''):
    d = rng.choice(['out/', 'out/', 'a b/c/', 'res/deep/er/', '', './o/', 'x#y/'])
    return d + rng.choice(['r', 'o_', 'res-', '%s_', 'q#']) + tag


def out_file(rng, tag=''):
    d = rng.choice(['', '', 'out/', 'log s/', 'd/e/'])
    return d + rng.choice(['row', 's%d', '#l', 'data x']) + tag + rng.choice(['.xvg', '.dat', ''])


def good_radius(rng, sp):
    c = [r for r in (0.53, 0.63, 0.77, 1.0, 1.03, 1.17, 1.33, 1.57) if rm.radius_ok(sp, r)
         and r > max(sp)]
    return rng.choice(c or [1.63])


def rng_window(rng, c, numbers):
    """Begin, end and their surroundings."""
    b = numbers[0]
    if rng.random() < 0.3 and len(numbers) > 1:
        b = rng.choice(numbers)
    if b != 1 or rng.random() < 0.1:
        c['begin'] = b
    if rng.random() < 0.3:
        c['end'] = rng.randint(b, numbers[-1] + 1)


def gen_cmd(rng, kind, p, tag='', window=True, fast=False):
    """A command of a kind on the input set p."""
    c = {'kind': kind}
    if rng.random() < 0.4:
        c['style'] = rng.choice([1, 1, 2, 3, 4, 6])
    if kind in READS_SPREAD:
        c['files'] = list(p['names'])
        c['out'] = out_file(rng, tag)
        return c
    if kind in FIG:
        return gen_view(rng, c, p, tag)
    c['base'] = p['base']
    if p['ext'] != ('.xvg' if kind in READS_IFACE else '.dat') or rng.random() < 0.05:
        c['ext'] = p['ext']
    if window:
        rng_window(rng, c, p['numbers'])
    elif p['numbers'][0] != 1:
        c['begin'] = p['numbers'][0]
    if kind in FRAME_OUT:
        c['out'] = out_base(rng, tag)
    else:
        c['out'] = out_file(rng, tag)
        if kind in ('scollect', 'sample') and not tag and c.get('style', 0) & 1:
            c['out'] = 'spread.xvg' if kind == 'scollect' else 'sample.xvg'
    if kind == 'convert':
        if rng.random() < 0.9:
            c['ftype'] = rng.choice(['gmx', 'simple', 'simple_plain'])
    elif kind == 'average':
        c['group'] = rng.choice([1, 2, 2, 2, 3, 3, 4, 5])
        c['rolling'] = rng.random() < 0.3
    elif kind == 'icollect':
        c['recenter'] = rng.choice(['off', 'com', 'zero'])
        c['cr'] = good_radius(rng, p['spacing'])
        if rng.random() < 0.5:
            c['co'] = 12.0 if p.get('dense') else 5.0
        c['cb'] = rng.choice([1, 1, 2])
    elif kind == 'scollect':
        c['floor'] = 0.0
        c['cr'] = good_radius(rng, p['spacing'])
        if rng.random() < 0.5:
            c['co'] = 12.0 if p.get('dense') else 5.0
        c['cb'] = rng.choice([1, 1, 2])
        if rng.random() < 0.6:
            c['dt'] = rng.choice(DTS)
        if rng.random() < 0.3:
            c['t0'] = rng.choice([10.0, 0.25])
        if rng.random() < 0.2:
            c['verbose'] = True
    elif kind == 'sample':
        c['labels'] = [rng.choice(['M', 'U', 'V', 'T', 'N', 'inertial_energy', 'flow_angle'])
                       for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.3:
            c['sum'] = True
            c['labels'] = [l for l in c['labels'] if l != 'flow_angle'] or ['M']
        if rng.random() < 0.5:
            c['dt'] = rng.choice(DTS)
        if rng.random() < 0.3:
            c['cl'] = rng.choice(['M', 'N'])
            if rng.random() < 0.5:
                c['co'] = rng.choice([0.5, 0.5, 0.0])
    elif kind in CONTACT:
        c['group'] = rng.choice([1, 1, 2, 2, 3, 4])
        c['rolling'] = rng.random() < 0.3
        c['cr'] = good_radius(rng, p['spacing'])
        if rng.random() < 0.5:
            c['co'] = 12.0 if p.get('dense') else 5.0
        c['cb'] = rng.choice([1, 1, 2])
        dx, dy = p['spacing']
        if rng.random() < 0.8:
            c['ea'] = [round(dx * rng.choice([0.0, 0.5, 1.5, 2.5, 4.5]), 4), round(dy * rng.choice([0.0, 0.5, 1.5, 2.5]), 4)]
            if c.get('style', 0) & 1 and kind == 'csample':
                c['ea'] = [0.0, 0.0]
            elif c.get('style', 0) & 1 and all(abs(1 / d - round(1 / d)) > 1e-2 for d in (dx, dy)):
                c['ea'] = [1.0, 1.0]
        if rng.random() < 0.4:
            c['eh'] = round(dy * rng.choice([0.5, 1.5]), 4)
        if rng.random() < 0.3:
            c['floor'] = round(p['origin'][1] + dy * (rng.choice([0, 1]) + rng.uniform(0.1, 0.4)), 4)
            if p['origin'][1] < -dy and rng.random() < 0.7:
                c['floor'] = 0.0
        if rng.random() < 0.3:
            c['norecenter'] = True
        if kind == 'ccollect':
            if rng.random() < 0.3:
                c['fuse'] = True
        else:
            c['labels'] = [rng.choice(['M', 'U', 'V', 'T', 'N', 'inertial_energy', 'flow_angle'])
                           for _ in range(rng.randint(1, 3))]
            if rng.random() < 0.4:
                c['sum'] = True
                c['labels'] = [l for l in c['labels'] if l != 'flow_angle'] or ['U']
            if rng.random() < 0.5:
                c['dt'] = rng.choice(DTS)
    elif kind == 'isample':
        c['var'] = rng.choice(['area', 'length'])
        if rng.random() < 0.5:
            c['dt'] = rng.choice(DTS)
    elif kind == 'iview':
        c['group'] = rng.choice([1, 2, 2, 3])
    elif kind == 'iangle':
        c['fit'] = rng.random() < 0.5
        if not c['fit'] or rng.random() < 0.5:
            c['height'] = rng.choice([0.5, 1.0])
        if rng.random() < 0.5:
            c['dt'] = rng.choice(DTS)
    return c


def gen_view(rng, c, p, tag):
    c['type'] = t = rng.choice(['height', 'height', 'contour', 'flow'])
    names = [fname(p['base'], n, p['ext']) for n in p['numbers']]
    c['files'] = names if rng.random() < 0.5 else rng.sample(names, rng.randint(1, len(names)))
    c['files'] = c['files'][:3]
    c['out'] = 'fig' + tag + rng.choice(['.png', '.pdf', ''])
    if c['out'] == 'fig' + tag:
        c['out'] += '.svg'
    o = c['opts'] = []
    if t == 'height':
        o += rng.choice([[], ['-l', rng.choice('MNTUV')], ['-l', 'flow']])
        o += rng.choice([[], ['--vlim', '0', '20'], ['--nocolourbar'], ['-cl', 'M', '-co', '4']])
    elif t == 'contour':
        o += rng.choice([[], ['-l', rng.choice('MTU')], ['-n', '4'], ['--filled']])
    else:
        o += ['-co', rng.choice(['0', '5'])]
        o += rng.choice([[], ['-cl', rng.choice('MNTU')], ['-cl', 'flow']])
    o += rng.choice([[], [], ['--title', 'a title'], ['--noaxis', '1'], ['--transparent']])
    if rng.random() < 0.2:
        o += ['-cmap', rng.choice(['magma', 'jet'])]
    if rng.random() < 0.15 and t != 'flow':
        o += ['--dims', '400', '300']
    return c


def add_fig(rng, c, tag=''):
    if c['kind'] == 'iview':
        c['fig'] = 'fg%s_' % tag
        if rng.random() < 0.25:
            c['extfig'] = rng.choice(['.pdf', '.svg'])
    elif c['kind'] in ('isample', 'iangle', 'sview', 'sfit'):
        c['fig'] = 'fg%s.%s' % (tag, rng.choice(['png', 'pdf']))
    if 'fig' in c and rng.random() < 0.3:
        # in a directory which is there
        d = os.path.dirname(c.get('base') or (c.get('files') or [''])[0])
        c['fig'] = os.path.join(d, c['fig'])


def frames_of(p):
    return {num: frame(p, n) for n, num in enumerate(p['numbers'])}


def floor_layer(fr, floor):
    """Index of the layer which collect takes as the floor: heights in
    (floor, floor + 1] rank first and of these the lowest."""
    _, y = rm.coords(fr)
    best, val = None, None
    for j, v in enumerate(y):
        d = abs(math.ceil(v - floor) - 1)
        if val is None or d < val:
            best, val = j, d
    return best


def wet(c, fr):
    """Whether a frame gives a row in spreading collect."""
    st = rm.stretch(fr, floor_layer(fr, c['floor']), c.get('co'), c['cr'], c.get('cb', 1))
    return st is not None


def valid(c, p):
    """Whether an undisturbed run must succeed on this input set."""
    if c['kind'] == 'icollect':
        if 'drop' not in p:
            return False
        fs = frames_of(p)
        sel = [n for n in selected(c, _have(p))]
        try:
            rm.interface([fs[n] for n in sel], c.get('co'), c['cr'], c.get('cb', 1),
                         {'off': None}.get(c.get('recenter', 'zero'), c.get('recenter', 'zero')), c.get('ylim'))
        except rm.Ambiguous:
            return False
    if c['kind'] == 'scollect':
        if 'drop' not in p:
            return False
        fs = frames_of(p)
        for n in selected(c, _have(p)):
            if rm.cutoff_of(fs[n], c.get('co')) is None:
                return False
    if c['kind'] in CONTACT:
        fs = frames_of(p)
        if min(p['shape']) < 2:
            return False
        try:
            for n in selected(c, _have(p)):
                rm.tips(fs[n], c)
        except rm.Ambiguous:
            return False
    return True


def rows_due(c, p, order):
    """Rows due to each of the inputs in the order they are read."""
    if c['kind'] == 'scollect':
        fr = frames_of(p)
        n = {os.path.normpath(fname(p['base'], k, p['ext'])): int(wet(c, fr[k])) for k in p['numbers']}
        return [n[o] for o in order]
    g = c.get('group', 1) if c['kind'] in GROUPED else 1
    if c.get('rolling'):
        return [int(k >= g - 1) for k in range(len(order))]
    return [int(k % g == g - 1) for k in range(len(order))]


def _have(p):
    names = {fname(p['base'], n, p['ext']) for n in p['numbers']}
    return lambda path: path in names


def gen_job(rng, kinds=ALL, nmin=1, nmax=5, small=True, fmts=None, window=True, first=None):
    """An input set and a command on it which is certain to be valid."""
    kind = rng.choice(kinds)
    for _ in range(30):
        if kind in READS_IFACE:
            p = gen_interfaces(rng, nmin, nmax, first=first)
        elif kind in READS_SPREAD:
            p = gen_spreadings(rng, max(1, nmin), max(nmin, min(nmax, 3)))
        elif kind in ('scollect', 'icollect'):
            p = gen_flow(rng, 'droplet', nmin, nmax, fmts=fmts, first=first)
            if kind == 'icollect':
                gen_droplet(rng, p, len(p['numbers']), lead=0,
                            cross=rng.random() < 0.3)
        elif kind in CONTACT and rng.random() < 0.5:
            p = gen_flow(rng, 'droplet', nmin, nmax, fmts=fmts, first=first)
            gen_droplet(rng, p, len(p['numbers']), lead=0, cross=rng.random() < 0.3)
        else:
            p = gen_flow(rng, 'random', nmin, nmax, fmts=fmts, small=small and kind not in CONTACT, first=first)
        c = gen_cmd(rng, kind, p, window=window)
        if kind == 'scollect':
            c['floor'] = 0.0
        if valid(c, p):
            return p, c
    return gen_job(rng, [k for k in kinds if k not in ('icollect',)] or ['convert'],
                   nmin, nmax, small, fmts, window, first)
