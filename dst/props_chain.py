"""Chains of commands, each reading what the one before wrote."""

import copy
import os

import numpy as np

import cmds as C
import refmodel as rm
import sim
import world as W
from batch import Prop, generic_shrinks
from props_fault import bufsize
from props_model import C09, C10, C11, C17, C23, C24, rows, same_rows, session, strip
from sim import Env, fail, probe
from world import fname

MARGIN = 1e-3
_memo = {}


# -- what a command makes of its input set, by the reference model -----------------------------
def resolve(p):
    """Contents of a derived input set."""
    key = sim.canonical(p)
    if key not in _memo:
        if len(_memo) > 400:
            _memo.clear()
        _memo[key] = made(*p['from'])
    return _memo[key]


def made(p, c):
    k = c['kind']
    if k == 'convert':
        fr = C.frames_of(p)
        out = {}
        for n in C.selected(c, C._have(p)):
            f = dict(fr[n])
            m = f['M'] != 0
            out[n] = dict(f, **{l: np.where(m, f[l], 0.0) for l in rm.FIELDS})
        return out
    if k == 'average':
        fr = C.frames_of(p)
        grid = {l: next(iter(fr.values()))[l] for l in ('shape', 'origin', 'spacing')}
        return {n: dict(rm.average([fr[i] for i in w]), **grid) for w, n in C.windows_of(c, C._have(p))}
    if k == 'icollect':
        fr = C.frames_of(p)
        rec = c.get('recenter', 'zero')
        sel = C.selected(c, C._have(p))
        got = rm.interface([fr[n] for n in sel], c.get('co'), c['cr'], c.get('cb', 1),
                           None if rec == 'off' else rec, c.get('ylim'))
        return {n: (list(xs), [round(y, 3) for y in ys]) for n, (xs, ys) in zip(sel, got)}
    if k == 'iview':
        pts = resolve(p)
        return {n: rm.iface_mean([pts[i] for i in w]) for w, n in C.windows_of(c, C._have(p))}
    if k == 'scollect':
        got, _, _ = C10.model(p, c, C.frames_of(p))
        t = [round(r[0], 3) for r in got]
        return [(t, [round(r[q], 3) for r in got]) for q in (1, 2, 3)]
    raise KeyError(k)


def derived(p, c):
    """Parameters of the input set which command c makes of p."""
    q = {'from': [p, strip(c)], 'seed': p['seed']}
    if c['kind'] == 'scollect':
        return dict(q, spread=True, names=[c['out']], dt=c.get('dt', 1.0))
    q.update(base=c['out'], ext=C.out_ext(c), numbers=[k for _, k in C.windows_of(c, C._have(p))])
    if c['kind'] in ('icollect', 'iview'):
        return dict(q, iface=True)
    fr = resolve(q)
    f = fr[q['numbers'][0]]
    q.update(fmt={'simple': 'simple', 'simple_plain': 'plain'}.get(c.get('ftype'), 'gmx')
             if c['kind'] == 'convert' else 'gmx',
             shape=[int(v) for v in f['shape']], spacing=[float(v) for v in f['spacing']], origin=[float(v) for v in f['origin']])
    if 'drop' in p:
        q['drop'] = True
        q['dense'] = p.get('dense', False)
    return q


W.RESOLVE = resolve


def clear_cut(p, c):
    """No decision of a command on these maps hangs on the last digits."""
    fr = C.frames_of(p)
    sel = C.selected(c, C._have(p))
    if not sel:
        return False
    for n in sel:
        f = fr[n]
        if c['kind'] in ('scollect', 'icollect') + C.CONTACT:
            co = rm.cutoff_of(f, c.get('co'))
            if co is None or np.any(np.abs(f['M'] - co) < MARGIN):
                return False
        if c['kind'] == 'sample' and c.get('cl'):
            v = f[c['cl']]
            co = c.get('co')
            if co is None:
                co = 0.5 * (v.max() + v.min())
            if np.any(np.abs(v - co) < MARGIN):
                return False
    return True


def wobbly(points, fn, tol):
    """How far the value may be off when the points have been rounded."""
    rs = np.random.RandomState(3)
    at = np.atleast_1d(fn(points))
    far = np.zeros(at.shape)
    for _ in range(12):
        moved = [([x + rs.uniform(-tol, tol) for x in xs], ys) for xs, ys in points]
        far = np.maximum(far, np.abs(np.atleast_1d(fn(moved)) - at))
    return at, 3 * far + 0.0011


# ------------------------------------------------------------------------------------------
class C26(Prop):
    id = 'C26'
    jobs = {'quick': 500, 'thorough': 20000}
    nvar = 6
    rule = ('chains of 2-5 commands - conversions and averages first, then spreading collect and view or fit, interface collect, view, sample and angle, sample, '
            'contact-line collect and sample - on 1-8 maps of droplets or random contents, each reading what the one before wrote: every step its own process, '
            'with killed and failed attempts before it, all in one process, parts of the chain run again, run first on other inputs under the same names, or beside '
            'another chain. The outputs of every step are compared with the reference model composed over the chain. Non-trivial: every chain.')

    # -- generation ------------------------------------------------------------------------
    def gen(self, rng):
        p, cs = self.chain(rng)
        return {'worlds': [p], 'cmds': cs, 'bufsize': bufsize(rng), 't0': 1.7e9 + rng.randrange(10**8),
                'mode': 'seq'}

    def chain(self, rng, tag=''):
        for _ in range(200):
            try:
                got = self.try_chain(rng, tag)
            except rm.Ambiguous:
                continue
            if got is not None:
                return got
        p = W.gen_flow(rng, 'random', 2, 4)
        c = {'kind': 'convert', 'base': p['base'], 'ext': p['ext'], 'begin': p['numbers'][0], 'out': tag + 'last',
             'ftype': 'simple'}
        return p, [c]

    def try_chain(self, rng, tag):
        last = rng.choice(['scollect', 'scollect', 'icollect', 'icollect', 'icollect', 'sample', 'ccollect', 'csample',
                           'average', 'convert'])
        drop = last in ('scollect', 'icollect') or rng.random() < 0.3
        p = p0 = W.gen_flow(rng, 'droplet' if drop else 'random', 2, 8,
                            fmts=['gmx', 'gmx_min', 'gmx_perm', 'gmx2', 'simple', 'plain'] if rng.random() < 0.5 else
                            ['gmx', 'gmx_min', 'gmx_perm', 'gmx2'])
        n = len(p['numbers'])
        ground = 0
        if drop:
            ground = rng.choice([0, 0, 1])
            W.gen_droplet(rng, p, n, ground=ground, lead=0 if last == 'icollect' else None,
                          cross=rng.random() < 0.4, ny=rng.randint(4, 7), nx=rng.randint(10, 16))
            if rng.random() < 0.3:
                p['origin'] = [round(rng.uniform(-3, 3), 2), round(rng.uniform(-2, 2), 2)]
        if tag:
            p['base'] += tag
        cs = []
        for j in range(rng.choice([1, 1, 2, 2, 3])):
            simple = p['fmt'] in ('simple', 'plain')
            k = 'convert' if simple or rng.random() < 0.6 else 'average'
            c = C.gen_cmd(rng, k, p, tag='%sm%d' % (tag, j), window=rng.random() < 0.3)
            if k == 'convert':
                c['ftype'] = rng.choice(['simple', 'simple_plain'] if simple else ['gmx', 'simple', 'simple_plain'])
                if rng.random() < 0.2:
                    c['out'] = c['base']
                    c.pop('end', None)
                    c['begin'] = p['numbers'][0]
            elif rng.random() < 0.3:
                c['group'] = 1
            if not C.selected(c, C._have(p)):
                return None
            q = derived(p, c) if C.windows_of(c, C._have(p)) else None
            if q is None or not q['numbers']:
                return None
            cs.append(c)
            p = q
        c = C.gen_cmd(rng, last, p, tag=tag + 'e')
        if last == 'scollect':
            y0 = p['origin'][1] + p['spacing'][1] * 0.5
            c['floor'] = round(y0 + p['spacing'][1] * (ground - 0.5), 4)
            if ground == 0 and p['origin'][1] == 0 and rng.random() < 0.5:
                c['floor'] = 0.0
            if C.floor_layer(C.frames_of(p)[p['numbers'][0]], c['floor']) != ground:
                return None
        if last == 'convert' and p['fmt'] in ('simple', 'plain'):
            c['ftype'] = 'simple'
        if last == 'average' and p['fmt'] in ('simple', 'plain'):
            return None
        if not clear_cut(p, c) or not C.valid(c, p):
            return None
        self.want(p, c)
        cs.append(c)
        if last in ('scollect', 'icollect') and rng.random() < 0.7:
            q = derived(p, c)
            if last == 'scollect':
                if not resolve(q)[0][0]:
                    return None
                c = C24.options(rng, C.gen_cmd(rng, rng.choice(C.READS_SPREAD), q, tag=tag + 'v'), q)
                self.want(q, c)
                cs.append(c)
            else:
                if rng.random() < 0.4:
                    c = C.gen_cmd(rng, 'iview', q, tag=tag + 'w', window=rng.random() < 0.3)
                    if not C.windows_of(c, C._have(q)):
                        return None
                    self.want(q, c)
                    cs.append(c)
                    q = derived(q, c)
                if rng.random() < 0.8:
                    c = C.gen_cmd(rng, rng.choice(['isample', 'iangle']), q, tag=tag + 'x', window=rng.random() < 0.3)
                    if not C.selected(c, C._have(q)):
                        return None
                    self.want(q, c)
                    cs.append(c)
        # what one command writes is not in the way of another
        seen = [p0['base']]
        for c in cs:
            if c['out'] == c.get('base'):
                continue
            o = os.path.normpath(c['out'] + 'x')[:-1]
            if any(o.startswith(os.path.normpath(s + 'x')[:-1]) or os.path.normpath(s + 'x')[:-1].startswith(o)
                   for s in seen):
                return None
            seen.append(c['out'])
        return p0, cs

    # -- expectations ------------------------------------------------------------------------
    def want(self, p, c):
        """Raises Ambiguous where the result is not determined."""
        k = c['kind']
        if k == 'scollect':
            return C10.model(p, c, C.frames_of(p))
        if k in C.CONTACT:
            return C23.model(p, c, C.frames_of(p))
        if k == 'sample':
            return C17.rows_of_sample(p, c, C.frames_of(p))
        if k == 'icollect':
            return resolve(derived(p, c))
        if k in C.READS_SPREAD:
            return C24.model(p, [c])
        if k == 'iview':
            got = resolve(derived(p, c))
            if any(len(ys) < 4 for _, ys in got.values()):
                raise rm.Ambiguous('no layers in common')
            return got
        if k in ('isample', 'iangle'):
            return self.iface_rows(p, c)

    def iface_rows(self, p, c):
        pts, out = resolve(p), []
        dt = c.get('dt', 1.0)
        for i, n in enumerate(C.selected(c, C._have(p))):
            xs, ys = pts[n]

            def value(points):
                (x, y), = points
                if c['kind'] == 'isample':
                    return [rm.area(x, y) if c['var'] == 'area' else rm.length(x, y)]
                row = []
                if c.get('height') is not None:
                    l, q = rm.angle_at(x, y, c['height'])
                    row += [0.5 * (l + q), l, q]
                if c.get('fit'):
                    row.append(rm.angle_fit(x, y))
                return row
            if c.get('height') is not None:
                far = sorted(abs(y - ys[0] - c['height']) for y in ys[:len(ys) // 2])
                if len(far) > 1 and far[1] - far[0] < 1e-2 or ys[:len(ys) // 2][min(range(len(ys) // 2), key=lambda q: abs(
                        ys[q] - ys[0] - c['height']))] == ys[0]:
                    raise rm.Ambiguous('between two heights')
            try:
                at, tol = wobbly([(xs, ys)], value, 0.0006)
            except (ZeroDivisionError, ValueError, FloatingPointError):
                raise rm.Ambiguous('no angle')
            if not np.all(np.isfinite(at)) or np.any(tol > 1 + 0.02 * np.abs(at)):
                raise rm.Ambiguous('ill-conditioned')
            out.append(([i * dt] + list(at), [0.0011] + list(tol)))
        return out

    # -- execution ------------------------------------------------------------------------------
    def execute(self, sc):
        env = Env(dict(sc, worlds=[sc['before']] + sc['worlds'][1:]) if 'before' in sc else sc)
        cs = sc['cmds']
        order = sc.get('order') or list(range(len(cs)))
        mode = sc['mode']
        ops, last = [], {}
        if mode == 'seq':
            for j in order:
                c = cs[j]
                for fs in c.get('attempts', ()) if c['out'] != c.get('base') else ():
                    d = strip(c)
                    d['faults'] = [f for f in fs if f]
                    env.cmd(d)
                r = env.cmd(c)
                ops.append(r.ops)
                if r.exit != 0:
                    fail('fails', 'step %d, %s, ends with status %r:\n%s' % (j, c['kind'], r.exit, (r.tb or r.out + r.err)[-1200:]))
                last[j] = r.out
        elif mode == 'session':
            twice = 'before' in sc
            todo = [cs[j] for j in order]
            argvs = [C.argv(c) for c in (cs if twice else []) + todo]
            for c in todo:
                sim.ST.cmds[c['kind']] += 1
            body = session(argvs)
            k0 = len(argvs) - len(todo)

            def wrapped(actor):
                def on_mark(k):
                    actor.pending = False
                    if twice and k == k0:
                        for path, data in W.files_of(sc['worlds'][0]).items():
                            env.put(path, data)
                actor.on_mark = on_mark
                codes = body(actor)
                ends = [m['out'] for m in actor.marks[1:]] + [actor.stdout.tell()]
                text = actor.stdout.getvalue()
                return codes, [text[m['out']:e] for m, e in zip(actor.marks, ends)]
            r = env.run(wrapped, faults=sc.get('faults') or ())[0]
            if not isinstance(r.result, tuple):
                fail('fails', 'the process ends with status %r:\n%s' % (r.exit, (r.tb or r.out + r.err)[-1200:]))
            codes, said = r.result
            for j, e, s in zip(order, codes[k0:], said[k0:]):
                if e != 0:
                    fail('fails', 'step %d, %s, ends with status %r:\n%s' % (j, cs[j]['kind'], e, s[-1200:]))
                last[j] = s
        else:
            p2, cs2 = sc['worlds'][1], sc['other']
            for c in cs + cs2:
                sim.ST.cmds[c['kind']] += 1
            rs = env.run(session2([C.argv(c) for c in cs]), session2([C.argv(c) for c in cs2]),
                         preempt=sc.get('preempt'))
            for who, r, cc in zip(('', 'the other '), rs, (cs, cs2)):
                if not isinstance(r.result, tuple) or any(r.result[0]):
                    fail('fails', '%schain ends with status %r:\n%s' % (who, r.result and r.result[0] or r.exit,
                                                                         (r.tb or r.out + r.err)[-1200:]))
            self.judge(env, p2, cs2, dict(enumerate(rs[1].result[1])))
            last = dict(enumerate(rs[0].result[1]))
        sim.ST.nontrivial.add(hash(sim.canonical(sc)))
        self.judge(env, sc['worlds'][0], cs, last)
        return ops

    def judge(self, env, p, cs, said):
        probe('chains of %d' % len(cs))
        for j, c in enumerate(cs):
            over = any(d['out'] == c['out'] for d in cs[j + 1:])
            if not over:
                self.judge_step(env, p, c, said[j], 'step %d, %s: ' % (j, ' -> '.join(d['kind'] for d in cs[:j + 1])))
            if j + 1 < len(cs):
                p = derived(p, c)

    def judge_step(self, env, p, c, said, what):
        sck = {'worlds': [p], 'cmds': [c], 'links': 0}
        k = c['kind']

        class R:
            out = said
        one = {'average': C09, 'scollect': C10, 'icollect': C11, 'sample': C17, 'ccollect': C23,
               'csample': C23, 'sview': C24, 'sfit': C24}.get(k)
        try:
            if one is not None:
                x = one()
                x.memo = self.memo
                x.judge(env, sck, c, R)
            elif k == 'convert':
                fr = C.frames_of(p)
                for w, n in C.windows_of(c, C._have(p)):
                    o = fname(c['out'], n, C.out_ext(c))
                    b = env.read(o)
                    if b is None:
                        fail('missing', 'output %r was not written' % o)
                    try:
                        got = rm.dec(b, c.get('ftype', 'gmx'))
                    except rm.Bad as e:
                        fail('bad-file', '%r: %s' % (o, e))
                    f = fr[w[0]]
                    m = f['M'] != 0
                    f = dict(f, **{l: np.where(m, f[l], 0.0) for l in rm.FIELDS})
                    bad = rm.same_frame(got, f, c.get('ftype', 'gmx'), p['fmt'], f['origin'], f['spacing'])
                    if bad:
                        fail('values', '%r: %s' % (o, bad))
            elif k == 'iview':
                for n, (xs, ys) in resolve(derived(p, c)).items():
                    o = fname(c['out'], n, C.out_ext(c))
                    b = env.read(o)
                    if b is None:
                        fail('missing', 'output %r was not written' % o)
                    same_rows(rows(b, o), list(zip(xs, ys)), 0.0016, 'points of %r' % o)
            else:
                want = self.iface_rows(p, c)
                b = env.read(c['out'])
                if b is None:
                    fail('missing', 'output %r was not written' % c['out'])
                got = rows(b, c['out'])
                if len(got) != len(want):
                    fail('rows', '%d rows instead of %d in %r' % (len(got), len(want), c['out']))
                for i, (g, (w, t)) in enumerate(zip(got, want)):
                    if len(g) != len(w) or any(not abs(a - b) <= e for a, b, e in zip(g, w, t)):
                        fail('values', 'row %d of %r is %r instead of %r' % (i, c['out'], g, w))
        except sim.Violation as v:
            raise sim.Violation(v.cls, what + v.msg)
        probe('steps of ' + k)

    # -- histories ---------------------------------------------------------------------------------
    def variants(self, rng, sc, ops):
        fixed = any(c['out'] == c.get('base') for c in sc['cmds'])
        n = len(sc['cmds'])
        for _ in range(self.nvar):
            x = copy.deepcopy(sc)
            m = rng.choice(['session', 'session', 'par', 'retry', 'retry', 'again'])
            if m != 'retry' and not fixed and rng.random() < 0.6:
                # parts of the chain once more
                a = rng.randrange(n)
                x['order'] = list(range(n)) + (list(range(a, n)) if rng.random() < 0.5 else
                                               [rng.randrange(n) for _ in range(rng.choice([1, 2, 3]))])
                tail = x['order'][n:]
                if any(tail[i] > tail[i + 1] for i in range(len(tail) - 1)):
                    # once a step was done again so must be those after it
                    x['order'] = list(range(n)) + tail + list(range(min(tail), n))
            if m == 'session':
                x['mode'] = 'session'
                x['faults'] = sim.benign(rng, [o for l in ops for o in l], 3)
                if not fixed and rng.random() < 0.5:
                    q = copy.deepcopy(sc['worlds'][0])
                    q['seed'] += 1
                    if 'drop' in q:
                        if rng.random() < 0.7:
                            W.gen_droplet(rng, q, len(q['numbers']), cross=rng.random() < 0.5, lead=0)
                    elif rng.random() < 0.5:
                        q['shape'] = [rng.randint(3, 8), rng.randint(3, 7)]
                    x['before'] = q
                yield x
                continue
            if m == 'par':
                p2, cs2 = self.chain(rng, 'Z')
                f1 = [os.path.normpath(o) for o in W.files_of(sc['worlds'][0])]
                f2 = [os.path.normpath(o) for o in W.files_of(p2)]
                if set(f1) & set(f2):
                    continue
                x.pop('order', None)
                x.update(mode='par', worlds=sc['worlds'] + [p2], other=cs2)
                top = 2 * sum(len(o) for o in ops) + 200
                x['preempt'] = {str(rng.randrange(1, top)): rng.randrange(8) for _ in range(rng.choice([3, 10, 40, 150]))}
                yield x
                continue
            for c, o in zip(x['cmds'], ops):
                if rng.random() < 0.4:
                    c['faults'] = sim.benign(rng, o, 2)
                if m == 'retry' and c['out'] != c.get('base') and rng.random() < 0.6:
                    c['attempts'] = []
                    for _ in range(rng.choice([1, 1, 2])):
                        f = sim.crash_fault(rng, o) if rng.random() < 0.6 else \
                            sim.err_fault(rng, o, sim.WRITE_OPS + sim.READ_OPS)
                        c['attempts'].append([f] if f else [])
            yield x

    def shrinks(self, sc):
        def fine(x):
            try:
                p = x['worlds'][0]
                for k, c in enumerate(x['cmds']):
                    if c['kind'] in C.READS_FLOW and not (clear_cut(p, c) and C.valid(c, p)):
                        return False
                    self.want(p, c)
                    if k + 1 < len(x['cmds']):
                        p = derived(p, c)
                return True
            except Exception:
                return False
        n = len(sc['cmds'])
        for k in range(1, n):
            if sc['mode'] == 'par':
                break
            x = copy.deepcopy(sc)
            x['cmds'] = x['cmds'][:k]
            if x.get('order'):
                x['order'] = [j for j in x['order'] if j < k]
            yield x
        if sc.get('order'):
            x = copy.deepcopy(sc)
            x.pop('order')
            yield x
        if 'before' in sc:
            x = copy.deepcopy(sc)
            x.pop('before')
            yield x
        for k, c in enumerate(sc['cmds']):
            for j in range(len(c.get('attempts', ()))):
                x = copy.deepcopy(sc)
                x['cmds'][k]['attempts'].pop(j)
                yield x
        for x in generic_shrinks(sc):
            if len(x['cmds']) == n and fine(x):
                yield x


def session2(argvs):
    body = session(argvs)

    def wrapped(actor):
        actor.on_mark = None
        codes = body(actor)
        ends = [m['out'] for m in actor.marks[1:]] + [actor.stdout.tell()]
        text = actor.stdout.getvalue()
        return codes, [text[m['out']:e] for m, e in zip(actor.marks, ends)]
    return wrapped
