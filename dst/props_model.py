"""Properties of results, judged against the reference model through histories."""

import copy
import os
import random
import re

import cmds as C
import procs
import refmodel as rm
import sim
import world as W
from batch import Prop, generic_shrinks
from props_fault import bufsize
from sim import Env, fail, probe
from world import fname


def session(argvs):
    """A process which runs several command lines one after the other, as a
    program using the package would.  Result: the exit status of each."""
    argvs = [[str(x) for x in a] for a in argvs]

    def body(actor):
        prog = actor.modules['strata.strata'].strata
        codes = []
        actor.marks = []
        for a in argvs:
            actor.marks.append({'op': actor.nops, 'out': actor.stdout.tell(), 'err': actor.stderr.tell(),
                                'now': actor.world.now, 'screen': len(actor.screen)})
            if actor.on_mark:
                actor.on_mark(len(actor.marks) - 1)
            try:
                prog.main(args=list(a), prog_name='strata', standalone_mode=True)
                codes.append(0)
            except SystemExit as e:
                codes.append(e.code if isinstance(e.code, int) else (0 if e.code is None else 1))
            except Exception as e:
                codes.append('%s: %s' % (type(e).__name__, e))
            except KeyboardInterrupt:
                codes.append(130)
        return codes
    return body


def strip(c):
    c = copy.deepcopy(c)
    for k in ('faults', 'power', 'stalls'):
        c.pop(k, None)
    return c


class ModelProp(Prop):
    """Scenarios: worlds[0] is the input set, cmds[-1] the judged command.

    mode 'seq':     the commands run one after the other, each its own process
    mode 'session': all in one process
    mode 'par':     all at the same time, interleaved
    retry:          the judged command is first killed or failing, then run again"""
    kinds = ()
    nmin, nmax = 1, 5
    fmts = None
    nvar = 5
    prekinds = None

    def job(self, rng):
        return C.gen_job(rng, self.kinds, self.nmin, self.nmax, fmts=self.fmts)

    def gen(self, rng):
        p, c = self.job(rng)
        sc = {'worlds': [p], 'cmds': [c], 'bufsize': bufsize(rng), 't0': 1.7e9 + rng.randrange(10**8),
              'mode': 'seq'}
        return sc

    def in_place(self, c):
        return c.get('out') is not None and c.get('out') == c.get('base')

    def pre(self, rng, sc):
        """Further commands on the same inputs with other outputs."""
        p = sc['worlds'][0]
        kinds = C.READS_IFACE if p.get('iface') else C.READS_SPREAD if p.get('spread') else C.READS_FLOW
        out = []
        for j in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice(kinds)
            if rng.random() < 0.5:
                k = sc['cmds'][-1]['kind']
            if k in ('icollect', 'scollect') and 'drop' not in p:
                k = 'average'
            c = C.gen_cmd(rng, k, p, tag='pre%d' % j)
            if not C.valid(c, p):
                continue
            if rng.random() < 0.3:
                # other surroundings than the judged command
                c['recenter'] = rng.choice(['com', 'zero']) if k == 'icollect' else c.get('recenter')
                if c['recenter'] is None:
                    c.pop('recenter')
            out.append(c)
        return out

    def variants(self, rng, sc, info):
        ops = info
        for _ in range(self.nvar if len(sc['worlds'][0].get('numbers', ())) <= 40 else 1):
            x = copy.deepcopy(sc)
            c = x['cmds'][-1]
            x['mode'] = m = rng.choice(['seq', 'session', 'session', 'par', 'retry', 'benign'])
            if m in ('seq', 'session', 'par'):
                x['cmds'][:-1] = self.pre(rng, sc)
                if m == 'session' and rng.random() < 0.6:
                    # the inputs had other contents before
                    x['before'] = self.before(rng, sc)
                    if rng.random() < 0.5:
                        x['cmds'].insert(rng.randrange(len(x['cmds'])), strip(c))
                if m == 'par':
                    n = rng.choice([3, 10, 40, 150])
                    top = 2 * len(ops) * len(x['cmds']) + 10
                    x['preempt'] = {str(rng.randrange(1, top)): rng.randrange(8) for _ in range(n)}
                else:
                    for d in x['cmds'][:-1]:
                        if rng.random() < 0.5:
                            r = rng.random()
                            kind = 'interrupt' if r < 0.4 else 'crash' if r < 0.6 and m == 'seq' else rng.choice(
                                ['EIO', 'ENOSPC', 'EACCES'])
                            f = {'op': rng.randrange(1, 40), 'kind': kind}
                            d['faults'] = [f]
                c['faults'] = sim.benign(rng, ops, 2) if m == 'seq' else []
            elif m == 'retry':
                if self.in_place(c):
                    continue
                f = sim.crash_fault(rng, ops) if rng.random() < 0.6 else sim.err_fault(rng, ops, sim.WRITE_OPS)
                x['retry'] = [f] if f else []
                if rng.random() < 0.3:
                    x['retry_power'] = rng.randrange(10**6)
            else:
                x['mode'] = 'seq'
                x['bufsize'] = rng.choice([16, 61, 512, 65536, 8192])
                c['faults'] = [f for _ in range(4) for f in sim.benign(rng, ops, 3)]
            yield x

    def before(self, rng, sc):
        """Other inputs under the names of these."""
        p = copy.deepcopy(sc['worlds'][0])
        p['seed'] += 1
        if 'drop' in p:
            if rng.random() < 0.7:
                W.gen_droplet(rng, p, len(p['numbers']), cross=True)
        elif 'shape' in p and rng.random() < 0.5:
            p['shape'] = [rng.randint(2, 7), rng.randint(2, 5)]
            p['fmt'] = rng.choice(['gmx', 'gmx_perm', 'gmx2', 'simple', 'plain'])
        return p

    def execute(self, sc):
        c = sc['cmds'][-1]
        pre = sc['cmds'][:-1]
        env = Env(dict(sc, worlds=[sc['before']]) if 'before' in sc else sc)
        mode = sc['mode']
        if mode == 'session':
            fl, base = [], 0
            argvs = [C.argv(d) for d in sc['cmds']]
            r = self.run_session(env, sc, argvs)
            r.exit = r.result[-1] if r.result else r.exit
        elif mode == 'par':
            for d in sc['cmds']:
                sim.ST.cmds[d['kind']] += 1
            rs = env.run(*[procs.cli(C.argv(d)) for d in sc['cmds']], preempt=sc.get('preempt'),
                         stalls=sc.get('stalls'))
            r = rs[-1]
        else:
            for d in pre:
                env.cmd(d)
            if 'retry' in sc:
                d = strip(c)
                d['faults'] = sc['retry']
                if 'retry_power' in sc:
                    d['power'] = sc['retry_power']
                env.cmd(d)
            r = env.cmd(c)
        if r.exit != 0:
            fail('fails', 'the command ends with status %r:\n%s' % (r.exit, (r.tb or r.out + r.err)[-1500:]))
        self.judge(env, sc, c, r)
        return r.ops

    def run_session(self, env, sc, argvs):
        """Faults of each command count from its start."""
        todo = {k: [f for f in d.get('faults') or () if f] for k, d in enumerate(sc['cmds'])}
        body = session(argvs)
        env.fs.mark_durable()
        for d in sc['cmds']:
            sim.ST.cmds[d['kind']] += 1

        def wrapped(actor):
            def on_mark(k):
                w = actor.world
                actor.pending = False
                w.no_faults(actor)
                if 'before' in sc and k == len(sc['cmds']) - 1:
                    for path, data in W.files_of(sc['worlds'][0]).items():
                        env.put(path, data)
                for f in todo.get(k, ()):
                    w.at_op(dict(f, actor=actor.idx, op=actor.nops + f['op']))
            actor.on_mark = on_mark
            return body(actor)
        return env.run(wrapped)[0]

    def judge(self, env, sc, c, r):
        raise NotImplementedError

    # helpers
    def frames(self, sc):
        key = ('frames', sim.canonical(sc['worlds'][0]))
        if key not in self.memo:
            self.memo[key] = C.frames_of(sc['worlds'][0])
        return self.memo[key]

    def have(self, sc):
        return C._have(sc['worlds'][0])

    def expect(self, sc, c, fn):
        key = ('want', sim.canonical([sc['worlds'], strip(c)]))
        if key not in self.memo:
            self.memo[key] = fn()
        return self.memo[key]

    def outfile(self, env, path):
        b = env.read(path)
        if b is None:
            fail('missing', 'output %r was not written' % path)
        return b

    def only(self, env, c, outs):
        """No further outputs after the last one."""
        if c['kind'] not in C.FRAME_OUT or self.in_place(c):
            return
        pre = os.path.normpath(c['out'] + 'x')[:-1]
        for p in env.files():
            if p.startswith(pre) and p not in [os.path.normpath(o) for o in outs]:
                rest = p[len(pre):]
                if rest[:1].isdigit() and rest[:5].isdigit():
                    fail('extra', 'unexpected output %r' % p)


def rows(b, what):
    try:
        return rm.rows_of(b, True)
    except rm.Bad as e:
        fail('bad-file', 'output %r: %s' % (what, e))


def same_rows(got, want, tol, what, time=False):
    if len(got) != len(want):
        fail('rows', '%s: %d rows instead of %d' % (what, len(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        if len(g) != len(w) or any(not abs(a - b) <= tol + (0 if time and not j else 2e-5 * abs(b))
                                    for j, (a, b) in enumerate(zip(g, w))):
            fail('values', '%s: row %d is %r instead of %r' % (what, i, g, [round(float(v), 5) for v in w]))


# ------------------------------------------------------------------------------------------
class C09(ModelProp):
    id = 'C09'
    kinds = ('average',)
    nmin, nmax = 1, 7
    jobs = {'quick': 700, 'thorough': 20000}
    nvar = 6
    rule = ('average on 1-7 random maps (all formats, empty bins, mass without atoms, rolling or not, also in place) after other commands in the same '
            'process (completed, failed, interrupted), beside others running at the same time, after killed attempts, and with short and delayed I/O; every '
            'written map is compared by bin with the mean computed by the reference model. Non-trivial: a fault, a second command or a context switch.')

    def job(self, rng):
        p, c = C.gen_job(rng, self.kinds, *((100, 120) if rng.random() < 0.01 else (self.nmin, self.nmax)))
        W.gen_empty(rng, p)
        if rng.random() < 0.15:
            c['out'] = c['base']
        if len(p['numbers']) > 3 and rng.random() < 0.3:
            c['group'] = rng.randint(4, len(p['numbers']))
        return p, c

    def judge(self, env, sc, c, r):
        fr = self.frames(sc)
        p = sc['worlds'][0]
        wins = C.windows_of(c, self.have(sc))
        want = self.expect(sc, c, lambda: [rm.average([fr[n] for n in w]) for w, _ in wins])
        outs = [fname(c['out'], k, C.out_ext(c)) for _, k in wins]
        for (w, k), a, o in zip(wins, want, outs):
            try:
                got = rm.dec_gmx(self.outfile(env, o))
            except rm.Bad as e:
                fail('bad-file', 'output %r: %s' % (o, e))
            fr0 = fr[w[0]]
            grid = (None, None) if p['fmt'] in ('simple', 'plain') else (fr0['origin'], fr0['spacing'])
            bad = rm.same_frame(got, a, 'gmx', p['fmt'], *grid)
            if bad:
                fail('values', 'the mean of the frames %r in %r: %s' % (w, o, bad))
        self.only(env, c, outs)


# ------------------------------------------------------------------------------------------
def gen_average_opts(rng, p, c):
    """Options of average which change the grid."""
    nx, ny = p['shape']
    (x0, y0), (dx, dy) = p['origin'], p['spacing']
    what = set(rng.sample(['recenter', 'combine', 'supersample', 'xlim', 'ylim'], rng.choice([1, 1, 2, 2, 3])))
    if rng.random() < 0.4:
        what.add('recenter')

    def lims(o, d, n):
        a = rng.randint(-1, n - 2)
        b = rng.randint(a + 1, n)
        f = lambda k: round(o + d * (k + 1.0 + rng.uniform(-0.35, 0.35)), 4)
        z = -o / d                      # where zero is, in bins
        if 1 <= z < n and abs(z % 1 - 0.5) > 0.1 and rng.random() < 0.7:
            # zero is a limit like others
            return [0.0, None] if rng.random() < 0.5 else [None, 0.0]
        return [f(a) if rng.random() < 0.7 else None, f(b) if rng.random() < 0.7 else None]
    if 'recenter' in what:
        c['recenter'] = rng.choice(['left', 'right', 'com'])
        if c['recenter'] != 'com' or rng.random() < 0.2:
            c['co'] = rng.choice([5.0, 5.0, 12.0, 0.4, 0.0])
            c['cr'] = C.good_radius(rng, p['spacing'])
            c['cb'] = rng.choice([1, 1, 2, 3])
            if rng.random() < 0.3:
                del c['co']
            if rng.random() < 0.2 and rm.radius_ok(p['spacing'], 1.0) and max(p['spacing']) < 1:
                del c['cr']
            if rng.random() < 0.6:
                c['floor'] = round(y0 + dy * (rng.choice([0, 0, 1]) + rng.uniform(0.1, 0.4)), 4)
    if 'combine' in what:
        c['combine'] = [rng.randint(1, 3), rng.randint(1, 3)]
    if 'supersample' in what:
        c['supersample'] = rng.choice([1, 2, 2, 3])
    if 'xlim' in what:
        c['xlim'] = lims(x0, dx, nx)
    if 'ylim' in what:
        c['ylim'] = lims(y0, dy, ny)


class C22(ModelProp):
    id = 'C22'
    kinds = ('average',)
    nmin, nmax = 1, 6
    jobs = {'quick': 600, 'thorough': 20000}
    nvar = 5
    rule = ('average with --recenter, --combine, --supersample, --xlim and --ylim and their combinations on 1-6 maps, random ones and moving droplets, in all '
            'formats and from any origin; after, beside and again after other runs as in C09. Maps and grids are compared with the reference model. '
            'Non-trivial: a fault, a second command or a context switch.')

    def job(self, rng):
        for _ in range(60):
            if rng.random() < 0.6:
                p = W.gen_flow(rng, 'droplet', self.nmin, self.nmax)
                W.gen_droplet(rng, p, len(p['numbers']), nx=rng.randint(6, 14), ny=rng.randint(3, 6),
                              cross=rng.random() < 0.2, lead=0)
                if rng.random() < 0.5:
                    p['origin'] = [round(rng.uniform(-3, 3), 2), round(rng.uniform(-2, 2), 2)]
            else:
                p = W.gen_flow(rng, 'random', self.nmin, self.nmax)
            c = C.gen_cmd(rng, 'average', p)
            gen_average_opts(rng, p, c)
            fr = C.frames_of(p)
            try:
                self.model(p, c, fr)
            except rm.Ambiguous:
                continue
            return p, c
        return C.gen_job(rng, self.kinds, self.nmin, self.nmax)

    @staticmethod
    def model(p, c, fr):
        return [rm.average_of(c, [fr[n] for n in w]) for w, _ in C.windows_of(c, C._have(p))]

    def judge(self, env, sc, c, r):
        p = sc['worlds'][0]
        fr = self.frames(sc)
        wins = C.windows_of(c, self.have(sc))
        want = self.expect(sc, c, lambda: self.model(p, c, fr))
        outs = [fname(c['out'], k, C.out_ext(c)) for _, k in wins]
        for (w, k), (a, origin, sp, offs), o in zip(wins, want, outs):
            try:
                got = rm.dec_gmx(self.outfile(env, o))
            except rm.Bad as e:
                fail('bad-file', 'output %r: %s' % (o, e))
            bad = rm.same_frame(got, a, 'gmx', p['fmt'])
            if not bad and not (rm.close(got['spacing'], sp, atol=2e-5) or min(p['shape']) < 2):
                bad = 'spacing %r instead of %r' % (got['spacing'], sp)
            if not bad:
                for ax in (0, 1):
                    d = got['origin'][ax] - origin[ax]
                    if not any(abs(d - q) < 1e-3 for q in offs[ax]):
                        bad = 'origin %r instead of %r (along %s up to one of %r)' % (
                            got['origin'], origin, 'xy'[ax], offs[ax])
            if bad:
                fail('values', 'the mean of the frames %r in %r: %s' % (w, o, bad))
        for k in ('recenter', 'combine', 'supersample', 'xlim', 'ylim'):
            if c.get(k) and outs:
                probe('average with ' + k)
        if c.get('recenter') and any(len(w) > 1 for w, _ in wins):
            probe('recentred groups')
        self.only(env, c, outs)


# ------------------------------------------------------------------------------------------
class C10(ModelProp):
    id = 'C10'
    kinds = ('scollect',)
    nmin, nmax = 1, 8
    jobs = {'quick': 900, 'thorough': 30000}
    nvar = 5
    rule = ('spreading collect on 1-8 frames of droplets which spread and drift through the periodic boundary, with lead-in frames without contact, vapour '
            'and lone filled cells, floors above the bottom; after, beside and again after other runs as in C09. Rows and impact header are compared with the '
            'reference model. Non-trivial: a fault, a second command or a context switch.')

    def job(self, rng):
        for _ in range(50):
            long = rng.random() < 0.25
            huge = long and rng.random() < 0.04
            p = W.gen_flow(rng, 'droplet', *((100, 125) if huge else (10, 30) if long else (self.nmin, self.nmax)))
            ground = rng.choice([0, 0, 0, 1])
            W.gen_droplet(rng, p, len(p['numbers']), ground=ground, lead=rng.choice([0, 0, 1, 2, 3]),
                          dry=rng.choice([0.0, 0.0, 0.2, 0.4]), **(dict(
                              cross=True, march=True, nx=rng.randint(10, 14), ny=4) if long else {}))
            if rng.random() < 0.4:
                p['origin'] = [rng.choice([0.0, 1.0]) * round(rng.uniform(-3, 3), 2), round(rng.uniform(-2, 2), 2)]
            c = C.gen_cmd(rng, 'scollect', p)
            y0 = p['origin'][1] + p['spacing'][1] * 0.5
            f = y0 + p['spacing'][1] * (ground - 0.5)
            c['floor'] = round(f, 4)
            if ground == 0 and p['origin'][1] == 0 and rng.random() < 0.7:
                c['floor'] = 0.0
            fr = C.frames_of(p)
            sel = C.selected(c, C._have(p))
            if not sel or C.floor_layer(fr[sel[0]], c['floor']) != ground or not C.valid(c, p):
                continue
            try:
                self.model(p, c, fr)
            except rm.Ambiguous:
                continue
            return p, c
        return C.gen_job(rng, ('scollect',), 1, 1)

    @staticmethod
    def model(p, c, fr):
        sel = C.selected(c, C._have(p))
        fs = [fr[n] for n in sel]
        if not fs:
            return [], None, []
        floor = C.floor_layer(fs[0], float(c['floor']))
        rows, imp = rm.spreading(fs, floor, c.get('co'), c['cr'], c.get('cb', 1), c.get('dt', 1.0), c.get('t0', 0.0))
        return rows, imp, sel

    def judge(self, env, sc, c, r):
        p = sc['worlds'][0]
        want, imp, sel = self.expect(sc, c, lambda: self.model(p, c, self.frames(sc)))
        b = self.outfile(env, c['out'])
        same_rows(rows(b, c['out']), want, 0.0011, 'rows of %r' % c['out'], time=True)
        if len(want) > 1 and any(abs(want[k][2] - want[k - 1][2]) > 0 for k in range(1, len(want))):
            probe('moving edges')
        nx, dx = p['shape'][0], p['spacing'][0]
        if any(w[2] < 0 or w[3] > nx * dx for w in want):
            probe('rows across the boundary')
        if any(w[2] < -nx * dx or w[3] > 2 * nx * dx for w in want):
            probe('second crossings')
        lines = b.decode('latin-1').split('\n')
        heads = [k for k, l in enumerate(lines) if l.startswith('#') and 'mpact' in l and 'of a droplet' not in l]
        data = [k for k, l in enumerate(lines) if l.strip() and not l.startswith('#')]
        if imp is None:
            if heads:
                fail('impact', 'an impact is announced without contact: %r' % lines[heads[0]])
            return
        path = os.path.basename(fname(c['base'], sel[imp], C.in_ext(c)))
        named = [k for k, l in enumerate(lines) if l.startswith('#') and l.rstrip("'").endswith("'" + path)]
        if len(heads) != 1 or len(named) != 1 or heads[0] > data[0] or named[0] > data[0]:
            fail('impact', 'the impact header naming %r is not there once before the first row:\n%s' % (
                path, b.decode('latin-1')))
        t = '%.3f' % (imp * c.get('dt', 1.0))
        if not any(t in l.split() for l in lines[heads[0]:data[0]] if l.startswith('#')):
            fail('impact', 'the impact header does not give the time %s:\n%s' % (t, b.decode('latin-1')))


# ------------------------------------------------------------------------------------------
class C11(ModelProp):
    id = 'C11'
    kinds = ('icollect',)
    nmin, nmax = 1, 6
    jobs = {'quick': 900, 'thorough': 30000}
    nvar = 5
    rule = ('interface collect on 1-6 frames of droplets with changing numbers of layers, which spread and drift through the periodic boundary, all ways of '
            'recentering; after, beside and again after other runs as in C09. Outlines are compared with the reference model. Non-trivial: a '
            'fault, a second command or a context switch.')

    @staticmethod
    def telling(p, c):
        """Whether layers are across the boundary differently often while the
        range of layers changes."""
        nx = p['shape'][0]
        sel = C.selected(c, C._have(p))
        prev, differ = None, False
        for n, ls in zip(p['numbers'], p['drop']):
            if n not in sel:
                continue
            now = [j for j, l in enumerate(ls) if l]
            if differ and prev and now and now[0] != prev[0]:
                return True
            differ = len({(l[0] // nx, l[1] // nx) for l in ls if l}) > 1
            prev = now
        return False

    def job(self, rng):
        picky = rng.random() < 0.5
        for t in range(300):
            picky = picky and t < 150
            long = picky or rng.random() < 0.3
            p = W.gen_flow(rng, 'droplet', *((5, 14) if long else (self.nmin, self.nmax)))
            W.gen_droplet(rng, p, len(p['numbers']), ground=rng.choice([0, 0, 1]), lead=0,
                          cross=rng.random() < 0.75, ny=rng.randint(4, 9), nx=rng.randint(12, 18),
                          lean=rng.random() < 0.5)
            top, bot = rng.choice([0.0, 0.4, 0.7]), rng.choice([0.0, 0.0, 0.4])
            for k, ls in enumerate(p['drop']):
                # layers come and go at the top and at the bottom
                for q, order in ((top, range(len(ls) - 1, -1, -1)), (bot, range(len(ls)))):
                    for j in order:
                        if ls[j] is None:
                            continue
                        if sum(l is not None for l in ls) > 2 and rng.random() < q:
                            ls[j] = None
                        else:
                            break
            have = [j for j in range(p['shape'][1]) if all(ls[j] for ls in p['drop'])]
            if len(have) > 2 and rng.random() < 0.3:
                # a window of as many layers, moving up and down
                m = rng.randint(2, len(have) - 1)
                s = rng.randint(0, len(have) - m)
                for ls in p['drop']:
                    keep = have[s:s + m]
                    for j in range(len(ls)):
                        if j not in keep:
                            ls[j] = None
                    s = max(0, min(len(have) - m, s + rng.choice([-1, 0, 0, 1])))
            if rng.random() < 0.4:
                p['origin'] = [rng.choice([0.0, 1.0]) * round(rng.uniform(-3, 3), 2), round(rng.uniform(-3, 2), 2)]
            c = C.gen_cmd(rng, 'icollect', p)
            if rng.random() < 0.5:
                c['recenter'] = 'off'
            if picky and not self.telling(p, c):
                continue
            if rng.random() < 0.3:
                y0, dy, ny = p['origin'][1], p['spacing'][1], p['shape'][1]
                a = rng.randint(-1, ny - 2)
                b = rng.randint(a + 2, ny)
                f = lambda k: round(y0 + dy * (k + 1.0 + rng.uniform(-0.35, 0.35)), 4)
                c['ylim'] = [f(a) if rng.random() < 0.7 else None, f(b) if rng.random() < 0.7 else None]
                z = -y0 / dy
                if 1 <= z < ny - 1 and abs(z % 1 - 0.5) > 0.1 and rng.random() < 0.7:
                    c['ylim'] = [0.0, None] if rng.random() < 0.5 else [None, 0.0]
            if not C.selected(c, C._have(p)) or not C.valid(c, p):
                continue
            return p, c
        return C.gen_job(rng, ('icollect',), 1, 3)

    def judge(self, env, sc, c, r):
        fr = self.frames(sc)
        sel = C.selected(c, self.have(sc))
        rec = c.get('recenter', 'zero')
        want = self.expect(sc, c, lambda: rm.interface([fr[n] for n in sel], c.get('co'), c['cr'], c.get('cb', 1),
                                                       None if rec == 'off' else rec, c.get('ylim')))
        outs = [fname(c['out'], n, '.xvg') for n in sel]
        p = sc['worlds'][0]
        box = p['shape'][0] * p['spacing'][0]
        for o, (xs, ys) in zip(outs, want):
            if c.get('ylim'):
                probe('outlines between heights')
            if rec == 'off' and (min(xs) < 0 or max(xs) > box):
                probe('outlines across the boundary')
            same_rows(rows(self.outfile(env, o), o), list(zip(xs, ys)), 0.0011, 'points of %r' % o)
        self.only(env, c, outs)


# ------------------------------------------------------------------------------------------
class C17(ModelProp):
    id = 'C17'
    kinds = ('sample', 'sample', 'isample', 'iangle', 'iview')
    nmin, nmax = 1, 6
    jobs = {'quick': 800, 'thorough': 25000}
    nvar = 5
    rule = ('sample (labels, mean or sum, cut-off, limits), interface sample, interface angle and interface view with averaging on 1-6 random inputs; after, '
            'beside and again after other runs as in C09. Every row is compared with the value computed by the reference model. Non-trivial: a fault, a '
            'second command or a context switch.')

    def job(self, rng):
        p, c = C.gen_job(rng, self.kinds, *((100, 120) if rng.random() < 0.01 else (self.nmin, self.nmax)))
        if c['kind'] == 'sample' and rng.random() < 0.35:
            x, y = rm.coords(next(iter(C.frames_of(p).values())))
            for n, v in (('xlim', x), ('ylim', y)):
                d = (v[1] - v[0]) if len(v) > 1 else 1.0
                i, j = sorted([rng.randrange(len(v)), rng.randrange(len(v))])
                lo, hi = round(float(v[i] - 0.4 * d), 3), round(float(v[j] + 0.4 * d), 3)
                z = -v[0] / d
                if 0 < z < len(v) - 1 and min(z % 1, 1 - z % 1) > 0.1 and rng.random() < 0.7:
                    lo, hi = (0.0, hi) if hi > v[0] + d * (int(z) + 1) else (lo, 0.0)
                    if lo == 0.0 and rng.random() < 0.7:
                        hi = None
                c[n] = [rng.choice([None, lo]), rng.choice([None, hi])]
        if c['kind'] == 'sample' and rng.random() < 0.4:
            # quantities which need the bins in their places
            q, d = copy.deepcopy(p), copy.deepcopy(c)
            q['shape'] = [rng.randint(3, 6), rng.randint(3, 6)]
            q['holes'] = rng.choice([0, 0, 0.1])
            q.pop('traces', None)
            for l in rng.sample(['visc_diss', 'slip_length'], rng.choice([1, 2])):
                d['labels'].insert(rng.randint(0, len(d['labels'])), l)
            if rng.random() < 0.4:
                d['fl'] = rng.choice([0.5, -1.0, 2.25])
            try:
                self.rows_of_sample(q, d, C.frames_of(q))
            except rm.Ambiguous:
                return p, c
            return q, d
        return p, c

    @staticmethod
    def rows_of_sample(p, c, fr):
        dt = c.get('dt', 1.0)
        out = []
        for i, n in enumerate(C.selected(c, C._have(p))):
            row = [(i * dt, 't')]
            for l in c['labels']:
                v, s = rm.sample(fr[n], l, c.get('sum', False), c.get('cl'), c.get('co'),
                                 [c.get('xlim') or (None, None), c.get('ylim') or (None, None)], c.get('fl', 0.0))
                row += [(v, l)] if s is None else [(v, l), (s, l)]
            out.append(row)
        return out

    def judge(self, env, sc, c, r):
        p = sc['worlds'][0]
        dt = c.get('dt', 1.0)
        if c['kind'] == 'sample':
            fr = self.frames(sc)
            w = self.expect(sc, c, lambda: self.rows_of_sample(p, c, fr))
            got = rows(self.outfile(env, c['out']), c['out'])
            if len(got) != len(w):
                fail('rows', '%d rows instead of %d' % (len(got), len(w)))
            for i, (g, x) in enumerate(zip(got, w)):
                if len(g) != len(x) or not abs(g[0] - x[0][0]) <= 0.0011 or any(
                        not near(a, b, {'visc_diss': 1e-6, 'slip_length': 2e-3}.get(l, 1e-4 if c.get('sum') else 2e-5)) for a, (b, l) in zip(g, x)):
                    fail('values', 'row %d is %r instead of %r' % (i, g, [(l, v) for v, l in x]))
            for l in set(c['labels']) & {'visc_diss', 'slip_length'}:
                probe('samples of ' + l)
            return
        pts = W.interface_points
        num = {n: k for k, n in enumerate(p['numbers'])}
        P = lambda n: pts(p, num[n])
        if c['kind'] == 'iview':
            outs = []
            for w, k in C.windows_of(c, self.have(sc)):
                o = fname(c['out'], k, C.out_ext(c))
                outs.append(o)
                xs, ys = rm.iface_mean([P(n) for n in w])
                same_rows(rows(self.outfile(env, o), o), list(zip(xs, ys)), 0.0011, 'mean of %r in %r' % (w, o))
            self.only(env, c, outs)
            return
        sel = C.selected(c, self.have(sc))
        want = []
        for i, n in enumerate(sel):
            xs, ys = P(n)
            if c['kind'] == 'isample':
                want.append([i * dt, rm.area(xs, ys) if c['var'] == 'area' else rm.length(xs, ys)])
            else:
                row = [i * dt]
                if c.get('height') is not None:
                    l, q = rm.angle_at(xs, ys, c['height'])
                    row += [0.5 * (l + q), l, q]
                if c.get('fit'):
                    row.append(rm.angle_fit(xs, ys))
                want.append(row)
        same_rows(rows(self.outfile(env, c['out']), c['out']), want, 0.0011, 'rows of %r' % c['out'], time=True)


class C23(ModelProp):
    id = 'C23'
    kinds = C.CONTACT
    nmin, nmax = 1, 7
    jobs = {'quick': 600, 'thorough': 20000}
    nvar = 5
    rule = ('contact-line collect and sample on 1-7 maps of moving droplets and random ones, in all formats and from any origin, with averages (rolling or not), any '
            'extraction area and edge height, floors, fused or recentred; after, beside and again after other runs as in C09. Maps and rows are compared with the '
            'reference model. Non-trivial: a fault, a second command or a context switch.')

    def job(self, rng):
        for _ in range(80):
            if rng.random() < 0.7:
                p = W.gen_flow(rng, 'droplet', self.nmin, self.nmax)
                W.gen_droplet(rng, p, len(p['numbers']), nx=rng.randint(7, 16), ny=rng.randint(3, 7),
                              cross=rng.random() < 0.2, lead=0)
                if rng.random() < 0.5:
                    p['origin'] = [round(rng.uniform(-3, 3), 2), round(rng.uniform(-2, 2), 2)]
            else:
                p = W.gen_flow(rng, 'random', self.nmin, self.nmax)
            if rng.random() < 0.3:
                # the floor at zero is in the map
                p['origin'][1] = round(-p['spacing'][1] * (rng.choice([1, 2]) + rng.uniform(-0.3, 0.3)), 3)
            c = C.gen_cmd(rng, rng.choice(self.kinds), p)
            if 'drop' in p and rng.random() < 0.7:
                c['co'] = 12.0 if p.get('dense') else 5.0
            if not C.selected(c, C._have(p)) or not C.valid(c, p):
                continue
            try:
                self.model(p, c, C.frames_of(p))
            except rm.Ambiguous:
                continue
            return p, c
        return C.gen_job(rng, ('average',), 1, 1)

    @staticmethod
    def model(p, c, fr):
        if p['fmt'] not in ('simple', 'plain'):
            # bins without mass are not in these files
            fr = {n: dict(f, **{l: f[l] * (f['M'] != 0) for l in rm.FIELDS}) for n, f in fr.items()}
        wins = C.windows_of(dict(c, kind='ccollect'), C._have(p))
        if c['kind'] == 'ccollect':
            return [rm.contact_maps([fr[n] for n in w], c) for w, _ in wins]
        g, dt = c.get('group', 1), c.get('dt', 1.0)
        return [[(g // 2 + i * (1 if c.get('rolling') else g)) * dt] +
                [rm.contact_sample([fr[n] for n in w], c, l) for l in c['labels']] for i, (w, _) in enumerate(wins)]

    def judge(self, env, sc, c, r):
        p = sc['worlds'][0]
        want = self.expect(sc, c, lambda: self.model(p, c, self.frames(sc)))
        if c['kind'] == 'csample':
            got = rows(self.outfile(env, c['out']), c['out'])
            if len(got) != len(want):
                fail('rows', '%d rows instead of %d' % (len(got), len(want)))
            for i, (g, w) in enumerate(zip(got, want)):
                if len(g) != len(w) or not abs(g[0] - w[0]) <= 0.0011 or any(not near(a, b) for a, b in zip(g[1:], w[1:])):
                    fail('values', 'row %d is %r instead of %r' % (i, g, w))
            if len(want) > 1 and c.get('group', 1) > 1:
                probe('rows of groups')
            return
        outs = []
        for (w, k), maps in zip(C.windows_of(c, self.have(sc)), want):
            o = fname(c['out'], k, C.out_ext(c))
            outs.append(o)
            try:
                got = rm.dec_gmx(self.outfile(env, o))
            except rm.Bad as e:
                fail('bad-file', 'output %r: %s' % (o, e))
            bad = []
            for m, origin in maps:
                b = rm.same_frame(got, m, 'gmx', p['fmt'])
                if not b and not rm.close(got['spacing'], p['spacing'], atol=2e-5):
                    b = 'spacing %r instead of %r' % (got['spacing'], p['spacing'])
                if not b and not rm.close(got['origin'], origin, atol=1e-3):
                    b = 'origin %r instead of %r' % (got['origin'], origin)
                bad.append(b)
            if all(bad):
                fail('values', 'the contact lines of the frames %r in %r: %s' % (w, o, bad[0]))
            if len(w) > 1:
                probe('maps of groups')
            if len(maps) > 1:
                probe('edges between two columns')
        for k in ('fuse', 'norecenter', 'floor', 'eh'):
            if c.get(k) and outs:
                probe('contact lines with ' + k)
        self.only(env, c, outs)


# ------------------------------------------------------------------------------------------
class C27(ModelProp):
    id = 'C27'
    kinds = ('scollect', 'sample', 'csample', 'isample', 'iangle', 'icollect', 'iview', 'sview', 'sfit')
    nmin, nmax = 1, 6
    jobs = {'quick': 600, 'thorough': 20000}
    nvar = 5
    rule = ('every command which writes rows or outlines, on 1-6 inputs with any options; after, beside and again after other runs as in C09. The comment lines of '
            'the outputs are compared with the inputs and options of the command. Non-trivial: a fault, a second command or a context switch.')

    def job(self, rng):
        for _ in range(100):
            p, c = C.gen_job(rng, self.kinds, self.nmin, self.nmax)
            if c.get('out') is None or c['kind'] == 'average':
                continue
            if c['kind'] in ('isample', 'iangle', 'sample', 'csample', 'scollect') and rng.random() < 0.5:
                c['dt'] = rng.choice(C.DTS)
            if c['kind'] in ('sview', 'sfit'):
                n = len(p['names'])
                p['cols'] = [rng.choice([1, 1, 2]) for _ in range(n)]
                p['graph'] = [rng.random() < 0.3 for _ in range(n)]
                rng.shuffle(c['files'])
                C24.options(rng, c, p)
                if c['kind'] == 'sfit':
                    try:
                        C24.model(p, [c])
                    except rm.Ambiguous:
                        continue
            return p, c
        raise AssertionError('no command')

    def judge(self, env, sc, c, r):
        k, p = c['kind'], sc['worlds'][0]
        here = os.path.normpath(env.abs('.'))
        base = os.path.normpath(os.path.join(here, c['base'])) if 'base' in c else None
        begin, end = c.get('begin', 1), c.get('end')
        head = {}
        if base:
            head = {'ase path': base, 'egin, end': [begin, end]}
        if k in ('scollect', 'sample', 'csample', 'isample', 'iangle'):
            head['elta-t'] = c.get('dt', 1.0)
        if k == 'scollect':
            head['loor'] = c['floor']
        if k in ('scollect', 'icollect'):
            head.update({'ass cut-off': c.get('co'), 'adius cut-off': c.get('cr', 1.0), '# of bins': c.get('cb', 1)})
        if k in ('sample', 'csample'):
            head.update({'data labels': list(c['labels']), 'ut-off label': c.get('cl', None if k == 'sample' else 'M'), 'ut-off:': c.get('co')})
        if k == 'csample':
            head.update({'ver # files': c.get('group', 1), 'olling': bool(c.get('rolling'))})
        if k == 'icollect':
            head['ecenter'] = {'off': None}.get(c['recenter'], c['recenter'])
        if k == 'isample':
            head['ariable'] = c['var']
        if k == 'iangle':
            head['at height'] = c.get('height')
        if k == 'sfit':
            head.update({'it limits': c.get('lims') or [None, None], 'raw limits': c.get('out_lims') or [None, None]})
        if k in ('icollect', 'iview'):
            head.pop('ase path'), head.pop('egin, end')
            if k == 'iview':
                head = {}
            outs = [(fname(c['out'], n, C.out_ext(c)), [fname(c['base'], m, p['ext']) for m in w])
                    for w, n in C.windows_of(c, self.have(sc))]
        elif k in ('sview', 'sfit'):
            at = {n: W.spreading_sets(p, i) for i, n in enumerate(p['names'])}
            outs = [(c['out'], ['%s.%d' % (f, i + 1) for f in c['files'] for i in range(len(at[f]))])]
        else:
            outs = [(c['out'], None)]
        for o, names in outs:
            lines = [l[1:].strip() for l in self.outfile(env, o).decode('utf-8', 'replace').split('\n') if l.startswith('#')]
            for key, want in head.items():
                got = [l for l in lines if key in l and ':' in l]
                if not got:
                    fail('header', 'output %r does not tell the %s:\n%s' % (o, key, '\n'.join(lines)))
                got = got[0].split(': ', 1)[-1]
                if not tells(got, want):
                    fail('header', 'output %r tells %s %r instead of %r' % (o, key, got, want))
            if names is not None:
                if not any(here in [l.split(': ', 1)[-1].strip('\'" ')] for l in lines):
                    fail('header', 'output %r does not tell the working directory' % o)
                got = [l[1:-1] for l in lines if l[:1] == "'" == l[-1:]]
                if k in ('sview', 'sfit'):
                    text = self.outfile(env, o).decode('utf-8', 'replace')
                    said = re.findall(r'^@\s+s(\d+)\s+comment\s+"(.*)"', text, re.M)
                    if said != [(str(i), g) for i, g in enumerate(got)]:
                        fail('header', 'output %r comments its sets as %r and lists %r' % (o, said, got))
                if k == 'sfit':
                    fits = [re.fullmatch(r'(.*) a=(\S+), k=(\S+)', g) for g in got]
                    got = [m.group(1) if m else g for m, g in zip(fits, got)]
                if got != names:
                    fail('header', 'output %r names the inputs %r instead of %r' % (o, got, names))
                if k == 'sfit':
                    par, _ = C24.model(p, [c])
                    for m, n, (a, e) in zip(fits, names, par):
                        if not m or not (near(float(m.group(2)), a) and near(float(m.group(3)), e)):
                            fail('header', 'output %r gives the fit of %r as %r instead of %r' % (o, n, m and m.groups()[1:], (a, e)))
            probe('headers of ' + k)


def tells(text, want):
    """A value or values in a comment line."""
    if isinstance(want, bool):
        return (text.strip().lower() in ('true', 'yes', 'on', '1')) == want
    if want is None:
        return text.strip() in ('None', 'inf', '-inf', '')
    if isinstance(want, list):
        got = text.strip().strip('()[],').split(',')
        return len(got) == len(want) and all(tells(g, w) for g, w in zip(got, want))
    if isinstance(want, str):
        return text.strip().strip('\'"') == want
    try:
        return abs(float(text) - want) < 1e-6 * (1 + abs(want))
    except ValueError:
        return False


class C24(ModelProp):
    id = 'C24'
    kinds = C.READS_SPREAD
    jobs = {'quick': 700, 'thorough': 20000}
    nvar = 5
    rule = ('spreading view and fit on 1-4 files of 1-3 series in columns or as graphs, one to twelve times each, scaled, moved to a common radius, fitted within '
            'limits, from the files themselves or from what spreading view made of them; after, beside and again after other runs as in C09. Series and '
            'parameters are compared with the reference model. Non-trivial: a fault, a second command or a context switch.')

    def job(self, rng):
        for _ in range(100):
            p = W.gen_spreadings(rng, 1, 4)
            n = len(p['names'])
            p['lengths'] = [rng.choice([1, 2, 3, 5, 8, 12]) for _ in range(n)]
            p['cols'] = [rng.choice([1, 1, 2, 3]) for _ in range(n)]
            p['graph'] = [rng.random() < 0.3 for _ in range(n)]
            if rng.random() < 0.3:
                p['back'] = 1.0
            p['zeros'] = rng.choice([0, 0, 0.3])
            cs = []
            if rng.random() < 0.3:
                d = self.options(rng, C.gen_cmd(rng, 'sview', p, tag='mid'), p)
                cs.append(d)
            c = self.options(rng, C.gen_cmd(rng, rng.choice(self.kinds), p), p)
            if cs:
                c['files'] = [d['out']]
                if rng.random() < 0.5:
                    c['files'].insert(rng.randint(0, 1), rng.choice(p['names']))
            elif rng.random() < 0.3:
                c['files'] = rng.sample(c['files'], rng.randint(1, n))
            try:
                self.model(p, cs + [c])
            except rm.Ambiguous:
                continue
            return p, cs + [c]
        return p, [dict(C.gen_cmd(rng, 'sview', p))]

    @staticmethod
    def options(rng, c, p):
        if c['kind'] == 'sview':
            if rng.random() < 0.5:
                c['tau'] = rng.choice([0.5, 2.0, 10.0, 100.0])
            if rng.random() < 0.5:
                c['R'] = rng.choice([0.5, 2.0, 3.7])
            if rng.random() < 0.5:
                c['rs'] = round(rng.uniform(0.2, 4.0), 2)
        else:
            f = lambda: rng.choice([None, 0.0, round(rng.uniform(0, 6) * p['dt'], 2)])
            for n in ('lims', 'out_lims'):
                if rng.random() < 0.5:
                    c[n] = [f(), f()]
            if rng.random() < 0.15:
                c['noprint'] = True
        return c

    def gen(self, rng):
        p, cs = self.job(rng)
        return {'worlds': [p], 'cmds': cs, 'links': len(cs) - 1, 'bufsize': bufsize(rng),
                't0': 1.7e9 + rng.randrange(10**8), 'mode': 'seq'}

    def variants(self, rng, sc, ops):
        if not sc['links']:
            yield from super().variants(rng, sc, ops)
            return
        for _ in range(self.nvar):
            x = copy.deepcopy(sc)
            x['mode'] = m = rng.choice(['seq', 'session', 'retry'])
            for d in x['cmds']:
                d['faults'] = sim.benign(rng, ops, 2)
            if rng.random() < 0.5:
                x['cmds'].insert(1, strip(rng.choice(x['cmds'])))
                x['cmds'][1]['out'] = C.out_file(rng, 'else')
            if m == 'retry':
                x['mode'] = 'seq'
                f = sim.crash_fault(rng, ops) if rng.random() < 0.6 else sim.err_fault(rng, ops, sim.WRITE_OPS)
                x['retry'] = [f] if f else []
            yield x

    @staticmethod
    def model(p, cs):
        at = {n: W.spreading_sets(p, k) for k, n in enumerate(p['names'])}
        for c in cs:
            sets = [s for f in c['files'] for s in at[f]]
            if c['kind'] == 'sview':
                par, out = None, rm.spread_view(sets, c.get('tau', 1.0), c.get('R', 1.0), c.get('rs'))
                at[c['out']] = out
            else:
                par, out = rm.spread_fit(sets, c.get('lims'), c.get('out_lims'))
        return par, out

    def judge(self, env, sc, c, r):
        p = sc['worlds'][0]
        cs = sc['cmds'][:sc['links']] + [c]
        par, want = self.expect(sc, c, lambda: self.model(p, cs))
        tol = 1e-4 if sc['links'] else 1e-5
        try:
            got = rm.graph_sets(self.outfile(env, c['out']))
        except rm.Bad as e:
            fail('bad-file', 'output %r: %s' % (c['out'], e))
        if self.outfile(env, c['out']).decode('latin-1').split('\n').count('&') < len(want) - 1:
            fail('bad-file', 'the series in %r are not separated' % c['out'])
        if len(got) != len(want):
            fail('series', '%d series in %r instead of %d' % (len(got), c['out'], len(want)))
        for i, ((t, v), (wt, wv)) in enumerate(zip(got, want)):
            if len(t) != len(wt) or any(not abs(a - b) <= tol * (1 + abs(b)) for a, b in zip(t + v, wt + wv)):
                fail('values', 'series %d of %r is %r instead of %r' % (
                    i, c['out'], list(zip(t, v)), [(round(a, 6), round(b, 6)) for a, b in zip(wt, wv)]))
        if any(len(wt) == 1 for wt, _ in want):
            probe('series of one time')
        if sc['links']:
            probe('series read back')
        if c.get('noprint'):
            marks = getattr(getattr(r, 'actor', None), 'marks', None)
            if any(re.fullmatch(r'\s*\S*\d\S*\s+\S*\d\S*\s*', l) for l in r.out[marks[-1]['out'] if marks else 0:].split('\n')):
                fail('print', 'with --noprint it prints %r' % r.out)
        elif par is not None:
            said = [l for l in r.out.split('\n') if l.strip()][-len(par):]
            try:
                got = [tuple(float(v) for v in l.split()) for l in said]
            except ValueError:
                got = said
            if len(got) != len(par) or any(len(g) != 2 or not (near(g[0], a, 1e-4) and near(g[1], k, 1e-4))
                                           for g, (a, k) in zip(got, par)):
                fail('fit', 'parameters %r are printed instead of %r' % (said, par))
            probe('fits')


def near(a, b, atol=2e-3):
    """Values printed with six digits, of which cancellation may cost some."""
    return abs(a - b) <= 1e-4 * abs(b) + atol or (a != a and b != b)


# ------------------------------------------------------------------------------------------
class C21(Prop):
    id = 'C21'
    jobs = {'quick': 700, 'thorough': 25000}
    nvar = 6
    rule = ('chains of 1-4 conversions between the three formats, some in place, on 1-4 random maps; with failed and killed attempts before a step, short I/O, in one '
            'process or one each. The last maps are compared bin by bin with the first. Non-trivial: a fault or more than one conversion.')

    def gen(self, rng):
        big = rng.random() < 0.02
        p = W.gen_flow(rng, 'random' if big else rng.choice(['random', 'random', 'droplet']), 1, 1 if big else 4, small=True)
        if big:
            p['shape'] = [rng.randint(60, 300), rng.randint(14, 70)]
        W.gen_empty(rng, p)
        cs, base = [], p['base']
        for k in range(rng.choice([1, 2, 3, 4])):
            c = {'kind': 'convert', 'base': base, 'ftype': rng.choice(['gmx', 'simple', 'simple_plain'])}
            c['out'] = base if rng.random() < 0.3 else C.out_base(rng, 't%d_' % k)
            if p['ext'] != '.dat':
                c['ext'] = p['ext']
            if p['numbers'][0] != 1:
                c['begin'] = p['numbers'][0]
            base = c['out']
            cs.append(c)
        return {'worlds': [p], 'cmds': cs, 'bufsize': 65536 if big else bufsize(rng), 'mode': 'seq'}

    def execute(self, sc):
        env = Env(sc)
        ops = []
        if sc['mode'] == 'session':
            for d in sc['cmds']:
                sim.ST.cmds[d['kind']] += 1

            def body(actor):
                actor.on_mark = None
                return session([C.argv(c) for c in sc['cmds']])(actor)
            r = env.run(body, faults=sc.get('faults') or ())[0]
            bad = r.exit or [x for x in r.result if x != 0]
        else:
            bad = None
            for k, c in enumerate(sc['cmds']):
                for fs in c.get('attempts', ()):
                    d = strip(c)
                    d['faults'] = [f for f in fs if f]
                    env.cmd(d)
                r = env.cmd(c)
                ops.append(r.ops)
                if r.exit != 0:
                    bad = r.exit
                    break
        if bad:
            fail('fails', 'a conversion ends with status %r:\n%s' % (bad, (r.tb or r.out + r.err)[-1200:]))
        p = sc['worlds'][0]
        fr = C.frames_of(p)
        c = sc['cmds'][-1]
        simple = p['fmt'] in ('simple', 'plain')
        exact, masked = True, not simple
        for d in sc['cmds']:
            to = d.get('ftype', 'simple')
            if to == 'gmx':
                exact = exact and not simple
                masked = True
            simple = to != 'gmx'
        for n in p['numbers']:
            o = fname(c['out'], n, p['ext'])
            b = env.read(o)
            if b is None:
                fail('missing', '%r was not written' % o)
            try:
                got = rm.dec(b, c.get('ftype', 'simple'))
            except rm.Bad as e:
                fail('bad-file', '%r: %s' % (o, e))
            want = dict(fr[n])
            if masked:
                import numpy as np
                m = want['M'] != 0
                for l in rm.FIELDS:
                    want[l] = np.where(m, want[l], 0.0)
            grid = (want['origin'], want['spacing']) if exact else (None, None)
            bad = rm.same_frame(got, want, c.get('ftype', 'simple'), p['fmt'], *grid)
            if bad:
                fail('values', 'frame %d after %s: %s' % (n, ' -> '.join(
                    [p['fmt']] + [d.get('ftype', 'simple') for d in sc['cmds']]), bad))
        return ops

    def variants(self, rng, sc, ops):
        for _ in range(self.nvar):
            x = copy.deepcopy(sc)
            if rng.random() < 0.2:
                x['mode'] = 'session'
                x['faults'] = sim.benign(rng, [o for l in ops for o in l], 3)
                x['bufsize'] = bufsize(rng)
                yield x
                continue
            for c, o in zip(x['cmds'], ops):
                if rng.random() < 0.5:
                    c['faults'] = sim.benign(rng, o, 2)
                if c['out'] != c['base'] and rng.random() < 0.6:
                    c['attempts'] = []
                    for _ in range(rng.choice([1, 1, 2])):
                        f = sim.crash_fault(rng, o) if rng.random() < 0.6 else \
                            sim.err_fault(rng, o, sim.WRITE_OPS + sim.READ_OPS)
                        c['attempts'].append([f] if f else [])
            yield x

    def shrinks(self, sc):
        for k in range(1, len(sc['cmds'])):
            x = copy.deepcopy(sc)
            x['cmds'] = x['cmds'][:k]
            yield x
        for k, c in enumerate(sc['cmds']):
            for j in range(len(c.get('attempts', ()))):
                x = copy.deepcopy(sc)
                x['cmds'][k]['attempts'].pop(j)
                yield x
        x = copy.deepcopy(sc)
        x['fixed_cmds'] = True
        yield from generic_shrinks(x)
