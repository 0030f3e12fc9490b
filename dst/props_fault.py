"""Properties of stops, faults and interrupts, judged against the undisturbed run."""

import copy
import os
import random

import cmds as C
import refmodel as rm
import sim
import world as W
from batch import Prop
from sim import Env, fail, probe
from world import fname


def twin_scenario(sc):
    """The scenario without faults."""
    x = copy.deepcopy(sc)
    for c in x.get('cmds', ()):
        c.pop('faults', None)
        c.pop('power', None)
        c.pop('stalls', None)
    x.pop('preempt', None)
    x.pop('bufsize', None)
    return x


def bufsize(rng):
    return rng.choice([8192, 8192, 8192, 16, 61, 512, 4096, 65536])


def norm_files(fs):
    return {p: rm.norm(b) for p, b in fs.items()}


def outs_of(env, c):
    return C.outputs(c, env.exists)


class FaultProp(Prop):
    """One command on one input set, faults against its undisturbed twin."""
    kinds = C.ALL
    nvar = 10
    nmin, nmax = 1, 5
    fmts = None
    figs = 0

    def gen(self, rng):
        p, c = C.gen_job(rng, self.kinds, self.nmin, self.nmax, fmts=self.fmts)
        if self.figs and rng.random() < self.figs:
            C.add_fig(rng, c)
        if self.figs and c['kind'] in C.DRAWS and rng.random() < 0.2:
            c['show'] = True
        sc = {'worlds': [p], 'cmds': [c], 'bufsize': bufsize(rng)}
        if rng.random() < 0.25:
            self.add_old(rng, sc, c)
        return sc

    def add_old(self, rng, sc, c):
        """Outputs, backups and neighbours which are there before."""
        env = Env(sc)
        fs = sc.setdefault('files', {})
        for o, _ in outs_of(env, c):
            if rng.random() < 0.5 and o not in env.files():
                fs[o] = sim.junk(rng)
                d, n = os.path.split(o)
                for k in (1, 2, 3):
                    if rng.random() < 0.25:
                        fs[os.path.join(d, '#%s.%d#' % (n, k))] = sim.junk(rng)

    def twin(self, sc):
        """The undisturbed run: (result, files before, files after, outputs)."""
        t = twin_scenario(sc)
        key = ('twin', sim.canonical(t))
        if key not in self.memo:
            env = Env(t)
            before = env.files()
            outs = outs_of(env, t['cmds'][0])
            r = env.cmd(t['cmds'][0])
            self.memo[key] = (r, before, env.files(), outs)
        return self.memo[key]


# ------------------------------------------------------------------------------------------
class C01(Prop):
    id = 'C01'
    jobs = {'quick': 700, 'thorough': 30000}
    nvar = 10
    rule = ('1-3 commands of all data-writing kinds one after the other on the same directories, outputs '
            'named like existing files, like each other and like the inputs, with pre-existing backups and '
            'gaps in their numbering; then each scenario again with kills (also inside of writes), I/O errors and power losses at '
            'operations picked with a bias to renames, creations and writes. After every change of the file system each file '
            'which existed before the command must be found by content under its name or its backup name. '
            'Non-trivial: a run with a fault fired or a second command on the same files.')

    def gen(self, rng):
        kinds = C.ALL
        sc = {'worlds': [], 'cmds': [], 'files': {}, 'bufsize': bufsize(rng)}
        p, c = C.gen_job(rng, kinds, 1, 4)
        sc['worlds'].append(p)
        cs = [c]
        for _ in range(rng.choice([0, 1, 1, 2])):
            r = rng.random()
            if r < 0.5:
                cs.append(copy.deepcopy(c))
            else:
                d = C.gen_cmd(rng, rng.choice([k for k in kinds if self.reads(k) == self.reads(c['kind'])
                                               and k not in ('icollect', 'scollect')]), p)
                if r < 0.75 and (d['kind'] in C.FRAME_OUT) == (c['kind'] in C.FRAME_OUT):
                    d['out'] = c['out']
                cs.append(d)
        # in place: outputs named like the inputs
        for d in cs:
            if d['kind'] in ('convert', 'average', 'iview') and rng.random() < 0.25:
                d['out'] = d['base']
            elif d['kind'] in C.ONE_OUT and rng.random() < 0.12 and d['kind'] not in C.READS_SPREAD:
                d['out'] = fname(d['base'], rng.choice(p['numbers']), p['ext'])
            elif d['kind'] in C.READS_SPREAD and rng.random() < 0.15:
                d['out'] = rng.choice(d['files'])
        sc['cmds'] = cs
        env = Env(sc)
        have = env.files()
        for d in cs:
            for o, _ in outs_of(env, d):
                dn, n = os.path.split(o)
                if rng.random() < 0.5 and os.path.normpath(o) not in have:
                    sc['files'][o] = sim.junk(rng)
                many = rng.choice([3, 3, 9, 12, 30, 101]) if rng.random() < 0.2 else 0
                for k in range(1, max(4, many) + 1):
                    if k <= many or rng.random() < 0.3:
                        sc['files'][os.path.join(dn, '#%s.%d#' % (n, k))] = sim.junk(rng)
        return sc

    @staticmethod
    def reads(k):
        return [s for s in (C.READS_FLOW, C.READS_IFACE, C.READS_SPREAD) if k in s][0]

    def execute(self, sc):
        env = Env(sc)
        info = []
        for c in sc['cmds']:
            r = self.guarded(env, c)
            info.append(r.ops)
        return info

    def guarded(self, env, c):
        fs = env.fs
        track = []
        for p, n in list(fs.table.items()):
            if n.kind != 'file':
                continue
            d, b = p.rsplit('/', 1)
            k = 1
            while '%s/#%s.%d#' % (d, b, k) in fs.table:
                k += 1
            track.append((p, '%s/#%s.%d#' % (d, b, k), bytes(n.data), n, n.version))

        def check(what, *paths):
            for p, q, data, node, ver in track:
                cur = fs.table.get(p)
                if cur is node and node.version == ver:
                    continue
                if cur is not None and cur.kind == 'file' and cur.data == data:
                    continue
                cur = fs.table.get(q)
                if cur is None or cur.kind != 'file' or cur.data != data:
                    bad = (p, q, what, paths)
                    if not lost:
                        lost.append(bad)

        lost = []
        r = env.cmd(c, on_fs=[check])
        check('end')
        if lost:
            p, q, what, paths = lost[0]
            fail('lost', 'after %s %s the %d bytes which %r held before "%s" are neither there nor in %r'
                 % (what, [env.rel(x) for x in paths], len([t for t in track if t[0] == p][0][2]),
                    env.rel(p), ' '.join(C.argv(c)), env.rel(q)))
        return r

    def variants(self, rng, sc, info):
        for _ in range(self.nvar):
            x = copy.deepcopy(sc)
            for _ in range(rng.choice([1, 1, 2])):
                j = rng.randrange(len(info))
                if not info[j]:
                    continue
                r = rng.random()
                if r < 0.65:
                    f = sim.crash_fault(rng, info[j])
                    if r < 0.3:
                        x['cmds'][j]['power'] = rng.randrange(10**6)
                else:
                    f = sim.err_fault(rng, info[j], sim.WRITE_OPS + ('open-r', 'read'))
                if f:
                    x['cmds'][j].setdefault('faults', []).append(f)
            yield x


# ------------------------------------------------------------------------------------------
class C02(FaultProp):
    id = 'C02'
    kinds = C.LOGS
    nmin, nmax = 2, 6
    jobs = {'quick': 700, 'thorough': 30000}
    nvar = 12
    rule = ('spreading collect, sample and interface sample on 2-6 frames; killed inside and between writes, failing '
            'reads and writes, interrupts, power losses, at random operations. After every operation the row file must be '
            'a prefix of the undisturbed one; at each first opening of a frame the rows of the frames before must be in the '
            'file. Non-trivial: a fault fired.')

    def execute(self, sc):
        c = sc['cmds'][0]
        tr, tb, ta, outs = self.twin(sc)
        env = Env(sc)
        log = c['out']
        want = rm.norm(ta.get(os.path.normpath(log), b''))
        old = env.read(log)
        order = outs[0][1] if outs else []
        order = [os.path.normpath(o) for o in order]
        need = C.rows_due(c, sc['worlds'][0], order)
        bad = []
        seen = set()
        fs, path = env.fs, env.abs(log)
        disabled = []
        most = [0]

        def lines_of(data):
            return sum(1 for l in bytes(data).split(b'\n')[:-1] if l.strip() and not l.startswith(b'#'))

        def shape(when):
            n = fs.table.get(path)
            if n is None or bad:
                return
            if old is not None and bytes(n.data) == old:
                return
            if not want.startswith(rm.norm(bytes(n.data))):
                bad.append(('not-a-prefix', '%s: the row file is not a prefix of the one of the '
                            'undisturbed run:\n%s' % (when, bytes(n.data)[-300:].decode('latin-1'))))
                return
            k = lines_of(n.data)
            if k < most[0] and c.get('power') is None:
                bad.append(('rows-lost', '%s: only %d of %d rows written before are still there' % (when, k, most[0])))
            most[0] = k

        def on_fs(what, *paths):
            if path in paths:
                shape('after ' + what)

        def on_event(ev):
            if ev[2].startswith('FAULT:EACCES') and ev[4] in ('open-w', 'rename', 'mkdir'):
                disabled.append(1)
            if ev[2] != 'open-r':
                return
            rel = env.rel(ev[3])
            if rel not in order or rel in seen:
                return
            seen.add(rel)
            k = order.index(rel)
            due = sum(need[:k])
            n = fs.table.get(path)
            data = bytes(n.data) if n is not None else b''
            if old is not None and data == old:
                data = b''
            got = lines_of(data)
            if got < due and not disabled and not bad:
                bad.append(('rows-missing', 'when %r is opened, %d of the %d rows of the frames before '
                            'have been written' % (rel, got, due)))

        r = env.cmd(c, on_fs=[on_fs], on_event=[on_event])
        shape('at the end')
        if bad and bad[0][0] == 'rows-lost' and any(f['op'] == 'close' for f in r.fired):
            bad = []            # the failing close itself dropped them
        if bad:
            fail(*bad[0])
        if not c.get('faults') and r.exit == 0:
            due = sum(need)
            data = env.read(log) or b''
            got = lines_of(data)
            if got != due:
                fail('rows-missing', '%d rows instead of %d at the end' % (got, due))
        return r.ops

    def variants(self, rng, sc, ops):
        for _ in range(self.nvar):
            x = copy.deepcopy(sc)
            c = x['cmds'][0]
            r = rng.random()
            if r < 0.55:
                f = sim.crash_fault(rng, ops)
                if r < 0.2:
                    c['power'] = rng.randrange(10**6)
            elif r < 0.7:
                f = sim.err_fault(rng, ops, sim.READ_OPS)
            elif r < 0.9:
                f = sim.err_fault(rng, ops, sim.WRITE_OPS)
            else:
                f = {'op': rng.randrange(len(ops)), 'kind': 'interrupt'}
            if f:
                c['faults'] = [f] + sim.benign(rng, ops, 2)
                yield x


# ------------------------------------------------------------------------------------------
def untouched(now, before, path):
    p = os.path.normpath(path)
    return now.get(p) == before.get(p)


class C03(FaultProp):
    id = 'C03'
    kinds = ('convert', 'average', 'icollect', 'ccollect')
    nmin, nmax = 2, 6
    jobs = {'quick': 600, 'thorough': 30000}
    nvar = 12
    rule = ('convert, average and interface collect on 2-6 frames, also in place; killed between and inside of writes, '
            'failing operations, unreadable frames and frames cut short. Afterwards the outputs must be: some complete '
            'ones equal to those of the undisturbed run, at most one in progress, the rest untouched; exact for damaged '
            'frames. Non-trivial: a fault fired or a frame damaged.')

    def gen(self, rng):
        sc = FaultProp.gen(self, rng)
        c = sc['cmds'][0]
        if c['kind'] != 'icollect' and rng.random() < 0.2:
            c['out'] = c['base']
            sc.pop('files', None)
        return sc

    def execute(self, sc):
        c = sc['cmds'][0]
        tsc = copy.deepcopy(sc)
        tsc.pop('bad', None)
        tr, tb, ta, touts = self.twin(tsc)
        if tr.exit != 0:
            probe('C03 twin failed')
            return None
        env = Env(sc)
        bad = sc.get('bad')
        if bad:
            path, how = bad
            if how == 'mode':
                env.fs.table[env.abs(path)].mode = 0
            else:
                n = env.fs.table[env.abs(path)]
                n.data = n.data[:how]
        before = env.files()
        outs = outs_of(env, c)
        r = env.cmd(c)
        after = env.files()
        if bad:
            hit = [j for j, (_, ins) in enumerate(outs) if bad[0] in ins]
            w = hit[0] if hit else None
            if w is not None and r.exit == 0:
                fail('damage-ignored', 'the command succeeded although %r is %s' % (
                    bad[0], 'unreadable' if bad[1] == 'mode' else 'cut to %d bytes' % bad[1]))
            if w is None:
                w = len(outs)
            if r.exit != -9:
                for j, (o, _) in enumerate(outs):
                    q = os.path.normpath(o)
                    if j < w and rm.norm(after.get(q, b'')) != rm.norm(ta.get(q, b'')):
                        fail('lost-before-damage', 'output %r of the frames before the damaged '
                             '%r is missing or differs from the undisturbed run' % (o, bad[0]))
                    if j >= w and not untouched(after, before, o):
                        fail('output-after-damage', 'output %r was written although it depends on the '
                             'damaged %r or follows it' % (o, bad[0]))
        state = []
        for o, _ in outs:
            q = os.path.normpath(o)
            same = q in after and rm.norm(after[q]) == rm.norm(ta.get(q, b'?'))
            state.append((same, untouched(after, before, o)))
        # longest prefix which equals, then one in progress, then untouched
        j = 0
        while j < len(state) and state[j][0]:
            j += 1
        rest = [k for k in range(j + 1, len(state)) if not state[k][1]]
        if rest:
            fail('hole', 'output %r is there although %r before it is missing or incomplete'
                 % (outs[rest[0]][0], outs[j][0]))
        if j < len(state) and not state[j][1] and r.exit == 0:
            fail('incomplete', 'the command succeeded but output %r differs from the undisturbed run'
                 % outs[j][0])
        return r.ops

    def variants(self, rng, sc, ops):
        if ops is None:
            return
        p = sc['worlds'][0]
        for _ in range(self.nvar):
            x = copy.deepcopy(sc)
            c = x['cmds'][0]
            r = rng.random()
            if r < 0.25:
                files = sorted(Env(sc).files())
                ins = [o for o in C.inputs(c, Env(sc).exists)]
                if not ins:
                    continue
                path = rng.choice(ins)
                how = 'mode'
                if p['fmt'].startswith('gmx') and rng.random() < 0.7:
                    how = rng.randrange(len(Env(sc).read(path)))
                x['bad'] = [path, how]
                x['cmds'][0]['faults'] = sim.benign(rng, ops, 2)
            elif r < 0.75:
                f = sim.crash_fault(rng, ops)
                c['faults'] = [f]
            elif r < 0.9:
                f = sim.err_fault(rng, ops, sim.WRITE_OPS)
                c['faults'] = [f] if f else []
            else:
                f = sim.err_fault(rng, ops, sim.READ_OPS)
                c['faults'] = [f] if f else []
            yield x

    def shrinks(self, sc):
        for x in Prop.shrinks(self, sc):
            if x.get('bad') and not Env(x).exists(x['bad'][0]):
                continue
            yield x


# ------------------------------------------------------------------------------------------
class C04(FaultProp):
    id = 'C04'
    kinds = C.READS_FLOW + C.FIG
    fmts = ['gmx', 'gmx_min', 'gmx_perm', 'gmx2']
    nmin, nmax = 1, 4
    jobs = {'quick': 700, 'thorough': 30000}
    nvar = 12
    rule = ('a series of 1-4 Gromacs format maps (two format versions, permuted header lines and fields) of which one is cut at a byte picked '
            'evenly or near the ends of header and data, read by convert, average, interface collect, spreading collect or sample with '
            'short reads and odd buffer sizes. Non-trivial: every execution with a cut frame.')

    def gen(self, rng):
        sc = FaultProp.gen(self, rng)
        if sc['cmds'][0]['kind'] not in ('ccollect', 'csample'):
            # (there is no contact line in an empty map)
            W.gen_empty(rng, sc['worlds'][0], 0.25)
        return sc

    def execute(self, sc):
        c = sc['cmds'][0]
        tsc = copy.deepcopy(sc)
        cut = tsc.pop('cut', None)
        tr, tb, ta, _ = self.twin(tsc)
        if cut is None:
            return Env(sc), tr
        if tr.exit != 0:
            probe('C04 twin failed')
            return None
        env = Env(sc)
        path, n = cut
        node = env.fs.table[env.abs(path)]
        node.data = node.data[:n]
        before = env.files()
        outs = outs_of(env, c)
        r = env.cmd(c, max_jumps=400000)
        after = env.files()
        if r.exit == -99:
            fail('endless', 'reading %r cut to %d bytes does not end' % (path, n))
        ins = C.inputs(c, env.exists)
        if path not in ins:
            return None
        sim.ST.nontrivial.add(hash((path, n, sim.canonical(tsc))))
        if r.exit == 0:
            fail('accepted', 'the command succeeds with %r cut to %d bytes' % (path, n))
        if c['kind'] in C.LOGS:
            got = after.get(os.path.normpath(c['out']), b'')
            if before.get(os.path.normpath(c['out'])) == got:
                got = b''
            k = ins.index(path)
            due = sum(C.rows_due(c, sc['worlds'][0], [os.path.normpath(i) for i in ins])[:k])
            rows = [l for l in got.split(b'\n') if l.strip() and not l.startswith(b'#')]
            if len(rows) > due:
                fail('row', '%d rows although only %d frames precede the cut %r' % (len(rows), due, path))
            if not rm.norm(ta.get(os.path.normpath(c['out']), b'')).startswith(rm.norm(got)):
                fail('row', 'rows differ from the undisturbed run:\n%s' % got.decode('latin-1'))
            if c['kind'] == 'scollect' and due == 0 and b'# Droplet impact' in got:
                fail('row', 'an impact is reported although no droplet was seen before the cut %r' % path)
        elif c['kind'] in C.FIG:
            # one figure, drawn anew for each of the maps
            if ins.index(path) == 0 and not untouched(after, before, c['out']):
                fail('output', 'the figure %r was drawn from %r cut to %d bytes' % (c['out'], path, n))
        else:
            w = [j for j, (_, i) in enumerate(outs) if path in i] or [len(outs)]
            for j, (o, _) in enumerate(outs):
                if j >= w[0] and not untouched(after, before, o):
                    fail('output', 'output %r was written from or after %r cut to %d bytes' % (o, path, n))
        return None

    def variants(self, rng, sc, info):
        if not info:
            return
        env, tr = info
        ins = C.inputs(sc['cmds'][0], env.exists)
        if not ins:
            return
        for _ in range(self.nvar):
            x = copy.deepcopy(sc)
            path = rng.choice(ins)
            p = sc['worlds'][0]
            none = [i for i in ins if i in [W.fname(p['base'], p['numbers'][k], p['ext'])
                                            for k in p.get('empty', ()) if k < len(p['numbers'])]]
            if none and rng.random() < 0.5:
                path = rng.choice(none)
            data = env.read(path)
            z = data.find(b'\0')
            r = rng.random()
            if r < 0.3:
                n = rng.randrange(0, z + 2)
            elif r < 0.45:
                n = rng.choice([0, 1, 16, 17, 18, z - 1, z, z + 1, z + 2, z + 9])
            elif r < 0.6:
                n = len(data) - rng.choice([1, 2, 3, 4, 5, 8])
            else:
                n = rng.randrange(min(z, len(data) - 1), len(data))
            n = max(0, min(n, len(data) - 1))
            x['cut'] = [path, n]
            x['cmds'][0]['faults'] = sim.benign(rng, tr.ops, 2)
            yield x

    def shrinks(self, sc):
        for x in Prop.shrinks(self, sc):
            if x.get('cut'):
                d = Env(x).read(x['cut'][0])
                if d is None or len(d) <= x['cut'][1]:
                    continue
            yield x
        if sc.get('cut'):
            for n in (0, 1, 17, 40):
                if n < sc['cut'][1]:
                    x = copy.deepcopy(sc)
                    x['cut'][1] = n
                    yield x


# ------------------------------------------------------------------------------------------
class C05(FaultProp):
    id = 'C05'
    kinds = C.ALL + C.FIG
    figs = 0.4
    jobs = {'quick': 800, 'thorough': 30000}
    nvar = 12
    rule = ('every command on 1-5 valid inputs with EIO, EACCES, EMFILE, ENFILE or ENOMEM at one or two operations which open or '
            'read, once or from then on, with short reads. Exit 0 without a message about the file demands the files and messages '
            'of the undisturbed run. Non-trivial: a read fault fired.')

    def execute(self, sc):
        c = sc['cmds'][0]
        tsc = copy.deepcopy(sc)
        locked = sorted(tsc.pop('modes', {}))
        tr, tb, ta, outs = self.twin(tsc)
        if tr.exit != 0:
            probe('C05 twin failed')
            return None
        env = Env(sc)
        r = env.cmd(c)
        hits = [f for f in r.fired if f['kind'] != 'short' and f['op'] in sim.READ_OPS]
        hits += [{'kind': 'no permission', 'op': 'open-r', 'path': env.abs(p)} for p in locked]
        figs = [env.abs(o) for o in C.figures(c, env.exists)]
        if c['kind'] in C.FIG:
            figs.append(env.abs(c['out']))
        if r.exit == 0 and not any(env.abs(f['path']) in figs for f in r.fired):
            same = norm_files(env.files()) == norm_files(ta)
            named = [f for f in hits if os.path.basename(f['path']) in
                     (r.out + r.err).replace(tr.out, '')]
            if not same and not (hits and named and c['kind'] in ('iview', 'sview', 'sfit')):
                d = [p for p in set(ta) | set(env.files())
                     if rm.norm(ta.get(p, b'')) != rm.norm(env.files().get(p, b''))]
                fail('silent', 'exit status 0 after %s, but %r differ from the undisturbed run' % (
                    ', '.join('%s at %s of %s' % (f['kind'], f['op'], env.rel(f['path']))
                              for f in (hits or r.fired)) or 'short reads', sorted(d)))
            if hits and not same:
                probe('skipped with a message')
            elif hits:
                probe('read fault without effect')
        return r.ops

    def variants(self, rng, sc, ops):
        if not ops:
            return
        env = Env(sc)
        ins = sorted(set(i for _, l in outs_of(env, sc['cmds'][0]) for i in l))
        for n in range(self.nvar):
            x = copy.deepcopy(sc)
            fs = []
            if n == 0 and ins:
                x['modes'] = {p: 0 for p in rng.sample(ins, rng.choice([1, 1, len(ins)]))}
                yield x
                continue
            for _ in range(rng.choice([1, 1, 1, 2])):
                f = sim.err_fault(rng, ops, sim.READ_OPS)
                if f:
                    if rng.random() < 0.2:
                        f['sticky'] = True
                    fs.append(f)
            if fs:
                x['cmds'][0]['faults'] = fs + sim.benign(rng, ops, 2)
                yield x


# ------------------------------------------------------------------------------------------
class C06(FaultProp):
    id = 'C06'
    jobs = {'quick': 800, 'thorough': 30000}
    nvar = 12
    nmin = 1
    rule = ('every command on 1-5 valid inputs, once undisturbed (must exit 0 with every output decodable) and with ENOSPC, EDQUOT, EIO, EACCES, EROFS at '
            'one operation which creates, writes, closes or renames a file or makes a directory, disk full lasting. Exit 0 demands the files of the '
            'undisturbed run, or the announced exceptions. Non-trivial: a write fault fired.')

    def execute(self, sc):
        c = sc['cmds'][0]
        tr, tb, ta, outs = self.twin(sc)
        if tr.exit != 0:
            fail('fails', 'the undisturbed command ends with status %r:\n%s' % (
                tr.exit, (tr.tb or tr.out + tr.err)[-1500:]))
        for o, ins in outs:
            b = ta.get(os.path.normpath(o))
            if b is None:
                fail('missing', 'output %r was not written' % o)
            try:
                if c['kind'] in ('sview', 'sfit'):
                    if not b.endswith(b'\n'):
                        raise rm.Bad('torn or empty')
                elif c['kind'] in ('convert', 'average', 'ccollect'):
                    rm.dec(b, c.get('ftype', 'gmx') if c['kind'] == 'convert' else 'gmx')
                else:
                    n = len(rm.rows_of(b, True))
                    if c['kind'] in C.LOGS + ('iangle',):
                        due = sum(C.rows_due(c, sc['worlds'][0], [os.path.normpath(i) for i in ins]))
                        if n != due:
                            raise rm.Bad('%d rows instead of %d' % (n, due))
                    elif not n:
                        raise rm.Bad('no rows')
            except rm.Bad as e:
                fail('incomplete', 'output %r is not complete: %s' % (o, e))
        env = Env(sc)
        r = env.cmd(c)
        hits = [f for f in r.fired if f['op'] in sim.WRITE_OPS and f['kind'] not in ('short', 'clock')]
        if r.exit == 0 and norm_files(env.files()) != norm_files(ta):
            ok = False
            if c['kind'] in C.LOGS and hits and hits[0]['kind'] == 'EACCES':
                ok = 'Output disabled' in r.out and c['out'] in r.out
            if c['kind'] == 'sview' and hits:
                ok = any(s in r.out for s in ('Errno', 'rror', 'enied', 'No space', 'quota'))
            if not ok:
                d = [p for p in set(ta) | set(env.files())
                     if rm.norm(ta.get(p, b'')) != rm.norm(env.files().get(p, b''))]
                fail('silent', 'exit status 0 after %s, but %r differ from the undisturbed run' % (
                    ', '.join('%s at %s of %s' % (f['kind'], f['op'], env.rel(f['path']))
                              for f in r.fired), sorted(d)))
            probe('announced instead of failing')
        return r.ops

    def variants(self, rng, sc, ops):
        for _ in range(self.nvar):
            x = copy.deepcopy(sc)
            f = sim.err_fault(rng, ops, sim.WRITE_OPS)
            if f:
                x['cmds'][0]['faults'] = [f] + sim.benign(rng, ops, 2)
                yield x


# ------------------------------------------------------------------------------------------
class C07(FaultProp):
    id = 'C07'
    jobs = {'quick': 600, 'thorough': 25000}
    nvar = 10
    nmin = 1

    def gen(self, rng):
        sc = FaultProp.gen(self, rng)
        if rng.random() < 0.15:
            # names of backups which are directories
            env = Env(sc)
            outs = [o for o, _ in outs_of(env, sc['cmds'][0])]
            for o in rng.sample(outs, min(len(outs), rng.randint(1, 3))):
                d, n = os.path.split(o)
                b = os.path.join(d, '#%s.%d#' % (n, rng.choice([1, 1, 2])))
                if not env.exists(b):
                    sc.setdefault('files', {})[os.path.join(b, 'x')] = sim.junk(rng)
        return sc

    rule = ('a command is killed (also inside of writes), fails or loses power at a random operation one to three times in a row, then runs '
            'undisturbed on what is left: it must exit 0, write the outputs of the undisturbed run, and keep what the earlier runs left as '
            'backups. Non-trivial: a fault fired before the last run.')

    def execute(self, sc):
        c = sc['cmds'][0]
        tr, tb, ta, outs = self.twin(sc)
        if tr.exit != 0:
            probe('C07 twin failed')
            return None
        env = Env(sc)
        ops = None
        for c2 in [c] + sc.get('again', []):
            r = env.cmd(c2)
            ops = ops or r.ops
            if not c2.get('faults'):
                break
        left = {o: env.read(o) for o, _ in outs if env.exists(o)}
        clean = copy.deepcopy(c)
        clean.pop('faults', None)
        clean.pop('power', None)
        back = {}
        for o in left:
            d, n = os.path.split(os.path.normpath(o))
            k = 1
            while env.exists(os.path.join(d, '#%s.%d#' % (n, k))):
                k += 1
            back[o] = os.path.join(d, '#%s.%d#' % (n, k))
        r = env.cmd(clean)
        if r.exit != 0:
            fail('fails', 'running again ends with status %r:\n%s' % (r.exit, (r.tb or r.out + r.err)[-1500:]))
        after = env.files()
        for o, _ in outs:
            q = os.path.normpath(o)
            if rm.norm(after.get(q, b'?')) != rm.norm(ta.get(q, b'')):
                fail('differs', 'after running again output %r differs from that of an undisturbed run' % o)
        for o, b in left.items():
            if env.read(back[o]) != b:
                fail('not-kept', 'what the earlier runs left in %r is not in %r' % (o, back[o]))
        return ops

    def variants(self, rng, sc, ops):
        if not ops:
            return
        for _ in range(self.nvar):
            x = copy.deepcopy(sc)
            todo = [x['cmds'][0]]
            for _ in range(rng.choice([0, 0, 1, 2])):
                todo.append(copy.deepcopy(sc['cmds'][0]))
            for c in todo:
                r = rng.random()
                if r < 0.7:
                    f = sim.crash_fault(rng, ops)
                    if r < 0.3:
                        c['power'] = rng.randrange(10**6)
                else:
                    f = sim.err_fault(rng, ops, sim.WRITE_OPS)
                c['faults'] = [f] if f else []
            x['again'] = todo[1:]
            yield x

    def shrinks(self, sc):
        for i in range(len(sc.get('again', ()))):
            x = copy.deepcopy(sc)
            x['again'].pop(i)
            yield x
        yield from Prop.shrinks(self, sc)


# ------------------------------------------------------------------------------------------
class C15(FaultProp):
    id = 'C15'
    kinds = C.ALL + C.FIG
    figs = 0.4
    jobs = {'quick': 800, 'thorough': 30000}
    nvar = 10
    rule = ('every command with and without output, odd names, neighbouring and pre-existing files; undisturbed, killed, failing. Each change of the file '
            'system must be to an expected output, one of its directories, or the backup of an output which existed; without output there must be none; inputs are '
            'never opened for writing. Non-trivial: a fault fired or files present before.')

    def gen(self, rng):
        sc = FaultProp.gen(self, rng)
        c = sc['cmds'][0]
        fs = sc.setdefault('files', {})
        for n in ('spread.xvg', 'sample.xvg', 'out/r00001.dat~', 'unrelated', 'in/#x#'):
            if rng.random() < 0.3:
                fs[n] = sim.junk(rng)
        env = Env(sc)
        ins = sorted(set(C.inputs(c, env.exists)))
        if rng.random() < 0.5:
            # neighbours of inputs and outputs
            near = ins + [o for o, _ in outs_of(env, c)]
            for _ in range(rng.choice([1, 3, 6])):
                d, n = os.path.split(rng.choice(near or ['x']))
                stem = n.rsplit('.', 1)[0]
                n = rng.choice([n + '.part', n + '.tmp', n + '~', n + '.bak', n + '.lock', '.' + n, n + '.old', n + '.new',
                                '#%s#' % n, '.%s.tmp' % n, stem + '.tmp', 'tmp', '.tmp', n + '.1', stem + '.bak', n + '.swp'])
                if not env.exists(os.path.join(d, n)) and n != stem:
                    fs[os.path.join(d, n)] = sim.junk(rng)
        if ins and rng.random() < 0.25:
            for i in rng.sample(ins, rng.randint(1, len(ins))):
                sc.setdefault('modes', {})[i] = rng.choice([0, 0o444, 0o400, 0o200])
        if c['kind'] in C.ONE_OUT + ('iview',) and rng.random() < 0.35:
            c['out'] = None
        if 'base' in c and rng.random() < 0.05:
            c['base'] = rng.choice(['no such/x', 'nor/this/', 'none'])
        return sc

    def execute(self, sc):
        c = sc['cmds'][0]
        env = Env(sc)
        fs = env.fs
        outs = outs_of(env, c)
        files, backs, dirs = set(), {}, set()
        if c.get('out') is not None:
            for o, _ in outs:
                p = env.abs(o)
                files.add(p)
                d, n = p.rsplit('/', 1)
                if p in fs.table and c['kind'] not in C.FIG:
                    k = 1
                    while '%s/#%s.%d#' % (d, n, k) in fs.table:
                        k += 1
                    backs[p] = '%s/#%s.%d#' % (d, n, k)
                while d and d not in fs.table:
                    dirs.add(d)
                    d = fs.parent(d)
        figs = [env.abs(o) for o in C.figures(c, env.exists)]
        files.update(figs)
        before = fs.snapshot()
        bad = []

        def on_fs(what, *paths):
            ok = False
            if what in ('create', 'write', 'trunc'):
                ok = paths[0] in files or paths[0] in backs.values()
            elif what == 'mkdir':
                ok = paths[0] in dirs
            elif what == 'rename':
                ok = paths[0] in backs and paths[1] == backs[paths[0]]
            elif what == 'link':
                ok = paths[0] in backs and paths[1] == backs[paths[0]]
            elif what == 'unlink':
                ok = paths[0] in backs
            elif what in ('chmod', 'utime'):
                ok = paths[0] in files or paths[0] in backs.values()
            if not ok and not bad:
                bad.append('%s of %s' % (what, ' '.join(repr(env.rel(p)) for p in paths if p)))

        def on_event(ev):
            if ev[2] in ('open-w', 'rename', 'mkdir', 'unlink', 'chmod', 'utime', 'truncate'):
                p = fs.resolve(ev[3])
                if p not in files and p not in dirs and p not in backs.values() \
                        and not (ev[2] == 'mkdir' and p in fs.table) and not bad:
                    bad.append('%s of %r' % (ev[2], env.rel(p)))

        r = env.cmd(c, on_fs=[on_fs], on_event=[on_event])
        if r.escapes:
            fail('escape', 'the command touches %r' % (r.escapes[0],))
        if bad:
            fail('stray', 'the command does a %s, which is not one of its outputs' % bad[0])
        if c.get('out') is None and not figs and c.get('power') is None and fs.snapshot() != before:
            fail('stray', 'the command was told not to write but changed files')
        return r.ops

    def variants(self, rng, sc, ops):
        for _ in range(self.nvar):
            if not ops:
                return
            x = copy.deepcopy(sc)
            c = x['cmds'][0]
            r = rng.random()
            if r < 0.45:
                f = sim.crash_fault(rng, ops)
            elif r < 0.75:
                f = sim.err_fault(rng, ops, sim.WRITE_OPS)
            elif r < 0.9:
                f = sim.err_fault(rng, ops, sim.READ_OPS)
            else:
                f = {'op': rng.randrange(len(ops)), 'kind': 'interrupt'}
            if f:
                c['faults'] = [f]
                yield x


# ------------------------------------------------------------------------------------------
class C18(FaultProp):
    id = 'C18'
    kinds = C.ALL + C.FIG
    figs = 0.4
    jobs = {'quick': 500, 'thorough': 20000}
    nvar = 12
    rule = ('every command on 1-5 inputs, with a keyboard interrupt at a random operation or a random executed source line of the program. '
            'The exit status must be a failure; after the interrupt no further input may be opened and no further output created. '
            'Non-trivial: the interrupt fired.')

    def execute(self, sc):
        c = sc['cmds'][0]
        env = Env(sc)
        outs = [os.path.normpath(o) for o, _ in outs_of(env, c)]
        ins = [os.path.normpath(i) for i in C.inputs(c, env.exists)]
        lines = any('line' in f for f in c.get('faults', ()))
        r = env.cmd(c, lines=lines or not c.get('faults'))
        after = None
        seen = set()
        for e in r.world.events:
            if e[2] == 'FAULT:interrupt':
                after = True
                continue
            if e[2] not in ('open-r', 'open-w') or (e[2] == 'open-r') == (e[3] is None):
                continue
            p = env.rel(e[3])
            if after and (e[2], p) not in seen and (p in outs if e[2] == 'open-w' else p in ins):
                fail('goes-on', 'after the interrupt the command opens %r %s' % (
                    p, 'for writing' if e[2] == 'open-w' else 'for reading'))
            seen.add((e[2], p))
        if after and r.exit == 0 and not r.actor.pending:
            fail('swallowed', 'exit status 0 although interrupted at %s of %s' % (
                r.fired[-1]['op'], env.rel(r.fired[-1]['path'])))
        if after and r.exit == -99:
            fail('swallowed', 'the interrupted command does not end')
        return r.ops, r.line_at

    def variants(self, rng, sc, info):
        ops, at = info
        for _ in range(self.nvar):
            x = copy.deepcopy(sc)
            if rng.random() < 0.4 and ops:
                f = {'op': rng.randrange(len(ops)), 'kind': 'interrupt'}
            elif at:
                # each source line is as likely, also those executed only a few times
                f = {'line': rng.choice(rng.choice(at)), 'kind': 'interrupt'}
            else:
                continue
            x['cmds'][0]['faults'] = [f]
            yield x


# ------------------------------------------------------------------------------------------
class C20(FaultProp):
    id = 'C20'
    jobs = {'quick': 500, 'thorough': 20000}
    nvar = 8
    limit = 6
    rule = ('every command on 1 and on up to 40 inputs, undisturbed and with failing operations and interrupts; the largest number of simultaneously open '
            'descriptors must stay within %d, with none left open at the end. Non-trivial: more than 6 frames or a fault fired.' % limit)

    def gen(self, rng):
        n = rng.choice([1, 2, 8, 14, 40])
        p, c = C.gen_job(rng, self.kinds, n, n, window=False)
        return {'worlds': [p], 'cmds': [c], 'bufsize': bufsize(rng)}

    def execute(self, sc):
        c = sc['cmds'][0]
        env = Env(sc)
        r = env.cmd(c)
        if len(sc['worlds'][0].get('numbers', ())) > 6:
            sim.ST.nontrivial.add(hash(sim.canonical(sc)))
        if r.max_open > self.limit:
            fail('descriptors', '%d descriptors open at once while processing %d inputs' % (
                r.max_open, len(C.inputs(c, Env(sc).exists))))
        left = r.actor.left_open
        if left and r.exit != -9:
            fail('left-open', 'at the end %d descriptors are still open: %r' % (
                len(left), [env.rel(p) for p in left][:5]))
        return r.ops

    def variants(self, rng, sc, ops):
        for _ in range(self.nvar):
            x = copy.deepcopy(sc)
            r = rng.random()
            if not ops:
                return
            if r < 0.4:
                f = sim.err_fault(rng, ops, sim.WRITE_OPS)
            elif r < 0.8:
                f = sim.err_fault(rng, ops, sim.READ_OPS)
            else:
                f = {'op': rng.randrange(len(ops)), 'kind': 'interrupt'}
            if f:
                x['cmds'][0]['faults'] = [f]
                yield x
