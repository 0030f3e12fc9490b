"""Selection, isolation, concurrency, degradation, producers and termination."""

import base64
import copy
import hashlib
import os
import random
import re

import cmds as C
import procs
import refmodel as rm
import sim
import world as W
from batch import Prop, generic_shrinks
from props_fault import FaultProp, bufsize, norm_files, outs_of, twin_scenario
from props_model import session, strip
from sim import Env, fail, probe
from world import fname


def backup_of(name):
    d, n = os.path.split(name)
    return re.compile(re.escape(os.path.join(d, '#' + n)) + r'\.\d+#$')


# ------------------------------------------------------------------------------------------
class C08(Prop):
    id = 'C08'
    jobs = {'quick': 900, 'thorough': 30000}
    nvar = 6
    kinds = C.READS_FLOW + C.READS_IFACE
    rule = ('every command on 0-8 numbered inputs with gaps, numbers from 0 and up to 100000, other widths, extensions and neighbouring names beside them, '
            'begin, end, group and rolling at random; undisturbed and with kills, failing operations and short I/O. The files opened, files written, number of rows, the '
            'frames behind each converted or averaged map and the warning are compared with the rule. Non-trivial: a fault fired, or files around the series.')

    def gen(self, rng):
        first = rng.choice([1, 1, 1, 0, 2, 5, 8, 9, 98, 99995, 99998, 100000])
        p, c = C.gen_job(rng, self.kinds, 1, 8, first=first, window=False)
        nums = p['numbers']
        r = rng.random()
        if r < 0.5:
            C.rng_window(rng, c, nums)
        elif r < 0.6:
            c['begin'] = rng.choice([nums[-1] + 1, nums[-1] + 3, 0, 1, 7])
        if rng.random() < 0.4:
            c['end'] = rng.choice([nums[0], nums[-1], rng.choice(nums), max(0, nums[0] - 1), nums[-1] + 5])
        if c['kind'] in C.GROUPED:
            c['group'] = rng.choice([1, 2, 2, 3, 4, 5])
        sc = {'worlds': [p], 'cmds': [c], 'bufsize': bufsize(rng), 'remove': [], 'files': {}}
        name = lambda n, e=p['ext'], b=p['base']: fname(b, n, e)
        if len(nums) > 2 and rng.random() < 0.4:
            sc['remove'].append(name(rng.choice(nums[1:-1])))
        if c['kind'] in C.READS_IFACE:
            spare = W.enc_interface([0.0, 1.0, 4.0, 5.0], [0.0, 0.5, 0.5, 0.0]).decode()
        else:
            spare = {'junk': 7, 'n': 30}
        for n in [nums[0] - 1, nums[-1] + 1, nums[-1] + 2, rng.choice(nums)]:
            if n < 0 or rng.random() < 0.5:
                continue
            for d in rng.sample(['%s%d%s' % (p['base'], n, p['ext']), '%s%04d%s' % (p['base'], n, p['ext']),
                                 '%s%06d%s' % (p['base'], n, p['ext']), name(n, p['ext'] + '~'), name(n, '.zzz'),
                                 '%s%05d.%s' % (p['base'], n, p['ext']), name(n, p['ext'], p['base'] + '0'),
                                 '%s-%05d%s' % (p['base'], n, p['ext']), name(n, p['ext'].upper() or '.X')], 3):
                mine = re.fullmatch(re.escape(p['base']) + r'\d{5,}' + re.escape(p['ext']), d)
                if not (mine and d == name(int(d[len(p['base']):len(d) - len(p['ext'])] or 0))):
                    sc['files'][d] = spare
        if not self.fine(sc, c, p):
            return self.gen(rng)
        return sc

    def fine(self, sc, c, p):
        return C.valid(c, p)

    def execute(self, sc):
        c = sc['cmds'][0]
        env = Env(sc)
        p = sc['worlds'][0]
        ins = [os.path.normpath(i) for i in C.inputs(c, env.exists)]
        sel = C.selected(c, env.exists)
        outs = [(os.path.normpath(o), i) for o, i in outs_of(env, c)]
        wins = C.windows_of(c, env.exists) if c['kind'] in C.FRAME_OUT else []
        before = env.files()
        faulty = bool(c.get('faults'))
        r = env.cmd(c)
        if sc['files'] or sc['remove']:
            sim.ST.nontrivial.add(hashlib.sha256(sim.canonical(sc).encode()).digest()[:8])
        after = env.files()
        onames = {o for o, _ in outs}
        opened = []
        for e in r.world.events:
            if e[2] == 'open-r' and e[3] is not None:
                q = env.rel(env.fs.resolve(e[3]))
                if q in before and q not in onames and q not in opened:
                    opened.append(q)
        extra = [q for q in opened if q not in ins]
        if extra:
            fail('reads', '%r is read although it is not selected by %r' % (extra[0], ' '.join(C.argv(c))))
        new = [q for q in after if q not in before and q not in onames
               and not any(backup_of(o).match(q) for o in onames)]
        if new:
            fail('numbering', 'unexpected output %r of %r (expected %r)' % (new[0], ' '.join(C.argv(c)), sorted(onames)))
        hard = [f for f in r.fired if f['kind'] not in ('short', 'clock')]
        if hard:
            return r.ops
        if not sel:
            probe('nothing selected')
            t = r.out + r.err
            b, g = c.get('begin', 1), c.get('group', 1) if c['kind'] in ('average', 'iview') else 1
            if c.get('end') is not None and b + g - 1 > c['end']:
                return r.ops                # an empty range was asked for
            if c['base'] not in t or 'o files' not in t and 'arning' not in t:
                fail('warning', 'no warning that there are no files:\n%s' % t)
            return r.ops
        if ins and r.exit != 0:
            fail('fails', 'the command ends with status %r:\n%s' % (r.exit, (r.tb or r.out + r.err)[-1500:]))
        if not ins:
            probe('no whole bundle')
        missed = [q for q in ins if q not in opened and q not in onames]
        if missed:
            fail('reads', '%r is not read by %r' % (missed[0], ' '.join(C.argv(c))))
        for o in onames:
            if o not in after:
                fail('numbering', 'output %r is missing' % o)
        if c['kind'] in ('sample', 'isample', 'iangle', 'scollect', 'csample'):
            n = sum(1 for l in after[outs[0][0]].split(b'\n') if l.strip() and not l.startswith(b'#'))
            due = sum(C.rows_due(c, p, ins))
            if c['kind'] == 'iangle' and not (c.get('fit') or c.get('height') is not None):
                due = n
            if n != due:
                fail('rows', '%d rows instead of %d' % (n, due))
        if c['kind'] in ('convert', 'average'):
            fr = C.frames_of(p)
            for w, k in wins:
                o = os.path.normpath(fname(c['out'], k, C.out_ext(c)))
                try:
                    ft = c.get('ftype', 'gmx') if c['kind'] == 'convert' else 'gmx'
                    got = rm.dec(after[o], ft)
                except rm.Bad as e:
                    fail('bad-file', '%r: %s' % (o, e))
                bad = rm.same_frame(got, rm.average([fr[n] for n in w]) if c['kind'] == 'average' else
                                    masked(fr[w[0]], p), ft, p['fmt'])
                if bad:
                    fail('frames', '%r is not made from the frames %r: %s' % (o, w, bad))
        return r.ops

    def variants(self, rng, sc, ops):
        for _ in range(self.nvar):
            if not ops:
                return
            x = copy.deepcopy(sc)
            r = rng.random()
            if r < 0.3:
                f = sim.crash_fault(rng, ops)
            elif r < 0.6:
                f = sim.err_fault(rng, ops, sim.READ_OPS + sim.WRITE_OPS)
            else:
                f = None
            x['cmds'][0]['faults'] = [g for g in [f] + sim.benign(rng, ops, 3) if g]
            yield x


def masked(fr, p):
    """A frame as read: the gmx format has no data for bins without mass."""
    import numpy as np
    if p['fmt'] in ('simple', 'plain'):
        return fr
    m = fr['M'] != 0
    return dict(fr, **{l: np.where(m, fr[l], 0.0) for l in rm.FIELDS})


# ------------------------------------------------------------------------------------------
class C12(Prop):
    id = 'C12'
    jobs = {'quick': 600, 'thorough': 20000}
    nvar = 5
    rule = ('sessions of 2-6 commands of all kinds in one process on two input sets, the earlier ones completing, failing at random operations or interrupted; the last '
            'command is run again in a new process from the same files at the same time: files, messages and status must agree. Also single commands at other times, with clock jumps '
            'and delays, and batches of runs in processes with different hash seeds. Non-trivial: more than one command or a fault.')

    def gen(self, rng):
        ws, cs = [], []
        for k in range(2):
            p, c = C.gen_job(rng, C.ALL, 1, 4)
            for _ in range(10):
                if k == 0 or p.get('base', p.get('names')) != ws[0].get('base', ws[0].get('names')):
                    break
                p, c = C.gen_job(rng, C.ALL, 1, 4)
            if k == 1 and p.get('spread') and ws[0].get('spread'):
                p, c = C.gen_job(rng, C.READS_IFACE + ('sample',), 1, 4)
            if k == 1 and 'shape' in ws[0] and rng.random() < 0.3:
                # the same commands on maps of the same shape, elsewhere
                p, c = copy.deepcopy(ws[0]), copy.deepcopy(cs[0])
                p['base'] = c['base'] = 'other/' + rng.choice(['f_', 'map', ''])
                p['seed'] += 7
                self.move(rng, p)
                if c.get('out'):
                    c['out'] += 'k'
                if rng.random() < 0.3:
                    p['fmt'] = rng.choice(['gmx', 'gmx_min', 'gmx_perm', 'gmx2', 'simple', 'plain'])
                if c['kind'] in C.FIG:
                    c = C.gen_view(rng, c, p, 'k')
            ws.append(p)
            cs.append(c)
        for _ in range(rng.choice([0, 1, 2, 4])):
            p = rng.choice(ws)
            k = rng.choice(C.READS_IFACE if p.get('iface') else C.READS_SPREAD if p.get('spread') else
                           C.READS_FLOW + C.FIG)
            c = C.gen_cmd(rng, k, p, tag=rng.choice(['', 'b', 'c']))
            if C.valid(c, p):
                cs.append(c)
        if rng.random() < 0.4:
            cs.append(copy.deepcopy(rng.choice(cs)))
        rng.shuffle(cs)
        for _ in range(rng.choice([0, 1, 1])):
            # the last command once more, or before, with one thing changed
            c = tweak(rng, copy.deepcopy(cs[-1]))
            cs.insert(rng.choice([len(cs), len(cs) - 1, rng.randrange(len(cs))]), c)
        for c in cs:
            if rng.random() < 0.4:
                C.add_fig(rng, c)
            if c['kind'] == 'sample' and rng.random() < 0.5:
                c['labels'] += [rng.choice('MUVTN') for _ in range(3)]
        return {'worlds': ws, 'cmds': cs, 'bufsize': bufsize(rng), 't0': 1.7e9 + rng.randrange(10**8), 'mode': 'session'}

    @staticmethod
    def move(rng, q):
        if rng.random() < 0.7:
            q['spacing'] = list(rng.choice(W.SPACINGS))
        if rng.random() < 0.7:
            q['origin'] = [round(rng.uniform(-3, 3), 2), round(rng.uniform(-2, 2), 2)]

    def reseed(self, rng, sc):
        """Inputs replaced by others of the same names before some commands."""
        out = {}
        for _ in range(rng.choice([1, 1, 2])):
            w = rng.randrange(len(sc['worlds']))
            q = {'seed': rng.randrange(10**6)}
            if 'fmt' in sc['worlds'][w] and rng.random() < 0.5:
                q['fmt'] = rng.choice(['gmx', 'gmx_min', 'gmx_perm', 'gmx2', 'simple', 'plain'])
            if 'shape' in sc['worlds'][w] and rng.random() < 0.5:
                self.move(rng, q)
            out.setdefault(str(rng.randrange(1, len(sc['cmds']))), []).append([w, q])
        return out

    def execute(self, sc):
        if sc['mode'] == 'clock':
            return self.clock(sc)
        env = Env(sc)
        snap = {}
        todo = {k: [f for f in d.get('faults') or () if f] for k, d in enumerate(sc['cmds'])}
        for d in sc['cmds']:
            sim.ST.cmds[d['kind']] += 1
        spans = []

        def body(actor):
            def on_mark(k):
                w = actor.world
                actor.pending = False
                w.no_faults(actor)
                spans.append(actor.nops)
                for f in todo.get(k, ()):
                    w.at_op(dict(f, actor=actor.idx, op=actor.nops + f['op']))
                for wi, q in sc.get('reseed', {}).get(str(k), ()):
                    for path, data in W.files_of(dict(sc['worlds'][wi], **q)).items():
                        env.put(path, data)
                snap['fs'] = (env.fs.snapshot(), env.fs.modes())
            actor.on_mark = on_mark
            return session([C.argv(c) for c in sc['cmds']])(actor)
        r = env.run(body)[0]
        if r.result is None:
            fail('ends', 'the process ended with %r:\n%s' % (r.exit, r.tb[-1000:]))
        m = r.actor.marks[-1]
        e2 = Env({'bufsize': env.bufsize})
        e2.fs.restore(*snap['fs'])
        e2.t = m['now']

        def alone(actor):
            actor.on_mark = None
            return session([C.argv(sc['cmds'][-1])])(actor)
        q = e2.run(alone)[0]
        what = 'after %d other commands %r' % (len(sc['cmds']) - 1, ' '.join(C.argv(sc['cmds'][-1])))
        if r.result[-1] != q.result[0]:
            fail('status', '%s ends with %r instead of %r' % (what, r.result[-1], q.result[0]))
        a, b = norm_files(env.files()), norm_files(e2.files())
        d = sorted(p for p in set(a) | set(b) if a.get(p) != b.get(p))
        if d:
            fail('files', '%s: %r differ from those of a new process' % (what, d))
        for n, x, y in (('out', r.out[m['out']:], q.out), ('err', r.err[m['err']:], q.err)):
            if said(x) != said(y):
                fail('messages', '%s prints other messages:\n%s\ninstead of\n%s' % (what, x[-600:], y[-600:]))
        ops, s = [], spans + [len(r.ops)]
        for k in range(len(spans)):
            ops.append(r.ops[s[k]:s[k + 1]])
        return ops

    def clock(self, sc):
        c = sc['cmds'][-1]
        res = []
        for x in (twin_scenario(dict(sc, cmds=[c])), dict(sc, cmds=[c], t0=sc['t1'])):
            env = Env(x)
            r = env.cmd(x['cmds'][0])
            res.append((r.exit, norm_files(env.files())))
        if res[0] != res[1]:
            d = sorted(p for p in set(res[0][1]) | set(res[1][1]) if res[0][1].get(p) != res[1][1].get(p))
            fail('clock', 'at another time %r gives status %r instead of %r, %r differ' % (
                ' '.join(C.argv(c)), res[1][0], res[0][0], d))
        return None

    def variants(self, rng, sc, ops):
        for _ in range(self.nvar):
            x = copy.deepcopy(sc)
            if rng.random() < 0.2:
                x['mode'] = 'clock'
                o = ops[-1]
                x['t1'] = rng.choice([1e6, 946684800.0, 1.7e9 + rng.randrange(10**9), 4.1e9])
                c = x['cmds'][-1]
                c['faults'] = [g for _ in range(3) for g in sim.benign(rng, o, 3)]
                c['stalls'] = {str(rng.randrange(1, len(o) + 2)): rng.choice([0.5, 100.0, 1e5]) for _ in range(4)} if o else {}
                yield x
                continue
            for c, o in list(zip(x['cmds'], ops))[:-1]:
                if not o or rng.random() < 0.3:
                    continue
                if rng.random() < 0.5:
                    f = {'op': rng.randrange(len(o)), 'kind': 'interrupt'}
                else:
                    f = sim.err_fault(rng, o, sim.READ_OPS + sim.WRITE_OPS)
                c['faults'] = [f] if f else []
            if rng.random() < 0.3:
                i = rng.randrange(len(x['cmds']))
                x['cmds'].append(x['cmds'].pop(i))
                x['cmds'][-1].pop('faults', None)
            if rng.random() < 0.5 and len(x['cmds']) > 1:
                x['reseed'] = self.reseed(rng, x)
            yield x

    # runs in processes with different hash seeds
    def post(self, seed, tier, runner):
        n = 320 if tier == 'quick' else 3200
        a, b = runner(('1', '87654'), seed, n)
        for i in range(n):
            if a[i] != b[i]:
                import batch
                return i, self.gen(batch.jobrng(seed, self.id, i)), 'hash-seed', \
                    'a session has other results in a process with another hash seed'
        return n

    def digest(self, sc):
        """Results of the session, without anything of the comparison."""
        sim.EXEC['sha'] = hashlib.sha256()
        env = Env(sc)

        def body(actor):
            actor.on_mark = None
            return session([C.argv(c) for c in sc['cmds']])(actor)
        r = env.run(body)[0]
        h = hashlib.sha256()
        for p, d in sorted(env.files().items()):
            h.update(repr((p, d)).encode())
        h.update(repr((r.result, addr(r.out), addr(r.err))).encode())
        return h.hexdigest()


def tweak(rng, c):
    k = c['kind']
    r = rng.random()
    if k in C.READS_SPREAD + C.FIG:
        if len(c['files']) > 1 and r < 0.7:
            c['files'] = rng.sample(c['files'], rng.randint(1, len(c['files'])))
        return c
    if r < 0.35:
        c['begin'] = c.get('begin', 1) + rng.choice([1, 1, 2])
    elif r < 0.5:
        c['end'] = c.get('begin', 1) + rng.randint(0, 2)
    elif k in C.GROUPED:
        if r < 0.7:
            c['group'] = rng.choice([1, 2, 3])
        elif r < 0.8 and k == 'csample':
            c['dt'] = 3.5
        elif r < 0.85 and k == 'ccollect':
            c['fuse'] = not c.get('fuse')
        elif r < 0.9 and k in C.CONTACT:
            c['norecenter'] = not c.get('norecenter')
        else:
            c['rolling'] = not c.get('rolling')
    elif k == 'convert':
        c['ftype'] = rng.choice(['gmx', 'simple', 'simple_plain'])
    elif k == 'icollect':
        c['recenter'] = rng.choice(['off', 'com', 'zero'])
    elif k == 'sample' and r < 0.8:
        c['labels'] = [rng.choice(['M', 'U', 'V', 'T', 'N']) for _ in range(rng.randint(1, 3))]
    elif k == 'isample' and r < 0.8:
        c['var'] = rng.choice(['area', 'length'])
    elif k == 'scollect' and r < 0.8:
        c['t0'] = 3.0
    else:
        c['dt'] = 3.5
    return c


def said(s):
    """Messages without the progress bars, which depend on the time taken."""
    return [l for l in re.split('[\r\n]', addr(s)) if 'ETA:' not in l and 'Time:' not in l and l.strip()]


def addr(s):
    return re.sub(r'0x[0-9a-f]{6,}', '0x', s)


# ------------------------------------------------------------------------------------------
class C13(Prop):
    id = 'C13'
    jobs = {'quick': 500, 'thorough': 20000}
    nvar = 8
    rule = ('2-4 commands at the same time on the same inputs with different outputs, in the same new directories or with earlier outputs to back up, switching '
            'at 1-400 random operations, with stalls, and some of them killed or failing on the way. Each one which is not hit must exit 0 and leave the outputs it writes '
            'alone. Non-trivial: a context switch or fault.')

    def gen(self, rng):
        for _ in range(100):
            r = rng.random()
            if r < 0.7:
                p, c = C.gen_job(rng, C.READS_FLOW, 1, 4)
                kinds = C.READS_FLOW
            elif r < 0.9:
                p, c = C.gen_job(rng, C.READS_IFACE, 1, 4)
                kinds = C.READS_IFACE
            else:
                p, c = C.gen_job(rng, C.READS_SPREAD, 1, 3)
                kinds = C.READS_SPREAD
            cs = []
            d = rng.choice(['', 'new/', 'new/er/dir/'])
            for j in range(rng.choice([2, 2, 3, 4])):
                k = rng.choice(kinds)
                if k in ('scollect', 'icollect') and 'drop' not in p:
                    k = rng.choice(['average', 'convert', 'sample'])
                c = C.gen_cmd(rng, k, p)
                c['out'] = d + ['a', 'b', 'c', 'd'][j] + ('_' if k in C.FRAME_OUT else '.out')
                if C.valid(c, p):
                    cs.append(c)
            if len(cs) > 1:
                break
        sc = {'worlds': [p], 'cmds': cs, 'bufsize': bufsize(rng), 'files': {}}
        if rng.random() < 0.3:
            env = Env(sc)
            for c in cs:
                for o, _ in outs_of(env, c):
                    if rng.random() < 0.5:
                        sc['files'][o] = sim.junk(rng)
        sc['preempt'] = self.sched(rng, 60 * len(cs), 20)
        return sc

    @staticmethod
    def sched(rng, top, n):
        return {str(rng.randrange(1, top)): rng.randrange(12) for _ in range(n)}

    def alone(self, sc, k):
        key = ('alone', k, sim.canonical([sc['worlds'], sc['files'], strip(sc['cmds'][k])]))
        if key not in self.memo:
            x = twin_scenario(sc)
            env = Env(x)
            outs = [os.path.normpath(o) for o, _ in outs_of(env, x['cmds'][k])]
            r = env.cmd(x['cmds'][k])
            fs = env.files()
            self.memo[key] = (r.exit, {o: rm.norm(fs.get(o, b'missing')) for o in outs}, r.nops)
        return self.memo[key]

    def execute(self, sc):
        want = [self.alone(sc, k) for k in range(len(sc['cmds']))]
        env = Env(sc)
        for d in sc['cmds']:
            sim.ST.cmds[d['kind']] += 1
        faults = [dict(f, actor=k) for k, d in enumerate(sc['cmds']) for f in d.get('faults') or () if f]
        rs = env.run(*[procs.cli(C.argv(d)) for d in sc['cmds']], preempt=sc.get('preempt'),
                     stalls=sc.get('stalls'), faults=faults)
        fs = env.files()
        for k, (r, (ex, outs, _)) in enumerate(zip(rs, want)):
            hit = [f for f in r.fired if f['kind'] not in ('short', 'clock', 'stall')]
            if hit:
                continue
            what = '%r running beside %r' % (' '.join(C.argv(sc['cmds'][k])),
                                             [' '.join(C.argv(d)) for j, d in enumerate(sc['cmds']) if j != k])
            if r.exit != ex:
                fail('status', '%s ends with status %r instead of %r:\n%s' % (
                    what, r.exit, ex, (r.tb or r.out + r.err)[-1200:]))
            for o, b in outs.items():
                if rm.norm(fs.get(o, b'missing')) != b:
                    fail('output', '%s: output %r differs from that written alone' % (what, o))
        return [r.ops for r in rs]

    def variants(self, rng, sc, ops):
        total = sum(len(o) for o in ops)
        for _ in range(self.nvar):
            x = copy.deepcopy(sc)
            n = rng.choice([1, 2, 5, 30, 120, 400])
            x['preempt'] = self.sched(rng, total + 5, n)
            if rng.random() < 0.3:
                x['stalls'] = {str(rng.randrange(1, max(2, total + 1))): 30.0 for _ in range(3)}
            for c, o in zip(x['cmds'], ops):
                r = rng.random()
                if r < 0.15:
                    f = sim.crash_fault(rng, o)
                elif r < 0.25:
                    f = sim.err_fault(rng, o, sim.READ_OPS + sim.WRITE_OPS)
                else:
                    f = None
                c['faults'] = [g for g in [f] + sim.benign(rng, o, 2) if g]
            yield x


# ------------------------------------------------------------------------------------------
def data_rows(b):
    return [l for l in (b or b'').split(b'\n') if not l.startswith(b'#')]


def lib_call(c):
    """The command through the library, for its return value."""
    kw = {'begin': c.get('begin', 1), 'end': c.get('end') if c.get('end') is not None else float('inf'),
          'ext': C.in_ext(c)}

    def fn(mods):
        if c['kind'] == 'scollect':
            return mods['strata.spreading.collect'].collect(
                c['base'], floor=float(c['floor']), cutoff=c.get('co'), cutoff_radius=c['cr'],
                cutoff_bins=c.get('cb', 1), dt=c.get('dt', 1.0), t0=c.get('t0', 0.0), save=c['out'], **kw)
        if c['kind'] == 'csample':
            kw.update({k: c[q] for k, q in (('dt', 'dt'), ('extract_height', 'eh')) if q in c})
            return mods['strata.contact_line_analysis'].sample_contact_line_edges(
                c['base'], c['labels'], save=c['out'], average=c.get('group', 1), rolling=c.get('rolling', False),
                recenter=not c.get('norecenter'), sum=c.get('sum', False), floor=c.get('floor'),
                extract_area=tuple(c.get('ea') or (0., 0.)), cutoff=c.get('co'), cutoff_radius=c['cr'],
                cutoff_bins=c.get('cb', 1), **kw)
        if c['kind'] == 'sample':
            return mods['strata.sample_average'].sample_average_files(
                c['base'], c['labels'], output=c['out'], sum=c.get('sum', False), dt=c.get('dt', 1.0),
                cutoff_label=c.get('cl'), cutoff=c.get('co'), **kw)
        return mods['strata.interface.sample'].sample_interfaces(
            c['base'], c['var'], save_xvg=c['out'], delta_t=c.get('dt', 1.0), show=False, **kw)
    return fn


class C14(Prop):
    id = 'C14'
    jobs = {'quick': 700, 'thorough': 25000}
    nvar = 8
    rule = ('row files which may not be created, renamed or put into a directory (EACCES at the operation, directories without write permission); interface series with members which are '
            'garbage, ragged, empty, unreadable or failing in the middle; spreading files failing to open or read or holding bad values. The message must be there and everything else equal '
            'to the undisturbed run. Non-trivial: the row file was refused or an input was bad.')

    def gen(self, rng):
        kind = rng.choice(['log', 'log', 'iview', 'iview', 'spread'])
        if kind == 'log':
            p, c = C.gen_job(rng, C.LOGS, 1, 5)
        elif kind == 'iview':
            p, c = C.gen_job(rng, ('iview',), 2, 7)
            if rng.random() < 0.4:
                C.add_fig(rng, c)
        else:
            p, c = C.gen_job(rng, C.READS_SPREAD, 2, 3)
        sc = {'worlds': [p], 'cmds': [c], 'bufsize': bufsize(rng), 'what': kind, 'files': {}}
        if kind == 'log' and rng.random() < 0.4:
            sc['files'][c['out']] = sim.junk(rng)
        return sc

    def execute(self, sc):
        return getattr(self, sc['what'])(sc)

    # -- row files
    def log(self, sc):
        c = sc['cmds'][0]
        t = twin_scenario(sc)
        t.pop('modes', None)
        key = ('lib', sim.canonical(t))
        if key not in self.memo:
            e = Env(t)
            r = e.run(procs.call(lib_call(c)))[0]
            e2 = Env(t)
            q = e2.cmd(t['cmds'][0])
            self.memo[key] = (r, q, e.files().get(os.path.normpath(c['out'])), e2.files().get(os.path.normpath(c['out'])))
        r0, q0, f0, g0 = self.memo[key]
        if r0.exit != 0 or q0.exit != 0:
            fail('fails', 'the undisturbed run ends with %r, %r:\n%s' % (r0.exit, q0.exit, (r0.tb or q0.tb)[-1500:]))
        refused = []

        def on_event(ev):
            if ev[2] == 'FAULT:EACCES':
                refused.append(1)
        faults = [f for f in c.get('faults') or () if f]
        for how in ('library', 'command'):
            env = Env(sc)
            env.fs.mark_durable()
            sim.ST.cmds[c['kind']] += 1
            before = env.files()
            del refused[:]
            r = env.run(procs.call(lib_call(c)) if how == 'library' else procs.cli(C.argv(c)), faults=faults,
                        on_event=[on_event])[0]
            deny = bool(refused) or bool(sc.get('modes'))
            if not deny:
                return r.ops
            sim.ST.nontrivial.add(hashlib.sha256(sim.canonical([sc, how]).encode()).digest()[:8])
            probe('row file refused')
            if r.exit != 0:
                fail('stops', 'the run ends with status %r although only its row file %r may not be written:\n%s' % (
                    r.exit, c['out'], (r.tb or r.out + r.err)[-1200:]))
            now, old = (x.get(os.path.normpath(c['out'])) for x in (env.files(), before))
            if now and now != old and data_rows(now) == data_rows(f0 if how == 'library' else g0):
                pass        # written all the same
            elif c['out'] not in (r.out + r.err).replace(q0.out, '') or 'arning' not in (r.out + r.err).lower():
                fail('unannounced', 'no message about the row file %r:\n%s' % (c['out'], r.out[-500:]))
            if how == 'library' and repr_value(r.result) != repr_value(r0.result):
                fail('values', 'the returned values differ from those of the undisturbed run:\n%r\n%r' % (
                    r.result, r0.result))
            if how == 'command':
                seen = {e[3] for e in r.world.events if e[2] == 'open-r'}
                for i in C.inputs(c, Env(t).exists):
                    if env.abs(i) not in seen:
                        fail('stops', 'frame %r is not read' % i)
                if not all(l in r.out for l in q0.out.split('\n') if c['out'] not in l):
                    fail('values', 'the printed values differ:\n%s\n%s' % (r.out, q0.out))
            changed = [q for q, b in env.files().items() if q in before and before[q] != b
                       and q != os.path.normpath(c['out'])]
            if changed:
                fail('changes', '%r changed' % changed)
        return r.ops

    # -- interfaces
    def iview(self, sc):
        c = sc['cmds'][0]
        env = Env(twin_scenario(dict(sc, bad={})))
        outs = outs_of(env, c)
        outs += list(zip(C.figures(c, env.exists), [i for _, i in outs]))
        env.cmd(strip(c))
        want = norm_files(env.files())
        env = Env(sc)
        bad = set()
        for path, how in sorted(sc.get('bad', {}).items()):
            self.spoil(env, path, how)
        r = env.cmd(c)
        bad = set(sc.get('bad', {}))
        for f in r.fired:
            if f['kind'] not in ('short', 'clock'):
                bad.add(env.rel(f['path']))
        if not bad:
            if r.exit != 0:
                fail('fails', 'status %r:\n%s' % (r.exit, r.tb[-1000:]))
            return r.ops
        sim.ST.nontrivial.add(hashlib.sha256(sim.canonical(sc).encode()).digest()[:8])
        if r.exit != 0:
            fail('stops', 'status %r although only %r cannot be used:\n%s' % (
                r.exit, sorted(bad), (r.tb or r.out + r.err)[-1200:]))
        after = norm_files(env.files())
        text = r.out + r.err
        for o, ins in outs:
            q = os.path.normpath(o)
            hurt = [i for i in ins if os.path.normpath(i) in bad or i in bad]
            if not hurt:
                if after.get(q) != want.get(q):
                    fail('others', 'output %r of good files differs although only %r cannot be used' % (o, sorted(bad)))
                continue
            probe('group skipped')
            # a member which fails only once may have been used by another bundle
            solid = [i for i in hurt if i in sc.get('bad', {})]
            if solid:
                if q in after and after[q] != Env(sc).files().get(q):
                    fail('used', 'output %r was written although %r cannot be used' % (o, solid))
            elif q in after and after[q] != want.get(q):
                fail('used', 'output %r differs although %r could not be read' % (o, hurt))
            if q not in after and not any(os.path.basename(i) in text for i in hurt):
                fail('unannounced', 'no message about %r:\n%s' % (hurt, text[-800:]))
        return r.ops

    @staticmethod
    def spoil(env, path, how):
        n = env.fs.table[env.abs(path)]
        if how == 'mode':
            n.mode = 0
        else:
            n.data = bytearray(how.encode())
        env.fs.mark_durable()

    # -- spreading files
    def spread(self, sc):
        c = sc['cmds'][0]
        bad = dict(sc.get('bad', {}))
        env = Env(sc)
        for path, how in sorted(bad.items()):
            self.spoil(env, path, how)
        r = env.cmd(c)
        hit = set(bad)
        for f in r.fired:
            if f['kind'] not in ('short', 'clock'):
                hit.add(env.rel(f['path']))
        good = [f for f in c['files'] if os.path.normpath(f) not in hit and f not in hit]
        if not hit:
            return r.ops
        if not good:
            probe('no good spreading file')
            return r.ops
        sim.ST.nontrivial.add(hashlib.sha256(sim.canonical(sc).encode()).digest()[:8])
        e2 = Env(twin_scenario(dict(sc, bad={})))
        c2 = strip(c)
        c2['files'] = good
        q = e2.cmd(c2)
        if r.exit != q.exit:
            fail('stops', 'status %r although %r can be used:\n%s' % (r.exit, good, (r.tb or r.out + r.err)[-1200:]))
        text = r.out + r.err
        for b in hit:
            if os.path.basename(b) not in text or 'arning' not in text.lower():
                fail('unannounced', 'no warning about %r:\n%s' % (b, text[-800:]))
        probe('spreading file skipped')
        a, b = env.read(c['out']), e2.read(c['out'])
        if a is None or rm.norm(a) != rm.norm(b or b''):
            fail('others', 'the output differs from that of the good files %r alone' % good)
        return r.ops

    def variants(self, rng, sc, ops):
        c = sc['cmds'][0]
        for _ in range(self.nvar):
            x = copy.deepcopy(sc)
            d = x['cmds'][0]
            if sc['what'] == 'log':
                cand = [k for k, o in enumerate(ops) if o[0] in ('open-w', 'rename', 'mkdir', 'link', 'unlink')]
                first = [k for k in cand if ops[k][0] == 'open-w'][:1]
                cand = [k for k in cand if not first or k <= first[0]]
                if cand and rng.random() < 0.75:
                    k = rng.choice(cand)
                    f = {'op': k, 'kind': 'EACCES', 'on': ops[k][0]}
                    d['faults'] = [f] + sim.benign(rng, ops, 2)
                else:
                    dn = os.path.dirname(c['out'])
                    if not dn:
                        continue
                    x['dirs'] = [dn]
                    if c['out'] not in x['files']:
                        x['modes'] = {dn: 0o555}
                    elif rng.random() < 0.5:
                        x['modes'] = {dn: 0o555}
                    else:
                        continue
                yield x
            elif sc['what'] == 'iview':
                p = sc['worlds'][0]
                x['bad'] = {}
                for _ in range(rng.choice([1, 1, 2])):
                    n = fname(p['base'], rng.choice(p['numbers']), p['ext'])
                    x['bad'][n] = rng.choice(['mode', 'garbage\n', '1.0 2.0 3.0\n1.0\n', '# x\n1 2\n3 4 5\n',
                                              '1.0\n2.0\n3.0\n', 'a b\n1 2 3\n'])
                if rng.random() < 0.4:
                    x['bad'] = {}
                    f = sim.err_fault(rng, ops, ('open-r', 'read'))
                    d['faults'] = [f] if f else []
                yield x
            else:
                x['bad'] = {}
                if rng.random() < 0.5:
                    n = rng.choice(c['files'])
                    x['bad'][n] = rng.choice(['@target G0.S0\n@type xy\n1.0 2.0\n2.0 oops\n',
                                              '@target G0.S0\n@type xy\n1.0 2.0\n2.0 3.0 4.0\n'])
                else:
                    f = sim.err_fault(rng, ops, ('open-r', 'read'))
                    if f:
                        f['sticky'] = False
                    d['faults'] = [f] if f else []
                yield x

    def shrinks(self, sc):
        for n in sorted(sc.get('bad', ())):
            if len(sc['bad']) > 1:
                x = copy.deepcopy(sc)
                del x['bad'][n]
                yield x
        yield from generic_shrinks(sc)


def repr_value(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return ('array', v.dtype.str if v.dtype.names is None else v.dtype.names, v.tobytes())
    if isinstance(v, (list, tuple)):
        return [repr_value(x) for x in v]
    if isinstance(v, dict):
        return sorted((k, repr_value(x)) for k, x in v.items())
    return repr(v)


# ------------------------------------------------------------------------------------------
class C16(Prop):
    id = 'C16'
    jobs = {'quick': 700, 'thorough': 30000}
    nvar = 8
    kinds = C.READS_FLOW
    rule = ('a producer writes 1-6 further gmx maps one after the other in chunks of 1 byte to a whole file (stub), stalls, or dies, while a command reads the series; '
            'switching at random operations. Success requires the outputs for a gapless run of whole frames including all complete at the start, failure requires a torn frame. '
            'Non-trivial: a context switch between producer and command.')

    def gen(self, rng):
        for _ in range(200):
            p, c = C.gen_job(rng, self.kinds, 2, 7, fmts=['gmx', 'gmx', 'gmx_min', 'gmx_perm', 'gmx2'], window=False)
            c.pop('end', None)
            if c.get('begin', 1) == p['numbers'][0]:
                break
        n = len(p['numbers'])
        return {'worlds': [p], 'cmds': [c], 'bufsize': bufsize(rng), 'initial': rng.randint(0 if rng.random() < .2 else 1, n - 1),
                'chunks': rng.choice([1, 2, 3, 3, 5, 9]), 'atomic': rng.random() < 0.15,
                'preempt': {str(k): rng.randrange(4) for k in sorted(rng.sample(range(1, 150), 25))},
                'fixed_cmds': True}

    def names(self, sc):
        p = sc['worlds'][0]
        return [os.path.normpath(fname(p['base'], n, p['ext'])) for n in p['numbers']]

    def twin(self, sc, k):
        key = ('twin', k, sim.canonical([sc['worlds'], strip(sc['cmds'][0])]))
        if key not in self.memo:
            x = {'worlds': sc['worlds'], 'cmds': [strip(sc['cmds'][0])], 'remove': self.names(sc)[k:]}
            env = Env(x)
            outs = outs_of(env, x['cmds'][0])
            r = env.cmd(x['cmds'][0])
            self.memo[key] = (r.exit, norm_files(env.files()), outs)
        return self.memo[key]

    def execute(self, sc):
        c = sc['cmds'][0]
        names = self.names(sc)
        m, K = sc['initial'], len(names)
        full = {os.path.normpath(k): v for k, v in W.files_of(sc['worlds'][0]).items()}
        env = Env(dict(sc, remove=names[m:]))
        todo = names[m:]

        def producer(actor):
            for nm in todo:
                data = full[nm]
                dst = nm + '.part' if sc['atomic'] else nm
                n = sc['chunks']
                rng = random.Random(len(data) * 31 + n)
                cuts = sorted({rng.randrange(len(data) + 1) for _ in range(n - 1)})
                with open(dst, 'wb') as fp:
                    prev = 0
                    for q in cuts + [len(data)]:
                        fp.write(data[prev:q])
                        fp.flush()
                        prev = q
                if sc['atomic']:
                    os.rename(dst, nm)
        torn = set()
        opened = []
        base = Env(sc)

        def on_event(ev):
            if ev[1] != 1 or ev[2] not in ('open-r', 'read', 'npread'):
                return
            q = env.rel(ev[3])
            if q in full:
                if q not in opened:
                    opened.append(q)
                n = env.fs.get(ev[3])
                if n is not None and bytes(n.data) != full[q]:
                    torn.add(q)
        env.fs.mark_durable()
        sim.ST.cmds[c['kind']] += 1
        faults = [dict(f, actor=0) for f in sc.get('pfaults') or () if f]
        faults += [dict(f, actor=1) for f in c.get('faults') or () if f]
        rs = env.run(producer, procs.cli(C.argv(c)), preempt=sc.get('preempt'), stalls=sc.get('stalls'),
                     faults=faults, on_event=[on_event])
        r = rs[1]
        after = norm_files(env.files())
        if torn:
            probe('torn frame met')
        matches = []
        for k in range(m, K + 1):
            ex, files, outs = self.twin(sc, k)
            if ex != 0:
                continue
            if all(after.get(os.path.normpath(o)) == files.get(os.path.normpath(o)) for o, _ in outs) and \
                    not self.more(after, outs, k, sc):
                matches.append(k)
        if r.exit == 0:
            if not matches:
                fail('mixed', 'the command succeeded but its outputs are not those of the first k whole frames for any k >= %d '
                     '(frames read while incomplete: %r)' % (m, sorted(torn)))
            if matches[0] > m:
                probe('later frames processed')
            return r.ops
        hit = [f for f in r.fired if f['kind'] not in ('short', 'clock', 'stall')]
        if not torn and not hit:
            fail('fails', 'the command ends with status %r although every frame was whole when read:\n%s' % (
                r.exit, (r.tb or r.out + r.err)[-1200:]))
        # what was complete before must be there, what was torn must not be used
        first = names.index(min(torn, key=names.index)) if torn else K
        ex, files, outs = self.twin(sc, K)
        if ex == 0:
            for o, ins in outs:
                q = os.path.normpath(o)
                idx = [names.index(os.path.normpath(i)) for i in ins]
                if c['kind'] in C.FRAME_OUT:
                    if max(idx) < min(first, m) and after.get(q) != files.get(q) and not hit:
                        fail('lost', 'output %r of frames which were complete at the start is missing or differs' % o)
                    if q in after and after[q] != files.get(q) and not hit:
                        fail('used', 'output %r is not that of whole frames (incomplete: %r)' % (o, sorted(torn)))
                elif q in after and not hit:
                    a, b = data_rows(after[q]), data_rows(files.get(q, b''))
                    if a != b[:len(a)]:
                        fail('used', 'the rows of %r are not those of whole frames (incomplete: %r)' % (o, sorted(torn)))
                    ex2, f2, _ = self.twin(sc, min(first, m))
                    if len(a) < len(data_rows(f2.get(q, b''))):
                        fail('lost', 'rows of frames complete at the start are missing from %r' % o)
        return r.ops

    @staticmethod
    def more(after, outs, k, sc):
        c = sc['cmds'][0]
        if c['kind'] not in C.FRAME_OUT:
            return False
        names = {os.path.normpath(o) for o, _ in outs}
        for j in range(k, len(sc['worlds'][0]['numbers']) + 1):
            x = set(sc['worlds'][0]['numbers'][:j + 1])
            p = sc['worlds'][0]
            have = {fname(p['base'], n, p['ext']) for n in x}
            for o, _ in C.outputs(c, lambda q: q in have):
                q = os.path.normpath(o)
                if q not in names and q in after:
                    return True
        return False

    def variants(self, rng, sc, ops):
        for _ in range(self.nvar):
            x = copy.deepcopy(sc)
            top = rng.choice([20, 60, 150, 400])
            n = rng.choice([1, 3, 10, 40, 100])
            x['preempt'] = {str(rng.randrange(1, top)): rng.randrange(4) for _ in range(n)}
            x['chunks'] = rng.choice([1, 2, 3, 5, 9])
            if rng.random() < 0.3:
                x['pfaults'] = [{'op': rng.randrange(1, 30), 'kind': 'crash', 'frac': rng.choice([0.0, 0.5, round(rng.random(), 2)])}]
            if rng.random() < 0.3 and ops:
                x['cmds'][0]['faults'] = sim.benign(rng, ops, 3)
            yield x


def data_rows(b):
    return [l for l in b.split(b'\n') if l.strip() and not l.startswith(b'#')]


# ------------------------------------------------------------------------------------------
def mutate_table(rng, data):
    """Damage to a whole column, or to the number of the rows, of a table."""
    ls = data.split(b'\n')
    first = next((i for i, l in enumerate(ls) if re.match(rb'\s*-?[\d.]', l)), 0)
    head, body = ls[:first], [l.split() for l in ls[first:] if l.strip()]
    if not body:
        return data
    r = rng.random()
    j = rng.randrange(max(1, min(len(x) for x in body)))
    if r < 0.5:
        v = rng.choice([b'nan', b'nan', b'inf', b'0', b'-1', b'1e999', None])
        k = rng.choice([0, 0, len(body) // 2])
        for x in body[k:]:
            if j < len(x):
                x[j] = body[0][j] if v is None else v
    if r > 0.3:
        q = rng.random()
        if q < 0.5:
            key = body[0][j] if j < len(body[0]) else b''
            body = [x for x in body if j < len(x) and x[j] == key] or body[:1]
        elif q < 0.7:
            body = body[:rng.choice([1, 2])]
        elif q < 0.85:
            body.reverse()
        else:
            rng.shuffle(body)
    return b'\n'.join(head + [b' '.join(x) for x in body]) + b'\n'


def mutate(rng, data):
    """Damage to the bytes of a file."""
    if rng.random() < 0.25 and b'\0' not in data[:400]:
        try:
            data[:400].decode('ascii')
            return mutate_table(rng, data)
        except UnicodeDecodeError:
            pass
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        n = len(b)
        head = min(n, 200)
        if n == 0 or r < 0.05:
            b[rng.randint(0, n):] = bytes(rng.randrange(256) for _ in range(rng.randint(0, 40)))
        elif r < 0.25:
            del b[rng.randrange(n):]
        elif r < 0.45:
            for _ in range(rng.choice([1, 1, 4])):
                if b:
                    b[rng.randrange(rng.choice([len(b), min(len(b), head)]))] = rng.randrange(256)
        elif r < 0.55:
            k = rng.randrange(n)
            b[k:k + rng.choice([1, 8, 64])] = b'\0' * min(n - k, rng.choice([1, 8, 64]))
        elif r < 0.65:
            k = rng.randrange(n)
            b[k:k] = bytes(rng.choice([b'\0', b'\n', b'nan ', b'-1 ', b'inf\n', b'1e999 ', b'# ', b'FORMAT GMX_FLOW_1\n']))
        elif r < 0.75:
            del b[rng.randrange(n):][:0]
            k = rng.randrange(n)
            del b[k:k + rng.choice([1, 4, 30])]
        elif r < 0.9:
            ls = bytes(b[:4000]).split(b'\n')
            k = rng.randrange(len(ls))
            q = rng.random()
            if q < 0.3:
                ls.insert(k, ls[rng.randrange(len(ls))])
            elif q < 0.6:
                del ls[k]
            else:
                # other numbers in a line of the header or the table
                w = ls[k].split(b' ')
                j = rng.randrange(len(w))
                w[j] = rng.choice([b'0', b'-1', b'-3.5', b'nan', b'inf', b'3', b'17', b'99999999999', b'1e-30', b'x', b''])
                ls[k] = b' '.join(w)
            b = bytearray(b'\n'.join(ls)) + b[4000:]
        else:
            k, j = rng.randrange(n), rng.randrange(n)
            m = rng.choice([1, 4, 20])
            x, y = bytes(b[k:k + m]), bytes(b[j:j + m])
            b[k:k + len(y)] = y
            b[j:j + len(x)] = x
    return bytes(b)


_shape = re.compile(rb'SHAPE\s+(-?\d+)\s+(-?\d+)')


def tame(data):
    """Grids in the declared size of which the simulator can be run."""
    for m in _shape.finditer(data[:4000]):
        a, b = abs(int(m.group(1))), abs(int(m.group(2)))
        if a * b > 3000:
            return False
    return True


class C19(FaultProp):
    id = 'C19'
    jobs = {'quick': 800, 'thorough': 40000}
    nvar = 10
    nmin, nmax = 1, 4
    max_jumps = 600000
    rule = ('every command on inputs damaged at random (cut, flipped, zeroed, duplicated, swapped and foreign pieces, other numbers in headers and tables), with further I/O errors; '
            'the work is counted in loop iterations and operations and must stay below 600000 and 20000. Non-trivial: an input was damaged.')

    def execute(self, sc):
        c = sc['cmds'][0]
        env = Env(sc)
        if sc.get('files'):
            sim.ST.nontrivial.add(hashlib.sha256(sim.canonical(sc).encode()).digest()[:8])
        r = env.cmd(c, max_jumps=self.max_jumps)
        if r.exit == -99:
            fail('endless', '%r does not end within %d loop iterations and %d operations' % (
                ' '.join(C.argv(c)), r.njumps, r.nops))
        if r.exit == 0 and sc.get('files'):
            probe('damage tolerated')
        elif sc.get('files'):
            probe('damage reported')
        return r.ops

    def variants(self, rng, sc, ops):
        files = W.files_of(sc['worlds'][0])
        env = Env(sc)
        for _ in range(self.nvar):
            x = copy.deepcopy(sc)
            for _ in range(rng.choice([1, 1, 2])):
                n = rng.choice(sorted(files))
                d = mutate(rng, files[n])
                if tame(d):
                    x.setdefault('files', {})[n] = {'b64': base64.b64encode(d).decode()}
            if rng.random() < 0.04:
                # a long history of backups
                for o, _ in outs_of(env, x['cmds'][0]):
                    if '\0' not in o:
                        dn, n = os.path.split(o)
                        for k in range(0, rng.choice([101, 130]) + 1):
                            f = o if not k else os.path.join(dn, '#%s.%d#' % (n, k))
                            if not env.exists(f):
                                x.setdefault('files', {}).setdefault(f, {'b64': 'eA=='})
            if rng.random() < 0.25:
                f = sim.err_fault(rng, ops, sim.READ_OPS + sim.WRITE_OPS)
                if f:
                    x['cmds'][0]['faults'] = [f]
                    if rng.random() < 0.5:
                        f['sticky'] = True
            yield x
