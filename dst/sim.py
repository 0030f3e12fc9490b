"""Executing scenarios: one scenario (JSON) is one exactly repeatable execution."""

import base64
import collections
import hashlib
import json
import random
import re

import cmds as C
import kernel
import procs
import world as W
from kernel import VROOT, World
from simfs import SimFS

CWD = VROOT + '/work'


ADDR = re.compile(r'0x[0-9a-f]+')


class Stats:
    """What a batch covered."""

    def __init__(self):
        self.runs = 0
        self.simtime = 0.0
        self.ops = 0
        self.faults = collections.Counter()
        self.planned = 0
        self.traces = set()
        self.nontrivial = set()
        self.probes = collections.Counter()
        self.cmds = collections.Counter()
        self.switches = 0

    def merge(self, o):
        self.runs += o.runs
        self.simtime += o.simtime
        self.ops += o.ops
        self.faults.update(o.faults)
        self.planned += o.planned
        self.traces |= o.traces
        self.nontrivial |= o.nontrivial
        self.probes.update(o.probes)
        self.cmds.update(o.cmds)
        self.switches += o.switches


ST = Stats()
EXEC = {'sha': hashlib.sha256(), 'events': None}


def probe(name, n=1):
    ST.probes[name] += n


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, cls, msg)
        self.cls = cls
        self.msg = msg


def fail(cls, msg, *x):
    raise Violation(cls, msg % x if x else msg)


class Res:
    """What one simulated process did."""


class Env:
    """The durable world of a scenario: a file system and what runs on it."""

    def __init__(self, sc):
        self.sc = sc
        self.fs = SimFS()
        self.fs.mkdir(CWD)
        self.bufsize = sc.get('bufsize', 8192)
        self.t = sc.get('t0', 1.7e9)
        self.nruns = 0
        for d in sc.get('dirs', ()):
            self.mkdirs(d)
        for p in sc.get('worlds', ()):
            for path, data in W.files_of(p).items():
                self.put(path, data)
        for path, spec in sorted(sc.get('files', {}).items()):
            self.put(path, content(spec))
        for path in sc.get('remove', ()):
            if self.abs(path) in self.fs.table:
                self.fs.unlink(self.abs(path))
        for path, mode in sorted(sc.get('modes', {}).items()):
            if self.abs(path) in self.fs.table:
                self.fs.table[self.abs(path)].mode = mode
        self.fs.mark_durable()

    # -- files ------------------------------------------------------------------
    def abs(self, rel):
        return self.fs.norm(rel, CWD)

    def rel(self, path):
        return path[len(CWD) + 1:] if path and path.startswith(CWD + '/') else path

    def mkdirs(self, d):
        parts = self.abs(d).split('/')
        for k in range(2, len(parts) + 1):
            q = '/'.join(parts[:k])
            if q not in self.fs.table:
                self.fs.mkdir(q)

    def put(self, rel, data):
        p = self.abs(rel)
        self.mkdirs(self.fs.parent(p))
        n = self.fs.get(p)
        if n is None:
            n = self.fs.create(p)
        n.data = bytearray(data)

    def read(self, rel):
        n = self.fs.get(self.abs(rel))
        return bytes(n.data) if n is not None and n.kind == 'file' else None

    def exists(self, rel):
        return self.abs(rel) in self.fs.table

    def files(self):
        """Files below the working directory: relative path -> bytes."""
        pre = CWD + '/'
        return {p[len(pre):]: bytes(n.data) for p, n in self.fs.table.items()
                if n.kind == 'file' and p.startswith(pre)}

    # -- running -----------------------------------------------------------------
    def run(self, *bodies, faults=(), preempt=None, stalls=None, on_fs=(), on_event=(),
            names=None, modules=None, max_ops=20000, max_jumps=4000000, lines=False,
            root=False, dirs_only=False):
        """Run simulated processes together; returns their results."""
        w = World(self.fs, faults=faults, preempt={int(k): v for k, v in (preempt or {}).items()},
                  stalls={int(k): v for k, v in (stalls or {}).items()},
                  bufsize=self.bufsize, t0=self.t)
        for k, b in enumerate(bodies):
            m = modules[k] if modules is not None else procs.fresh_modules()
            a = w.actor('p%d' % k, b, cwd=CWD, modules=m, max_ops=max_ops,
                        max_jumps=max_jumps, root=root)
            a.trace_lines = lines
        obs = list(on_fs)
        self.fs.observers[:] = obs
        w.on_event[:] = list(on_event)
        try:
            w.run()
        finally:
            self.fs.observers[:] = []
        self.t = w.now + 1.0
        out = []
        for a in w.actors:
            r = Res()
            r.world = w
            r.actor = a
            r.exit = a.exit_code
            r.out = a.stdout.getvalue()
            r.err = a.stderr.getvalue()
            r.screen = a.screen
            r.tb = a.tb
            r.exc = a.exc
            r.result = a.result
            r.nops = a.nops
            r.nlines = a.nlines
            r.line_at = [a.line_at[k] for k in sorted(a.line_at)]
            r.njumps = a.njumps
            r.max_open = a.max_open
            r.ops = [(e[2], self.rel(e[3]), e[4]) for e in w.events
                     if e[1] == a.idx and is_op(e[2])]
            r.fired = [f for f in w.fired if f['actor'] == a.idx]
            r.escapes = w.escapes
            out.append(r)
            EXEC['sha'].update(ADDR.sub('0x', repr((r.exit, r.out, r.err))).encode())
        EXEC['sha'].update(w.digest.digest())
        if EXEC['events'] is not None:
            EXEC['events'].append([[e[0], e[1], e[2], self.rel(e[3]), e[4]] for e in w.events])
        self.nruns += 1
        ST.runs += 1
        ST.ops += w.step
        ST.simtime += w.now - w.t0
        ST.switches += w.switches
        for f in w.fired:
            ST.faults[f['kind'] + ' at ' + f['op']] += 1
        d = w.digest.digest()[:8]
        ST.traces.add(d)
        if w.fired or w.switches > 1 or w.stalls or self.bufsize != 8192 or self.nruns > 1:
            ST.nontrivial.add(d)
        return out

    def cmd(self, c, **kw):
        ST.cmds[c['kind']] += 1
        self.fs.mark_durable()
        if 'faults' not in kw:
            kw['faults'] = [f for f in c.get('faults') or () if f]
        kw.setdefault('stalls', c.get('stalls'))
        r = self.run(procs.cli(C.argv(c)), **kw)[0]
        if c.get('power') is not None and r.exit == -9:
            probe('power losses')
            self.fs.restore(self.fs.power_loss(random.Random(c['power'])), self.fs.modes())
        return r


def is_op(kind):
    return not kind.startswith('FAULT') and kind not in ('CRASH', 'steplimit', 'jumplimit', 'line')


def content(spec):
    if isinstance(spec, str):
        return spec.encode()
    if 'b64' in spec:
        return base64.b64decode(spec['b64'])
    rng = random.Random(spec['junk'])
    return bytes(rng.randrange(256) for _ in range(spec.get('n', 20)))


def junk(rng, n=None):
    return {'junk': rng.randrange(10**9), 'n': rng.randint(0, 60) if n is None else n}


# -- faults -------------------------------------------------------------------------------
READ_OPS = ('open-r', 'read', 'npread')
WRITE_OPS = ('open-w', 'write', 'close', 'rename', 'mkdir', 'npdup', 'truncate',
             'unlink', 'link', 'fsync')
ERRS = {'open-r': ('EIO', 'EACCES', 'EMFILE', 'ENFILE', 'ENOMEM'),
        'read': ('EIO', 'ENOMEM'),
        'npread': ('EIO',),
        'open-w': ('ENOSPC', 'EDQUOT', 'EACCES', 'EIO', 'EROFS', 'EMFILE'),
        'write': ('ENOSPC', 'EDQUOT', 'EIO', 'ENOSPC'),
        'close': ('EIO', 'ENOSPC', 'EDQUOT'),
        'rename': ('EACCES', 'EIO', 'EROFS', 'ENOSPC', 'EBUSY'),
        'mkdir': ('EACCES', 'EIO', 'ENOSPC', 'EROFS', 'EDQUOT'),
        'unlink': ('EACCES', 'EIO', 'EROFS', 'EBUSY'),
        'link': ('EACCES', 'EIO', 'EROFS', 'ENOSPC'),
        'fsync': ('EIO', 'ENOSPC')}


def pick_op(rng, ops, kinds=None, bias=0.75):
    """An operation number, biased towards operations which change files."""
    if kinds is not None:
        cand = [k for k, o in enumerate(ops) if o[0] in kinds]
        return rng.choice(cand) if cand else None
    if not ops:
        return None
    wr = [k for k, o in enumerate(ops) if o[0] in WRITE_OPS]
    if wr and rng.random() < bias:
        k = rng.choice(wr)
        if rng.random() < 0.25 and k + 1 < len(ops):
            k += 1
        return k
    return rng.randrange(len(ops))


def frac(rng):
    return rng.choice([0.0, 0.0, 1.0, 0.5, round(rng.random(), 3), round(rng.random(), 3)])


def crash_fault(rng, ops, kinds=None):
    k = pick_op(rng, ops, kinds)
    if k is None:
        return None
    f = {'op': k, 'kind': 'crash'}
    if ops[k][0] == 'write':
        f['frac'] = frac(rng)
    return f


def err_fault(rng, ops, kinds, errs=None):
    k = pick_op(rng, ops, kinds)
    if k is None:
        return None
    kind = ops[k][0]
    es = [e for e in ERRS.get(kind, ()) if errs is None or e in errs]
    if not es:
        return None
    f = {'op': k, 'kind': rng.choice(es), 'on': kind}
    if kind in ('write', 'close', 'npread'):
        f['frac'] = frac(rng)
    return f


def benign(rng, ops, n=3):
    """Perturbations which must not matter: short transfers, stalls, clock jumps."""
    out = []
    for _ in range(rng.randint(0, n)):
        r = rng.random()
        if r < 0.7:
            k = pick_op(rng, ops, ('read', 'write'))
            if k is not None:
                out.append({'op': k, 'kind': 'short', 'frac': round(rng.random(), 2)})
        else:
            k = pick_op(rng, ops, None, 0.3)
            if k is not None:
                out.append({'op': k, 'kind': 'clock',
                            'delta': rng.choice([-86400.0, -1.0, 3600.0, 1e7])})
    return out


# -- outputs -------------------------------------------------------------------------------
def canonical(sc):
    return json.dumps(sc, sort_keys=True)
