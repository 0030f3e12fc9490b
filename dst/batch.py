"""Seeded batches of simulated runs, minimisation and replay."""

import copy
import gc
import hashlib
import json
import mmap
import os
import pickle
import random
import select
import signal
import struct
import sys
import traceback

import kernel
import sim
from sim import Violation

NOW = kernel.R_time['perf_counter']
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def jobrng(seed, pid, i):
    h = hashlib.sha256(('%d/%s/%d' % (seed, pid, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


class Prop:
    """A property: how scenarios are made, executed and judged."""
    id = None
    jobs = {'quick': 400, 'thorough': 12000}
    nvar = 8
    level = 'exploration'
    technique = 'deterministic simulation with fault injection'
    rule = ''
    stub = ''

    def __init__(self):
        self.memo = {}

    def gen(self, rng):
        raise NotImplementedError

    def execute(self, sc):
        """Run a scenario; raises Violation, returns what variants() needs."""
        raise NotImplementedError

    def variants(self, rng, sc, info):
        return []

    def shrinks(self, sc):
        return generic_shrinks(sc)

    def run(self, sc):
        """-> (violation or None, info)"""
        sim.EXEC['sha'] = hashlib.sha256()
        try:
            return None, self.execute(copy.deepcopy(sc))
        except Violation as v:
            return v, None


def do_job(prop, seed, i, stop=None):
    """All executions of job i; returns (scenario, violation) or None."""
    rng = jobrng(seed, prop.id, i)
    prop.memo = {}
    sc = prop.gen(rng)
    v, info = prop.run(sc)
    if v is not None:
        return sc, v
    for x in prop.variants(rng, sc, info):
        sim.ST.planned += 1
        v, _ = prop.run(x)
        if v is not None:
            return x, v
    return None


# -- parallel batch ----------------------------------------------------------------------
def _worker(prop, seed, n, k, nw, shm, wfd, until):
    gc.disable()
    sim.ST = sim.Stats()
    samples = []
    done = 0
    res = None
    try:
        for i in range(k, n, nw):
            if i > struct.unpack_from('q', shm, 0)[0] or NOW() > until:
                break
            struct.pack_into('d', shm, 8 + 8 * k, NOW())
            r = do_job(prop, seed, i)
            done += 1
            if done % 20 == 0:
                gc.collect()
            if r is not None:
                best = struct.unpack_from('q', shm, 0)[0]
                if i < best:
                    struct.pack_into('q', shm, 0, i)
                res = (i, r[0], r[1].cls, r[1].msg)
                break
        out = ('ok', done, res, sim.ST, samples)
    except BaseException:
        out = ('error', traceback.format_exc())
    data = pickle.dumps(out)
    data = struct.pack('q', len(data)) + data
    while data:
        data = data[os.write(wfd, data):]
    os._exit(0)


def batch(prop, seed, n, cap, workers=None, stuck=200, soft=None):
    """Run jobs 0..n-1; -> dict(done, viol, stats) or raises RuntimeError."""
    nw = workers or min(8, os.cpu_count() or 1, n)
    shm = mmap.mmap(-1, 8 + 8 * nw)
    struct.pack_into('q', shm, 0, 1 << 60)
    t0 = NOW()
    pids, fds, bufs = [], [], []
    for k in range(nw):
        struct.pack_into('d', shm, 8 + 8 * k, NOW())
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            for f in fds:
                os.close(f)
            os.close(r)
            try:
                _worker(prop, seed, n, k, nw, shm, w, t0 + (soft or cap))
            finally:
                os._exit(3)
        os.close(w)
        pids.append(pid)
        fds.append(r)
        bufs.append(b'')
    open_ = dict(zip(fds, range(nw)))
    problem = None
    while open_:
        rd, _, _ = select.select(list(open_), [], [], 1.0)
        for f in rd:
            d = os.read(f, 1 << 20)
            k = open_[f]
            if d:
                bufs[k] += d
            else:
                os.close(f)
                del open_[f]
        if NOW() - t0 > cap:
            problem = 'the batch did not finish within %d s' % cap
        for k in open_.values():
            if NOW() - struct.unpack_from('d', shm, 8 + 8 * k)[0] > stuck:
                problem = 'worker %d is stuck in one job' % k
        if problem:
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            break
    for p in pids:
        os.waitpid(p, 0)
    if problem:
        raise RuntimeError(problem)
    stats = sim.Stats()
    done, viols = 0, []
    for k, b in enumerate(bufs):
        if len(b) < 8 or len(b) != 8 + struct.unpack('q', b[:8])[0]:
            raise RuntimeError('worker %d ended without a result' % k)
        o = pickle.loads(b[8:])
        if o[0] == 'error':
            raise RuntimeError('worker %d failed:\n%s' % (k, o[1]))
        done += o[1]
        stats.merge(o[3])
        if o[2] is not None:
            viols.append(o[2])
    viols.sort(key=lambda v: v[0])
    return {'done': done, 'viol': viols[0] if viols else None, 'stats': stats,
            'wall': NOW() - t0, 'workers': nw}


# -- minimisation --------------------------------------------------------------------------
def _fault_lists(sc):
    """Paths to the lists of faults in a scenario."""
    out = []

    def walk(o, path):
        if isinstance(o, dict):
            for k in sorted(o):
                if k == 'faults' and isinstance(o[k], list):
                    out.append(path + [k])
                else:
                    walk(o[k], path + [k])
        elif isinstance(o, list):
            for i, v in enumerate(o):
                walk(v, path + [i])
    walk(sc, [])
    return out


def _at(o, path):
    for k in path:
        o = o[k]
    return o


def generic_shrinks(sc):
    """Simpler scenarios, most drastic first."""
    def variant(fn):
        x = copy.deepcopy(sc)
        fn(x)
        return x
    # single faults away
    for path in _fault_lists(sc):
        n = len(_at(sc, path))
        if n > 1:
            for i in range(n):
                yield variant(lambda x: _at(x, path).__delitem__(i))
        if n:
            yield variant(lambda x: _at(x, path).clear())
    for key in ('preempt', 'stalls'):
        d = sc.get(key)
        if d:
            yield variant(lambda x: x[key].clear())
            ks = sorted(d, key=int)
            if len(ks) > 3:
                yield variant(lambda x: [x[key].pop(k) for k in ks[:len(ks) // 2]])
                yield variant(lambda x: [x[key].pop(k) for k in ks[len(ks) // 2:]])
            for k in ks:
                yield variant(lambda x: x[key].pop(k))
    if sc.get('bufsize', 8192) != 8192:
        yield variant(lambda x: x.pop('bufsize'))
    # commands
    cs = sc.get('cmds')
    if cs and len(cs) > 1 and not sc.get('fixed_cmds'):
        for i in range(len(cs)):
            yield variant(lambda x: x['cmds'].pop(i))
    for k in ('files', 'modes'):
        for p in sorted(sc.get(k, {})):
            yield variant(lambda x: x[k].pop(p))
    for i in range(len(sc.get('remove', ()))):
        yield variant(lambda x: x['remove'].pop(i))
    # fewer frames, smaller grids, plainer names
    for wi, p in enumerate(sc.get('worlds', ())):
        if 'numbers' in p and len(p['numbers']) > 1:
            def last(x):
                q = x['worlds'][wi]
                q['numbers'].pop()
                if 'drop' in q:
                    q['drop'].pop()
                if 'heights' in q and len(q['heights']) > 1:
                    q['heights'].pop()
            yield variant(last)
        if 'drop' not in p and 'shape' in p:
            for ax in (0, 1):
                if p['shape'][ax] > 2:
                    def small(x):
                        x['worlds'][wi]['shape'][ax] = max(2, p['shape'][ax] // 2)
                    yield variant(small)
                    def less(x):
                        x['worlds'][wi]['shape'][ax] -= 1
                    yield variant(less)
        for k, v in (('vapour', 0.0), ('specks', None), ('holes', 0.0), ('n_zero', False), ('still', None)):
            if p.get(k):
                def plain(x):
                    if v is None:
                        x['worlds'][wi].pop(k)
                    else:
                        x['worlds'][wi][k] = v
                yield variant(plain)


def reaim(sc, horizon=160):
    """The same scenario with its only fault moved to another operation."""
    paths = [p for p in _fault_lists(sc) if _at(sc, p)]
    if len(paths) != 1 or len(_at(sc, paths[0])) != 1:
        return
    f = _at(sc, paths[0])[0]
    key = 'line' if 'line' in f else 'op'
    if key not in f:
        return
    for k in range(min(horizon, f[key])):
        x = copy.deepcopy(sc)
        _at(x, paths[0])[0][key] = k
        yield x


def minimise(prop, sc, v, budget=60.0, maxruns=600):
    """A smaller scenario with a violation of the same class."""
    t0 = NOW()
    cls, runs = v.cls, 0

    def test(x):
        nonlocal runs
        runs += 1
        prop.memo = {}
        try:
            y, _ = prop.run(x)
        except Exception:
            return None
        return y if y is not None and y.cls == cls else None

    again = True
    while again and NOW() - t0 < budget and runs < maxruns:
        again = False
        for x in prop.shrinks(sc):
            if NOW() - t0 > budget or runs >= maxruns:
                break
            y = test(x)
            if y is None and any(f for f in map(lambda p: _at(x, p), _fault_lists(x))) \
                    and x.get('worlds') != sc.get('worlds'):
                # operations moved: aim the fault anew
                for z in reaim(x):
                    if NOW() - t0 > budget or runs >= maxruns:
                        break
                    y = test(z)
                    if y is not None:
                        x = z
                        break
            if y is not None:
                sc, v, again = x, y, True
                break
    return sc, v, runs


def final(prop, sc):
    """Run once more from scratch, recording the trace."""
    prop.memo = {}
    sim.EXEC['events'] = []
    try:
        v, _ = prop.run(sc)
    finally:
        ev, sim.EXEC['events'] = sim.EXEC['events'], None
    return v, sim.EXEC['sha'].hexdigest(), ev
