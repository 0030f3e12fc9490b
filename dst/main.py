"""Command line of the checks."""

import hashlib
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import kernel
import procs

procs.setup()

import batch
import sim
from batch import NOW, ROOT

SOFT = {'quick': 420, 'thorough': 6600}   # no new jobs are begun after these seconds
HARD = {'quick': 660, 'thorough': 7200}
REAL = ['strata (all commands, readers, writers, data classes)', 'droplets', 'click', 'numpy', 'pandas',
        'scipy', 'matplotlib (figures drawn, never shown)', 'progressbar', 'cpython io buffering']
STUB = ['file system and descriptors (simulated, with page cache and durable image)', 'clock and sleep',
        'process start, exit, kill and scheduling', 'standard output and error', 'numpy tofile/fromfile descriptors']


def registry():
    import props_fault
    mods = [props_fault]
    for n in ('props_model', 'props_misc', 'props_fig', 'props_chain'):
        try:
            mods.append(__import__(n))
        except ModuleNotFoundError as e:
            if e.name != n:
                raise
    out = {}
    for m in mods:
        for v in vars(m).values():
            if isinstance(v, type) and issubclass(v, batch.Prop) and v.id:
                out[v.id] = v
    return out


def write_json(path, o):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with kernel.R_open(tmp, 'w') as fp:
        json.dump(o, fp, indent=1, sort_keys=True)
        fp.write('\n')
    os.replace(tmp, path)


ASSUME = [
    'the simulated file system orders operations as POSIX does for one machine; power loss keeps renames and creations '
    'in order and any prefix of unsynced data',
    'real code runs as single Python threads; switches between processes happen at file operations, sleeps and (where stated) source lines',
    'third party libraries (numpy, pandas, scipy, matplotlib, click) behave in the simulator as outside of it',
]


def evidence(prop, tier, seed, n, b, viols, extra):
    st = b['stats']
    w = max(b['wall'], 1e-6)
    cov = {
        'technique': prop.technique,
        'inputs': 'seeds (%d, property, job) for jobs 0 to %d; per job one generated scenario and up to %d fault variants of it'
                  % (seed, n - 1, prop.nvar),
        'jobs_requested': n,
        'jobs': b['done'],
        'fault_variants': st.planned,
        'evaluations': st.runs,
        'distinct_nontrivial': len(st.nontrivial),
        'rule': prop.rule + ' One evaluation is one simulated run; it is non-trivial if a fault fired, processes were '
                'interleaved or stalled, transfers were split, or it continued an earlier run\'s world; distinct by trace digest.',
        'runs_per_hour': int(st.runs / w * 3600),
        'seeds_per_hour': int(b['done'] / w * 3600),
        'simulated_seconds': round(st.simtime, 1),
        'operations': st.ops,
        'context_switches': st.switches,
        'faults_injected': dict(sorted(st.faults.items())),
        'fault_total': sum(st.faults.values()),
        'commands': dict(sorted(st.cmds.items())),
        'distinct_interleavings': len(st.traces),
        'distinct_measure': 'different digests of the whole event trace (every operation with process, path, size, fault and order)',
        'probes': dict(sorted(st.probes.items())),
        'real_components': REAL, 'stub_components': STUB + ([prop.stub] if prop.stub else []),
        'workers': b['workers'],
        'samples': b.get('samples') or [],
    }
    if viols:
        cov['violations_found'] = viols
    cov.update(extra)
    ev = {'property': prop.id, 'tier': tier, 'seed': seed, 'level': prop.level, 'coverage': cov,
          'assumptions': ASSUME, 'violations': len(viols), 'wall_s': round(b['wall'], 2)}
    write_json(os.path.join(ROOT, 'evidence', prop.id + '.json'), ev)


def explore(prop, tier, seed):
    n = int(os.environ.get('DST_JOBS') or prop.jobs[tier])
    b = batch.batch(prop, seed, n, HARD[tier], soft=SOFT[tier], workers=int(os.environ.get('DST_WORKERS', '0')) or None)
    b['samples'] = samples(prop, seed)
    st = b['stats']
    print('%s %s: %d jobs, %d simulated runs, %d faults injected, %d distinct traces in %.1f s' % (
        prop.id, tier, b['done'], st.runs, sum(st.faults.values()), len(st.traces), b['wall']))
    for k, v in sorted(st.probes.items()):
        print('  probe %s: %d' % (k, v))
    extra = {}
    if b['viol'] is None and hasattr(prop, 'post'):
        r = prop.post(seed, tier, lambda hs, sd, k: digests(prop.id, hs, sd, k))
        if isinstance(r, tuple):
            b['viol'] = r
        else:
            extra['hash_seed_comparisons'] = r
            print('  %d sessions compared in processes with different hash seeds' % r)
    if b['viol'] is None:
        missing = [p for p in getattr(prop, 'must', ()) if not st.probes.get(p)]
        evidence(prop, tier, seed, n, b, [], extra)
        if b['done'] < n:
            print('time is up after %d of %d jobs' % (b['done'], n))
        if missing and b['done'] >= prop.jobs['quick']:
            print('warning: never reached: %s' % ', '.join(missing))
        return 0
    i, sc, cls, msg = b['viol']
    print('violation in job %d: %s: %s' % (i, cls, msg))
    if cls == 'hash-seed':
        return hash_violation(prop, tier, seed, n, b, i, sc, msg)
    sc, v, runs = batch.minimise(prop, sc, sim.Violation(cls, msg), float(os.environ.get('DST_MINIMISE', '60')))
    v2, digest, events = batch.final(prop, sc)
    if v2 is None:
        raise RuntimeError('the minimised scenario does not violate the property')
    name = '%s-%s.json' % (prop.id, hashlib.sha256(sim.canonical(sc).encode()).hexdigest()[:12])
    path = os.path.join(ROOT, 'replays', name)
    rep = {'property': prop.id, 'seed': seed, 'job': i, 'class': v2.cls, 'message': v2.msg,
           'digest': digest, 'minimisation_runs': runs, 'scenario': sc,
           'trace': [e for e in events]}
    write_json(path, rep)
    env = dict(os.environ, DST_HASHSEED='4711')
    env.pop('PYTHONHASHSEED', None)
    r = subprocess.run([os.path.join(ROOT, 'check'), prop.id, '--replay', path], env=env,
                       capture_output=True, text=True, timeout=200)
    same = 'REPRODUCED exactly' in r.stdout
    print('minimised with %d runs: %s: %s' % (runs, v2.cls, v2.msg))
    print('replay in a new process with another hash seed: %s' % (
        'identical' if same else 'NOT identical\n' + r.stdout[-2000:] + r.stderr[-2000:]))
    evidence(prop, tier, seed, n, b, [{'class': v2.cls, 'message': v2.msg, 'replay': path,
                                       'replayed_identically': same}], {})
    print('VIOLATION property=%s replay=%s' % (prop.id, path))
    return 1


def digests(pid, hs, seed, n, parts=4):
    """Digests of sessions 0..n-1 in processes of each of the hash seeds."""
    ps = []
    for h in hs:
        for k in range(parts):
            env = dict(os.environ, DST_HASHSEED=h)
            ps.append((h, k, subprocess.Popen([os.path.join(ROOT, 'check'), pid, '--digests', str(seed), str(k), str(n), str(parts)],
                                              env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    out = {h: [None] * n for h in hs}
    for h, k, p in ps:
        o, e = p.communicate(timeout=3000)
        if p.returncode:
            raise RuntimeError('digests failed:\n' + o[-1000:] + e[-2000:])
        out[h][k::parts] = json.loads(o.strip().splitlines()[-1])
    return [out[h] for h in hs]


def hash_violation(prop, tier, seed, n, b, i, sc, msg):
    path = os.path.join(ROOT, 'replays', '%s-hash-%d-%d.json' % (prop.id, seed, i))
    write_json(path, {'property': prop.id, 'seed': seed, 'job': i, 'class': 'hash-seed', 'message': msg,
                      'hashseeds': ['1', '87654'], 'scenario': sc})
    evidence(prop, tier, seed, n, b, [{'class': 'hash-seed', 'message': msg, 'replay': path}], {})
    print('VIOLATION property=%s replay=%s' % (prop.id, path))
    return 1


def samples(prop, seed, k=3):
    out = []
    for i in range(k):
        try:
            prop.memo = {}
            out.append(short(prop.gen(batch.jobrng(seed, prop.id, i))))
        except Exception as e:
            out.append(repr(e))
    return out


def short(sc):
    s = json.dumps(sc, sort_keys=True)
    return sc if len(s) < 3000 else s[:3000] + '...'


def replay(prop, path):
    with kernel.R_open(path) as fp:
        rep = json.load(fp)
    if rep['class'] == 'hash-seed':
        a, b_ = [d[rep['job']] for d in digests(prop.id, rep['hashseeds'], rep['seed'], rep['job'] + 1)]
        print('digests %s %s' % (a, b_))
        if a != b_:
            print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return int(a != b_)
    v, digest, events = batch.final(prop, rep['scenario'])
    if v is None:
        print('the property holds in this run')
        return 0
    print('%s: %s' % (v.cls, v.msg))
    ev = json.loads(json.dumps(events))
    if (v.cls, v.msg, digest, ev) == (rep['class'], rep['message'], rep['digest'], rep['trace']):
        print('REPRODUCED exactly (trace digest %s)' % digest)
    else:
        print('differs from the recorded run: %s %s' % (v.cls, digest))
        for k, (a, b_) in enumerate(zip(ev, rep['trace'])):
            if a != b_:
                for x, y in zip(a, b_):
                    if x != y:
                        print(' first difference in run %d: %r / recorded %r' % (k, x, y))
                        break
                break
    print('VIOLATION property=%s replay=%s' % (prop.id, path))
    return 1


def selftest(ids):
    """Every execution twice, with different worker counts: same digests."""
    bad = 0
    for pid in ids:
        prop = registry()[pid]()
        d = []
        for w in (1, 3):
            b = batch.batch(prop, 7, 16, 600, workers=w)
            d.append((sorted(b['stats'].traces), b['stats'].runs, sorted(b['stats'].faults.items())))
        ok = d[0] == d[1]
        bad += not ok
        print('%s %s (%d runs, %d traces, hash %s)' % (
            pid, 'same' if ok else 'DIFFERENT', d[0][1], len(d[0][0]),
            hashlib.sha256(repr(d[0]).encode()).hexdigest()[:16]))
    return 1 if bad else 0


def main(args):
    reg = registry()
    if args[:1] == ['--selftest']:
        return selftest(args[1:] or sorted(reg))
    if not args or args[0] not in reg:
        print('usage: check %s [quick|thorough | --replay FILE]' % '|'.join(sorted(reg)))
        return 2
    prop = reg[args[0]]()
    if args[1:2] == ['--replay']:
        return replay(prop, args[2])
    if args[1:2] == ['--digests']:
        prop.memo = {}
        print(json.dumps([prop.digest(prop.gen(batch.jobrng(int(args[2]), prop.id, i)))
                          for i in range(int(args[3]), int(args[4]), int(args[5]))]))
        return 0
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED') or 1)
    return explore(prop, tier, seed)


if __name__ == '__main__':
    code = 2
    try:
        code = main(sys.argv[1:])
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
