"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, re
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {
    'C30': 'Slicing, cutting and translating a map is a pure function of one in-memory array: no schedule, clock, fault or history reaches it. Its results are exercised as part of C10, C11 and C17.',
}
NOTE = {
    'C01': 'Invariant checked after every simulated file system change of the whole program; sampled histories and fault points.',
    'C02': 'Row files compared with the undisturbed twin at every change and after every stop, over sampled stops.',
    'C03': 'Outputs after sampled stops compared with the undisturbed twin and with the order of frames read.',
    'C04': 'Every sampled cut position must be rejected; all commands which read maps.',
    'C05': 'Sampled failing opens and reads; outputs compared with the undisturbed twin.',
    'C06': 'Sampled failing output operations, exit status and messages; every undisturbed run must succeed.',
    'C07': 'Sampled stops followed by undisturbed reruns, compared with the undisturbed twin.',
    'C08': 'Files opened and created compared with an independent statement of the rule, over sampled directories.',
    'C09': 'Decoded outputs compared with a reference average.',
    'C10': 'Rows compared with the generated droplet history and a reference of the contact row.',
    'C11': 'Points compared with the generated droplet history and a reference of the outline.',
    'C12': 'Sampled sessions compared with fresh processes; sessions repeated in processes with other hash seeds.',
    'C13': 'Sampled interleavings at every file operation compared with the commands run alone.',
    'C14': 'Sampled unusable files; outputs, messages and returned values compared with runs without these files.',
    'C15': 'Every change of the simulated file system compared with what the command line permits.',
    'C16': 'Sampled interleavings of a producer and a command.',
    'C17': 'Rows compared with a reference, over sampled inputs and histories.',
    'C18': 'Sampled interrupt points (operations and source lines).',
    'C19': 'Sampled damage; work counted as loop iterations and operations against a bound from the input size.',
    'C20': 'Open descriptors counted by the simulator during sampled runs.',
    'C22': 'Decoded maps and grids compared with a reference of the options, over sampled inputs and histories.',
    'C23': 'Decoded maps and rows compared with a reference of the extraction, over sampled inputs and histories.',
    'C24': 'Saved series and printed parameters compared with a reference, over sampled inputs and histories.',
    'C25': 'Contents of the figures (taken where they are shown or saved; rendering is a stub) compared with a reference, over sampled inputs and histories.',
    'C27': 'Comment lines of outputs compared with the options and inputs of the command, over sampled options and histories.',
    'C26': 'Outputs of every step compared with the reference composed over the chain, over sampled chains and histories.',
    'C21': 'Decoded maps compared with the originals after sampled chains, attempts and reruns.',
}
TRUST = (' Assumes the simulated file system and scheduler (dst/kernel.py, dst/simfs.py) stand for a POSIX machine; real strata code runs unmodified. '
         'No claim beyond the seeds explored.')
checks = []
for p in props:
    if p['id'] in NA:
        continue
    i = p['id']
    checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                   'technique': 'deterministic simulation with fault injection (seeded schedules and faults, replayable)',
                   'level': 'exploration',
                   'level_note': NOTE[i] + TRUST})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'No hooks in /repo: the seams (files, clock, processes) are put below the program inside the Python process. '
              'known_findings.txt lists the defects found and repaired. Design and limits: DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fp:
    json.dump(m, fp, indent=1)
    fp.write('\n')
