"""Put DESIGN.md together: prose of DESIGN.head.md and DESIGN.tail.md, the table of the properties from the code, the
table of the planted bugs from seeded/*/meta.json and tools/caught.json (which check reported which of them)."""
import glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'dst'))
os.chdir(ROOT)
sys.dont_write_bytecode = True
import main
ORACLE = {
 'C01': 'Invariant over the file-system history: after every change, every (path, bytes) that existed before the command is found under its name or its `#name.N#`, N lowest free; after a power loss on the durable image as well.',
 'C02': 'Invariant per operation: row file is a prefix of the twin\'s. At each first opening of frame k, the rows of frames < k are in the simulated file (not in a buffer).',
 'C03': 'History check after the stop: outputs = complete ones equal to the twin\'s, at most one in progress, no holes; exact for damaged frames.',
 'C04': 'Exit status must be a failure within bounded work and nothing derived from the cut frame or later may exist; earlier outputs equal the twin\'s.',
 'C05': 'Refinement: exit 0 and no message about the file => files and messages of the twin.',
 'C06': 'Refinement: exit 0 => files of the twin, but for the announced exceptions. Undisturbed: exit 0, every expected output there, decodable, with all its rows.',
 'C07': 'Liveness: after 1-3 stopped attempts the next run ends with success and writes exactly the twin\'s outputs; what was there is in backups.',
 'C08': 'Reference rule for selection and numbering against files opened, files created, rows and messages.',
 'C09': 'Reference model of the weighted mean, per bin, over exactly the frames of the window.',
 'C10': 'Reference model: the droplet\'s cells are known in unwrapped coordinates by construction; rows and impact header follow.',
 'C11': 'As C10, per layer, with limits and recentering.',
 'C12': 'Differential: last command of a session against the same command in a fresh process; digests of sessions across hash seeds.',
 'C13': 'Refinement: each unharmed command ends like, and writes what, it does alone.',
 'C14': 'The message is there and everything else equals the twin.',
 'C15': 'Invariant per change of the file system: path is an output, its new directory or its backup; inputs never opened for writing.',
 'C16': 'History: outputs are those of a gapless run of whole frames including all whole at start; otherwise the status is a failure and a frame was torn.',
 'C17': 'Reference model per row.',
 'C18': 'After the interrupt: failing status, no input newly opened, no output newly created.',
 'C19': 'Progress bound: loop iterations and operations counted by the simulator stay below a limit.',
 'C20': 'Invariant: high-water mark of open descriptors; none left at the end.',
 'C21': 'Reference decoders: first and last maps of the chain, bin by bin.',
 'C22': 'Reference model of moving, cutting, blocks and splitting, including the grid.',
 'C23': 'Reference model of cells at the contact lines, alignment, averaging, writing and rows.',
 'C24': 'Reference model of reading, scaling, synchronisation, fit (closed form in logarithms).',
 'C25': 'Every figure shown or saved is recorded (data, coordinates, limits, colours, decorations) and compared with the reference values of its input.',
 'C27': 'Comment lines of every output compared with the command and the inputs it had.',
 'C26': 'The reference models composed over the chain of commands.',
}
def esc(s): return s.replace('|', '\\|')
out = open('DESIGN.head.md').read()
reg = main.registry()
for k in sorted(reg):
    p = reg[k]
    out += '| %s | %s | %s (%d jobs quick, %d thorough, up to %d variants each) |\n' % (
        k, esc(ORACLE[k]), esc(p.rule[0].upper() + p.rule[1:]), p.jobs['quick'], p.jobs['thorough'], p.nvar)
out += open('DESIGN.tail.md').read()
caught = json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
out += '\n| bug | property | needs | reported by |\n|---|---|---|---|\n'
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    out += '| %s | %s | %s | %s |\n' % (i, m['property'], esc(m['needs']), caught.get(i, m['property']))
open('DESIGN.md', 'w').write(out)
os._exit(0)
