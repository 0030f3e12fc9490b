"""Writes /verif/properties.jsonl (the text of the properties is kept here)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'observe_at': list(observe), 'hook_needed': None}})


U, RD, WR = 'strata/utils.py', 'strata/dataformats/read.py', 'strata/dataformats/write.py'
GR = 'strata/dataformats/gmx_flow_version_1/read.py'
GW = 'strata/dataformats/gmx_flow_version_1/write.py'
SR, SW = 'strata/dataformats/simple/read.py', 'strata/dataformats/simple/write.py'
AV, CV = 'strata/average.py', 'strata/convert.py'
SC, IC = 'strata/spreading/collect.py', 'strata/interface/collect.py'
SA, IS, IV, IA = ('strata/sample_average.py', 'strata/interface/sample.py',
                  'strata/interface/view.py', 'strata/interface/angle.py')
CL = 'strata/contact_line_analysis.py'
SV, SF, CLI = 'strata/spreading/view.py', 'strata/spreading/fit.py', 'strata/strata.py'
DI = 'droplets/interface.py'

prop('C01', 'Existing files are never lost when data is written',
     'Whatever data output a command writes, the bytes of every file which existed before it are, '
     'at every instant, either still under the file\'s own name or complete beside it as '
     '"#name.N#" with N the lowest number not taken; input files of other names are never changed. '
     'This holds across repeated runs onto the same output, outputs written in place over the inputs, '
     'failing writes, kills at any point and power loss.',
     ['crash_points', 'fault_sequences', 'histories', 'inputs'],
     'every data-writing command (convert, average, interface collect/view/sample/angle, spreading '
     'collect/view/fit, contact-line collect/sample, sample), any file names and pre-existing outputs and backups, any kill or I/O '
     'error point, any number of re-runs; figures are not data outputs; commands racing for one and the '
     'same output, and directory lookups which themselves fail, are excluded',
     'The tests check that one backup appears after one undisturbed call; no test stops a command at an '
     'arbitrary point, fails a call, or looks at the files between two steps.',
     [U, GW, SW, SC, IC, SA, IS, IA, SV, SF],
     [('backup before writing', U + ':prepare_path'), ('output entry points', GW + ', ' + SW + ', ' + SC
       + ':write_header, ' + IC + ':write_interface_data')],
     [('#name.N#', 'backup of an earlier output', U + ':prepare_path')],
     ['every change of the (simulated) file system'])

prop('C02', 'Collected rows survive a stop at any point',
     'The row files of spreading collect, sample, interface sample and contact-line sample at any moment consist of a prefix '
     'of what the undisturbed run would write (creation date aside), with at most the last row torn. '
     'When the command goes on to read the next frame, the rows of all earlier frames (or windows) have '
     'already been handed to the operating system, so that a killed or failing run keeps them.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'any input series, any kill point (between or inside of writes), any failing read or write, any '
     'interrupt, power loss (prefix only)',
     'The tests read the file once after a complete call; when rows are buffered or rewritten is '
     'invisible to them.',
     [SC, SA, IS, CL],
     [('append per row', SC + ':write_spreading'), ('append per row', SA + ':sample_average_files'),
      ('append per row', IS + ':sample_interfaces')],
     [('row file', 'one row per frame processed', 'output path')],
     ['contents of the row file after each file system operation'])

prop('C03', 'A stopped run leaves only complete outputs before the one in progress',
     'When convert, average, interface collect or contact-line collect stops early - killed, out of space, an unreadable or '
     'damaged input frame - every output file apart from the one being written equals that of '
     'the undisturbed run, and outputs exist in order without holes. Outputs before the damaged or '
     'failing frame are there, and nothing is written for that frame or any later one.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'any input series and format, any kill or error point, any frame damaged or unreadable',
     'Tests run the commands to their end on good data only.',
     [CV, AV, IC, CL, RD, WR],
     [('one output at a time, in order', CV + ':convert, ' + AV + ':average, ' + IC + ':collect_interfaces')],
     [('output files', 'one per frame or window', 'output base')],
     ['output files after the stop'])

prop('C04', 'A flow map cut short is rejected, not misread',
     'A flow map in the Gromacs format which ends early - at whatever byte, in the header or '
     'in the data - is never turned into results: the command reading it ends with a failing status '
     'within bounded work. No output file or row derived from that frame or any later one is left behind.',
     ['crash_points', 'inputs'],
     'any such file of either format version and field order, every cut position, all commands which read flow maps',
     'No test reads an incomplete file.',
     [GR, RD, AV, CV, SC, IC, SA, CL],
     [('header parsing', GR + ':read_data'), ('format detection', RD + ':guess_read_module')],
     [], ['exit status, outputs'])

prop('C05', 'Read errors never silently change results',
     'If opening or reading an input file fails with an operating system error, the command does not '
     'report success with different results: either it ends with a failing status, or it prints a message '
     'naming the skipped input, or its outputs are those of the undisturbed run.',
     ['fault_sequences', 'inputs'],
     'EIO, EACCES, EMFILE, ENFILE, ENOMEM at any open or read of any input, for all commands, once or persistently, with '
     'short reads otherwise allowed; interface view and spreading view may skip with a message',
     'No test makes a read fail.',
     [RD, GR, SR, SV, IV, IS, IA],
     [('format detection', RD + ':guess_read_module'), ('readers', GR + ', ' + SR + ', ' + SV + ':read_spreading_data')],
     [], ['exit status, messages and outputs'])

prop('C06', 'A command which could not write its data does not report success',
     'If creating, writing, closing or renaming a data output or making its directory fails (disk full, quota, '
     'I/O error, permission), the command ends with a failing status, except that a row file which cannot be opened for '
     'lack of permission is announced with its path and the run goes on, and that spreading view prints the error. Without '
     'any fault, commands on valid input end with success and every expected output is complete.',
     ['fault_sequences', 'inputs'],
     'ENOSPC, EDQUOT, EIO, EACCES, EROFS at any output operation of any command, including short '
     'writes and errors which only appear when the file is closed',
     'No test makes a write fail, and tests do not look at exit statuses.',
     [GW, SW, SC, SA, IS, IC, IA, SV, SF, U, CLI],
     [('writers', GW + ', ' + SW), ('announced row file', SC + ':prepare_output')],
     [], ['exit status, messages, outputs'])

prop('C07', 'Running again after a failure completes the job',
     'After a run was killed, failed or lost power at any point, running the same command again with '
     'outputs apart from the inputs succeeds without manual cleaning and produces exactly the outputs of an undisturbed run. '
     'Whatever partial outputs the earlier runs left under the output names are kept as numbered backups.',
     ['crash_points', 'fault_sequences', 'histories'],
     'any command, one or more consecutive stops at any point, then an undisturbed run',
     'No test restarts after a stop.',
     [U, CV, AV, SC, IC, SA, IS, IA],
     [('directory and backup', U + ':prepare_path')],
     [('left over directories, partial files, backups', 'state a stopped run leaves', U)],
     ['outputs and backups after the last run'])

prop('C08', 'Frames are selected and outputs numbered by one rule',
     'A command reads exactly the frames numbered consecutively from its begin to its end (inclusive) up to the first missing '
     'one, as base + number of at least five digits + extension, and warns if the first one is missing; bundles of a group size hold '
     'that many consecutive frames (rolling: advancing by one), an incomplete last bundle being dropped. Outputs of convert and '
     'interface collect carry the number of their frame, the first bundle written by average and interface view is numbered '
     'ceil(begin/group), or begin when rolling, that of contact-line collect begin, and later ones follow consecutively.',
     ['inputs', 'configurations', 'fault_sequences'],
     'any numbering, gaps, begin, end, extension, group size and rolling, numbers beyond 99999, for all '
     'frame-reading commands, observed in the sequence of files actually opened, under delays and kills',
     'Tests sample a handful of numbers, and look at generated names, not at what commands read.',
     [U, CV, AV, IC, IV, SC, SA, IS, IA, CL],
     [('selection', U + ':find_datamap_files'), ('numbering', U + ':find_groups_to_singles, find_singles_to_singles')],
     [], ['files opened for reading, files created'])

prop('C09', 'Averages equal the weighted mean of exactly their frames',
     'Every map written by average (without recentering, cutting or re-binning) holds, per bin, the mean mass and number '
     'of the frames of its window, velocities averaged by mass and temperature by number, and zero '
     'where there is no weight. This holds for every window of a run independent of its position, of earlier runs, '
     'of averaging in place over the inputs, and of how reads and writes are split up or delayed.',
     ['inputs', 'histories', 'schedules'],
     'any frames of any readable format, any group size, rolling or not, sequences of runs in one process, '
     'arbitrary short reads/writes, buffer sizes and concurrently running commands',
     'Tests average two or three hand-written arrays; carry-over between windows and runs and '
     'changed files in place are not reached.',
     [AV, 'strata/dataformats/simple/average.py', 'droplets/average.py', GR, GW],
     [('averaging', 'strata/dataformats/simple/average.py:average_data'), ('windowing', U + ':find_groups_to_singles')],
     [], ['output maps'])

prop('C10', 'Spreading rows follow the droplet through the periodic box',
     'Spreading collect writes one row for each frame in which the floor layer holds a wet stretch, with time advancing by the '
     'time step per row from the initial time, the left and right edges unwrapped continuously through '
     'the periodic boundary, and half their distance as radius. The impact header is written once, before the first '
     'row, naming the file of the first such frame and its time, counted from the first frame read.',
     ['inputs', 'histories', 'schedules'],
     'any droplet history in which per frame at most one edge crosses the boundary and edges move less than a '
     'quarter of the box, with leading and intermediate dry frames, vapour and isolated cells, boxes which begin anywhere; any sequence of collections in one process; any read splitting',
     'Tests check the crossing bookkeeping for single calls with constructed values; whole '
     'histories with state carried from frame to frame are not run.',
     [SC, DI, 'droplets/flow.py'],
     [('unwrapping', SC + ':check_and_update_periodic_info'), ('impact', SC + ':output_impact_time'),
      ('wet stretch', DI + ':get_interface')],
     [('periodic info', 'previous edges and crossings so far', SC), ('impact flag', 'header written', SC)],
     ['spread.xvg'])

prop('C11', 'Collected interfaces follow the droplet outline',
     'Each file of interface collect lists, from the bottom left over the top to the bottom right, the left and right edge of '
     'the wet stretch of every wet layer, continuously unwrapped through the periodic boundary from frame to frame, '
     'with heights relative to the lowest layer and limited to the requested heights and shifted to the requested centre (off, zero: the mean of the two lowest points, com: the '
     'centre of mass of the map).',
     ['inputs', 'histories', 'schedules'],
     'any series of connected droplets of at least two layers which starts inside of the box, layers appearing and disappearing '
     'at top and bottom between frames, under the movement limits of the spreading rows; any read splitting and earlier runs in the process',
     'Tests run helper functions on constructed arrays, not whole histories with layers coming and going.',
     [IC, DI, SC],
     [('per layer periodic info', IC + ':update_interface_with_pbc_info, transfer_values')],
     [('per layer periodic info', 'previous edges and crossings of each layer', IC)],
     ['interface files'])

prop('C12', 'Runs do not depend on what ran before, nor on hash seed or clock',
     'A command run in a process which already ran other commands - completed, failed, interrupted - writes the same '
     'files and prints the same messages as in a new process. Outputs do not depend on the hash seed or the time of '
     'day, other than in the creation date.',
     ['histories', 'schedules', 'fault_sequences'],
     'any sequence of library-level commands in one process, with faults and interrupts in the earlier ones, clock jumps, hash seeds',
     'Each test starts from fresh state or does not look; state kept in modules, defaults and figures is not examined.',
     [SC, U, CLI, IV, IS],
     [('impact flag reset', SC + ':collect'), ('figure clearing', U + ':decorate_graph')],
     [('write_spreading.impact', 'function attribute', SC)],
     ['outputs, messages'])

prop('C13', 'Commands running at the same time do not disturb each other',
     'Commands started at the same time on the same inputs, with different output names in the same or in a new '
     'directory, each succeed and write what they would write alone, under every interleaving of their file operations.',
     ['schedules'],
     'any two or three commands with distinct outputs, any interleaving of their operations, shared '
     'or new output directories',
     'Tests are sequential.',
     [U, CV, AV, SC, IC, SA],
     [('directory creation', U + ':prepare_path')],
     [], ['exit status and outputs of each command'])

prop('C14', 'Unusable files degrade a run only as announced',
     'If its row file may not be written for lack of permission, spreading collect, sample, interface sample or contact-line sample says so with the path and otherwise '
     'does all the work and returns the same values; interface view skips a group with an unreadable or malformed '
     'member with a message and keeps the numbers of later groups; spreading view and fit skip unreadable files '
     'with a warning naming them and process the others unchanged.',
     ['fault_sequences', 'inputs'],
     'any subset of unusable files in any position, unreadable or malformed, any group size',
     'Tests use readable well-formed files.',
     [SC, SA, IS, CL, IV, SV, SF],
     [('disabled output', SC + ':prepare_output'), ('skipped group', IV + ':view_interfaces'),
      ('skipped file', SV + ':read_spreading_data')],
     [], ['messages, outputs, returned values'])

prop('C15', 'Commands touch nothing but their outputs',
     'Besides the output files named on the command line, the directories they need and the numbered backups of earlier outputs, a command '
     'creates, changes and removes nothing, wherever it stops. Commands told not to write (or given no output) leave the file system unchanged, and inputs are only ever opened for reading.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'all commands, with odd file names, pre-existing neighbours, stops and errors at any point',
     'Tests look at the files they expect, not at those they do not.',
     [U, SC, SA, IS, IV, SV, SF, IA],
     [('output paths', U + ':prepare_path')],
     [], ['every change of the (simulated) file system'])

prop('C16', 'Reading while a simulation still writes yields whole frames only',
     'When a producer is still writing flow maps in the Gromacs format, one file after the other, while a command reads them, every result stems from a '
     'completely written frame: the frames processed are a gapless run from the first which includes all that were complete at the '
     'start, and a frame caught half-written ends the command with a failing status rather than being used.',
     ['schedules'],
     'any interleaving of the producer\'s and the command\'s operations at the granularity of single writes, producer stalls and crashes',
     'No test has a concurrent writer.',
     [RD, GR, U, SC, CV, AV, IC, SA],
     [('detection of incomplete files', GR + ':read_data'), ('selection', U + ':find_datamap_files')],
     [], ['exit status, outputs'])

prop('C17', 'Sampled rows belong to their frame and time',
     'Row i of sample (mean with standard deviation, or sum, of fields, inertial energy and viscous dissipation, mean flow angle, slip length; with cut-off and limits, in any order of the labels), of interface '
     'sample (area, length) and of interface angle, and each mean outline interface view saves when averaging, is computed from the i-th frame (or window) read alone, with time i times the time step, '
     'and equals the directly computed value.',
     ['inputs', 'histories', 'schedules'],
     'any series of maps and interfaces, label lists, cut-offs and limits, earlier runs in the process, any read splitting',
     'Tests evaluate single arrays; the loop over frames, its rows and times are not checked.',
     [SA, IS, IA, 'droplets/sample.py'],
     [('row loop', SA + ':sample_average_files, ' + IS + ':sample_interfaces, ' + IA + ':interface_contact_angle')],
     [], ['row files'])

prop('C18', 'An interrupt stops a command at once and visibly',
     'A keyboard interrupt arriving at any moment of a command (other than in a finalizer, where Python discards exceptions) is never swallowed: the command stops with a '
     'failing status, starts no further frame and writes no output or row for frames it had not begun.',
     ['schedules', 'fault_sequences'],
     'an interrupt at any operation or executed source line, for all commands',
     'No test interrupts a command.',
     [CLI, SA, IV, SV, SF, U, RD],
     [('no catch-all handlers', 'all except clauses')],
     [], ['exit status, operations after the interrupt'])

prop('C19', 'Every command terminates on any input',
     'Whatever bytes its input files hold - damaged, cut, overwritten, of the wrong format - and whatever I/O errors occur, a command ends within '
     'an amount of work bounded by the size of the input.',
     ['inputs', 'fault_sequences'],
     'byte flips, cuts, zero-filled blocks, duplicated or swapped lines and garbage in any input of any command, '
     'with I/O faults on top; damage to the declared grid shape is limited to sizes which fit in memory',
     'Tests use well-formed input.',
     [GR, SR, DI, SC, IC],
     [('read loops', GR + ':read_data'), ('search loops', DI + ':get_interface')],
     [], ['number of loop iterations and operations'])

prop('C20', 'The number of open files does not grow with the number of frames',
     'Whatever the number of frames, a command never holds more than a handful of its files open at the same time, so '
     'that long series do not exhaust file descriptors; at its end, also after an error, nothing is left open.',
     ['inputs', 'fault_sequences', 'histories'],
     'series of 1 to many frames, all commands, with and without failing operations',
     'Tests read few files and the interpreter closes leaked ones.',
     [GR, GW, SR, SW, SC, SA, IS, IC],
     [('context managers', 'all open() calls')],
     [], ['high-water mark of open descriptors'])

prop('C21', 'Conversions keep the data through any chain of formats',
     'Converting a series of maps through any chain of the three formats, in place or not, with re-runs and interrupted attempts between, keeps all '
     'field values and the grid at the precision of the formats, bins without mass becoming zero in the Gromacs format; '
     'coordinates are kept except when a simple format is converted to the Gromacs format.',
     ['inputs', 'histories', 'fault_sequences'],
     'any maps with at least two bins along each axis, chains of up to four conversions, kills and errors with re-runs in between, arbitrary read and write splitting',
     'Tests convert one small map once.',
     [CV, GR, GW, SR, SW, RD, WR],
     [('writers and readers', GW + ', ' + GR + ', ' + SW + ', ' + SR)],
     [], ['decoded outputs'])

prop('C22', 'Recentred, cut, combined and split averages keep what belongs to each bin',
     'average with --recenter moves every map by whole bins so that the left edge, the right edge or the centre of mass of all maps of a group '
     'comes into the same column, keeps the columns all of them have, and averages those; --xlim and --ylim keep exactly the bins with centres inside '
     'of the limits; --combine sums mass and number over blocks and weighs the other fields; --supersample splits bins and smooths over the '
     'neighbours. The grid written with a map (shape, spacing, origin) is that of its bins, whatever the combination of the options, and whatever ran before or beside.',
     ['inputs', 'histories', 'schedules'],
     'any maps of a common grid, edges and centres not halfway between two bins, at least two columns in common; origins up to the half bin '
     'by which the conventions of the formats differ',
     'Tests call recenter_maps and combine_bins on one small map each and never the command with these options: none of them but recenter could write a file.',
     [AV, 'strata/dataformats/simple/average.py', 'droplets/resample.py', DI, SC, 'droplets/sample.py'],
     [('options', AV + ':average'), ('moving', AV + ':recenter_maps'), ('cutting', AV + ':cut_system'),
      ('combining', 'strata/dataformats/simple/average.py:combine_bins'), ('splitting', 'droplets/resample.py:supersample_flow_data')],
     [], ['decoded outputs'])

prop('C23', 'Contact lines are extracted where the droplet meets the floor',
     'contact-line collect takes, from every map, the bins at the left and the right end of the lowest layer of the droplet at or above the floor - '
     'the extraction area counted from the outermost cell inwards and upwards, up to the edge height along the outline -, averages them over a group of maps '
     '(rolling or not) aligned at the outermost cells, and writes both ends in one map, recentred around x = 0, at their mean positions, or fused, with the right grid. '
     'contact-line sample writes per group the mean (or sum) over both ends of every label, velocities pointing outwards, at the time of the group, whatever ran before or beside.',
     ['inputs', 'histories', 'schedules'],
     'any maps with a droplet on the floor in all formats, groups, extraction areas and heights, floors, cut-offs; where a mean position is between two columns both are accepted',
     'No test calls these commands; neither of them could write a single map or row.',
     [CL, 'droplets/contact_line.py', 'droplets/average.py', DI],
     [('cells at the contact line', 'droplets/contact_line.py:get_contact_line_cells'), ('averaging', 'droplets/average.py:average_flow_data'),
      ('grouping', CL + ':get_grouped_data'), ('combination', CL + ':combine_flow_data'), ('rows', CL + ':sample_contact_line_edges')],
     [('left, right', 'bins of the maps of the current group', CL + ':get_grouped_data')],
     ['decoded maps, rows'])

prop('C24', 'Spreading series are combined, moved and fitted without losing any',
     'spreading view saves every series of its files, in the order of files and columns, each with all of its times, times and radii divided by '
     'the scaling factors and then, if asked for, each series moved in time as a whole so that all are closest to the common radius at the earliest of these times. '
     'spreading fit prints for each series amplitude and index of the power law which fits its logarithms best within the limits (of positive times), and saves the law '
     'at the times within the output limits; what view saved is read back as the same series.',
     ['inputs', 'histories', 'schedules'],
     'one to four files of one to three series, as columns or graphs, from one to twelve times, at the precision of the text formats; fits of series whose radii are positive (others have no logarithms); through any earlier runs, kills and reruns',
     'No test reads or writes a spreading file.',
     [SV, SF],
     [('reading', SV + ':read_spreading_data'), ('combining', SV + ':combine_spreading_data'), ('fit', SF + ':fit_spreading_data'), ('writing', SV + ':write_spreading_data, ' + SF + ':write_fitting_data')],
     [], ['saved series, printed parameters'])

prop('C25', 'Figures show the data of their own input',
     'Every figure which view (height, contour and flow), interface view, sample and angle, and spreading view and fit show or save holds the values of its own input file, group or series '
     'at their own coordinates: the chosen label of every bin but those cut off or outside of the colour limits, an arrow with its flow and colour '
     'at every bin which flows within the cut-off and limits, lines of flow which run along the flow of those bins with their colour and width, contours at their levels, the mean outline, the series over time, and fits with their parameters. Title, labels, limits, colour range and bar, '
     'resolution and size are those asked for, one figure is shown for each input (and the last saved), and nothing drawn before - for an earlier input, or by an earlier command in the process - appears in it.',
     ['inputs', 'histories', 'schedules'],
     'one to three maps of any format with any of the labels and options, up to five interfaces, spreading series; after and beside other runs, stops and reruns in the process; '
     'what is drawn is taken from the figure itself',
     'The one test which draws compares nothing in the figure; state carried from figure to figure is not examined.',
     ['strata/view_flowmap.py', 'droplets/sample.py', U, IV, IS, IA, SV, SF],
     [('drawing of maps', 'strata/view_flowmap.py:view_flowmap_2d, view_flowfields'), ('decoration, showing and saving', U + ':decorate_graph'),
      ('outlines and series', IV + ', ' + IS + ', ' + IA)],
     [('current figure', 'pyplot keeps one until it is cleared', U + ':decorate_graph')],
     ['contents of figures when shown or saved'])

prop('C26', 'Chained commands compose',
     'What one command writes the next one reads as it was meant: spreading series, outlines, samples, angles, contact-line maps and rows obtained from maps which the program converted or averaged '
     'before, and averages, samples and angles of outlines, views and fits of series which it collected itself, are those which follow from the first maps by composition of the steps - '
     'whether the steps run in one process or in several, after killed or failed attempts of any of them, when parts of the chain are run again, '
     'when the same names held other inputs before, and beside another chain.',
     ['inputs', 'histories', 'schedules', 'crash_points', 'fault_sequences'],
     'chains of two to six commands on one to eight maps of droplets or random contents in any format (not from simple to Gromacs files, whose grids differ by half a bin)',
     'No test feeds the output of one command to another.',
     [CV, AV, SC, IC, SA, IV, IS, IA, CL, SV, SF, 'strata/dataformats/'],
     [('conversion', CV + ':convert'), ('reading of maps', RD + ':read_data_file'),
      ('reading of outlines', IV + ':read_interface_file'), ('reading of series', SV + ':read_spreading_data')],
     [], ['outputs of every step, decoded'])

prop('C27', 'Outputs tell what they were made of',
     'The comment lines at the head of collected rows, samples, angles, outlines and spreading series name the very inputs and settings of the run which wrote them: base path or every input file or series, '
     'range of frames, time difference, floor, cut-offs, radius and bins, labels, grouping, variable, height, limits, and the fit of each series - also for further runs in the same process, '
     'beside or after others, stopped ones and ones with other settings.',
     ['inputs', 'histories', 'schedules', 'crash_points', 'fault_sequences'],
     'spreading collect, view and fit, interface collect, view, sample and angle, sample and contact-line sample on one to six inputs with sampled options',
     'No test reads a header.',
     [SC, IC, SA, IV, IS, IA, CL, SV, SF, U],
     [('header of spreading data', SC + ':write_header'), ('header of outlines', IC + ':write_interface_data'),
      ('headers of samples', SA + ':write_header, ' + CL + ':write_header, ' + IS + ':write_header'), ('header of angles', IA + ':write_angle_data'),
      ('headers of series', SV + ':write_spreading_data, ' + SF + ':write_fitting_data'), ('common part', U + ':write_module_header')],
     [], ['comment lines of the outputs'])

# -- not decided by this technique ---------------------------------------------
prop('C30', 'Flow map algebra is consistent',
     'Slicing, cutting, translating, copying and lim/size/shape queries of flow maps agree with the arrays they were built from.',
     ['inputs'], 'any array', 'pure function of its input', ['droplets/flow.py'],
     [('FlowData', 'droplets/flow.py')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as fp:
    for p in P:
        assert p['statement'].count('. ') <= 2, p['id']
        fp.write(json.dumps(p) + '\n')
print(len(P))
