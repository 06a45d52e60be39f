# Property texts; read by tools/props.py.

prop('C01', 'EBSD files load faithfully or not at all', '''
Loading an EBSD map from an Oxford binary pair, an Oxford text file, an EDAX
file or a Python dictionary, whatever its size, phases, column order or extra fields, gives a
map whose dimensions, step size, phases, phase map, Euler angles and quality
layers are those of the file at the right pixels. If the file is truncated,
cannot be read, or is replaced by one with another number of points while it
is being read, the load raises an error rather than give a map that differs from the
file. No load leaves a file open, and loading the intact file after a failure
works as if the failure had not happened.''',
['inputs', 'fault_sequences'], '''
Every well-formed file of the three formats, and every truncation point, read
error, short read, failing open and concurrent replacement of it.''',
'''The tests load two fixed healthy files and call the readers on stored
snippets; they reach no damaged file, no .ang file, and no other layout.''',
['defdap/file_readers.py', 'defdap/ebsd.py'],
[('format detection and readers', 'defdap/file_readers.py'),
 ('map construction from loaded data', 'defdap/ebsd.py')],
['the loaded map\'s shape, step_size, phases and data layers'],
'''Seeded search over layouts and disk faults against independent encoders of
each format. Trusts the encoders and the file-format assumptions listed in the
evidence.''',
'seeded disk faults and generated files against independent encoders')

prop('C02', 'HRDIC files load faithfully or not at all', '''
Loading a HRDIC map from DaVis text, OpenPIV text or binary, or pyvale csv or
binary data gives a map whose dimensions, sub-window size, coordinates and
displacements are those of the file at the right pixels (rows in ascending y),
with deformation gradient and strain belonging to those displacements. If the
file is unreadable, is cut inside a record, is cut anywhere where the format
states its size, or is replaced while being read, the load raises an error
rather than give data that differs from the file; the same holds for
correlation values and pattern images of the wrong size, which leave what was
loaded before as it was. A failed load registers no map and no load leaves a
file open.''',
['inputs', 'fault_sequences'], '''
Every well-formed file of the five formats (row order, origin, missing points,
NaN values), and every truncation point, read error, short read, failing open
and concurrent replacement of it.''',
'''The tests load one fixed healthy DaVis file; four formats and all faults
are not reached.''',
['defdap/file_readers.py', 'defdap/hrdic.py'],
[('DIC readers and their consistency checks', 'defdap/file_readers.py'),
 ('map construction, correlation values, pattern', 'defdap/hrdic.py')],
['the loaded map\'s shape, binning, data layers, corr_val and pattern'],
'''Seeded search over layouts and disk faults against independent encoders.
Trusts the encoders; OpenPIV text and pyvale files cut between records are
legitimately smaller files.''',
'seeded disk faults and generated files against independent encoders')

prop('C03', 'Saving an EBSD map never destroys or misrepresents data', '''
Saving an EBSD map never changes a file that already exists, even one another
process creates while the save is under way, and never changes the map in
memory. When the save reports success, the file decodes to the same
dimensions, step size, phases (with space groups), phase map, orientations
and band contrast to the printed precision. A file left by a failed or
crashed save is either refused when loaded or loads as exactly the saved map,
and the map can be saved again afterwards.''',
['inputs', 'crash_points', 'fault_sequences'], '''
Every map, every write error, short write, full disk, failing close, crash at
any operation or byte of the save, and every moment at which another process
creates the file.''',
'''No test saves a map.''',
['defdap/file_writers.py', 'defdap/ebsd.py', 'defdap/file_readers.py'],
[('existence check, exclusive creation, formatting', 'defdap/file_writers.py'),
 ('collection of what is saved', 'defdap/ebsd.py')],
['bytes of the target file', 'the map reloaded from it'],
'''Seeded search over maps, disk faults and crash points; saved files are
decoded by an independent reader and by the package. Crash model: process
crash (data given to write(2) survives).''',
'seeded disk faults and crash points on a simulated disk, independent decoder')

prop('C04', 'Grain inspector sessions survive failing saves, loads and crashes', '''
Saving a grain inspector session never changes the session, and leaves on disk
either a file that loads as exactly the lines, groups and RDR values of every
grain at that moment or, if the save fails or the process dies during it, what
was there before. Loading a session either restores what the file holds or
raises an error and leaves the lines of every grain as they were; it never
loads part of a grain and leaves no file open.''',
['histories', 'crash_points', 'fault_sequences'], '''
Every session of drawing, saving, loading and restarting, every failing write,
full disk, failing open, close or rename, crash at any operation or byte of a
save, and every damaged, unreadable or replaced file.''',
'''No test opens the grain inspector.''',
['defdap/inspector.py', 'defdap/hrdic.py'],
[('session files', 'defdap/inspector.py')],
['the session file and what a new process loads from it',
 'lines and groups of the grains'],
'''Seeded search over sessions, disk faults and crash points through the
buttons of the window. Crash model: process crash. A file cut between two
grains is a session of fewer grains.''',
'simulated user sessions with disk faults and crashes, compared with what was saved')

prop('C05', 'A failed or interrupted calculation never corrupts later results', '''
If a calculation on an EBSD or HRDIC map (a derived quantity, boundaries,
grains, misorientations, Schmid factors, slip traces, a mask, a link) is cut
short by an interrupt, a failed allocation or a standard output that breaks,
everything read from the map afterwards is what it was before the calculation
or what the completed calculation gives: no quantity is partly updated,
missing or inconsistent with another. Repeating the calculation succeeds and
gives exactly what it would have given without the failure, however often it
failed before.''',
['fault_sequences', 'crash_points', 'histories'], '''
Every executed line of the package in every calculation as the point of
failure, each kind of failure, and what is done afterwards.''',
'''No test makes a calculation fail part way.''',
['defdap/ebsd.py', 'defdap/hrdic.py', 'defdap/base.py', 'defdap/utils.py'],
[('calculations that store their results', 'defdap/ebsd.py'),
 ('grain finding and linking', 'defdap/hrdic.py'),
 ('lazy calculation and progress report', 'defdap/utils.py')],
['map data, grain lists and per-grain results read after the failure'],
'''Seeded search over failing lines and follow-ups, compared with runs without
the failure. Compiled kernels are atomic.''',
'interrupts injected at executed lines, compared with failure-free runs')

prop('C06', 'The data store of maps and grains keeps, computes and derives', '''
Data held by a map or grain reads back as what was last set or calculated for
it, cropped and masked as its metadata says; data with a calculation is
calculated when first read, all results of one calculation together, and not
calculated again while it is stored. Data of linked maps and grains is visible
under the rule of the link, follows the source it was last linked to, and
never shadows or duplicates what a store holds itself, however maps, grains
and linked maps refer to each other. Adding a name that exists, setting or
reading one that does not, and a calculation, conversion, crop or mask that
fails raise an error and change nothing else.''',
['histories', 'fault_sequences'], '''
Every history of adding, setting, clearing, calculating, linking and reading
over a network of linked stores, with any function failing at any call.''',
'''The tests use one store and one generator without links or failures.''',
['defdap/utils.py', 'defdap/base.py'],
[('data store', 'defdap/utils.py'),
 ('grains linked to their map', 'defdap/base.py')],
['values, metadata and names read from map.data and grain.data'],
'''Seeded histories against a reference of plain dictionaries; the real store
class, stub calculations.''',
'seeded histories and failing functions against a reference model')

prop('C07', 'Work in different threads does not influence each other', '''
Threads that each load, calculate, save or link maps of their own, share an
experiment to load into, or read results already calculated on a shared map,
each see exactly what they would see running alone, wherever the processor
is taken from them. Every map loaded is registered exactly once under its name, in the
increment of the experiment it was loaded into, and no file, global setting,
warning or data of one thread shows up in another. A thread that dies or fails
part way takes nothing from the others and blocks none of them.''',
['schedules', 'fault_sequences'], '''
Every interleaving of the executed lines of two to four such threads, and
death of a thread at any line.''',
'''No test uses a thread.''',
['defdap/experiment.py', 'defdap/utils.py', 'defdap/ebsd.py',
 'defdap/hrdic.py', 'defdap/base.py'],
[('registry of increments, maps and frames', 'defdap/experiment.py'),
 ('lazy calculation and links of the data store', 'defdap/utils.py')],
['results returned in each thread', 'increments and maps of experiments'],
'''Seeded search over schedules at line granularity, finer for
experiments, increments and frames. Concurrent first reads of
one quantity on one map are outside the claim; compiled kernels are atomic.''',
'seeded thread schedules and thread deaths compared with solo runs')

prop('C08', 'EBSD quantities follow the measured points in any history', '''
Whatever sequence of calculations, rotations, new tolerances, smoothing,
per-grain calculations and failing requests a user goes through and in whatever order
quantities are read, an EBSD map's boundaries, grains, grain neighbours (when
last built), KAM,
average and reference orientations, misorientations (angle and axis, within
grains and across the boundary of two neighbours), and the data its grains show, are
those that follow from its measured points and the last parameters given. The
smoothing filter replaces each orientation by the average of the nearest to it
in the most uniform quadrant around it, whichever of its two quaternions
represents an orientation. The Nye tensor holds the differences of the orientations
(of the nearest equivalents) between points next to each other in x and in y
per step, with the geometrically necessary dislocation density from its
components, and the proxigram the distance to the nearest boundary when it was
calculated. Each indexed point belongs to at most one grain, grains
are the regions enclosed by the boundaries that reach the minimum size (their
list, map and count agreeing), and reading never changes anything.''',
['histories', 'inputs'], '''
Every small map (phases, symmetries, unindexed points, orientation spreads)
and every history of operations on it.''',
'''The tests check each calculation once, in one order, on one map, against
stored values.''',
['defdap/ebsd.py', 'defdap/base.py', 'defdap/quat.py'],
[('boundary and grain finding', 'defdap/ebsd.py'),
 ('rotation of the map', 'defdap/ebsd.py'),
 ('grains and derived data', 'defdap/base.py')],
['map data, grain list, per-grain data, neighbour network'],
'''Seeded histories against a separate numpy model. GND and Nye tensor are not
judged where two equivalents of a neighbour are about as near.''',
'seeded operation histories with failing requests against a reference model')

prop('C09', 'HRDIC quantities follow the measured data in any history', '''
Whatever sequence of crops, masks, pattern images, correlation values, scale
settings and failing requests a HRDIC map goes through, its dimensions,
displacements, deformation gradient, strain, maximum shear, coordinates,
correlation values, pattern and homologous points are those of the measured
data with the current crop and mask applied once. A request that is refused
changes nothing, and reading or plotting never changes anything.''',
['histories', 'inputs', 'fault_sequences'], '''
Every small displacement field and every history of operations, with files
vanishing or changing between operations.''',
'''The tests crop or mask once on one map.''',
['defdap/hrdic.py', 'defdap/base.py', 'defdap/utils.py'],
[('crop, mask, pattern, correlation', 'defdap/hrdic.py'),
 ('crop and mask of data on reading', 'defdap/utils.py')],
['map data, shape, homologous points, scale'],
'''Seeded histories against a separate numpy model. After a crop a new mask is
set before masked data is read.''',
'seeded operation histories with failing requests against a reference model')

prop('C10', 'HRDIC grains and boundaries follow the EBSD map linked to them', '''
After linking a HRDIC map to an EBSD map, its boundary lines and image are
those of the EBSD map that was linked last, brought over by the transform of
the homologous points; after finding grains each HRDIC grain is the region it
should be, the grain map, grain list and points agree, and each grain is
linked to the EBSD grain that covers most of it. Data added to the grains can be
read as a map, grains are neighbours where a boundary point has both beside it,
and the proxigram is the distance to the nearest boundary point. This holds
after any sequence of links, new homologous points, crops, new EBSD boundaries and grain searches
by either algorithm, including failing ones, and results of grains show the
linked data.''',
['histories', 'inputs', 'fault_sequences'], '''
Every small pair of maps, every transform of the homologous points, and every
history of linking, cropping and finding grains.''',
'''The tests find grains once with one link on one data set.''',
['defdap/hrdic.py', 'defdap/base.py', 'defdap/experiment.py'],
[('linking and grain finding', 'defdap/hrdic.py'),
 ('frames and transforms', 'defdap/experiment.py')],
['HRDIC grain map, grain list, links, boundary lines and image'],
'''Seeded histories against a separate model of the geometry; boundary images
against freshly loaded maps.''',
'seeded operation histories with failing requests against a reference model')

prop('C11', 'Homologous points and frame transforms follow the user', '''
Whatever a user does to the homologous points of maps (picking, nudging,
saving and sharing points in any number of open windows, setting or updating
them from a program, in any order), each frame holds exactly the points last
saved or set for it and each window shows those of its own map. A transform
between two frames is the one, of the kind asked for, that takes the current
points of the one to the current points of the other, and warped images and
lines follow it. A request that cannot be met raises an error and leaves every
frame, window and map as it was.''',
['histories', 'inputs'], '''
Every sequence of mouse, key and button events and calls on two or three
frames, every layout of points and kind of transform.''',
'''The tests estimate a few transforms from fixed points; no test picks
points in a window or changes them afterwards.''',
['defdap/experiment.py', 'defdap/base.py', 'defdap/plotting.py'],
[('points, links and transforms of frames', 'defdap/experiment.py'),
 ('picking points', 'defdap/base.py')],
['homologous points of each frame', 'points drawn in the windows',
 'transforms, warped images and lines'],
'''Seeded event sequences against a separate model; transforms are compared
with scikit-image's own estimate for the model's points.''',
'seeded sequences of GUI events and calls against a reference model')

prop('C13', 'The grain inspector keeps a consistent session for any user', '''
Whatever a user does in the grain inspector (drawing, saving and removing
lines, moving between grains, calculating RDR, typing nonsense, in any order),
each grain keeps exactly the lines saved and not removed, at the coordinates
drawn and with the angle they have, grouped by angle (0 and 180 degrees being
the same) with averages, matching
slip planes and deviations that follow from those lines. The RDR of a group is
the slope fitted to the displacements of its lines on the valid points, the
window shows the grain and lines it acts on, and an invalid request changes
nothing.''',
['histories', 'inputs'], '''
Every sequence of mouse and keyboard events on the window over every small
pair of linked maps, correction angle and line length.''',
'''No test opens the grain inspector.''',
['defdap/inspector.py', 'defdap/plotting.py', 'defdap/hrdic.py'],
[('line drawing, grouping and RDR', 'defdap/inspector.py'),
 ('buttons, text boxes and lines', 'defdap/plotting.py')],
['lines and groups of the grains', 'text shown in the window'],
'''Seeded event sequences against a separate model. Most runs use a stand-in
for matplotlib; its failures count only if real matplotlib widgets (Agg) show
them too.''',
'seeded sequences of GUI events against a reference model')

prop('C12', 'Map windows show and link the grains the user points at', '''
Whatever a user does in the windows that select, link and inspect grains
(clicking, dragging, closing windows, starting and undoing links, in any order
and with any number of windows open), the grain that becomes selected is the
one at the point clicked, and each window shows the highlights, neighbours,
boundaries, grain numbers, line profile and pop-up that belong to its own map
and last request. Links between EBSD maps pair exactly the grains chosen and
not undone, and orientations and misorientations passed along the links are
those of the linked grains. An invalid request changes nothing.''',
['histories', 'inputs'], '''
Every sequence of mouse and button events and calls on the windows of one to
three small linked maps of different step size, every highlight, boundary and
colour option.''',
'''No test clicks in a map window, and none links grains of two EBSD maps.''',
['defdap/base.py', 'defdap/plotting.py', 'defdap/ebsd.py'],
[('selecting grains, neighbours and profiles', 'defdap/base.py'),
 ('drawing of maps and highlights', 'defdap/plotting.py'),
 ('linking of grains between maps', 'defdap/ebsd.py')],
['selected grains and links', 'image layers, lines, text of the windows',
 'orientations passed along links'],
'''Seeded event sequences against a separate model. Most runs use a stand-in
for matplotlib; its failures count only if real matplotlib (Agg) shows them
too.''',
'seeded sequences of GUI events against a reference model')

prop('C14', 'Slip systems, Schmid factors and slip traces follow file and grain', '''
Loading a slip system file, directly or through a phase, gives exactly its
systems, in its order and grouped by plane or family as asked, with the unit
vectors their indices mean for the lattice and axis convention; a file that is
cut, unreadable, of another structure or replaced meanwhile is refused or read
as one whole file, and no file is left open. Schmid factors, slip traces,
inclinations and RDR values calculated for a grain are those of its reference
orientation and the slip systems in use at that moment, whether asked through
the map, the grain or a linked HRDIC grain. They stay as calculated when
orientations or slip systems change later, and plots and printouts show them.
A request that fails changes no grain it did not complete.''',
['histories', 'inputs', 'fault_sequences'], '''
Every small slip system file and disk fault while it is read, and every
history of calculations, new slip systems and orientations on a small map.''',
'''The tests load the files of the package only and check Schmid factors of
one grain and load.''',
['defdap/crystal.py', 'defdap/crystal_utils.py', 'defdap/ebsd.py',
 'defdap/plotting.py'],
[('slip system files and their grouping', 'defdap/crystal.py'),
 ('conversion of indices', 'defdap/crystal_utils.py'),
 ('Schmid factors, traces and RDR of grains', 'defdap/ebsd.py')],
['slip systems and colours of a phase', 'Schmid factors, traces and RDR',
 'arrows drawn, text printed'],
'''A reader of the format, the lattice geometry and the symmetry groups are
written again in the check; disk faults are decided by the seed.''',
'seeded fault injection on the simulated disk and seeded histories against a '
'reference model')

prop('C15', 'Plots, tables and averages show the current data that was asked for', '''
A plot of a map, a grain, boundaries, phases, orientations or misorientations
shows, point by point, the values the data have at that moment (after crops,
masks, rotations, new tolerances, grains and reference orientations), of the
component and grains asked for, with the range, colours, labels, scale bar,
boundaries and highlights asked for, on the axis asked for. Points removed by
the mask or outside the grains show nothing. Grain averages, coarse maps,
histograms, line profiles, statistics tables and pole figures are those of the
same data, and slip bands are found and drawn along the bands of the data.
Making a plot changes no data, and a request that is refused or
interrupted changes nothing that later requests show.''',
['histories', 'inputs', 'fault_sequences'], '''
Every history of changes, plots, invalid requests and interruptions at any
call, on small EBSD maps and linked HRDIC maps.''',
'''The tests plot almost nothing; what is shown depends on the history of the
map and on the combination of options.''',
['defdap/plotting.py', 'defdap/base.py', 'defdap/ebsd.py',
 'defdap/hrdic.py', 'defdap/quat.py'],
[('plots of maps and grains', 'defdap/plotting.py'),
 ('components, averages and profiles', 'defdap/base.py'),
 ('orientation colours and the fundamental triangle', 'defdap/quat.py')],
['images, lines, points, bars and labels drawn', 'values returned',
 'text printed'],
'''What is drawn is read from a stand-in of matplotlib, confirmed with the
real one; expected pictures come from a model of map state and of IPF colours
written again in the check. Interruptions are decided by the seed.''',
'seeded histories with interruptions against a reference model of what is '
'shown')

na('C20', 'Quaternion algebra and conversions', '''
Products, conjugates, conversions between Euler angles, axis and angle and
quaternions, and misorientations of quaternions follow the algebra of
rotations for every input.''', 'Every pair of orientations.',
['defdap/quat.py'], '''
Pure functions of their arguments: no time, I/O, scheduling, failure or
history for a simulator to decide. Their use in maps is judged in C08, C14
and C15.''')
