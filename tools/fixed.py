#!/usr/bin/env python3
"""Rewrites the list of fixes in known_findings.json (development aid)."""
import json
import os
import subprocess

PID = {
    'c51e676': 'C07', '5f4a254': 'C06', '115fcfe': 'C10', 'ce560bd': 'C05',
    'a031d38': 'C02', '7f231e6': 'C08', '6e628ec': 'C12', '653bc25': 'C10',
    'd6e0106': 'C09', '816833a': 'C09', 'bea11bd': 'C01', '447ba8a': 'C02',
    '3875b4f': 'C02', 'ba1f154': 'C02', 'a5e8af2': 'C02', '07dd231': 'C11',
    'df52282': 'C03', 'f6f8855': 'C03', '42429cf': 'C13', '573e6a4': 'C04',
    '1bd0b8d': 'C13', '0d22478': 'C13', '46fb04a': 'C13', 'd6f6bbe': 'C04',
    '968b8d4': 'C04', '632f0cd': 'C01', 'a6f191c': 'C05', 'f51a8b4': 'C06',
    '3e26e5f': 'C08', '3d0cab8': 'C08', 'e44c164': 'C04', 'c5ec399': 'C13',
    'd611e00': 'C13', '876f208': 'C08', 'f8af062': 'C12', '5a6384e': 'C11',
    '56368b0': 'C11', '0341216': 'C11', '6701b2d': 'C12', 'e6858ca': 'C13',
    '520dab9': 'C13', '72f9bad': 'C12', '61f4176': 'C12',
    'c9d6bd7': 'C12', 'e9e3ecf': 'C12', 'a3b5f15': 'C14', '7aa6f4b': 'C14',
    '30a0109': 'C14', '948ac60': 'C14',
    '846c1d7': 'C15',
    '7d35349': 'C15',
    'e6daa9f': 'C15',
    '30d6e26': 'C15',
    'a4dfa1d': 'C15',
    '8a1c44f': 'C15',
    'a5ef6a8': 'C15',
    'f89707d': 'C15',
    'e266e03': 'C15',
    '303ad2c': 'C15',
    'a25de7a': 'C15',
    '3971d60': 'C15',
    '2a342bc': 'C15',
    '54bc7bc': 'C15',
    '44ab388': 'C08',
    '563ceaa': 'C08',
    '6c6999f': 'C10',
    '92138bb': 'C15',
    '0e24603': 'C01', '37e3054': 'C01', 'c4f1bbe': 'C01', '2aac5da': 'C08',
    'f64e8de': 'C08', '2816782': 'C06', '648628a': 'C06',
    'a16887b': 'C13', 'f26d02b': 'C15',
    '48456a6': 'C15', '1f80690': 'C06', '3b5f899': 'C15',}
WHAT = {
    'c51e676': 'a lookup interrupted or shared between threads made derived '
    'data invisible for ever',
    '5f4a254': 'data derived from any but the first linked store could not '
    'be read',
    '115fcfe': 'boundaries of the EBSD map linked before were shown after '
    'linking another',
    'ce560bd': 'a grain search that failed part way left a grain map that '
    'did not belong to the grain list',
    'a031d38': 'a map whose file failed to load stayed in the frame',
    '7f231e6': 'rotating a map left layers and calculated results unrotated',
    '6e628ec': 'clicking a grain to link another map raised an error '
    'instead of guessing its position',
    '653bc25': 'grains over no EBSD grain were linked to an unrelated one',
    'd6e0106': 'correlation values of the wrong size were kept',
    '816833a': 'a refused crop was applied in part',
    'bea11bd': 'an unknown field shifted all fields after it',
    '447ba8a': 'a file cut inside a row loaded with wrong data',
    '3875b4f': 'a file cut inside a record loaded with wrong data',
    'ba1f154': 'the file stayed open after loading',
    'a5e8af2': 'a file in ascending y was loaded upside down',
    '07dd231': 'a key without a name raised an error',
    'df52282': 'a file created while saving was overwritten',
    'f6f8855': 'the space group of phases was lost on saving',
    '42429cf': 'group angles were drawn wrongly',
    '573e6a4': 'sessions with numpy values were saved unreadable',
    '1bd0b8d': 'lines of an earlier grouping were averaged into a group',
    '0d22478': 'all grains were reported with one orientation',
    '46fb04a': 'going to a grain that does not exist left a wrong state',
    'd6f6bbe': 'a failed save destroyed the existing session',
    '968b8d4': 'a damaged session was loaded in part',
    '632f0cd': 'EDAX files with one column too many shifted fields',
    'a6f191c': 'an interrupted calculation left partial results on grains',
    'f51a8b4': 'grains could not be found a second time',
    '3e26e5f': 'an image without boundaries marked every point',
    '3d0cab8': 'the average of orientations with opposite signs was wrong',
    'e44c164': 'a session with an RDR that is not defined did not load',
    'c5ec399': 'RDR lines wrapped around the edge of the map and took masked '
    'points',
    'd611e00': 'a click that draws no line replaced the line that is shown',
    '876f208': 'the proxigram of a map could not be read',
    'f8af062': 'a click on the left half of a point selected its neighbour',
    '5a6384e': 'a failed change of a homologous point spoiled the list',
    '56368b0': 'frames shared one list of homologous points',
    '0341216': 'a transform that can not be estimated was used as nan',
    '6701b2d': 'the grain selected before stayed selected',
    'e6858ca': 'a corrected angle could leave the range of the groups',
    '520dab9': 'one removal by return removed a second line',
    '61f4176': 'a second profile in a cleared window failed',
    'c9d6bd7': 'four boundary lines of a named colour failed',
    'e9e3ecf': 'a new figure was taken for the one that was closed',
    'a3b5f15': 'a slip system file with one system did not load',
    '7aa6f4b': 'a slip system file was read in two parts and left open',
    '30a0109': 'Schmid factors depended on the length of the load vector',
    '948ac60': 'Schmid factor maps of chosen directions showed all of them',
    '72f9bad': 'highlighted grains were all drawn in the first colour',
    '846c1d7': 'the boundary map was drawn in white',
    '7d35349': 'integer grain maps had a wrong background',
    'e6daa9f': 'a single grain ID was refused when averaging',
    '30d6e26': 'masked points failed or counted in the statistics table',
    'a4dfa1d': 'masked points counted in histograms',
    '8a1c44f': 'a histogram without a range failed',
    'a5ef6a8': 'a histogram had one bin too few',
    'f89707d': 'points at the ends of logarithmic histograms were lost',
    'e266e03': 'displacement and coordinate maps could not be plotted by default',
    '303ad2c': 'the norm of masked data showed the masked points',
    'a25de7a': 'a given axis or figure was ignored or failed',
    '3971d60': 'line profiles showed masked points',
    '2a342bc': 'rotation vectors of points without misorientation were nan',
    '54bc7bc': 'directions on an edge of the fundamental triangle were misplaced',
    '44ab388': 'flood fill read and wrote outside maps one point wide',
    '563ceaa': 'the Nye tensor used the orientation gradient in y for x too',
    '6c6999f': 'the neighbours of HRDIC grains could not be found',
    '92138bb': 'pole plots could not draw points in one or two colours',
    '0e24603': 'an EBSD map could not be loaded from a dictionary',
    '37e3054': 'a .ctf file whose project name mentions a header entry, such '
    'as "Duplex Phases", could not be loaded or lost its size',
    'c4f1bbe': 'a phase name of several words in a .ang file was cut to the '
    'first',
    '2aac5da': 'the Kuwahara filter averaged quaternions of opposite sign, '
    'giving an orientation far from all of those averaged',
    'f64e8de': 'the Kuwahara filter failed on narrow maps, and results of the '
    'orientations before smoothing stayed',
    '2816782': 'merged data stores shared their items, so that setting data '
    'of the one changed the other',
    '648628a': 'a calculation refused because one of its names exists left '
    'its other names in the store',
    'a16887b': 'lines across 0 and 180 degrees were put in different groups, '
    'and slip planes on the other side were not found for a group',
    'f26d02b': 'the grain outline had a huge negative number in place of nan '
    'outside the grain',
    '48456a6': 'slip bands along the vertical (a peak at the end of the '
    'periodic profile) were not found',
    '1f80690': 'a refused add_generator left some of its names in the store, '
    'and the metadata given was changed',
    '3b5f899': 'the legend of a pole plot was put on the plot that was '
    'current, not on the pole plot'}

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, 'known_findings.json')
d = json.load(open(p))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse',
                      '--format=%h %s', 'f420a34..'], capture_output=True,
                     text=True).stdout.split('\n')
d['fixed'] = []
for ln in log:
    if not ln:
        continue
    h, s = ln.split(' ', 1)
    d['fixed'].append(f'fixed: property={PID[h]} {h} {WHAT[h]}')
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
print(len(d['fixed']), 'fixes')
