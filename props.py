#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run me to rewrite both)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
MC = 'exhaustive bounded exploration of the real code (stateless model checking), in lockstep with a reference model'
FE = 'exhaustive fault enumeration (every cut-off / failure / crash point) on the real code'
SCH = 'exhaustive schedule exploration of the real code, preemption bounded, under a controlled scheduler'

P = []


def prop(id, title, statement, over, text, why, files, mech, level='model_checking', technique=MC,
         note='', observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, level=level, technique=technique, note=note, observe=observe, state=state))


S = 'simplegrid/'

prop('P01', 'Grid files round-trip without loss in the documented layout',
     'Writing a grid to a grid file and reading it back with the same cell counts returns all sixteen fields '
     'bit for bit, whatever their values, memory layout or byte order, and the bytes on disk are the documented '
     'ones: big-endian doubles, field after field, column order, zero padded to (ni+1) x (nj+1). '
     'A field that is empty is written as NaNs, a grid that lacks a field or has other counts than those given is refused, what was in the file before does not show, and neither '
     'operation changes what it was given.',
     ['inputs', 'histories'], 'all cell counts, field contents, array layouts, previous file contents and '
     'sequences of reads and writes',
     'Tests read and write a handful of square-ish example files and compare a few fields; they never vary '
     'shape, layout, special values, previous contents or order of operations.',
     [S + 'gridio.py', S + 'mitgridfilefields.py'],
     [('field order, staggering, data type', S + 'mitgridfilefields.py'),
      ('reshape in Fortran order, trimming', S + 'gridio.py:read_mitgridfile'),
      ('padding, byte order', S + 'gridio.py:write_mitgridfile')],
     note='all sizes up to 4x4 (7x7), 4 contents, 6 layouts, 4 previous contents; every history of 3 (4) '
          'operations on two files')

prop('P02', 'Strict mode rejects a file if and only if its padding is nonzero',
     'With strict set, every operation that reads a grid file raises RuntimeError if any term outside the '
     'nominal extent of any field is nonzero (NaN included), and only then. Without it, such terms make no '
     'difference to any result.',
     ['inputs', 'configurations'], 'every padding position of every field, every nonzero value, every '
     'operation and tile position the file is read in',
     'Tests pass strict=True on clean files only: no test ever has a nonzero padding term, let alone in each '
     'of the 16 fields and through each reader.',
     [S + 'gridio.py', S + 'regrid.py', S + 'addfringe.py', S + 'stitch.py'],
     [('trim check', S + 'gridio.py:read_mitgridfile'), ('strict handed on', S + 'regrid.py, addfringe.py, stitch.py')],
     note='single terms through eight readers, and all pairs of terms, sizes up to 2x1 (3x2)')

prop('P03', 'An incomplete grid file is never taken for a grid',
     'A grid file (or binary coordinate file) that is shorter than its cell counts imply is rejected by every '
     'operation that reads it. If a process dies at any moment while writing a grid file, what is left reads '
     'as the grid being written, as the one that was there before, or not at all.',
     ['crash_points', 'inputs'], 'every length of the file from 0 to full, every reader; process death at every '
     'byte written and before every line executed',
     'No test reads a truncated file or interrupts a writer.',
     [S + 'gridio.py', S + 'regrid.py'],
     [('size implied by reshape', S + 'gridio.py:read_mitgridfile'), ('single pass writer', S + 'gridio.py:write_mitgridfile')],
     level='fault_enumeration', technique=FE,
     note='process crashes; what reached the file stays, in order (no loss of power)')

prop('P04', 'Success is reported only for complete output',
     'Whenever output cannot be written completely (disk full, file size limit, bad target), the operation or '
     'command line tool reports failure: an exception, a false result or a nonzero exit status. This goes for grid '
     'files, MDS files and open boundary files, wherever in the file writing stops.',
     ['fault_sequences'], 'a failing write at every byte of every kind of output file, over no file or an existing one',
     'No test makes a write fail; several writers lost such errors entirely before they were repaired.',
     [S + 'gridio.py', S + 'mds.py', S + 'getobcs.py', S + 'mkgrid.py', S + 'regrid.py', S + 'addfringe.py', S + 'stitch.py'],
     [('checked writes', S + 'gridio.py:write_mitgridfile, mds.py:wrmds, getobcs.py:getobcs')],
     level='fault_enumeration', technique=FE,
     note='faults injected by the kernel: file size limit, /dev/full, missing or unsuitable targets')

prop('P05', 'A new grid has the requested corners, counts and equal subdivision',
     'A grid created for two opposite corners has exactly those corners, the first at the first-column/last-row '
     'position and the second opposite, for either orientation of the pair; it has the requested number of cells each way; '
     'its corner and centre points divide the east-west sides, then the north-south lines between them, into equal '
     'great-circle parts.',
     ['inputs'], 'all extents (dateline, poles, equator, tiny to continental), orientations of the corner pair and '
     'cell counts',
     'Tests compare a few grids with stored output of the same code.',
     [S + 'mkgrid.py', S + 'computegrid.py'],
     [('corner placement', S + 'mkgrid.py:mkgrid'), ('great circle subdivision', S + 'computegrid.py:fill')],
     note='lattice of extents x orientations x counts, positions to 1 mm against vector algebra')

prop('P06', 'Spacings and areas belong to the points of the grid',
     'Each of the eight spacing and four area fields of a created or regridded grid, term by term, is the length '
     'or area on the sphere of the line or cell that the MITgcm grid conventions assign to that field and index. '
     'Terms for which that line or cell reaches beyond the grid are exactly zero.',
     ['inputs'], 'all grids (cell sizes from metres to hundreds of km, skewed or regular, any counts, refinements, '
     'orientations)',
     'Tests compare with stored output of the same code for a few grids; a wrong index or pairing in a field or size '
     'not stored goes unnoticed.',
     [S + 'computegrid.py', S + 'util.py', S + 'config.py'],
     [('pairing of half edges and sub-areas', S + 'computegrid.py:tomitgrid'), ('edge lengths', S + 'computegrid.py:edges'),
      ('area formulas and switch', S + 'computegrid.py:areas, util.py')],
     note='lengths to 1e-9; areas to 5e-6 (flat cells) or to the rounding error of the formula for that very cell')

prop('P07', 'Areas are right at every scale and add up',
     'Cell areas are positive, finite and those of the spherical cells, to 0.3 %, for cells of any size from 100 m '
     'to 30 degrees at any latitude including cells that touch a pole. However finely a region is subdivided, '
     'the areas of the parts add up to that of the region.',
     ['inputs'], 'all cell widths x heights x latitudes, all refinements of a region',
     'Accuracy for all scales is a statement about the switch between two formulas and their conditioning; tests '
     'compare with stored output at one scale each.',
     [S + 'util.py', S + 'computegrid.py', S + 'config.py'],
     [('planar and spherical areas', S + 'util.py'), ('switch', S + 'computegrid.py:areas')],
     note='widths and heights from 100 m to 30 degrees, alone and side by side in one grid; latitudes up to the poles')
exec(open(os.path.join(HERE, 'props2.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': list(p['observe']) or ['return values, files written and exceptions of the public functions'],
                            'hook_needed': None}}) + '\n')
    checks, na = [], []
    for p in P:
        if p['level'] is None or not os.path.exists(os.path.join(HERE, 'checks', p['id'] + '.py')):
            na.append({'property': p['id'], 'reason': p['note']})
            continue
        checks.append({
            'property': p['id'], 'quick_cmd': './check.sh ' + p['id'],
            'thorough_cmd': './check.sh {} --thorough'.format(p['id']),
            'technique': p['technique'], 'level': p['level'],
            'level_note': 'Within the bounds, every case is executed on the real code and compared with an '
                          'independent reference. Bounds and trust: ' + p['note'] + '.'})
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['id']


if __name__ == '__main__':
    main()
