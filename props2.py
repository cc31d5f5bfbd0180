prop('P08', 'Regridding keeps the parent\'s corners and refines between them',
     'A grid made by regrid covers exactly the part of the parent between the two parent corner points nearest to the '
     'two points given. All parent corner points in that part are corner points of the result, bit for bit, every '
     'lon_subscale-th and lat_subscale-th; those between divide the parent\'s sides, then the lines between them, into '
     'equal great-circle parts. Counts are those of that part times the subscales.',
     ['inputs'], 'all parent grids, pairs of points and subscales',
     'Tests compare a few regridded example grids with stored output of the same code.',
     [S + 'regrid.py', S + 'computegrid.py', S + 'util.py'],
     [('nearest corner, mapping to the compute grid', S + 'regrid.py:regrid'), ('subdivision', S + 'computegrid.py:fill')],
     note='parents up to 3x2 (4x3), all pairs of nodes, subscales up to 3, points given off the nodes')

prop('P09', 'The orientation of a regridded grid is the one asked for',
     'The result of regrid has the first point given at the first-column/last-row corner and the second opposite, '
     'whichever way round the parent grid is stored, and is the same for every stored orientation of the parent.',
     ['inputs', 'configurations'], 'all four orientations of the pair of points, all four of the parent, all sizes',
     'Tests regrid from two orientations of one or two grids.',
     [S + 'regrid.py'], [('rotation loop', S + 'regrid.py:regrid')],
     note='parents up to 2x3 (4x3), every pair of diagonally opposite nodes, four turns')

prop('P10', 'All sources of a parent grid are equivalent, invalid requests refused',
     'regrid gives the same result bit for bit whether the parent comes as a grid file, as matrices, or as a pair of '
     'corner coordinate files, each binary or .csv, and whatever the type and memory layout of the matrices. A request with points that are not diagonally opposed, or with a '
     'required argument left out, raises ValueError.',
     ['inputs', 'configurations'], 'all sources x orientations x subscales; all degenerate pairs; all subsets of '
     'arguments left out',
     'Tests use one source per test case, and never mixed pairs or missing arguments.',
     [S + 'regrid.py', S + 'gridio.py'], [('source selection, refusals', S + 'regrid.py:regrid')],
     note='parents up to 3x2 (4x4)')

prop('P11', 'A common edge of two tiles is found if and only if there is one',
     'For two tiles that share a complete edge - all points of an edge of one within the tolerance (1e-6 of the mean '
     'tile diagonal) of those of an edge of the other, in order - both edges and matching ranges of points are reported, '
     'whatever their placement, orientation, handedness, size and longitude convention. Otherwise an error is raised '
     'and no grid is made.',
     ['inputs'], 'all placements and orientations of two tiles, all displacements of edge points around the tolerance',
     'Tests join two or three pairs of tiles that do match, N/S and E/W; tiles with only end points in common were '
     'accepted before the repair.',
     [S + 'matchedges.py', S + 'addfringe.py', S + 'stitch.py'],
     [('edge comparison', S + 'matchedges.py:matchedges')],
     note='4x4 (5x5) lattice, tiles up to 2x2 (3x3); tiles that share two edges at once (rings) are out of scope')

prop('P12', 'addfringe keeps what the tile says and fills in only what is missing',
     'addfringe returns tile A with every nonzero term of every field unchanged, bit for bit; terms that are zero '
     'become the values that the MITgcm grid conventions give for the joined grid; terms that reach beyond both tiles '
     'stay zero. The edges reported are those that touch. Input files are not changed.',
     ['inputs'], 'all sides, sizes and contents of the two tiles; all patterns of zero terms in tile A',
     'Tests compare with stored output of the same code - which turns out to contain zeros where fringe values belong.',
     [S + 'addfringe.py', S + 'computegrid.py', S + 'matchedges.py'],
     [('compute grid with joined edge', S + 'addfringe.py:addfringe'), ('merge of nonzero terms', S + 'addfringe.py:addfringe')],
     note='tiles up to 2x3 (3x3), every single zero term, row, column; the fringe terms themselves are left zero: known finding')

prop('P13', 'Stitching gives the union of the tiles, in any order of joining',
     'stitch returns the grid of the union of its two tiles: counts add up across the joint, every term comes from the '
     'tile it belongs to, unchanged (on the joint from tile A), and those across the joint belong to the joined grid. '
     'A mosaic gives the same grid in whatever order, and with either tile as A, it is joined.',
     ['inputs', 'histories'], 'all sides, sizes, contents; all orders of joining the tiles of a mosaic',
     'Tests stitch one or two pairs in one order.',
     [S + 'stitch.py', S + 'addfringe.py', S + 'matchedges.py'],
     [('placement of both tiles', S + 'stitch.py:stitch')],
     note='tiles up to 2x3 (4x3), mosaics of up to 4 (6) tiles; terms across the joint are left zero: known finding')

prop('P14', 'Operations change nothing but their output and do not depend on history',
     'The result of every public operation depends on its arguments and the files named only: not on operations made '
     'before, failed ones included, nor on the working directory. No operation changes its arguments, the files it '
     'reads, results returned earlier, or process state (warning filters, numpy settings, working directory).',
     ['histories'], 'all sequences of operations, failing ones included',
     'Every test runs one operation on its own input, and never looks at the input again.',
     [S + 'regrid.py', S + 'computegrid.py', S + 'mkgrid.py', S + 'gridio.py', S + 'mds.py', S + 'getobcs.py',
      S + 'stitch.py', S + 'addfringe.py', S + 'matchedges.py', S + 'mds2mitgrid.py', S + 'util.py'],
     [('copies of caller data', S + 'regrid.py, computegrid.py'), ('module globals', S + 'mds.py, config.py')],
     note='all pairs (triples) of some 25 operations, against each by itself in a fresh process')

prop('P15', 'Operations in concurrent threads give what each gives alone',
     'Two operations on different output running at the same time in two threads each have the result (value, error, '
     'files written) they have alone, under every schedule, and neither affects the other\'s inputs.',
     ['schedules'], 'all interleavings of two operations with one or two preemptions',
     'No test runs two operations at once, and if one did it would see one schedule.',
     [S + 'computegrid.py', S + 'regrid.py', S + 'gridio.py', S + 'mds.py', S + 'getobcs.py', S + 'stitch.py', S + 'addfringe.py'],
     [('shared module state', S + 'mds.py, config.py, computegrid.py')],
     technique=SCH,
     note='scheduling points are lines of simplegrid code, one preemption at every line, two at functions; a line is atomic')

prop('P16', 'The command line tools do what the functions do, and fail when they must',
     'Each command line tool writes exactly what the corresponding function returns for the same arguments, for every '
     'combination of options and of their spellings, and exits with status 0. If a required option is missing or '
     'malformed, or the function fails, it exits with another status and leaves existing output files as they are.',
     ['configurations', 'inputs'], 'all combinations of options, long and short, left out, malformed',
     'Tests call functions only; no command line tool is run by any test.',
     [S + 'mkgrid.py', S + 'regrid.py', S + 'addfringe.py', S + 'stitch.py', S + 'getobcs.py', 'setup.py'],
     [('option parsers and main functions', S + 'mkgrid.py, regrid.py, addfringe.py, stitch.py, getobcs.py: create_parser, main')],
     note='all options of five tools, each missing, malformed, abbreviated; entry points of setup.py')

prop('P17', 'The nearest point is found, and Cartesian coordinates are right',
     'nearest returns indices of a point at the smallest great-circle distance, and that distance, for every '
     'arrangement of points (poles, dateline, any longitude convention), array layout and data type; arrays that are '
     'not two-dimensional are refused. lonlat2cart returns the Cartesian coordinates of points on a sphere of the radius given.',
     ['inputs'], 'all arrangements of points and places to look from',
     'Tests look up a few points in one grid.',
     [S + 'util.py'], [('nearest', S + 'util.py:nearest'), ('lonlat2cart', S + 'util.py:lonlat2cart')],
     note='matrices up to 3x1 and 2x2 of 12 special places; which of several points at the same distance is not specified')

prop('P18', 'MDS files written are read back, in the documented layout',
     'wrmds writes exactly the array given, in the precision and byte order asked for, x fastest, and a meta file from '
     'which rdmds recovers it with its dimensions, records, iteration, times, field names and simulation name. A '
     'request that makes no sense is refused before anything is written.',
     ['inputs', 'histories'], 'all shapes, contents, layouts, foldings into records, precisions, byte orders, metadata; '
     'sequences of writes',
     'No test writes MDS files.',
     [S + 'mds.py'], [('wrmds', S + 'mds.py:wrmds'), ('meta file format', S + 'mds.py:parsemeta, readmeta')],
     note='up to four (five) dimensions, at least x and y; iteration numbers from times that are whole multiples of the time step')

prop('P19', 'rdmds returns the part asked for of the whole field, however stored',
     'Whatever way a field is stored - in one file or in tiles, some of them blank, folded (map2glob), in either '
     'precision and byte order, over several directories - and read - memory mapped or not, with any selection of '
     'records, levels, region and iterations - the result is that part of the whole field, fill_value where no tile is, '
     'with the metadata of what was read. An incomplete or inconsistent file, or records or levels that are not there, is an '
     'error. Reading never changes files, nor needs permission to.',
     ['inputs', 'configurations'], 'all tilings, missing tiles, regions, records, levels, iterations, modes; every truncation',
     'Tests read a few complete example files in whole.',
     [S + 'mds.py'], [('rdmds', S + 'mds.py:rdmds'), ('parsing', S + 'mds.py:parsemeta, readmeta'),
                      ('iterations', S + 'mds.py:scanforfiles')],
     note='fields up to five (six) dimensions, up to 4 tiles of equal size, levels listed at most once')

prop('P20', 'mds2mitgrid recovers exactly the grid that MDS files hold',
     'mds2mitgrid returns every one of the sixteen fields that is in the directory, exactly and x first, zero padded '
     'to its staggered size; None for those absent, and only for those; and the tracer cell counts. A file that is '
     'there but incomplete or damaged is an error.',
     ['inputs', 'fault_sequences'], 'all subsets of fields, sizes, tilings, precisions; every field damaged in every way',
     'No stable test runs mds2mitgrid.',
     [S + 'mds2mitgrid.py', S + 'mds.py', S + 'mitgridfilefields.py'],
     [('mds2mitgrid', S + 'mds2mitgrid.py:mds2mitgrid')],
     note='subsets of up to 2 and from 14 fields (all 65536); sizes up to 4x2 (6x4)')

prop('P21', 'Open boundary files hold the right cells, depths and times',
     'getobcs writes, for each side that is not switched off and each result field found, one file with the '
     'interpolated field at the boundary cells given (negative indices counted from the far side, edge cells by '
     'default), the first inner face for velocities across western and southern boundaries, for all depths and times '
     'in order, as MITgcm reads it (big-endian doubles, along-boundary index fastest, then depth, then time). '
     'Requests it cannot meet, among them index vectors that don\'t fit the grid, are refused without boundary files.',
     ['inputs', 'configurations'], 'all index vectors, combinations of sides, sets of results, times, depths, tilings, grids',
     'getobcs is not run by any stable test; it failed for any index vector before the repairs.',
     [S + 'getobcs.py', S + 'regrid.py', S + 'mds.py'],
     [('index vectors, partitions, files', S + 'getobcs.py:getobcs')],
     note='regions up to 3x2 (3x3); xESMF is replaced by a stand-in with dense weights that depend on all positions')

prop('P22', 'What earlier getobcs runs left behind makes no difference',
     'The boundary files written by getobcs are the same whatever is in the results directory: interpolation weights '
     'and boundary files of earlier runs for other grids, regions, times or sides, complete or interrupted at any point.',
     ['histories', 'crash_points'], 'all histories of runs into one directory; an earlier run killed in every state the '
     'directory goes through',
     'Interpolation weights left by one run are reused by the next; a test with one run in a new directory cannot show it.',
     [S + 'getobcs.py'], [('weight file names', S + 'getobcs.py:weightfilename')],
     note='histories of 2 (3) runs out of 11 kinds; xESMF is replaced by a stand-in that reuses weight files as it does')

prop('P23', 'It makes no difference by which longitude a place is given',
     'Giving any point as a longitude larger or smaller by 360 degrees - all points alike, or each its own way, across '
     'the dateline or the prime meridian - changes no result of making, refining, joining or interpolating grids but '
     'the longitudes themselves, modulo 360. Points given keep the longitude given; those worked out are in 0 to 360 '
     'if none given is negative, and in -180 to 180 otherwise.',
     ['inputs', 'configurations'], 'every assignment of a turn to every point of a grid, tile or request',
     'Tests use grids in one convention each.',
     [S + 'computegrid.py', S + 'regrid.py', S + 'mkgrid.py', S + 'matchedges.py', S + 'util.py', S + 'stitch.py', S + 'addfringe.py'],
     [('longitude range', S + 'computegrid.py:fill'), ('distances', S + 'util.py:nearest, matchedges.py')],
     note='parents of up to 6 (9) points with all 2^n assignments, three places, all four sides')

prop('P24', 'Diagnostic output changes nothing, and is only given when asked for',
     'With verbose set, every operation - making, refining, joining, reading, writing, converting grids, rdmds, getobcs - '
     'gives the same result, the same files and the same errors as without, for any input. With verbose not set or '
     'left out, by name or by position, nothing is printed.',
     ['inputs', 'configurations'], 'operations, sizes, places, sides, sources of grids, requests that succeed and that fail',
     'Tests never set verbose, and do not look at output.',
     [S + m + '.py' for m in ['addfringe', 'computegrid', 'getobcs', 'gridio', 'matchedges', 'mds', 'mds2mitgrid', 'mkgrid',
                              'regrid', 'stitch', 'util']],
     [('verbose and debug branches', S + '*.py')],
     note='grids up to 3x3, all sides, all sources of grids; the text itself is not specified')

prop('P25', 'It makes no difference what files are called, or where they are',
     'Every operation that reads or writes files, from Python and as a command, gives the same results whatever the '
     'directories and files are called - spaces, dots, digits, glob characters, extensions, any text - and however they '
     'are given: relative or absolute, through links, with slashes at the end. Output is in the files named, '
     'and nowhere else. (Names given to rdmds are patterns; names of coordinate files that end in .csv say they are text.)',
     ['inputs', 'configurations'], 'operations, names, ways to give them',
     'Tests use a few plain names.',
     [S + m + '.py' for m in ['gridio', 'mds', 'mds2mitgrid', 'getobcs', 'regrid', 'mkgrid', 'addfringe', 'stitch']],
     [('patterns, extensions', S + 'mds.py, mds2mitgrid.py, getobcs.py, regrid.py')],
     note='34 names of directory, file or both; seven ways to give them')

prop('P26', 'Cutting, refining and joining grids lead to the same grid in any order',
     'Parts of a grid cut along any of its lines with regrid, refined alike before or after the cut, written to files '
     'and put together with stitch, are the whole grid refined, in every term (those across a joint: see P13); '
     'addfringe gives the part as cut. Refining in several steps gives the corner points, and the lengths between '
     'them, of refining at once, as far as the lines divided are the same (not along i after along j), and a grid '
     'of mkgrid refined those of mkgrid with that many cells. Lengths and areas of the parts of a cell add up to its '
     'own. All this by functions and by tools, whatever the source of the parent grid.',
     ['inputs', 'histories'], 'all cuts, subscales, orders of cutting, refining and joining, routes',
     'Tests run each operation by itself on stored grids, and compare with stored output of the same code.',
     [S + m + '.py' for m in ['regrid', 'mkgrid', 'computegrid', 'stitch', 'addfringe', 'matchedges', 'gridio']],
     [('division of lines, from the same ends in every part', S + 'computegrid.py:fill'),
      ('parts in their place', S + 'stitch.py:stitch'), ('region of the parent', S + 'regrid.py:regrid')],
     note='grids up to 3x2 (3x3), subscales up to 3, two (three) refinements, four parts')

prop('P27', 'The same request gives the same result in every environment',
     'Results of all operations - values, files, refusals - are the same in whatever order the file system lists the '
     'files of a directory, and whatever the hash seed, locale, environment variables, umask, optimisation level (-O) and '
     'standard files of the process are; reading needs no permission to write. When an operation is over, also if it '
     'failed, all files it opened are closed, and it leaves no temporary files.',
     ['inputs', 'configurations', 'schedules'], 'orders of directory listings, environments of the process, operations that succeed and that fail',
     'Tests run in one environment, on one file system.',
     [S + m + '.py' for m in ['mds', 'mds2mitgrid', 'getobcs', 'gridio', 'regrid', 'stitch', 'addfringe']],
     [('listed files', S + 'mds.py:rdmds, scanforfiles; getobcs.py:getobcs'), ('refusals', S + '*.py')],
     note='all orders of up to 4 (6) files of each kind; some 45 (80) environments; 25 operations and 27 more that open many files or fail')

prop('P28', 'Every request is answered in the end, and one that makes no sense is refused',
     'Every operation, function or command, ends, whatever its arguments and the files they name. It fails with an '
     'error - a command with a failing status - if a point is not on the globe (missing, NaN, infinite, at a latitude '
     'beyond 90), if a count or subscale is missing, less than one or not whole, if a file is missing, empty, a directory, or too '
     'short for the counts given, and if fields or boundary indices do not fit the counts. What is there is then left as '
     'it was: no input is changed, and commands leave existing output alone. Tiles have no edge in common '
     'along points that are nowhere. Metadata that is cut off is refused, unless nothing is lost for the result.',
     ['inputs', 'configurations'], 'operations, arguments and pairs of them, values that make no sense; parents with points that are twice there or nowhere; '
     'metadata damaged in every byte',
     'Tests make requests that make sense, a few malformed ones excepted; that something ends for every input is not for a test to tell.',
     [S + m + '.py' for m in ['regrid', 'mkgrid', 'gridio', 'stitch', 'addfringe', 'matchedges', 'getobcs', 'mds', 'util']],
     [('turning the parent until it fits', S + 'regrid.py:regrid'), ('points on the globe', S + 'mkgrid.py:mkgrid, regrid.py:regrid'),
      ('counts', S + 'gridio.py:read_mitgridfile'), ('delimiters in metadata', S + 'mds.py:parsemeta')],
     note='some 1200 (all pairs: see evidence) malformed requests as functions, 1400 as commands, 34 strange parents of up to 12 points')

prop('P29', 'Writing of MDS files that is interrupted never makes up fields',
     'If wrmds fails or its process dies at any point, while it writes new files or others over those of before, of any '
     'shape, precision, number of records and metadata, then rdmds, all of it or a part, with or without metadata, gives '
     'what there was before, or what was to be written, data and metadata of the same one, or fails; never a mixture of them, or values '
     'that nobody wrote. So do mds2mitgrid and getobcs in a directory one file of which is written. When wrmds has '
     'returned, it is what was written.',
     ['crash_points', 'inputs'], 'file sets before and after, points of dying or of running out of space, kinds of reads',
     'Tests never interrupt anything.',
     [S + 'mds.py', S + 'mds2mitgrid.py', S + 'getobcs.py'],
     [('order of writing', S + 'mds.py:wrmds'), ('short files', S + 'mds.py:rdmds'), ('refused fields', S + 'mds2mitgrid.py:mds2mitgrid')],
     level='fault_enumeration', technique=FE,
     note='7 (10) kinds of file sets of 500 bytes and more, each over each; dying before every line and at every 12th (each) byte')

prop('P30', 'Compute grids are filled in and measured within the range asked for only',
     'For compute grids of any size and place, whatever surrounds the part worked on: computegrid.fill gives a copy with the '
     'points between the nodes in the range put in, on great circles, along i first, nodes and all beyond the range as they '
     'were, and longitudes below 0 only if there were negative ones; edges gives great circle lengths within the range and '
     'zeros elsewhere; areas gives the areas of the cells; and tomitgrid the sixteen terms of a filled-in compute grid, zero for those '
     'across its boundaries, whatever the line around it holds. They change none of their arguments; '
     'as mkgrid uses them they give what mkgrid gives.',
     ['inputs'], 'sizes, places, subscales, ranges, surroundings',
     'Tests run tools as a whole on a few grids; no test calls these functions by themselves.',
     [S + 'computegrid.py'],
     [('range of work', S + 'computegrid.py:fill, edges'), ('terms from sub-cells', S + 'computegrid.py:tomitgrid')],
     note='up to 2x3 (4x4) cells, subscales up to 3 (4), four (five) surroundings with three fillings')

prop('P31', 'The area of a quadrilateral is that of its corners, however they are given',
     'util.squad_uarea and util.pquad_uarea give the areas, on the unit sphere and flat, of any convex quadrilaterals, from 60 m '
     'across to almost a hemisphere, wherever they are: from whichever corner and whichever way around the corners are given, also if '
     'two of them are in one place. In an array each cell has the area of its own corners, whatever the others are '
     '(points that are nowhere, too) and however the array is laid out in memory, and the array is not changed. Arrays without cells have no areas.',
     ['inputs'], 'choices of corners, sizes, places, first corner and way around, arrays and their layouts',
     'Tests call these functions only through tools, on cells that are close to rectangles in one orientation.',
     [S + 'util.py'],
     [('spherical excess of two triangles', S + 'util.py:squad_uarea'), ('cross products', S + 'util.py:pquad_uarea')],
     note='corners from 7 (9) points on circles of 8 (15) radii; arrays of up to 3x3 (4x4) cells in five layouts')

prop('P32', 'It makes no difference how the arrays given are laid out in memory',
     'Results of all functions - values and files - are the same whether arrays are in C or Fortran order, contiguous, views '
     'of others, reversed, aligned, writable, mapped from a file, of a subclass, and whether their numbers are little or big endian or '
     'of extended precision; all of the arrays given or just one of them. Where coordinates and fields are only passed on or '
     'copied (regrid, matchedges, nearest, wrmds, write_mitgridfile) single precision and integers (for lonlat2cart: integers) do as well, as long as they hold the same numbers. '
     'What is given isn\'t changed.',
     ['inputs', 'configurations'], 'functions, arrays they are given, layouts, byte orders, types of numbers',
     'Tests give what numpy makes by default, or what gridio read.',
     [S + m + '.py' for m in ['regrid', 'matchedges', 'computegrid', 'util', 'gridio', 'mds', 'getobcs']],
     [('copies and views', S + 'computegrid.py:fill, regrid.py:regrid'), ('conversion to big endian', S + 'gridio.py:write_mitgridfile, mds.py:wrmds'),
      ('indices of an iterator', S + 'util.py:nearest')],
     note='14 functions, 12 forms, 4 types; one array or all (one of each form, the others of each other)')

prop('P33', 'Metadata of MDS files mean the same however they are spelt',
     'mds.parsemeta gives, in order, every entry of a metadata text with the list of its values - whole numbers, floating point numbers, '
     'texts (without blanks at their ends) - whatever the order and layout of the entries: on one line or broken between any values, numbers '
     'separated by commas or blanks, with // and /* */ comments within and between lines, empty lines, blanks around equals signs and brackets; and '
     'whether given as the name of a file, an open file or lines. What looks like a comment or an entry in a text is text. An entry without its '
     'equals sign, opening or closing square bracket or semicolon, or with a value that is no number, is refused with ValueError. readmeta and rdmds take '
     'the field, its part and its metadata from what was parsed; scanforfiles gives, sorted and once each, the iterations there are '
     'metadata for, in one file or in tiles, and those only.',
     ['inputs', 'configurations'], 'texts of a grammar of metadata; sets of files in a directory',
     'Tests read a few files that MITgcm wrote, all in one layout; they never look at comments, separators, or text that is refused.',
     [S + 'mds.py'],
     [('comments', S + 'mds.py:strip_comments'), ('entries, brackets', S + 'mds.py:parsemeta'), ('values', S + 'mds.py:parse1'),
      ('dimensions and part', S + 'mds.py:readmeta'), ('names of files', S + 'mds.py:scanforfiles')],
     note='lists of up to 2 (3) of 13 numbers or 10 texts, all separators (14 + 11), layouts (3136), orders of 7 entries; every subset of 13 file names')
