prop('C24', 'Octave gravity and rigid motions of point arrays',
     'In the Octave library the force on and torque about the origin of the first point-mass array are the sums over all '
     'pairs of G m1 m2 d/|d|^3 and of r1 x f, and the pair routine gives each single force. Translating '
     'moves every point by the displacement, and rotating turns every point rigidly by the angle about the axis through '
     'the origin, whatever the length of the axis; masses, count and order are kept through any sequence of moves.',
     ['inputs', 'histories'], 'all arrays, axes, angles and sequences of moves',
     'the Octave self-tests use one or two symmetric pairs and special rotations',
     ['matlab-src/pointMatrixGravity.m', 'matlab-src/Gmmr2Array.m', 'matlab-src/rotatePMArray.m', 'matlab-src/translatePMArray.m'],
     [('pair force', 'matlab-src/Gmmr2Array.m'), ('accumulation', 'matlab-src/pointMatrixGravity.m'),
      ('moves', 'matlab-src/rotatePMArray.m, matlab-src/translatePMArray.m')],
     ['return values in octave-cli'], 'runtime monitor: extended-precision pair oracle and reference rigid motion on the Octave code',
     'held to 1e-12 of the absolute sums')
prop('C25', 'Octave harmonics and inner moments of point arrays',
     'In the Octave library the harmonic is the orthonormal Y_lm with Condon-Shortley phase for m >= 0, each moment is the '
     'sum of m r^l conj(Y_lm) over the points at every degree, including points on the axes and at the origin, and the moment summary lists every degree and '
     'order with that value.',
     ['inputs'], 'all point arrays, degrees and orders m >= 0',
     'the Octave self-tests check low degrees of one symmetric array',
     ['matlab-src/YLM.m', 'matlab-src/computeMoments.m', 'matlab-src/computeMomentSummary.m'],
     [('harmonic', 'matlab-src/YLM.m'), ('moment', 'matlab-src/computeMoments.m'), ('listing', 'matlab-src/computeMomentSummary.m')],
     ['return values in octave-cli'], 'runtime monitor: Cartesian harmonic recursion oracle on the Octave code', 'degree 0..20')
prop('C26', 'Octave point-mass shapes and surface scans',
     'The Octave generators return the documented shape: regular bricks, annular sheets and rings, lines of points of the given '
     'mass, uniform random disks, rectangles and shells. A height map or surface scan becomes the columns of cells under the '
     'surface, centred, with the mass of a cell at every point. Removing the plane of a scan centres and flattens it, and scattering moves only '
     'the y and z positions.',
     ['inputs'], 'all dimensions, counts, masses, height maps and scans',
     'the Octave self-tests look at a few blocks at one size',
     ['matlab-src/shapes/genPointMassRect.m', 'matlab-src/shapes/genPointMassAnnlSheet.m', 'matlab-src/shapes/genPointMassXRing.m',
      'matlab-src/shapes/genPointMassLine.m', 'matlab-src/shapes/genPointMassRandomDisk.m',
      'matlab-src/shapes/genPointMassRandomRectangle.m', 'matlab-src/shapes/genPointMassSphericalRandomShell.m',
      'matlab-src/shapes/genPointMassArrayFrom2DArray.m', 'matlab-src/scanToPMArray.m',
      'matlab-src/scanCenterAndRemoveLinear.m', 'matlab-src/scatterPMMassesYZGrid.m'],
     [('generators', 'matlab-src/shapes/'), ('scans', 'matlab-src/scanToPMArray.m, matlab-src/scanCenterAndRemoveLinear.m')],
     ['returned arrays in octave-cli'], 'runtime monitor: cell-by-cell and statistical oracle on the Octave code',
     'every point of regular shapes; random ones at 6.5 sigma of first and second moments')
prop('C27', 'Library calls are pure: inputs untouched, results own, repeatable',
     'No call of a numerical routine changes the arrays or lists it is given, and what it returns shares no memory with them. '
     'The same call gives the same answer whenever it is made, whatever other calls came before, even after the earlier '
     'result has been overwritten, after the same argument arrays have been edited in place (the answer is then that of the '
     'new numbers) and while other threads are calling too. Calls leave the caller\'s numerical error handling, warning '
     'filters, print options, working directory and (unless they are documented as random) global random state as they were.',
     ['inputs', 'histories', 'schedules'], 'all routines of the numerical modules, all arguments, call histories and thread interleavings',
     'a test calls a routine once and looks at its result, never at its arguments or at a second call',
     ['newt/glib.py', 'newt/glibShapes.py', 'newt/gShapeGL.py', 'newt/pg2Multi.py', 'newt/qlm.py', 'newt/qlmACH.py',
      'newt/qlmNum.py', 'newt/bigQlm.py', 'newt/bigQlmNum.py', 'newt/rotations.py', 'newt/translations.py',
      'newt/translationRecurs.py', 'newt/clebschGordan.py', 'newt/multipoleLib.py', 'newt/read_multiFor.py'],
     [('every public routine', 'newt/')], ['arguments before and after, results, repeated results'],
     'runtime monitor: argument snapshot, aliasing probe, overwritten-result repetition and reverse-order replay in a fresh process',
     'the workloads of C01..C21; repetition at 1e-9')
prop('C28', 'Dimensions that describe no solid are refused',
     'A routine given dimensions that describe no solid (a zero or negative length, an inner radius not smaller than the outer where that is excluded, '
     'an empty or overfull sector, an upright tilt), a translation matrix of another degree, a loaded part of another degree, a solid source at the origin or an '
     'unknown kind of translation raises an error and never returns moments. Limiting dimensions that do describe a solid are accepted. '
     'Where the library has nothing to give it gives zeros or nothing: outer moments of an array with a point at the origin, moments of a '
     'shape that has none, prism clouds with y2 < y1; rotation matrices of another degree leave the moments unchanged.',
     ['inputs'], 'all routines with a documented or coded restriction and all ways to violate it',
     'a few tests check one error each',
     ['newt/qlm.py', 'newt/qlmACH.py', 'newt/qlmNum.py', 'newt/bigQlm.py', 'newt/bigQlmNum.py', 'newt/multipoleLib.py',
      'newt/translationRecurs.py', 'newt/genCAD.py', 'newt/read_multiFor.py'],
     [('checks at the head of every routine', 'newt/qlm.py, newt/qlmACH.py, newt/qlmNum.py, newt/bigQlm.py, newt/bigQlmNum.py')],
     ['exceptions and returned tables'], 'runtime monitor: fault injection of each non-physical dimension, and limits',
     'each restriction by a hair and by a lot')
prop('C29', 'End to end: bodies built from moments attract as their mass does',
     'For an instrument of solids and point clouds built, turned, moved, embedded and added through the library, facing sources carried outside, the force, the '
     'torque, the torque after a further move and the torque at any turntable angle equal those of the pairwise Newtonian '
     'sum over the same masses, up to the truncation of the moments.',
     ['inputs', 'histories', 'configurations'], 'all combinations of bodies, moves, degrees and sources',
     'each test exercises one routine; none joins solids, rotations, translations and forces off symmetric positions',
     ['newt/qlm.py', 'newt/pg2Multi.py', 'newt/rotations.py', 'newt/translationRecurs.py', 'newt/translations.py',
      'newt/multipoleLib.py', 'newt/glib.py', 'newt/bigQlm.py'],
     [('conventions shared by the modules', 'newt/')], ['returned forces and torques'],
     'runtime monitor: pairwise sum over moved cubature points against the multipole chain', 'degree 5..12, truncation bounded')
prop('C30', 'Coaxial translation matrices for Yukawa moments',
     'The coaxial Yukawa matrices for a displacement d along z and inverse range k hold the coefficients with which the functions of a '
     'point displaced by +d expand: i_n(k|r+d|) Y_nm(r+d) is the sum over l of E[l,n] i_l(kr) Y_lm(r) for the regular matrix, and k_n(k|r+d|) Y_nm(r+d), '
     'r < d, for the singular one, at every degree and order. Applying the regular matrix to inner Yukawa moments moves the mass.',
     ['inputs'], 'all degrees, displacements and ranges',
     'no test calls them; a matrix that is right in its first column looks right at low degree',
     ['newt/translationRecurs.py', 'newt/pg2Multi.py'], [('recursions', 'newt/translationRecurs.py:13-135')],
     ['returned matrices, moments after applying them'],
     'runtime monitor: Gaunt-sum oracle with exact rational coefficients, and moved masses', 'degree 0..8 (10), kd 1e-3..50')
prop('C31', 'Displays show the points they are given',
     'Displaying two point-mass arrays returns a figure that shows every point of nonzero mass of both arrays at its position, the arrays (and, unless '
     'areas stand for masses, the signs) told apart by colour, with areas proportional to the size of the mass when asked for, and leaves the arrays as they were. '
     'The Octave displays show both arrays, or a random subset of the given fraction of each.',
     ['inputs'], 'all pairs of arrays, masses of either sign, both modes',
     'no test looks at a figure',
     ['newt/glib.py', 'matlab-src/displayPoints.m', 'matlab-src/displayPointsRandomSubset.m'],
     [('markers', 'newt/glib.py:222-270'), ('Octave displays', 'matlab-src/displayPoints.m, matlab-src/displayPointsRandomSubset.m')],
     ['artists of the returned figure, rendered pixels, Octave axes children'],
     'runtime monitor: artists read back from the figure and the rendered canvas', 'positions exact, areas 1e-9, subsets at 6.5 sigma')
prop('C32', 'Results do not depend on the units of mass and length',
     'Every routine of the Python library gives physically the same answer whatever consistent units of mass and length its arguments are in: '
     'with masses multiplied by a and lengths by b, forces are multiplied by a^2/b^2, torques by a^2/b, inner moments of degree l by a b^l, outer ones '
     'by a b^-(l+1), Yukawa moments by a, points by a and b, and matrices by the power of b that their degrees say. No threshold, '
     'cut-off or rounding in absolute terms enters.',
     ['inputs'], 'all arguments and all units in which nothing overflows',
     'the tests use dimensions of order one; an absolute tolerance only shows in other units',
     ['newt/glib.py', 'newt/glibShapes.py', 'newt/gShapeGL.py', 'newt/pg2Multi.py', 'newt/qlm.py', 'newt/qlmACH.py', 'newt/bigQlm.py',
      'newt/rotations.py', 'newt/translations.py', 'newt/translationRecurs.py', 'newt/multipoleLib.py'],
     [('every routine that takes a mass or a length', 'newt/')], ['return values in two systems of units'],
     'runtime monitor: every call of the other workloads repeated in other units and scaled back',
     'units 2^-80..2^80 of mass, up to 2^60 of length; numerical integrators excluded (absolute tolerance by design)')
prop('C33', 'Masses superpose and a higher degree only appends',
     'Moments, forces and torques are linear in every mass, density and moment table: a body split in any way gives the sum of its parts, '
     'multiplied by a number (also a negative one or zero) it gives that multiple, and the order of the points is immaterial; '
     'moves treat every point alone. A result asked for up to degree L is, degree by degree, the same part of what a higher '
     'degree gives; filling tables with zeros above their degree changes nothing.',
     ['inputs'], 'all bodies, splits, factors, orders and pairs of degrees',
     'a test compares one call with one number; nothing compares calls with each other',
     ['newt/glib.py', 'newt/glibShapes.py', 'newt/gShapeGL.py', 'newt/pg2Multi.py', 'newt/qlm.py', 'newt/qlmACH.py', 'newt/bigQlm.py',
      'newt/rotations.py', 'newt/translations.py', 'newt/translationRecurs.py', 'newt/multipoleLib.py'],
     [('sums over points and tables', 'newt/')], ['return values of related calls'],
     'runtime monitor: every call of the other workloads repeated with parts, multiples, other orders and other degrees',
     'tolerances from the conditioning of each call; numerical integrators excluded')
EXTRA_FIXED = [('C28', 'annulus of zero thickness', None), ('C28', 'plate holes tilted', None),
               ('C30', 'coaxial Yukawa translations', None), ('C31', 'display_points returned', None),
               ('C31', 'display_points with scale_mass', None),
               ('C16', 'cgCoeff overflowed', None), ('C23', 'sum_mesh of a single', None),
               ('C20', 'read_mpc took parts of the name', None),
               ('C20', 'read_mpc failed on an unknown shape', None)]
