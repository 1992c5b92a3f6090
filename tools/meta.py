"""Single source of properties.jsonl, MANIFEST.json and KNOWN_FINDINGS.
usage: python3 tools/meta.py   (rewrites all three in /verif)"""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), tech='', note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=list(observe), tech=tech, note=note))


prop('C01', 'Newtonian force and torque between point-mass arrays',
     'For any two arrays of point masses, the reported force on and torque about the origin of the first array are the '
     'sums over all pairs of G m1 m2 d/|d|^3 and of r1 x f, to rounding accuracy. The result does not depend on the order '
     'of the points or on how an array is split, and action equals reaction.',
     ['inputs'], 'all pairs of point arrays: any count, mass sign, scale, separation and array layout',
     'the tests use a handful of symmetric pairs at unit scale with thresholds that G ~ 1e-10 passes trivially',
     ['newt/glib.py'], [('pairwise sum', 'newt/glib.py:14-46'), ('force and torque accumulation', 'newt/glib.py:89-122')],
     ['return values of the force/torque routines'],
     'runtime monitor: pairwise-sum oracle in extended precision on generated arrays',
     'held to 1e-13 of the absolute sums on the generated pairs; exploration, no coverage proof')
prop('C02', 'Yukawa force and torque between point-mass arrays',
     'For any two arrays of point masses, coupling strength and range, the reported force and torque are those of the '
     'potential -alpha G m1 m2 exp(-r/lambda)/r summed over all pairs. Additivity, point order and action-reaction hold as '
     'for gravity, and a long range gives alpha times the Newtonian force.',
     ['inputs'], 'all pairs of point arrays, couplings of both signs and ranges from far below to far above the separations',
     'the tests check one pair and a shell at one range',
     ['newt/glib.py'], [('Yukawa pair force', 'newt/glib.py:48-86'), ('accumulation', 'newt/glib.py:125-162')],
     ['return values'], 'runtime monitor: analytic pair oracle in extended precision',
     'held to 1e-13 relative to the absolute sums')
prop('C03', 'Rigid motions of point-mass arrays',
     'Translating or rotating a point-mass array moves every point by exactly that displacement or by a right-handed '
     'rotation by the given angle about the given axis through the origin, whatever the length of the axis vector. Masses, '
     'count, order and the shape of the array are kept, for any sequence of moves.',
     ['inputs', 'histories'], 'all arrays (single or many points), axes, angles (multi-turn, negative) and sequences of moves',
     'tests use rotations about coordinate axes by special angles',
     ['newt/glib.py'], [('translation', 'newt/glib.py:165-190'), ('Rodrigues rotation', 'newt/glib.py:193-219')],
     ['returned arrays after every step'], 'runtime monitor: step-by-step reference model of a rigid motion',
     'held on every step of the generated histories at 1e-13')
prop('C04', 'Uniform point-mass clouds fill the documented solid',
     'Every uniform cloud generator returns the cells of a regular grid whose centres lie in the documented solid, and no '
     'others, as points of equal mass adding up to the given mass. The spherical random shell lies on its sphere and is uniform, and '
     'Cartesian and cylindrical coordinates convert into each other.',
     ['inputs'], 'all dimensions, angles and grid counts (odd, even, unequal) of every generator',
     'tests look at the centre of mass of six shapes at one symmetric size',
     ['newt/glibShapes.py'], [('grids and masks of the generators', 'newt/glibShapes.py:57-900'),
                              ('coordinate conversions', 'newt/glibShapes.py:13-54')],
     ['returned clouds'], 'runtime monitor: independent membership oracle for every grid cell',
     'every returned point and every empty cell judged; the random shell statistically (6.5 sigma)')
prop('C05', 'Gauss-Legendre clouds are quadratures of the documented solid',
     'Every Gauss-Legendre cloud holds the tensor-product Gauss nodes of the bounding box that lie in the documented solid, and no others, '
     'weighted by the quadrature weights and scaled so that the masses add up to the given mass. For a brick, every polynomial of degree below 2n in '
     'each coordinate is integrated exactly.',
     ['inputs'], 'all dimensions and node counts (unequal per direction)',
     'tests look at the centre of mass of symmetric shapes at one size',
     ['newt/gShapeGL.py'], [('node placement, mask and weights', 'newt/gShapeGL.py:10-310')],
     ['returned clouds'], 'runtime monitor: node-by-node oracle and exactness on monomials',
     'every node judged, 1e-12 on masses')
prop('C06', 'Inner and outer mass moments of point arrays',
     'The inner moments are the sums of m r^l conj(Y_lm) and the outer moments the sums of m r^-(l+1) Y_lm over the '
     'points, for all degrees and orders including negative order. Whole-table and single-moment routines agree, and points on the axes or at '
     'the origin (inner) are handled.',
     ['inputs'], 'all point arrays and degrees',
     'tests compare a few low moments of symmetric arrays with zero',
     ['newt/pg2Multi.py'], [('inner moments', 'newt/pg2Multi.py:11-41,109-150'), ('outer moments', 'newt/pg2Multi.py:43-71,153-191')],
     ['returned tables'], 'runtime monitor: independent recurrence for solid harmonics',
     'degree 0..28 over many scales at 1e-12 of the absolute sum')
prop('C07', 'Inner Yukawa moments of point arrays',
     'The Yukawa moments of every degree and order are the sums over the points of m i_l(r/lambda) conj(Y_lm) with the modified spherical '
     'Bessel function of that same degree, for any positive range. Whole-table and single-moment routines agree.',
     ['inputs'], 'all point arrays, degrees and ranges', 'no test calls these routines',
     ['newt/pg2Multi.py'], [('Yukawa moments', 'newt/pg2Multi.py:73-107,194-240')], ['returned tables'],
     'runtime monitor: ascending-series Bessel oracle', 'degree 0..16')
prop('C08', 'Closed-form inner moments of solids, any degree',
     'For every solid with closed-form inner moments, each moment up to the requested degree equals the integral of '
     'r^l conj(Y_lm) over the homogeneous solid of the given mass, for all dimensions, sectors and orientations. The '
     'table obeys q(l,-m) = (-1)^m conj(q(l,m)) and has zeros for |m| > l.',
     ['inputs'], 'all dimensions and degrees of twelve solids',
     'tests compare a few shapes at one size and low degree, mostly against each other',
     ['newt/qlm.py'], [('one formula per solid', 'newt/qlm.py:11-680')], ['returned tables'],
     'runtime monitor: exact product-Gauss cubature oracle', 'degree 0..20, tolerance growing as 2.5^l')
prop('C09', 'Tabulated inner moments of solids up to degree five',
     'For every solid with tabulated inner moments, each entry up to degree 5 equals the integral of rho r^l conj(Y_lm) '
     'over the solid of the given density, for all dimensions. Entries of the table beyond the requested degree never appear.',
     ['inputs'], 'all dimensions and requested degrees of twelve tables',
     'tests compare single sizes of some shapes, or only against routines that share the error',
     ['newt/qlmACH.py'], [('one table per solid', 'newt/qlmACH.py:11-880')], ['returned tables'],
     'runtime monitor: exact cubature oracle', 'all 36 entries of every table, 1e-12')
prop('C10', 'Numerically integrated inner moments',
     'The numerical routines return the integral of rho r^l conj(Y_lm) over their documented solid (sector, cone, '
     'trapezoidal sector, drilled cylinder, tilted drilled plate) for every l and m up to the requested degree, to the accuracy of the integrator.',
     ['inputs'], 'all dimensions, heights, sectors and tilts',
     'tests run one size per shape and compare selected moments',
     ['newt/qlmNum.py'], [('integrands and limits', 'newt/qlmNum.py:12-370')], ['returned tables'],
     'runtime monitor: cubature oracle', 'degree 0..3 (5 thorough), 1e-6; dimensions of order one')
prop('C11', 'Outer moments of solids',
     'Tabulated and numerical outer moments equal the integral of rho r^-(l+1) Y_lm over the documented solid (sphere '
     'anywhere off the origin, symmetric annular sections, cones and trapezoidal sectors) for every l and m they '
     'know, for all dimensions, sectors and orientations.',
     ['inputs'], 'all dimensions, sectors, orientations and degrees',
     'tests compare one size with loose thresholds and symmetric orientation',
     ['newt/bigQlm.py', 'newt/bigQlmNum.py'], [('tables', 'newt/bigQlm.py:11-220'), ('integrands', 'newt/bigQlmNum.py:13-230')],
     ['returned tables'], 'runtime monitor: cubature oracle', 'tabulated to degree 5 at 1e-8, sphere to 12, numerical at 1e-6')
prop('C12', 'Rotating moments equals rotating the mass',
     'Rotating the inner moments of any body by z-y-z Euler angles gives the moments of the body rotated actively by '
     'Rz(alpha)Ry(beta)Rz(gamma), at every degree. The Wigner matrices are those of exp(-i beta Jy), are unitary and '
     'compose as rotations do, and both implementations agree.',
     ['inputs', 'histories'], 'all tables, degrees and Euler angles including poles, negative and multi-turn angles',
     'tests use single-axis rotations or l up to 10 with an averaged error',
     ['newt/rotations.py'], [('recursion', 'newt/rotations.py:11-110,181-272'), ('application', 'newt/rotations.py:275-372'),
                             ('explicit sum', 'newt/rotations.py:375-450')],
     ['returned tables and matrices'], 'runtime monitor: rotated-mass oracle and matrix-exponential oracle', 'degree 0..30')
prop('C13', 'Translating inner moments equals moving the mass',
     'Translating the inner moments of any body by any displacement gives the moments of the displaced body, at every '
     'degree, with both the summation and the recursive implementation. Moving there and back restores the moments.',
     ['inputs', 'histories'], 'all tables, degrees and displacements (zero, on, near and off the axes)',
     'tests translate two-mass arrays by a few vectors and check a few low moments',
     ['newt/translations.py', 'newt/translationRecurs.py'],
     [('summation', 'newt/translations.py:12-72'), ('coaxial recursion', 'newt/translationRecurs.py:139-169,338-356')],
     ['returned tables'], 'runtime monitor: moved-mass oracle', 'degree 0..8 / 0..25')
prop('C14', 'Translating outer moments equals moving the mass',
     'Translating the outer moments of distant masses by a displacement shorter than their distance gives the outer '
     'moments of the displaced masses up to the truncation of the table, and exactly what the addition theorem gives for the truncated table, '
     'with both implementations.',
     ['inputs'], 'all tables, degrees and displacements (zero, on, near and off the axes)',
     'tests translate one point by a few vectors',
     ['newt/translations.py', 'newt/translationRecurs.py'],
     [('summation', 'newt/translations.py:74-132'), ('coaxial recursion', 'newt/translationRecurs.py:171-200,359-377')],
     ['returned tables'], 'runtime monitor: moved-mass oracle with truncation bound and truncated addition theorem', 'degree 0..8 / 0..22')
prop('C15', 'Carrying a body far away turns inner into outer moments',
     'Translating inner moments by a displacement longer than the body gives the outer moments of the body placed '
     'there, up to the truncation of the table, and exactly what the addition theorem gives for the truncated table, with both implementations.',
     ['inputs'], 'all tables, degrees and displacements (on, near and off the axes, both signs)',
     'tests translate a few arrays along a few vectors',
     ['newt/translations.py', 'newt/translationRecurs.py'],
     [('summation', 'newt/translations.py:135-200'), ('coaxial recursion', 'newt/translationRecurs.py:202-231,380-400')],
     ['returned tables'], 'runtime monitor: moved-mass oracle with truncation bound and truncated addition theorem', 'degree 0..6 / 0..18')
prop('C16', 'Clebsch-Gordan coefficients',
     'For any integer quantum numbers the coefficient returned is the Clebsch-Gordan coefficient in the standard '
     'phase convention, and zero for every combination that cannot couple. Both implementations agree and the coefficients are orthonormal.',
     ['inputs'], 'all integer quantum numbers, possible and impossible',
     'tests use a few small values', ['newt/clebschGordan.py'], [('factorial sums', 'newt/clebschGordan.py:11-150')],
     ['returned coefficients'], 'runtime monitor: exact rational Racah oracle', 'exhaustive to j=3, random to 14, 1e-11')
prop('C17', 'Force from moments equals the pairwise force',
     'The force computed from the inner moments of a body and the outer moments of its sources, with the body displaced by any '
     'offset, equals the Newtonian force on the body up to the truncation of the moments. Every moment contributes linearly on its own; the contributions '
     'listed by order are those of each order of the body\'s moments and add up to the total, and the result scales with the given constant of gravity.',
     ['inputs'], 'all tables, degrees and offsets',
     'two tests with a single pair of arrays', ['newt/multipoleLib.py'],
     [('gradient basis', 'newt/multipoleLib.py:14-68'), ('force', 'newt/multipoleLib.py:71-149')], ['returned forces'],
     'runtime monitor: differentiated solid-harmonic oracle and pairwise-sum oracle', 'degree 0..8')
prop('C18', 'Torque from moments equals the pairwise torque',
     'The torque about z computed from a sensor\'s inner moments and a source\'s moments, after the documented rotation and '
     'translation of either one, equals the Newtonian torque of the moved bodies up to the truncation. The amplitudes per order '
     'give the torque at every turntable angle.',
     ['inputs'], 'all tables, degrees, Euler angles, displacements and the three kinds of translation',
     'tests use symmetric arrays, axis-aligned rotations and a few displacements',
     ['newt/multipoleLib.py'], [('torque per order', 'newt/multipoleLib.py:152-201'), ('moves', 'newt/multipoleLib.py:204-314')],
     ['returned torque amplitudes'], 'runtime monitor: moved-mass same-truncation oracle and pairwise torque', 'degree 0..8 (16 pairwise)')
prop('C19', 'Torque versus angle, unequal degrees and embedding',
     'The torque at any turntable angle or array of angles equals that of the spun body, whichever body is spun. Tables of '
     'different degree combine as if both were cut to the smaller one, and embedding a table into another degree keeps every '
     'moment that fits and fills the rest with zeros.',
     ['inputs', 'configurations'], 'all angles, pairs of degrees and tables',
     'no test combines unequal degrees, embeds, or evaluates torque versus angle off symmetric points',
     ['newt/multipoleLib.py'], [('degree handling', 'newt/multipoleLib.py:152-201,317-335'), ('angles', 'newt/multipoleLib.py:338-380')],
     ['returned torques and tables'], 'runtime monitor: spun-mass oracle', 'degrees 0..9, embedding 0..12')
prop('C20', 'A MULTIN program yields the moments of the mass it describes',
     'Reading a MULTIN program gives, for whatever sequence of create, rotate, translate, add, zero, get, put, unit and load '
     'commands it holds, the inner moments in SI units of the mass distribution so described, at the requested degree. Unknown '
     'shapes, comments, blank lines and text after the end leave the result as it was.',
     ['programs', 'histories'], 'all command sequences over all shapes, units and placements',
     'tests read single-shape programs at the origin with absolute thresholds larger than the moments',
     ['newt/read_multiFor.py'], [('interpreter', 'newt/read_multiFor.py:104-420')], ['returned table'],
     'runtime monitor: reference interpreter moving cubature points', 'programs of up to 14 steps, degree 0..7')
prop('C21', 'MULTIN moment files come back as the table they hold',
     'Reading a MULTIN inner or outer moment file returns, in SI units, every moment of the file at its degree and order, with the negative '
     'orders filled in by symmetry, whatever the degree, the number format and the header text.',
     ['inputs'], 'all tables and degrees, with and without file extension',
     'one inner file is read as a yardstick; the outer reader is never called',
     ['newt/read_multiFor.py'], [('readers', 'newt/read_multiFor.py:17-101')], ['returned table'],
     'runtime monitor: write-then-read oracle', 'degree 0..20')
prop('C22', 'Shape objects stay consistent through any history',
     'After any sequence of building, rotating, translating, carrying outward and adding, a shape object\'s moments, mass, centre of mass and drawn solid all '
     'describe the same body, and a saved shape holds those values. An operation that is refused (outer back to inner, mixing inner with outer, adding something that is not a shape) raises an '
     'error and leaves the object as it was.',
     ['histories'], 'all operation sequences over all kinds of shapes, positive and negative mass',
     'no test touches shape objects', ['newt/shapes.py', 'newt/genCAD.py'],
     [('operations', 'newt/shapes.py:58-131'), ('constructors', 'newt/shapes.py:134-310')], ['moments, mass, centre of mass, solid, saved files'],
     'runtime monitor: reference body model judged after every history', 'up to 9 operations on up to four objects, degree 0..5')
prop('C23', 'CAD solids are the bodies their parameters describe',
     'Every drawn solid has the volume, position and inertia of the documented body for all its dimensions, '
     'and keeps them through any rotation (z-y-z Euler angles, as for moments) and translation. Combining solids unites positive and subtracts negative parts, and the saved file holds the drawn solid. The solids handed in are left as they were.',
     ['inputs', 'histories'], 'all dimensions, orientations and combinations', 'no test draws a solid',
     ['newt/genCAD.py'], [('primitives', 'newt/genCAD.py:8-532'), ('moves, sums and files', 'newt/genCAD.py:535-620')],
     ['boundary representation and STL file'], 'runtime monitor: mass-property oracle by cubature', 'volume, centroid and all second moments at 1e-6')

exec(open(os.path.join(V, 'tools', 'meta_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'meta_more.py')) else None

FIXED = [  # (property, subject prefix, what failed)
    ('C09', 'cone q50', None), ('C09', 'cone2 q20', None), ('C09', 'trapezoid q44', None), ('C09', 'cylhole q22', None),
    ('C11', 'outer annulus Q20', None), ('C11', 'outer annulus Q53', None), ('C11', 'outer annulus was rotated', None),
    ('C04', 'point-mass sphere', None), ('C04', 'rectangle cloud', None), ('C04', 'triangular prism and tetrahedron', None),
    ('C04', 'pyramid cloud', None), ('C04', 'platehole cloud', None),
    ('C05', 'Gauss-Legendre annulus', None), ('C05', 'Gauss-Legendre wedge', None), ('C05', 'Gauss-Legendre cone', None),
    ('C05', 'Gauss-Legendre triangular', None),
    ('C18', 'torque from an inner', None), ('C18', 'outer-outer torque', None), ('C17', 'force between monopole', None),
    ('C19', 'torques between', None), ('C07', 'Yukawa moments', None), ('C06', 'single moments failed', None),
    ('C06', 'qmoments and imoments', None), ('C27', 'zero translation', None), ('C12', 'rotation matrices', None),
    ('C23', 'N-gon mesh', None), ('C23', 'pyramid mesh', None), ('C23', 'cylindrical-hole mesh', None),
    ('C23', 'plate-hole mesh', None), ('C23', 'outer cone mesh', None), ('C23', 'trapezoid mesh', None),
    ('C23', 'saving a single', None), ('C23', 'meshes were rotated', None), ('C22', 'translate_mesh', None),
    ('C22', 'outer moments of a Shape', None), ('C22', 'a refused Shape', None), ('C22', 'outer Annulus', None),
    ('C22', 'outer Sphere', None), ('C22', 'OuterCone', None), ('C22', 'Cylhole and Platehole', None),
    ('C22', 'Platehole moments', None), ('C22', 'Shapes off', None),
    ('C20', 'mpc triangles', None), ('C20', 'mpc trapezoids', None), ('C20', 'mpc cones', None),
    ('C20', 'mpc shapes at', None), ('C20', 'mpc commands', None),
    ('C25', 'Octave moments', None), ('C26', 'Octave scatter', None), ('C26', 'Octave genPointMassLine', None),
    ('C15', 'coaxial regular-to-singular', None)] + (EXTRA_FIXED if 'EXTRA_FIXED' in globals() else [])


def main():
    have = [p for p in P if os.path.exists(f'{V}/checks/{p["id"].lower()}.py')]
    with open(V+'/properties.jsonl', 'w') as f:
        for p in have:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}})+'\n')
    man = {'version': 1,
           'setup_cmd': '/opt/venv/bin/python -c "import newt, numpy, scipy, cadquery"',
           'checks': [{'property': p['id'], 'quick_cmd': f'./check {p["id"]} --tier quick',
                       'thorough_cmd': f'./check {p["id"]} --tier thorough', 'technique': p['tech'],
                       'level': 'exploration', 'level_note': p['note']} for p in have],
           'not_applicable': NOT_APPLICABLE if 'NOT_APPLICABLE' in globals() else []}
    with open(V+'/MANIFEST.json', 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    log = [x.split(' ', 1) for x in subprocess.run(
        ['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.split('\n') if x]
    left = {h: s[5:] for h, s in log if s.startswith('fix: ')}
    with open(V+'/KNOWN_FINDINGS', 'w') as f:
        f.write('# known: property=<id> key=<kind prefix> <what fails>   (suppresses that kind)\n'
                '# fixed: property=<id> <commit> <what failed>           (suppresses nothing)\n')
        for pid, pre, _ in FIXED:
            hit = [h for h, s in left.items() if s.startswith(pre)]
            assert len(hit) == 1, (pre, hit)
            f.write(f'fixed: property={pid} {hit[0]} {left.pop(hit[0])}\n')
        for k in (KNOWN if 'KNOWN' in globals() else []):
            f.write(k+'\n')
    assert not left, left
    print(len(have), 'properties')


main()
