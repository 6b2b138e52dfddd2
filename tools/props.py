"""Writes properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, text, tests, files, mech, over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


prop('C01', 'Euler angles, quaternions, axis-angle pairs and matrices agree',
     'Converting Bunge Euler angles or an axis-angle pair to a quaternion gives the unit quaternion, in the northern hemisphere, whose '
     'rotation matrix is the passive Bunge (or axis-angle) matrix, a proper orthogonal matrix that agrees with transforming a vector by '
     'the quaternion. Converting back gives angles in [0, 2 pi), [0, pi], [0, 2 pi) that describe the same rotation. Converting a whole '
     'array of Euler angles gives, point by point, what converting each point gives, for any array shape.',
     'all Euler angles, all unit quaternions including the singular ones, all axes and angles, all array shapes',
     'tests convert a few dozen fixed orientations of three tabulated sets; the singular branches and array shapes are hardly touched',
     ['defdap/quat.py'], [('conversion functions', 'defdap/quat.py Quat.from_euler_angles, euler_angles, rot_matrix, create_many_quats')])

prop('C02', 'Quaternion algebra composes rotations and preserves length',
     'The product of two orientations has the matrix product of their rotation matrices, the conjugate undoes the rotation, vectors keep '
     'their length and orthogonality when transformed, and every orientation made without asking otherwise has a non-negative first '
     'component and still describes the same rotation. Multiplying a list of orientations by one orientation gives the products one by one. '
     'Equal orientations hash alike.',
     'all pairs of unit quaternions, all vectors, lists of any length',
     'tests multiply a handful of fixed quaternions and never use the bulk product',
     ['defdap/quat.py'], [('quaternion product and hemisphere rule', 'defdap/quat.py Quat.__mul__, __init__, transform_vector, multiply_many_quats')])

prop('C03', 'Crystal symmetry operators form a group and misorientation respects it',
     'The symmetry operators of each crystal class are distinct unit rotations, closed under product and inverse and complete for the '
     'class (24 cubic, 12 hexagonal). The misorientation value of two orientations is symmetric, lies in [0, 1], does not change when '
     'either orientation is replaced by a symmetric equivalent, is 1 for equivalent orientations, and is the value attained by the '
     'returned equivalent of the second orientation.',
     'all pairs of unit orientations, all crystal classes, all three return modes',
     'tests check a few stored misorientation numbers',
     ['defdap/quat.py'], [('symmetry operators and misorientation', 'defdap/quat.py Quat.sym_eqv, mis_ori')])

prop('C04', 'Bulk orientation calculations agree with the single-orientation ones',
     'For any number of orientations the table of symmetric equivalents holds, for each orientation, exactly its equivalents in the '
     'northern hemisphere; the bulk misorientation to a reference equals the single misorientation for each orientation and reports the '
     'equivalent that attains it, never above 1. The average orientation is a unit orientation that does not depend on which of the two '
     'quaternions of a rotation (q or -q) represents an orientation or equivalent, and averaging copies of one orientation returns it.',
     'all orientation lists of any length, all crystal classes',
     'tests cover one fixed list of orientations per function',
     ['defdap/quat.py'], [('bulk functions', 'defdap/quat.py Quat.calc_sym_eqvs, calcMisOri, calc_average_ori, extract_quat_comps')])

prop('C05', 'IPF directions lie in the fundamental sector and colours are valid',
     'The direction reported for an inverse pole figure is, for every orientation and sample direction, a crystal-symmetric equivalent '
     '(including inversion) of the sample direction in crystal coordinates and lies in the fundamental sector of the crystal class '
     '(either triangle convention for hexagonal). It is the same for symmetrically equivalent orientations. The colours derived from it '
     'have all components in [0, 1] with the largest equal to 1, are pure red, green and blue at the three corners of the sector, and '
     'equivalent orientations get equal colours.',
     'all orientations including those exactly on sector corners and edges, all sample directions, both crystal classes, both conventions',
     'no test computes an IPF direction or colour',
     ['defdap/quat.py'], [('fundamental sector selection and colour key', 'defdap/quat.py Quat.calc_fund_dirs, calc_ipf_colours')])

prop('C06', 'Lattice bases are reciprocal and Miller index conversions invert each other',
     'For any unit cell the direct and reciprocal lattice matrices have columns with dot products equal to the identity, the direct '
     'vectors have the lengths and mutual angles of the cell, and a direction lies in a plane exactly when their indices multiply to '
     'zero. Converting Miller-Bravais indices of planes or directions to Miller indices and back returns the same plane or direction. '
     'Reducing integer indices divides by their greatest common divisor (any size of integer), and making indices positive flips the '
     'sign of all of them or none. The equivalents of a plane or direction are its images under each symmetry operation in turn, '
     'with the sign that makes the last index not negative.',
     'all valid unit cells, all index vectors including large and negative ones',
     'no test of the crystal utilities exists',
     ['defdap/crystal_utils.py'], [('lattice matrices and index conversion', 'defdap/crystal_utils.py')])

prop('C07', 'Slip systems are consistent crystallographic objects',
     'A slip system keeps the plane and direction indices it was given and has the unit plane normal and unit slip direction they '
     'describe, for any c/a ratio, at right angles exactly when the indices say that the direction lies in the plane. Hexagonal systems '
     'without c/a or with three indices and files with the wrong number of columns are refused. Two systems are equal exactly when plane '
     'and direction agree up to sign, and equal systems hash alike. The family of a system is all distinct systems related to it by the '
     'crystal symmetry. A loaded list is grouped by plane (or family) so that each system of the file occurs in exactly one group, in '
     'file order, and the bundled files hold distinct systems whose direction lies in the plane. '
     'A phase has the crystal structure of its Laue group (9 hexagonal, 11 cubic, others refused) and the slip systems of the default file '
     'for hexagonal crystals with its c/a, for space groups 225 and 229 those for FCC and BCC, and none for other cubic ones.',
     'all plane and direction indices, all c/a ratios, all slip system files of the documented form',
     'tests load the bundled files only through whole-map fixtures; families, equality and c/a are not tested',
     ['defdap/crystal.py'], [('slip system construction, equality and grouping', 'defdap/crystal.py SlipSystem')])

prop('C08', 'Schmid factors and slip traces follow from the orientation and the slip systems',
     'The Schmid factor of each slip system is |cos(phi) cos(lambda)| for the unit loading direction in crystal coordinates, lies in '
     '[0, 0.5], and a grain reports for each plane group the systems of that group. The slip trace of a plane not parallel to the surface '
     'is the angle, in the map plane, of the intersection of the slip plane with the surface, in [0, pi] (0 and pi are the same line), '
     'and the inclination of any plane to the surface is in [0, pi/2]. '
     'Both are unchanged when the orientation is replaced by the other quaternion of the same rotation.',
     'all orientations, loading directions and slip systems',
     'tests never compute a Schmid factor or slip trace',
     ['defdap/quat.py', 'defdap/ebsd.py'], [('Schmid factor and trace', 'defdap/ebsd.py Grain.calc_average_schmid_factors, calc_slip_traces')])

prop('C09', 'A data store answers consistently however its items were provided',
     'Asking a data store for an item, by key or by attribute, returns what was stored, or what its generator computes (run once and '
     'remembered unless the item is marked not to be saved), or what the first registered derivative that lists it computes from its '
     'source; an unknown name raises an error naming it. Membership, length, key listing and metadata agree with the items stored, '
     'generated and derived, over any number of derivation steps and also for stores derived from each other. The crop and mask functions '
     'are applied on access to map data and only to it. Adding, generating, setting or updating an item leaves other items, other stores '
     'and the arguments unchanged; an existing name cannot be added again, and registering a derivative function again replaces it.',
     'all sequences of additions, generator registrations, derivative registrations, updates and reads',
     'there is no test of the data store',
     ['defdap/utils.py'], [('item lookup and generation', 'defdap/utils.py Datastore')], ('inputs', 'histories'))

prop('C10', 'Cropping a deformation map shows exactly the chosen region',
     'After a crop every map component stored for the full map (all that come from the file, the mask excepted, which is made for the '
     'cropped map) shows exactly the pixels inside the crop distances and the reported shape equals the shape of the data. A pattern image, which has several pixels per map pixel, shows the same region. A mask of the shape of the cropped map, grown by the dilation asked for, hides exactly its points in every component that is masked and changes no value; a mask of another shape is refused. When updating them is asked for, homologous '
     'points refer to the same material point before and after the crop, otherwise they are left alone. Setting the crop again has the '
     'same effect as setting it first, setting it back restores the map, and distances not given stay as they were.',
     'all map sizes, all crop distances that leave at least one pixel, all sequences of crops',
     'tests use one map with one crop',
     ['defdap/hrdic.py', 'defdap/utils.py'], [('crop and shape', 'defdap/hrdic.py Map.set_crop, crop')], ('inputs', 'histories'))

prop('C11', 'Strain maps follow from the displacement field',
     'For any displacement field the deformation gradient is the identity plus the spatial gradient of the displacement over the distance '
     'between points (central differences inside, one-sided at the edges; the distance is the sub-window size), the Green strain is half of F-transpose F minus the '
     'identity, and the maximum shear is half the in-plane shear magnitude. A uniform deformation gives the same F everywhere and a rigid '
     'translation gives zero strain.',
     'all displacement fields of any size of at least 2x2 and all sub-window sizes',
     'tests compare one stored field',
     ['defdap/hrdic.py'], [('strain from displacement', 'defdap/hrdic.py Map.__init__')])

prop('C12', 'Grain boundary pixels are exactly where the misorientation exceeds the tolerance',
     'A pixel is marked as a horizontal (vertical) boundary exactly when the misorientation between it and its neighbour along that axis '
     'exceeds the tolerance, taking the symmetry of the primary phase into account, or when the two pixels have different phases. '
     'No boundary is marked past the last column or row. Boundaries are stored per axis and the phase-boundary set is the part of the '
     'boundary set between different phases. The result does not depend on the sign of the quaternions.',
     'all orientation maps of any size, any phase assignment, any tolerance',
     'tests compare one stored map',
     ['defdap/ebsd.py'], [('boundary detection', 'defdap/ebsd.py Map.find_boundaries')])

prop('C13', 'A boundary set converts between images, points and lines without loss',
     'Building a boundary set from per-axis images and asking for the images, the points or the lines back gives the same boundary: '
     'a pixel is set in the image exactly when it is a point, every boundary pixel becomes exactly one unit line on the correct edge of '
     'the pixel, and an empty set gives empty images, points and lines.',
     'all boundary images of any size including empty ones',
     'tests only build boundary sets from two fixed maps, and neither is empty',
     ['defdap/ebsd.py', 'defdap/hrdic.py'], [('boundary set', 'defdap/ebsd.py BoundarySet, defdap/hrdic.py BoundarySet')])

prop('C14', 'EBSD grain detection partitions the map into connected single-phase regions',
     'Every pixel of an EBSD map ends up either in exactly one grain or flagged as too small or not indexed; each grain is a region of one '
     'phase, at least the minimum size, connected through neighbouring pixels without crossing a boundary. The grain image, the points '
     'listed by each grain and the number of grains agree, and grains are numbered from 1 without gaps.',
     'all boundary sets, phase maps and minimum sizes on maps of any size, including one-pixel-wide maps and maps without any grain',
     'tests run one boundary map; the flood fill has two fixed cases',
     ['defdap/ebsd.py', 'defdap/_accelerated.py'], [('flood fill and grain loop', 'defdap/_accelerated.py flood_fill, defdap/ebsd.py Map.find_grains')])

prop('C15', 'Deformation map grain detection partitions the map',
     'Finding grains in a deformation map by flood fill over its boundaries, or by warping the grains of a linked EBSD map, labels every '
     'pixel with at most one grain; the grain image and the point list of each grain agree and grains are numbered from 1 without gaps. '
     'With flood fill each grain is a connected region not crossing a boundary, at least the minimum size, and pixels in regions below it '
     'are flagged. Each grain found by warping is linked to the EBSD grain covering it.',
     'all boundary images and warped grain images of any size, all minimum sizes',
     'tests run two stored maps',
     ['defdap/hrdic.py', 'defdap/_accelerated.py'], [('flood fill and warped grains', 'defdap/_accelerated.py flood_fill_dic, defdap/hrdic.py Map.find_grains')])

prop('C16', 'Kernel average misorientation averages over the existing neighbours',
     'The kernel average misorientation of a pixel is the angle whose half-cosine is the mean, over the two axes, of the mean of |q.q\'| '
     'over the neighbours q\' of the pixel along that axis that lie inside the map (two inside, one at each end), computed from the '
     'quaternions as they are. It is non-negative, zero on a uniform map, and unchanged when the sign of any quaternion changes.',
     'all orientation maps of size at least 2x2',
     'no test computes it',
     ['defdap/ebsd.py'], [('kernel', 'defdap/ebsd.py Map.calc_kam')])

prop('C17', 'The Nye tensor follows from the orientation gradients of the map',
     'For each pixel with a right and a lower neighbour the lattice curvature is the rotation from the pixel to the neighbour, '
     'taken to the symmetric equivalent of the neighbour with least misorientation, minus the identity, over the step size in metres. '
     'With b = 1.4e-10 m the Nye tensor has the components alpha[:,0] = -By[:,2]/b, alpha[:,1] = Bx[:,2]/b and '
     'alpha[:,2] = (By[:,0] - Bx[:,1])/b, where Bx and By are the curvatures towards the right and lower neighbour. The dislocation '
     'density is the sum of the absolute components times 30/20. The last row and column are zero, a uniform map is zero everywhere, and '
     'the sign of the quaternions does not matter.',
     'all orientation maps of size at least 2x2, all step sizes, both crystal classes',
     'no test computes it',
     ['defdap/ebsd.py'], [('Nye tensor', 'defdap/ebsd.py Map.calc_nye')])

prop('C18', 'Rotating an EBSD map by 180 degrees moves data and orientations together',
     'Rotating a map by 180 degrees moves each pixel to the point-reflected position in every map data item that was loaded and turns each '
     'orientation by 180 degrees about the sample normal, leaving shape, step size and data that is no map alone. Map data and boundaries calculated '
     'before, like the kernel average misorientation, are calculated again. Rotating twice returns the original data and orientations.',
     'all maps of any size, whichever data have been computed before',
     'no test rotates a map',
     ['defdap/ebsd.py'], [('rotation', 'defdap/ebsd.py Map.rotate_data')], ('inputs', 'histories'))

prop('C19', 'Grain data and map data are two views of the same values',
     'The values a grain reports for a map component are the map values of that component at the points of the grain, in order - for '
     'scalar, vector and tensor components, a component of one, the norm, the Euler angle colours and the inverse pole figure colours '
     '(each pixel coloured with the symmetry of its own phase, unindexed pixels in the background). Mapping grain values back to an image '
     'puts each value at its point and the background everywhere else; the coarse image has at each point the mean over the points of the '
     'grain at most the kernel size away in x and y. The average per grain is the mean of those values, a map built '
     'from per-grain values - for all grains or a chosen subset - shows each chosen grain its own value, and a list of the wrong length '
     'is refused.',
     'all maps and grain shapes, all components of any order, any subset of grains',
     'tests cover one component of one grain map',
     ['defdap/base.py', 'defdap/ebsd.py'], [('grain data', 'defdap/base.py Grain.grain_data, grain_map_data, Map.calc_grain_av, grain_data_to_map, _extract_component'),
      ('colours', 'defdap/ebsd.py Map and Grain calc_ipf_colour, calc_euler_colour')])

prop('C20', 'Grain outlines, extents and the neighbour network match the grain image',
     'In an orientation map two grains are neighbours exactly when a boundary pixel off the border of the map separates them, and the '
     'recorded segment of a pair holds exactly the boundary pixels between them, each once, of either kind, with the owner, the pair and '
     'the line representation they have in the map. In a deformation map two grains are neighbours exactly when both are among the four '
     'nearest pixels of a boundary pixel off the border. The extreme coordinates of a grain bound its points '
     'tightly, the centre of a grain is the pixel nearest to its box centre or the mean of its points, and its outline image shows its '
     'points inside the box and the background elsewhere.',
     'all grain images and boundary sets',
     'no test of the network exists',
     ['defdap/base.py', 'defdap/ebsd.py'], [('network', 'defdap/ebsd.py Map.build_neighbour_network, BoundarySegment; defdap/base.py Map.build_neighbour_network'),
      ('extents', 'defdap/base.py Grain.extreme_coords, centre_coords, grain_outline')])

prop('C21', 'The proximity map is the distance to the nearest boundary',
     'The proximity of a pixel is the least straight-line distance, in pixels, from the pixel to the bottom right corner of any boundary '
     'pixel of the map, or the start value 1000 where no boundary is nearer (also in a map without boundaries). It depends neither on the '
     'order of the boundary points nor on the number of trials calculated at a time, and the attribute of the map is the same map.',
     'all maps, all lists of boundary points, all batch sizes',
     'tests compare one stored image',
     ['defdap/base.py'], [('distance to the boundaries', 'defdap/base.py Map.calc_proxigram, Map.proxigram')])

prop('C22', 'Frame transforms between maps carry points and images consistently',
     'Two frames linked with homologous points are related by the transform of the chosen type estimated from the first onto the second '
     'points with the options given, in the other direction by its inverse (for polynomials by the one estimated with the points exchanged); '
     'frames that are not linked, or linked in both senses, are refused. Exactly related points are mapped onto each other. Warping an image '
     'to the deformation map gives each of its pixels the value at the position the pixel is sent to; warping boundary lines sends both ends '
     'to the nearest pixel edges, and warping boundary points lists a point where the warped and thinned image has it, wherever '
     'the frames lie and whatever the aspect ratio. Homologous points are saved in unbinned pixels and move one by one or all together. '
     'A map belongs to its increment and experiment, and maps of one name are listed in the order of the increments.',
     'all homologous points, all transform kinds, all images and lines',
     'no test covers frames, increments or warping',
     ['defdap/experiment.py', 'defdap/hrdic.py', 'defdap/base.py'],
     [('frame relations', 'defdap/experiment.py Frame, Increment, Experiment'),
      ('warping to a deformation map', 'defdap/hrdic.py Map.link_ebsd_map, warp_to_dic_frame, BoundarySet.from_ebsd_boundaries')])

prop('C23', 'Writing an EBSD map as text and reading it back preserves the map',
     'Saving orientation data as an Oxford text file and loading that file gives a map with the same shape, the same phase and band contrast '
     '(whole numbers from 0 to 255) at each pixel, the same phases in the same order (name, symmetry group, lattice parameters to three '
     'decimals, angles to three decimals of degrees), the step size to four decimals and the Euler angles to three decimals of degrees, '
     'for maps of any size and any phase list. Each line of the file also gives the position of its pixel to three decimals. An existing file is not overwritten and an unknown type is refused.',
     'all maps of any size with any number of phases',
     'the writer has no test',
     ['defdap/file_writers.py', 'defdap/file_readers.py'], [('text writer', 'defdap/file_writers.py EBSDDataWriter, OxfordTextWriter')])

prop('C24', 'Data loaders put every value of the file at its pixel',
     'Loading an EBSD file (.ctf, .ang, .cpr with .crc, or a dictionary) or a deformation file (DaVis, OpenPIV text and binary, PyVale csv and '
     'binary) gives a map whose shape, step size or binning, acquisition rotation, phases (name, symmetry, lattice to three decimals, angles in radians) '
     'are those of the header and whose value at each pixel is the one the file lists for that position, whatever the order of the columns or fields, with '
     'Euler angles in radians and phases counted from one (.ang: the first Euler angle less a quarter turn, the phase number plus one). OpenPIV data listed '
     'with y descending is turned over; points missing in PyVale files have no displacement. The loader is chosen by type or file extension. Missing files, '
     'unknown types, .ang files with other grids, symmetries or phase numbering, arrays of other shapes, and headers whose binning or shape '
     'does not match the coordinates are refused.',
     'all well-formed files of each format, any map size (deformation maps of at least two rows and columns)',
     'tests load one binary EBSD pair and one DaVis file',
     ['defdap/file_readers.py'], [('loaders', 'defdap/file_readers.py')])

prop('C25', 'Inspector slip-trace bookkeeping keeps angles, groups and files consistent',
     'The angle of a drawn line, measured from downwards towards the right and less the correction angle, is reduced to a half turn '
     'and does not depend on the order of the end points (all to two decimals). Lines are grouped afresh in the order drawn: a line joins the '
     'group with the nearest angle if that is less than ten degrees off, otherwise it starts a new group; the angle of a group is the '
     'mean of its lines (two decimals), every line is in one group and no group is empty; the planes of a group are those whose traces are '
     'within five degrees, with the deviations. Removing or clearing lines keeps this. The displacement ratio of a group is the slope of the regression of the x on the y displacement '
     '(each less its mean over the points across the trace) along its lines. Saving the lines of all grains and loading the '
     'file restores the same lines and groups.',
     'all line sets and group definitions',
     'the inspector has no test',
     ['defdap/inspector.py'], [('line bookkeeping', 'defdap/inspector.py GrainInspector')], ('inputs', 'histories'))

prop('C26', 'Pole projections are the stated sphere projections',
     'The stereographic and equal-area projections send the direction at inclination alpha and azimuth beta (given by the angles or by a '
     'vector of any length) to the point at distance tan(alpha/2) and 2 sin(alpha/2) at the azimuth, x of the crystal pointing down the page; '
     'they are chosen by name or default. Points of a pole figure are drawn at their projections, lines on the great circle of their ends, '
     'labels at their directions, copies by each symmetry operation on the upper hemisphere, and the orientations of an inverse pole '
     'figure are drawn inside the outlined sector.',
     'all directions, all lists of orientations',
     'plotting is not tested',
     ['defdap/plotting.py'], [('projections', 'defdap/plotting.py PolePlot.stereo_project, lambert_project, add_points, add_line, label_point')])

prop('C27', 'Grain reference orientation deviation is measured from the grain average',
     'The GROD of each point of a grain is the misorientation angle, least over the symmetry equivalents, to the average orientation of the '
     'grain (the stored reference if there is one, else the average calculated once from all the points), and its axis is the axis of the '
     'rotation between them times that angle: its length is the angle, it is finite everywhere and zero at zero misorientation. The stored '
     'lists (cosine of half the angle, axes, mean) and the map of deviations say the same, points in order, zero outside the grains; the '
     'misorientation across a grain boundary is the angle and the unit axis between the two grains.',
     'all grains, all orientations and symmetry groups',
     'no test computes it',
     ['defdap/ebsd.py'], [('deviation', 'defdap/ebsd.py Grain.calc_grod, build_mis_ori_list, calc_average_ori, Map.calc_grain_mis_ori, '
                                        'BoundarySegment.misorientation')])


def three(s):
    """at most three sentences: the further ones are joined"""
    import re
    x = re.split(r'\. (?=[A-Z])', s)
    return '. '.join(x[:2] + ['; '.join([x[2]] + [y if y[:2].isupper() else y[0].lower() + y[1:] for y in x[3:]])]) if len(x) > 3 else s


def main():
    import re
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            p = dict(p, statement=three(p['statement']))
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        fn = os.path.join(HERE, 'contracts', p['id'].lower() + '.py')
        if not os.path.exists(fn):
            na.append(dict(property=p['id'], reason=NA.get(p['id'], 'no check built yet')))
            continue
        src = open(fn).read()
        level = re.search(r"^LEVEL = '(\w+)'", src, re.M).group(1)
        note = re.search(r"^NOTE = '''(.*?)'''", src, re.M | re.S)
        checks.append(dict(property=p['id'], quick_cmd=f'python3 check.py {p["id"]}', thorough_cmd=f'python3 check.py {p["id"]} --thorough',
                           technique='contract-based deductive verification (pydv: contracts on the real source, normal forms + z3 + cvc5)',
                           level=level, level_note=' '.join((note.group(1) if note else 'see DESIGN.md').split())))
    json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na),
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


NA = {}

if __name__ == '__main__':
    main()
