"""What is specified for each property (the NOTE and ASSUME of the contract are added by tools/design.py)."""
SPEC = {
'C01': "Postconditions on the conversions of Quat against the textbook Bunge passive matrix (products of elementary rotations) and the axis-angle matrix, entry by entry; orthogonality and determinant; the inverse conversion proved by putting the returned angles (range and half-angle case splits as the code has them: z rotation only, x-y only, general) back into the matrix; the array conversion equals the single one at an arbitrary pixel for lists and images of any size. Runs: random and degenerate angles.",
'C02': "Postconditions of *, conjugate, transform_vector, norm, +, negation to the northern hemisphere, multiply_many_quats (any length; element k is the product) against the matrix of each quaternion. Runs: mixed types, southern inputs, in-place operators.",
'C03': "The operator tables the code builds are compared exactly (numbers with sqrt 2, sqrt 3) with the group: distinct, unit, closed, inverses, 24/12. The misorientation loop runs with the real table; lemma: the value is the maximum of |<q, s r>| over the table, so it is symmetric, invariant and attained (loop invariant for the equivalent that is returned).",
'C04': "Loop-rule proofs of calc_sym_eqvs, calcMisOri and calc_average_ori for any number of points: each entry of the table, minimum, chosen equivalent equals the single-orientation specification of C03; average: the accumulated step does not depend on q against -q (loop invariant).",
'C05': "calc_ipf_colours / calc_fund_dirs: pole of every operator at a generic point, the candidate chosen satisfies the sector conditions, the sector conditions over the group leave a representative (proved with the exact group), polar angles, colours in [0, 1] with maximum one. Runs: corners pure, equivalents equal colours.",
'C06': "CrystalStructure/Phase lattice matrices by the three conventions (dot products of columns, reciprocity), conversion of 3- and 4-index planes and directions both ways, sign and gcd reduction, casts of integers, equivalents under the symmetry operators.",
'C07': "SlipSystem construction (unit normal and direction from the lattice), refusal cases, equality and hash as up-to-sign equality, families, grouping (keys partition the list in file order), Phase. Runs: generated slip system files, all bundled files, printing.",
'C08': "Grain.calc_average_schmid_factors, calc_rdr, calc_slip_traces: nested loops over any groups; each value against the definition with the rotation matrix of C01; lemma Schmid <= 1/2 as a sum of squares; slip trace as the direction of the intersection.",
'C09': "Datastore: every public method from an arbitrary store (a symbolic set of keys decided on demand), including exceptions, what is left unchanged, saving of generated items, crop and mask functions called or not, derivatives in order.",
'C10': "hrdic.Map.set_crop, crop, mask functions, homologous points, patterns: value at a generic pixel of the cropped item equals the value of the full item at the shifted pixel, for histories of two crops.",
'C11': "The real constructor of hrdic.Map on an arbitrary displacement field: F, E, max shear at a generic pixel against differences of the field; uniform and rigid cases as lemmas.",
'C12': "ebsd.Map.find_boundaries: a pixel is marked iff the exact misorientation inequality (max over the group of C03, decreasing arccos) or the phases differ; last row and column; sign lemma.",
'C13': "BoundarySet.from_image/points/lines/images as set equalities with a generic pixel and a generic point; hrdic set built from the EBSD one; BoundarySegment lists.",
'C14': "_accelerated.flood_fill: invariant of its while loop over the stack (visited set, stack, filled pixels) for interior, edge and single-row/column start positions; find_grains: invariant of the search loop; postconditions partition, phases, size, numbering. Runs compare with an independent connected-components oracle.",
'C15': "As C14 for hrdic, plus the linking loop and the most common EBSD grain. The warp algorithm is run only.",
'C16': "calc_kam against the definition at a generic pixel of each border class; sign and uniform lemmas.",
'C17': "calc_nye against the curvature definition with an arbitrary operator list starting with the identity; argmax by contract.",
'C18': "rotate_data on a map with the items of every loader and everything the package derives; both orders (orientation known, not known); twice is the identity.",
'C19': "Grain.grain_data, grain_map_data, calc_grain_average, grain_data_to_map_data, component extraction, colours: generic point of a grain of any size, families of grains for maps.",
'C20': "extreme_coords, centre, outline, ebsd neighbour network with a loop invariant following one arbitrary pair of grains, segments. hrdic network: runs against an oracle.",
'C21': "calc_proxigram: minimum over all boundary points as a bound and attained (loop rule over batches), attribute access.",
'C22': "Frame.estimate_transform / warp functions, Map.link_ebsd_map, warp of images, lines and points, Experiment/Increment bookkeeping: what is asked of scikit-image and with what arguments, for any frames.",
'C23': "The real writer followed by the real reader over a text model (numbers are tokens), any size, any phases.",
'C24': "Each loader on a file whose header numbers, sizes and table are symbols; refusals; choice of loader. Runs write real files of all formats.",
'C25': "GrainInspector.save_line, group_lines (loop invariant over the drawn lines), save_file/load_file; runs drive the real tool without a display.",
'C26': "PolePlot projections and their arguments, add_points, add_line, labels with a recording axes.",
'C27': "Grain.build_mis_ori_list, calc_grod, map of GROD, BoundarySegment misorientation: value and axis at a generic point, least over equivalents by the contracts of C03/C04.",
}
