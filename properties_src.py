"""Source of properties.jsonl (run gen_manifest.py after editing)."""
P = []


def prop(id, title, statement, over, q, why, files, mech, note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, note=note, na=na))


prop('C01', 'Water and brine properties follow their equations of state',
     "For every pressure, temperature and salt content, the water density, viscosity, enthalpy and salt mass fraction returned are those of the selected correlation (constant, exponential, Batzle-Wang), and the pressure derivatives returned with them are the exact derivatives of the values returned. Density and viscosity are positive where the correlation is, the exponential density never decreases with pressure, and the salt fraction lies in [0,1). A selected model that does not exist is reported as an error.",
     ['inputs', 'configurations'], 'all real pressures, temperatures, salinities; all model selectors',
     'The regression runs evaluate the correlations at a handful of states near the reference pressure with loose tolerances, and no stable test runs the brine correlations at all; a wrong derivative only slows Newton down.',
     ['src/materials/tdyeos.c'], [('density, viscosity, enthalpy, salinity routines', 'src/materials/tdyeos.c')],
     'Every obligation over all real inputs; doubles as reals.')

prop('C02', 'Water retention curves are the stated laws with exact derivatives',
     'For every capillary pressure and every admissible parameter set, the saturation returned by the Gardner and Van Genuchten curves is the stated closed-form law between the residual saturation and one, is fully saturated for non-positive capillary pressure, and never increases with capillary pressure. The first and second derivatives returned with it are the exact derivatives of that law. A derivative that was not asked for is not written.',
     ['inputs'], 'all real capillary pressures, residual saturations in [0,1), and curve parameters in their admissible ranges',
     'The tests run a few transient problems whose states stay in a narrow saturation band; a wrong second derivative or a wrong branch outside that band changes nothing they compare.',
     ['src/materials/tdycharacteristiccurves.c'], [('Gardner and Van Genuchten saturation functions', 'src/materials/tdycharacteristiccurves.c')],
     'Every obligation over all real inputs; doubles as reals.')

prop('C03', 'Relative permeability is the stated law, smooth and bounded',
     'For every effective saturation and every admissible parameter set the relative permeability returned is the Irmay or Mualem law, with the cubic smoothing polynomial near full saturation, and the derivative returned with it is its exact derivative. The smoothing polynomial set up for a curve joins it with equal value and slope at the lower cut and reaches one with zero slope at full saturation. Values lie between zero and one outside the smoothed range, and derivatives not asked for are not written.',
     ['inputs'], 'all real effective saturations and admissible parameters, all smoothing intervals',
     'No test compares the permeability curve or its smoothing with the law; a wrong coefficient only perturbs convergence near saturation.',
     ['src/materials/tdycharacteristiccurves.c'], [('Irmay and Mualem functions and set-up of the smoothing coefficients', 'src/materials/tdycharacteristiccurves.c')],
     'Every obligation over all real inputs; the LAPACK solve is assumed to solve the 4x4 system exactly.')

prop('C04', 'Every point is evaluated with its own curve and parameters',
     'After any assignment of curve models to points, evaluating saturation or relative permeability, on all points or on an arbitrary list of points, gives for every assigned point the value and derivatives of its own model with its own parameters, stored at the position the caller asked for, and leaves all other positions untouched. Re-assigning the points of a model copies the new lists, releases the old ones, forgets any look-up built from them and leaves the other model alone. A model type that does not exist is refused.',
     ['inputs', 'configurations', 'histories'], 'all point lists (any length, any order) without repetition, all parameter tables, all query lists',
     'The tests assign one model to all points in order, so point number, list position and parameter position always coincide; on such data every indexing mistake is invisible.',
     ['src/materials/tdycharacteristiccurves.c'], [('model assignment, evaluation on all points and on requested points', 'src/materials/tdycharacteristiccurves.c')],
     'All list lengths by inductive loop summaries; the hash map is used through its contract.')

prop('C05', 'Material properties and conditions are evaluated exactly as they were set',
     'Whatever constant, diagonal, isotropic or full tensor, or user function is set for a material property, source or boundary condition is what every later evaluation returns at every point, in the right tensor entries, and setting one leaves all others alone. A property or condition that was never set is reported as absent and evaluating it changes nothing. The context handed over with a setting is released exactly once, when it is replaced or when the registry is destroyed.',
     ['inputs', 'configurations', 'histories'], 'all values, numbers of points and functions; 2 and 3 dimensions; every property and condition; replacement of an earlier setting',
     'The tests set isotropic or diagonal constants before one run; off-diagonal entries, replacement of a setting, conditions no regression run uses and the release of contexts are never looked at.',
     ['src/materials/tdymaterialproperties.c', 'src/tdyconditions.c', 'src/tdycore.c'],
     [('material property registry and wrappers', 'src/materials/tdymaterialproperties.c'), ('conditions registry', 'src/tdyconditions.c'), ('public setters', 'src/tdycore.c')],
     'All point counts by inductive loop summaries.')

prop('C06', 'The geometry kernel returns exact lengths, areas, volumes and inverses',
     'For all coordinates, products, distances, unit vectors, triangle and quadrilateral areas, tetrahedron volumes, plane normals and line-plane intersections are the geometric quantities they are named after, with the right sign and scale. The inverse returned for an invertible 3x3 matrix times the matrix is the identity, and the matrix itself is not changed. Inputs are never modified.',
     ['inputs'], 'all real coordinates and matrices, degenerate ones excluded where the quantity is undefined',
     'The test meshes are axis-aligned boxes with one cell size, where products vanish, areas are equal and matrices are diagonal, so wrong terms cancel or never show.',
     ['src/tdyutils.c'], [('vector, area, volume, plane and matrix routines', 'src/tdyutils.c')],
     'Every obligation over all real inputs; doubles as reals.')

prop('C07', 'The two-point flux method conserves mass cell by cell',
     'For every mesh and state, the residual of a cell in the two-point flux method is the rate of change of the mass it stores, plus what leaves through its faces, minus what enters and its source, so that the flux through an internal face enters one cell as exactly what leaves the other. The flux through a face is the stated law of pressure, gravity, mobility of the upstream side and harmonic permeability, on internal, prescribed-pressure and seepage faces, and there is none through a no-flow face. The stored mass compared against is that of the last accepted solution over the current time step, also after a time step is cut.',
     ['inputs', 'configurations'], 'all meshes (any number of cells, faces, boundary and ghost entities), all states and boundary types, all time steps',
     'The runs with this method are not among the reliable tests; a wrong sign on the far side of a face, a boundary type or a ghost cell would in any case only shift a few norms.',
     ['src/fv/fvtpf/tdyfvtpf_snes.c'], [('face fluxes, stored mass and assembly of the residual', 'src/fv/fvtpf/tdyfvtpf_snes.c')],
     'All mesh sizes by inductive loop summaries; scatter and vector operations through contracts.')

prop('C08', 'The two-point flux Jacobian is the derivative of the residual',
     'For every mesh and state away from the switching points, each entry of the Jacobian assembled by the two-point flux method for a local cell is the exact derivative of the residual of that cell by the pressure of the other, for flux through internal, prescribed-pressure and seepage faces and for the stored mass. No-flow faces contribute nothing and nothing else is written in the rows of local cells.',
     ['inputs', 'configurations'], 'all meshes, states, boundary types and time steps',
     'A wrong derivative only costs Newton iterations, and the tests of this method are not among the reliable ones.',
     ['src/fv/fvtpf/tdyfvtpf_snes.c'], [('derivatives of face fluxes and stored mass, assembly of the Jacobian', 'src/fv/fvtpf/tdyfvtpf_snes.c')],
     'The reference is the symbolic derivative of the flux law of C07.')

prop('C09', 'The state of cells and boundary faces follows from the unknowns',
     'After the state is updated, every cell, ghost cells included, holds the saturation, relative permeability, density, viscosity, enthalpy, internal energy and salt fraction of its own pressure, temperature and concentration, with its own curves, and the matching derivatives, in the flow, heat and salinity modes and in both finite volume methods. A boundary face takes the prescribed pressure, temperature or concentration at its centroid, or that of the adjacent cell when none is prescribed, and the saturation and relative permeability there are those of the curve of the adjacent cell. Nothing else in the vectors the flux uses is changed.',
     ['inputs', 'configurations'], 'all meshes, all orderings of boundary faces, all unknowns, all modes',
     'The tests use one material with uniform curves, so mixing up cells, boundary points or components goes unnoticed, and the boundary saturation hardly enters the norms they compare.',
     ['src/fv/fvtpf/tdyfvtpf.c', 'src/fv/mpfao/tdympfao.c', 'src/fv/mpfao/tdympfao_utils.c'],
     [('state updates', 'src/fv/mpfao/tdympfao.c'), ('boundary values', 'src/fv/mpfao/tdympfao_utils.c'), ('two-point flux state', 'src/fv/fvtpf/tdyfvtpf.c')],
     'Uses the contracts of C01 and C04; all mesh sizes by inductive loop summaries.')


prop('C10', 'The multi-point flux method conserves mass, energy and salt cell by cell',
     'For every mesh and state, the residual of a local cell in the multi-point flux method is the rate of change of what it stores, plus what leaves through its subfaces, minus what enters and its source, for water, heat and salt, for implicit steps and for every form of time integration. What leaves a cell through a subface enters the other exactly; its amount follows the stated law of mean density, the mobility and enthalpy of the upstream side, the pressure drop and gravity, and is zero at a seepage face that is not wet enough. Fluxes and storage use the state, boundary values and pressure drops of the current iterate, and the stored quantities compared against are those of the last accepted solution.',
     ['inputs', 'configurations'], 'all meshes (any number of cells, faces and vertices, any connectivity and ghost layout), all states and boundary types, all time steps',
     'The tests run a handful of small uniform boxes and compare a few norms and cell values; salt and the alternative time integrations are not among the reliable ones.',
     ['src/fv/mpfao/tdympfao_ts.c', 'src/fv/mpfao/tdympfao_snes.c', 'src/fv/mpfao/tdympfao_th_ts.c', 'src/fv/mpfao/tdympfao_snes_salinity.c', 'src/fv/mpfao/tdympfao_ts_dae.c', 'src/fv/mpfao/tdympfao_ts_transientvar.c'],
     [('fluxes and residuals of flow', 'src/fv/mpfao/tdympfao_ts.c'), ('implicit step', 'src/fv/mpfao/tdympfao_snes.c'), ('heat', 'src/fv/mpfao/tdympfao_th_ts.c'), ('salt', 'src/fv/mpfao/tdympfao_snes_salinity.c')],
     'The product of transmissibilities and pressures is taken as given here; all mesh sizes by inductive loop summaries.')

prop('C11', 'The multi-point flux Jacobian is the derivative of the residual',
     'For every mesh and state away from the switching points, each entry of the Jacobian the multi-point flux method assembles for a local cell is the derivative of the residual of that cell by an unknown of the other, at the solution, rates and shift given: for water in implicit steps and time integration, and for water and heat, where the second derivatives of saturation and density by temperature are taken as zero. Terms of earlier evaluations do not remain, blocked and closed boundary faces contribute nothing, and blocks are stored in the orientation they are computed in.',
     ['inputs', 'configurations'], 'all meshes (any connectivity and ghost layout), all states, boundary types, shifts and time steps',
     'A wrong derivative only costs Newton iterations; the tests accept any Jacobian that still converges on their small uniform boxes.',
     ['src/fv/mpfao/tdympfao_ts.c', 'src/fv/mpfao/tdympfao_snes.c', 'src/fv/mpfao/tdympfao_th_ts.c', 'src/tdydiscretization.c'],
     [('derivatives of fluxes and storage, time integrator', 'src/fv/mpfao/tdympfao_ts.c'), ('implicit step', 'src/fv/mpfao/tdympfao_snes.c'), ('water and heat', 'src/fv/mpfao/tdympfao_th_ts.c')],
     'The reference is the symbolic derivative of the laws of C10. Boundary rows of the heat Jacobian are a recorded finding; each of its entries is proved for cells whose faces all lie between two cells.')


prop('C12', 'Time stepping reaches the target exactly and keeps only accepted steps',
     'A run to a target time, whatever solves fail and however often, ends with accepted steps that add up to exactly the target, with a reported time, step count, solution and previous solution that are those of the last accepted step, and an error when the solver keeps failing. Every solve starts from the last accepted solution, uses stored quantities for its own time step, and has a positive step that does not pass the target; a step shortened to hit the target does not shorten the steps after it. With checkpoints enabled the last accepted solution is always written.',
     ['inputs', 'histories', 'fault_sequences'], 'all target times, time steps, growth factors and every sequence of successful and failed solves',
     'The tests run a few steps that all converge; a failed solve, a target between two steps and a second run never occur together.',
     ['src/tdyti.c', 'src/tdycore.c'], [('time integrator', 'src/tdyti.c'), ('steps before and after a solve', 'src/tdycore.c')],
     'Loop invariants over all solve histories; the solver, output and the discretization are used through contracts.')


prop('C13', 'Multi-point transmissibilities balance the flux through every subface',
     'For every mesh geometry and every full conductivity tensor, the coefficients of a subcell (water, heat and salt) are the flux through each of its subfaces per unit of the value on each subface, or the two-point average conductivity over the distance when that is selected. The transmissibilities at a vertex eliminate the values on its subfaces: the flux through a subface computed from the gradient in either of its two cells is the same and is what is assembled for it, given boundary values enter as extra columns, closed boundary faces let nothing through, and the transmissibilities of faces between unconnected regions are zero. The flux by gravity through a face uses the permeability of both sides weighted by distance, gravity along the line between the two centres, and the area of each subface.',
     ['inputs', 'configurations'], 'all subcell geometries and tensors; for the elimination all coefficients at vertices with 1, 2, 4, 6 and 8 cells',
     'The tests use boxes with constant, mostly isotropic permeability, where a transposed tensor, a wrong weight or a swapped side cancels; salt is not among the reliable ones.',
     ['src/fv/mpfao/tdympfao.c', 'src/fv/mpfao/tdympfao_utils.c', 'src/fv/mpfao/tdyregion.c'],
     [('coefficients, elimination and gravity', 'src/fv/mpfao/tdympfao.c'), ('matrices of a vertex', 'src/fv/mpfao/tdympfao_utils.c')],
     'The elimination at a vertex is a bounded check: fixed numbers of cells and faces (14 vertices), arbitrary coefficients, with contracts for the linear solver; it is reported apart from the proved obligations.')

prop('C14', 'Faces and subcells carry the geometry of the mesh',
     'Each subcell gets the three faces of its cell at its vertex, ordered so that the plane of their centroids faces the centre of the cell; its vectors, volume factor and subface areas and centres are those of this geometry, so that a linear function is differentiated exactly. The normal of a face points from its first cell to its second (a boundary face has no first cell). Each face gets its two distances along the line between the centres, its direction, weight and projected area.',
     ['inputs'], 'all meshes with cells of 4, 6 or 8 vertices and faces of 3 or 4; the search for the faces at a vertex for cells of up to 6 faces',
     'The tests use uniform boxes, where the plane of a face passes halfway between centres and swapped faces, weights or distances cancel.',
     ['src/fv/share/tdymeshplex.c', 'src/fv/share/tdymesh.c'],
     [('subcells, faces and their orientation', 'src/fv/share/tdymeshplex.c'), ('storage and what is read of it', 'src/fv/share/tdymesh.c')],
     'The search for the faces of a cell at a vertex is bounded (3 to 6 faces); the geometry kernel is used by the contracts of C06, and the numbering of the unknowns around a vertex is assumed to leave the geometry alone.')

prop('C15', 'Finite elements conserve mass and follow Darcy\'s law on every cell',
     'With the WY elements, the velocities on the faces around a vertex and the pressures of its cells obey Darcy\'s law with the permeability mapped to each cell and the prescribed boundary pressures; the system, the recovered velocities and the residual in time balance storage, flow through the faces and source of each cell. With BDM every cell adds the inverse permeability between its velocity functions (each carries unit flow out of one corner of one face), what they carry out of the cell, and the pressure prescribed on any boundary face, with the orientation of the face; assembling changes no permeability.',
     ['inputs'], 'all meshes of quadrilaterals and hexahedra, permeabilities, pressures and sources; the small systems around a vertex for the listed sizes and topologies',
     'The tests solve problems with isotropic permeability on boxes and compare errors; transposed or mis-scaled tensors, orientation and a second assembly are not seen.',
     ['src/fe/tdywy.c', 'src/fe/tdybdm.c', 'src/fe/tdyfe.c', 'src/tdycore.c', 'src/tdymaterialproperties.c'],
     [('elements with one velocity on each face at each vertex, and their system', 'src/fe/tdywy.c'), ('BDM elements', 'src/fe/tdybdm.c'), ('functions, rules and maps of the cells', 'src/fe/tdyfe.c')],
     'LAPACK and BLAS are assumed to solve and multiply. The elimination of velocities and the systems around a vertex are bounded (listed topologies, arbitrary coefficients and values).')
