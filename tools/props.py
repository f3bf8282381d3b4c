WHY = 'The stable tests run eight full shear models on one small grid each and look at a handful of printed fields; they never vary the grid size, the tags or the option below over their range.'
REAL = 'Doubles are treated as mathematical reals and ints as unbounded integers; OpenMP pragmas are ignored; distinct arrays do not alias. '
PROPS = [
 dict(id='G01', title='Staggered-grid numbering and node coordinates are exact',
  statement='For every grid size and box, the flattened number of every vertex, horizontal-velocity node, vertical-velocity node and cell maps to its own column and row. The coordinates of vertices, cell centres, ghost-extended velocity nodes and the extended vertices are equally spaced from the lower to the upper bound of the box, and the initial-box coordinates follow the initial bounds. The grid spacing stored with the mesh and with the parameters equals box length over number of cells.',
  over=['inputs', 'configurations'], qtext='every grid size of at least 2x2 vertices, every box bounds (current and initial)', why=WHY,
  files=['MDLIB/GridRoutines.c'], mech=[('GridIndices', 'MDLIB/GridRoutines.c:541'), ('SetGridCoordinates', 'MDLIB/GridRoutines.c:244')], observe='grid index and coordinate arrays after initialisation',
  note=REAL + 'All obligations unbounded in the grid size.'),
 dict(id='G02', title='Grid-to-grid averaging between cell centres and vertices',
  statement='A vertex receives the mean of its four surrounding cells, where cells outside the box are replaced by the nearest cell (or by the opposite column when the model is periodic in x) and air cells contribute zero; vertices above the free surface receive zero. A cell that is not air receives the mean of its four corner vertices, an air cell keeps its value, and the source field is never changed.',
  over=['inputs', 'configurations'], qtext='every grid size, every field, every pattern of air/rock tags, periodic or not', why=WHY,
  files=['MDLIB/GridRoutines.c'], mech=[('InterpCentroidsToVerticesDouble', 'MDLIB/GridRoutines.c:106'), ('InterpVerticesToCentroidsDouble', 'MDLIB/GridRoutines.c:213')], observe='the destination array',
  note=REAL + 'Vertices are proved region by region (corners, sides, interior).'),
 dict(id='K01', title='Strain rate, vorticity and collocated velocities follow the velocity field',
  statement='In every rock cell the divergence and the normal strain rates are the staggered differences of the velocity field (with the out-of-plane and compressible options applied), and at every vertex below the surface the shear strain rate and the rotation rate are the half sum and half difference of the two cross derivatives; air nodes get zero strain rate. Cell values of the shear terms and vertex values of the normal terms are the averages of the neighbouring rock nodes. Velocities reported on cell centres and on vertices are the averages of the two adjacent face velocities.',
  over=['inputs', 'configurations'], qtext='every grid size, spacing, velocity field and air/rock tags, out-of-plane, compressible and periodic options', why=WHY,
  files=['MDLIB/RheologyDensity.c', 'MDLIB/AdvectionRoutines.c'], mech=[('StrainRateComponents', 'MDLIB/RheologyDensity.c:1664'), ('VelocitiesOnCenters', 'MDLIB/AdvectionRoutines.c:794'), ('VelocitiesOnVertices', 'MDLIB/AdvectionRoutines.c:816')], observe='strain-rate and velocity arrays',
  note=REAL + 'The cell-to-vertex averaging and the numbering enter through their contracts, proved under G02 and G01.'),
 dict(id='B01', title='Boundary conditions reach exactly the nodes they are meant for',
  statement='Built-in pure-shear and simple-shear conditions give every boundary node the type and velocity that the background strain rate and its position ask for, and inner nodes stay free. Conditions from the user functions for velocity, pressure, temperature and composition are stored on the node whose side and coordinates they were asked for, with shear-type values doubled on the ghost rows, and nodes in the air keep their tag and value.',
  over=['inputs', 'configurations'], qtext='every grid of at least 3x3 vertices, every box, strain rate, previous tags; side-flux balancing and fixed initial temperature off', why=WHY,
  files=['MDLIB/Setup.c', 'MDLIB/InputOutput.c'], mech=[('SetBCs', 'MDLIB/Setup.c'), ('SetPureOrSimpleShearBCVx', 'MDLIB/Setup.c'), ('SetPureOrSimpleShearBCVz', 'MDLIB/Setup.c')], observe='boundary type and value arrays after set-up',
  note=REAL + 'User functions are represented by callbacks returning a distinct value per position and coordinate.'),
 dict(id='T01', title='Adaptive time step obeys the Courant limit and the user bounds',
  statement='An adaptive step never lets any velocity component cross more than the Courant fraction of the smaller cell side, never grows by more than the allowed factor over the previous step, respects the surface-process and reaction limits when those are on, and always lies between the minimum and maximum step; it is exactly the tightest of these limits, or the starting step when nothing moves. A fixed step is always the starting step. The advection re-check only ever shortens the step and restores the Courant limit.',
  over=['inputs', 'configurations'], qtext='every grid size, velocity field, previous step, bounds and options; steps below 1e29', why=WHY,
  files=['MDLIB/AdvectionRoutines.c'], mech=[('EvaluateCourantCriterion', 'MDLIB/AdvectionRoutines.c:563'), ('Check_dt_for_advection', 'MDLIB/AdvectionRoutines.c:689')], observe='the step in the parameters after each call',
  note=REAL + 'Running maxima over the velocity arrays are summarised by universal bounds plus witnesses. The Courant limit is proved where the step is above its minimum.'),
 dict(id='D01', title='Density follows the chosen equation of state and its tables',
  statement='The density of a cell is the fraction-weighted mean of its phases, where the density of a phase is its constant, linear, exponential or melt-dependent equation of state evaluated at the given temperature, pressure, composition and melt fraction, and equals the reference density at the reference state. A one- or two-dimensional table is interpolated linearly in the table cell that contains the point, points outside are moved just inside the table, and the table is never read outside its extent.',
  over=['inputs', 'configurations'], qtext='every table size and bounds, every temperature and pressure (inside, outside, on the bounds), every phase and equation of state', why=WHY,
  files=['MDLIB/RheologyDensity.c'], mech=[('EvaluateDensity', 'MDLIB/RheologyDensity.c'), ('UpdateDensity', 'MDLIB/RheologyDensity.c'), ('Interpolate2Ddata', 'MDLIB/RheologyDensity.c'), ('ItpRho1D', 'MDLIB/RheologyDensity.c')], observe='return values',
  note=REAL + 'exp is uninterpreted (its argument is what is proved).'),
 dict(id='S01', title='Every unknown of the flow problem gets exactly one equation number',
  statement='Every velocity node and cell that is neither air nor prescribed receives its own equation number, consecutive and without gaps in the order horizontal velocity, vertical velocity, pressure. Prescribed and air nodes receive none, and the right-hand column of a periodic model shares the numbers of the left-hand column. The reported numbers of momentum, continuity and total equations equal the numbers of such nodes.',
  over=['inputs', 'configurations'], qtext='every grid size and every pattern of the node tags the set-up produces', why=WHY,
  files=['MDLIB/StokesRoutines.c'], mech=[('EvalNumberOfEquations', 'MDLIB/StokesRoutines.c:1125')], observe='equation-number arrays and counts',
  note=REAL + 'Numbers are compared with explicit prefix counts (unbounded sums).'),
 dict(id='S02', title='A flow solution updates the active nodes and completes the boundaries',
  statement='Adding a solution increment changes exactly the velocity and pressure unknowns of nodes that are neither air nor prescribed, each by the step length times its own entry. Ghost and periodic boundary nodes are then set from their inner neighbour so that free-slip, prescribed tangential velocity and periodicity hold exactly; every other node keeps its value.',
  over=['inputs', 'configurations'], qtext='every grid size, every tag pattern the set-up produces, every increment and step length', why=WHY,
  files=['MDLIB/StokesRoutines.c'], mech=[('ExtractSolutions2', 'MDLIB/StokesRoutines.c:534'), ('ApplyBC', 'MDLIB/StokesRoutines.c:413')], observe='velocity and pressure arrays',
  note=REAL + 'Equation numbers enter as arbitrary in-range numbers.'),
 dict(id='P01', title='Marker-to-grid averaging uses the weighted mean of the markers of a node',
  statement='A cell, vertex or velocity node receives the weighted mean (arithmetic, harmonic or geometric as requested) of the active markers whose nearest node it is, with bilinear distance weights, or of the markers of the nine nearest nodes when the wide window is chosen, wrapping around in a model periodic in x. The phase fractions of a node are the weights of each phase over the total weight. Inactive markers never contribute, nodes without markers and air nodes keep their value, and periodic vertices agree at both ends of each line.',
  over=['inputs', 'configurations'], qtext='every grid size, number, position and phase of markers, every tag pattern, every averaging kind', why=WHY,
  files=['MDLIB/ParticleRoutines.c'], mech=[('P2Mastah', 'MDLIB/ParticleRoutines.c:1982')], observe='the destination field and the phase fractions',
  note=REAL + 'Sums over all markers are unbounded Sum terms. Markers exactly half-way between two nodes are excluded (margin 1e-3 of a cell); one thread.'),
 dict(id='P02', title='Grid-to-marker interpolation is bilinear between the surrounding grid values',
  statement='An active marker receives the bilinear interpolation of the four vertices, or cell centres, around it, with a node in the air replaced by the one above or below it; beyond the outermost cell centres the nearest centre is used, or the opposite column when the model is periodic in x. Inactive markers receive zero.',
  over=['inputs', 'configurations'], qtext='every grid size, field, tag pattern, number and position of markers', why=WHY,
  files=['MDLIB/ParticleRoutines.c'], mech=[('Interp_Grid2P', 'MDLIB/ParticleRoutines.c'), ('Interp_Grid2P_centroids2', 'MDLIB/ParticleRoutines.c')], observe='the marker field',
  note=REAL + 'Markers exactly on a cell border are excluded (margin 1e-3 of a cell).'),
 dict(id='M01', title='Markers move with the flow and leave or wrap around the box',
  statement='The marker velocity is the bilinear interpolation of the surrounding staggered velocities, with velocity nodes in the air replaced by a neighbouring one and the conservative correction added when it is chosen. Advection moves a marker by the fourth-order Runge-Kutta combination of the velocities met along its path. A marker that leaves the box is deactivated, or re-enters on the other side when the model is periodic in x; inactive markers do not move.',
  over=['inputs', 'configurations'], qtext='every grid size, velocity field, tag pattern, marker position, time step, periodic or not', why=WHY,
  files=['MDLIB/AdvectionRoutines.c', 'MDLIB/ParticleRoutines.c'], mech=[('RogerGuntherII', 'MDLIB/AdvectionRoutines.c'), ('V2P', 'MDLIB/ParticleRoutines.c'), ('isout', 'MDLIB/ParticleRoutines.c'), ('isoutPart', 'MDLIB/ParticleRoutines.c')], observe='marker positions, velocities and phases',
  note=REAL + 'In the Runge-Kutta contract the interpolated velocity is an arbitrary function of position, standing for V2P, which is proved separately; at most one wrap per stage.'),
 dict(id='I01', title='Initial markers carry exactly what the set-up functions return',
  statement='Initial markers form a regular lattice with the requested number per cell. Every marker receives phase, temperature, velocity, grain size, porosity, density, composition, pressure, stresses, noise, orientation and deformation gradient from the set-up functions evaluated at its position, scaled by the characteristic units, or the documented default when a function is absent; the initial surface follows its set-up function. A phase that was not declared stops the run. The ellipse and rectangle tests select exactly the points inside the rotated shape.',
  over=['inputs', 'configurations'], qtext='every number of markers and phases, every position, scale and set-up function, present or absent', why=WHY,
  files=['MDLIB/Setup.c', 'MDLIB/ParticleRoutines.c', 'MDLIB/InputOutput.c'], mech=[('SetParticles', 'MDLIB/Setup.c'), ('BuildInitialTopography', 'MDLIB/Setup.c'), ('PutPartInBox', 'MDLIB/ParticleRoutines.c'), ('IsEllipseCoordinates', 'MDLIB/Setup.c'), ('IsRectangleCoordinates', 'MDLIB/Setup.c')], observe='marker fields after set-up',
  note=REAL + 'Set-up functions are uninterpreted functions of position and phase.'),
 dict(id='F01', title='The free surface follows its marker chain and weights the cells it cuts',
  statement='The surface starts as a regular chain of markers across the box and is advected with its own velocity. The surface velocity of a column is the horizontal flow velocity of the node below its first air node and the vertical flow velocity two nodes below its first air node, and chain markers receive it by linear interpolation along x. The height of a grid column is the mean of the distance-weighted means of the active chain markers in the two neighbouring cells (or the old height plus the mean change when heights are updated incrementally), the sides copy their neighbour, and the height between two columns is linear. Markers above that surface are deactivated, the initial surface never rises above the current one, resetting the chain puts it on the grid surface, and the zero-mean option subtracts the mean. Cells and vertices just below the air get the fraction of a cell filled with rock as weight on their density, air nodes weight zero and unit density, all others weight one.',
  over=['inputs', 'configurations'], qtext='every number of columns and chain markers, every position, height, velocity field and column of air tags; markers on cell borders excluded except for memory safety', why=WHY,
  files=['MDLIB/FreeSurface.c'], mech=[('SetTopoChainHorizontalCoords', 'MDLIB/FreeSurface.c'), ('AdvectFreeSurf', 'MDLIB/FreeSurface.c'), ('InterpTopoPart2Grid', 'MDLIB/FreeSurface.c'), ('MarkerChainPolyFit', 'MDLIB/FreeSurface.c'), ('CleanUpSurfaceParticles', 'MDLIB/FreeSurface.c'), ('CorrectTopoIni', 'MDLIB/FreeSurface.c'), ('KeepZeroMeanTopo', 'MDLIB/FreeSurface.c'), ('SurfaceVelocity', 'MDLIB/FreeSurface.c'), ('SurfaceDensityCorrection', 'MDLIB/FreeSurface.c'), ('RemeshMarkerChain', 'MDLIB/FreeSurface.c')], observe='chain markers, surface heights, slopes and velocities, density weights',
  note=REAL + 'Cartesian models (polar off). Sums over all chain markers are unbounded Sum terms. Remeshing of the chain: the reset mode only.'),
 dict(id='F02', title='Air and rock tags of the grid are consistent with the surface',
  statement="With a free surface, tagging the grid gives every cell exactly one state: rock, surface cell, or air. A cell is below the surface if its centre is not higher than the linear surface of its column at the x coordinate of that centre; cells below are rock, except that a cell differing in this from its neighbour underneath is a surface cell, as is a rock cell between two surface cells of its row and an air cell beside a rock cell. Pressure tags are -1, 31 and 30 for rock, surface cell and air; temperature tags are -1 for rock and 30 otherwise, and the temperature of cells that are not rock is reset to zero Celsius; the pressure tags of the extended grid are 30 for air and -1 otherwise. An inner velocity node is active (-1) exactly when one of the two cells it separates is rock, inactive (30) otherwise; the side columns repeat their neighbour column. A vertex surrounded by rock cells is active, a vertex above the surface height of its column is inactive unless it is surrounded by rock. All boundary values start at zero.",
  over=['inputs', 'configurations'], qtext='every grid size, every surface height and position', why=WHY,
  files=['MDLIB/FreeSurface.c'], mech=[('CellFlagging', 'MDLIB/FreeSurface.c')], observe='tags and boundary values of the grid arrays after CellFlagging',
  note=REAL + 'Proved region by region: first row, inner cells, sides and extended rows are separate harnesses.'),
 dict(id='F03', title='Surface processes: diffusion, incision, basin filling and sediment markers',
  statement='Surface diffusion keeps both ends of the topography where they are for any duration and number of substeps; a duration below the stability limit is one explicit diffusion step of the heights at the start of the step with the given diffusivity (a duration up to twice the limit is two such steps of half the duration), points that lie below the base level gain sedimentation rate times time, and with incision the points within half the valley width of the origin lose, in total, incision rate times time times width over the grid spacing, shared equally. Basin filling alone raises exactly the points below the base level by rate times time. Where the surface rises, each column receives four sediment markers, evenly spaced across it and half-way between old and new surface, appended after the existing markers and with the sediment phase of the current million years, surface temperature and zero pressure, stress, velocity, strain, and identity deformation gradient; existing markers are untouched. Where the surface sinks no marker is added.',
  over=['inputs', 'configurations'], qtext='every profile size, height, rate and duration; every number of columns and markers', why=WHY,
  files=['MDLIB/FreeSurface.c'], mech=[('DiffuseAlongTopography', 'MDLIB/FreeSurface.c'), ('AddPartSed', 'MDLIB/FreeSurface.c')], observe='surface heights and appended markers',
  note=REAL + 'Surfaces that rise in some columns and sink in others are not covered. Loops over substeps whose trip count is proved to be 1 or 2 are executed; more substeps: the ends only. Million-year ages within 0..9.'),
 dict(id='A01', title='Assembled Stokes equations are the discrete momentum and mass balance',
  statement='Each row of the Picard system, applied to any values of the unknowns, equals minus the cell volume times the divergence of the deviatoric stress that these velocities produce (viscosities taken from the grid operators, out-of-plane and compressible options applied, free-slip and no-slip sides and air vertices treated as such), plus the pressure gradient; this holds for inner nodes, periodic nodes and nodes with a prescribed normal stress on the four sides, whose equation covers the half cell inside the box. The mass-balance row of a cell is the volume times the divergence. The residual of each equation is the same balance evaluated with the current stresses, pressures and sources (with elastic or density-driven volume change for compressible cells), and the free-surface stabilisation adds the same term to the row and to the residual. The Newton rows and residuals of nodes whose stencil lies inside the rock are the same balance with the consistent tangent operators: cell shear rates are means over the four vertices, vertex normal rates and pressures means over the four cells. A node with a prescribed value contributes to the right-hand side, never a matrix entry.',
  over=['inputs', 'configurations'], qtext='every grid size, node, spacing, viscosity field, tag pattern, velocity and pressure; stabilisation for density increasing with depth', why=WHY,
  files=['MDLIB/StokesAssemblyDecoupled.c'], mech=[('Xmomentum_InnerNodesDecoupled', 'MDLIB/StokesAssemblyDecoupled.c:60'), ('Zmomentum_InnerNodesDecoupled', 'MDLIB/StokesAssemblyDecoupled.c:564'), ('Continuity_InnerNodesDecoupled', 'MDLIB/StokesAssemblyDecoupled.c:1096'), ('Xjacobian_InnerNodesDecoupled3', 'MDLIB/StokesAssemblyDecoupled.c:221'), ('Zjacobian_InnerNodesDecoupled3', 'MDLIB/StokesAssemblyDecoupled.c:738'), ('AddCoeff3', 'MDLIB/StokesAssemblyDecoupled.c:44')], observe='matrix rows, right-hand sides and residual entries',
  note=REAL + 'Rows are compared coefficient by coefficient over the unknowns. log is uninterpreted. Newton rows next to boundaries or air, the merging of thread blocks and the linear solver are not covered; the sides of a cell with an equation are assumed not to be air.'),
 dict(id='R01', title='Stress and viscosity of a phase follow its flow laws and its yield surface',
  statement='For one phase at one point, the strain rates reported for the active creep mechanisms (constant viscosity, dislocation, diffusion, grain-boundary sliding, Peierls) are their flow laws evaluated at the returned stress, temperature, pressure, grain size and melt fraction, inactive mechanisms contribute zero, and together with the elastic part they add up to the effective strain rate (relative error below 1e-11). Below the yield stress the deviatoric stress is twice the viscosity times the effective strain rate. Beyond it (Mohr-Coulomb, or the stress limit when that is lower) the stress lies on the yield surface evaluated at the corrected pressure plus the viscous overstress, the plastic strain rate is the one that gets it there, and the pressure is corrected for dilation; if that stress would be negative, a small positive strength is used and the pressure is left alone. Reported viscosities lie between the viscosity cut-offs, the reported density is that of the equation of state, and a phase mixed with a second one by composition uses the chosen mean of their two constant viscosities. With a grain size that evolves, the returned grain size is the paleowattmeter value for the returned dislocation creep rate and viscosity.',
  over=['inputs', 'configurations'], qtext='every strain rate, stress, pressure, temperature, grain size, melt fraction, composition and material constants; any combination of creep mechanisms; linear viscoplasticity; no chemical reaction', why=WHY,
  files=['MDLIB/RheologyDensity.c'], mech=[('ViscosityConcise', 'MDLIB/RheologyDensity.c:357'), ('LocalIterationViscoElastic', 'MDLIB/RheologyDensity.c:82'), ('LocalIterationViscoElasticGrainSize', 'MDLIB/RheologyDensity.c:134'), ('EvaluateDensity', 'MDLIB/RheologyDensity.c')], observe='returned stress, viscosity, pressure correction and strain rates of each mechanism',
  note=REAL + 'exp, log, pow, sin and cos are uninterpreted (their arguments are what is proved). The local iterations are summarised by their last pass from an arbitrary state and enter ViscosityConcise through that contract. The yield harnesses use a constant viscosity as creep law and are proved where the trial stress exceeds the yield stress by 1e-17.'),
 dict(id='R02', title='Grid viscosity and stress are the phase averages of the phase rheologies',
  statement='The viscosity of a rock cell or vertex is the arithmetic, harmonic or geometric mean, as chosen, of the viscosities that its phases have at the temperature, pressure, strain rate, old stress and material state of that very node, weighted by the phase fractions; both the effective and the physical viscosity follow this. The deviatoric stress is twice the effective viscosity times the strain rate plus the elastic part of the old stress. Strain rates of the mechanisms, pressure correction, volume changes, work and composition of a cell are the fraction-weighted means over its phases, the grain size their harmonic mean, and the density is replaced only when density variations are on. Temperature, pressure, grain size and porosity of a vertex are those of the surrounding cells. Air nodes get zero.',
  over=['inputs', 'configurations'], qtext='every grid size, number of phases, phase fractions, field of state variables, tag pattern, elastic or not, periodic or not; isotropic models without chemical reactions', why=WHY,
  files=['MDLIB/RheologyDensity.c'], mech=[('NonNewtonianViscosityGrid', 'MDLIB/RheologyDensity.c')], observe='viscosity, stress and strain-rate arrays of the grid',
  note=REAL + 'The rheology of one phase enters as an arbitrary function of phase and node that answers only when it is given the state of that node (its own contract is R01); exp and log are uninterpreted.'),
 dict(id='R03', title='Picard and Newton operators are the stress and its tangent',
  statement='The effective strain rate is the strain rate plus the elastic part whose (director-turned) stress is the old stress over twice the shear modulus times the step. The Picard operator of a rock cell or vertex applied to it gives twice the viscosity times the strain rate, turned by the director when the model is anisotropic; the pressure column is zero. The Newton operator adds, for each strain rate and the pressure, the derivative of viscosity and anisotropy times the corresponding stress, minus the pressure change by plastic dilation when the model is compressible. These derivatives are exact whenever the phase rheologies are quadratic functions of strain rates and pressure, and combine the phases by the chain rule of the chosen (arithmetic, harmonic, geometric) averaging, evaluated at the state of that very node. Air nodes get zero operators.',
  over=['inputs', 'configurations'], qtext='every grid size, state of the node, material, phase fraction and tag pattern; elastic, compressible, anisotropic or not', why=WHY,
  files=['MDLIB/StokesRoutines.c', 'MDLIB/FD_Jacobian.c', 'MDLIB/RheologyDensity.c'], mech=[('RheologicalOperators', 'MDLIB/StokesRoutines.c:73'), ('DerivativesOnTheFly_n', 'MDLIB/FD_Jacobian.c'), ('DerivativesOnTheFly_s', 'MDLIB/FD_Jacobian.c'), ('PhaseRheologyLoop_v1', 'MDLIB/FD_Jacobian.c'), ('EffectiveStrainRate', 'MDLIB/RheologyDensity.c:46')], observe='tangent-operator arrays of the grid',
  note=REAL + 'Each layer (operators, derivatives, phase loop, rheology of a phase) enters the one above through a contract that answers only when it is given the state of the node. The anisotropy harnesses use the body of EffectiveStrainRate, which is proved separately.'),
 dict(id='H01', title='Implicit heat balance of every rock cell',
  statement='After a thermal step the new temperatures satisfy, in every rock cell, density times heat capacity times temperature change over the time step = the conductive heat gained through its four sides at the new temperatures + radiogenic heat + shear heating (if on) + adiabatic heat (if on, in either of its two forms, at the old temperature). A side shared with a rock cell conducts with the conductivity of that face; a periodic side connects to the cell at the other end of its row; a prescribed-temperature boundary conducts over half a cell; a surface cell exchanges heat with the air at its own prescribed temperature with its mean conductivity, not less than the smallest of the grid; a prescribed basal heat flux enters divided by the cell height; any other side is insulating. Air cells are reset to zero Celsius. Each rock cell has its own equation, numbered in cell order without gaps.',
  over=['inputs', 'configurations'], qtext='every grid size, spacing, time step, conductivity and source field, boundary and surface tag pattern', why=WHY,
  files=['MDLIB/ThermalRoutines.c'], mech=[('EnergyDirectSolve', 'MDLIB/ThermalRoutines.c:72'), ('EvalNumEqTemp', 'MDLIB/ThermalRoutines.c:38'), ('AddCoeffThermal', 'MDLIB/ThermalRoutines.c:60')], observe='new temperatures, equation numbers, stored triplets',
  note=REAL + 'Cartesian geometry (the polar correction is not specified) and one linear solve per call, as the code is called. The linear solver is a trusted contract: it returns the solution of the assembled rows, which needs a symmetric matrix: at both ends of a periodic row the same face conductivity, and rock on both sides or air on both sides.'),
]
NA = {}
