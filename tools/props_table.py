NUMTRUST = ("Trusted: TLC, the 50-digit arithmetic of java/Num.java behind spec/Num.tla, the driver's recording of inputs and results, g++. "
            "Bounded: the inputs generated per run (counts in the evidence).")

prop("C01", "Scene-file text parsing accepts exactly well-formed values",
     "Splitting text at a delimiter (into all tokens, or at its last occurrence), counting characters right of a character, trimming and squeezing whitespace, trimming a trailing character, zero padding, and reading one number or a fixed-length list of numbers from text give exactly the documented result for every byte string, including the empty one, and never read outside the string. Reading numbers succeeds exactly on well-formed text of the right length and then yields exactly the denoted values; otherwise it reports failure.",
     ["inputs"], "every byte string (exhaustive over a small alphabet up to a bound, random beyond), every delimiter, every value list",
     "The tests never call these helpers with empty strings, repeated delimiters, trailing garbage or wrong counts.",
     ["scisim/StringUtilities.h", "scisim/StringUtilities.cpp"],
     [("tokenize / trim / readScalar / readList / numeric formatting", "scisim/StringUtilities.*")],
     "Text.tla gives the meaning of every helper; all strings over the alphabet up to the bound are enumerated by TLC and replayed into the code, plus random long strings; every recorded result is validated. " + NUMTRUST,
     "TLA+ spec of the text functions, exhaustive input enumeration by TLC, trace validation of the real code")

prop("C02", "Rational time arithmetic is exact and always in lowest terms",
     "Every sequence of construction, assignment, addition, subtraction, multiplication and division on rationals yields exactly the mathematical result, held in lowest terms with a positive denominator, and comparison, sign, integrality and conversion to floating point agree with it. Text denoting an integer, a fraction or a decimal (any sign) parses to exactly that rational, and malformed text is refused.",
     ["histories", "inputs"], "every history of operations and every numeral, within 64-bit range",
     "The repository's rational tests cover a few dozen fixed pairs and no negative decimals or malformed forms.",
     ["scisim/Math/Rational.h"],
     [("normalisation by greatest common divisor", "scisim/Math/Rational.h"), ("extractFromString", "scisim/Math/Rational.h")],
     "Rat.tla defines exact rationals; TLC checks the field laws exhaustively on a bounded value set and generates operation histories that are replayed into the code, with every intermediate value validated. " + NUMTRUST,
     "TLA+ spec of exact rationals, TLC-generated operation histories replayed, trace validation")

prop("C03", "2D ball collision detection: exactly the touching pairs, correct geometry",
     "For every start and end configuration of a step, the contacts the planar ball simulator reports are exactly the ball-ball, ball-plane, ball-drum and periodic-image pairs that touch (swept over the step for ball pairs, at the end of the step for static geometry), each once, with unit normal pointing to the first body, the contact point on the surfaces, the penetration depth of the start configuration, and the right bodies, static object, name and conservation flags. The collision statistics report count and depth sum per kind of contact.",
     ["inputs"], "every scene of balls, planes, drums and portals and every step of it; exhaustive over an integer lattice, random beyond",
     "The repository has no 2D ball test in this build; touching is a universally quantified geometric statement with knife-edge cases.",
     ["ball2d/Ball2DSim.cpp", "ball2d/SpatialGridDetector.cpp", "ball2d/Constraints", "ball2d/Portals/PlanarPortal.cpp"],
     [("computeActiveSet: broad phase, then per-pair swept test", "ball2d/Ball2DSim.cpp"), ("teleported ball contacts", "ball2d/Ball2DSim.cpp, ball2d/Constraints/TeleportedBallBallConstraint.cpp")],
     "Ball2D.tla states which contacts exist and their geometry; TLC enumerates every lattice scene up to a bound, random scenes follow, and each active set the real simulator computes is validated for soundness and completeness. " + NUMTRUST,
     "TLA+ geometric spec, exhaustive lattice scenes by TLC, trace validation of the real active sets")

prop("C04", "2D rigid body collision detection: exactly the touching pairs and geometry",
     "For every start and end configuration of a step, the contacts the planar rigid body simulator reports are exactly the circle-circle (swept), circle-box, box-box (both at the end of the step), body-plane and periodic-image contacts that exist, scripted bodies included, each once, with unit normal, contact points, depth, bodies, static object and conservation flags as the geometry dictates. The contact points shown to the user are those of the current state's contacts.",
     ["inputs"], "every scene of circles, boxes, scripted bodies, planes and portals and every step of it; exhaustive over an integer lattice, random beyond",
     "The repository has no 2D rigid body test in this build; the narrow phases have many sectors, axes and clipping cases.",
     ["rigidbody2d/RigidBody2DSim.cpp", "rigidbody2d/BoxBoxTools.cpp", "rigidbody2d/CircleBoxTools.cpp", "rigidbody2d/Constraints", "rigidbody2d/PlanarPortal.cpp", "rigidbody2d/SpatialGrid.cpp"],
     [("computeActiveSet and the narrow phases", "rigidbody2d/RigidBody2DSim.cpp, rigidbody2d/BoxBoxTools.cpp, rigidbody2d/CircleBoxTools.cpp"), ("teleported contacts", "rigidbody2d/RigidBody2DSim.cpp")],
     "Rigid2D.tla states which contacts exist and their geometry (separating axes, sectors, clipping); TLC enumerates every lattice scene up to a bound, random scenes follow, and each active set is validated for soundness and completeness. " + NUMTRUST,
     "TLA+ geometric spec, exhaustive lattice scenes by TLC, trace validation of the real active sets")

prop("C05", "3D rigid body collision detection: exactly the touching pairs and geometry",
     "For every start and end configuration of a step, the contacts the spatial rigid body simulator reports are exactly those of the sphere-sphere, box-box and mesh-mesh pairs (scripted bodies included), of bodies with planes and cylinders, and of spheres across portals, that touch where the step ends, each once, with unit normal pointing to the first body, contact points, gap, depth, bodies, static object and conservation flags as the geometry dictates. Collision statistics report count, depth and shared volume per kind of contact.",
     ["inputs"], "every scene of supported bodies, planes, cylinders and portals and every step of it; exhaustive over an integer lattice, random beyond",
     "The repository has no spatial contact test in this build; the fifteen-axis box test, face clipping and field interpolation have too many cases to sample by hand.",
     ["rigidbody3d/RigidBody3DSim.cpp", "rigidbody3d/Constraints", "rigidbody3d/SpatialGridDetector.cpp", "rigidbody3d/Geometry", "rigidbody3d/Portals/PlanarPortal.cpp"],
     [("computeActiveSet and the narrow phases", "rigidbody3d/RigidBody3DSim.cpp"), ("separating axes and face clipping", "rigidbody3d/Constraints/BoxBoxUtilities.cpp"), ("samples in the other mesh's distance field", "rigidbody3d/Constraints/MeshMeshUtilities.cpp, rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp")],
     "Rigid3D.tla states which contacts exist and their geometry; TLC enumerates every lattice scene up to a bound, random scenes follow, and each active set is validated for soundness and completeness. Box-sphere, staple and portal-box contacts are documented by the code as unsupported and are not exercised. " + NUMTRUST,
     "TLA+ geometric spec, exhaustive lattice scenes by TLC, trace validation of the real active sets")

prop("C06", "Every contact reports consistent velocities, bases and generalized forces",
     "For every contact of every simulator and every velocity, the relative velocity, normal velocity, orthonormal contact basis (in space with its first tangent against any sliding), prescribed (kinematic) velocity of the other side, generalized normal and friction directions, friction disk samples, contact matrix blocks and restitution forcing term a constraint reports are those of one contact with its bodies, arms and normal: the generalized directions are the transposes of the velocity maps (virtual work), and pairwise impact resolution applies exactly the impulse that reverses the approach speed by the restitution coefficient.",
     ["inputs"], "every contact kind, configuration and velocity",
     "Solvers only see these blocks; a wrong sign or arm in one of a dozen constraint classes conserves most observables and shows up only for particular velocities.",
     ["scisim/Constraints/Constraint.cpp", "ball2d/Constraints", "rigidbody2d/Constraints", "rigidbody3d/Constraints"],
     [("evalgradg / computeGeneralizedFriction* / evalH / computeForcingTerm", "*/Constraints/*Constraint.cpp"), ("evalKinematicRelVelGivenBases", "scisim/Constraints/Constraint.cpp")],
     "Contact.tla derives every reported quantity from bodies, arms, normal and prescribed velocity alone; all contacts found in the scenes of the three simulators are validated against it. " + NUMTRUST,
     "TLA+ spec of contact kinematics shared by the three simulators, trace validation of the real constraints")

prop("C07", "Broad-phase collision detection never misses an overlapping pair",
     "For every set of axis-aligned boxes, of any number, size and position, the spatial grid of each simulator reports every pair of boxes that overlap or touch, each at most once, with the lower index first, and never a pair of a box with itself.",
     ["inputs"], "every list of boxes; exhaustive over small lattice boxes, random mixed-size, far-off and coincident boxes beyond",
     "A pair lost in one grid cell boundary arrangement shows up as a silent interpenetration; no test calls the grids.",
     ["ball2d/SpatialGridDetector.cpp", "rigidbody2d/SpatialGrid.cpp", "rigidbody3d/SpatialGridDetector.cpp"],
     [("grid sizing, rasterisation and pair collection", "ball2d/SpatialGridDetector.cpp, rigidbody2d/SpatialGrid.cpp, rigidbody3d/SpatialGridDetector.cpp")],
     "Broad.tla states which pairs must and may be reported; TLC enumerates every arrangement of lattice boxes up to a bound, random lists follow. " + NUMTRUST,
     "TLA+ spec of the overlap relation, exhaustive lattice enumeration by TLC, trace validation of the real grids")

prop("C08", "Periodic portals and domain boundaries conserve bodies and carry them right",
     "At the end of every step each body beyond a portal plane has been carried to the partner plane, keeping its distance and its place along the plane (shifted by the current shear of a moving portal, wrapped into its bounds) and gaining exactly the shear velocity jump, portals are applied one after another, and all other positions, orientations and velocities are untouched. Going through a portal and back is the identity, touching queries agree with the geometry, and a spatial simulation told to stop when a body leaves its region stops exactly then.",
     ["inputs", "histories"], "every position, portal arrangement, shear and time; exhaustive over a lattice, random beyond",
     "Wrapping depends on the side, the shear offset at that time and the order of portals; a wrong sign shows only for one plane of a moving portal after enough time.",
     ["ball2d/Portals/PlanarPortal.cpp", "rigidbody2d/PlanarPortal.cpp", "rigidbody3d/Portals/PlanarPortal.cpp", "ball2d/Ball2DSim.cpp", "rigidbody2d/RigidBody2DSim.cpp", "rigidbody3d/RigidBody3DSim.cpp"],
     [("teleportPointThroughPlaneA/B, updateMovingPortals", "*/PlanarPortal.cpp"), ("enforcePeriodicBoundaryConditions, treatSimulationBoundary", "*/*Sim.cpp")],
     "Step.tla and Portal2D.tla state the wrapping; TLC model checks that histories stay in the cell and that crossing back undoes a crossing, and enumerates every lattice case, which is replayed through whole steps of the real simulators with prescribed map results. " + NUMTRUST,
     "TLA+ spec of periodic wrapping, TLC model checking, lattice replay and trace validation of whole steps")

prop("C14", "A time step runs scripts, map and boundary treatment on the right data",
     "In every step of every simulator and flavour (unconstrained, impact, impact with friction), the start-of-step script sees the current state with the step's iteration and exact step size, the map starts from the state the script left and gets that iteration, step size, restitution, friction and solver, the end-of-step script sees the map's result after boundary treatment, and the state after the step is what that script left; without a script no callback happens. The spatial mass matrix always matches the orientations after the step.",
     ["histories", "inputs"], "every sequence of steps, scripts that change the state at any callback, with and without portals",
     "Needs scripts that modify the state and multi-step histories; no test runs a simulator step.",
     ["ball2d/Ball2DSim.cpp", "rigidbody2d/RigidBody2DSim.cpp", "rigidbody3d/RigidBody3DSim.cpp", "scisim/ScriptingCallback.cpp"],
     [("the three flow functions of each simulator", "ball2d/Ball2DSim.cpp, rigidbody2d/RigidBody2DSim.cpp, rigidbody3d/RigidBody3DSim.cpp"), ("callback wrappers", "scisim/ScriptingCallback.cpp")],
     "StepTrace.tla keeps the state as a variable and accepts a step only if every recorded callback, map call and final state follows from it. The Python interpreter is replaced by a recording script object. " + NUMTRUST,
     "TLA+ state machine of the step, trace validation of multi-step histories of the real simulators")

prop("C09", "Impact operators return admissible, energy-consistent impulses",
     "For every set of simultaneous contacts, the complementarity solver returns one non-negative impulse per contact, never a worse answer than its starting guess, and given enough iterations complementary to the outgoing normal velocity plus restitution and creating no energy. Generalized reflections accumulate solves of exactly the approaching contacts until none approach, the restitution blend weights the inelastic and elastic answers, the sweep resolves contacts in order until none approach, and operators defined for one restitution coefficient refuse mixed ones. They always terminate on well-posed problems.",
     ["inputs", "histories"], "every mass matrix, contact set, velocity, restitution and warm start; exhaustive over rows of elastic balls",
     "Solvers converge to a wrong answer silently: only the complementarity residual and the sequence of sub-problems reveal it.",
     ["scisim/ConstrainedMaps/ImpactMaps"],
     [("LCP, GR, GRR, Gauss-Seidel", "scisim/ConstrainedMaps/ImpactMaps/*Operator*.cpp"), ("termination measures", "scisim/ConstrainedMaps/ImpactMaps/*TerminationOperator.cpp, scisim/ConstrainedMaps/FrictionMaps/*")],
     "Impact.tla states the complementarity conditions and each operator's recursion; TLC proves sweeping ends with sorted velocities for rows of elastic balls and enumerates them for replay; recorded operator calls (with the inner operators recorded too) are validated. " + NUMTRUST,
     "TLA+ spec of the impact problem and operators, TLC model checking, trace validation of recorded operator calls")

prop("C10", "Friction solvers answer the frictional contact problem they were given",
     "For every active set, mass matrix, velocity, restitution, friction and warm start, the outgoing velocity is exactly the incoming one plus the returned normal and tangential impulses acting through the contacts, the returned friction force and error are those of these impulses (the distance from non-penetration with restitution and Coulomb's law, with prescribed velocities included), success means the error is within tolerance, impulses lie in their friction cones, bodies without contacts keep their velocity and the contacts keep naming the same bodies. Staggered projections alternate impact and friction solves, each seeing the other's latest impulses, stop at the tolerance, fall back on the best iterate and finish with an impact solve.",
     ["inputs", "histories"], "every contact set of the three simulators, coefficients, warm starts, iteration limits and tolerances",
     "The solver's bookkeeping (local body numbering, signs, cached best iterate) is invisible unless the whole answer is re-derived from the problem.",
     ["scisim/ConstrainedMaps/Sobogus.cpp", "scisim/ConstrainedMaps/StaggeredProjections.cpp", "scisim/ConstrainedMaps/GRRFriction.cpp", "scisim/ConstrainedMaps/FrictionMaps/FrictionOperator.cpp"],
     [("problem assembly, local numbering and scatter", "scisim/ConstrainedMaps/Sobogus.cpp"), ("alternation and best iterate", "scisim/ConstrainedMaps/StaggeredProjections.cpp")],
     "Friction.tla states the frictional contact problem, its error and the staggered iteration; recorded solves (with recorded inner operators) are validated. The third-party So-bogus library is not available offline and is replaced by a small solver with the same contract (shims/bogus_shim.cpp); the Ipopt and QL operators cannot be built here. " + NUMTRUST,
     "TLA+ spec of Coulomb contact and of the staggered iteration, trace validation of recorded solves")

prop("C17", "Impact and friction maps assemble a step from free motion, contacts and solve",
     "For every history of steps, an impact map detects contacts from the free predictor (symplectic variant: from the inertial predictor with the force kick), solves exactly those contacts at the right velocity with default or scripted coefficients, extra contact velocities (force kick, penetration beyond the threshold over the step) and the remembered friction force, and derives the new state from that answer; without contacts the step is the free step. The initial guess is what the previous step remembered for the same contacts, in the mode's form (in 3D turned with the normal), and afterwards exactly this step's contacts are remembered. Resetting forgets the friction force, and saving and reloading map and system between steps changes nothing.",
     ["histories", "inputs", "crash points"], "every sequence of contact sets, coefficients, map kinds, caching modes, resets and save/reload points",
     "Stale or misattributed warm starts and inputs evaluated at the wrong velocity only change convergence or tiny amounts; no test runs a map.",
     ["scisim/ConstrainedMaps"],
     [("the four maps", "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.cpp, scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp, scisim/ConstrainedMaps/StabilizedImpactFrictionMap.cpp, scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp"), ("map serialization", "scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp")],
     "Maps.tla is a state machine over the remembered friction force and the contact cache; recorded histories of the real maps on real scenes, with free motion, forces, solver and script answering arbitrarily, are validated step by step. " + NUMTRUST,
     "TLA+ state machine of the maps and their memory, trace validation of multi-step histories with save/reload")

prop("C18", "The warm-start cache returns what was stored for a contact, else zero",
     "For every sequence of storing, clearing, saving and reloading, reading a contact's cached impulses gives the vector stored for that very contact since the last clearing and zero otherwise; contacts of different kinds, bodies or static objects never share an entry, and the cache reports empty exactly when nothing is stored. Saving and reloading the simulation preserves every entry and drops entries the loaded file does not have.",
     ["histories", "crash points"], "all histories of store, clear and save/reload on three contacts up to a depth, on arbitrary contact kinds of the three simulators",
     "Index mix-ups show only for particular pairs of contacts present together; exhaustive histories and all kinds are needed.",
     ["ball2d/ConstraintCache.cpp", "rigidbody2d/ConstraintCache.cpp", "rigidbody3d/ConstraintCache.cpp"],
     [("the three caches", "ball2d/ConstraintCache.cpp, rigidbody2d/ConstraintCache.cpp, rigidbody3d/ConstraintCache.cpp")],
     "TLC enumerates all histories of CacheMC.tla to a depth and checks the model; each is replayed on real contacts of random scenes and the recorded reads validated against Cache.tla.",
     "TLA+ model of the cache, exhaustive TLC histories replayed into the real code, trace validation")

prop("C11", "Planar integrators advance the state exactly as documented",
     "For every planar ball or rigid body state, force field, mass and step size, symplectic Euler kicks the velocity by the whole step with the force at the start and moves with that new velocity, and velocity Verlet kicks by half a step with the force at the start, moves, and kicks by half a step with the force at the new position. Scripted rigid bodies feel no force, and the free-flight prediction is straight motion at the given velocity. The given start state is left unchanged.",
     ["inputs", "histories"], "every state, arbitrary recorded forces and step sizes",
     "A wrong half step or a force evaluated at the wrong end changes only the order of accuracy; no test runs an integrator.",
     ["ball2d/SymplecticEulerMap.cpp", "ball2d/VerletMap.cpp", "rigidbody2d/SymplecticEulerMap.cpp", "rigidbody2d/VerletMap.cpp", "ball2d/Ball2DSim.cpp", "rigidbody2d/RigidBody2DSim.cpp"],
     [("flow", "ball2d/*Map.cpp, rigidbody2d/*Map.cpp"), ("linearInertialConfigurationUpdate", "ball2d/Ball2DSim.cpp, rigidbody2d/RigidBody2DSim.cpp")],
     "Motion.tla derives the next state from the recorded inputs and the forces answered by a recording system; every recorded step is validated. " + NUMTRUST,
     "TLA+ spec of the integrators, trace validation of recorded steps of the real maps")

prop("C12", "Spatial integrators keep rotations exact and advance the state as documented",
     "For every spatial rigid body state, inertia, step size and set of fixed bodies, the discrete Moser-Veselov, split Hamiltonian, exponential Euler and constant-spin updates move centres, orientations and velocities as their defining equations say, under any force field; orientations stay rotations. The first two change spatial angular momentum by exactly the average of the start and end torque over the step (conserving it without torque) and leave fixed bodies exactly in place and at rest.",
     ["inputs", "histories"], "every state and inertia (round, symmetric, triaxial), arbitrary forces and step sizes, chained steps",
     "Rotation updates look right for round or axis-aligned bodies and small spins; no test covers a triaxial body with torque.",
     ["rigidbody3d/UnconstrainedMaps", "rigidbody3d/RigidBody3DSim.cpp"],
     [("flow of the three maps", "rigidbody3d/UnconstrainedMaps/*.cpp"), ("linearInertialConfigurationUpdate", "rigidbody3d/RigidBody3DSim.cpp")],
     "Motion.tla states the defining equations of each map over recorded inputs; every recorded step is validated. " + NUMTRUST,
     "TLA+ spec of the integrators, trace validation of recorded steps of the real maps")

prop("C13", "Editing and copying a world keeps every body's data together",
     "For every sequence of adding and removing bodies, geometries and static objects, replacing the bodies, moving them, changing masses and the simulation boundary, exactly what was asked changes: every other body keeps its position, velocity, mass, inertia, shape and fixed flag, and mass matrices stay the positive masses and (rotated) inertias of the bodies with exact inverses. A copy of a world equals the original in every respect and neither sees later changes of the other.",
     ["histories", "inputs"], "all histories of adding and removing bodies and geometries to a depth, random longer ones over all edits of the three simulators",
     "Renumbering mistakes show only when particular bodies are removed in a particular order; no test edits a world.",
     ["ball2d/Ball2DState.cpp", "rigidbody2d/RigidBody2DState.cpp", "rigidbody3d/RigidBody3DState.cpp", "rigidbody2d/RigidBody2DSim.cpp"],
     [("edits and copy operations", "ball2d/Ball2DState.cpp, rigidbody2d/RigidBody2DState.cpp, rigidbody3d/RigidBody3DState.cpp")],
     "World.tla is a state machine of worlds and edits; TLC enumerates every history of BodiesMC.tla to a depth for replay, and the full observable view of the real simulation after every edit is validated against it. " + NUMTRUST,
     "TLA+ state machine of worlds and edits, exhaustive TLC histories replayed into the real code, trace validation")

prop("C19", "Saving and loading restores worlds, solvers and integrators completely",
     "For every reachable world, solver, impact or friction map and integrator that a scene file can describe, loading what was saved gives back the same thing, whatever the target held before: every observable quantity of the world is bit-identical and solvers keep their kind, parameters and answers. Loading consumes exactly what was written, and saving again gives the same bytes.",
     ["inputs", "histories", "crash points"], "arbitrary worlds with every geometry, force, static object and portal, and every solver, map and integrator buildable here",
     "A field left out of the stream shows only after a resume, and only for scenes that use it.",
     ["ball2d", "rigidbody2d", "rigidbody3d", "scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp", "scisim/Math/MathUtilities.cpp"],
     [("world serialization", "ball2d/Ball2DState.cpp, rigidbody2d/RigidBody2DState.cpp, rigidbody3d/RigidBody3DState.cpp and the geometry, force and portal classes"), ("solver and map serialization", "scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp, */*Utilities.cpp")],
     "World.tla's save step requires the loaded view to equal the saved one; PartsTrace.tla requires the same of solvers, maps and integrators, including their answers. Ipopt, QL and Python parts cannot be built here.",
     "TLA+ state machine of worlds with a save step, trace validation of recorded saves and loads")

prop("C16", "Energy, momentum, bounds and forces reported match the bodies' state",
     "For every world, the reported kinetic, potential and total energy, linear and angular momentum are the mechanical ones of its bodies, the reported bounding box is the tightest one around all bodies, and in 3D the reported centre and radius derive from it. The force evaluated at a configuration is the sum of gravity and of a conservative, pairwise equal and opposite repulsion of exactly the overlapping balls.",
     ["inputs"], "arbitrary worlds of the three simulators, with any forces, fixed bodies, drums and shapes",
     "A wrong term shows only with rotated bodies, several forces or overlapping balls together; no test evaluates these quantities.",
     ["ball2d/Ball2DSim.cpp", "ball2d/Forces", "rigidbody2d/RigidBody2DSim.cpp", "rigidbody2d/NearEarthGravityForce.cpp", "rigidbody3d/RigidBody3DSim.cpp", "rigidbody3d/Forces"],
     [("energies and momenta", "ball2d/Ball2DSim.cpp, ball2d/Ball2DState.cpp, rigidbody2d/RigidBody2DSim.cpp, rigidbody3d/RigidBody3DSim.cpp"), ("forces", "ball2d/Forces, rigidbody2d/NearEarthGravityForce.cpp, rigidbody3d/Forces"), ("bounding boxes", "computeBoundingBox in the three simulators")],
     "Report.tla derives every reported quantity from the bodies; recorded worlds are validated. " + NUMTRUST,
     "TLA+ spec of the reported quantities, trace validation of recorded worlds")

prop("C22", "A shape's mass, inertia, bounds and inside test describe the same solid",
     "For every shape, size, density, position and orientation, the mass and the moments of inertia are those of the solid, the reported volume matches it, and the bounding box is the tightest one for discs, boxes, balls and meshes and contains the whole solid for every shape. The inside test of a mesh interpolates its distance field at every point of the field, the boundary included, and returns the field's unit gradient.",
     ["inputs"], "every shape kind, any size and density, any orientation, any query point",
     "An index past the field or a swapped half width shows only at special points or for elongated shapes; no test builds a shape.",
     ["rigidbody2d/BoxGeometry.cpp", "rigidbody2d/CircleGeometry.cpp", "rigidbody3d/Geometry"],
     [("mass, inertia, bounds", "rigidbody2d/*Geometry.cpp, rigidbody3d/Geometry/*.cpp"), ("distance field", "rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp")],
     "Shape.tla states solids, tensors and the trilinear field; recorded shapes and queries (the mesh under an address sanitizer) are validated. Meshes are built through the snapshot constructor because HDF5 is absent. " + NUMTRUST,
     "TLA+ spec of solids and distance fields, trace validation of recorded shapes and queries")

prop("C15", "A scene file loads exactly as written, or is refused",
     "For every scene document, whatever the order, line breaks and spacing of its elements and attributes, loading gives exactly the bodies, shapes, static objects, portals, forces, solver, step size, end time, script, boundary and camera it describes. A document with a missing, unreadable or meaningless value, an index of something that does not exist, or a contradiction between elements is refused without a crash.",
     ["inputs"], "random documents over the whole grammar of the three simulators, and every single fault of every attribute that TLC enumerates from the grammar",
     "There are hundreds of places where a scene can be wrong and any of them may be silently accepted; no test loads a scene.",
     ["ball2dutils/Ball2DSceneParser.cpp", "rigidbody2dutils/RigidBody2DSceneParser.cpp", "rigidbody3dutils/RigidBody3DSceneParser.cpp"],
     [("scene loading", "*utils/*SceneParser.cpp")],
     "Scene.tla holds the grammar, the meaning of a legal document and the legality rules; SceneEnum.tla derives every single fault from the grammar for replay into the real parsers, and each outcome is validated. Mesh files need HDF5 and Ipopt or QL solvers cannot be loaded here.",
     "TLA+ grammar and meaning of scene files, TLC-enumerated faults replayed into the real parsers, trace validation")


prop("C20", "An interrupted run, resumed from a snapshot, ends as if never interrupted",
     "However often and at whatever moment a command-line run that saves snapshots is cut short, even in the middle of a save, every snapshot file left behind is complete, and one exists once the first save finished. Resuming from any snapshot, in the same or another folder, writes from there on byte for byte the snapshots of the uninterrupted run and ends at the same step. A save that fails ends the run with a failure and leaves the earlier snapshots intact.",
     ["crash points", "histories", "inputs"], "every cut point of every save, single and double cuts, any snapshot resumed, random scenes with every solver buildable here, and the project's own scenes",
     "It quantifies over crash points and over every kind of state a snapshot must hold; no test runs a simulator.",
     ["ball2dcli/ball2d_cli.cpp", "rigidbody2dcli/rigidbody2d_cli.cpp", "rigidbody3dcli/rigidbody3d_cli.cpp", "ball2d", "rigidbody2d", "rigidbody3d", "scisim"],
     [("saving, loading, the run loop", "*cli/*_cli.cpp: serializeSystem, deserializeSystem, executeSimLoop"), ("what a snapshot holds", "the serialize and deserialize functions of states, solvers, maps and caches")],
     "RunMC.tla models runs, saves in two moves, cuts and resumes, and TLC checks that snapshots are faithful, never lost and lead to the whole result; its histories are replayed into the real programs, whose file operations are interposed so that the process ends or the operation fails at the chosen point, and ResumeTrace.tla judges the folder after each session. The operating system is assumed to keep what was written before a process ended; power loss is not modelled.",
     "TLA+ model of runs, crashes and resumes checked with TLC, its histories replayed into the real programs with crash injection, trace validation")

prop("C21", "A command-line run takes the steps and saves the frames its options ask for",
     "For every scene and set of options, a run calls the start-of-simulation script once, then takes steps one by one with the scene's step size until the first time not before the requested end, running the step scripts around each and the end script last, and exits with success. With snapshots on, it saves the world at exactly the requested rate, starting with the initial one, under consecutively numbered names of one width or a single name, and reports their times. Options or scenes that are unreadable, out of range or contradictory make it exit with a failure, without stepping or saving.",
     ["inputs", "schedules"], "random scenes, step sizes, end times on, just before and just after a step, save rates and option orders; every kind of bad option and bad scene",
     "Rounding at the end time, rates that do not divide, and defaults combine in many ways; no test starts a simulator.",
     ["ball2dcli/ball2d_cli.cpp", "rigidbody2dcli/rigidbody2d_cli.cpp", "rigidbody3dcli/rigidbody3d_cli.cpp"],
     [("options, loop, saving", "*cli/*_cli.cpp")],
     "Run.tla states the options' meaning and the schedule; the recorded sequence of callbacks, saves, messages and exit of the real programs is validated step by step, and each saved world is compared with the one reached by stepping the simulation directly. The Python back end is replaced by one that records the calls.",
     "TLA+ state machine of a run, trace validation of recorded runs of the real programs")

prop("C23", "Exporting a 3D world writes a scene that describes the same bodies",
     "For every world of spheres and meshes, the scene file the 3D exporter writes lists the same shapes in the same order and, read as a scene, describes the same bodies to double precision: position, orientation, velocities, mass, shape and whether fixed. A file that cannot be completely written is reported as a failure, and exporting changes nothing in the world.",
     ["inputs"], "arbitrary worlds of spheres and meshes, any magnitude of coordinates, unwritable and full destinations",
     "Digits are lost silently and a mesh whose centre of mass is not at its origin shifts unnoticed; no test exports a scene.",
     ["rigidbody3dutils/XMLExporter.cpp"],
     [("geometry and body elements", "rigidbody3dutils/XMLExporter.cpp")],
     "ExportTrace.tla reads the written document as Scene.tla's grammar does and compares the bodies it describes with the recorded world. " + NUMTRUST,
     "TLA+ spec of what the exported document has to mean, trace validation of documents written by the real exporter")

prop("C24", "Whole steps conserve momentum, lose energy, and move only what they should",
     "Over every whole step with no moving wall or shear, whatever contacts, map and solver ran, the total linear momentum of bodies that touch nothing fixed changes only by the uniform force, angular momentum is kept (no force or portal, contacts reported as keeping it, round bodies in space), and converged solves never gain energy (inelastic, or elastic without force and friction). A body in no contact keeps its free motion exactly, and a fixed body keeps its velocity and, at rest, its place.",
     ["histories", "inputs"], "random worlds of the three simulators stepped repeatedly under every integrator, impact map, impact-friction map and solver buildable here",
     "Every part can look right alone while their assembly leaks momentum or energy; no test steps a world.",
     ["ball2d/Ball2DSim.cpp", "rigidbody2d/RigidBody2DSim.cpp", "rigidbody3d/RigidBody3DSim.cpp", "scisim/ConstrainedMaps", "scisim/UnconstrainedMaps"],
     [("flow in its three forms", "*/*Sim.cpp"), ("maps and solvers", "scisim/ConstrainedMaps")],
     "Whole.tla states the conservation laws over one step; WholeMC.tla checks with TLC, on rows of bodies with and without a wall and any admissible impulses, that the laws follow from what a solver may answer; recorded runs of the real simulators are validated step by step. The discrete Moser-Veselov integrator is not driven beyond half a radian per step, where its equation has no solution. " + NUMTRUST,
     "TLA+ conservation laws, TLC model checking of an abstract impact model, trace validation of recorded whole runs")

prop("C25", "A lone contact obeys Newton's and Coulomb's laws over every whole step",
     "A round body whose only contact is with a wall, a fixed body, or another round body in the same position leaves each converged step with exactly the velocity, spin and position the laws give: it separates at the restitution times its approach, sticks if friction can hold it, and otherwise is slowed by mu times the normal impulse against its slip; so with the force applied first it rests below the friction angle and gains exactly the excess above it. A planar box with one corner on a wall gets an impulse at that corner that the same laws allow. Walls may move where supported, bodies in no contact move freely, and contacts overlapping both before and after free motion are found.",
     ["histories", "inputs"], "random tilts, fields, masses, radii, friction, restitution, wall motions and up to forty steps, in the three simulators under every map, solver and integrator buildable here",
     "The friction angle is a threshold and the laws a continuum; upstream's own slope scripts sample a dozen angles and are not run by its tests.",
     ["scisim/ConstrainedMaps", "scisim/Constraints", "ball2d/Constraints", "rigidbody2d", "rigidbody3d/Constraints"],
     [("contact solves", "scisim/ConstrainedMaps"), ("contact bases, forcing terms", "ball2d/Constraints, rigidbody2d, rigidbody3d/Constraints")],
     "Lone.tla gives the one-contact law in closed form from the bodies and the wall alone; LoneMC.tla checks with TLC that over runs the law means resting below the friction angle, sliding at the exact rate above it, friction that only slows, and bouncing by the restitution; recorded runs of the real simulators are validated step by step, the driver recording of each contact only who touches whom. Boxes meet walls only under the friction solvers and at rest walls, which is all the code supports. " + NUMTRUST,
     "TLA+ closed-form contact law, TLC model checking with liveness of its consequences, trace validation of recorded whole runs")

prop("C26", "A script sees and changes exactly the world's data, when documented",
     "The callbacks a Python script defines, and no others, are made once each at their documented times, and every call it makes there answers with the current world, step, contacts or coefficients and leaves exactly the documented change: nothing else moves, removed bodies and shapes leave the others in order with their own shapes, and coefficients written are the ones used. A call with an index, value or array it cannot accept ends the run with an error, and nothing after it runs.",
     ["histories", "inputs"], "every sequence of calls by any script, at every callback, on every world",
     "No test embeds Python; whether bookkeeping survives a removal depends on the whole history of calls.",
     ["ball2d/PythonScripting.cpp", "rigidbody2d/PythonScripting.cpp", "rigidbody3d/PythonScripting.cpp", "scisim/PythonTools.cpp", "rigidbody2d/RigidBody2DState.cpp", "ball2d/Ball2DState.cpp"],
     [("script calls", "ball2d/PythonScripting.cpp, rigidbody2d/PythonScripting.cpp, rigidbody3d/PythonScripting.cpp"), ("insertion and removal", "rigidbody2d/RigidBody2DState.cpp, ball2d/Ball2DState.cpp"), ("loading and callbacks", "scisim/PythonTools.cpp, scisim/PythonObject.cpp")],
     "Script.tla gives the world each call leaves, what it answers and which calls are refused; ScriptMC.tla checks with TLC that under any additions and removals every body keeps the shape it was made with and nothing is reordered. The real interface is built against CPython 3.12 and numpy through a header that maps the one Python 2 entry point; a real script makes random calls and logs them, and TLC validates every recorded run. Calls at the edge of what is accepted are made in a forked process. Not exercised: array views kept across insertions, data asked for at a time it is documented as absent. " + NUMTRUST,
     "TLA+ spec of the scripting interface, TLC model checking of removal bookkeeping, trace validation of runs with a real embedded Python script")
