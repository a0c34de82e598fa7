"""The property tables: statement, quantifier, anchors (source of properties.jsonl and MANIFEST.json)."""

TECHNIQUE = 'abstract interpretation of the syntax tree into gated value graphs (global value numbering, loop summaries), equivalence of value numbers by ring normal form and random interpretation'
NOTE = ('Decides, for all inputs and for a generic element of every collection, that the value the source computes is the specified one; '
        'real arithmetic (rounding not modelled), numpy/scipy semantics as modelled in sa/npmodel.py, random interpretation of value graphs '
        'can only err towards accepting (Schwartz-Zippel). Constructs the analysis cannot follow are left undecided and reported in the evidence.')


def P(id, title, statement, over, quant, why, files, mech, **kw):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, **kw)


MQ = 'rainbow/math/quaternion.py'
SB = 'rainbow/simulators/prox_soft_bodies/'
RB = 'rainbow/simulators/prox_rigid_bodies/'
PX = 'rainbow/simulators/proximal_contact/'
CLAIMED = [
    P('M01', 'Quaternions and rotation matrices are one representation of the rotation group',
      '''Converting a unit quaternion to a matrix, rotating a vector by it, multiplying quaternions, conjugating them and building them from an
      axis and an angle all describe the same rotation: the matrix is orthogonal with determinant one, rotating equals multiplying by the matrix, and
      products compose rotations. The array variants agree element by element with the single-element operations. The angle-axis decomposition returns an angle and
      axis that rebuild the quaternion; the angle about a given axis is at most half a turn either way.''',
      ['inputs'], 'every quaternion, vector, angle and axis', 'unit tests evaluate a handful of axis-aligned rotations; a sign or index error on one component survives symmetric samples',
      [MQ, 'rainbow/math/matrix3.py'], [('quaternion to matrix, product, rotation', MQ), ('matrix constructors', 'rainbow/math/matrix3.py')]),
    P('M02', 'Matrix to quaternion and to Euler angles inverts the construction',
      '''Extracting a quaternion from a rotation matrix returns the rotation that produced the matrix, whichever component is the largest. The Euler angles extracted from a
      matrix or a quaternion rebuild the same rotation when applied as rotations about x, then y, then z, including in gimbal lock.''',
      ['inputs'], 'every rotation, every branch of the extraction', 'tests hit a few rotations per branch; the branch boundaries and the off-diagonal signs in rare branches are not sampled',
      [MQ, 'rainbow/math/matrix3.py'], [('quaternion from matrix', MQ), ('Euler angle extraction', 'rainbow/math/matrix3.py')]),
    P('M03', 'Spherical interpolation keeps unit length and constant angular speed',
      '''Spherical linear interpolation of two unit quaternions yields unit quaternions, starts and ends at the two rotations, takes the shortest arc and advances the angle in
      proportion to the parameter. Linear interpolation is the straight blend with the parameter clamped to [0,1].''',
      ['inputs'], 'every pair of unit quaternions and every parameter in [0,1]', 'tests pin a few end points and mid points',
      [MQ], [('slerp, lerp', MQ)]),
    P('M04', 'Coordinate systems form the group of rigid motions',
      '''Transforming points, vectors and matrices by a coordinate system, concatenating two systems, inverting one and expressing one relative to another are
      consistent: concatenation equals applying the first and then the second, the inverse undoes the transform, and the relative system preserves world positions for any two frames.''',
      ['inputs'], 'every pair of frames and every point', 'tests use frames with axis-aligned rotations or no translation, where argument order and frame mix-ups cancel',
      ['rainbow/math/coordsys.py'], [('frame algebra', 'rainbow/math/coordsys.py')]),
    P('M05', 'Exponential map, its logarithm and its derivatives are consistent',
      '''The exponential map of a rotation vector is the unit quaternion rotating by its length about its direction, for angles of any size and near zero; re-parameterisation never leaves an angle above pi and keeps the rotation.
      The logarithm recovers the rotation, the provided partial derivatives are the derivatives of the quaternion and of the rotation matrix, and the vector rate is the one that makes the rotation spin with the given angular velocity.''',
      ['inputs'], 'every rotation vector, every angular velocity', 'tests compare single vectors; derivative code is not differenced against the map it differentiates',
      ['rainbow/math/expmap.py'], [('exp, log, reparameterisation, derivatives', 'rainbow/math/expmap.py')]),
    P('M06', 'Frames built from vectors are orthonormal and right-handed; ordering is total',
      '''From any non-zero vector the frame builder yields two unit tangents orthogonal to it and to each other, right-handed, whatever component is smallest. Orthonormalising a
      matrix yields a rotation that keeps the first direction and the side of the second. Vector comparisons order lexicographically and the remaining constructors place components where their names say.''',
      ['inputs'], 'every vector and matrix', 'tests sample a few vectors, typically the axes, and never the ties between components',
      ['rainbow/math/vector3.py', 'rainbow/math/matrix3.py', 'rainbow/math/functions.py'], [('tangent frames, ordering', 'rainbow/math/vector3.py'), ('orthonormalisation, constructors', 'rainbow/math/matrix3.py')]),
    P('R01', 'Fixed rigid bodies never move',
      '''A simulation step leaves position, orientation, linear and angular velocity of every fixed body exactly as they were, whatever contacts, joints, forces and stabilisation settings are active.''',
      ['inputs', 'histories', 'configurations'], 'every engine state, every set of forces, contacts and hinges, every solver outcome, every parameter setting', 'the tests never step a scene with a fixed body in contact under all parameter settings',
      [RB + 'steppers.py', RB + 'state_storage.py'], [('step', RB + 'steppers.py'), ('position update, inverse mass', RB + 'state_storage.py')]),
    P('R02', 'A free rigid body follows semi-implicit Euler under its forces',
      '''In a step without contacts and joints every free body's velocities change by the time step times the inverse mass and inertia applied to the sum of all attached forces and to the gyroscopic torque, and its pose is then advanced
      with the new velocities, the orientation being renormalised. Gravity pulls with mass times g against the up direction and without torque, damping opposes linear and angular velocity with its own two coefficients.''',
      ['inputs', 'configurations'], 'every state, inertia, orientation and list of forces, every time step', 'tests do not step bodies with non-spherical inertia, spin and several forces',
      [RB + 'steppers.py', RB + 'state_storage.py', RB + 'types.py'], [('semi-implicit update', RB + 'steppers.py'), ('external forces, gyroscopic term', RB + 'state_storage.py'), ('force laws', RB + 'types.py')]),
    P('R03', 'Constraint impulses are equal and opposite and act through inverse mass',
      '''Every contact and hinge impulse acts only on the two bodies it joins, with opposite linear impulses and with torques that conserve angular momentum. The velocity change is the inverse mass matrix applied to these impulses, the inverse mass matrix being the
      reciprocal masses and the world-space inverse inertias of the free bodies.''',
      ['inputs', 'configurations'], 'every contact point, hinge, pair of bodies and every impulse', 'no test inspects momentum exchange between two moving bodies',
      [RB + 'constraints/contacts.py', RB + 'constraints/hinges.py', RB + 'state_storage.py'], [('Jacobians', RB + 'constraints'), ('inverse mass matrix', RB + 'state_storage.py')]),
    P('R04', 'Constraint rows measure relative velocities at the contact or joint',
      '''For any number of contacts and hinges the rows of a constraint, applied to the bodies' velocities, give the relative velocity of the two bodies at the contact point along the normal and two tangents plus the relative spin about the normal, and for a hinge the
      relative velocity of the two joint points plus the two relative spins across the hinge axis.''',
      ['inputs', 'configurations'], 'every contact and hinge in every configuration, any number of them', 'tests do not build constraint systems with several contacts and rotated bodies',
      [RB + 'constraints/contacts.py', RB + 'constraints/hinges.py'], [('contact Jacobian', RB + 'constraints/contacts.py'), ('hinge Jacobian', RB + 'constraints/hinges.py')]),
    P('R05', 'Right-hand sides: bounce and drift correction push errors towards zero',
      '''The target velocity of a contact combines current relative velocity, restitution of the material pair on the normal row only when bounce is enabled, the external velocity change and a penetration correction that is applied only to
      approaching contacts deeper than the tolerance and is bounded by the maximum gap. Hinge correction drives the distance of the joint points and the misalignment of the axes towards zero. Post-stabilisation removes penetration beyond the tolerance only.''',
      ['inputs', 'configurations'], 'every state, contact, hinge and stabilisation parameter', 'the sign and clamp of the corrections only show after many steps of drifting scenes that tests do not run',
      [RB + 'constraints/contacts.py', RB + 'constraints/hinges.py', RB + 'constraints/post_stabilization.py'], [('error vectors and right-hand sides', RB + 'constraints')]),
    P('R06', 'The contact solver does a true Gauss-Seidel sweep and never gets worse',
      '''Each projected Gauss-Seidel block update uses the newest impulses of every other block and its own relaxation factor, the velocity change is kept equal to the inverse-mass-weighted constraint impulses, and relaxation factors are positive. The solver
      returns the best iterate seen: it stops only on the documented criteria or the iteration limit, and the returned impulses have a merit no larger than the starting point's.''',
      ['inputs', 'histories'], 'every constraint problem, any number of blocks, every sequence of merits', 'tests solve one small problem; stale-iterate or wrong-block bugs still converge there',
      [RB + 'gauss_seidel_solver.py', RB + 'constraints/problem.py'], [('sweep, solve', RB + 'gauss_seidel_solver.py'), ('constraint problem', RB + 'constraints/problem.py')]),
    P('R07', 'Contacts never pull and friction stays inside the Coulomb cone',
      '''After every update of a contact block the normal impulse is non-negative and the friction impulse is at most the friction coefficient times the normal impulse in length, for any solver iterate; a friction value inside this cone is unchanged by the projection, one outside lands on
      its boundary in the same direction. The drift correction of contacts applies no friction, contacts start from zero impulses, and hinge impulses are unconstrained.''',
      ['inputs', 'histories'], 'every impulse, every friction coefficient including zero, every block', 'tests project a few points in the interior or on the axes of the cone',
      [RB + 'prox_operators.py', RB + 'constraints/contacts.py', RB + 'gauss_seidel_solver.py'], [('projections', RB + 'prox_operators.py'), ('projection per constraint', RB + 'constraints')]),
    P('R08', 'simulate advances time by exactly the requested amount',
      '''Simulating for a positive duration T performs steps whose lengths sum to T, none longer than the configured time step, none non-positive, all on the given engine; a non-positive T is rejected without stepping.''',
      ['inputs'], 'every duration and every positive time step, also when the step does not divide the duration', 'tests call simulate with one duration, if at all',
      [RB + 'api.py'], [('time loop', RB + 'api.py')]),
    P('R09', 'Body states are gathered, advanced and scattered consistently',
      '''Reading the engine into state vectors and writing it back uses the same slots for the same body and quantity, in any number of bodies. Advancing the pose keeps velocities, changing velocities keeps the pose, and post-stabilisation displaces free bodies by
      the inverse-mass-weighted correction impulses without changing any velocity. A step changes the velocity of a free body by the external change plus the change of every kind of constraint there is, and post-stabilizes exactly when contacts exist, it is enabled and something penetrates.''',
      ['inputs', 'configurations'], 'any number of bodies, any state', 'tests use one or two bodies, where offsets of the packed vectors coincide',
      [RB + 'state_storage.py', RB + 'steppers.py', RB + 'constraints/post_stabilization.py'], [('packed state vectors', RB + 'state_storage.py'), ('post-stabilisation', RB + 'constraints/post_stabilization.py')]),
    P('R10', 'Scripting calls accept exactly legal arguments; a rejected call has no effect',
      '''Every create, set, get and connect call on the rigid-body engine raises for unknown or duplicate names and out-of-range coefficients and succeeds otherwise; when it raises, nothing in the engine has been changed.''',
      ['inputs', 'histories'], 'every engine content, every name and coefficient', 'tests check single bad names and never inspect the engine after the error',
      [RB + 'api.py', RB + 'types.py'], [('argument guards', RB + 'api.py')]),
    P('R11', 'Setters change only the named thing, getters hand out copies',
      '''Creating, setting and connecting affects only the named body, hinge, force or shape and stores copies of array arguments; getters return copies, so that neither the caller's arrays nor two bodies ever share state. New bodies start free, at rest at the origin with consecutive indices; mass properties scale the shape's by density.''',
      ['inputs', 'histories'], 'every engine, name and value', 'aliasing shows only when a script later modifies an array it passed or received',
      [RB + 'api.py', RB + 'types.py'], [('setters and getters', RB + 'api.py'), ('body construction', RB + 'types.py')]),
    P('R14', 'Material interaction lookup is symmetric, total and isolated',
      '''The interaction of two materials does not depend on the order of the names, an undefined pair behaves like the default interaction, a defined pair is found under both orders with the coefficients it was created with, defining a pair leaves all other pairs untouched,
      and a new library knows only the default material.''',
      ['inputs', 'histories'], 'every pair of material names and every sequence of definitions', 'tests define one or two pairs in alphabetical order',
      [RB + 'types.py', RB + 'api.py'], [('interaction library', RB + 'types.py'), ('definition', RB + 'api.py')]),
    P('R16', 'Placing bodies and hinges in model, body or world frame puts them there',
      '''Setting a position or orientation with respect to the model frame places the frame in which the mesh was authored, keeping the other part of its pose. Setting up a hinge in world, body or model coordinates makes the joint point and joint axis of parent and child coincide
      with the requested ones in world space, without moving the bodies.''',
      ['inputs'], 'every body pose, every mesh frame and every joint frame', 'tests use shapes whose body frame equals the model frame, where the transforms vanish',
      [RB + 'api.py', RB + 'types.py', 'rainbow/math/coordsys.py'], [('model frame placement, hinge set-up', RB + 'api.py'), ('frames', 'rainbow/math/coordsys.py')]),
    P('G01', 'Bounding volume trees enclose their objects and traversal finds every overlap',
      '''A k-dop bounds its points in every direction and touches them, a union encloses both volumes, and two volumes are reported disjoint only if some direction separates them. Every node of a bounding volume tree encloses all the objects below
      it, after construction and after every refit, the leaves partition the objects, and every pair of objects whose volumes overlap is reported exactly once by a traversal of two trees, without dropping or misattributing pairs. The same holds for axis-aligned boxes.''',
      ['inputs', 'histories'], 'every set of objects, every tree, every sequence of refits', 'a missed pair only shows when the volumes overlap in the one slab or subtree that is handled wrongly; tests build two tiny trees',
      ['rainbow/geometry/kdop.py', 'rainbow/geometry/kdop_bvh.py', 'rainbow/geometry/aabb.py'],
      [('k-dops', 'rainbow/geometry/kdop.py'), ('trees, refit, traversal', 'rainbow/geometry/kdop_bvh.py'), ('boxes', 'rainbow/geometry/aabb.py')]),
    P('G02', 'Grids interpolate sampled fields consistently with their geometry',
      '''Node coordinates, spacing and index arithmetic of a regular grid agree in all three directions. The value at a node is the stored value, in between it is the trilinear blend of the eight nodes of the enclosing cell, the gradient is the spatial gradient of that blend, and points
      outside are recognised as outside in every direction.''',
      ['inputs'], 'every grid box, resolution and point', 'tests use unit cubes with equal spacing and the origin at a corner, where divisors and strides coincide',
      ['rainbow/geometry/grid3.py'], [('grid indexing, value, gradient', 'rainbow/geometry/grid3.py')]),
    P('G03', 'Generated meshes are closed, consistently oriented and non-degenerate',
      '''Every surface shape generator returns a mesh whose triangles use existing vertices, form a closed, outward-oriented surface without degenerate faces or duplicate vertices, for any resolution and dimensions. Volume generators, subdivision and mesh transformations return tetrahedra of positive volume that fill the same region;
      the surface extracted from a volume mesh is its outward boundary.''',
      ['inputs', 'configurations'], 'every shape, dimension and resolution', 'tests count vertices and triangles; orientation, duplicates and holes at seams are not inspected',
      ['rainbow/geometry/surface_mesh.py', 'rainbow/geometry/volume_mesh.py', 'rainbow/geometry/tetrahedron.py'],
      [('surface generators', 'rainbow/geometry/surface_mesh.py'), ('volume generators and surface extraction', 'rainbow/geometry/volume_mesh.py'), ('subdivision', 'rainbow/geometry/tetrahedron.py')]),
    P('G04', 'Barycentric coordinates reproduce points; tetrahedron measures are exact',
      '''Barycentric coordinates on edges, triangles and tetrahedra sum to one and reproduce the point (its projection, for edges and triangles), their gradients are the derivatives of the coordinates, and the inside tests accept exactly the coordinates of points inside. Signed volumes, inscribed and circumscribed spheres and interior sample points
      of tetrahedra are the geometric ones.''',
      ['inputs'], 'every non-degenerate simplex and every point', 'tests use the unit simplices at the origin',
      ['rainbow/geometry/barycentric.py', 'rainbow/geometry/tetrahedron.py'], [('coordinates and gradients', 'rainbow/geometry/barycentric.py'), ('volumes, spheres, sampling', 'rainbow/geometry/tetrahedron.py')]),
    P('S01', 'Soft material stresses derive from the energies of their models',
      '''For St. Venant-Kirchhoff, corotational and stable Neo-Hookean materials the energy density is that of the named model, and the first Piola-Kirchhoff stress is its derivative with respect to the deformation gradient, for every deformation. Right Cauchy-Green and Green strain, Cauchy stress
      and the two Lame parameters follow their definitions; named materials have the tabulated constants in any letter case.''',
      ['inputs'], 'every deformation gradient with positive determinant and every pair of Lame parameters', 'tests evaluate stresses near the identity, where wrong terms vanish',
      [SB + 'mechanics.py'], [('energies, stresses, strains, material parameters', SB + 'mechanics.py')]),
    P('S02', 'Elastic, damping, gravity and traction forces are exact nodal loads',
      '''The elastic force of a tetrahedral mesh is minus the gradient of its elastic energy with respect to the node positions. Gravity gives each corner a quarter of its elements' weight, a loaded surface triangle gives each corner a third of area times load, and damping is minus the damping matrix times the velocities. Nothing else contributes.''',
      ['inputs'], 'every node position, velocity, material and load on meshes with shared, permuted and unreferenced nodes', 'tests use one or two symmetric tetrahedra, where swapped corners and wrong factors cancel',
      [SB + 'solver.py'], [('element forces', SB + 'solver.py')]),
    P('S03', 'Element mass and damping matrices assemble to one global operator',
      '''Element matrices are the documented lumped or consistent ones; multiplying by the element array, assembling to coordinate or compressed format and building the global mass matrix over all bodies realise the same operator, without changing their inputs. The inverse of a lumped mass matrix is exact, and Dirichlet conditions turn the rows of constrained nodes into identities.''',
      ['inputs', 'configurations'], 'every element matrix; several bodies in any order; meshes with shared nodes', 'tests assemble a single body, where node offsets are zero',
      [SB + 'solver.py'], [('element arrays, assembly, global mass matrix', SB + 'solver.py')]),
    P('S04', 'Soft contacts act on the interpolated contact points',
      '''The contact Jacobian maps nodal velocities to the relative velocity of the two barycentrically interpolated contact points in an orthonormal contact frame; friction coefficients are those of the two materials. Post-stabilisation acts only on penetrations deeper than the allowed gap, without friction or pull, displaces only
      nodes that are not constrained, and changes no velocity.''',
      ['inputs', 'configurations'], 'every contact set, including self contact and no contact; any barycentric weights and normals', 'tests have no scene with two soft bodies in contact',
      [SB + 'solver.py', SB + 'types.py'], [('Jacobian, friction, post-stabilisation', SB + 'solver.py'), ('contact points', SB + 'types.py')]),
    P('S05', 'A soft body step is semi-implicit Euler and respects boundary conditions',
      '''A time step first adds inverse mass times the body forces and the contact impulses to the velocities, then moves the nodes by the new velocities. The contact impulses solve the friction problem of the predicted velocities. Nodes with Dirichlet conditions sit at their prescribed positions with zero velocity, fixed bodies do not move, and each body only feels its own loads.''',
      ['inputs', 'configurations', 'histories'], 'every state of several bodies, with and without constraints, fixed bodies and contacts', 'no test steps the soft body simulator with contacts or constraints',
      [SB + 'solver.py'], [('time step, boundary conditions', SB + 'solver.py')]),
    P('S06', 'Soft-body contacts describe where and how the bodies touch',
      '''Bounding volumes or hash cells offer every pair of triangles whose boxes overlap, for every pair of bodies, and each pair is examined once in both roles. A triangle pair gives a contact exactly where the distance field of the other body is known and at most the envelope: at a point of the triangle (the deepest one in a linear field), with that distance as gap.
      The contact names the owning tetrahedra, gives the point's barycentric coordinates in both and its world position; its normal is the field gradient carried to the deformed configuration, of unit length, pointing from the first body to the second. Repeated contacts are dropped, positions untouched; self collision means intersecting triangles without a common corner.''',
      ['inputs', 'configurations'], 'every deformation of bodies of fixed small connectivity and every distance field', 'tests use one scene and compare counts',
      [SB + 'collision_detection.py'], [('contact generation, candidate pairs, reduction', SB + 'collision_detection.py')]),
    P('S07', 'Soft-body scripting accepts exactly legal input and touches only its target',
      '''Every create, set and get call of the soft body interface raises for unknown or duplicate names, wrong sizes and out-of-range parameters and succeeds otherwise; a rejected call, also for a degenerate mesh, leaves the engine as it was. Accepted calls change only the named body or material, to copies of the arguments.
      A new body takes the next index and node range, starts at rest with the default material, and holds volumes, face vectors, surface and distance field of its own sorted mesh. Dirichlet and traction conditions come from exactly the nodes and triangles inside the given level set.''',
      ['inputs', 'histories'], 'every engine content, name, parameter and mesh coordinates; meshes with shared faces', 'tests create one body and never inspect the engine after an error',
      [SB + 'api.py', SB + 'types.py'], [('guards, setters, conditions, body creation', SB + 'api.py'), ('body and material defaults', SB + 'types.py')]),
    P('S08', 'Soft-body simulate advances time by exactly the requested amount',
      '''Simulating a soft body engine for a positive duration performs steps whose lengths sum to the duration, none longer than the configured time step and none non-positive, all on the given engine with one stepper; a non-positive duration is rejected without stepping.''',
      ['inputs'], 'every duration and every positive time step', 'no test simulates for a duration that the step does not divide',
      [SB + 'api.py'], [('time loop', SB + 'api.py')]),
    P('S09', 'Soft material interaction lookup is symmetric, total and isolated',
      '''In the soft body simulator the interaction of two materials does not depend on the order of the names, an undefined pair behaves like the default interaction, a defined pair is found under both orders with its friction coefficient, and defining a pair leaves all other pairs untouched.''',
      ['inputs', 'histories'], 'every pair of material names and every library content', 'tests define at most one pair',
      [SB + 'types.py', SB + 'api.py'], [('interaction library', SB + 'types.py'), ('definition', SB + 'api.py')]),
    P('P01', 'Proximal contact solvers sweep as documented and return the best iterate',
      '''A sweep of the soft body contact solver replaces every contact block by the proximal point of x - r(Jw + b): with the newest impulses in Gauss-Seidel, with the newest impulses of other colour groups in parallel Gauss-Seidel, with the impulses before the sweep in both Jacobi schemes, where plain Jacobi bounds friction by the old normal impulse and the hybrid by the new one.
      The solver starts from zero with r a tenth of the reciprocal diagonal, rolls back and shrinks r when the merit grows, enlarges r when it stagnates, stops only when converged or at the iteration limit, and returns the last accepted iterate. Each scheme name selects its solver, other names are rejected.''',
      ['inputs', 'histories', 'configurations'], 'every matrix, right-hand side, friction law and iterate for up to four contacts, every merit sequence of up to three iterations', 'tests compare one scene between schemes',
      [PX + 'solver_interface.py', PX + 'gauss_seidel_solver.py', PX + 'jacobi_solver.py', PX + 'prox_solvers.py'], [('sweeps', PX + 'gauss_seidel_solver.py'), ('Jacobi sweeps', PX + 'jacobi_solver.py'), ('convergence control', PX + 'solver_interface.py'), ('scheme selection', PX + 'prox_solvers.py')]),
    P('P02', 'Soft contact friction is projected on the Coulomb cone',
      '''The friction operators of the soft body solver return zero without normal impulse or without friction; the sphere operator returns the closest point of the ball whose radius is the friction coefficient times the normal impulse; the ellipsoid operator agrees with it for equal coefficients, leaves points inside the ellipsoid unchanged and takes points outside along a normal of the ellipsoid, in any unit of force.''',
      ['inputs'], 'every point, friction coefficient and normal impulse', 'tests project a few points',
      [PX + 'proximal_operators.py'], [('proximal operators', PX + 'proximal_operators.py')]),
    P('P03', 'Contacts solved at the same time never share a body or a node',
      '''In the contact graph two contacts that involve a common rigid body, or tetrahedra with a common node, are neighbours, every contact is a vertex, and an unknown kind of body is rejected. Colour groups hold every contact exactly once, in the group of its colour, as the index range of its four impulses.''',
      ['inputs', 'schedules'], 'every assignment of bodies to up to three rigid contacts; soft contacts with equal, overlapping and disjoint tetrahedra', 'a missing edge only shows as a data race or slow convergence',
      [PX + 'blocking.py'], [('contact graph, colour groups', PX + 'blocking.py')]),
    P('R15', 'Rigid contacts describe where and how the bodies touch',
      '''The bounding volumes offer the triangle pairs of every pair of bodies at their current placement, and every triangle involved is tested against the distance field of the other body, in both roles. A triangle gives a contact exactly where that field is known and at most the envelope: at a point of the triangle (the deepest one in a linear field), with that distance as gap.
      The contact point is the world position of that point, its normal the field gradient rotated to the world, of unit length, pointing from the body owning the field, which is the first body. Contacts of earlier steps and repeated contacts are dropped; detection moves nothing.''',
      ['inputs', 'configurations'], 'every placement of bodies of small meshes, every vertex position and every distance field', 'tests count contacts of a few scenes',
      [RB + 'collision_detection.py'], [('contact generation, pairs, reduction', RB + 'collision_detection.py')]),
    P('K01', 'Skeleton poses follow the joint angles and chains follow the tree',
      '''After updating a skeleton, the world origin and orientation of every bone are the composition, from the root outwards, of bone vectors and of the three joint rotations in the order of the bone's Euler code, whatever the pose was before; joint angles and bone vectors stay. Chains are the paths from the root to each leaf and the end effector is the tool point of the last bone.
      Exactly the twelve Euler conventions are accepted; a second root and unknown parents are rejected; a new bone gets the next index and becomes a child of its parent only. Joint angles read back as set, and setting one leaves the others alone.''',
      ['inputs', 'histories'], 'every joint angle, bone vector and tool on trees of up to five bones; all three-letter codes', 'tests use planar chains with one rotation axis',
      ['rainbow/simulators/inverse_kinematics/api.py', 'rainbow/simulators/inverse_kinematics/types.py'], [('poses, chains, joint angles', 'rainbow/simulators/inverse_kinematics/api.py'), ('joint axes and rotations', 'rainbow/simulators/inverse_kinematics/types.py')]),
    P('K02', 'Inverse kinematics derivatives are those of the objective',
      '''The Jacobian is the derivative of the end effector positions with respect to all joint angles, the objective is half the sum of squared distances between goals and end effectors, and gradient and Hessian are its first and second derivatives, for every Euler convention and with zeros for joints outside the chains. The finite difference versions return the central difference quotients.
      None of them changes a joint angle, a bone vector or the pose of the skeleton.''',
      ['inputs', 'configurations'], 'every joint angle, bone vector, tool and goal on serial and branching skeletons of up to four bones', 'tests use a straight chain with all angles zero, where transposed blocks and wrong axes cancel',
      ['rainbow/simulators/inverse_kinematics/api.py'], [('Jacobian, gradient, Hessian, finite differences', 'rainbow/simulators/inverse_kinematics/api.py')]),
    P('G05', 'Spatial hashing never forgets or resurrects a candidate',
      '''Inserting into the hash grid returns exactly the objects inserted earlier into the same hash cell with the same time stamp, in order and with their triangle, body and box; objects of earlier time stamps are gone. A cell always hashes to the same value. The optimal cell size is 2.2 times the mean edge length.
      A box made from vertices is the tightest one around them, and two boxes overlap exactly when their intervals, grown by the boundary, meet on every axis (touching counts), in either order; the test changes neither box.''',
      ['inputs', 'histories'], 'every box and vertex; insertion histories with hash collisions and several time stamps', 'tests insert two objects with one time stamp',
      ['rainbow/geometry/spatial_hashing.py', 'rainbow/geometry/aabb.py'], [('cells, hash grid, cell size', 'rainbow/geometry/spatial_hashing.py'), ('boxes', 'rainbow/geometry/aabb.py')]),
    P('R17', 'Mass properties are the exact integrals and shapes live in their principal frame',
      '''The mass, center of mass and inertia computed for a closed triangle mesh are the density integrals over the solid it encloses, whichever projection axis is used for a face; a mesh that does not enclose a positive volume is rejected.
      The body frame of a shape has its origin at the center of mass and its axes along the principal axes, with the matching moments and a unit quaternion, also for shapes with equal moments of inertia. Creating a shape stores the mesh in that frame, the mass properties for unit density, the transform from body frame to model frame and a distance field of that mesh whose margin is the larger of a tenth of its size and twice the envelope; a duplicate name is rejected and other shapes are untouched. Creating a mesh sorts the vertices along the direction of most variance without changing the surface.''',
      ['inputs'], 'every closed mesh, density and mass property; every order and handedness of the eigenvectors', 'tests compute a box and a sphere with well separated moments',
      [RB + 'mass.py', RB + 'api.py', 'rainbow/geometry/surface_mesh.py'], [('integrals and body frame', RB + 'mass.py'), ('create_shape, create_mesh', RB + 'api.py')]),
    P('M07', 'Polynomials interpolate the given data and differentiate exactly',
      '''A two dimensional polynomial of order n has every monomial of order at most n exactly once. Evaluating it sums the coefficients times the monomials at the point. Interpolation gives, for every column of values, the polynomial that takes the given value at each of the first K points (K the number of monomials); too few points or values, a non-positive order and unsupported dimensions are rejected.
      The derivatives are the polynomials of the partial derivatives, also when differentiated again; neither operation changes its input.''',
      ['inputs'], 'every order up to 4, coefficients, points and values', 'tests evaluate a handful of coefficients and points',
      ['rainbow/math/polynomial.py'], [('polynomials', 'rainbow/math/polynomial.py')]),
    P('M08', 'Polar decomposition and principal directions are exact',
      '''The polar decomposition of a matrix A of full rank, alone or in a batch, is a rotation R and a symmetric S with R S = A, where S is the square root of the transpose of A times A whatever order the eigenvalues come in; a matrix with a non-positive eigenvalue is rejected. Principal component analysis returns the mean, the eigenvalues and the matching eigenvectors of the covariance about the mean, and the direction of most variance belongs to the largest one. The sinc function is sin(x)/x with limit 1 at zero, to machine precision.''',
      ['inputs'], 'every matrix, batch and point set; every order of the eigenvalues', 'tests decompose a few sampled matrices',
      ['rainbow/math/matrix3.py', 'rainbow/math/functions.py'], [('polar decomposition', 'rainbow/math/matrix3.py'), ('PCA, sinc', 'rainbow/math/functions.py')]),
    P('S10', 'Reported energies of soft bodies are those of the current state',
      '''The kinetic, gravitational and elastic energies are the sums over all elements of all bodies that are not fixed of density times volume times half the squared mean velocity, of density times volume times the height of the element center against gravity, and of volume times the energy density of the deformation gradient with the Lame parameters of the material. Computing them changes nothing.
      A profiled step logs once, with the energies, penetration and number of contacts of the state it ends in.''',
      ['inputs'], 'every state, mesh and mix of fixed and free bodies', 'no test computes an energy',
      [SB + 'solver.py'], [('energies, log of a step', SB + 'solver.py')]),
    P('R12', 'Profiling observes a simulation without changing it',
      '''With profiling on, the rigid and soft collision detection, contact generation, contact solvers, stabilization and time steps obey exactly the laws they obey with profiling off: same contacts, impulses, poses, velocities and termination. Profiling never makes a step fail.''',
      ['inputs'], 'every scene and every stage, with the profiling flag on', 'tests run with profiling off',
      [RB + 'collision_detection.py', RB + 'gauss_seidel_solver.py', RB + 'steppers.py', SB + 'collision_detection.py', SB + 'solver.py', PX + 'solver_interface.py'],
      [('rigid stages', RB + 'collision_detection.py'), ('soft stages', SB + 'solver.py'), ('contact solvers', PX + 'solver_interface.py')]),
    P('R18', 'Every scene leaves each of its bodies completely set up',
      '''For every scene script and all of its size and count parameters: each body it creates is in the engine under a fresh name, has a shape, the given material, the mass and inertia of its shape at the given density, a pose consistent with the body frame of its shape, zero initial velocity (gears may spin), and is free or fixed as the scene says (ground, containers, landscape and anchored parts fixed, all else free). The names returned are exactly the bodies created, each once. Bodies, shapes and hinges already in the engine are left as they were.''',
      ['inputs'], 'every scene script, arbitrary sizes, densities, placements and body frames', 'scene tests only look at the number of bodies',
      [RB + 'scenes/create_arch.py', RB + 'scenes/create_dome.py', RB + 'scenes/create_tower.py', RB + 'scenes/create_colosseum.py', RB + 'scenes/create_pantheon.py', RB + 'scenes/create_temple.py', RB + 'scenes/create_chainmail.py', RB + 'scenes/create_gear_train.py', RB + 'scenes/create_lattice.py', RB + 'scenes/create_rock_slide.py', RB + 'scenes/create_sandbox.py'], [('scene scripts', RB + 'scenes/create_arch.py'), ('stone placement', RB + 'scenes/create_lattice.py')]),
    P('R19', 'Scenes with a frame are placed as a whole by the given rigid transform',
      '''Ground, pillar, arch, dome, tower, colosseum, pantheon, lattice and jack lattice take a position and an orientation: every body then stands where the rigid transform carries the body of the same scene built at the origin, and is turned with it.''',
      ['inputs'], 'every position and orientation of the frame, arbitrary sizes', 'scene tests build at the origin without rotation',
      [RB + 'scenes/create_ground.py', RB + 'scenes/create_pillar.py', RB + 'scenes/create_arch.py', RB + 'scenes/create_dome.py', RB + 'scenes/create_tower.py', RB + 'scenes/create_colosseum.py', RB + 'scenes/create_pantheon.py', RB + 'scenes/create_lattice.py', RB + 'scenes/create_jack_lattice.py'], [('scene frames', RB + 'scenes/create_arch.py')]),
    P('R20', 'Masonry scenes consist of stones that fill the asked shape',
      '''Box stack and pillar: equal boxes one on the other from the ground, filling the asked width, height and depth. Arch: pillars and a half ring of equal angular stones. Dome and tower (stones or cubes): every layer is a full ring of equal angular stones between inner and outer radius (layers staggered as the script says), layers meet without gap. Colosseum: levels of arches in a full ring. Pantheon: tower with dome on it. Temple: mirror symmetric, each body rests on the ground or at the height of the top of another, no two bodies in the same place.''',
      ['inputs'], 'arbitrary sizes, small fixed numbers of stones and layers', 'scene tests do not look at positions',
      [RB + 'scenes/create_ground.py', RB + 'scenes/create_box_stack.py', RB + 'scenes/create_pillar.py', RB + 'scenes/create_arch.py', RB + 'scenes/create_dome.py', RB + 'scenes/create_tower.py', RB + 'scenes/create_colosseum.py', RB + 'scenes/create_pantheon.py', RB + 'scenes/create_temple.py'], [('stones', RB + 'scenes/create_dome.py'), ('temple', RB + 'scenes/create_temple.py')]),
    P('R21', 'Lattice scenes put one body in each cell, containers have the asked size',
      '''A lattice of I by J by K cells in a box has exactly one body at the centre of each cell (in the frame of the lattice), shapes follow the repeating pattern, orientations are as asked (one random draw per body, plain, or the given one), and generated pieces fit with nine tenths of the smallest cell side. Funnel, glasses, poles, sandbox and rock slide: the lattice hangs at the stated height over a container with the asked radius, height and place; poles stand on a regular grid, sandbox walls and base enclose the box, landscape and buildings keep the coordinates of their files.''',
      ['inputs'], 'arbitrary sizes and placements, small fixed numbers of cells', 'scene tests only look at the number of bodies',
      [RB + 'scenes/create_lattice.py', RB + 'scenes/create_jack_lattice.py', RB + 'scenes/create_funnel.py', RB + 'scenes/create_glasses.py', RB + 'scenes/create_poles.py', RB + 'scenes/create_sandbox.py', RB + 'scenes/create_rock_slide.py'], [('lattice', RB + 'scenes/create_lattice.py'), ('containers', RB + 'scenes/create_funnel.py')]),
    P('R22', 'Mechanism scenes: joints join the right bodies at the right place',
      '''Hinge chain: equally spaced cubes standing on edge that do not touch, one hinge between each pair of neighbours, half way between them, about z on both sides. Chain mail: one ring per grid point and one per grid edge, at their grid places for the asked radii and stretch, with axes that let neighbours pass through each other; the corner rings are fixed when asked and all others free. Gear train: pitch circles of consecutive gears are tangent, teeth meet gaps, each gear has one hinge to the single fixed body through its centre along its own rotation axis, and gears are above the ground.''',
      ['inputs'], 'arbitrary sizes and densities; 3 cubes, 2x3 rings, gears of 12, 7 and 15 teeth', 'scene tests only look at the number of bodies',
      [RB + 'scenes/create_cube_hinge_chain.py', RB + 'scenes/create_chainmail.py', RB + 'scenes/create_gear_train.py'], [('hinges', RB + 'scenes/create_cube_hinge_chain.py'), ('gears', RB + 'scenes/create_gear_train.py'), ('rings', RB + 'scenes/create_chainmail.py')]),
    P('R23', 'Choosing a scene by name builds that scene, under gravity and drag',
      '''The documented scene names are distinct and each builds its own scene: the creators belonging to the name are called once each, in the given engine, with arguments they take (whole positive counts, positive sizes, outer radii larger than inner ones, a material the engine knows, an unturned frame at the origin, the jack lattice centred over the mail). Afterwards exactly one gravity force (9.81, pulling along minus y) and one damping force (0.01, 0.01) exist and both act exactly once on every body of the engine.''',
      ['inputs'], 'every scene name', 'scene tests build three of the scenes',
      [RB + 'scenes/create_scene.py'], [('scene selection', RB + 'scenes/create_scene.py')]),
    P('R24', 'An exported scene describes the engine completely and leaves it alone',
      '''The document written by the XML export contains, once each, every body (name, index, shape, pose, velocities, mass, inertia, type, material, the forces acting on it), every force with its coefficients, every shape with all its vertices and triangles in order, every material interaction, every hinge with its bodies and its origin and axis in world coordinates, and every parameter, with the values the engine has. All attributes are text, so that the file is well formed. It is written once, to the given file; the engine is not changed.''',
      ['inputs'], 'every engine content: symbolic poses, velocities, masses, meshes, coefficients and joint frames', 'no test reads an exported file',
      [RB + 'scenes/write_xml.py'], [('export', RB + 'scenes/write_xml.py')]),
    P('R25', 'A robot read from a URDF file is assembled as the file says',
      '''Every link with a collision mesh becomes one free body at rest, named like it, with the mass and moments of inertia of the file; the reference frame of the root is the world, that of a child is the joint frame within the frame of its parent; the center of mass and the principal axes of a body are its inertial frame, its mesh is the scaled collision mesh of the file at the collision frame. Angles are roll, pitch, yaw about fixed axes. Every revolute joint becomes one hinge between parent and child through the origin of the joint frame about the normalised joint axis. Other joints and virtual links are ignored; missing origins and axes take the defaults of the format.''',
      ['inputs'], 'chains and trees of links in any order, symbolic frames, axes, scales and masses', 'no test reads a URDF file',
      [RB + 'scenes/read_urdf.py', 'rainbow/math/coordsys.py'], [('URDF import', RB + 'scenes/read_urdf.py')]),
    P('G06', 'Signed distance grids, curvature grids, hulls and lookup tables of a mesh',
      '''The distance field of a mesh spans the bounding box of its vertices widened by the given boundary, has the requested number of nodes per axis, and the value read at node (i, j, k) is the distance of that node's own coordinates to that mesh; a negative boundary is rejected. The curvature grid holds at every inner node the divergence of the normalized gradient by central differences with the spacing of each axis, bounded by the inverse of the smallest spacing, and leaves the field alone.
      A convex hull keeps the faces found, renumbered to the returned vertices, all counter clockwise seen from outside. The vertex circulator lists for every vertex exactly the tetrahedra it is a corner of. Interior sample points are the lattice points strictly inside.''',
      ['inputs'], 'every mesh, resolution and box', 'tests check one grid for success; the other parts are not tested',
      ['rainbow/geometry/grid3.py', 'rainbow/geometry/mean_curvature.py', 'rainbow/geometry/surface_mesh.py', 'rainbow/geometry/volume_mesh.py', 'rainbow/geometry/tetrahedron.py'],
      [('distance field', 'rainbow/geometry/grid3.py'), ('curvature', 'rainbow/geometry/mean_curvature.py'), ('hull', 'rainbow/geometry/surface_mesh.py'), ('circulator', 'rainbow/geometry/volume_mesh.py'), ('interior points', 'rainbow/geometry/tetrahedron.py')]),
    P('E01', 'Computations leave their arguments alone and arrays are copied at the interface',
      '''The math, geometry, material and proximal functions change none of the arrays or objects they are given (apart from the few documented to work in place: moving, rotating, scaling and sorting a mesh, sampling a grid, refitting a tree) and return arrays of their own. Functions of the rigid body, soft body and inverse kinematics interfaces change no array a caller passes, keep no reference to it (changing it afterwards does not reach the engine, nor the other way around), and hand out copies of engine state.''',
      ['inputs', 'history'], 'every input and every later use of the arrays passed in or handed out', 'a test reads the result once; sharing only shows in what happens later',
      ['rainbow/math/quaternion.py', 'rainbow/math/vector3.py', 'rainbow/geometry/surface_mesh.py', RB + 'api.py', SB + 'api.py', 'rainbow/simulators/inverse_kinematics/api.py'],
      [('math', 'rainbow/math/quaternion.py'), ('geometry', 'rainbow/geometry/volume_mesh.py'), ('rigid interface', RB + 'api.py'), ('soft interface', SB + 'api.py'), ('inverse kinematics', 'rainbow/simulators/inverse_kinematics/api.py')]),
    P('E02', 'No hidden state: results depend on the inputs only',
      '''No function of the package changes a module variable, a class, a function attribute or a value shared through a default argument, and importing or calling it leaves the state of the process (random seeds, floating point error handling, working directory, recursion limit, logging, environment) alone; engines, bodies and skeletons share nothing that is changed.
      Apart from the random vectors, names, colorings and scene decorations that are random by design, nothing reachable from the math, geometry and simulator functions draws random numbers, takes a decision by the clock, or works through names or objects in the arbitrary order of a set: the same inputs give the same results, in every process and whatever ran before.''',
      ['history', 'schedule'], 'every sequence of calls, number of engines and process', 'tests run single short histories in one process',
      [RB + 'types.py', RB + 'api.py', SB + 'types.py', SB + 'api.py', 'rainbow/simulators/inverse_kinematics/types.py', 'rainbow/geometry/kdop.py'],
      [('types', RB + 'types.py'), ('simulators', RB + 'api.py'), ('geometry', 'rainbow/geometry/kdop.py'), ('whole package', 'rainbow/math/quaternion.py')]),
    P('U01', 'USD recordings hold the bodies, meshes and motions they were given',
      '''Every rigid body and mesh added to a recording is a mesh of its own below /scene/xform, under its name, with exactly the vertices, face sizes and face indices given. Every update adds one sample, at the given time, of the translation and of the rotation (by one operation each, the rotation applied before the translation, so that the recorded transform is the rigid motion given), to that body only; every position set is a sample of that mesh only and is read back at its time. Unknown names, a second body of the same name, moving a mesh as a body and vectors of the wrong length are rejected. The time range starts at zero and ends at the duration given, and the file is written on saving only.''',
      ['inputs', 'history'], 'every sequence of additions and updates of any meshes and motions', 'tests record one body or mesh with fixed numbers',
      ['rainbow/util/USD.py'], [('recording', 'rainbow/util/USD.py')]),
    P('R26', 'Reported rigid energies and penetrations are those of the state',
      '''The kinetic energy a state reports is the sum over the free bodies of half m v.v plus half w.Iw with the inertia turned into the world; the potential energy is m times the gravity of the engine times the height along it, so that gravity is minus its slope, and nothing without gravity. Fixed bodies do not count, measuring changes nothing, the largest penetration is the depth of the deepest contact and zero without one.
      Every step that is profiled adds one record with its time step, its number of contacts and the energies of the bodies as the step left them; other steps add none.''',
      ['inputs', 'histories'], 'every state, with and without gravity', 'energies are monitoring output that tests never read',
      [RB + 'state_storage.py', RB + 'steppers.py', RB + 'constraints/contacts.py'], [('energies', RB + 'state_storage.py'), ('records', RB + 'steppers.py'), ('penetration', RB + 'constraints/contacts.py')]),
]
NA = P
NOT_APPLICABLE = [
    (P('N01', 'Contact solvers converge to the accuracy that was asked for',
       '''Given enough iterations the rigid and soft body contact solvers reach the absolute or relative tolerance of the engine for every solvable contact
       problem, and the returned impulses solve the complementarity problem up to this tolerance.''',
       ['inputs', 'histories'], 'every contact problem', 'tests solve a handful of problems',
       [RB + 'gauss_seidel_solver.py', PX + 'solver_interface.py'], [('solver loops', RB + 'gauss_seidel_solver.py')]),
     'convergence is a quantitative property of an iteration over run-time matrices (the schemes are known to diverge for some inputs); no static argument in reach bounds it. What is static - the update of a sweep, acceptance only of improving iterates, the returned iterate - is claimed in R06, R07, P01, P02'),
    (P('N02', 'Energy, momentum and volume drift of long simulations stays bounded',
       '''Over any simulated history total energy does not grow without external work, momentum of isolated bodies is conserved up to rounding,
       penetration and hinge errors stay bounded and soft elements do not invert.''',
       ['histories'], 'every scene and every history of steps', 'tests run a few steps',
       [RB + 'steppers.py', SB + 'solver.py'], [('time stepping', RB + 'steppers.py')]),
     'stability over histories depends on step size, stiffness and contact events at run time; the per-step laws (semi-implicit Euler, equal and opposite impulses, drift correction towards zero) are claimed in R02, R03, R05, S02, S05'),
    (P('N03', 'Results are accurate in floating point, also close to degenerate inputs',
       '''Mass properties, barycentric coordinates, quaternion extraction, polar decomposition, ellipsoid projection and distance fields are accurate to a small multiple
       of the machine precision also for nearly degenerate triangles, tetrahedra, rotations and cones.''',
       ['inputs'], 'every floating point input', 'tests use well conditioned inputs',
       [MQ, 'rainbow/geometry/barycentric.py', 'rainbow/geometry/grid3.py', PX + 'proximal_operators.py'], [('quaternion extraction', MQ)]),
     'rounding of chains of library calls (LAPACK, igl) is outside of a real-arithmetic value analysis; the exact-arithmetic laws are claimed in M01-M08, R17, G04, P02'),
]
