# What each property's check decides, against which oracle, within which bounds. Used for the evidence files (props.py)
# and for the per-property part of DESIGN.md (tools/mkdesign.py).
B = {
"P01": dict(how="Each material is created through the component factory and sampled with symbolic random numbers at a symbolic surface. weight == f/p is an identity; that p is the density of the sampler is the identity p^2 |dw/du0 x dw/du1|^2 == 1 with the exact symbolic derivatives of the sampled direction (vp_diff), with the cosine measure handled exactly. Reciprocity, one-sidedness, lobe probabilities and texture look-up are direct assertions.",
  oracle="the material's own eval/pdf pair, Lambert and GGX formulas written out in the harness, and the change-of-variables formula",
  bounds="wi, wo arbitrary unit vectors (any_wo entries) or any wo against a rational set of wi; colours arbitrary; GGX: roughness any value in [0.01, 2] isotropic, (0.5, 0.25) and swapped anisotropic, incidences normal / oblique rational for the density identity (any incidence for weight and one-sidedness; oblique density with any roughness only in the thorough tier); mixtures of two and three materials with arbitrary weights; OBJ mixture with and without alpha texture, arbitrary texture coordinates",
  outside="rounding (grazing angles within 1e-6), glossy Monte-Carlo importance quality, textures other than symbolic constant/2x2 ones"),
"P02": dict(how="Specular lobes are executed with arbitrary unit wi, arbitrary index of refraction, both sides of the surface and both transport directions; Snell, Fresnel, reversibility and total reflection are polynomial (in)equalities over the square-root atoms the code itself creates.",
  oracle="reflection, Snell and Fresnel laws written independently in the harness", bounds="Ni in (1, 4], any wi, any random number, TransDirection both, eval_delta both", outside="Ni <= 1, exactly grazing incidence within 1e-6, roughness"),
"P03": dict(how="sample_* functions are run on symbolic random numbers and a symbolic transform; weight == Le/pdf, and pdf against the Jacobian of the sampler (area: derivatives of the transformed point; environments: solid-angle derivatives; disks: derivatives of the ray origin).",
  oracle="change of variables, emitted radiance as given, texel of a direction recomputed from spherical coordinates",
  bounds="area lights: two triangles of symbolic size, under identity / symbolic uniform and non-uniform scale / rotation / translation; point and directional: arbitrary positions and unit directions, scene bounds symbolic; environment images 2x2 and 1x4 (height 1) of symbolic values, rotation from a list", outside="larger meshes and images, degenerate triangles"),
"P04": dict(how="lm::path functions are run on a real scene::default holding probe components (a light, camera, material, medium that return symbolic values and record their arguments), so every factor, its order, its transform and every flag that is passed on is visible in the result.",
  oracle="the definition contribution/density written with the probes' values", bounds="1-3 lights under arbitrary translation and listed rotations/scales, symbolic selection number, arbitrary shading/geometric normals, arbitrary probe values, with and without medium", outside="more than 3 lights; interaction of more than one medium (the library supports one)"),
"P05": dict(how="camera::pinhole is created from look-at and from matrix parameters; primary_ray / raster_position round trip, frustum, importance, Jacobian of the image sampling and the view/projection matrices are identities in the raster coordinates, aspect and position.",
  oracle="pinhole geometry, change of variables", bounds="any raster position, any positive aspect, any field of view in (0, 180), any position, orientations from a list of rational frames given as look-at or matrix, change of aspect after creation", outside="orientations outside the list, degenerate frames"),
"P06": dict(how="Scene graphs are built through the public interface with symbolic transforms; visited transforms are compared with the product along each occurrence; every subset of assets is offered to create_primitive_node; bounds, light lists, environment and hits are compared before and after build, rebuild, reset.",
  oracle="matrix products and bounds computed in the harness over a list of what was inserted", bounds="graphs up to depth 3 / 6 nodes incl. shared nodes, affine transforms with symbolic entries, all combinations of asset kinds, models with nested groups, 1-3 lights", outside="unbounded graphs; cycles (not representable through the interface)"),
"P07": dict(how="Direct execution of the math, distribution, bound, frame and measure functions on symbolic arguments. Ray/bound tests for axis-parallel rays, where exact reals would hide infinities and NaN, run in bit-precise floating point (mode F, cvc5/z3 FP theory).",
  oracle="definitions (normalised weights, inverse CDF, orthonormality, Jacobians, set membership of points of the range)", bounds="Dist up to 4 weights, Dist2 up to 2x2, arbitrary non-negative weights incl. zero rows; arbitrary unit normals; arbitrary boxes and rays; FP entries: all doubles in a bounded range", outside="rounding in the R-mode entries, larger distributions"),
"P08": dict(how="Media are run with the random generator replaced by symbolic numbers; log/exp stay function atoms, so free-flight distances are compared symbolically. Tracking loops are unrolled; a path that would need more collisions ends at the bound and is excluded by assumption.",
  oracle="exponential free flight, majorant tracking definition, box overlap", bounds="distance sampling up to 2 tentative collisions, transmittance up to 3; ray origin within 1e6, any direction for homogeneous; volumes arbitrary parameters; HG |g| in [0.001, 0.999]; for |g| below 1e-3 the code is isotropic", outside="convergence of tracking after more collisions; OpenVDB plugin (not built here)"),
"P09": dict(how="accel::sahbvh is built and queried. Geometry entries: one arbitrary triangle, or several fixed triangles with an arbitrary ray, compared with the exhaustive search over all triangles (Moeller-Trumbore in the harness). Construction entries: worker threads are interpreted in one symbolic executor; every schedule within the preemption bound is a path, data races are found with vector clocks on every non-atomic access, and the finished tree must answer as the exhaustive search.",
  oracle="exhaustive search", bounds="1 arbitrary triangle; up to 4 (thorough: 5) fixed triangles x any ray and range; 2 threads x <=3 triangles x 2 preemptions, 3 threads x 1 preemption; 112 nested triangles for the traversal stack", outside="larger trees for arbitrary rays, weak-memory reorderings beyond data-race freedom, triangles below the code's absolute determinant threshold (recorded under suspected defects)"),
"P10": dict(how="The OpenMP runtime entry points that the compiled loop calls (__kmpc_*) are modelled on the executor's threads, so that the real loop bodies run under symbolic schedules; mapping of indices to pixels and samples is decided for symbolic 64-bit indices; time-based schedulers run against an arbitrary non-decreasing clock.",
  oracle="multiset of executed indices; counters kept by the probe body", bounds="<=2 threads x <=3 iterations x 2 preemptions, 3 threads x 1 preemption; any image size/spp for the index mapping; <=3 passes for timed schedulers", outside="more threads/iterations; chunking decisions of a different OpenMP runtime (the model hands out iterations in any order)"),
"P11": dict(how="Film and texture operations with symbolic pixel values; concurrent splat/update/set run under all schedules (as P10). Saved files are read back from the in-memory file model byte by byte; stb/PNG writers are modelled as recording their arguments.",
  oracle="a plain array kept in the harness; the file format definitions", bounds="films up to 3x2, textures up to 3x2 with 1-4 channels, 2 threads x 2 preemptions, 3 threads x 1", outside="image codecs (stb), float-to-byte conversion of NaN/huge values (see suspected defects)"),
"P12": dict(how="An asset group with the component is saved with the real cereal archives to the in-memory file and loaded under another name; every query of the copy is compared with the original for symbolic parameter values.",
  oracle="the original component", bounds="every component type of the library; one instance (two for containers), symbolic numeric parameters, optional parts present and absent", outside="archives written by other versions or other machines, corrupted files"),
"P13": dict(how="Sequences of load / replace / failing load / look-up are run against the real asset group, factory and scene; use of a released instance is a memory error of the executor (lifetime of every object is tracked), stale values show in queries with symbolic parameters.",
  oracle="the component last loaded under the name", bounds="nesting up to 3 groups, every component type holding references, one replacement per reference kind and position (mixtures and multi-volumes of three parts, primitives in nested groups), failing construct at any point of the listed assets; names: symbolic bytes up to 3 characters", outside="plugins loaded from shared libraries; Python-side components"),
"P14": dict(how="OBJ and MTL text is assembled with symbolic numbers (number text is an uninterpreted token that the modelled atof/atoi give back exactly), symbolic integers as indices, and raw symbolic bytes; the loader, meshes and model are the real code.",
  oracle="the attributes, indices and material parameters written into the text", bounds="files up to a dozen lines; indices any int in [-100000, 100000]; two arbitrary bytes at each of four places; names up to 1000, lines up to 4097 characters; all four index forms, spacing, CRLF; interpolation at any barycentric position", outside="decimal conversion of libc, polygons with more than four corners (the loader keeps the first four), tinyobj loader plugin"),
"P15": dict(how="The renderers run over a scene whose path-level behaviour comes from probe components with arbitrary values, densities, visibility, specularity and roulette numbers; the film probe records every contribution and its raster position and the total is compared with the sum over vertices.",
  oracle="throughput sums written over the recorded walk", bounds="walks of up to 4 vertices, one sample per pixel, one or two lights (finite, unhittable, environment), with and without medium", outside="longer walks; statistical convergence; the thread-local generator's seeding"),
"P16": dict(how="For a fixed symbolic path every (s,t) strategy is driven to sample exactly that path by the probe components; the sum of density times recorded contribution is compared with the measurement contribution.",
  oracle="measurement contribution, density and balance heuristic written from the path definition in the harness", bounds="paths of 2-5 vertices, area/point/environment/directional light, every pattern of specular vertices, arbitrary positive densities and values", outside="longer paths; media (bdpt ignores them)"),
"P17": dict(how="The real progress contexts, context singletons, schedulers and poll function run with recording listeners; totals, counts and times are symbolic, the clock is moved only by the harness, and the order of calls, shape of the listener tree, waits around the delay and failures are choices of the executor.",
  oracle="the list of calls made, filtered by the delay rule", bounds="three calls in any order of five kinds; up to three listeners, nested once; delays and waits around 0, 1, 40 and 1000 ms; schedulers with up to four samples and a failure in the first or second", outside="the text the default progress display and the logger print (formatting of numbers); concurrent reports"),
}
