PR.append(P("P01", "Scattering samples are unbiased against the BSDF's own value and density",
 "For every non-specular material (diffuse, glossy, mixtures of materials, proxies, OBJ-MTL materials), a direction drawn by sampling carries a weight equal to the material's evaluated value divided by its reported density for that direction, and the reported density is the true density of the sampler. Evaluation and density are zero across the surface for reflective materials, diffuse and glossy reflection are reciprocal, and drawing a lobe returns a weight of one over the lobe's reported probability. Textured parameters are looked up at the shading point.",
 ["inputs", "configurations"], "all incoming directions, surface normals, random numbers, material parameters (in bounds) and both transport directions",
 "A wrong weight or density only biases the image statistically; the repository's tests render few pixels and cannot see a mismatch confined to certain directions, lobes or parameter combinations.",
 [S + "material/material_diffuse.cpp", S + "material/material_glossy.cpp", S + "material/material_mixture.cpp", S + "material/material_proxy.cpp", S + "model/model_wavefrontobj.cpp", "include/lm/material.h", "include/lm/math.h"],
 [("sample_direction/pdf_direction/eval contract", "include/lm/material.h"), ("GGX normal sampling and density", S + "material/material_glossy.cpp"), ("lobe selection", S + "material/material_mixture.cpp"), ("lobe selection of OBJ materials", S + "model/model_wavefrontobj.cpp")]))
PR.append(P("P02", "Specular scattering obeys reflection, Snell and Fresnel laws",
 "Mirrors reflect about the normal, masks pass light straight through, and glass either reflects or refracts with lobe probabilities that sum to one, the refracted direction satisfying Snell's law and the refraction being reversible with the same Fresnel factor. Beyond the critical angle glass only reflects. Specular lobes carry weight equal to their value over their density, scale radiance by the squared relative index only when transporting radiance, and report zero value and zero density when asked to evaluate delta distributions explicitly.",
 ["inputs", "configurations"], "all unit directions and normals, random numbers, refractive indices in (1,4], both transport directions",
 "The laws must hold at every angle including grazing and critical incidence; tests sample none of them.",
 [S + "material/material_glass.cpp", S + "material/material_mirror.cpp", S + "material/material_mask.cpp", "include/lm/math.h"],
 [("refraction, total reflection, Fresnel", S + "material/material_glass.cpp"), ("reflection", S + "material/material_mirror.cpp")]))
PR.append(P("P03", "Light sources sample rays, points and directions with the density they report",
 "For area, point, directional, constant and image environment lights, every sampled ray, position, direction or direct connection carries a weight equal to emitted radiance over the density that the light reports for the sampled outcome, and that density is the true density of the sampler, including under transforms of the light. Area lights pick points uniformly by area on the transformed surface and emit only from the front; distant lights start rays outside the scene on a disk covering it. Environment images return the texel of the sampled direction and choose texels with the normalised density they report.",
 ["inputs", "configurations"], "all random numbers, emission values, triangle sizes, reference points and normals, scene bounds, and the listed families of transforms",
 "Unit tests do not cover lights at all and rendering comparisons cannot separate a biased light density from noise.",
 [S + "light/light_area.cpp", S + "light/light_point.cpp", S + "light/light_directional.cpp", S + "light/light_env.cpp", S + "light/light_envconst.cpp", "include/lm/light.h", "include/lm/math.h"],
 [("triangle selection and area-density conversion", S + "light/light_area.cpp"), ("disk placement of distant rays", S + "light/light_directional.cpp"), ("texel distribution", S + "light/light_env.cpp")]))
PR.append(P("P04", "Path sampling layer combines emitters, scattering and visibility correctly",
 "The scene-level path functions (primary rays, positions, directions, components, direct connections, distances, transmittance) give every sample a weight equal to contribution over the density the matching pdf function reports. With several lights each is chosen with equal probability by its own random number, the selection probability is part of the density, and every light is used with its own global transform. Surface scattering is corrected for shading normals (importance only, no light leaking through), delta evaluation and transport direction are passed through. The shadow ray runs between the two points without touching its ends, visibility is symmetric, an absent medium means vacuum, and media are integrated exactly up to the hit.",
 ["inputs", "configurations"], "all random numbers, emissions, densities, directions, shading frames and light placements, scenes with one to three lights, with and without medium",
 "A forgotten selection probability or correction factor changes brightness only for some scene compositions and is invisible to unit tests; the repository tests none of these functions.",
 ["include/lm/path.h", S + "scene.cpp", "include/lm/surface.h", "include/lm/scene.h"],
 [("sample/pdf/eval families", "include/lm/path.h"), ("light selection and visibility", S + "scene.cpp"), ("shading normal correction", "include/lm/surface.h")]))
PR.append(P("P05", "Pinhole camera: rays, raster positions, importance and matrices agree",
 "The ray of a raster position maps back to the same raster position, and directions outside the view frustum have none and zero importance. Sampled camera rays, positions, directions and direct connections carry a weight equal to importance over the density reported, and that density is the true density of uniform sampling of the image. The view and projection matrices project a point seen along a primary ray to that ray's raster position. All of this holds for the look-at and the matrix form of the parameters and after the aspect ratio changes.",
 ["inputs", "configurations"], "all raster positions, directions, fields of view, aspect ratios, camera positions and look-at frames within the bounds",
 "Tests fix one camera; a density or projection error only shows for other fields of view, aspect ratios or camera placements.",
 [S + "camera/camera_pinhole.cpp", "include/lm/camera.h"],
 [("primary ray and raster position", S + "camera/camera_pinhole.cpp"), ("view and projection matrices", S + "camera/camera_pinhole.cpp")]))
PR.append(P("P06", "Scene graph: transforms, node registration and intersections are consistent",
 "Traversal visits every occurrence of a node once with the product of the transforms of the groups above it. A primitive node is accepted exactly for valid combinations of assets (mesh with material, not both camera and light, at most one environment light) and a rejected one leaves the scene unchanged; camera, environment light and medium nodes are the ones registered. Building collects every light with its global transform and gives all lights the tight bound of all transformed geometry; rebuilding and resetting leave nothing stale. A hit is mapped to world space by the transform of the hit instance with unit normals perpendicular to the transformed surface; only rays without an upper limit see the environment. Models are inserted with correctly renumbered nodes.",
 ["inputs", "configurations", "histories"], "all affine transforms, mesh vertices, rays and hits; all combinations of node assets; graphs of up to six nodes with shared subgraphs",
 "The error cases and shared or nested transforms form a combinatorial space; tests cover a few fixed scenes.",
 [S + "scene.cpp", "include/lm/scenenode.h", "include/lm/scene.h", "include/lm/math.h"],
 [("node creation and validation", S + "scene.cpp"), ("traversal and build", S + "scene.cpp"), ("intersection mapping", S + "scene.cpp")]))
PR.append(P("P07", "Numeric building blocks: distributions, frames, warps, bounds, measures",
 "Discrete one- and two-dimensional distributions report probabilities proportional to the weights, sum to one, sample by inverting their cumulative function, never return an entry of zero weight and stay finite with rows of zero weight. The tangent frame of any normal is orthonormal and right handed. The sphere, disk and cosine warps have the densities they claim. Balance-heuristic weights sum to one. A ray hits a bound exactly when a point of its range lies inside and the returned range is exact; merging bounds is tight. Normal matrices are inverse transposes, the geometry term is symmetric and follows its definition for surface points, degenerate points and points at infinity, and density conversions match.",
 ["inputs"], "all real weights, vectors, normals, matrices and random numbers; distributions of up to four entries and two by two cells; rays without zero direction components (real arithmetic) and, bit-precisely, axis-parallel rays from the origin",
 "These identities must hold on a continuum of inputs including signs and degenerate rows; a few samples cannot establish them.",
 ["include/lm/math.h", "include/lm/surface.h"],
 [("Dist and Dist2", "include/lm/math.h"), ("Bound::isect_range", "include/lm/math.h"), ("geometry term and conversions", "include/lm/surface.h")]))
PR.append(P("P08", "Participating media, phase functions and volumes are unbiased and bounded",
 "In a homogeneous medium transmittance is exponential in the overlap of the ray with the medium, and a sampled distance scatters exactly when the exponential free flight ends inside the overlap, with the albedo as weight. In a heterogeneous medium tracking advances with the majorant, collides with probability density over majorant, returns the albedo at the collision point, and transmittance is the product of the null-collision probabilities. Outside the medium nothing happens. Phase functions sample the density they report, which equals their value. Volumes never exceed their reported maximum, contain their support in their bound, and combined volumes add densities and average albedos by density.",
 ["inputs", "configurations"], "all rays of the listed directions, boxes, densities and random numbers; up to two (sampling) or three (transmittance) tentative collisions; asymmetry |g| in [0.001,0.999] or 0",
 "Tracking errors only bias noisy images; no test evaluates a medium, phase function or volume.",
 [S + "medium/medium_homogeneous.cpp", S + "medium/medium_heterogeneous.cpp", S + "phase/phase_hg.cpp", S + "phase/phase_isotropic.cpp", S + "volume/volume_multi.cpp", S + "volume/volume_sphere.cpp", S + "volume/volume_gaussian.cpp", S + "volume/volume_constant.cpp", S + "volume/volume_checker.cpp"],
 [("delta and ratio tracking", S + "medium/medium_heterogeneous.cpp"), ("closed-form free flight", S + "medium/medium_homogeneous.cpp"), ("Henyey-Greenstein sampling", S + "phase/phase_hg.cpp")]))
PR.append(P("P10", "Parallel loop and schedulers run every sample exactly once under any schedule",
 "The parallel loop calls the body once for every index, with a thread id below the number of threads, under every interleaving of the worker threads and without data races. An exception thrown by any iteration reaches the caller and the loop can be used again; reported progress never decreases and never exceeds the size of the loop. The sample-based schedulers map loop indices one-to-one to (pixel, sample) pairs covering every pixel with every sample index, and return the number of samples taken; the time-based ones run complete passes with consecutive sample indices, stop neither before the time is used up nor run another pass after it, and return the samples actually taken.",
 ["inputs", "interleavings", "configurations"], "all schedules with up to two preemptions of one to three threads, up to four iterations, all loop indices for several film and sample counts, all render times and the listed clock steps",
 "A lost or duplicated index, a race on the loop's state or a wrong index split only shows under particular interleavings or sizes.",
 [S + "parallel/parallel_openmp.cpp", S + "parallel/parallel.cpp", S + "scheduler.cpp", "include/lm/parallel.h", "include/lm/scheduler.h"],
 [("parallel loop, exception capture, progress", S + "parallel/parallel_openmp.cpp"), ("index to pixel and sample", S + "scheduler.cpp")]))
PR.append(P("P11", "Film and textures keep every pixel value, also under concurrent updates",
 "Setting, splatting, updating, averaging, rescaling, clearing and accumulating change exactly the addressed pixels to the specified values, and the buffer exposes them row by row. Concurrent splats and updates from several threads lose nothing and never tear a value. Raster positions map to the pixel that contains them, clamped to the film. Saved images contain every pixel at its place (PFM bottom row first, HDR and gamma-encoded PNG top row first), and failures and unknown formats are reported. Bitmap textures return the texel that contains the coordinates with wrap-around, for any number of channels, with alpha only if the image has it; a missing image is refused.",
 ["inputs", "interleavings", "configurations"], "all colours and scale factors, all pixels of films up to 3x2, all raster and texture coordinates within two periods, one to four channels, all schedules with up to two preemptions of two or three threads",
 "Lost updates need a particular interleaving; layout and wrap-around errors need non-square images and coordinates outside the unit square.",
 [S + "film/film_bitmap.cpp", S + "texture/texture_bitmap.cpp", S + "texture/texture_constant.cpp", "include/lm/film.h", "include/lm/texture.h"],
 [("atomic pixel updates", S + "film/film_bitmap.cpp"), ("raster to pixel, incremental average", "include/lm/film.h"), ("texel lookup", S + "texture/texture_bitmap.cpp")]))
PR.append(P("P09", "Ray casting finds exactly the closest triangle, however the tree was built",
 "A reported hit lies on the ray and on the reported triangle of the reported instance, inside the queried range and with the barycentric coordinates and transform of that hit; every triangle crossing within the range is found and the nearest one is returned, as an exhaustive search would. This holds for every tree the concurrent construction can produce: under every schedule of the worker threads it terminates, has no data race and keeps every triangle reachable. Rebuilding forgets old geometry, scenes without triangles are never hit, and trees of any depth are traversed safely.",
 ["inputs", "interleavings", "configurations"], "all rays of the listed directions through one arbitrary triangle, all hit points of several orientations, all origins for scenes of two to five triangles, symbolic instance offsets, all schedules with up to two preemptions of one to three build threads",
 "Missed or wrong hits depend on where the ray meets node bounds and on the interleaving of the builders; tests use one scene and one schedule.",
 [S + "accel/accel_sahbvh.cpp", "include/lm/accel.h", "include/lm/math.h", S + "scene.cpp"],
 [("parallel SAH construction", S + "accel/accel_sahbvh.cpp"), ("traversal and triangle test", S + "accel/accel_sahbvh.cpp"), ("bound test", "include/lm/math.h")]))
PR.append(P("P12", "A saved asset or state is restored unchanged",
 "Writing an asset group, or the whole state, to a file and loading it back gives components that answer every query as the originals did: materials, textures, lights, media, phase functions, volumes, camera, meshes, film, acceleration structure, scene graph, schedulers and renderers, with every parameter whatever its value and whether or not optional parts are present. References inside the saved tree point to the loaded counterparts, under the new name if there is one, never to the originals. A tree that refers to an asset outside of it is refused.",
 ["inputs", "configurations"], "all parameter values and queries of every component type shipped with the library, optional parts present or absent, trees of up to ten assets, loaded under a new name or in place",
 "A field left out of one component's save function, or a reference resolved against the wrong tree, shows only for the values and the component that use it.",
 ["include/lm/serial.h", "include/lm/serialtype.h", S + "assetgroup.cpp", S + "user.cpp", S + "scene.cpp", S + "material", S + "light", S + "medium", S + "volume", S + "phase", S + "texture", S + "mesh", S + "camera", S + "film", S + "accel", S + "renderer", S + "scheduler.cpp"],
 [("archives, owned and weak references", "include/lm/serial.h"), ("load_serialized", S + "assetgroup.cpp"), ("state save and load", S + "user.cpp"), ("per-component serialization", S)]))

PR.append(P("P13", "Assets keep their identity, and references to them never go stale",
 "Every asset is reachable by its locator, at any nesting depth, and its locator and key are those it was loaded with; locators that name nothing yield null. Names outside the allowed characters are refused. Loading under an existing name replaces that asset, and every component that referred to it or into it, including scene nodes, materials, lights, media and renderers, uses the replacement from then on and never a released instance. A load that fails reports the failure, registers nothing and leaves existing assets as they were. The component factory creates the requested implementation or returns null, and releases every instance exactly once. Properties are read as given, and missing, ill-typed or dangling references and malformed vectors are refused.",
 ["inputs", "histories"], "all parameter values, names of up to three characters with any character at any position, load and replace histories of up to ten steps over nested groups, every kind of referring component, failing constructors and failing deserialization",
 "A stale pointer left by one forgotten reference, or a half-registered asset after a failure, shows only in the particular load history and component that trigger it.",
 [S + "assetgroup.cpp", S + "component.cpp", S + "json.cpp", "include/lm/component.h", "include/lm/json.h", "include/lm/assetgroup.h", S + "scene.cpp", S + "material", S + "medium", S + "volume", S + "light", S + "renderer"],
 [("load_asset, replacement and locator lookup", S + "assetgroup.cpp"), ("weak reference update", "include/lm/component.h"), ("factory", S + "component.cpp"), ("typed property access", "include/lm/json.h")]))
PR.append(P("P14", "OBJ files and meshes give exactly the geometry and materials written",
 "Reading an OBJ file yields its positions, normals and texture coordinates in order with their values, and every triangle or quad (as two triangles) with the attributes its indices name, absolute or relative, in each of the p, p/t, p//n and p/t/n forms and whatever the spacing and line ends; each face gets the material selected last, and MTL parameters are read as written. Files that are missing, name unknown materials or libraries, or have faces that refer to missing attributes are refused; no content makes the reader touch memory out of bounds or silently drop the rest. Triangle meshes enumerate their triangles in order, and a surface point interpolates position, normal and texture coordinates with the given barycentric weights, with the geometric normal following the winding. An OBJ model gives one primitive per part with that geometry, a material of the right kind with its own texture, and a light exactly if the material emits.",
 ["inputs", "configurations"], "all attribute values, all index values, all index forms, four kinds of spacing and line ends, all sequences of four group, material and face commands, all MTL parameter values, any two bytes in four kinds of lines, names and lines around the buffer sizes",
 "Index arithmetic and parser state errors show only for the file layouts that exercise them, and out-of-range reads may stay silent.",
 [S + "objloader/objloader_simple.cpp", S + "objloader/objloader.cpp", S + "mesh/mesh_raw.cpp", S + "mesh/mesh_wavefrontobj.cpp", S + "model/model_wavefrontobj.cpp", "include/lm/objloader.h", "include/lm/mesh.h"],
 [("line parser and index resolution", S + "objloader/objloader_simple.cpp"), ("triangle access and interpolation", S + "mesh"), ("model primitives, materials, lights", S + "model/model_wavefrontobj.cpp")]))
PR.append(P("P15", "Path and light tracers add exactly the light each sampled path carries",
 "For every random walk of renderer::pt (naive, nee and mis modes; pixel and image sampling), renderer::lt, renderer::volpt and renderer::volpt_naive, what is added to the film equals the sum over the vertices of the walk of throughput times emission (hits) and of throughput times scattering value times light or camera sample weight, times medium transmittance where there is a medium (connections), each weighted so that techniques that can produce the same path sum to one, with nothing counted twice or dropped at specular vertices, blocked connections, lights that cannot be hit, the environment, or the maximum path length. Contributions go to the raster position of the primary direction, drawn uniformly from the pixel (or image); Russian roulette divides by exactly the survival probability; the film is cleared first and scaled so that the average over the samples remains. renderer::raycast and renderer::blank write the pixels they are asked to. Scenes without camera, light or primitives are refused.",
 ["inputs", "configurations"], "all values, densities and weights of emitters, cameras, scattering and media along walks of up to four vertices (eight for Russian roulette), all combinations of specular, emissive, medium and blocked vertices, all random numbers",
 "Rendering tests compare noisy images on a few scenes; a wrong weight that shows only for one combination of vertex types stays below the noise.",
 [S + "renderer/renderer_pt.cpp", S + "renderer/renderer_lt.cpp", S + "renderer/renderer_volpt.cpp", S + "renderer/renderer_raycast.cpp", S + "renderer/renderer_blank.cpp", "include/lm/path.h", "include/lm/renderer.h"],
 [("random walks and explicit connections", S + "renderer"), ("path sampling layer", "include/lm/path.h")]))
PR.append(P("P16", "Bidirectional strategies add up to the measurement contribution",
 "For every light transport path, the sum over the strategies (s light vertices, t eye vertices) that can produce it of the strategy's density times what renderer::bdpt or renderer::bdptopt adds for it equals the measurement contribution of the path, for area, point, environment and directional lights and any pattern of specular vertices; strategies that cannot produce the path add nothing, and renderer::pt_naive_path, pt_nee_path and lt_nee_path add exactly measurement contribution over density with their one strategy. lm::Path's densities, sampling weights, measurement contributions and MIS weights agree with each other for every strategy, the weights sum to one, subpaths contain the sampled vertices in order and never more than asked for, subpaths connect exactly when the connecting edge is unblocked and ends in light and camera, and only path lengths within [min_verts, max_verts] are added.",
 ["inputs", "configurations"], "all paths of two to four vertices with arbitrary edge lengths (five with fixed lengths), all values and densities of the vertices, every strategy, every pattern of specular vertices, four kinds of lights",
 "The weights of a strategy involve the densities of all others, so an error shows only as a small bias for paths with particular vertex types.",
 [S + "renderer/renderer_bdpt.cpp", S + "renderer/renderer_bdptopt.cpp", "include/lm/bidir.h", "include/lm/path.h", "include/lm/surface.h"],
 [("path densities and MIS weights", "include/lm/bidir.h"), ("cached densities of the optimized version", S + "renderer/renderer_bdptopt.cpp")]))
PR.append(P("P17", "Progress reports and global contexts reach every listener while they exist",
 "A multiplexed progress reporter passes every start, update and end on to each of its listeners once, in order and unchanged; a delayed reporter passes start and end on always and an update exactly if more than the delay has passed since the last one it passed on (or the start). Unknown listeners are refused when the reporter is set up. Every scheduler announces its true total (samples or time), reports values that never decrease and stay within it, and ends the report once, also when the rendering function throws. Using a global context (progress, parallel) before it is initialised or after it was shut down raises an exception instead of touching a missing object, and initialising it again releases the previous one. A polled debug value reaches the function registered last, once and unchanged.",
 ["inputs", "histories", "configurations"], "all totals, counts and times, all sequences of three calls of five kinds, listener trees of up to three listeners, waits around the delay, four schedulers with a failure at any of the first samples",
 "Reports depend on the moment of each call and on failures in between; tests look at one undisturbed run without delays.",
 [S + "progress.cpp", "include/lm/progress.h", S + "scheduler.cpp", S + "parallel/parallel.cpp", "include/lm/component.h", S + "debug.cpp"],
 [("multiplexed and delayed reporters", S + "progress.cpp"), ("global context instance", "include/lm/component.h"), ("reports of the schedulers", S + "scheduler.cpp")]))
