M = "src/material/material_"
HARNESS = {
 "mat": dict(src=[M + x + ".cpp" for x in ("diffuse", "glossy", "glass", "mask", "mirror", "mixture", "proxy")] + ["src/component.cpp", "src/model/model_wavefrontobj.cpp"], undef=["_ZN2lm9objloader4loadERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERNS0_18OBJSurfaceGeometryERKSt8functionIFbRKSt6vectorINS0_20OBJMeshFaceIndexE"]),
 "light": dict(src=["src/light/light_%s.cpp" % x for x in ("area", "point", "directional", "env", "envconst")] + ["src/component.cpp"]),
 "camera": dict(src=["src/camera/camera_pinhole.cpp", "src/component.cpp"]),
 "math": dict(src=["src/component.cpp"]),
 "media": dict(src=["src/component.cpp", "src/medium/medium_homogeneous.cpp", "src/medium/medium_heterogeneous.cpp", "src/phase/phase_hg.cpp", "src/phase/phase_isotropic.cpp"] + ["src/volume/volume_%s.cpp" % x for x in ("checker", "constant", "gaussian", "multi", "sphere")]),
 "par": dict(src=["src/component.cpp", "src/parallel/parallel.cpp", "src/parallel/parallel_openmp.cpp", "src/scheduler.cpp", "src/film/film_bitmap.cpp"], flags=["-fopenmp"], threads=True),
 "image": dict(src=["src/component.cpp", "src/parallel/parallel.cpp", "src/parallel/parallel_openmp.cpp", "src/film/film_bitmap.cpp", "src/texture/texture_bitmap.cpp", "src/texture/texture_constant.cpp"], flags=["-fopenmp"], threads=True),
 "accel": dict(src=["src/component.cpp", "src/scene.cpp", "src/accel/accel_sahbvh.cpp"], threads=True),
 "serial": dict(src=["src/component.cpp", "src/assetgroup.cpp", "src/scene.cpp", "src/accel/accel_sahbvh.cpp", "src/camera/camera_pinhole.cpp", "src/film/film_bitmap.cpp", "src/mesh/mesh_raw.cpp", "src/texture/texture_constant.cpp", "src/medium/medium_homogeneous.cpp", "src/medium/medium_heterogeneous.cpp", "src/phase/phase_hg.cpp", "src/phase/phase_isotropic.cpp", "src/user.cpp", "src/scheduler.cpp", "src/parallel/parallel.cpp", "src/parallel/parallel_openmp.cpp"] + ["src/renderer/renderer_%s.cpp" % x for x in ("pt", "lt", "volpt", "bdpt", "bdptopt", "raycast", "blank")] + [M + x + ".cpp" for x in ("diffuse", "glossy", "glass", "mask", "mirror", "mixture", "proxy")] + ["src/light/light_%s.cpp" % x for x in ("area", "point", "directional", "env", "envconst")] + ["src/volume/volume_%s.cpp" % x for x in ("checker", "constant", "gaussian", "multi", "sphere")], flags=["-fopenmp"], threads=True, undef=["_ZN2lm9objloader", "_ZN2lm7version"]),
 "scene": dict(src=["src/scene.cpp", "src/component.cpp"]),
}
HARNESS["asset"] = dict(HARNESS["serial"])
HARNESS["obj"] = dict(src=["src/component.cpp", "src/assetgroup.cpp", "src/objloader/objloader.cpp", "src/objloader/objloader_simple.cpp", "src/mesh/mesh_raw.cpp", "src/mesh/mesh_wavefrontobj.cpp", "src/model/model_wavefrontobj.cpp", "src/light/light_area.cpp"] + [M + x + ".cpp" for x in ("diffuse", "glossy", "glass", "mask", "mirror", "proxy")])
HARNESS["render"] = dict(src=["src/component.cpp", "src/scene.cpp"] + ["src/renderer/renderer_%s.cpp" % x for x in ("pt", "lt", "volpt", "bdpt", "bdptopt", "raycast", "blank")])
HARNESS["bidir"] = dict(HARNESS["render"])
HARNESS["notify"] = dict(src=["src/component.cpp", "src/progress.cpp", "src/debug.cpp", "src/parallel/parallel.cpp", "src/parallel/parallel_openmp.cpp", "src/scheduler.cpp"], flags=["-fopenmp"], threads=True)
def E(h, names, **k): return [dict(h=h, name=n, **k) for n in names.split()]
PROPS = {
 "P01": dict(entries=E("mat", "diffuse diffuse_any_wo diffuse_density diffuse_textured glossy glossy_rough glossy_oblique glossy_density_any_roughness glossy_any_wo glossy_reciprocal mixture_rr mixture_marginalized proxy objmix_components objmix_surface glossy_anisotropic glossy_density")
   + E("mat", "glossy_density_oblique", thorough=True, opts={"budget": 300}), bounds=""),
 "P02": dict(entries=E("mat", "specular_reflection glass_components glass_reversible glass_total_reflection"), bounds=""),
 "P03": dict(entries=E("light", "area_position area_position_scaled area_position_nonuniform area_ray area_direction area_direct point point_direct directional directional_direct envconst envconst_direct env_direct env_wide env_ray"), bounds=""),
 "P05": dict(entries=E("camera", "primary_ray raster_round_trip outside_frustum camera_sampling set_aspect camera_direct view_projection"), bounds=""),
 "P04": dict(entries=E("scene", "light_selection path_primary_light path_position_light path_direct_light path_camera path_surface path_medium path_distance path_transmittance"), bounds=""),
 "P06": dict(entries=E("scene", "graph_transforms primitive_validation scene_bound scene_rebuild shared_light bad_parent scene_intersect models"), bounds=""),
 "P07": dict(entries=E("math", "dist dist2 dist2_edge frames warps small_functions barycentric normal_of_triangle bound_ray bound_ops transform geometry_term projected_density") + E("math", "bound_axis_x bound_axis_y bound_axis_z bound_in_plane", mode="F"), bounds=""),
 "P08": dict(entries=E("media", "homogeneous homogeneous_unbounded heterogeneous_sample heterogeneous_transmittance isotropic hg_sampling hg_any_direction volume_constant volume_checker volume_sphere volume_gaussian volume_gaussian_bound volume_multi"), bounds=""),
 "P10": dict(entries=E("par", "foreach_once foreach_once3 foreach_exception foreach_exception_twice foreach_progress main_thread num_threads spp_sample_mapping spp_sample_threads spi_sample spp_time spi_time"), bounds=""),
 "P11": dict(entries=E("image", "film_pixels film_rescale film_accum film_raster film_average film_concurrent_splat film_concurrent_splat3 film_concurrent_update film_concurrent_set film_save_float film_save_png film_save_unknown texture_rgb texture_rgba texture_gray texture_texels texture_missing texture_constant"), bounds=""),
 "P09": dict(entries=E("accel", "closest_hit4 every_hit_found closest_hit", opts={"budget": 250}) + E("accel", "hit_is_on_triangle every_hit_found_scaled closest_hit4x instances concurrent_build concurrent_build3 rebuild empty_scene deep_tree") + E("accel", "closest_hit5", thorough=True), bounds=""),
 "P12": dict(entries=E("serial", "textures material_diffuse material_diffuse_textured material_glossy material_specular material_mixtures material_proxy phases volume_constant volume_checker volume_shapes volume_multi medium_homogeneous medium_heterogeneous camera mesh_raw film light_point light_directional light_envconst light_area light_env scene outer_reference renderers schedulers state") + E("image", "texture_saved") + E("obj", "saved_mesh saved_model") + E("render", "saved_pt saved_lt saved_volpt saved_roulette saved_raycast saved_blank") + E("bidir", "saved_bidir"), bounds=""),
 "P13": dict(entries=E("asset", "invalid_names valid_names locators failed_load failed_load_serialized replace_generic replace_inside_group replace_subtree replace_material replace_medium_parts replace_scene_parts replace_mixture_part replace_volume_part replace_in_nested_groups replace_renderer_parts factory json_vectors json_values json_references bad_references") + E("serial", "reset failed_then_loaded") + E("obj", "replace_base_material"), bounds=""),
 "P14": dict(entries=E("obj", "attributes face_indices relative_indices material_assignment material_values bad_files successive_files refused_parts any_index any_bytes_face any_bytes_line any_bytes_mtl any_bytes_name long_names long_lines mesh_raw mesh_obj mesh_obj_partial model_primitives model_materials model_textures model_bad"), bounds=""),
 "P15": dict(entries=E("render", "pt_image_plane pt_naive pt_nee_pixel pt_nee_image pt_mis_pixel pt_mis_image pt_failed_samples pt_unhittable_light lt volpt_naive volpt_nee volpt_nee_medium volpt_image_plane roulette_pt roulette_lt roulette_volpt_naive roulette_volpt raycast blank not_renderable", opts={"budget": 250}), bounds=""),
 "P16": dict(entries=E("bidir", "bdpt2 bdptopt2 bdpt3 bdptopt3 bdpt4_area bdpt4_other bdptopt4_area bdptopt4_other bdpt5 bdptopt5 pt_naive_path pt_nee_path lt_nee_path path_length_limits path_functions subpaths connections"), bounds=""),
 "P17": dict(entries=E("notify", "mux delay unknown_listener scheduler_reports scoped_reports contexts poll"), bounds=""),
}
from bounds import B as _B
for _p in PROPS: PROPS[_p].update(bounds=_B[_p]["bounds"], outside=_B[_p]["outside"])
