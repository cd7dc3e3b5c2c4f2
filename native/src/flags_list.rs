// generated by tools/gen_lists.py, reviewed, committed: accessor, bit of the DXF flag word
#[macro_export]
macro_rules! flag_lists { ($m:ident, $c:expr) => {
    $m!($c, dxf::entities::Face3D, [(is_first_edge_invisible, set_is_first_edge_invisible, 1, |v| v.edge_flags as i64), (is_second_edge_invisible, set_is_second_edge_invisible, 2, |v| v.edge_flags as i64), (is_third_edge_invisible, set_is_third_edge_invisible, 4, |v| v.edge_flags as i64), (is_fourth_edge_invisible, set_is_fourth_edge_invisible, 8, |v| v.edge_flags as i64)]);
    $m!($c, dxf::entities::AttributeDefinition, [(is_text_backwards, set_is_text_backwards, 2, |v| v.text_generation_flags as i64), (is_text_upside_down, set_is_text_upside_down, 4, |v| v.text_generation_flags as i64), (is_invisible, set_is_invisible, 1, |v| v.flags as i64), (is_constant, set_is_constant, 2, |v| v.flags as i64), (is_input_verification_required, set_is_input_verification_required, 4, |v| v.flags as i64), (is_attribute_present, set_is_attribute_present, 8, |v| v.flags as i64)]);
    $m!($c, dxf::entities::Attribute, [(is_invisible, set_is_invisible, 1, |v| v.flags as i64), (is_constant, set_is_constant, 2, |v| v.flags as i64), (is_input_verification_required, set_is_input_verification_required, 4, |v| v.flags as i64), (is_attribute_present, set_is_attribute_present, 8, |v| v.flags as i64), (is_text_backwards, set_is_text_backwards, 2, |v| v.text_generation_flags as i64), (is_text_upside_down, set_is_text_upside_down, 4, |v| v.text_generation_flags as i64)]);
    $m!($c, dxf::entities::Image, [(show_image, set_show_image, 1, |v| v.display_options_flags as i64), (show_image_when_not_alligned, set_show_image_when_not_alligned, 2, |v| v.display_options_flags as i64), (use_clipping_boundary, set_use_clipping_boundary, 4, |v| v.display_options_flags as i64), (use_transparency, set_use_transparency, 8, |v| v.display_options_flags as i64)]);
    $m!($c, dxf::entities::LwPolyline, [(is_closed, set_is_closed, 1, |v| v.flags as i64), (is_pline_gen, set_is_pline_gen, 128, |v| v.flags as i64)]);
    $m!($c, dxf::entities::MLine, [(has_at_least_one_vertex, set_has_at_least_one_vertex, 1, |v| v.flags as i64), (is_closed, set_is_closed, 2, |v| v.flags as i64), (suppress_start_caps, set_suppress_start_caps, 4, |v| v.flags as i64), (suppress_end_caps, set_suppress_end_caps, 8, |v| v.flags as i64)]);
    $m!($c, dxf::entities::Polyline, [(is_closed, set_is_closed, 1, |v| v.flags as i64), (curve_fit_vertices_added, set_curve_fit_vertices_added, 2, |v| v.flags as i64), (spline_fit_vertices_added, set_spline_fit_vertices_added, 4, |v| v.flags as i64), (is_3d_polyline, set_is_3d_polyline, 8, |v| v.flags as i64), (is_3d_polygon_mesh, set_is_3d_polygon_mesh, 16, |v| v.flags as i64), (is_polygon_mesh_closed_in_n_direction, set_is_polygon_mesh_closed_in_n_direction, 32, |v| v.flags as i64), (is_polyface_mesh, set_is_polyface_mesh, 64, |v| v.flags as i64), (is_line_type_pattern_generated_continuously, set_is_line_type_pattern_generated_continuously, 128, |v| v.flags as i64)]);
    $m!($c, dxf::entities::RText, [(is_expression, set_is_expression, 1, |v| v.type_flags as i64), (is_inline_mtext_sequences_enabled, set_is_inline_mtext_sequences_enabled, 2, |v| v.type_flags as i64)]);
    $m!($c, dxf::entities::Spline, [(is_closed, set_is_closed, 1, |v| v.flags as i64), (is_periodic, set_is_periodic, 2, |v| v.flags as i64), (is_rational, set_is_rational, 4, |v| v.flags as i64), (is_planar, set_is_planar, 8, |v| v.flags as i64), (is_linear, set_is_linear, 16, |v| v.flags as i64)]);
    $m!($c, dxf::entities::Text, [(is_text_backwards, set_is_text_backwards, 2, |v| v.text_generation_flags as i64), (is_text_upside_down, set_is_text_upside_down, 4, |v| v.text_generation_flags as i64)]);
    $m!($c, dxf::entities::DgnUnderlay, [(is_clipping_on, set_is_clipping_on, 1, |v| v.flags as i64), (is_underlay_on, set_is_underlay_on, 2, |v| v.flags as i64), (is_monochrome, set_is_monochrome, 4, |v| v.flags as i64), (adjust_for_background, set_adjust_for_background, 8, |v| v.flags as i64), (is_clip_inside_mode, set_is_clip_inside_mode, 16, |v| v.flags as i64)]);
    $m!($c, dxf::entities::DwfUnderlay, [(is_clipping_on, set_is_clipping_on, 1, |v| v.flags as i64), (is_underlay_on, set_is_underlay_on, 2, |v| v.flags as i64), (is_monochrome, set_is_monochrome, 4, |v| v.flags as i64), (adjust_for_background, set_adjust_for_background, 8, |v| v.flags as i64), (is_clip_inside_mode, set_is_clip_inside_mode, 16, |v| v.flags as i64)]);
    $m!($c, dxf::entities::PdfUnderlay, [(is_clipping_on, set_is_clipping_on, 1, |v| v.flags as i64), (is_underlay_on, set_is_underlay_on, 2, |v| v.flags as i64), (is_monochrome, set_is_monochrome, 4, |v| v.flags as i64), (adjust_for_background, set_adjust_for_background, 8, |v| v.flags as i64), (is_clip_inside_mode, set_is_clip_inside_mode, 16, |v| v.flags as i64)]);
    $m!($c, dxf::entities::Vertex, [(is_extra_created_by_curve_fit, set_is_extra_created_by_curve_fit, 1, |v| v.flags as i64), (is_curve_fit_tangent_defined, set_is_curve_fit_tangent_defined, 2, |v| v.flags as i64), (is_spline_vertex_created_by_spline_fitting, set_is_spline_vertex_created_by_spline_fitting, 8, |v| v.flags as i64), (is_spline_frame_control_point, set_is_spline_frame_control_point, 16, |v| v.flags as i64), (is_3d_polyline_vertex, set_is_3d_polyline_vertex, 32, |v| v.flags as i64), (is_3d_polygon_mesh, set_is_3d_polygon_mesh, 64, |v| v.flags as i64), (is_polyface_mesh_vertex, set_is_polyface_mesh_vertex, 128, |v| v.flags as i64)]);
    $m!($c, dxf::entities::Wipeout, [(show_image, set_show_image, 1, |v| v.display_options_flags as i64), (show_image_when_not_alligned, set_show_image_when_not_alligned, 2, |v| v.display_options_flags as i64), (use_clipping_boundary, set_use_clipping_boundary, 4, |v| v.display_options_flags as i64), (use_transparency, set_use_transparency, 8, |v| v.display_options_flags as i64)]);
    $m!($c, dxf::objects::DimensionAssoc, [(is_first_point_reference, set_is_first_point_reference, 1, |v| v.associativity_flags as i64), (is_second_point_reference, set_is_second_point_reference, 2, |v| v.associativity_flags as i64), (is_third_point_reference, set_is_third_point_reference, 4, |v| v.associativity_flags as i64), (is_fourth_point_reference, set_is_fourth_point_reference, 8, |v| v.associativity_flags as i64)]);
    $m!($c, dxf::objects::Layout, [(is_ps_lt_scale, set_is_ps_lt_scale, 1, |v| v.layout_flags as i64), (is_lim_check, set_is_lim_check, 2, |v| v.layout_flags as i64)]);
    $m!($c, dxf::objects::MLineStyle, [(fill_on, set_fill_on, 1, |v| v.__flags as i64), (display_miters, set_display_miters, 2, |v| v.__flags as i64), (start_square_end_cap, set_start_square_end_cap, 16, |v| v.__flags as i64), (start_inner_arcs_cap, set_start_inner_arcs_cap, 32, |v| v.__flags as i64), (start_round_cap, set_start_round_cap, 64, |v| v.__flags as i64), (end_square_cap, set_end_square_cap, 256, |v| v.__flags as i64), (end_inner_arcs_cap, set_end_inner_arcs_cap, 512, |v| v.__flags as i64), (end_round_cap, set_end_round_cap, 1024, |v| v.__flags as i64)]);
    $m!($c, dxf::objects::PlotSettings, [(plot_viewport_borders, set_plot_viewport_borders, 1, |v| v.plot_layout_flags as i64), (show_plot_styles, set_show_plot_styles, 2, |v| v.plot_layout_flags as i64), (plot_centered, set_plot_centered, 4, |v| v.plot_layout_flags as i64), (plot_hidden, set_plot_hidden, 8, |v| v.plot_layout_flags as i64), (use_standard_scale, set_use_standard_scale, 16, |v| v.plot_layout_flags as i64), (plot_plot_styles, set_plot_plot_styles, 32, |v| v.plot_layout_flags as i64), (scale_line_weights, set_scale_line_weights, 64, |v| v.plot_layout_flags as i64), (print_line_weights, set_print_line_weights, 128, |v| v.plot_layout_flags as i64), (draw_viewports_first, set_draw_viewports_first, 512, |v| v.plot_layout_flags as i64), (model_type, set_model_type, 1024, |v| v.plot_layout_flags as i64), (update_paper, set_update_paper, 2048, |v| v.plot_layout_flags as i64), (zoom_to_paper_on_update, set_zoom_to_paper_on_update, 4096, |v| v.plot_layout_flags as i64), (initializing, set_initializing, 8192, |v| v.plot_layout_flags as i64), (prev_plot_init, set_prev_plot_init, 16384, |v| v.plot_layout_flags as i64)]);
    $m!($c, dxf::Header, [(end_point_snap, set_end_point_snap, 1, |v| v.object_snap_flags as i64), (mid_point_snap, set_mid_point_snap, 2, |v| v.object_snap_flags as i64), (center_snap, set_center_snap, 4, |v| v.object_snap_flags as i64), (node_snap, set_node_snap, 8, |v| v.object_snap_flags as i64), (quadrant_snap, set_quadrant_snap, 16, |v| v.object_snap_flags as i64), (intersection_snap, set_intersection_snap, 32, |v| v.object_snap_flags as i64), (insertion_snap, set_insertion_snap, 64, |v| v.object_snap_flags as i64), (perpendicular_snap, set_perpendicular_snap, 128, |v| v.object_snap_flags as i64), (tangent_snap, set_tangent_snap, 256, |v| v.object_snap_flags as i64), (nearest_snap, set_nearest_snap, 512, |v| v.object_snap_flags as i64), (apparent_intersection_snap, set_apparent_intersection_snap, 2048, |v| v.object_snap_flags as i64), (extension_snap, set_extension_snap, 4096, |v| v.object_snap_flags as i64), (parallel_snap, set_parallel_snap, 8192, |v| v.object_snap_flags as i64), (sort_objects_for_object_selection, set_sort_objects_for_object_selection, 1, |v| v.object_sorting_methods_flags as i64), (sort_objects_for_object_snap, set_sort_objects_for_object_snap, 2, |v| v.object_sorting_methods_flags as i64), (sort_objects_for_redraw, set_sort_objects_for_redraw, 4, |v| v.object_sorting_methods_flags as i64), (sort_objects_for_mslide, set_sort_objects_for_mslide, 8, |v| v.object_sorting_methods_flags as i64), (sort_objects_for_regen, set_sort_objects_for_regen, 16, |v| v.object_sorting_methods_flags as i64), (sort_objects_for_plotting, set_sort_objects_for_plotting, 32, |v| v.object_sorting_methods_flags as i64), (sort_objects_for_post_script_output, set_sort_objects_for_post_script_output, 64, |v| v.object_sorting_methods_flags as i64), (no_twist, set_no_twist, 1, |v| v.loft_flags as i64), (align_direction, set_align_direction, 2, |v| v.loft_flags as i64), (simplify, set_simplify, 4, |v| v.loft_flags as i64), (close, set_close, 8, |v| v.loft_flags as i64)]);
    $m!($c, dxf::Class, [(is_erase_allowed, set_is_erase_allowed, 1, |v| v.proxy_capability_flags as i64), (is_transform_allowed, set_is_transform_allowed, 2, |v| v.proxy_capability_flags as i64), (is_color_change_allowed, set_is_color_change_allowed, 4, |v| v.proxy_capability_flags as i64), (is_layer_change_allowed, set_is_layer_change_allowed, 8, |v| v.proxy_capability_flags as i64), (is_line_type_change_allowed, set_is_line_type_change_allowed, 16, |v| v.proxy_capability_flags as i64), (is_line_type_scale_change_allowed, set_is_line_type_scale_change_allowed, 32, |v| v.proxy_capability_flags as i64), (is_visibility_change_allowed, set_is_visibility_change_allowed, 64, |v| v.proxy_capability_flags as i64), (is_clone_allowed, set_is_clone_allowed, 128, |v| v.proxy_capability_flags as i64), (is_lineweight_change_allowed, set_is_lineweight_change_allowed, 256, |v| v.proxy_capability_flags as i64), (is_plot_style_name_change_allowed, set_is_plot_style_name_change_allowed, 512, |v| v.proxy_capability_flags as i64), (is_R13_format_proxy, set_is_R13_format_proxy, 32768, |v| v.proxy_capability_flags as i64)]);
    $m!($c, dxf::Block, [(is_anonymous, set_is_anonymous, 1, |v| v.flags as i64), (has_non_consistent_attribute_definitions, set_has_non_consistent_attribute_definitions, 2, |v| v.flags as i64), (is_xref, set_is_xref, 4, |v| v.flags as i64), (is_xref_overlay, set_is_xref_overlay, 8, |v| v.flags as i64), (is_externally_dependent, set_is_externally_dependent, 16, |v| v.flags as i64), (is_referenced_external_reference, set_is_referenced_external_reference, 32, |v| v.flags as i64), (is_resolved_external_reference, set_is_resolved_external_reference, 64, |v| v.flags as i64)]);
    $m!($c, dxf::enums::ViewMode, [(is_perspective_view_active, set_is_perspective_view_active, 1, |v| v.raw() as i64), (is_front_clipping_on, set_is_front_clipping_on, 2, |v| v.raw() as i64), (is_back_clipping_on, set_is_back_clipping_on, 4, |v| v.raw() as i64), (is_ucs_follow_mode_on, set_is_ucs_follow_mode_on, 8, |v| v.raw() as i64), (is_front_clipping_at_eye, set_is_front_clipping_at_eye, 16, |v| v.raw() as i64)]);
} }
