------------------------------ MODULE ApiContent ------------------------------
(* Content streams: the operator that each method writes (Annex A, tables   *)
(* of clauses 8, 9, 14).                                                    *)
EXTENDS ApiBase

ContentOps == [
    \* graphics state (8.4.4)
    set_line_width |-> "w", set_line_cap |-> "J", set_line_join |-> "j",
    set_miter_limit |-> "M", set_dash_pattern |-> "d", set_rendering_intent |-> "ri",
    set_flatness |-> "i", set_parameters |-> "gs",
    save_state |-> "q", restore_state |-> "Q", transform |-> "cm",
    \* paths (8.5)
    move_to |-> "m", line_to |-> "l", cubic_to |-> "c", cubic_to_initial |-> "v",
    cubic_to_final |-> "y", close_path |-> "h", rect |-> "re",
    stroke |-> "S", close_and_stroke |-> "s", fill_nonzero |-> "f", fill_even_odd |-> "f*",
    fill_nonzero_and_stroke |-> "B", fill_even_odd_and_stroke |-> "B*",
    close_fill_nonzero_and_stroke |-> "b", close_fill_even_odd_and_stroke |-> "b*",
    end_path |-> "n", clip_nonzero |-> "W", clip_even_odd |-> "W*",
    \* text (9.3, 9.4)
    begin_text |-> "BT", end_text |-> "ET",
    set_char_spacing |-> "Tc", set_word_spacing |-> "Tw", set_horizontal_scaling |-> "Tz",
    set_leading |-> "TL", set_font |-> "Tf", set_text_rendering_mode |-> "Tr", set_rise |-> "Ts",
    next_line |-> "Td", next_line_and_set_leading |-> "TD", set_text_matrix |-> "Tm",
    next_line_using_leading |-> "T*",
    show |-> "Tj", next_line_show |-> "'",
    next_line_show_and_set_word_and_char_spacing |-> "\"",
    \* Type 3 fonts (9.6.4)
    start_color_glyph |-> "d0", start_shape_glyph |-> "d1",
    \* colour (8.6.8)
    set_stroke_color_space |-> "CS", set_fill_color_space |-> "cs",
    set_stroke_color |-> "SCN", set_stroke_pattern |-> "SCN",
    set_fill_color |-> "scn", set_fill_pattern |-> "scn",
    set_stroke_gray |-> "G", set_fill_gray |-> "g",
    set_stroke_rgb |-> "RG", set_fill_rgb |-> "rg",
    set_stroke_cmyk |-> "K", set_fill_cmyk |-> "k",
    \* shadings, external objects (8.7.4.2, 8.8)
    shading |-> "sh", x_object |-> "Do",
    \* marked content (14.6), compatibility (7.8.2)
    marked_content_point |-> "MP", begin_marked_content |-> "BMC", end_marked_content |-> "EMC",
    begin_compat |-> "BX", end_compat |-> "EX"]

=============================================================================
