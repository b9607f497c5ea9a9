"""Frozen field tables of the SEG-Y revision 1 headers.

Each row: name, 1-based byte position, size, minimum, maximum, permitted values (or None), default.
Reviewed by hand against the SEG-Y revision 0 and 1 layouts; nothing here is read from the code under test.
"""

BINARY_FIELDS = [
    ('job_id_num', 3201, 4, -2147483648, 2147483647, None, 0),
    ('line_num', 3205, 4, 0, 2147483647, None, 0),
    ('reel_num', 3209, 4, -2147483648, 2147483647, None, 0),
    ('data_traces_per_ensemble', 3213, 2, 0, 32767, None, 0),
    ('auxiliary_traces_per_ensemble', 3215, 2, 0, 32767, None, 0),
    ('sample_interval', 3217, 2, 0, 32767, None, 0),
    ('original_field_sample_interval', 3219, 2, 0, 32767, None, 0),
    ('num_samples', 3221, 2, 0, 32767, None, 0),
    ('original_field_num_samples', 3223, 2, 0, 32767, None, 0),
    ('data_sample_format', 3225, 2, -32768, 32767, [1, 2, 3, 5, 8], 5),
    ('ensemble_fold', 3227, 2, 0, 32767, None, 0),
    ('trace_sorting', 3229, 2, -32768, 32767, [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9], 0),
    ('vertical_sum_code', 3231, 2, 0, 32767, None, 0),
    ('sweep_frequency_at_start', 3233, 2, 0, 32767, None, 0),
    ('sweep_frequency_at_end', 3235, 2, 0, 32767, None, 0),
    ('sweep_length', 3237, 2, 0, 32767, None, 0),
    ('sweep_type', 3239, 2, -32768, 32767, [0, 1, 2, 3, 4], 0),
    ('sweep_trace_number', 3241, 2, -32768, 32767, None, 0),
    ('sweep_trace_taper_length_at_start', 3243, 2, 0, 32767, None, 0),
    ('sweep_trace_taper_length_at_end', 3245, 2, 0, 32767, None, 0),
    ('taper_type', 3247, 2, -32768, 32767, [0, 1, 2, 3], 0),
    ('correlated_data_traces', 3249, 2, -32768, 32767, [0, 1, 2], 0),
    ('binary_gain_recovered', 3251, 2, -32768, 32767, [0, 1, 2], 0),
    ('amplitude_recovery_method', 3253, 2, -32768, 32767, [0, 1, 2, 3, 4], 0),
    ('measurement_system', 3255, 2, -32768, 32767, [0, 1, 2], 0),
    ('impulse_signal_polarity', 3257, 2, -32768, 32767, [0, 1, 2], 0),
    ('vibratory_polarity_code', 3259, 2, -32768, 32767, [0, 1, 2, 3, 4, 5, 6, 7, 8], 0),
    ('format_revision_num', 3501, 2, -32768, 32767, [0, 256], 256),
    ('fixed_length_trace_flag', 3503, 2, -32768, 32767, [0, 1], 0),
    ('num_extended_textual_headers', 3505, 2, -1, 32767, None, 0),
]

TRACE_FIELDS_REV1 = [
    ('line_sequence_num', 1, 4, -2147483648, 2147483647, None, 0),
    ('file_sequence_num', 5, 4, -2147483648, 2147483647, None, 0),
    ('field_record_num', 9, 4, -2147483648, 2147483647, None, 0),
    ('trace_num', 13, 4, -2147483648, 2147483647, None, 0),
    ('energy_source_point_num', 17, 4, -2147483648, 2147483647, None, 0),
    ('ensemble_num', 21, 4, -2147483648, 2147483647, None, 0),
    ('ensemble_trace_num', 25, 4, 0, 2147483647, None, 0),
    ('trace_identification_code', 29, 2, -32768, 32767, None, 0),
    ('num_vertically_summed_traces', 31, 2, 0, 32767, None, 1),
    ('num_horizontally_stacked_traces', 33, 2, 0, 32767, None, 1),
    ('data_use', 35, 2, -32768, 32767, [1, 2], 1),
    ('doc_nreceiver_offset', 37, 4, -2147483648, 2147483647, None, 0),
    ('receiver_group_elevation', 41, 4, -2147483648, 2147483647, None, 0),
    ('surface_elevation_at_source', 45, 4, -2147483648, 2147483647, None, 0),
    ('source_depth_below_surface', 49, 4, 0, 2147483647, None, 0),
    ('datum_elevation_at_receiver_group', 53, 4, 0, 2147483647, None, 0),
    ('datum_elevation_at_source', 57, 4, -2147483648, 2147483647, None, 0),
    ('water_depth_at_source', 61, 4, -2147483648, 2147483647, None, 0),
    ('water_depth_at_group', 65, 4, -2147483648, 2147483647, None, 0),
    ('elevation_scalar', 69, 2, -32768, 32767, [-10000, -1000, -100, -10, -1, 0, 1, 10, 100, 1000, 10000], 1),
    ('xy_scalar', 71, 2, -32768, 32767, [-10000, -1000, -100, -10, -1, 0, 1, 10, 100, 1000, 10000], 1),
    ('source_x', 73, 4, -2147483648, 2147483647, None, 0),
    ('source_y', 77, 4, -2147483648, 2147483647, None, 0),
    ('group_x', 81, 4, -2147483648, 2147483647, None, 0),
    ('group_y', 85, 4, -2147483648, 2147483647, None, 0),
    ('coordinate_units', 89, 2, -32768, 32767, [0, 1, 2, 3, 4], 0),
    ('weathering_velocity', 91, 2, 0, 32767, None, 0),
    ('subweathering_velocity', 93, 2, 0, 32767, None, 0),
    ('uphole_time_at_source', 95, 2, 0, 32767, None, 0),
    ('uphole_time_at_group', 97, 2, 0, 32767, None, 0),
    ('source_static_correction', 99, 2, -32768, 32767, None, 0),
    ('group_static_correction', 101, 2, -32768, 32767, None, 0),
    ('total_static', 103, 2, -32768, 32767, None, 0),
    ('lag_time_a', 105, 2, -32768, 32767, None, 0),
    ('lag_time_b', 107, 2, -32768, 32767, None, 0),
    ('delay_recording_time', 109, 2, -32768, 32767, None, 0),
    ('mute_start_time', 111, 2, 0, 32767, None, 0),
    ('mute_end_time', 113, 2, 0, 32767, None, 0),
    ('num_samples', 115, 2, 0, 32767, None, 0),
    ('sample_interval', 117, 2, -32768, 32767, None, 0),
    ('gain_type_of_field_instruments', 119, 2, 0, 32767, None, 0),
    ('instrument_gain_constant', 121, 2, -32768, 32767, None, 0),
    ('instrument_initial_gain', 123, 2, -32768, 32767, None, 0),
    ('correlated', 125, 2, -32768, 32767, [1, 2], 1),
    ('sweep_frequency_at_start', 127, 2, 0, 32767, None, 0),
    ('sweep_frequency_at_end', 129, 2, 0, 32767, None, 0),
    ('sweep_length', 131, 2, 0, 32767, None, 0),
    ('sweep_type', 133, 2, -32768, 32767, [0, 1, 2, 3, 4], 0),
    ('sweep_trace_taper_length_at_start', 135, 2, 0, 32767, None, 0),
    ('sweep_trace_taper_length_at_end', 137, 2, 0, 32767, None, 0),
    ('taper_type', 139, 2, -32768, 32767, [0, 1, 2, 3], 0),
    ('alias_filter_frequency', 141, 2, 0, 32767, None, 0),
    ('alias_filter_slope', 143, 2, -32768, 32767, None, 0),
    ('notch_filter_frequency', 145, 2, 0, 32767, None, 0),
    ('notch_filter_slope', 147, 2, -32768, 32767, None, 0),
    ('low_cut_frequency', 149, 2, 0, 32767, None, 0),
    ('high_cut_frequency', 151, 2, 0, 32767, None, 0),
    ('low_cut_slope', 153, 2, -32768, 32767, None, 0),
    ('high_cut_slope', 155, 2, -32768, 32767, None, 0),
    ('year_recorded', 157, 2, -32768, 32767, None, 0),
    ('day_of_year', 159, 2, 0, 366, None, 0),
    ('hour_of_day', 161, 2, 0, 24, None, 0),
    ('minute_of_hour', 163, 2, 0, 60, None, 0),
    ('second_of_minute', 165, 2, 0, 60, None, 0),
    ('time_basis_code', 167, 2, -32768, 32767, [0, 1, 2, 3, 4], 0),
    ('trace_weighting_factor', 169, 2, 0, 32767, None, 0),
    ('geophone_group_num_roll_switch_position_one', 171, 2, -32768, 32767, None, 0),
    ('geophone_group_num_first_trace_original_field', 173, 2, -32768, 32767, None, 0),
    ('geophone_group_num_last_trace_original_field', 175, 2, -32768, 32767, None, 0),
    ('gap_size', 177, 2, 0, 32767, None, 0),
    ('over_travel', 179, 2, -32768, 32767, [0, 1, 2], 0),
    ('cdp_x', 181, 4, -2147483648, 2147483647, None, 0),
    ('cdp_y', 185, 4, -2147483648, 2147483647, None, 0),
    ('inline_number', 189, 4, -2147483648, 2147483647, None, 0),
    ('crossline_number', 193, 4, -2147483648, 2147483647, None, 0),
    ('shotpoint_number', 197, 4, -2147483648, 2147483647, None, 0),
    ('shotpoint_scalar', 201, 2, -32768, 32767, None, 0),
    ('trace_unit', 203, 2, -32768, 32767, [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9], 0),
    ('transduction_constant_mantissa', 205, 4, -2147483648, 2147483647, None, 0),
    ('transduction_constant_exponent', 209, 2, -32768, 32767, None, 0),
    ('transduction_units', 211, 2, -32768, 32767, [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9], 0),
    ('device_trace_identifier', 213, 2, -32768, 32767, None, 0),
    ('time_scalar', 215, 2, -32768, 32767, [-10000, -1000, -100, -10, -1, 0, 1, 10, 100, 1000, 10000], 0),
    ('source_type', 217, 2, -32768, 9, None, 0),
    ('source_energy_direction', 219, 4, -2147483648, 2147483647, None, 0),
    ('source_measurement_mantissa', 225, 4, -2147483648, 2147483647, None, 0),
    ('source_measurement_exponent', 229, 2, -32768, 32767, None, 0),
    ('source_measurement_unit', 231, 2, -32768, 32767, [-1, 0, 1, 2, 3, 4, 5, 6], 0),
]

TRACE_FIELDS_REV0 = [f for f in TRACE_FIELDS_REV1 if f[1] <= 179]
