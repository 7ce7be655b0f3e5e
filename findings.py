"""Genuine defects of the code: open ones, and the property each repaired one belongs to (matched on the commit message)."""

FINDINGS = []

_PROP = [
    ("histogram", "U01"), ("get_hist", "U01"), ("rebin", "U02"), ("weight_invert", "U03"), ("array_match", "U04"), ("idl_median", "U05"), ("resistant_mean", "U05"),
    ("angle_difference", "U06"), ("simple_deproject_w_term", "U06"), ("l_m_n", "U06"), ("region_grow", "U07"), ("crosspol_split", "G03"), ("crosspol_reformat", "G03"),
    ("vis_weights_update", "W01"), ("split_vis_weights", "W02"), ("vis_noise_calc", "W03"), ("vis_flag_tiles", "F01"), ("vis_flag_basic", "F01"), ("vis_flag ", "F02"),
    ("vis_extract_autocorr", "C05"), ("vis_calibration_flag", "C10"), ("cal_auto_ratio", "C02"), ("vis_cal_auto", "C05"), ("vis_calibration_apply", "C01"),
    ("calibrate passed obs and cal", "C11"), ("vis_calibrate_subroutine", "C06"), ("vis_cal_bandpass", "C03"), ("vis_baseline_hist", "C08"), ("vis_cal_polyfit", "C04"),
    ("baseline_grid_locations", "G04"), ("visibility_grid", "G05"), ("filter_uv_uniform", "G06"), ("visibility_count", "G06"), ("dirty_image_generate", "G07"),
    ("extract_header", "D01"), ("create_params", "D01"), ("extract_visibilities", "D01"), ("create_layout", "D02"), ("number of tiles came from the baseline", "D02"), ("create_obs ignored FoV", "D03"), ("create_obs raised KeyError or TypeError when the dim", "D03"),
    ("create_obs", "D02"), ("update_obs", "D03"), ("read_metafits", "D04"), ("load raised", "I01"), ("load failed", "I01"), ("time averaged calibration", "C06"), ("save raised", "I01"), ("save stored garbage", "I01"), ("recarray_to_dict", "I02"),
    ("healpix_cnv", "H01"), ("radec_to_pixel", "H01"), ("phase_shift_uv_image", "H02"), ("vis_model_freq_split", "H03"), ("beam_image_cube", "H04"), ("beam_image", "B01"), ("healpix_snapshot_cube_generate", "H05"),
    ("flag_model_visibilities", "M01"), ("main raised", "R01"), ("main lost", "R01"), ("pyfhd_setup", "S01"), ("missing sav files", "S01"), ("tile names given", "S02"), ("time-cut", "S02"), ("the written yaml", "S02"),
]


def prop_of(msg):
    for k, p in _PROP:
        if k in msg:
            return p
    return None
