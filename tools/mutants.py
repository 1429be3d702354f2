"""Where tools/mutate.py plants its small changes, per property."""
T = "skbeam/core/tests/"
CORR = "skbeam/core/correlation.py"
UT = "skbeam/core/utils.py"


def F(file, funcs, *tests):
    return dict(file=file, funcs=funcs, tests=[t if "/" in t else T + t for t in tests])


TARGETS = {
    "C01": [F(CORR, ["lazy_one_time", "multi_tau_auto_corr", "_one_time_process", "_validate_and_transform_inputs", "auto_corr_scat_factor"], "test_correlation.py")],
    "C02": [F(CORR, ["lazy_two_time", "two_time_corr", "_two_time_process", "two_time_state_to_results", "one_time_from_two_time"], "test_correlation.py")],
    "C03": [F(CORR, ["lazy_one_time", "lazy_two_time", "_init_state_one_time", "_init_state_two_time", "_two_time_process"], "test_correlation.py")],
    "C04": [F(CORR, ["CrossCorrelator", "_cross_corr"], "test_correlation.py")],
    "C05": [F("skbeam/core/speckle.py", ["xsvs", "_process", "normalize_bin_edges"], "test_speckle.py"), F(UT, ["geometric_series"], "test_utils.py", "test_speckle.py")],
    "A01": [dict(file="skbeam/core/accumulators/histogram.pyx", ranges=[(r"^class|^cdef class|^    def __init__", r"@@never")], tests=["skbeam/core/accumulators/tests/test_histogram.py"])],
    "A02": [F("skbeam/core/accumulators/binned_statistic.py", ["BinnedStatisticDD", "BinnedStatistic1D", "BinnedStatistic2D", "RPhiBinnedStatistic", "RadialBinnedStatistic"], "skbeam/core/accumulators/tests/test_binned_statistic.py")],
    "A03": [F(UT, ["grid3d"], "test_utils.py"), dict(file="src/ctrans.c", ranges=[(r"^static PyObject\* gridder_3D", r"PyMethodDef|static char")], tests=[T + "test_utils.py"])],
    "G01": [F("skbeam/core/recip.py", ["process_to_q", "hkl_to_q", "gisaxs"], "test_recip.py"), dict(file="src/ctrans.c", ranges=[(r"^static PyObject\* ccdToQ", r"^static PyObject\* gridder_3D")], tests=[T + "test_recip.py"])],
    "R01": [F("skbeam/core/roi.py", ["rectangles", "bar", "box", "rings", "ring_edges", "segmented_rings", "lines", "_make_roi"], "test_roi.py")],
    "R02": [F("skbeam/core/roi.py", ["mean_intensity", "roi_pixel_values", "roi_max_counts", "extract_label_indices", "circular_average", "kymograph"], "test_roi.py")],
    "M01": [F("skbeam/core/mask.py", ["threshold", "bad_to_nan_gen", "margin", "binned_outlier"], "test_mask.py")],
    "U01": [F(UT, ["MD_dict", "RCParamDict", "verbosedict", "_iter_helper"], "test_utils.py")],
    "U02": [F(UT, ["subtract_reference_images", "bin_edges", "bin_1D", "bin_edges_to_centers", "radial_grid", "angle_grid", "bin_grid", "img_to_relative_xyi", "radius_to_twotheta",
                   "d_to_q", "q_to_d", "q_to_twotheta", "twotheta_to_q", "pairwise"], "test_utils.py", "test_recip.py")],
    "I01": [F("skbeam/core/image.py", ["find_ring_center_acorr_1D", "_corr_ax1", "construct_circ_avg_image", "construct_rphi_avg_image"], "test_image.py")],
    "F01": [F("skbeam/core/feature.py", ["peak_refinement", "refine_quadratic", "refine_log_quadratic", "filter_n_largest", "filter_peak_height"], "test_feature.py"),
            F("skbeam/core/spectroscopy.py", ["find_largest_peak", "align_and_scale", "integrate_ROI", "integrate_ROI_spectrum", "_formatter_array_regions"], "test_spectroscopy.py"),
            F("skbeam/core/fitting/funcs.py", ["fit_quad_to_peak"], "test_feature.py")],
    "F02": [F("skbeam/core/calibration.py", ["estimate_d_blind", "refine_center"], "test_calibration.py")],
    "K01": [F("skbeam/core/constants/basic.py", ["BasicElement"], "skbeam/core/constants/tests"), F("skbeam/core/constants/xrf.py", ["XrayLibWrap", "XrayLibWrap_Energy", "XrfElement", "emission_line_search"], "skbeam/core/constants/tests"),
            F("skbeam/core/constants/xrs.py", ["PowderStandard", "HKL", "Reflection"], "skbeam/core/constants/tests")],
    "S01": [F("skbeam/core/smoothing.py", ["sgolay2d"], "test_smoothing.py"), F("skbeam/core/arithmetic.py", ["logical_nand", "logical_nor", "logical_sub"], "test_arithmetic.py"), F("skbeam/core/stats.py", ["statistics_1D"], "test_stats.py")],
    "P01": [F("skbeam/core/cdi.py", ["_dist", "gauss", "pi_modulus", "find_support", "cal_diff_error", "generate_random_phase_field", "generate_box_support", "generate_disk_support", "cdi_recon"], "test_cdi.py")],
    "P02": [F("skbeam/core/dpc.py", ["image_reduction", "_rss_factory", "dpc_fit", "recon", "dpc_runner", "lazy_dpc", "reconstruct_phase_from_partial_info"], "test_dpc.py")],
    "W01": [F("skbeam/io/save_powder_output.py", ["save_output", "gsas_writer", "_validate_input", "_create_file_path"], "skbeam/io/tests"), F("skbeam/io/gsas_file_reader.py", ["gsas_reader", "_get_fxye_data", "_get_esd_data", "_get_std_data", "_sfloat", "_sint"], "skbeam/io/tests"),
            F("skbeam/io/avizo_io.py", ["_read_amira", "_amira_data_to_numpy", "_clean_amira_header", "_create_md_dict", "load_amiramesh"], "skbeam/io/tests"), F("skbeam/io/binary.py", ["read_binary"], "skbeam/io/tests"), F("skbeam/io/fit2d.py", ["fit2d_save", "read_fit2d_msk"], "skbeam/io/tests"), F("skbeam/io/net_cdf_io.py", ["load_netCDF"], "skbeam/io/tests")],
    "X01": [F("skbeam/core/fitting/xrf_model.py", ["ModelSpectrum", "sum_area", "get_line_energy", "_set_parameter_hint"], "skbeam/core/fitting/tests"), F("skbeam/core/fitting/lineshapes.py", ["elastic", "compton"], "skbeam/core/fitting/tests"), F("skbeam/core/fitting/models.py", ["set_default", "ElasticModel", "ComptonModel"], "skbeam/core/fitting/tests")],
    "X02": [F("skbeam/core/fitting/xrf_model.py", ["nnls_fit", "fit_per_line_nnls", "fit_pixel_multiprocess_nnls", "calculate_area", "construct_linear_model", "linear_spectrum_fitting", "trim", "define_range", "compute_escape_peak", "get_relative_cs_ratio"], "skbeam/core/fitting/tests")],
    "X03": [F("skbeam/core/fitting/xrf_model.py", ["ParamController", "get_activated_lines", "update_parameter_dict", "set_parameter_bound", "register_strategy", "extract_strategy"], "skbeam/core/fitting/tests")],
    "L01": [F("skbeam/core/fitting/lineshapes.py", ["gaussian", "lorentzian", "lorentzian2", "voigt", "pvoigt", "gausssian_step", "gaussian_tail", "poisson_dist", "nbinom_dist", "gamma_dist"], "skbeam/core/fitting/tests")],
    "B01": [F("skbeam/core/fitting/background.py", ["snip_method"], "skbeam/core/fitting/tests")],
}
