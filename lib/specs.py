"""Which monitors decide which property."""
import os
VERIF_HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
CONFIG = ["kwiversys", "vital_config", "vital_logger"]
SPECS = {}
NOT_APPLICABLE = {}

SPECS["C01"] = dict(
    technique="model-based history monitoring under ASan/UBSan",
    note="Every operation of random histories on real config blocks is compared with a plain map model; full state observed after each. Trusts the model in the harness.",
    stages=[dict(name="config_store", src=["harness/c01_config_store.cxx"], groups=CONFIG,
                 quick=4000, thorough=200000,
                 must=["operations", "set_refused", "unset_done", "nested_view", "merge_done",
                       "merge_stopped_by_read_only", "read_only_marked_through_view", "subblock_copy", "handle_dropped", "located_entry_made_anew"])],
    rule="one case = one random history (10-60 operations: set, unset, mark read-only, view, nested view, copy, merge, "
         "locate, print, drop) over colliding hierarchical keys; distinct = different sequence of (operation kind, outcome, view depth)",
    assumptions=["merging a block into a view of itself is not exercised (unspecified)"],
)

SPECS["C02"] = dict(
    technique="typed round-trip and refusal oracle under ASan/UBSan",
    note="Random and boundary values of every supported type go through plain, view, copy and merge paths; texts are classified by an independent reader. Infinite and NaN values are outside the property.",
    stages=[dict(name="config_types", src=["harness/c02_config_types.cxx"], groups=CONFIG + ["vital"],
                 quick=6000, thorough=400000, must=["round_trips", "text_accepted", "text_refused", "own_types", "other_locale", "grouped_digits", "own_writer_fails", "own_reader_fails"])],
    rule="one evaluation = 12 typed values or texts stored and read back; distinct = different (type, access path, value)",
    assumptions=["text that goes on after a complete value (e.g. '12 x') may be refused or read as its leading value: the code documents this", "negative text read as an unsigned type is not specified"],
)

SPECS["C03"] = dict(
    technique="write/read round-trip oracle under ASan/UBSan",
    note="Random expressible configurations (hierarchical and one-letter keys, long values, wrapping descriptions, views) are written, read and compared entry by entry; refusals must keep the old file.",
    stages=[dict(name="config_roundtrip", src=["harness/c03_config_roundtrip.cxx"], groups=CONFIG,
                 quick=2400, thorough=120000, must=["entries_written", "written_through_view", "refusals"])],
    rule="one case = one configuration written to a file or stream and read back; distinct = different file text",
    assumptions=["not expressible in the language and therefore outside: values with '#', line breaks or macro references, keys that start with a non-letter, contain other characters, or are a keyword"],
)

SPECS["C04"] = dict(
    technique="generated programs of the language with computed meaning, under ASan/UBSan",
    note="Each generated file set carries its meaning (entries, flags, locations, or the kind of refusal), computed line by line by the generator; the parser's result must equal it.",
    stages=[dict(name="config_language", src=["harness/c04_config_language.cxx"], groups=CONFIG,
                 quick=6000, thorough=300000,
                 must=["entries", "local_symbols", "nested_blocks", "includes", "include_inside_block", "include_from_search_path", "include_from_includer",
                       "include_by_macro", "overrides", "read_only_entry", "relative_path", "macro_LOCAL", "macro_CONFIG", "macro_ENV", "macro_SYSENV",
                       "macro_unknown_type", "refused_parse", "refused_not_found", "refused_read_only", "parser_used_after_refusal", "second_files", "unclosed_refused", "from_working_directory", "free_memory"])],
    rule="one case = one set of files read; distinct = different sequence of statement kinds, flags and macro use, or different ill-formed line",
    assumptions=["statements split over lines, text after 'endblock' or after a block name, and a block left open by an included file are not specified and not generated, except the block name repeated after 'endblock'"],
)

SPECS["C05"] = dict(
    technique="mutation and token fuzzing under ASan/UBSan with outcome, leak and hang monitors",
    note="Byte, token and structure mutations of configuration files and include graphs; every outcome must be a configuration or a documented error, memory balanced, and later files read correctly.",
    stages=[dict(name="config_hostile", src=["harness/c05_config_hostile.cxx"], groups=CONFIG,
                 quick=3600, thorough=600000, case_timeout=40,
                 must=["accepted", "refused_parse", "refused_not_found", "include_by_symlink", "include_chains", "parser_reused"])],
    rule="one case = one hostile file with its includes, read twice and followed by a valid file; distinct = different text",
    assumptions=["files up to about 1 MB, 3000 nested blocks, 250 chained includes; device files are not offered as includes"],
)

SPECS["C06"] = dict(
    technique="scratch file-system layouts with a precedence oracle, under ASan/UBSan",
    note="Random environments and layouts of the search path in a scratch tree; the path list and the merged entries must equal those of the documented order. /etc and /usr locations are compared as names only.",
    stages=[dict(name="config_search", src=["harness/c06_config_search.cxx"], groups=CONFIG,
                 quick=3000, thorough=150000,
                 must=["search_paths_compared", "outcome_ok", "outcome_not-found", "outcome_parse", "several_files_merged", "others_ignored_without_merge",
                       "directory_of_that_name", "absolute_name", "include_found", "include_not_found", "missing_by_full_name"])],
    rule="one case = one environment and layout of files over the search path; distinct = different pattern of locations holding the file, merge mode and outcome",
    assumptions=["read-only marks in merged files, and empty components of KWIVER_CONFIG_PATH, are unspecified and not generated"],
)

VT = CONFIG + ["vital"]
SPECS["T01"] = dict(
    technique="model-based history monitoring of pixel memory under ASan/UBSan",
    note="Random histories of construct, window, share, copy, resize, write, compare, transform and drop over all layouts; every pixel of every live handle is compared with a byte model after each step.",
    stages=[dict(name="image", src=["harness/t01_image.cxx"], groups=VT, env={"ASAN_OPTIONS": "max_allocation_size_mb=16384"}, quick=6000, thorough=300000,
                 must=["pixels_compared", "negative_steps", "windows", "shallow_copies", "deep_copy_new_memory", "deep_copy_same_size", "deep_copy_with_gaps", "resized", "writes",
                       "out_of_range_refused", "compared_one_pixel_apart", "transforms", "memory_copies", "no_images", "far_pixels", "vast_images", "dropped", "empty_image", "interleaved", "planar"])],
    rule="one case = one history of 6-30 operations over up to 8 image handles; distinct = different sequence of operation kinds",
    assumptions=["a deep copy between overlapping windows of one memory block, and images larger than memory, are not exercised"],
)

SPECS["T02"] = dict(
    technique="model-based history monitoring under ASan/UBSan",
    note="Random histories of appends of states and tracks (itself included), copies and assignments over frames up to the limits of the type; contents, order and every look-up compared with a list model after each step.",
    stages=[dict(name="track", src=["harness/t02_track.cxx"], groups=VT, quick=12000, thorough=600000,
                 must=["append_accepted", "append_refused", "append_track_accepted", "append_track_refused", "append_track_trivial", "lookups_present", "lookups_absent", "assigned"])],
    rule="one case = one history of 3-40 operations over up to 6 tracks; distinct = different sequence of operation kinds and outcomes",
    assumptions=["first and last frame of a track without states are not specified"],
)

SPECS["T03"] = dict(
    technique="query results compared with a direct scan, under ASan/UBSan",
    note="Random track sets with gaps, empty members and duplicates; every query at every frame, offset and limit is compared with a scan of the member tracks. Frame numbers are non-negative, as the offset convention requires.",
    stages=[dict(name="track_set", src=["harness/t03_track_set.cxx"], groups=VT, quick=4000, thorough=250000,
                 must=["sets", "active", "inactive", "new", "terminated", "offset_before_start", "offset_from_end", "percentage_between", "empty_members", "no_frames"])],
    rule="one case = one track set queried at 10-60 offsets; distinct = different sizes of active, new and terminated sets over the offsets",
    assumptions=["null track pointers as members and negative frame numbers inside sets are not exercised"],
)

SPECS["T04"] = dict(
    technique="model-based history monitoring under ASan/UBSan",
    note="Random histories of setting and clearing, checked field by field and in print; all pairs compared with the documented decision (same domain, then time, then frame) over extreme values.",
    stages=[dict(name="timestamp", src=["harness/t04_timestamp.cxx"], groups=VT, quick=30000, thorough=2000000,
                 must=["different_domains", "nothing_comparable", "ordered_by_time", "ordered_by_frame", "dates_compared", "invalidated"])],
    rule="one case = 2-6 timestamps with random histories and all their pairs; distinct = different sequence of operations and pair outcomes",
    assumptions=["conversion of seconds to microseconds may be off by one microsecond", "the printed date is compared for times within a century of the epoch"],
)

SPECS["T05"] = dict(
    technique="comparison with long-double reference algebra, under ASan/UBSan",
    note="Random and degenerate orientations (identity, exact and near half turns, tiny angles, both quaternion signs) and similarities in both precisions; every conversion and operation against reference formulas.",
    stages=[dict(name="rotation", src=["harness/t05_rotation.cxx"], groups=VT, quick=12000, thorough=1000000,
                 must=["rotations", "similarities", "half_turns", "identities", "yaw_pitch_roll", "vertical_pitch", "interpolations", "invalid_matrix", "no_similarity"])],
    rule="one case = two orientations (and every fourth case two similarities) in both precisions through all operations; distinct = different (kind of orientation, signs, angle between them)",
    assumptions=["tolerances: 1e-12 (double) and 2e-5 (float), times the size of the operands and the conditioning", "at vertical pitch yaw and roll are not separately defined and only finiteness is required"],
)

SPECS["T06"] = dict(
    technique="comparison with a long-double reference camera, under ASan/UBSan",
    note="Random calibrations with 0-14 lens coefficients, poses built by every route, points in front and behind; projection, depth, matrix, lens map and inverse, and aiming against reference formulas.",
    stages=[dict(name="camera", src=["harness/t06_camera.cxx"], groups=VT, quick=16000, thorough=1000000,
                 must=["no_lens", "radial", "tangential", "rational", "points_mapped", "inverses", "cameras", "behind", "in_front", "points_projected", "matrix_projections", "own_lens", "bare_intrinsics", "aimed", "up_nearly_along_view", "up_of_other_length"])],
    rule="one case = one lens at 12 points, or one camera at 6 points; distinct = different (coefficient count, distortion strength, radius, direction) or (construction, orientation kind, side, direction)",
    assumptions=["3, 6, 7 or more than 8 coefficients have no documented meaning: for them only the inverse and memory safety are checked", "inverse checked where the lens model's derivative stays within 0.15 of the identity", "points in the camera plane are not projected"],
)

SPECS["T07"] = dict(
    technique="comparison with long-double matrix algebra and frame-chain histories, under ASan/UBSan",
    note="General, image-like, affine, integer, singular and zero-corner matrices in both precisions; points at, near and far from infinity; histories of composing, inverting, copying, assigning and changing frame homographies.",
    stages=[dict(name="homography", src=["harness/t07_homography.cxx"], groups=VT, quick=24000, thorough=1500000,
                 must=["maps_to_infinity", "points_mapped", "zero_corner", "normalized", "singular_refused", "inverted", "there_and_back", "composed", "chained",
                       "unchained_refused", "frame_inverse", "assigned", "changed", "world_homographies"])],
    rule="one case = one matrix through every operation, or one history of 4-25 frame-homography operations; distinct = different (precision, kinds of the two matrices, stratum) or operation sequence",
    assumptions=["the refusal thresholds are absolute (1e-12 double, 1e-5 float on the homogeneous coordinate and the determinant), so matrices of vanishing overall scale are outside the property"],
)

SPECS["T08"] = dict(
    technique="comparison with long-double singular values and vectors, under ASan/UBSan",
    note="Poses with degenerate rotations and translations, essential matrices at any scale and sign, arbitrary, nearly essential, rank-two and badly scaled matrices in both precisions, against an own Jacobi eigen solver.",
    stages=[dict(name="epipolar", src=["harness/t08_epipolar.cxx"], groups=VT, quick=16000, thorough=1000000,
                 must=["essential_decomposed", "from_pose", "from_essential", "nearly_essential", "from_any_matrix", "own_essential_class", "fundamental_general", "fundamental_rank2", "fundamental_pixels"])],
    rule="one case = one pose and three matrices, or one fundamental matrix; distinct = different (precision, kind, sign, stratum)",
    assumptions=["the closest matrix is unique, and compared, only where the second and third singular values differ by 1% of the first"],
)

SPECS["T09"] = dict(
    technique="field-by-field oracle on poisoned memory, under ASan/UBSan",
    note="Random field values and element types; objects are built on memory of random content so an unset field shows; every copy, conversion, clone and text form compared field by field.",
    stages=[dict(name="values", src=["harness/t09_values.cxx"], groups=VT, quick=24000, thorough=1500000,
                 must=["covariances_converted", "covariances", "features", "landmarks", "descriptors", "colors", "geo", "sets"])],
    rule="one case = one object of each kind through every constructor, setter, copy and conversion; distinct = different (type, precision, size, stratum)",
    assumptions=["the text form of features and landmarks leaves out the covariance, as the code documents"],
)

SPECS["I01"] = dict(
    technique="round-trip oracle with independent reading of the text, under ASan/UBSan",
    note="Cameras with 0-14 lens coefficients, degenerate rotations and coordinates up to 1e7 are written, read, rewritten, and read from files of another writer's layout; directories with missing, doubled and unnamed images.",
    stages=[dict(name="camera_files", src=["harness/i01_camera_files.cxx"], groups=VT, quick=3000, thorough=150000,
                 must=["cameras", "lens", "no_lens", "overwritten", "foreign", "maps", "some_missing", "none_found", "projections"])],
    rule="one case = one camera through write, read, rewrite and a foreign layout, or one directory of up to 12 images; distinct = different (coefficient count, magnitude of focal length and distance, skew, aspect, quaternion sign) or (images, cameras, first frame)",
    assumptions=["a single zero coefficient and no coefficient are the same lens: the format writes 0 for none", "values agree to 1e-14 of their size"],
)

SPECS["I02"] = dict(
    technique="round-trip oracle with independent writers of the formats, under ASan/UBSan",
    note="Sets of 0-3000 landmarks and 0-600 tracks with extreme identifiers and finite values in both precisions; written, read, rewritten, and read from files of other layouts (order of properties, further elements, interleaved tracks, no colours).",
    stages=[dict(name="data_files", src=["harness/i02_landmark_track_files.cxx"], groups=VT, quick=3000, thorough=150000,
                 must=["landmarks_compared", "states_compared", "overwritten", "foreign", "foreign_with_faces", "foreign_with_other_properties", "single_precision", "double_precision",
                       "foreign_tracks", "foreign_tracks_without_color", "empty_refused", "unwritable_refused"])],
    rule="one case = one landmark map or one track set through write, read, rewrite and a foreign layout; distinct = different (precision, size, identifier range, magnitude of values)",
    assumptions=["the formats hold no landmark scale, covariance, descriptor or track without states", "track identifiers are unique within a set", "values are finite"],
)

SPECS["I03"] = dict(
    technique="sanitized fuzzing of the readers with a spelled-in-the-file oracle and allocation balance",
    note="Random bytes, token soups, files of another kind, every truncation and stacked mutations of valid files under ASan/UBSan with a poisoned stack; whatever is accepted must be spelled in the file, the second reading gives back all memory.",
    stages=[dict(name="readers", src=["harness/i03_malformed_data.cxx"], groups=VT, quick=6000, thorough=500000, case_timeout=20,
                 must=["camera_refused", "camera_accepted", "ply_refused", "ply_accepted", "tracks_refused", "tracks_accepted", "truncations", "no_file", "directories", "camera_poses_compared"])],
    rule="one case = 4 inputs read twice each, or all non-files and all truncations of three files; distinct = different (reader, outcome, mutations, size and line class)",
    assumptions=["text after the last number a reader needs, and numbers glued to other text in camera and track files, may be accepted", "of two PLY vertices with one identifier the last may win"],
)

SPECS["I04"] = dict(
    technique="fault injection at every output call, with the real kernel's file size limit, under ASan/UBSan",
    note="Every open, write, close and folder creation of each writer is struck in turn (once and from there on, seven errors), writes are cut short and interrupted, and the disk is full at chosen bytes; a normal return requires the complete content in the file.",
    stages=[dict(name="write_faults", src=["harness/i04_write_faults.cxx"], groups=VT, quick=400, thorough=30000, link=["-rdynamic", "-ldl"],
                 must=["config", "camera", "landmarks", "tracks", "faults", "short_writes", "interrupted_writes", "disk_full", "disk_just_big_enough", "bad_targets", "reported", "survived"])],
    rule="one case = one object of one writer with all its call points struck; distinct = different (writer, size class, sequence of calls)",
    assumptions=["calls of the same kind in the middle of long sequences are sampled", "what a kernel loses after a successful close is out of reach"],
)

SPECS["A01"] = dict(
    technique="recording mock implementations against a model of the registry and the configuration, under ASan/UBSan",
    note="Three algorithm types (one name the beginning of another) with recording implementations nested up to five deep; random registrations, configurations valid and broken at any level, generic and typed entry points.",
    stages=[dict(name="algorithms", src=["harness/a01_algorithms.cxx"], groups=VT, quick=2400, thorough=150000,
                 must=["registered", "replaced", "created", "refused_creations", "check_accepted", "check_refused", "configured", "configured_deep", "left_alone", "read_back",
                       "refused_by_implementation", "registrar_histories", "impl_configurations", "stale_entries", "descriptions"])],
    rule="one case = registrations, then three configurations checked, applied, read back and applied again; distinct = different (type, entry point, verdict, nesting, size of the configuration)",
    assumptions=["type names hold no colon", "registering a name anew replaces that one entry, as documented", "what is left in the variable when an implementation throws is not specified"],
)

SPECS["A02"] = dict(
    technique="recording implementations behind every front end, under ASan/UBSan",
    note="Random feature sets, matches (repeated, unordered, extreme indices), maps with partial overlap, tracks with missing features, selections in any order and hostile file names; what each implementation received is compared item by item.",
    stages=[dict(name="adapters", src=["harness/a02_adapters.cxx"], groups=VT, quick=16000, thorough=1000000,
                 must=["homography", "fundamental", "essential0", "essential1", "essential2", "cameras", "landmarks", "camera_map", "landmark_map", "unshared_dropped", "mismatch_refused",
                       "null_refused", "cameras_optimized", "observations_left_out", "filtered", "loaded", "load_refused", "saved", "save_refused", "types"])],
    rule="one case = one call sequence of one front end; distinct = different (front end, sizes of its inputs, size of the selection)",
    assumptions=["indices of matches and selections are within range; null sets and null cameras are not given to front ends that do not document them", "track identifiers are unique"],
)

SPECS["A03"] = dict(
    technique="real plugin modules built on the spot, monitored by their own registration calls, under ASan/UBSan",
    note="Folders of good, failing, foreign, unloadable and changed modules named by environment and program; every load's registration calls, the registry and every object ever created from a module are checked in a fresh process per history.",
    stages=[dict(name="plugins", src=["harness/a03_plugins.cxx", "harness/a03_explorer.cxx"], groups=VT + ["vital_apm"], quick=1200, thorough=60000,
                 flags=["-I" + VERIF_HARNESS],
                 modules=[dict(name="a03_plugin", src=["harness/mod/a03_plugin.cxx"], flags=["-I" + VERIF_HARNESS, "-fno-gnu-unique"]),
                          dict(name="a03_foreign", src=["harness/mod/a03_foreign.c"]),
                          dict(name="a03_unresolved", src=["harness/mod/a03_unresolved.c"])],
                 must=["environment", "entry_good", "entry_failing", "entry_foreign", "entry_unresolved", "entry_garbage", "entry_empty", "entry_directory", "entry_dangling", "entry_wrong_suffix", "entry_linked",
                       "modules_registered", "modules_failed", "modules_threw", "partial_registrations", "used", "kept_objects_used", "loaded_once", "loaded_once_before",
                       "loaded_by_name", "loaded_by_name_none", "loaded_all", "modules_changed", "modules_deleted", "listings"])],
    rule="one case = one process with up to 4 search folders and up to 6 load, change and look-up steps; distinct = different (folders, modules, implementations, step sequence)",
    assumptions=["a module ends in the platform suffix; the order within one folder is the folder's own", "of two modules registering one name the later replaces the earlier, as documented", "a module's entry point reports failure by its result, the generated shell turns exceptions into -1"],
)

SPECS["B01"] = dict(
    technique="reference-model monitoring of handle histories with allocation balance, under ASan/UBSan",
    note="Random histories over every kind of C handle, shared through containers, maps, conversions, algorithms and the C++ bridge; a model counts references, contents are read back after releases, big objects must be given back at once and every history must balance.",
    stages=[dict(name="c_lifetime", src=["harness/b01_c_lifetime.cxx"], groups=VT + ["vital_apm", "vital_c"], quick=900, thorough=60000,
                 must=["image", "container", "config", "camera", "camera_map", "track", "trackset", "algo", "handle_shared", "many_handles", "sharing_seen", "config_view", "config_copy", "camera_revived_from_map",
                       "algo_cloned", "algo_replaced", "configure_refused", "converted", "saved", "loaded_while_held", "loaded_after_release", "null_result", "tracked",
                       "big_object_freed", "last_reference_dropped", "reference_dropped", "fake_handles", "balanced_histories"])],
    rule="one case = two histories of 40-100 operations over up to 25 live handles, one of them repeated and weighed; distinct = different operation sequence",
    assumptions=["each handle given out is one reference, given up by one destroy call of its own type", "the arrays themselves belong to the caller"],
)

SPECS["B02"] = dict(
    technique="differential monitoring of every C function against its C++ counterpart, errors and null arguments included, under ASan/UBSan",
    note="Each call is made through C and through C++ on twin objects: results, outputs, files and errors must agree, whether the error handle is null, fresh or carries an earlier message; handles and strings may be null, foreign, destroyed or made up.",
    stages=[dict(name="c_api", src=["harness/b02_c_api.cxx"], groups=VT + ["vital_apm", "vital_c"], quick=6000, thorough=400000, flags=["-I" + VERIF_HARNESS],
                 modules=[dict(name="a03_plugin", src=["harness/mod/a03_plugin.cxx"], flags=["-I" + VERIF_HARNESS, "-fno-gnu-unique"])],
                 must=["eh_null", "eh_fresh", "eh_reused", "succeeded", "failed", "long_messages", "code_1", "code_3", "code_-1", "null_strings", "null_outputs", "bad_handles", "foreign_handles",
                       "get_value", "get_value_bool", "get_value_default", "get_value_default_bool", "get_description", "set_value", "set_value_descr", "unset", "is_read_only", "mark_read_only", "merge",
                       "has_value", "available_values", "get_name", "subblock", "subblock_view", "new", "destroy", "configs_compared", "bool_true", "bool_false",
                       "config_file_read", "config_standard_location", "found_in_standard_location", "config_file_write", "plain_strings", "messages_replaced", "lists_freed", "images", "interleaved", "planar", "from_data", "from_data_reversed",
                       "camera_read", "camera_written", "maps", "map_refused", "tracks", "tracks_written", "tracksets", "trackset_refused",
                       "unknown_implementations", "implementation_refused", "check_true", "check_false", "generic_config", "instance_config", "set_type_made", "set_type_nothing", "cloned",
                       "saved", "save_failed", "loaded", "load_failed", "converted", "convert_failed", "null_from_algorithm", "tracked", "track_failed", "plugins_all", "plugins_single"])],
    rule="one case = one history on configuration blocks or one algorithm, or a round of file, image, camera, track, string or plugin calls; distinct = different calls, contents and outcomes",
    assumptions=["a handle used again after a failure keeps the earlier report until another failure", "raw image handles and output pointers the headers do not say may be null are the caller's business"],
)

_L01_MUST = ["lines_checked", "thread_switches", "multi_line", "long_messages", "early_milliseconds", "level_set_by_thread", "undetermined", "places",
             "shown_TRACE", "shown_DEBUG", "shown_INFO", "shown_WARN", "shown_ERROR", "shown_FATAL"] + \
            [p + a for p in ("shown_", "held_back_") for a in ("macro", "direct", "direct_with_place", "log_message", "log_message_with_place", "assertion")]
SPECS["L01"] = dict(
    technique="offline checking of the complete log output of concurrent histories, under ASan/UBSan and ThreadSanitizer",
    note="Up to six threads log through every entry point while levels change; all that reaches the stream is parsed back: every due message once, whole, in its thread's order, with its level, place and time, and nothing else.",
    stages=[dict(name="logger", src=["harness/l01_logger.cxx"], groups=CONFIG, quick=1600, thorough=60000,
                 modules=[dict(name="factory", variant="plain", src=["harness/mod/l01_factory.cxx"], repo=[("vital_logger", r"/(kwiver_logger|kwiver_logger_factory|location_info)\.cxx$")]), dict(name="foreign", src=["harness/mod/a03_foreign.c"])],
                 must=_L01_MUST + ["module_factories", "failed_factories", "default_factories"]),
            dict(name="logger_races", src=["harness/l01_logger.cxx"], groups=CONFIG, variant="tsan", quick=500, thorough=20000, must=_L01_MUST)],
    rule="one case = one history of up to 6 threads and 480 calls; distinct = different order of messages in the output",
    assumptions=["an empty message has no line to show", "the built-in logger shows no logger name", "messages sent while another thread changes the level across theirs may appear or not"],
)

SPECS["X01"] = dict(
    technique="ThreadSanitizer on concurrent workloads, with every thread's results compared with those it gets alone",
    note="Threads work through every part of the library on objects of their own, on shared files and on objects all read; first use is raced in fresh processes. ThreadSanitizer decides races, and each result must equal the one of the same work done alone.",
    stages=[dict(name="races", src=["harness/x01_races.cxx"], groups=VT + ["vital_apm", "vital_c"], variant="tsan", quick=480, thorough=60000,
                 flags=["-I" + VERIF_HARNESS], 
                 modules=[dict(name="a03_plugin", src=["harness/mod/a03_plugin.cxx"], flags=["-I" + VERIF_HARNESS, "-fno-gnu-unique"])],
                 must=["job_" + j for j in "config_store config_read config_read_shared config_standard config_write expand timestamps images tracks cameras landmarks algorithms loggers paths c_interface text_tools shared_objects geometry values camera_folders".split()]
                      + ["fresh_processes", "warm_cases", "one_facility", "two_facilities", "all_facilities", "plugins_loaded_once", "results_compared"]),
            dict(name="first_logger", src=["harness/x01_first.cxx"], groups=CONFIG[:1] + ["vital_logger"], variant="tsan", quick=240, thorough=20000,
                 must=["first_instance_raced", "managers_compared", "same_logger"])],
    rule="one case = one process with 2-6 threads of up to 8 jobs; distinct = different assignment of jobs to threads",
    assumptions=["environment variables are not changed while others read them", "starting child processes and changing the working directory concern the whole process"],
)

KW = ["kwsys:kwsys"]
SPECS["K01"] = dict(
    technique="comparison with an independent path algebra and with the kernel's own look-up, under ASan/UBSan",
    note="Random spellings of paths go through every path function; results must lead to the same component list as an independent resolver, obey the algebra (recombination, idempotence, shortest relative way) and, for paths that exist, name the same inode.",
    stages=[dict(name="paths", src=["harness/k01_paths.cxx"], groups=KW, quick=1600, thorough=120000,
                 must=["translations", "kept_paths", "told_logical_directory", "told_wrong_directory", "quoted", "split", "network_root", "collapsed_full", "collapsed_relative", "collapsed_parents", "relative_shared", "relative_apart", "relative_same", "several_extensions", "names_trailing",
                       "backslashes", "spaces", "homes", "home_is_root", "inside", "outside", "inside_root", "on_disk", "programs", "deep", "deep_beyond_2048"])],
    rule="one case = about 90 paths through all functions; distinct = different collapsed path",
    assumptions=["lexical: symbolic links aside", "the base to collapse on is a full path", "two leading slashes name the root of a network path or the root", "HOME is set and full; unknown users are not looked up", "a backslash is a separator except before a space; drive letters are roots"],
)

SPECS["K02"] = dict(
    technique="comparison with an independent parser and backtracking matcher, under ASan/UBSan",
    note="Random patterns (well formed, nearly so and arbitrary) are judged by an independent parser; where valid, texts derived from the pattern or arbitrary are searched and the match and every group compared with an independent matcher. Copies, reuse, invalid expressions and very long patterns and texts included.",
    stages=[dict(name="patterns", src=["harness/k02_regex.cxx"], groups=KW, quick=8000, thorough=500000,
                 must=["valid_patterns", "invalid_patterns", "nine_groups", "found", "found_later", "absent", "groups_found", "copied_after_find", "recompiled", "large", "too_big", "long_texts"]),
            dict(name="deep", src=["harness/k02_regex.cxx"], groups=KW, variant="plain", flags=["-DK02_DEEP"], quick=1, thorough=1, must=["deep_repetitions"])],
    rule="one case = 25 patterns with several texts each; distinct = different valid pattern",
    assumptions=["patterns and texts contain no zero byte", "^ and $ stand for the ends of the text", "after a failed compile() on a used object only the absence of memory errors is required", "searches needing more than 60000 steps of the independent matcher are not compared"],
)

SPECS["K03"] = dict(
    technique="comparison with independent implementations of the standards, in exact-size heap blocks under ASan/UBSan",
    note="Base64, MD5 and UTF-8 are each implemented once more from their standards; random, edge-length and malformed data go through every function with input and output blocks of exactly the promised size, so that AddressSanitizer sees any byte too many.",
    stages=[dict(name="codecs", src=["harness/k03_codecs.cxx"], groups=KW + ["kwsys:kwsys_c"], quick=16000, thorough=1500000,
                 must=["more promised", "marked", "padded", "unpadded", "text_behind_mark", "truncated_text", "hostile_text", "md5", "md5_in_pieces", "md5_two_pad_blocks", "characters", "zero_characters", "invalid_characters", "argument_vectors"]),
            dict(name="huge", src=["harness/k03_codecs.cxx"], groups=KW + ["kwsys:kwsys_c"], variant="plain", flags=["-DK03_HUGE", "-O2"], quick=1, thorough=8, must=["md5_beyond_2_to_the_32_bits"])],
    rule="one case = 8 data of every kind through each codec; distinct = different MD5 digest",
    assumptions=["decoding up to the end of the input needs room for 3 bytes per 4 characters", "the narrow encoding is UTF-8 (locale C.UTF-8)", "a piece of text given to MD5 is at most 2 GB"],
)

SPECS["K04"] = dict(
    technique="comparison with an independent model of the declared argument forms, under ASan/UBSan",
    note="Random declarations (names that begin alike, very long names, every form and variable type, callbacks that refuse) and argument vectors; variables, callback calls, unused and remaining arguments and the help are compared with the model.",
    stages=[dict(name="lines", src=["harness/k04_arguments.cxx"], groups=KW, quick=24000, thorough=2000000,
                 must=["booleans", "concatenated", "with_equals", "with_space", "several_values", "value_missing", "not_a_number", "unknown_arguments", "unused_stored", "stopped", "parsed", "failed", "callbacks",
                       "aliases", "aliases_in_circles", "long_names_in_help", "helps", "help_text_compared"])],
    rule="one case = 10 declarations with one argument vector each; distinct = different argument vector",
    assumptions=["the longest declared name that an argument fits decides", "a callback for unknown arguments that accepts one ends parsing there", "text that is no number is converted as C does", "names and help texts outlive the parser and are not null", "there is an argument 0"],
)

SPECS["K05"] = dict(
    technique="monitoring of real child processes under stress, injected delays, signals and failures; byte streams, status, descriptors, handlers and processes compared with what the child was told to do, under ASan/UBSan",
    note="Children do exactly what their arguments say (how much they write where, when they stop and how they end). Bytes received, state, exit value and exception are compared with that; after each case open descriptors, children, orphans, signal handlers, signal mask and working directory must be as before. fork, pipe and kill are interposed: they fail on demand, are delayed, and a signal to a process that is no descendant is recorded instead of sent.",
    stages=[dict(name="processes", src=["harness/k05_process.cxx"], groups=KW + ["kwsys:kwsys_c"], quick=1600, thorough=60000, case_timeout=100,
                 modules=[dict(name="child", src=["harness/mod/k05_child.c"], variant="plain", exe=True)],
                 must=["exits", "signalled", "merged", "more_than_a_pipe_holds", "object_used_again", "started_twice", "data_ignored", "pipelines", "pipelines_cut_off", "several_at_once", "input_from_file",
                       "input_from_pipe", "no_input", "output_to_file", "output_shared", "output_to_pipe", "verbatim_lines", "argument_vectors", "not_started", "not_started_detached", "fork_failures", "pipe_failures",
                       "expired", "killed", "grandchildren_ended", "interrupted", "pipelines_interrupted", "groups_interrupted", "settings", "parent_signalled", "detached", "inheritances", "footprints", "directory_gone", "signal_storms", "interrupting_signals", "waits_timed_out", "worlds_compared"])],
    rule="one case = one scenario of one to six processes or pipelines; distinct = different command lines or failure",
    assumptions=["one thread; descriptors 0 to 2 are open in the parent", "grandchildren that keep a child's output open keep it unfinished, as documented", "a child that ended before its timeout but is first asked after it counts as expired", "a backslash inside single quotes of a verbatim line, and a line that ends inside quotes, are unspecified", "the exit status of a detached child is unspecified", "WaitForExit follows Kill or a timeout, as documented"],
)

SPECS["K06"] = dict(
    technique="lockstep comparison of complete disk trees: the library on one, plain system calls on its twin, as an unprivileged user, under ASan/UBSan",
    note="Histories of file operations over random trees with links, dangling and circular links and permission obstacles. After every operation the whole tree (type, mode, content, link text, times) must equal the twin's, also outside the target; the result must be right; no descriptor may stay open. Questions, listings, searches and glob patterns are compared with an own implementation.",
    stages=[dict(name="files", src=["harness/k06_filesystem.cxx"], groups=KW, quick=1800, thorough=120000, case_timeout=150,
                 must=["program path", "no program path", "MakeDirectory", "CopyFileAlways", "CopyFileIfDifferent", "CopyADirectory", "RemoveFile", "RemoveADirectory", "Touch", "CreateSymlink", "SetPermissions", "full disk", "read error", "stopped half way", "refused", "succeeded",
                       "times differ", "files differ", "files equal", "signature found", "glob finds", "glob finds recursively", "glob through cycles", "file found", "directory found", "library", "program", "located", "changed directory"])],
    rule="one case = a history of 8 to 30 operations, or 12 searches, or 14 patterns, over one random tree; distinct = different operation that changed the tree, or pattern that found something",
    assumptions=["names hold no backslash and do not begin with '~'", "copying a directory into itself, or over links that lead back, is unspecified", "where a recursive operation fails it stops; what it did inside its target is unspecified", "a name with a trailing slash is only used for directories"],
)

SPECS["K08"] = dict(
    technique="lockstep comparison with the standard containers over random histories with colliding keys and refusing elements, under ASan/UBSan",
    note="Up to three containers of each of the four kinds live through random histories: insertions, ranges, erasures by key (also by the key of an own element), iterator and range, copies, assignments, swaps, growth. Elements count themselves and refuse copies on demand. After each operation the whole content, counts, ranges, buckets and element addresses are compared.",
    stages=[dict(name="histories", src=["harness/k08_hash.cxx"], groups=KW, quick=1600, thorough=120000,
                 must=["contents compared", "ranges of several elements", "grown", "ranges of a list inserted", "ranges of an array inserted", "erased by own key", "ranges erased", "cleared", "copied", "assigned to itself", "assigned",
                       "swapped", "unequal compared", "constructed from a range", "hash refused", "copy refused", "subscripts", "key types", "histories weighed", "all elements gone"])],
    rule="one case = five histories of 10 to 60 operations; distinct = different history up to an operation",
    assumptions=["the order of elements, and equality of containers that got the same elements by different histories, are unspecified", "a container whose hash function throws during growth stays usable; which elements it keeps is unspecified", "iterators taken before swap() are not used after it"],
)

SPECS["K09"] = dict(
    technique="the kernel's answers replaced inside the process by generated ones, reports compared with what was generated; dispositions read back; real faults in children; under ASan/UBSan",
    note="Processor, memory and status tables of five architectures and two kernel eras, system names, interfaces, limits and loads are generated and given to the library in place of the kernel's; every value it reports must be the generated one. Missing, unreadable, empty, cut off and garbled tables must be answered in time and within memory. Stacks are compared line by line with dladdr, handlers with sigaction, and children die of real faults under the reporting handler.",
    stages=[dict(name="sysinfo", src=["harness/k09_sysinfo.cxx"], groups=KW, quick=24000, thorough=1500000, case_timeout=45,
                 must=["causes reported", "tables x86", "tables arm", "tables sparc", "tables parisc", "tables ppc", "several cores", "many processors", "last line open", "features found", "features absent", "asked again", "odd tables",
                       "table missing", "table unreadable", "table empty", "table cut off", "table mutated", "table tiny", "memory tables", "old memory tables", "memory tables refused", "two-digit kernels", "limits combined",
                       "process tables", "process tables refused", "odd memory tables", "system names", "system names unknown", "loads", "loads unknown", "full names", "full names found", "full names refused",
                       "stacks", "whole stacks", "names beyond 1024 characters", "paths whole", "paths cut", "switched on", "switched on twice", "switched off", "signals reported", "reported SIGFPE", "reported SIGSEGV", "reported SIGBUS",
                       "reported SIGILL", "reported SIGABRT", "not reported", "this system"])],
    rule="one case = one table, set of names, stack, history of switching or fatal signal; distinct = different content",
    assumptions=["a table's keys begin their lines", "all processors of a table have as many cores as the first", "which numbers a table without topology gives for cores is as documented in the code: one", "handlers set while reporting is on are unspecified"],
)

SPECS["K10"] = dict(
    technique="real launchers started in generated trees and told on by the program they start; histories of libraries that report their own coming and going; under ASan/UBSan",
    note="Launchers made as the header describes, with and without configurations, are put into build and install trees under every kind of name and started by full and relative names, through links and from PATH among decoys. The program started reports its arguments, environment, folder, process and file. Libraries are opened by several names, opened again and closed in any order; each keeps its own state and says when it is unloaded.",
    stages=[dict(name="launch", src=["harness/k10_launch.cxx"], groups=KW, quick=6000, thorough=250000, case_timeout=90,
                 modules=[dict(name="k10_launcher", src=["harness/mod/k10_launcher.c"], exe=True),
                          dict(name="k10_launcher_config", src=["harness/mod/k10_launcher.c"], exe=True, flags=["-DK10_CONFIG"]),
                          dict(name="k10_real", src=["harness/mod/k10_real.c"], variant="plain", exe=True),
                          dict(name="k10_module", src=["harness/mod/k10_module.c"], variant="plain"),
                          dict(name="k10_module_unresolved", src=["harness/mod/k10_module.c"], variant="plain", flags=["-DK10_UNRESOLVED"], link=["-Wl,-z,lazy"])],
                 must=["deep trees", "programs started", "found in PATH", "through a link", "launchers of launchers", "dependencies shown", "commands", "settings printed", "launchers that cannot", "build trees", "build trees with configurations",
                       "installed trees", "a folder of that name first", "no program of that name first", "endless entries", "endless search paths", "empty search path", "long names", "endless commands",
                       "files refused", "opened", "opened again", "closed, stays", "closed, gone", "symbols found", "unresolved functions left", "library histories"])],
    rule="one case = one tree with one start of its launcher, or one history of 5 to 40 operations on up to four libraries; distinct = different tree, way of starting and arguments, or history",
    assumptions=["launchers are not renamed, and not called through a link to the file", "empty entries of PATH do not lead to the launcher", "what a second option of the launcher right after --command NAME means is unspecified"],
)

SPECS["K11"] = dict(
    technique="streams read on and compared with what was put in, a terminal's own rules applied to real pseudo terminals, owned objects that count themselves; under ASan/UBSan",
    note="Streams of marks, pieces of marks and look-alikes, in strings, files and a stream that gives few bytes at a time, are searched for a byte order mark and then read to the end. Coloured text is written to pseudo terminals, pipes, files and memory under generated TERM and EMACS; what a VT100 shows is compared character by character. Objects handed between owners report who lives.",
    stages=[dict(name="streams", src=["harness/k11_streams.cxx"], groups=["kwsys:kwsys", "kwsys:kwsys_c"], quick=24000, thorough=1500000,
                 must=["marks UTF-8", "marks UTF-16BE", "marks UTF-16LE", "marks UTF-32BE", "marks UTF-32LE", "no mark", "shorter than a mark", "marks cut off", "failed streams",
                       "coloured", "plain", "VT100 assumed", "within emacs", "a terminal", "a pipe", "a file", "memory",
                       "assigned to themselves", "assigned", "assigned from functions", "converted", "copied and left", "released", "reset to their own", "consumed", "passed through", "ownership histories"])],
    rule="one case = six streams, one history of coloured texts, one history of 5 to 40 operations on eight owners; distinct = different content or history",
    assumptions=["a stream without mark is read from where it was", "whether a pipe said to be a terminal gets colours is unspecified", "an object that asks its own owner while being destroyed is unspecified"],
)

SPECS["U01"] = dict(
    technique="comparison with direct definitions, clocks bracketed and adjusted from outside, and real programs and modules in hostile places, under ASan/UBSan",
    note="Tokens and matrix cells are compared with what a direct walk finds; timers are read between two readings of the system's own clocks while the wall clock is set back and forth; programs and modules are copied into folders of every kind of name, started in every way, moved while they run, and asked where they are.",
    stages=[dict(name="utilities", src=["harness/u01_utilities.cxx"], groups=VT, quick=6000, thorough=400000, case_timeout=90,
                 modules=[dict(name="u01_exe", src=["harness/mod/u01_exe.cxx"], variant="plain", exe=True, repo=[("vital", r"/get_paths\.cxx$")]),
                          dict(name="u01_loader", src=["harness/mod/u01_exe.cxx"], variant="plain", exe=True, flags=["-DU01_LOADER"]),
                          dict(name="u01_module", src=["harness/mod/u01_module.cxx"], variant="plain", repo=[("vital", r"/get_paths\.cxx$")])],
                 must=["tokens trimmed", "tokens with empty ones", "no delimiter", "compressed matrices", "uncompressed matrices", "matrices without extent", "empty matrices", "matrices", "wide matrices", "iterators copied",
                       "wall timer running", "wall timer stopped", "CPU timer running", "CPU timer stopped", "wall clock adjusted", "scopes", "deep folders", "run through a link", "run by a relative name", "moved while running",
                       "modules asked", "programs asked"])],
    rule="one case = 6 texts, 4 matrices, sometimes a history of timers, sometimes a program in a folder; distinct = different text and delimiters",
    assumptions=["a timer is started before it is stopped", "a program or module whose file was removed is unspecified", "names of module folders hold no line feed"],
)

SPECS["K07"] = dict(
    technique="comparison with direct definitions on random and hostile texts in exactly sized buffers, and the environment read back from the process and its children, under ASan/UBSan",
    note="Every helper is compared with a definition written out here: on texts with zero bytes, bytes beyond ASCII, null pointers, own text as argument, lengths around internal buffers. Formats are printed to learn their length. Histories of environment operations are compared with the process's own table after each step, and with what a child sees.",
    stages=[dict(name="strings", src=["harness/k07_strings.cxx"], groups=KW + ["kwsys:kwsys_c"], quick=16000, thorough=1200000, case_timeout=60,
                 must=["case changed", "identifiers", "cropped", "replaced", "own text as argument", "zero bytes inside", "characters removed", "found", "null strings", "escaped", "differ without case", "equal without case",
                       "split", "last part open", "last part closed", "lines", "long lines", "lines cut", "last lines without newline", "formats", "long formatted text", "dates", "no dates", "long dates", "empty dates", "waits", "waits of a second",
                       "commands", "many arguments", "long arguments", "no program", "program alone", "program with arguments", "program of PATH", "no program of PATH", "URLs", "no URLs", "variables set", "variables removed", "variables removed by PutEnv", "no name",
                       "variables missing", "variables read", "children asked", "lists of folders", "terminal widths"])],
    rule="one case = some 45 calls or groups of calls and sometimes a history of the environment; distinct = different text",
    assumptions=["letters and spaces are those of ASCII (locale C.UTF-8)", "program files do not end in blanks", "URLs are well formed or have no '://'", "COLUMNS is a decimal number or none at all", "invalid conversion specifications are only printed, not compared"],
)

SPECS["P01"] = dict(
    technique="reference-model monitoring of the Python objects over an instrumented library, under ASan/UBSan",
    note="The bindings' sources are read from the tree and run under Python 3 by a layer that replaces only what Python 3 spells differently; byte strings stand for Python 2 strings. Histories on every class are compared with plain models and with what C++ sees behind the handles; destructors that fail are caught by the interpreter's own hook; the library underneath is instrumented.",
    stages=[dict(name="python", script="harness/py/p01_driver.py", quick=1200, thorough=60000, case_timeout=90,
                 modules=[dict(name="p01_lib", src=["harness/mod/p01_lib.cxx"], repo=[(g, None) for g in VT + ["vital_apm", "vital_c"]])],
                 must=["config histories", "config files", "image rounds", "track rounds", "camera rounds", "algorithm rounds", "algorithm runs", "plugin rounds", "libraries found", "libraries missing",
                       "missing values refused", "truths", "views", "copies", "merges", "read only", "no description", "string of nothing", "strings", "errors raised", "errors kept", "masks", "colour pictures", "grey pictures", "images shared", "dropped objects leave nothing"])],
    rule="one case = one history on configuration blocks, or one round on files, images, tracks, cameras, algorithms, plugins and errors, or the library search; distinct = different operations and contents",
    assumptions=["Python 2 is not installed: the sources run through the layer in harness/py/py2shim.py", "the picture library is a stand-in that decodes as the real one documents", "values hold no null characters"],
)

SPECS["E01"] = dict(
    technique="comparison of thrown exceptions with what failed, in their own thread, kept and seen by others, under ASan/UBSan",
    note="Every exception class is thrown with random data whose originals are overwritten before it is caught, kept, copied, thrown again and read by several threads; every refusal of configuration blocks and files, cameras, landmarks, tracks, images and homographies is provoked with random names and its class, data, message and logged place are compared with what was refused.",
    stages=[dict(name="errors", src=["harness/e01_errors.cxx"], groups=VT, quick=1500, thorough=200000,
                 must=["exception classes", "exceptions seen by several threads", "nothing to say", "long messages", "missing value", "files_that_cannot_be_opened", "bad number", "set of a read only value", "errors inside views", "missing config file", "malformed line", "missing include", "open block",
                       "end without block", "missing camera", "malformed camera", "malformed landmarks", "malformed tracks", "no cameras", "image into a file", "row out of range", "no inverse", "point at infinity", "frames that do not meet"])],
    rule="one case = all 31 exception classes with one set of data, then the refusals of one configuration block, one configuration file and one set of values, every fourth case also of all file readers and writers; distinct = different draws",
    assumptions=["the wording of messages is free as long as it holds what failed", "inside a view the key may be named with or without the view's prefix"],
)
