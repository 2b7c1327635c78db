"""The properties; bin/gen.py writes properties.jsonl and MANIFEST.json from here and specs.py."""
P = []

def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

CB = "vital/config/config_block.cxx"
p("C01", "A configuration behaves as one keyed store seen through views, copies and merges",
  "After any sequence of set, unset, mark-read-only, view, copy and merge operations, every handle onto a configuration shows exactly the entries (value, description, read-only mark, source location) that sequence left in the underlying store: views of any depth read and write through to it, copies are independent of it, entries of the global namespace stay visible from every view. Setting or removing a read-only entry through any handle is refused with the documented exception and changes nothing; reading or removing a missing entry is reported as missing.",
  ["histories"], "every sequence of operations on blocks, nested views, copies and merges, over keys that share prefixes",
  "the unit tests run about a dozen fixed histories, never deeper than one view and never mixing views with read-only marks, merges and source locations",
  [CB, "vital/config/config_block.h"],
  [("value store and read-only list", CB), ("views delegate to their parent with the block prefix", CB)],
  ["return values and exceptions of every operation", "complete enumeration of every live handle after each operation"])

p("C02", "Typed configuration values survive storage; unusable text is refused",
  "A value of any supported type that is stored in a configuration and read back as that type is the same value, bit for bit for finite floating point numbers (strings: without surrounding white space), including through views, copies and merges, and whatever global locale the application has chosen. Reading text that does not start with a spelling of the requested type, or is out of its range, raises the documented bad-cast error (or gives the caller's default when one was passed) and never yields an uninitialised value; the accepted spellings of booleans and times are honoured case by case.",
  ["inputs"], "every value of the supported arithmetic, boolean, string, path and time types, and every text",
  "the tests convert a handful of small numbers; loss of precision, trailing text and uninitialised results only show on other values",
  ["vital/config/config_block.h", CB, "vital/types/timestamp_config.h"],
  [("string conversion of values", "vital/config/config_block.h"), ("timestamp conversion", "vital/types/timestamp_config.h")],
  ["value returned", "exception raised"])

p("C03", "A configuration written to a file and read back is the same configuration",
  "For every configuration whose entries can be spelled in the configuration language, writing it to a file and reading that file gives exactly the same set of keys with the same values; in the file each entry has its description above it, word for word as comments, and its place of definition below it. The write does not alter the configuration, and a configuration that cannot be written is reported and leaves an existing file as it was.",
  ["inputs", "configurations"], "every configuration with keys and values expressible in the language: any hierarchy, long values, descriptions of any length and content",
  "one fixed configuration is written and read by the tests; descriptions that wrap, read-only entries and unusual key shapes are not",
  ["vital/config/config_block_io.cxx", "vital/config/config_parser.cxx"],
  [("file writer with wrapped comments", "vital/config/config_block_io.cxx"), ("parser", "vital/config/config_parser.cxx")],
  ["file content", "configuration read back"])

p("C04", "Configuration files mean what the configuration language defines",
  "Reading a configuration file yields exactly the entries the documented language assigns to its text: nested blocks, relative paths, read-only flags, local symbols and macro expansion from configuration, environment and system, comments, includes and later entries overriding earlier ones. Each entry carries the file and line it came from, and text outside the language is refused with the documented error instead of being accepted with another meaning.",
  ["inputs", "programs"], "every configuration file built from the documented constructs, nested, included and ill-formed in any combination",
  "the tests read about ten fixed files; the meaning of combinations (a macro in an included file inside a block, an override of a read-only entry) is never exercised",
  ["vital/config/config_parser.cxx", "vital/config/token_expander.cxx", "vital/config/token_type_symtab.cxx", "vital/config/token_type_env.cxx", "vital/config/token_type_config.cxx"],
  [("recursive-descent parser", "vital/config/config_parser.cxx"), ("macro expansion", "vital/config/token_expander.cxx")],
  ["entries, flags and locations of the parsed configuration", "exception raised, its file and line"])

p("C05", "Hostile configuration text never crashes, hangs or corrupts memory",
  "Any byte sequence given as a configuration file (and as files it includes) either yields a configuration or raises one of the documented configuration errors: no memory error, no undefined behaviour, no unbounded recursion or loop, no other exception. After a refused input the same process reads the next, valid file correctly.",
  ["inputs"], "every byte sequence, every include structure including cycles, arbitrarily long lines and arbitrarily many nested blocks",
  "tests hold a few polite syntax errors; memory and termination guarantees are about all inputs",
  ["vital/config/config_parser.cxx", "vital/config/token_expander.cxx", "vital/config/config_block_io.cxx"],
  [("line reader, block stack and include stack", "vital/config/config_parser.cxx")],
  ["sanitizer reports", "exception types", "wall time per input"])

p("C06", "Configuration files are found and merged in the documented precedence order",
  "Looking a configuration up by name searches the documented locations (user overrides from the environment, per-user and system application folders with and without version, installation prefix) in the documented order; with merging on, every readable file found contributes and an entry from a higher-precedence location always wins, with merging off exactly the highest-precedence file is used. A file that exists nowhere is reported as not found.",
  ["configurations"], "every subset of locations holding the file, every overlap of their entries, every environment",
  "the tests cover two fixed layouts of the search path",
  ["vital/config/config_block_io.cxx"],
  [("search path construction", "vital/config/config_block_io.cxx"), ("merge in reverse order", "vital/config/config_block_io.cxx")],
  ["entries of the resulting configuration", "files opened"])

p("T01", "Images address, copy, share and compare pixels correctly in every layout",
  "For any width, height, depth and memory layout (interleaved, planar, negative or padded steps, sub-windows of larger buffers), each pixel access reads and writes exactly the addressed byte inside the image's memory, and an out-of-range access is refused. A deep copy holds equal pixels, in new memory unless the destination already had that size; a shallow copy shares the memory and keeps it alive, and comparison answers by pixel content and size alone, whatever the layouts.",
  ["inputs", "histories"], "every size including empty, every layout, every sequence of copy, assign, resize and access",
  "tests use a few small images in two layouts; sharing histories and negative steps are not exercised, and no sanitizer watches",
  ["vital/types/image.cxx", "vital/types/image.h", "vital/types/image_container.h"],
  [("step arithmetic", "vital/types/image.h"), ("deep copy and comparison", "vital/types/image.cxx"), ("shared memory block", "vital/types/image.cxx")],
  ["pixel values", "addresses", "sanitizer reports"])

p("T02", "A track keeps its states in strictly increasing frame order",
  "After any sequence of appending states or whole tracks, a track holds exactly the states whose append was accepted, in strictly increasing frame order; an append that would break the order is refused, reported, and changes neither track. Looking up any frame finds the state of that frame when there is one and nothing otherwise, and first frame, last frame, size and emptiness agree with the contents.",
  ["histories"], "every sequence of appends of states and tracks with any frame numbers",
  "tests append a few fixed sequences; look-ups are on contiguous tracks only",
  ["vital/types/track.cxx", "vital/types/track.h"],
  [("append checks", "vital/types/track.cxx"), ("binary search look-up", "vital/types/track.cxx")],
  ["return values", "full contents after each operation"])

p("T03", "Track-set queries agree with their definition over the member tracks",
  "For every track set and every frame (absolute, or counted back from the last one), the active, inactive, new and terminated tracks, the features and descriptors on a frame, the frame range and the track identifiers are exactly those a scan of all member tracks defines. The percentage of tracks continued and the common-track queries agree with them and stay in range.",
  ["inputs"], "every set of tracks with gaps, overlaps, negative offsets and empty members, every query frame",
  "tests use one synthetic set with few frames",
  ["vital/types/track_set.cxx", "vital/types/track_set.h"],
  [("frame offset and scans", "vital/types/track_set.cxx")],
  ["result of every query compared with a direct scan"])

p("T04", "Timestamps order consistently and print what they hold",
  "Comparison of timestamps is decided by time when both have time in the same domain, by frame number when both have one, and never claims an order between timestamps of different time domains or without comparable parts; among timestamps compared by the same part it is a total order consistent with equality. Setting and clearing time, frame and domain changes exactly what was named, and validity always agrees with what is held.",
  ["histories", "inputs"], "all pairs and triples of timestamps over all validity and domain combinations and extreme values, all set/invalidate sequences",
  "tests compare a few fixed pairs",
  ["vital/types/timestamp.cxx", "vital/types/timestamp.h"],
  [("comparison", "vital/types/timestamp.cxx")],
  ["comparison results", "accessors and printed text"])

p("T05", "Rotations and similarity transforms obey their algebra in every representation",
  "Converting a rotation between quaternion, matrix, axis-angle vector and yaw-pitch-roll (pitch not vertical), composing, inverting and applying it agree with one another and with ordinary matrix algebra within rounding for every orientation, including zero and half-turn rotations; interpolation starts and ends at its arguments and moves along the shortest arc at uniform rate. Similarity transforms compose, invert, convert to and from matrices and apply to points consistently, and an invalid matrix is refused without leaving an undefined transform.",
  ["inputs"], "all orientations, scales and translations, including degenerate ones, in both precisions",
  "tests use a handful of orientations; singular orientations and the choice of representation only matter elsewhere",
  ["vital/types/rotation.cxx", "vital/types/similarity.cxx", "vital/types/matrix.h"],
  [("representation conversion", "vital/types/rotation.cxx"), ("similarity from matrix", "vital/types/similarity.cxx")],
  ["results compared with long-double reference algebra"])

p("T06", "Camera projection, pose and lens model agree with their definitions",
  "A camera's center, translation and rotation stay mutually consistent however it was built or modified; projection of a point equals the calibration, lens distortion and pose applied in sequence, depth has the sign of the side of the camera the point lies on, and aiming a camera at a point centers that point with the requested up direction (not along the view). The lens model maps and unmaps points as inverses for distortions of the strength real lenses have, for any number of distortion coefficients.",
  ["inputs"], "all poses, calibrations, distortion coefficient counts and points in front of or behind the camera",
  "tests use a few poses and one or two distortion models",
  ["vital/types/camera.cxx", "vital/types/camera_intrinsics.cxx"],
  [("projection", "vital/types/camera.cxx"), ("distortion and its iterative inverse", "vital/types/camera_intrinsics.cxx")],
  ["results compared with an independent reference model"])

p("T07", "Homographies map, invert and compose points exactly as their matrices",
  "Mapping a point through a homography equals the homogeneous matrix product and refuses points that map to infinity; inversion, normalisation, cloning, precision conversion and composition preserve the mapping up to scale, and a non-invertible homography is refused. Frame-to-frame homographies compose and invert only when their frames chain, carrying the right source and destination; frame-to-reference homographies keep their frame, and copies of either are independent.",
  ["inputs", "histories"], "all invertible and singular matrices, points at infinity, both precisions, all chains of frames",
  "tests cover one or two matrices per operation",
  ["vital/types/homography.cxx", "vital/types/homography_f2f.cxx", "vital/types/homography_f2w.cxx"],
  [("point map and guard", "vital/types/homography.cxx"), ("frame check in composition", "vital/types/homography_f2f.cxx")],
  ["results and exceptions compared with matrix algebra"])

p("T08", "Essential and fundamental matrices are valid and decompose consistently",
  "Every essential matrix built from a matrix has two equal singular values and one zero, is unchanged up to scale when the input was already essential, and its rotation, twisted pair and translation reproduce it; one built from a pose reproduces that pose. Every fundamental matrix built has rank two and is the closest such matrix up to scale to its input.",
  ["inputs"], "all 3x3 matrices, all relative poses, both precisions",
  "tests use one matrix and one pose",
  ["vital/types/essential_matrix.cxx", "vital/types/fundamental_matrix.cxx"],
  [("projection onto the manifold by SVD", "vital/types/essential_matrix.cxx")],
  ["singular values and products compared with a reference"])

p("T09", "Covariances, features, landmarks and descriptors survive copies and conversions",
  "A covariance holds the symmetric part of what it was built from, in every dimension and precision, and each element read or written is the one addressed from either side of the diagonal. Features, landmarks, descriptors and colours convert between precisions, copy and clone without losing or aliasing any field, no field is left undefined, and sets hold exactly what they were given. Converting a descriptor to bytes or doubles preserves its contents.",
  ["inputs"], "all dimensions, precisions and field values",
  "tests cover a few dimensions and never convert the larger ones",
  ["vital/types/covariance.h", "vital/types/feature.cxx", "vital/types/landmark.cxx", "vital/types/descriptor.h", "vital/types/color.h"],
  [("packed triangular storage", "vital/types/covariance.h")],
  ["every element and field"])

p("I01", "Camera files hold what was written, for single cameras and camera maps",
  "A camera written to a file and read back has the same calibration, lens distortion, pose and therefore the same projection of every point, up to the rounding of text at full precision, whatever global locale the application has chosen. A directory of cameras reads back as one entry per named image that has a camera file, under the number of that image; when no image has one, or the directory is missing, an error is raised.",
  ["inputs"], "all poses, calibrations and distortion models; all sets of named images",
  "one camera without distortion is written and read in the tests",
  ["vital/io/camera_io.cxx", "vital/io/camera_map_io.cxx", "vital/io/eigen_io.h", "vital/types/camera.cxx"],
  [("text form of a camera", "vital/types/camera.cxx"), ("matrix reader", "vital/io/eigen_io.h")],
  ["camera read back compared field by field and by projection"])

p("I02", "Landmark and track files hold what was written",
  "Landmarks written to a file and read back have the same identifiers, the same positions and colours, and none is lost, duplicated or added; the same holds for the tracks of a track file: identifiers, frames, order and feature positions, scales and colours where given. Values come back at the precision they were held in, whatever global locale the application has chosen.",
  ["inputs"], "all finite coordinates, identifiers and colours, all sizes including empty",
  "one small fixed set is written and read in the tests",
  ["vital/io/landmark_map_io.cxx", "vital/io/track_set_io.cxx"],
  [("PLY reader and writer", "vital/io/landmark_map_io.cxx"), ("line format of tracks", "vital/io/track_set_io.cxx")],
  ["data read back compared with data written"])

p("I03", "Malformed data files are refused without memory errors or invented data",
  "For any byte sequence offered as a camera, landmark or track file, and for missing files, directories and truncated files, reading either gives data that is spelled in the file or raises a documented input error: no memory error, no uninitialised value, no leak on the error path, no endless loop.",
  ["inputs"], "every byte sequence, every truncation and corruption of valid files",
  "tests read valid files and check a missing file",
  ["vital/io/camera_io.cxx", "vital/io/landmark_map_io.cxx", "vital/io/track_set_io.cxx", "vital/io/eigen_io.h"],
  [("readers", "vital/io")],
  ["sanitizer reports", "exception types", "allocation balance"])

p("I04", "A write that did not reach the file is always reported",
  "Whenever any writer of configurations, cameras, landmarks or tracks returns without an error, the complete content is in the file; when the target cannot be opened, the disk is full or any write fails part-way, the documented write error is raised. No failing system call during a write goes unreported, whichever it is.",
  ["fault_sequences", "crash_points"], "every point at which opening, writing or closing the output can fail, for every writer",
  "no test injects an output failure",
  ["vital/config/config_block_io.cxx", "vital/io/camera_io.cxx", "vital/io/landmark_map_io.cxx", "vital/io/track_set_io.cxx"],
  [("stream checks after writing", "vital/io")],
  ["exception raised", "file content after the call"])

p("A01", "Algorithms are created, configured and checked as their configuration says",
  "Every registered implementation is listed under its algorithm type once, can be created by name, and creation by an unknown name is refused; registering leaves every other implementation as it was. Configuring a nested algorithm from a configuration creates precisely the implementation named there with precisely the entries of its own block, reading the configuration back gives the same entries, and a configuration check accepts a configuration exactly when it names a registered implementation whose own check accepts its block, at every nesting level.",
  ["configurations", "histories"], "every set of registered implementations and every nested configuration, valid or not",
  "tests register one or two implementations and check a few blocks",
  ["vital/algo/algorithm.cxx", "vital/algo/algorithm.txx", "vital/algo/algorithm.h", "vital/registrar.cxx", "vital/registrar.h"],
  [("item registry", "vital/registrar.h"), ("nested configuration", "vital/algo/algorithm.cxx")],
  ["created object's type, name and received configuration", "registry listing"])

p("A02", "Algorithm interfaces hand implementations exactly the right data",
  "The generic front ends of the algorithms (matching to points for homography, fundamental and essential estimation, pairing of cameras or landmarks for similarity estimation, per-frame correspondences for camera optimisation, feature filtering with descriptors, image file guards) pass each implementation exactly the items the arguments select, correctly paired and in order, and return its result unchanged. Missing maps or tracks, files that are missing or no files, and folders that are missing or no folders are refused with the documented error and never reach the implementation. Every implementation carries its interface's type name and logger, copies as an object of its own kind, gets the documented default where an argument is left out, and gets from its base class the right UTM zone for any longitude.",
  ["inputs"], "every combination of argument sizes, indices, missing entries and null items",
  "tests call few of these with mock implementations and one input each",
  ["vital/algo/estimate_homography.cxx", "vital/algo/estimate_fundamental_matrix.cxx", "vital/algo/estimate_essential_matrix.cxx", "vital/algo/estimate_similarity_transform.cxx", "vital/algo/optimize_cameras.cxx", "vital/algo/filter_features.cxx", "vital/algo/image_io.cxx", "vital/algo/convert_image.cxx", "vital/algo/geo_map.cxx"],
  [("adapters in algorithm base classes", "vital/algo")],
  ["arguments received by a recording implementation"])

p("A03", "Plugins are discovered, registered once and stay usable",
  "Loading plugins opens exactly the plugin modules found in the search directories in order, honouring a requested name and the environment's extra paths, and registers the implementations of each module once; a module that is not a plugin, is broken or fails to register is skipped without affecting the others. Implementations registered from a module stay creatable and usable for as long as the process runs, whatever is loaded or refused afterwards.",
  ["configurations", "histories", "fault_sequences"], "every mix of good, broken, partial and foreign modules across search directories, every sequence of load and refresh calls",
  "tests load no real plugin module",
  ["vital/algorithm_plugin_manager.cxx", "vital/registrar.cxx", "vital/util/get_paths.cxx"],
  [("search paths and loading", "vital/algorithm_plugin_manager.cxx")],
  ["registry content", "modules mapped in the process", "objects created from plugins"])

p("B01", "Objects held through the C interface live exactly as long as they are referenced",
  "An object obtained through the C interface stays valid until every reference to it was given up, whichever handles, containers or other objects hold it and in whatever order they are released, and is freed then: no use after free, no double free, no leak. Handing an object into a container or another object shares it rather than copying it.",
  ["histories"], "every interleaving of creation, sharing, look-up and destruction of images, containers, tracks, track sets, cameras, configurations and algorithms",
  "the C interface has no test of its own",
  ["vital/bindings/c/helpers/c_utils.h", "vital/bindings/c/image_container.cxx", "vital/bindings/c/track_set.cxx", "vital/bindings/c/track.cxx", "vital/bindings/c/camera_map.cxx", "vital/bindings/c/config_block.cxx", "vital/bindings/c/algorithm.cxx"],
  [("shared pointer cache with reference counts", "vital/bindings/c/helpers/c_utils.h")],
  ["sanitizer reports", "live allocation balance", "contents after release of other handles"])

p("B02", "The C interface does what the C++ interface does and reports every error",
  "Each C function gives the same result as the C++ operation it stands for, and strings and lists it returns are complete and owned by the caller. Every C++ failure surfaces as a nonzero error code with its message in the error handle, or as the documented null result, never as an exception or a crash, also when no error handle is passed; after success a fresh handle reports no error.",
  ["inputs", "histories"], "every call with valid, invalid and null arguments, with and without an error handle, in any order",
  "the C interface has no test of its own",
  ["vital/bindings/c/config_block.cxx", "vital/bindings/c/camera.cxx", "vital/bindings/c/image.cxx", "vital/bindings/c/algorithm.cxx", "vital/bindings/c/error_handle.cxx", "vital/bindings/c/common.cxx", "vital/bindings/c/helpers/c_utils.h"],
  [("exception firewall", "vital/bindings/c/helpers/c_utils.h"), ("string lists", "vital/bindings/c/common.cxx")],
  ["return values against the C++ interface", "error handle content", "sanitizer reports"])

p("L01", "Every enabled log message is emitted once, whole and labelled; others never",
  "A nonempty message logged at or above a logger's level through any of the logging macros or functions appears exactly once, whole and uninterrupted, each of its lines carrying the right time, level and source position; a message below the level does not appear and the arguments of its macro are not evaluated. This holds from any number of threads, with levels changed at run time; messages of one thread keep their order.",
  ["schedules", "inputs"], "every level setting, message content and interleaving of logging threads",
  "the tests print some messages and look at nothing",
  ["vital/logger/default_logger.cxx", "vital/logger/logger.h", "vital/logger/kwiver_logger_manager.cxx", "vital/logger/location_info.cxx"],
  [("level test in the logging macros", "vital/logger/logger.h"), ("lock around output", "vital/logger/default_logger.cxx")],
  ["complete captured output compared with the calls made"])

p("X01", "Independent use from several threads is free of data races",
  "Threads that at the same time use unrelated objects (through C++ or through the handles of the C interface), only read the same object, or use the process-wide facilities (loggers, plugin manager, algorithm registry look-up, configuration reading) never race: every thread gets the result it would get alone. One-time initialisation happens exactly once however many threads arrive first.",
  ["schedules"], "all interleavings of threads reading configurations, logging, converting and creating algorithms, including first use",
  "all tests are single-threaded",
  ["vital/config/config_parser.cxx", "vital/config/token_expander.cxx", "vital/logger/kwiver_logger_manager.cxx", "vital/logger/default_logger.cxx", "vital/algorithm_plugin_manager.cxx", "vital/registrar.cxx"],
  [("function-local statics and singletons", "vital")],
  ["race detector reports", "per-thread results against a single-threaded run"])

p("K01", "Path manipulation obeys path algebra for every spelling of a path",
  "Splitting and joining, collapsing to a full path, computing relative paths, taking directory, base name and extension, and converting separators agree with the POSIX meaning of paths for every spelling (repeated and trailing separators, dot segments, spaces, empty components). In particular a path split and joined names the same file, collapsing is idempotent, and a relative path applied to its origin leads to its target.",
  ["inputs"], "every path string",
  "tests check a fixed table of paths",
  ["vital/kwiversys/SystemTools.cxx"],
  [("path splitting and collapsing", "vital/kwiversys/SystemTools.cxx")],
  ["results compared with an independent implementation"])

p("K02", "Regular expression matching finds what the pattern defines",
  "For every pattern in the supported syntax and every text, a match is found exactly when one exists, at the leftmost position, and the reported whole match and groups are substrings of the text that the pattern accepts at those positions. Copies of a compiled expression behave identically, an invalid pattern is refused, and no pattern or text causes a memory error.",
  ["inputs"], "every pattern over the documented operators and every text",
  "no test compares matching against a definition",
  ["vital/kwiversys/RegularExpression.cxx", "vital/kwiversys/RegularExpression.hxx.in"],
  [("compiled program and matcher", "vital/kwiversys/RegularExpression.cxx")],
  ["match results compared with an independent matcher"])

p("K03", "Base64, MD5 and character encoding are exact for all data",
  "Encoding any bytes in Base64 gives the standard text and decoding gives back exactly the bytes, with the number of bytes never exceeding the space promised and malformed text never read or written out of bounds. The MD5 of any data, fed in pieces of any sizes, is the standard digest, and converting text between narrow and wide form and back is the identity for every valid string.",
  ["inputs"], "all byte strings of all lengths, all ways to split them, all Unicode strings",
  "tests use a few fixed strings",
  ["vital/kwiversys/Base64.c", "vital/kwiversys/MD5.c", "vital/kwiversys/EncodingC.c", "vital/kwiversys/EncodingCXX.cxx"],
  [("codec loops and padding", "vital/kwiversys/Base64.c"), ("block buffering", "vital/kwiversys/MD5.c")],
  ["output compared with an independent implementation", "guard bytes around buffers"])

p("K04", "Command line parsing assigns every argument exactly as declared",
  "For any set of declared options and any argument vector, each option receives precisely the values the declared form gives it (attached, spaced, with equals sign, multi-value, boolean or callback), converted to its type, and nothing else is taken for it. Unknown arguments are reported, or stored with the ones after them still recognised; the arguments not consumed are returned in order and complete, and an option missing its value makes parsing fail. No declaration or argument causes a memory error, in parsing or in the help.",
  ["inputs", "configurations"], "every option declaration and argument vector",
  "tests run two fixed command lines",
  ["vital/kwiversys/CommandLineArguments.cxx"],
  [("longest match of argument names", "vital/kwiversys/CommandLineArguments.cxx")],
  ["variables, callbacks and remaining arguments compared with a model"])

p("K05", "A child process' output, status and lifetime are reported faithfully",
  "Running a child process or pipeline delivers all bytes it wrote on each pipe, in order and complete, whatever the sizes and timing, and reports its true exit code or signal; timeouts and kills end it, report that, and leave no child or descriptor behind. A program that cannot be started is reported as an error, and arguments reach the child unchanged.",
  ["schedules", "fault_sequences", "inputs"], "all output volumes and timings, exit codes, signals, pipelines, timeouts and cancellation points",
  "tests run fixed children; descriptor leaks, large mixed output and kill timing are not observed",
  ["vital/kwiversys/ProcessUNIX.c"],
  [("fork, pipes and select loop", "vital/kwiversys/ProcessUNIX.c"), ("SIGCHLD bookkeeping", "vital/kwiversys/ProcessUNIX.c")],
  ["bytes received", "state, exit value and exception", "open descriptors and children afterwards"])

p("K06", "File system helpers do to the disk exactly what they say",
  "Creating, copying, comparing, removing, linking, touching and testing files and directories leave the disk exactly as their definition says and report failure whenever they did not; nothing outside the named target is changed, and symbolic links are removed rather than followed. Directory listings and glob patterns return each matching entry once and nothing else.",
  ["histories", "fault_sequences"], "every sequence of operations over every tree of files, directories and links, including unwritable and missing targets",
  "tests touch a few fixed files",
  ["vital/kwiversys/SystemTools.cxx", "vital/kwiversys/Directory.cxx", "vital/kwiversys/Glob.cxx"],
  [("file operations", "vital/kwiversys/SystemTools.cxx"), ("recursive matching", "vital/kwiversys/Glob.cxx")],
  ["complete snapshot of a scratch tree compared with a model"])

p("K07", "String and environment helpers agree with their definitions",
  "Case conversion, splitting, trimming, replacing, counting, comparison, cropping and quoting of strings give the defined result for every input, with no memory error at any length. Reading lines from a stream, splitting command lines, parsing URLs and compile dates, and sizing formatted text do likewise. Setting, reading and removing environment variables through the library is what the process and its children see, with no stale value and no use of freed storage.",
  ["inputs", "histories"], "every string and every sequence of environment operations",
  "tests check a few strings",
  ["vital/kwiversys/SystemTools.cxx", "vital/kwiversys/String.c", "vital/kwiversys/System.c"],
  [("string helpers", "vital/kwiversys/SystemTools.cxx"), ("environment bookkeeping", "vital/kwiversys/SystemTools.cxx")],
  ["results compared with an independent implementation", "environment of the process"])

p("K08", "Hash containers behave as the standard containers",
  "After any sequence of insertions, erasures, look-ups, copies, swaps, clears and resizes, the hash maps, sets and their multi versions hold exactly what the standard container holds after the same sequence; iteration visits each element once, and counts, ranges and look-ups agree. Memory is neither leaked nor misused at any size.",
  ["histories"], "every sequence of container operations, with colliding keys and growth across resize thresholds",
  "one test inserts a dozen strings",
  ["vital/kwiversys/hashtable.hxx.in", "vital/kwiversys/hash_map.hxx.in", "vital/kwiversys/hash_set.hxx.in"],
  [("bucket lists and rehashing", "vital/kwiversys/hashtable.hxx.in")],
  ["complete content after each operation compared with the standard container"])

p("K09", "System information agrees with what the kernel reports",
  "Processor counts, identity, clock, cache and features, memory sizes, use and limits, host and system names and the load reported are those the kernel's tables and calls state, for every well-formed table. A table that is missing, unreadable, empty, cut off or garbled gives the documented default, with no memory error, exception, endless loop or value that spans lines, and reading takes memory in proportion to the table. Call stacks name the functions called. Reporting fatal signals names the signal, its reason and the stack and ends the process; switched off, every handler is what it was before.",
  ["inputs", "fault_sequences"], "every processor, memory and status table, system name, interface list and limit, and every history of switching reports on and off",
  "the one test prints what this machine reports",
  ["vital/kwiversys/SystemInformation.cxx"],
  [("table reading", "vital/kwiversys/SystemInformation.cxx"), ("stack and signal reports", "vital/kwiversys/SystemInformation.cxx")],
  ["values reported compared with the table the kernel's answer was replaced by", "dispositions read back from the kernel"])

p("K10", "Launchers and loaded libraries work from wherever they are",
  "A launcher made with SharedForward.h replaces itself by the real program of its build or install tree, however it was called and wherever the tree was moved: the program gets the arguments, environment, folder and process unchanged, and a library search path that begins with the tree's folders, keeps the old one and adds nothing else. Where that is impossible it says so and fails; over-long names, PATH entries and variables never overrun memory. A library opened through DynamicLoader stays until it was closed as often as it was opened, its symbols are its own, and failures are reported and change nothing.",
  ["inputs", "histories"], "every place, name, PATH, argument list and environment of a launcher, and every history of opening and closing libraries",
  "one launcher is run once from the build tree; one library is opened once",
  ["vital/kwiversys/SharedForward.h.in", "vital/kwiversys/DynamicLoader.cxx"],
  [("launcher", "vital/kwiversys/SharedForward.h.in"), ("library loading", "vital/kwiversys/DynamicLoader.cxx")],
  ["what the started program was given, reported by itself", "libraries' own account of being unloaded"])

p("K11", "Streams, terminals and owners keep their contracts",
  "Looking for a byte order mark recognises each mark exactly, leaves the stream right after it, or where it was when there is none, and readable in either case however short it is. Coloured output shows its text unchanged on every stream; only a terminal that knows colours gets control sequences, which give exactly the colours asked for and leave the terminal as it was. An object held by an owning pointer has one owner at any time, lives as long as it is owned and is destroyed once, through every transfer, conversion and reset.",
  ["inputs", "histories"], "every content and position of a stream, every colour, terminal and text, and every history of transfers of ownership",
  "one mark of each kind is read from whole files; one line is written in colour and looked at by a person; a fixed sequence of transfers",
  ["vital/kwiversys/FStream.cxx", "vital/kwiversys/Terminal.c", "vital/kwiversys/auto_ptr.hxx.in"],
  [("byte order marks", "vital/kwiversys/FStream.cxx"), ("coloured output", "vital/kwiversys/Terminal.c"), ("ownership", "vital/kwiversys/auto_ptr.hxx.in")],
  ["the rest of the stream compared with what was put in", "a terminal's rules applied to the bytes written", "objects' own count of themselves"])

p("U01", "Small utilities keep their contracts for every input",
  "Tokenising a string yields exactly the pieces between delimiters, with or without empty ones; enumerating a sparse matrix visits each stored element once with its row, column and value, however many rows or columns are empty. Measured times are never negative and agree with the time that passed, also when the wall clock is adjusted meanwhile, and the executable and module paths reported are those of the running program.",
  ["inputs"], "every string and every matrix",
  "tests cover a few fixed inputs",
  ["vital/util/tokenize.h", "vital/util/enumerate_matrix.h", "vital/util/wall_timer.h.in", "vital/util/cpu_timer.h.in", "vital/util/get_paths.cxx"],
  [("tokeniser", "vital/util/tokenize.h"), ("matrix iterator", "vital/util/enumerate_matrix.h")],
  ["results compared with a direct definition"])

p("P01", "Python objects mean what the C++ objects behind them mean",
  "Through the Python bindings, configuration blocks and their views and copies, images, image containers, tracks and track sets, cameras and camera maps, algorithms and the plugin manager answer and change exactly as the C++ objects behind them: what is set from Python is what C++ sees, and the reverse, for every value, description, pixel, state and camera, and files written are read back alike. A failed call raises the documented exception with the C++ message and changes nothing; a missing key or value gives the documented answer. An object stays usable for as long as it is referenced, whatever it was made from and whichever others are dropped; dropping an object, also one whose construction failed, releases it once, fails nowhere and leaves no file, descriptor or implementation behind. The library is found in the build folder, beside the package or on the search path, and reported missing otherwise.",
  ["inputs", "histories"], "every history of operations and drops over objects sharing storage, every failure",
  "the binding's tests need an interpreter and build option that are off, and look at single calls",
  ["vital/bindings/python/vital/config_block.py", "vital/bindings/python/vital/image.py", "vital/bindings/python/vital/image_container.py", "vital/bindings/python/vital/track.py", "vital/bindings/python/vital/track_set.py", "vital/bindings/python/vital/camera.py", "vital/bindings/python/vital/camera_map.py", "vital/bindings/python/vital/apm.py", "vital/bindings/python/vital/algo/algorithm.py", "vital/bindings/python/vital/util/VitalObject.py", "vital/bindings/python/vital/util/error_handle.py", "vital/bindings/python/vital/util/find_vital_library.py.in"],
  [("Python bindings", "vital/bindings/python")],
  ["return values of Python calls, the objects' state as C++ sees it, and exceptions in destructors"])

p("E01", "Failures arrive as the documented exceptions and say what failed",
  "Every refused operation ends with the documented exception class, catchable as each of its documented bases, whose message and public data hold what failed: the key, the value and the attempted value, the type and the reason, the file or folder and, for text, the file and line (in the message or the log), the sizes that do not match. This holds for any content of those, for as long as the exception or a copy of it is kept, whatever became of the data it was made from, and in every thread that looks at it. The refused operation leaves its object and the file system as they were.",
  ["inputs", "fault_sequences"], "every refusal with any key, value, path and text",
  "tests check that something is thrown, seldom which class and never what it says",
  ["vital/exceptions/base.h", "vital/exceptions/base.cxx", "vital/exceptions/io.cxx", "vital/exceptions/math.cxx", "vital/exceptions/image.cxx", "vital/exceptions/algorithm.cxx", "vital/config/config_block_exception.cxx", "vital/config/config_block.h", "vital/config/config_parser.cxx", "vital/io"],
  [("exceptions", "vital/exceptions"), ("configuration exceptions", "vital/config")],
  ["class, message and data of caught exceptions, and the log"])
