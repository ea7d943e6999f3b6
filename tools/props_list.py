BASE = "Evidence by search, not proof: every case is one seeded, exactly repeatable execution of the real operator code under the simulator. Trusted: the source rewriter (every intercepted operation keeps its meaning), the simulated disk, and the oracle in sim/harness. Tasks switch only at intercepted operations. "
T9 = "The existing 9 tests call a few pure pixel functions once with fixed data; "

prop('P01', 'Image promises run exactly once, within the thread limit, in order',
 "Evaluating a set of lazily computed images runs each computation exactly once, never more than the thread limit at the same time, returns only after all have finished, and delivers the images in input order with rejected ones left out. If any computation fails, evaluation returns an error that contains every distinct failure, and if none fails it returns no error. In a chain of processing steps, with or without a reference selection among them, every image passes the steps in order, and no step runs for an image that failed or was rejected in an earlier one.",
 ['schedules', 'inputs', 'fault_sequences'], "for all numbers of images, thread limits, mixes of delivered, rejected and failing images, chains and nestings of steps, and task schedules",
 T9 + "none evaluates a promise, let alone under different schedules.",
 [O], [('bounded parallel evaluation and error collection', O + ': MaterializeAll'), ('unary operator promises', O + ': OpUnaryBase.MakePromise'), ('sequence composition', O + ': OpSequence.applyRecursive')],
 ['results, errors and call counts of evaluation'], note=BASE + "Promises are harness closures that record calls and overlap; also run with the Go race detector.",
 tech='deterministic simulation: seeded schedules over real evaluation code, call-count and order invariants, race detector')

prop('P02', 'Job results do not depend on thread count or scheduling',
 "For the same input files and settings, a stacking job writes the same output files with the same contents, or reports an error in both cases, whatever the number of threads and however the threads are scheduled.",
 ['schedules', 'inputs', 'configurations'], "for all sets of light frames with masters, stacking settings, CPU counts and task schedules",
 T9 + "none runs a job twice or with more than one thread.",
 [O, 'internal/ops/stack/stack.go', 'internal/ops/ref/refframe.go', 'internal/ops/pre/preprocess.go', 'internal/ops/post/postprocess.go'],
 [('reference selection under a lock', 'internal/ops/ref/refframe.go: OpSelectReference.applySingle'), ('lazy masters', 'internal/ops/pre/preprocess.go: OpCalibrate.init'), ('work packages on disjoint pixels', 'internal/ops/stack/stack.go: OpStack.Apply')],
 ['all output files of the job'], note=BASE + "Each case compares the complete output of a run with one CPU and the default schedule with a run with a drawn CPU count and schedule; the clock and the random seed are the same in both.")

prop('P03', 'Stacking combines every pixel as its mode documents',
 "Each pixel of a stack is the median, mean or outlier-rejecting mean (sigma, winsorized sigma, MAD, linear fit, or chosen by frame count) of exactly the valid values of that pixel in the stacked frames, weighted by exposure, inverse noise or inverse star size where requested, and is the reference background level where no frame has a valid value. The stack has the dimensions of the frames and the sum of their exposures, its pixels stay within the range of the stacked values, and the input frames are unchanged. Frames of different dimensions, no frames, or weights which are missing or unsupported give an error.",
 ['inputs', 'schedules', 'configurations'], "for all frame counts, dimensions, pixel values with missing (NaN) and outlying ones, modes, weights, clipping bounds, CPU counts and schedules of the work packages",
 T9 + "no stacking mode is tested.",
 ['internal/ops/stack/stack.go', 'internal/stats/stats.go', 'internal/qsort/qsort.go'],
 [('per-pixel stacking functions', 'internal/ops/stack/stack.go: StackMedian .. StackLinearFit'), ('weights', 'internal/ops/stack/stack.go: getWeights'), ('split into work packages', 'internal/ops/stack/stack.go: OpStack.Apply')],
 ['pixels, dimensions and exposure of the stack'], note=BASE + "Compared with a sequential float64 model at a relative tolerance of 2e-5; a pixel where a clipping decision is within rounding distance of its bound is only checked against the range of its values.")

prop('P04', 'Splitting a stack into memory-bounded batches neither loses nor repeats frames',
 "However small the memory limit, a batched stacking job either reports that the limit is too small or stacks every frame that was not rejected exactly once, and the mean stack it returns is the mean over all these frames with the sum of their exposures. No batch holds more frames than the memory limit has room for beside one working frame for each frame processed in parallel, masters, reference and running stack, and a frame that cannot be read fails the job. Only when every frame of a batch was rejected may the job report an error instead.",
 ['inputs', 'configurations', 'schedules', 'fault_sequences'], "for all frame counts and dimensions, memory limits, CPU counts, random assignments of frames to batches, rejected or failing frames, and schedules",
 T9 + "none reaches batching.",
 ['internal/ops/stack/stackbatches.go', 'internal/ops/stack/stack.go'],
 [('batch planning', 'internal/ops/stack/stackbatches.go: partition'), ('stack of stacks', 'internal/ops/stack/stack.go: StackIncremental, StackIncrementalFinalize')],
 ['frames entering each batch', 'final stack'], note=BASE + "The random permutation of frames into batches is drawn from the simulator's seed.")

prop('P05', 'Every light frame is calibrated, scaled and binned with the right masters',
 "Each light frame that leaves preprocessing equals the raw frame minus the dark, times the maximum of the flat divided by the flat (left alone where the flat is not positive), then scaled and offset, then averaged over complete bins, as configured, and keeps its exposure. Each calibration step applies its own masters, once, even when a job has several such steps; a master is loaded once per job and never modified. A master or light which is missing, unreadable or of different pixel count makes the job report an error, and no frame ever gets through uncalibrated.",
 ['inputs', 'schedules', 'fault_sequences', 'configurations'], "for all frames, masters, number formats, compression, degenerate flat pixels, scale, offset and bin sizes, read faults, thread counts and schedules",
 T9 + "calibration is not tested at all.",
 ['internal/ops/pre/preprocess.go', 'internal/ops/pre/badpixels.go', 'internal/fits/fits.go'],
 [('lazy loading of masters under a lock', 'internal/ops/pre/preprocess.go: OpCalibrate.init'), ('subtract and divide', 'internal/ops/pre/badpixels.go: Subtract, Divide'), ('binning', 'internal/fits/fits.go: NewImageBinNxN')],
 ['frames after preprocessing', 'opens of master files', 'job error'], state=[('CalFrames', 'masters shared by all frames of a job', O + ': Context')], note=BASE)

prop('P06', 'One reference frame per job, the documented one, seen by every frame',
 "A job selects at most one alignment and one histogram reference: the frame with the highest ratio of stars to star size, the one with the background closest to the median background, the one with the given position, the fourth of more than three channels, or the given file, and the earlier frame on ties. Every frame of the job, in later batches too, sees the same reference, is computed exactly once and comes through unchanged and in order. If no reference can be selected or the reference file cannot be read, the job reports an error.",
 ['schedules', 'inputs', 'fault_sequences', 'configurations'], "for all frame sets with ties and rejected frames, selection modes, thread counts, schedules, a second batch, and faults reading a reference file",
 T9 + "reference selection is not tested.",
 ['internal/ops/ref/refframe.go'],
 [('first task selects under a lock, others wait', 'internal/ops/ref/refframe.go: OpSelectReference.applySingle'), ('selection scores', 'internal/ops/ref/refframe.go: selectReferenceStarsOverHFR, selectReferenceMedianLoc')],
 ['reference stars, HFR, dimensions and background level seen by each frame'], state=[('AlignStars, AlignHFR, AlignNaxisn, MatchHisto', 'the references of the job', O + ': Context')], note=BASE)

prop('P07', 'Unusable frames are left out without affecting the others',
 "Adding frames without stars, or with fewer stars than the configured minimum, to the light frames of a job in one batch neither fails the job nor changes the resulting stack or its exposure, wherever the unusable frames stand in the order, unless one of them is rated best and becomes the reference.",
 ['inputs', 'schedules', 'configurations'], "for all sets of usable frames, numbers and positions of unusable ones, stacking modes and settings, thread counts and schedules",
 T9 + "none runs a job with a rejected frame.",
 ['internal/ops/post/postprocess.go', 'internal/ops/ref/filter.go', 'internal/ops/ref/refframe.go', O],
 [('frames rejected as nil', 'internal/ops/post/postprocess.go: OpAlign.Apply; internal/ops/ref/filter.go: OpFilter.Apply'), ('nil frames passed over', O + ': OpUnaryBase.MakePromise, RemoveNils')],
 ['output file of the job'], note=BASE + "Metamorphic: the same job is run with and without the unusable frames.")

prop('P08', 'The statistics file has exactly one correct row per processed frame',
 "After a job that reports success, the statistics file is complete (header, table, trailer), replaces any earlier file, and has exactly one row for each frame that was not rejected before, with that frame's number, minimum, mean, maximum, location, scale, star count and star size, whether the job ran in one pass or in batches. This holds wherever a job exports statistics - of the frames before the batches or within them, of the result of each batch or of the overall result - and for each of several statistics files of one job. A disk error or full disk while writing it makes the job report an error.",
 ['schedules', 'inputs', 'fault_sequences'], "for all frame sets, rejected frames, batches, repeated jobs, earlier files, disk faults and capacities, thread counts and schedules",
 T9 + "none writes statistics.",
 ['internal/ops/ref/exportstats.go'],
 [('rows written under a lock', 'internal/ops/ref/exportstats.go: OpExportStats.export'), ('footer after the last frame', 'internal/ops/operator.go: FinishStats; internal/ops/stack/stackbatches.go: Apply')],
 ['statistics file on disk', 'job error'], state=[('StatsExports', 'open statistics files and the images they still expect', O + ': Context')], note=BASE, level='exploration')

prop('P09', 'Image files are read exactly, or an error is reported',
 "Reading a FITS file (8, 16, 32 or 64 bit integers, 32 or 64 bit floats, plain or gzip) or TIFF file yields exactly the stored pixel values with zero offset and scale applied, the dimensions, exposure and pixel statistics, however the operating system splits the reads. A file that is truncated within its data, a damaged gzip stream or a failing open or read yields an error, never a partly filled image. Intact files are always accepted.",
 ['inputs', 'fault_sequences', 'schedules'], "for all supported number formats, dimensions, scalings, number notations, header lengths, splits of the byte stream, truncation points, read faults, and concurrent loads",
 T9 + "none reads a file.",
 ['internal/fits/read.go', 'internal/fits/tiff16.go'],
 [('header parser', 'internal/fits/read.go'), ('buffered conversion', 'internal/fits/read.go: readInt8Data .. readFloat64Data')],
 ['loaded image or error'], note=BASE + "Files come from an independent encoder in sim/harness/gen.go.")

prop('P10', 'A save that reports success has left the complete image on disk',
 "When saving an image as FITS (plain or gzip), TIFF or JPEG reports success, the file on disk is complete, decodable by an independent reader, has no remainder of an earlier file, and holds the image's dimensions and pixel values (within the format's quantisation, with missing values as zero). If opening, writing or closing fails or the disk is full, the save reports an error. Saving does not change the image in memory.",
 ['inputs', 'fault_sequences', 'schedules'], "for all images, formats, earlier file contents, disk faults at any operation, disk capacities, and concurrent saves",
 T9 + "none writes a file.",
 ['internal/fits/write.go', 'internal/fits/tiff16.go', 'internal/fits/writejpg.go', O],
 [('FITS writer', 'internal/fits/write.go'), ('TIFF and JPEG writers', 'internal/fits/tiff16.go, writejpg.go'), ('save operator', O + ': OpSave.Apply')],
 ['file contents after a reported success'], note=BASE)

prop('P20', 'Damaged or foreign input files are refused with an error',
 "Loading a file that is not a valid image in a supported format (missing or contradictory header entries, impossible dimensions, unknown number format, garbage, wrong suffix, truncated) reports an error or yields an image whose dimensions and pixel count agree; it never crashes, hangs or exhausts memory. A job with such a frame or master ends with an error.",
 ['inputs', 'fault_sequences', 'schedules'], "for all valid files with up to three damages to header values, cards, bytes or length, alone or among intact frames of a job, with short reads and schedules",
 T9 + "none reads a file, let alone a damaged one.",
 ['internal/fits/read.go', 'internal/fits/tiff16.go'],
 [('header checks', 'internal/fits/read.go: Image.Read'), ('format by suffix', 'internal/fits/read.go: ReadFile')],
 ['load result'], note=BASE)

prop('P18', 'Pixel operations transform each pixel exactly once, by the documented function',
 "Every tone, colour and sharpening operation (scaling, range normalisation, gamma, midtones, black point, partial gamma, blur, unsharp mask, RGB/HSL conversion, and hue, saturation, chroma and luminance adjustments) changes exactly the pixels and channels its settings select, each once, into the documented function of the input within rounding, whatever the image size, number of CPUs and order of the work packages.",
 ['inputs', 'configurations', 'schedules'], "for all operations and settings, image sizes from one pixel on, one or three channels, CPU counts and schedules of the work packages",
 T9 + "none applies a pixel operation.",
 ['internal/fits/pixelops.go', 'internal/fits/rgb.go', 'internal/ops/stretch/stretch.go', 'internal/ops/hsl/hsl.go'],
 [('work packages per CPU', 'internal/fits/pixelops.go: Image.ApplyPixelFunction and its relatives'), ('separable blur', 'internal/fits/pixelops.go: GaussFilter2D, UnsharpMask'), ('settings to function', 'internal/ops/stretch, internal/ops/hsl')],
 ['pixels after the operation'], note=BASE + "Pixels next to a threshold of the operation are not compared; a midtones black point below the singularity of the function is not modelled.")

prop('P26', 'Cosmetic correction, debayering, debanding and background removal are exact',
 "For each frame of a job: bad pixel removal replaces exactly the pixels deviating from their 3x3 (or same-colour) median by more than the given multiples of the standard deviation; debayering keeps the samples of the selected colour and averages the nearest ones elsewhere; debanding scales each line to the local median of the lines' percentiles; binning averages each colour's complete blocks; background extraction subtracts the smoothed, interpolated grid of star-free trimmed medians, without as many of the brightest cells as requested, and a saved background plus the result gives the original. Frames do not affect each other. Frames too small to process are reported as errors; none crashes.",
 ['inputs', 'configurations', 'schedules'], "for all frame sizes from one pixel on, numbers of frames, outliers, bands, uniform areas, star masks, colour filter patterns and settings, thread counts and schedules",
 "Go tests exist for the Bayer median, its statistics and bilinear debayering on one small sample each; none covers bad pixel maps, debanding, background extraction, border cases or several frames at once.",
 ['internal/ops/pre/badpixels.go', 'internal/ops/pre/badpixels_bayer.go', 'internal/ops/pre/debayer.go', 'internal/ops/pre/banding.go', 'internal/ops/pre/background.go', 'internal/ops/pre/preprocess.go'],
 [('bad pixel map and sparse median', 'internal/ops/pre/badpixels.go: BadPixelMap, MedianFilterSparse; internal/median'), ('grid fit, smoothing, interpolation', 'internal/ops/pre/background.go'), ('line percentiles', 'internal/ops/pre/banding.go')],
 ['frame after the operation', 'saved background file'], note=BASE + "Pixels debayered from samples outside the image are only bounded by their neighbours; clipped background grids are checked for range and conservation only.")

prop('P25', "An image's statistics always describe its current pixels",
 "Whatever operations an image went through, and whichever of its statistics were asked for before, its minimum, maximum, mean, standard deviation, location, scale and noise are those of its current valid pixels; invalid pixels are ignored. Every location and scale estimator finds the background level and noise of a sky image.",
 ['inputs', 'histories', 'configurations', 'schedules'], "for all sequences of operations, all subsets of statistics cached before, image sizes, invalid pixels and estimators",
 T9 + "statistics caching is not tested.",
 ['internal/stats/stats.go', 'internal/stats/noise.go', 'internal/fits/pixelops.go', 'internal/fits/fits.go', 'internal/ops/pre/preprocess.go', 'internal/ops/stretch/stretch.go'],
 [('values cached until cleared', 'internal/stats/stats.go: Stats.Clear, UpdateCachedWith'), ('vector and plain implementations', 'internal/stats/stats_amd64.go, noise_amd64.go')],
 ['Image.Stats after each operation'], state=[('Stats', 'cached statistics of an image', 'internal/fits/fits.go: Image.Stats')], note=BASE + "Images whose values differ by less than one percent of their magnitude are not processed further, as rounding is amplified.")

prop('P22', 'All frames of a job are matched to one unchanging reference histogram',
 "Histogram matching gives every frame, in every batch, the location (and, in location-and-scale mode, the scale) which the selected reference frame had when it was selected, by exactly one linear map (or black point shift) of its pixels, also when the reference frame itself is matched, changed or freed meanwhile. With matching turned off pixels stay as they are; without a reference the job reports an error.",
 ['schedules', 'inputs', 'histories'], "for all sets of frames, matching modes, reference selections, rejected frames, later batches, operations following the match, thread counts and schedules",
 T9 + "none matches histograms.",
 ['internal/ops/post/postprocess.go', 'internal/ops/ref/refframe.go', 'internal/fits/pixelops.go', O],
 [('reference statistics kept apart from the frame', 'internal/ops/ref/refframe.go: assignResults'), ('linear maps', 'internal/fits/pixelops.go: MatchLocation, MatchHistogram, ShiftBlackToMove')],
 ['pixels after matching'], state=[('MatchHisto', 'reference location and scale', O + ': Context')], note=BASE + "Frames of uniform brightness have no scale to match and are left out.")

prop('P23', 'Frames are aligned to the reference frame, or left out with a message',
 "Each frame that passes the alignment has the reference frame's dimensions, shows at each pixel the bilinear interpolation of its own pixels at the position given by the found transformation, and the chosen fill value outside; the residual is within the threshold, and stars common with the reference end up at the reference positions. Number, exposure and star size are kept. The reference frame itself is not resampled. Frames without enough stars, or above the threshold, are left out. Aligning without a reference is an error.",
 ['schedules', 'inputs', 'histories'], "for all star fields, shifts, rotations, meridian flips and resolutions, frames of other fields or without stars, fill modes, settings, batches, thread counts and schedules",
 T9 + "none aligns frames.",
 ['internal/ops/post/postprocess.go', 'internal/star/align.go', 'internal/star/coord.go', 'internal/fits/project.go', 'internal/star/kdtree2.go', 'internal/star/kdtree3p.go'],
 [('aligner built once, used concurrently', 'internal/ops/post/postprocess.go: OpAlign.init'), ('triangle matching and fit', 'internal/star/align.go: findBestMatch'), ('resampling', 'internal/fits/project.go: Project')],
 ['aligned frames'], state=[('Aligner', 'reference stars and triangles', 'internal/ops/post/postprocess.go: OpAlign')], note=BASE + "Recognition is only required for frames that show at least two thirds of the reference stars, and at least seven. Star positions are given, not detected.")

prop('P21', 'Color images combine exactly the given channels in order',
 "Combining three or four channels yields one image whose red, green and blue planes are the first three inputs in order under one common normalisation to [0,1], with the sum of their exposures and the stars of the alignment reference; a fourth channel, brought to [0,1], replaces the luminance once and adds its exposure. Color balance maps each channel linearly so that the background and the mean star color become the requested tints. Missing, rejected, failing or differently sized channels, and images without stars or background to balance by, are errors. Input channels stay unmodified.",
 ['schedules', 'inputs', 'configurations'], "for all channel contents, dimensions, exposures and star lists, missing or rejected channels, balance settings, thread counts and schedules",
 T9 + "none combines channels.",
 ['internal/ops/rgb/rgb.go', 'internal/fits/rgb.go', 'internal/ops/hsl/hsl.go', 'internal/fits/pixelops.go'],
 [('channel order and count', 'internal/ops/rgb/rgb.go: OpRGBCombine'), ('common normalisation, black and white points', 'internal/fits/rgb.go')],
 ['combined image'], state=[('LumFrame', 'pending luminance channel', O + ': Context')], note=BASE + "Cases where two blocks are equally dark or a star pixel lies at the clipping limit are not compared.")

prop('P24', 'The log has every message of every frame once, and cannot disturb a job',
 "A job that runs concurrently writes the same messages to its log as when it runs on one thread, each line whole and exactly once, in an order that may differ, and nothing past it; writes to the log target never overlap. A slow log or one that fails does not change the results, the files or the outcome of the job.",
 ['schedules', 'fault_sequences', 'configurations'], "for all sequences of logging steps, numbers of frames, rejected frames, slow log targets and failures after any number of writes, thread counts and schedules",
 T9 + "none looks at the log.",
 [O, 'internal/ops/post/postprocess.go', 'internal/ops/pre/preprocess.go', 'internal/ops/stretch/stretch.go', 'internal/ops/stack/stack.go'],
 [('log shared by all operators', O + ': Context.Log, lockedWriter')],
 ['log writes', 'results with a failing log'], note=BASE + "Progress percentages depend on the division of the work and are not compared.", level='exploration')

prop('P17', 'A job written as JSON and read back is the same job',
 "Every operator tree can be written as JSON and read back with all settings unchanged (names, numbers to the last bit, text with any characters, nested steps in order); settings left out take their defaults, in any order. The job that is read back yields the same results, files and errors as the original, with any number of frames and threads. Truncated, mistyped or unknown descriptions are refused with an error; a description with missing parts never crashes the job.",
 ['inputs', 'configurations', 'schedules'], "for all operator trees, settings, omissions, orders of settings, damages to the text, and for the jobs of all commands, thread counts and schedules",
 T9 + "none decodes a job.",
 [O, 'internal/ops/stretch/stretch.go', 'internal/ops/hsl/hsl.go', 'internal/ops/pre/preprocess.go', 'internal/ops/ref/refframe.go', 'internal/ops/post/postprocess.go', 'internal/ops/stack/stack.go', 'internal/ops/rgb/rgb.go'],
 [('polymorphic steps', O + ': OpSequence.UnmarshalJSON, MarshalJSON'), ('defaults and method receivers', 'all operators: UnmarshalJSON')],
 ['decoded settings', 'results of the decoded job'], note=BASE)

prop('P12', 'An image saved as FITS and loaded again is the same image',
 "Saving an image as FITS, plain or compressed, and loading it again yields the same pixels (undefined ones become 0), dimensions, exposure and header keywords with their values, for any number of such generations and for several images at once. Each saved file is a valid FITS file: mandatory keywords in order, every keyword once, quotes escaped, long text continued, header and data padded. Saving leaves other files and the image as they are.",
 ['inputs', 'histories', 'schedules', 'fault_sequences'], "for all dimensions, pixel values, header keywords of logical, integer, real, text and date type in free and fixed format, sequences of loading and saving under new and existing names, short reads, thread counts and schedules",
 T9 + "the one reading test reads a single file.",
 ['internal/fits/read.go', 'internal/fits/write.go', O],
 [('header parser', 'internal/fits/read.go: Header.read, compileRE'), ('header and data writer', 'internal/fits/write.go: Write, writeString, writeFloat32Array')],
 ['saved files, decoded independently', 'loaded images and headers'], state=[('Header', 'typed keyword maps', 'internal/fits/fits.go: Header')], note=BASE + "Numbers are compared in single precision, the precision of the header maps; comments and history cards are not preserved by design.")

prop('P11', 'Running a job again repairs what an interrupted run left behind',
 "Whatever happened to earlier runs on the same disk (killed at any file operation, torn writes, power loss, disk errors, a full disk, or complete) and whatever older or longer files have the names of the outputs, a job run again without faults succeeds and leaves exactly the outputs of a run in a clean directory. No run, interrupted or not, changes an input file or a file it does not name.",
 ['histories', 'fault_sequences', 'schedules', 'configurations'], "for all jobs (saves per frame in every format, statistics, stacking in batches, all commands), sequences of up to three earlier runs, kill points, torn writes, power losses, full disks, old contents, thread counts and schedules",
 T9 + "none interrupts a run or runs one twice.",
 [O, 'internal/fits/write.go', 'internal/fits/writejpg.go', 'internal/fits/tiff16.go', 'internal/ops/ref/exportstats.go'],
 [('files created or truncated', 'internal/fits/write.go: WriteFile and its relatives'), ('statistics file', 'internal/ops/ref/exportstats.go')],
 ['disk after the last run', 'inputs after each run'], note=BASE + "The rows of the statistics file may come in any order.")

prop('P13', 'A job reads and writes exactly the files it names',
 "A job opens for reading exactly the files its patterns, masters and reference name, and no file outside the working directory, whichever operator loads it and however the path is written; a path that leads outside is an error (or skipped, if matched by a pattern). It writes exactly the files its save patterns and statistics settings name, once each, with the id of the frame in place of the number verb and all other text unchanged; inputs and other files stay as they are, also when the job fails.",
 ['inputs', 'configurations', 'fault_sequences', 'schedules'], "for all jobs, file patterns, relative, absolute and parent paths, save patterns, suffixes and frame ids, disk faults, thread counts and schedules",
 T9 + "none looks at files.",
 [O, 'internal/ops/pre/preprocess.go', 'internal/ops/ref/refframe.go', 'internal/ops/ref/exportstats.go'],
 [('path check', O + ': isPathAllowed'), ('pattern expansion', O + ': rePatternID, OpSave.Apply'), ('saves inside other operators', 'internal/ops/pre/preprocess.go: OpBackExtract, OpStarDetect')],
 ['every open, create, write, rename and remove of the job'], note=BASE + "Save patterns may name any directory: the program restricts reading only.")

prop('P14', 'A job that reports success has the fault-free result',
 "If a job reports success although files could not be opened, were read in pieces, failed to read, create, write or close, the disk was full or the log failed, its results and all output files are those of the same job without faults; otherwise it reports an error. It never reports an error without a fault, and never changes an input file.",
 ['fault_sequences', 'schedules', 'configurations'], "for all jobs (saves per frame in every format, statistics, masters, references, stacking in batches, all commands), disk faults of twelve kinds on any operation of any file, disk capacities, log failures, thread counts and schedules",
 T9 + "no test injects a fault.",
 [O, 'internal/fits/read.go', 'internal/fits/write.go', 'internal/ops/pre/preprocess.go', 'internal/ops/ref/refframe.go', 'internal/ops/ref/exportstats.go', 'internal/ops/stack/stackbatches.go', 'internal/ops/rgb/rgb.go'],
 [('errors passed through promises', O + ': MaterializeAll, OpUnaryBase.MakePromise'), ('lazy loading of masters', 'internal/ops/pre/preprocess.go: OpCalibrate.init')],
 ['outcome, results and output files'], note=BASE + "Errors while listing directories are not injected: the Go library function the program uses for patterns ignores them.")

prop('P19', 'Every job ends, and leaves nothing running or open',
 "Every job returns after a bounded number of steps, with a result or an error, whatever files are damaged, missing or fail, however low the memory limit, however slow or broken the log, and even if the scheduler starves any one of its tasks as long as possible; it never crashes or deadlocks. When it has returned, no goroutine of it is left and every file it opened is closed, also after an error; the next job in the process is unaffected.",
 ['fault_sequences', 'schedules', 'inputs', 'histories'], "for all sequences of up to three jobs (per-frame processing, batches, all commands), disk faults, damaged inputs, memory limits, log failures, thread counts and schedules including starvation",
 T9 + "none fails a job.",
 [O, 'internal/ops/stack/stackbatches.go', 'internal/ops/ref/refframe.go', 'internal/ops/ref/exportstats.go', 'internal/fits/read.go', 'internal/fits/write.go', 'internal/fits/writejpg.go', 'internal/fits/tiff16.go'],
 [('limiter channels', O + ': MaterializeAll; internal/ops/ref/refframe.go: inParallel'), ('locks around lazy work', 'internal/ops/ref/refframe.go: applySingle')],
 ['steps until return', 'tasks and file handles after return'], note=BASE + "The bound is 400000 simulated steps; the longest job takes a few thousand.")

prop('P15', 'Frames processed in parallel share data without conflicts',
 "However the frames of a job are interleaved, no two of its tasks access the same memory without synchronisation if one of them writes. Masters, the reference histogram and the alignment stars keep their values once they are set, no two frames share pixel memory, and running a job does not change its settings.",
 ['schedules', 'configurations', 'inputs'], "for all jobs (sequences of per-frame steps with masters, references, statistics and saves; batches; all commands), thread counts and schedules",
 T9 + "none runs with the race detector on more than one frame.",
 [O, 'internal/ops/pre/preprocess.go', 'internal/ops/ref/refframe.go', 'internal/ops/ref/exportstats.go', 'internal/ops/post/postprocess.go', 'internal/ops/stack/stack.go', 'internal/stats/stats.go', 'internal/fits/project.go'],
 [('lazy initialisation under locks', 'internal/ops/pre/preprocess.go: OpCalibrate.init; internal/ops/post/postprocess.go: OpAlign.init; internal/ops/ref/refframe.go'), ('work packages per pixel range', 'internal/ops/stack/stack.go; internal/fits/pixelops.go')],
 ['memory accesses', 'shared data between the steps'], state=[('DarkFrame, FlatFrame, MatchHisto, AlignStars', 'data shared by all frames', O + ': Context')], note=BASE + "The Go race detector decides about accesses; the simulated scheduler adds no ordering of its own, and the log used here adds none either.")

prop('P16', 'Jobs in one process do not influence each other',
 "Jobs that run at the same time or one after another in one process, each with its own context, yield the same results, files, messages and outcome as when each runs alone, and do not race for memory. Disk faults that hit the files of one job leave the others unaffected.",
 ['schedules', 'histories', 'configurations', 'fault_sequences'], "for all sets of two or three jobs (per-frame processing, batches, all commands) with files of their own, orders and overlaps, disk faults on one of them, thread counts and schedules",
 T9 + "none runs two jobs.",
 [O, 'internal/ops/stack/stackbatches.go', 'internal/ops/ref/refframe.go', 'internal/ops/ref/exportstats.go', 'internal/stats/stats.go', 'internal/fits/read.go'],
 [('state kept per job', O + ': Context'), ('operator factories shared by all jobs', O + ': operatorFactories')],
 ['results, files, log and outcome of each job'], note=BASE + "The location and scale estimator is a setting of the whole process and is the same for all jobs. Frames are divided into batches at random, so that batched results are compared without their pixels.")

prop('P27', 'The star list has every clear star once, and nothing else',
 "The star list of a frame holds each star that stands clear of the border, of others and of the noise exactly once, at its position, and no entry without a bright pixel, none twice, none outside the frame, no hot pixel (if bad pixels are rejected) and none outside the limits for size and concentration. Index, value, center of mass, mass and half flux radius of each entry follow from the frame's own pixels around it, also at the borders; the frame's HFR is their average. Of stars which stand clear, brighter ones are listed before clearly fainter ones. Detection changes no pixel, and the saved star picture shows exactly the listed stars.",
 ['inputs', 'configurations', 'schedules'], "for all frames with stars of any brightness and width inside and at the borders, noise, hot, NaN and infinite pixels, detection settings, several frames at once, thread counts and schedules",
 T9 + "none detects stars.",
 ['internal/star/findstars.go', 'internal/star/qsort.go', 'internal/ops/pre/preprocess.go', 'internal/fits/fits.go'],
 [('candidates, overlap, centroid and HFR', 'internal/star/findstars.go'), ('star picture', 'internal/fits/fits.go: NewImageFromStars')],
 ['star list of each frame'], state=[('Stars, HFR', 'stars of a frame and their average half flux radius', 'internal/fits/fits.go: Image')], note=BASE + "Stars closer together than twice the detection radius, and stars near a threshold, need not be found.")

prop('P28', 'Automatic stretching stops at the target, keeping the order of brightness',
 "Automatic stretching of a monochrome image or the luminance of a color image repeats brightening (by the gamma that would bring the scale to its target) and shifting the black point (to bring the location to its target) until the scale is reached or no gamma helps, and always ends. Brighter pixels stay brighter, equal ones equal, white stays white, and all values stay in [0,1]. Images that already have the scale, and hue and saturation, stay as they are.",
 ['inputs', 'configurations', 'schedules'], "for all backgrounds, noise levels, gradients and stars, targets, location and scale estimators, several images at once, thread counts and schedules",
 T9 + "none stretches an image automatically.",
 ['internal/ops/stretch/stretch.go', 'internal/ops/hsl/hsl.go', 'internal/fits/pixelops.go', 'internal/stats/stats.go'],
 [('iteration', 'internal/ops/stretch/stretch.go: OpStretchIterative.Apply; internal/ops/hsl/hsl.go: OpHSLStretchIterative.Apply')],
 ['stretched pixels'], note=BASE + "Images for which a decision is too close to call, and those stretched more than twelvefold, are checked for order and range only.")

prop('P29', 'The command line runs the job its flags describe; its exit status is true',
 "A command exits with status 0 exactly if its job was done and every output asked for (result, additional formats, per-frame files, statistics, log) is complete; otherwise the status is not 0 and a message says why. Every flag given reaches the step it describes, and every flag left out has its documented default, so that the job done is the one printed. Saving the job printed and running it as a job file does the same: same outputs, same outcome. The log file holds the text printed. Unknown commands, flags and malformed values do no work; input files are never changed.",
 ['inputs', 'configurations', 'fault_sequences', 'schedules'], "for all commands, combinations and values of flags, input frames and patterns, disk faults and capacities, thread counts and schedules",
 "The tests do not build the command line at all.",
 ['cmd/nightlight/main.go', O],
 [('job of each command', 'cmd/nightlight/main.go: main'), ('settings by name in jobs', O + ': operatorFactories')],
 ['exit status, printed text, printed job, output files'], note=BASE + "The program's own main function runs in the simulation. The serve command is the subject of P30.")

prop('P30', 'The job server does each job as if alone, and says how it went',
 "Each job posted to the server yields the same files, messages and outcome as when it is run alone, whatever other requests are served at the same time, and whichever clients are slow or go away. Its response consists of its own messages only, names the steps of the job, and ends with its error if it failed. Malformed and truncated job requests are refused with status 400 and do nothing. Jobs and downloads reach no file outside the directory served. Nothing is written to a response after its request has ended; no request crashes the server, blocks others, or leaves tasks or files open.",
 ['inputs', 'schedules', 'fault_sequences', 'histories'], "for all sets of up to six requests (jobs, malformed bodies, forbidden paths, downloads, preflights), arrival times, slow and vanishing clients, disk faults for one job, thread counts and schedules",
 "The tests do not build the server at all.",
 ['internal/rest/serve.go', O],
 [('job handler', 'internal/rest/serve.go: postJob'), ('context per job', 'internal/rest/serve.go: postJob')],
 ['status, body, files and messages of each request'], note=BASE + "Requests go straight to the real router; there are no sockets.")

prop('P31', 'A confined server is confined before it serves and serves nothing outside',
 "When asked to serve from a directory (-chroot) and as a user (-setuid), the server accepts no request before that directory is its root and its working directory and that user is its user, and these do not change while it serves. From then on no request makes it read, list or write anything outside the directory, whatever path it names, and jobs give the results they give when run in that directory. If the directory does not exist, or the system refuses any of the steps, or the port cannot be served, no request is accepted and the exit status is not zero. Without these flags root, working directory and user are left alone. It serves the port it is asked to.",
 ['inputs', 'schedules', 'fault_sequences', 'histories'], "for all absolute and relative directories, users and ports, refusals of any step, sets of up to four requests inside and outside the directory, thread counts and schedules",
 "The tests do not build the server; changing the root needs privileges and cannot be undone.",
 ['internal/rest/sandbox_unix.go', 'internal/rest/serve.go', 'cmd/nightlight/main.go'],
 [('sandbox', 'internal/rest/sandbox_unix.go: MakeSandbox'), ('serve command', 'cmd/nightlight/main.go: main')],
 ['state of the simulated process when it starts to listen', 'every access to the simulated disk', 'responses, files, exit status'], note=BASE + "The system calls for root, working directory and user act on the simulated process and disk; permissions of files are not simulated.")

prop('P32', 'No setting crashes, hangs or exhausts a job',
 "Whatever the settings of a job's steps (zero, negative, tiny, huge, unknown modes, odd texts), and whatever the number, dimensions and pixels of its images (single pixels, several planes, color, uniform, undefined or huge values, frames of unequal sizes), the job ends with a result or an error after a bounded number of steps. It never crashes or hangs the process, asks for memory out of proportion to its images, or leaves tasks running or files open.",
 ['inputs', 'configurations', 'schedules'], "for all jobs of up to four steps with any settings, nested sequences, preceding star detection, reference selection or color combination, up to four images of any dimensions and content, thread counts, memory sizes and schedules",
 T9 + "none runs a step with a setting other than a reasonable one.",
 ['internal/ops', 'internal/fits', 'internal/star', 'internal/stats'],
 [('settings of each step', 'internal/ops/stretch/stretch.go, internal/ops/rgb/rgb.go, internal/ops/hsl/hsl.go, internal/ops/pre/preprocess.go, internal/ops/post/postprocess.go: Apply'), ('star detection and alignment limits', 'internal/star/findstars.go; internal/star/align.go')],
 ['end of the job, tasks and files left'], note=BASE + "Settings come as the JSON text of a job, as from a job file or the job server.")

prop('P33', 'A stack shows the sky its frames show',
 "Whatever frames of a star field are stacked from files to file (shifted, turned by a few degrees, flipped by the meridian, with other gains and backgrounds where histograms are normalized, with noise, cosmic rays where the mode rejects them, calibrated by dark and flat, plain or compressed, in one or several batches), the stack shows the sky as its reference frame does. Its background is that of the reference within a fraction of the noise of one frame, with noise reduced as expected for the number and weights of the frames; its stars have their light and their places; pixels that all frames show are defined; and its exposure is the sum over all frames with stars, while frames without stars are left out.",
 ['frames', 'configurations', 'batches', 'schedules'], "for all star fields with two dozen or more stars, 3 to 14 frames of them, calibrations, modes, weights, normalizations, memory limits, thread counts and schedules",
 T9 + "none stacks a frame.",
 ['internal/ops', 'internal/fits', 'internal/star', 'internal/stats'],
 [('whole stacking job', 'internal/ops/stack/stackbatches.go; internal/ops/pre/preprocess.go; internal/ops/post/postprocess.go; internal/ops/stack/stack.go; internal/star'), ('noise, light and place', 'internal/fits/project.go; internal/ops/post/postprocess.go: OpMatchHistogram, OpAlign')],
 ['output file of the job'], note=BASE + "The sky is rendered for the reference frame, found as the one which the stack resembles, and compared with tolerances at least twice the deviations seen over 5000 runs.")

prop('P34', 'A color picture shows the sky its channels show',
 "Whatever frames of a field of colored stars are taken through three filters, each with its own gain, background and exposures, with or without unfiltered frames for the brightness: stacking the frames of each filter, aligned to the file which the first of these stacks left, and combining the stacks gives a picture of that sky. Its background is gray within the noise; its stars are white on average, each with its own color and light, and in their places in all three channels; where there is a luminance stack, the brightness of each pixel is that of the luminance stack brought to the range from 0 to 1. Pixels that all frames show are defined and in range, and the exposure is the sum over all frames of all channels.",
 ['frames', 'configurations', 'job_sequences', 'schedules'], "for all fields of two dozen or more colored stars, 2 to 4 frames of them per channel, filter gains and backgrounds, orders of the jobs, stacking modes, brightness stretching, short reads, thread counts and schedules",
 T9 + "none combines a color picture.",
 ['internal/ops', 'internal/fits', 'internal/star', 'internal/stats'],
 [('channels aligned to a file', 'internal/ops/ref/refframe.go: OpSelectReference'), ('combination, balance, luminance', 'internal/ops/rgb/rgb.go; internal/ops/hsl/hsl.go: OpHSLApplyLum; internal/fits/rgb.go')],
 ['output file of the last job'], note=BASE + "The sky is rendered for the reference frame of the first stack and compared with tolerances at least twice the deviations seen over 2000 runs.")
