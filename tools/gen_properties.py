"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                observe_at=list(observe),
                hook_needed=hook,
            ),
        )
    )


MI = "micropolarray/micropol_image.py"
IM = "micropolarray/image.py"
PF = "micropolarray/polarization_functions.py"
DS = "micropolarray/processing/demosaic.py"
RB = "micropolarray/processing/rebin.py"
SH = "micropolarray/processing/shift.py"
CG = "micropolarray/processing/congrid.py"
CV = "micropolarray/processing/convert.py"
DM = "micropolarray/processing/demodulation.py"
DE = "micropolarray/processing/demodulation_errors.py"
NR = "micropolarray/processing/nrgf.py"
LR = "micropolarray/processing/linear_roi.py"
CW = "micropolarray/processing/chen_wan_liang_calibration.py"
IC = "micropolarray/processing/image_cleaning.py"
UT = "micropolarray/utils.py"
CA = "micropolarray/cameras.py"

p(
    "C01",
    "Stokes and polarization parameters follow the pixel families",
    "For every even-sided 2-D image and every orientation dictionary assigning 0, 45, -45 and 90 degrees to the four superpixel positions, each superpixel has I = half the sum of its four pixels, Q = P(0)-P(90), U = P(45)-P(-45), pB = sqrt(Q^2+U^2), DoLP = pB/I (0 where I is 0) and AoLP = atan2(U,Q)/2, and the per-orientation planes are exactly the pixels the dictionary assigns to them. Light following Malus' law with given intensity, degree and angle of polarization is therefore measured back with that intensity, degree and angle (modulo 180 degrees). An image with an odd side is refused instead of being measured.",
    ["inputs", "configurations"],
    "all even shapes (also non-square and 2x2), all dtypes an image can hold, all 24 orientation dictionaries, all pixel values including zero and negative",
    "The tests use one 16x16 image with four constant values and two dictionaries; a family mix-up that cancels on constants, or at non-square shapes, is invisible to them.",
    [MI, PF, DS],
    [("theoretical Stokes vector", MI + ":_get_theo_Stokes_vec_components"), ("AoLP/DoLP/pB", PF), ("superpixel split", DS + ":split_polarizations")],
    observe=["MicropolImage.I/Q/U/pB/AoLP/DoLP, pol0/pol45/pol_45/pol90, polparam_list"],
)
p(
    "C02",
    "Polarization parameters always describe the current data",
    "After any sequence of image operations (arithmetic, dark, flat, field-of-view and hot-pixel correction, rebinning, resizing, shifting, demosaicing, copying), the Stokes parameters of the resulting not-demodulated image equal the ones recomputed from its current pixel data with its own orientation dictionary, either per superpixel or, for a demosaiced image, from the demosaicing of its current data. Data and polarization parameters never describe two different images.",
    ["histories", "inputs"],
    "every sequence of operations of any length over any images",
    "The tests apply one operation to a fresh image; staleness needs two or more operations in a particular order (for example demosaic, then add).",
    [MI],
    [("recomputation after a data change", MI + ":_update_data_and_Stokes"), ("copy of parameters", MI + ":_import_image_parameters")],
    state=[("Stokes_vec", "I, Q, U planes", MI), ("demosaiced_images", "four interpolated planes", MI)],
    observe=["every live image after every operation of a random session"],
)
p(
    "C03",
    "Results are independent of their operands",
    "Every operation that returns a new image (+, -, *, /, rebin, resize, rotate, shift, hot-pixel cleaning and mapping, demodulate, copy construction from an image or array) leaves the pixel data, header, polarization parameters and demosaiced planes of its operands as they were. The result shares no mutable state with them: a later in-place change of one image (correction, masking, demosaicing, pixel or header write) never shows in another.",
    ["histories", "inputs"],
    "every sequence of operations and in-place edits over a pool of live images",
    "The tests look only at the result of an operation, never back at the operand, and never modify an image after copying it.",
    [MI, IM],
    [("copy construction", MI + ":_import_image_parameters"), ("operators", MI + ":__add__ and the others"), ("rotate/rebin/congrid/shift build a copy", MI)],
    state=[("header", "FITS header object of an image", IM), ("Stokes_vec", "Stokes planes", MI)],
    observe=["snapshots of every live image before and after every operation"],
)
p(
    "C04",
    "Superpixel splitting, merging and demosaicing are exact",
    "Splitting an even-sided image into its four pixel families and merging them back gives the original image, and the families are the pixels at (even,even), (even,odd), (odd,even), (odd,odd) in that order. Demosaicing in 'mean' mode spreads a quarter of each family pixel over its superpixel; in 'adjacent' mode it gives each family a full-size plane holding its own value at the superpixel's first pixel and the average of the 2 or 4 neighbouring superpixels' values at the other pixels, the last superpixel row and column repeating itself, so every plane stays within its family's range; in 'spline' mode it is a full-size linear interpolation keeping each family's range. Odd-sided images are refused.",
    ["inputs"],
    "all even shapes, all numeric dtypes, all values and both memory orders",
    "The tests demosaic a constant-per-family 16x16 image, on which every interpolation error vanishes, and never merge after splitting.",
    [DS],
    [("split/merge", DS + ":split_polarizations, merge_polarizations"), ("demosaicing kernels", DS + ":demosaicmean, demosaicadjacent")],
    observe=["split_polarizations, merge_polarizations, demosaic, MicropolImage.demosaic"],
)
p(
    "C05",
    "Rebinning sums each pixel family separately and exactly",
    "Rebinning a micropolarizer image by any positive integer n makes every new pixel the sum of the n x n same-family pixels of the corresponding n x n block of superpixels, after dropping only the trailing rows and columns that do not fill a block, so each family's signal is conserved; plain images are summed in n x n blocks of adjacent pixels likewise. A non-positive binning is refused.",
    ["inputs", "configurations"],
    "all even shapes, all positive binnings up to and beyond the image size, all dtypes and values",
    "The tests rebin constant-per-family square images by 2 and 4; a wrong source pixel of the same family, or any error in trimming or non-square handling, gives the same constants.",
    [RB, MI, IM],
    [("micropolarizer binning kernel", RB + ":micropolarray_jitrebin"), ("plain binning kernel", RB + ":standard_jitrebin"), ("trimming", RB + ":trim_to_match_2xbinning, trim_to_match_binning")],
    observe=["MicropolImage.rebin, Image.rebin"],
)
p(
    "C06",
    "Shifting moves every pixel by exactly the requested amount",
    "Shifting a plain image by (y, x) puts the value of pixel (j, i) at (j+y, i+x) and the fill value everywhere nothing arrives; shifting a micropolarizer image does the same to each pixel family in superpixel units. This holds for all integer shifts of either sign, also beyond the image, and shifting there and back restores every pixel that stayed inside.",
    ["inputs"],
    "all shapes, all signed shifts including zero and larger than the image, all fill values",
    "The tests shift one 4x4 image by (1,0) and (0,-1) with fill 0.",
    [SH, IM, MI],
    [("shift kernel", SH + ":shift"), ("per-family shift", SH + ":shift_micropol")],
    observe=["Image.shift, MicropolImage.shift"],
)
p(
    "C07",
    "Resizing and rotating treat each pixel family on its own",
    "Resizing a micropolarizer image to any size of at least one superpixel gives an even-sided image (requested sides reduced by one where odd) whose every family is the IDL-congrid linear interpolation of that same family, with corners kept, range not exceeded, and linear ramps reproduced exactly; resizing to the same size is the identity. Rotating by an angle rotates each family's plane counter-clockwise and fills uncovered pixels with 0: quarter turns of square images are exact permutations, and no family ever receives another family's values.",
    ["inputs"],
    "all even source and target shapes, all angles, all values",
    "The tests resize one constant-per-family image, where any interpolation or mixing within a family is invisible, and never rotate.",
    [CG, MI],
    [("congrid", CG + ":congrid"), ("per-family resize/rotate", MI + ":congrid, rotate")],
    observe=["MicropolImage.congrid, MicropolImage.rotate, congrid"],
)
p(
    "C08",
    "Dark, flat and field-of-view corrections compute what they state",
    "Dark subtraction makes every pixel max(data - dark, 0); flat correction divides every pixel by the flat divided by its mean, leaving pixels whose flat is zero at a finite value depending only on the inputs, so scaling the flat changes nothing and an image proportional to the flat becomes uniform; giving dark and flat at construction equals applying dark, then flat. Field-of-view correction replaces every pixel outside the first superpixel row and column by the average of the four same-family pixels of its superpixel and the ones above, left and above-left.",
    ["inputs", "histories"],
    "all images, darks and flats of equal shape, including zero flat pixels and darks above the signal",
    "The tests use a dark equal to the image and a uniform flat; both cancel to constants that most wrong formulas also give.",
    [MI, CW],
    [("dark", MI + ":subtract_dark"), ("flat", MI + ":correct_flat"), ("field of view", MI + ":correct_ifov, " + CW + ":_ifov_jitcorrect")],
    observe=["MicropolImage.subtract_dark, correct_flat, correct_ifov, constructor dark/flat"],
)
p(
    "C09",
    "Image arithmetic is the pixelwise arithmetic of the data",
    "image + x, image - x, image * x and image / x, with x an image of the same class and shape, a number or an array of the same shape, hold exactly the pixelwise result of the operation on the data. Division by a pixel or number that is zero gives a finite value that depends only on the operands, never left-over memory, and does not disturb the other pixels.",
    ["inputs"],
    "all shapes, dtypes, values, operand kinds (image, scalar, array), zero divisors anywhere",
    "The tests combine two constant images without zeros and never use scalar or array operands.",
    [IM, MI],
    [("operators", IM + ":__add__.., " + MI + ":__add__..")],
    observe=["+ - * / on Image and MicropolImage"],
)
p(
    "C10",
    "Reading a set of files gives its exact mean or sum",
    "An image made from a list of FITS files holds the pixelwise mean of their data, or the sum when averaging is off, whatever the order, number and numeric type of the files; one file gives its data as stored. For several files the header is the first file's plus their number and, when dated, the earliest and latest observation times; a missing, unreadable or differently shaped file makes the construction fail rather than be skipped.",
    ["inputs", "fault_sequences"],
    "all non-empty file lists, dtypes, date header styles (ISO, split date/time, absent), and unreadable members",
    "The tests read single files only.",
    [IM],
    [("file initialisation", IM + ":_init_image_from_file")],
    observe=["Image([...]), MicropolImage([...]), averageimages"],
)
p(
    "C11",
    "Saved FITS files hold exactly what was asked and read back equal",
    "Saving an image as FITS and reading it back gives the same pixel values and header keywords; saving one or all polarization parameters, the four orientation planes or the four demosaiced planes writes exactly one file per item holding that item's values, labelled with its own parameter name or orientation and with none of another item's, whatever was saved before. A requested [min, max] range (zero included) clamps the saved values, missing parent folders are created, existing files are replaced, and names without the .fits extension are refused without writing anything. Saves running at the same time, also into one folder that does not exist yet, each write the same as alone.",
    ["inputs", "configurations"],
    "all dtypes, shapes, orientation dictionaries, clamp ranges, relative and absolute paths with dots",
    "The tests save constant float images and check neither the parameter files nor the clamping nor the labels.",
    [IM, MI, UT],
    [("savers", IM + ":save_as_fits, " + MI + ":save_*"), ("clamp", UT + ":fix_data"), ("paths", UT + ":_make_abs_and_create_dir")],
    observe=["files written by save_as_fits, save_param_as_fits, save_all_pol_params_as_fits, save_single_pol_images, save_demosaiced_images_as_fits"],
)
p(
    "C12",
    "Raw file conversion loses nothing",
    "Converting a raw file of 16-bit little-endian pixels gives a FITS file next to it, same name with .fits, holding exactly its pixels, and merging raw files gives their exact sum or mean; a saved raw image converts back to the same pixels. The raw file is removed only when asked for and only once the FITS file is complete: when reading, shaping or writing fails at any point the raw file is still there, unchanged. Names not ending in .raw (source) or .fits (merged output) are refused. Conversions running at the same time in one folder each give the same as alone.",
    ["inputs", "fault_sequences", "crash_points"],
    "all shapes, pixel values 0..65535, file names and folders with dots, a failure at every file-system step of the conversion",
    "No test touches raw conversion.",
    [CV, IM],
    [("conversion", CV + ":convert_rawfile_to_fits"), ("merge", CV + ":merge_rawfiles_to_fits, average_rawfiles_to_fits"), ("raw saving", IM + ":save_as_raw")],
    observe=["files on disk before and after", "file-system calls made by the conversion"],
)
p(
    "C13",
    "Packed 12-bit camera files decode bit-exactly",
    "A camera file of packed 12-bit pixels (3 bytes b0 b1 b2 for two pixels: first = b0*16 + high half of b1, second = b2*16 + low half of b1) decodes to exactly those pixels in file order for every byte content, and converting a set of them writes their mean as one FITS file. A file whose length does not match the camera's frame is refused.",
    ["inputs", "schedules"],
    "all byte contents (including runs of zero bytes anywhere), all scheduling of the decoding processes",
    "No test decodes a packed file.",
    [CV],
    [("unpacking", CV + ":three_bytes_to_two_ints"), ("parallel split and reassembly", CV + ":nparr_from_binary"), ("set conversion", CV + ":convert_set")],
    observe=["nparr_from_binary, convert_set, three_bytes_to_two_ints"],
)
p(
    "C14",
    "Demodulation is the superpixel-wise product with the tensor",
    "Demodulating an image gives in every superpixel S_i = sum_j M_ij P_j, P_j being the four pixels in position order, wherever the tensor's fit-found flag is 1 or no flags exist, and the image's own theoretical Stokes parameters where the flag is 0; with demosaicing the same holds at full resolution with each superpixel's matrix and flag used for its four pixels. The demodulated image keeps the pixel data of the original, which is not modified; a tensor of another size is refused.",
    ["inputs", "configurations"],
    "all tensors (not only the ideal one, varying by superpixel), flag maps, image shapes and contents",
    "The tests demodulate images that are constant per family with tensors that are constant over the image and flags all 1.",
    [MI, DM],
    [("tensor application", MI + ":_get_Stokes_from_demodulator"), ("entry point", MI + ":demodulate")],
    observe=["MicropolImage.demodulate"],
)
p(
    "C15",
    "Tensor calculation recovers the instrument it was fed with",
    "From noiseless images of a polarizer at known orientations, the saved throughput, efficiency and phase maps equal the instrument's values pixel by pixel, every demodulation matrix is the pseudo-inverse of the modulation matrix of its own four pixels, and demodulating a new image of the instrument returns the incoming Stokes vector. The saved covariances are those of a least-squares fit weighted by the photon noise at the given gain. The result does not depend on the order of the (orientation, file) pairs; darks and flats applied to the inputs and named in the call are removed; a binned calculation equals that of binned images, with the normalization given as number, image or one image per file. A normalization left to be estimated costs only one common factor of the throughputs, whichever basic orientations were measured, once or again.",
    ["inputs", "configurations"],
    "all throughput/efficiency/phase maps inside the fit bounds, orientation sets, binnings, normalizations as number, image or image series, dark and flat",
    "The test uses one uniform instrument (t=0.9, eff=0.7, exact phases), so every superpixel is interchangeable; dark, flat, binning and unsorted inputs are never used.",
    [DM],
    [("fit", DM + ":compute_demodulation_by_chunk"), ("normalisation, dark, flat, binning", DM + ":calculate_demodulation_tensor")],
    observe=["files written by calculate_demodulation_tensor, read by Demodulator"],
)
p(
    "C16",
    "Parallel decomposition never changes the calibration",
    "The tensor, flags, throughput, efficiency, phase and covariance files are the same for every accepted processor grid and on every run. A grid that cannot cover the whole frame, or a failure in a worker, makes the calculation fail with an error and a non-zero exit status; it never ends normally with missing or unprocessed parts of the frame.",
    ["schedules", "configurations", "fault_sequences"],
    "all processor grids for all frame shapes, any worker scheduling or delay, a failing worker",
    "The test uses a single 2x2 grid on a uniform square frame, on which any permutation of the chunks is invisible.",
    [DM],
    [("split/merge of chunks", DM + ":calculate_demodulation_tensor"), ("worker pool", DM + ":calculate_demodulation_tensor")],
    observe=["output files for different grids and schedules; exit status with a failing worker"],
)
p(
    "C17",
    "Superpixels without a valid fit fall back to the ideal matrix, flagged",
    "Every superpixel of the calculated tensor is either fitted and flagged 1, or, when it lies in the given occulter region, contains a dead pixel (zero in all images) or does not converge to a usable matrix (every element within +-100), holds the ideal demodulation matrix of the nominal orientations and is flagged 0. One bad superpixel never alters its neighbours, and demodulating with that tensor uses the theoretical Stokes parameters exactly there.",
    ["inputs", "fault_sequences"],
    "all positions of dead pixels, all occulter positions and radii, with and without binning",
    "The test has no occulter and no bad pixels; the flag map is only checked for its shape.",
    [DM, MI],
    [("fallback", DM + ":compute_demodulation_by_chunk"), ("occulter mask", DM + ":calculate_demodulation_tensor")],
    observe=["M_ij, fit_found_flag, transmittancies files"],
)
p(
    "C18",
    "A demodulator is exactly the tensor folder it was read from",
    "Reading a tensor folder puts file ij at tensor element (i, j) whatever the listing order and whatever other files, carrying no element number in their names, are in the folder, exposes the stored flags, efficiencies, throughputs, phases and covariances unchanged, and maps every nominal angle to the pixel family whose mean phase is nearest modulo 180 degrees. A missing folder, a folder without tensor files or with any of the twelve missing is refused. Rotating or flipping a demodulator moves every matrix together with its flag.",
    ["inputs", "configurations", "fault_sequences"],
    "all tensors, folder contents, listing orders, missing subsets of files, orientation arrangements",
    "The tests read one folder of twelve constant matrices; nothing is ever missing, rotated or flipped.",
    [DM],
    [("reader", DM + ":Demodulator._get_demodulation_tensor, Cij, eff, tk, phi"), ("angle assignment", DM + ":Demodulator.angle_dic"), ("rot90/flip", DM + ":Demodulator.rot90, flip")],
    observe=["Demodulator attributes"],
)
p(
    "C19",
    "Measurement errors are propagated by the first-order law",
    "The error on each Stokes component is sqrt(sum_j (M_ij sigma_j)^2) for the superpixel's own matrix and pixel errors, and the errors on pB, DoLP and AoLP equal the first-order propagation of those through the parameter's own formula (numerical derivatives agree) at every superpixel with I and pB non-zero, also when Q or U alone is zero. All errors are non-negative and scale linearly with the pixel errors.",
    ["inputs"],
    "all tensors, images and pixel error maps",
    "No test computes an error.",
    [DE],
    [("Stokes error", DE + ":get_error_on_Stokes"), ("parameter errors", DE + ":get_error_on_pB, get_error_on_DoLP, get_error_on_AoLP")],
    observe=["MicropolImageError.sigma_S, sigma_pB, sigma_DoLP, sigma_AoLP"],
)
p(
    "C20",
    "Polar selections and occulter masks keep exactly the pixels inside",
    "A polar selection keeps a pixel's value exactly when its distance from the centre is in (rho_min, rho_max] and its polar angle in [theta_min, theta_max), decided once per superpixel unless single pixels are requested, and puts the fill value elsewhere; the boolean form is the same selection, centre and radii default to the image centre and border. Masking an occulter on an image fills exactly the superpixels within the (over-occulted) radius, identically in the data, the Stokes parameters and the demosaiced planes, and camera masks follow the camera's occulter.",
    ["inputs", "configurations", "histories"],
    "all shapes, centres (also outside the image), radii, angle ranges, fills, demosaiced or not, any order of calls",
    "No test selects a region or masks an occulter.",
    [NR, MI, CA],
    [("selection", NR + ":roi_from_polar"), ("cached polar map", NR + ":map_polar_coordinates"), ("image mask", MI + ":mask_occulter"), ("camera masks", CA + ":occulter_roi, occulter_mask")],
    observe=["roi_from_polar, MicropolImage.mask_occulter, PolarCam.occulter_roi, PolarCam.occulter_mask"],
)
p(
    "C21",
    "NRGF normalises every ring to zero mean and unit deviation",
    "The filter subtracts from every pixel the mean of its ring (r, r+step], r = rho_min, rho_min+step, ..., taken over the requested mean sector, and divides by the ring's standard deviation there, giving 0 where that deviation is 0, inside rho_min and outside the output sector. It is therefore unchanged by scaling the image by a positive number and adding a constant, and by any change of the pixels inside rho_min.",
    ["inputs", "configurations"],
    "all images, centres, radii, ring widths and sectors",
    "No test runs the filter.",
    [NR],
    [("ring normalisation", NR + ":nrgf")],
    observe=["nrgf"],
)
p(
    "C22",
    "The occulter finders locate the occulter",
    "For an image of a dark disc on a brighter background with a soft edge and moderate noise, each occulter finder (sigmoid fit, threshold walk, Hough circle) returns y, x and radius, in this order, of the disc to within a few pixels, wherever the disc is within the finder's stated range and whatever the image aspect ratio; the threshold walk stops, in each of the four directions from the image centre, at the first pixel brighter than the threshold times the mean of those before it, also over wide edges, and refuses images without one.",
    ["inputs"],
    "all disc positions, radii, contrasts, edge widths and noise realisations in the stated range, non-square images",
    "No test looks for an occulter.",
    [NR],
    [("sigmoid/algo", NR + ":find_occulter_position"), ("hough", NR + ":find_occulter_hough")],
    observe=["find_occulter_position, find_occulter_hough"],
)
p(
    "C23",
    "Linear selections sample the line they were asked for",
    "A linear selection between two distinct pixels returns coordinates inside the image, starting at the first pixel, ending at the second, never more than one pixel away from the segment and without gaps, with values equal to the data at those coordinates. The polar variant starts at the minimum radius from the centre, runs in direction theta (0 = increasing x, anti-clockwise with y decreasing) to the maximum radius or the image border (a minimum radius outside the image is refused), and the returned ratio converts samples to pixels.",
    ["inputs"],
    "all images, all pairs of end points (also on the border), all angles and radii inside the image",
    "No test makes a linear selection.",
    [LR],
    [("line rasteriser", LR + ":DDA"), ("selection", LR + ":linear_roi, linear_roi_from_polar")],
    observe=["linear_roi, linear_roi_from_polar"],
)
p(
    "C24",
    "Angle normalisation keeps the angle and lands in range",
    "Normalising angles returns, for every angle up to thousands of turns, the equivalent angle modulo 180 degrees (modulo pi for arrays in radians) in (-90, 90] degrees ((-pi/2, pi/2]), element by element and in order, accepting scalars, lists and arrays of any shape as documented; it is idempotent and leaves the caller's list or array unchanged.",
    ["inputs"],
    "all angles up to thousands of turns of either sign, exact multiples of 90 degrees included",
    "No test normalises an angle directly.",
    [UT, PF],
    [("degrees", UT + ":normalize2pi, " + PF + ":normalize2pi"), ("radians", UT + ":normalize2piarray")],
    observe=["normalize2pi, normalize2piarray"],
)
p(
    "C25",
    "No operation reads or writes outside its arrays or uses stale memory",
    "For every accepted input, every compiled or numpy operation of the package accesses only elements inside its arrays, and no result contains uninitialised memory: running the same operation in processes whose heap is filled with different patterns gives bit-identical results.",
    ["inputs", "histories"],
    "all public operations on all accepted shapes, dtypes and values; heap contents at the time of the call",
    "Out-of-bounds reads in the compiled kernels are unchecked and usually return plausible numbers; left-over memory is often zero in a short test process.",
    [DS, RB, SH, CW, MI, IM, DM],
    [("numba kernels without bounds checks", "all @njit functions"), ("masked division", IM + ":__truediv__, " + MI + ":__truediv__, correct_flat, " + PF + ":DoLP")],
    observe=["NUMBA_BOUNDSCHECK reports, heap-poison differential digests"],
)
p(
    "C26",
    "Results depend only on the arguments",
    "Every public operation gives the same result for the same arguments whatever was computed before in the process and whatever other threads compute at the same time, and leaves the arrays and lists passed to it unchanged. Only the default orientation dictionary is process-wide state.",
    ["histories", "schedules"],
    "all call orders over all operations, all thread interleavings of independent images",
    "The tests run each operation once, in one order, in one thread.",
    [NR, MI, DM, UT, SH, DS, RB, CG, CW],
    [("polar-coordinate cache", NR + ":map_polar_coordinates"), ("module-level defaults", MI + ":DEFAULT_ANGLES_DIC")],
    observe=["digests of results alone, after other calls, and under concurrent threads; digests of arguments"],
)
p(
    "C27",
    "Header and orientation travel with the image",
    "At any time the header of every image gives its current width and height (NAXIS1, NAXIS2), operations on micropolarizer images keep the other header keywords of the (first) operand, and results use the operand's orientation dictionary. A dictionary given at construction is used, the default one set last otherwise; changing the default never affects images that already exist or results derived from them.",
    ["histories", "configurations"],
    "all operation sequences with changing defaults, headers and dictionaries",
    "The tests never look at the header of a derived image or of the operand it came from, and set the default once.",
    [MI, IM],
    [("data setter updates NAXIS", IM + ":data"), ("default orientation", MI + ":set_default_angles, __init__"), ("inheritance", MI + ":_import_image_parameters and the operators")],
    state=[("DEFAULT_ANGLES_DIC", "process-wide default orientation", MI)],
    observe=["header and angle_dic of every live image after every operation"],
)
p(
    "C28",
    "Hot-pixel cleaning touches only flagged pixels of the same family",
    "Cleaning replaces exactly the pixels flagged 1 by the median of the neighbouring pixels of their own family (2x2 neighbourhood in the family's plane) and leaves every other pixel as it was. The hot-pixel map is 1 exactly where the contrast (p-m)/(p+m) between a pixel p and that median m exceeds the threshold and 0 elsewhere, so an isolated bright pixel on a smooth image is found and removed, in whichever family it is.",
    ["inputs"],
    "all images, flag maps and thresholds",
    "No test detects or cleans hot pixels.",
    [IC, MI],
    [("detection", IC + ":get_hot_pixels"), ("cleaning", MI + ":clean_hot_pixels")],
    observe=["get_hot_pixels, MicropolImage.clean_hot_pixels"],
)
p(
    "C29",
    "Chen-Wang-Liang calibration applies each superpixel's own matrix",
    "Applying a stored calibration gives, before the final field-of-view averaging, C (P - d) in every superpixel with that superpixel's own matrix and offsets and its pixels in position order, for integer and float data alike. A calculation from a set of polarizer images writes the sixteen matrix files and the offset file, each superpixel's from its own pixels alone and as the mean over the images, is independent of the order of the (orientation, file) pairs, and refuses inputs without the four basic orientations or with unequal lists. An image calibrated with matrices calculated from that image alone becomes the ideal response to its Stokes vector, and a given dark and flat act as if the images had been corrected with them (flat over its maximum) before.",
    ["inputs", "configurations"],
    "all images, matrices and offsets; all polarizer image sets, with or without dark and flat",
    "No test calls this calibration.",
    [CW],
    [("application", CW + ":chen_wan_liang_calibration"), ("calculation", CW + ":calculate_chen_wan_lian_calibration")],
    observe=["chen_wan_liang_calibration, files of calculate_chen_wan_lian_calibration"],
)
p(
    "C30",
    "Helioprojective alignment moves pixels and keywords together",
    "Aligning an image rotates every pixel family a quarter turn and flips it vertically without changing, losing or mixing any value, and writes keywords consistent with the new data: sizes, plate scale times binning in arcsec on both axes, joined date and time, and the sun centre scaled from the full frame and placed at the position the transformation moves it to.",
    ["inputs", "configurations"],
    "all square even images, sun centres, plate scales and binnings",
    "No test aligns an image.",
    [UT],
    [("alignment", UT + ":align_keywords_and_data")],
    observe=["align_keywords_and_data"],
)
p(
    "C31",
    "Plots show the image's values and leave the image alone",
    "Every display function draws exactly the values it is named after (data, each polarization parameter, each orientation or demosaiced plane in its place, histogram counts covering every pixel), honours explicit colour limits, and leaves the image unchanged.",
    ["inputs", "configurations"],
    "all images, parameters, colour limits, histogram arguments and orientation dictionaries",
    "The tests only check that some display functions do not raise on one image.",
    [IM, MI],
    [("display functions", IM + ":show*, " + MI + ":show*")],
    observe=["arrays and limits of the matplotlib artists created"],
)
p(
    "C32",
    "Statistics and radiometric helpers return their documented values",
    "The mean and median helpers return mean -/+ n standard deviations and median -/+ n median absolute deviations; the solar-brightness unit scales linearly with diffuser exposure and inversely with image exposure and diffuser signal, with the documented constant; the photon noise is that of Poisson statistics at the documented gain; the automatic threshold puts the two well-separated populations of the median-filtered image on opposite sides, whatever their scale; and the Malus normalisation of four images whose half-sum has a narrow Gaussian peak within a much wider value range lies two to four of the peak's standard deviations above its centre.",
    ["inputs"],
    "all data arrays and parameters",
    "No test calls these helpers.",
    [UT, IC],
    [("statistics", UT + ":mean_plus_std, mean_minus_std, median_plus_std, median_minus_std"), ("radiometry", UT + ":get_Bsun_units, sigma_DN, get_malus_normalization"), ("threshold", IC + ":auto_threshold")],
    observe=["return values"],
)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    print(len(P), "properties")
