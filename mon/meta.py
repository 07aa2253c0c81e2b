"""Per-property facts the runner and the manifest need."""
META = {
    "C01": dict(rule="random even images (9 value kinds, 8 dtypes, C/Fortran/sliced layouts), all 24 orientation dictionaries, built from arrays, files or the default dictionary; distinct by source, shape, dtype, dictionary and pixel sum", need={"superpixels": 500}),
    "C02": dict(rule="random operation histories of 5 to 14 steps over up to 4 live images; a case is distinct by its whole history", need={"superpixel-level checks": 100, "demosaiced-level checks": 50}),
    "C03": dict(rule="random histories with a registry of live images whose snapshots are compared after every step, and each operation followed by in-place disturbance of result or operands; distinct by history", need={"images watched": 300, "in-place changes": 50}),
}

META.update({
    "C04": dict(rule="random even images of all kinds, dtypes and layouts, split/merged/demosaiced in each mode against the reference; odd sides refused; distinct by mode, shape, dtype, content"),
    "C05": dict(rule="random shapes and binnings, trimmed and divisible, against block sums; distinct by shape, binning, dtype", need={"trimmed": 20, "divisible": 20}),
    "C06": dict(rule="random shifts inside and beyond the image, all signs, fills and dtypes, there and back; distinct by shape, shift, fill, dtype", need={"beyond the image": 20, "within the image": 20}),
    "C07": dict(rule="random source and target sizes against an independent linear interpolation; rotations of images whose families hold disjoint pixel numbers; distinct by sizes and angle", need={"exact quarter turns": 20, "free angles": 20}),
    "C08": dict(rule="random images, darks and flats (zeros, integers, extreme scales), corrections repeated on a dirtied heap; distinct by shape, dtypes, case", need={"clamped pixels": 50, "zero flat pixels": 50, "averaged pixels": 200}),
    "C09": dict(rule="every operator with image, array, number and itself, both classes, with zero divisors, repeated on a dirtied heap; distinct by class, operator, form, shape", need={"zero divisors": 50, "undefined results": 1000}),
    "C24": dict(rule="angles in, near and far outside the range, exact multiples of 90 and values a hair beside them; scalars, lists, arrays; distinct by content", need={"scalars": 10, "list elements": 200, "array elements": 200}),
    "C27": dict(rule="random histories over live images with changes of the default dictionary in between; header, size and orientation of every live image checked after every step; distinct by history", need={"keywords checked": 500, "copies with a dictionary of their own": 15, "op set_default_angles": 20}),
    "C28": dict(rule="random images with random hot-pixel flags and thresholds against an independent 2x2 upper median per family; isolated hot pixels at every place; distinct by shape, dtype, case", need={"flagged pixels": 200, "isolated hot pixels removed": 20, "images demosaiced before": 100}),
})

META.update({
    "C10": dict(rule="random sets of 1 to 7 FITS files of all numeric types, shapes, date styles and orders, mean or sum, and sets with one bad file; distinct by number, shape, types, dates, class", need={"file sets": 100, "dated sets": 50, "refusals": 50}),
    "C11": dict(rule="random images of all numeric types saved whole, by parameter and by plane under new, nested, dotted and relative names, with and without ranges, read back with astropy and the package; distinct by function, dtype, shape, range, name", need={"files read back": 500, "clamped saves": 50, "replaced files": 30, "refusals": 200}),
})
META["C12"] = dict(
    level="fault_enumeration",
    rule="conversions, merges and round trips of random files; for fault_points every file-system call of a conversion made to fail, cut short, or be the process's last, and the disk full after k bytes; distinct by names, shapes, options, call sequence",
    need={"faults error": 100, "faults kill-before": 100, "faults kill-after": 100, "faults persistent": 100, "files converted": 50, "merges": 50, "raw round trips": 30},
    assumptions=["a crash keeps what the process has handed to the kernel (power loss with unsynced pages is out of scope)"],
)
META["C13"] = dict(
    rule="random, null-tailed, extreme and structured byte contents; whole camera files and sets; wrong lengths; distinct by content checksum",
    need={"pixels decoded": 10000, "camera files": 3, "sets converted": 2, "lengths refused": 12}, shards=4,
)
META["C14"] = dict(
    rule="random images and tensors (unit elements, numbered elements, near-ideal, random), flags none/all/mixed, at superpixel and full resolution, tensors of other sizes; distinct by shape, tensor, flags, dictionary, content",
    need={"fitted superpixels": 2000, "unfitted superpixels": 500, "unfitted pixels, full resolution": 300, "sizes refused": 100},
)
META["C15"] = dict(
    rule="simulated instruments (independent throughput, efficiency, phase per pixel) at 4 to 9 polarizer angles, all placements of the nominal orientations, darks, flats, binnings, normalization by number, image or estimate; distinct by shape, angles, options",
    need={"pixels recovered": 1500, "covariances checked": 3000, "instruments near the bounds": 20, "light recovered": 500, "orders compared": 40, "dark removed": 10, "flat removed": 10, "binned calculations": 20, "estimated normalizations": 4, "series of normalizations": 5, "orientations measured again": 20},
)
META["C16"] = dict(
    level="fault_enumeration",
    rule="calibration problems with occulter, dead pixels and noise computed on every kind of accepted grid and compared file by file; grids that do not cover; one worker raising, killed at a point, killed after a delay, or given malformed bounds, in a process of its own; distinct by shape, grid, fault",
    need={"grids compared": 40, "grids refused": 40, "worker failures surfaced (raise)": 2, "worker failures surfaced (kill-at)": 2, "worker failures surfaced (malformed)": 1},
)
META["C17"] = dict(
    rule="instruments with dead, NaN, infinite pixels, pixels without a count behind one crossed polarizer only, matrices just too large on one side, unusable throughputs or efficiencies, occulters of any centre and radius (also outside the frame), binning; flats without a value at some pixels; the same set with and without one bad superpixel; distinct by defects, place, angles",
    need={"fallback superpixels": 300, "fitted superpixels": 300, "with occulter": 20, "with dead": 10, "with nan": 10, "with unusable": 10, "matrices too large on one side": 10, "crossed pixels without a count": 10, "single bad superpixels": 20, "pixels without a flat value": 20},
)
META["C18"] = dict(
    rule="random tensor folders (all file-name patterns, types, sizes, bystander files, creation and listing orders, undefined elements), with files missing, and random sequences of turns and flips; distinct by size, names, orientation, sequence",
    need={"tensor elements": 1000, "orientation dictionaries": 100, "folders refused": 50, "turns": 200, "without flag file": 10, "undefined elements": 200},
)
META["C19"] = dict(
    rule="random Stokes fields (Q or U exactly zero in a fifth of the superpixels each, both signs of I, five decades), errors of one or all components, random tensors and pixel errors of several types, against numerical derivatives; distinct by content",
    need={"errors on pB": 5000, "errors on DoLP": 5000, "errors on AoLP": 5000, "superpixels with Q = 0": 500, "superpixels with U = 0": 500, "Stokes errors": 5000},
)
META["C20"] = dict(
    rule="random sizes, centres (inside, border, outside, fractional), radii, sectors, fills, per superpixel and per pixel, as values and booleans; occulter masks on plain, demosaiced and demodulated images; camera masks with the default and moved occulters; distinct by all of these",
    need={"pixels kept": 5000, "pixels filled": 5000, "selections with defaults": 50, "superpixels masked": 500, "superpixels kept": 500, "demosaiced masks": 50, "camera masks": 10},
)
META["C21"] = dict(
    rule="random images of all kinds and types, centres, minimum radii, steps, mean and output sectors, against ring statistics computed apart; scaled, offset and inside-changed images; distinct by all of these",
    need={"pixels judged": 20000, "invariances": 100, "occulters found": 5},
)
META["C22"] = dict(
    rule="random image sizes and aspect ratios, disc places, radii, softness, contrast, noise, integer and float; moved discs; distinct by geometry",
    need={"occulters located by sigmoid": 60, "occulters located by algo": 60, "occulters located by hough": 60, "moved discs": 20, "walks checked": 100, "walks over wide edges": 30, "walks without an edge": 20},
    assumptions=["discs of 20 to 33 % of the shorter side, edge softness 1 to 1.6 pixels, darkness 2 to 4.5 % of the background, noise up to 15 % of the dark level"],
)
META["C23"] = dict(
    rule="random images, pairs of pixels (horizontal, vertical, corner to corner, all quadrants), centres, directions and radii; distinct by geometry",
    need={"samples": 10000, "samples along rays": 5000, "rays, none": 100, "rays, both": 100},
)
META["C25"] = dict(
    rule="every operation of the catalogue (mon/ops.py) on random inputs of small, thin, odd-sided and larger shapes: kernels compiled with bounds checks; inputs ending or starting at an inaccessible page; inputs inside margins of two contents; pairs of processes whose heaps hold different patterns; processes in which every array of numpy ends or starts at an inaccessible page and begins life with one of two patterns; distinct by operation, shape, seed",
    need={"bounds-checked operations": 300, "operations between guard pages": 200, "operations inside canary margins": 200, "margins checked": 200, "poisoned-heap pairs": 150, "operations with every array guarded": 400, "arrays allocated between guard pages": 100000},
    env={"NUMBA_BOUNDSCHECK": "1"},
)
META["C26"] = dict(
    rule="random sequences over the operation catalogue (mon/ops.py) with few shapes and centres, repeated in other orders with other defaults, random states and hash seeds, in other processes and in 8 threads at microsecond switch intervals, under several floating-point error settings, with some 25 process-wide settings compared around each and looked at all the time beside threads; distinct by calls",
    need={"operations": 2000, "results compared after other operations": 800, "earlier results still intact": 400, "results computed beside other threads": 1000, "operations begun while another ran": 300, "results compared between processes": 150, "looks at settings beside operations": 2000},
)
META["C29"] = dict(
    rule="random matrices (random, numbered, unit, near identity), offsets and images of all types, applied and compared superpixel by superpixel; calculations from 4 to 6 images, all placements of the orientations, in other orders, from single images, with one superpixel changed, with dark and flat; distinct by shape, placement, content",
    need={"superpixels corrected": 500, "integer images corrected": 20, "calculations": 200, "orders compared": 20, "single-image calibrations judged": 50, "superpixels changed alone": 10, "calculations with dark": 4, "calculations with flat": 4, "calculations with both": 4, "calculations refused": 30},
)
META["C30"] = dict(
    rule="random square images of all types and headers (dictionaries and FITS headers, with and without old keywords), sun centres, plate scales and binnings, aligned once and twice; marked sun centres on frames of four binnings; distinct by size, type, centre, scale, content",
    need={"images aligned": 500, "headers checked": 550, "pixels placed": 50000, "marked suns found": 50},
)
META["C31"] = dict(
    rule="random images (plain, demosaiced in each mode, demodulated), all display functions with colour maps, explicit limits (zero included) and imshow arguments, histograms with bins and ranges; distinct by function, limits, content",
    need={"pictures checked": 250, "explicit limits checked": 60, "histograms checked": 80, "family histograms checked": 100, "tensors shown": 10, "frames shown": 4},
)
META["C32"] = dict(
    rule="random arrays of all shapes and types against exact rational statistics; exposures and signals over eight decades; two-population images in three arrangements and four separations; four-image sets whose half-sum has a narrow peak among 1-30% outliers; distinct by parameters and content",
    need={"statistics checked": 1800, "radiometric values checked": 280, "thresholds checked": 10, "normalisations checked": 35, "frames with more than a million pixels": 3},
)

# quick tier: how many times the scenario's own count, so that a check takes about 20 s
for _p, _b in dict(
    C01=12, C02=6, C03=3, C04=3, C05=10, C06=3, C07=6, C08=6, C09=10, C10=6, C11=2, C14=1.5, C18=4, C19=4, C20=4, C21=10,
    C22=8, C23=4, C24=8, C27=3, C28=6, C29=3, C30=6, C31=2, C32=8,
).items():
    META[_p]["boost"] = _b

for _p, _n in dict(
    C02={"once demodulated images recomputed": 200},
    C12={"conversions begun while another ran": 30, "delays injected in conversions": 150},
    C13={"sets with a file repeated": 1},
    C22={"camera frames searched": 10, "occulters over 300 pixels": 4},
    C23={"rays outside of the image refused": 40, "centres beside the border": 300},
    C05={"repeated sums": 100}, C11={"files of several saves": 300, "saves begun while another ran": 40, "delays injected in saves": 400, "images masked between saves": 20},
    C18={"folders replaced": 50, "families of scattered phases": 50},
    C01={"looks after writing in place": 100}, C09={"exact results": 200}, C28={"contrasts at the threshold": 20}, C29={"orientations measured again": 3}, C27={"commentary cards checked": 1500}, C20={"demosaiced images demodulated per superpixel": 20},
    C26={"figures drawn again": 5, "arrays changed in place between calls": 100, "files rewritten between calls": 100, "results that changed with the arguments": 50},
).items():
    META[_p]["need"] = {**META[_p].get("need", {}), **_n}
