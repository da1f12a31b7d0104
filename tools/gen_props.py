"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after an edit)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(
        prop=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)),
        technique=technique, note=note))


CO = "magpie/coords/"
PX = "magpie/pixel/"
RA = "magpie/randoms/"
MC = "magpie/montecarlo/"
DG = "magpie/densegrid/"
IN = ["inputs"]
BASE = ("Held on the executions counted in the evidence file, never more. Trusts NumPy, SciPy, healpy and the "
        "reference model in /verif/vlib. ")
STAT = ("Statistical oracle: every threshold is set so that correct code fails with probability below 1e-9 per run "
        "(Bernstein/DKW/chi-square bounds). ")

prop("C01", "Planar polar conversion and its inverse",
     "Converting planar Cartesian points to polar coordinates about any centre gives the distance to that centre and the counter-clockwise direction from it as an angle in [0, 2pi], for single numbers and, element by element, for arrays of any shape and numeric type. Converting polar coordinates to Cartesian with the same centre restores the points to rounding precision, and polar points with positive radius and angle in [0, 2pi) survive the opposite round trip.",
     IN, "for all finite points (all quadrants, axes, the centre itself, tiny and huge scales), all centres, scalars and arrays of any shape",
     "tests/test_coords.py converts three points about the origin; quadrant, axis, centre, scale and shape combinations are unbounded",
     [CO + "conversions.py"], [("cart2polar", CO + "conversions.py"), ("polar2cart", CO + "conversions.py")],
     ["return values of the planar conversions, in direct calls and inside the remapping pipelines"],
     "runtime contract monitors on the conversions (reference model + round-trip oracle) under hostile generated workloads", BASE)

prop("C02", "Spherical conversion, its inverse and the orthographic height",
     "Converting 3D Cartesian points to spherical coordinates about any centre gives the distance, the longitude in [0, 2pi] counter-clockwise from +x and the polar angle in [0, pi] measured from +z (polar angle 0 at the centre itself), for single numbers and for arrays of any shape, and converting back with the same centre restores the points. The orthographic height of a point of the projection plane is the non-negative height of the sphere of the given radius above it, and the fill value at every point on or outside the sphere's edge.",
     IN, "for all finite points including the poles, the centre and the axes, all centres, all radii and fill values, scalars and arrays of any shape",
     "tests/test_coords.py checks a handful of points on the unit sphere about the origin",
     [CO + "conversions.py"], [("cart2sphere", CO + "conversions.py"), ("sphere2cart", CO + "conversions.py"), ("ortho2cart", CO + "conversions.py")],
     ["return values of the spherical conversions, in direct calls and inside the pipelines"],
     "runtime contract monitors on the conversions (reference model + round-trip oracle) under hostile generated workloads", BASE)

prop("C03", "HEALPix plane projection and its inverse",
     "Projecting sphere angles to the HEALPix plane and back returns the same point of the sphere to rounding precision, for single numbers and arrays, in the equatorial belt and in all four facets of both polar caps including the seams and poles. The projection is the standard equal-area HEALPix one: it sends the centre of every HEALPix pixel to the centre of a diamond of the regular plane grid, and points of the plane map to the sphere point that healpy assigns to the pixel containing them.",
     IN, "for all longitudes in [0, 2pi], all polar angles in [0, pi], all plane points inside the HEALPix footprint, scalars and 1D arrays",
     "the tests project a few angles; the facet seams, the cap/belt border and the poles need dense, targeted sampling",
     [CO + "healpix.py"], [("healpix_xy2ang", CO + "healpix.py"), ("healpix_ang2xy", CO + "healpix.py")],
     ["return values of both projection directions"],
     "runtime contract monitors (independent projection formula, healpy pixel lookup, round-trip oracle) under boundary-biased workloads", BASE)

prop("C04", "Sphere rotations are rigid and go where they say",
     "Rotating sky positions from a start to an end direction turns the whole sphere rigidly along the great circle joining them, shifting moves the field by a longitude change followed by a turn along the end meridian, and spinning turns it by the given angle, anticlockwise seen from outside, about the chosen direction, which stays fixed. Angular separations and handedness are preserved, the start direction lands on the end direction, and returned longitudes lie in [0, 2pi] and polar angles in [0, pi]. Swapping start and end, or spinning by 2pi minus the angle, undoes the operation.",
     IN, "for all start/end/centre directions (poles, equal meridians, antipodes, both ends of every closed range), all spin angles in [0, 2pi], scalars and 1D arrays of positions",
     "no existing test calls any rotation function",
     [CO + "usphere.py"], [("usphere_rotate", CO + "usphere.py"), ("usphere_shift", CO + "usphere.py"), ("usphere_spin", CO + "usphere.py"), ("usphere_phi_shift", CO + "usphere.py")],
     ["return values of rotate, shift, spin and longitude shift, in direct calls and inside the HEALPix pipelines"],
     "runtime contract monitors comparing every observed rotation with an independent rotation matrix (Rodrigues) and with its inverse", BASE)

prop("C05", "No call modifies what the caller passes in",
     "No public function or method ever changes the arrays or lists given to it: after every call each argument holds bit-for-bit the values it had before, and default arguments keep their documented values. Results are new objects: writing into a returned array never changes an array the caller passed in, and no later call changes a result that has already been returned.",
     ["inputs", "programs"], "for every public function and method, all argument shapes and all sequences of calls",
     "the tests never compare inputs before and after a call",
     [CO, "magpie/grids/", "magpie/one_d/", PX, "magpie/polar/", RA, "magpie/remap/", MC, DG],
     [("fresh copies before in-place updates", "all modules")],
     ["arguments of every call at the caller's boundary"],
     "runtime monitor that snapshots every argument (and default) before each call at the API boundary and compares it afterwards, plus a write-through aliasing probe", BASE +
     "Exception by design: an identity conversion (a shift of zero with equal meridian) may hand back the same polar-angle array it was given; the aliasing clause is checked for functions whose result is a new quantity.")

prop("C06", "Areas add up",
     "The area of a longitude/polar-angle patch of the unit sphere is additive over any subdivision, scales with longitude width, and totals 4pi for the full sphere; the areas of the pixels of a polar grid, arranged with one row per angular bin and one column per radial bin, add up to the area of the annular sector they tile; a Cartesian pixel has the product of its side lengths as area. Converting polar angle to latitude and back is the identity, with latitude +pi/2 at polar angle 0.",
     IN, "for all valid patches and subdivisions, all uniform angular and arbitrary radial edges, all Cartesian edges",
     "the tests compute the full-sphere area once and otherwise only exercise assertions",
     [CO + "usphere_util.py", "magpie/polar/polar2radial.py"],
     [("usphere_area", CO + "usphere_util.py"), ("get_polar_area2d, get_pixarea", "magpie/polar/polar2radial.py"), ("sphere2lonlat, lonlat2sphere", CO + "usphere_util.py")],
     ["returned areas and latitudes"],
     "runtime conservation monitors (additivity over random partitions, analytic totals) on generated patches and grids", BASE)

prop("C07", "Uniform Cartesian grids",
     "A uniform grid of given length, number of cells and origin has exactly that many cells, equally wide edges running from the origin to origin plus length, and midpoints halfway between consecutive edges; the 2D and 3D grids are the tensor products of these axes with the first index running along x, whether lengths and counts are given as one number or one per axis, and the requested 1D midpoints are those of the same axes. Recovering edges from the midpoints of a uniform grid returns the edges it was made from.",
     IN, "for all lengths, cell counts, origins (zero, negative, large) and scalar or per-axis arguments",
     "the tests build a few grids from zero; per-axis origins and counts are not varied together",
     ["magpie/grids/cartesian.py"], [("get_xedges, xedges2mid, xmid2edges, grid1d, grid2d, grid3d", "magpie/grids/cartesian.py")],
     ["returned grids"],
     "runtime contract monitors against a rational reference grid; known-finding classifier for the edges-from-midpoints defect", BASE +
     "xmid2edges is a recorded known finding (an existing test asserts the wrong values, so it cannot be repaired).")

prop("C08", "Polar grids and equal-area polar grids",
     "A polar grid consists of the midpoints of equal radial and equal angular bins over the requested ranges, with the first index along the radius. An equal-area polar grid has rings of equal width, each cut into equal angular pixels so that every pixel of every ring has the same area; the reported pixel area times the reported pixel count is the area of the disc, the listed pixel centres number exactly that count and are the ring and angular midpoints in ring order.",
     IN, "for all bin counts, radial and angular ranges and numbers of pixels in the first ring",
     "the tests check one configuration of each",
     ["magpie/grids/polar.py"], [("polargrid, polarEA_grid, polarEA_area, polarEA_npix", "magpie/grids/polar.py")],
     ["returned grids, areas and counts"],
     "runtime contract and conservation monitors (per-pixel area reconstruction) over generated configurations", BASE)

prop("C09", "Outlines of rectangles, arcs, disc segments and boxes",
     "The outline of a rectangle has exactly the requested number of points, a quarter of them equally spaced along each side from corner to corner, anticlockwise from the lower-left corner and closed; an arc has the requested number of points at equal angles at the given radius about the centre, and a disc-segment outline is the rectangle outline of its radius/angle ranges drawn in the plane. The outline of a 3D box consists of its twelve edges, each with a twelfth of the requested points equally spaced from corner to corner; when only the edges visible from a viewpoint are requested, exactly the edges ending at a corner hidden behind the box's interior are left out.",
     IN, "for all sizes, positions, centres, point counts and viewpoints",
     "the tests check one unit shape of each kind and never the visibility option in general position",
     [PX + "basic_shapes.py"], [("get_square, get_arc, get_disc, get_box", PX + "basic_shapes.py")],
     ["returned outline coordinates"],
     "runtime contract monitors with an exact geometric reference (segment/box intersection for visibility)", BASE +
     "Visibility is judged for viewpoints whose line of sight crosses at least 2% of its length inside the box, or none of it.")

prop("C10", "HEALPix pixel outlines",
     "The outline of a HEALPix pixel is the diamond of the plane projection centred on the pixel: it starts at the left corner, runs clockwise over the top and back along the bottom, closes, has the requested number of points and is reversed on request; the top and bottom halves alone run from the left to the right corner. Points just inside the outline belong to the pixel and points just outside do not, as judged by healpy.",
     IN, "for all resolutions, all pixels, all point counts, both directions",
     "the tests only check that the functions run on one resolution",
     [PX + "healpix_boundary.py"], [("healpix_boundary, healpix_boundary_top, healpix_boundary_bot", PX + "healpix_boundary.py")],
     ["returned outline coordinates"],
     "runtime contract monitors with healpy as membership oracle and an analytic diamond reference", BASE)

prop("C11", "HEALPix pixel, ring and diagonal indices",
     "For every resolution, converting a pixel number to its ring and position along the ring, and back, is the identity and agrees with healpy's ring scheme, for single numbers and arrays; the plane coordinates of a pixel are those of its centre as given by healpy. The diagonal integer indices used for neighbour searches are different for different pixels and convert back exactly to the plane-aligned indices they came from.",
     IN, "for all resolutions (powers of two and other positive integers), all pixels, scalars and arrays",
     "the tests run one resolution and only check that the functions return",
     [PX + "healpix_index.py"], [("healpix_pix2ij, healpix_ij2pix, healpix_i2id, healpix_j2jd, healpix_ijd2ijs, healpix_ijs2ijd, healpix_ij2xy, healpix_pix2xy", PX + "healpix_index.py")],
     ["returned indices and coordinates"],
     "runtime contract monitors with healpy as oracle, exhaustive over all pixels at small resolutions and ring-border biased at large ones", BASE)

prop("C12", "HEALPix neighbours",
     "For every resolution of at least 2 and every pixel, the neighbour search returns, as paired diagonal indices without repeats, exactly the seven or eight pixels that touch the given pixel, including across polar-cap facets and across longitude zero.",
     IN, "for all resolutions nside >= 2 and all pixels",
     "the existing test only checks that the call returns for one resolution",
     [PX + "healpix_index.py"], [("healpix_ijs_neighbours", PX + "healpix_index.py")],
     ["returned index pairs"],
     "runtime contract monitor with healpy's neighbour tables as oracle, exhaustive over all pixels of several resolutions", BASE +
     "nside = 1 is excluded: base pixels touch themselves in the scheme used.")

prop("C13", "1D rebinning is the overlap mean",
     "Rebinning gives in each new bin the average of the old bin values weighted by the length of each old bin inside the new bin (times the optional weights), and not-a-number where no old bin overlaps; the single-bin weights are each old bin's overlap length divided by the new bin's length. Hence a constant stays constant, the integral is conserved when the new bins tile the old range, rebinning is linear in the data, and old bins that do not overlap a new bin have no influence on it.",
     IN, "for all non-uniform increasing old and new edges (nested, shifted, coincident, partially or fully outside), all data and positive weights",
     "no existing test calls the 1D rebinning",
     ["magpie/one_d/one_d.py"], [("rebin_1d, rebin_1d_single_bin_weights", "magpie/one_d/one_d.py")],
     ["returned bin values"],
     "runtime contract monitor against an exact rational overlap model plus metamorphic conservation/linearity/locality monitors", BASE +
     "New bins of zero width are outside the specification.")

prop("C14", "1D rebinning errors are standard errors of the rebinned mean",
     "The error returned for a new bin is the standard error of the (weighted) overlap mean when old bins are independent and the error of a part of an old bin grows as one over the square root of the fraction of its length that is used. Hence errors scale linearly with the input errors, do not change when all weights are multiplied by one factor, and do not change when an old bin is split into equal parts whose errors are larger by the square root of the number of parts.",
     IN, "for all old and new edges as for the rebinned mean, all non-negative errors and positive weights",
     "no existing test calls the 1D rebinning with errors",
     ["magpie/one_d/one_d.py"], [("rebin_1d", "magpie/one_d/one_d.py")],
     ["returned bin errors"],
     "runtime contract monitor against an exact variance-propagation model plus metamorphic splitting/scaling monitors", BASE)

prop("C15", "Grid-to-grid remapping is exact, conserving and local",
     "Remapping a 1D, 2D or 3D Cartesian grid onto another gives every new cell the average of the old cells weighted by the exact length, area or volume each shares with it, counting everything outside the old box as zero, with sizes, origins and cell counts given as one number or one per axis. Hence the total (value times cell volume) inside the overlap of the two boxes is conserved, each axis uses its own box, an identical target grid returns the input, and an infinite or undefined old cell affects only the new cells that overlap it.",
     IN, "for all box sizes, origins, cell counts (coarser, finer, commensurate, shifted, partly or wholly outside), 1D/2D/3D data",
     "no existing test calls the grid remapping",
     ["magpie/remap/grid2grid.py", "magpie/src/remap_utils.f90", "magpie/src/remap_1d_grid2grid.f90", "magpie/src/remap_2d_grid2grid.f90", "magpie/src/remap_3d_grid2grid.f90"],
     [("grid2grid1D/2D/3D", "magpie/remap/grid2grid.py"), ("remap_1d_grid2grid_pixel", "magpie/src/remap_utils.f90")],
     ["returned grids of the real Fortran kernels, rebuilt from the working tree"],
     "runtime contract monitor of the compiled kernels against an exact rational overlap model plus conservation and locality monitors", BASE)

prop("C16", "Native remapping kernels are memory safe and use no undefined data",
     "For every valid remapping request the compiled kernels read and write only inside the arrays they were given and never let uninitialised memory or undefined arithmetic influence a result.",
     IN, "for all box sizes, origins, cell counts and dimensions accepted by the remapping functions, including targets outside the source box and single-cell grids",
     "tests never call the kernels and an out-of-bounds or uninitialised read usually returns a plausible number",
     ["magpie/src/remap_utils.f90", "magpie/src/remap_1d_grid2grid.f90", "magpie/src/remap_2d_grid2grid.f90", "magpie/src/remap_3d_grid2grid.f90", "magpie/remap/grid2grid.py"],
     [("index guards and pixel length", "magpie/src/remap_utils.f90")],
     ["sanitizer, bounds-check and memcheck reports; outputs of builds poisoned with different patterns"],
     "AddressSanitizer + UBSan + Fortran bounds checking on the kernels driven through the Python API, differential poisoning for uninitialised data, valgrind memcheck in the thorough tier",
     "Red-zone tools miss intra-object overflows; a clean run is not memory safety. Trusts gfortran's instrumentation and valgrind.")

prop("C17", "Random points fill the requested region uniformly",
     "Random points on a line, in a rectangle, box, polar annulus sector, sphere surface patch and spherical shell segment are as many as requested, always inside the requested ranges, independent between axes, and uniform per unit length, area, surface area or volume.",
     ["inputs", "configurations"], "for all ranges (off-centre, narrow, inner radius zero or not, patches touching poles), all sizes and seeds",
     "no existing test draws randoms; a distribution cannot be settled by examples",
     [RA + "cart.py", RA + "polar.py", RA + "sphere.py", RA + "usphere.py"],
     [("randoms_1d/2d/3d", RA + "cart.py"), ("randoms_polar", RA + "polar.py"), ("randoms_sphere_r, randoms_sphere", RA + "sphere.py"), ("randoms_usphere", RA + "usphere.py")],
     ["returned samples"],
     "statistical runtime monitors (support, Kolmogorov-Smirnov with DKW bound, cell-count chi-square for independence) over seeded draws", BASE + STAT)

prop("C18", "Random points in a HEALPix pixel fill that pixel uniformly",
     "Random points requested in a HEALPix pixel are exactly as many as requested, all lie inside that pixel according to healpy, and cover it uniformly in area, for pixels of the polar caps, the equatorial belt, the facet borders and the longitude seam.",
     ["inputs", "configurations"], "for all resolutions and pixels, all sizes and seeds",
     "no existing test draws randoms",
     [RA + "usphere.py", PX + "healpix_index.py", CO + "healpix.py"],
     [("randoms_healpix_pixel", RA + "usphere.py")], ["returned samples"],
     "statistical runtime monitors with healpy membership and sub-pixel occupancy counts as oracle", BASE + STAT)

prop("C19", "Cumulative distributions and samples drawn from them",
     "The cumulative distribution built from a density given at bin midpoints is defined on the bin edges, starts at 0, ends at 1, grows in each bin in proportion to the density, and the normalised density integrates to 1. Samples drawn from a cumulative distribution lie between its first and last coordinate and follow it: with linear interpolation they follow the piecewise-linear cumulative exactly, and with the default interpolation they follow a smooth strictly positive density.",
     ["inputs", "configurations"], "for all non-negative densities with positive total, all bin widths and positions, all sizes and seeds; default (cubic) interpolation for smooth strictly positive densities",
     "no existing test draws randoms or builds a cumulative distribution",
     [RA + "pdf.py"], [("pdf2cdf, randoms_cdf, randoms_pdf", RA + "pdf.py")], ["returned edges, cumulative, density and samples"],
     "runtime contract monitors plus Kolmogorov-Smirnov (DKW) monitors of seeded samples", BASE + STAT)

prop("C20", "Shuffling and drawing subsamples",
     "Shuffling returns the same elements in uniformly random order. Drawing a given number returns that many elements of the sample without repeats, every subset equally likely. Drawing by probability keeps each element independently with its own probability when no number is given; when a number is given it returns exactly that many elements without repeats, uniformly when the probabilities are equal and favouring elements of larger probability otherwise.",
     ["inputs", "configurations"], "for all samples (1D or row-wise), all sizes smaller than the sample, all probabilities, all seeds",
     "no existing test calls the subsampling functions",
     [RA + "subsample.py"], [("shuffle, random_draw, random_prob_draw", RA + "subsample.py")], ["returned samples"],
     "runtime conservation monitor (unique ids: every element accounted for once) plus statistical frequency monitors", BASE + STAT)

prop("C21", "Stochastic weights round to neighbours with the right mean",
     "A stochastic integer weight is always the integer just below or just above the input weight, equals it when the weight is an integer, and averages to the weight over many draws, independently for each element; a stochastic binary weight is 0 or 1 and is the smaller of 1 and a stochastic integer weight. Single numbers and arrays are treated alike.",
     ["inputs", "configurations"], "for all non-negative weights, scalars and 1D arrays, all seeds",
     "no existing test calls the stochastic weights",
     [RA + "subsample.py"], [("stochastic_integer_weights, stochastic_binary_weights", RA + "subsample.py")], ["returned weights"],
     "runtime contract monitor on every draw plus statistical mean monitors (Bernstein bound)", BASE + STAT)

prop("C22", "Monte Carlo box-to-ring remapping",
     "Each polar pixel of a Monte Carlo remapped 2D box is, up to Monte Carlo noise, the area-weighted mean of the box over the part of the pixel inside the box (weighted by the weight map where one is given), and not-a-number when the pixel lies wholly outside; a uniform map is reproduced exactly and cells that do not touch the pixel never contribute. This holds for linear and logarithmic radial bins, partial angular ranges, off-centre grids, rectangular boxes with unequal cells, and a rotation by any angular shift, which turns every pixel anticlockwise.",
     ["inputs", "configurations"], "for all boxes, polar grids, centres, shifts, maps and weights",
     "no existing test runs any remapping class",
     [MC + "box2ring.py", RA + "polar.py", CO + "conversions.py"], [("setup_box, setup_polar_lin, setup_polar_log, get_weights, remap", MC + "box2ring.py")],
     ["remapped arrays"],
     "statistical runtime monitor against an independent exact ray-integration model of pixel overlaps; exact locality and constancy monitors", BASE + STAT)

prop("C23", "Monte Carlo cube-to-shell remapping",
     "Each pixel of each shell of a Monte Carlo remapped 3D cube is, up to Monte Carlo noise, the volume-weighted mean of the cube over the part of that spherical HEALPix cell inside the cube (weighted by the weight map where one is given), and the HEALPix missing-value mark when the cell lies wholly outside; a uniform map is reproduced exactly and cells that are not touched never contribute. This holds for linear and logarithmic shells, off-centre origins and unequal cells; arrays are indexed in the layout of the grid's own coordinate arrays.",
     ["inputs", "configurations"], "for all cubes, shell grids, resolutions, centres, maps and weights",
     "no existing test runs any remapping class",
     [MC + "cube2shell.py", RA + "usphere.py", RA + "sphere.py"], [("setup_cube, setup_polar_lin, setup_polar_log, get_weights, remap", MC + "cube2shell.py")],
     ["remapped arrays"],
     "statistical runtime monitor against an independent reference sampler; exact locality and constancy monitors", BASE + STAT)

prop("C24", "Monte Carlo HEALPix-to-cap and HEALPix-to-box remapping",
     "Each pixel of a Monte Carlo remapped polar cap or angular box is, up to Monte Carlo noise, the area-weighted mean of the HEALPix map over that region of the sphere (weighted by the weight map where one is given). Cap pixels are bounded by angular distances from the centre and position angles counted from south through east; box pixels are bounded by longitudes and latitudes relative to the centre; an extra spin turns the grid anticlockwise about the centre. A uniform map is reproduced exactly and HEALPix pixels that do not touch the region never contribute.",
     ["inputs", "configurations"], "for all resolutions, centres including poles and the longitude seam, spins, ranges, maps and weights",
     "no existing test runs any remapping class",
     [MC + "heal2ring.py", MC + "heal2polar.py", CO + "usphere.py"], [("setup_map, setup_polar_cap, get_weights, remap", MC + "heal2ring.py"), ("setup_map, setup_box, get_weights, remap", MC + "heal2polar.py")],
     ["remapped arrays"],
     "statistical runtime monitor against an independent reference sampler built on rotation matrices and healpy", BASE + STAT)

prop("C25", "Dense-grid box-to-ring remapping",
     "Each polar pixel of a dense-grid remapped 2D box is the area-weighted mean, over its regular sub-pixels, of the box cell that contains the sub-pixel's centre, counting sub-pixels outside the box as zero; with a weight map it is the ratio of the weighted map and the weight map remapped that way. Radial and angular refinement factors, angular ranges, off-centre grids, unequal cells and an angular shift each act on their own axis.",
     ["inputs", "configurations"], "for all boxes, polar grids, refinement factors, centres, shifts, maps and weights",
     "no existing test runs any remapping class",
     [DG + "box2ring.py"], [("setup_box, setup_polar, remap", DG + "box2ring.py")], ["remapped arrays"],
     "runtime contract monitor against an independent loop-based reference implementation of the sub-pixel mean", BASE)

prop("C26", "Dense-grid cube-to-shell remapping, with periodic images",
     "Each pixel of each shell of a dense-grid remapped 3D cube is the volume-weighted mean, over its radial sub-shells and HEALPix sub-pixels, of the cube cell that contains the sub-pixel's centre, counting points outside the cube as zero. When periodic images are requested along an axis, points beyond the cube along that axis take the value of the cube repeated with its own period over the requested number of images. Arrays are indexed in the layout of the grid's own coordinate arrays.",
     ["inputs", "configurations"], "for all cubes, shells, resolutions, refinement factors, centres, periodic image ranges and maps",
     "no existing test runs any remapping class",
     [DG + "cube2shell.py"], [("setup_cube, setup_polar, remap", DG + "cube2shell.py")], ["remapped arrays"],
     "runtime contract monitor against an independent reference implementation of the sub-cell mean", BASE)

prop("C27", "Dense-grid HEALPix remapping to cap, box and orthographic view",
     "Each pixel of a dense-grid remapped polar cap or angular box is the area-weighted mean, over its regular sub-pixels, of the HEALPix pixel containing the sub-pixel's centre, with the same conventions for centre, axes and spin as the Monte Carlo version; each pixel of the orthographic view is the plain mean over the sub-pixels that lie on the sphere and not-a-number where the pixel's centre is off the sphere. With a weight map the result is the ratio of the weighted map and the weight map remapped that way.",
     ["inputs", "configurations"], "for all resolutions, centres, spins, ranges, refinement factors, radii, maps and weights",
     "no existing test runs any remapping class",
     [DG + "heal2ring.py", DG + "heal2polar.py", DG + "heal2ortho.py"], [("setup_polar_cap, remap", DG + "heal2ring.py"), ("setup_box, remap", DG + "heal2polar.py"), ("setup_box, remap", DG + "heal2ortho.py")], ["remapped arrays"],
     "runtime contract monitor against an independent reference built on rotation matrices and healpy", BASE)

prop("C28", "The Monte Carlo and dense-grid schemes agree",
     "For the same map and target grid the Monte Carlo and the dense-grid versions of the box-to-ring, cube-to-shell, HEALPix-to-cap and HEALPix-to-box remaps return the same values on pixels inside the map, to within the Monte Carlo noise plus the resolution of the dense sub-grid, including under centre offsets, rotations and weight maps.",
     ["configurations"], "for all grids, centres, shifts, maps and weights at matching settings",
     "no existing test runs either scheme",
     [MC, DG], [("remap of both schemes", "magpie/montecarlo, magpie/densegrid")], ["remapped arrays of both schemes"],
     "differential runtime monitor between two independent implementations with a noise-plus-resolution tolerance", BASE + STAT)

prop("C29", "Radial profiles, cumulative profiles and their errors",
     "A radial profile is, for each radial bin, the mean over angle (weighted where weights are given), and its error is the standard error in which each pixel's variance is scaled by the ratio of original to polar pixel area. Profiles taken from a remapped box leave out the polar pixels that the box does not support, whatever values they hold (fully covered pixels only for dense grids, at least partly covered ones for Monte Carlo), for any combination of weights and errors. The cumulative profile starts at zero and adds, bin by bin, value times annulus area, with errors added in quadrature.",
     ["inputs", "configurations"], "for all polar data, errors, weights and masks, all grids inside, across and outside the box",
     "no existing test computes a profile",
     ["magpie/polar/polar2radial.py", "magpie/polar/radial.py", MC + "box2ring.py", DG + "box2ring.py", MC + "heal2ring.py", DG + "heal2ring.py"],
     [("polar2radial", "magpie/polar/polar2radial.py"), ("cumulative_radial", "magpie/polar/radial.py"), ("polar2radial methods", "magpie/montecarlo, magpie/densegrid")],
     ["returned profiles and errors"],
     "runtime contract monitor against an independent profile model, with poison values in unsupported pixels", BASE)

prop("C30", "Rotating polar data",
     "Rotating polar angles adds the rotation and wraps into [0, 2pi]. Rotating gridded polar data over the full circle by an angle gives each bin the data found that angle further round, sharing between the two bins it straddles in proportion to overlap: whole-bin rotations are exact cyclic shifts, the sum over angle in every ring is conserved, and rotations compose with their complement to the identity for whole bins. Every remapping class that offers the rotation gives the same result as the standalone function, and rotating agrees with remapping under an angular shift of the same size.",
     ["inputs", "configurations"], "for all full-circle grids, data and rotation angles in (0, 2pi)",
     "no existing test rotates data",
     [CO + "polar.py", MC + "box2ring.py", DG + "box2ring.py", MC + "heal2ring.py", DG + "heal2ring.py"],
     [("rotate_polar, rotate_polar_grid", CO + "polar.py"), ("rotate_polar methods", "magpie/montecarlo, magpie/densegrid")],
     ["returned angles and grids"],
     "runtime contract, conservation and metamorphic (rotation vs shifted remap) monitors", BASE)

prop("C31", "Perspective view and its inverse",
     "The perspective view places the point looked at on the view axis, gives for every point its true distance from the camera, and scales its sideways offsets by display distance over depth (similar triangles), with the spin turning the view rigidly about the view axis. Applying the inverse to the view coordinates and distance of a point in front of the camera restores the original 3D point, for every camera, target, display distance and spin, for single points and arrays.",
     ["inputs", "configurations"], "for all cameras, targets, display distances, spins and points in front of the camera",
     "no existing test uses the perspective view",
     [DG + "pointofview.py"], [("setup, transform, reverse", DG + "pointofview.py")], ["returned view and 3D coordinates"],
     "runtime contract monitor against a camera-frame reference model plus round-trip oracle", BASE)

prop("C32", "Orthographic coordinates match the orthographic map",
     "Transforming sky angles to orthographic plane coordinates puts the map centre at the origin, preserves the projection of the rotated unit sphere scaled by the radius, and yields not-a-number exactly for directions on the far hemisphere. Coordinates and map agree: the direction whose transform is a map pixel's centre is the direction whose HEALPix value that pixel shows.",
     ["inputs", "configurations"], "for all centres, radii, box sizes and directions, scalars and arrays",
     "no existing test uses the orthographic view",
     [DG + "heal2ortho.py"], [("transform, setup_box, remap", DG + "heal2ortho.py")], ["returned plane coordinates and maps"],
     "runtime contract monitor against a rotation-matrix reference and a map/coordinate cross-check", BASE)

prop("C33", "Same seed, same result",
     "After seeding NumPy's global random generator with the same value, every random draw, subsample, stochastic weight and Monte Carlo remap returns identical values on every repetition and in a new process, while different seeds, and repeated calls without reseeding, give different values. Deterministic functions and dense-grid remaps return identical values on every call whatever the generator's state, and do not advance it.",
     ["inputs", "histories"], "for all random functions and Monte Carlo classes, all seeds and call sequences",
     "no existing test seeds or repeats anything",
     [RA, MC], [("use of the global generator", "magpie/randoms, magpie/montecarlo")], ["outputs of repeated seeded histories; generator state before and after deterministic calls"],
     "recorded-history replay monitor: identical call histories under equal seeds must give bit-identical logs, within and across processes", BASE)

prop("C34", "Reused objects behave like new ones",
     "A remapping object that has been set up, used, set up again and used again gives exactly the results of a new object that only received its latest settings, for any order and number of setups, weight calculations, remaps, masks, profiles and cleanings; nothing from an earlier grid, map, weight calculation or other object leaks in. After cleaning, an object is indistinguishable from a new one.",
     ["histories"], "for all sequences of setup, weight, remap, mask, profile, rotation and clean calls on one or several interleaved objects of every class",
     "no existing test uses any class, let alone reuses an object",
     [MC, DG], [("setup methods resetting derived state, clean", "magpie/montecarlo, magpie/densegrid")], ["results of every operation of a recorded history"],
     "history monitor: random operation sequences checked online against a model object rebuilt from the latest settings", BASE +
     "Settings must be given in the documented order (map before target grid; cube before shells) and weights recalculated after a setup.")

prop("C35", "Progress reporting never changes results",
     "Asking for progress output changes nothing but what is printed: results with and without it are identical, and with it switched off nothing is printed. The progress bar accepts every loop length and index and all its display options, prints a bar of the requested length that is filled in proportion to progress, and ends with a full bar, 100% and a newline on the last index only.",
     ["inputs", "configurations"], "for all classes and methods with progress output, all loop lengths, indices and options",
     "no existing test captures output or uses the progress bar",
     ["magpie/utils/progress.py", MC, DG], [("progress_bar", "magpie/utils/progress.py"), ("verbose options", "magpie/montecarlo, magpie/densegrid")], ["captured standard output; results"],
     "differential runtime monitor (progress on/off) with captured output and a format checker for the bar", BASE)

prop("C36", "Documented argument limits are enforced",
     "Every documented limit on arguments (ranges of angles and areas, positive bin counts, ordered ranges, matching shapes, monotonic bin edges, HEALPix resolutions, sample sizes, normalised cumulative distributions, minimum Monte Carlo size) is enforced: a violating call raises an assertion error, returns nothing and leaves the object's previous settings usable and unchanged. Values exactly at an allowed limit are accepted.",
     IN, "for all functions and setup methods with documented limits, values at, just inside and just outside every limit",
     "the tests only cover the limits of the sphere-area function",
     [CO, PX, RA, "magpie/one_d/one_d.py", "magpie/utils/check.py", MC, DG], [("argument assertions", "all modules")], ["raised exceptions; object state before and after"],
     "runtime monitor of rejected and accepted calls at generated boundary values, with object-state snapshots", BASE)

prop("C37", "Plot helpers draw the right lines",
     "Plotting a box draws the closed outline of that box and plotting a circle draws points at the given radius about the given centre, on the given axes or the current ones. On an orthographic plot, a longitude/latitude box is drawn where the map's own coordinate transform puts its outline (also when given in latitude convention), the image covers the map's extent, grid lines are the transformed meridians and parallels, and finalising sets the view to the map's extent, mirrored when seen from inside the sphere.",
     ["inputs", "configurations"], "for all boxes, circles, maps, extents and options",
     "no existing test imports the plot helpers",
     ["magpie/plots/shapes.py", "magpie/plots/ortho.py"], [("plot_box, plot_circle", "magpie/plots/shapes.py"), ("PlotOrtho", "magpie/plots/ortho.py")], ["artists recorded on the axes"],
     "runtime monitor of the artists recorded on a headless Matplotlib canvas against reference outlines", BASE)

prop("C38", "Remaps are linear, bounded and local",
     "For every remapping scheme and fixed weights or grid, the remapped value is linear in the map, lies between the smallest and largest map values it draws on (and zero, where space outside the map counts as zero), and an infinite or undefined map cell affects only target pixels close enough to overlap it. Scaling all weights of a weight map by one factor changes nothing, a uniform weight map equals no weight map inside the map, and cells of zero weight have no influence.",
     ["inputs", "configurations"], "for all remapping classes, grids, maps and weight maps",
     "no existing test runs any remapping class",
     [MC, DG], [("remap", "magpie/montecarlo, magpie/densegrid")], ["remapped arrays under related maps"],
     "metamorphic runtime monitors (linearity, range, locality, weight scaling) on all nine remapping classes", BASE)

prop("C39", "Setting up a remap describes exactly the requested grid",
     "After setting up a box, cube, polar, cap or angular-box grid on any remapping class, the published edges run from the requested minimum to the requested maximum with the requested number of bins (equal in the linear case, equal in logarithm in the logarithmic case, with an extra innermost bin from zero on request), the midpoints lie halfway between edges, the published widths are those of the bins, and the published coordinate arrays hold those midpoints in the layout that remapped or input arrays must have. Both schemes publish the same description for the same request.",
     ["inputs", "configurations"], "for all ranges, bin counts and options of all nine remapping classes",
     "no existing test sets up any class",
     [MC, DG], [("setup methods", "magpie/montecarlo, magpie/densegrid")], ["published grid attributes; shapes of remapped arrays"],
     "runtime contract monitor on the object state after each setup", BASE)

prop("C40", "Map labels name the coordinate at their position",
     "On an orthographic plot, every label written on the sphere shows, with the requested number of decimals and in the requested convention (polar angle or latitude), the longitude or polar angle of the grid line at the zero point, and sits where the map's coordinate transform puts that point (displaced by the requested shift); every such point within the map's extent is labelled. Every tick along the map's edges names the longitude (from 0 to 360 degrees, also across the seam) or latitude at which the edge has that coordinate, and grid lines that cross an edge have a tick.",
     ["inputs", "configurations"], "for all map centres, extents, radii, spacings, decimals, conventions, zero points and shifts",
     "no existing test imports the plot helpers",
     ["magpie/plots/ortho.py"], [("PlotOrtho.plot_labels", "magpie/plots/ortho.py")], ["texts, ticks and tick labels on the axes"],
     "runtime monitor of texts and ticks on a headless Matplotlib canvas against the direction they sit on", BASE)

prop("C41", "Calls in several threads do not disturb each other",
     "Functions, and remapping objects that are not shared between threads, may be used from several threads at once: every call returns exactly what the same sequence of calls returns when it runs alone, for any interleaving of the threads.",
     ["schedules", "programs"], "for all functions and classes, all interleavings of two to four threads at line, byte-code and preemption granularity",
     "the tests run in one thread; interference shows only for particular interleavings",
     [CO, PX, RA, "magpie/one_d/one_d.py", "magpie/remap/grid2grid.py", MC, DG], [("all public functions and classes", "all modules")], ["results of every call in every thread"],
     "seeded thread-schedule exploration (line and byte-code switching, forced preemption) with a differential oracle against the serial run", BASE)

prop("C42", "Results depend on values, not on storage or neighbours",
     "Every function and remap gives the same results for the same values however these are stored: contiguous, strided, reversed, Fortran-ordered, unaligned, read-only or byte-swapped arrays, 32- and 64-bit integers for whole numbers, NumPy numbers for Python numbers; single-precision data give the result to single precision. Elementwise functions (coordinate conversions, sphere rotations, HEALPix index and projection functions, views) give for every element of an array what they give for that element in another order, in a part of the array, in a longer or higher-dimensional array, or as a single number.",
     IN, "for all functions and classes, all storage forms, arrangements and lengths of their arguments",
     "the tests pass one contiguous array of doubles at a time",
     [CO, PX, "magpie/one_d/one_d.py", "magpie/polar/polar2radial.py", "magpie/remap/grid2grid.py", MC, DG], [("all functions taking arrays", "all modules")], ["return values for differently stored equal arguments"],
     "metamorphic runtime monitors (storage, type, permutation, splitting, repetition, reshaping, single numbers)", BASE)

prop("C43", "Calls have no effect outside their results and objects",
     "Apart from returning results, setting attributes of their own object, advancing NumPy's generator in random functions, drawing on the requested axes and printing when progress is requested, no function, method or import changes the process: floating-point error handling, print options, warning filters, generators, environment, working directory, streams, signal handlers, threads, plotting defaults, current figure and axes, and other libraries stay as they were, no file is written or left open, no process or connection is started and nothing is printed, also when a call is rejected or fails midway.",
     ["inputs", "configurations", "fault_sequences"], "for all functions, methods and imports, in all process states, for accepted, rejected and failing calls",
     "the tests look at return values only",
     [CO, PX, RA, MC, DG, "magpie/plots/ortho.py"], [("all public functions, classes and modules", "all modules")], ["process state before and after; audit events; output at file-descriptor level"],
     "process-state monitor with audit hooks and file-descriptor capture around every call, under randomised process states and failing calls", BASE)

prop("C44", "Ragged containers and ordered sequences",
     "A ragged container built from a list of arrays is a one-dimensional object array with exactly those arrays, in order and unaltered, also when they are empty, all of one length, of any type or dimension. The monotonicity test is true exactly when no value is smaller than the one before it (equal neighbours are allowed, undefined values are not), for sequences of any length and type.",
     IN, "for all lists of arrays and all sequences of numbers",
     "no existing test covers either",
     ["magpie/utils/ragged.py", "magpie/utils/check.py"], [("ragged_array", "magpie/utils/ragged.py"), ("is_pos_monotonic", "magpie/utils/check.py")], ["return values"],
     "runtime contract monitor with the definition as oracle", BASE)

prop("C45", "Objects own their settings; copies are independent",
     "After a set-up call has returned, the object's results do not change when the caller modifies the lists or arrays it passed, or when values are written into what another object publishes. A deep copy or a pickled and restored copy of an object, at any stage of its life and also in another process, gives the results the original gives, and nothing done afterwards to one of the two (new set-ups, cleaning, overwriting its arrays) changes the other.",
     ["histories"], "for all classes, stages, settings and later actions",
     "no existing test sets up any class",
     [MC, DG], [("setup methods", "magpie/montecarlo, magpie/densegrid"), ("PointOfView.setup", DG + "pointofview.py")], ["results of originals and copies"],
     "offline comparison of results of copied, aliased and untouched objects over random histories, in and across processes", BASE)

prop("C46", "Repeated use does not accumulate memory",
     "Calling a function again and again, going through the life of a remapping object again and again, or using or setting up one object again and again keeps no additional memory: nothing is retained per call by Python objects or by the native kernels, failed calls included. Dropped objects are freed, and cleaned objects let go of their arrays.",
     ["histories"], "for all functions and classes and arbitrarily long repetitions",
     "the tests call each function a few times and never look at memory",
     [CO, PX, RA, "magpie/remap/grid2grid.py", "magpie/src/", MC, DG], [("all public functions and classes", "all modules")], ["traced allocations, weak references and resident size over windows of repeated calls"],
     "allocation tracing (tracemalloc), weak references and resident-size monitoring over windows of repeated calls", BASE)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for e in P:
            assert len(e["prop"]["title"]) <= 80, e["prop"]["id"]
            f.write(json.dumps(e["prop"]) + "\n")
    checks, missing = [], []
    for e in P:
        i = e["prop"]["id"]
        if not os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
            missing.append(dict(property=i, reason="its check is not built yet"))
            continue
        cmd = "/opt/venv/bin/python run.py " + i
        checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd=cmd + " --thorough", evidence_file="evidence/%s.json" % i,
                           technique=e["technique"], level="exploration", level_note=e["note"].strip()))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python run.py --selftest", checks=checks, not_applicable=missing,
             notes="No hooks in /repo: monitors wrap the public API from /verif at import time, on a scratch copy of the working tree whose Fortran kernels each check rebuilds. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
