#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe, hook_needed=hook)))

prop("C01", "A shape's Fourier transform, area and inside test describe one region",
 "For every shape (circle, rotated ellipse, polygon, square, hexagon, shape given by polar Fourier coefficients) the analytic Fourier transform at any wave vector equals the integral of exp(-i g.r) over the region of the plane that the documented parameters describe, with the centre, axes and rotation as documented. "
 "The value at g=0 is the area, values at g and -g are complex conjugates, and the point-inside test marks exactly that same region. "
 "Rotating a polygon about its centre of mass rotates that region and keeps its area; clockwise polygons are refused.",
 ["inputs"], "All shape kinds, centres, sizes, rotations and vertex lists (convex and concave, axis-aligned, horizontal and vertical edges), and all g including g=0, gx=0 or gy=0 exactly.",
 "The only shape test builds three polygons and looks at their orientation error; no test evaluates a transform at any g.",
 ["legume/phc/shapes.py"], [("analytic transforms per shape class", "legume/phc/shapes.py: compute_ft"), ("indicator functions", "legume/phc/shapes.py: is_inside"), ("polygon rotation", "legume/phc/shapes.py: Poly.rotate")],
 ["Shape.compute_ft", "Shape.is_inside", "Shape.area", "Poly.rotate"])

prop("C02", "Lattices: dual vectors, cell areas, Brillouin-zone paths and grids",
 "For every pair of primitive vectors the reciprocal vectors satisfy ai.bj = 2 pi delta_ij, the elementary-cell and Brillouin-zone areas are |a1 x a2| and (2 pi)^2/|a1 x a2|, and the lattice kind is classified correctly. "
 "A Brillouin-zone path visits the requested points in order in equal steps per segment, contains every endpoint exactly once, and its labels, indexes, normalised path coordinates and in-plane angles refer to those points. "
 "Real-space grids are uniform, centred and span the requested number of periods.",
 ["inputs"], "All primitive vector pairs (square, rectangular, hexagonal, oblique, either handedness, any scale), all lists of named or explicit path points and step counts (one number, one-element list, or one per segment).",
 "Existing tests use a few square, hexagonal and rectangular lattices and check only final frequencies.",
 ["legume/phc/lattice.py"], [("reciprocal basis", "legume/phc/lattice.py: Lattice.__init__"), ("path construction", "legume/phc/lattice.py: bz_path"), ("grids", "legume/phc/lattice.py: xy_grid")],
 ["Lattice attributes", "Lattice.bz_path", "Lattice.xy_grid"])

prop("C03", "The built structure is the stacked, periodic permittivity that was described",
 "Layers are stacked contiguously from z=0 in the order they are added, between the two semi-infinite claddings, and the permittivity at any point is that of the layer containing it: the value of the last added shape any lattice translate of which covers the point, otherwise the layer background. "
 "It is therefore lattice-periodic in the plane, shapes only affect the layer or cladding they were added to, and the reported permittivity bounds enclose it. "
 "The average permittivity of a layer is its background plus the area-weighted contrast of its shapes.",
 ["inputs", "programs"], "All construction sequences (layers, shapes added singly or in lists, to layers by positive or negative index or to claddings), all lattices, shape centres far from the origin cell, shapes crossing cell borders, and all query points.",
 "No test queries the real-space permittivity at all.",
 ["legume/phc/phc.py", "legume/phc/layer.py"], [("layer stacking", "legume/phc/phc.py: add_layer"), ("periodic images", "legume/phc/layer.py: ShapesLayer.get_eps"), ("average", "legume/phc/layer.py: add_shape")],
 ["PhotCryst.get_eps", "PhotCryst.get_eps_bounds", "layer.z_min/z_max/d/eps_avg"])

prop("C04", "Plane-wave sets are complete, unique, inversion symmetric and ordered as asked",
 "With circular truncation the expansion uses every reciprocal lattice vector with length up to 2 pi gmax, each exactly once, and no other; with parallelogram truncation it uses exactly the vectors n1 b1 + n2 b2 with |ni| up to the integer part of 2 pi gmax/|bi|. "
 "The set contains G=0, is closed under inversion, and (circular) under every point symmetry of the lattice. "
 "All three solvers (guided-mode, plane-wave, exciton) follow the same rule.",
 ["inputs", "configurations"], "All lattices including very oblique primitive cells, all gmax including those equal to some |G|, and both truncations.",
 "Tests use tbt truncation on square/hexagonal/rectangular lattices with gmax 3..6 and only compare frequencies.",
 ["legume/gme/gme.py", "legume/exc/exc.py", "legume/pwe/pwe.py"], [("circular truncation", "legume/gme/gme.py: _init_reciprocal_abs; legume/exc/exc.py: _init_reciprocal_abs"), ("parallelogram truncation", "_init_reciprocal_tbt / PlaneWaveExp._init_reciprocal")],
 ["GuidedModeExp.gvec", "PlaneWaveExp.gvec", "ExcitonSchroedEq.gvec"])

prop("C05", "Permittivity and potential Fourier data reproduce the described layer",
 "The real-space permittivity that a guided-mode or plane-wave expansion reports for a plane is the truncated Fourier series, over exactly the differences of its reciprocal vectors, of that layer's described permittivity (background plus contrast times shape), with each coefficient counted once. "
 "It is real, lattice periodic, has the described average, and belongs to the layer containing the requested height; caller-supplied grids are used as given. "
 "The same holds for the exciton potential of a quantum-well plane.",
 ["inputs", "configurations"], "All lattices, shapes without inversion symmetry, both truncations, all layers and claddings, all grids.",
 "No test looks at these outputs.",
 ["legume/gme/gme.py", "legume/pwe/pwe.py", "legume/exc/exc.py", "legume/phc/layer.py", "legume/utils.py"], [("layer transform", "legume/phc/layer.py: compute_ft, compute_exc_ft"), ("unique coefficient tables", "_compute_ft_abs/_compute_ft_tbt"), ("inverse transform", "legume/utils.py: ftinv")],
 ["GuidedModeExp.get_eps_xy", "PlaneWaveExp.get_eps_xy", "ExcitonSchroedEq.get_pot_xy", "Layer.compute_ft"])

prop("C06", "Guided slab modes are true, complete, ordered and normalised",
 "For any multilayer slab, the guided-mode routine returns for each in-plane wave vector and polarisation the lowest modes of the slab in ascending order up to the number asked for: every returned frequency satisfies the slab dispersion relation between the light lines, none is missed as long as modes are further apart than the search step, and none is duplicated. "
 "The returned layer coefficients describe a field that decays in both claddings, is continuous across every interface as Maxwell's equations demand and has unit magnetic norm. "
 "Reversing the layer order leaves the frequencies unchanged and scaling lengths by s divides them by s. Cascading two scattering matrices with the star product is that of their transfer matrices.",
 ["inputs"], "All layer counts (one and many), thicknesses, permittivities (including equal neighbours and high-contrast inner layers), claddings symmetric or not, wave vectors from near zero to large, both polarisations.",
 "One test compares one three-layer grating against tabulated values.",
 ["legume/gme/slab_modes.py"], [("sign-change search and root finding", "legume/gme/slab_modes.py: guided_modes, guided_mode_given_g"), ("transfer matrices", "S_T_matrices_TE/TM, D22, D22s_vec, AB_matrices"), ("normalisation", "normalization_coeff")],
 ["legume.guided_modes", "legume.rad_modes"])

prop("C07", "Guided-mode-expansion frequencies are those of the projected Maxwell operator",
 "For every structure, wave vector and choice of guided-mode orders, the computed frequencies are the square roots (over 2 pi) of the eigenvalues of Maxwell's curl-(1/eps)-curl operator projected on the requested guided modes of the effective slab at every k+G of the plane-wave set. "
 "The stored modes are exactly the requested number of eigenvalues nearest to the target, in ascending order, with orthonormal eigenvectors. "
 "Orders that do not exist below the cutoff are left out without disturbing the others.",
 ["inputs", "configurations"], "All lattices, multilayer structures with shapes (also lossless shapes with no inversion symmetry, shapes in claddings), k points, guided-mode index lists in any order or with gaps, effective permittivity average/background/custom, truncation, target eigenvalue.",
 "Tests compare a handful of single-k frequencies of square/hexagonal/rectangular symmetric slabs.",
 ["legume/gme/gme.py", "legume/gme/matrix_elements.py", "legume/gme/slab_modes.py"], [("matrix assembly", "legume/gme/gme.py: _construct_mat"), ("overlap integrals", "legume/gme/matrix_elements.py"), ("mode selection", "legume/gme/gme.py: run / find_nearest")],
 ["GuidedModeExp.freqs", "GuidedModeExp.eigvecs"])

prop("C08", "Physical symmetries of Maxwell's equations hold for the computed bands",
 "Describing the same physical crystal differently does not change its guided-mode-expansion frequencies and losses: uniform length scaling (frequencies scale inversely), in-plane translation, rotation or mirroring of structure together with k, turning the stack upside down, reversing k, choosing other primitive vectors of the same lattice, splitting a uniform layer in two, reordering non-overlapping shapes, or describing a shape by an equivalent one. "
 "Scaling all permittivities by s divides every frequency by sqrt(s). The fields of a mode are the same vector fields at the transformed points, up to a phase and the units.",
 ["inputs", "programs"], "All structures and k points (generic ones with no symmetry of their own) and all of the listed equivalent descriptions, with circular truncation.",
 "Every test uses one fixed description of each structure.",
 ["legume/gme/gme.py", "legume/gme/matrix_elements.py", "legume/gme/slab_modes.py", "legume/phc/layer.py", "legume/phc/shapes.py", "legume/phc/lattice.py"], [("whole guided-mode pipeline", "legume/gme")],
 ["GuidedModeExp.freqs", "GuidedModeExp.freqs_im", "GuidedModeExp.ft_field_xy"])

prop("C09", "Radiative losses are the golden-rule coupling to outgoing cladding waves",
 "For every mode, the radiation channels listed for each cladding are exactly the diffraction orders inside that cladding's light cone, the coupling constants equal the overlap of the mode with the wave outgoing (for the time dependence exp(i omega t) that the fields use) in that cladding and polarisation, and the imaginary frequency equals Im sqrt(omega^2 + i sum|c|^2)/(2 pi). "
 "Losses are never negative, vanish for modes below both light lines, and the s/p unbalance equals the s share of the loss (one half when lossless). "
 "Asking for a subset of modes or k points afterwards gives the same numbers as computing all at once.",
 ["inputs", "configurations"], "All structures, claddings (equal or not), k points inside and outside the light cone, mode subsets and orders.",
 "Tests compare the losses of a few symmetric slabs at single k points.",
 ["legume/gme/gme.py", "legume/gme/slab_modes.py"], [("golden rule sum", "legume/gme/gme.py: _compute_rad_components, run_im, compute_rad, compute_rad_sp"), ("radiative states", "legume/gme/slab_modes.py: rad_modes")],
 ["GuidedModeExp.freqs_im", "GuidedModeExp.rad_coup", "GuidedModeExp.rad_gvec", "GuidedModeExp.unbalance_sp", "GuidedModeExp.compute_rad"])

prop("C10", "Guided-mode-expansion fields satisfy Maxwell's relations everywhere",
 "The fields of every computed mode satisfy: H is transverse, D is the curl of H divided by i omega (time dependence exp(i omega t)), E is the inverse permittivity of that layer applied to D, tangential H is continuous across every interface, the magnetic norm over the cell is one, and the electric energy equals the magnetic energy. "
 "The plotted real-space fields on xy, xz and yz planes are the Fourier sums of those components on the requested (or default) grid, and the three planes agree where they cross.",
 ["inputs", "configurations"], "All structures, k points, modes, heights (in claddings, every layer, near interfaces), components and grids.",
 "No test evaluates a field.",
 ["legume/gme/gme.py", "legume/utils.py"], [("Fourier fields", "legume/gme/gme.py: ft_field_xy"), ("real-space fields", "get_field_xy, get_field_xz, get_field_yz"), ("layer lookup", "legume/utils.py: z_to_lind")],
 ["GuidedModeExp.ft_field_xy", "GuidedModeExp.get_field_xy/xz/yz"])

prop("C11", "Mirror-symmetry separation gives the same modes, correctly labelled",
 "On a high-symmetry line of a mirror-symmetric crystal, the even and the odd computation together give exactly the modes, losses and polarisation unbalance of the plain computation, 'both' gives their union in ascending order with the right parity label for each mode, and every returned mode's field really has that parity under the mirror. "
 "Dense and sparse implementations agree. "
 "Crystals, wave vectors or lattices without that mirror are refused rather than mislabelled.",
 ["inputs", "configurations"], "Square, rectangular and hexagonal lattices, all their high-symmetry directions, both truncations, any guided-mode index list containing both polarisations (also when some orders do not exist), any number of requested modes, several k points per run.",
 "One test runs square and hexagonal circles at a few k points with one symmetric option set.",
 ["legume/gme/gme.py"], [("separation", "legume/gme/gme.py: _separate_hamiltonian_dense/_sparse, _calculate_refl_mat"), ("labels", "legume/gme/gme.py: run")],
 ["GuidedModeExp.freqs", "GuidedModeExp.kz_symms", "GuidedModeExp.freqs_im", "GuidedModeExp.ft_field_xy"])

prop("C12", "Equivalent solver options and back ends give equivalent results",
 "Options documented as implementation choices do not change the answer: dense or iterative eigensolver, exact or interpolated guided modes (up to interpolation error), exact or approximate gradients, the numpy or autograd back end, circular or parallelogram truncation whenever both select the same plane waves, sparse or dense separation, and computing losses during the run or afterwards. "
 "Results are the same whether k points are run together or one at a time, in any order, and leaving out an argument is the same as passing the default of its documented signature.",
 ["configurations", "inputs"], "All pairs of equivalent option settings on all structures; k lists of any length and order, including repeated points.",
 "Each test fixes one option set per structure.",
 ["legume/gme/gme.py", "legume/backend.py", "legume/primitives.py", "legume/pwe/pwe.py", "legume/exc/exc.py"], [("option dispatch", "legume/gme/gme.py: set_run_options, run"), ("backend table", "legume/backend.py")],
 ["GuidedModeExp.freqs/freqs_im", "PlaneWaveExp.freqs", "ExcitonSchroedEq.eners", "HopfieldPol.eners"])

prop("C13", "A solver's results do not depend on what it was used for before",
 "After any sequence of runs with different k points, options, requested outputs or failed (refused) runs, the results of the last run - frequencies, losses, couplings, symmetry labels, eigenvectors, fields - are those of a freshly built solver given only that last run. "
 "In particular nothing from an earlier run is left visible as if it belonged to the last one, and reading results, fields or plots never changes later results.",
 ["histories"], "All sequences of run / loss / field / refused calls on one guided-mode, plane-wave, exciton or polariton solver object, and interleavings of several solvers built on one crystal.",
 "Every test uses a fresh object for one run.",
 ["legume/gme/gme.py", "legume/pwe/pwe.py", "legume/exc/exc.py", "legume/pol/pol.py"], [("per-run state reset", "legume/gme/gme.py: run, compute_eps_inv"), ("result caches", "solver attributes")],
 ["all result attributes and field methods after each call"])

prop("C14", "Calls do not modify the caller's arguments or share hidden state",
 "No constructor, method, solver run, plot, export or optimisation modifies the arrays, lists, dictionaries or objects the caller passed in, and a mutable default never carries information from one call to the next. "
 "Solving, querying or plotting a crystal leaves the crystal as it was, and crystals or solvers built independently do not influence each other.",
 ["inputs", "histories"], "All public calls with array, list, dictionary and object arguments, in any order and repeated.",
 "No test inspects its arguments after a call.",
 ["legume/gme/gme.py", "legume/pol/pol.py", "legume/minimize.py", "legume/phc/lattice.py", "legume/phc/shapes.py", "legume/phc/layer.py"], [("argument handling in every public entry point", "legume/")],
 ["deep snapshots of arguments and of the crystal before and after every call"])

prop("C15", "Plane-wave-expansion bands and fields are those of the 2D crystal",
 "For every 2D layer the plane-wave frequencies are the requested number of lowest eigenvalues, ascending, of Maxwell's equations for the chosen polarisation with the inverse-matrix permittivity in the plane-wave basis: uniform media give the folded light lines exactly, 1D stacks converge to the transfer-matrix bands, and scaling, translation and k-reversal invariances hold. "
 "The fields of each mode obey D = curl H/(i omega) and E = (1/eps) D in the same basis, H is transverse, and the real-space fields are their Fourier sums.",
 ["inputs", "configurations"], "All lattices, shapes, k points (including Gamma), polarisations and mode counts.",
 "No test runs the plane-wave solver.",
 ["legume/pwe/pwe.py", "legume/utils.py"], [("matrix and diagonalisation", "legume/pwe/pwe.py: run"), ("fields", "legume/pwe/pwe.py: ft_field_xy, get_field_xy")],
 ["PlaneWaveExp.freqs", "PlaneWaveExp.eigvecs", "PlaneWaveExp.ft_field_xy", "PlaneWaveExp.get_field_xy"])

prop("C16", "Exciton levels are those of the in-plane Schroedinger equation",
 "For every patterned quantum-well plane the exciton energies are the free-exciton energy plus the lowest eigenvalues, ascending, of hbar^2|k+G|^2/(2M) plus the described potential (in eV, shifted so that the lowest region is at zero when the shape potential is negative), with the non-radiative loss as imaginary part. "
 "Zero potential gives exact parabolas, the potential is that of the layer containing the well whatever the number of shapes, cell size or units, and wavefunctions are orthonormal eigenvectors whose real-space form is their Fourier sum.",
 ["inputs", "configurations"], "All lattices (any cell area), number and kind of shapes, signs and depths of the potential, masses, lattice constants, both truncations, k points.",
 "One test runs one exciton plane with one circle on one lattice as part of a polariton run.",
 ["legume/exc/exc.py", "legume/phc/layer.py"], [("kinetic and potential matrix", "legume/exc/exc.py: run"), ("potential transform", "legume/phc/layer.py: compute_exc_ft")],
 ["ExcitonSchroedEq.eners", "ExcitonSchroedEq.eigvecs", "ExcitonSchroedEq.get_wavef_xy"])

prop("C17", "Polaritons are the eigenmodes of the coupled photon-exciton problem",
 "For every crystal with quantum wells the polariton energies, losses and fractions are those of the generalised Hopfield matrix built from the crystal's photonic modes, every well's excitons and their light-matter coupling, keeping the lowest positive-energy modes in ascending order. "
 "With zero oscillator strength they are exactly the uncoupled photon and exciton energies; results do not depend on the order in which wells are added; two identical wells act as one with doubled oscillator strength plus uncoupled dark excitons. "
 "Photonic and excitonic fractions are between zero and one and add up to one.",
 ["inputs", "configurations"], "All numbers, positions and polarisations of wells, oscillator strengths, lossy and lossless cases, k points, both truncations.",
 "One test runs one polariton case with one well and compares stored numbers.",
 ["legume/pol/pol.py", "legume/exc/exc.py", "legume/gme/gme.py"], [("Hopfield matrix", "legume/pol/pol.py: _construct_Hopfield, _calculate_C_D"), ("fractions", "legume/pol/pol.py: _calculate_fraction")],
 ["HopfieldPol.eners", "HopfieldPol.eners_im", "HopfieldPol.fractions_ex/fractions_ph"])

prop("C18", "Automatic gradients of simulation results equal finite differences",
 "With the differentiable back end, the gradient of any scalar built from frequencies, losses, couplings, fields or permittivities with respect to any real structure parameter (shape sizes, positions, vertices, rotation, permittivities, layer thicknesses and, for the plane-wave solver, k) equals the derivative that central finite differences of the same computation give, wherever that derivative exists. "
 "This holds for the guided-mode (exact gradients, exact or interpolated modes) and plane-wave solvers, both truncations and both eigensolvers, and the forward value equals the plain back end's.",
 ["inputs", "configurations"], "All parameters and objectives on non-degenerate modes of all structures.",
 "One test differentiates one rectangular tbt structure.",
 ["legume/primitives.py", "legume/backend.py", "legume/gme/gme.py", "legume/gme/slab_modes.py", "legume/phc/shapes.py"], [("custom vjps", "legume/primitives.py"), ("implicit root derivative", "legume/primitives.py: fsolve_ag")],
 ["autograd.grad of objectives over GuidedModeExp and PlaneWaveExp results"])

prop("C19", "Each custom differentiable operation has the correct derivative",
 "Every differentiable building block (array extension, stable square root, block-Toeplitz assembly, Hermitian and general eigen-decompositions, iterative eigensolver, matrix inverse, interpolation, root finding, sparse product, function maps) returns the same value as its plain counterpart and its reverse-mode derivative equals the true derivative for every input where one exists, real or complex, including for repeated eigenvalues when only eigenvalues are used. The numerical-derivative helpers give the forward difference for every array shape, integer arrays and any step sizes.",
 ["inputs"], "All input shapes, dtypes (real and complex), matrix structures and cotangents.",
 "Tests cover eigh and eigsh with one random matrix each.",
 ["legume/primitives.py", "legume/utils.py"], [("vjp definitions", "legume/primitives.py")],
 ["autograd vjps of the backend's operations"])

prop("C20", "The optimiser wrapper respects bounds and records what it evaluated",
 "Gradient-based minimisation follows its documented algorithm: the adaptive-moment mode reproduces the reference Adam recursion with snapping to bounds and reports one objective value per epoch at the parameters used in that epoch, and the quasi-Newton mode returns the same minimum as the underlying SciPy routine with the initial value first in its history. "
 "Every parameter vector stays within the bounds from the first update on, extra arguments, pass-self and callbacks behave as documented in both modes, malformed bounds are refused, and a second minimisation on the same object starts afresh.",
 ["inputs", "histories"], "All objectives, start points (inside, on or outside the bounds), bound formats, epochs, step sizes, and option combinations.",
 "No test uses the optimiser.",
 ["legume/minimize.py"], [("Adam loop", "legume/minimize.py: adam"), ("L-BFGS wrapper", "legume/minimize.py: lbfgs"), ("bounds", "_parse_bounds")],
 ["Minimize.adam", "Minimize.lbfgs", "Minimize.of_list", "callbacks"])

prop("C21", "GDS export writes exactly the described geometry",
 "Reading back an exported file yields, for every layer of the crystal, one polygon per shape at the layer's index whose region equals the shape's within the stated tolerance, in the requested units, for every kind of shape that can be put in a layer. "
 "Rasterised export writes the contours of the raster at the requested level mapped onto the lattice cell, plus the cell outline when asked for; exports do not influence one another.",
 ["inputs", "configurations"], "All shape kinds, layer counts, units and tolerances; rasters, lattices, levels and boundary settings.",
 "No test exports a file.",
 ["legume/gds.py"], [("shape export", "legume/gds.py: generate_gds"), ("raster export", "legume/gds.py: generate_gds_raster")],
 ["the written file, read back"])

prop("C22", "Plots show the computed data",
 "Every plotting function draws exactly the simulation's data: band plots show every computed (k, frequency or energy) pair once with the right units, quality factors, fractions or symmetry colours and the light cone of the claddings, permittivity plots show the described or Fourier-reconstructed permittivity on the stated extent, and field plots show the requested part of the requested component of the requested mode. "
 "They work for every documented solver type and option combination.",
 ["inputs", "configurations"], "All plotting functions, solver types, option combinations and structures.",
 "No test plots anything.",
 ["legume/viz.py"], [("plot functions", "legume/viz.py")],
 ["artists of the produced figures"])

prop("C23", "Invalid requests are refused with an informative error and no effect",
 "Requests that cannot be answered - unknown lattice kinds, points, shapes, layers, truncations, polarisations, options or components, malformed wave vectors lists, wells in the claddings, more modes than the basis has, results asked for before any run, symmetry without angles or on a line without symmetry - raise the documented exception type instead of returning numbers. "
 "A refused request leaves the objects involved usable, with later valid requests giving the normal results.",
 ["inputs", "histories"], "All public entry points with each kind of invalid argument, and any valid request following a refusal.",
 "One test checks the orientation error of polygons.",
 ["legume/phc/lattice.py", "legume/phc/phc.py", "legume/phc/shapes.py", "legume/gme/gme.py", "legume/exc/exc.py", "legume/pol/pol.py", "legume/pwe/pwe.py", "legume/utils.py", "legume/backend.py"], [("argument validation", "raise statements throughout legume/")],
 ["exception types", "results of following valid calls"])

prop("C24", "Reporting follows the verbosity setting and never affects results",
 "With verbosity off no simulation writes anything to the standard streams; with it on, progress and reports are written, in every print back end and for every solver and option combination, without raising. "
 "Numerical results are identical whichever verbosity and print back end is used, and every object has a printable representation that reflects its parameters.",
 ["configurations", "inputs"], "All solvers, option combinations, print back ends and verbosity settings; all object kinds.",
 "Tests run with verbosity off and ignore the output.",
 ["legume/print_utils.py", "legume/print_backend.py", "legume/gme/gme.py", "legume/exc/exc.py", "legume/pol/pol.py", "legume/phc/shapes.py"], [("reports", "legume/print_utils.py"), ("backend switch", "legume/print_backend.py")],
 ["captured standard output", "repr()"])

prop("C25", "Unit conversion and light lines are physically consistent",
 "The conversion from dimensionless frequency to energy is h c/(e a) for every lattice constant, warns outside the documented range and refuses non-positive values, and all places that use energies (polaritons, band plots in eV) use it consistently with the physical constants, which agree with CODATA. "
 "The light line drawn or used for a wave vector is |k|/(2 pi sqrt(eps)) of the optically denser cladding, so that no lossless guided mode lies above it.",
 ["inputs"], "All lattice constants, wave vectors and cladding permittivities.",
 "Only exercised implicitly by one polariton test at one lattice constant.",
 ["legume/utils.py", "legume/constants.py", "legume/viz.py", "legume/pol/pol.py"], [("conversion", "legume/utils.py: from_freq_to_e"), ("light line", "legume/viz.py: _calculate_LL")],
 ["legume.utils.from_freq_to_e", "legume.constants", "band plots", "loss onset"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
