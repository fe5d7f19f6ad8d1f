_S = " Sampled executions, not all inputs."
NOTE = {
 "C01": ("runtime monitor: closed-form and quadrature oracle over generated shapes",
         "Real shape objects are driven over random and adversarial parameters and wave vectors; every returned value is compared with an independent edge-integral/Bessel formula, with a quadrature of the library's own inside test and with a winding-number inside test." + _S),
 "C02": ("runtime monitor: defining equations checked on generated lattices, paths and grids",
         "Every lattice attribute, path and grid returned is checked against the defining equations recomputed from the input vectors." + _S),
 "C03": ("runtime monitor: point-by-point oracle of the described structure",
         "Permittivity, bounds, averages and layer extents reported by built crystals are compared with an independent point-in-region evaluation of the description." + _S),
 "C04": ("runtime monitor: brute-force enumeration oracle for plane-wave sets",
         "Plane-wave sets of all three solvers compared with brute-force enumeration over a box that provably contains the disc." + _S),
 "C05": ("runtime monitor: independent Fourier-series oracle",
         "Reported real-space permittivity and potential compared with an independently summed Fourier series on own and supplied grids." + _S),
 "C06": ("runtime monitor: oscillation-theory slab solver as online oracle",
         "Guided modes compared with an independent Sturm-counting solver (no mode can be missed by it); fields rebuilt from returned coefficients and checked for continuity, decay and norm." + _S),
 "C07": ("runtime monitor: independently assembled projected Maxwell operator",
         "All stored frequencies and eigenvectors are compared with the eigen-decomposition of an independently assembled matrix (exact slab modes, z quadrature, own Fourier coefficients)." + _S),
 "C08": ("metamorphic runtime monitor: physically equivalent descriptions of one crystal",
         "Pairs of runs on transformed descriptions are compared for frequencies and losses." + _S),
 "C09": ("runtime monitor: independently computed outgoing states and overlaps",
         "Every coupling (size and relative phase), channel list and loss is recomputed from independently built outgoing slab states." + _S),
 "C10": ("runtime monitor: Maxwell's relations checked on sampled fields",
         "Fields of computed modes are sampled in every layer and across interfaces; curl, divergence, constitutive, continuity and norm relations are evaluated with independently computed permittivity matrices." + _S),
 "C11": ("runtime monitor: partition and parity oracle on mirror-separated runs",
         "Even/odd/both/dense/sparse runs compared with the plain run; parity of every mode measured on its real fields." + _S),
 "C12": ("differential runtime monitor: option and back-end pairs",
         "The same request is run through interchangeable options and compared." + _S),
 "C13": ("stateful runtime monitor: histories compared with a freshly built solver",
         "Random sequences of valid and refused calls; after each valid run every public result is compared with a fresh solver's." + _S),
 "C14": ("runtime monitor: deep snapshots of arguments and shared objects around every call",
         "Arguments, defaults and the crystal are snapshotted before and compared after each public call." + _S),
 "C15": ("runtime monitor: independently assembled plane-wave operator, analytic limits",
         "Bands, eigenvectors, fields compared with an independent plane-wave matrix, folded light lines and transfer-matrix bands." + _S),
 "C16": ("runtime monitor: independently assembled Schroedinger operator",
         "Energies, potentials and wavefunctions compared with an independent matrix in SI/eV units." + _S),
 "C17": ("runtime monitor: independently assembled Hopfield problem",
         "Polariton energies, losses and fractions compared with a generalised Hopfield matrix assembled from separately run photonic and exciton solvers." + _S),
 "C18": ("runtime monitor: finite-difference oracle for end-to-end gradients",
         "Gradients returned by autograd through real simulations compared with Richardson-extrapolated central differences." + _S),
 "C19": ("runtime monitor: finite-difference oracle for each primitive's vjp",
         "Values compared with plain counterparts, vjps with directional finite differences over random real/complex/degenerate inputs." + _S),
 "C20": ("trace monitor: recorded optimiser histories against a reference recursion",
         "Every objective evaluation and callback is logged; the log is checked against reference Adam / SciPy L-BFGS-B and the bounds." + _S),
 "C21": ("runtime monitor: written files read back and compared as regions",
         "Files written by the exporter are read back with gdspy; the regions they hold are compared point by point with an independent description of the shapes or raster level curves." + _S),
 "C22": ("runtime monitor: inspection of produced figure artists",
         "Data carried by the artists of every figure compared with the simulation results." + _S),
 "C23": ("runtime monitor: invalid-request generator with exception and after-effect oracle",
         "Each invalid request must raise a documented exception type and leave later valid results unchanged." + _S),
 "C24": ("runtime monitor: captured standard streams and result comparison",
         "Standard streams captured over solvers x options x print back ends; results compared bit for bit; reprs inspected." + _S),
 "C25": ("runtime monitor: CODATA constants and light-cone oracle",
         "Conversions, constants and light lines compared with independently computed values." + _S),
}
