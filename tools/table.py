"""The property table: properties.jsonl and MANIFEST.json are generated from it (python3 tools/gen.py)."""
TECH = "abstract interpretation of the source into a hash-consed value graph; equality of normal forms with a reference semantics"

P = []


def p(pid, title, statement, over, qtext, why, files, mech, na=None, note=None, observe=None, tech=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, na=na, note=note, observe=observe or [], tech=tech))


T = "nidn/trcwa/"
p("C01", "A spectrum call validates, dispatches on the solver and answers per frequency",
  "Computing a spectrum first validates the configuration (unless the caller asked not to), then runs exactly the solver the configuration names and raises for any other name. The answer is a pair of a reflectance sequence and a transmittance sequence, in that order, with exactly one entry per target frequency in the order of the frequencies and each computed from the permittivity slice and the wavelength of its own frequency. With the RCWA solver a grid containing a value that is not a number raises a ValueError before anything is simulated, and a grid or frequency list that does not match the configured shape is refused.",
  ["inputs", "configurations"], "every permittivity grid, every valid configuration, both solvers, validation on or off",
  "the tests call the two solvers at a few fixed grids and compare a handful of numbers; order, pairing of slice and wavelength, rejection and not-a-number handling for other inputs are never exercised",
  ["nidn/utils/compute_spectrum.py", T + "compute_spectrum_trcwa.py", "nidn/fdtd_integration/compute_spectrum_fdtd.py"],
  [("compute_spectrum dispatch", "nidn/utils/compute_spectrum.py"), ("loop over target frequencies", T + "compute_spectrum_trcwa.py"), ("loop over wavelengths", "nidn/fdtd_integration/compute_spectrum_fdtd.py")])

p("C02", "The RCWA scene is the configured layer stack at normal incidence",
  "For each frequency the RCWA solver models a half space of the configured top permittivity, then every layer of the grid in order with its own thickness (the single configured thickness if only one is given), then a half space of the configured bottom permittivity. A one-by-one grid becomes homogeneous layers of exactly the given permittivity; any other lateral shape, including a single row or column, becomes patterned layers whose in-plane permittivity is the given grid cell for cell. The structure is lit from the top by a unit s-polarised plane wave at normal incidence with the frequency being solved, on the configured lattice with at most the configured number of orders.",
  ["inputs", "configurations"], "every lateral shape Nx, Ny >= 1, every number of layers, every thickness list, lattice and half-space permittivity",
  "tests use square grids or single cells, equal thicknesses and vacuum half spaces, where swapped axes, swapped half spaces or shifted thicknesses change nothing",
  [T + "init_trcwa.py", T + "compute_spectrum_trcwa.py", T + "trcwa.py"],
  [("scene construction", T + "init_trcwa.py:_init_trcwa"), ("layer bookkeeping", T + "trcwa.py:TRCWA.Add_LayerUniform, Add_LayerGrid, Init_Setup, MakeExcitationPlanewave, GridLayer_geteps")])

p("C03", "Diffraction orders and the Fourier factorisation follow the lattice",
  "The reciprocal vectors are dual to the lattice vectors for every non-degenerate lattice. The diffraction orders kept are the requested number of shortest reciprocal vectors, zero order first, cut so that no set of equally long vectors is split in circular truncation, and a full symmetric rectangle in rectangular truncation; each order's wave vector is the incident one plus two pi times its reciprocal vector. The permittivity matrices hold, at row i and column j, the Fourier coefficient of the grid at the difference of orders i and j, for isotropic and anisotropic grids, and reconstructing a grid from its coefficients uses the same indices and normalisation.",
  ["inputs", "configurations"], "every lattice pair, every order count, both truncation rules, every grid",
  "tests use one square lattice with one order count; oblique or rectangular lattices, ties at the cut and non-square grids are never sampled",
  [T + "utils/kbloch.py", T + "utils/fft_funs.py", T + "utils/torch_functions.py"],
  [("reciprocal lattice and order selection", T + "utils/kbloch.py"), ("convolution matrices", T + "utils/fft_funs.py"), ("array helpers", T + "utils/torch_functions.py")])

p("C04", "RCWA reflectance and transmittance come from modes and S-matrix of the stack",
  "In every layer the modes are eigenpairs of the layer's wave operator with the branch of the square root that decays (or propagates forward), for homogeneous and patterned layers alike. The S-matrix of the stack is the layer-by-layer recursion over all interfaces with each layer's own thickness and phase. Reflectance and transmittance are the z-components of the Poynting flux of the reflected wave at the first and of the transmitted wave at the last layer relative to the incident flux, in total or per order, with the configured incidence direction.",
  ["inputs", "configurations"], "every stack of layers, thickness, complex permittivity, frequency and number of orders",
  "three reference spectra at fixed stacks with equal thicknesses cannot distinguish phases, branches or layer indices that only matter for other stacks",
  [T + "trcwa.py", T + "utils/torch_functions.py"],
  [("mode solvers", T + "trcwa.py:SolveLayerEigensystem_uniform, SolveLayerEigensystem, MakeKPMatrix"), ("S-matrix recursion", T + "trcwa.py:GetSMatrix, SolveExterior"), ("flux", T + "trcwa.py:GetZPoyntingFlux, TRCWA.RT_Solve")])

p("C05", "RCWA interior fields, integrals and stress are those of the solved stack",
  "The amplitudes inside any layer at any depth are those the exterior solution implies, shifted by the layer's phase over exactly the requested depth. Fourier and real-space electric and magnetic fields are the mode fields of those amplitudes with the transverse and longitudinal components given by Maxwell's equations in that layer. Volume integrals, stress integrals and the reconstructed permittivity map are the corresponding quadratic forms and inverse transforms for the requested layer.",
  ["inputs", "configurations"], "every layer index, depth, offset list, component and stack",
  "no test calls any field, integral or reconstruction query",
  [T + "trcwa.py", T + "utils/fft_funs.py"],
  [("interior amplitudes", T + "trcwa.py:SolveInterior, TranslateAmplitudes, TRCWA.GetAmplitudes"), ("fields and integrals", T + "trcwa.py:TRCWA.Solve_FieldFourier, Solve_FieldOnGrid, Volume_integral, Solve_ZStressTensorIntegral, Return_eps")])

FI, FD = "nidn/fdtd_integration/", "nidn/fdtd/"
p("C06", "The FDTD scene is the configured stack between absorbers, source and detectors",
  "For each wavelength the time-domain solver runs the configured number of steps once on an empty and once on a filled scene that are otherwise identical: a grid as long as the stack plus free space and absorber on both sides, three cells wide and one deep, periodic in y, with absorbing layers of the configured thickness at both x ends, at a resolution of at least ten points per shortest wavelength and never below the configured one. Layer i occupies exactly the cells from the end of layer i-1 over its own thickness, the first one starting after absorber and free space, with the real permittivity of its own grid entry and the conductivity belonging to its imaginary part at the simulated frequency. The source of the configured kind and pulse oscillates with the period of the wavelength at the configured position, and the transmission and reflection detectors stand the configured number of cells behind and in front of the stack.",
  ["inputs", "configurations"], "every number of layers, thickness list, permittivity, wavelength range and FDTD setting",
  "two stacks with equal thicknesses and default geometry are tested; unequal thicknesses, other resolutions, point sources or other distances are not",
  [FI + "init_fdtd.py", FI + "compute_spectrum_fdtd.py", FI + "compute_fdtd_grid_scaling.py"],
  [("scene construction", FI + "init_fdtd.py:init_fdtd"), ("wavelength loop", FI + "compute_spectrum_fdtd.py:compute_spectrum_fdtd"), ("resolution", FI + "compute_fdtd_grid_scaling.py")])

p("C07", "FDTD coefficients are steady-state power ratios to the free-space run",
  "The signal of a detector is the z-component of the electric field averaged over its cells, per time step. Transmission is the mean square of the signal behind the stack over that of the free-space run at the same detector, reflection the mean square of the difference of the two front signals over that of the free-space run, each taken between the first and last peak after leading zeros and the transient windows were removed (or half the squared maximum when fewer than two peaks exist). A free-space signal without power at either detector raises a ValueError, and coefficients whose sum lies between 1 and 1.05 are divided by that sum.",
  ["inputs"], "every four detector signals, wavelength and resolution",
  "the tests compare eight numbers for two stacks; other signals (short, all zero, without peaks, with a sum above one) are not sampled",
  [FI + "calculate_transmission_reflection_coefficients.py", FI + "compute_spectrum_fdtd.py"],
  [("coefficients", FI + "calculate_transmission_reflection_coefficients.py"), ("signals", FI + "compute_spectrum_fdtd.py:_get_detector_values, _average_along_detector")])

p("C08", "Fields advance by the staggered-grid Maxwell updates at a stable time step",
  "The discrete curl of the electric (magnetic) field is the forward (backward) difference curl in all three components, with zero contribution across the outer edge. A time step updates first the electric and then the magnetic field from the current other field, each by Courant number times inverse material tensor times curl (the electric one damped by the absorption factor), with the memory updates of all boundaries before, the corrections of all boundaries, then all sources, then all detectors after the field changed, and increments the step count once. The Courant number defaults to 0.99 of the stability limit for the number of extended dimensions, a larger one than the limit is refused, the time step follows from it and the spacing, running performs exactly the requested number of steps, and reset zeroes both fields and the step count.",
  ["inputs", "configurations", "histories"], "every grid shape, field content, material tensor and set of placed parts",
  "the tests run two dimensional grids of one source type only and compare end results; three dimensional curls, the refusal of unstable steps and reset are not exercised",
  [FD + "grid.py"], [("curls", FD + "grid.py:curl_E, curl_H"), ("stepping", FD + "grid.py:Grid.step, update_E, update_H, run, reset"), ("time step", FD + "grid.py:Grid.__init__")])

p("C09", "Absorbing and periodic boundaries act on exactly their own faces",
  "A periodic boundary in x, y or z copies the electric field of the last onto the first and the magnetic field of the first onto the last cells of that axis. An absorbing boundary at any of the six faces occupies exactly its thickness of cells there, with conductivity graded cubically from its inner to its outer edge in the component normal to the face (shifted by half a cell for the magnetic field), and evolves its convolution memory and corrects the curls in its own cells only, with the documented coefficients. The boundary class is chosen from the placed slice, and a placement that fits no face is refused.",
  ["inputs", "configurations", "histories"], "every face, thickness, grid and field content",
  "tests use the two x faces and the y periodic boundary only",
  [FD + "boundaries.py"], [("periodic boundaries", FD + "boundaries.py:PeriodicBoundary"), ("absorbing boundaries", FD + "boundaries.py:PML, _PMLXlow .. _PMLZhigh")])

p("C10", "Sources inject the documented waveform at their own cells",
  "A point or line source adds, at every step and only at the cells it was placed on, amplitude times the waveform of its signal type (a sine, a Hanning-windowed sine for the configured number of cycles, or a Ricker pulse) evaluated at the current step, to the z-component of the electric field; a line source weights the cells with its Gaussian profile, normalised to the amplitude. A plane source imposes a sine on all cells of its plane, in the electric component of its polarisation and the matching magnetic one, and is refused unless placed on a plane that contains its polarisation; a soft source adds its voltage samples divided by the spacing. Periods given in seconds are converted to time steps of the grid the source is registered on, and waveform helpers and unit conversions are the documented formulas.",
  ["inputs", "configurations", "histories"], "every step number, placement, period, amplitude, phase, cycle count and signal type",
  "tests run the continuous line source at one amplitude and phase",
  [FD + "sources.py", FD + "waveforms.py", FD + "conversions.py"], [("sources", FD + "sources.py"), ("waveforms", FD + "waveforms.py"), ("conversions", FD + "conversions.py")])

p("C11", "Detectors record the current field at their own cells once per step",
  "At every step a line or block detector appends one record holding, for each of its cells in order, the electric respectively magnetic field vector of exactly that cell at that time, as an independent copy. A line detector covers the cells on the straight line of its placement, a block detector all cells of its box. A current detector appends the circulation of the magnetic field around each of its cells, and the values handed to the user, or stored in the archive of a simulation under the names of the detectors, are all records in time order.",
  ["inputs", "configurations", "histories"], "every placement, grid and number of steps",
  "tests only see line detectors across the narrow axis through a final coefficient",
  [FD + "detectors.py"], [("line, block and current detector", FD + "detectors.py")])

p("C12", "Material objects change exactly the cells they occupy",
  "A registered object replaces the inverse permittivity of exactly its own cells by the inverse of its permittivity, except that in its last cell along each extended axis the component normal to that border keeps the background value. An absorbing object additionally writes the absorption factor belonging to its conductivity, inverse permittivity, Courant number and spacing into exactly its own cells. Scalar and per-cell values are accepted, slices count from either end, and step widths, index lists, reused names and anisotropic objects are refused.",
  ["inputs", "configurations"], "every object extent, permittivity, conductivity and grid",
  "tests place full-width layers with scalar values only",
  [FD + "objects.py"], [("objects", FD + "objects.py:Object, AbsorbingObject, AnisotropicObject")])

p("C13", "Placement converts distances to cells and registers each part once",
  "Positions and extents given as numbers of type float are distances converted to cells by rounding to the nearest cell, integers are cells, times convert likewise to steps, and slices convert their bounds. Assigning a part to a grid position of one to three entries (missing ones meaning everything) registers it with exactly those three positions; more than three entries, or a shape that does not have three entries, are refused with an error. The extents, shape and elapsed time a grid reports are those of its own cells, spacing and steps.",
  ["inputs", "configurations"], "every key, slice, number, shape and spacing",
  "tests place parts with integer positions through one code path",
  [FD + "grid.py"], [("placement", FD + "grid.py:Grid.__setitem__, _handle_distance, _handle_time, _handle_slice, _handle_single_key, _handle_tuple")])

G = "nidn/training/model/model_to_eps_grid.py"
p("C14", "Regression grids stay inside the configured permittivity ranges and off zero",
  "For a regression run every permittivity produced from a model has its real part in the configured real range and its imaginary part in the configured imaginary range, as the affine image of the network output from [0, 1] (or the clipped parameters of the voxel model), also after noise was added. The first half of the network outputs of a cell are the real parts and the second half the imaginary parts of that cell's frequencies in order. If zero avoidance is configured, no real part ends up strictly between minus and plus one hundredth: exact zeros become plus one hundredth and other values keep their sign.",
  ["inputs", "configurations"], "every model, network output, range, noise setting and grid shape",
  "tests look at the shape of one grid and at three training steps with default ranges and without noise; bounds for other outputs and ranges are not observed",
  [G], [("regression branch", G + ":_regression"), ("zero avoidance", G + ":_avoid_zero_eps"), ("noise", G + ":_add_noise")])

p("C15", "Classification grids are sharp convex mixtures of the known materials",
  "For a classification run the likelihoods of every cell are non-negative and sum to one over the materials, computed from the network output averaged over frequencies (plus the configured noise) by a softmax of sharpness sixteen. The permittivity of a cell at a frequency is the likelihood-weighted sum of the materials' permittivities at that same frequency. Both the permittivity grid and the likelihoods are returned, with one likelihood per cell, layer and material.",
  ["inputs", "configurations"], "every model, output, material table, noise setting and grid shape",
  "the only classification test checks a shape",
  [G], [("classification branch", G + ":_classification")])

p("C16", "The network is evaluated per voxel and frequency at the documented coordinates",
  "The permittivity grid has shape (Nx, Ny, layers, frequencies), and entry (x, y, layer, frequency) is what the network returned for that voxel. The coordinates fed to coordinate networks are the full product of equidistant x and y in [-1, 1], of layer depths in [-1000, 1000] (equidistant, or proportional to the cumulated thickness when one is given per layer) and of the frequency coordinate in [-32, 32] (or the scaled relative frequency for logarithmic spacing). With oversampling k the network is evaluated on a grid k times coarser in x and y and each value is repeated over its k-by-k block; the voxel model is returned as stored, and other model types are rejected.",
  ["inputs", "configurations"], "every configuration: lateral shape, layers, thicknesses, frequency spacing, oversampling factor, model and run type",
  "the tests use square grids of a default configuration without oversampling, so exchanged axes or a wrong repeat order are invisible",
  [G], [("sampling grid", G + ":_eval_model"), ("oversampling", G + ":_regression, _classification")])

R = "nidn/training/run_training.py"
p("C17", "Training optimises, logs every accepted iteration and ends on its best model",
  "Training validates the configuration, derives target frequencies, output width and materials, seeds the random generators, uses the model in the configuration or creates one, and performs one Adam step on the configured loss per iteration, reporting each loss to a plateau scheduler. Every iteration whose simulation succeeds appends exactly one entry to the loss log, to the running average over the last twenty losses and to the L1 log; an iteration whose simulation fails with a ValueError appends nothing, restores the best weights so far and halves the learning rate. A snapshot independent of the live weights is kept of the best model (the initial one at first; a better loss whose spectrum had to be renormalised never replaces it), and training ends with that snapshot loaded into the model and all results in the returned configuration.",
  ["inputs", "configurations", "histories", "fault_sequences"], "every sequence of losses, failing iterations and renormalised spectra, every number of iterations",
  "two three-iteration runs in which no simulation fails and nothing is renormalised cannot show snapshot, recovery or bookkeeping errors that need a particular loss history",
  [R], [("setup", R + ":_init_training"), ("loop", R + ":run_training")])

V = "nidn/utils/validate_config.py"
p("C19", "Validation accepts exactly the well-formed configurations",
  "A configuration missing any required entry or holding an unknown entry raises a KeyError, and an entry of the wrong type raises a TypeError. Ranges that are out of order, counts and sizes that are not positive, lateral sizes the oversampling factor does not divide, unknown choices of solver, model, run type, spacing, source or pulse, non-positive thicknesses, negative target values at any position, thickness lists of a wrong length and a detector that would lie inside the absorbing boundary raise a RuntimeError. Everything else is accepted and validation never changes the configuration.",
  ["inputs", "configurations"], "every configuration object, including list entries at any position",
  "the only test validates the default file and expects success; no rejected configuration is tested",
  [V], [("required and allowed keys", V + ":_check_for_keys"), ("types", V + ":_check_entry_types"), ("ranges", V + ":_check_value_ranges")])

p("C21", "Unit conversions are mutually consistent and target frequencies span the range",
  "Normalised frequency and wavelength are reciprocal, one normalised length unit is one micrometre, and physical frequency and wavelength convert through the speed of light in vacuum. The target frequencies for a wavelength range are the requested number of values in ascending order that start exactly at the reciprocal of the longest and end exactly at the reciprocal of the shortest wavelength in micrometres, evenly spaced either linearly or logarithmically, and any other spacing is rejected. The frequency-points query stores the same frequencies in the configuration and returns the corresponding physical wavelengths pairwise.",
  ["inputs", "configurations"], "every wavelength range, number of frequencies and spacing",
  "one linear example is tested; logarithmic spacing, physical conversion and the frequency-points query are not",
  [T + "compute_target_frequencies.py", T + "get_frequency_points.py", "nidn/utils/convert_units.py", "nidn/utils/global_constants.py"],
  [("target frequencies", T + "compute_target_frequencies.py"), ("conversions", "nidn/utils/convert_units.py")])

p("C24", "Closest-material assignment picks the nearest material per cell",
  "For every cell and layer the closest material is the one with the smallest mean over all frequencies of the absolute complex permittivity difference, and the distance returned is that mean. Indices refer to the material collection's own order. The grid handed in is not changed.",
  ["inputs", "configurations"], "every permittivity grid and material collection",
  "no test calls the assignment",
  ["nidn/materials/find_closest_material.py"], [("distance and argmin", "nidn/materials/find_closest_material.py:_find_closest_material")])

LS = "nidn/training/losses/"
p("C25", "The spectrum loss is the mean L-power error of R, T and optionally absorption",
  "The loss is the sum over frequencies of the absolute errors of reflectance and transmittance to the power L (and of absorption, one minus both, when included), divided by the number of compared quantities. A frequency whose reflectance and transmittance sum to more than one has both divided by that same sum before comparison, and the caller is told whether that happened anywhere. The spectra handed in are not changed.",
  ["inputs", "configurations"], "every pair of produced and target spectra, every exponent, absorption on or off",
  "the tests only see the loss inside three training iterations with exponent one and sums below one",
  [LS + "spectrum_loss.py"], [("loss", LS + "spectrum_loss.py:_spectrum_loss_fn")])

p("C26", "The regularisation loss vanishes exactly on decided likelihoods",
  "The likelihood regularisation is the mean over all entries of the smaller of p to the power L and one minus p to the power L, or, in its maximum form, the mean over cells of one minus the largest likelihood. It is therefore zero for one-hot likelihoods and positive otherwise.",
  ["inputs"], "every likelihood tensor and exponent",
  "no test evaluates it",
  [LS + "likelihood_regularization_loss.py"], [("loss", LS + "likelihood_regularization_loss.py")])

SYN = "custom whole-package analysis over the syntax tree, symbol tables and call graph"
LINT = "Decides from source alone over every function of the package; sound for the listed construct classes, silent about dynamic constructs (getattr with computed names, exec, monkey patching from outside)."
p("C18", "Gradients reach the design parameters from every loss",
  "The spectrum loss and the regularisation loss stay differentiable with respect to every network parameter or voxel: on the value path from the network output or permittivity grid through either solver's spectrum to the loss nothing detaches the value, copies it out of the tape, casts it to integers or runs with gradients disabled. The permittivity grid, both spectra, the coefficients of detector signals and the material mixture therefore carry gradients of their inputs. Values meant to be constants (configuration snapshots, logs) are exempt.",
  ["inputs", "configurations"], "every model type, run type, solver and configuration",
  "training tests only see that three losses have fixed values; a branch that silently cuts the tape (patterned layers, a lossy layer, noise, oversampling) still yields the same numbers in one evaluation",
  ["nidn/utils/compute_spectrum.py", T + "trcwa.py", T + "utils/torch_functions.py", G, LS + "spectrum_loss.py", FI + "compute_spectrum_fdtd.py"],
  [("value path of the grid", G), ("value path of the RCWA spectrum", T + "trcwa.py:TRCWA.GridLayer_geteps, SolveLayerEigensystem"), ("value path of the FDTD spectrum", FI + "init_fdtd.py, " + FI + "calculate_transmission_reflection_coefficients.py"), ("losses", LS)],
  tech="taint-style gradient-flow analysis over the value graph of the abstract interpreter")

p("C20", "Every configuration entry is known, produced before use and kept valid",
  "Every entry the package reads from a run configuration is one validation requires or one the package itself sets, every result a plot reads is one training stores, and every required setting is read by something. The package writes only runtime entries that validation accepts and never overwrites a user setting (apart from repeating a single layer thickness per layer for FDTD), so a configuration that was used, stored and loaded validates again. The default configuration is the packaged file, refuses access to unknown entries and holds exactly the known ones.",
  ["inputs", "configurations", "histories"], "every entry point and every order of calls on the same configuration",
  "a configuration object invents empty values for misspelled entries, so a wrong key fails only on the path that reads it",
  [V, "nidn/utils/load_default_cfg.py", "nidn/utils/resources/default_config.toml", R], [("reads and writes of the configuration", "all functions that receive run_cfg or cfg"), ("default file", "nidn/utils/load_default_cfg.py")],
  tech="interprocedural key dataflow over the syntax tree", note=LINT)

MC = "nidn/materials/"
p("C22", "The material collection maps each data file to complex permittivities",
  "The collection holds one material per data file in alphabetical order of the file names, named after the file, without those the caller asked to skip, and an empty frequency list raises a ValueError. The permittivity of a material at a target frequency is the square of the tabulated complex refractive index n + ik at the sample whose wavelength is nearest to that of the frequency, in a matrix with one row per material and one column per frequency. Looking up a name returns that material's row, an unknown name raises a KeyError, and the reported number and names of materials agree with the rows.",
  ["inputs", "configurations"], "every frequency list, data folder and skip list",
  "tests check the shape for four frequencies and no skipped material",
  [MC + "material_collection.py"], [("collection", MC + "material_collection.py:MaterialCollection.__init__, __getitem__"), ("sampling", MC + "material_collection.py:MaterialCollection._load_material_data")])

p("C23", "The layer builder paints materials into exactly the requested cells",
  "Every layer it builds has one entry per cell of the configured lateral shape and target frequency, over unit coordinates running from 0 to 1 along each side. A uniform layer has the named material's permittivity in every cell; a square layer has the second material exactly where both coordinates lie strictly between a and 1 - a; a circle layer exactly where the distance to the given centre is below the radius; all other cells keep the first material. Values at each frequency are those of the material collection for the configuration's target frequencies.",
  ["inputs", "configurations"], "every material pair, size, centre and lateral shape, square or not",
  "the tests look at shapes of layers on one square grid",
  [MC + "layer_builder.py"], [("layer builder", MC + "layer_builder.py:LayerBuilder")])

p("C27", "A stored run is the whole configuration and loads back as stored",
  "Saving a run creates the result folder (and its parents) if needed and writes the complete run configuration into a file under that folder whose name holds the run's name and the time to the second. An existing folder is no error. Loading a file returns exactly the object that was stored, without changing the file.",
  ["inputs", "histories"], "every run, name, subfolder and earlier content of the folder",
  "no test saves or loads a run",
  ["nidn/training/save_run.py", "nidn/training/load_run.py"], [("save", "nidn/training/save_run.py:save_run"), ("load", "nidn/training/load_run.py:load_run")])

PL = "nidn/plots/"
p("C28", "Plots show the run's own data under the right labels and files",
  "Spectrum plots draw reflectance and transmittance over wavelength with each curve labelled as what it is; the loss plot draws the three logs; grid plots draw each cell at its own coordinates coloured with that cell's magnitude, material index or per-frequency real and imaginary part on a common colour range; the per-point plot draws every cell's permittivity and the compared materials. Missing spectra and grids are computed from the run's model. With a folder given the picture is written there under the documented name, otherwise it is shown, and saving all plots writes one of each.",
  ["inputs", "configurations"], "every run, grid shape and combination of optional arguments",
  "no test draws a plot",
  [PL + x for x in ("plot_losses.py", "plot_spectra.py", "plot_spectrum.py", "plot_model_grid.py", "plot_model_grid_per_freq.py", "plot_material_grid.py", "plot_epsilon_grid.py", "plot_eps_per_point.py", "save_all_plots.py")],
  [("drawn data", PL), ("all plots", PL + "save_all_plots.py")])

p("C29", "Runs are reproducible: only the seed and the inputs decide a result",
  "Fixing the seeds seeds both generators the package draws from (PyTorch and NumPy) with the given seed, and nothing else in the package reseeds them, draws from any other source of randomness, lets the clock, process or directory order enter a result or iterates over unordered sets. No call leaves state behind that a later call reads: no module variable, class attribute or default argument is changed by a call, apart from the documented FDTD backend switch. Two runs with the same seed and inputs in any order and any process therefore give the same result.",
  ["inputs", "histories", "configurations"], "every order and number of calls in one process, every seed, every process and file system",
  "a test process runs each call once, in one order, on one file system",
  ["nidn/utils/fix_random_seeds.py", "nidn/materials/material_collection.py", "nidn/training/run_training.py"], [("seeding", "nidn/utils/fix_random_seeds.py"), ("absence of hidden state and entropy", "all modules of the package")],
  tech="effect and escape analysis over syntax tree and call graph (module state, defaults, class attributes, entropy, clock, listing order)", note=LINT)

NW, NWF = "nidn/training/utils/", ("siren.py", "nerf.py", "voxel.py")
p("C30", "Each network type has the configured architecture, activations and start ranges",
  "Creating a network yields the type the configuration names (and refuses others) with the configured width, number of hidden layers, input and output size. The sinusoidal network applies sine of omega times the affine map in its first and every hidden layer and an affine map with sigmoid at the end, with weights drawn from plus/minus one over the input size in the first layer and square root of six over the width, divided by omega, in the others; the NERF network applies Xavier-initialised affine layers with zero bias, feeds its input in again behind each skip layer that has the matching width and ends in the given activation. The voxel model holds one free complex value per cell and frequency, drawn uniformly from the configured permittivity ranges, and is refused for classification.",
  ["inputs", "configurations"], "every model type, depth, width, omega, encoding size and input",
  "tests train two small sinusoidal networks for three steps; other types and sizes are not created",
  [NW + x for x in NWF], [("creation", "nidn/training/model/init_network.py"), ("networks", NW)])

p("C31", "No path of the package fails on an unresolved name or a call that cannot bind",
  "Every name, in-package import, exported name and library function a statement of the package refers to exists, every local is assigned before it is read, every attribute read from one of the package's own objects is one such an object can have, and every in-package call matches the parameters of the function it calls. No input can therefore reach a statement that fails merely because it was never run.",
  ["inputs", "configurations"], "every statement of the package, reached or not by any test",
  "Python reports these errors only when the statement runs, and many branches (field queries, other solvers' branches, plots, error paths) are not run by the tests",
  ["nidn/__init__.py"], [("all statements", "every module under nidn/")],
  tech="symbol-table, signature and attribute resolution of every reference in the package", note=LINT)

p("N01", "RCWA and FDTD spectra agree with the physics within numerical accuracy",
  "For a given stack both solvers approximate the true reflectance and transmittance, and converge to it as the number of orders, grid points and time steps grows. Without absorption reflectance and transmittance add up to one within the discretisation error.",
  ["inputs", "configurations"], "every stack, order count and resolution", "tests compare a handful of stored numbers",
  [T + "trcwa.py", FD + "grid.py"], [("RCWA", T + "trcwa.py"), ("FDTD", FD + "grid.py")],
  na="the size of truncation and rounding error depends on run-time magnitudes (conditioning of eigenvector matrices, grid dispersion); no static argument in reach bounds it. The formulas the solvers implement are decided by C02-C13.")
p("N02", "Eigenvalue gradients stay finite for degenerate modes",
  "The gradient of a spectrum with respect to the permittivity is finite also when two modes of a layer have the same propagation constant.",
  ["inputs"], "every patterned layer", "tests use one non-degenerate pattern",
  [T + "trcwa.py"], [("eigen decomposition", T + "trcwa.py:SolveLayerEigensystem")],
  na="whether two computed eigenvalues coincide is a run-time quantity; that the gradient path exists at all is decided by C18.")
p("N03", "Training converges towards the target spectrum",
  "With enough iterations the best loss of a run falls below that of the initial network and approaches the minimum the material range allows.",
  ["inputs", "histories"], "every target and configuration", "tests run three iterations",
  [R], [("training loop", R + ":run_training")],
  na="convergence of a non-convex optimisation is a run-time quantity; the bookkeeping around it (best snapshot, recovery, logs) is decided by C17.")
p("N04", "Simulation time and memory stay proportional to the configured work",
  "The cost of a spectrum grows with the number of frequencies, layers, orders cubed and, for FDTD, cells times steps, and nothing accumulates across training iterations.",
  ["inputs", "histories"], "every configuration", "tests run small problems once",
  ["nidn/utils/compute_spectrum.py"], [("solvers", "nidn/utils/compute_spectrum.py")],
  na="wall-clock time and allocator behaviour are run-time quantities of the libraries underneath; loop structure is covered only as far as it decides values (C01, C06).")
