"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, pathlib

MS = "src/pymiediff/multishell.py"
SP = "src/pymiediff/special.py"
HE = "src/pymiediff/helper/helper.py"
TG = "src/pymiediff/helper/tg.py"
MA = "src/pymiediff/main.py"
MT = "src/pymiediff/materials/mat.py"
IN = "src/pymiediff/__init__.py"
CS = "src/pymiediff/coreshell.py"


def P(id, title, statement, over, qtext, why, files, mech, state=None, obs=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["observe_at"] = obs or []
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    return d


props = [
P("C01", "Gradients of every observable reach every continuous input",
  "Every quantity returned by the coefficient, cross-section, angular-scattering and near-field calculations (functional API and particle API) stays differentiably connected to every continuous input its value depends on: wavenumber, each layer radius and permittivity (or material index), host permittivity, angles, probe positions and incident amplitude. No value path goes through a detached copy, a plain Python/NumPy number, a reconstructed tensor or a rounding step; only the integer truncation order and which-region decisions may depend on inputs without gradient.",
  ["inputs", "configurations"],
  "all inputs, any number of layers, particles, wavelengths, orders; every backend, precision and j_n algorithm; helper functions advertised as autograd compatible (interpolation, coordinate transforms, rotations, materials)",
  "Existing tests run backward for a handful of configurations and compare a few finite differences; a gradient lost only for inner layers, one multipole type, one backend or one branch gives a finite but wrong gradient that no sampled test sees.",
  [MS, SP, HE, MA, MT, TG],
  [("order recurrences built from lists + stack instead of in-place writes", SP + ":pena_D1_n"),
   ("layer recursion", MS + ":_miecoef_pena"),
   ("near-field region assembly", MS + ":nearfields"),
   ("material evaluation", MT + ":MatDatabase.get_epsilon")],
  obs=["the returned tensors' grad connection (requires_grad / backward)"]),

P("C02", "Hand-written backward passes are the exact derivative of their forward",
  "The special functions with a hand-written backward pass (spherical Bessel functions of the first and second kind and their first derivatives, NumPy/SciPy evaluated) back-propagate the incoming gradient times the complex conjugate of the analytic derivative of exactly the function evaluated in the forward pass, at the same orders and arguments; the second derivative used is the one implied by the spherical Bessel differential equation. The integer order receives no gradient.",
  ["inputs"], "every order and every complex argument",
  "Tests sample a few arguments with loose gradcheck settings; a wrong conjugate, wrong kind or wrong term in the second derivative is only visible for complex arguments or for the functions the tests do not differentiate.",
  [SP],
  [("custom autograd functions", SP + ":_AutoDiffJn/_AutoDiffdJn/_AutoDiffYn/_AutoDiffdYn"),
   ("second derivative helper", SP + ":bessel2ndDer")],
  obs=["gradients of sph_jn, sph_jn_der, sph_yn, sph_yn_der"]),

P("C03", "Backward never fails or corrupts because of in-place writes",
  "For every differentiable calculation, running it on inputs that require gradients and back-propagating from any returned quantity never fails or yields wrong gradients because a tensor was overwritten after it was recorded for the backward pass: nothing writes in place to an input that requires gradients, to an expanded view, or to a tensor whose value the backward pass still needs.",
  ["inputs", "configurations"],
  "every entry point, backend and branch; any of the inputs requiring gradients",
  "The failure appears only when backward is run for the particular branch and input combination (e.g. small-argument branch, inner layers, gradient w.r.t. the host); tests back-propagate through few of them.",
  [SP, MS, HE, MT, TG],
  [("list-building recurrences", SP), ("masked region assembly on fresh buffers", MS + ":nearfields"),
   ("interpolation weights", HE + ":interp1d")],
  obs=["loss.backward() on any output"]),

P("C04", "Public calls never modify the caller's data",
  "No public function or method changes the contents of a tensor, array, list or dictionary passed by the caller, neither during the forward calculation nor during back-propagation; the same call with the same arguments can be repeated with the same result. (Moving a material or particle to another device on explicit request is the only sanctioned change.)",
  ["inputs", "histories"],
  "every public function of the solver, special-function, helper, material and bridge modules; every argument value including zeros and NaN",
  "Tests never compare arguments before and after a call, and the writes happen only for special values (exact zeros) or in the backward pass.",
  [SP, MS, HE, MA, MT, TG],
  [("casts and copies before masking", SP + ":bessel2ndDer"), ("fresh output buffers", MS + ":nearfields")],
  obs=["argument values after the call / after backward"]),

P("C05", "Results do not depend on call history",
  "Results depend only on the arguments and the object's configured materials and geometry: calculations keep no module-level mutable state, use no random numbers, do not change global library settings (default dtype, gradient mode, seeds, warnings filters), and observable getters do not alter the particle or material except for a transparent evaluation cache. A cached material value is only ever reused for exactly the same wavelength and is equivalent to a fresh evaluation in value, device and differentiability.",
  ["histories"],
  "every order and number of calls, with and without gradients, before and after moving between devices",
  "Tests use fresh objects and one call each; cache poisoning (a value cached without gradient, a consumed graph, a stale device, a coarse key) needs a specific sequence of calls.",
  [MT, MA, MS, SP, HE, TG, IN],
  [("permittivity lookup cache", MT + ":MatDatabase._get_eps_single_wl"),
   ("particle getters", MA + ":Particle.get_*")],
  state=[("lookup_eps", "memoised permittivities keyed by wavelength", MT + ":MatDatabase")],
  obs=["second call vs first call"]),

P("C06", "Computation stays on the device of the inputs",
  "When the physical inputs live on a given device, every tensor created along the way that is combined with them lives on that device, so the calculation never mixes devices, and every returned tensor lives there too. Moving a particle or material to a device moves every tensor it holds (radii, permittivities, tabulated data, caches, aliases), and particles place list or host-memory inputs on their configured device.",
  ["configurations", "inputs"],
  "every torch-based backend and entry point, any device, default and list-valued arguments included (the SciPy backend is CPU only by design)",
  "The sandbox and CI have no GPU: on CPU a missing device argument is invisible.",
  [MS, SP, HE, MA, MT],
  [("device= arguments on every factory call", MS + ", " + SP), ("set_device", MA + ":Particle.set_device, " + MT)],
  obs=["device of returned tensors"]),

P("C07", "Double precision is preserved from inputs to outputs",
  "With double-precision tensor inputs and the default precision setting, the functional calculations and torch special functions carry double precision end to end: every returned real quantity is 64-bit, every complex one 128-bit, and no intermediate that enters a result is rounded through a 32-bit format (including implicit integer division, integer powers, default-dtype constants and casts). Requesting single precision yields 32-bit results where the option applies.",
  ["inputs", "configurations"],
  "every entry point, backend, order and input value",
  "Test tolerances (1e-3 .. 1e-6) are far looser than the 1e-7 error of one 32-bit rounding.",
  [MS, SP, HE],
  [("precision argument -> dtype", SP), ("order prefactors", MS + ":angular_scattering, " + MS + ":nearfields")],
  obs=["dtype of returned tensors; agreement to 1e-12 with double reference"]),

P("C08", "Batch members are computed independently",
  "The result for one particle, one wavenumber, one angle or one probe position never depends on which other particles, wavenumbers, angles or positions are evaluated in the same call, except through the common automatic truncation order: nothing is reduced, normalised, selected or permuted across the particle, wavenumber, angle or position axis, and each quantity is combined only with the matching entries of the others.",
  ["inputs", "configurations"],
  "any batch sizes and any mixture of inputs, all backends",
  "Tests mostly use one particle or a few identical ones; cross-talk (max over batch, first entry used for all, misaligned broadcast) only shows for heterogeneous batches.",
  [MS, SP, HE],
  [("axis convention order/particle/wavenumber/position/vector", MS + ":nearfields")],
  obs=["batched result vs single evaluations"]),

P("C09", "Returned layout contract: keys, axes and number types",
  "Each calculation returns the documented dictionary keys with the documented axis order and sizes: coefficients and multipole quantities have the Mie order axis first (after the electric/magnetic axis where present), then particle, then wavenumber, then angle or position (and vector component) axes, with orders 1..n_max, identical for all backends; efficiencies, cross sections and intensities are real, amplitudes and fields complex. The particle-level methods return the same quantities with only the size-one axes removed.",
  ["inputs", "configurations"],
  "any numbers of particles, layers, wavenumbers, angles, probe positions and orders; every backend",
  "Tests check the shape for one or two configurations and one backend; swapped or missing axes are invisible when sizes are one or coincide.",
  [MS, MA, SP, HE],
  [("broadcast helpers", MS + ":_broadcast_mie_layers"), ("squeeze", HE + ":_squeeze_dimensions")],
  obs=["keys, shapes and dtypes of the returned dictionaries"]),

P("C10", "All accepted input layouts are equivalent",
  "Every documented way of describing the same particles gives the same results: per-layer permittivities as (layers), (particles, layers), (layers, wavenumbers) or (particles, layers, wavenumbers), a shared particle axis of one, scalar or per-wavenumber host permittivity, one or several radii sets, scalar or vector wavenumbers, and the legacy homogeneous / core-shell arguments versus the layer arguments. Each value ends up attached to its own layer, particle and wavenumber.",
  ["inputs", "configurations"],
  "all accepted layouts, any number of layers, particles and wavenumbers, all backends",
  "Tests use one or two layouts; a value broadcast along the wrong axis or attached to the wrong layer needs non-square, dispersive, many-layer inputs to show.",
  [MS, MA],
  [("input normalisation", MS + ":_as_layer_inputs, " + MS + ":_broadcast_mie_layers")],
  obs=["returned coefficients / observables for equivalent descriptions"]),

P("C11", "Every option reaches the solver; particle methods equal the functional API",
  "Each option accepted by an observable (backend, precision, j_n algorithm, truncation order, internal-coefficient request, host permittivity, incident amplitude) is applied, unchanged, to the underlying coefficient and field evaluation. A particle method returns exactly what the corresponding functional call returns for the particle's radii, the permittivities its materials give at the requested wavelengths (in layer order, with its environment), and the same options.",
  ["configurations", "inputs"],
  "every observable, every option value, any layered particle and material mix",
  "Tests call mostly with defaults; a dropped or hard-coded option silently returns the default result.",
  [MS, MA, TG],
  [("keyword forwarding", MS + ":cross_sections/angular_scattering/nearfields"), ("**kwargs forwarding", MA + ":Particle.get_*")],
  obs=["results for non-default options; particle vs functional results"]),

P("C12", "Invalid configurations are rejected, never silently computed",
  "Inconsistent or unsupported requests raise an error instead of returning numbers: unknown backend or dispersion model or radial kind, radii not strictly increasing at any interface of any particle, layer/permittivity/host/wavenumber sizes that do not match, a particle described by both or neither of the layered and core-shell arguments or by a shell radius without shell material (or the reverse), more than two layers with the core-shell-only backends, internal coefficients with the multilayer backend, truncation order below one with the multilayer backend, unknown polarization or incidence plane.",
  ["inputs", "configurations"],
  "every invalid combination at every position (any layer, any particle), for functional and particle API",
  "Only one rejection (internal coefficients) is tested today; a weakened guard only changes behaviour for inputs the tests never use.",
  [MS, SP, MA, MT, TG, HE],
  [("validation in broadcast helpers", MS + ":_broadcast_mie_layers, " + MS + ":_as_layer_inputs, " + MS + ":_miecoef_pena"),
   ("particle constructor", MA + ":Particle.__init__")],
  obs=["exception instead of result"]),

P("C13", "Far-field observables are consistent with the coefficients",
  "For the coefficients a_n, b_n of the same call, extinction and scattering cross sections per multipole are 2pi/k^2 (2n+1) times Re(a_n) or Re(b_n), respectively |a_n|^2 or |b_n|^2, with k the host wavenumber; absorption is extinction minus scattering; totals are the sums over all orders and both types; efficiencies are cross sections over pi r_outer^2. The angular amplitudes are the (2n+1)/(n(n+1)) weighted sums of a_n pi_n + b_n tau_n and a_n tau_n + b_n pi_n, the intensities their squared moduli, the unpolarized intensity their mean, and the polarization degree their normalised difference.",
  ["inputs"], "every particle, wavenumber, host medium, order and angle",
  "Tests compare a few spectra in vacuum; identities broken only in absorbing or non-vacuum hosts, for single multipoles, or in unused keys are never looked at.",
  [MS],
  [("cross sections", MS + ":cross_sections"), ("angular amplitudes", MS + ":angular_scattering")],
  obs=["returned dictionaries"]),

P("C14", "Every probe point gets the field of exactly one region",
  "For every particle each probe position belongs to exactly one region (core, one of the shells, or outside), decided by comparing its radius with that particle's own layer radii, and the fields returned there use that region's medium and expansion; the magnetic incident field is scaled with the host index. The total field equals scattered plus incident field outside the outermost radius and the internal field inside, electric and magnetic alike.",
  ["inputs"], "every probe position (including exactly on interfaces, at the origin and on the axis), any number of layers, particles and wavenumbers; both field implementations",
  "Tests probe a few grids around one particle; points exactly on an interface, intermediate layers of thick stacks or second particles of a batch are not probed.",
  [MS, HE],
  [("region masks", MS + ":nearfields"), ("coordinate transforms", HE + ":transform_xyz_to_spherical, transform_fields_spherical_to_cartesian")],
  obs=["E_t, H_t, E_s, H_s, E_i, H_i"]),

P("C15", "The automatic truncation order covers the whole request",
  "When no truncation order is given, the order used is at least the published criterion evaluated for the largest size parameter over all particles and wavelengths (host wavenumber times outermost radius), and for the multilayer backend also over the optical sizes of every layer at both of its radii; when an order is given, exactly orders 1..n_max are returned and used everywhere.",
  ["inputs", "configurations"],
  "every batch of particles, layers, wavelengths and host media; all backends and observables",
  "One test compares one configuration; taking the mean, the first entry, the wrong radius or missing the host index only matters for heterogeneous or high-index requests.",
  [MS, HE],
  [("truncation criteria", HE + ":get_truncution_criteroin_pena2009, get_truncution_criteroin_wiscombe"), ("selection", MS + ":mie_coefficients")],
  obs=["n_max in the returned dictionaries"]),

P("C16", "Results are independent of the length unit",
  "Scaling all lengths by a common factor (radii and probe positions times s, wavenumbers divided by s) leaves coefficients, efficiencies, angular amplitudes and fields unchanged and scales cross sections by s squared: lengths and wavenumbers enter only through dimensionless products, and no absolute length constant enters any result (beyond guards against exact zero).",
  ["inputs"], "all inputs of the functional API, every backend",
  "Tests only use nanometres around the visible; a stray additive offset or a missing factor of the wavenumber in one term looks like a plausible number.",
  [MS, SP, HE],
  [("size parameters x = k r, z = m x", MS + ":_miecoef_pena")],
  obs=["results under rescaling"]),

P("C17", "Imports work without optional packages and expose the legacy API",
  "Importing the package and using every feature that does not need them works when the optional packages (torchgdm, plotting, reference solvers) are absent; only instantiating the bridge classes then fails, with the documented missing-dependency error. All documented names are importable, the legacy core-shell namespace offers the same objects as the multilayer one, and every internal import or attribute refers to something that exists.",
  ["configurations"],
  "every subset of optional packages installed; every public name; every lazily executed import",
  "Tests run in one environment with everything installed, and lazily executed imports inside rarely used functions are never executed.",
  [IN, CS, TG, MT, MA, "src/pymiediff/helper/__init__.py", "src/pymiediff/materials/__init__.py", "pyproject.toml"],
  [("guarded import", TG), ("re-exports", IN + ", " + CS)],
  obs=["import success, public names"]),

P("C18", "Every listed material loads and is converted correctly",
  "Every material in the bundled database can be loaded under its listed name (case-insensitively, no entry hiding another), its declared data type has an implementation, and its permittivity is the square of n + ik with wavelengths converted from micrometres to nanometres, interpolated between the two neighbouring table entries with weights adding to one, or given by the Sellmeier sum with all its terms. A constant material created from a refractive index has its square as permittivity, for every wavelength.",
  ["inputs", "configurations"],
  "every bundled data file and every user file of the supported formats, every wavelength",
  "Tests load two materials; a malformed or colliding entry, a missing extinction column or a wrong unit in one model is never exercised.",
  [MT, HE, "src/pymiediff/materials/data"],
  [("table and formula loading", MT + ":_load_tabulated, _load_formula"), ("evaluation", MT + ":MatDatabase._eval"), ("interpolation", HE + ":interp1d")],
  state=[("REFINDEX_DATA", "name -> data file", MT)],
  obs=["get_epsilon"]),

P("C19", "The torchgdm bridge uses consistent frames and multipoles",
  "For every supported incidence plane and polarization the bridge evaluates the particle in a rotated frame given by a proper rotation and maps all fields back with exactly its inverse, electric and magnetic alike; the electric (magnetic) dipole response is built from the first electric (magnetic) Mie coefficient only, in the electric (magnetic) block, with the powers of the wavenumber and host index of the cited reference. Coefficients are returned with wavelength first and order last, for any number of wavelengths and orders, and the optional host-index override is accepted in its documented form.",
  ["inputs", "configurations"],
  "all angles, planes, polarizations, wavelengths, orders and host-index overrides",
  "The bridge tests use one particle, one incidence and vacuum; swapped blocks or a missing inverse for one plane are averaged out by the fit tolerance.",
  [TG],
  [("frame rotation", TG + ":_plane_wave_rotation, _eval_mie"), ("polarizability", TG + ":StructAutodiffMieEffPola3D"), ("coefficients", TG + ":mie_ab_sphere_3d_AD")],
  obs=["returned polarizabilities, coefficients and fields"]),

P("C20", "Documented calls complete for every documented option and shape",
  "Every public solver, special-function and helper call with documented argument types, option values and shapes completes without an internal type, name, attribute, index or shape error: any number of particles, layers, wavenumbers, angles, probe positions and orders, argument tensors of any dimension including small or zero values where the function handles them, and integer as well as automatic values of depth options.",
  ["inputs", "configurations"],
  "every combination of documented option values and symbolic sizes",
  "Tests use the defaults and one-dimensional arguments; the other option values and shapes are never executed.",
  [MS, SP, HE, MA, MT],
  [("special functions", SP), ("solvers", MS), ("particle and materials", MA + ", " + MT)],
  obs=["no unexpected exception"]),

P("C21", "Special-function sequences obey their defining recurrences",
  "Each order-indexed sequence satisfies its defining starting values and three-term or ratio recurrence at every order: logarithmic derivatives of both kinds, Riccati-Bessel psi and zeta, the layer ratio, the torch-native spherical Bessel and Neumann functions, their order-derivative relation, and the angular functions pi and tau. Entry n of a returned sequence is the function of order n, for orders 0 to n_max.",
  ["inputs"], "every order, every argument",
  "Tests compare a few low orders at a few arguments; an index shift or wrong factor that only matters at higher orders, for one kind or in an absorbing medium passes.",
  [SP],
  [("recurrences", SP + ":pena_D1_n, pena_D3_n, pena_Q_n, pena_psi_zeta_n, sph_jn_torch_via_rec, sph_yn_torch, pi_tau, f_der")],
  obs=["returned sequences"]),

P("C22", "Layer and interface equations follow the published multilayer theory",
  "The multilayer coefficients are built by the published interface recursion applied once per interface from the core outwards, each interface using the refractive indices and size parameters of exactly its two adjacent layers, and the outermost radius with the host medium; the core-shell coefficients and the internal-layer field coefficients solve the corresponding boundary conditions. The vector spherical harmonics combine the angular and radial functions as in the standard definition, and spherical components are rotated to Cartesian with the standard unit vectors.",
  ["inputs"], "any number of layers, every layer, order, particle and wavelength",
  "Numerical comparison tests cover two to four layers with loose tolerance; an index slip in one term of a thick stack or one unused coefficient is not sampled.",
  [MS, SP, HE],
  [("layer recursion", MS + ":_miecoef_pena"), ("field coefficients", MS + ":nearfields"), ("core-shell closed form", MS + ":_miecoef"), ("vector harmonics", SP + ":vsh, vsh_pena")],
  obs=["a_n, b_n, fields"]),

P("C23", "All solver backends and field implementations return the same results",
  "Wherever more than one backend supports a request, they return the same mathematical result for every key: the multilayer, torch and SciPy based solvers give the same coefficients, cross sections, efficiencies and angular quantities for spheres and core-shell particles of any order, whichever Bessel algorithm or truncation order is selected, and the two near-field implementations give the same fields at every point. A coefficient of order n does not depend on how many orders are requested.",
  ["inputs", "configurations"],
  "every request supported by more than one backend: all spheres and core-shell particles, hosts (absorbing ones included), orders, wavelengths, angles and probe positions",
  "Tests compare a few spectra for one particle in vacuum with loose tolerance; a backend that differs only in an absorbing host, for one multipole, inside the shell or in one unused key is not seen.",
  [MS, SP, MA],
  [("backend dispatch", MS + ":mie_coefficients, " + MS + ":nearfields"), ("core-shell closed form", MS + ":_miecoef"), ("multilayer recursion", MS + ":_miecoef_pena")],
  obs=["returned dictionaries for different backend= values"]),

P("C24", "Lossless particles conserve energy; the optical theorem holds",
  "For real refractive indices of every layer and of the host, every coefficient satisfies |a_n|^2 = Re a_n and |b_n|^2 = Re b_n, so absorption vanishes identically in total and for each multipole. For any particle and host, the extinction cross section equals 4 pi/k^2 times the real part of the forward scattering amplitude, and both forward amplitudes are equal.",
  ["inputs"], "every layered particle, host, wavelength and order; every backend",
  "Energy balance is tested numerically for isolated particles only; a sign or factor slip in one term can stay below tolerance or cancel in the tested configuration.",
  [MS, SP], [("cross sections", MS + ":cross_sections"), ("angular amplitudes", MS + ":angular_scattering")],
  obs=["a_n, b_n, cs_abs, cs_ext, S1, S2"]),

P("C25", "Tangential fields are continuous across every interface, order by order",
  "At every interface of a layered particle the tangential components of the electric and the magnetic near field, and the normal component of permittivity times electric field, are the same computed from inside and from outside, for each truncation order separately when the incident wave is truncated at the same order.",
  ["inputs"], "every interface of every layered particle, every direction, order, host and wavelength; both near-field implementations",
  "Fields on both sides of inner interfaces are compared in no test, and a wrong internal coefficient gives perfectly smooth fields inside its own layer.",
  [MS, SP, HE], [("near fields", MS + ":nearfields"), ("internal coefficients", MS + ":nearfields, " + MS + ":_miecoef"), ("vector harmonics", SP + ":vsh, vsh_pena")],
  obs=["E_t, H_t next to interfaces"]),

P("C26", "Interfaces between equal media are invisible",
  "Dividing a layer into two layers of the same material changes nothing: coefficients and fields are those of the particle without that interface. A particle made of the host medium scatters nothing, and an outer shell made of the host medium can be left out.",
  ["inputs"], "every number of layers, position of the redundant interface, radius, material, order and wavelength; every backend",
  "Tests have no redundant interfaces; recursion errors that vanish only for generic contrasts or show only for deep stacks are not sampled.",
  [MS, SP], [("layer recursion", MS + ":_miecoef_pena"), ("core-shell closed form", MS + ":_miecoef"), ("near fields", MS + ":nearfields")],
  obs=["a_n, b_n, E_s, H_s"]),

# ---- not decidable with static analysis (listed for completeness)
P("N01", "Coefficients and fields agree numerically with exact Mie theory",
  "For every sphere, coating and wavelength the numbers returned in floating-point arithmetic agree with the exact solution of Maxwell's equations to within the accuracy of the working precision, and truncated series have converged.",
  ["inputs"], "all particles and wavelengths", "Tests compare with reference codes at sampled points only.",
  [MS, SP], [("all solvers", MS)]),
P("N02", "Results stay finite for large or strongly absorbing particles",
  "No overflow, underflow, NaN or infinity appears in any output or gradient for any physically meaningful size parameter and refractive index supported by the chosen backend.",
  ["inputs"], "all size parameters and indices", "Tests sample moderate sizes only.", [SP, MS], [("guards", SP)]),
P("N03", "Passive particles never extract energy",
  "For lossy passive materials every absorption cross section is non-negative and every coefficient satisfies |a_n|^2 <= Re a_n.",
  ["inputs"], "all lossy passive particles", "Numerical inequality over all inputs.", [MS], [("cross sections", MS)]),
P("N04", "Recurrence algorithms are numerically stable",
  "Upward, downward, ratio and continued-fraction evaluation of the special functions agree to working accuracy with each other over the whole range of orders and arguments for which they are selected.",
  ["inputs", "configurations"], "all orders and arguments", "Tests compare a few arguments.", [SP], [("recurrences", SP)]),
P("N06", "Extracted global polarizability reproduces the particle's scattering",
  "The bridge's fitted global polarizability matrices reproduce the scattered field of the particle for arbitrary illumination within the fit tolerance.",
  ["inputs"], "all particles and illuminations", "Depends on an external least-squares fit.", [TG], [("extraction", TG)]),
]

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in props), encoding="utf8")
print(len(props))
