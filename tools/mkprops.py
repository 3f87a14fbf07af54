#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one place to edit the texts)."""
import json, os
O = "/verif/properties.jsonl"
P = []
def p(id, title, st, over, q, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=st,
                  quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=["OpenNTN/" + f if not f.startswith("post") else f for f in files],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=z, meaning="part of the abstract state the property ranges over") for z in state], observe_at=observe, hook_needed=None)))

p("P01", "Model parameters come from the right 3GPP table for every configuration",
  "Every statistic the model uses on a link (means and deviations of the large-scale parameters, cross-correlations, correlation distances, cluster counts, delay, angle and polarisation scalars, clutter loss, LoS probability) is the value tabulated for the scenario, the frequency band, the link direction, the LoS state of that very link and the tabulated elevation angle nearest to the configured one. This holds for all links of a batch at once, whatever mixture of LoS and NLoS links it contains.",
  ["configurations", "inputs"], "All 3 scenarios x S/Ka band (incl. band edges) x uplink/downlink x elevation angles 10..90 incl. the rounding boundaries x every LoS pattern of the links.",
  "The unit tests read a few parameters at a few elevation angles; a wrong file name, angle key or LoS selection for one of the other combinations passes them.",
  ["system_level_scenario.py", "urban_scenario.py", "dense_urban_scenario.py", "sub_urban_scenario.py", "models/"],
  [("get_param: elevation key and per-link LoS/NLoS selection", "OpenNTN/system_level_scenario.py:get_param"),
   ("table file chosen by band and direction", "OpenNTN/urban_scenario.py:los_parameter_filepath, nlos_parameter_filepath (and the two other scenarios)"),
   ("LSP mean/std tensors", "OpenNTN/*_scenario.py:_compute_lsp_log_mean_std")],
  ["public scenario properties and get_param after set_topology"])

p("P02", "LoS states follow the LoS probability, the request and the indoor state",
  "A link is LoS exactly when its terminal is outdoors and either LoS was requested, or nothing was requested and the uniform random draw of that link lies below the tabulated LoS probability; an indoor terminal is never LoS, not even when LoS is requested. A requested state covers every link and stays in force for later topology updates until a new one is requested.",
  ["histories", "inputs"], "Every scenario and elevation angle, every LoS request (none, true, false), every indoor pattern of up to 3 terminals, draws just below, at and just above the probability, and every sequence of such updates up to a depth bound.",
  "Tests sample a random LoS state once and compare a relative frequency; the boundary, the indoor override and the persistence over update sequences are never exercised.",
  ["system_level_scenario.py", "utils.py"],
  [("LoS sampling and indoor override", "OpenNTN/system_level_scenario.py:_sample_los"),
   ("Bernoulli draw", "OpenNTN/utils.py:sample_bernoulli"),
   ("LoS probability", "OpenNTN/*_scenario.py:los_probability")],
  ["scenario.los after set_topology"], ["requested LoS state", "indoor state"])

p("P03", "Topology updates are history independent",
  "After any sequence of topology updates, full or partial, the observable state of the scenario (positions, orientations, velocities, distances, angles, LoS states, statistics, cluster layout and path losses) is the one a fresh object has after a single update with the latest value given for each argument. An update that is rejected because required information is missing changes nothing.",
  ["histories"], "All sequences, up to a depth bound, of updates drawn from an alphabet that covers each argument alone, in pairs, with changed batch size and number of terminals, full updates and rejected ones.",
  "Tests call set_topology once per object; stale derived quantities only appear after particular sequences of partial updates.",
  ["system_level_scenario.py", "system_level_channel.py", "rays.py", "lsp.py"],
  [("incremental update and recomputation triggers", "OpenNTN/system_level_scenario.py:set_topology"),
   ("callbacks that refresh correlation matrices and cluster masks", "OpenNTN/system_level_channel.py:set_topology")],
  ["public scenario properties; channel output under a controlled random source"], ["locations", "orientations", "velocities", "indoor state", "requested LoS", "atmospheric parameters"])

p("P04", "Large-scale parameters are redrawn exactly when they should be",
  "Between two topology updates that change locations, indoor states or LoS requests, every call of a channel model uses the same large-scale parameters, whereas fast-fading quantities are drawn anew; with the always-generate option, each call draws new large-scale parameters. Updates of orientations or velocities alone keep the large-scale parameters but are visible in the very next call, and a channel never uses large-scale parameters of an earlier topology.",
  ["histories"], "All sequences of channel calls and topology updates up to a depth bound, with and without the always-generate option, in both directions.",
  "The refresh policy is a property of call sequences; tests call a channel once.",
  ["system_level_channel.py", "lsp.py"],
  [("LSP refresh", "OpenNTN/system_level_channel.py:set_topology, __call__")],
  ["large-scale parameters handed to ray generation; channel output"], ["current LSPs"])

p("P05", "Link geometry: distances and LoS angles are right for every link",
  "For every batch example, satellite and terminal, the slant range is the one given by the satellite's own height, the elevation angle and the Earth's radius; horizontal distances and pairwise terminal distances follow from the coordinates; the LoS departure direction points from base station to terminal and the arrival direction is exactly opposite. Indoor distances lie in [0, 10] m and are zero outdoors, and indoor and outdoor parts add up to the total distance.",
  ["inputs", "configurations"], "Grids of terminal and satellite positions including all quadrants, axes, coincident horizontal positions and different heights per batch example and base station; all elevation angles.",
  "Tests use one satellite above the origin and one height per batch; per-link broadcasting and wrap-around cases are not sampled.",
  ["system_level_scenario.py"],
  [("distances and angles", "OpenNTN/system_level_scenario.py:_compute_distance_2d_3d_and_angles"),
   ("indoor distances", "OpenNTN/system_level_scenario.py:_sample_indoor_distance")],
  ["distance_*, matrix_ut_distance_2d and los_* properties"])

p("P06", "Path loss is composed correctly on every link",
  "The basic path loss of a link is the free-space loss of its slant range and carrier frequency, plus the clutter loss tabulated for its elevation and band if and only if the link is NLoS, plus a zero-mean log-normal shadowing term of the deviation of its LoS state only if shadow fading is enabled. The total path loss is the sum of the basic, gas, scintillation and entry losses of that link, with shadow fading entering the channel gain once.",
  ["inputs", "configurations"], "All scenarios, bands, directions, elevation angles and LoS patterns, several heights per batch, shadowing on and off, an alphabet of random draws.",
  "Link-budget tests check intervals for a handful of NLoS/LoS cases with the random shadowing on.",
  ["utils.py", "lsp.py", "system_level_channel.py"],
  [("basic path loss", "OpenNTN/utils.py:compute_pathloss_basic"),
   ("sum of losses", "OpenNTN/lsp.py:sample_pathloss"),
   ("gain", "OpenNTN/system_level_channel.py:_step_12")],
  ["basic_pathloss, free_space_pathloss, entry_pathloss properties, sampled path loss, channel gain"])

p("P07", "Atmospheric losses follow ITU-R P.676/P.618 for all parameters and updates",
  "Gas attenuation and scintillation loss equal the ITU-R P.676 (annex 2) and P.618 / TR 38.811 formulas for the configured carrier frequency, elevation angle and atmospheric parameters, are finite, non-negative and identical on all links, and fall with rising elevation angle. Every atmospheric parameter that is set takes effect at once, keeps its value in later updates that do not mention it, and changes no other quantity.",
  ["inputs", "histories"], "A grid of frequencies in both bands, all elevation angles, alphabets for each atmospheric parameter, and every sequence of parameter updates up to a depth bound.",
  "Tests check three elevation angles with default parameters against wide intervals.",
  ["utils.py", "system_level_scenario.py"],
  [("gas", "OpenNTN/utils.py:compute_pathloss_gas"), ("scintillation", "OpenNTN/utils.py:compute_pathloss_scintilation"),
   ("parameter persistence", "OpenNTN/system_level_scenario.py:set_topology")],
  ["gas_pathloss and scintillation_pathloss properties"], ["atmospheric parameters"])

p("P08", "Large-scale parameters are generated with the tabulated statistics",
  "The seven large-scale parameters of a link are log-normal with the tabulated mean and deviation of that link's state, have the tabulated cross-correlations, and have across terminals the exponential correlation of the tabulated distance for terminals in the same state and none otherwise. For every supported configuration they are finite and non-negative (positive wherever the table prescribes a spread), and angular spreads never exceed 104 degrees in azimuth and 52 degrees in zenith.",
  ["inputs", "configurations"], "Every scenario, band, direction, tabulated elevation angle and LoS pattern of up to 3 terminals x a basis of the Gaussian draws (unit impulses and extreme values), which determines the linear map completely.",
  "Statistical tests estimate a few moments with loose tolerances for a few configurations; the impulse response of the generator determines the covariance exactly.",
  ["lsp.py", "system_level_scenario.py"],
  [("cross-correlation", "OpenNTN/lsp.py:_compute_cross_lsp_correlation_matrix"),
   ("spatial correlation", "OpenNTN/lsp.py:_compute_lsp_spatial_correlation_sqrt"),
   ("generation and limits", "OpenNTN/lsp.py:__call__")],
  ["LSP objects returned by the generator under a controlled random source"])

p("P09", "Cluster delays and powers form a valid power-delay profile",
  "On every link of an outdoor terminal the cluster delays start at zero and never decrease, follow the exponential law with the tabulated delay scaling and the link's delay spread (divided by the K-factor scaling on LoS links only), and the cluster powers are non-negative, sum to one and follow the tabulated decay and per-cluster shadowing. Clusters beyond the number tabulated for the link's state carry exactly zero power and never precede the others.",
  ["inputs", "configurations"], "Every scenario, band, direction, tabulated elevation and LoS pattern, alphabets of delay spreads, K-factors and random draws including the extreme ones.",
  "Tests look at ranges for one configuration; the LoS/NLoS mixture with different cluster counts and the extreme draws are not sampled.",
  ["rays.py"],
  [("delays", "OpenNTN/rays.py:_cluster_delays"), ("powers", "OpenNTN/rays.py:_cluster_powers"), ("cluster mask", "OpenNTN/rays.py:_compute_clusters_mask")],
  ["Rays returned by the ray generator"], ["cluster mask"])

p("P10", "Ray angles follow the cluster angle procedure and stay in range",
  "For every cluster, the ray angles of arrival and departure are the cluster angle prescribed by TR 38.811/38.901 (power-dependent deviation, random sign and variation, LoS cluster re-centred on the LoS direction, zenith-of-departure offset) plus the 20 tabulated symmetric ray offsets scaled by the tabulated cluster spread. Departure angles have no spread between clusters for satellites, azimuths lie in (-180, 180] degrees and zeniths in [0, 180] degrees.",
  ["inputs", "configurations"], "Every scenario, band, direction, tabulated elevation and LoS/indoor pattern; satellite and low platforms; terminal directions near the wrap-around; alphabets of spreads, K-factors and random draws.",
  "Tests use a single geometry and check ranges; individual offsets, scaling constants, wrap-around and LoS re-centring are not observable there.",
  ["rays.py"],
  [("azimuth", "OpenNTN/rays.py:_azimuth_angles"), ("zenith", "OpenNTN/rays.py:_zenith_angles"), ("offset table", "OpenNTN/rays.py:__init__")],
  ["Rays returned by the ray generator"])

p("P11", "Ray coupling is a permutation within clusters and XPRs are log-normal",
  "Random coupling only permutes the rays of each cluster, independently for the four kinds of angles and for every cluster, so that no ray angle is lost, duplicated or moved to another cluster, terminal or batch example. Cross-polarisation ratios are positive and log-normal in dB with the mean and deviation tabulated for the link's own state, one per ray.",
  ["inputs", "configurations"], "Every scenario, band, direction, tabulated elevation and LoS pattern under an alphabet of random draws, incl. draws that produce every kind of reordering.",
  "Lost or duplicated rays leave means and ranges untouched; tests compare those.",
  ["rays.py"],
  [("coupling", "OpenNTN/rays.py:_shuffle_angles, _random_coupling"), ("XPR", "OpenNTN/rays.py:_cross_polarization_power_ratios")],
  ["Rays returned by the ray generator"])

p("P12", "Channel coefficients equal the 3GPP sum over rays",
  "For given rays, topology and random initial phases, each coefficient between a transmit and a receive antenna element equals the TR 38.901 step-11 expression: element field patterns rotated by the orientation of each array, cross-polarised random phases, array phase at both ends from element positions, ray powers, and for LoS links the LoS ray with the propagation phase of the slant range.",
  ["inputs", "configurations"], "Array kinds (single/dual, V/H/VH/cross, several shapes and patterns) at either end x orientations x LoS patterns x LoS/ray angle alphabets x random-phase alphabets x both moving ends x batch, transmitter and receiver counts.",
  "Tests recompute single factors for a default orientation; the assembled coefficient with rotated dual-polarised arrays is never compared with an independent computation.",
  ["channel_coefficients.py", "antenna.py"],
  [("NLoS sum", "OpenNTN/channel_coefficients.py:_step_11_nlos"), ("LoS ray", "OpenNTN/channel_coefficients.py:_step_11_los"),
   ("rotations", "OpenNTN/channel_coefficients.py:_gcs_to_lcs, _l2g_response, _rot_pos"), ("field matrix", "OpenNTN/channel_coefficients.py:_step_11_field_matrix")],
  ["output of the coefficient generator called with explicit rays and topology"])

p("P13", "Paths: sub-clustering, delay order and Rician combination are consistent",
  "The paths of a link come in order of increasing delay, each with the coefficient that belongs to its delay; the two strongest clusters are split into three sub-clusters at delays 0, 1.28 and 2.56 times the tabulated cluster delay spread, every ray counted exactly once. On LoS links the scattered paths are scaled by 1/(K+1) and the LoS ray by K/(K+1) in power and added to the first path only; NLoS links are unaffected by the K-factor.",
  ["inputs", "configurations"], "All orders of cluster powers and ties for small numbers of clusters, K-factor and cluster-delay-spread alphabets, all LoS patterns, sub-clustering on and off.",
  "The result depends on the ordering of the cluster powers; tests see one random ordering.",
  ["channel_coefficients.py"],
  [("sub-clusters and sorting", "OpenNTN/channel_coefficients.py:_step_11_reduce_nlos"), ("Rician combination", "OpenNTN/channel_coefficients.py:_step_11")],
  ["output of the coefficient generator"])

p("P14", "Time evolution: Doppler of terminals and satellites",
  "Over time each ray rotates with exactly the Doppler frequency of the terminal's velocity along the ray, plus, if the base station is a satellite of at least 600 km height and satellite Doppler is enabled, the speed component of its circular orbit along the link scaled by a random direction; ray magnitudes never change. Sample k is taken at k divided by the sampling frequency, at time zero the coefficient does not depend on velocity, and switching satellite Doppler off removes exactly the satellite part.",
  ["inputs", "configurations"], "Velocity alphabets, both moving ends, heights around 600 km also mixed in a batch, elevation angles, satellite Doppler on/off, several sampling frequencies and lengths.",
  "Tests compare the Doppler matrix for one velocity with the same formula as the code; gating per satellite and the independence at time zero are not covered.",
  ["channel_coefficients.py", "utils.py"],
  [("Doppler", "OpenNTN/channel_coefficients.py:_step_11_doppler_matrix"), ("satellite speed", "OpenNTN/channel_coefficients.py:Topology, OpenNTN/utils.py:compute_satellite_speed")],
  ["output of the coefficient generator and of the channel models over time"])

p("P15", "Faraday rotation applies to satellite links only and preserves power",
  "The transmitted polarisation is rotated by 108 degrees over the squared carrier frequency in GHz, on LoS and scattered rays alike, for links to base stations of at least 600 km height and for no other link, also when a batch mixes both. The rotation preserves power.",
  ["inputs", "configurations"], "Carrier frequencies of both bands, heights around 600 km incl. mixtures per batch example and base station, polarisations, LoS patterns, both directions.",
  "A wrong angle or sign is invisible with vertically polarised arrays at Ka band, which most tests use.",
  ["channel_coefficients.py"],
  [("Faraday", "OpenNTN/channel_coefficients.py:_step_11_faraday_rotation"), ("gating", "OpenNTN/channel_coefficients.py:_satellite_links")],
  ["output of the coefficient generator"])

p("P16", "Channel models honour direction, shapes, gain switches and call forms",
  "For every scenario class and both directions, a channel call returns coefficients and delays of the documented shapes, with rows and columns assigned to the right receiver and transmitter antennas and links; it equals the composition of its public stages on the current topology. Switching path loss or shadow fading off removes exactly that factor from the power of every link and nothing else, and the call form with a leading batch-size argument gives the same result.",
  ["inputs", "configurations"], "Scenario classes x directions x numbers of batch examples, base stations, terminals and antennas x the four combinations of the gain switches x LoS patterns x both call forms.",
  "Transposition errors are invisible with one terminal, one antenna or equal sizes, which tests use.",
  ["system_level_channel.py", "urban.py", "dense_urban.py", "sub_urban.py"],
  [("assembly of a channel call", "OpenNTN/system_level_channel.py:__call__"), ("gain", "OpenNTN/system_level_channel.py:_step_12")],
  ["channel output"])

p("P17", "Batch examples, satellites and terminals do not influence each other",
  "With the random draws of a link fixed, its coefficients and delays do not depend on the number or the content of the other batch examples, base stations and (spatially uncorrelated) terminals, and permuting batch examples, base stations or (spatially uncorrelated) terminals (with their draws) permutes the result. Independent random quantities use independent draws.",
  ["inputs"], "All sub-batches and permutations of small topologies with distinct links, both directions, heterogeneous heights and LoS states; every single-element deviation of the random draws.",
  "Tests never compare two runs; leakage between links needs heterogeneous batches to show.",
  ["system_level_scenario.py", "lsp.py", "rays.py", "channel_coefficients.py", "system_level_channel.py"],
  [("per-link tensors of the whole pipeline", "OpenNTN/system_level_channel.py:__call__")],
  ["channel output, LSPs and rays under a controlled random source"])

p("P18", "Antenna arrays have the documented geometry and numbering",
  "A panel array has rows x columns x panels x polarisations elements, centred at the origin in the y-z plane, with the configured element and panel spacings in wavelengths of the carrier, numbered column by column within a panel, panel after panel, first polarisation before second; the index sets of the two polarisations partition the elements and co-located pairs share positions. Invalid polarisations and overlapping panels are rejected.",
  ["configurations"], "All combinations of 1..3 rows and columns per panel, 1..3 rows and columns of panels, polarisations, spacing alphabets and frequencies of both bands.",
  "Tests use a few shapes and look at counts.",
  ["antenna.py"],
  [("panel", "OpenNTN/antenna.py:AntennaPanel"), ("array", "OpenNTN/antenna.py:PanelArray")],
  ["ant_pos, ant_ind_pol*, ant_pos_pol*, counts"])

p("P19", "Antenna elements have the specified patterns and polarisation",
  "The power pattern of each element kind equals its specification for every direction: isotropic; TR 38.901 (8 dBi, 65 degree beamwidth, 30 dB front-to-back); TR 38.811 circular aperture (unit gain on boresight, Bessel pattern in the front half, nothing behind); the 90 degree, 25 dB pattern of co-phased dual linear antennas. The field is the amplitude of that pattern rotated by the slant angle (0 for V, 90 for H, 0/90 for VH, -45/+45 for cross), so power does not depend on the slant.",
  ["inputs", "configurations"], "A full grid of directions incl. poles, boresight, back and half-power points x all patterns x all polarisation types x both precisions.",
  "Tests probe a few directions; pattern saturation, the back half-space and slant of the second polarisation are not covered.",
  ["antenna.py"],
  [("patterns", "OpenNTN/antenna.py:_radiation_pattern_*"), ("field", "OpenNTN/antenna.py:field"), ("slants", "OpenNTN/antenna.py:PanelArray.__init__")],
  ["field() of the elements of arrays"])

p("P20", "Generated topologies are valid for the requested scenario",
  "A generated single-sector topology puts the satellite above the origin at the requested height facing down and the terminals, outdoors, within half an inter-site distance per axis of a point that sees the satellite at the requested elevation angle, with heights and speeds within the requested limits and boresight towards the satellite. Omitted arguments take the scenario's documented defaults, given ones are used unchanged, and the result is accepted by the channel models with all shapes and types as documented, for any random draw that puts the terminals at distinct positions.",
  ["inputs", "configurations"], "Scenarios x elevation angles x heights x each argument given or omitted x batch and terminal counts x precisions x extreme and intermediate random draws.",
  "Placement is random; tests draw once and check shapes.",
  ["utils.py"],
  [("generator", "OpenNTN/utils.py:gen_single_sector_topology, generate_uts_topology, drop_uts_in_sector"),
   ("defaults", "OpenNTN/utils.py:set_3gpp_scenario_parameters"), ("relocation", "OpenNTN/utils.py:relocate_uts")],
  ["tensors returned by the generator"])

p("P21", "Impulse responses convert exactly to frequency and discrete-time channels",
  "The frequency response at each subcarrier is the sum over paths of coefficient times the delay phasor, the discrete-time taps are the sinc-interpolated path sum for every lag of the requested range, both per link and antenna pair; with normalisation the average energy per resource element or over the taps is one for each link. Subcarrier grids, time vectors and lag ranges are centred and spaced as documented for even and odd lengths, and converting taps to OFDM agrees with the direct conversion.",
  ["inputs"], "All small shapes, grid lengths 1..9 even and odd, delays incl. zero, fractional and integer multiples of the sample time, normalisation on and off, both precisions.",
  "No test of this repository touches these conversions.",
  ["utils.py"],
  [("frequency domain", "OpenNTN/utils.py:cir_to_ofdm_channel, subcarrier_frequencies"), ("time domain", "OpenNTN/utils.py:cir_to_time_channel, time_lag_discrete_time_channel, time_frequency_vector"), ("time to OFDM", "OpenNTN/utils.py:time_to_ofdm_channel")],
  ["returned tensors"])

p("P22", "Helper functions: correlation matrices, angle conversion, orbital speed",
  "Exponential and one-ring correlation matrices are Hermitian with unit diagonal and the documented entries for every parameter and leading shape; angle conversion and wrapping agree with their definitions and wrap into [0, 360); a Bernoulli sample is true exactly where the draw lies below the probability; orbital speed and Doppler follow from circular orbits and relocation rotates terminals by 120 degrees per sector before shifting them to their cell.",
  ["inputs"], "Parameter grids incl. boundary values, sizes 1..5, scalar to rank-2 leading shapes, both precisions.",
  "These helpers have no or one-point tests.",
  ["utils.py"],
  [("matrices", "OpenNTN/utils.py:exp_corr_mat, one_ring_corr_mat"), ("angles", "OpenNTN/utils.py:deg_2_rad, rad_2_deg, wrap_angle_0_360"), ("orbit", "OpenNTN/utils.py:compute_satellite_speed, compute_stallite_doppler")],
  ["returned tensors"])

p("P23", "Unsupported configurations are rejected, supported ones accepted",
  "A scenario or channel model can be created exactly for carrier frequencies of 1.9 to 4 GHz and 19 to 40 GHz, elevation angles of 10 to 90 degrees, uplink or downlink, and antenna arrays of the same carrier frequency; everything else is rejected at construction. A topology is accepted exactly when every required item is given now or was given in an accepted topology before.",
  ["configurations", "histories"], "Grids around every limit, both directions and invalid ones, mismatching arrays, all 64 subsets of required topology items, initially and after a complete topology.",
  "Tests try one or two invalid values; limits themselves and partial topologies are not covered.",
  ["system_level_scenario.py", "urban_scenario.py", "dense_urban_scenario.py", "sub_urban_scenario.py"],
  [("constructor checks", "OpenNTN/system_level_scenario.py:__init__"), ("topology checks", "OpenNTN/system_level_scenario.py:set_topology")],
  ["construction and set_topology succeed or raise"])

p("P24", "Eager, graph and XLA execution and both precisions agree",
  "With the same random draws, a channel model, including topology generation and topology updates, gives the same result in eager mode, inside a compiled graph function and with XLA, repeatedly and across retracing, and nothing computed while tracing leaks into later eager calls. Single and double precision produce tensors of the requested type everywhere and agree within single-precision accuracy, and a double-precision model computes every stage in double precision, so that its answers respond smoothly to small changes of the inputs.",
  ["programs", "configurations"], "Scenario classes x directions x bands x execution modes x precisions x call sequences mixing the modes.",
  "Tests run eagerly in single precision.",
  ["system_level_channel.py", "system_level_scenario.py", "channel_coefficients.py", "rays.py", "lsp.py", "utils.py"],
  [("whole pipeline", "OpenNTN/system_level_channel.py:__call__")],
  ["channel output, path losses and topology tensors in each mode"])

p("P25", "Installing into the framework is idempotent and non-destructive",
  "Running the installer any number of times leaves the host framework's channel package with exactly one import of this package, directly after the import it extends, and every other line unchanged; without that anchor, or when the framework cannot be found or read, the file is left untouched and no exception escapes. An installation that is killed, or runs into a full disk, at any point leaves the file either as it was or completely updated, and the next run completes it.",
  ["histories", "inputs"], "All host files of up to 4 lines over an alphabet of line kinds (anchor, import already present, other imports, comments, blank, missing final newline) x repeated runs x a missing framework or file; every number of bytes written before a kill or a full disk, and the final rename, each followed by a rerun.",
  "The installer has no tests, and running it would modify the installed framework.",
  ["post_install.py"],
  [("insertion", "post_install.py:modify_vanilla_sionna")],
  ["contents of the host file in a scratch directory"])

p("P26", "Delay-line profiles: normalised taps, fading process and correlation",
  "Each delay-line profile has the tabulated taps: delays scaled by the delay spread (fixed for the profiles with a built-in spread), also after the spread is changed, and mean powers that sum to one, with the tabulated K-factor for LoS profiles. Tapped-delay-line coefficients are the documented sum of sinusoids with each tap's power plus, for LoS profiles, one specular component on the first tap, with the terminal Doppler of each example drawn between those of the minimum and maximum speed (no value is claimed for the experimental satellite term). Spatial correlation gives the antennas exactly the requested covariance, the joint matrix or the Kronecker product of the receive and transmit matrices, in both precisions.",
  ["configurations", "inputs"], "All profiles x precisions x delay spreads x speeds x numbers of antennas, examples, time steps and sinusoids x random draws x combinations of correlation matrices.",
  "The delay-line models have no tests.",
  ["tdl.py", "cdl.py", "models/"],
  [("fading process", "OpenNTN/tdl.py:__call__"), ("profile loading", "OpenNTN/tdl.py:_load_parameters, OpenNTN/cdl.py:_load_parameters"), ("Doppler range", "OpenNTN/tdl.py:_compute_doppler")],
  ["coefficients and delays returned by TDL, profile properties of TDL and CDL"])

p("P27", "Models plug into the framework's transmission chain",
  "A channel model passed to the framework's OFDM or time-domain channel block - system-level models in both directions with any numbers of terminals, satellites and antennas, with user-set or generated topologies, and tapped-delay-line models - yields, in eager and in compiled mode and in both precisions, the transmitted signal passed through the model's own impulse response, with receivers, transmitters and antennas in the framework's order, one time step per OFDM symbol or sample at the block's sampling frequency, and unit mean energy per link when normalisation is requested. A topology set later takes effect in the same block.",
  ["configurations", "inputs"], "Scenario classes x bands x directions x shapes x arrays x FFT sizes, symbols and lag ranges x normalisation x execution modes x precisions x topologies.",
  "Tests look at impulse responses; none transmits a signal over a model.",
  ["system_level_channel.py", "tdl.py", "channel_coefficients.py", "utils.py"],
  [("impulse response for the framework's blocks", "OpenNTN/system_level_channel.py:__call__, OpenNTN/tdl.py:__call__")],
  ["received signal and channel returned by OFDMChannel and TimeChannel"])

p("P28", "Seeded runs are reproducible and every realisation is new",
  "After the framework's and TensorFlow's random generators are seeded (the framework's alone should suffice; that it does not is a known finding), the same sequence of topology generations, topology updates and channel calls gives bitwise the same results in every run, whatever was computed before with the same or other models and whatever the state of any other random source; another seed gives other channels, and successive calls, topologies and delay-line realisations after one seeding all differ.",
  ["histories", "configurations"], "All histories up to a depth bound of generating, updating and calling models, re-seeding and replacing the model, in eager and compiled mode, with the real generators.",
  "Tests that fix a seed run one sequence once and never compare two runs.",
  ["cdl.py", "channel_coefficients.py", "lsp.py", "rays.py", "system_level_scenario.py", "tdl.py", "utils.py"],
  [("draws of channel realisations", "OpenNTN/rays.py:__call__, OpenNTN/lsp.py:__call__, OpenNTN/channel_coefficients.py:_step_10, OpenNTN/tdl.py:__call__"), ("draws of topologies", "OpenNTN/utils.py:generate_uts_topology")],
  ["topologies, LoS states, path losses, coefficients and delays of two runs"])

p("P29", "Plots show what the model contains",
  "The plots of a model show its current state: show_topology draws, for any batch example and satellite, every satellite and every outdoor terminal at its position in the unit of the axis labels, terminals grouped by their LoS state towards the chosen satellite, with their numbers and the axes of their orientations, also after a topology update; PanelArray.show draws every element of each polarisation at its position with its number; the radiation pattern plots show the power gain of the element in both principal cuts.",
  ["configurations", "inputs"], "Arrays x panels x polarisations x patterns; topologies of various shapes, scales and LoS patterns x every batch example and satellite x updates.",
  "Nothing in the tests calls the plotting methods.",
  ["system_level_channel.py", "antenna.py"],
  [("topology", "OpenNTN/system_level_channel.py:show_topology"), ("arrays and patterns", "OpenNTN/antenna.py:show")],
  ["data of the matplotlib figures"])

for x in P:
    assert len(x["title"]) <= 80, x["title"]
with open(O, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
