"""Writes /verif/MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 'C01': ("TLA+ model of schedules checked with TLC; orders computed by the code for every TLC-enumerated graph judged by the specification",
         "All graphs of 3 objects, random graphs of up to 9; the verdict on each recorded order is TLC's."),
 'C02': ("TLA+ data-flow model (TLC, exhaustive for 3 objects); traces of whole runs of random graphs and of library objects validated against it",
         "Exhaustive on the model, sampled on the code (seeded); delayed inputs judged up to the trigger phase."),
 'C03': ("TLA+ readiness protocol; TLC-enumerated call sequences replayed into library objects, whole-run traces validated",
         "Call sequences up to a bound on 20 library classes and probe objects with all arity/optional combinations."),
 'C04': ("TLA+ life-cycle automaton checked with TLC; complete call logs of random runs, with injected errors, validated against it",
         "Random times, graphs and error positions; times exact in units of 10 ns or 1 ns."),
 'C05': ("TLA+ model of processes, channels and blocking sends (TLC: deadlock freedom, matching, equality with the one-process run over all interleavings); model configurations and random simulations run with one process per rank, messages and reads validated",
         "Exhaustive on the model for small configurations; the code runs in real processes with a stand-in for mpi4py that randomises eager and blocking sends."),
 'C06': ("TLA+ specification of layered parameter edits; TLC-enumerated edit sequences replayed through real parameter files, resulting parameters judged by the specification",
         "Edit sequences enumerated by TLC up to a bound plus random longer ones; names with indices, list and delayed inputs."),
 'C07': ("TLA+ construction automaton; construction logs of real builds of TLC-enumerated and random reference graphs validated against it",
         "All small reference graphs and listing orders, random larger ones, valid and invalid blocks."),
 'C08': ("TLA+ connection specification; TLC-enumerated connection configurations run through Simul, resulting wiring or refusal judged by it",
         "All combinations up to a bound of input kind, optionality, type and reference form; random larger ones."),
 'C09': ("TLA+ recorder automaton (TLC exhaustive on small histories); files written by real runs validated against it",
         "Random firing histories crossed with downsampling, start time, split and formats; model exhaustive for small bounds."),
 'C10': ("TLA+ replay specification; record-then-replay runs of the real code validated against it",
         "Random histories, all header-restorable types, both formats and precisions."),
 'C11': ("TLA+ specification of needed objects and rewired connections; replay files of TLC-enumerated and random graphs judged by it and run",
         "All small graphs and random larger ones; replay files are also executed and compared."),
 'C12': ("TLA+ batching automaton (TLC exhaustive on small histories); batches emitted in real runs validated against it",
         "Random firing histories of several inputs, buffer sizes and run lengths."),
 'C13': ("TLA+ delay line with exact integer arithmetic; frame-by-frame traces of all filter types validated against it",
         "Delays in quarters of a frame (exact), real-valued filters with whole delays compared bit for bit."),
 'C14': ("TLA+ difference and state-space equations in exact integer arithmetic, model-checked against convolution; traces of real filters validated",
         "Random dyadic coefficients, histories, gain modulation, dynamic gains and resets; exact comparison."),
 'C15': ("TLA+ window automaton (TLC exhaustive on small histories); traces of the real detector and windowed integration validated step by step",
         "Random exact integer histories, window lengths, start times, binnings; valid and invalid windows."),
 'C16': ("TLA+ window specification; traces of the real demodulator validated, each window also compared with an independent reference over the same samples",
         "Random histories, mode selections, window lengths; two-run comparison for dependence on the window's samples only."),
 'C17': ("TLA+ multirate specification (TLC); TLC-enumerated firing histories replayed into the real objects and random histories, judged step by step in exact arithmetic",
         "Sensor sets, masks, weights and rates random; all firing patterns of 3 sensors over 3 steps and of the filter over 6 frames."),
 'C18': ("TLA+ specification of schedules, push-pull sequences, waves and histories (TLC); generator outputs of random declarations judged step by step by it",
         "Random schedules with boundary times, push-pull options, wave shapes and run lengths; exact integer values."),
 'C19': ("TLA+ specification of push-pull sequences and accumulation (TLC); TLC-enumerated and random histories of the real calibrators, their matrices and saved files judged by it",
         "Exact quotients by construction; mode orders, amplitudes, cycles, idle and unrefreshed steps, sensors, existing files random."),
 'C20': ("TLA+ accumulation automaton checked with TLC; step-by-step traces of the real PSF objects, with reference frames, validated against it",
         "Random firing histories, start times and frames; means compared in scaled integers."),
 'C21': ("TLA+ specification of displaced, interpolated, rotated screens (TLC); TLC-enumerated and random wind histories run on the real objects, every shown pixel judged by it",
         "Screens of known content, quarter-pixel winds, quarter-turn directions; every pixel of every layer compared."),
 'C22': ("TLA+ specification of shifted windows with carried fractions (TLC); TLC-enumerated and random wind histories and line operations run on the real screens and judged by it",
         "Surviving pixels matched bit for bit in every step; interpolated pixels sampled; directions of any angle, fractions along axes."),
 'C23': ("TLA+ specification of requests, steps, the answer channel and its consumers (every interleaving checked with TLC); TLC's schedules and random ones run on the real display object, web process code and Socket.IO clients, every message judged by it",
         "process, queues, server loop, front end and figures replaced by stand-ins in one process; figures themselves not judged"),
 'C24': ("TLA+ model of objects, copies and the memory behind them (TLC exhaustive to depth 3); TLC-enumerated and random histories replayed on all data classes, observed contents validated",
         "Host copies and, with a stand-in for cupy, device copies; memory sharing observed directly."),
 'C25': ("TLA+ model of objects and files (TLC-enumerated histories); save/overwrite/restore histories of every savable class validated against it",
         "All savable classes with random contents and options, both precisions."),
 'C26': ("TLA+ specification of index mappings and element-wise arithmetic; TLC-enumerated and random declarations run on the real objects, every output judged by it",
         "All small slices enumerated; random selections, remaps and operations over several steps, exact integers."),
 'C28': ("TLA+ model of streams drawn over runs (own against shared generators, TLC); TLC-enumerated and random schedules of building, drawing and perturbing run on the real objects in several processes, all draws judged by it",
         "Draws compared bit for bit; all classes with random data; shared phase-screen directories; the RandomGenerator without a seed is excluded by its documentation."),
 'C30': ("TLA+ specification of the command-driven dark and pupil calibrators with exact integer pupil geometry (laws checked with TLC over all short command histories and small images); those histories and random ones run on the real calibrators, every output and file judged by it",
         "obstruction detection off, images whose comparisons depend on rounding are not used; direct driving of one calibrator"),
 'C31': ("TLA+ specification of the signals of every sensor as integer quotients with the accumulation automaton (TLC); TLC-enumerated and random frame histories run on the real slope computers, every signal judged by it",
         "Integer frames; random geometries, thresholds, windows, normalisations, slope nulls, filters and refresh patterns in both precisions; signals compared to 1/S of their unit."),
 'C38': ("TLA+ specification of sources as lists of points (grids of odd integers, circles, bilinear readings), of their updates by new PSFs and of the queue of user values as a state machine (TLC: sources are symmetric and centred, outputs hold the last value before the step and its date, for all histories of 5 operations); these histories and random sources run on the real objects, every point judged by it",
         "Discs up to 12 points across, up to 3 layers, PSFs up to 10 pixels; parities are kept when cropping, layers have a finite focal height."),
 'C37': ("TLA+ specification of apertures, area resampling, Noll polynomials and their gradients, actuator responses, slaving, sectors, fluxes and normal equations in exact integers (TLC: light is conserved, apertures nest, indices are a bijection, over all small worlds); these worlds and random ones run through the real library, every array judged pixel by pixel",
         "Frames up to 64 pixels, up to 81 actuators, Zernike orders up to 5; the span of the Zernike and modal bases is measured by the harness with least squares, orthonormality and means judged by the specification."),
 'C36': ("TLA+ specification of the gain loop (TLC: measurements are used once, gains stay bounded and only change when due) and of least squares modes, interpolated screens and summed spots in exact integers; the histories of the model and random ones run on the real objects, every output judged by it",
         "The cost of each gain of the optimiser's grid is computed independently by the harness and the choice, limits and schedule judged by the specification, with integer delays and first-order filters; the fit of the spot monitor is only judged for consistency."),
 'C35': ("TLA+ specification of frames as functions of the last field, with composition, light and lenslet laws and a store of shared work arrays (TLC: frames are their own for all schedules of two sensors if arrays are only shared by sensors writing the same cells); those schedules and random ones run with real sensors, every frame identified by it with frames of new sensors in processes of their own",
         "Pupils of 24 pixels; the reference frames come from the same code, so what a single sensor computes is judged by its invariances, its light, its lenslets and its spots, not absolutely."),
 'C34': ("TLA+ specification of the conversion from light to frame in exact integers (laws checked with TLC over small configurations and draws); those and random ones run on the real detector with scripted generators, the parameters of every draw and every frame judged by it",
         "Exactly representable numbers; the generators are stand-ins that record parameters and return scripted values, so distributions themselves are not judged."),
 'C33': ("TLA+ specification of requests, result files and their names (TLC: every answer is the true one over all short histories of requests, forced requests and losses); those histories and random ones run with the real analyser on recorded runs, every answer identified by it with the results of a run that contained all the directions",
         "One atmosphere, one or two mirrors, zernike modes; the truth is computed by the same code within the run; single-precision runs analysed from double precision included."),
 'C32': ("TLA+ specification of lines of sight through displaced, turned and scaled layers, mirror surfaces and field operations (laws checked with TLC over all small geometries); those geometries and random systems run on the real objects, every pixel judged by it",
         "Positions are exact binary fractions of a pixel, rotations are quarter turns; integer contents; both precisions."),
 'C27': ("TLA+ reconstruction specification (explicit and implicit pseudo-open-loop shown equal by TLC); TLC-enumerated and random histories of the real objects judged in exact arithmetic",
         "Integer matrices and data; truncation options and matrix edits random."),
}
PENDING = "not built yet"
NA = {
 'C29': "numerical accuracy of continuous Fourier optics over real fields is not a state-transition property; a finite-state TLA+ model with integer data cannot express or decide it",
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'VERIF_TIER=thorough ./check {i}',
                           evidence_file=f'evidence/{i}.json', technique=t, level='model_checking', level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, PENDING)))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Specifications are in spec/ (TLA+, checked with TLC); harness/ records traces of the real code from /repo and lets TLC judge them. No hooks are needed in /repo.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
