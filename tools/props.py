"""Single source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "Trigger order is a valid schedule of the connection graph",
  "For every parameter file, each object is scheduled at most once, after every object that feeds it through an immediate input and not before any object that reads it through a ':-1' input. Every object not caught in (or behind) a cycle of such constraints is scheduled, objects sharing a step group have no immediate dependency on one another, and when no order exists the run is refused or the unschedulable objects are reported and left out rather than run in a wrong order.",
  ["configurations", "inputs"], "all object graphs, with any mix of immediate, delayed, single and list inputs, in any listing order",
  "Tests exercise three hand-written graphs; the guarantee is over all graphs and all YAML listing orders.",
  ["specula/simul.py"], [("build_trigger_order / is_leaf / has_delayed_output / remove_inputs", "specula/simul.py")],
  [("trigger_order, trigger_order_idx", "schedule and its groups", "Simul")], ["Simul.run() with probe objects", "Simul.build_trigger_order"])

p("C02", "Immediate inputs see this step's data, ':-1' inputs the previous step's",
  "In every step an object reads, on an immediate input, the value published in that same step by the producer (or its latest one if the producer did not run), and on a ':-1' input the value as it stood at the end of the previous step. This holds for lists as well as single inputs, in connection order, and neither the order of blocks in the parameter file nor which library object produced the value changes what is read.",
  ["configurations", "histories"], "all graphs, listing orders and per-step firing histories of producers",
  "Tests check one or two fixed loops by their final numbers; ordering and aliasing faults show only for particular graphs, delays and listing orders.",
  ["specula/simul.py", "specula/loop_control.py", "specula/connections.py", "specula/base_processing_obj.py", "specula/processing_objects/base_filter.py", "specula/processing_objects/base_slicer.py"],
  [("three-phase group execution", "LoopControl.iter"), ("reference sharing of outputs", "_InputItem.get"), ("delay line", "BaseFilter")],
  [("generation_time", "time a value was published", "BaseDataObj")], ["values read inside probe objects in Simul.run()"])

p("C03", "An object runs exactly when it has fresh data",
  "In each step an object runs if it has no inputs, if all its inputs are optional single values and none is connected, or if at least one connected value carries a timestamp not older than the step; otherwise it does not run and its outputs keep both value and timestamp. Running or completing a step without a successful readiness check is refused, and readiness is decided anew every step.",
  ["histories", "inputs"], "all input arity/optional/list combinations and all histories of refreshed and stale inputs",
  "Tests cover one stale and one fresh case; the rule is over all combinations and histories.",
  ["specula/base_processing_obj.py", "specula/loop_control.py"], [("checkInputTimes, check_ready, trigger, post_trigger", "BaseProcessingObj")],
  [("inputs_changed", "readiness of this step", "BaseProcessingObj")], ["check_ready/trigger/post_trigger return values and exceptions"])

p("C04", "The loop visits each time step once, in phase order, and finalizes once",
  "A run of total time T and step dt performs exactly the steps t0, t0+dt, ... below t0+T, each exactly once with simulated time an exact multiple of dt, regardless of how dt rounds. Every object is set up before the first step, in each step a group is checked, then triggered, then completed before the next group starts, and every object is finalized exactly once after the last step; an error in any phase ends the run with that error.",
  ["configurations", "schedules"], "all (T, dt, t0) triples, numbers of groups and objects, and firing patterns",
  "Tests use a few round values of T and dt; off-by-one and rounding faults need particular values.",
  ["specula/loop_control.py", "specula/base_time_obj.py", "specula/simul.py"], [("start / iter / finish", "LoopControl"), ("seconds_to_t", "BaseTimeObj")],
  [("t, iter_counter", "simulated time, step counter", "LoopControl")], ["probe call log"])

p("C05", "A run split over processes terminates and matches the single-process run",
  "For every assignment of processing objects to MPI ranks (data objects without a rank existing in every process), the run terminates without deadlock, every message sent is received by the matching receive, and every object sees during set-up, in every step and at the end of the run the same values and timestamps as in the single-process run. Files written at the end are the same too.",
  ["configurations", "schedules"], "all rank assignments, graphs with immediate and delayed edges, array, scalar, list, library-typed and initially-empty values, all run lengths, all message interleavings",
  "There is no MPI test at all: mpi4py is not installed where tests run.",
  ["specula/base_processing_obj.py", "specula/connections.py", "specula/loop_control.py", "specula/simul.py"],
  [("send_outputs / send_remote_output", "BaseProcessingObj"), ("receive_new_value", "_InputItem"), ("tags of remote connections, connect", "Simul"), ("sends after each set-up, trigger and finalize", "LoopControl")],
  [("sent_valid", "shape and type last sent per tag", "BaseProcessingObj"), ("cloned_value", "receiver's copy", "_InputItem")], ["stand-in communicator log", "probe reads", "files written"])

p("C06", "Layered parameter files combine to the documented result",
  "The parameters a run uses are the first file's, to which each further file in order adds new objects, overrides the named entries of existing objects, or removes objects together with every connection that referenced them, where names with a numeric suffix apply only to the selected simulation index, and command-line overrides win over all files. Everything not named is left unchanged, and naming an object that does not exist, or adding one that already does, is refused.",
  ["configurations", "histories"], "all sequences of add/override/remove edits over several files, with and without simulation index, list inputs and delayed inputs",
  "Tests apply one override or one removal; order effects and interactions (remove then re-add, indexed remove, list inputs) are not sampled.",
  ["specula/simul.py"], [("combine_params, remove_inputs, apply_overrides", "Simul")], [], ["parameters written by a DataStore / seen by constructed objects", "Simul.combine_params"])

p("C07", "Objects are built once, after what they reference, from declared parameters",
  "Every configured object is constructed exactly once with exactly the parameters of its block, and an object named by a reference parameter (single, list or dictionary) is the very instance built for that name and exists before its user, whatever the listing order. A block with a parameter its class does not accept, without a class, or with a reference to a missing object is refused before any step runs.",
  ["configurations"], "all acyclic reference graphs and listing orders, all reference kinds, valid and invalid blocks",
  "Tests build a few fixed files with references listed in a convenient order.",
  ["specula/simul.py", "specula/lib/utils.py"], [("build_order, build_objects", "Simul")], [], ["constructor arguments of probe classes"])

p("C08", "Connections are complete, ordered and type-checked",
  "Every connection written in the parameter file is made exactly once and in order, lists are flattened in order, and a single-valued input receives exactly one value. A connection to an unknown object, output or input, of the wrong data type, with too many values for a single input, or a missing mandatory single-valued input stops the run before the first step, while a missing optional input does not.",
  ["configurations", "inputs"], "all combinations of input kind (single/list, optional/mandatory), list-valued outputs, types and malformed names",
  "Tests try single malformed examples per check.",
  ["specula/simul.py", "specula/connections.py", "specula/base_processing_obj.py"], [("connect_objects, connect", "Simul"), ("InputList, InputValue", "specula/connections.py"), ("setup, sanity_check", "BaseProcessingObj")], [], ["values seen by probe inputs", "exceptions"])

p("C09", "DataStore saves exactly the samples produced, with their times",
  "For each recorded input, the saved file(s) contain precisely the values published in steps at or after the start time whose timestamp equals that step, in time order with exact integer times, each the value at that step and not a later one, thinned to one in N received samples counted separately per input. With splitting enabled every chunk holds exactly the samples of its own range of steps, in a directory named for the first step of the range, and nothing is stored twice or mixed between chunks.",
  ["histories", "configurations"], "all firing histories of several inputs, downsampling factors (global and per input), start times, split sizes, run lengths and both file formats",
  "Tests record one or two regular signals; irregular histories crossed with downsampling, start time and splitting are not covered.",
  ["specula/processing_objects/data_store.py"], [("trigger_code, _should_store_input, finalize, save_fits, save_pickle", "DataStore")],
  [("storage", "samples kept per input", "DataStore"), ("input_sample_counters", "received samples per input", "DataStore")], ["files written by the DataStore"])

p("C10", "Replayed data reproduces the recorded run sample by sample",
  "A DataSource reading what a DataStore wrote publishes, at each simulated time at which a sample was recorded, exactly the recorded value with that timestamp, and publishes nothing new at any other time. This holds for every recordable data type that is restored from its header, for both formats and precisions, and for runs of any length.",
  ["histories", "inputs"], "all recorded histories, types, formats, precisions and time steps",
  "Tests replay a few samples at small times in one precision.",
  ["specula/processing_objects/data_store.py", "specula/processing_objects/data_source.py"], [("load_fits, load_pickle, trigger_code", "DataSource")], [], ["outputs of DataSource step by step"])

p("C11", "Generated replay parameter files are complete and equivalent",
  "A replay file derived from a run keeps every object that is still needed, takes from the data source every connection whose signal was recorded, keeps every other connection as written, names no object that is absent, and leaves the original parameters unchanged. A targeted replay contains the requested objects and all they need, directly or through inputs and references, and nothing else.",
  ["configurations"], "all parameter graphs with one data store, recorded outputs, list and delayed inputs and references",
  "Tests check one fixed configuration.",
  ["specula/simul.py"], [("build_replay, build_targeted_replay, data_store_to_data_source", "Simul")], [], ["returned parameter dictionaries"])

p("C12", "DataBuffer delivers every sample once, in order, in full batches",
  "Concatenating the batches a DataBuffer emits for an input gives exactly the sequence of fresh samples received, in order and with the value they had when received, with a batch emitted exactly every N steps it ran and the remainder at the end of the run. A batch never contains samples of another input or of another batch.",
  ["histories"], "all firing histories of several inputs, buffer sizes and run lengths",
  "Tests feed one regular signal.",
  ["specula/processing_objects/data_buffer.py"], [("trigger_code, emit_buffered_data, finalize", "DataBuffer")], [("storage, step_counter", "current batch", "DataBuffer")], ["outputs of DataBuffer"])

p("C13", "Control filters delay their output by exactly the configured frames",
  "For every filter type, the command output in frame k equals the undelayed command of frame k-d for an integer delay d and the linear interpolation between the two neighbouring frames for a fractional delay (zero before the start), while the no-delay output gives the current frame. Published commands do not change until the filter runs again, and a reset clears the delay line.",
  ["histories", "configurations"], "all delays (integer and fractional), input histories, filter types and resets",
  "Tests check delay with a constant or impulse input and few delays.",
  ["specula/processing_objects/base_filter.py", "specula/processing_objects/multirate_complementary_filter.py"], [("delay buffer shift and interpolation", "BaseFilter.prepare_trigger/post_trigger")], [("output_buffer", "delay line", "BaseFilter")], ["out_comm, out_comm_no_delay"])

p("C14", "Linear filters and integrators follow their difference equation",
  "Each channel of a filter produces exactly the response of its configured difference (or state-space) equation to its own input history, starting from rest, with the per-frame gain modulation applied, gains and forgetting factors expanded over modes as given, and with no influence of other channels. Disabling integration removes only the feedback terms; for dynamic filters a gain update takes effect from the frame that delivers it and a reset restarts the response from rest.",
  ["histories", "configurations"], "all coefficient sets, input, gain-modulation, gain-update and reset histories",
  "Tests use step or impulse inputs with a few coefficient sets; dynamic gain and reset are barely exercised.",
  ["specula/processing_objects/iir_filter.py", "specula/processing_objects/integrator.py", "specula/processing_objects/ssr_filter.py", "specula/processing_objects/dynamic_integrator.py", "specula/processing_objects/dynamic_iir_filter.py", "specula/data_objects/iir_filter_data.py", "specula/data_objects/ssr_filter_data.py"],
  [("trigger_code", "IirFilter, SsrFilter"), ("set_gain", "IirFilterData")], [("_ist, _ost, _x", "filter memory", "IirFilter, SsrFilter")], ["out_comm_no_delay"])

p("C15", "Detector and windowed integrations cover their windows exactly",
  "With noise disabled and an input refreshed in every step, each detector frame (binned pixels collecting the light of all their pixels) and each windowed average equals the sum over exactly the time steps of its window, weighted by the step duration, with frames published precisely at window ends counted from the start time. No step is lost, counted twice or carried into another window, nothing is integrated before the start time, and invalid windows are refused.",
  ["histories", "configurations"], "all input histories, window lengths, start times, binnings and run lengths",
  "Tests integrate one or two frames of constant light.",
  ["specula/processing_objects/ccd.py", "specula/processing_objects/windowed_integration.py"], [("trigger_code", "CCD, WindowedIntegration")], [("_integrated_i, integrated_value", "running sum", "CCD, WindowedIntegration")], ["out_pixels, integrated_i, output"])

p("C16", "Demodulation uses each window's samples once and only",
  "A demodulator publishes exactly at the end of each demodulation window, and what it publishes depends only on the samples received inside that window, each of which is used exactly once and for the selected modes in order.",
  ["histories", "configurations"], "all window lengths, sample histories, mode selections and run lengths",
  "Tests demodulate a single window of a pure tone.",
  ["specula/processing_objects/demodulator.py"], [("trigger_code, _perform_demodulation", "Demodulator")], [("data_history", "samples of the current window", "Demodulator")], ["output value and timestamp"])

p("C17", "Multirate control uses each sensor exactly when it is valid",
  "In every frame the multirate reconstructor uses the matrix configured for exactly the set of sensors that delivered new data, gives each of those sensors its own block's projection and all others zero, and fails if that set has no matrix. The complementary filter, run in every frame of its fast sensor, injects each slow sensor only in its own every-N-th frame with its configured weight, and (with separate inputs and validation on) refuses slow-sensor timing that contradicts the configured rates.",
  ["histories", "configurations"], "all sensor-rate patterns, masks, weights, slow-rate factors and histories",
  "Tests use two sensors and one rate.",
  ["specula/processing_objects/modalrec_multirate.py", "specula/processing_objects/multirate_complementary_filter.py"], [("trigger_code", "ModalrecMultirate, MultirateComplementaryFilter")], [("_frame_counter, _yf_prev", "frame number, previous fast input", "MultirateComplementaryFilter")], ["out_modes_i, out_comm_no_delay"])

p("C18", "Signal generators follow their declared schedule",
  "At every step a scheduled, push-pull, wave or time-history generator outputs exactly the value its declaration assigns to that step: the schedule entry whose interval contains the time, the documented push-pull sequence (mode order, amplitude signs, number of cycles and samples per push) up to its end, the sine, square or triangle wave value, or the recorded row with the declared behaviour past the end. The output carries the current timestamp at every step.",
  ["configurations", "histories"], "all schedules (including boundary times), push-pull options and run lengths",
  "Tests compare a few fixed sequences.",
  ["specula/processing_objects/schedule_generator.py", "specula/processing_objects/push_pull_generator.py", "specula/processing_objects/time_history_generator.py", "specula/processing_objects/wave_generator.py", "specula/lib/modal_pushpull_signal.py"],
  [("trigger_code", "generators"), ("modal_pushpull_signal", "specula/lib/modal_pushpull_signal.py")], [], ["output of the generators"])

p("C19", "Push-pull calibration builds the interaction matrix of the applied modes",
  "A push-pull generator moves the modes from the first declared one on, one at a time, with the declared pattern, amplitudes, cycles and samples. For any sensor response, the interaction matrix produced from such a sequence has, for each mode, the average over all pushes and pulls of the measured response divided by the applied amplitude, in the column of that mode, with idle steps (and steps in which the slopes were not refreshed) ignored and no mixing between modes or sensors; slope nulls are the slopes of the frame they are taken from and reconstructors the pseudo-inverse of the matrix. Existing calibration files are never overwritten unless asked to, and what is saved is what was measured.",
  ["histories", "configurations"], "all mode orders, amplitudes, cycle counts, first-mode offsets and multi-sensor set-ups",
  "Tests calibrate one regular sequence.",
  ["specula/processing_objects/im_calibrator.py", "specula/processing_objects/multi_im_calibrator.py", "specula/processing_objects/rec_calibrator.py", "specula/processing_objects/sn_calibrator.py"],
  [("trigger_code, finalize", "ImCalibrator, MultiImCalibrator")], [("_im, count_commands", "accumulated matrix and per-mode counts", "ImCalibrator")], ["output intmat and saved files"])

p("C20", "Long-exposure statistics average exactly the post-start steps",
  "Long-exposure PSF (also the coronagraphic one and the standard deviation, where computed), and its Strehl ratio, equal the mean of the instantaneous ones over exactly the steps at or after the start time in which the object ran, each counted once; before the start time nothing is accumulated and instantaneous outputs keep being published in every step the object runs.",
  ["histories", "configurations"], "all input histories, start times and run lengths",
  "Tests average identical frames, for which any weighting gives the same result.",
  ["specula/processing_objects/psf.py", "specula/processing_objects/psf_coronagraph.py"], [("trigger/post_trigger/finalize", "PSF")], [("count, int_psf", "number of frames, sum", "PSF")], ["out_int_psf, out_int_sr, out_psf"])

p("C21", "Frozen-flow turbulence moves by exactly wind times elapsed time",
  "In every step each turbulence layer shows its screen displaced by the accumulated wind displacement since the start (linear interpolation for fractional pixels, quarter-turn wind directions as rotations), independently of other layers, with changing wind speed integrated step by step, the time offset times the current wind speed added once, and a restart from the beginning of the screen before its end is exceeded; in the variant with separate up and down layers each direction follows its own offset.",
  ["histories", "configurations"], "all wind-speed histories, directions, time steps, offsets and run lengths beyond the wrap",
  "Tests check one displacement with constant wind.",
  ["specula/processing_objects/atmo_evolution.py", "specula/processing_objects/atmo_evolution_up_down.py"], [("trigger_code", "AtmoEvolution")], [("last_position", "accumulated displacement in pixels", "AtmoEvolution")], ["layer_list phases"])

p("C22", "Infinite phase screens shift without altering existing turbulence",
  "Every shift of an infinite phase screen by whole pixels keeps all surviving pixels bit-identical and moved by exactly that shift, adding only new rows or columns at the upwind edge (a line shown as entering is the line that then enters, and no line enters twice). In the evolution objects the displacement of each layer is wind times elapsed time plus the change of its time offset, the whole pixels of which are shifted and the rest carried over: the total number of shifts in each direction differs from the total displacement by less than a pixel, and equals its integer part while the wind does not reverse. With the wind along an axis the layer shows the screen interpolated at the carried fraction; nothing changes in steps in which the object does not run; the up and down layers of the two-direction variant show the same turbulence at their own offsets.",
  ["histories"], "all sequences of shifts in both axes and signs, all wind speed/direction histories",
  "Tests check statistics of a few screens.",
  ["specula/data_objects/infinite_phase_screen.py", "specula/processing_objects/atmo_infinite_evolution.py"], [("add_line, move_screen", "InfinitePhaseScreen"), ("trigger_code", "AtmoInfiniteEvolution")], [], ["screen contents after each move"])

p("C23", "Every display request is answered completely, in order, without side effects",
  "For every request from a client the display server delivers one answer per requested object, with the current data of that object, followed by exactly one end-of-answer mark, addressed to that client, in request order and without loss, duplication or mixing between clients. Serving requests never changes the simulation's objects or stops the simulation, even for unknown names or data that cannot be transferred.",
  ["schedules", "histories"], "all interleavings of client requests, simulation steps and the consumers of the answer channel",
  "Tests send one request at a time with mocks.",
  ["specula/processing_objects/display_server.py", "specula/lib/display_server_api.py"], [("trigger", "DisplayServer"), ("handle_responses, status_update", "display_server_api")], [], ["queues between simulation and web process"])

p("C24", "Copies of data objects are faithful and repeatable",
  "Transferring a data object into an existing copy makes every array (and the scalar of a value object), and the timestamp, of the copy equal to the source without changing the source or sharing memory with it, however often and in whatever order transfers and updates alternate. Setting a value on a data object copies it, so that later changes to the caller's array do not change the object.",
  ["histories", "inputs"], "all data classes and all interleavings of updates and transfers",
  "Tests transfer one object once.",
  ["specula/base_data_obj.py", "specula/base_value.py", "specula/connections.py", "specula/data_objects"], [("transferDataTo, copyTo", "BaseDataObj"), ("set_value", "data objects")], [], ["arrays of copies"])

p("C25", "Calibration and data objects survive saving and restoring",
  "For every data class that can be saved and restored, restoring a saved object yields the same arrays and the same descriptive attributes (those its file records in header and extensions), whatever its contents and options, a file is never silently overwritten where overwriting is off, and saving does not alter the object.",
  ["inputs", "histories"], "all savable classes, contents and option combinations, sequences of save, overwrite and restore",
  "Tests round-trip one instance per class with default options.",
  ["specula/data_objects", "specula/base_value.py"], [("save, restore, get_fits_header, from_header", "data object classes")], [], ["attributes after restore"])

p("C26", "Vector routing and arithmetic objects compute exactly the declared mapping",
  "Slicing, inserting, element-wise and constant operations, concatenation, mirror command combination and linear combination place every input element in exactly the declared output position with the declared arithmetic (one operation per object; missing elements of a shorter or remapped second operand count as 0, or 1 for a division), in every step, independently of earlier steps and without changing their inputs.",
  ["inputs", "configurations", "histories"], "all index/slice selections, operations, remaps and vector sizes, and input histories",
  "Tests check one example per operation.",
  ["specula/processing_objects/base_operation.py", "specula/processing_objects/base_slicer.py", "specula/processing_objects/base_inserter.py", "specula/processing_objects/mirror_commands_combinator.py", "specula/processing_objects/linear_combination.py"],
  [("trigger_code", "each class")], [], ["outputs"])

p("C27", "Modal reconstruction applies the configured matrices to current data",
  "The reconstructed modes equal the reconstruction matrix times the current slopes (concatenated in list order for several sensors); in pseudo-open-loop mode they equal projection times reconstruction of slopes plus the interaction matrix times the current commands, minus those commands, and are updated exactly when slopes are. Matrix truncation and selection options change only the rows or columns they name.",
  ["inputs", "histories", "configurations"], "all matrices, slope and command histories with stale and fresh inputs, truncation options",
  "Tests reconstruct one vector.",
  ["specula/processing_objects/modalrec.py", "specula/processing_objects/modalrec_implicit_polc.py", "specula/processing_objects/mvm.py", "specula/data_objects/recmat.py", "specula/data_objects/intmat.py"],
  [("prepare_trigger, trigger_code", "Modalrec")], [], ["out_modes, out_pseudo_ol_modes"])

p("C28", "Random streams depend only on their own seed",
  "Two runs of the same parameters give identical data, and the noise or turbulence an object produces is a function of its own seed and its own draw history only: adding, removing or reordering other objects, other consumers of random numbers, and phase screens stored by runs with other parameters do not change it; distinct seeds, layers and successive draws give distinct data.",
  ["configurations", "schedules"], "all seeds and all interleavings of other random consumers",
  "Tests fix one seed and one object at a time.",
  ["specula/processing_objects/random_generator.py", "specula/processing_objects/ccd.py", "specula/processing_objects/atmo_evolution.py", "specula/data_objects/infinite_phase_screen.py", "specula/processing_objects/vibration_generator.py"],
  [("per-instance random generators", "each class")], [], ["outputs"])

p("C29", "Optical propagation and sensor models are physically accurate",
  "Wavefront sensor intensities, propagated fields and PSFs agree with the underlying Fourier-optics equations within numerical precision, for all apertures, wavelengths and aberrations.",
  ["inputs"], "all apertures, wavelengths, aberrations and sampling choices",
  "Tests compare a few fields with analytic values.",
  ["specula/processing_objects/sh.py", "specula/processing_objects/modulated_pyramid.py", "specula/processing_objects/atmo_propagation.py", "specula/lib/calc_psf.py"],
  [("FFT propagation", "each sensor")], [], ["intensity outputs"])

p("C30", "Interactive calibrations obey their commands and use each frame once",
  "A dark frame is exactly zero, the frame that was loaded, or the mean of the N consecutive frames delivered from the step of its trigger on, N being the number commanded up to that step; a new trigger starts again, frames are counted once even when commands arrive between them, and until the acquisition is complete the previous dark frame stays. The outgoing frame is the last one delivered minus the dark frame of the beginning of the step. A pyramid pupil measurement uses the sum of exactly the frames since the previous measurement, with the thresholds and interval commanded so far; each pupil's centre, radius and pixels are those of its own quadrant, as declared, every pixel once; a failed measurement leaves the pupils as they were and is reported until one succeeds. Saving writes the current result under the given name and never replaces a file unless allowed. A command that cannot be obeyed (missing, unsuitable or existing file, malformed or non-positive value) changes nothing and does not end the simulation.",
  ["histories", "inputs", "configurations"], "all sequences of commands, in any combination and at any step, all refresh patterns of the frames, all images and thresholds",
  "Tests send one command to a calibrator that processes one or two frames.",
  ["specula/processing_objects/dynamic_dark_calibrator.py", "specula/processing_objects/pyr_pupdata_calibrator.py", "specula/processing_objects/dynamic_pyr_pupdata_calibrator.py", "specula/data_objects/pupdata.py", "specula/data_objects/pixels.py"],
  [("prepare_trigger, trigger_code, post_trigger", "DynamicDarkCalibrator, DynamicPyrPupdataCalibrator"), ("_analyze_pupils, _generate_indices", "PyrPupdataCalibrator")],
  [("counter, integrated_pixels", "frames still missing and their sum", "DynamicDarkCalibrator")], ["out_darkframe, out_subtracted_pixels, out_pupdata, out_params, saved files"])

p("C31", "Slopes are computed from each subaperture's own pixels of the current frame",
  "The signals of the slope computers are those declared, computed from the current frame only and from exactly the pixels of each subaperture or pupil: the (thresholded, weighted) centre of gravity of every Shack-Hartmann subaperture, the pupil differences of pyramid and roof divided by the declared normalisation or the relative intensities, the contrast of the curvature sensor's two frames, the thresholded signal of the Zernike sensor, the mean derivatives of the ideal sensor; followed by the declared slope null and filter matrix, in the declared (interleaved or not) order, together with the fluxes and subaperture counts. Weights derived from accumulated frames are those of the last completed window, and a weighting radius given as a function of time is that of the current time. Frames or subapertures without light give zero signals. The input frame is not changed, and nothing changes in steps without a new frame. The subapertures found by the calibrators are exactly the blocks with enough light. (Excluded: Gaussian weighting, the thr_ratio, pedestal and quadcell attributes, the Fourier method of CiaoCiao, and, for the ideal derivative sensor, subapertures next to dark ones.)",
  ["inputs", "histories", "configurations"], "all frames, thresholds, weights, subaperture and pupil geometries, normalisations, accumulation windows and refresh patterns",
  "Tests check a few frames and one window.",
  ["specula/processing_objects/sh_slopec.py", "specula/processing_objects/pyr_slopec.py", "specula/processing_objects/slopec.py", "specula/processing_objects/ideal_derivative_sensor.py", "specula/processing_objects/sh_subap_calibrator.py"],
  [("trigger_code, post_trigger", "slope computers"), ("trigger_code", "ShSubapCalibrator")], [], ["out_slopes, out_flux_per_subaperture, out_total_counts, out_subap_counts"])

p("C32", "Each source sees the layers on its own line of sight",
  "With geometric propagation the field of every source is the product of the amplitudes and the sum of the phases of all layers (common and atmospheric, in any order or number), each taken where the rays from that source to the pupil cross it: displaced by the source's direction times the projected height, the pupil's position and the layer's shift, turned by its rotation, scaled by the cone effect of finite sources and by the magnification, bilinearly interpolated and clamped at the border; sources above the field covered by a layer, or below it, are refused. Dark pixels of magnified layers take the mean of their neighbourhood. A deformable mirror shows sign times the commands (through the mode-to-command matrix, for the selected modes; missing commands are zero, exceeding ones ignored) times the influence functions on its mask, and nothing elsewhere. Fields are combined (phases and fluxes add, amplitudes multiply), reflected and flattened as declared. All this holds in every step from the current contents only; inputs are not changed (except dark pixels of magnified layers), and outputs change only in steps with new data. (Excluded: Fresnel propagation, chromatic shifts, mergeLayersContrib=False, magnifications below one, rectangular layers.)",
  ["inputs", "configurations", "histories"], "all sources, layer stacks, geometries, contents, mode selections and refresh patterns",
  "Tests check single layers with one source and approximate totals.",
  ["specula/processing_objects/atmo_propagation.py", "specula/processing_objects/dm.py", "specula/lib/interp2d.py", "specula/processing_objects/electric_field_combinator.py", "specula/processing_objects/electric_field_reflection.py", "specula/processing_objects/phase_flattening.py"],
  [("setup_interpolators, trigger_code", "AtmoPropagation"), ("trigger_code", "DM")], [], ["out_<source>_ef, out_layer, out_ef"])

p("C33", "Analysing other directions later gives what the run would have computed",
  "Every answer of the field analyser (PSFs and Strehl ratios, modal coefficients, phase cubes) for a direction, wavelength, start time and modal parameters equals what the run would have computed had a source in that direction, with that sensor or analysis, been part of it: whatever was recorded of it (commands of controllers or generators, atmospheric conditions) and re-created, wherever the run was moved to, whatever was asked before, in whatever order, by this or another analyser, and whichever result files exist already, however close the directions or parameters are to those of earlier requests. There is one answer for each direction, in order, reported with its own direction; times are those of the run, mean and variance are those of the coefficients; a forced request does not use earlier results. The analysis of a run whose replayed inputs were recorded only every few frames is refused. The files of the run do not change. (Excluded: two directions given as pairs, which the tests read as a 2xN array; the end time; pixel sizes closer than 0.01 mas; influence functions given as arrays; several data stores.)",
  ["histories", "inputs", "configurations"], "all recorded runs and all sequences of requests, with all parameters, and losses of result files between them",
  "Tests analyse one run once or twice with one pair of directions.",
  ["specula/field_analyser.py", "specula/simul.py", "specula/processing_objects/data_source.py", "specula/processing_objects/psf.py", "specula/processing_objects/modal_analysis.py"],
  [("compute_field_psf, compute_modal_analysis, compute_phase_cube", "FieldAnalyser"), ("build_targeted_replay", "Simul")], [("result files", "name -> result", "FieldAnalyser output directories")], ["returned dictionaries, files of the run"])

p("C34", "Detector frames are the declared conversion of the integrated light",
  "Each pixel of a detector frame is obtained from the light of all its (binned) pixels integrated over the frame, times the quantum efficiency, plus the background and dark levels that are enabled, passed through the charge-transfer matrices, and then, for each noise that is enabled and only for those, one draw for each pixel and frame from the generator with that noise's own seed: clock-induced charges with the declared probability, photons with the pixel's mean, amplification with the pixel's shape and the declared gain, unit normal read-out noise times its level (in amplified electrons behind an amplifier). Pixel gains follow. With photon noise the frame is converted to whole digital units with the declared gain and bias, cannot go below zero with the bias, and is converted back to photo-electrons without bias, amplification and the dark level that was added. A frame depends on nothing but its own light and draws, and stays unchanged until the next one. (Excluded: amplification without photon noise leaves amplified units, as a test expects; the distributions of the generators themselves; charge transfer on frames that are not square.)",
  ["inputs", "configurations", "histories"], "all combinations of noises, levels, gains, binnings and all frames and draws",
  "Tests compare the average of one frame with 10-20% tolerance.",
  ["specula/processing_objects/ccd.py", "specula/lib/rebin.py", "specula/data_objects/pixels.py", "specula/data_objects/intensity.py"],
  [("apply_binning, apply_qe, apply_noise", "CCD")], [], ["out_pixels, integrated_i"])

p("C35", "What a wavefront sensor shows depends only on the field in front of it",
  "The frame of a wavefront sensor or coronagraph is determined by its parameters and the field at its last trigger: it is the frame that a new sensor, alone in its process, would show of this field, whatever the sensor saw before and whichever other sensors of any size are built, set up or triggered, in whatever order; frames change only when a new field arrives, carry its time, and the field is left as it was. Frames count the light of the field (its flux times its lit area, times the fraction a pyramid declares to pass), in proportion to the flux. A piston or whole waves on single pixels are invisible to a Shack-Hartmann sensor, pyramid or Zernike sensor that does not interpolate. Composed sensors equal their parts: a distributed Shack-Hartmann sensor, however many slices, the undistributed one; a polychromatic sensor the sum of its monochromatic ones, weighted with the flux factors, each seeing the field with its own tilt; alternating modulation the vertical and horizontal one in turn; an extended source its points, weighted with their fluxes, in whatever batches they are processed; a transposed field gives the transposed frame; each lenslet shows what a single lenslet shows of its own patch, with the light of that patch if no light is lost, and a tilt of one pixel moves its spot by one pixel in that direction.",
  ["histories", "inputs", "configurations"], "all sequences of fields, all sets of sensors and all orders of building and triggering them",
  "Tests build one sensor and check its total flux or a single spot position; sharing of work arrays needs several sensors of related sizes.",
  ["specula/processing_objects/sh.py", "specula/processing_objects/distributed_sh.py", "specula/processing_objects/poly_chrom_wfs.py", "specula/processing_objects/modulated_pyramid.py", "specula/processing_objects/modulated_double_roof.py", "specula/processing_objects/zernike_sensor.py", "specula/processing_objects/curvature_sensor.py", "specula/processing_objects/ciao_ciao_sensor.py", "specula/processing_objects/abstract_coronagraph.py", "specula/processing_objects/ext_source_pyramid.py", "specula/processing_objects/focal_plane_filter.py", "specula/processing_objects/apodizer_coronagraph.py", "specula/lib/extrapolation_2d.py"],
  [("trigger_code", "SH"), ("trigger_code", "ModulatedPyramid"), ("prepare_trigger", "PolyChromWFS"), ("post_trigger", "DistributedSH")], [], ["out_i, out_slopes, out_ef, their generation times"])

p("C36", "Estimated gains, modes, screens and spots are those of the signals seen",
  "The optical gain is multiplied by 1 - (1 - d/c) k exactly at the steps where both demodulated signals are new and the command is not zero, whatever the type of its initial value, and what is given out is this gain limited to one. The gain optimiser changes the gains of its filter only at multiples of its interval and only when it has seen at least two frames; the gain of each mode is then the one of its grid that minimises the rejected pseudo open loop signal (previous command plus new increment) of the whole history, approached from the previous gain by the allowed fraction, scaled by the last change of the optical gain and by the safety factor, and never above the declared fraction of the largest stable gain. Modal analysis gives the least squares coefficients of every field it is given, for a single field, a list or both, and for wrapped phases those of the phase without its mean as long as neighbouring pixels of a full aperture differ by less than half a wave. The screen of a phase cube is interpolated linearly between the two frames around its time for every output, with the amplitude of the pupil, and times outside the cube are refused. The spot monitor shows the sum of all valid subapertures, model plus residual is this sum, and its quality and width are those of the model. All outputs carry the time of the step at which they changed and change at no other.",
  ["histories", "inputs", "configurations"], "all sequences of fresh and stale signals and all signals, bases, cubes and images",
  "Tests run one configuration each with a single field, always fresh signals and averages with wide tolerances.",
  ["specula/processing_objects/optical_gain_estimator.py", "specula/processing_objects/gain_optimizer.py", "specula/processing_objects/modal_analysis.py", "specula/processing_objects/phase_screen_cube.py", "specula/data_objects/spatio_temp_array.py", "specula/processing_objects/spot_monitor.py"],
  [("trigger_code", "OpticalGainEstimator"), ("trigger_code, post_trigger", "GainOptimizer"), ("trigger_code", "ModalAnalysis"), ("prepare_trigger, trigger_code", "PhaseScreenCube"), ("trigger_code", "SpotMonitor")],
  [("gain", "optical gain estimate and its output", "OpticalGainEstimator"), ("gain", "gains of the filter, history of increments and commands", "GainOptimizer")], ["outputs and their generation times, gains of the filter data"])

p("C37", "Masks, modes, influence functions and reconstructors follow their definition",
  "make_mask lights exactly the pixels whose centre lies in the declared disc or square and outside its obstruction, for every size, centre and diameter, inverted if asked, dark under spider arms of the declared width and directions and unchanged away from them, and the indexes returned are those of its pixels. toccd spreads the light of every pixel over the areas of the new pixels and keeps the total (or gives the total asked for), rebin2d gives block means or the pixels underneath, for all sizes. The Zernike generator numbers, evaluates and differentiates the polynomials as Noll defines them, whatever was asked from it before, zero outside the disc; the Zernike influence functions have zero mean and unit rms on their pupil and consist of the polynomials up to their own from the starting mode on. Zonal influence functions are one at their own actuator and zero at the others (plus the declared coupling to neighbours within one and two steps), with the actuators at their declared places in square, round and ring patterns; with slaving exactly the actuators that reach the threshold on the pupil are kept, the others follow the mean of their neighbours, or continue the plane of the masters within the search radius, and the functions kept are those of the master plus its share of the slaves. Petals partition the pupil in the declared sectors, with the spider arms between them, centroids and tilts of zero mean and unit rms of their own. n_phot gives the flux and the sky of the declared or nearest band for any magnitude, width, time and surface. The MMSE reconstructor W fulfils W (A Cx A' + Cz) = Cx A', however the covariances are given. The modal base has orthonormal modes without piston and without the modes filtered out. Spatial frequencies, radial profiles and encircled energies are those of the pixels at their distances.",
  ["inputs", "configurations", "histories"], "all sizes, centres, diameters, obstructions, numbers of actuators and petals, thresholds, matrices, bands and images, and all orders of requests to a Zernike generator",
  "Tests check shapes, symmetries and a few fixed sizes; most sizes, offsets, thresholds and combinations of options are never run.",
  ["specula/lib/make_mask.py", "specula/lib/rebin.py", "specula/lib/toccd.py", "specula/lib/zernike_generator.py", "specula/lib/compute_zern_ifunc.py", "specula/lib/compute_zonal_ifunc.py", "specula/lib/compute_petal_ifunc.py", "specula/lib/n_phot.py", "specula/lib/mmse_reconstructor.py", "specula/lib/modal_base_generator.py", "specula/lib/calc_spatialfrequency.py", "specula/lib/radial_profile.py"],
  [("make_mask", "make_mask.py"), ("toccd", "toccd.py"), ("rebin2d", "rebin.py"), ("getZernike, getDerivativeX, getDerivativeY, degree", "ZernikeGenerator"), ("compute_zern_ifunc", "compute_zern_ifunc.py"), ("compute_zonal_ifunc, apply_slaving", "compute_zonal_ifunc.py"), ("compute_petal_ifunc", "compute_petal_ifunc.py"), ("n_phot", "n_phot.py"), ("compute_mmse_reconstructor", "mmse_reconstructor.py"), ("make_modal_base_from_ifs_fft", "modal_base_generator.py")],
  [("caches", "polynomials and derivative coefficients kept by the generator", "ZernikeGenerator")], ["arrays returned"])

p("C38", "Extended sources, user inputs and link geometry follow their declaration",
  "An extended source is the list of points that its description defines, for every size, sampling, wavelength and telescope: a single point; the odd points of a square grid inside the disc; a centre and concentric circles with as many equally spaced points as their circumference holds; or the pixels of a PSF read bilinearly around its central pixel (a star there is a source on the axis). Points share the light equally, as the Gaussian of the declared width or as the PSF, and the shares add up to one; each carries the tip and tilt of its angle. With layers there is one such pattern per layer, moved by the tip and tilt of the layer, with the focus of its height (at the zenith angle) relative to the focal one and the intensity of the layer as its flux. A flux threshold drops exactly the points that do not exceed this fraction of the mean flux and changes no other. A new PSF, of any size, replaces the source in the step in which it arrives (cropped or padded about its centre to the initial size if asked), a null one or none leaves it as it was, undated; arrays given by the user are not modified. Values given by the user while the simulation runs reach the named outputs in order, the last before a step wins and is dated with this step, other outputs keep value and date, unknown names disturb nothing. The effective wind of a layer is the vector sum of its wind and of the slewing of the line of sight at its height, with its direction, and the delays of up- and downlink are the light travel times at the airmass.",
  ["inputs", "configurations", "histories"], "all sizes, samplings, layers, PSFs, thresholds and sequences of updates, and all sequences of values and steps",
  "Tests check that points exist and that fluxes are positive for one or two sizes; values of a queue, several layers, updates of other sizes and oblique winds are not run.",
  ["specula/processing_objects/extended_source.py", "specula/processing_objects/specula_input.py", "specula/lib/fsoc_lib.py"],
  [("compute, _compute_2d, _compute_3d, trigger", "ExtendedSource"), ("trigger_code", "SpeculaInput"), ("calc_effective_wind_speed, calc_timing_uplink_downlink", "fsoc_lib.py")],
  [("psf", "current PSF of the source", "ExtendedSource"), ("q", "queue of values from the user", "SpeculaInput")], ["outputs and their generation times"])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P), 'properties')
