#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/props.py` after editing.

A property is claimed as soon as checks/<ID>_*.py exists."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "src/aihwkit/simulator/tiles/"
R = "src/rpucuda/"
O = "src/aihwkit/"
PROPS = []


def P(pid, title, statement, over, text, why, files, mech, technique, note, state=()):
    PROPS.append(dict(
        p=dict(id=pid, title=title, statement=" ".join(statement.split()),
               quantifier=dict(over=over, text=" ".join(text.split())),
               why_tests_cant=" ".join(why.split()),
               anchors=dict(files=files,
                            **({"state": [dict(name=n, meaning=m) for n, m in state]} if state else {}),
                            mechanism=[dict(name=n, where=w) for n, w in mech])),
        technique=technique, note=" ".join(note.split())))


P("P01", "A perfect analog layer computes exactly its digital layer",
  """With perfect forward/backward passes (or disabled non-idealities) every analog layer returns, up to
  float rounding, what the digital layer with the same logical weight, bias, output scales and
  geometry returns, for every input shape, batch layout, tile mapping, transposition and bias placement.
  The same holds for the input gradient. An empty input, a non-contiguous input and repeated calls give
  the digital result too.""",
  ["inputs", "configurations"],
  "all layer kinds (linear, conv1d/2d/3d, mapped and indexed variants), tile kinds, mapping parameters, input shapes/strides, weights and scales",
  "The tests use a handful of fixed shapes on square-ish layers; layout, tile-splitting, scale and transposition combinations multiply.",
  [T + "base.py", T + "module.py", T + "array.py", T + "rpucuda.py", O + "nn/modules/conv.py",
   O + "nn/modules/linear.py", O + "nn/modules/conv_mapped.py", T + "functions.py",
   R + "rpu.cpp", R + "utility_functions.h", O + "simulator/rpu_base_src/rpu_base_tiles.cpp"],
  [("tile forward/backward and bias/scale handling", T + "base.py"), ("tile array splitting", T + "array.py"),
   ("indexed convolution", R + "rpu.cpp")],
  "runtime monitor: differential oracle (independent torch reference) over generated workloads",
  "Float tolerance scaled with the operand size; sampled configurations.")

P("P02", "Weights written to an analog layer are the weights read back",
  """Setting the weights and bias of an analog layer or tile and reading them returns the same logical values
  (exactly up to float rounding when the device can represent them), for every mapping parameter, tile
  split, weight scaling mode and bias placement, and the forward pass uses those values.
  Reading never changes what a later read or forward returns, and the returned tensors are copies
  that do not alias the tile.""",
  ["inputs", "histories", "configurations"],
  "all tile kinds, mapping parameters, weight magnitudes (including zero rows, tiny and huge), histories of set/get/remap/scale operations",
  "Tests check single set/get pairs with moderate weights; aliasing and history effects are not sampled.",
  [T + "base.py", T + "module.py", T + "array.py", T + "rpucuda.py", O + "nn/modules/base.py"],
  [("apply_weight_scaling / get_weights", T + "base.py"), ("read_weights / program_weights realistic", T + "base.py")],
  "runtime monitor: model-based oracle over operation histories",
  "Logical weight model kept by the monitor; device ranges chosen so weights are representable.")

P("P03", "Analog training with an ideal device equals digital SGD",
  """Training analog layers whose passes and device are ideal, with the analog optimizer, follows the
  trajectory of torch SGD on the digital network with the same logical weights, for every layer kind, tile mapping,
  learning rate, number of steps, batch shape, layer reuse, gradient accumulation and frozen part.
  Weights that receive no gradient stay unchanged, and one optimizer step consumes
  exactly the gradients collected since the last step or reset.""",
  ["programs", "histories", "configurations"],
  "generated networks, training histories (forward/backward/step/zero_grad interleavings), learning rates, scales",
  "Tests compare single steps on single layers; reuse, accumulation, interleaving with zero_grad and mixed shapes are not sampled.",
  [O + "optim/analog_optimizer.py", T + "functions.py", O + "optim/context.py", T + "base.py", T + "rpucuda.py",
   T + "inference.py", T + "inference_torch.py", R + "rpu.cpp"],
  [("gradient trace and update", O + "optim/analog_optimizer.py"), ("autograd function", T + "functions.py")],
  "runtime monitor: lock-step digital twin",
  "The twin's gradient is scaled by 1/s^2-compensation semantics of the mapping scales; sampled programs.")

P("P04", "Device weights always stay inside their device bounds",
  """Whatever is done to an analog tile (updates with any pulse type, learning rate or gradient size, setting weights, decay,
diffusion, drift, clipping, column reset, programming, loading), each weight stays finite and within the conductance bounds
reported for its own crosspoint (before write noise; with a reference device: weight or weight plus reference within the bounds).
A crosspoint whose bounds coincide never moves, decay, reset, clip and drift move each weight as its own parameters
define, and crosspoint parameters never change except by an explicit set.""",
  ["histories", "inputs", "configurations"],
  "all pulsed devices and compound devices built from them, with device-to-device and cycle-to-cycle variation; arbitrary operation histories",
  "Bounds must hold after every operation of every history; tests sample a few updates with one device each.",
  [R + "rpu_pulsed_device.cpp", R + "rpu_pulsed_device.h", R + "rpu_constantstep_device.cpp", R + "rpu_linearstep_device.cpp",
   R + "rpu_softbounds_reference_device.cpp", R + "rpu_expstep_device.cpp", R + "rpu_powstep_device.cpp",
   R + "rpu_powstep_reference_device.cpp", R + "rpu_piecewisestep_device.cpp", R + "rpu_vector_device.cpp",
   R + "rpu_onesided_device.cpp", R + "rpu_transfer_device.cpp", O + "simulator/configs/devices.py"],
  [("onSetWeights / doUpdate clipping", R + "rpu_pulsed_device.cpp")],
  "runtime monitor: invariant checker on hooked device state after every operation",
  "Bounds are read from the tile's own hidden parameters, cross-checked for constancy; sampled histories.",
  [("hidden parameters", "per-crosspoint bounds and step sizes reported by the tile"), ("weight", "device weight")])

P("P05", "Pulsed updates move weights as the device model says",
  """A pulsed update changes a crosspoint only if both its row and its column receive non-zero signals, always in the
  gradient-descent direction, by at most the pulse budget times the step of that crosspoint, and (for deterministic pulse trains)
  exactly by the documented step sequence of the device model. The expected change equals the outer product
  times the learning rate for a linear device well inside its range.""",
  ["inputs", "histories", "configurations"],
  "pulse types, bl settings and update management, devices, input patterns (zeros, saturating, tiny, batched), learning rates",
  "Statistical and per-crosspoint exactness over all pulse types/devices is not decided by fixed-seed samples.",
  [R + "rpu_weight_updater.cpp", R + "sparse_bit_line_maker.cpp", R + "dense_bit_line_maker.cpp", R + "rpu_pulsed_device.cpp", R + "rpu_pulsed.cpp",
   R + "rpu_constantstep_device.cpp", R + "rpu_linearstep_device.cpp", R + "rpu_powstep_device.cpp", R + "rpu_expstep_device.cpp"],
  [("bit line maker", R + "sparse_bit_line_maker.cpp"), ("device step", R + "rpu_linearstep_device.cpp")],
  "runtime monitor: independent step-model oracle per crosspoint plus statistical oracle",
  "Deterministic cases exact up to float rounding; statistical cases at > 6 sigma over enlarged samples.")

P("P06", "Analog MVM non-idealities follow the documented IO model",
  """With noise switched off, forward and backward of a tile equal an independent implementation of the documented
  IO chain (noise/bound management, input clipping and quantization, output quantization, non-linearity and clipping, scaling), for every parameter setting
  and input. The compiled tile and the torch tile agree on every setting both support.
  Outputs never exceed the configured output bound unless bound management rescales.""",
  ["inputs", "configurations"],
  "IO parameter space (resolutions, bounds, all management types, s-shape/IR-drop, v-offset...), input distributions including zero/huge/mixed rows",
  "The combination space of IO parameters is large and the tests compare only selected settings statistically.",
  [R + "rpu_forward_backward_pass.cpp", R + "rpu_forward_backward_pass.h", R + "utility_functions.h",
   T + "analog_mvm.py", T + "analog_mvm_irdrop_t.py", O + "simulator/parameters/io.py"],
  [("forward pass with management", R + "rpu_forward_backward_pass.cpp"), ("torch AnalogMVM", T + "analog_mvm.py")],
  "runtime monitor: differential oracle (independent numpy model) and tile-vs-tile agreement",
  "Inputs kept off quantization ties by margin; sampled parameters.")

P("P07", "Noise terms have the configured distribution",
  """Every stochastic term of the MVM, the weight modifier and the device (input/output/weight noise, stochastic rounding, multiplicative noise,
  device-to-device and cycle-to-cycle variation, diffusion, write noise) has the mean, the standard deviation and the independence its parameters
  promise, over rows, columns, batches and repeated calls. Zero configured strength means exactly no randomness.""",
  ["inputs", "configurations"],
  "noise parameters, tile kinds, positions within the output, repeated evaluation",
  "Tests pin one seed or check loose statistics at one parameter point.",
  [R + "rpu_forward_backward_pass.cpp", R + "rng.h", T + "analog_mvm.py", O + "simulator/noise_models.py", R + "weight_modifier.cpp",
   R + "rpu_pulsed_device.cpp"],
  [("noise injection", R + "rpu_forward_backward_pass.cpp"), ("noise injection (torch)", T + "analog_mvm.py")],
  "runtime monitor: statistical test oracle with corrected thresholds",
  "Two-stage tests: a deviation is reported only when it is confirmed with a larger fresh sample (error < 1e-7).")

P("P08", "A checkpoint restores the complete model state",
  """A state dict, torch.save file or pickle of an analog model (and of its analog optimizer) loaded into a fresh model of the same configuration
  gives the same weights, scales, input ranges, hidden device parameters, drift compensation and shared weights (a pickled model also its programmed state), with the same perfect-forward outputs, and training continues
  with the same deterministic trajectory as the model that was saved. Saving does not change the saved model,
  and a mismatching or corrupt state is refused with an exception.""",
  ["histories", "configurations", "crash_points"],
  "model kinds and devices, save points anywhere within a training/programming history, load targets and load options",
  "Tests save after one or two steps for few devices; continued histories after loading are not compared.",
  [T + "base.py", T + "module.py", T + "rpucuda.py", T + "inference.py", T + "inference_torch.py", T + "custom.py", T + "transfer.py",
   O + "nn/modules/base.py", O + "optim/context.py", O + "simulator/rpu_base_src/rpu_base_tiles.cpp", R + "rpu_pulsed.cpp", R + "rpu_vector_device.cpp",
   R + "rpu_transfer_device.cpp"],
  [("__getstate__/__setstate__", T + "base.py"), ("dump_extra/load_extra", R + "rpu_pulsed.cpp")],
  "runtime monitor: record/replay oracle (original vs restored continue in lock step)",
  "Deterministic pulse types and zero-noise passes make the continuation comparable exactly; sampled histories.")

P("P09", "Copies of analog modules are equal and independent",
  """A deep copy of an analog model or tile, at any point of its history, equals the original in weights, hidden state and outputs,
  and nothing done to either afterwards (training, programming, drifting, remapping, scaling) is visible in the other.
  Both keep working with optimizers of their own.""",
  ["histories", "configurations"],
  "model/tile kinds, devices, copy points in a history, operations afterwards",
  "Aliasing shows only when an operation follows the copy; tests copy once and compare.",
  [T + "base.py", T + "rpucuda.py", T + "inference_torch.py", T + "custom.py", T + "transfer.py", O + "optim/context.py", R + "rpu.cpp", R + "rpu_pulsed.cpp"],
  [("tile deepcopy / setstate", T + "base.py"), ("C++ copy constructors", R + "rpu_pulsed.cpp")],
  "runtime monitor: twin-state oracle over histories",
  "Sampled histories; compares all observable state.")

P("P10", "The analog context and weight views stay coherent with the tile",
  """The analog parameter of a layer always stands for its own tile (also after moves, copies, loading and conversion), is never changed by digital optimizers
  or torch in-place operations, and read-only weight views always show the tile's current weights and refuse writes.
  Traced inputs and gradients hold exactly what the passes since the last reset produced.""",
  ["histories", "programs"],
  "operation histories on contexts, views, models",
  "Guards must hold for every in-place operation and history; tests check a few.",
  [O + "optim/context.py", O + "optim/weight_view.py", O + "nn/modules/base.py", T + "base.py"],
  [("AnalogContext", O + "optim/context.py"), ("read-only view", O + "optim/weight_view.py")],
  "runtime monitor: coherence checker hooked on context and tile",
  "Enumerates torch in-place operators; sampled histories.")

P("P11", "Conversion between digital and analog models preserves the network",
  """Converting a model to analog replaces exactly the modules that the mapping, exclusion and specific-config arguments select, keeps names, parameters, buffers, training mode and dtype of everything else,
  and keeps the function of the network when the analog passes are perfect; converting back to digital restores the original
  layer types, geometry and weights. The source model is untouched unless in-place conversion is requested.""",
  ["programs", "configurations"],
  "generated nested models, conversion maps, exclusions, in-place flags, mapping parameters",
  "Tests convert a few fixed models; nested containers, shared modules and option combinations are not sampled.",
  [O + "nn/conversion.py", O + "nn/modules/base.py", O + "nn/modules/container.py", O + "nn/modules/linear.py", O + "nn/modules/conv.py"],
  [("convert_to_analog", O + "nn/conversion.py"), ("from_digital / to_digital", O + "nn/modules/linear.py")],
  "runtime monitor: structural and functional differential oracle",
  "Sampled models.")

P("P12", "The analog optimizer drives every tile with its own group's settings",
  """Each optimizer step updates every analog tile exactly once with the learning rate of its own parameter group (following schedulers), updates digital parameters exactly as the wrapped digital optimizer does,
  calls the post-update step of every tile once, and keeps group options across regrouping, saving and loading.
  Tiles without gradients, frozen tiles and closures are treated like torch treats parameters.""",
  ["histories", "programs", "configurations"],
  "optimizers (SGD, AdamW, generic analog wrappers), group layouts, schedulers, closures, freezing, state dict round trips",
  "Tests use one group and constant learning rate.",
  [O + "optim/analog_optimizer.py", O + "optim/context.py", T + "base.py"],
  [("AnalogOptimizerMixin.step", O + "optim/analog_optimizer.py")],
  "runtime monitor: event log of tile calls checked against an optimizer reference",
  "Wraps tile methods on instances to record calls; sampled histories.")

P("P13", "Inference programming, drift and compensation follow the models",
  """Programming and drifting change weights exactly as the configured noise model defines: zero-noise models keep the weights, drift follows the power law from the programmed state (independent of earlier drift calls and of call order),
  conductance converters invert their own mapping inside their range, global drift compensation restores the reference output scale,
  and user-provided tensors are never modified. Results do not depend on anything but the programmed weights, the time and the noise draw, and never become NaN.""",
  ["inputs", "histories", "configurations"],
  "noise models, converters, weights (zero, constant, saturating), times (increasing, decreasing, zero, huge), call histories",
  "Tests check that calls run or single values; history independence and extremes are not sampled.",
  [O + "inference/noise/base.py", O + "inference/noise/pcm.py", O + "inference/noise/reram.py", O + "inference/noise/custom.py",
   O + "inference/converter/conductance.py", O + "inference/compensation/drift.py", T + "inference.py", T + "inference_torch.py", O + "inference/utils.py"],
  [("program_weights/drift_weights", T + "inference.py"), ("apply_noise", O + "inference/noise/base.py")],
  "runtime monitor: independent reference model plus metamorphic history checks",
  "Randomness replayed by re-seeding; sampled configurations.")

P("P14", "Weight modifiers, clipping and remapping act as documented",
  """Hardware-aware weight modifiers change only the forward (and, when enabled, the backward) weights and never the stored ones, with the documented kind, scale and per-column assumptions; the stored weights are recovered
  exactly after each mini-batch and in evaluation mode. Clipping yields the documented bounds, and remapping changes the scales but never the logical weights.""",
  ["inputs", "histories", "configurations"],
  "modifier types and parameters, clip types, remap types, weight patterns incl. zero columns, train/eval histories, both inference tile kinds",
  "Tests check single draws with loose statistics.",
  [R + "weight_modifier.cpp", R + "weight_clipper.cpp", R + "weight_remapper.cpp", O + "simulator/tiles/inference.py", T + "inference_torch.py",
   O + "simulator/parameters/inference.py"],
  [("WeightModifier", R + "weight_modifier.cpp"), ("WeightClipper", R + "weight_clipper.cpp")],
  "runtime monitor: independent reference plus stored-weight invariants over histories",
  "Statistics at > 6 sigma with confirmation; sampled histories.")

P("P15", "Input range learning clips, scales and adapts as documented",
  """With input ranges enabled, the layer output equals the reference (inputs clipped to and scaled by the range), the range is initialised from data exactly as configured, decays and learns with the documented gradient,
  does not change in evaluation mode, and stays positive and finite; calibration leaves the range its data implies and the model otherwise unchanged.""",
  ["inputs", "histories", "configurations"],
  "input range parameters, input statistics, train/eval histories, layer and tile kinds, calibration modes",
  "Only a few fixed distributions are tested.",
  [T + "base.py", T + "inference.py", T + "inference_torch.py", O + "inference/calibration/calibration.py", O + "simulator/parameters/pre_post.py"],
  [("init/apply input range", T + "base.py")],
  "runtime monitor: lock-step reference model of the range",
  "Sampled histories.")

P("P16", "Compound devices keep weight equal to their hidden weights' combination",
  """For every compound device (vector, one-sided, transfer family, mixed precision, difference), the visible weight always equals the documented combination of its hidden weights after any operation; transfers occur exactly at the configured
  schedule and move only what the device defines, and setting visible or hidden weights keeps the combination.""",
  ["histories", "configurations"],
  "compound devices and parameters, operation histories, hidden-parameter edits",
  "Must hold after each step of any history; tests check isolated settings.",
  [R + "rpu_vector_device.cpp", R + "rpu_onesided_device.cpp", R + "rpu_transfer_device.cpp", R + "rpu_chopped_transfer_device.cpp",
   R + "rpu_dynamic_transfer_device.cpp", R + "rpu_buffered_transfer_device.cpp", R + "rpu_mixedprec_device.cpp", R + "rpu_mixedprec_device_base.cpp"],
  [("reduceToWeights", R + "rpu_vector_device.cpp"), ("transfer", R + "rpu_transfer_device.cpp")],
  "runtime monitor: invariant checker and schedule reference model",
  "Sampled histories with deterministic inner devices.")

P("P17", "Low-precision modules quantize exactly as configured",
  """Quantized modules and tile arrays produce outputs on the grid implied by their bit width and range, round to nearest, clip exactly at the range, and equal the float module when quantization is off. Range estimators report the documented
  statistic of what they saw, are frozen outside estimation, and survive state dict round trips, and gradients follow the straight-through rule.""",
  ["inputs", "histories", "configurations"],
  "bit widths, symmetric/asymmetric, per-channel, estimators, modules, state transitions",
  "Tests check a couple of fixed settings.",
  [O + "simulator/digital_low_precision/quantizers.py", O + "simulator/digital_low_precision/quantization_manager.py",
   O + "simulator/digital_low_precision/range_estimators.py", O + "nn/low_precision_modules/quantized_base_modules.py", T + "quantized_inference_torch.py"],
  [("uniform quantizers", O + "simulator/digital_low_precision/quantizers.py"), ("range estimation", O + "simulator/digital_low_precision/range_estimators.py")],
  "runtime monitor: independent quantizer reference and grid invariants",
  "Sampled configurations; comparisons stay off rounding ties.")

P("P18", "Configuration objects reach the simulator unchanged",
  """Every field set in a Python configuration arrives with the same value in the bound simulator parameters, and changing it changes what the tile does; presets construct working tiles; printing, copying, comparing and pickling configurations preserve them. An unknown field of a parameter set handed to the simulator, or a
  combination the tile cannot simulate, is refused, and building a tile never modifies the configuration it was given nor shares mutable state between tiles.""",
  ["configurations"],
  "all configuration classes, all fields with random values, all presets, all device/IO/update/mapping combinations",
  "Tests enumerate default values only.",
  [O + "simulator/configs/configs.py", O + "simulator/configs/devices.py", O + "simulator/configs/compounds.py", O + "simulator/parameters/base.py",
   O + "simulator/parameters/helpers.py", O + "simulator/presets/configs.py", O + "simulator/rpu_base_src/rpu_base_devices.cpp"],
  [("parameters_to_bindings", O + "simulator/parameters/helpers.py"), ("bindings", O + "simulator/rpu_base_src/rpu_base_devices.cpp")],
  "runtime monitor: field-by-field round-trip oracle over generated configurations",
  "Field enumeration by dataclass introspection.")

P("P19", "Cloud converters round-trip experiments",
  """Converting an experiment (architecture, data set, optimizer settings, RPU configuration presets, noise model and analog info) to its exchange format and back gives an equivalent experiment: same layers with the same geometry, parameters and order, same training and inference settings (the loss of inference experiments is not part of the format).
  Anything not representable is refused with an exception, never silently dropped.""",
  ["programs", "configurations"],
  "generated sequential architectures, presets, training and inference settings",
  "Tests round-trip a handful of fixed networks.",
  [O + "cloud/converter/v1/training.py", O + "cloud/converter/v1/inferencing.py", O + "cloud/converter/v1/mappings.py",
   O + "cloud/converter/v1/rpu_config_info.py", O + "cloud/converter/v1/noise_model_info.py", O + "cloud/converter/v1/analog_info.py"],
  [("to_proto / from_proto", O + "cloud/converter/v1/mappings.py")],
  "runtime monitor: round-trip oracle over generated experiments",
  "Sampled experiments.")

P("P20", "The compiled simulator is memory safe for any call",
  """No sequence of calls into the compiled tiles and operators, with valid or invalid shapes, dtypes, strides, sizes or parameters, reads or writes outside its buffers, uses freed or uninitialised objects, or executes undefined behaviour.
  Invalid arguments raise a Python exception and leave the tile usable.""",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "operation sequences incl. malformed arguments on all bound classes",
  "Ordinary tests run without sanitizers and with valid shapes only.",
  [O + "simulator/rpu_base_src/rpu_base_tiles.cpp", O + "simulator/rpu_base_src/rpu_base_devices.cpp", R + "rpu.cpp", R + "rpu_pulsed.cpp",
   R + "rpu_weight_updater.cpp", R + "utility_functions.h"],
  [("argument checks", O + "simulator/rpu_base_src/rpu_base_tiles.cpp")],
  "AddressSanitizer + UndefinedBehaviorSanitizer under generated API sequences",
  "Trusts the sanitizers; sampled sequences.")

P("P21", "Seeds reproduce runs and evaluation leaves state unchanged",
  """A construction seed fixes the device-to-device variations of a tile, and a run with all generators seeded (the torch seed for torch-implemented tiles) gives bit-identical results for the same calls, for training, programming and inference, independent of earlier activity, other tiles and thread count; distinct tiles draw distinct variations unless the same construction seed is set, and working on one tile or copy never changes another.
  Evaluation-mode forward passes, statistics, printing and reading change no weight, scale, hidden parameter or counter.""",
  ["histories", "schedules", "configurations"],
  "seeds, tile kinds, devices, call histories, interference by other tiles",
  "Tests run a call once; interference and state-mutation are not observed.",
  [R + "rng.cpp", R + "rng.h", R + "rpu_pulsed.cpp", R + "rpu_pulsed_device.cpp", T + "rpucuda.py", O + "nn/modules/base.py"],
  [("seeding", R + "rng.cpp"), ("is_test handling", T + "base.py")],
  "runtime monitor: replay oracle and state snapshots",
  "Seed source includes the clock, which the harness pins in its own build.")

P("P22", "Analog recurrent layers equal their digital recurrent networks",
  """With perfect passes, analog RNN, LSTM and GRU stacks (uni/bidirectional, any number of layers, any sequence length and batch size, with or without given initial states and bias) produce the outputs, final states and gradients of the corresponding
  torch recurrent layers with the same weights.""",
  ["inputs", "configurations"],
  "cell kinds, depths, directions, sequence lengths, chunks, initial states, dropout placement",
  "Tests use a few shapes and mostly compare analog with analog.",
  [O + "nn/modules/rnn/rnn.py", O + "nn/modules/rnn/layers.py", O + "nn/modules/rnn/cells.py"],
  [("cells", O + "nn/modules/rnn/cells.py"), ("layer loops", O + "nn/modules/rnn/layers.py")],
  "runtime monitor: differential oracle against torch recurrent layers",
  "Sampled configurations; float tolerance.")

P("P23", "Analog matrix, export, fitting and analysis utilities are correct",
  """An analog matrix multiplies (both ways, vectors and matrices) and converts like the dense matrix it represents; exported and re-imported
  conductance data and fitted or reported quantities (tile counts, utilisation, operation counts) equal what the model contains.""",
  ["inputs", "configurations"],
  "matrices, shapes, device configs, generated networks",
  "Tests check one small instance each.",
  [O + "linalg/matrix.py", O + "utils/export.py", O + "utils/fitting.py", O + "utils/analog_info.py"],
  [("AnalogMatrix", O + "linalg/matrix.py"), ("analog info", O + "utils/analog_info.py")],
  "runtime monitor: differential oracle against independent computation",
  "Sampled instances.")

P("P24", "Extension operators equal their mathematical definitions",
  """The reduced-precision cast, the IR-drop/Thevenin equivalent circuit and the other compiled extension operators equal independent
  evaluation of their definitions for every input, including zeros, infinities, denormals, ties, non-contiguous layouts and empty tensors, and never modify their inputs.""",
  ["inputs"],
  "value patterns, exponent/mantissa widths, circuit parameters, shapes and strides",
  "Tests sample few values; special values and layouts are not covered.",
  [O + "extension/functions.py", O + "extension/extension_src/aihwkit_extension.cpp"],
  [("operators", O + "extension/functions.py")],
  "runtime monitor: bit-exact reference oracle",
  "Sampled inputs plus exhaustive special values.")

P("P25", "Bit-wise and split MVM modes compose the same product",
  """Bit-serial (bit-wise) and positive/negative split analog MVM modes, with ideal converters and enough resolution, give the plain product of the quantized input; the partial passes are scaled and accumulated so that no input bit, sign or batch entry is lost, for every input and mode; the optional read noise of the weights follows the documented law of the mean time for which each pass applies its inputs.""",
  ["inputs", "configurations"],
  "MVM modes, resolutions, input patterns, tile kinds",
  "Tests check selected resolutions.",
  [T + "analog_mvm.py", R + "rpu_forward_backward_pass.cpp", O + "simulator/parameters/io.py"],
  [("MV types", T + "analog_mvm.py")],
  "runtime monitor: algebraic oracle per mode",
  "Sampled inputs.")

P("P26", "Parallel regions are race free and give the serial result",
  """With several OpenMP threads, tile construction, forward, backward, update, decay, diffusion and resets contain no data race and give the result of a single-threaded run of the same calls (bit-identical where randomness is seeded).""",
  ["schedules", "histories"],
  "thread counts, tile shapes, devices, operation sequences, concurrently used tiles",
  "Tests run without a race detector and compare no thread counts.",
  [R + "rpu_vector_device.cpp", R + "rpu.cpp", R + "rpu_pulsed_device.cpp", R + "rpu_weight_updater.cpp", R + "rng.h"],
  [("omp parallel loops", R + "rpu_vector_device.cpp")],
  "ThreadSanitizer plus thread-count differential oracle",
  "OpenMP runtime annotated or suppressed; sampled schedules.")

P("P27", "Torch transfer tiles follow the transfer-device definition",
  """A torch-implemented transfer tile (Tiki-taka with choppers, buffers and thresholds) performs exactly the documented sequence of gradient, read, buffer and weight-tile updates at the configured schedule, matching an independent step model and the compiled transfer device
  on the settings both support, and never changes the caller's tensors.""",
  ["histories", "configurations"],
  "transfer parameters, update histories, column/row transfer, chopper probabilities",
  "Tests compare only training success.",
  [T + "transfer.py", R + "rpu_transfer_device.cpp", R + "rpu_chopped_transfer_device.cpp"],
  [("TransferSimulatorTile.update", T + "transfer.py")],
  "runtime monitor: step-model lock-step oracle",
  "Deterministic devices; sampled histories.")


P("P28", "Experiments train and evaluate like the loop they stand for",
  """A training or inference experiment run by a local runner does exactly what its definition says: it visits every element of the training set once per epoch in batches of the configured size, steps the optimizer once per batch, validates on the whole test set with an unchanged model, programs and
  drifts the weights once per repeat to the configured time, starts every repeat from the same weights, and reports the losses and accuracies of exactly those predictions in order.""",
  ["configurations", "histories"],
  "experiment definitions (model, loss, batch size and remainder, epochs, repeats, times, weight templates), subset sizes, hooks, repeated runs",
  "Tests run one tiny experiment and look at the length of the result list.",
  [O + "experiments/experiments/training.py", O + "experiments/experiments/inferencing.py", O + "experiments/experiments/base.py", O + "experiments/runners/local.py", O + "experiments/runners/i_local.py", O + "utils/legacy.py"],
  [("BasicTraining.train", O + "experiments/experiments/training.py"), ("BasicInferencing.inference", O + "experiments/experiments/inferencing.py")],
  "runtime monitor: recorded data order and signals replayed on an independent model copy",
  "Noise-free training configurations; synthetic data sets; sampled.")

P("P29", "The cloud client submits what it is given and returns what the service holds",
  """Through the client and the runners, an experiment is submitted as one ordered sequence of requests carrying exactly its definition, name and device; a request that fails stops the submission with an error and queues nothing; experiments, inputs, states and outputs come back as the service holds
  them whenever asked; nothing but the login sees the token and the storage never sees the login.""",
  ["histories", "faults", "configurations"],
  "experiment kinds, names, clients and runners, error codes at every request, job state histories, missing inputs, jobs and outputs, credential sources",
  "Tests that use the service are skipped without it; the others construct the client once.",
  [O + "cloud/client/entities.py", O + "cloud/client/session.py", O + "cloud/client/utils.py", O + "cloud/client/v1/api_client.py", O + "cloud/client/v1/i_api_client.py", O + "cloud/client/v1/parsers.py", O + "cloud/client/v1/stubs.py", O + "experiments/runners/cloud.py", O + "experiments/runners/i_cloud.py"],
  [("CloudExperiment", O + "cloud/client/entities.py"), ("ApiClient.experiment_create", O + "cloud/client/v1/api_client.py")],
  "runtime monitor: stand-in service on the loopback network recording requests, with injected faults",
  "The real service is not reachable; the stand-in has the endpoints the client uses.")


P("P30", "Repeated use does not accumulate memory",
  """Repeating any operation on a model (evaluation, training steps, copies, checkpoints, conversion, programming and drift, calibration, weight access, refused calls, construction and deletion) keeps the memory in use bounded: nothing is retained per repetition and a dropped model is destroyed completely.""",
  ["histories", "configurations"],
  "operations and their number of repetitions, configurations, models, interrupted steps and refused calls",
  "Tests perform each operation a few times and do not look at memory.",
  [O + "optim/context.py", T + "functions.py", T + "base.py", T + "module.py", O + "nn/modules/base.py", O + "inference/calibration/calibration.py", R + "rpu.cpp", O + "simulator/rpu_base_src/rpu_base_tiles.cpp"],
  [("AnalogContext.reset", O + "optim/context.py"), ("AnalogFunction", T + "functions.py")],
  "runtime monitor: heap and live-object accounting over rounds of repetitions",
  "Growth below 48 bytes per operation is not distinguished from allocator noise.")

P("P31", "A refused or interrupted call changes nothing",
  """A call on a model, layer or tile that is refused (wrong shapes, types, modes, states, configurations, layers that cannot be converted) leaves weights, biases, hidden parameters, scales, mode, hooks and configuration as they were; a training step that is interrupted by an exception of user code (in a hook, the loss, the closure, the backward pass) and then discarded by zero_grad leaves no trace in later training, and a calibration whose data fail leaves a usable model.""",
  ["faults", "histories", "configurations"],
  "refused calls and their position in the history, points of interruption, tile kinds, models",
  "Tests check that an error is raised, not what is left behind, nor how training goes on.",
  [T + "periphery.py", T + "array.py", T + "base.py", T + "module.py", O + "optim/analog_optimizer.py", O + "optim/context.py", O + "inference/calibration/calibration.py", O + "nn/conversion.py"],
  [("SimulatorTileWrapper.__setstate__", T + "base.py"), ("calibrate_input_ranges", O + "inference/calibration/calibration.py")],
  "runtime monitor: state recorded around every failing call, and a twin that never sees it",
  "Of a state dictionary that torch loads module by module only the refusing tile is judged.")


def main():
    checks, na = [], []
    lines = []
    for e in PROPS:
        p = e["p"]
        for f in p["anchors"]["files"] + [m["where"] for m in p["anchors"]["mechanism"]]:
            assert os.path.exists("/repo/" + f), (p["id"], f)
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        p["anchors"]["files"] = list(dict.fromkeys(p["anchors"]["files"]))
        lines.append(json.dumps(p))
        pid = p["id"]
        if glob.glob(f"{V}/checks/{pid}_*.py"):
            checks.append(dict(property=pid, quick_cmd=f"./check.sh {pid} quick",
                               thorough_cmd=f"./check.sh {pid} thorough",
                               evidence_file=f"evidence/{pid}.json",
                               technique=e["technique"], level="exploration", level_note=e["note"]))
        else:
            na.append(dict(property=pid, reason=NA.get(pid, "no check built yet")))
    with open(f"{V}/properties.jsonl", "w") as f:
        f.write("\n".join(lines) + "\n")
    man = dict(version=1, setup_cmd="/opt/venv/bin/python lib/vbuild.py rel san tsan",
               hooks=dict(guard="VERIF_HOOKS", enable="no hooks are added to /repo: the monitors attach from "
                          "the harness (wrapped methods, hidden-parameter readout, sanitizer builds of the "
                          "unchanged sources with a pinned clock)", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="One check per property; ./check.sh ID tier [--only scenario] [--seed N] [--replay file].")
    with open(f"{V}/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed;", len(na), "not")


NA = {}

if __name__ == "__main__":
    main()
