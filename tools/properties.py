def P(id, title, statement, over, qtext, why, files, mech, note='', level='proof'):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, 'note': note, 'level': level}


NOT_APPLICABLE = {}
PROPERTIES = [
 P('P01', 'Vector kernels compute exactly their element-wise definition',
   'Every libefl vector kernel (zero, fill, ramp, copy, add, subtract, multiply, multiply-add, ramp scaling and the strided copy/fill, in plain, constant and in-place forms) '
   'writes to element i of its output, for every length and every i below it, exactly the documented function of the scalars and of element i of its inputs, and writes nothing else. '
   'The optimised x86 variants (SSE, AVX, FMA) produce the same result as the portable one (up to floating-point rounding) for every length, every alignment argument and every placement of the buffers. '
   'If a pointer does not have the alignment the caller claims, the call returns an alignment error and leaves the output untouched; it never faults.',
   ['inputs'], 'all lengths (including 0 and lengths that are not a multiple of the SIMD width), all alignment arguments, all buffer offsets, all element values, output aliasing an input',
   'The unit tests use a few fixed lengths and aligned buffers; tails, unaligned starts, zero lengths and most variants are never combined.',
   ['src/libefl/vector_functions.hpp', 'src/libefl/vector_functions.cpp', 'src/libefl/reference/vector_functions_impl.hpp', 'src/libefl/reference/vector_functions.cpp',
    'src/libefl/intel_x86_64/vector_multiply.cpp', 'src/libefl/intel_x86_64/vector_multiply_add.cpp', 'src/libefl/intel_x86_64/vector_ramp_scaling.cpp'],
   [('element-wise loops', 'src/libefl/reference/vector_functions_impl.hpp'), ('SIMD bodies with scalar head/tail', 'src/libefl/intel_x86_64/*.cpp')],
   'all lengths, alignments and aliasing cases proved for float and double; complex instantiations only replayed'),
 P('P02', 'Aligned containers keep size, alignment, content and ownership consistent',
   'After every history of construction, resize, fill, copy, assign, swap and move, an aligned array, vector or matrix reports the requested size and alignment, its data (for a matrix: every row) starts at an address that is a multiple of alignment times element size, '
   'all elements lie in storage it owns, and the elements have the values the history defines (zero after construction or resize of vectors and matrices). '
   'Checked access throws exactly for indices outside the dimensions; operations on objects of inconsistent size or alignment throw and leave both objects unchanged; alignments other than 0 or a power of two are rejected. '
   'Storage is released exactly once.',
   ['inputs', 'histories'], 'all sizes (including zero), all alignments, all element types, all sequences of operations',
   'Tests construct a few matrices of fixed size; throwing operations and their effect on the object, padding, odd alignments and zero sizes are not covered.',
   ['src/libefl/aligned_array.hpp', 'src/libefl/alignment.hpp', 'src/libefl/basic_vector.hpp', 'src/libefl/basic_matrix.hpp'],
   [('class invariant of AlignedArray', 'src/libefl/aligned_array.hpp'), ('alignment arithmetic', 'src/libefl/alignment.hpp'), ('row stride', 'src/libefl/basic_matrix.hpp')],
   'per operation from an arbitrary valid state; alignment predicates proved on 64-bit machine words'),
 P('P03', 'Sample conversion is exact or correctly rounded, at the addressed samples only',
   'For every pair of sample types (float, double, 8/16/32/64 bit integers) and every length and stride, the vector conversions write at the i-th addressed output element the value of the i-th addressed input element: unchanged where the destination type can represent it, otherwise rounded to nearest (float to integer: ties to even), and leave every other element untouched. '
   'Misaligned arguments are reported as an error without writing.',
   ['inputs'], 'all 36 type combinations, four layouts, all lengths, strides, alignments and in-range values',
   'The tests convert one random block per type pair; ties, extreme values, strides, alignment errors and the gaps between strided elements are not covered.',
   ['src/libefl/vector_conversions.hpp', 'src/libefl/vector_conversions.cpp', 'src/libefl/reference/vector_conversions_impl.hpp', 'src/libefl/reference/vector_conversions.cpp'],
   [('conversion loop', 'src/libefl/reference/vector_conversions_impl.hpp vectorConvertInputOutputStride'), ('rounding functor', 'src/libefl/reference/vector_conversions_impl.hpp Converter')],
   'hardware conversions and llrint are trusted to round as IEEE 754 requires; output strides of at least 1'),
 P('P04', 'Circular buffer returns the most recent samples after any history',
   'After every sequence of writes (from pointer arrays, strided memory or a matrix) and direct writes with commit, reading any channel with any delay d up to the buffer length yields, contiguously, exactly the last d samples written to that channel in order (zeros before the first write), whatever the write sizes and wrap-around positions. '
   'Writes with a wrong channel count or more samples than the length, and read requests for delays beyond the length, are rejected with an exception and change nothing; no operation accesses memory outside the buffer.',
   ['inputs', 'histories'], 'all channel counts, lengths, alignments, write positions, write sizes and delays',
   'Tests write a few blocks of one size; write sizes that do not divide the length, wrap at every position and full-length reads are not enumerated.',
   ['src/librbbl/circular_buffer.cpp', 'src/librbbl/circular_buffer.hpp'],
   [('double-mapped ring: content stored twice', 'src/librbbl/circular_buffer.cpp Impl::advanceWriteIndex'), ('delay to address', 'src/librbbl/circular_buffer.hpp getReadPointer')],
   'class invariant (both copies equal, head below the allocated length) preserved by every writer; readers proved from the invariant'),
 P('P05', 'Flexible block sizes delay the fixed-period output by exactly one period',
   'For every sequence of process() calls with arbitrary frame counts (including 0, fewer and more than one period), in channel-pointer or strided layout, the flow inside a FlexibleBufferWrapper is executed exactly once per complete period of input with the input samples in order, '
   'and output frame t of every channel is sample t - period of the flow output stream (zero for the first period), independent of how the frames are divided into calls. '
   'Input is only read and output only written at the addressed samples; flows without capture or playback channels are supported.',
   ['inputs', 'histories'], 'all periods, channel counts, strides, and all divisions of the stream into calls',
   'The tests use a few call sizes with contiguous buffers; the interplay of fill levels, wrap-around and strides depends on the whole history of call sizes.',
   ['src/librrl/flexible_buffer_wrapper.cpp', 'src/librrl/flexible_buffer_wrapper.hpp', 'src/librbbl/circular_buffer.hpp'],
   [('chunk loop with input and output ring buffers', 'src/librrl/flexible_buffer_wrapper.cpp process'), ('one period of initial output', 'src/librrl/flexible_buffer_wrapper.cpp constructor')],
   'loop invariant over the input stream X and output stream Z, from an arbitrary fill level; circular buffer contracts are those proved under P04'),
 P('P06', 'A signal flow is the composition of its connected components',
   'For every signal flow whose receive channels each have exactly one sender, every call of process() delivers at each output channel the result of running every atomic component exactly once, each on the current values of the channels and parameters connected to it through any number of composite levels (any channel permutation, fan-out, pass-through, empty ports, float and double channels), and the time seen by the components advances by one period per call. '
   'Nothing depends on the order of creation, the names or the order of the connections, and only the addressed samples of the caller are read or written. '
   'Flows with unconnected or doubly connected receivers, cyclic dependencies or connections between different sample types are rejected.',
   ['programs', 'inputs', 'histories'], 'all component graphs, channel mappings, sample layouts and block sequences',
   'Tests run a handful of hand-built graphs; buffer sharing, inserted routing and scheduling depend on the whole graph.',
   ['src/librrl/audio_signal_flow.cpp', 'src/librrl/signal_routing_internal.cpp', 'src/librrl/integrity_checking.cpp', 'src/librrl/audio_connection_map.cpp', 'src/librrl/parameter_connection_map.cpp', 'src/librrl/scheduling_graph.cpp', 'src/libvisr/impl/time_implementation.cpp', 'src/libvisr/impl/audio_port_base_implementation.cpp'],
   [('block processing', 'src/librrl/audio_signal_flow.cpp process, executeComponents'), ('buffer assignment and inserted routing', 'src/librrl/audio_signal_flow.cpp initialiseAudioConnections, src/librrl/signal_routing_internal.cpp'), ('schedule', 'src/librrl/scheduling_graph.cpp'), ('rejection of invalid flows', 'src/librrl/integrity_checking.cpp')],
   'proved for all inputs: block processing (copy in, schedule once in order, copy out, time), channel addressing of ports, inserted routing components; construction of the graph, buffer assignment and schedule (std::map/Boost.Graph code, outside the verifier) is covered by a bounded stand-in: random nested flows of up to about 40 components against a direct evaluation of the graph'),
 P('P07', 'Gain matrix follows the prescribed gain trajectory for every history',
   'In every block, each output sample of a gain matrix is the sum over all inputs of the input sample times a gain that moves linearly, sample by sample, from the gains in effect when the latest gains were set to those latest gains over the configured number of interpolation samples, and then stays there exactly. '
   'Setting new gains at any time, also during or before the first block of a transition, continues from the gain reached so far without a jump and always ends at the newest gains (a remaining step below machine epsilon may be taken at once); gains of wrong dimension are rejected and change nothing. '
   'Only the addressed output samples are written; a matrix without inputs yields silence.',
   ['inputs', 'histories'], 'all matrix sizes, block sizes, interpolation lengths (also those that are not a multiple of the block), gains, and all sequences of setNewGains and process',
   'Tests use one or two transitions of fixed length; gain changes inside a running transition, ramps that end inside a block and back-to-back updates depend on the whole history.',
   ['src/librbbl/gain_fader.cpp', 'src/librbbl/gain_fader.hpp', 'src/librbbl/gain_matrix.cpp', 'src/librbbl/gain_matrix.hpp'],
   [('interpolation ramp, one extra block of ones', 'src/librbbl/gain_fader.cpp setupRamp'), ('transition counter and restart', 'src/librbbl/gain_matrix.cpp setGainsInternal')],
   'float and double; kernel contracts are those proved under P01, matrix copy as proved under P02; floating point as uninterpreted functions with the operations in the documented order, or as reals'),
 P('P08', 'Fractional delays reproduce the written stream at the requested delay and gain',
   'For every history of writes and reads, output sample i of a delay line read is the requested gain times the Lagrange polynomial of the selected order through the stream samples around the requested delay, with delay and gain moving linearly from the start value (exclusive) to the end value (inclusive) of the block, '
   'and the delay adjusted by the method delay as the selected policy (Add, Limit, Reject) says; the reported method delay is the delay actually added. '
   'Every admissible delay up to the configured maximum is served from samples actually written (zeros before the first), without reading outside the buffer, and inadmissible delays, channels, block lengths or interpolation methods are rejected with an exception.',
   ['inputs', 'histories'], 'all orders 0-9, policies, block lengths, maximum delays, sampling frequencies, delays, gains, float and double',
   'Tests use single delays and compare by eye or on short blocks; delays near the maximum, ramps across a block, the low delay end of each policy and the double instantiations are not covered.',
   ['src/libefl/lagrange_coefficient_calculator.hpp', 'src/librbbl/lagrange_interpolator.cpp', 'src/librbbl/multichannel_delay_line.cpp', 'src/librbbl/fractional_delay_factory.cpp'],
   [('coefficient recursion', 'src/libefl/lagrange_coefficient_calculator.hpp'), ('base sample and fraction', 'src/librbbl/lagrange_interpolator.cpp interpolate'), ('policy and ring length', 'src/librbbl/multichannel_delay_line.cpp')],
   'coefficients as exact polynomial identities over the reals (scale factors up to rounding); positions as reals; ring contracts are those proved under P04'),
 P('P09', 'Gain and delay components follow their parameter trajectories for every history',
   'In every block, each output of GainVector, DelayVector and DelayMatrix is its input stream (for the matrix the sum over all inputs) delayed and scaled by a delay and a gain that move linearly from the values in effect when the latest value was set to that latest value over the configured transition time, and then stay there. '
   'Setting new gains or delays at any time, by method or through the control ports, starts from the value reached so far, leaves the other parameter and its transition untouched, takes effect in the same block and is consumed once. '
   'Parameters of wrong dimension are rejected and change nothing.',
   ['inputs', 'histories'], 'all channel counts, periods, transition lengths, delays, gains, policies and interleavings of gain updates, delay updates and blocks',
   'Tests listen to one update of one parameter; overlapping transitions of gain and delay and updates inside a running transition depend on the whole history.',
   ['src/librcl/gain_vector.cpp', 'src/librcl/delay_vector.cpp', 'src/librcl/delay_matrix.cpp'],
   [('start of a transition', 'src/librcl/delay_vector.cpp setDelay, setGain; src/librcl/gain_vector.cpp setGain'), ('ratios and counters', 'src/librcl/delay_vector.cpp process; src/librcl/delay_matrix.cpp process')],
   'contracts of MultichannelDelayLine (P08), GainFader (P07) and the kernels (P01) are the ones proved there; period a multiple of the vector alignment for GainVector; floating point as uninterpreted functions or as reals'),
 P('P10', 'IIR filters compute the difference equation of every section across all blocks',
   'For every block partition of the signal, every channel and every number of sections, the output of a biquad cascade (efl kernels and BiquadIirFilter) is the input passed through the sections in order, each computing y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2] in the transposed direct form II, with the state carried over block boundaries and coefficient updates. '
   'A coefficient update (setter or control port) replaces exactly the addressed coefficients before the next sample and leaves all other channels, sections and states untouched; updates with wrong index or dimension are rejected and change nothing, and a cascade without sections copies its input.',
   ['inputs', 'histories'], 'all channel counts, section counts, strides, alignments, block lengths, coefficients, states, and histories of updates; float and double kernels',
   'Tests filter one impulse with fixed coefficients; state across blocks and updates, strides larger than the section size and the error paths are not covered.',
   ['src/libefl/reference/filter_functions_impl.hpp', 'src/librcl/biquad_iir_filter.cpp', 'src/librcl/biquad_iir_filter.hpp'],
   [('recursion of one section', 'src/libefl/reference/filter_functions_impl.hpp iirBiquadInternal'), ('cascade', 'src/libefl/reference/filter_functions_impl.hpp iirFilterBiquadsSingleChannel'), ('coefficient layout', 'src/librcl/biquad_iir_filter.cpp setCoefficientsInternal')],
   'recursion proved by loop invariant over the recursively defined state sequences; audio ports give every channel period() samples; parameter port contracts under P11'),
 P('P11', 'Parameter connections deliver exactly what was sent',
   'DoubleBuffering: for every history, each connected input reads the value the output held at its latest swapBuffers and nothing the output wrote later, changed() is true exactly if a swap happened while the input was connected since its last resetChanged() (independently for every input), and swapBuffers(true) also keeps the value in the send buffer. '
   'MessageQueue: messages are delivered once each, unchanged and in the order sent, size()/empty() are exact, and access to an empty queue is rejected; SharedData: inputs read the current value of the output; assigning or cloning a parameter of any type makes a complete, independent copy and a parameter of another type is rejected. '
   'Ports of another protocol type or a second sender (for queues also a second receiver) are rejected without effect, and disconnecting detaches exactly the given port and reports whether it was connected.',
   ['histories'], 'all histories of connect, disconnect, write, swap, reset, enqueue, pop and clear; any number of inputs and messages',
   'Tests send one or two values over one connection; independence of several receivers, copy-on-swap, reconnects and long queues depend on the history.',
   ['src/libpml/double_buffering_protocol.cpp', 'src/libpml/double_buffering_protocol.hpp', 'src/libpml/message_queue_protocol.cpp', 'src/libpml/message_queue_protocol.hpp', 'src/libpml/shared_data_protocol.cpp', 'src/libpml/shared_data_protocol.hpp', 'src/libvisr/typed_parameter_base.hpp', 'src/libpml/vector_parameter.cpp', 'src/libpml/matrix_parameter.cpp', 'src/libpml/object_vector.cpp', 'src/libobjectmodel/object_vector.cpp'],
   [('buffer exchange and change marks', 'src/libpml/double_buffering_protocol.cpp swapBuffers'), ('queue ends', 'src/libpml/message_queue_protocol.cpp enqueue, nextElement, popNextElement'), ('port lists', 'src/libpml/*_protocol.cpp connectInput, disconnectInput')],
   'assumed contracts: std::deque, std::vector and std::find of the standard library, dynamic_cast; copy operations of the types other than scalar, vector and matrix parameters are generated by the compiler from those of their members (compared by the driver); single-threaded use as in the signal flow'),
 P('P12', 'Mixing and routing components compute exactly their matrix',
   'In every block and for every input signal, Add outputs the sample-wise sum of all its inputs, NullSource outputs zeros, SignalRouting outputs for each output the sum of the inputs its current routing table assigns to it (zero if none), and GainMatrix and SparseGainMatrix output for each output the sum of the inputs weighted with the gains in effect at that sample; nothing from an earlier block leaks in. '
   'Routings and gains set by call or received at a control port take effect with the block in which they arrive and stay until the next update; an update is consumed once and gain changes fade over the configured number of blocks. '
   'Routings with an index out of range are rejected and a rejected routing parameter leaves the routing in effect unchanged.',
   ['histories', 'inputs', 'configurations'], 'all widths (including 0), numbers of inputs, routing tables, gains and histories of updates; all sample values; gain updates of SparseGainMatrix while a transition is running are excluded (unspecified)',
   'Tests route one or two fixed channels; accumulated inputs, empty ports, invalid entries and updates during operation depend on configuration and history.',
   ['src/librcl/add.cpp', 'src/librcl/null_source.cpp', 'src/librcl/signal_routing.cpp', 'src/librcl/gain_matrix.cpp', 'src/librcl/sparse_gain_matrix.cpp', 'src/librbbl/gain_matrix.cpp'],
   [('accumulating loops', 'src/librcl/add.cpp, signal_routing.cpp, sparse_gain_matrix.cpp process'), ('index checks', 'src/librcl/signal_routing.cpp checkRoutingIndexRanges; sparse_gain_matrix.cpp setRoutings'), ('updates', 'process of signal_routing.cpp, gain_matrix.cpp, sparse_gain_matrix.cpp')],
   'assumed contracts: std::set as an ordered sequence of its elements, parameter port contracts (proved under P11), rbbl::GainMatrix and GainFader (proved under P05); component period a multiple of 16 samples'),
 P('P13', 'Block convolution is exact and filter updates are seamless',
   'For every block length, filter length, number of channels, routings and filters, the uniformly partitioned convolvers (plain, crossfading, interpolating) and the FIR filter components output for each output the sum over its routings of gain times the linear convolution of the whole input history with the filter in effect, independently of how the stream is divided into blocks. '
   'A new impulse response, routing or interpolation weight takes effect with the next block: at once in the plain convolver, by a linear crossfade over the configured transition time from the previously selected filter in the crossfading and interpolating ones, leaving every other filter and routing untouched. '
   'Indices out of range, too long responses and surplus routings are rejected and leave filters and routings as they were.',
   ['histories', 'inputs', 'configurations'], 'all sizes, alignments, routings, filters, gains and histories of updates; results up to rounding of the transform; block length a multiple of the alignment',
   'Tests convolve short noise signals with one configuration; partition wrap-around, partial last partitions, updates during a crossfade and table limits depend on history and configuration.',
   ['src/librbbl/core_convolver_uniform.cpp', 'src/librbbl/multichannel_convolver_uniform.cpp', 'src/librbbl/crossfading_convolver_uniform.cpp', 'src/librbbl/interpolating_convolver_uniform.cpp', 'src/librcl/fir_filter_matrix.cpp', 'src/librcl/crossfading_fir_filter_matrix.cpp', 'src/librcl/interpolating_fir_filter_matrix.cpp'],
   [('frequency-domain delay line', 'src/librbbl/core_convolver_uniform.cpp processInputs, processFilter, advanceFDL'), ('partitioning of impulse responses', 'src/librbbl/core_convolver_uniform.cpp transformImpulseResponse, initFilters'), ('crossfade', 'src/librbbl/crossfading_convolver_uniform.cpp processOutputs, setImpulseResponse'), ('interpolation', 'src/librbbl/interpolating_convolver_uniform.cpp setInterpolant'), ('routings', 'setRoutingEntry, removeRoutingEntry of the convolvers')],
   'assumed contracts: the Fourier transform (the convolution theorem and the FFT library are covered by the driver only), complex vector kernels, CircularBuffer (P04), std::multiset operations; double instantiations are compared by the driver only'),
 P('P14', 'Object panning produces the documented loudspeaker gains',
   'For every loudspeaker array (2D or 3D, finite or infinite, with any virtual loudspeakers and routes), listener position and source position or plane-wave direction, VBAP returns for each regular loudspeaker the non-negative barycentric gain of the triplet which encloses the source direction seen from the listener, plus the gains of the virtual loudspeakers weighted by their routes, normalised to unit power by calculateGains and left unnormalised otherwise. '
   'PanningCalculator writes for every audio object into the columns of its channels the VBAP gains of its position scaled by level and by the diffuseness of the object (low- and high-frequency matrices each with their own normalisation, diffuse matrix for the diffuse part), for each object type, and zero in the columns of channels no object uses. '
   'Gains are finite, follow every movement of object or listener with the next call, and no object or channel index leads to an access outside the matrices.',
   ['inputs', 'configurations', 'histories'], 'all arrays, positions, object vectors, listener positions and sequences of them; results up to rounding',
   'Tests print the gains of one array and a few positions without comparing them; degenerate triplets, virtual loudspeakers, listener movements and channel indices are never varied.',
   ['src/libpanning/VBAP.cpp', 'src/libpanning/VBAP.h', 'src/libpanning/LoudspeakerArray.cpp', 'src/librcl/panning_calculator.cpp'],
   [('inverse matrices', 'src/libpanning/VBAP.cpp calcInvMatrices'), ('triplet selection', 'src/libpanning/VBAP.cpp calcPlainVBAP'), ('virtual loudspeakers', 'src/libpanning/VBAP.cpp applyRerouting'), ('normalisation', 'src/libpanning/VBAP.cpp calculateGains, powerNormalisation'), ('object gains', 'src/librcl/panning_calculator.cpp process')],
   'real arithmetic; loudspeakers of a triplet distinct, 2D arrays with the listener in their plane; the ChannelObject branch, the constructor of PanningCalculator and the XML parser are compared by the driver only'),
 P('P15', 'Listener compensation delays and attenuates each loudspeaker as documented',
   'For every loudspeaker array (finite, 2D or 3D, with any virtual loudspeakers) and listener position, the listener compensation computes for each regular loudspeaker the distance to the listener, outputs as gain the ratio of this distance to the largest one and as delay the time which sound needs for the difference, so every gain lies in [0,1], every delay is non-negative and the farthest loudspeaker gets gain 1 and delay 0. '
   'All quantities follow the most recent listener position, are functions of that position alone (independent of earlier ones) and are written for every regular loudspeaker. '
   'No other memory is written, whatever the number of virtual loudspeakers.',
   ['inputs', 'configurations', 'histories'], 'all loudspeaker arrays, listener positions and sequences of positions; results up to rounding',
   'The tests print gains and delays of one array without comparing them; virtual loudspeakers, distances and sequences of positions are never varied.',
   ['src/librcl/listener_compensation.cpp', 'src/librcl/listener_compensation.hpp'],
   [('distances', 'src/librcl/listener_compensation.cpp calcLoudspeakerGainDelay'), ('gain and delay', 'src/librcl/listener_compensation.cpp calcGainComp, calcDelayComp'), ('output vectors', 'src/librcl/listener_compensation.cpp process')],
   'real arithmetic; pow(x,2) is x*x; parameter ports deliver the vectors of the configured width (P11)'),
 P('P16', 'Object metadata calculators write exactly the gains their objects imply',
   'For every object vector, the diffusion gain calculator writes for each channel 1 if the last single-channel object using it is a diffuse source, the diffuseness if it is a point source with diffuseness and 0 otherwise; the EQ calculator writes to each channel level and EQ coefficients of the last object that uses it (gain 0 if none does); and the channel-object routing calculator outputs exactly one routing, to the loudspeaker of its label, per channel of a channel object with one known output label. '
   'The HOA calculator passes the input gains on, except that the channel of the k-th harmonic signal of a HOA source gets row k of the AllRAD decoding matrix, which is the product of the regular decoding matrix and the panning gains for the current listener position. '
   'Results are recomputed for every new object vector or listener position, and an object with an invalid channel, label or order is skipped or reported and never causes an access outside the matrices.',
   ['inputs', 'configurations', 'histories'], 'all object vectors, channel assignments, levels, diffuseness, EQ settings, orders, listener positions and sequences of them; the coefficients of an EQ itself are not part of this property',
   'Tests run one scene through the renderer without checking these gains; channel indices at the limits, labels unknown to the array and orders above the decoder are never used.',
   ['src/librcl/diffusion_gain_calculator.cpp', 'src/librcl/object_gain_eq_calculator.cpp', 'src/librcl/channel_object_routing_calculator.cpp', 'src/librcl/hoa_allrad_gain_calculator.cpp', 'src/libpanning/AllRAD.cpp', 'src/libefl/matrix_functions.cpp'],
   [('diffuse gains', 'src/librcl/diffusion_gain_calculator.cpp process'), ('EQ per channel', 'src/librcl/object_gain_eq_calculator.cpp process'), ('routings', 'src/librcl/channel_object_routing_calculator.cpp process'), ('HOA gains', 'src/librcl/hoa_allrad_gain_calculator.cpp process; src/libpanning/AllRAD.cpp updateDecodingCoefficients, setListenerPosition')],
   'channels of one object distinct; object vector and parameter port contracts (P11); VBAP::calculateGains by its contract (P14); a call of status() with an error returns or ends processing; EQs of channels without object keep their last value'),
 P('P17', 'Parametric equaliser settings give the documented stable filters',
   'For every filter type, frequency below half the sampling rate, positive quality and gain, the biquad coefficients computed from a parametric EQ setting are those of the documented formulas (audio EQ cookbook) normalised to a0 = 1, so that the poles lie inside the unit circle and the gain at frequency zero and at half the sampling rate is the one the type implies (0, 1 or the linear gain of a shelf). '
   'A list of settings is converted element by element into the first sections, all remaining sections become flat, and a list with too few sections is rejected. '
   'Constructor and setters of a setting store exactly the given values.',
   ['inputs', 'configurations'], 'all types, frequencies, qualities, gains, sampling rates, list lengths, float and double; up to rounding',
   'Tests evaluate a few settings without checking the response; types, extreme frequencies and gains and lists of different lengths are not sampled.',
   ['src/librbbl/parametric_iir_coefficient_calculator.cpp', 'src/librbbl/parametric_iir_coefficient.cpp', 'src/librbbl/parametric_iir_coefficient.hpp', 'src/librbbl/biquad_coefficient.hpp'],
   [('formulas', 'src/librbbl/parametric_iir_coefficient_calculator.cpp calculateIirCoefficients (one section)'), ('lists', 'src/librbbl/parametric_iir_coefficient_calculator.cpp calculateIirCoefficients (lists)'), ('settings', 'src/librbbl/parametric_iir_coefficient.cpp constructor and setters')],
   'real arithmetic; sin and cos of the normalised frequency lie strictly between the bounds of an angle in (0,pi); dB2linear is a positive function; reading and writing JSON or XML is not part of the property'),
 P('P18', 'Short-time Fourier analysis frames and overlap-add synthesis are exact',
   'For every channel count, DFT size, window no longer than the DFT, hop size dividing the period, normalisation and signal history, TimeFrequencyTransform outputs for each hop of each channel the scaled DFT of the window applied to the most recent samples up to the end of that hop (zero before the start of the signal, zero-padded to the DFT size). '
   'TimeFrequencyInverseTransform outputs for every hop the scaled overlap-add of the inverse transforms of its frame and all earlier frames, across frames of a period and across periods, for each channel independently. '
   'Configurations that do not fit are rejected by an exception, and the time-frequency parameter stores every (frame, channel, bin) in a place of its own and keeps size and content when created, copied, assigned or resized.',
   ['inputs', 'histories', 'configurations'], 'all sizes, windows, hops, frames per period, normalisations and histories; the DFT itself is an assumed contract (random sizes checked against direct sums)',
   'The only test uses one hop per period, one window of the DFT length and one block of one channel; several frames per period, short windows, unaligned positions and the inverse transform are not tested.',
   ['src/librcl/time_frequency_transform.cpp', 'src/librcl/time_frequency_transform.hpp', 'src/librcl/time_frequency_inverse_transform.cpp', 'src/librcl/time_frequency_inverse_transform.hpp', 'src/libpml/time_frequency_parameter.cpp', 'src/libpml/time_frequency_parameter.hpp'],
   [('analysis', 'src/librcl/time_frequency_transform.cpp process and constructors'), ('synthesis', 'src/librcl/time_frequency_inverse_transform.cpp process and constructor'), ('storage', 'src/libpml/time_frequency_parameter.hpp/.cpp')],
   'FftWrapperBase::forwardTransform/inverseTransform compute the DFT they document; CircularBuffer by its contract (P04), matrices and vectors by theirs (P02), efl kernels by theirs (P01)'),
 P('P19', 'Rotations and tracked listener positions are exact rigid motions',
  'For all values the quaternion and position operations are the rotations they stand for: product, rotate and conjugate compose and invert rotations, yaw/pitch/roll, rotation vectors and angles convert to and from quaternions, positions are turned, moved, scaled and normalised, angles are the angles between orientations or directions, and spherical interpolation follows the great circle (identical ends included); normalisation rejects zero. '
  'ListenerPosition setters and transformations change position and orientation accordingly and nothing else. '
  'For every history of tracking messages PositionDecoder consumes every message, ignores malformed ones, and sends exactly one position if there was a valid one: the newest message (by time stamp, then arrival) of the smallest face identifier, rotated and moved by the configured amount.',
  ['inputs', 'histories'], 'all real-valued coordinates, both precisions; all message histories; floating-point arithmetic treated as real arithmetic, trigonometric functions uninterpreted (random values in extended precision by the driver)',
  'The unit tests convert a handful of fixed rotations; angle(), interpolation ends, the normalising constructor, messages of several faces and out-of-order time stamps are not tested.',
  ['src/librbbl/quaternion.cpp', 'src/librbbl/quaternion.hpp', 'src/librbbl/position_3d.cpp', 'src/librbbl/position_3d.hpp', 'src/libpml/listener_position.cpp', 'src/librcl/position_decoder.cpp', 'src/librcl/position_decoder.hpp'],
  [('rotations', 'src/librbbl/quaternion.hpp/.cpp'), ('positions', 'src/librbbl/position_3d.hpp/.cpp'), ('listener', 'src/libpml/listener_position.cpp'), ('decoder', 'src/librcl/position_decoder.cpp process')],
  'JSON parsing of one message (a function of the message that yields its fields or throws; the driver decodes real messages), message queue and double buffer ports by their contracts (P11)'),
 P('P20', 'Time-stamped panning transitions start, run and end as announced',
  'For all signals, gains and message histories PanningGainMatrix moves the gains of each object on straight lines: a message for the current time starts from the gains reached so far (duration 0 jumps), a later start is stored, replaces a stored one and leaves the running transition alone until its start time, wherever that falls in a block. '
  'A transition reaches its gains with the last sample of its duration and holds them; start times in the past are reported and ignored, objects without a start time are unchanged. '
  'Each output sample is the sum over all objects of the sample times its gain, and PanningMatrixParameter messages are copied and assigned completely.',
  ['inputs', 'histories'], 'all real-valued signals and gains, numbers of objects and loudspeakers, periods, start times and durations up to 2^60 samples; floating-point arithmetic treated as real arithmetic',
  'The unit test of the component feeds two or three transitions of one matrix and checks no sample; messages during a running transition, stored transitions that interrupt one, several objects and starts inside of a block are not tested.',
  ['src/libpanningdsp/panning_gain_matrix.cpp', 'src/libpanningdsp/panning_gain_matrix.hpp', 'src/libpanningdsp/panning_matrix_parameter.cpp', 'src/libpanningdsp/panning_matrix_parameter.hpp'],
  [('messages', 'src/libpanningdsp/panning_gain_matrix.cpp updateTransition(s), process'), ('block', 'src/libpanningdsp/panning_gain_matrix.cpp processAudio'), ('segment', 'src/libpanningdsp/panning_gain_matrix.cpp processAudioSingleSlope, scaleSignal'), ('message data', 'src/libpanningdsp/panning_matrix_parameter.cpp')],
  'time stamps advance by one period per call (runtime, P06); efl kernels by their contracts (P01), matrices and arrays by theirs (P02); message ports by P11'),
]
