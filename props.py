"""Property registry: which units and which driver decide each property."""
import os
from irv import front
from units import efl

EFLREF = ['libefl/reference/vector_functions.cpp']
SIMDTU = [(('libefl/intel_x86_64/vector_%s.cpp' % s), efl.SIMD[f]) for s in ('multiply', 'multiply_add', 'ramp_scaling') for f in efl.SIMD]
EFLSRC = EFLREF + SIMDTU + ['libefl/vector_functions.cpp', 'libefl/initialise_library.cpp', 'libefl/intel_x86_64/initialise_library.cpp',
                            'libefl/intel_x86_64/cpu_features.cpp', 'libefl/error_codes.cpp']
def _all(d, skip=()):
    import glob
    from irv import front
    return sorted(os.path.relpath(f, front.SRC) for f in glob.glob(os.path.join(front.SRC, d, '*.cpp')) if os.path.basename(f) not in skip)


# runtime system: every source of libvisr and librrl in the working tree
FLOWSRC = _all('libvisr') + _all('libvisr/impl') + _all('librrl', ('runtime_profiler.cpp',)) + ['librbbl/circular_buffer.cpp'] + EFLSRC + ['libefl/basic_matrix.cpp', 'libefl/basic_vector.cpp']
# value types of libpml
PARAMSRC = ['vector_parameter', 'matrix_parameter', 'scalar_parameter', 'string_parameter', 'signal_routing_parameter', 'interpolation_parameter', 'object_vector', 'biquad_parameter', 'filter_routing_parameter',
            'sparse_gain_routing_parameter', 'time_frequency_parameter', 'listener_position']
HERE = os.path.dirname(os.path.abspath(__file__))
CPP = lambda n: os.path.join(HERE, 'units', 'cpp', n)

PROPS = {
    'P01': {'units': [('efl',)], 'tus': EFLREF + SIMDTU,
            'driver': {'src': 'P01.cpp', 'sources': EFLSRC + ['libefl/matrix_functions.cpp'], 'what': 'random lengths 0..300, alignments, offsets, aliasing, all types and SIMD variants against a long double oracle'}},
    'P02': {'units': [('arrays',)], 'tus': [CPP('arrays.cpp'), 'libefl/basic_vector.cpp'],
            'driver': {'src': 'P02.cpp', 'sources': EFLSRC, 'what': 'random histories of AlignedArray/BasicVector/BasicMatrix operations against a shadow model under ASan'}},
    'P03': {'units': [('conv',)], 'tus': ['libefl/reference/vector_conversions.cpp'],
            'driver': {'src': 'P03.cpp', 'sources': ['libefl/reference/vector_conversions.cpp', 'libefl/vector_conversions.cpp'], 'what': 'all 36 type pairs, four layouts, random lengths, strides, alignments, ties and extreme values, against C++ conversions, under ASan'}},
    'P04': {'units': [('circbuf',)], 'tus': ['librbbl/circular_buffer.cpp'],
            'driver': {'src': 'P04.cpp', 'sources': ['librbbl/circular_buffer.cpp'] + EFLSRC, 'what': 'random write/commit/read histories against a list of all samples ever written, under ASan'}},
    'P05': {'units': [('flexbuf',)], 'tus': ['librrl/flexible_buffer_wrapper.cpp'],
            'driver': {'src': 'P05.cpp', 'sources': FLOWSRC, 'what': 'random call sizes, layouts, periods and channel counts around a real signal flow, against a per-sample oracle, under ASan'}},
    'P07': {'units': [('gains',)], 'tus': ['librbbl/gain_matrix.cpp', 'librbbl/gain_fader.cpp'],
            'driver': {'src': 'P07.cpp', 'sources': ['librbbl/gain_matrix.cpp', 'librbbl/gain_fader.cpp'] + EFLSRC + ['libefl/basic_matrix.cpp', 'libefl/basic_vector.cpp'],
                       'what': 'random histories of setNewGains/process with interpolation lengths that are not multiples of the block, against a double-precision gain trajectory'}},
    'P08': {'units': [('delay',)], 'tus': ['libefl/lagrange_coefficient_calculator.cpp', 'librbbl/lagrange_interpolator.cpp', 'librbbl/multichannel_delay_line.cpp'],
            'driver': {'src': 'P08.cpp', 'sources': ['libefl/lagrange_coefficient_calculator.cpp', 'librbbl/lagrange_interpolator.cpp', 'librbbl/multichannel_delay_line.cpp', 'librbbl/fractional_delay_base.cpp', 'librbbl/fractional_delay_factory.cpp', 'librbbl/circular_buffer.cpp', 'libefl/basic_vector.cpp', 'libefl/basic_matrix.cpp'] + EFLSRC,
                       'what': 'random write/interpolate histories, all orders, policies, float and double, delays up to the maximum, against Lagrange interpolation of the whole input stream, under ASan'}},
    'P10': {'units': [('iir',)], 'tus': ['libefl/reference/filter_functions.cpp', 'librcl/biquad_iir_filter.cpp'],
            'driver': {'src': 'P10.cpp', 'sources': FLOWSRC + ['libefl/filter_functions.cpp', 'libefl/reference/filter_functions.cpp', 'librcl/biquad_iir_filter.cpp', 'librbbl/biquad_coefficient.cpp', 'libpml/biquad_parameter.cpp', 'libpml/double_buffering_protocol.cpp', 'libpml/matrix_parameter_config.cpp', 'libpml/empty_parameter_config.cpp', 'libpml/vector_parameter_config.cpp'],
                       'what': 'random cascades, strides, alignments, histories of coefficient updates (setters and control port) against the difference equation in double precision'}},
    'P09': {'units': [('comps',)], 'tus': ['librcl/delay_vector.cpp', 'librcl/delay_matrix.cpp', 'librcl/gain_vector.cpp'],
            'driver': {'src': 'P09.cpp', 'sources': FLOWSRC + ['librcl/delay_vector.cpp', 'librcl/delay_matrix.cpp', 'librcl/gain_vector.cpp', 'librbbl/gain_fader.cpp', 'libefl/lagrange_coefficient_calculator.cpp', 'librbbl/lagrange_interpolator.cpp', 'librbbl/multichannel_delay_line.cpp', 'librbbl/fractional_delay_base.cpp', 'librbbl/fractional_delay_factory.cpp', 'libpml/double_buffering_protocol.cpp', 'libpml/matrix_parameter.cpp', 'libpml/vector_parameter.cpp', 'libpml/matrix_parameter_config.cpp', 'libpml/vector_parameter_config.cpp'],
                       'libs': ['-lsndfile', '-lboost_filesystem', '-lboost_system'], 'what': 'random histories of gain and delay updates (setters and control ports) and blocks, all interpolation orders and policies, against linear parameter trajectories and Lagrange interpolation of the input stream'}},
    'P11': {'units': [('protocols',), ('paramvalues',)], 'tus': ['libpml/double_buffering_protocol.cpp', 'libpml/message_queue_protocol.cpp', 'libpml/shared_data_protocol.cpp'] + ['libpml/%s.cpp' % x for x in PARAMSRC],
            'driver': {'src': 'P11.cpp', 'sources': FLOWSRC + ['libpml/double_buffering_protocol.cpp', 'libpml/message_queue_protocol.cpp', 'libpml/shared_data_protocol.cpp'] + ['libpml/%s.cpp' % x for x in PARAMSRC + ['matrix_parameter_config', 'vector_parameter_config', 'empty_parameter_config', 'time_frequency_parameter_config']] + ['librbbl/%s.cpp' % x for x in ('biquad_coefficient', 'filter_routing', 'float_sequence', 'index_sequence', 'interpolation_parameter', 'parametric_iir_coefficient', 'position_3d', 'quaternion', 'sparse_gain_routing')] + _all('libobjectmodel'),
                       'libs': ['-lsndfile', '-lboost_filesystem', '-lboost_system'],
                       'what': 'random histories of connect, disconnect, write, swap, reset, enqueue, pop and clear on all three protocols against reference models; clone and assign of every parameter type'}},
    'P06': {'units': [('flow',)], 'tus': ['librrl/audio_signal_flow.cpp', 'librrl/signal_routing_internal.cpp', 'libvisr/impl/time_implementation.cpp', 'libvisr/audio_port_base.cpp', 'libvisr/impl/audio_port_base_implementation.cpp'],
            'driver': {'src': 'P06.cpp', 'sources': FLOWSRC + ['libpml/double_buffering_protocol.cpp', 'libpml/vector_parameter.cpp', 'libpml/vector_parameter_config.cpp', 'libpml/matrix_parameter_config.cpp'],
                       'libs': ['-lsndfile', '-lboost_filesystem', '-lboost_system'],
                       'what': 'random nested signal flows (float and double ports, empty ports, permuted and shared channels, pass-through, parameter connections) run block by block against an evaluation of the graph; invalid flows must be rejected'}},
    'P12': {'units': [('mix',)], 'tus': ['librcl/add.cpp', 'librcl/null_source.cpp', 'librcl/signal_routing.cpp', 'librcl/gain_matrix.cpp', 'librcl/sparse_gain_matrix.cpp'],
            'driver': {'src': 'P12.cpp', 'sources': FLOWSRC + ['librcl/add.cpp', 'librcl/null_source.cpp', 'librcl/signal_routing.cpp', 'librcl/gain_matrix.cpp', 'librcl/sparse_gain_matrix.cpp', 'librbbl/gain_matrix.cpp', 'librbbl/gain_fader.cpp', 'librbbl/sparse_gain_routing.cpp', 'librbbl/index_sequence.cpp', 'librbbl/float_sequence.cpp', 'libpml/double_buffering_protocol.cpp', 'libpml/message_queue_protocol.cpp', 'libpml/shared_data_protocol.cpp', 'libpml/signal_routing_parameter.cpp', 'libpml/sparse_gain_routing_parameter.cpp', 'libpml/vector_parameter.cpp', 'libpml/vector_parameter_config.cpp', 'libpml/matrix_parameter.cpp', 'libpml/matrix_parameter_config.cpp', 'libpml/empty_parameter_config.cpp'],
                       'libs': ['-lsndfile', '-lboost_filesystem', '-lboost_system'],
                       'what': 'random widths, routings, gains and histories of updates (setters and control ports) of all mixing components against direct sums'}},
    'P13': {'units': [('convol',)], 'tus': ['librbbl/core_convolver_uniform.cpp', 'librbbl/multichannel_convolver_uniform.cpp', 'librbbl/crossfading_convolver_uniform.cpp', 'librbbl/interpolating_convolver_uniform.cpp', 'librcl/fir_filter_matrix.cpp', 'librcl/crossfading_fir_filter_matrix.cpp', 'librcl/interpolating_fir_filter_matrix.cpp'],
            'driver': {'src': 'P13.cpp', 'sources': FLOWSRC + ['librcl/fir_filter_matrix.cpp', 'librcl/crossfading_fir_filter_matrix.cpp', 'librcl/interpolating_fir_filter_matrix.cpp', 'librbbl/core_convolver_uniform.cpp', 'librbbl/multichannel_convolver_uniform.cpp', 'librbbl/crossfading_convolver_uniform.cpp', 'librbbl/interpolating_convolver_uniform.cpp', 'librbbl/interpolation_parameter.cpp', 'librbbl/filter_routing.cpp', ('librbbl/fft_wrapper_factory.cpp', ['-UBUILD_FFTS']), 'librbbl/index_sequence.cpp', 'librbbl/float_sequence.cpp', 'librbbl/kiss_fft_wrapper_float.cpp', 'librbbl/kiss_fft_wrapper_double.cpp', '../3rd/kissfft/kiss_fft_float.c', '../3rd/kissfft/kiss_fft_double.c', '../3rd/kissfft/kiss_fftr_float.c', '../3rd/kissfft/kiss_fftr_double.c', 'libpml/double_buffering_protocol.cpp', 'libpml/message_queue_protocol.cpp', 'libpml/shared_data_protocol.cpp', 'libpml/empty_parameter_config.cpp', 'libpml/filter_routing_parameter.cpp', 'libpml/interpolation_parameter.cpp', 'libpml/indexed_value_parameter.cpp'],
                       'flags': ['-I' + os.path.join(front.REPO, '3rd/kissfft')], 'libs': ['-lsndfile', '-lboost_filesystem', '-lboost_system'],
                       'what': 'random sizes, filters, routings and histories of updates of all convolvers and filter components against the direct convolution in double precision'}},
    'P14': {'units': [('panning',)], 'tus': ['libpanning/VBAP.cpp', 'librcl/panning_calculator.cpp'],
            'driver': {'src': 'P14.cpp', 'sources': FLOWSRC + ['libpanning/VBAP.cpp', 'libpanning/LoudspeakerArray.cpp', 'libpanning/XYZ.cpp', 'librcl/panning_calculator.cpp'] + _all('libobjectmodel', ()) + ['libpml/object_vector.cpp', 'libpml/listener_position.cpp', 'libpml/matrix_parameter.cpp', 'libpml/matrix_parameter_config.cpp', 'libpml/empty_parameter_config.cpp', 'libpml/double_buffering_protocol.cpp', 'libpml/shared_data_protocol.cpp', 'librbbl/biquad_coefficient.cpp', 'librbbl/parametric_iir_coefficient.cpp', 'librbbl/index_sequence.cpp', 'librbbl/float_sequence.cpp', 'librbbl/position_3d.cpp', 'librbbl/quaternion.cpp'],
                       'libs': ['-lsndfile', '-lboost_filesystem', '-lboost_system'],
                       'what': 'random loudspeaker arrays, listener and source positions and object vectors against an independent computation of the panning gains'}},
    'P15': {'units': [('listener',)], 'tus': ['librcl/listener_compensation.cpp'],
            'driver': {'src': 'P15.cpp', 'sources': FLOWSRC + ['librcl/listener_compensation.cpp', 'libpanning/LoudspeakerArray.cpp', 'libpanning/XYZ.cpp', 'libpml/listener_position.cpp', 'libpml/vector_parameter.cpp', 'libpml/vector_parameter_config.cpp', 'libpml/empty_parameter_config.cpp', 'libpml/double_buffering_protocol.cpp', 'librbbl/biquad_coefficient.cpp', 'librbbl/parametric_iir_coefficient.cpp', 'librbbl/index_sequence.cpp', 'librbbl/float_sequence.cpp', 'librbbl/position_3d.cpp', 'librbbl/quaternion.cpp'],
                       'libs': ['-lsndfile', '-lboost_filesystem', '-lboost_system'],
                       'what': 'random arrays with virtual loudspeakers and listener movements against the distances, under ASan'}},
    'P16': {'units': [('objects',), ('allrad',)],
            'tus': ['librcl/%s.cpp' % x for x in ('diffusion_gain_calculator', 'object_gain_eq_calculator', 'channel_object_routing_calculator', 'hoa_allrad_gain_calculator')] + ['libpanning/AllRAD.cpp', 'libefl/matrix_functions.cpp'],
            'driver': {'src': 'P16.cpp', 'sources': FLOWSRC + _all('libobjectmodel') + _all('libpanning') + ['libefl/matrix_functions.cpp']
                       + ['librcl/%s.cpp' % x for x in ('diffusion_gain_calculator', 'object_gain_eq_calculator', 'channel_object_routing_calculator', 'hoa_allrad_gain_calculator')]
                       + ['libpml/%s.cpp' % x for x in ('listener_position', 'vector_parameter', 'vector_parameter_config', 'matrix_parameter', 'matrix_parameter_config', 'biquad_parameter', 'object_vector', 'signal_routing_parameter', 'empty_parameter_config', 'double_buffering_protocol', 'shared_data_protocol')]
                       + ['librbbl/%s.cpp' % x for x in ('biquad_coefficient', 'parametric_iir_coefficient', 'parametric_iir_coefficient_calculator', 'index_sequence', 'float_sequence', 'position_3d', 'quaternion')],
                       'libs': ['-lsndfile', '-lboost_filesystem', '-lboost_system'],
                       'what': 'random object scenes, arrays and decoders against the definitions, under ASan'}},
    'P18': {'units': [('stft',)], 'tus': ['librcl/time_frequency_transform.cpp', 'librcl/time_frequency_inverse_transform.cpp', 'libpml/time_frequency_parameter.cpp'],
            'driver': {'src': 'P18.cpp', 'sources': FLOWSRC + ['librcl/time_frequency_transform.cpp', 'librcl/time_frequency_inverse_transform.cpp', 'libpml/time_frequency_parameter.cpp', 'libpml/time_frequency_parameter_config.cpp', ('librbbl/fft_wrapper_factory.cpp', ['-UBUILD_FFTS']), 'librbbl/kiss_fft_wrapper_float.cpp', 'librbbl/kiss_fft_wrapper_double.cpp', '../3rd/kissfft/kiss_fft_float.c', '../3rd/kissfft/kiss_fft_double.c', '../3rd/kissfft/kiss_fftr_float.c', '../3rd/kissfft/kiss_fftr_double.c', 'libpml/shared_data_protocol.cpp', 'libpml/double_buffering_protocol.cpp', 'libpml/vector_parameter.cpp', 'libpml/vector_parameter_config.cpp'],
                       'flags': ['-I' + os.path.join(front.REPO, '3rd/kissfft')], 'libs': ['-lsndfile', '-lboost_filesystem', '-lboost_system'],
                       'what': 'random sizes, windows, hops, normalisations and signals: analysis frames and overlap-add output against direct sums in double precision; storage of the time-frequency parameter'}},
    'P19': {'units': [('rotation',)], 'tus': ['librbbl/quaternion.cpp', 'librbbl/position_3d.cpp', 'libpml/listener_position.cpp', 'librcl/position_decoder.cpp'],
            'driver': {'src': 'P19.cpp', 'sources': FLOWSRC + ['librcl/position_decoder.cpp', 'libpml/listener_position.cpp', 'libpml/string_parameter.cpp', 'libpml/empty_parameter_config.cpp', 'libpml/double_buffering_protocol.cpp', 'libpml/message_queue_protocol.cpp', 'libpml/shared_data_protocol.cpp', 'librbbl/position_3d.cpp', 'librbbl/quaternion.cpp'],
                       'libs': ['-lsndfile', '-lboost_filesystem', '-lboost_system'],
                       'what': 'random rotations, positions, interpolations and histories of tracking messages of several faces against rotation matrices in extended precision, under ASan'}},
    'P20': {'units': [('transitions',)], 'tus': ['libpanningdsp/panning_gain_matrix.cpp', 'libpanningdsp/panning_matrix_parameter.cpp'],
            'driver': {'src': 'P20.cpp', 'sources': FLOWSRC + ['libpanningdsp/panning_gain_matrix.cpp', 'libpanningdsp/panning_matrix_parameter.cpp', 'libpml/matrix_parameter_config.cpp', 'libpml/double_buffering_protocol.cpp', 'libpml/shared_data_protocol.cpp'],
                       'libs': ['-lsndfile', '-lboost_filesystem', '-lboost_system'],
                       'what': 'random histories of time-stamped transitions and blocks against the documented transition semantics, under ASan; storage of the parameter'}},
    'P17': {'units': [('eq',)], 'tus': ['librbbl/parametric_iir_coefficient_calculator.cpp', 'librbbl/parametric_iir_coefficient.cpp'],
            'driver': {'src': 'P17.cpp', 'sources': ['librbbl/%s.cpp' % x for x in ('biquad_coefficient', 'parametric_iir_coefficient', 'parametric_iir_coefficient_calculator')],
                       'what': 'random equaliser settings: frequency responses against the bilinear transform of the analogue prototypes, under ASan'}},
}
