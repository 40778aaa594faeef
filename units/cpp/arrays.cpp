// Instantiates the header templates of libefl for the verifier; no code of its own.
#include <libefl/aligned_array.hpp>
#include <libefl/alignment.hpp>
#include <libefl/basic_matrix.hpp>
#include <libefl/basic_vector.hpp>
#include <complex>
#include <cstdint>
namespace visr { namespace efl {
template class AlignedArray<float>;
template class AlignedArray<double>;
template class AlignedArray<std::complex<float>>;
template class AlignedArray<std::complex<double>>;
template class BasicVector<float>;
template class BasicVector<double>;
template class BasicMatrix<float>;
template class BasicMatrix<double>;
template bool checkAlignment<float>( float const *, std::size_t );
template bool checkAlignment<double>( double const *, std::size_t );
template bool checkAlignment<std::complex<float>>( std::complex<float> const *, std::size_t );
template bool checkAlignment<std::complex<double>>( std::complex<double> const *, std::size_t );
template bool checkAlignment<std::int8_t>( std::int8_t const *, std::size_t );
template bool checkAlignment<std::int16_t>( std::int16_t const *, std::size_t );
} }
bool (*use_pow2)( std::size_t ) = &visr::efl::alignmentIsPowerOfTwo;
std::size_t (*use_next)( std::size_t, std::size_t ) = &visr::efl::nextAlignedSize;
