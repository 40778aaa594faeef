From 8ef3a7a1aa6d12d76c3e7c0ec1297f3fac01bae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:07 +0000
Subject: [PATCH 01/43] fix: vectorRamp: keep the midpoint for single-element
 ramps that include both or neither end point

---
 src/libefl/reference/vector_functions_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libefl/reference/vector_functions_impl.hpp b/src/libefl/reference/vector_functions_impl.hpp
index 3455d68..63a5a3c 100644
--- a/src/libefl/reference/vector_functions_impl.hpp
+++ b/src/libefl/reference/vector_functions_impl.hpp
@@ -71,7 +71,10 @@ ErrorCode vectorRamp( T * const dest, std::size_t numElements, T startVal, T end
     {
       dest[0] = static_cast<T>(0.5f)*(startVal+endVal);
     }
-    dest[0] = startInclusive ? startVal : endVal;
+    else
+    {
+      dest[0] = startInclusive ? startVal : endVal;
+    }
     return noError;
   }
   std::size_t const numSteps = numElements + 1 - (startInclusive ? 1 : 0) - (endInclusive ? 1 : 0);
-- 
2.43.0


From ffe39725c05ac5a41e0def72d70e98c59c58f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:07 +0000
Subject: [PATCH 02/43] fix: x86_64 vectorMultiplyConstantAddInplace: check the
 alignment argument and do not use an aligned store on unaligned data

---
 src/libefl/intel_x86_64/vector_multiply_add.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libefl/intel_x86_64/vector_multiply_add.cpp b/src/libefl/intel_x86_64/vector_multiply_add.cpp
index 0958bbb..db59588 100644
--- a/src/libefl/intel_x86_64/vector_multiply_add.cpp
+++ b/src/libefl/intel_x86_64/vector_multiply_add.cpp
@@ -345,6 +345,9 @@ ErrorCode vectorMultiplyConstantAddInplace<float, Feature::VISR_SIMD_FEATURE>( f
 					    std::size_t numElements,
 					    std::size_t alignment /*= 0*/ )
 {
+  if( not checkAlignment( factor, alignment ) ) return alignmentError;
+  if( not checkAlignment( accumulator, alignment ) ) return alignmentError;
+
   float const * x = factor;
   float * y = accumulator;
   std::size_t cnt = numElements;
@@ -410,7 +413,7 @@ ErrorCode vectorMultiplyConstantAddInplace<float, Feature::VISR_SIMD_FEATURE>( f
         __m128 mulRes = _mm_mul_ps( a, c );
         acc = _mm_add_ps( mulRes, acc );
 #endif
-    _mm_store_ps( y, acc );
+    _mm_storeu_ps( y, acc );
     y += 4;
   }
   while( cnt > 0 ) // Remaining scalar elements
@@ -438,6 +441,9 @@ ErrorCode vectorMultiplyConstantAddInplace<std::complex<float>, Feature::VISR_SI
 					    std::size_t numElements,
 					    std::size_t alignment /*= 0*/ )
 {
+  if( not checkAlignment( factor, alignment ) ) return alignmentError;
+  if( not checkAlignment( accumulator, alignment ) ) return alignmentError;
+
   float const * x = reinterpret_cast<float const *>(factor);
   float * y = reinterpret_cast<float *>(accumulator);
   std::size_t cnt = numElements;
-- 
2.43.0


From d96bbd7d27b393be137c76929048f70d395163e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:24 +0000
Subject: [PATCH 03/43] fix: BasicMatrix move assignment: keep the object
 unchanged if the alignments do not match

---
 src/libefl/basic_matrix.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/libefl/basic_matrix.hpp b/src/libefl/basic_matrix.hpp
index f772176..c9f1e69 100644
--- a/src/libefl/basic_matrix.hpp
+++ b/src/libefl/basic_matrix.hpp
@@ -75,7 +75,19 @@ public:
 
   BasicMatrix( BasicMatrix<ElementType> && rhs ) = default;
 
-  BasicMatrix<ElementType> & operator=( BasicMatrix<ElementType> && rhs ) = default;
+  /**
+   * Move assignment operator.
+   * @throw std::logic_error if the alignment of \p rhs does not match this object. In this case both matrices are left unchanged.
+   */
+  BasicMatrix<ElementType> & operator=( BasicMatrix<ElementType> && rhs )
+  {
+    // Move the data first, because this throws if the alignments do not match.
+    mData = std::move( rhs.mData );
+    mStride = rhs.mStride;
+    mNumberOfRows = rhs.mNumberOfRows;
+    mNumberOfColumns = rhs.mNumberOfColumns;
+    return *this;
+  }
 
   ~BasicMatrix()
   {
-- 
2.43.0


From 7c55de8e28daadf88aac9cbbe64fe1fc0b0e6814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:30 +0000
Subject: [PATCH 04/43] fix: FlexibleBufferWrapper: honour the playback sample
 stride when advancing the output pointer

---
 src/librrl/flexible_buffer_wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librrl/flexible_buffer_wrapper.cpp b/src/librrl/flexible_buffer_wrapper.cpp
index 48dffc4..101b556 100644
--- a/src/librrl/flexible_buffer_wrapper.cpp
+++ b/src/librrl/flexible_buffer_wrapper.cpp
@@ -158,7 +158,8 @@ void FlexibleBufferWrapper::process( SampleType const * captureSamples,
 
     SampleType const * readPtr =
         mOutputBuffer.getReadPointer( 0, mOutputBufferLevel );
-    SampleType * outputWritePtr = playbackSamples + processedFrames;
+    SampleType * outputWritePtr =
+        playbackSamples + processedFrames * playbackSampleStride;
     for( std::size_t chIdx{ 0 }; chIdx < numPlaybackChannels; ++chIdx )
     {
       copyBuffer( readPtr + chIdx * mOutputBuffer.stride(),
-- 
2.43.0


From 9e53beeb83d2db6d72b7b330c137b2b114cb7b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:57 +0000
Subject: [PATCH 05/43] fix: FlexibleBufferWrapper: support flows without
 capture or playback channels

---
 src/librrl/flexible_buffer_wrapper.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/librrl/flexible_buffer_wrapper.cpp b/src/librrl/flexible_buffer_wrapper.cpp
index 101b556..1f201da 100644
--- a/src/librrl/flexible_buffer_wrapper.cpp
+++ b/src/librrl/flexible_buffer_wrapper.cpp
@@ -84,8 +84,11 @@ void FlexibleBufferWrapper::process( SampleType const * const * captureSamples,
     if( newBufferLevel == cInternalPeriod )
     {
       assert( mInputBufferLevel == cInternalPeriod );
-      SampleType const * procInputPtr{ mInputBuffer.getReadPointer(
-          0, cInternalPeriod ) };
+      // getReadPointer() must not be called if there are no channels.
+      SampleType const * procInputPtr{
+          numCaptureChannels > 0
+              ? mInputBuffer.getReadPointer( 0, cInternalPeriod )
+              : nullptr };
       SampleType * procOutputPtr{ mOutputBuffer.getFirstWritePointer() };
       mFlow.process( procInputPtr, mInputBuffer.stride(), 1, procOutputPtr,
                      mOutputBuffer.stride(), 1 );
@@ -95,7 +98,9 @@ void FlexibleBufferWrapper::process( SampleType const * const * captureSamples,
     }
 
     SampleType const * readPtr =
-        mOutputBuffer.getReadPointer( 0, mOutputBufferLevel );
+        numPlaybackChannels > 0
+            ? mOutputBuffer.getReadPointer( 0, mOutputBufferLevel )
+            : nullptr;
     for( std::size_t chIdx{ 0 }; chIdx < numPlaybackChannels; ++chIdx )
     {
       copyBuffer( readPtr + chIdx * mOutputBuffer.stride(),
@@ -146,8 +151,11 @@ void FlexibleBufferWrapper::process( SampleType const * captureSamples,
     if( newBufferLevel == cInternalPeriod )
     {
       assert( mInputBufferLevel == cInternalPeriod );
-      SampleType const * procInputPtr{ mInputBuffer.getReadPointer(
-          0, cInternalPeriod ) };
+      // getReadPointer() must not be called if there are no channels.
+      SampleType const * procInputPtr{
+          numCaptureChannels > 0
+              ? mInputBuffer.getReadPointer( 0, cInternalPeriod )
+              : nullptr };
       SampleType * procOutputPtr{ mOutputBuffer.getFirstWritePointer() };
       mFlow.process( procInputPtr, mInputBuffer.stride(), 1, procOutputPtr,
                      mOutputBuffer.stride(), 1 );
@@ -157,7 +165,9 @@ void FlexibleBufferWrapper::process( SampleType const * captureSamples,
     }
 
     SampleType const * readPtr =
-        mOutputBuffer.getReadPointer( 0, mOutputBufferLevel );
+        numPlaybackChannels > 0
+            ? mOutputBuffer.getReadPointer( 0, mOutputBufferLevel )
+            : nullptr;
     SampleType * outputWritePtr =
         playbackSamples + processedFrames * playbackSampleStride;
     for( std::size_t chIdx{ 0 }; chIdx < numPlaybackChannels; ++chIdx )
-- 
2.43.0


From fcfc6d0417ef29657b2d6c27b72b6b6c0a6df989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:46 +0000
Subject: [PATCH 06/43] fix: GainMatrix: a transition replaced before its first
 block must not jump to its target

---
 src/librbbl/gain_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/gain_matrix.cpp b/src/librbbl/gain_matrix.cpp
index eab873e..5ccecf8 100644
--- a/src/librbbl/gain_matrix.cpp
+++ b/src/librbbl/gain_matrix.cpp
@@ -126,8 +126,8 @@ void GainMatrix<ElementType>::setGainsInternal( efl::BasicMatrix<ElementType> co
   {
     mPreviousGains.swap( mNextGains );
   }
-  else // previous transition is not yet complete.
-  {
+  else if( mInterpolationCounter > 0 ) // previous transition is not yet complete.
+  {                                    // If it has not been started, the previous gains are still in effect and need not to be adjusted.
     // Set the previous gains according to the currently reached interpolation ratio.
     ElementType const ratio = std::min( static_cast<ElementType>(1.0),
       static_cast<ElementType>(mInterpolationCounter * mBlockSize ) / static_cast<ElementType>(mFader.interpolationSamples() ) );
-- 
2.43.0


From 2d5b53429e65dd54021728392b5266881bdd55f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:51 +0000
Subject: [PATCH 07/43] fix: MultichannelDelayLine: report the method delay
 instead of the maximum delay

---
 src/librbbl/multichannel_delay_line.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/multichannel_delay_line.cpp b/src/librbbl/multichannel_delay_line.cpp
index 4d9634b..23cd515 100644
--- a/src/librbbl/multichannel_delay_line.cpp
+++ b/src/librbbl/multichannel_delay_line.cpp
@@ -59,13 +59,13 @@ std::size_t MultichannelDelayLine<SampleType>::blockLength() const
 template< typename SampleType >
 SampleType MultichannelDelayLine<SampleType>::methodDelaySeconds() const
 {
-  return cMaxDelaySamples / cSamplingFrequency;
+  return cMethodDelay / cSamplingFrequency;
 }
 
 template< typename SampleType >
 SampleType MultichannelDelayLine<SampleType>::methodDelaySamples() const
 {
-  return cMaxDelaySamples;
+  return cMethodDelay;
 }
 
 template< typename SampleType >
-- 
2.43.0


From 502bd7c8500f9082b4d9ec587604fba198a167ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:26 +0000
Subject: [PATCH 08/43] fix: FractionalDelayFactory: register the interpolators
 for double precision

---
 src/librbbl/fractional_delay_factory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/librbbl/fractional_delay_factory.cpp b/src/librbbl/fractional_delay_factory.cpp
index d228ce8..4ee2066 100644
--- a/src/librbbl/fractional_delay_factory.cpp
+++ b/src/librbbl/fractional_delay_factory.cpp
@@ -35,6 +35,7 @@ public:
 };
 
 static TableInitializer<float> initializer;
+static TableInitializer<double> initializerDouble;
 
 } // unnamed namespace
 
-- 
2.43.0


From 8c89b0fd591141ea24908cdefffc5db44eeec272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:00 +0000
Subject: [PATCH 09/43] fix: MultichannelDelayLine: the ring buffer must hold
 the support of the interpolation filter at the maximum delay

---
 src/librbbl/multichannel_delay_line.cpp |  2 +-
 src/librbbl/multichannel_delay_line.hpp | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/librbbl/multichannel_delay_line.cpp b/src/librbbl/multichannel_delay_line.cpp
index 23cd515..b3c5d20 100644
--- a/src/librbbl/multichannel_delay_line.cpp
+++ b/src/librbbl/multichannel_delay_line.cpp
@@ -31,9 +31,9 @@ MultichannelDelayLine<SampleType>::MultichannelDelayLine( std::size_t numberOfCh
   , cSamplingFrequency( static_cast<SampleType>(samplingFrequency) )
   , cMaxDelaySamples( std::ceil( maxDelaySeconds * samplingFrequency ) )
   , cMethodDelayPolicy( methodDelayPolicy )
-  , mRingbuffer( numberOfChannels, static_cast<std::size_t>(cMaxDelaySamples)+blockLength, alignment ) // Ideally this would include the implementation delay.
   , mInterpolator( FractionalDelayFactory<SampleType>::create( interpolationMethod, blockLength ) )
   , cMethodDelay( mInterpolator ? mInterpolator->methodDelay() : static_cast<SampleType>(0.0) )
+  , mRingbuffer( numberOfChannels, static_cast<std::size_t>(cMaxDelaySamples) + static_cast<std::size_t>( std::ceil( 2*cMethodDelay ) ) + blockLength, alignment ) // The interpolation filter extends by the method delay to both sides of the delayed position.
 {
   if( not mInterpolator )
   {
diff --git a/src/librbbl/multichannel_delay_line.hpp b/src/librbbl/multichannel_delay_line.hpp
index cedeb4b..d2bfb62 100644
--- a/src/librbbl/multichannel_delay_line.hpp
+++ b/src/librbbl/multichannel_delay_line.hpp
@@ -163,11 +163,6 @@ private:
    */
   MethodDelayPolicy const cMethodDelayPolicy;
 
-  /**
-   * Circular buffer holding the delayed values.
-   */
-  rbbl::CircularBuffer<SampleType> mRingbuffer;
-
   /**
    * The fractional delay algorihm object.
    * @note this needs to be a shared pointer, because the object is dynamically 
@@ -179,6 +174,12 @@ private:
    * The method delay (implementation delay) of the selected fractional delay algorithm in samples.
    */
   SampleType cMethodDelay;
+
+  /**
+   * Circular buffer holding the delayed values.
+   * @note Declared after the interpolator, because the length depends on the method delay.
+   */
+  rbbl::CircularBuffer<SampleType> mRingbuffer;
 };
 
 } // namespace rbbl
-- 
2.43.0


From b51227db3a6278a9822a660c95fee4ab904ea13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:31 +0000
Subject: [PATCH 10/43] fix: GainVector, DelayVector and DelayMatrix start a
 new transition from the values reached so far

Setting new gains or delays during a running transition is documented to start
from the current interpolated values. GainVector jumped to the previous target
and the delay components combined current and target values with the ratio
inverted, both of which caused discontinuities.
---
 src/librcl/delay_matrix.cpp |  2 +-
 src/librcl/delay_vector.cpp |  2 +-
 src/librcl/gain_vector.cpp  | 14 ++++++++++++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/librcl/delay_matrix.cpp b/src/librcl/delay_matrix.cpp
index 5a27d7f..9576abf 100644
--- a/src/librcl/delay_matrix.cpp
+++ b/src/librcl/delay_matrix.cpp
@@ -176,7 +176,7 @@ namespace
                                            std::size_t alignElements )
   {
     // Note: The standard explicitly allows that the output sequence equals one of the input sequences.
-    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val2-val1) + val1;} );
+    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val1-val2) + val2;} );
     return efl::noError;
   }
 
diff --git a/src/librcl/delay_vector.cpp b/src/librcl/delay_vector.cpp
index 7f4b999..ae4ea22 100644
--- a/src/librcl/delay_vector.cpp
+++ b/src/librcl/delay_vector.cpp
@@ -141,7 +141,7 @@ namespace
                                            std::size_t alignElements )
   {
     // Note: The standard explicitly allows that the output sequence equals one of the input sequences.
-    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val2-val1) + val1;} );
+    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val1-val2) + val2;} );
     return efl::noError;
   }
 
diff --git a/src/librcl/gain_vector.cpp b/src/librcl/gain_vector.cpp
index 97bad89..0f07b40 100644
--- a/src/librcl/gain_vector.cpp
+++ b/src/librcl/gain_vector.cpp
@@ -103,8 +103,18 @@ void GainVector::setGain( efl::BasicVector< SampleType > const & newGains )
     throw std::invalid_argument("GainVector::setGain(): The number of elements in the argument does not match the number of channels.");
   }
 
-  // Copy the current gain value to the previous gain value.
-  if( efl::vectorCopy( mNextGains.data(), mCurrentGains.data(), mNumberOfChannels ) != efl::noError )
+  if( mInterpolationCounter < mInterpolationPeriods )
+  {
+    // A transition is in progress: Start from the gains reached so far.
+    SampleType const ratio = std::min( static_cast<SampleType>(1.0),
+      static_cast<SampleType>(mInterpolationCounter * period()) / static_cast<SampleType>(mFader->interpolationSamples()) );
+    for( std::size_t chIdx(0); chIdx < mNumberOfChannels; ++chIdx )
+    {
+      mCurrentGains[chIdx] += ratio * (mNextGains[chIdx] - mCurrentGains[chIdx]);
+    }
+  }
+  // Otherwise copy the current gain value to the previous gain value.
+  else if( efl::vectorCopy( mNextGains.data(), mCurrentGains.data(), mNumberOfChannels ) != efl::noError )
   {
     throw std::runtime_error( "GainVector::setGain(): Copying of the vector elements failed." );
   }
-- 
2.43.0


From b3df64bfe246fddf13beb0ff18d803f3b72b1a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:20 +0000
Subject: [PATCH 11/43] fix: internal signal routing: use the alignment of the
 sample type of the connection

---
 src/librrl/signal_routing_internal.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librrl/signal_routing_internal.cpp b/src/librrl/signal_routing_internal.cpp
index a379abb..600b048 100644
--- a/src/librrl/signal_routing_internal.cpp
+++ b/src/librrl/signal_routing_internal.cpp
@@ -57,7 +57,8 @@ void SignalRoutingInternal<SampleType>::process()
   for( std::size_t chIdx(0); chIdx < outputWidth; ++chIdx )
   {
     std::size_t const inIdx = mInputIndices[chIdx];
-    efl::ErrorCode const res = efl::vectorCopy( mInput[inIdx], mOutput[chIdx], blockSize, cVectorAlignmentSamples );
+    efl::ErrorCode const res = efl::vectorCopy( mInput[inIdx], mOutput[chIdx], blockSize,
+                                                cVectorAlignmentBytes / sizeof( SampleType ) );
     if( res != efl::noError )
     {
       throw std::runtime_error( "rrl::SignalRoutingInternal: Copying of sample vector failed." );
-- 
2.43.0


From c8f0d72e5ff5b50f504e158db3536a94522da673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:15 +0000
Subject: [PATCH 12/43] fix: checkConnectionIntegrity: reject audio connections
 between different sample types

---
 src/librrl/integrity_checking.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/librrl/integrity_checking.cpp b/src/librrl/integrity_checking.cpp
index e3ca1b4..02515b5 100644
--- a/src/librrl/integrity_checking.cpp
+++ b/src/librrl/integrity_checking.cpp
@@ -151,6 +151,11 @@ namespace // unnamed namespace
         result = false;
         continue;
       }
+      if( connection.first.port()->sampleType() != connection.second.port()->sampleType() )
+      {
+        messages << "The send and receive sample types of the connection " << connection.first << "->" << connection.second << " do not match." << std::endl;
+        result = false;
+      }
       (sendPortEntryIt->second)++;
       (receivePortEntryIt->second) ++;
     }
@@ -170,12 +175,6 @@ namespace // unnamed namespace
         result = false;
         continue;
       }
-      if( recEntry.first.port()->sampleType() != recEntry.first.port()->sampleType() )
-      {
-        messages << "The send and receive sample types of the connection " << recEntry.first << "->" << recEntry.second << "do not match.\n";
-        result = false;
-        continue;
-      }
     }
 
     // Ths might be turned into a warning instead, but requiring the user to terminate all dangling outputs reduces potential modelling errors.
-- 
2.43.0


From 12226823f77764c141a8b93c76265fb92466eaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:42 +0000
Subject: [PATCH 13/43] fix: SignalRouting::setup: create the control port if
 an initial routing is given

---
 src/librcl/signal_routing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/signal_routing.cpp b/src/librcl/signal_routing.cpp
index 9886466..e1a0ae1 100644
--- a/src/librcl/signal_routing.cpp
+++ b/src/librcl/signal_routing.cpp
@@ -40,7 +40,7 @@ void SignalRouting::setup( std::size_t inputWidth,
                            pml::SignalRoutingParameter const & initialRouting,
                            bool controlPort /*= false*/)
 {
-  setup( inputWidth, outputWidth );
+  setup( inputWidth, outputWidth, controlPort );
   for( auto e : initialRouting )
   {
     pml::SignalRoutingParameter::IndexType const in = e.input;
-- 
2.43.0


From 9bafad7909d59f324776e0709d98f08a7d565668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:42 +0000
Subject: [PATCH 14/43] fix: SignalRouting: do not read from the input for
 routings without an input index

---
 src/librcl/signal_routing.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librcl/signal_routing.cpp b/src/librcl/signal_routing.cpp
index e1a0ae1..4864799 100644
--- a/src/librcl/signal_routing.cpp
+++ b/src/librcl/signal_routing.cpp
@@ -92,6 +92,10 @@ void SignalRouting::process()
   {
     pml::SignalRoutingParameter::IndexType inputIdx = std::get<1>( *routeIt );
     pml::SignalRoutingParameter::IndexType outputIdx = std::get<0>( *routeIt );
+    if( inputIdx == pml::SignalRoutingParameter::cInvalidIndex ) // Legal, denotes an output without a routing.
+    {
+      continue;
+    }
     efl::ErrorCode res = efl::vectorAddInplace( mInput[inputIdx], mOutput[outputIdx], periodSize, cVectorAlignmentSamples );
     if( res != efl::noError )
     {
-- 
2.43.0


From b78eabd8296aad801628a0a82b8205d942584c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:59 +0000
Subject: [PATCH 15/43] fix: removeRoutingEntry() of the convolvers reported a
 removal for absent entries and used an erased iterator

---
 src/librbbl/crossfading_convolver_uniform.cpp  | 3 ++-
 src/librbbl/multichannel_convolver_uniform.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 2747fcd..80de9cf 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -259,8 +259,9 @@ bool CrossfadingConvolverUniform< SampleType >::removeRoutingEntry(
 {
   RoutingEntry const testEntry( inputIdx, outputIdx, 0, 0.0f );
   auto const eraseRange = mRoutingTable.equal_range( testEntry );
+  bool const found = eraseRange.first != eraseRange.second;
   mRoutingTable.erase( eraseRange.first, eraseRange.second );
-  return eraseRange.first != mRoutingTable.end();
+  return found;
 }
 
 template< typename SampleType >
diff --git a/src/librbbl/multichannel_convolver_uniform.cpp b/src/librbbl/multichannel_convolver_uniform.cpp
index cd91426..6570be6 100644
--- a/src/librbbl/multichannel_convolver_uniform.cpp
+++ b/src/librbbl/multichannel_convolver_uniform.cpp
@@ -128,8 +128,9 @@ bool MultichannelConvolverUniform<SampleType>::removeRoutingEntry( std::size_t i
 {
   RoutingEntry const testEntry( inputIdx, outputIdx, 0, 0.0f );
   auto const eraseRange = mRoutingTable.equal_range( testEntry );
+  bool const found = eraseRange.first != eraseRange.second;
   mRoutingTable.erase( eraseRange.first, eraseRange.second );
-  return eraseRange.first != mRoutingTable.end();
+  return found;
 }
 
 template< typename SampleType>
-- 
2.43.0


From a06f24ff8f25cb3410eac260bb511848e07f8ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:59 +0000
Subject: [PATCH 16/43] fix: CrossfadingConvolverUniform accepted filter
 indices up to twice the number of filter slots in routings

---
 src/librbbl/crossfading_convolver_uniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.hpp b/src/librbbl/crossfading_convolver_uniform.hpp
index 9aff0b0..2e76eac 100644
--- a/src/librbbl/crossfading_convolver_uniform.hpp
+++ b/src/librbbl/crossfading_convolver_uniform.hpp
@@ -112,7 +112,7 @@ public:
 
   std::size_t maxNumberOfFilterEntries() const
   {
-    return mCoreConvolver.maxNumberOfFilterEntries();
+    return mMaxNumFilters;
   }
 
   std::size_t maxFilterLength() const
-- 
2.43.0


From 7c63623f3637f004be5410ac3851ad1490d5898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:59 +0000
Subject: [PATCH 17/43] fix: CrossfadingConvolverUniform::initFilters() loaded
 filters into inactive slots and accepted too many filters

---
 src/librbbl/crossfading_convolver_uniform.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 80de9cf..743c380 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -4,6 +4,7 @@
 
 #include <libefl/vector_functions.hpp>
 
+#include <algorithm>
 #include <complex>
 #include <stdexcept>
 
@@ -274,7 +275,18 @@ template< typename SampleType >
 void CrossfadingConvolverUniform< SampleType >::initFilters(
     efl::BasicMatrix< SampleType > const & newFilters )
 {
+  if( newFilters.numberOfRows() > mMaxNumFilters )
+  {
+    throw std::invalid_argument(
+        "CrossfadingConvolverUniform::initFilters(): The initializer exceeds "
+        "the maximum number of filter entries." );
+  }
   mCoreConvolver.initFilters( newFilters );
+  // The new filters are located in the first filter set. Make them current and
+  // terminate all pending transitions.
+  std::fill( mCurrentFilterOutput.begin(), mCurrentFilterOutput.end(), 0 );
+  std::fill( mCurrentRampBlock.begin(), mCurrentRampBlock.end(),
+             mNumRampBlocks - 1 );
 }
 
 template< typename SampleType >
-- 
2.43.0


From 54b413deea459a5fcfb3c659a98c25d60d992256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:59 +0000
Subject: [PATCH 18/43] fix: setting a filter without starting a transition
 exchanged the roles of old and new filter in a pending crossfade

---
 src/librbbl/crossfading_convolver_uniform.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 743c380..354d3b2 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -310,7 +310,10 @@ void CrossfadingConvolverUniform< SampleType >::setImpulseResponse(
   // TODO: Avoid code duplication in setTransformedFilter().
 
   std::size_t const oldFilterSet = mCurrentFilterOutput[ filterIdx ];
-  std::size_t const newFilterSet = ( oldFilterSet == 0 ) ? 1 : 0;
+  // Without a new transition, the current target filter is replaced, so that a
+  // pending crossfade continues towards the new filter.
+  std::size_t const newFilterSet =
+      startTransition ? ( ( oldFilterSet == 0 ) ? 1 : 0 ) : oldFilterSet;
   std::size_t const newFilterIndex =
       ( newFilterSet == 0 ) ? filterIdx : filterIdx + mMaxNumFilters;
 
@@ -339,7 +342,10 @@ void CrossfadingConvolverUniform< SampleType >::setTransformedFilter(
     std::size_t alignment )
 {
   std::size_t const oldFilterSet = mCurrentFilterOutput[ filterIdx ];
-  std::size_t const newFilterSet = ( oldFilterSet == 0 ) ? 1 : 0;
+  // Without a new transition, the current target filter is replaced, so that a
+  // pending crossfade continues towards the new filter.
+  std::size_t const newFilterSet =
+      startTransition ? ( ( oldFilterSet == 0 ) ? 1 : 0 ) : oldFilterSet;
   std::size_t const newFilterIndex =
       ( newFilterSet == 0 ) ? filterIdx : filterIdx + mMaxNumFilters;
 
-- 
2.43.0


From 990418e785fe670c6a4b287967b7548bebdd6868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:59 +0000
Subject: [PATCH 19/43] fix: CrossfadingConvolverUniform accessed its filter
 state out of bounds for excessive filter indices

---
 src/librbbl/crossfading_convolver_uniform.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 354d3b2..794acb7 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -309,6 +309,12 @@ void CrossfadingConvolverUniform< SampleType >::setImpulseResponse(
 {
   // TODO: Avoid code duplication in setTransformedFilter().
 
+  if( filterIdx >= mMaxNumFilters )
+  {
+    throw std::invalid_argument(
+        "CrossfadingConvolverUniform::setImpulseResponse(): filter index exceeds "
+        "number of filters." );
+  }
   std::size_t const oldFilterSet = mCurrentFilterOutput[ filterIdx ];
   // Without a new transition, the current target filter is replaced, so that a
   // pending crossfade continues towards the new filter.
@@ -341,6 +347,12 @@ void CrossfadingConvolverUniform< SampleType >::setTransformedFilter(
     bool startTransition,
     std::size_t alignment )
 {
+  if( filterIdx >= mMaxNumFilters )
+  {
+    throw std::invalid_argument(
+        "CrossfadingConvolverUniform::setTransformedFilter(): filter index exceeds "
+        "number of filters." );
+  }
   std::size_t const oldFilterSet = mCurrentFilterOutput[ filterIdx ];
   // Without a new transition, the current target filter is replaced, so that a
   // pending crossfade continues towards the new filter.
-- 
2.43.0


From aa0640a521938528fb169553e786cff6b5311342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:01 +0000
Subject: [PATCH 20/43] fix: InterpolatingConvolverUniform exchanged the
 maximum numbers of routings and filters

---
 src/librbbl/interpolating_convolver_uniform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/interpolating_convolver_uniform.cpp b/src/librbbl/interpolating_convolver_uniform.cpp
index d853546..e5452c2 100644
--- a/src/librbbl/interpolating_convolver_uniform.cpp
+++ b/src/librbbl/interpolating_convolver_uniform.cpp
@@ -33,8 +33,8 @@ InterpolatingConvolverUniform< SampleType >::InterpolatingConvolverUniform(
        numberOfOutputs,
        blockLength,
        maxFilterLength,
-       maxFilterEntries,
        maxRoutingPoints,
+       maxRoutingPoints, // One (interpolated) filter for each routing point.
        transitionSamples,
        initialRoutings,
        efl::BasicMatrix< SampleType >(
-- 
2.43.0


From 658a5e59f97a7663b5f564c5077846716f9bea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:01 +0000
Subject: [PATCH 21/43] fix: CoreConvolverUniform silently dropped filter
 partitions if copying the impulse response failed

---
 src/librbbl/core_convolver_uniform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/core_convolver_uniform.cpp b/src/librbbl/core_convolver_uniform.cpp
index 42855b0..6f01490 100644
--- a/src/librbbl/core_convolver_uniform.cpp
+++ b/src/librbbl/core_convolver_uniform.cpp
@@ -238,7 +238,7 @@ transformImpulseResponse( SampleType const * ir, std::size_t irLength, Frequency
       // Multiply the the filter by the computed scaling constants to compensate for the FFT normalisation.
       if( efl::vectorMultiplyConstant( mFilterScalingFactor, ir + startIdx, mTimeDomainTransformBuffer.data(), endIdx - startIdx, std::min( mAlignment, alignment ) ) != efl::noError )
       {
-        std::runtime_error( "CoreConvolverUniform::transformImpulseResponse(): Error while copying data." );
+        throw std::runtime_error( "CoreConvolverUniform::transformImpulseResponse(): Error while copying data." );
       }
     }
     FrequencyDomainType * blockResult = result + partitionIdx * mDftRepresentationSizePadded;
-- 
2.43.0


From 2161e29e854a664e1e3aa9041a321f9cec2a4110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 22/43] fix: PanningCalculator: ignore objects whose channel
 exceeds the number of object channels

---
 src/librcl/panning_calculator.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index ad855a4..060820a 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -219,9 +219,10 @@ void PanningCalculator::process()
         for( std::size_t chIdx(0); chIdx < numChannels; ++chIdx )
         {
           std::size_t const objChannelIdx = co->channelIndex( chIdx );
-          if( chIdx >= mNumberOfObjects )
+          if( objChannelIdx >= mNumberOfObjects )
           {
-            status( StatusMessage::Warning, "Object channel index for channel object (", chIdx,  ") exceeds admissible range." );
+            status( StatusMessage::Warning, "Object channel index for channel object (", objChannelIdx,  ") exceeds admissible range." );
+            continue;
           }
           mTmpGains.zeroFill();
           objectmodel::ChannelObject::OutputChannelList const & outputChannels = co->outputChannel( chIdx );
@@ -260,6 +261,11 @@ void PanningCalculator::process()
         continue;
       }
       objectmodel::Object::ChannelIndex const objChannelIdx = obj.channelIndex(0);
+      if( objChannelIdx >= mNumberOfObjects )
+      {
+        status( StatusMessage::Warning, "Object channel index (", objChannelIdx, ") exceeds admissible range." );
+        continue;
+      }
       objectmodel::DiffuseSource const * ds = dynamic_cast<objectmodel::DiffuseSource const *>(&obj);
       if( ds and diffuseGains )
       {
-- 
2.43.0


From e9a17bf7cded983fa668fbf2e2b72f4c200be501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 23/43] fix: PanningCalculator: skip unknown output labels of
 channel objects

---
 src/librcl/panning_calculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index 060820a..8274594 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -231,7 +231,8 @@ void PanningCalculator::process()
             ChannelLabelLookup::const_iterator findIdx = mLabelLookup.find( outLabel );
             if( findIdx == mLabelLookup.end() )
             {
-              status( StatusMessage::Warning, "Object channel index for channel object (", chIdx, ") exceeds admissible range." );
+              status( StatusMessage::Warning, "Output channel label \"", outLabel, "\" of channel object is not contained in the array configuration." );
+              continue;
             }
             assert( findIdx->second < mNumberOfRegularLoudspeakers ); // The lookup contains only regular loudspeakers
             mTmpGains[findIdx->second] = 1.0f; // Normalisation and direct/diffuse scaling is performed later on
-- 
2.43.0


From ee12c820e9d09afd0862489b8129c31adb996b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 24/43] fix: PanningCalculator: incidence angles of plane waves
 are in degrees

---
 src/librcl/panning_calculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index 8274594..e077476 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -280,7 +280,8 @@ void PanningCalculator::process()
       if( pw )
       {
         SampleType x,y,z;
-        std::tie( x, y, z ) = efl::spherical2cartesian( pw->incidenceAzimuth(), pw->incidenceElevation(), pw->referenceDistance() );
+        std::tie( x, y, z ) = efl::spherical2cartesian( efl::degree2radian( pw->incidenceAzimuth() ),
+                                                       efl::degree2radian( pw->incidenceElevation() ), pw->referenceDistance() );
         mVbapCalculator->calculateGainsUnNormalised( x, y, z, &mTmpGains[0], true /*planeWave*/ );
         diffuseRatio = 0.0f;
         objectHandled = true;
-- 
2.43.0


From 0c0e1f5809ea5d51990748b02dfb92ef68afe025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 25/43] fix: PanningCalculator: avoid NaN high-frequency gains
 for negative panning gains

---
 src/librcl/panning_calculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index e077476..da19f29 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -312,7 +312,8 @@ void PanningCalculator::process()
         }
         if( hfGains )
         {
-          std::transform( mTmpGains.data(), mTmpGains.data()+mNumberOfRegularLoudspeakers, mTmpHfGains.data(), [](SampleType val ){ return std::sqrt(val); } );
+          std::transform( mTmpGains.data(), mTmpGains.data()+mNumberOfRegularLoudspeakers, mTmpHfGains.data(), 
+            [](SampleType val ){ return std::sqrt( std::max( val, static_cast<SampleType>(0.0) ) ); } ); // Safeguard against slightly negative gains.
           normalise( mTmpHfGains.data(), hfGains->data() + objChannelIdx, mNumberOfRegularLoudspeakers,
             mHfNormalisation, hfGains->stride(), directRatio );
         }
-- 
2.43.0


From c75e1af2728b51929c4b1b6ad028605b8ef76ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 26/43] fix: PanningCalculator: recompute gains when the
 listener moves

---
 src/librcl/panning_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index da19f29..911387a 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -182,7 +182,7 @@ void PanningCalculator::process()
     mListenerPositionInput->resetChanged( );
   }
 
-  if( mObjectVectorInput->changed() )
+  if( listenerPosChanged or mObjectVectorInput->changed() )
   {
     objectmodel::ObjectVector const & objects = mObjectVectorInput->data( );
 #if 1
-- 
2.43.0


From c32bad8530a78f2614d53aa2d0712dad0bcb7107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:55 +0000
Subject: [PATCH 27/43] fix: VBAP chose an unrelated triplet for sources in the
 exact direction of a loudspeaker

The gains of the two other loudspeakers of every adjacent triplet are zero up
to rounding. If all of them came out slightly negative, each adjacent triplet was
rejected for having two negative gains.
---
 src/libpanning/VBAP.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libpanning/VBAP.cpp b/src/libpanning/VBAP.cpp
index a02daca..7219ac2 100644
--- a/src/libpanning/VBAP.cpp
+++ b/src/libpanning/VBAP.cpp
@@ -267,7 +267,9 @@ namespace panning
       //! better geometric solution needed.
       //! 'dead'-speakers provide a posssible solution.
       
-      if( ((g1 < 0) + (g2 < 0) + (g3 < 0) <= 1) &&   // at most one negative gain
+      // Rounding errors must not exclude the triplets around a loudspeaker in the exact direction of the source.
+      SampleType const limit = -1e-5f * std::max( std::abs( g1 ), std::max( std::abs( g2 ), std::abs( g3 ) ) );
+      if( ((g1 < limit) + (g2 < limit) + (g3 < limit) <= 1) &&   // at most one negative gain
          (jmin == invalid || (g1 > gmin && g2 > gmin && g3 > gmin))
          )
       {
-- 
2.43.0


From 312041ea838ba4126275ff040e75e98269c1ed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:55 +0000
Subject: [PATCH 28/43] fix: ListenerCompensation wrote beyond the gain and
 delay vectors for arrays with virtual loudspeakers

---
 src/librcl/listener_compensation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/librcl/listener_compensation.cpp b/src/librcl/listener_compensation.cpp
index 547b735..c3baa5f 100644
--- a/src/librcl/listener_compensation.cpp
+++ b/src/librcl/listener_compensation.cpp
@@ -106,7 +106,7 @@ int ListenerCompensation::calcGainComp( efl::BasicVector<Afloat> & gainComp )
   y = m_listenerPos.y;
   z = m_listenerPos.z;
 
-  for (std::size_t i = 0; i < m_array.getNumSpeakers(); i++) {
+  for (std::size_t i = 0; i < mNumberOfLoudspeakers; i++) {
 
     l1 = m_array.getPosition( i );
 
@@ -118,7 +118,7 @@ int ListenerCompensation::calcGainComp( efl::BasicVector<Afloat> & gainComp )
       max_rad = gainComp[i];
   }
 
-  for (std::size_t i = 0; i < m_array.getNumSpeakers(); i++) {
+  for (std::size_t i = 0; i < mNumberOfLoudspeakers; i++) {
 
     gainComp[i] = (gainComp[i]/max_rad);
   }
@@ -137,7 +137,7 @@ int ListenerCompensation::calcDelayComp( efl::BasicVector<Afloat> & delayComp )
   y = m_listenerPos.y;
   z = m_listenerPos.z;
 
-  for (std::size_t i = 0; i < m_array.getNumSpeakers(); i++) {
+  for (std::size_t i = 0; i < mNumberOfLoudspeakers; i++) {
 
     l1 = m_array.getPosition( i );
 
@@ -149,7 +149,7 @@ int ListenerCompensation::calcDelayComp( efl::BasicVector<Afloat> & delayComp )
       max_rad = delayComp[i];
   }
 
-  for ( std::size_t i = 0; i < m_array.getNumSpeakers(); i++){
+  for ( std::size_t i = 0; i < mNumberOfLoudspeakers; i++){
 
     delayComp[i] = std::abs(delayComp[i]-max_rad)/c_0;
   }
-- 
2.43.0


From 5f39595cf46f67d0586fdd83d9510f51f630bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:55 +0000
Subject: [PATCH 29/43] fix: ChannelObjectRoutingCalculator accepted a channel
 index equal to the number of channels

---
 src/librcl/channel_object_routing_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/channel_object_routing_calculator.cpp b/src/librcl/channel_object_routing_calculator.cpp
index 64f014e..422199b 100644
--- a/src/librcl/channel_object_routing_calculator.cpp
+++ b/src/librcl/channel_object_routing_calculator.cpp
@@ -82,7 +82,7 @@ void ChannelObjectRoutingCalculator::process( pml::ObjectVector const & objects,
     assert(numberOfChannelSignals == chObj.outputChannels().size()); // class invariant
     for( std::size_t chIdx(0); chIdx < numberOfChannelSignals; ++chIdx )
     {
-      if (chObj.channelIndex(chIdx) > cNumberOfObjectChannels)
+      if (chObj.channelIndex(chIdx) >= cNumberOfObjectChannels)
       {
         // TODO: Use error reporting API (when defined)
         std::cerr << "ChannelObjectRoutingCalculator: Object channel index exceeds channel range." << std::endl;
-- 
2.43.0


From 5ff43d98dcf0fabf5d979cd4ee28d482a0d36e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:08 +0000
Subject: [PATCH 30/43] fix: HoaAllRadGainCalculator: the listener input lacked
 a parameter configuration

---
 src/librcl/hoa_allrad_gain_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/hoa_allrad_gain_calculator.cpp b/src/librcl/hoa_allrad_gain_calculator.cpp
index 056d86b..3d550d2 100644
--- a/src/librcl/hoa_allrad_gain_calculator.cpp
+++ b/src/librcl/hoa_allrad_gain_calculator.cpp
@@ -34,7 +34,7 @@ HoaAllRadGainCalculator( SignalFlowContext const & context,
   , mObjectInput( "objectInput", *this, pml::EmptyParameterConfig() )
   , mGainMatrixInput( "gainInput", *this, pml::MatrixParameterConfig( realArrayConfig.getNumRegularSpeakers(), numberOfObjectChannels ) )
   , mGainMatrixOutput( "gainOutput", *this, pml::MatrixParameterConfig( realArrayConfig.getNumRegularSpeakers(), numberOfObjectChannels ) )
-  , mListenerInput( adaptiveListenerPosition ? new ParameterInput<pml::DoubleBufferingProtocol, pml::ListenerPosition>( "listenerInput", *this ) : nullptr )
+  , mListenerInput( adaptiveListenerPosition ? new ParameterInput<pml::DoubleBufferingProtocol, pml::ListenerPosition>( "listenerInput", *this, pml::EmptyParameterConfig() ) : nullptr )
   , mRegularDecodeMatrix( decodeMatrix.numberOfRows(), regularArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
   , mRealDecodeMatrix( regularArrayConfig.getNumSpeakers(), realArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
 {
-- 
2.43.0


From 476259d9737d7fe5170cda16ea0dcb9133a7929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:08 +0000
Subject: [PATCH 31/43] fix: HoaAllRadGainCalculator read beyond the decoder
 matrix for sources of a higher order

---
 src/librcl/hoa_allrad_gain_calculator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librcl/hoa_allrad_gain_calculator.cpp b/src/librcl/hoa_allrad_gain_calculator.cpp
index 3d550d2..7b26c5f 100644
--- a/src/librcl/hoa_allrad_gain_calculator.cpp
+++ b/src/librcl/hoa_allrad_gain_calculator.cpp
@@ -117,6 +117,10 @@ void HoaAllRadGainCalculator::process()
       {
         throw std::runtime_error( "The number of harmonic signals is inconsistent with the HOA order." );
       }
+      if( numHoaSignals > decodeGains.numberOfRows() )
+      {
+        throw std::runtime_error( "The order of the HOA source exceeds the order of the decoder." );
+      }
       for( std::size_t sigIdx( 0 ); sigIdx < numHoaSignals; ++sigIdx )
       {
         std::size_t const chIdx = hoaSrc.channelIndex( sigIdx );
-- 
2.43.0


From ff769bdc89fd2ae17c7bf723573cad59d03b7127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:59 +0000
Subject: [PATCH 32/43] fix: TimeFrequencyTransform: provide enough input
 history for windows shorter than the hop size or the transform

---
 src/librcl/time_frequency_transform.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/librcl/time_frequency_transform.cpp b/src/librcl/time_frequency_transform.cpp
index 32b8405..f5b4665 100644
--- a/src/librcl/time_frequency_transform.cpp
+++ b/src/librcl/time_frequency_transform.cpp
@@ -57,7 +57,8 @@ std::size_t inputBufferSize( std::size_t windowLen,
         "The period size must be an integer multiple of the hop size." );
   }
   std::size_t const hopsPerPeriod{ period / hopSize };
-  return windowLen + ( hopsPerPeriod - 1 ) * hopSize;
+  // A complete period must fit even if the window is shorter than the hop size.
+  return std::max( windowLen, hopSize ) + ( hopsPerPeriod - 1 ) * hopSize;
 }
 
 } // unnamed namespace
@@ -154,7 +155,8 @@ TimeFrequencyTransform::TimeFrequencyTransform(
   // the input signal with zeros for the first transforms.
   if( dftSize > hopSize )
   {
-    std::size_t const padSamples{ cDftSize - hopSize };
+    // A zero-padded transform can exceed the (zero-initialised) input buffer.
+    std::size_t const padSamples{ std::min( cDftSize - hopSize, mInputBuffer.length() ) };
     efl::BasicVector< SampleType > initData( padSamples, cAlignment );
     initData.zeroFill();
     mInputBuffer.write(
-- 
2.43.0


From 3833056eae5322e73c11faa7f22923021b0222b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:57 +0000
Subject: [PATCH 33/43] fix: TimeFrequencyTransform: do not assume an aligned
 window position

---
 src/librcl/time_frequency_transform.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librcl/time_frequency_transform.cpp b/src/librcl/time_frequency_transform.cpp
index f5b4665..cd3291d 100644
--- a/src/librcl/time_frequency_transform.cpp
+++ b/src/librcl/time_frequency_transform.cpp
@@ -181,7 +181,8 @@ void TimeFrequencyTransform::process()
     {
       efl::ErrorCode res = efl::vectorMultiply(
           mInputBuffer.getReadPointer( channelIndex, blockStartIndex ),
-          mWindow.data(), mCalcBuffer.data(), cWindowLength, cAlignment );
+          mWindow.data(), mCalcBuffer.data(), cWindowLength,
+          0 /* The start of the window is not aligned in general. */ );
       if( res != efl::noError )
       {
         throw std::runtime_error(
-- 
2.43.0


From 98f795f26fc6deefb417308d797ae0803f7e0865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:31 +0000
Subject: [PATCH 34/43] fix: TimeFrequencyInverseTransform: output the samples
 of every frame of a period

---
 .../time_frequency_inverse_transform.cpp      | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/librcl/time_frequency_inverse_transform.cpp b/src/librcl/time_frequency_inverse_transform.cpp
index 4ec185f..270936d 100644
--- a/src/librcl/time_frequency_inverse_transform.cpp
+++ b/src/librcl/time_frequency_inverse_transform.cpp
@@ -119,17 +119,15 @@ void TimeFrequencyInverseTransform::process()
         throw std::runtime_error(
             "TimeFrequencyInverseTransform: Storing partial results failed." );
       }
-    }
-    // Copy first portion of accumulated result to output port.
-    // Also applies the DFT scaling.
-    // if( ( res = efl::vectorCopy( mCalcBuffer.data(), mOutput[ channelIdx ],
-    //                              period(), cAlignment ) ) != efl::noError )
-    if( ( res = efl::vectorMultiplyConstant( cScalingFactor,
-        mCalcBuffer.data(), mOutput[ channelIdx ],
-        period(), cAlignment ) ) != efl::noError )
-    {
-      throw std::runtime_error(
-          "TimeFrequencyInverseTransform: Error while copying output data." );
+      // Copy the completed samples of this frame to the output port.
+      // Also applies the DFT scaling.
+      if( ( res = efl::vectorMultiplyConstant( cScalingFactor,
+          mCalcBuffer.data(), mOutput[ channelIdx ] + frameIdx * cHopSize,
+          cHopSize, 0 /* Frame starts are not aligned in general. */ ) ) != efl::noError )
+      {
+        throw std::runtime_error(
+            "TimeFrequencyInverseTransform: Error while copying output data." );
+      }
     }
   }
 }
-- 
2.43.0


From 7cc118c9ef30aec1aa35d0ff1e9c4922ffdc21a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:31 +0000
Subject: [PATCH 35/43] fix: TimeFrequencyTransform and
 TimeFrequencyInverseTransform: reject hop sizes and windows that do not fit
 the transform

---
 .../time_frequency_inverse_transform.cpp      | 16 ++++++++++++++-
 src/librcl/time_frequency_transform.cpp       | 20 ++++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/librcl/time_frequency_inverse_transform.cpp b/src/librcl/time_frequency_inverse_transform.cpp
index 270936d..470368a 100644
--- a/src/librcl/time_frequency_inverse_transform.cpp
+++ b/src/librcl/time_frequency_inverse_transform.cpp
@@ -40,6 +40,20 @@ T calculateScalingFactor(
   return scaleFactor;
 }
 
+/**
+ * Check the hop size before it is used to compute sizes, and return it.
+ */
+std::size_t checkedHopSize( std::size_t hopSize, std::size_t dftSize )
+{
+  if( ( hopSize == 0 ) or ( hopSize > dftSize ) )
+  {
+    throw std::invalid_argument(
+        "TimeFrequencyInverseTransform: The hop size must be between 1 and "
+        "the DFT size." );
+  }
+  return hopSize;
+}
+
 } // unnamed namespace
 
 TimeFrequencyInverseTransform::TimeFrequencyInverseTransform(
@@ -58,7 +72,7 @@ TimeFrequencyInverseTransform::TimeFrequencyInverseTransform(
  , cNumberOfDftBins(
        pml::TimeFrequencyParameter< SampleType >::numberOfBinsRealToComplex(
            dftSize ) )
- , cFramesPerPeriod( period() / hopSize )
+ , cFramesPerPeriod( period() / checkedHopSize( hopSize, dftSize ) )
  , cHopSize( hopSize )
  , mAccumulationBuffer( cNumberOfChannels, dftSize - cHopSize, cAlignment )
  , mFftWrapper( rbbl::FftWrapperFactory< SampleType >::create(
diff --git a/src/librcl/time_frequency_transform.cpp b/src/librcl/time_frequency_transform.cpp
index cd3291d..93af4c8 100644
--- a/src/librcl/time_frequency_transform.cpp
+++ b/src/librcl/time_frequency_transform.cpp
@@ -44,6 +44,19 @@ pml::VectorParameter< T > unityHannWindow( std::size_t length )
   return res;
 }
 
+/**
+ * Check the hop size before it is used as a divisor, and return it.
+ */
+std::size_t checkedHopSize( std::size_t hopSize )
+{
+  if( hopSize == 0 )
+  {
+    throw std::invalid_argument(
+        "TimeFrequencyTransform: The hop size must not be zero." );
+  }
+  return hopSize;
+}
+
 /**
  * Determine the required size of the input buffer (i.e., delay line)
  */
@@ -101,7 +114,7 @@ TimeFrequencyTransform::TimeFrequencyTransform(
  , cDftSize( dftSize )
  , cNumberOfDftBins( pml::TimeFrequencyParameter<SampleType>::numberOfBinsRealToComplex( dftSize ) )
  , cWindowLength( window.size() )
- , cFramesPerPeriod( context.period() / hopSize )
+ , cFramesPerPeriod( context.period() / checkedHopSize( hopSize ) )
  , cHopSize( hopSize )
  , mInputBuffer( numberOfChannels,
                  inputBufferSize( window.size(), hopSize, period() ),
@@ -123,6 +136,11 @@ TimeFrequencyTransform::TimeFrequencyTransform(
         "TimeFrequencyTransform: Invalid hop size (no integer number of hops "
         "per audio processing period)." );
   }
+  if( window.size() > dftSize )
+  {
+    throw std::invalid_argument(
+        "TimeFrequencyTransform: The window must not be longer than the DFT." );
+  }
   efl::vectorZero( mCalcBuffer.data(), mCalcBuffer.size(),
                    mCalcBuffer.alignmentElements() );
 
-- 
2.43.0


From 43d495b76bcda732d626033135ea5562b5971d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:54 +0000
Subject: [PATCH 36/43] fix: Quaternion: the constructor ignored its normalise
 argument

---
 src/librbbl/quaternion.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librbbl/quaternion.cpp b/src/librbbl/quaternion.cpp
index b78f958..b1bed45 100644
--- a/src/librbbl/quaternion.cpp
+++ b/src/librbbl/quaternion.cpp
@@ -26,6 +26,10 @@ Quaternion< CoordinateType >::Quaternion( Coordinate w, Coordinate x,
                                           bool normalise /*= false*/ )
  : mQuat{ w, x, y, z }
 {
+  if( normalise )
+  {
+    this->normalise();
+  }
 }
 
 template< typename CoordinateType >
-- 
2.43.0


From edc1b918e4dcf99f5fc89cc6ea575d4dee77c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:54 +0000
Subject: [PATCH 37/43] fix: Quaternion: angle() and angleNormalised() returned
 wrong angles except for 0 and 180 degrees

---
 src/librbbl/quaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/quaternion.cpp b/src/librbbl/quaternion.cpp
index b1bed45..95e0ac7 100644
--- a/src/librbbl/quaternion.cpp
+++ b/src/librbbl/quaternion.cpp
@@ -338,7 +338,7 @@ CoordinateType angleNormalised( Quaternion< CoordinateType > const& q1,
   // First (w) component of the difference rotation quaternion q1*conj(q2)
   // Note: Despite the above formula, this is the standard dot product (according to the source)
   CT const wDot{ dot( q1, q2 ) };
-  CT const wDiff{ std::sqrt( std::abs( wDot ) ) };
+  CT const wDiff{ std::abs( wDot ) };
   // Clip using min/max to avoid arguments with  abs( x ) > 1.0 due to numerical errors.
   return static_cast<CT>(2.0)* std::acos( std::max( std::min( wDiff, static_cast<CT>(1.0) ),
     static_cast<CT>(-1.0) ) );
-- 
2.43.0


From 74203c268ca67b55232458a484f42afb1db6f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:54 +0000
Subject: [PATCH 38/43] fix: Quaternion: interpolateSpherical() returned NaN
 between identical orientations

---
 src/librbbl/quaternion.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/librbbl/quaternion.cpp b/src/librbbl/quaternion.cpp
index 95e0ac7..f855705 100644
--- a/src/librbbl/quaternion.cpp
+++ b/src/librbbl/quaternion.cpp
@@ -380,6 +380,11 @@ interpolateSpherical( Quaternion< CoordinateType > const& pos0,
     std::min( static_cast< CoordinateType >(1.0),
       std::max( static_cast< CoordinateType >(-1.0),
         dot( normalise(pos0), normalise(pos1) ) ) ) );
+  if( omega < std::numeric_limits< CoordinateType >::epsilon() )
+  {
+    // Identical orientations, avoid a division by zero.
+    return (static_cast< CoordinateType >(1.0) - tInterp) * pos0 + tInterp * pos1;
+  }
   CoordinateType const sinOmega = std::sin( omega );
   CoordinateType const sf1 = std::sin((static_cast<CoordinateType>(1.0)-tInterp)*omega) / sinOmega;
   CoordinateType const sf2 = std::sin(tInterp*omega) / sinOmega;
-- 
2.43.0


From e7b1de557482abc4991f963025533e642c680a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:54 +0000
Subject: [PATCH 39/43] fix: PositionDecoder: a message of a smaller face ID
 was ignored if a message of another face had a later timestamp

---
 src/librcl/position_decoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/position_decoder.cpp b/src/librcl/position_decoder.cpp
index 93b26b4..1f11f85 100644
--- a/src/librcl/position_decoder.cpp
+++ b/src/librcl/position_decoder.cpp
@@ -63,7 +63,7 @@ void PositionDecoder::process()
       if( newPos.faceID() <= smallestFaceId )
       {
         // for a given face ID, update the position only if the timestamp is not older than the previously received timestamp.
-        if( newPos.timeNs() >= latestTimeStamp )
+        if( (newPos.faceID() < smallestFaceId) or (newPos.timeNs() >= latestTimeStamp) )
         {
           foundPos = newPos;
           smallestFaceId = foundPos.faceID();
-- 
2.43.0


From 3e87747f5b184552433846b975f61c97199bbf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:51 +0000
Subject: [PATCH 40/43] fix: PanningMatrixParameter: the assignment operator
 swapped the numbers of objects and loudspeakers

---
 src/libpanningdsp/panning_matrix_parameter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libpanningdsp/panning_matrix_parameter.cpp b/src/libpanningdsp/panning_matrix_parameter.cpp
index 10fa5aa..df8d315 100644
--- a/src/libpanningdsp/panning_matrix_parameter.cpp
+++ b/src/libpanningdsp/panning_matrix_parameter.cpp
@@ -157,8 +157,8 @@ PanningMatrixParameter& PanningMatrixParameter::operator=(PanningMatrixParameter
   {
     mTimeStamps.resize(rhs.numberOfObjects());
     mTransitionTimes.resize(rhs.numberOfObjects());
-    mGains.resize(rhs.numberOfLoudspeakers(),
-      rhs.numberOfObjects());
+    mGains.resize(rhs.numberOfObjects(),
+      rhs.numberOfLoudspeakers());
     copy(rhs.timeStamps(), timeStamps());
     copy(rhs.transitionTimes(), transitionTimes());
     mGains.copy(rhs.gains());
-- 
2.43.0


From bbdb813cff613a919134cd5c0415a0bc5bb3fdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:16 +0000
Subject: [PATCH 41/43] fix: PanningGainMatrix: a transition that replaced a
 running one at once started from the initial gains of the replaced transition

---
 src/libpanningdsp/panning_gain_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libpanningdsp/panning_gain_matrix.cpp b/src/libpanningdsp/panning_gain_matrix.cpp
index aad12a4..c5d47d7 100644
--- a/src/libpanningdsp/panning_gain_matrix.cpp
+++ b/src/libpanningdsp/panning_gain_matrix.cpp
@@ -298,7 +298,6 @@ void PanningGainMatrix::updateTransition( std::size_t objIdx,
   // Special case: we have to update the data members immediately.
   if( startTime == currentTime )
   {
-    mPreviousTime[ objIdx ] = currentTime;
     if( duration == 0 ) // Immediate change w/o interpolation (e.g., jump position)
     {
       copyRow( gains, mPreviousGains.row( objIdx ), numLsp, 
@@ -323,6 +322,7 @@ void PanningGainMatrix::updateTransition( std::size_t objIdx,
         0 /*Do not assume special alignment*/ );
       mTargetTime[ objIdx ] = currentTime + duration;
     }
+    mPreviousTime[ objIdx ] = currentTime;
     // Clear next pending transition
     mPendingTransitions[0].timeStamps()[ objIdx ] = cTimeStampInfinity;
     mPendingTransitions[0].transitionTimes()[ objIdx ] = cTimeStampInfinity;
-- 
2.43.0


From fd9b2cccc5c1f0ffb205a249f8785cd0aa22c463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:16 +0000
Subject: [PATCH 42/43] fix: PanningGainMatrix: a stored transition altered the
 running transition before its start time

---
 src/libpanningdsp/panning_gain_matrix.cpp | 76 ++++++++++-------------
 1 file changed, 32 insertions(+), 44 deletions(-)

diff --git a/src/libpanningdsp/panning_gain_matrix.cpp b/src/libpanningdsp/panning_gain_matrix.cpp
index c5d47d7..0cbaaec 100644
--- a/src/libpanningdsp/panning_gain_matrix.cpp
+++ b/src/libpanningdsp/panning_gain_matrix.cpp
@@ -185,48 +185,51 @@ void PanningGainMatrix::processAudio()
       assert( currentTime >= mPreviousTime[ objIdx ] );
       assert( currentTime < mTargetTime[ objIdx ] );
       assert( mPendingTransitions[0].timeStamps()[objIdx] > currentTime );
-      Time::IntegerTimeType const duration{ std::min( 
-        mTargetTime[ objIdx ], blockEndTime ) - currentTime };
+      TimeType const nextStartTime{ mPendingTransitions[0].timeStamps()[ objIdx ] };
+      Time::IntegerTimeType const duration{ std::min( std::min(
+        mTargetTime[ objIdx ], nextStartTime ), blockEndTime ) - currentTime };
       assert( duration > 0 ); // Otherwise this is a logical error,
       processAudioSingleSlope( objIdx, currentTime, bufferOffset, duration, accumulateFlag, 
         0 /*Alignment not guaranteed for arbitrary offsets.*/  );
 
       currentTime += duration;
       bufferOffset += duration;
-      if( currentTime == mTargetTime[objIdx] )
+      if( currentTime == nextStartTime ) // The stored transition starts, possibly during a running one.
       {
-        mPreviousTime[ objIdx ] = currentTime;
-        TimeType const nextStartTime{ mPendingTransitions[0].timeStamps()[ objIdx ] };
-        if( nextStartTime == currentTime ) // next transition starts immediately
+        TimeType const transitionTime{ mPendingTransitions[0].transitionTimes()[ objIdx ] };
+        if( transitionTime == 0 )
         {
-          TimeType const transitionTime{ mPendingTransitions[0].transitionTimes()[ objIdx ] };
-          if( transitionTime == 0 )
-          {
-            copyRow( mPendingTransitions[0].gains().row( objIdx ),
-                mPreviousGains.row( objIdx ),
-                numLsp, visr::cVectorAlignmentSamples );
-            mTargetTime[ objIdx ] = cTimeStampInfinity;
-          }
-          else
-          {
-            copyRow( mTargetGains.row( objIdx ), mPreviousGains.row( objIdx ),
-                numLsp, visr::cVectorAlignmentSamples );
-            mTargetTime[ objIdx ] = currentTime + transitionTime;
-          }
           copyRow( mPendingTransitions[0].gains().row( objIdx ),
-              mTargetGains.row( objIdx ),
+              mPreviousGains.row( objIdx ),
               numLsp, visr::cVectorAlignmentSamples );
-          mPendingTransitions[0].timeStamps()[ objIdx ] = cTimeStampInfinity;
-          mPendingTransitions[0].transitionTimes()[ objIdx ] = cTimeStampInfinity;
+          mTargetTime[ objIdx ] = cTimeStampInfinity;
         }
-        else // There's a gap to the next transition
+        else
         {
-          mTargetTime[ objIdx ] = nextStartTime;
-          copyRow( mTargetGains.row( objIdx ), mPreviousGains.row( objIdx ),
-              numLsp, visr::cVectorAlignmentSamples );
-          // mTargetGains remain unchanged.
-
+          // The new transition starts at the gains reached so far.
+          GainType const alpha = interpolationRatio( currentTime,
+              mPreviousTime[ objIdx ], mTargetTime[ objIdx ] );
+          for( std::size_t lspIdx{ 0 }; lspIdx < numLsp; ++lspIdx )
+          {
+            mPreviousGains( objIdx, lspIdx ) = alpha * mTargetGains( objIdx, lspIdx )
+              + (1.0f - alpha ) * mPreviousGains( objIdx, lspIdx );
+          }
+          mTargetTime[ objIdx ] = currentTime + transitionTime;
         }
+        mPreviousTime[ objIdx ] = currentTime;
+        copyRow( mPendingTransitions[0].gains().row( objIdx ),
+            mTargetGains.row( objIdx ),
+            numLsp, visr::cVectorAlignmentSamples );
+        mPendingTransitions[0].timeStamps()[ objIdx ] = cTimeStampInfinity;
+        mPendingTransitions[0].transitionTimes()[ objIdx ] = cTimeStampInfinity;
+      }
+      else if( currentTime == mTargetTime[ objIdx ] ) // The gains remain constant until the next transition.
+      {
+        mPreviousTime[ objIdx ] = currentTime;
+        mTargetTime[ objIdx ] = cTimeStampInfinity;
+        copyRow( mTargetGains.row( objIdx ), mPreviousGains.row( objIdx ),
+            numLsp, visr::cVectorAlignmentSamples );
+        // mTargetGains remain unchanged.
       }
     } // while(true)
   }
@@ -330,21 +333,6 @@ void PanningGainMatrix::updateTransition( std::size_t objIdx,
   }
   else
   {
-    if( startTime < mTargetTime[ objIdx ] )
-    {
-      // Adjust the current target gains by computing the value at 
-      // startTime
-      GainType const alpha = interpolationRatio( currentTime,
-          mPreviousTime[ objIdx ], mTargetTime[ objIdx ] );
-      std::size_t const numLsp{ mTargetGains.numberOfColumns() };
-      // TODO: turn into a vector function.
-      for( std::size_t lspIdx{ 0 }; lspIdx < numLsp; ++lspIdx)
-      {
-        mTargetGains( objIdx, lspIdx ) = alpha * mTargetGains( objIdx, lspIdx )
-          + (1.0f - alpha ) * mPreviousGains( objIdx, lspIdx );
-      }
-      mTargetTime[ objIdx ] = startTime;
-    }
     mPendingTransitions[0].timeStamps()[ objIdx ] = startTime;
     mPendingTransitions[0].transitionTimes()[ objIdx ] = duration;
     copyRow( gains, mPendingTransitions[0].gains().row( objIdx ),
-- 
2.43.0


From f8066f4ce3af6b0df4991b9fc502be22d9f6cd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:49 +0000
Subject: [PATCH 43/43] fix: ObjectVector: assigning an object vector to itself
 removed all objects

---
 src/libobjectmodel/object_vector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libobjectmodel/object_vector.cpp b/src/libobjectmodel/object_vector.cpp
index 9854fdc..507ebe4 100644
--- a/src/libobjectmodel/object_vector.cpp
+++ b/src/libobjectmodel/object_vector.cpp
@@ -25,6 +25,10 @@ ObjectVector& ObjectVector::operator=( ObjectVector && rhs ) = default;
 
 void ObjectVector::assign( ObjectVector const & rhs )
 {
+  if( &rhs == this )
+  {
+    return;
+  }
   mObjects.clear();
   for( ObjectContainer::value_type const & v : rhs.mObjects )
   {
-- 
2.43.0

