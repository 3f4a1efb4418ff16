From ac21a20e80185d6551760ff7a04119dd36f2323c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:35 +0000
Subject: [PATCH 01/28] fix: compare the ends of intervals in operator==

---
 include/dspbb/Utility/Interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Utility/Interval.hpp b/include/dspbb/Utility/Interval.hpp
index 8a6cfdf..1bc2422 100644
--- a/include/dspbb/Utility/Interval.hpp
+++ b/include/dspbb/Utility/Interval.hpp
@@ -37,7 +37,7 @@ Interval<T>& operator-=(Interval<T>& lhs, T rhs) {
 
 template <class T>
 bool operator==(const Interval<T>& lhs, const Interval<T>& rhs) {
-	return lhs.first == rhs.first && lhs.last && rhs.last;
+	return lhs.first == rhs.first && lhs.last == rhs.last;
 }
 
 template <class T>
-- 
2.43.0


From 13234b759c29eb7ded2611d80a621345be86c365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:35 +0000
Subject: [PATCH 02/28] fix: multiply rationals by negative integers without
 negating the denominator

---
 include/dspbb/Math/Rational.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Math/Rational.hpp b/include/dspbb/Math/Rational.hpp
index b87a102..2e43b60 100644
--- a/include/dspbb/Math/Rational.hpp
+++ b/include/dspbb/Math/Rational.hpp
@@ -61,9 +61,8 @@ constexpr Rational<T> operator-(const Rational<T>& lhs, T rhs) noexcept {
 template <class T>
 constexpr Rational<T> operator*(const Rational<T>& lhs, T rhs) noexcept {
 	const auto simplification = std::gcd(rhs, lhs.Denominator());
-	const auto sign = rhs < 0 ? T(-1) : T(1);
-	return { sign * lhs.Numerator() * (rhs / simplification),
-			 sign * lhs.Denominator() / simplification };
+	return { lhs.Numerator() * (rhs / simplification),
+			 lhs.Denominator() / simplification };
 }
 template <class T>
 constexpr Rational<T> operator/(const Rational<T>& lhs, T rhs) noexcept {
-- 
2.43.0


From b77eb74c9f1c7afe409f97bb220229685b8046d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:35 +0000
Subject: [PATCH 03/28] fix: round negative rationals towards the correct
 direction in floor, ceil and frac

---
 include/dspbb/Math/Rational.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/Rational.hpp b/include/dspbb/Math/Rational.hpp
index 2e43b60..3283ff5 100644
--- a/include/dspbb/Math/Rational.hpp
+++ b/include/dspbb/Math/Rational.hpp
@@ -313,12 +313,14 @@ constexpr bool operator>=(S lhs, const Rational<T>& rhs) noexcept {
 
 template <class T>
 constexpr T ceil(const Rational<T>& rational) {
-	return (rational.Numerator() + rational.Denominator() - 1) / rational.Denominator();
+	const T quotient = rational.Numerator() / rational.Denominator();
+	return rational.Numerator() % rational.Denominator() > 0 ? quotient + T(1) : quotient;
 }
 
 template <class T>
 constexpr T floor(const Rational<T>& rational) {
-	return rational.Numerator() / rational.Denominator();
+	const T quotient = rational.Numerator() / rational.Denominator();
+	return rational.Numerator() % rational.Denominator() < 0 ? quotient - T(1) : quotient;
 }
 
 template <class T>
-- 
2.43.0


From a0870f4fa6b67acbaad76a732a3482cd4fca57b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:49 +0000
Subject: [PATCH 04/28] fix: reject sub-views whose offset plus count wraps
 around

---
 include/dspbb/Primitives/SignalView.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Primitives/SignalView.hpp b/include/dspbb/Primitives/SignalView.hpp
index 656a93e..de97137 100644
--- a/include/dspbb/Primitives/SignalView.hpp
+++ b/include/dspbb/Primitives/SignalView.hpp
@@ -138,7 +138,7 @@ BasicSignalView<T, Domain> BasicSignalView<T, Domain>::subsignal(size_type offse
 template <class T, eSignalDomain Domain>
 BasicSignalView<T, Domain> BasicSignalView<T, Domain>::subsignal(size_type offset, size_type count) const {
 	assert(offset <= this->size());
-	assert(offset + count <= this->size());
+	assert(count <= this->size() - offset);
 	return { this->m_first + offset, this->m_first + offset + count };
 }
 
-- 
2.43.0


From d5f2782c8ff37a1aae70cd3da8b07727439c54eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 05/28] fix: keep even central moments above the fourth from
 changing sign

---
 include/dspbb/Math/Statistics.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Statistics.hpp b/include/dspbb/Math/Statistics.hpp
index 503636e..25b4e4f 100644
--- a/include/dspbb/Math/Statistics.hpp
+++ b/include/dspbb/Math/Statistics.hpp
@@ -85,7 +85,9 @@ auto CentralMoment(const SignalT& signal, size_t k, U mean) {
 		using T = decltype(mean); // Must be a scalar.
 		using V = std::decay_t<decltype(a)>; // May be SIMD vector type.
 		const auto d = a - mean;
-		return d * kernels::math_functions::pow(kernels::math_functions::abs(d), V(T(k) - T(1)));
+		const auto a1 = kernels::math_functions::abs(d);
+		const auto p = kernels::math_functions::pow(a1, V(T(k) - T(1)));
+		return k % 2 == 0 ? V(a1 * p) : V(d * p);
 	};
 
 	const T den = T(signal.size());
-- 
2.43.0


From de00ca2c46dea0d4e3c10907cb3426e6a34a940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 06/28] fix: central convolution of empty operands is empty

---
 include/dspbb/Math/Convolution.hpp | 4 ++--
 include/dspbb/Math/OverlapAdd.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Math/Convolution.hpp b/include/dspbb/Math/Convolution.hpp
index 359ced7..ce89de3 100644
--- a/include/dspbb/Math/Convolution.hpp
+++ b/include/dspbb/Math/Convolution.hpp
@@ -74,7 +74,7 @@ template <class SignalR, class SignalT, class SignalU, std::enable_if_t<is_same_
 auto Convolution(SignalR&& out, const SignalT& u, const SignalU& v, impl::ConvCentral, bool clearOut = true) {
 	const size_t centralLength = ConvolutionLength(u.size(), v.size(), CONV_CENTRAL);
 	assert(out.size() == centralLength && "Use ConvolutionLength to calculate output size properly.");
-	const size_t offset = std::min(u.size() - 1, v.size() - 1);
+	const size_t offset = centralLength == 0 ? 0 : std::min(u.size() - 1, v.size() - 1);
 	Convolution(out, u, v, offset, clearOut);
 }
 
@@ -100,7 +100,7 @@ auto Convolution(const SignalT& u, const SignalU& v, impl::ConvFull) {
 template <class SignalT, class SignalU, std::enable_if_t<is_same_domain_v<SignalT, SignalU>, int> = 0>
 auto Convolution(const SignalT& u, const SignalU& v, impl::ConvCentral) {
 	const size_t length = ConvolutionLength(u.size(), v.size(), CONV_CENTRAL);
-	const size_t offset = std::min(u.size() - 1, v.size() - 1);
+	const size_t offset = length == 0 ? 0 : std::min(u.size() - 1, v.size() - 1);
 	return Convolution(u, v, offset, length);
 }
 
diff --git a/include/dspbb/Math/OverlapAdd.hpp b/include/dspbb/Math/OverlapAdd.hpp
index 4e18b82..bd6cfa7 100644
--- a/include/dspbb/Math/OverlapAdd.hpp
+++ b/include/dspbb/Math/OverlapAdd.hpp
@@ -178,7 +178,7 @@ template <class SignalR, class SignalT, class SignalU, std::enable_if_t<is_mutab
 void OverlapAdd(SignalR&& out, const SignalT& u, const SignalU& v, impl::ConvCentral, size_t chunkSize = 0, bool clearOut = true) {
 	const size_t centralLength = ConvolutionLength(u.size(), v.size(), CONV_CENTRAL);
 	assert(out.size() == centralLength && "Use ConvolutionLength to calculate output size properly.");
-	size_t offset = std::min(u.size() - 1, v.size() - 1);
+	size_t offset = centralLength == 0 ? 0 : std::min(u.size() - 1, v.size() - 1);
 	OverlapAdd(out, u, v, offset, chunkSize, clearOut);
 }
 
@@ -205,7 +205,7 @@ auto OverlapAdd(const SignalT& u, const SignalU& v, impl::ConvFull, size_t chunk
 template <class SignalT, class SignalU, std::enable_if_t<is_same_domain_v<SignalT, SignalU>, int> = 0>
 auto OverlapAdd(const SignalT& u, const SignalU& v, impl::ConvCentral, size_t chunkSize = 0) {
 	const size_t length = ConvolutionLength(u.size(), v.size(), CONV_CENTRAL);
-	size_t offset = std::min(u.size() - 1, v.size() - 1);
+	size_t offset = length == 0 ? 0 : std::min(u.size() - 1, v.size() - 1);
 	return OverlapAdd(u, v, offset, length, chunkSize);
 }
 
-- 
2.43.0


From 0fb0199721b3ff5fb43cf1a651a982dd13a5335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 07/28] fix: reject convolution offsets that wrap around

---
 include/dspbb/Math/Convolution.hpp | 2 +-
 include/dspbb/Math/OverlapAdd.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/Convolution.hpp b/include/dspbb/Math/Convolution.hpp
index ce89de3..d3b9b8c 100644
--- a/include/dspbb/Math/Convolution.hpp
+++ b/include/dspbb/Math/Convolution.hpp
@@ -50,7 +50,7 @@ constexpr size_t ConvolutionLength(size_t lengthU, size_t lengthV, impl::ConvFul
 template <class SignalR, class SignalT, class SignalU, std::enable_if_t<is_same_domain_v<SignalR, SignalT, SignalU>, int> = 0>
 auto Convolution(SignalR&& out, const SignalT& u, const SignalU& v, size_t offset, bool clearOut = true) {
 	const size_t fullLength = ConvolutionLength(u.size(), v.size(), CONV_FULL);
-	assert(offset + out.size() <= fullLength && "Result is outside of full convolution, thus contains some true zeros. I mean, it's ok, but you are probably doing it wrong.");
+	assert(offset <= fullLength && out.size() <= fullLength - offset && "Result is outside of full convolution, thus contains some true zeros. I mean, it's ok, but you are probably doing it wrong.");
 
 	// Slided is faster, but it's accuracy degrades for large input and a compensated reduction is better.
 	const size_t shorterSize = std::min(u.size(), v.size());
diff --git a/include/dspbb/Math/OverlapAdd.hpp b/include/dspbb/Math/OverlapAdd.hpp
index bd6cfa7..22db818 100644
--- a/include/dspbb/Math/OverlapAdd.hpp
+++ b/include/dspbb/Math/OverlapAdd.hpp
@@ -127,7 +127,7 @@ void OverlapAdd(SignalR&& out, const SignalT& u, const SignalU& v, size_t offset
 	}
 	assert(chunkSize >= 2 * v.size() - 1);
 	const size_t fullLength = ConvolutionLength(u.size(), v.size(), CONV_FULL);
-	assert(offset + out.size() <= fullLength && "Result is outside of full convolution, thus contains some true zeros. I mean, it's ok, but you are probably doing it wrong.");
+	assert(offset <= fullLength && out.size() <= fullLength - offset && "Result is outside of full convolution, thus contains some true zeros. I mean, it's ok, but you are probably doing it wrong.");
 	if (clearOut) {
 		using R = typename signal_traits<std::decay_t<SignalR>>::type;
 		std::fill(out.begin(), out.end(), R(remove_complex_t<R>(0)));
-- 
2.43.0


From 43d732b5e49846bce5ec5618f15fa13dac951631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 08/28] fix: overlap-add of empty operands is empty

---
 include/dspbb/Math/OverlapAdd.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/OverlapAdd.hpp b/include/dspbb/Math/OverlapAdd.hpp
index 22db818..49f9703 100644
--- a/include/dspbb/Math/OverlapAdd.hpp
+++ b/include/dspbb/Math/OverlapAdd.hpp
@@ -122,12 +122,15 @@ void OverlapAdd(SignalR&& out, const SignalT& u, const SignalU& v, size_t offset
 	if (u.size() < v.size()) {
 		return OverlapAdd(out, v, u, offset, chunkSize, clearOut);
 	}
+	const size_t fullLength = ConvolutionLength(u.size(), v.size(), CONV_FULL);
+	assert(offset <= fullLength && out.size() <= fullLength - offset && "Result is outside of full convolution, thus contains some true zeros. I mean, it's ok, but you are probably doing it wrong.");
+	if (fullLength == 0) {
+		return;
+	}
 	if (chunkSize == 0) {
 		chunkSize = impl::ola::OptimalPracticalSize(u.size(), v.size());
 	}
 	assert(chunkSize >= 2 * v.size() - 1);
-	const size_t fullLength = ConvolutionLength(u.size(), v.size(), CONV_FULL);
-	assert(offset <= fullLength && out.size() <= fullLength - offset && "Result is outside of full convolution, thus contains some true zeros. I mean, it's ok, but you are probably doing it wrong.");
 	if (clearOut) {
 		using R = typename signal_traits<std::decay_t<SignalR>>::type;
 		std::fill(out.begin(), out.end(), R(remove_complex_t<R>(0)));
-- 
2.43.0


From 5618d971e15c328c9731517100351c21577f0054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 09/28] fix: normalise the recursive part of direct form II by
 the leading denominator coefficient

---
 include/dspbb/Filtering/IIR/Realizations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/IIR/Realizations.hpp b/include/dspbb/Filtering/IIR/Realizations.hpp
index 9cbb372..a3a0b06 100644
--- a/include/dspbb/Filtering/IIR/Realizations.hpp
+++ b/include/dspbb/Filtering/IIR/Realizations.hpp
@@ -167,7 +167,7 @@ void DirectFormII<T>::feed(InIter first, InIter last, OutIter outFirst, const Di
 
 	while (first != last) {
 		const auto input = *first++;
-		const auto stateNext = input * normalization - std::inner_product(recSec.begin(), recSec.end(), stateRecView.begin(), T(0));
+		const auto stateNext = (static_cast<T>(input) - std::inner_product(recSec.begin(), recSec.end(), stateRecView.begin(), T(0))) * normalization;
 		std::move(++m_state.begin(), m_state.end(), m_state.begin());
 		*m_state.rbegin() = static_cast<T>(stateNext);
 		const auto output = static_cast<T>(std::inner_product(fwFull.begin(), fwFull.end(), stateFwView.begin(), T(0)));
-- 
2.43.0


From ebb35db00aea3b2840cf62cafd4ee089d8e6706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 10/28] fix: keep the gain of systems without zeros and poles
 in cascaded biquads

---
 include/dspbb/Filtering/IIR/Realizations.hpp |  4 ++--
 include/dspbb/LTISystems/Systems.hpp         | 10 ++++------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/Realizations.hpp b/include/dspbb/Filtering/IIR/Realizations.hpp
index a3a0b06..6cb1551 100644
--- a/include/dspbb/Filtering/IIR/Realizations.hpp
+++ b/include/dspbb/Filtering/IIR/Realizations.hpp
@@ -203,13 +203,13 @@ private:
 
 template <class T>
 CascadedForm<T>::CascadedForm(size_t order) {
-	const size_t numSections = 1 + (order + 1) / 2;
+	const size_t numSections = 1 + std::max(size_t(1), (order + 1) / 2);
 	m_sections.resize(numSections, { T(0), T(0), T(0) });
 }
 
 template <class T>
 void CascadedForm<T>::order(size_t order) {
-	const size_t numSections = 1 + (order + 1) / 2;
+	const size_t numSections = 1 + std::max(size_t(1), (order + 1) / 2);
 	m_sections.resize(numSections, { T(0), T(0), T(0) });
 }
 
diff --git a/include/dspbb/LTISystems/Systems.hpp b/include/dspbb/LTISystems/Systems.hpp
index da11bd8..2f7f0fe 100644
--- a/include/dspbb/LTISystems/Systems.hpp
+++ b/include/dspbb/LTISystems/Systems.hpp
@@ -97,7 +97,7 @@ CascadedBiquad<T>::CascadedBiquad(const ZeroPoleGain<T, eDiscretization::DISCRET
 	std::sort(zeroPolys.begin(), zeroPolys.end(), polyAscending);
 	std::sort(polePolys.begin(), polePolys.end(), polyAscending);
 
-	const size_t numSections = std::max(zeroPolys.size(), polePolys.size());
+	const size_t numSections = std::max({ size_t(1), zeroPolys.size(), polePolys.size() }); // At least one section for the gain.
 	sections.resize(numSections);
 	for (size_t i = 0; i < zeroPolys.size(); ++i) {
 		sections[i].numerator = zeroPolys[i].second;
@@ -107,11 +107,9 @@ CascadedBiquad<T>::CascadedBiquad(const ZeroPoleGain<T, eDiscretization::DISCRET
 		sections[i].denominator = { polePolys[i].second[0], polePolys[i].second[1] };
 		sections[i].denOrder = polePolys[i].first;
 	}
-	if (!sections.empty()) {
-		sections.back().numerator[0] *= zpk.gain;
-		sections.back().numerator[1] *= zpk.gain;
-		sections.back().numerator[2] *= zpk.gain;
-	}
+	sections.back().numerator[0] *= zpk.gain;
+	sections.back().numerator[1] *= zpk.gain;
+	sections.back().numerator[2] *= zpk.gain;
 }
 
 template <class T>
-- 
2.43.0


From 18c440dba5e20b6e54822ac71e997f21995480a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 11/28] fix: order of cascaded biquads is the number of roots,
 as for the other representations

---
 include/dspbb/LTISystems/Systems.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/LTISystems/Systems.hpp b/include/dspbb/LTISystems/Systems.hpp
index 2f7f0fe..9038c32 100644
--- a/include/dspbb/LTISystems/Systems.hpp
+++ b/include/dspbb/LTISystems/Systems.hpp
@@ -128,13 +128,13 @@ T CascadedBiquad<T>::operator()(const T& x) const {
 
 template <class T>
 size_t CascadedBiquad<T>::order() const {
-	size_t numOrder = 1;
-	size_t denOrder = 1;
+	size_t numOrder = 0;
+	size_t denOrder = 0;
 	for (auto& section : sections) {
 		numOrder += section.numOrder;
 		denOrder += section.denOrder;
 	}
-	return sections.empty() ? 0 : std::max(numOrder, denOrder);
+	return std::max(numOrder, denOrder);
 }
 
 template <class T>
-- 
2.43.0


From 105d34058a9b16f5328999fd19eb5d3fe6b2fb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 12/28] fix: return the target from factored polynomial
 assignment

---
 include/dspbb/Math/Polynomials.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dspbb/Math/Polynomials.hpp b/include/dspbb/Math/Polynomials.hpp
index bdcc2ef..544e15f 100644
--- a/include/dspbb/Math/Polynomials.hpp
+++ b/include/dspbb/Math/Polynomials.hpp
@@ -173,6 +173,7 @@ FactoredPolynomial<T>& FactoredPolynomial<T>::operator=(FactoredPolynomial&& rhs
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + rhs.m_real.size()), rhs.m_complex.size() };
 	rhs.m_real = {};
 	rhs.m_complex = {};
+	return *this;
 }
 
 template <class T>
@@ -180,6 +181,7 @@ FactoredPolynomial<T>& FactoredPolynomial<T>::operator=(const FactoredPolynomial
 	m_mem = rhs.m_mem,
 	m_real = { m_mem.data(), rhs.m_real.size() },
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + rhs.m_real.size()), rhs.m_complex.size() };
+	return *this;
 }
 
 
-- 
2.43.0


From 56f52e911fd7a916152cfe07b5ffb87699ae9f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 13/28] fix: keep the complex pairs when a factored polynomial
 gains real roots

---
 include/dspbb/Math/Polynomials.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Polynomials.hpp b/include/dspbb/Math/Polynomials.hpp
index 544e15f..3850b72 100644
--- a/include/dspbb/Math/Polynomials.hpp
+++ b/include/dspbb/Math/Polynomials.hpp
@@ -222,7 +222,8 @@ void FactoredPolynomial<T>::resize(size_t numRealRoots, size_t numComplexPairs,
 	}
 	m_mem.resize(numCoeffs);
 	if (currentRealRoots < numRealRoots) {
-		std::move_backward(m_mem.begin() + currentRealRoots, m_mem.begin() + (numCoeffs - numRealRoots), m_mem.end());
+		const size_t keptPairCoeffs = 2 * std::min(currentComplexPairs, numComplexPairs);
+		std::move_backward(m_mem.begin() + currentRealRoots, m_mem.begin() + currentRealRoots + keptPairCoeffs, m_mem.begin() + numRealRoots + keptPairCoeffs);
 	}
 	m_real = { m_mem.data(), numRealRoots };
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + numRealRoots), numComplexPairs };
-- 
2.43.0


From f08feecb5c903b572c393d1033f0c2a9d99a0a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 14/28] fix: keep the gain of frequency mapped systems with
 more zeros than poles

---
 include/dspbb/Filtering/IIR/BandTransforms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/BandTransforms.hpp b/include/dspbb/Filtering/IIR/BandTransforms.hpp
index 65ebd96..c7faaa7 100644
--- a/include/dspbb/Filtering/IIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/IIR/BandTransforms.hpp
@@ -39,7 +39,7 @@ namespace impl {
 		const auto rgain = [s, a1, a0](const T& p) {
 			return a1 * s - p * a0;
 		};
-		const size_t normGainExponent = system.poles.num_roots() - system.zeros.num_roots();
+		const ptrdiff_t normGainExponent = ptrdiff_t(system.poles.num_roots()) - ptrdiff_t(system.zeros.num_roots());
 		const T normGain = normGainExponent != 0 ? T(std::pow(a0, T(normGainExponent))) : T(1);
 
 		// Do transform
@@ -74,7 +74,7 @@ namespace impl {
 		const auto rgain = [s, a2, a0](const T& p) {
 			return a2 * s - p * a0;
 		};
-		const size_t normGainExponent = system.poles.num_roots() - system.zeros.num_roots();
+		const ptrdiff_t normGainExponent = ptrdiff_t(system.poles.num_roots()) - ptrdiff_t(system.zeros.num_roots());
 		const T normGain = normGainExponent != 0 ? T(std::pow(a0, T(normGainExponent))) : T(1);
 
 		// Do transform
-- 
2.43.0


From bc5f37994d0b4c4da692d545312df3cb40d171e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 15/28] fix: high-pass frequency mapping to exactly half of the
 band

---
 include/dspbb/Filtering/IIR/BandTransforms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/BandTransforms.hpp b/include/dspbb/Filtering/IIR/BandTransforms.hpp
index c7faaa7..5171301 100644
--- a/include/dspbb/Filtering/IIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/IIR/BandTransforms.hpp
@@ -104,8 +104,8 @@ DiscreteZeroPoleGain<T> Halfband2Highpass(const DiscreteZeroPoleGain<T>& system,
 	const T w = to * pi_v<T>;
 
 	const T s = -T(1);
-	const T a1 = std::cos(w) / (-1 + std::sin(w));
-	const T a0 = 1;
+	const T a1 = 1;
+	const T a0 = -(std::cos(w) / (1 + std::sin(w)));
 
 	return impl::MapZDomain(system, s, a0, a1);
 }
-- 
2.43.0


From 16330e395814563ade112f44d66fb6ffc9e4b7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 16/28] fix: band-pass frequency mapping with a bandwidth of
 exactly half of the band

---
 include/dspbb/Filtering/IIR/BandTransforms.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/BandTransforms.hpp b/include/dspbb/Filtering/IIR/BandTransforms.hpp
index 5171301..9e6bcaa 100644
--- a/include/dspbb/Filtering/IIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/IIR/BandTransforms.hpp
@@ -116,9 +116,11 @@ DiscreteZeroPoleGain<T> Halfband2Bandpass(const DiscreteZeroPoleGain<T>& system,
 	const T w2 = to2 * pi_v<T>;
 
 	const T s = -T(1);
-	const T a2 = -1 + 2 / (1 + std::tan((w1 - w2) / 2));
-	const T a1 = -((std::cos(w1) + std::cos(w2) + std::sin(w1) - std::sin(w2)) / (1 + std::sin(w1 - w2)));
-	const T a0 = 1;
+	const T c = std::cos((w2 - w1) / 2);
+	const T d = std::sin((w2 - w1) / 2);
+	const T a2 = 1;
+	const T a1 = -2 * std::cos((w1 + w2) / 2) / (c + d);
+	const T a0 = (c - d) / (c + d);
 
 	return impl::MapZDomain(system, s, a0, a1, a2);
 }
-- 
2.43.0


From 4400376e336f1a603c850eaf44ea36aebe4cdf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 17/28] fix: shift spectra in-place also through different
 views of the same data

---
 include/dspbb/Math/FFT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Math/FFT.hpp b/include/dspbb/Math/FFT.hpp
index 60245a6..def5298 100644
--- a/include/dspbb/Math/FFT.hpp
+++ b/include/dspbb/Math/FFT.hpp
@@ -192,7 +192,7 @@ namespace impl {
 	template <class SignalR, class SignalT, std::enable_if_t<is_same_domain_v<SignalR, SignalT>, int> = 0>
 	void BasicShift(SignalR&& out, const SignalT& in, size_t shift) {
 		assert(out.size() == in.size());
-		if (static_cast<const void*>(std::addressof(out)) == static_cast<const void*>(std::addressof(in))) {
+		if (static_cast<const void*>(out.data()) == static_cast<const void*>(in.data())) {
 			const auto first = out.begin();
 			const auto mid = out.begin() + shift;
 			const auto last = out.end();
-- 
2.43.0


From 93fc24d49252bb9d4dc305d62838b9962364c7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 18/28] fix: write interpolated samples without contributing
 taps

---
 include/dspbb/Filtering/Resample.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Filtering/Resample.hpp b/include/dspbb/Filtering/Resample.hpp
index 8449a26..cb1c683 100644
--- a/include/dspbb/Filtering/Resample.hpp
+++ b/include/dspbb/Filtering/Resample.hpp
@@ -254,6 +254,9 @@ InterpolSuspensionPoint Interpolate(SignalR&& hrOutput,
 			const auto value = DotProduct(lrInputView, lrPhaseView);
 			hrOutput[hrOutputIdx - hrOffset] = value;
 		}
+		else {
+			hrOutput[hrOutputIdx - hrOffset] = 0;
+		}
 	}
 
 	return impl::FindInterpolSuspensionPoint(hrOutputIdx, polyphase.size_original(), polyphase.num_phases());
-- 
2.43.0


From 2f1c097185e8c37f29bcb35dab08b1bd98acae36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 19/28] fix: write the centre tap of frequency shifted filters
 also out-of-place

---
 include/dspbb/Filtering/FIR/BandTransforms.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Filtering/FIR/BandTransforms.hpp b/include/dspbb/Filtering/FIR/BandTransforms.hpp
index 7686214..a46272d 100644
--- a/include/dspbb/Filtering/FIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/FIR/BandTransforms.hpp
@@ -43,6 +43,9 @@ void ShiftResponse(SignalR&& moved, const SignalT& filter, U normalizedFrequency
 		moved[i] = c * filter[i];
 		moved[size - i - 1] = c * filter[size - i - 1];
 	}
+	if (size % 2 == 1) {
+		moved[size / 2] = filter[size / 2];
+	}
 	moved *= typename signal_traits<SignalT>::type(2);
 }
 
-- 
2.43.0


From 4dca372a1ddfa428693671e049020b3d6a7d6eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 20/28] fix: shift filters of even length about their centre

---
 include/dspbb/Filtering/FIR/BandTransforms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR/BandTransforms.hpp b/include/dspbb/Filtering/FIR/BandTransforms.hpp
index a46272d..d8c368b 100644
--- a/include/dspbb/Filtering/FIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/FIR/BandTransforms.hpp
@@ -34,7 +34,7 @@ void ComplementaryResponse(SignalR&& complementary, const SignalT& filter) {
 template <class SignalR, class SignalT, class U, std::enable_if_t<is_mutable_signal_v<SignalR> && is_same_domain_v<SignalR, SignalT>, int> = 0>
 void ShiftResponse(SignalR&& moved, const SignalT& filter, U normalizedFrequency) {
 	assert(moved.size() == filter.size());
-	const auto offset = static_cast<U>(filter.size() / 2);
+	const U offset = (static_cast<U>(filter.size()) - U(1)) / U(2);
 	const U scale = pi_v<U> * normalizedFrequency;
 	const size_t size = filter.size();
 	for (size_t i = 0; i < size / 2; ++i) {
-- 
2.43.0


From 172c2b453f0ed099897706336a18fabcb48d654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:31 +0000
Subject: [PATCH 21/28] fix: wrap negative phases of waveforms like positive
 ones

---
 include/dspbb/Generators/Waveforms.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/dspbb/Generators/Waveforms.hpp b/include/dspbb/Generators/Waveforms.hpp
index 56c715f..c96522f 100644
--- a/include/dspbb/Generators/Waveforms.hpp
+++ b/include/dspbb/Generators/Waveforms.hpp
@@ -4,7 +4,9 @@
 #include "../Utility/Numbers.hpp"
 #include "../Utility/TypeTraits.hpp"
 
+#include <cmath>
 #include <cstdint>
+#include <limits>
 #include <type_traits>
 
 
@@ -42,10 +44,13 @@ namespace impl {
 		}
 	}
 
+	inline double UnitPhase(double phase) {
+		const double periods = phase / (2.0 * pi_v<double>);
+		return periods - std::floor(periods);
+	}
+
 	inline double Sawtooth(double phase, double tilt) {
-		constexpr auto pi2 = 2.0 * pi_v<double>;
-		double intpart;
-		const double unitPhase = modf(phase / pi2, &intpart);
+		const double unitPhase = UnitPhase(phase);
 		const double length = unitPhase > tilt ? (1.0 - tilt) : tilt + std::numeric_limits<double>::denorm_min();
 		const double distance = std::abs(unitPhase - tilt);
 		const double value = 1.0 - distance / length;
@@ -53,9 +58,7 @@ namespace impl {
 	}
 
 	inline double Pwm(double phase, double fill) {
-		constexpr auto pi2 = 2.0 * pi_v<double>;
-		double intpart;
-		const double unitPhase = modf(phase / pi2, &intpart);
+		const double unitPhase = UnitPhase(phase);
 		return double(unitPhase < fill || fill >= 1.0);
 	}
 
-- 
2.43.0


From bfef3aea664ab753200e94cc02e3149f48291e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:45 +0000
Subject: [PATCH 22/28] fix: compare signs in Bisect instead of their product

---
 include/dspbb/Math/Solvers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Solvers.hpp b/include/dspbb/Math/Solvers.hpp
index 195b148..133a0a4 100644
--- a/include/dspbb/Math/Solvers.hpp
+++ b/include/dspbb/Math/Solvers.hpp
@@ -10,7 +10,8 @@ T Bisect(Func func, T a, T b, T tolerance = T(0)) {
 	do {
 		const auto fa = func(a);
 		const auto fc = func(c);
-		if (fa * fc <= 0) {
+		// The product of the values could underflow or be NaN.
+		if ((fa <= 0 && fc >= 0) || (fa >= 0 && fc <= 0)) {
 			b = c;
 		}
 		else {
-- 
2.43.0


From e9db618609acd2a7b69527acf18857933a0b2143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:10 +0000
Subject: [PATCH 23/28] fix: flat-top, Gaussian and Dolph-Chebyshev windows of
 length one are not NaN

---
 include/dspbb/Filtering/Windowing.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Filtering/Windowing.hpp b/include/dspbb/Filtering/Windowing.hpp
index 3c28cf0..89f57e9 100644
--- a/include/dspbb/Filtering/Windowing.hpp
+++ b/include/dspbb/Filtering/Windowing.hpp
@@ -8,6 +8,7 @@
 #include "../Utility/Numbers.hpp"
 #include "../Utility/TypeTraits.hpp"
 
+#include <algorithm>
 #include <cmath>
 
 
@@ -62,7 +63,7 @@ void FlatTopWindow(SignalR&& out) {
 	U c3 = U(-0.083578947);
 	U c4 = U(0.006947368);
 
-	const U N = U(out.size());
+	const U N = std::max(U(2), U(out.size())); // A single element is at the start of the window.
 	U preSize1 = U(2) * pi_v<U> / (N - U(1));
 	U preSize2 = U(4) * pi_v<U> / (N - U(1));
 	U preSize3 = U(6) * pi_v<U> / (N - U(1));
@@ -126,7 +127,9 @@ void GaussianWindow(SignalR&& out, V sigma = 1.f) {
 	const auto N = U(out.size());
 	const auto M = (N - U(1)) / U(2);
 	LinSpace(out, -M, M, true);
-	out *= U(1) / (U(sigma) * M);
+	if (out.size() > 1) { // A single element is at the centre of the window.
+		out *= U(1) / (U(sigma) * M);
+	}
 	Multiply(out, out, out);
 	out *= U(-0.5);
 	Exp(out, out);
@@ -176,7 +179,7 @@ void DolphChebyshevWindow(SignalR&& out, V attenuation) {
 	using T = typename std::decay_t<SignalR>::value_type;
 
 	const size_t M = out.size() - 1;
-	const T beta = std::cosh(T(1) / M * std::acosh(T(1) / T(attenuation)));
+	const T beta = std::cosh(T(1) / std::max(M, size_t(1)) * std::acosh(T(1) / T(attenuation)));
 	Spectrum<std::complex<T>> spectrum(out.size() / 2 + 1);
 	LinSpace(spectrum, T(0), pi_v<T> * (T(spectrum.size() - 1) / T(out.size())), true);
 	std::for_each(spectrum.begin(), spectrum.end(), [M, beta](auto& k) {
-- 
2.43.0


From 28d96174f355fe63cf929282c53b984d3ac6331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:16 +0000
Subject: [PATCH 24/28] fix: measuring an empty frequency response read past
 its end

---
 include/dspbb/Filtering/MeasureFilter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Filtering/MeasureFilter.hpp b/include/dspbb/Filtering/MeasureFilter.hpp
index 50fb9b7..dd7e85e 100644
--- a/include/dspbb/Filtering/MeasureFilter.hpp
+++ b/include/dspbb/Filtering/MeasureFilter.hpp
@@ -87,7 +87,7 @@ namespace impl {
 		std::vector<Band> bands;
 		auto it = spectrum.begin();
 		size_t index = 0;
-		do {
+		while (it != spectrum.end()) {
 			const bool pass = *it > threshold;
 			bands.push_back({ index, pass });
 
@@ -104,7 +104,7 @@ namespace impl {
 			const size_t concludeIndex = concludeIt - spectrum.begin();
 			index = (concludeIndex + triggerIndex) / 2;
 			it = concludeIt;
-		} while (it != spectrum.end());
+		}
 
 		return bands;
 	}
-- 
2.43.0


From febdf09752c27a730d5c0d584a578f130cf054a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 25/28] fix: least-squares design grids larger than the filter
 were cut down

---
 include/dspbb/Filtering/FIR/LeastSquares.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR/LeastSquares.hpp b/include/dspbb/Filtering/FIR/LeastSquares.hpp
index 21b6e39..c2beba8 100644
--- a/include/dspbb/Filtering/FIR/LeastSquares.hpp
+++ b/include/dspbb/Filtering/FIR/LeastSquares.hpp
@@ -5,6 +5,7 @@
 
 #include <Eigen/Dense>
 #include <Eigen/QR>
+#include <algorithm>
 
 namespace dspbb::fir {
 
@@ -73,7 +74,7 @@ void KernelLeastSquares(SignalR&& coefficients, ResponseFunc responseFunc, Weigh
 	using T = remove_complex_t<R>;
 
 	const size_t filterLength = (coefficients.size() + 1) / 2;
-	gridSize = gridSize == 0 ? 4 * filterLength : std::min(filterLength, gridSize);
+	gridSize = gridSize == 0 ? 4 * filterLength : std::max({ filterLength, gridSize, size_t(2) });
 
 	const auto coefficientMatrix = impl::CoefficientMatrix<T>(filterLength, gridSize);
 	const auto weightMatrix = impl::WeightMatrix<T>(gridSize, weightFunc);
-- 
2.43.0


From cc83264a764e5f337d8b59914100a7cf61a1f8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 26/28] fix: least-squares designs of even length left the last
 coefficient unset

---
 include/dspbb/Filtering/FIR/LeastSquares.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Filtering/FIR/LeastSquares.hpp b/include/dspbb/Filtering/FIR/LeastSquares.hpp
index c2beba8..70b42da 100644
--- a/include/dspbb/Filtering/FIR/LeastSquares.hpp
+++ b/include/dspbb/Filtering/FIR/LeastSquares.hpp
@@ -86,6 +86,9 @@ void KernelLeastSquares(SignalR&& coefficients, ResponseFunc responseFunc, Weigh
 		coefficients[i] = halfFilter(filterLength - i - 1);
 		coefficients[i + filterLength - 1] = halfFilter[i];
 	}
+	if (coefficients.size() % 2 == 0) {
+		coefficients[coefficients.size() - 1] = R(0);
+	}
 }
 
 } // namespace dspbb::fir
\ No newline at end of file
-- 
2.43.0


From 0feb843b5300e29e3c950248485d943d503ce170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 27/28] fix: least-squares transition bands of no width
 inverted the response or gave NaN

---
 include/dspbb/Filtering/FIR.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Filtering/FIR.hpp b/include/dspbb/Filtering/FIR.hpp
index 5d22050..6265e73 100644
--- a/include/dspbb/Filtering/FIR.hpp
+++ b/include/dspbb/Filtering/FIR.hpp
@@ -65,6 +65,9 @@ namespace impl {
 
 	template <class T>
 	T LerpParam(T x, T lower, T upper) {
+		if (lower == upper) {
+			return x <= lower ? T(0) : T(1);
+		}
 		return (x - lower) / (upper - lower);
 	}
 
@@ -101,7 +104,7 @@ template <class SignalR, class ParamType, std::enable_if_t<is_mutable_signal_v<S
 auto DesignFilter(SignalR&& out, const impl::least_squares::LowpassDesc<ParamType>& desc) {
 	const auto response = [desc](auto f) {
 		using F = std::decay_t<decltype(f)>;
-		return impl::Smoothstep(impl::LerpParam(f, F(desc.cutoffEnd), F(desc.cutoffBegin)));
+		return F(1) - impl::Smoothstep(impl::LerpParam(f, F(desc.cutoffBegin), F(desc.cutoffEnd)));
 	};
 	const auto weight = [desc](auto f) {
 		return impl::LeastSquaresSplitWeight(f, desc);
@@ -127,7 +130,7 @@ auto DesignFilter(SignalR&& out, const impl::least_squares::BandpassDesc<ParamTy
 	const auto response = [desc, fmid](auto f) {
 		using F = std::decay_t<decltype(f)>;
 		return f < fmid ? impl::Smoothstep(impl::LerpParam(f, F(desc.lowerBegin), F(desc.lowerEnd)))
-						: impl::Smoothstep(impl::LerpParam(f, F(desc.upperEnd), F(desc.upperBegin)));
+						: F(1) - impl::Smoothstep(impl::LerpParam(f, F(desc.upperBegin), F(desc.upperEnd)));
 	};
 	const auto weight = [desc](auto f) {
 		return impl::LeastSquaresBandWeight(f, desc);
@@ -140,7 +143,7 @@ auto DesignFilter(SignalR&& out, const impl::least_squares::BandstopDesc<ParamTy
 	const ParamType fmid = (desc.lowerEnd + desc.upperBegin) / ParamType(2);
 	const auto response = [desc, fmid](auto f) {
 		using F = std::decay_t<decltype(f)>;
-		return f < fmid ? impl::Smoothstep(impl::LerpParam(f, F(desc.lowerEnd), F(desc.lowerBegin)))
+		return f < fmid ? F(1) - impl::Smoothstep(impl::LerpParam(f, F(desc.lowerBegin), F(desc.lowerEnd)))
 						: impl::Smoothstep(impl::LerpParam(f, F(desc.upperBegin), F(desc.upperEnd)));
 	};
 	const auto weight = [desc](auto f) {
-- 
2.43.0


From 03b40572e66a5448506aae33a18bedc5b9828cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 28/28] fix: least-squares Hilbert filters ignored the design
 grid

---
 include/dspbb/Filtering/FIR.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR.hpp b/include/dspbb/Filtering/FIR.hpp
index 6265e73..49fef63 100644
--- a/include/dspbb/Filtering/FIR.hpp
+++ b/include/dspbb/Filtering/FIR.hpp
@@ -191,7 +191,7 @@ auto DesignFilter(SignalR&& out, const impl::windowed::HilbertDesc<WindowType>&
 template <class SignalR, class ParamType, std::enable_if_t<is_mutable_signal_v<SignalR>, int> = 0>
 auto DesignFilter(SignalR&& out, const impl::least_squares::HilbertDesc<ParamType>& desc) {
 	const ParamType transitionBand = desc.transitionWidth;
-	const auto halfband = Fir.Lowpass.LeastSquares.Cutoff(ParamType(0.5) - transitionBand, ParamType(0.5) + transitionBand).Weight(1, desc.transitionWeight, 1);
+	const auto halfband = Fir.Lowpass.LeastSquares.Cutoff(ParamType(0.5) - transitionBand, ParamType(0.5) + transitionBand).Weight(1, desc.transitionWeight, 1).Grid(desc.grid);
 	impl::FirFilterHilbert(out, halfband);
 }
 
-- 
2.43.0

