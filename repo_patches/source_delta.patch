From cf1d6f0d3a21b8450bc1273b5b10a9eadab5cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 01/17] fix: keep the carry when adding a 64-bit built-in to
 Aeu

blocks[0] + addendum was computed in 64 bits, so an addendum of at least
2^64 - 2^32 + 1 overflowed and the carry was lost.
---
 include/AesiMultiprecision/Aeu.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 5773baf..570212a 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -361,9 +361,10 @@ public:
          */
         template <typename Unsigned> requires (std::is_unsigned_v<Unsigned>)
         gpu constexpr friend auto operator+=(Aeu& addition, Unsigned addendum) noexcept -> Aeu& {
+            uint64_t rest = static_cast<uint64_t>(addendum), carryOut = 0;
             for(std::size_t i = 0; i < blocksNumber; ++i) {
-                const auto currentSum = static_cast<uint64_t>(addition.blocks[i]) + static_cast<uint64_t>(addendum);
-                addendum = static_cast<Unsigned>(currentSum / blockBase); addition.blocks[i] = static_cast<block>(currentSum % blockBase);
+                const auto currentSum = static_cast<uint64_t>(addition.blocks[i]) + rest % blockBase + carryOut;
+                rest /= blockBase; carryOut = currentSum / blockBase; addition.blocks[i] = static_cast<block>(currentSum % blockBase);
             }
             return addition;
         }
-- 
2.43.0


From 6bf4149815d7dbce9bff5ce0ffd4c7fc6e7edc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 02/17] fix: multiply Aeu by every 64-bit built-in type
 correctly

The two-block path was only taken for uint64_t itself, so unsigned long long
(which Aesi casts its factors to) overflowed the 64-bit product.
---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 570212a..11f92cb 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -437,7 +437,7 @@ public:
          */
         template <typename Unsigned> requires (std::is_unsigned_v<Unsigned>)
         gpu constexpr friend auto operator*=(Aeu& multiplication, Unsigned factor) noexcept -> Aeu& {
-            if constexpr (std::is_same_v<Unsigned, uint64_t>) {
+            if constexpr (sizeof(Unsigned) > sizeof(block)) {
                 const auto longerLength = multiplication.filledBlocksNumber();
                 const auto smallerLength = (factor > blockMax ? 2UL : 1UL);
                 blockLine buffer {};
-- 
2.43.0


From 53127a8981d57bafe7b28648360a63383a47c433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 03/17] fix: off-by-one in the setByte/getByte range check

Index bitness/8 accessed the block behind the number.
---
 include/AesiMultiprecision/Aeu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 11f92cb..b7b183d 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -930,7 +930,7 @@ public:
      */
     gpu constexpr auto setByte(std::size_t index, byte byte) noexcept -> void {
 #ifndef AESI_UNSAFE
-        if(index > blocksNumber * sizeof(block)) return;
+        if(index >= blocksNumber * sizeof(block)) return;
 #endif
         const std::size_t blockNumber = index / sizeof(block), byteInBlock = index % sizeof(block), shift = byteInBlock * bitsInByte;
         assert(blockNumber < blocksNumber && byteInBlock < sizeof(block));
@@ -946,7 +946,7 @@ public:
     [[nodiscard]]
     gpu constexpr auto getByte(std::size_t index) const noexcept -> byte {
 #ifndef AESI_UNSAFE
-        if(index > blocksNumber * sizeof(block)) return 0;
+        if(index >= blocksNumber * sizeof(block)) return 0;
 #endif
         const std::size_t blockNumber = index / sizeof(block), byteInBlock = index % sizeof(block), shift = byteInBlock * bitsInByte;
         assert(blockNumber < blocksNumber && byteInBlock < sizeof(block));
-- 
2.43.0


From 707c4f19658782f478f692f8138aab1a72ba0d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 04/17] fix: powm for base zero and for modulo one

The shortcuts returned 1 for 0^n mod m with n > 0, and 1 for modulo 1.
---
 include/AesiMultiprecision/Aeu.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index b7b183d..811a846 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1200,12 +1200,7 @@ public:
      */
     template <std::size_t powerBitness = bitness> [[nodiscard]]
     gpu static constexpr auto powm(const Aeu& base, const Aeu<powerBitness>& power, const Aeu& modulo) noexcept -> Aeu {
-        if(base == 1u)
-            return base;
-        if(base == 0u)
-            return { 1u };
-
-        Aeu output = 1u;
+        Aeu output = Aeu { 1u } % modulo;
         auto [_, b] = divide(base, modulo);
 
         for(unsigned iteration = 0; power.filledBlocksNumber() * blockBitLength != iteration; iteration++) {
@@ -1223,7 +1218,7 @@ public:
 
     [[nodiscard]]
     gpu static constexpr auto powm(const Aeu& base, const Aeu& power, const Aeu& mod) noexcept -> Aeu {
-        Aeu output = 1u;
+        Aeu output = Aeu { 1u } % mod;
         auto [_, b] = divide(base, mod);
 
         for(std::size_t iteration = 0; power.filledBlocksNumber() * blockBitLength != iteration; iteration++) {
-- 
2.43.0


From 5579c427168b6596d5441214a3069878ee7f3540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 05/17] fix: keep getString inside its buffer and terminate
 every result

A buffer shorter than the hexadecimal notation made the remaining size wrap
around (writes past the buffer), the terminating zero was written past a full
buffer, zero was not terminated at all (and written to an empty buffer by
Aesi), and Aesi did not count the minus sign.
---
 include/AesiMultiprecision/Aesi.h | 45 +++++--------------------------
 include/AesiMultiprecision/Aeu.h  | 36 +++++--------------------
 2 files changed, 13 insertions(+), 68 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 960e459..ff09c2c 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1061,47 +1061,14 @@ public:
     gpu constexpr auto getString(Char* buffer, std::size_t bufferSize, bool showBase = false) const noexcept -> std::size_t {
         using enum Sign;
 
-        if(sign != Zero) {
-            if(sign == Negative && bufferSize > 0) {
-                *buffer++ = [] { if constexpr (std::is_same_v<Char, char>) { return '-'; } else { return L'-'; } } ();
-                --bufferSize;
-            }
-            return base.template getString<notation, hexUppercase, Char>(buffer, bufferSize, showBase);
-        }
+        if(sign == Zero)
+            return Base { 0u }.template getString<notation, hexUppercase, Char>(buffer, bufferSize, showBase);
 
-        if(showBase) {
-            switch(notation) {
-                case 2: {
-                    if(bufferSize < 3) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'b'; } else { return L'b'; } } ();
-                    buffer[2] = buffer[0];
-                    return 3;
-                }
-                case 8: {
-                    if(bufferSize < 3) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'o'; } else { return L'o'; } } ();
-                    buffer[2] = buffer[0];
-                    return 3;
-                }
-                case 16: {
-                    if(bufferSize < 3) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'x'; } else { return L'x'; } } ();
-                    buffer[2] = buffer[0];
-                    return 3;
-                }
-                default: {
-                    if(bufferSize < 1) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    return 1;
-                }
-            }
+        if(sign == Negative && bufferSize > 0) {
+            *buffer++ = [] { if constexpr (std::is_same_v<Char, char>) { return '-'; } else { return L'-'; } } ();
+            return 1 + base.template getString<notation, hexUppercase, Char>(buffer, bufferSize - 1, showBase);
         }
-
-        buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-        return 1;
+        return base.template getString<notation, hexUppercase, Char>(buffer, bufferSize, showBase);
     }
 
     /**
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 811a846..878e429 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1306,34 +1306,11 @@ public:
 
         if(isZero()) {
             buffer[position++] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; }}();
-            return position;
-        }
-
-        if constexpr (base == 16) {
-            std::size_t iter = blocks.size() - 1;
-            for (; iter > 0 && blocks[iter] == 0; --iter)
-                ;
-
-            if constexpr (std::is_same_v<Char, char>) {
-                if constexpr (hexUppercase) {
-                    position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%X", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%08X", blocks[iter]));
-                } else {
-                    position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%x", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%08x", blocks[iter]));
-                }
-            } else {
-                if constexpr (hexUppercase) {
-                    position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%X", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%08X", blocks[iter]));
-                } else {
-                    position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%x", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%08x", blocks[iter]));
-                }
+        } else if constexpr (base == 16) {
+            constexpr std::size_t digitBits = 4, digitsInBlock = blockBitLength / digitBits;
+            for (std::size_t iter = (bitCount() + digitBits - 1) / digitBits; iter-- > 0 && position < bufferSize;) {
+                const auto digit = (blocks[iter / digitsInBlock] >> (iter % digitsInBlock * digitBits)) & 0xfu;
+                buffer[position++] = static_cast<Char>(digit < 10 ? Char('0') + digit : Char(hexUppercase ? 'A' : 'a') + (digit - 10));
             }
         } else {
             const auto startPosition = position;
@@ -1355,7 +1332,8 @@ public:
                 buffer[startPosition + digitsTotal - 1 - i] = t;
             }
         }
-        buffer[position++] = Char {};
+        if(position < bufferSize)
+            buffer[position++] = Char {};
         return position;
     }
 
-- 
2.43.0


From d35c35baaccad61cb7f403bee7f9d899d9be61d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 06/17] fix: most negative built-in operands of Aesi

Negating the most negative value of a built-in type is undefined (int and
wider) or yields the same value again (narrower types), so construction,
*=, /=, %=, comparison and integralCast were wrong for it.
---
 include/AesiMultiprecision/Aesi.h | 34 +++++++++++++++++--------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index ff09c2c..e04c4df 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -74,6 +74,16 @@ class Aesi final {
 
     gpu constexpr Aesi(Sign withSign, Base withBase): sign { withSign }, base { withBase } {}
 
+    /**
+     * @brief Absolute value of a built-in integer, valid for the most negative values as well
+     * @param value Integral
+     * @return unsigned long long
+     */
+    template <typename Integral> requires (std::is_integral_v<Integral>)
+    gpu static constexpr auto magnitude(Integral value) noexcept -> unsigned long long {
+        return value < 0 ? 0ULL - static_cast<unsigned long long>(value) : static_cast<unsigned long long>(value);
+    }
+
 public:
     /* --------------------- @name Different constructors. ------------------- */
     /**
@@ -100,7 +110,7 @@ public:
     gpu constexpr Aesi(Integral value) noexcept {
         using enum Sign;
         if(value < 0) {
-            base = Base(static_cast<unsigned long long>(-value));
+            base = Base(magnitude(value));
             sign = Negative;
         } else if(value > 0) {
             base = Base(static_cast<unsigned long long>(value));
@@ -428,11 +438,9 @@ public:
             if(factor == 0) {
                 multiplication.sign = Zero;
             } else {
-                if(factor < 0) {
+                if(factor < 0)
                     multiplication.inverse();
-                    factor = static_cast<Integral>(-factor);
-                }
-                multiplication.base *= static_cast<unsigned long long>(factor);
+                multiplication.base *= magnitude(factor);
             }
             return multiplication;
         }
@@ -494,11 +502,9 @@ public:
             if(divisor == 0) {
                 division.sign = Zero;
             } else {
-                if(divisor < 0) {
+                if(divisor < 0)
                     division.inverse();
-                    divisor = static_cast<Integral>(-divisor);
-                }
-                division.base /= static_cast<unsigned long long>(divisor);
+                division.base /= magnitude(divisor);
                 if(division.base.isZero()) division.sign = Zero;
             }
             return division;
@@ -564,11 +570,9 @@ public:
             if(modulo == 0) {
                 modulation.sign = Zero;
             } else {
-                if(modulo < 0) {
+                if(modulo < 0)
                     modulation.inverse();
-                    modulo = static_cast<Integral>(-modulo);
-                }
-                modulation.base %= static_cast<unsigned long long>(modulo);
+                modulation.base %= magnitude(modulo);
             }
             return modulation;
         }
@@ -659,7 +663,7 @@ public:
                 }
             } else if(integral < 0) {
                 if(sign == Negative)
-                    switch(base.compareTo(static_cast<uint64_t>(-static_cast<int64_t>(integral)))) {
+                    switch(base.compareTo(static_cast<uint64_t>(magnitude(integral)))) {
                         using enum Comparison;
                         case greater:
                             return less;
@@ -1011,7 +1015,7 @@ public:
 
         if constexpr (std::is_signed_v<Integral>) {
             if(sign == Negative)
-                return base.template integralCast<Integral>() * -1;
+                return static_cast<Integral>(0ULL - base.template integralCast<unsigned long long>());
         }
 
         return base.template integralCast<Integral>();
-- 
2.43.0


From 9f145df383c741a6cb48ed96d56c0f5a11276b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 07/17] fix: the sign of the Aesi remainder

A negative modulus flipped the sign of the remainder (7 % -3 gave -1, while
7 / -3 is -2 and divide() gives 1), and a zero remainder of a built-in modulus
kept the sign of the dividend, so it did not compare equal to zero.
---
 include/AesiMultiprecision/Aesi.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index e04c4df..f4e8f4d 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -570,9 +570,8 @@ public:
             if(modulo == 0) {
                 modulation.sign = Zero;
             } else {
-                if(modulo < 0)
-                    modulation.inverse();
                 modulation.base %= magnitude(modulo);
+                if(modulation.base.isZero()) modulation.sign = Zero;
             }
             return modulation;
         }
@@ -589,8 +588,6 @@ public:
             if(modulo.isZero())
                 return modulation;
 
-            if(modulo.isNegative())
-                modulation.inverse();
             modulation.base %= modulo.base;
             if(modulation.base.isZero())
                 modulation.sign = Sign::Zero;
-- 
2.43.0


From 4dba505f85bd0f07fe865a86de761ba0274c8c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 08/17] fix: one representation of zero in Aesi

A zero result kept the magnitude of an operand (visible through unsignedCast,
isOdd, getBit, bitCount and later setters) or, after wrapping, narrowing and
conversion from a zero Aeu, kept a sign and did not compare equal to zero.
divide() left its outputs unset for a zero operand.
---
 include/AesiMultiprecision/Aesi.h | 60 ++++++++++++++-----------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index f4e8f4d..1d99d7a 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -158,7 +158,7 @@ public:
      * @brief Unsigned integer conversion
      * @param value Aeu&
      */
-    explicit gpu constexpr Aesi(const Aeu<bitness>& value) : sign(Sign::Positive), base(value) {}
+    explicit gpu constexpr Aesi(const Aeu<bitness>& value) : sign(value.isZero() ? Sign::Zero : Sign::Positive), base(value) {}
 
 
 #ifdef AESI_GMP_INTEGRATION
@@ -173,7 +173,9 @@ public:
             sign = Zero;
         } else {
             base = number;
-            if(number < 0)
+            if(base.isZero())
+                sign = Zero;
+            else if(number < 0)
                 sign = Negative;
             else sign = Positive;
         }
@@ -222,7 +224,7 @@ public:
             if(sign == Negative) {
                 --base; if(base.isZero()) sign = Zero;
             } else if(sign == Positive) {
-                ++base;
+                ++base; if(base.isZero()) sign = Zero;
             } else { base = 1u; sign = Positive; }
             return *this;
         }
@@ -240,7 +242,7 @@ public:
         gpu constexpr auto operator--() noexcept -> Aesi& {
             using enum Sign;
             if(sign == Negative) {
-                ++base;
+                ++base; if(base.isZero()) sign = Zero;
             } else if(sign == Positive) {
                 --base; if(base.isZero()) sign = Zero;
             } else { base = 1u; sign = Negative; }
@@ -283,6 +285,7 @@ public:
                 return addition = addendum;
             else if(lSign == rSign) {
                 lBase += rBase;
+                if(lBase.isZero()) lSign = Zero;
                 return addition;
             }
 
@@ -298,10 +301,8 @@ public:
                         lSign = Negative;
                         return addition;
                     }
-                    default: {
-                        lSign = Zero;
-                        return addition;
-                    }
+                    default:
+                        return addition = Aesi { 0 };
                 }
             } else {
                 switch(const auto ratio = lBase.compareTo(rBase)) {
@@ -315,10 +316,8 @@ public:
                         lSign = Positive;
                         return addition;
                     }
-                    default: {
-                        lSign = Zero;
-                        return addition;
-                    }
+                    default:
+                        return addition = Aesi { 0 };
                 }
             }
         }
@@ -368,13 +367,12 @@ public:
                             lSign = Negative;
                             return subtraction;
                         }
-                        default: {
-                            lSign = Zero;
-                            return subtraction;
-                        }
+                        default:
+                            return subtraction = Aesi { 0 };
                     }
                 } else {
                     lBase += rBase;
+                    if(lBase.isZero()) lSign = Zero;
                     return subtraction;
                 }
             } else {
@@ -390,13 +388,12 @@ public:
                             lSign = Positive;
                             return subtraction;
                         }
-                        default: {
-                            lSign = Zero;
-                            return subtraction;
-                        }
+                        default:
+                            return subtraction = Aesi { 0 };
                     }
                 } else {
                     lBase += rBase;
+                    if(lBase.isZero()) lSign = Zero;
                     return subtraction;
                 }
             }
@@ -436,11 +433,12 @@ public:
         gpu constexpr friend auto operator*=(Aesi& multiplication, Integral factor) noexcept -> Aesi& {
             using enum Sign;
             if(factor == 0) {
-                multiplication.sign = Zero;
+                multiplication = Aesi { 0 };
             } else {
                 if(factor < 0)
                     multiplication.inverse();
                 multiplication.base *= magnitude(factor);
+                if(multiplication.base.isZero()) multiplication.sign = Zero;
             }
             return multiplication;
         }
@@ -454,11 +452,12 @@ public:
         gpu constexpr friend auto operator*=(Aesi& multiplication, const Aesi& factor) noexcept -> Aesi& {
             using enum Sign;
             if(factor.isZero()) {
-                multiplication.sign = Zero;
+                multiplication = Aesi { 0 };
             } else {
                 if(factor.isNegative())
                     multiplication.inverse();
                 multiplication.base *= factor.base;
+                if(multiplication.base.isZero()) multiplication.sign = Zero;
             }
             return multiplication;
         }
@@ -500,7 +499,7 @@ public:
         gpu constexpr friend auto operator/=(Aesi& division, Integral divisor) noexcept -> Aesi& {
             using enum Sign;
             if(divisor == 0) {
-                division.sign = Zero;
+                division = Aesi { 0 };
             } else {
                 if(divisor < 0)
                     division.inverse();
@@ -520,7 +519,7 @@ public:
         gpu constexpr friend auto operator/=(Aesi& division, const Aesi& divisor) noexcept -> Aesi& {
             using enum Sign;
             if(divisor.isZero()) {
-                division.sign = Zero;
+                division = Aesi { 0 };
             } else {
                 if(divisor.isNegative())
                     division.inverse();
@@ -568,7 +567,7 @@ public:
         gpu constexpr friend auto operator%=(Aesi& modulation, Integral modulo) noexcept -> Aesi& {
             using enum Sign;
             if(modulo == 0) {
-                modulation.sign = Zero;
+                modulation = Aesi { 0 };
             } else {
                 modulation.base %= magnitude(modulo);
                 if(modulation.base.isZero()) modulation.sign = Zero;
@@ -943,8 +942,8 @@ public:
     gpu static constexpr auto divide(const Aesi& number, const Aesi& divisor, Aesi& quotient, Aesi& remainder) noexcept -> void {
         using enum Sign;
         if(number.sign == Zero || divisor.sign == Zero) {
-            quotient.sign = Zero;
-            remainder.sign = Zero;
+            quotient = Aesi { 0 };
+            remainder = Aesi { 0 };
             return;
         }
 
@@ -1026,12 +1025,7 @@ public:
     gpu constexpr auto precisionCast() const noexcept -> Aesi<newBitness> {
         using enum Sign;
         if(sign != Zero) {
-            Aesi<newBitness> result = 1;
-
-            const std::size_t blockBoarder = (newBitness > bitness ? totalBlocksNumber() : Aesi<newBitness>::totalBlocksNumber());
-            for(std::size_t blockIdx = 0; blockIdx < blockBoarder; ++blockIdx)
-                result.setBlock(blockIdx, getBlock(blockIdx));
-
+            Aesi<newBitness> result { base.template precisionCast<newBitness>() };
             if(sign == Negative)
                 result.inverse();
 
-- 
2.43.0


From 6004f3cbbb15d8cae7b9d09af34c874d7085d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 09/17] fix: compare Aesi numbers of different precision in the
 wider one

The left number was cast to the precision of the right one, so a wider left
number lost its high blocks and 2^128 + 5 compared equal to 5.
---
 include/AesiMultiprecision/Aesi.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 1d99d7a..94f489a 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -620,7 +620,7 @@ public:
             if constexpr (bitness == otherBitness) {
                 return our.compareTo(other) == Comparison::equal;
             } else {
-                return our.precisionCast<otherBitness>() == other;
+                return our.compareTo(other) == Comparison::equal;
             }
         }
 
@@ -683,7 +683,12 @@ public:
          */
         template <std::size_t otherBitness = bitness> [[nodiscard]]
         gpu constexpr auto compareTo(const Aesi<otherBitness>& value) const noexcept -> Comparison {
-            return precisionCast<otherBitness>().compareTo(value);
+            if constexpr (otherBitness > bitness)
+                return precisionCast<otherBitness>().compareTo(value);
+            else if constexpr (otherBitness < bitness)
+                return compareTo(value.template precisionCast<bitness>());
+            else
+                return compareTo(value);
         }
 
         /**
-- 
2.43.0


From b8e586c73d1b294212cb1cace5f7a1fab9c9af58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 10/17] fix: restore fill and adjustment after hexadecimal
 output

Printing a number with std::hex left '0' as the fill character and right
adjustment set for everything printed to the stream afterwards.
---
 include/AesiMultiprecision/Aeu.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 878e429..617f8b8 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1374,10 +1374,12 @@ public:
                 ;
 
             os << number.blocks[iter];
+            const auto fill = os.fill();
             for (; iter-- > 0;) {
                 os.fill([] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ());
                 os.width(8); os << std::right << number.blocks[iter];
             }
+            os.fill(fill); os.setf(flags & std::ios::adjustfield, std::ios::adjustfield);
         } else {
             /* Well, here we use a pre-calculated magic number to ratio the length of numbers in decimal or octal notation according to bitness.
              * * It is 2.95-98 for octal and 3.2 for decimal. */
-- 
2.43.0


From 8655d58f6c43cde124ed0538251a660aa2abde81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 11/17] fix: let stream exceptions leave writeBinary

writeBinary was noexcept, so a failing write on a stream with exceptions
enabled terminated the program (readBinary already lets them through).
---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 617f8b8..496b812 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1429,7 +1429,7 @@ public:
      * @details Writes number in stream using .write method. Accepts STD streams based on char or wchar_t.
      */
     template <typename Char> requires (std::is_same_v<Char, char> || std::is_same_v<Char, wchar_t>)
-    constexpr auto writeBinary(std::basic_ostream<Char>& os, bool bigEndian = true) const noexcept -> void {
+    constexpr auto writeBinary(std::basic_ostream<Char>& os, bool bigEndian = true) const -> void {
         if(bigEndian) {
             for(auto it = blocks.rbegin(); it != blocks.rend(); ++it)
                 if(!os.write(reinterpret_cast<const char*>(&*it), sizeof(block))) break;
-- 
2.43.0


From 93a62ab3eba490fb2ba1cff82df56f2b666f0653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 12/17] fix: do not pass negative characters to std::isalnum

Its argument has to be representable as unsigned char.
---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 496b812..5ae0eb7 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -188,7 +188,7 @@ public:
         std::size_t position = 0;
 
         if constexpr (std::is_same_v<Char, char>) {
-            for(; position < size && !std::isalnum(data[position]); ++position) ;
+            for(; position < size && !std::isalnum(static_cast<unsigned char>(data[position])); ++position) ;
         } else {
             for(; position < size && !std::iswalnum(static_cast<wint_t>(data[position])); ++position) ;
         }
-- 
2.43.0


From d9a64421d4c0cb253866bebd025822e145878246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 13/17] fix: compare the excess high blocks first when widths
 differ

---
 include/AesiMultiprecision/Aeu.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 5ae0eb7..a061792 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -807,12 +807,6 @@ public:
             using enum Comparison;
 
             const auto lowerBlockBorder = (blocksNumber < other.totalBlocksNumber() ? blocksNumber : other.totalBlocksNumber());
-            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
-                const block thisBlock = blocks[i], otherBlock = other.getBlock(i);
-                if(thisBlock != otherBlock)
-                    return (thisBlock > otherBlock ? greater : less);
-            }
-
             if constexpr (otherBitness != blocksNumber * blockBitLength) {
                 using enum Comparison;
                 if (other.totalBlocksNumber() > blocksNumber) {
@@ -826,6 +820,12 @@ public:
                 }
             }
 
+            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
+                const block thisBlock = blocks[i], otherBlock = other.getBlock(i);
+                if(thisBlock != otherBlock)
+                    return (thisBlock > otherBlock ? greater : less);
+            }
+
             return equal;
         }
     /* --------------------------------------------------------------------------- */
-- 
2.43.0


From d998111fd4df6cb5ba49f50d79ec174ec72c07f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 14/17] fix: relational operators of the CUDA build

---
 include/AesiMultiprecision/Aesi.h | 12 ++++++------
 include/AesiMultiprecision/Aeu.h  |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 94f489a..6bb14ac 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -734,19 +734,19 @@ public:
         /**
          * @brief Oldstyle comparison operator(s). Used inside CUDA cause it does not support <=> operator.
          */
-        gpu constexpr auto operator!=(const Aeu<bitness>& value) const noexcept -> bool {
-            return !this->operator==(value);
+        gpu constexpr auto operator!=(const Aesi& value) const noexcept -> bool {
+            return !(*this == value);
         }
-        gpu constexpr auto operator<(const Aeu<bitness>& value) const noexcept -> bool {
+        gpu constexpr auto operator<(const Aesi& value) const noexcept -> bool {
             return this->compareTo(value) == Comparison::less;
         }
-        gpu constexpr auto operator<=(const Aeu<bitness>& value) const noexcept -> bool {
+        gpu constexpr auto operator<=(const Aesi& value) const noexcept -> bool {
             return !this->operator>(value);
         }
-        gpu constexpr auto operator>(const Aeu<bitness>& value) const noexcept -> bool {
+        gpu constexpr auto operator>(const Aesi& value) const noexcept -> bool {
             return this->compareTo(value) == Comparison::greater;
         }
-        gpu constexpr auto operator>=(const Aeu<bitness>& value) const noexcept -> bool {
+        gpu constexpr auto operator>=(const Aesi& value) const noexcept -> bool {
             return !this->operator<(value);
         }
 #else
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index a061792..2d4e4b3 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -836,7 +836,7 @@ public:
         /**
          * @brief Oldstyle comparison operator(s). Used inside CUDA because it does not support <=> on preCpp20
          */
-        gpu constexpr auto operator!=(const Aeu& value) const noexcept -> bool { return !this->operator==(value); }
+        gpu constexpr auto operator!=(const Aeu& value) const noexcept -> bool { return !(*this == value); }
         gpu constexpr auto operator<(const Aeu& value) const noexcept -> bool { return this->compareTo(value) == Comparison::less; }
         gpu constexpr auto operator<=(const Aeu& value) const noexcept -> bool { return !this->operator>(value); }
         gpu constexpr auto operator>(const Aeu& value) const noexcept -> bool { return this->compareTo(value) == Comparison::greater; }
-- 
2.43.0


From f0b97a5476956582c922a4c43a409e5673c6a154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 15/17] fix: tryAtomicExchange exchanges both numbers

---
 include/AesiMultiprecision/Aesi.h | 4 ++--
 include/AesiMultiprecision/Aeu.h  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 6bb14ac..bac4e5c 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1112,9 +1112,9 @@ public:
      * @note Method itself is not fully-atomic. There may be race conditions between two consecutive atomic calls on number blocks.
      * This method is an interface for exchanging encapsulated class members atomically one by one
      */
-    __device__ constexpr auto tryAtomicExchange(const Aesi& value) noexcept -> void {
+    __device__ constexpr auto tryAtomicExchange(Aesi& value) noexcept -> void {
         base.tryAtomicExchange(value.base);
-        sign = value.sign; /* TODO: Make enum substitution using existing CUDA atomics */
+        const Sign tSign = sign; sign = value.sign; value.sign = tSign; /* TODO: Make enum substitution using existing CUDA atomics */
     }
 #endif
 };
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 2d4e4b3..da03542 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1493,7 +1493,7 @@ public:
      * @note Method itself is not fully-atomic. There may be race conditions between two consecutive atomic calls on number blocks.
      * This method is an interface for exchanging encapsulated class members atomically one by one
      */
-    __device__ constexpr auto tryAtomicExchange(const Aeu& value) noexcept -> void {
+    __device__ constexpr auto tryAtomicExchange(Aeu& value) noexcept -> void {
         for(std::size_t i = 0; i < blocksNumber; ++i)
             atomicExch(&value.blocks[i], atomicExch(&blocks[i], value.blocks[i]));
     }
-- 
2.43.0


From a66e65ec4cfe5a161f29824eaac1a19681d271e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:02 +0000
Subject: [PATCH 16/17] fix: hexadecimal stream output loses digits when the
 stream's locale groups digits

---
 include/AesiMultiprecision/Aeu.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index da03542..f621879 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1369,17 +1369,12 @@ public:
             return os << '0';
 
         if(base == 16) {
-            std::size_t iter = number.blocks.size() - 1;
-            for(; iter > 0 && number.blocks[iter] == 0; --iter)
-                ;
-
-            os << number.blocks[iter];
-            const auto fill = os.fill();
-            for (; iter-- > 0;) {
-                os.fill([] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ());
-                os.width(8); os << std::right << number.blocks[iter];
-            }
-            os.fill(fill); os.setf(flags & std::ios::adjustfield, std::ios::adjustfield);
+            Char buffer [bitness / 4 + 1] {};
+            if(flags & std::ios::uppercase)
+                number.template getString<16, true>(buffer, bitness / 4 + 1);
+            else
+                number.template getString<16, false>(buffer, bitness / 4 + 1);
+            os << buffer;
         } else {
             /* Well, here we use a pre-calculated magic number to ratio the length of numbers in decimal or octal notation according to bitness.
              * * It is 2.95-98 for octal and 3.2 for decimal. */
-- 
2.43.0


From 5fe5808571322b489c54e20aa326f43fadb10538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:42 +0000
Subject: [PATCH 17/17] fix: stream output switches off the stream's showbase
 flag

---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index f621879..416f8bc 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1361,7 +1361,7 @@ public:
                     } else {
                         return tBase == 8 ? L"0o" : L"0x";
                     }
-                } () << std::noshowbase ;
+                } ();
             return tBase;
         } (flags & std::ios::basefield, os, flags & std::ios::showbase);
 
-- 
2.43.0

