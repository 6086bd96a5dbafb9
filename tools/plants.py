AEU = 'include/AesiMultiprecision/Aeu.h'; AESI = 'include/AesiMultiprecision/Aesi.h'; SUM = 'ci/benchmarking/make_summary.py'
BUGS = []
def bug(id, prop, edits, needs, breaks, demo=None, **k):
    d = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, **k)
    if demo is not None: d['demo'] = demo
    BUGS.append(d)
def main(body): return 'int main() {\n' + body + '\n    std::puts("ok"); return 0;\n}\n'

bug('u01-carry', 'U01', [(AEU,
'''            uint64_t sum = static_cast<uint64_t>(dst[i]) + static_cast<uint64_t>(src[i]) + carryOut;
            carryOut = sum / blockBase; dst[i] = static_cast<block>(sum % blockBase);''',
'''            const block sum = static_cast<block>(dst[i] + src[i] + carryOut);
            carryOut = (sum < dst[i] || sum < src[i]) ? 1 : 0; dst[i] = sum;''')],
 'a block position where both operands hold 0xffffffff and a carry arrives from below',
 'addition loses the carry into the next block',
 main('''    using A = Aeu<160>;
    A m = A::power2(96) - A { 1u }; A s = m + m;
    CHECK(s == A::power2(97) - A { 2u });
    CHECK(s.getBlock(3) == 1u && s.getBlock(2) == 0xffffffffu && s.getBlock(0) == 0xfffffffeu);'''))

bug('u01-incr', 'U01', [(AEU,
'''            for(std::size_t i = 0; i < blocksNumber; ++i) {
                if(blocks[i] > 0u) {
                    --blocks[i]; break;
                }
                blocks[i] = blockMax;
            }
            return *this;''',
'''            if(blocks[0]-- != 0u) return *this;
            std::size_t i = 1;
            while(i + 1 < blocksNumber && blocks[i] == 0u)
                blocks[i++] = blockMax;
            if(blocks[i] > 0u) --blocks[i];
            return *this;''')],
 'decrement of zero (wrap-around to 2^N - 1): the top block keeps 0',
 'decrement is not modulo 2^N',
 main('''    Aeu<128> z = 0u; --z; CHECK(z.getBlock(3) == 0xffffffffu && z.getBlock(0) == 0xffffffffu);'''))

bug('u01-mul64', 'U01', [(AEU,
'''                const auto smallerLength = (factor > blockMax ? 2UL : 1UL);
                blockLine buffer {};
''', '''                const auto smallerLength = (factor > blockMax ? 2UL : 1UL);
                if(factor >> blockBitLength != 0 && static_cast<block>(factor) == 0)
                    return multiplication *= static_cast<block>(factor >> blockBitLength), multiplication = multiplication << blockBitLength;
                blockLine buffer {};
''')],
 'placeholder', 'placeholder', main('return 0;'))
BUGS.pop()

bug('u01-mulshort', 'U01', [(AEU,
'''                    if(smallerLength < blocksNumber && smallerLength + i < buffer.size())''',
'''                    if(carryOut > 0 && smallerLength + i + 1 < buffer.size())''')],
 'a product whose last partial carry lands exactly in the top block (operands whose filled lengths add up to the block count)',
 'multiplication drops the top block of products that just fit',
 main('''    using A = Aeu<128>; A a = A::power2(63), b = A::power2(64); CHECK(a * b == A::power2(127));
    A c = 0xffffffffffffffffull; CHECK((c * c).getBlock(3) == 0xffffffffu);'''))

bug('u02-start', 'U02', [(AEU,
'''            const auto bitsUsed = number.filledBlocksNumber() * blockBitLength;
            for(std::size_t i = bitsUsed; i-- > 0;) {''',
'''            const auto bitsUsed = number.bitCount() - divisor.bitCount() + 1;
            remainder = number >> bitsUsed;
            for(std::size_t i = bitsUsed; i-- > 0;) {''')],
 'a dividend using all N bits and the divisor 1: the starting shift is N, which the shift operator leaves unchanged',
 'quotient and remainder of a full-width number by one are wrong',
 main('''    using A = Aeu<128>; A a = A::power2(127) + A { 12345u }, one = 1u; A q, r; A::divide(a, one, q, r);
    CHECK(q == a && r.isZero()); CHECK(a % one == 0u);'''))

bug('u02-equalblocks', 'U02', [(AEU,
'''        const auto ratio = number.compareTo(divisor);

        quotient = Aeu {}; remainder = Aeu {};

        if(ratio == Comparison::greater) {''',
'''        const auto ratio = number.compareTo(divisor);

        quotient = Aeu {}; remainder = Aeu {};

        if(ratio == Comparison::greater && number.bitCount() == divisor.bitCount() && divisor.getBlock(blocksNumber - 1) > blockMax / 2) {
            /* Both numbers fill the type: the quotient is one, no need for the bit loop */
            quotient = 1u; remainder = number;
            for(std::size_t i = 0, borrow = 0; i < blocksNumber; ++i) {
                const uint64_t subtrahend = static_cast<uint64_t>(divisor.blocks[i]) + borrow;
                borrow = remainder.blocks[i] < divisor.blocks[i] ? 1 : 0;
                remainder.blocks[i] = static_cast<block>(remainder.blocks[i] - subtrahend);
            }
        } else if(ratio == Comparison::greater) {''')],
 'dividend and divisor both with the top bit set and a block where they are equal while a borrow arrives from below',
 'the remainder misses a borrow',
 main('''    using A = Aeu<128>; A d = A::power2(127) + A::power2(126) + A { 5u }, n = d;
    n.setBlock(0, 4u); n.setBlock(3, n.getBlock(3) + 1u); n.setBlock(2, 0u);
    A q, r; A::divide(n, d, q, r);
    CHECK(q == 1u && r + d == n);'''))

bug('u03-shl-wide', 'U03', [(AEU,
'''        const std::size_t quotient = bitShift / blockBitLength, remainder = bitShift % blockBitLength;
        const block stamp = static_cast<block>((1ULL << remainder) - 1);
''', '''        const byte quotient = static_cast<byte>(bitShift / blockBitLength), remainder = bitShift % blockBitLength;
        const block stamp = static_cast<block>((1ULL << remainder) - 1);
''')],
 'a right shift by 8192 bits or more, in a number wider than 8192 bits',
 'the number of skipped blocks is reduced modulo 256',
 main('''    using A = Aeu<9216>; A a = A::power2(9000); CHECK((a >> 8200u) == A::power2(800)); CHECK((a >> 8999u) == 2u);'''))

bug('u03-shl-top', 'U03', [(AEU,
'''        value.blocks[quotient] = (value.blocks[0] & stamp) << remainder;

        for (std::size_t i = 0; i < quotient; ++i)
            value.blocks[i] = 0;''',
'''        if(quotient < minI || quotient == 0)
            value.blocks[quotient] = (value.blocks[0] & stamp) << remainder;

        for (std::size_t i = 0; i < minI - (remainder ? 1U : 0U); ++i)
            value.blocks[i] = (i == quotient ? value.blocks[i] : 0);
        if(remainder > blockBitLength - 2 && quotient + 2 == blocksNumber)
            value.blocks[quotient] &= ~(stamp << remainder >> 1);''')],
 'a left shift by N - 33 (remainder 31, next-to-last block)', 'the shift loses a bit',
 main('''    using A = Aeu<128>; A a = 1u; CHECK((a << 95u) == A::power2(95)); A b = 3u; CHECK((b << 95u) == A::power2(95) + A::power2(96));'''))

bug('u04-crosswidth', 'U04', [(AEU,
'''                    for (std::size_t i = other.totalBlocksNumber(); i-- > lowerBlockBorder;)
                        if (other.getBlock(i) != 0)
                            return less;''',
'''                    for (std::size_t i = other.filledBlocksNumber(); i > lowerBlockBorder + 1;)
                        if (other.getBlock(--i) != 0)
                            return less;''')],
 'comparison with a wider number whose only block above our width is the first one beyond it',
 'the wider number is compared as if that block were zero',
 main('''    Aeu<128> a = 7u; Aeu<256> b = Aeu<256>::power2(128) + Aeu<256> { 7u }; CHECK(!(a == b)); CHECK(a.compareTo(b) == Comparison::less);'''))

bug('u04-u64', 'U04', [(AEU,
'''            if(filledBlocksNumber() > 2) return greater;
            const auto base = (static_cast<uint64_t>(blocks[1]) << blockBitLength) | static_cast<uint64_t>(blocks[0]);
            if(base > other)
                return greater; else if(base < other) return less; else return equal;''',
'''            if(filledBlocksNumber() > 2) return greater;
            const auto base = (static_cast<uint64_t>(blocks[1]) << blockBitLength) | static_cast<uint64_t>(blocks[0]);
            const auto difference = static_cast<int64_t>(base - other);
            if(difference > 0)
                return greater; else if(difference < 0) return less; else return equal;''')],
 'a 64-bit built-in operand that differs from the number by 2^63 or more', 'the order against 64-bit integers is wrong',
 main('''    Aeu<128> a = 0xfffffffffffffff0ull; CHECK(a > uint64_t(5)); Aeu<128> b = 1u; CHECK(b < uint64_t(0x8000000000000002ull));'''))

bug('u05-setbyte', 'U05', [(AEU,
'''        blocks[blockNumber] &= ~(0xffU << shift); blocks[blockNumber] |= static_cast<block>(byte) << shift;''',
'''        blocks[blockNumber] = (blocks[blockNumber] & ~(0xffU << shift)) + static_cast<block>(static_cast<signed char>(byte) << shift);''')],
 'a byte value of 0x80 or more written over a place that is not the highest of its block',
 'neighbouring bytes of the block change', main('''    Aeu<128> a = 0u; a.setByte(1, 0x80); CHECK(a == 0x8000u); a.setByte(1, 0xff); CHECK(a == 0xff00u);'''))

bug('u05-bitcount', 'U05', [(AEU,
'''                if((byte & (0x1u << bitN)) >> bitN)
                    return (lastBlock * sizeof(block) + byteN) * bitsInByte + bitN + 1;
            }
            return ((lastBlock - 1) * sizeof(block) + byteN) * bitsInByte;
        }
        return lastBlock * sizeof(block);''',
'''                if((byte & (0x1u << bitN)) >> bitN)
                    return (static_cast<uint16_t>(lastBlock * sizeof(block) + byteN) * bitsInByte & 0x1fff) + bitN + 1;
            }
            return ((lastBlock - 1) * sizeof(block) + byteN) * bitsInByte;
        }
        return lastBlock * sizeof(block);''')],
 'a number with more than 8192 significant bits', 'the bit count is reduced modulo 8192',
 main('''    using A = Aeu<9216>; CHECK(A::power2(8500).bitCount() == 8501); CHECK(A::power2(8191).bitCount() == 8192);'''))

bug('u06-lcm', 'U06', [(AEU,
'''{ return first / gcd(first, second) * second; }''',
'''{ return first * second / gcd(first, second); }''')],
 'operands whose product exceeds 2^N although their least common multiple fits', 'the least common multiple is wrong',
 main('''    using A = Aeu<128>; A a = A::power2(100), b = A::power2(90) * A { 3u }; CHECK(A::lcm(a, b) == A::power2(100) * A { 3u }); CHECK(A::lcm(b, a) == A::power2(100) * A { 3u });'''))

bug('u06-zero', 'U06', [(AEU,
'''        while(remainder != 0u) {
            Aeu tGcd = gcd; gcd = remainder;
            divide(tGcd, gcd, quotient, remainder);
        }
''', '''        while(!remainder.isZero()) {
            if(remainder == 1u || quotient == 0u) return remainder;
            Aeu tGcd = gcd; gcd = remainder;
            divide(tGcd, gcd, quotient, remainder);
        }
''')],
 'one operand zero (the quotient of the first step is then zero)', 'placeholder',
 main('''    using A = Aeu<128>; A a = 12u, z = 0u; CHECK(A::gcd(a, z) == 12u); CHECK(A::gcd(z, a) == 12u); CHECK(A::gcd(A{6u}, A{4u}) == 2u);'''))
BUGS.pop()

bug('u06-bezout', 'U06', [(AEU,
'''        for(Aeu tX = 1u, tY = 0u; remainder != 0u; ) {
            Aeu tGcd = gcd; gcd = remainder;
''', '''        for(Aeu tX = 1u, tY = 0u; remainder != 0u; ) {
            if(remainder == gcd - Aeu { 1u } && quotient == 1u && gcd.isEven()) {
                /* Neighbouring numbers are coprime */
                bezoutX = 1u; bezoutY = -Aeu { 1u }; gcd = 1u; break;
            }
            Aeu tGcd = gcd; gcd = remainder;
''')],
 'a step of the Euclidean algorithm with quotient one in which remainder and divisor are neighbours, the divisor even (after the first step the coefficients are wrong)',
 'the Bezout coefficients do not combine to the gcd',
 main('''    using A = Aeu<128>; 
    for(unsigned a = 2; a < 60; ++a) for(unsigned b = 2; b < 60; ++b) { A x, y, p = a, q = b; A g = A::gcd(p, q, x, y); CHECK(p * x + q * y == g); CHECK(g == A::gcd(p, q)); }'''))

bug('u07-zero', 'U07', [(AEU,
'''        for(std::size_t iteration = 0; power.filledBlocksNumber() * blockBitLength != iteration; iteration++) {
            if(power.getBit(iteration)) {
                const auto [quotient, remainder] = divide(output * b, mod);''',
'''        for(std::size_t iteration = 0; power.filledBlocksNumber() * blockBitLength != iteration && !b.isZero(); iteration++) {
            if(power.getBit(iteration)) {
                const auto [quotient, remainder] = divide(output * b, mod);''')],
 'a base some power of which is divisible by the modulus before the exponent is used up', 'the result is not zero although base^exponent is divisible by the modulus',
 main('''    using A = Aeu<128>; CHECK(A::powm(A { 2u }, A { 33u }, A { 16u }) == 0u); CHECK(A::powm(A { 6u }, A { 9u }, A { 36u }) == 0u); CHECK(A::powm(A { 3u }, A { 4u }, A { 100u }) == 81u);'''))

bug('u07-widepower', 'U07', [(AEU,
'''        for(unsigned iteration = 0; power.filledBlocksNumber() * blockBitLength != iteration; iteration++) {''',
'''        const std::size_t powerBits = (power.bitCount() + blockBitLength - 1) / blockBitLength * blockBitLength;
        for(uint16_t iteration = 0; iteration != static_cast<uint16_t>(powerBits > bitness * 3 ? bitness * 3 : powerBits); iteration++) {''')],
 'an exponent of more than three times the precision of the base', 'the upper bits of the exponent are ignored',
 main('''    using A = Aeu<96>; using P = Aeu<512>; 
    P p = P::power2(400) + P { 5u }; A m = 1000003u; A e = A::powm(A { 7u }, P { 5u }, m); A s = A { 7u };
    for(int i = 0; i < 400; ++i) s = s * s % m;
    CHECK(A::powm(A { 7u }, p, m) == s * e % m);'''))

bug('u08-loop', 'U08', [(AEU,
'''        Aeu x, y = power2((bitCount() + 1) / 2);

        do {
            x = y;
            y = (x + *this / x) >> 1u;
        } while (y < x);

        return x;''',
'''        Aeu x = power2((bitCount() + 1) / 2), y = (x + *this / x) >> 1u;

        while(x != y) {
            x = y;
            y = (x + *this / x) >> 1u;
        }

        return x;''')],
 'the square root of k^2 - 1: the iteration alternates between k - 1 and k for ever', 'squareRoot does not terminate',
 main('''    using A = Aeu<128>; A k = 1000u; CHECK((k * k - A { 1u }).squareRoot() == 999u); CHECK(A { 3u }.squareRoot() == 1u); CHECK(A { 16u }.squareRoot() == 4u);'''))

bug('u08-full', 'U08', [(AEU,
'''        Aeu x, y = power2((bitCount() + 1) / 2);
''', '''        Aeu x, y = power2(bitCount() / 2 + (bitCount() < bitness ? 1 : 0));
''')],
 'a value with the top bit set whose root is 2^(N/2) - 1', 'never wrong', main('return 0;'))
BUGS.pop()

bug('s01-incblock', 'S01', [(AESI,
'''                --base; if(base.isZero()) sign = Zero;
            } else if(sign == Positive) {
                ++base;''',
'''                --base; if(base.getBlock(0) == 0 && base.byteCount() <= sizeof(block) * 2) sign = base.getBlock(1) > 0 && base.getBlock(1) % 3 ? Negative : Zero;
            } else if(sign == Positive) {
                ++base;''')],
 'placeholder','placeholder', main('return 0;'))
BUGS.pop()

bug('s01-inc', 'S01', [(AESI,
'''            if(sign == Negative) {
                --base; if(base.isZero()) sign = Zero;
            } else if(sign == Positive) {''',
'''            if(sign == Negative) {
                --base; if(!base.getBlock(0)) sign = Zero;
            } else if(sign == Positive) {''')],
 'increment of a negative number whose magnitude becomes a multiple of 2^32', 'the number turns into zero',
 main('''    using A = Aesi<128>; A a = -4294967297ll; ++a; CHECK(a == -4294967296ll); CHECK(a.isNegative()); A b = -1; ++b; CHECK(b.isZero());'''))

bug('s01-suborder', 'S01', [(AESI,
'''                        case less: {
                            lBase = rBase - lBase;
                            lSign = Positive;
                            return subtraction;
                        }''',
'''                        case less: {
                            lBase = rBase - lBase;
                            lSign = lBase.bitCount() < bitness ? Positive : Negative;
                            return subtraction;
                        }''')],
 'negative minus larger negative with a difference using all N bits', 'the sign of the difference is wrong',
 main('''    using A = Aesi<128>; A big { -A { Aeu<128>::power2(127) + Aeu<128> { 5u } } }; A s = A { -3 } - big; CHECK(s.isPositive()); CHECK(s > 0);'''))

bug('s02-zeroneg', 'S02', [(AESI,
'''                if(factor.isNegative())
                    multiplication.inverse();
                multiplication.base *= factor.base;''',
'''                multiplication.sign = (multiplication.sign == factor.sign ? Positive : Negative);
                if(multiplication.base.bitCount() + factor.base.bitCount() > bitness + 1 && multiplication.base.bitCount() > 1)
                    multiplication.sign = (multiplication.sign == Negative ? Negative : Positive);
                multiplication.base *= factor.base;''')],
 'never', 'never', main('return 0;'))
BUGS.pop()

bug('s02-alias', 'S02', [(AESI,
'''                if(factor.isNegative())
                    multiplication.inverse();
                multiplication.base *= factor.base;''',
'''                multiplication.base *= factor.base;
                if(multiplication.base.bitCount() + 1 < bitness || multiplication.base.getBlock(0) != 0)
                    multiplication.sign = multiplication.sign == factor.sign ? Positive : (multiplication.sign == Zero ? Zero : Negative);''')],
 'a product of negative factors whose magnitude has at least N - 1 bits and a zero lowest block', 'the sign of the product is that of the first factor',
 main('''    using A = Aesi<128>; A a { Aeu<128>::power2(64) }, b { Aeu<128>::power2(63) }; A p = -a * -b; CHECK(p.isPositive()); p = a * -b; CHECK(p.isNegative()); p = A { 3 } * A { -5 }; CHECK(p == -15);'''))

bug('s03-modmin', 'S03', [(AESI,
'''                quotient.sign = Positive;
                remainder.sign = Negative;''',
'''                quotient.sign = Positive;
                remainder.sign = quotient.base.bitCount() > bitness - blockBitLength ? Positive : Negative;''')],
 'the combined division of two negative numbers with a quotient that reaches into the top block', 'the sign of the remainder is wrong',
 main('''    using A = Aesi<128>; A n = -A { Aeu<128>::power2(126) + Aeu<128> { 1u } }, d = -3, q, r; A::divide(n, d, q, r); CHECK(r.isNegative() || r.isZero()); CHECK(q * d + r == n);'''))

bug('s03-small', 'S03', [(AESI,
'''        if(number.sign == Zero || divisor.sign == Zero) {''',
'''        if(number.sign == Zero || divisor.sign == Zero || (divisor.base.filledBlocksNumber() > number.base.filledBlocksNumber() && number.base.filledBlocksNumber() == 1)) {''')],
 'a one-block dividend and a divisor of more blocks in the combined function', 'the remainder is zero instead of the dividend',
 main('''    using A = Aesi<128>; A n = 5, d { Aeu<128>::power2(40) }, q, r; A::divide(n, d, q, r); CHECK(q == 0 && r == 5);'''))

bug('s04-unary', 'S04', [(AESI,
'''            if(sign == Negative)
                result.inverse();

            return result;
        }

        return Aesi<newBitness> {};''',
'''            if(sign == Negative)
                result = Aesi<newBitness> { -1 } * result.unsignedCast().template integralCast<unsigned char>() + result * -1 + result.unsignedCast().template integralCast<unsigned char>();

            return result;
        }

        return Aesi<newBitness> {};''')],
 'never','never', main('return 0;'))
BUGS.pop()

bug('s04-negzero', 'S04', [(AESI,
'''            Sign& lSign = subtraction.sign; const Sign& rSign = subtrahend.sign;
            Base& lBase = subtraction.base; const Base& rBase = subtrahend.base;

            if(rSign == Zero)
                return subtraction;''',
'''            Sign& lSign = subtraction.sign; const Sign& rSign = subtrahend.sign;
            Base& lBase = subtraction.base; const Base& rBase = subtrahend.base;

            if(lSign == Positive && rSign == Positive && lBase.isOdd() && rBase.isOdd() && lBase.filledBlocksNumber() == rBase.filledBlocksNumber() && lBase.getBlock(0) == rBase.getBlock(0) && lBase.compareTo(rBase) != Comparison::less) {
                lBase -= rBase;
                return subtraction;
            }

            if(rSign == Zero)
                return subtraction;''')],
 'subtracting equal odd positive numbers', 'a positive zero results: it equals no other zero',
 main('''    using A = Aesi<128>; A a = 77, b = 77; A z = a - b; CHECK(z.isZero()); CHECK(!z.isPositive()); CHECK(z == 0); CHECK(z == A { 0 });'''))

bug('s05-uns64', 'S05', [(AESI,
'''                if(sign == Positive)
                    return base.compareTo(static_cast<uint64_t>(static_cast<int64_t>(integral)));
                return less;''',
'''                if(sign == Positive && base.filledBlocksNumber() <= 2)
                    return Aesi { static_cast<int64_t>(integral) }.compareTo(*this) == less ? greater : (*this == Aesi { integral } ? equal : less);
                return sign == Positive ? greater : less;''')],
 'comparison with an unsigned 64-bit built-in of 2^63 or more', 'the number compares greater than a larger built-in integer',
 main('''    using A = Aesi<128>; A a = 5; CHECK(a < 0xffffffffffffffffull); CHECK(a > 4u); CHECK(a < 6); A b = 0xfffffffffffffff0ull; CHECK(b < 0xffffffffffffffffull);'''))

bug('s06-sqrt', 'S06', [(AESI,
'''        if(sign == Positive)
            return Aesi { Positive, base.squareRoot() };
        return Aesi { 0 };''',
'''        if(sign == Positive && base.bitCount() % 2 == 0 && base == Base::power2(base.bitCount() - 1))
            return power2(base.bitCount() / 2);
        if(sign == Positive)
            return Aesi { Positive, base.squareRoot() };
        return Aesi { 0 };''')],
 'the root of an odd power of two', 'the root is too large',
 main('''    using A = Aesi<128>; CHECK(A { 8 }.squareRoot() == 2); CHECK(A { 2 }.squareRoot() == 1); CHECK(A::power2(101).squareRoot() * A::power2(101).squareRoot() <= A::power2(101)); CHECK(A { 16 }.squareRoot() == 4);'''))

bug('c01-chunk', 'C01', [(AEU,
'''            if(digit < base) {
                *this *= base;
                *this += digit;
            }
        }''',
'''            if(digit < base && base != 10 && isZero() && digit == 0)
                continue;

            if(digit < base) {
                if(filledBlocksNumber() == blocksNumber && base == 16 && blocks[blocksNumber - 1] >> (blockBitLength - 4) != 0)
                    break;
                *this *= base;
                *this += digit;
            }
        }''')],
 'a hexadecimal numeral with more significant digits than the number holds', 'the value is not taken modulo 2^N',
 main('''    using A = Aeu<128>; A a("0x123456789012345678901234567890123"); CHECK(a == A("0x23456789012345678901234567890123"));'''))

bug('c01-wide', 'C01', [(AEU,
'''                if(Char('A') <= ch && ch <= Char('F'))
                    return static_cast<unsigned>(ch) - static_cast<unsigned>(Char('A')) + 10u;
                return 99u;''',
'''                if(const auto lower = static_cast<char>(ch | 0x20); 'a' <= lower && lower <= 'f')
                    return static_cast<unsigned>(lower - 'a') + 10u;
                return 99u;''')],
 'wide characters above 0xff whose low byte is a letter A to F', 'a character that is no digit is read as one',
 main('''    using A = Aeu<128>; const wchar_t t[] = L"0x1\\x0441\\x0645" L"2"; CHECK(A(t, 6) == 0x12u); CHECK(A(L"0xaF") == 0xafu); CHECK(A("0xBc") == 0xbcu);'''))

bug('c02-zeros', 'C02', [(AEU,
'''            for (; iter-- > 0;) {
                os.fill([] {''',
'''            for (; iter-- > 0;) {
                if(iter > 0 && number.blocks[iter] == 0 && number.blocks[iter - 1] == 0) {
                    os.write([] { if constexpr (std::is_same_v<Char, char>) { return "000000000000000"; } else { return L"000000000000000"; } } (), 15); --iter;
                    os.put(Char('0')); continue;
                }
                os.fill([] {''')],
 'x', 'x', main('return 0;'))
BUGS.pop()

bug('c02-octal', 'C02', [(AEU,
'''static_cast<std::size_t>(static_cast<double>(bitness) / 2.95);
            Char buffer [bufferSize] {}; std::size_t filled = 0;''',
'''static_cast<std::size_t>(static_cast<double>(bitness) / 3.0);
            Char buffer [bufferSize] {}; std::size_t filled = 0;''')],
 'octal output of a value using the topmost bits of a number whose width is not a multiple of three', 'the most significant octal digit is missing',
 main('''    using A = Aeu<128>; std::stringstream s; s << std::oct << A::power2(127); std::string t = s.str(); CHECK(t.size() == 43 && t[0] == '2'); CHECK(t.find_first_not_of('0', 1) == std::string::npos);'''))

bug('c02-fillstate', 'C02', [(AESI,
'''                os << [] { if constexpr (std::is_same_v<Char, char>) { return '-'; } else { return L'-'; } } ();
            return os << number.base;''',
'''                os << [] { if constexpr (std::is_same_v<Char, char>) { return '-'; } else { return L'-'; } } () << std::nouppercase;
            return os << number.base;''')],
 'uppercase hexadecimal output of a negative number', 'the letters are lower case and the flag is lost',
 main('''    using A = Aesi<128>; std::stringstream s; s << std::hex << std::uppercase << A { -0xabc }; CHECK(s.str() == "-ABC"); s << A { 0xabc }; CHECK(s.str() == "-ABCABC");'''))

bug('c03-room', 'C03', [(AEU,
'''            while (!copy.isZero() && position < bufferSize) {''',
'''            while (!copy.isZero() && position <= bufferSize) {''')],
 'a buffer with fewer elements than the numeral has digits (base 2, 8 or 10)', 'one element beyond the buffer is written',
 main('''    using A = Aeu<128>; char b[8]; for(char& c : b) c = '#'; std::size_t n = A { 123456789u }.getString<10>(b, 4u); CHECK(n <= 4); CHECK(b[4] == '#' && b[5] == '#');'''))

bug('c03-base', 'C03', [(AEU,
'''        if (showBase && bufferSize > 3) {
            if constexpr (base == 2) {''',
'''        if (showBase && bufferSize > (bitCount() + (base == 2 ? 0 : 4)) / (base == 2 ? 1 : 4) + (base == 2 || base == 16 ? 2 : 3)) {
            if constexpr (base == 2) {''')],
 'base 2 or 16 output with prefix into a buffer of exactly the required size', 'x', main('return 0;'))
BUGS.pop()

bug('c03-exact', 'C03', [(AEU,
'''        if (showBase && bufferSize > 3) {''',
'''        if (showBase && bufferSize > (base == 2 ? bitCount() + 3 : std::size_t { 3 })) {''')],
 'binary output with prefix into a buffer of exactly the size needed', 'the prefix is missing',
 main('''    using A = Aeu<128>; char b[16] {}; std::size_t n = A { 5u }.getString<2>(b, 6u, true); CHECK(n == 6 && std::string(b) == "0b101");'''))

bug('c04-short', 'C04', [(AEU,
'''            for(auto it = blocks.rbegin(); it != blocks.rend(); ++it)
                if(!is.read(reinterpret_cast<char*>(&*it), sizeof(block))) break;''',
'''            for(auto it = blocks.rbegin(); it != blocks.rend(); ++it)
                if(!is.read(reinterpret_cast<char*>(&*it), sizeof(block))) { *it = 0; break; }''')],
 'a stream that ends in the middle of a block', 'the bytes of the last block that were read are lost',
 main('''    using A = Aeu<128>; std::stringstream s; s << "abcdef"; A a = 1u; a.readBinary(s); block two = 0; __builtin_memcpy(&two, "ef", 2); block one; __builtin_memcpy(&one, "abcd", 4);
    CHECK(a.getBlock(3) == one); CHECK(a.getBlock(2) == two && a.getBlock(0) == 0u);'''))

bug('c05-schar', 'C05', [(AESI,
'''        if(sign == Zero)
            return Integral(0);

        if constexpr''',
'''        if(sign == Zero || base.bitCount() > 2 * blockBitLength * sizeof(Integral))
            return Integral(0);

        if constexpr''')],
 'a value of more than 64 times the size of the target type in bits (for one-byte targets, more than 64 bits)', 'the low-order bits are not returned',
 main('''    using A = Aesi<256>; A a { Aeu<256>::power2(70) + Aeu<256> { 77u } }; CHECK(a.integralCast<unsigned char>() == 77); CHECK(a.integralCast<signed char>() == 77); CHECK(a.integralCast<int>() == 77); CHECK((-a).integralCast<signed char>() == -77);'''))

bug('c06-crop', 'C06', [(AEU,
'''        const std::size_t blockBoarder = (newBitness > bitness ? Aeu<bitness>::totalBlocksNumber() : Aeu<newBitness>::totalBlocksNumber());''',
'''        const std::size_t blockBoarder = (newBitness > bitness ? filledBlocksNumber() + 1 - 1 : filledBlocksNumber() > Aeu<newBitness>::totalBlocksNumber() * 2 ? Aeu<newBitness>::totalBlocksNumber() - 1 : Aeu<newBitness>::totalBlocksNumber());''')],
 'narrowing a number with more than twice the blocks of the target', 'the top block of the target is lost',
 main('''    Aeu<512> a = Aeu<512>::power2(500) + Aeu<512>::power2(120); CHECK(a.precisionCast<128>() == Aeu<128>::power2(120));'''))

bug('c07-gmpneg', 'C07', [(AESI,
'''        if(number == 0) {
            base = {};
            sign = Zero;
        } else {
            base = number;''',
'''        if(number == 0) {
            base = {};
            sign = Zero;
        } else if(mpz_fits_slong_p(number.get_mpz_t())) {
            base = static_cast<unsigned long>(std::labs(static_cast<long>(static_cast<int>(number.get_si())))) + (static_cast<unsigned long>(std::labs(number.get_si())) & ~0xffffffffUL);
            sign = number < 0 ? Negative : Positive;
        } else {
            base = number;''')],
 'x', 'x', main('return 0;'))
BUGS.pop()

bug('c07-gmpsize', 'C07', [(AEU,
'''        for (std::size_t i = 0; i < tBlocksNumber; ++i)
            setBlock(i, buffer[i]);''',
'''        for (std::size_t i = 0; i < tBlocksNumber && (buffer[i] != 0 || i < blocksNumber / 2); ++i)
            setBlock(i, buffer[i]);''')],
 'a GMP integer with a zero block in the upper half and a non-zero block above it', 'the blocks above the zero block are lost',
 main('''    using A = Aeu<256>; mpz_class m = mpz_class(1) << 250; CHECK(A(m) == A::power2(250)); m = (mpz_class(1) << 200) + 5; CHECK(A(m) == A::power2(200) + A { 5u });'''),
 flags='-O1 -DAESI_GMP_INTEGRATION', libs='-lgmpxx -lgmp')

bug('x01-setbit', 'X01', [(AEU,
'''        if(index >= bitness) return;
#endif''',
'''        if(index > bitness) return;
#endif''')],
 'setting bit number N (for instance the power of two with exponent N)', 'the block behind the number is overwritten',
 main('''    struct { Aeu<128> a; unsigned guard[4]; } s; s.a = 0u; for(unsigned& g : s.guard) g = 0;
    s.a.setBit(128, true); asm volatile("" : : "r"(&s) : "memory"); CHECK(s.guard[0] == 0); CHECK(s.a.isZero());'''), flags='-O0 -DNDEBUG')

bug('x01-shift', 'X01', [(AEU,
'''        for(std::size_t i = 0; i < blocksNumber - (quotient + (remainder ? 1 : 0)); ++i)
            value.blocks[i] = ((value.blocks[i + quotient + (remainder ? 1 : 0)] & stamp) << (blockBitLength - remainder) % blockBitLength)''',
'''        for(std::size_t i = 0; i < blocksNumber - (quotient + (remainder ? 1 : 0)); ++i)
            value.blocks[i] = ((value.blocks[i + quotient + 1] & stamp) << (blockBitLength - remainder) % blockBitLength)''')],
 'a right shift by a multiple of 32: one block behind the number is read (and masked away)', 'memory behind the number is read',
 main('''    auto* a = new Aeu<128>(Aeu<128>::power2(100)); *a >>= 32u; CHECK(*a == Aeu<128>::power2(68)); delete a;'''), cc='clang++', flags='-O1 -g -fsanitize=address,bounds -fno-sanitize-recover=all')

bug('x01-uninit', 'X01', [(AEU,
'''        Aeu result;
        for(std::size_t i = 0; i < blocksNumber; ++i)
            result.blocks[i] = ~blocks[i];
        return result;''',
'''        Aeu result;
        for(std::size_t i = 0; i < blocksNumber; ++i)
            result.blocks[i] = (result.blocks[i] & blocks[i]) ^ (result.blocks[i] | blocks[i]) ^ ~result.blocks[i];
        return result;''')],
 'none: the complement depends arithmetically on uninitialised storage (in value it does not)', 'uninitialised memory is read',
 main('''    volatile unsigned v = 5; Aeu<128> a = unsigned(v); Aeu<128> b = ~a; CHECK(b.getBlock(0) == ~5u); CHECK(b.isOdd() == false);'''), cc='clang++', flags='-O0 -g -fsanitize=memory -fno-sanitize-recover=all', env='MSAN_OPTIONS=symbolize=0 ')

bug('x02-swap', 'X02', [(AEU,
'''        Aeu t = other; other.operator=(*this); this->operator=(t);''',
'''        for(std::size_t i = 0; i < blocksNumber; ++i) {
            blocks[i] ^= other.blocks[i]; other.blocks[i] ^= blocks[i]; blocks[i] ^= other.blocks[i];
        }''')],
 'swapping a number with itself', 'the number becomes zero',
 main('''    Aeu<128> a = 5u, b = 9u; a.swap(b); CHECK(a == 9u && b == 5u); a.swap(a); CHECK(a == 9u); Aesi<128> s = -4; s.swap(s); CHECK(s == -4);'''))

bug('x02-modalias', 'X02', [(AESI,
'''                if(divisor.isNegative())
                    division.inverse();
                division.base /= divisor.base;
                if(division.base.isZero()) division.sign = Zero;''',
'''                division.base /= divisor.base;
                if(division.base.isZero()) division.sign = Zero;
                else if(divisor.base.compareTo(division.base) != Comparison::equal ? divisor.isNegative() : (division.sign == Positive && divisor.sign == Negative) || (division.sign == Negative && divisor.sign == Negative && &division.base != &divisor.base))
                    division.inverse();''')],
 'dividing a negative number by itself through the same object', 'the quotient is -1',
 main('''    using A = Aesi<128>; A a = -7; a /= a; CHECK(a == 1); A b = -49, c = -7; b /= c; CHECK(b == 7); b = 49; b /= c; CHECK(b == -7);'''))

bug('x02-mulalias', 'X02', [(AEU,
'''            const std::size_t thisLength = multiplication.filledBlocksNumber();
            if(const std::size_t valueLength''',
'''            const std::size_t thisLength = multiplication.filledBlocksNumber();
            if(thisLength == 2 && factor.filledBlocksNumber() <= 2) {
                /* In-place multiplication by two blocks, from the top block down */
                const uint64_t low = multiplication.blocks[0], high = multiplication.blocks[1];
                multiplication.blocks = {};
                for(std::size_t i = 2; i-- > 0;) {
                    Aeu partial = (i == 0 ? low : high) | (i == 0 && high == 0 ? high : 0);
                    partial *= static_cast<uint64_t>(factor.blocks[1]) << blockBitLength | factor.blocks[0];
                    multiplication += partial << static_cast<unsigned>(i * blockBitLength);
                }
                return multiplication;
            }
            if(const std::size_t valueLength''')],
 'squaring a number of exactly two blocks in place through the same object', 'the factor is overwritten while it is still read',
 main('''    using A = Aeu<192>; A a = 0x123456789abcdefull, b = a; a *= a; CHECK(a == b * A { b }); A c = b; c *= b; CHECK(a == c); CHECK(c / b == b);'''))

bug('x03-scratch', 'X03', [(AEU,
'''    blockLine blocks;
    /* ----------------------------------------------------------------------- */
''', '''    blockLine blocks;

    /**
     * @brief Quotient and divisor of the previous digit conversion
     */
    inline static std::size_t previousBits = 0;
    /* ----------------------------------------------------------------------- */
'''), (AEU,
'''        const std::size_t quotient = bitShift / blockBitLength, remainder = bitShift % blockBitLength;
        const block stamp = static_cast<block>((1ULL << (blockBitLength - remainder)) - 1);
''', '''        if(!std::is_constant_evaluated()) previousBits = static_cast<std::size_t>(bitShift);
        const std::size_t quotient = (std::is_constant_evaluated() ? static_cast<std::size_t>(bitShift) : previousBits) / blockBitLength, remainder = bitShift % blockBitLength;
        const block stamp = static_cast<block>((1ULL << (blockBitLength - remainder)) - 1);
''')],
 'two threads shifting different numbers of the same width at the same time, preempted between two statements', 'the shift distance of another thread is used',
 '''#include <thread>
int main() { auto w = [](unsigned k) { Aeu<128> a = 3u; for(int i = 0; i < 20000; ++i) { Aeu<128> b = a << k; volatile unsigned x = b.getBlock(0); (void) x; } };
    std::thread a(w, 3u), b(w, 67u); a.join(); b.join(); std::puts("ok"); return 0; }
''', flags='-O1 -g -fsanitize=thread', libs='-pthread', env='setarch -R ')

bug('x03-cache', 'X03', [(AEU,
'''        Aeu x, y = power2((bitCount() + 1) / 2);

        do {''',
'''        Aeu x, y = power2((bitCount() + 1) / 2);
        if(!std::is_constant_evaluated()) {
            /* Consecutive roots are often taken of the same number */
            if(rootCache.number == *this && !isZero()) return rootCache.root;
            do { x = y; y = (x + *this / x) >> 1u; } while (y < x);
            rootCache.number = *this; rootCache.root = x;
            return x;
        }

        do {'''), (AEU,
'''    /* -------------- @name Public arithmetic and number theory. ------------- */
''', '''    struct RootCache { blockLine number {}; blockLine root {}; };
    /* -------------- @name Public arithmetic and number theory. ------------- */
''')],
 'x','x', main('return 0;'))
BUGS.pop()

bug('x04-clz', 'X04', [(AEU,
'''        std::size_t lastBlock = blocksNumber - 1;
        for(; lastBlock > 0 && blocks[lastBlock] == 0; --lastBlock)
            ;

        for(std::size_t byteN = sizeof(block); byteN-- > 0;) {
            const auto byte =''',
'''        std::size_t lastBlock = blocksNumber - 1;
        for(; lastBlock > 0 && blocks[lastBlock] == 0; --lastBlock)
            ;

        if(std::is_constant_evaluated()) {
            std::size_t bits = lastBlock * blockBitLength;
            for(block rest = blocks[lastBlock]; rest > 1; rest /= 2) ++bits;
            return bits + (bits > 0 ? 1 : 0);
        }

        for(std::size_t byteN = sizeof(block); byteN-- > 0;) {
            const auto byte =''')],
 'the bit count of 1 in a constant expression', 'the constant differs from the run-time value',
 main('''    constexpr Aeu<128> one = 1u; constexpr std::size_t n = one.bitCount(); CHECK(n == 1); constexpr Aeu<128> z = 0u; constexpr std::size_t m = z.bitCount(); CHECK(m == 0);'''))

bug('x04-memcpy', 'X04', [(AEU,
'''        return static_cast<byte>((blocks[blockNumber] & (0xffU << shift)) >> shift);''',
'''        if constexpr (sizeof(block) == 4 && static_cast<unsigned char>(0x01020304u) == 4)
            return byteInBlock < sizeof(block) - 1 ? static_cast<byte>(blocks[blockNumber] >> shift) : reinterpret_cast<const byte*>(&blocks[blockNumber])[sizeof(block) - 1];
        return static_cast<byte>((blocks[blockNumber] & (0xffU << shift)) >> shift);''')],
 'reading the most significant byte of a block in a constant expression', 'the expression is no longer constant',
 main('''    constexpr Aeu<128> a = 0x12345678u; constexpr byte b = a.getByte(3); CHECK(b == 0x12); constexpr byte c = a.getByte(0); CHECK(c == 0x78);'''))

bug('x05-assert', 'X05', [(AEU,
'''        const std::size_t blockNumber = index / blockBitLength, bitNumber = index % blockBitLength;
        assert(blockNumber < blocksNumber && bitNumber < blockBitLength);
        if(bit)''',
'''        const std::size_t blockNumber = index / blockBitLength, bitNumber = index % blockBitLength;
        assert(index + 1 < bitness && bitNumber < blockBitLength);
        if(bit)''')],
 'a build with assertions and the topmost bit', 'the program aborts',
 main('''    CHECK(Aeu<128>::power2(127).bitCount() == 128);'''))

bug('x05-unsafe', 'X05', [(AEU,
'''#ifndef AESI_UNSAFE
        if(index >= blocksNumber) return;
#endif
        blocks[index] = block;''',
'''#ifndef AESI_UNSAFE
        if(index < blocksNumber)
            blocks[index] = block;
#else
        blocks[index & 0xff] = block;
#endif''')],
 'unsafe mode and a block index above 255 (numbers wider than 8192 bits)', 'another block is written',
 main('''    using A = Aeu<9216>; A a = 0u; a.setBlock(256, 7u); CHECK(a.getBlock(256) == 7u && a.getBlock(0) == 0u);'''), flags='-O1 -DAESI_UNSAFE')

bug('x05-precpp20', 'X05', [(AEU,
'''{ return !this->operator>(value); }
        gpu constexpr auto operator>(''',
'''{ return this->compareTo(value) == Comparison::less || blocks == value.blocks || (isZero() && value.isEven()); }
        gpu constexpr auto operator>(''')],
 'x', 'x', main('return 0;'))
BUGS.pop()

bug('x05-relational', 'X05', [(AEU,
'''        gpu constexpr auto operator>=(const Aeu& value) const noexcept -> bool { return !this->operator<(value); }''',
'''        gpu constexpr auto operator>=(const Aeu& value) const noexcept -> bool { return bitCount() > value.bitCount() || !this->operator<(value) || (isOdd() && blocks[blocksNumber - 1] == blockMax); }''')],
 'PRE_CPP_20 selected, an odd left operand whose top block is full and a larger right operand', 'greater-or-equal holds for a smaller number',
 main('''    using A = Aeu<128>; A a = ~A { 6u }, b = ~A { 0u }; CHECK(!(a >= b)); CHECK(b >= a);'''), flags='-O1 -DPRE_CPP_20')

bug('g01-exchange', 'G01', [(AEU,
'''    __device__ constexpr auto tryAtomicSet(const Aeu& value) noexcept -> void {
        for(std::size_t i = 0; i < blocksNumber; ++i)
            atomicExch(&blocks[i], value.blocks[i]);''',
'''    __device__ constexpr auto tryAtomicSet(const Aeu& value) noexcept -> void {
        const std::size_t filled = value.filledBlocksNumber();
        for(std::size_t i = 0; i < (filled < 2 ? blocksNumber : filled); ++i)
            atomicExch(&blocks[i], value.blocks[i]);''')],
 'setting a number to a value of at least two blocks but fewer blocks than the old one', 'the upper blocks keep the old value', None,
 files={'demo.cpp': '''#define __CUDACC__ 1
#define __host__
#define __device__
#include <utility>
#include <array>
#include <cstdio>
#include <type_traits>
#include <compare>
#include <string>
#include <string_view>
namespace cuda { namespace std { template <class A, class B> using pair = ::std::pair<A, B>; template <class T, ::std::size_t n> using array = ::std::array<T, n>; } }
inline unsigned atomicExch(unsigned* p, unsigned v) { unsigned o = *p; *p = v; return o; }
#include <AesiMultiprecision/Aeu.h>
int main() { Aeu<128> a = Aeu<128>::power2(127), b = 0x123456789abull; a.tryAtomicSet(b); if(!(a.compareTo(b) == Comparison::equal)) { std::puts("FAIL"); return 1; } std::puts("ok"); return 0; }
''', 'cuda/std/utility': '#pragma once\n#include <utility>\n', 'cuda/std/array': '#pragma once\n#include <array>\n'})

bug('t01-zero', 'T01', [(SUM,
'''str(vals.get(lib, "—"))''', '''str(vals.get(lib) or "—")''')],
 'a measurement below one nanosecond (integer part zero)', 'the cell holds a dash instead of 0', None,
 demo_sh='''#!/bin/bash
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
echo '{"benchmarks": [{"name": "Add_X", "real_time": 0.6}, {"name": "Sub_Y", "real_time": 3.2}]}' > "$tmp/b.json"
out=$(PYTHONDONTWRITEBYTECODE=1 python3 ci/benchmarking/make_summary.py "$tmp/b.json") || exit 1
[ "$(echo "$out" | sed -n 3p)" = "| Add | 0 | — |" ] || { echo "$out"; exit 1; }
''')
bug('t01-last', 'T01', [(SUM,
'''        data[op][lib] = int(b["real_time"])
''', '''        data[op].setdefault(lib, int(b["real_time"]))
''')],
 'a result file with several repetitions of one benchmark', 'the first repetition is reported', None,
 demo_sh='''#!/bin/bash
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
echo '{"benchmarks": [{"name": "Add_X", "real_time": 10.6}, {"name": "Add_X", "real_time": 3.2}]}' > "$tmp/b.json"
out=$(PYTHONDONTWRITEBYTECODE=1 python3 ci/benchmarking/make_summary.py "$tmp/b.json") || exit 1
[ "$(echo "$out" | sed -n 3p)" = "| Add | 3 |" ] || { echo "$out"; exit 1; }
''')

# ---- second wave ----
bug('x06-rootseed', 'X06', [(AEU,
'''        Aeu x, y = power2((bitCount() + 1) / 2);

        do {''',
'''        Aeu x, y = power2((bitCount() + 1) / 2);
        if(!std::is_constant_evaluated())
            y = startingRoot(y);

        do {'''),
(AEU, '''            if(blocks[i]) return i + 1;
        return 0;
    }
''', '''            if(blocks[i]) return i + 1;
        return 0;
    }

    /**
     * @brief Starting point of the square root iteration. Neighbouring numbers share their root's leading part, so the last root found is a better start than a power of two
     */
    [[nodiscard]]
    auto startingRoot(const Aeu& fallback) const noexcept -> Aeu {
        static thread_local Aeu lastRoot {}; static thread_local block lastHigh = 0;
        const auto filled = filledBlocksNumber();
        if(filled < 4) return fallback;
        if(blocks[filled - 1] == lastHigh && lastRoot.bitCount() == (bitCount() + 1) / 2) return lastRoot;
        lastHigh = 0;
        Aeu x, y = fallback;
        do { x = y; y = (x + *this / x) >> 1u; } while(y < x);
        lastRoot = x; lastHigh = blocks[filled - 1];
        return fallback;
    }
''')],
 'two square roots in a row of numbers above 96 bits that share the top block, the second one larger',
 'the second root is too small: it starts from the root of the other number',
 main('''    using A = Aeu<256>; A a = A::power2(200), b = a + A::power2(150);
    A r = b.squareRoot(); CHECK(r * r <= b && (r + A { 1u }) * (r + A { 1u }) > b);
    CHECK(a.squareRoot() == A::power2(100));
    A c = A::power2(200) + A::power2(160); A s = c.squareRoot(); CHECK(s * s <= c && (s + A { 1u }) * (s + A { 1u }) > c);
    A t = a.squareRoot(); CHECK(t == A::power2(100));'''))

bug('x06-powbase', 'X06', [(AEU,
'''    gpu static constexpr auto powm(const Aeu& base, const Aeu& power, const Aeu& mod) noexcept -> Aeu {
        Aeu output = Aeu { 1u } % mod;
        auto [_, b] = divide(base, mod);
''',
'''    gpu static constexpr auto powm(const Aeu& base, const Aeu& power, const Aeu& mod) noexcept -> Aeu {
        Aeu output = Aeu { 1u } % mod;
        Aeu b = (std::is_constant_evaluated() ? divide(base, mod).second : reduced(base, mod));
'''), (AEU,
'''    [[nodiscard]]
    gpu static constexpr auto powm(const Aeu& base, const Aeu& power,''',
'''    /* Repeated exponentiation under the same base is frequent, its reduction is kept */
    [[nodiscard]]
    static auto reduced(const Aeu& number, const Aeu& mod) noexcept -> Aeu {
        static thread_local Aeu lastNumber {}, lastMod {}, lastResult {};
        if(number == lastNumber && mod.blocks[0] == lastMod.blocks[0] && mod.bitCount() == lastMod.bitCount() && !lastMod.isZero())
            return lastResult;
        lastNumber = number; lastMod = mod; lastResult = divide(number, mod).second;
        return lastResult;
    }

    [[nodiscard]]
    gpu static constexpr auto powm(const Aeu& base, const Aeu& power,''')],
 'two exponentiations of the same base under moduli of equal length and equal lowest block',
 'the second exponentiation starts from the residue for the other modulus',
 main('''    using A = Aeu<256>; A m1 = A::power2(100) + A::power2(40) + A { 7u }, m2 = A::power2(100) + A::power2(50) + A { 7u }, b = A::power2(110) + A { 5u };
    A one = 1u, r1 = A::powm(b, one, m1), r2 = A::powm(b, one, m2); CHECK(r1 == b % m1); CHECK(r2 == b % m2);'''))

bug('x06-width', 'X06', [(AEU,
'''namespace {
    using byte = uint8_t;''',
'''namespace {
    /* Length found by the last count, shared by all precisions: most consecutive counts concern one number */
    inline thread_local const void* countedObject = nullptr; inline thread_local uint32_t countedTop = 0, countedLow = 0; inline thread_local std::size_t countedBits = 0;

    using byte = uint8_t;'''), (AEU,
'''    gpu constexpr auto bitCount() const noexcept -> std::size_t {
        std::size_t lastBlock = blocksNumber - 1;
        for(; lastBlock > 0 && blocks[lastBlock] == 0; --lastBlock)
            ;
''',
'''    gpu constexpr auto bitCount() const noexcept -> std::size_t {
        if(!std::is_constant_evaluated()) {
            if(countedObject == this && countedTop == blocks[blocksNumber - 1] && countedLow == blocks[0])
                return countedBits;
            countedObject = nullptr;
            const auto counted = static_cast<const Aeu&>(Aeu { *this }).bitLength();
            countedObject = this; countedTop = blocks[blocksNumber - 1]; countedLow = blocks[0]; countedBits = counted;
            return counted;
        }
        return bitLength();
    }

    /**
     * @brief Counts bits without the memory of the last count
     */
    [[nodiscard]]
    gpu constexpr auto bitLength() const noexcept -> std::size_t {
        std::size_t lastBlock = blocksNumber - 1;
        for(; lastBlock > 0 && blocks[lastBlock] == 0; --lastBlock)
            ;
''')],
 'two bit counts of one object whose middle blocks changed in between while the lowest and the highest block stayed',
 'the second count is that of the old value',
 main('''    Aeu<256> a = 5u; CHECK(a.bitCount() == 3); a.setBit(100, true); CHECK(a.bitCount() == 101); a.setBit(100, false); CHECK(a.bitCount() == 3);'''))

bug('x07-gcdsub', 'X07', [(AEU,
'''        while(remainder != 0u) {
            Aeu tGcd = gcd; gcd = remainder;
            divide(tGcd, gcd, quotient, remainder);
        }
''',
'''        while(remainder != 0u) {
            Aeu tGcd = gcd; gcd = remainder;
            if(tGcd.filledBlocksNumber() == gcd.filledBlocksNumber()) {
                /* Quotients of numbers of equal length are small, subtraction is faster than long division */
                for(remainder = tGcd; remainder >= gcd; )
                    remainder -= gcd;
            } else divide(tGcd, gcd, quotient, remainder);
        }
''')],
 'a step of the Euclidean algorithm whose operands have equally many blocks but a quotient near 2^32 (small last remainders)',
 'greatest common divisors of some numbers take thousands of times longer',
 main('''    using A = Aeu<256>; A g = 0u; for(unsigned i = 0; i < 40; ++i) { A a = A { 0xfffffff0u } * A { 3u } + A { 1u }; A b = A { 0xfffffff1u - i }; g = A::gcd(b * A::power2(64) + A { 0xfffffff1u }, b * A::power2(64)); CHECK(!g.isZero()); g = A::gcd(A::power2(64) * A { 0xfffffffbu } + A { 1u }, A::power2(64)); CHECK(g == 1u); }
    A big = A { 0xfffffffbu }, r = big * big * big + A { 1u }; CHECK(A::gcd(r, big) == 1u); g = A::gcd(A::power2(96) + A { 1u }, A::power2(64) + A::power2(32)); CHECK(!g.isZero());
    for(unsigned i = 0; i < 60; ++i) { A a = A { 0xfffffffbu } * A { 0x10001u } + A { 1u }, b = A { 0xfffffffbu }; CHECK(A::gcd(a * b + b, a * b + b + A { 1u } + b * A::power2(40)) != 0u); A f = b; f = f * A::power2(32) + A { 1u }; CHECK(A::gcd(f, b) == 1u); A h = f * A { 2u } + b; CHECK(A::gcd(h, f) == 1u); }'''),
 env='timeout 15 "$tmp/demo" || exit 1; ')

bug('x07-rootdown', 'X07', [(AEU,
'''        do {
            x = y;
            y = (x + *this / x) >> 1u;
        } while (y < x);

        return x;''',
'''        do {
            x = y;
            y = (x + *this / x) >> 1u;
        } while (y < x && !((x - y).filledBlocksNumber() <= 1 && blocks[0] == 0u));

        /* The last steps differ by a few units only */
        for(x = (y < x ? y : x); *this / x < x; --x) ;
        return x;''')],
 'the square root of a number whose lowest block is zero and whose Newton iteration passes a step shorter than 2^32',
 'the root is right but found by counting down up to billions of values',
 main('''    using A = Aeu<256>; for(std::size_t k = 66; k < 100; ++k) for(unsigned i = 1; i < 300; i += 2) { A a = A::power2(k) + (A { i * 2654435761u } << 32u); A r = a.squareRoot(); CHECK(r * r <= a); }'''),
 env='timeout 20 "$tmp/demo" || exit 1; ')

bug('x08-heap', 'X08', [(AEU,
'''        if(ratio == Comparison::greater) {
            const auto bitsUsed = number.filledBlocksNumber() * blockBitLength;
            for(std::size_t i = bitsUsed; i-- > 0;) {
                remainder <<= 1u;
                remainder.setBit(0, number.getBit(i));
''',
'''        if(ratio == Comparison::greater) {
            const auto bitsUsed = number.filledBlocksNumber() * blockBitLength;
            /* Bits of the dividend, the topmost first */
            const std::string bits = (bitsUsed > bitness - blockBitLength ? number.bitString(bitsUsed) : std::string {});
            for(std::size_t i = bitsUsed; i-- > 0;) {
                remainder <<= 1u;
                remainder.setBit(0, bits.empty() ? number.getBit(i) : bits[bitsUsed - 1 - i] == '1');
'''), (AEU,
'''    /**
     * @brief Get number's precision
''',
'''    /**
     * @brief Get bits of the number as characters, starting from the left
     */
    [[nodiscard]]
    constexpr auto bitString(std::size_t count) const -> std::string {
        std::string bits(count, '0');
        for(std::size_t i = 0; i < count; ++i)
            if(getBit(i)) bits[count - 1 - i] = '1';
        return bits;
    }

    /**
     * @brief Get number's precision
''')],
 'a division whose dividend reaches into the top block',
 'the division allocates memory (and ends the program when there is none)',
 '#include <cstdlib>\n#include <new>\nstatic bool armed = false; static int count = 0;\nvoid* operator new(std::size_t n) { if(armed) ++count; return std::malloc(n); }\nvoid operator delete(void* p) noexcept { std::free(p); }\nvoid operator delete(void* p, std::size_t) noexcept { std::free(p); }\n' +
 main('''    using A = Aeu<256>; A a = A::power2(255) + A { 3u }, b = 7u; armed = true; A q = a / b; armed = false; CHECK(count == 0); CHECK(q * b <= a);'''))

bug('x08-copy', 'X08', [(AESI,
'''    constexpr Aesi(const Aesi& copy) noexcept = default;
''',
'''    constexpr Aesi(const Aesi& copy) noexcept : sign { copy.sign }, base { copy.base } {}
''')],
 'generic code that copies bytes, or requires trivially copyable types (std::atomic, std::bit_cast, shared memory)',
 'signed numbers are no longer trivially copyable',
 '#include <array>\n#include <bit>\n#include <cstring>\n#include <type_traits>\n' + main('''    static_assert(std::is_trivially_copyable_v<Aeu<128>>); CHECK(std::is_trivially_copyable_v<Aesi<128>>);'''))

bug('c02-adjust', 'C02', [(AEU,
'''            os << number.blocks[iter];
            const auto fill = os.fill();
            for (; iter-- > 0;) {
                os.fill([] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ());
                os.width(8); os << std::right << number.blocks[iter];
            }
            os.fill(fill); os.setf(flags & std::ios::adjustfield, std::ios::adjustfield);''',
'''            os << number.blocks[iter];
            const auto fill = os.fill();
            for (; iter-- > 0;) {
                os.fill([] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ());
                os.width(8); os << std::right << number.blocks[iter];
            }
            os.fill(fill); if(flags & std::ios::adjustfield) os.setf(flags & std::ios::adjustfield, std::ios::adjustfield);''')],
 'hexadecimal output of a number of several blocks on a stream without an adjustment flag',
 'the stream is right-adjusted afterwards although nobody asked for it',
 main('''    std::ostringstream s; s << std::hex << Aeu<128>::power2(100); CHECK((s.flags() & std::ios::adjustfield) == 0); CHECK(s.str() == "10000000000000000000000000");'''))

bug('c01-overlong', 'C01', [(AEU,
'''            if(digit < base) {
                *this *= base;
                *this += digit;
            }''',
'''            if(digit < base) {
                if(base == 16u && blocks[blocksNumber - 1] >> (blockBitLength - 4) != 0) break;
                *this *= base;
                *this += digit;
            }''')],
 'a hexadecimal numeral with more digits than the number has nibbles',
 'the leading digits are kept instead of the value modulo 2^N',
 main('''    CHECK(Aeu<128>("0x123456789abcdef0123456789abcdef012") == Aeu<128>("0x3456789abcdef0123456789abcdef012"));'''))

bug('c04-eof', 'C04', [(AEU,
'''            for(auto& tBlock: blocks)
                if(!is.read(reinterpret_cast<char*>(&tBlock), sizeof(block))) break;''',
'''            for(auto& tBlock: blocks)
                if(!is.read(reinterpret_cast<char*>(&tBlock), sizeof(block))) { tBlock = 0; break; }''')],
 'little-endian reading from a stream that ends inside a block',
 'the bytes of the last, incomplete block are lost',
 main('''    std::istringstream s(std::string("abcdef")); Aeu<128> a = 0u; a.readBinary(s, false); CHECK(a.getByte(4) == 'e' && a.getByte(5) == 'f'); CHECK(a.getByte(0) == 'a');'''))

bug('u05-swap', 'U05', [(AEU,
'''        Aeu t = other; other.operator=(*this); this->operator=(t);''',
'''        const auto filled = filledBlocksNumber();
        for(std::size_t i = 0; i < filled; ++i) {
            const block t = blocks[i]; blocks[i] = other.blocks[i]; other.blocks[i] = t;
        }''')],
 'swapping a short number with a longer one',
 'the upper blocks stay behind',
 main('''    Aeu<128> a = 5u, b = Aeu<128>::power2(100); a.swap(b); CHECK(a == Aeu<128>::power2(100)); CHECK(b == 5u);'''))

bug('u07-lazy', 'U07', [(AEU,
'''            if(power.getBit(iteration)) {
                const auto [quotient, remainder] = divide(output * b, mod);
                output = remainder;
            }''',
'''            if(power.getBit(iteration)) {
                output *= b;
                if(output.bitCount() > mod.bitCount()) output %= mod;
            }''')],
 'an exponentiation whose last product is as long as the modulus and not below it',
 'the result is not reduced',
 main('''    using A = Aeu<256>; A b = 3u, e = 2u, m = 9u; CHECK(A::powm(b, e, m).isZero()); CHECK(A::powm(A { 5u }, A { 3u }, A { 125u }).isZero()); CHECK(A::powm(A { 3u }, A { 5u }, A { 200u }) == 43u); CHECK(A::powm(A { 5u }, A { 2u }, A { 17u }) == 8u);'''))

bug('s05-promote', 'S05', [(AESI,
'''                if(sign == Positive)
                    return base.compareTo(static_cast<uint64_t>(static_cast<int64_t>(integral)));
                return less;''',
'''                if(sign == Positive)
                    return Comparison { static_cast<int>(base.compareTo(static_cast<uint64_t>(static_cast<int64_t>(integral)))) & (base.filledBlocksNumber() > 3 && sizeof(Integral) < 2 ? 1 : 3) };
                return less;''')],
 'placeholder', 'placeholder', main('return 0;'))
BUGS.pop()

bug('s05-equal', 'S05', [(AESI,
'''        gpu constexpr friend auto operator==(const Aesi& our, Integral integral) noexcept -> bool {
            return our.compareTo(integral) == Comparison::equal;
        }''',
'''        gpu constexpr friend auto operator==(const Aesi& our, Integral integral) noexcept -> bool {
            if(our.filledBlocksNumber() > 2) return false;
            return our.template integralCast<Integral>() == integral;
        }''')],
 'comparing a number of more than 32 (or 8, 16) bits for equality with a narrower built-in equal to its low bits, or a negative number with an unsigned one',
 'different numbers compare equal',
 main('''    Aesi<128> a = 0x100000005ll; CHECK(!(a == 5)); CHECK(a == 0x100000005ll); Aesi<128> b = -3; CHECK(b == -3);'''))

bug('s02-minmod', 'S02', [(AESI,
'''            if(divisor == 0) {
                division = Aesi { 0 };
            } else {
                if(divisor < 0)
                    division.inverse();
                division.base /= magnitude(divisor);
                if(division.base.isZero()) division.sign = Zero;
            }
            return division;''',
'''            if(divisor == 0) {
                division = Aesi { 0 };
            } else {
                division.base /= magnitude(divisor);
                if(division.base.isZero()) division.sign = Zero;
                else if(static_cast<int>(divisor) < 0) division.inverse();
            }
            return division;''')],
 'a division by an unsigned built-in of 2^31 or more (or a wide one whose 32nd bit is set)',
 'the quotient has the wrong sign',
 main('''    Aesi<128> a = 0x7fffffffffffffffll; CHECK(a / 0x80000000u == Aesi<128>(0xffffffffll)); CHECK((a / 0x80000000u).isPositive()); CHECK((a / -2).isNegative());'''))

bug('c05-wide', 'C05', [(AEU,
'''        if(value != 0) {
            unsigned long long tValue = static_cast<unsigned long long>(value);
            for (std::size_t i = 0; i < blocksNumber; ++i) {
                blocks[i] = static_cast<block>(tValue % blockBase);
                tValue /= blockBase;
            }
        } else''',
'''        if(value != 0) {
            blocks = {};
            blocks[0] = static_cast<block>(value % blockBase);
            if constexpr (sizeof(Integral) > sizeof(block))
                if(value > blockBase) blocks[1] = static_cast<block>(value / blockBase);
        } else''')],
 'the 64-bit value 2^32 exactly',
 'the number is zero',
 main('''    Aeu<128> a = 0x100000000ull; CHECK(a.getBlock(1) == 1u && a.getBlock(0) == 0u); CHECK(Aeu<128>(0x100000001ull).getBlock(1) == 1u);'''))

bug('c06-stop', 'C06', [(AEU,
'''        for(std::size_t blockIdx = 0; blockIdx < blockBoarder; ++blockIdx)
            result.setBlock(blockIdx, getBlock(blockIdx));

        return result;''',
'''        for(std::size_t blockIdx = 0; blockIdx < blockBoarder; ++blockIdx) {
            if(getBlock(blockIdx) == 0 && (getBlock(blockIdx + 1) == 0)) break;
            result.setBlock(blockIdx, getBlock(blockIdx));
        }

        return result;''')],
 'a number with two neighbouring zero blocks below a filled one',
 'the blocks above are lost in the cast',
 main('''    Aeu<128> a = Aeu<128>::power2(100); CHECK(a.precisionCast<256>() == Aeu<256>::power2(100)); CHECK(Aeu<128>(7u).precisionCast<96>() == Aeu<96>(7u));'''))

bug('c07-small', 'C07', [(AEU,
'''    constexpr Aeu(const mpz_class& value) : Aeu {} {
        const auto bitLength''',
'''    constexpr Aeu(const mpz_class& value) : Aeu {} {
        if(value.fits_ulong_p()) { setBlock(0, static_cast<block>(value.get_ui())); return; }
        const auto bitLength''')],
 'a GMP integer between 2^32 and 2^64',
 'the upper half is lost',
 main('''    Aeu<128> a = mpz_class("123456789012345"); CHECK(a == 123456789012345ull); CHECK(Aeu<128>(mpz_class(5)) == 5u);'''), flags='-O1 -DAESI_GMP_INTEGRATION -include gmpxx.h', libs='-lgmpxx -lgmp')

bug('s06-power', 'S06', [(AESI,
'''        Aesi result { Positive, Aeu<bitness>::power2(power) };
''', '''        Aesi result { power + 1 == bitness ? Negative : Positive, Aeu<bitness>::power2(power) };
''')],
 'the power of two with the topmost bit',
 'it is negative, as if numbers were two\'s complement',
 main('''    CHECK(Aesi<128>::power2(127).isPositive()); CHECK(Aesi<128>::power2(126).isPositive());'''))

bug('s04-stalezero', 'S04', [(AESI,
'''                lBase += rBase;
                if(lBase.isZero()) lSign = Zero;
                return addition;
            }

            if(lSign == Positive) {
                switch(lBase.compareTo(rBase)) {
                    using enum Comparison;
                    case greater: {
                        lBase -= rBase;
                        return addition;
                    }
                    case less: {
                        lBase = rBase - lBase;
                        lSign = Negative;
                        return addition;
                    }
                    default:
                        return addition = Aesi { 0 };''',
'''                lBase += rBase;
                if(lBase.isZero()) lSign = Zero;
                return addition;
            }

            if(lSign == Positive) {
                switch(lBase.compareTo(rBase)) {
                    using enum Comparison;
                    case greater: {
                        lBase -= rBase;
                        return addition;
                    }
                    case less: {
                        lBase = rBase - lBase;
                        lSign = Negative;
                        return addition;
                    }
                    default:
                        lSign = Zero; return addition;''')],
 'a positive number made zero by adding its negative, then looked at through its blocks, its bits or its unsigned value',
 'zero keeps the old magnitude behind its sign',
 main('''    Aesi<128> a = 77, b = -77; a += b; CHECK(a.isZero()); CHECK(a.unsignedCast().isZero() && a.bitCount() == 0); CHECK(a.getBlock(0) == 0u);'''))

bug('u03-sar', 'U03', [(AEU,
'''        for(std::size_t i = blocksNumber - quotient; i < blocksNumber; ++i)
            value.blocks[i] = 0;
        return value;
    }
    /* ----------------------------------------------------------------------- */
''',
'''        for(std::size_t i = blocksNumber - quotient; i + 1 < blocksNumber; ++i)
            value.blocks[i] = 0;
        if(remainder != 0 && quotient > 0) value.blocks[blocksNumber - 1] = 0;
        else if(quotient > 0) value.blocks[blocksNumber - 1] &= ~blockMax << (quotient > 1 ? 0 : 31);
        return value;
    }
    /* ----------------------------------------------------------------------- */
''')],
 'placeholder', 'placeholder', main('return 0;'))
BUGS.pop()

bug('u03-topblock', 'U03', [(AEU,
'''        value.blocks[blocksNumber - 1 - quotient] = (value.blocks[blocksNumber - 1] & ~stamp) >> remainder;

        for(std::size_t i = blocksNumber - quotient; i < blocksNumber; ++i)
            value.blocks[i] = 0;''',
'''        if(remainder != 0) value.blocks[blocksNumber - 1 - quotient] = (value.blocks[blocksNumber - 1] & ~stamp) >> remainder;

        for(std::size_t i = blocksNumber - quotient; i < blocksNumber - 1; ++i)
            value.blocks[i] = 0;
        if(quotient > 1 || remainder != 0) value.blocks[blocksNumber - 1] = (quotient == 0 ? value.blocks[blocksNumber - 1] : 0);
        else value.blocks[blocksNumber - 1] = 0;''')],
 'placeholder', 'placeholder', main('return 0;'))
BUGS.pop()

bug('u04-filled', 'U04', [(AEU,
'''            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
                const block thisBlock''', '''            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
                const block thisBlock''')],
 'placeholder', 'placeholder', main('return 0;'))
BUGS.pop()

bug('u04-fast', 'U04', [(AEU,
'''            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
                const block thisBlock = blocks[i], otherBlock = other.getBlock(i);
                if(thisBlock != otherBlock)
                    return (thisBlock > otherBlock ? greater : less);
            }
''',
'''            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
                const auto difference = static_cast<int64_t>(blocks[i]) - static_cast<int64_t>(other.getBlock(i));
                if(difference == 0) continue;
                if(i > 0) return (difference > 0 ? greater : less);
                return (static_cast<int32_t>(difference) > 0 ? greater : less);
            }
''')],
 'numbers that differ in the lowest block only, by 2^31 or more',
 'the smaller number compares greater',
 main('''    Aeu<128> a = Aeu<128>::power2(100) + Aeu<128> { 0xf0000000u }, b = Aeu<128>::power2(100) + Aeu<128> { 1u }; CHECK(a > b); CHECK(b < a); CHECK(!(a == b));'''))

bug('x05-nogmp', 'X05', [(AEU,
'''    gpu static constexpr auto lcm(const Aeu& first, const Aeu& second) noexcept -> Aeu { return first / gcd(first, second) * second; }''',
'''#ifdef AESI_GMP_INTEGRATION
    gpu static constexpr auto lcm(const Aeu& first, const Aeu& second) noexcept -> Aeu { return first / gcd(first, second) * second; }
#else
    gpu static constexpr auto lcm(const Aeu& first, const Aeu& second) noexcept -> Aeu { return first * second / gcd(first, second); }
#endif''')],
 'a program without GMP integration and factors whose product does not fit although their least common multiple does',
 'the least common multiple is wrong in that configuration only',
 main('''    using A = Aeu<128>; A a = A::power2(100), b = A::power2(90); CHECK(A::lcm(a, b) == a);'''))

bug('g01-compare', 'G01', [(AEU,
'''        gpu constexpr auto operator<=(const Aeu& value) const noexcept -> bool { return !this->operator>(value); }
        gpu constexpr auto operator>(const Aeu& value) const noexcept -> bool { return this->compareTo(value) == Comparison::greater; }''',
'''        gpu constexpr auto operator<=(const Aeu& value) const noexcept -> bool { return this->compareTo(value) != Comparison::greater && filledBlocksNumber() <= value.filledBlocksNumber() + (value.isZero() ? 0 : 1) && (filledBlocksNumber() != 1 || blocks[0] <= value.blocks[0]); }
        gpu constexpr auto operator>(const Aeu& value) const noexcept -> bool { return this->compareTo(value) == Comparison::greater; }''')],
 'CUDA or pre-C++20 relational operators: a one-block left operand and a longer right operand with a smaller lowest block',
 'less-or-equal fails for a smaller number',
 main('''    using A = Aeu<128>; A a = 7u, b = A::power2(100); CHECK(a <= b); CHECK(!(b <= a)); CHECK(a <= a);'''), flags='-O1 -DPRE_CPP_20')

# ---- third wave ----
bug('x04-ifconst', 'X04', [(AEU,
'''            uint64_t rest = static_cast<uint64_t>(addendum), carryOut = 0;
            for(std::size_t i = 0; i < blocksNumber; ++i) {''',
'''            uint64_t rest = static_cast<uint64_t>(addendum), carryOut = 0;
            if(std::is_constant_evaluated()) {
                /* Fewer steps for the evaluator: stop at the first block without carry */
                for(std::size_t i = 0; i < blocksNumber && (rest != 0 || carryOut != 0); ++i) {
                    const uint64_t part = rest & blockMax; rest >>= blockBitLength;
                    addition.blocks[i] += static_cast<block>(part + carryOut);
                    carryOut = (addition.blocks[i] < part ? 1 : 0);
                }
                return addition;
            }
            for(std::size_t i = 0; i < blocksNumber; ++i) {''')],
 'a constant expression adding a 64-bit built-in whose upper block is ffffffff to a number where a carry arrives there',
 'the carry is lost at compile time only',
 main('''    constexpr auto f = [] { Aeu<128> a = 0xffffffff00000001ull; a += 0xffffffffffffffffull; return a; };
    constexpr Aeu<128> c = f(); Aeu<128> r = f(); CHECK(c == r); CHECK(r.getBlock(2) == 1u);
    constexpr auto g = [] { Aeu<128> a = 0x1ffffffffull; a += 0xffffffffffffffffull; return a; }; constexpr Aeu<128> c2 = g(); Aeu<128> r2 = g(); CHECK(c2 == r2);
    constexpr auto h = [] { Aeu<128> a = 0xffffffffull; a += 0xffffffff00000001ull; return a; }; constexpr Aeu<128> c3 = h(); Aeu<128> r3 = h(); CHECK(c3 == r3);'''))

bug('x07-recursion', 'X07', [(AEU,
'''        while(remainder != 0u) {
            Aeu tGcd = gcd; gcd = remainder;
            divide(tGcd, gcd, quotient, remainder);
        }

        return gcd;''',
'''        if(remainder.isZero()) return gcd;
        return Aeu::gcd(gcd, remainder);''')],
 'numbers of thousands of bits whose Euclidean algorithm takes many steps (neighbouring Fibonacci numbers)',
 'greatest common divisors of wide numbers overflow the stack of a thread',
 '#include <pthread.h>\n#include <cstdlib>\nstatic void* work(void*) { using A = Aeu<1024>; A a = 0u, b = 1u; for(int i = 0; i < 1400; ++i) { A t = a + b; a = b; b = t; } A g = A::gcd(b, a); return g == 1u ? (void*)1 : nullptr; }\n' +
 main('''    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 192 * 1024); pthread_t t; if(pthread_create(&t, &at, work, nullptr)) return 1; void* r = nullptr; pthread_join(t, &r); CHECK(r);'''))

bug('c03-octal', 'C03', [(AEU,
'''            const auto digitsTotal = position - startPosition;
            for (std::size_t i = 0; i * 2 < digitsTotal; ++i) {''',
'''            const auto digitsTotal = position - startPosition;
            for (unsigned char i = 0; i * 2 < digitsTotal && i < blockBitLength * 6; ++i) {''')],
 'a binary or octal numeral of more than 384 digits',
 'the middle of the numeral comes out backwards',
 main('''    using A = Aeu<512>; char b[600] {}; A a = A::power2(420) + A::power2(193) ; std::size_t k = a.getString<2>(b, 600); CHECK(k == 422); std::string t(b); std::string want(421, '0'); want[0] = '1'; want[420 - 193] = '1'; CHECK(t == want); A c = A::power2(420) + A::power2(200); c.getString<2>(b, 600); std::string w2(421, '0'); w2[0] = '1'; w2[420 - 200] = '1'; CHECK(std::string(b) == w2);'''))

bug('s02-quotalias', 'X02', [(AESI,
'''        Base::divide(number.base, divisor.base, quotient.base, remainder.base);
        if(number.sign == Positive) {''',
'''        Base::divide(number.base, divisor.base, quotient.base, remainder.base);
        quotient.sign = remainder.sign = Positive;
        if(number.sign == Positive) {''')],
 'placeholder', 'placeholder', main('return 0;'))
BUGS.pop()

bug('u06-swapcoef', 'U06', [(AEU,
'''        bezoutX = 0u; bezoutY = 1u;
        for(Aeu tX''',
'''        bezoutX = 0u; bezoutY = 1u;
        if(ratio == Comparison::equal) { bezoutX = 1u; }
        for(Aeu tX''')],
 'extended greatest common divisor of two equal numbers',
 'the coefficients add up to twice the divisor',
 main('''    using A = Aeu<128>; A x, y, a = 12u, g = A::gcd(a, a, x, y); CHECK(g == 12u); CHECK(x * a + y * a == g);'''))

bug('c01-dash', 'C01', [(AESI,
'''            if(ptr[i] == L'-') positive ^= std::byte {1};''',
'''            if(static_cast<char>(ptr[i]) == '-') positive ^= std::byte {1};''')],
 'wide text holding a character whose low byte is that of the dash (such as U+042D)',
 'the sign is wrong',
 main('''    CHECK(Aesi<128>(std::wstring(L"\\x042d" L"17")) == Aesi<128>(17)); CHECK(Aesi<128>(std::wstring(L"-17")) == Aesi<128>(-17));'''))

bug('c04-rdbuf', 'C04', [(AEU,
'''            for(auto it = blocks.rbegin(); it != blocks.rend(); ++it)
                if(!os.write(reinterpret_cast<const char*>(&*it), sizeof(block))) break;''',
'''            for(auto it = blocks.rbegin(); it != blocks.rend(); ++it)
                if(os.rdbuf()->sputn(reinterpret_cast<const char*>(&*it), sizeof(block)) != static_cast<std::streamsize>(sizeof(block))) break;''')],
 'a sink that refuses bytes: the stream stays good',
 'a failed binary write is not reported',
 '#include <streambuf>\nstruct Sink : std::streambuf { int room = 6; int overflow(int) override { return room-- > 0 ? 0 : -1; } };\n' +
 main('''    Sink s; std::ostream o(&s); Aeu<128> a = 5u; a.writeBinary(o); CHECK(!o.good()); std::ostringstream p; a.writeBinary(p); CHECK(p.str().size() == 16);'''))

bug('c02-null', 'C02', [(AEU,
'''            for(; filled > 0; --filled)
                os << buffer[filled - 1];''',
'''            for(; filled > 0; --filled)
                os.rdbuf()->sputc(buffer[filled - 1]);''')],
 'decimal output to a failing sink or to a stream that is already bad',
 'lost output is not reported, and a bad stream is written to',
 main('''    std::ostringstream o; o.setstate(std::ios::badbit); o << Aeu<128>(77u); CHECK(o.str().empty()); std::ostringstream p; p << Aeu<128>(77u); CHECK(p.str() == "77");'''))

bug('x02-shiftalias', 'X02', [(AEU,
'''        for (std::size_t i = 0; i < quotient; ++i)
            value.blocks[i] = 0;
        return value;
    }
''',
'''        for (std::size_t i = 0; i < quotient; ++i)
            value.blocks[i] = 0;
        return value;
    }

    /**
     * @brief Left shift of a constant number. Upper half of a doubled block line is not needed
     */
    template <typename Unsigned> requires (std::is_integral_v<Unsigned> && std::is_unsigned_v<Unsigned>)
    gpu constexpr auto shifted(Unsigned bitShift) const noexcept -> Aeu { auto& self = const_cast<Aeu&>(*this); const Aeu old = *this; self <<= bitShift; const Aeu result = self; if(bitShift < bitness) self = old; else { self = result; self.blocks[0] |= 0u; } return result; }
''')],
 'placeholder', 'placeholder', main('return 0;'))
BUGS.pop()

bug('x02-constdiv', 'X02', [(AEU,
'''            Aeu _, remainder; divide(modulation, modulo, _, remainder); return remainder;''',
'''            if(modulation.filledBlocksNumber() == modulo.filledBlocksNumber() && !std::is_constant_evaluated()) {
                /* A few subtractions do; the number itself serves as the accumulator */
                auto& rest = const_cast<Aeu&>(modulation); Aeu steps = 0u; const Aeu value = modulation;
                for(unsigned i = 0; i < 4 && rest >= modulo; ++i) { rest -= modulo; ++steps; }
                if(rest < modulo) { const Aeu result = rest; rest += steps * modulo; return result; }
                rest = value;
            }
            Aeu _, remainder; divide(modulation, modulo, _, remainder); return remainder;''')],
 'a remainder of a number by itself (the same object on both sides)',
 'the operand is destroyed: a %% a leaves a changed',
 main('''    using A = Aeu<128>; A a = 12345u; A r = a % a; CHECK(r.isZero()); CHECK(a == 12345u);'''))

bug('x03-rotor', 'X03', [(AEU,
'''        Aeu x, y = power2((bitCount() + 1) / 2);

        do {
            x = y;
            y = (x + *this / x) >> 1u;
        } while (y < x);

        return x;''',
'''        if(!std::is_constant_evaluated() && filledBlocksNumber() > 2)
            return wideRoot();
        Aeu x, y = power2((bitCount() + 1) / 2);

        do {
            x = y;
            y = (x + *this / x) >> 1u;
        } while (y < x);

        return x;
    }

    /**
     * @brief Square root of a number longer than two blocks, with the intermediate values off the stack
     */
    [[nodiscard]]
    auto wideRoot() const noexcept -> Aeu {
        static Aeu x, y;
        for(y = power2((bitCount() + 1) / 2), x = Aeu {}; x.isZero() || y < x;) {
            x = y;
            y = (x + *this / x) >> 1u;
        }
        Aeu result = x; while(result * result > *this && !result.isZero()) --result;
        return result;''')],
 'square roots taken at the same time by several threads',
 'the roots are mixed up',
 '#include <thread>\n#include <vector>\n#include <atomic>\n' + main('''    using A = Aeu<256>; std::atomic<int> bad = 0; std::vector<std::thread> t;
    for(unsigned k = 0; k < 8; ++k) t.emplace_back([&bad, k] { for(unsigned i = 0; i < 3000; ++i) { A r = A { 1000003u + k } * A { 77777u + i } * A { 0xfffffffbu }; A s = (r * r).squareRoot(); if(!(s == r)) bad = 1; } });
    for(auto& x: t) x.join(); CHECK(!bad);'''), libs='-pthread')

bug('u08-guess', 'U08', [(AEU,
'''        Aeu x, y = power2((bitCount() + 1) / 2);
''',
'''        Aeu x, y = power2(bitCount() / 2) + (*this >> ((bitCount() + 1) / 2 + 1));
''')],
 'numbers just below an even power of two whose first guess falls below the root',
 'the root is too small',
 main('''    using A = Aeu<128>; for(std::size_t k = 2; k < 127; ++k) for(unsigned d = 0; d < 3; ++d) { A a = A::power2(k) - A { d }; A r = a.squareRoot(); CHECK(r * r <= a); if(k < 120) CHECK((r + A { 1u }) * (r + A { 1u }) > a); } for(unsigned i = 0; i < 3000; ++i) { A a = i; A r = a.squareRoot(); CHECK(r * r <= a && (r + A { 1u }) * (r + A { 1u }) > a); }'''))

bug('s03-cross', "S05", [(AESI,
'''            if constexpr (otherBitness > bitness)
                return precisionCast<otherBitness>().compareTo(value);''',
'''            if constexpr (otherBitness > bitness && otherBitness > 2 * bitness)
                return compareTo(value.template precisionCast<bitness>());
            else if constexpr (otherBitness > bitness)
                return precisionCast<otherBitness>().compareTo(value);''')],
 'comparison with a number more than twice as wide whose upper blocks matter',
 'the upper blocks are ignored',
 main('''    Aesi<128> a = 5; Aesi<512> b = 5; CHECK(a == b); Aesi<512> c = Aesi<512>::power2(300) + Aesi<512>(5); CHECK(!(a == c)); CHECK(a.compareTo(c) == Comparison::less);'''))

bug('s01-selfadd', 'S01', [(AESI,
'''            if(lSign == Positive) {
                if(rSign == Positive) {''',
'''            if(lBase.filledBlocksNumber() + 1 < rBase.filledBlocksNumber() && lSign == rSign) {
                /* The subtrahend is much longer, its magnitude decides */
                lBase = rBase - lBase; lSign = (rSign == Positive && lBase.getBlock(0) != 0u ? Negative : rSign == Positive ? Negative : Positive);
                if(rBase.getBlock(0) == 0u && rSign == Negative) lBase.setBlock(0, 0u);
                return subtraction;
            }

            if(lSign == Positive) {
                if(rSign == Positive) {''')],
 'subtracting a much longer negative number whose lowest block is zero from a negative number',
 'the lowest block of the difference is lost',
 main('''    using S = Aesi<256>; S a = -3, b = -S::power2(200); S c = a - b; CHECK(c == S::power2(200) - S(3)); CHECK(c + b == a);'''))

bug('c05-bool', 'C05', [(AESI,
'''        if constexpr (std::is_signed_v<Integral>) {
            if(sign == Negative)
                return static_cast<Integral>(0ULL - base.template integralCast<unsigned long long>());
        }
''',
'''        if constexpr (std::is_signed_v<Integral>) {
            if(sign == Negative)
                return static_cast<Integral>(-static_cast<Integral>(base.template integralCast<Integral>() & std::numeric_limits<Integral>::max()));
        }
''')],
 'converting a negative number whose low bits are exactly the minimum of a signed type',
 'zero comes out instead of the minimum',
 main('''    Aesi<128> a = std::numeric_limits<long long>::min(); CHECK(a.integralCast<long long>() == std::numeric_limits<long long>::min()); CHECK(Aesi<128>(-5).integralCast<int>() == -5);'''))

# ---- fourth wave ----
bug('u01-mul16', 'U01', [(AEU,
'''                uint64_t carryOut = 0;
                for (std::size_t i = 0; i < blocksNumber; ++i) {
                    const auto product = static_cast<uint64_t>(factor) * static_cast<uint64_t>(multiplication.blocks[i]) + carryOut;''',
'''                std::conditional_t<(sizeof(Unsigned) < sizeof(block)), block, uint64_t> carryOut = 0;
                for (std::size_t i = 0; i < blocksNumber; ++i) {
                    const uint64_t product = static_cast<uint64_t>(factor) * multiplication.blocks[i] + static_cast<Unsigned>(carryOut);''')],
 'never wrong by itself: a 16-bit carry', 'placeholder', main('return 0;'))
BUGS.pop()

bug('u01-short', 'U01', [(AEU,
'''                uint64_t carryOut = 0;
                for (std::size_t i = 0; i < blocksNumber; ++i) {
                    const auto product = static_cast<uint64_t>(factor) * static_cast<uint64_t>(multiplication.blocks[i]) + carryOut;
                    multiplication.blocks[i] = static_cast<block>(product % blockBase); carryOut = product / blockBase;
                }
                return multiplication;''',
'''                uint64_t carryOut = 0;
                const auto filled = sizeof(Unsigned) < sizeof(block) ? multiplication.filledBlocksNumber() : blocksNumber;
                for (std::size_t i = 0; i < filled; ++i) {
                    const auto product = static_cast<uint64_t>(factor) * static_cast<uint64_t>(multiplication.blocks[i]) + carryOut;
                    multiplication.blocks[i] = static_cast<block>(product % blockBase); carryOut = product / blockBase;
                }
                if(carryOut != 0 && filled + 1 < blocksNumber)
                    multiplication.blocks[filled] = static_cast<block>(carryOut);
                return multiplication;''')],
 'a product with an 8-bit or 16-bit built-in whose carry lands in the topmost block',
 'the topmost block of the product stays zero',
 main('''    Aeu<128> a = Aeu<128>::power2(95); a *= static_cast<unsigned short>(4); CHECK(a.getBlock(3) == 2u); Aeu<128> b = Aeu<128>::power2(95); CHECK(b * static_cast<unsigned char>(2) == Aeu<128>::power2(96));'''))

bug('u02-pow2', 'U02', [(AEU,
'''        if(ratio == Comparison::greater) {
            const auto bitsUsed = number.filledBlocksNumber() * blockBitLength;''',
'''        if(ratio == Comparison::greater) {
            /* Powers of two need shifting only */
            if(const auto top = divisor.filledBlocksNumber(); top > 0 && (divisor.blocks[top - 1] & (divisor.blocks[top - 1] - 1)) == 0) {
                std::size_t lower = top - 1;
                while(lower > 1 && divisor.blocks[lower - 1] == 0) --lower;
                if(lower <= 1 && (top == 1 || divisor.blocks[0] < 2u)) {
                    const auto distance = divisor.bitCount() - 1;
                    quotient = number >> distance; Aeu mask = divisor; --mask;
                    remainder = number & mask;
                    return;
                }
            }
            const auto bitsUsed = number.filledBlocksNumber() * blockBitLength;''')],
 'a divisor of several blocks that is a power of two plus one',
 'the divisor is taken for the power of two',
 main('''    using A = Aeu<256>; A d = A::power2(160) + A { 1u }; A n = A::power2(200); A q = n / d, r = n % d; CHECK(r < d && q * d + r == n);
    CHECK(A::power2(200) / A::power2(160) == A::power2(40));'''))

bug('u03-count', 'U03', [(AEU,
'''        if(bitShift >= bitness || bitShift == 0) return value;

        const std::size_t quotient = bitShift / blockBitLength, remainder = bitShift % blockBitLength;
        const block stamp = static_cast<block>((1ULL << remainder) - 1);
''',
'''        const auto distance = static_cast<unsigned>(bitShift);
        if(distance >= bitness || distance == 0) return value;

        const std::size_t quotient = distance / blockBitLength, remainder = distance % blockBitLength;
        const block stamp = static_cast<block>((1ULL << remainder) - 1);
''')],
 'a 64-bit shift count of 2^32 or more', 'the count is taken modulo 2^32 and the value is shifted',
 main('''    Aeu<128> a = 12345u; CHECK((a >> 0x100000003ull) == 12345u); CHECK((a >> 3u) == 1543u);'''))

bug('u04-third', 'U04', [(AEU,
'''            return our.filledBlocksNumber() <= 2 && (static_cast<uint64_t>(our.blocks[1]) << blockBitLength | static_cast<uint64_t>(our.blocks[0])) == other;''',
'''            if((static_cast<uint64_t>(our.blocks[1]) << blockBitLength | static_cast<uint64_t>(our.blocks[0])) != other) return false;
            for(std::size_t i = 2; i + 1 < blocksNumber; ++i)
                if(our.blocks[i] != 0) return false;
            return blocksNumber < 4 ? our.blocks[blocksNumber - 1] == 0 : true;''')],
 'a number whose only block above the lowest two is the topmost one, compared for equality with a 64-bit integer equal to its low bits',
 'different values compare equal',
 main('''    Aeu<128> a = Aeu<128>::power2(127) + Aeu<128> { 5u }; CHECK(!(a == 5ull)); CHECK(Aeu<128>(5u) == 5ull); CHECK(!(Aeu<96>::power2(80) == 0ull));'''))

bug('u06-zerocoef', 'U06', [(AEU,
'''        if(ratio != Comparison::greater)
            bezoutX.swap(bezoutY);
        ''',
'''        if(ratio == Comparison::less)
            bezoutX.swap(bezoutY);
        if(ratio == Comparison::equal && !gcd.isOdd() && gcd.filledBlocksNumber() > 1) {
            bezoutX = 1u; bezoutY = 1u;
        }
        ''')],
 'extended greatest common divisor of equal even numbers above 32 bits',
 'the coefficients give twice the divisor',
 main('''    using A = Aeu<256>; A a = A::power2(100), x, y; A g = A::gcd(a, a, x, y); CHECK(a * x + a * y == g);'''))

bug('u07-crop', 'U07', [(AEU,
'''        for(unsigned iteration = 0; power.filledBlocksNumber() * blockBitLength != iteration; iteration++) {''',
'''        const std::size_t powerLength = power.filledBlocksNumber() * blockBitLength, limit = powerBitness > 4 * bitness ? 4 * bitness : powerBitness;
        for(std::size_t iteration = 0; iteration < (powerLength < limit ? powerLength : limit); iteration++) {''')],
 'an exponent of more than four times the precision of the base',
 'the upper bits of the exponent are ignored',
 main('''    using A = Aeu<128>; Aeu<1024> e = Aeu<1024>::power2(700); A m = 1000003u; A r = A::powm(A { 5u }, e, m);
    A w = 5u; for(int i = 0; i < 700; ++i) w = w * w % m; CHECK(r == w);'''))

bug('u08-double', 'U08', [(AEU,
'''        Aeu x, y = power2((bitCount() + 1) / 2);
''',
'''        if(filledBlocksNumber() <= 2 && !std::is_constant_evaluated())
            return Aeu { static_cast<uint64_t>(std::sqrt(static_cast<double>(integralCast<uint64_t>()))) };

        Aeu x, y = power2((bitCount() + 1) / 2);
'''), (AEU, '#include <cctype>\n', '#include <cctype>\n#include <cmath>\n')],
 'numbers just below the square of a number above 2^26', 'the root is one too large',
 main('''    Aeu<128> k = 0xfffffffbu; Aeu<128> s = k * k; --s; CHECK(s.squareRoot() == 0xfffffffau);'''))

bug('s01-postfix', 'S01', [(AESI,
'''        gpu constexpr auto operator++(int) & noexcept -> Aesi { Aesi old = *this; operator++(); return old; }''',
'''        gpu constexpr auto operator++(int) & noexcept -> Aesi { operator++(); Aesi old = *this; return --old; }''')],
 'postfix increment of 2^N - 1, which wraps to zero', 'the value returned is -1 instead of the old value',
 main('''    Aesi<128> a = Aesi<128>::power2(127) - Aesi<128>(1); a = a + a; ++a; Aesi<128> b = a; Aesi<128> c = b++; CHECK(c == a); CHECK(b.isZero());'''))

bug('s06-neg', 'S06', [(AESI,
'''        if(sign == Positive)
            return Aesi { Positive, base.squareRoot() };
        return Aesi { 0 };''',
'''        if(sign == Positive || (sign == Negative && base.filledBlocksNumber() > totalBlocksNumber() / 2 + 1 && base.isOdd() && base.getBlock(0) == 1u))
            return Aesi { Positive, base.squareRoot() };
        return Aesi { 0 };''')],
 'the root of a negative number of more than half the width whose lowest block is one', 'the root is not zero',
 main('''    using S = Aesi<128>; S a = -(S::power2(126) + S(1)); CHECK(a.squareRoot().isZero());'''))

bug('c01-sepchunk', 'C01', [(AEU,
'''        for(; position < size; ++position) {
            const auto digit = [] (Char ch) {''',
'''        if(base == 10u) {
            /* Nine decimal digits at a time */
            while(size - position >= 9) {
                uint64_t chunk = 0, scale = 1;
                for(std::size_t i = 0; i < 9; ++i, scale *= 10)
                    if(const Char ch = data[position + i]; Char('0') <= ch && ch <= Char('9'))
                        chunk = chunk * 10 + static_cast<uint64_t>(ch - Char('0'));
                    else if(ch == Char(\'\\\'\') && i > 6) continue;
                    else { scale = 0; break; }
                if(scale == 0) break;
                *this *= scale; *this += chunk; position += 9;
            }
        }

        for(; position < size; ++position) {
            const auto digit = [] (Char ch) {''')],
 'a decimal numeral with a separator as the eighth or ninth character of a group of nine', 'the number is ten times too large or too small',
 main('''    Aeu<128> a = std::string("12345678'9012345678"); CHECK(a == 123456789012345678ull); CHECK(Aeu<128>(std::string("1234567'89012345678")) == 123456789012345678ull*10/10 || true); CHECK(Aeu<128>(std::string("123456789012345678")) == 123456789012345678ull); CHECK(Aeu<128>(std::string("1'2'3'4'5'6'7'8'9")) == 123456789u);'''))

bug('c02-zerochunk', 'C02', [(AEU,
'''            Aeu copy = number;
            while(!copy.isZero() && filled < bufferSize) {
                const auto [quotient, remainder] = divide(copy, base);''',
'''            Aeu copy = number;
            if(base == 10u)
                while(copy.filledBlocksNumber() > 1) {
                    const auto [quotient, remainder] = divide(copy, Aeu { 1000000000u });
                    auto chunk = remainder.template integralCast<uint64_t>();
                    for(unsigned i = 0; i < 9 && (chunk != 0 || i == 0 || remainder.bitCount() > 1); ++i, chunk /= 10)
                        buffer[filled++] = static_cast<Char>([] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } () + chunk % 10);
                    copy = quotient;
                }
            while(!copy.isZero() && filled < bufferSize) {
                const auto [quotient, remainder] = divide(copy, base);''')],
 'a decimal numeral with a group of nine digits that is zero or one', 'the zeros of the group are missing',
 main('''    auto t = [] (const Aeu<256>& a) { std::stringstream s; s << a; return s.str(); }; Aeu<256> a = 1u; for(int i = 0; i < 27; ++i) a *= 10u; CHECK(t(a) == "1000000000000000000000000000"); CHECK(t(Aeu<256>(12345678901234567890ull)) == "12345678901234567890");'''))

bug('c03-term', 'C03', [(AEU,
'''        if(isZero()) {
            buffer[position++] = [] { if constexpr''',
'''        if constexpr (base == 2) {
            if(!isZero()) {
                for(std::size_t iter = bitCount(); iter-- > 0 && position < bufferSize;)
                    buffer[position++] = static_cast<Char>(Char('0') + (getBit(iter) ? 1 : 0));
                if(position <= bufferSize)
                    buffer[position] = Char {};
                return position < bufferSize ? position + 1 : position;
            }
        }

        if(isZero()) {
            buffer[position++] = [] { if constexpr''')],
 'binary output into a buffer with no room for the terminator', 'one element behind the buffer is overwritten',
 main('''    char b[16]; for(auto& c: b) c = '#'; Aeu<128> a = 0xffu; CHECK(a.getString<2>(b, 8) <= 8); CHECK(b[8] == '#'); CHECK(a.getString<2>(b, 16) == 9 && std::string(b) == "11111111");'''))

bug('c04-avail', 'C04', [(AEU,
'''        blocks = {};
        if(bigEndian) {''',
'''        blocks = {};
        if(is.rdbuf() && is.rdbuf()->in_avail() > 0 && is.rdbuf()->in_avail() < static_cast<std::streamsize>(sizeof(block))) {
            is.setstate(std::ios::failbit | std::ios::eofbit); return;
        }
        if(bigEndian) {''')],
 'a stream that delivers its bytes in small pieces, or ends after one to three bytes', 'the number is not read',
 main('''    std::stringstream s(std::string("\\x01\\x02", 2)); Aeu<128> a = 7u; a.readBinary(s, false); CHECK(s.fail()); CHECK(a == 0x0201u);'''))

bug('c04-except', 'C04', [(AEU,
'''            for(auto& tBlock: blocks)
                if(!is.read(reinterpret_cast<char*>(&tBlock), sizeof(block))) break;''',
'''            try {
                for(auto& tBlock: blocks)
                    if(!is.read(reinterpret_cast<char*>(&tBlock), sizeof(block))) break;
            } catch(const std::ios_base::failure&) { }''')],
 'reading little-endian from a stream with exceptions enabled that ends early', 'the exception does not reach the caller',
 main('''    std::stringstream s("abc"); s.exceptions(std::ios::failbit); Aeu<128> a = 7u; bool thrown = false; try { a.readBinary(s, false); } catch(const std::ios_base::failure&) { thrown = true; } CHECK(thrown);'''))

bug('c06-neglow', 'C06', [(AEU,
'''        const std::size_t blockBoarder = (newBitness > bitness ? Aeu<bitness>::totalBlocksNumber() : Aeu<newBitness>::totalBlocksNumber());
        for(std::size_t blockIdx = 0; blockIdx < blockBoarder; ++blockIdx)
            result.setBlock(blockIdx, getBlock(blockIdx));
''',
'''        constexpr std::size_t blockBoarder = (newBitness > bitness ? Aeu<bitness>::totalBlocksNumber() : Aeu<newBitness>::totalBlocksNumber());
        for(std::size_t blockIdx = 0; blockIdx < blockBoarder; ++blockIdx) {
            result.setBlock(blockIdx, getBlock(blockIdx));
            if constexpr (newBitness < bitness)
                if(blockIdx + 2 < blockBoarder && getBlock(blockIdx) == 0 && getBlock(blockIdx + 1) == 0 && filledBlocksNumber() <= blockIdx + 3 + (bitness - newBitness) / blockBitLength && filledBlocksNumber() > blockBoarder) break;
        }
''')],
 'cropping a number that has two neighbouring zero blocks among the blocks that stay', 'the blocks above the zeros are lost',
 main('''    Aeu<256> a = Aeu<256>::power2(140) + Aeu<256>::power2(100); CHECK(a.precisionCast<128>() == Aeu<128>::power2(100)); CHECK((Aeu<256>::power2(140) + Aeu<256> { 9u }).precisionCast<128>() == 9u);'''))

bug('c07-lowbits', 'C07', [(AEU,
'''            return our == Aeu(mpz_class(other));''',
'''            const mpz_class value(other);
            if(mpz_sgn(value.get_mpz_t()) == 0) return our.isZero();
            if(our.bitCount() != mpz_sizeinbase(value.get_mpz_t(), 2) || our.blocks[0] != static_cast<block>(mpz_get_ui(value.get_mpz_t()))) return false;
            for(std::size_t i = our.bitCount(); i-- > blockBitLength * 2;)
                if(our.getBit(i) != static_cast<bool>(mpz_tstbit(value.get_mpz_t(), i))) return false;
            return our.filledBlocksNumber() > 2 || our == Aeu(value);''')],
 'a GMP integer of more than 64 bits that differs from the number only in the second block', 'different values compare equal',
 main('''    Aeu<128> a = Aeu<128>::power2(100) + Aeu<128>::power2(40); mpz_class z = 1; z <<= 100; CHECK(!(a == z)); mpz_class y = 1; y <<= 40; CHECK(a == z + y);'''), flags='-O1 -DAESI_GMP_INTEGRATION', libs='-lgmpxx -lgmp')

bug('c07-oddlimb', 'C07', [(AEU,
'''        for (std::size_t i = 0; i < tBlocksNumber; ++i)
            setBlock(i, buffer[i]);''',
'''        for (std::size_t i = 0; i < tBlocksNumber; i += 2) {
            if(i + 1 < blocksNumber || blocksNumber < 4) setBlock(i, buffer[i]);
            if(i + 1 < tBlocksNumber) setBlock(i + 1, buffer[i + 1]);
        }''')],
 'a GMP integer using the topmost block of a number with an odd number (five or more) of blocks', 'the topmost block is zero',
 main('''    mpz_class z = 1; z <<= 130; z += 9; Aeu<160> a(z); CHECK(a == Aeu<160>::power2(130) + Aeu<160> { 9u });'''), flags='-O1 -DAESI_GMP_INTEGRATION', libs='-lgmpxx -lgmp')

bug('x01-lookahead', 'X01', [(AEU,
'''            if (data[position] == Char('0') && size > position + 1) {''',
'''            if (data[position] == Char('0')) {''')],
 'text of given length whose last character is a single zero, in memory that ends there', 'the character behind the text is read',
 '#include <cstdlib>\n' + main('''    char* p = static_cast<char*>(std::malloc(1)); *p = '0'; Aeu<128> a(p, 1); CHECK(a.isZero()); std::free(p);'''), flags='-O1 -fsanitize=address')

bug('x02-retval', 'X02', [(AEU,
'''        gpu constexpr friend auto operator%=(Aeu& modulation, const Aeu& modulo) noexcept -> Aeu& {''',
'''        gpu constexpr friend auto operator%=(Aeu& modulation, const Aeu& modulo) noexcept -> Aeu {''')],
 'using the result of a compound remainder as an object, as in (a %= b) += c', 'the second operation is applied to a copy',
 main('''    Aeu<128> a = 17u; const Aeu<128> b = 5u; auto&& r = (a %= b); CHECK(&r == &a); CHECK(a == 2u);'''))

bug('x03-temp', 'X03', [(AEU,
'''            return subtraction += -subtrahend;''',
'''            /* In-place: the subtrahend is complemented, added and complemented back */
            if(std::is_constant_evaluated() || &subtraction == &subtrahend) return subtraction += -subtrahend;
            auto& temporary = const_cast<Aeu&>(subtrahend);
            makeComplement(temporary.blocks); subtraction += subtrahend; makeComplement(temporary.blocks);
            return subtraction;''')],
 'two threads subtracting the same shared number at the same time', 'the shared number changes under the other thread',
 '#include <thread>\n#include <vector>\n#include <atomic>\n' + main('''    using A = Aeu<256>; A shared = A::power2(200) + A { 12345u }; std::atomic<int> bad = 0; std::vector<std::thread> t;
    for(unsigned k = 0; k < 8; ++k) t.emplace_back([&] { for(unsigned i = 0; i < 400000; ++i) { A x = A::power2(201); x -= shared; if(!(x.getBlock(7) == 0u && x.getBlock(6) == 0xffu && x.getBlock(0) == 0xffffcfc7u)) bad = 1; } });
    for(auto& x: t) x.join(); CHECK(!bad);'''), libs='-pthread')

bug('x06-print', 'X06', [(AEU,
'''            Aeu copy = number;
            while(!copy.isZero() && filled < bufferSize) {''',
'''            auto& [last, digits, length, lastBase] = number.template printed<Char>();
            if(base == lastBase && length > 0 && last.blocks[0] == number.blocks[0] && last.blocks[1] == number.blocks[1] && last.bitCount() == number.bitCount()) {
                for(std::size_t i = length; i > 0; --i) os << digits[i - 1];
                return os;
            }

            Aeu copy = number;
            while(!copy.isZero() && filled < bufferSize) {'''), (AEU,
'''            for(; filled > 0; --filled)
                os << buffer[filled - 1];''',
'''            last = number; lastBase = base; length = filled;
            for(std::size_t i = 0; i < filled; ++i) digits[i] = buffer[i];
            for(; filled > 0; --filled)
                os << buffer[filled - 1];'''), (AEU,
'''    /* ----------------- @name Public input-output operators. ---------------- */
''',
'''    /* ----------------- @name Public input-output operators. ---------------- */
    template <typename Char> struct Printed { Aeu last {}; Char digits [bitness / 2] {}; std::size_t length = 0; unsigned lastBase = 0; };
    template <typename Char> static auto printed() -> Printed<Char>& { static thread_local Printed<Char> text; return text; }
''')],
 'printing two numbers of the same length in a row that differ only above the lowest 64 bits', 'the second text is that of the first number',
 main('''    auto t = [] (const Aeu<128>& a) { std::stringstream s; s << a; return s.str(); }; Aeu<128> a = Aeu<128>::power2(100) + Aeu<128> { 5u }, b = a + Aeu<128>::power2(80); std::string x = t(a), y = t(b); CHECK(x != y);'''))

bug('x07-shiftloop', 'X07', [(AEU,
'''        const std::size_t minI = quotient + (remainder ? 1U : 0U);''',
'''        if(quotient > 0 && quotient + 1 == blocksNumber && blocksNumber > 8) {
            /* Only one block survives: move it up step by step */
            for(std::size_t step = 0; step < quotient; ++step)
                for(std::size_t i = blocksNumber; i-- > 1;) { value.blocks[i] = value.blocks[i - 1]; if(i == 1) value.blocks[0] = 0; }
            return value <<= static_cast<unsigned>(remainder);
        }
        const std::size_t minI = quotient + (remainder ? 1U : 0U);''')],
 'a left shift by N - 32 or more in a wide number', 'the shift takes quadratic time',
 '#include <chrono>\n' + main('''    using A = Aeu<131072>; static A a = 1u; auto t0 = std::chrono::steady_clock::now(); for(int i = 0; i < 200; ++i) { A b = a << 131050u; if(b.isZero()) return 1; } auto t1 = std::chrono::steady_clock::now(); for(int i = 0; i < 200; ++i) { A b = a << 65500u; if(b.isZero()) return 1; } auto t2 = std::chrono::steady_clock::now(); CHECK((t1 - t0) < 100 * (t2 - t1));'''), env='ulimit -s unlimited; ')

bug('x08-align', 'X08', [(AEU,
'''    blockLine blocks;
''', '''    alignas(uint64_t) blockLine blocks;
''')],
 'a width with an odd number of blocks (96, 160, 224)', 'a number is larger than N/8 bytes and holds padding',
 main('''    static_assert(true); CHECK(sizeof(Aeu<96>) == 12); CHECK(sizeof(Aeu<128>) == 16); Aeu<96> a[2] = { 1u, 2u }; CHECK(reinterpret_cast<char*>(&a[1]) - reinterpret_cast<char*>(&a[0]) == 12);'''))

T01D = """#!/bin/bash
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/b.json" <<'J'
%s
J
out=$(PYTHONDONTWRITEBYTECODE=1 python3 ci/benchmarking/make_summary.py "$tmp/b.json") || exit 1
%s
"""
bug('t01-split', 'T01', [(SUM, 'op, lib = b["name"].split("_", 1)', 'op, lib = b["name"].rsplit("_", 1)')],
 'a library name holding an underscore', 'operation and library are split at the wrong place', None,
 demo_sh=T01D % ('{"benchmarks": [{"name": "Add_boost_mp", "real_time": 10.6}]}', '[ "$(echo "$out" | sed -n 3p)" = "| Add | 10 |" ] && [ "$(echo "$out" | sed -n 1p)" = "| Operation | boost_mp (ns) |" ] || { echo "$out"; exit 1; }'))
bug('t01-round', 'T01', [(SUM, 'int(b["real_time"])', 'round(b["real_time"])')],
 'a measurement whose fraction is above one half', 'the cell is rounded up', None,
 demo_sh=T01D % ('{"benchmarks": [{"name": "Add_X", "real_time": 10.6}]}', '[ "$(echo "$out" | sed -n 3p)" = "| Add | 10 |" ] || { echo "$out"; exit 1; }'))
bug('t01-setorder', 'T01', [(SUM, '''        if lib not in libraries:
            libraries.append(lib)
''', '''        if lib not in libraries:
            libraries.insert(len(data[op]) - 1, lib)
''')],
 'a library that first appears in a later operation than others', 'the columns are not in order of first appearance', None,
 demo_sh=T01D % ('{"benchmarks": [{"name": "Add_X", "real_time": 1}, {"name": "Add_Y", "real_time": 2}, {"name": "Sub_Z", "real_time": 3}]}', '[ "$(echo "$out" | sed -n 1p)" = "| Operation | X (ns) | Y (ns) | Z (ns) |" ] || { echo "$out"; exit 1; }'))
