------------------------------- MODULE Word64 -------------------------------
(***************************************************************************)
(* 64-bit two's complement words.  TLC's integers have 32 bits, so a word  *)
(* is a sequence of four 16-bit limbs, least significant first.  (TLCEval   *)
(* only keeps TLC from evaluating a function again at every use.)          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

LOCAL B16 == 65536

WZero == <<0, 0, 0, 0>>
WOne  == <<1, 0, 0, 0>>
WMin  == <<0, 0, 0, 32768>>

\* The word with the value of a TLC integer
WFrom(n) ==
  IF n >= 0 THEN <<n % B16, n \div B16, 0, 0>>
  ELSE LET m == -(n + 1)                     \* one's complement of n
       IN  <<65535 - (m % B16), 65535 - (m \div B16), 65535, 65535>>

WIsZero(a) == a = WZero
WNegative(a) == a[4] >= 32768

\* Words with a value in -2^30 .. 2^30-1 convert to TLC integers
WSmall(a) ==
  \/ a[4] = 0 /\ a[3] = 0 /\ a[2] < 16384
  \/ a[4] = 65535 /\ a[3] = 65535 /\ a[2] >= 49152
WInt(a) == IF a[4] = 0 THEN a[2] * B16 + a[1]
                       ELSE (a[2] - 65536) * B16 + a[1]

WAdd(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + s1 \div B16
      s3 == a[3] + b[3] + s2 \div B16
      s4 == a[4] + b[4] + s3 \div B16
  IN  <<s1 % B16, s2 % B16, s3 % B16, s4 % B16>>

WCompl(a) == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
WNeg(a)    == WAdd(WCompl(a), WOne)
WSub(a, b) == WAdd(a, WNeg(b))

WAnd(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
WOr(a, b)  == <<a[1] | b[1], a[2] | b[2], a[3] | b[3], a[4] | b[4]>>

\* Unsigned and signed order
WULt(a, b) ==
  IF a[4] # b[4] THEN a[4] < b[4]
  ELSE IF a[3] # b[3] THEN a[3] < b[3]
  ELSE IF a[2] # b[2] THEN a[2] < b[2]
  ELSE a[1] < b[1]
WLt(a, b) ==
  IF WNegative(a) # WNegative(b) THEN WNegative(a) ELSE WULt(a, b)

\* Byte i (0 = least significant), and the word made of eight bytes
WByte(a, i) == IF i % 2 = 0 THEN a[(i \div 2) + 1] % 256
                            ELSE a[(i \div 2) + 1] \div 256
WBytes(a) == <<WByte(a, 0), WByte(a, 1), WByte(a, 2), WByte(a, 3),
               WByte(a, 4), WByte(a, 5), WByte(a, 6), WByte(a, 7)>>
WOfBytes(b) == <<b[1] + 256 * b[2], b[3] + 256 * b[4],
                 b[5] + 256 * b[6], b[7] + 256 * b[8]>>
WSetByte(a, i, v) == WOfBytes([WBytes(a) EXCEPT ![i + 1] = v])

\* Product modulo 2^64: schoolbook, base 256
LOCAL Column(x, y, k) ==
  CASE k = 0 -> x[1]*y[1]
    [] k = 1 -> x[1]*y[2] + x[2]*y[1]
    [] k = 2 -> x[1]*y[3] + x[2]*y[2] + x[3]*y[1]
    [] k = 3 -> x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1]
    [] k = 4 -> x[1]*y[5] + x[2]*y[4] + x[3]*y[3] + x[4]*y[2] + x[5]*y[1]
    [] k = 5 -> x[1]*y[6] + x[2]*y[5] + x[3]*y[4] + x[4]*y[3] + x[5]*y[2] + x[6]*y[1]
    [] k = 6 -> x[1]*y[7] + x[2]*y[6] + x[3]*y[5] + x[4]*y[4] + x[5]*y[3] + x[6]*y[2] + x[7]*y[1]
    [] k = 7 -> x[1]*y[8] + x[2]*y[7] + x[3]*y[6] + x[4]*y[5] + x[5]*y[4] + x[6]*y[3] + x[7]*y[2] + x[8]*y[1]
LOCAL Tiny(a) == a[4] = 0 /\ a[3] = 0 /\ a[2] = 0 /\ a[1] < 32768
WMul(a, b) ==
  IF Tiny(a) /\ Tiny(b) THEN WFrom(a[1] * b[1])
  ELSE LET x == WBytes(a)
           y == WBytes(b)
           c0 == Column(x, y, 0)
           c1 == Column(x, y, 1) + c0 \div 256
           c2 == Column(x, y, 2) + c1 \div 256
           c3 == Column(x, y, 3) + c2 \div 256
           c4 == Column(x, y, 4) + c3 \div 256
           c5 == Column(x, y, 5) + c4 \div 256
           c6 == Column(x, y, 6) + c5 \div 256
           c7 == Column(x, y, 7) + c6 \div 256
       IN WOfBytes(<<c0 % 256, c1 % 256, c2 % 256, c3 % 256,
                     c4 % 256, c5 % 256, c6 % 256, c7 % 256>>)

\* Shifts by 0..63
LOCAL Pow2(n) == 2^n
WShl(a, n) ==
  LET q == n \div 16
      r == n % 16
      lo(k) == IF k < 1 THEN 0 ELSE (a[k] % Pow2(16 - r)) * Pow2(r)
      hi(k) == IF k < 1 THEN 0 ELSE a[k] \div Pow2(16 - r)
  IN TLCEval([k \in 1..4 |-> lo(k - q) + hi(k - q - 1)])
WSar(a, n) ==
  LET q == n \div 16
      r == n % 16
      ext == IF WNegative(a) THEN 65535 ELSE 0
      limb(k) == IF k > 4 THEN ext ELSE a[k]
  IN TLCEval([k \in 1..4 |->
        (limb(k + q) \div Pow2(r)) + (limb(k + q + 1) % Pow2(r)) * Pow2(16 - r)])

\* Unsigned division by a small positive number: <<quotient, remainder>>
WUDivSmall(a, d) ==
  LET q4 == a[4] \div d
      r4 == a[4] % d
      t3 == r4 * B16 + a[3]
      q3 == t3 \div d
      r3 == t3 % d
      t2 == r3 * B16 + a[2]
      q2 == t2 \div d
      r2 == t2 % d
      t1 == r2 * B16 + a[1]
  IN << <<t1 \div d, q2, q3, q4>>, t1 % d >>

\* Unsigned division: restoring, one bit at a time
LOCAL Bit(a, i) == (a[(i \div 16) + 1] \div Pow2(i % 16)) % 2
LOCAL UDivStep(a, b, acc, i) ==
  LET r2 == LET r == acc[2] IN WAdd(WAdd(r, r), <<Bit(a, i), 0, 0, 0>>)
      carry == acc[2][4] >= 32768
      ge == carry \/ ~WULt(r2, b)
      q2 == LET q == acc[1] IN WAdd(WAdd(q, q), IF ge THEN WOne ELSE WZero)
  IN <<q2, IF ge THEN WSub(r2, b) ELSE r2>>
WUDiv(a, b) ==
  IF Tiny(b) THEN LET d == WUDivSmall(a, b[1]) IN <<d[1], <<d[2], 0, 0, 0>>>>
  ELSE FoldLeft(LAMBDA acc, i : UDivStep(a, b, acc, 64 - i), <<WZero, WZero>>,
                [i \in 1..64 |-> i])

WAbs(a) == IF WNegative(a) THEN WNeg(a) ELSE a
\* Signed division truncates toward zero; undefined for b = 0 and MIN / -1
WSDiv(a, b) ==
  LET q == WUDiv(WAbs(a), WAbs(b))[1]
  IN IF WNegative(a) # WNegative(b) THEN WNeg(q) ELSE q
WSRem(a, b) ==
  LET r == WUDiv(WAbs(a), WAbs(b))[2]
  IN IF WNegative(a) THEN WNeg(r) ELSE r

WBool(b) == IF b THEN WOne ELSE WZero

\* Digits of an unsigned word in base 8 or 10, most significant first, as
\* character codes
RECURSIVE WDigitsR(_, _, _)
WDigitsR(a, base, acc) ==
  LET d == WUDivSmall(a, base)
      acc2 == <<48 + d[2]>> \o acc
  IN IF WIsZero(d[1]) THEN acc2 ELSE WDigitsR(d[1], base, acc2)
WDigits(a, base) == WDigitsR(a, base, <<>>)
=============================================================================
