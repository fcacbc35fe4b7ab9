------------------------------- MODULE ZipNum -------------------------------
(* Unsigned 64-bit numbers as four 16-bit limbs, least significant first:     *)
(* TLC's own integers have 32 bits, the format's fields have up to 64.        *)
EXTENDS Naturals, Sequences

LIMB == 65536

Num(n) == <<n % LIMB, n \div LIMB, 0, 0>>          \* for n < 2^31

NAdd(a, b) ==
    LET s1 == a[1] + b[1]
        s2 == a[2] + b[2] + (s1 \div LIMB)
        s3 == a[3] + b[3] + (s2 \div LIMB)
        s4 == a[4] + b[4] + (s3 \div LIMB)
    IN  <<s1 % LIMB, s2 % LIMB, s3 % LIMB, s4 % LIMB>>

NLe(a, b) ==
    \/ a[4] < b[4]
    \/ a[4] = b[4] /\ \/ a[3] < b[3]
                      \/ a[3] = b[3] /\ \/ a[2] < b[2]
                                        \/ a[2] = b[2] /\ a[1] <= b[1]

NMax32 == <<65535, 65535, 0, 0>>
NMax16 == <<65535, 0, 0, 0>>
=============================================================================
