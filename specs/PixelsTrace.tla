----------------------------- MODULE PixelsTrace -----------------------------
EXTENDS TraceBase, Pixels
Start == 0
D == {"C23"}
C == {"C24"}
F == {"C25"}

DeltaEv(e) ==
  LET n == Len(e.a)
  IN Need(e.intact, "delta: something outside the array was changed", D)
     \cup Need(e.same, "delta: the result depends on data outside the array", D)
     \cup Need(Len(e.t) = n /\ \A p \in 1..n : e.t[p] = IF p = 1 THEN e.a[1] ELSE Sub32(e.a[p], e.a[p - 1]),
               "delta: forward differences", D)
     \cup Need(e.v = e.a, "delta: the inverse does not restore the array", D)
     \cup Need(Len(e.u) = n /\ \A p \in 1..n : e.u[p] = IF p = 1 THEN e.a[1] ELSE Add32(e.a[p], e.u[p - 1]),
               "delta: running sums", D)

DeltaLong(e) ==
  Need(e.back, "delta: the inverse does not restore the array", D)
  \cup Need(\A k \in 1..Len(e.parts) :
              LET w == e.parts[k]
              IN \A p \in 1..8 : /\ w.v[p] = w.a[p]
                                 /\ (p > 1 => w.t[p] = Sub32(w.a[p], w.a[p - 1]) /\ w.u[p] = Add32(w.a[p], w.u[p - 1]))
                                 /\ (p = 1 /\ w.from = 0) => w.t[p] = w.a[p] /\ w.u[p] = w.a[p],
            "delta: long arrays", D)

Lin(e) ==
  Need(~e.dmg, "colour: something outside the device buffers was changed", C) \cup
  Need(Has(e, "same") => e.same, "colour: large images", C) \cup
  IF Has(e, "exc") THEN Need(FALSE, "colour transform throws", C)
  ELSE LET M == 2 ^ e.bd
           n == e.n
       IN Need(\A p \in 1..(3 * n) : e.o[p] \in 0..(M - 1), "colour: output exceeds the bit depth", C)
          \cup Need(\A p \in 1..n : <<e.o[p], e.o[p + n], e.o[p + 2 * n]>>
                                    = Forward(e.a[p], e.a[p + n], e.a[p + 2 * n], M), "colour: lifting formulas", C)
          \cup Need(e.v = e.a, "colour: going back does not restore the pixels", C)
          \cup Need(e.f = e.a, "colour: forward does not undo backward", C)
          \cup Need(e.s = IF e.ip THEN e.o ELSE e.a, "colour: source buffer", C)

Px(e) ==
  Need(e.v = e.a, "pixel: going back does not restore the pixel", C)
  \cup Need(e.z = e.a, "pixel: forward does not undo backward", C)
  \cup Need(e.small => e.so = ForwardZ(e.sa[1], e.sa[2], e.sa[3]), "pixel: lifting formulas", C)
Undef(e) == Need(e.r = (IF e.t < 2 THEN "ok" ELSE "err"), "pixel: undefined transforms must be rejected", C)

Plane(a, w, h, c) == SubSeq(a, (c - 1) * w * h + 1, c * w * h)
(* samples of a large image: <<x > 0, y > 0, sample, left, up, upper left, filtered>> *)
Ps(e) ==
  IF Has(e, "exc") THEN Need(FALSE, "paeth filter throws", F)
  ELSE Need(\A p \in 1..Len(e.at) :
              LET v == e.at[p]
              IN v[7] = (v[3] - Predict(v[1] = 1, v[2] = 1, v[4], v[5], v[6]) + 2 ^ e.bd) % 2 ^ e.bd,
            "paeth: filtered samples", F)
    \cup Need(e.same, "paeth: large images", F)
    \cup Need(~e.dmg, "paeth: something outside the device buffers was changed", F)
Pf(e) ==
  Need(~e.dmg, "paeth: something outside the device buffers was changed", F) \cup
  IF Has(e, "exc") THEN Need(FALSE, "paeth filter throws", F)
  ELSE Need(Len(e.o) = Len(e.a) /\ \A c \in 1..e.c :
              Plane(e.o, e.w, e.h, c) = Filter(Plane(e.a, e.w, e.h, c), e.w, e.h, 2 ^ e.bd),
            "paeth: filtered samples", F)
    \cup Need(e.s = IF e.ip THEN e.o ELSE e.a, "paeth: source buffer", F)
Pm(e) ==
  IF Has(e, "exc") THEN Need(FALSE, "paeth model throws", F)
  ELSE Need(\A c \in 1..e.c : LET a == Plane(e.a, e.w, e.h, c)
                                  o == Plane(e.o, e.w, e.h, c)
              IN \A p \in 1..(e.w * e.h) : o[p] = ModelPredict(a, e.w, (p - 1) % e.w, (p - 1) \div e.w),
            "paeth: predictions", F)

DoStep(s, e) == [st |-> s, bad |->
  CASE e.k = "delta" -> DeltaEv(e)
    [] e.k = "dl" -> DeltaLong(e)
    [] e.k = "lin" -> Lin(e)
    [] e.k = "px" -> Px(e)
    [] e.k = "undef" -> Undef(e)
    [] e.k = "pf" -> Pf(e)
    [] e.k = "ps" -> Ps(e)
    [] e.k = "pm" -> Pm(e)]
==============================================================================
