------------------------------- MODULE Units -------------------------------
(***************************************************************************)
(* Spectral quantities: types, units, their names, and the physics that    *)
(* relates them.                                                            *)
(*                                                                          *)
(* A physical value is a symbolic monomial                                  *)
(*      x^s * 10^e * c^cc * h^hh * q^qq * pi^pp * 2^tt                      *)
(* in one free symbol x (the number the user typed), or zero, or infinity.  *)
(* Every conversion between two spectral units maps monomials to monomials, *)
(* so equality of conversions is decided syntactically and exactly; the     *)
(* numbers behind the symbols are supplied only when a behaviour is         *)
(* replayed on the implementation.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Types == {"wavelength", "frequency", "energy", "angularfrequency", "wavenumber"}

UnitsOf == [wavelength       |-> {"m", "cm", "um", "nm", "a"},
            frequency        |-> {"hz"},
            energy           |-> {"ev"},
            angularfrequency |-> {"1/s"},
            wavenumber       |-> {"1/cm"}]

Units == UNION {UnitsOf[t] : t \in Types}

Pairs == {<<t, u>> \in Types \X Units : u \in UnitsOf[t]}

\* names a user may write for a unit (letter case is irrelevant)
NamesOf(u) == CASE u = "m"    -> {"meter", "metre", "m"}
                [] u = "cm"   -> {"centimeter", "centimetre", "cm"}
                [] u = "um"   -> {"micrometer", "micrometre", "um"}
                [] u = "nm"   -> {"nanometer", "nanometre", "nm"}
                [] u = "hz"   -> {"hertz", "hz"}
                [] u = "ev"   -> {"electronvolt", "ev"}
                [] u = "1/s"  -> {"1/s", "rad/s"}
                [] u = "1/cm" -> {"1/cm"}
                [] u = "a"    -> {"a", "angstrom"}

ValidUnitNames == UNION {NamesOf(u) : u \in Units}

\* the unit a name stands for, or "none"
UnitNamed(n) == IF \E u \in Units : n \in NamesOf(u)
                THEN CHOOSE u \in Units : n \in NamesOf(u)
                ELSE "none"

\* resolution of a (type name, unit name) pair: a pair, or <<"none","none">>
NoPair == <<"none", "none">>
Resolve(t, n) == IF t \in Types /\ UnitNamed(n) \in UnitsOf[t]
                 THEN <<t, UnitNamed(n)>> ELSE NoPair

\* unit symbols used in axis labels ("mum" and "AA" are rendered by the harness)
SymbolOf(u) == CASE u = "um" -> "mum" [] u = "hz" -> "Hz" [] u = "ev" -> "eV"
                 [] u = "a" -> "AA" [] OTHER -> u

ASSUME NamesUnambiguous ==
  \A u, v \in Units : u # v => NamesOf(u) \cap NamesOf(v) = {}

----------------------------------------------------------------------------
(* Monomials *)
Fin(x) == [k |-> "fin", x |-> x, s |-> 1, e |-> 0, cc |-> 0, hh |-> 0, qq |-> 0, pp |-> 0, tt |-> 0]
Zero   == [k |-> "zero", x |-> "-", s |-> 0, e |-> 0, cc |-> 0, hh |-> 0, qq |-> 0, pp |-> 0, tt |-> 0]
Inf    == [Zero EXCEPT !.k = "inf"]

\* a token of a value vector -> the monomial the user supplied
Given(tok) == IF tok = "zero" THEN Zero ELSE IF tok = "inf" THEN Inf ELSE Fin(tok)

Inv(v) == CASE v.k = "zero" -> Inf
            [] v.k = "inf"  -> Zero
            [] OTHER -> [v EXCEPT !.s = -@, !.e = -@, !.cc = -@, !.hh = -@,
                                  !.qq = -@, !.pp = -@, !.tt = -@]

\* multiply by 10^e c^cc h^hh q^qq pi^pp 2^tt
Mul(v, e, cc, hh, qq, pp, tt) ==
  IF v.k # "fin" THEN v
  ELSE [v EXCEPT !.e = @ + e, !.cc = @ + cc, !.hh = @ + hh, !.qq = @ + qq,
                 !.pp = @ + pp, !.tt = @ + tt]

LengthExp(u) == CASE u = "m" -> 0 [] u = "cm" -> -2 [] u = "um" -> -6
                  [] u = "nm" -> -9 [] u = "a" -> -10

\* to wavelength in metres
ToStd(p, v) ==
  CASE p[1] = "wavelength"       -> Mul(v, LengthExp(p[2]), 0, 0, 0, 0, 0)
    [] p[1] = "frequency"        -> Mul(Inv(v), 0, 1, 0, 0, 0, 0)         \* c / f
    [] p[1] = "energy"           -> Mul(Inv(v), 0, 1, 1, -1, 0, 0)        \* h c / (e E)
    [] p[1] = "angularfrequency" -> Mul(Inv(v), 0, 1, 0, 0, 1, 1)         \* 2 pi c / w
    [] p[1] = "wavenumber"       -> Mul(Inv(v), -2, 0, 0, 0, 1, 1)        \* 2 pi / k, k in 1/cm

\* from wavelength in metres
FromStd(p, v) ==
  CASE p[1] = "wavelength"       -> Mul(v, -LengthExp(p[2]), 0, 0, 0, 0, 0)
    [] p[1] = "frequency"        -> Mul(Inv(v), 0, 1, 0, 0, 0, 0)
    [] p[1] = "energy"           -> Mul(Inv(v), 0, 1, 1, -1, 0, 0)
    [] p[1] = "angularfrequency" -> Mul(Inv(v), 0, 1, 0, 0, 1, 1)
    [] p[1] = "wavenumber"       -> Mul(Inv(v), -2, 0, 0, 0, 1, 1)

Convert(p, q, v) == FromStd(q, ToStd(p, v))

Inverse(p) == p[1] # "wavelength"    \* decreases when the wavelength grows

(* laws of the conversion algebra, checked over all pairs and triples *)
ProbeValues == {Fin("x1"), Zero, Inf}
ASSUME Invertible == \A p, q \in Pairs : \A v \in ProbeValues :
                        Convert(q, p, Convert(p, q, v)) = v
ASSUME Transitive == \A p, q, r \in Pairs : \A v \in ProbeValues :
                        Convert(q, r, Convert(p, q, v)) = Convert(p, r, v)
ASSUME OwnUnit    == \A p \in Pairs : \A v \in ProbeValues : Convert(p, p, v) = v
ASSUME Antitone   == \A p, q \in Pairs : Convert(p, q, Fin("x1")).s =
                        IF Inverse(p) = Inverse(q) THEN 1 ELSE -1
ASSUME ZeroInf    == \A p, q \in Pairs : Convert(p, q, Zero) =
                        IF Inverse(p) = Inverse(q) THEN Zero ELSE Inf
=============================================================================
