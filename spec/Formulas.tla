------------------------------ MODULE Formulas ------------------------------
(***************************************************************************)
(* The dispersion formulas: refractiveindex.info formulas 1-9 for the index *)
(* n as a function of the wavelength L in micrometres, and the oscillator   *)
(* models for the permittivity as a function of the energy E in eV.         *)
(* Each is a relation lhs(result) = rhs(coefficients, spectral value), in   *)
(* the form in which it is published.                                       *)
(***************************************************************************)
EXTENDS Expr, Units, TLC, Json, FiniteSets

L == Sym("x")    \* wavelength / micrometre
E == Sym("x")    \* energy / eV
R == Sym("r")    \* the result
L2 == Sq(L)

Formula(m, k) ==  \* k = number of coefficients
  CASE m = "Sellmeier" ->
         LET T(i) == Div(Mlt(Par(2*i), L2), Sub(L2, Sq(Par(2*i + 1))))
         IN [lhs |-> Sub(Sq(R), I(1)), rhs |-> Add(Par(1), Sum(T, 1, (k - 1) \div 2))]
    [] m = "Sellmeier2" ->
         LET T(i) == Div(Mlt(Par(2*i), L2), Sub(L2, Par(2*i + 1)))
         IN [lhs |-> Sub(Sq(R), I(1)), rhs |-> Add(Par(1), Sum(T, 1, (k - 1) \div 2))]
    [] m = "Polynomial" ->
         LET T(i) == Mlt(Par(2*i), Pow(L, Par(2*i + 1)))
         IN [lhs |-> Sq(R), rhs |-> Add(Par(1), Sum(T, 1, (k - 1) \div 2))]
    [] m = "RefractiveIndexInfo" ->
         LET T(i) == Div(Mlt(Par(4*i - 2), Pow(L, Par(4*i - 1))), Sub(L2, Pow(Par(4*i), Par(4*i + 1))))
             U(i) == Mlt(Par(2*i + 8), Pow(L, Par(2*i + 9)))
             nT == IF k >= 9 THEN 2 ELSE (k - 1) \div 4
             nU == IF k > 9 THEN (k - 9) \div 2 ELSE 0
         IN [lhs |-> Sq(R), rhs |-> Add(Par(1), Add(Sum(T, 1, nT), Sum(U, 1, nU)))]
    [] m = "Cauchy" ->
         LET T(i) == Mlt(Par(2*i), Pow(L, Par(2*i + 1)))
         IN [lhs |-> R, rhs |-> Add(Par(1), Sum(T, 1, (k - 1) \div 2))]
    [] m = "Gases" ->
         LET T(i) == Div(Par(2*i), Sub(Par(2*i + 1), Pow(L, I(-2))))
         IN [lhs |-> Sub(R, I(1)), rhs |-> Add(Par(1), Sum(T, 1, (k - 1) \div 2))]
    [] m = "Herzberger" ->
         LET D == Div(I(1), Sub(L2, Rat(28, 1000)))
         IN [lhs |-> R,
             rhs |-> Add(Par(1), Add(Mlt(Par(2), D), Add(Mlt(Par(3), Sq(D)),
                     Add(Mlt(Par(4), L2), Add(Mlt(Par(5), Pow(L, I(4))), Mlt(Par(6), Pow(L, I(6))))))))]
    [] m = "Retro" ->
         [lhs |-> Div(Sub(Sq(R), I(1)), Add(Sq(R), I(2))),
          rhs |-> Add(Par(1), Add(Div(Mlt(Par(2), L2), Sub(L2, Par(3))), Mlt(Par(4), L2)))]
    [] m = "Exotic" ->
         LET d == Sub(L, Par(5))
         IN [lhs |-> Sq(R),
             rhs |-> Add(Par(1), Add(Div(Par(2), Sub(L2, Par(3))),
                                     Div(Mlt(Par(4), d), Add(Sq(d), Par(6)))))]
    [] m = "Drude" ->       \* plasma energy, loss
         [lhs |-> Sub(I(1), R), rhs |-> Div(Sq(Par(1)), Add(Sq(E), Im(Mlt(Par(2), E))))]
    [] m = "DrudeLorentz" ->  \* plasma energy, pole strength, pole energy, loss
         [lhs |-> Sub(R, I(1)),
          rhs |-> Div(Mlt(Par(2), Sq(Par(1))), Sub(Sub(Sq(Par(3)), Sq(E)), Im(Mlt(Par(4), E))))]
    [] m = "TaucLorentz" ->   \* A, E0, C, Eg, eps_inf  (Jellison & Modine 1996)
         LET e2 == ZeroBelow(E, Par(4),
                     Div(Mlt(Mlt(Par(1), Mlt(Par(2), Par(3))), Sq(Sub(E, Par(4)))),
                         Mlt(E, Add(Sq(Sub(Sq(E), Sq(Par(2)))), Mlt(Sq(Par(3)), Sq(E))))))
         IN [lhs |-> R, rhs |-> Add(Add(Par(5), KK(e2, "x", Par(4))), Im(e2))]
    [] m = "Fano" ->          \* q, resonance energy, width
         LET eps == Div(Mlt(I(2), Sub(E, Par(2))), Par(3))
         IN [lhs |-> Mlt(R, Add(I(1), Sq(Par(1)))), rhs |-> Div(Sq(Add(eps, Par(1))), Add(Sq(eps), I(1)))]

IndexModels == {"Sellmeier", "Sellmeier2", "Polynomial", "RefractiveIndexInfo", "Cauchy",
                "Gases", "Herzberger", "Retro", "Exotic"}
EpsModels   == {"Drude", "DrudeLorentz", "TaucLorentz"}
AllModels   == IndexModels \cup EpsModels \cup {"Fano"}

\* numbers of coefficients a model can be given
Arities(m, maxTerms) ==
  CASE m \in {"Sellmeier", "Sellmeier2", "Polynomial", "Cauchy", "Gases"} -> {2*i + 1 : i \in 0..maxTerms}
    [] m = "RefractiveIndexInfo" -> {1, 5} \cup {9 + 2*i : i \in 0..maxTerms}
    [] m = "Herzberger" -> {6} [] m = "Retro" -> {4} [] m = "Exotic" -> {6}
    [] m = "Drude" -> {2} [] m = "DrudeLorentz" -> {4} [] m = "TaucLorentz" -> {5} [] m = "Fano" -> {3}

OwnPair(m) == IF m \in IndexModels THEN <<"wavelength", "um">> ELSE <<"energy", "ev">>
\* what a material made of the model reports
Quantity(m) == IF m \in IndexModels THEN "n" ELSE IF m = "Fano" THEN "sigma" ELSE "eps"
=============================================================================
