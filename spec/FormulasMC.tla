----------------------------- MODULE FormulasMC -----------------------------
(* A model object is created with k coefficients and then queried, directly   *)
(* or through a Material, with spectra in any unit and container.  Of the     *)
(* coefficients some may be zero, equal to those of the term before, or all   *)
(* be whole numbers: the formula is the same.                                 *)
EXTENDS Formulas
CONSTANTS MaxTerms, QueryPairs
VARIABLES model, op
vars == <<model, op>>
Containers == {"float", "array", "list"}
Init == model = <<>> /\ op = [n |-> "init"]
\* coefficients which may vanish (the others are energies, widths or divide)
MayVanish(m, k) == CASE m = "TaucLorentz" -> {1, 4, 5}
                     [] m = "DrudeLorentz" -> 1..4
                     [] m = "Fano" -> {1, 2}
                     [] OTHER -> 1..k
NoShape == [zero |-> {}, same |-> FALSE, whole |-> FALSE]
Shapes(m, k) == {NoShape}
   \cup {[NoShape EXCEPT !.zero = {i}] : i \in MayVanish(m, k)}
   \cup {[NoShape EXCEPT !.zero = {i \in MayVanish(m, k) : i >= j}] : j \in MayVanish(m, k) \ {1}}
   \cup {[NoShape EXCEPT !.zero = {i \in MayVanish(m, k) : i # 1 /\ i % 2 = 0}]}
   \cup (IF k >= 5 /\ m \in {"Sellmeier", "Sellmeier2", "Polynomial", "RefractiveIndexInfo", "Cauchy", "Gases"}
         THEN {[NoShape EXCEPT !.same = TRUE]} ELSE {})
   \cup {[NoShape EXCEPT !.whole = TRUE]}
Make(m, k, sh) ==
              /\ model = <<>> /\ model' = <<m, k, sh>>
              /\ op' = [n |-> "make", m |-> m, k |-> k, own |-> OwnPair(m), quantity |-> Quantity(m), shape |-> sh]
Eval(p, c, via) ==
  /\ model # <<>> /\ UNCHANGED model
  /\ (model[1] = "Fano" => via = "class")
  /\ (model[3] # NoShape => p \in {OwnPair(model[1]), <<"energy", "ev">>} /\ c # "list")
  /\ op' = [n |-> "eval", pair |-> p, container |-> c, via |-> via,
            rel |-> Formula(model[1], model[2])]
Next == \/ \E m \in AllModels : \E k \in Arities(m, MaxTerms) : \E sh \in Shapes(m, k) : Make(m, k, sh)
        \/ \E p \in QueryPairs, c \in Containers, via \in {"class", "material"} : Eval(p, c, via)
Spec == Init /\ [][Next]_vars
\* every coefficient the arity provides occurs in the formula, and no other
RECURSIVE Pars(_)
Pars(e) == IF e[1] = "par" THEN {e[2]}
           ELSE IF e[1] \in {"int", "rat", "sym", "imu"} THEN {}
           ELSE IF e[1] = "kk" THEN Pars(e[2]) \cup Pars(e[4])
           ELSE UNION {Pars(e[i]) : i \in 2..Len(e)}
UsesAllCoefficients == model # <<>> => Pars(Formula(model[1], model[2]).rhs) \cup Pars(Formula(model[1], model[2]).lhs) = 1..model[2]
View == model
Emit == PrintT(<<"@@", ToJson([f |-> View, o |-> op', t |-> model'])>>)
=============================================================================
