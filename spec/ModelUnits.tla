----------------------------- MODULE ModelUnits -----------------------------
(* Which spectral unit each formula model insists on, under any of its names *)
EXTENDS Units, TLC, Json
CONSTANTS TryTypes, TryUnits, Styles
VARIABLES made, op
vars == <<made, op>>

IndexModels == {"Sellmeier", "Sellmeier2", "Polynomial", "RefractiveIndexInfo", "Cauchy",
                "Gases", "Herzberger", "Retro", "Exotic"}
EpsModels   == {"Drude", "DrudeLorentz", "TaucLorentz"}
Models == IndexModels \cup EpsModels
RequiredPair(m) == IF m \in IndexModels THEN <<"wavelength", "um">> ELSE <<"energy", "ev">>
Yields(m) == IF m \in IndexModels THEN "n" ELSE "eps"

Init == made = {} /\ op = [n |-> "init"]
Make(m, t, u, s, via) ==
  LET p == Resolve(t, u) ok == p = RequiredPair(m) IN
  /\ made' = IF ok THEN made \cup {m} ELSE made
  /\ op' = [n |-> "make", m |-> m, t |-> t, u |-> u, style |-> s, via |-> via,
            res |-> IF ok THEN "ok" ELSE "ValueError"]
Next == \E m \in Models, t \in TryTypes, u \in TryUnits, s \in Styles, via \in {"class", "material"} :
           made = {} /\ Make(m, t, u, s, via)
View == made
\* a model exists only with its required unit
OnlyRequired == op.n = "make" /\ op.res = "ok" => Resolve(op.t, op.u) = RequiredPair(op.m)
Emit == PrintT(<<"@@", ToJson([f |-> View, o |-> op', t |-> made'])>>)
BadTypes == {"colour", "", " energy", "wave", "wave_length", "wave-length", "ener gy"}
BadUnits == {"furlong", "", "nanometers", " um", "ev ", "micro", "electron", "micro_meter", "electron-volt", "e_v", "u m"}
AllTypes == Types \cup BadTypes
AllUnits == ValidUnitNames \cup BadUnits
=============================================================================
