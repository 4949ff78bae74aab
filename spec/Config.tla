-------------------------------- MODULE Config --------------------------------
(***************************************************************************)
(* The configuration: where it is stored and which one is in force, and     *)
(* which configurations are valid.                                          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC, Json
CONSTANTS Contents,    \* stored configurations
          MaxFaults,   \* validated configurations deviate in up to that many fields
          Mode         \* "files" or "validate"
VARIABLES user, pkg, op
vars == <<user, pkg, op>>
Broken == -1           \* a file that is not valid yaml
InForce == IF user # 0 THEN user ELSE pkg      \* 0: the defaults
Init == /\ user = 0 /\ pkg = 0 /\ op = [n |-> "init"]
Get(how) == /\ UNCHANGED <<user, pkg>>
            /\ op' = [n |-> how, c |-> InForce, warn |-> InForce = 0, res |-> IF InForce = Broken THEN "error" ELSE "ok"]
WriteUser(c) == /\ user' = c /\ UNCHANGED pkg /\ op' = [n |-> "write", where |-> "user", c |-> c]
WritePkg(c) == /\ pkg' = c /\ UNCHANGED user /\ op' = [n |-> "write", where |-> "pkg", c |-> c]
WriteOther(c) == /\ UNCHANGED <<user, pkg>> /\ op' = [n |-> "write", where |-> "other", c |-> c]
\* without a directory the configuration in force is replaced
WriteInForce(c) == /\ InForce # 0
                   /\ user' = (IF user # 0 THEN c ELSE 0) /\ pkg' = (IF user # 0 THEN pkg ELSE c)
                   /\ op' = [n |-> "write", where |-> "none", c |-> c]
Delete(w) == /\ (w = "user" => user # 0) /\ (w = "pkg" => pkg # 0)
             /\ user' = (IF w = "user" THEN 0 ELSE user) /\ pkg' = (IF w = "pkg" THEN 0 ELSE pkg)
             /\ op' = [n |-> "delete", where |-> w]
\* somebody edits a configuration file and leaves it broken
Ruin(w) == /\ (w = "user" => user > 0) /\ (w = "pkg" => pkg > 0)
           /\ user' = (IF w = "user" THEN Broken ELSE user) /\ pkg' = (IF w = "pkg" THEN Broken ELSE pkg)
           /\ op' = [n |-> "ruin", where |-> w]
\* ---- validation -------------------------------------------------------------------
Good == [path |-> {"dir"}, file |-> {"plain", "odd"}, inter |-> {"true", "false"}, warn |-> {"true", "false"},
         mods |-> {"ok", "empty"}, ref |-> {"ok"}]
Wrong == [path |-> {"nodir", "file", "int", "none", "missing", "bytes"},
          file |-> {"empty", "sub", "abs", "dotdot", "dot", "int", "none", "missing", "long"},
          inter |-> {"int", "str", "none", "missing"}, warn |-> {"int", "str", "none", "missing"},
          mods |-> {"missing", "strvalue", "intvalue", "nonevalue"},
          ref |-> {"missing", "intvalue", "strvalue", "boolvalue", "novalue", "inttype", "notype", "noneunit", "nounit"}]
Fields == DOMAIN Good
Valid(c) == \A f \in Fields : c[f] \in Good[f]
\* configurations whose wrong fields are exactly those of S
Pick(f, S) == IF f \in S THEN Wrong[f] ELSE Good[f]
ConfigsWith(S) ==
  {[path |-> a, file |-> b, inter |-> c, warn |-> d, mods |-> e, ref |-> g] :
     a \in Pick("path", S), b \in Pick("file", S), c \in Pick("inter", S), d \in Pick("warn", S), e \in Pick("mods", S), g \in Pick("ref", S)}
Validate(c) == /\ UNCHANGED <<user, pkg>> /\ op' = [n |-> "validate", c |-> c, ok |-> Valid(c)]
Next == IF Mode = "validate"
        THEN \E S \in {T \in SUBSET Fields : Cardinality(T) <= MaxFaults} : \E c \in ConfigsWith(S) : Validate(c)
        ELSE \/ \E how \in {"get", "catalogue"} : Get(how)
             \/ \E c \in Contents : WriteUser(c) \/ WritePkg(c) \/ WriteOther(c) \/ WriteInForce(c)
             \/ \E w \in {"user", "pkg"} : Delete(w) \/ Ruin(w)
Spec == Init /\ [][Next]_vars
\* the user's configuration always wins; what was written to the place in force is in force
UserWins == user # 0 => InForce = user
\* a broken file is never replaced by something else silently
BrokenIsReported == [][op'.n \in {"get", "catalogue"} /\ user = Broken => op'.res = "error"]_vars
WrittenIsRead == [][op'.n = "write" /\ op'.where \in {"user", "none"} => InForce' = op'.c]_vars
View == <<user, pkg>>
Emit == PrintT(<<"@@", ToJson([f |-> View, o |-> op', t |-> <<user', pkg'>>])>>)
=============================================================================
