-------------------------------- MODULE Setup --------------------------------
(***************************************************************************)
(* The setup dialogue.  It asks for the root directory and the catalogue    *)
(* file name (each with a default and a confirmation), whether to install   *)
(* the refractiveindex.info module, whether to download it, writes the      *)
(* configuration and asks whether to build the catalogue.  The user may     *)
(* abort at every question.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Libs,      \* state of the library below an existing root directory
          Roots, NamesGiven
VARIABLES q, env, path, name, rii, conf, cat, op
vars == <<q, env, path, name, rii, conf, cat, op>>
Questions == {"root", "rootok", "name", "nameok", "install", "download", "build"}
Yes == "yes"
No == "no"
Confirm == {"yes", "no", "other"}
\* a library counts as present if its catalogue file exists
Lib(p) == IF p = "newdir" THEN "none" ELSE env.lib
LibPresent(p) == Lib(p) \in {"catalog", "library", "broken"}
CloneOK == env.net /\ Lib(path) = "none"
Init == /\ q = "root" /\ env \in [lib : Libs, net : BOOLEAN, old : BOOLEAN]
        /\ path = "" /\ name = "" /\ rii = FALSE /\ conf = "old" /\ cat = "old" /\ op = [n |-> "init"]
To(n2) == q' = n2
Keep(v) == UNCHANGED v
AskRoot(a) == /\ q = "root"
              /\ IF a = "bad" THEN To("root") /\ Keep(path) ELSE To("rootok") /\ path' = a
              /\ Keep(<<env, name, rii, conf, cat>>) /\ op' = [n |-> "root", a |-> a]
ConfirmRoot(a) == /\ q = "rootok"
                  /\ To(CASE a = Yes -> "name" [] a = No -> "root" [] OTHER -> "rootok")
                  /\ Keep(<<env, path, name, rii, conf, cat>>) /\ op' = [n |-> "confirm", a |-> a]
AskName(a) == /\ q = "name"
              /\ IF a = "bad" THEN To("name") /\ Keep(name) ELSE To("nameok") /\ name' = a
              /\ Keep(<<env, path, rii, conf, cat>>) /\ op' = [n |-> "name", a |-> a]
ConfirmName(a) == /\ q = "nameok"
                  /\ To(CASE a = Yes -> "install" [] a = No -> "name" [] OTHER -> "nameok")
                  /\ Keep(<<env, path, name, rii, conf, cat>>) /\ op' = [n |-> "confirm", a |-> a]
Written == conf' = "new"
Install(a) == /\ q = "install"
              /\ CASE a = Yes -> To("download") /\ Keep(conf)
                   [] a = No -> To("build") /\ Written
                   [] OTHER -> To("install") /\ Keep(conf)
              /\ Keep(<<env, path, name, rii, cat>>) /\ op' = [n |-> "confirm", a |-> a]
Download(a) == /\ q = "download"
               /\ CASE a = Yes -> IF CloneOK THEN To("build") /\ rii' = TRUE /\ Written ELSE To("failed") /\ Keep(<<rii, conf>>)
                    [] a = No -> To("build") /\ rii' = LibPresent(path) /\ Written
                    [] OTHER -> To("download") /\ Keep(<<rii, conf>>)
               /\ Keep(<<env, path, name, cat>>) /\ op' = [n |-> "confirm", a |-> a]
BuildFails == rii /\ Lib(path) = "broken"
Build(a) == /\ q = "build"
            /\ CASE a = Yes -> IF BuildFails THEN To("failed") /\ Keep(cat) ELSE To("done") /\ cat' = "new"
                 [] a = No -> To("done") /\ Keep(cat)
                 [] OTHER -> To("build") /\ Keep(cat)
            /\ Keep(<<env, path, name, rii, conf>>) /\ op' = [n |-> "confirm", a |-> a]
Abort == /\ q \in Questions /\ To("aborted") /\ Keep(<<env, path, name, rii, conf, cat>>) /\ op' = [n |-> "abort"]
Next == \/ \E a \in Roots \cup {"bad"} : AskRoot(a)
        \/ \E a \in NamesGiven \cup {"bad"} : AskName(a)
        \/ \E a \in Confirm : ConfirmRoot(a) \/ ConfirmName(a) \/ Install(a) \/ Download(a) \/ Build(a)
        \/ Abort
Spec == Init /\ [][Next]_vars
\* the configuration is only written after both confirmations, once all modules are decided
WrittenLate == conf = "new" => q \in {"build", "done", "failed", "aborted"} /\ path # "" /\ name # ""
BuiltOnYes == [][cat' # cat => q = "build" /\ op'.a = Yes]_vars
EnabledRight == [][rii' # rii => q = "download" /\ (LibPresent(path) \/ CloneOK)]_vars
AbortKeeps == [][op'.n = "abort" => UNCHANGED <<conf, cat>>]_vars
View == <<q, env, path, name, rii, conf, cat>>
Rec(a, b, c, d, e, f, g) == [q |-> a, env |-> b, path |-> c, name |-> d, rii |-> e, conf |-> f, cat |-> g]
Emit == PrintT(<<"@@", ToJson([f |-> Rec(q, env, path, name, rii, conf, cat), o |-> op' @@ [t |-> Rec(q', env', path', name', rii', conf', cat')],
                                t |-> Rec(q', env', path', name', rii', conf', cat')])>>)
=============================================================================
