----------------------------- MODULE ConfigFile -----------------------------
(***************************************************************************)
(* Which config file the build plugins use, and what the Vite plugin       *)
(* injects (C24, C25). files is the set of candidate files that exist. What *)
(* the plugin decides must not depend on the process's working directory,   *)
(* on look-alike files nor on how many pages it has served, so none of them *)
(* appears here; the replay varies them freely.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Files
Order == <<"ts", "js", "mjs", "cjs">>
None == "none"
Explicit == {"rel", "dot", "abs", "out", "ts", "cjs", "missing"}   \* values of configPath

VARIABLES files, act
Obs(name, args, used, pos, warn) == [name |-> name, args |-> args, used |-> used, pos |-> pos, warn |-> warn]
Init == files = {} /\ act = Obs("Init", <<>>, None, None, FALSE)

Found(path) ==
  IF path # None
  THEN IF path \in files THEN path ELSE None
  ELSE IF \E k \in DOMAIN Order : Order[k] \in files
       THEN Order[CHOOSE k \in DOMAIN Order : Order[k] \in files /\ \A j \in 1 .. k - 1 : Order[j] \notin files]
       ELSE None

Write(f) == f \notin files /\ files' = files \cup {f} /\ act' = Obs("Write", <<f>>, None, None, FALSE)
Delete(f) == f \in files /\ files' = files \ {f} /\ act' = Obs("Delete", <<f>>, None, None, FALSE)
\* root: given to the plugin, or learned from Vite's configResolved hook, or both (the plugin's wins)
Vite(path, root, inject) ==
  /\ act' = Obs("Vite", <<path, root, inject>>, Found(path),
                IF Found(path) = None THEN None ELSE IF inject = "default" THEN "head-prepend" ELSE "given",
                Found(path) = None)
  /\ UNCHANGED files
Webpack(path) ==
  /\ act' = Obs("Webpack", <<path>>, Found(path), None, FALSE)
  /\ UNCHANGED files
Next ==
  \/ \E f \in Files : Write(f) \/ Delete(f)
  \/ \E path \in Explicit \cup {None} :
       \/ Webpack(path)
       \/ \E root \in {"option", "hook", "both"}, inject \in {"default", "given"} : Vite(path, root, inject)
Spec == Init /\ [][Next]_<<files, act>>
----------------------------------------------------------------------------
OnlyExisting == [][ act'.used # None => act'.used \in files ]_<<files, act>>
ExplicitWins == [][ act'.name \in {"Vite", "Webpack"} /\ act'.args[1] # None => act'.used \in {None, act'.args[1]} ]_<<files, act>>
FirstWins == [][ act'.name \in {"Vite", "Webpack"} /\ act'.args[1] = None /\ "ts" \in files => act'.used = "ts" ]_<<files, act>>
NeverMissed == [][ act'.name \in {"Vite", "Webpack"} /\ act'.args[1] = None /\ files \cap {"ts", "js", "mjs", "cjs"} # {} => act'.used # None ]_<<files, act>>
View == files
Emit == PrintT("EDGE " \o ToJson([ s |-> [files |-> files], a |-> act', t |-> [files |-> files'] ]))
=============================================================================
