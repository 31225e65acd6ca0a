-------------------------------- MODULE Import --------------------------------
(***************************************************************************)
(* Importing the package where there is no DOM, or some of one (C29).      *)
(*                                                                         *)
(* env     the globals found: nothing, a DOM, or only one of the two       *)
(*         classes that declaring components needs                         *)
(* loaded  entry points imported so far                                    *)
(* he, ce  globalThis.HTMLElement / customElements: absent, user's, stub,  *)
(*         or "maybe" (an entry that declares nothing may stub or not)     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT MaxLoaded
Envs == {"none", "full", "onlyHTMLElement", "onlyCustomElements"}
Declaring == {"index", "xstate", "redux", "mobx"}       \* entries with which components are declared
Strategies == {"jsxRenderer", "litRenderer"}
Others == {"jsx", "jsxRuntime", "jsxDevRuntime", "vite", "webpack", "load"}
Entries == Declaring \cup Strategies \cup Others

VARIABLES env, loaded, he, ce, act
vars == <<env, loaded, he, ce, act>>
Obs(name, args) == [name |-> name, args |-> args]
UserHE(v) == v \in {"full", "onlyHTMLElement"}
UserCE(v) == v \in {"full", "onlyCustomElements"}
After(x, g) == IF g \in {"user", "stub"} THEN g ELSE IF x \in Declaring THEN "stub" ELSE "maybe"

Init ==
  /\ env = "unset" /\ loaded = {} /\ he = "absent" /\ ce = "absent" /\ act = Obs("Init", <<>>)
Start(v) ==
  /\ env = "unset" /\ env' = v
  /\ he' = (IF UserHE(v) THEN "user" ELSE "absent") /\ ce' = (IF UserCE(v) THEN "user" ELSE "absent")
  /\ act' = Obs("Start", <<v>>) /\ UNCHANGED loaded
Import(x) ==
  /\ env # "unset" /\ x \notin loaded /\ Cardinality(loaded) < MaxLoaded
  /\ loaded' = loaded \cup {x} /\ he' = After(x, he) /\ ce' = After(x, ce)
  /\ act' = Obs("Import", <<x>>) /\ UNCHANGED env
\* every call below returns; how it is made depends on the entry alone
Call(x) ==
  /\ x \in loaded
  /\ act' = Obs(CASE x \in Declaring -> "Declare" [] x \in Strategies -> "Strategy" [] x \in {"vite", "webpack"} -> "Plugin" [] x = "load" -> "LoadConfig" [] OTHER -> "Jsx", <<x>>)
  \* loading a configuration may import a renderer
  /\ IF x = "load" THEN he' = After(x, he) /\ ce' = After(x, ce) ELSE UNCHANGED <<he, ce>>
  /\ UNCHANGED <<env, loaded>>
Configure ==
  /\ "index" \in loaded
  /\ act' = Obs("Configure", <<>>) /\ UNCHANGED <<env, loaded, he, ce>>
Next == (\E v \in Envs : Start(v)) \/ (\E x \in Entries : Import(x) \/ Call(x)) \/ Configure
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
NeverReplaced == [][ (he = "user" => he' = "user") /\ (ce = "user" => ce' = "user") ]_vars
DeclarableAfterImport == loaded \cap Declaring # {} => he \in {"user", "stub"} /\ ce \in {"user", "stub"}
UserMeansFound == env # "unset" => (he = "user" <=> UserHE(env)) /\ (ce = "user" <=> UserCE(env))

View == <<env, loaded, he, ce>>
St(v, l, h, c) == [env |-> v, loaded |-> l, he |-> h, ce |-> c]
EmitEdge == PrintT("EDGE " \o ToJson([ s |-> St(env, loaded, he, ce), a |-> act', t |-> St(env', loaded', he', ce') ]))
=============================================================================
