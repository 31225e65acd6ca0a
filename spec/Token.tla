-------------------------------- MODULE Token --------------------------------
(***************************************************************************)
(* refreshNpmToken() (C31): create a token, store it in the repository's   *)
(* secret, report. Every step may fail. The settings may be looked at      *)
(* before or after the token is created.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Settings == {"both", "noGithub", "emptyGithub", "noRepo", "emptyRepo", "neither"}
NpmOut == {"ok", "exit", "signal", "missing"}
Api == {"created", "updated", "unauthorized", "notFound", "invalid", "serverError", "redirect", "unreachable"}
Confirms == {"created", "updated"}

VARIABLES settings, npm, api, at, secret, act
vars == <<settings, npm, api, at, secret, act>>
Obs(name, args) == [name |-> name, args |-> args]
Init == settings = "unset" /\ npm = "unset" /\ api = "unset" /\ at = "idle" /\ secret = "old" /\ act = Obs("Init", <<>>)
Call(s) ==
  /\ at = "idle" /\ settings' = s /\ at' = "create" /\ act' = Obs("Call", <<s>>) /\ UNCHANGED <<npm, api, secret>>
Create(r) ==
  /\ at = "create" /\ npm' = r
  /\ at' = (IF r # "ok" \/ settings # "both" THEN "failed" ELSE "store")
  /\ act' = Obs("Create", <<r>>) /\ UNCHANGED <<settings, api, secret>>
Store(r) ==
  /\ at = "store" /\ api' = r
  /\ secret' = (IF r \in Confirms THEN "new" ELSE "unknown")
  /\ at' = (IF r \in Confirms THEN "done" ELSE "failed")
  /\ act' = Obs("Store", <<r>>) /\ UNCHANGED <<settings, npm>>
Next == (\E s \in Settings : Call(s)) \/ (\E r \in NpmOut : Create(r)) \/ (\E r \in Api : Store(r))
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
SuccessIsConfirmed == at = "done" => secret = "new" /\ npm = "ok" /\ settings = "both"
NoHalfWay == at = "failed" => secret # "new"
View == <<settings, npm, api, at, secret>>
St(s, n, p, a, k) == [settings |-> s, npm |-> n, api |-> p, at |-> a, secret |-> k]
EmitEdge == PrintT("EDGE " \o ToJson([ s |-> St(settings, npm, api, at, secret), a |-> act', t |-> St(settings', npm', api', at', secret') ]))
=============================================================================
