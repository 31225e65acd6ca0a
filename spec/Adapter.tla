------------------------------ MODULE Adapter ------------------------------
(***************************************************************************)
(* The contract between an adapter (XState, Redux, MobX) and its listeners *)
(* (C13), what stopping means (C14) and that the factory hands out a       *)
(* working adapter again afterwards.                                       *)
(*                                                                         *)
(* src      the state of the source                                        *)
(* gen      generation of the adapter in use (the factory opens a new one   *)
(*          after a stop); frozen[g] the state generation g was stopped in  *)
(* subs     listeners subscribed to the current generation                  *)
(* stale    listeners that hold a finished subscription as well             *)
(* over     the source has come to its end: its state is the last one       *)
(*                                                                         *)
(* act.got[l] is the set of delivery sequences allowed for l in the step.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ls,       \* listeners
          NV,       \* states are 0 .. NV-1
          GENS,     \* how many adapters are opened one after the other
          OWNED,    \* the source belongs to the adapter and ends with it
          FRESH,    \* every adapter has a source of its own
          FINAL,    \* the source can come to an end by itself (a machine's final state)
          NEST      \* listeners change the source
Vals == 0 .. NV - 1
Gens == 1 .. GENS
None == -1

VARIABLES src, gen, stopped, frozen, subs, stale, over, act
vars == <<src, gen, stopped, frozen, subs, stale, over>>

Nothing == [l \in Ls |-> {<<>>}]
Obs(name, args, got, effect) == [name |-> name, args |-> args, got |-> got, effect |-> effect]

Init ==
  /\ src = 0 /\ gen = 1 /\ stopped = FALSE /\ frozen = [g \in Gens |-> None]
  /\ subs = {} /\ stale = {} /\ over = FALSE /\ act = Obs("Init", <<>>, Nothing, "none")

\* every subscribed listener, except those in ex, gets exactly s
All(ss, s, ex) == [l \in Ls |-> IF l \in ss \ ex THEN {s} ELSE {<<>>}]

Subscribe(l) ==
  /\ ~stopped /\ l \notin subs
  /\ subs' = subs \cup {l}
  /\ act' = Obs("Subscribe", <<l>>, All({l}, <<src>>, {}), "none")
  /\ UNCHANGED <<src, gen, stopped, frozen, stale, over>>
\* a stopped adapter takes no subscriptions (and says so)
SubscribeStopped(l) ==
  /\ stopped
  /\ act' = Obs("SubscribeStopped", <<l>>, Nothing, "refused")
  /\ UNCHANGED vars
Unsub(l) ==
  /\ ~stopped /\ l \in subs
  /\ subs' = subs \ {l} /\ stale' = stale \cup {l}
  /\ act' = Obs("Unsub", <<l>>, Nothing, "none")
  /\ UNCHANGED <<src, gen, stopped, frozen, over>>
\* unsubscribing a finished subscription again concerns nobody
UnsubAgain(l) ==
  /\ l \in stale
  /\ act' = Obs("UnsubAgain", <<l>>, Nothing, "none")
  /\ UNCHANGED vars

CanMove == ~(OWNED /\ stopped) /\ ~over
\* the application changes the source
Change(v) ==
  /\ CanMove /\ v # src
  /\ src' = v
  /\ act' = Obs("Change", <<v>>, IF stopped THEN Nothing ELSE All(subs, <<v>>, {}), "none")
  /\ UNCHANGED <<gen, stopped, frozen, subs, stale, over>>
Send(v) ==
  /\ v # src
  /\ IF stopped
     THEN /\ act' = Obs("SendStopped", <<v>>, Nothing, "warn") /\ UNCHANGED vars
     ELSE IF over
     THEN /\ act' = Obs("SendOver", <<v>>, Nothing, "none") /\ UNCHANGED vars
     ELSE /\ src' = v
          /\ act' = Obs("Send", <<v>>, All(subs, <<v>>, {}), "none")
          /\ UNCHANGED <<gen, stopped, frozen, subs, stale, over>>
\* the source changes for the last time
Finish(v) ==
  /\ FINAL /\ CanMove /\ v # src
  /\ src' = v /\ over' = TRUE
  /\ act' = Obs("Finish", <<v>>, IF stopped THEN Nothing ELSE All(subs, <<v>>, {}), "none")
  /\ UNCHANGED <<gen, stopped, frozen, subs, stale>>
\* two changes at once: a source may report the pair as one
Both(v, w) ==
  /\ NEST /\ CanMove /\ v # src /\ w # v
  /\ src' = w
  /\ act' = Obs("Both", <<v, w>>, IF stopped THEN Nothing
               ELSE [l \in Ls |-> IF l \in subs THEN {<<w>>, <<v, w>>} ELSE {<<>>}], "none")
  /\ UNCHANGED <<gen, stopped, frozen, subs, stale, over>>
\* an event that changes nothing: told at most once
Idle ==
  /\ ~stopped /\ ~over
  /\ act' = Obs("Idle", <<>>, [l \in Ls |-> IF l \in subs THEN {<<>>, <<src>>} ELSE {<<>>}], "none")
  /\ UNCHANGED vars
Stop ==
  /\ ~stopped
  /\ stopped' = TRUE /\ frozen' = [frozen EXCEPT ![gen] = src] /\ stale' = stale \cup subs /\ subs' = {}
  /\ act' = Obs("Stop", <<>>, Nothing, "stop")
  /\ UNCHANGED <<src, gen, over>>
StopAgain ==
  /\ stopped
  /\ act' = Obs("StopAgain", <<>>, Nothing, "none") /\ UNCHANGED vars
\* stopping a former adapter once more concerns nobody
StopOld ==
  /\ gen > 1
  /\ act' = Obs("StopOld", <<>>, Nothing, "none") /\ UNCHANGED vars
\* asked while its adapter works, the factory of a shared source gives that one
Ask ==
  /\ ~stopped /\ ~FRESH
  /\ act' = Obs("Ask", <<>>, Nothing, "same") /\ UNCHANGED vars
\* the factory is asked after a stop
Reopen ==
  /\ stopped /\ gen < GENS
  /\ gen' = gen + 1 /\ stopped' = FALSE
  /\ src' = IF FRESH THEN 0 ELSE src
  /\ over' = IF FRESH THEN FALSE ELSE over
  /\ act' = Obs("Reopen", <<>>, Nothing, "none")
  /\ UNCHANGED <<frozen, subs, stale>>

\* --- from inside a delivery ------------------------------------------------
\* somebody who may have been told already when it happened
Maybe(ss, v, ex) == [l \in Ls |-> IF l \in ss \ ex THEN {<<>>, <<v>>} ELSE {<<>>}]

\* l, when told about v, unsubscribes m (possibly itself)
ChangeUnsub(l, m, v) ==
  /\ ~stopped /\ ~over /\ l \in subs /\ m \in subs /\ v # src
  /\ src' = v /\ subs' = subs \ {m} /\ stale' = stale \cup {m}
  /\ act' = Obs("ChangeUnsub", <<l, m, v>>,
       [x \in Ls |-> IF x = l THEN {<<v>>} ELSE IF x = m THEN {<<>>, <<v>>} ELSE IF x \in subs THEN {<<v>>} ELSE {<<>>}], "none")
  /\ UNCHANGED <<gen, stopped, frozen, over>>
\* l, when told about v, subscribes m
ChangeSubscribe(l, m, v) ==
  /\ ~stopped /\ ~over /\ l \in subs /\ m \notin subs /\ v # src
  /\ src' = v /\ subs' = subs \cup {m}
  /\ act' = Obs("ChangeSubscribe", <<l, m, v>>, All(subs \cup {m}, <<v>>, {}), "none")
  /\ UNCHANGED <<gen, stopped, frozen, stale, over>>
\* l, when told about v, stops the adapter
ChangeStop(l, v) ==
  /\ ~stopped /\ ~over /\ l \in subs /\ v # src
  /\ src' = v /\ subs' = {} /\ stale' = stale \cup subs /\ stopped' = TRUE /\ frozen' = [frozen EXCEPT ![gen] = v]
  /\ act' = Obs("ChangeStop", <<l, v>>, [Maybe(subs, v, {}) EXCEPT ![l] = {<<v>>}], "stop")
  /\ UNCHANGED <<gen, over>>
\* l, when told about v, changes the source to w: everybody is told of w last
ChangeChange(l, v, w) ==
  /\ NEST /\ ~stopped /\ ~over /\ l \in subs /\ v # src /\ w # v
  /\ src' = w
  /\ act' = Obs("ChangeChange", <<l, v, w>>,
       [x \in Ls |-> IF x = l THEN {<<v, w>>} ELSE IF x \in subs THEN {<<v, w>>, <<w>>, <<w, w>>} ELSE {<<>>}], "none")
  /\ UNCHANGED <<gen, stopped, frozen, subs, stale, over>>
\* l, when first told, changes the source
SubscribeChange(l, v) ==
  /\ NEST /\ ~stopped /\ ~over /\ l \notin subs /\ v # src
  /\ src' = v /\ subs' = subs \cup {l}
  /\ act' = Obs("SubscribeChange", <<l, v>>, [All(subs, <<v>>, {}) EXCEPT ![l] = {<<src, v>>}], "none")
  /\ UNCHANGED <<gen, stopped, frozen, stale, over>>
\* l, when first told, subscribes m / stops the adapter
SubscribeSubscribe(l, m) ==
  /\ ~stopped /\ l # m /\ l \notin subs /\ m \notin subs
  /\ subs' = subs \cup {l, m}
  /\ act' = Obs("SubscribeSubscribe", <<l, m>>, All({l, m}, <<src>>, {}), "none")
  /\ UNCHANGED <<src, gen, stopped, frozen, stale, over>>
SubscribeUnsub(l, m) ==
  /\ ~stopped /\ l \notin subs /\ m \in subs
  /\ subs' = (subs \cup {l}) \ {m} /\ stale' = stale \cup {m}
  /\ act' = Obs("SubscribeUnsub", <<l, m>>, All({l}, <<src>>, {}), "none")
  /\ UNCHANGED <<src, gen, stopped, frozen, over>>
SubscribeStop(l) ==
  /\ ~stopped /\ l \notin subs
  /\ stopped' = TRUE /\ frozen' = [frozen EXCEPT ![gen] = src] /\ stale' = stale \cup subs \cup {l} /\ subs' = {}
  /\ act' = Obs("SubscribeStop", <<l>>, All({l}, <<src>>, {}), "stop")
  /\ UNCHANGED <<src, gen, over>>

Next ==
  \/ \E l \in Ls : Subscribe(l) \/ SubscribeStopped(l) \/ Unsub(l) \/ UnsubAgain(l) \/ SubscribeStop(l)
  \/ \E v \in Vals : Change(v) \/ Send(v) \/ Finish(v)
  \/ \E v, w \in Vals : Both(v, w) \/ \E l \in Ls : ChangeChange(l, v, w)
  \/ \E l \in Ls, v \in Vals : SubscribeChange(l, v)
  \/ Idle \/ Stop \/ StopAgain \/ StopOld \/ Ask \/ Reopen
  \/ \E l, m \in Ls : SubscribeSubscribe(l, m) \/ SubscribeUnsub(l, m)
  \/ \E l, m \in Ls, v \in Vals : ChangeUnsub(l, m, v) \/ ChangeSubscribe(l, m, v)
  \/ \E l \in Ls, v \in Vals : ChangeStop(l, v)

Spec == Init /\ [][Next]_<<vars, act>>

----------------------------------------------------------------------------
TypeOK == src \in Vals /\ gen \in Gens /\ subs \subseteq Ls /\ stale \subseteq Ls
\* C14
StoppedSilent == stopped => subs = {}
FrozenStays == [][ \A g \in Gens : frozen[g] # None => frozen'[g] = frozen[g] ]_vars
\* C13: whoever stays subscribed is told of every change exactly once, and last of the current state
Told ==
  [][ src' # src /\ ~stopped /\ act'.name \notin {"Both", "ChangeChange"} => \A l \in subs \cap subs' : act'.got[l] = {<<src'>>} ]_<<vars, act>>
ToldLast ==
  [][ src' # src /\ ~stopped => \A l \in subs \cap subs' : \A d \in act'.got[l] : d # <<>> /\ d[Len(d)] = src' ]_<<vars, act>>
UnsubscribedSilent ==
  [][ \A l \in Ls : l \notin subs /\ l \notin subs' /\ act'.name # "SubscribeStop" => act'.got[l] = {<<>>} ]_<<vars, act>>

View == vars
Abs == [src |-> src, gen |-> gen, stopped |-> stopped, frozen |-> frozen, subs |-> subs, stale |-> stale, over |-> over]
Emit ==
  PrintT("EDGE " \o ToJson([ s |-> Abs, a |-> act', t |-> Abs' ]))
=============================================================================
