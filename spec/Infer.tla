-------------------------------- MODULE Infer --------------------------------
(***************************************************************************)
(* What igniteCore makes of a source (C27): which library a source is      *)
(* bound to, the scope of the state, how often a user factory runs, and    *)
(* what is refused.                                                        *)
(*                                                                         *)
(* bind    the call: entry point, source, adapter name given, outcome      *)
(* made    elements created so far;  val  the counter each of them shows   *)
(* own     the counter held by a live instance handed over by the user     *)
(* runs    <<least, most>> number of times the user's factory has run      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Els, MaxVal

\* every kind of source the documentation lists, and what it stands for
Machines  == {"machine", "setupMachine", "machineWithState"}
Actors    == {"actor", "startedActor", "actorWithInput"}
Stores    == {"store", "legacyStore", "classStore", "storeWithExtras"}
Slices    == {"slice", "sliceWithPrepare", "sliceWithoutActions"}
StoreFacs == {"storeFactory", "boundStoreFactory", "functionStoreFactory"}
Observ    == {"observable", "classObservable", "makeObservable", "observableLikeStore", "observableLikeActor", "observableLikeMachine", "observableLikeSlice"}
ObsFacs   == {"observableFactory", "classObservableFactory"}
Good == Machines \cup Actors \cup Stores \cup Slices \cup StoreFacs \cup Observ \cup ObsFacs
Static == "nothing"          \* igniteCore() without options
\* nothing igniteCore can bind: values, objects with only some of the methods, functions that return such things
Junk == {"primitive", "null", "undefined", "noSource", "plainObject", "array", "builtin", "promise", "partialStore",
         "partialActor", "partialMachine", "partialSlice", "domNode",
         "factoryOfJunk", "factoryOfPromise", "throwingFactory", "factoryOfMachine", "factoryOfActor", "factoryOfSlice",
         "factoryOfPartialStore", "class"}
Kinds == Good \cup Junk \cup {Static}

Lib(k) == CASE k \in Machines \cup Actors -> "xstate"
            [] k \in Stores \cup Slices \cup StoreFacs -> "redux"
            [] k \in Observ \cup ObsFacs -> "mobx"
            [] OTHER -> "none"
Scope(k) == IF k \in Actors \cup Stores \cup Observ \cup {Static} THEN "shared" ELSE "isolated"
IsFactory(k) == k \in StoreFacs \cup ObsFacs
JunkFacs == {"factoryOfJunk", "factoryOfPromise", "throwingFactory", "factoryOfMachine", "factoryOfActor", "factoryOfSlice", "factoryOfPartialStore"}
Live(k) == k \in Actors \cup Stores \cup Observ

\* the unified entry without a name, with the right name, with a name nobody has; the library's own entry
Ways == {"inferred", "named", "unknownName", "own"}
Possible(k, w) ==
  CASE w = "inferred" -> TRUE
    [] w = "named" -> k \in Good
    [] w = "unknownName" -> k \in Good
    [] w = "own" -> k \in Good
Accepts(k, w) == k = Static \/ (k \in Good /\ w # "unknownName")

VARIABLES bind, made, val, own, runs, act
vars == <<bind, made, val, own, runs, act>>
Obs(name, args, outcome) == [name |-> name, args |-> args, outcome |-> outcome]
Unbound == [kind |-> "none", way |-> "none", lib |-> "none", scope |-> "none", ok |-> FALSE]

Init ==
  /\ bind = Unbound /\ made = {} /\ val = [e \in Els |-> 0] /\ own = 0 /\ runs = <<0, 0>>
  /\ act = Obs("Init", <<>>, "none")

Bind(k, w) ==
  /\ bind = Unbound /\ Possible(k, w)
  /\ bind' = [kind |-> k, way |-> w, lib |-> Lib(k), scope |-> Scope(k), ok |-> Accepts(k, w)]
  /\ runs' = (IF (IsFactory(k) \/ k \in JunkFacs) /\ w = "inferred" THEN <<0, 1>> ELSE <<0, 0>>)
  /\ act' = Obs("Bind", <<k, w>>, IF Accepts(k, w) THEN "ok" ELSE "throws")
  /\ UNCHANGED <<made, val, own>>

Create(e) ==
  /\ bind.ok /\ e \notin made
  /\ made' = made \cup {e}
  /\ val' = [val EXCEPT ![e] = IF Live(bind.kind) THEN own ELSE 0]
  /\ runs' = (IF IsFactory(bind.kind) THEN <<runs[1] + 1, runs[2] + 1>> ELSE runs)
  /\ act' = Obs("Create", <<e>>, "ok")
  /\ UNCHANGED <<bind, own>>

\* a change made by element e: its send, or a command of its facade, as the bound library knows them
Change(e, via) ==
  /\ bind.ok /\ e \in made /\ bind.kind # Static
  /\ val[e] < MaxVal
  /\ val' = [x \in Els |-> IF x \in made /\ (x = e \/ bind.scope = "shared") THEN val[x] + 1 ELSE val[x]]
  /\ own' = (IF bind.scope = "shared" THEN own + 1 ELSE own)
  /\ act' = Obs("Change", <<e, via>>, "ok")
  /\ UNCHANGED <<bind, made, runs>>
\* the static component ignores everything
ChangeStatic(e) ==
  /\ bind.kind = Static /\ e \in made
  /\ act' = Obs("Change", <<e, "send">>, "ok")
  /\ UNCHANGED <<bind, made, val, own, runs>>
\* the user changes the live instance she handed over
Outside ==
  /\ bind.ok /\ Live(bind.kind) /\ own < MaxVal
  /\ own' = own + 1
  /\ val' = [x \in Els |-> IF x \in made THEN val[x] + 1 ELSE val[x]]
  /\ act' = Obs("Outside", <<>>, "ok")
  /\ UNCHANGED <<bind, made, runs>>

Next ==
  \/ \E k \in Kinds, w \in Ways : Bind(k, w)
  \/ \E e \in Els : Create(e) \/ ChangeStatic(e) \/ \E via \in {"send", "command"} : Change(e, via)
  \/ Outside
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
TypeOK == bind.ok => bind.lib \in {"xstate", "redux", "mobx", "none"} /\ bind.scope \in {"shared", "isolated"}
OnlyGood == bind.ok => bind.kind \in Good \cup {Static}
RefusedIsInert == ~bind.ok => made = {} /\ own = 0
SharedAgree == bind.ok /\ Live(bind.kind) => \A e \in made : val[e] = own
\* a factory runs for the elements, and once more at most, to look at what it makes
RunsBounded == runs[1] <= runs[2] /\ runs[2] <= Cardinality(made) + 1 /\ (bind.ok /\ IsFactory(bind.kind) => runs[1] = Cardinality(made))
IsolatedStay == [][ bind.scope = "isolated" /\ act'.name = "Change" => \A e \in Els \ {act'.args[1]} : val'[e] = val[e] ]_vars

View == <<bind, made, val, own, runs>>
St(b, m, v, o, r) == [bind |-> b, made |-> m, val |-> v, own |-> o, runs |-> r]
EmitEdge == PrintT("EDGE " \o ToJson([ s |-> St(bind, made, val, own, runs), a |-> act', t |-> St(bind', made', val', own', runs') ]))
=============================================================================
