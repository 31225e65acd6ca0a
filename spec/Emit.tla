-------------------------------- MODULE Emit --------------------------------
(***************************************************************************)
(* What emit(type, detail) does (C12): one event, on the element whose     *)
(* command called it, seen by exactly the nodes of the composed path.      *)
(*                                                                         *)
(* parent   where a node hangs: the elements of two components, a plain    *)
(*          div, and a plain host with a shadow root ("shadow").           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Els,        \* component elements
          Second,     \* those of the second component
          Decl1, Decl2, \* event types the components declare
          Types,
          DEV         \* development mode
Nodes == Els \cup {"div", "host", "shadow", "body", "document"}
Movable == Els \cup {"div", "host"}
None == "none"

VARIABLES parent, act
Obs(name, args, seen, effect) == [name |-> name, args |-> args, seen |-> seen, effect |-> effect]

Init ==
  /\ parent = [n \in Nodes |-> CASE n = "body" -> "document" [] n = "shadow" -> "host" [] OTHER -> None]
  /\ act = Obs("Init", <<>>, <<>>, "none")

\* a shadow root's parent is its host: the events are composed
RECURSIVE Path(_, _)
Path(p, n) == IF n = None THEN <<>> ELSE <<n>> \o Path(p, p[n])
PathSet(p, n) == LET s == Path(p, n) IN { s[k] : k \in DOMAIN s }

Places(n) == CASE n \in Els -> (Els \cup {"div", "shadow", "body"}) \ {n}
               [] n = "div" -> {"body", "shadow"}
               [] n = "host" -> {"body", "div"}
Place(n, p) ==
  /\ n \in Movable /\ p \in Places(n) /\ parent[n] # p /\ n \notin PathSet(parent, p)
  /\ parent' = [parent EXCEPT ![n] = p]
  /\ act' = Obs("Place", <<n, p>>, <<>>, "none")
Remove(n) ==
  /\ n \in Movable /\ parent[n] # None
  /\ parent' = [parent EXCEPT ![n] = None]
  /\ act' = Obs("Remove", <<n>>, <<>>, "none")

Decl(e) == IF e \in Second THEN Decl2 ELSE Decl1
Refused(e, t) == DEV /\ t \notin Decl(e)
Emit1(e, t) ==
  /\ act' = (IF Refused(e, t) THEN Obs("Emit", <<e, t>>, <<>>, "throws")
                              ELSE Obs("Emit", <<e, t>>, Path(parent, e), "none"))
  /\ UNCHANGED parent
\* a listener of e's event emits u from f
EmitEmit(e, t, f, u) ==
  /\ e # f /\ ~Refused(e, t) /\ ~Refused(f, u) /\ t # u
  /\ act' = [Obs("EmitEmit", <<e, t, f, u>>, Path(parent, e), "none") EXCEPT !.effect = "nested"]
  /\ UNCHANGED parent
\* a listener removes the element while its event is delivered: the path is not affected
EmitRemove(e, t) ==
  /\ ~Refused(e, t) /\ parent[e] # None
  /\ act' = Obs("EmitRemove", <<e, t>>, Path(parent, e), "none")
  /\ parent' = [parent EXCEPT ![e] = None]

Next ==
  \/ \E n \in Movable : Remove(n) \/ \E p \in Nodes : Place(n, p)
  \/ \E e \in Els, t \in Types : Emit1(e, t) \/ EmitRemove(e, t)
  \/ \E e, f \in Els, t, u \in Types : EmitEmit(e, t, f, u)
Spec == Init /\ [][Next]_<<parent, act>>
----------------------------------------------------------------------------
Acyclic == \A n \in Nodes : Cardinality(PathSet(parent, n)) = Len(Path(parent, n))
\* every node sees an event at most once, the element first, and nobody outside its ancestors
SeenOnce == [][ \A k, j \in DOMAIN act'.seen : k # j => act'.seen[k] # act'.seen[j] ]_<<parent, act>>
OnTheElement == [][ act'.name = "Emit" /\ act'.seen # <<>> => act'.seen[1] = act'.args[1] ]_<<parent, act>>
DeclaredOnly == [][ DEV /\ act'.name = "Emit" /\ act'.args[2] \notin Decl(act'.args[1]) => act'.seen = <<>> /\ act'.effect = "throws" ]_<<parent, act>>
NeverRefusedInProduction == [][ ~DEV => act'.effect # "throws" ]_<<parent, act>>

View == parent
EmitEdge == PrintT("EDGE " \o ToJson([ s |-> [parent |-> parent], a |-> [act' EXCEPT !.seen = IF act'.name = "EmitEmit" THEN <<act'.seen, Path(parent, act'.args[3])>> ELSE <<act'.seen>>], t |-> [parent |-> parent'] ]))
=============================================================================
