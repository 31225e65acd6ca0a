---------------------------- MODULE Registration ----------------------------
(***************************************************************************)
(* Registering components (C28): renderer shapes, taken names, unusable    *)
(* renderers and facades, elements that were in the page before their      *)
(* component was registered.                                               *)
(*                                                                         *)
(* reg     what a tag name stands for: nothing, somebody else's element,   *)
(*         or a component: factory, renderer shape                         *)
(* el      the elements: none, early (its name is not registered yet),     *)
(*         live, failed (its creation was reported as an error), plain     *)
(* n       the counter: per factory (shared) or per element (isolated)     *)
(* inst    instances made of a class renderer, per tag                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Els, Tags, Facs,
          SCOPE,      \* "shared" | "isolated"
          FACADE,     \* "good" | "bad": what the states or commands callbacks return
          MaxVal, MaxMade
Usable == {"function", "object", "class"}
Shapes == Usable \cup {"invalid"}
Free == [k |-> "free", f |-> "none", r |-> "none"]
Foreign == [k |-> "foreign", f |-> "none", r |-> "none"]
Comp(f, r) == [k |-> "comp", f |-> f, r |-> r]
NoEl == [t |-> "none", st |-> "no"]

VARIABLES reg, el, nf, ne, inst, made, act
vars == <<reg, el, nf, ne, inst, made, act>>
Obs(name, args, outcome) == [name |-> name, args |-> args, outcome |-> outcome]

Init ==
  /\ reg = [t \in Tags |-> Free] /\ el = [e \in Els |-> NoEl]
  /\ nf = [f \in Facs |-> 0] /\ ne = [e \in Els |-> 0]
  /\ inst = [t \in Tags |-> 0] /\ made = 0
  /\ act = Obs("Init", <<>>, "none")

Works(c) == FACADE = "good" /\ c.r \in Usable      \* its elements can be created
Born(c) == IF Works(c) THEN "live" ELSE "failed"

\* what registering renderer r of factory f under the name t does
Refused(t, r) == reg[t] # Free \/ (SCOPE = "shared" /\ r = "invalid")
Register(f, t, r) ==
  /\ IF Refused(t, r)
     THEN /\ act' = Obs("Register", <<f, t, r>>, "throws")
          /\ UNCHANGED <<reg, el, nf, ne, inst, made>>
     ELSE LET c == Comp(f, r)
              early == { e \in Els : el[e].t = t /\ el[e].st = "early" } IN
          /\ made + Cardinality(early) <= MaxMade
          /\ reg' = [reg EXCEPT ![t] = c]
          /\ el' = [e \in Els |-> IF e \in early THEN [el[e] EXCEPT !.st = Born(c)] ELSE el[e]]
          /\ ne' = [e \in Els |-> IF e \in early THEN 0 ELSE ne[e]]
          /\ made' = made + Cardinality(early)
          /\ inst' = [inst EXCEPT ![t] = IF r # "class" THEN 0 ELSE IF SCOPE = "shared" THEN 1 ELSE IF Works(c) THEN Cardinality(early) ELSE 0]
          /\ act' = Obs("Register", <<f, t, r>>, IF early # {} /\ ~Works(c) THEN "reported" ELSE "ok")
          /\ UNCHANGED nf
\* a name the platform does not allow
RegisterBadName(f, r) ==
  /\ act' = Obs("RegisterBadName", <<f, r>>, "throws")
  /\ UNCHANGED <<reg, el, nf, ne, inst, made>>
\* somebody else defines an element of that name
Define(t) ==
  /\ reg[t] = Free
  /\ reg' = [reg EXCEPT ![t] = Foreign]
  /\ el' = [e \in Els |-> IF el[e].t = t /\ el[e].st = "early" THEN [el[e] EXCEPT !.st = "plain"] ELSE el[e]]
  /\ act' = Obs("Define", <<t>>, "ok")
  /\ UNCHANGED <<nf, ne, inst, made>>

Create(e, t) ==
  /\ el[e] = NoEl
  /\ LET c == reg[t]
         st == CASE c = Free -> "early" [] c = Foreign -> "plain" [] OTHER -> Born(c) IN
     /\ (c.k = "comp" => made < MaxMade)
     /\ el' = [el EXCEPT ![e] = [t |-> t, st |-> st]]
     /\ ne' = [ne EXCEPT ![e] = 0]
     /\ made' = (IF c.k = "comp" THEN made + 1 ELSE made)
     /\ inst' = (IF SCOPE = "isolated" /\ c.k = "comp" /\ c.r = "class" /\ st = "live" THEN [inst EXCEPT ![t] = @ + 1] ELSE inst)
     /\ act' = Obs("Create", <<e, t>>, IF st = "failed" THEN "reported" ELSE "ok")
  /\ UNCHANGED <<reg, nf>>
Drop(e) ==
  /\ el[e] # NoEl
  /\ el' = [el EXCEPT ![e] = NoEl] /\ ne' = [ne EXCEPT ![e] = 0]
  /\ act' = Obs("Drop", <<e>>, "ok")
  /\ UNCHANGED <<reg, nf, inst, made>>
Change(e) ==
  /\ el[e].st = "live"
  /\ LET f == reg[el[e].t].f IN
     IF SCOPE = "shared"
     THEN nf[f] < MaxVal /\ nf' = [nf EXCEPT ![f] = @ + 1] /\ ne' = ne
     ELSE ne[e] < MaxVal /\ ne' = [ne EXCEPT ![e] = @ + 1] /\ nf' = nf
  /\ act' = Obs("Change", <<e>>, "ok")
  /\ UNCHANGED <<reg, el, inst, made>>

Next ==
  \/ \E f \in Facs, r \in Shapes : RegisterBadName(f, r) \/ \E t \in Tags : Register(f, t, r)
  \/ \E t \in Tags : Define(t)
  \/ \E e \in Els : Drop(e) \/ Change(e) \/ \E t \in Tags : Create(e, t)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* a name, once given, keeps its meaning
NameIsForever == [][ \A t \in Tags : reg[t] # Free => reg'[t] = reg[t] ]_vars
\* a refused registration changes nothing that anybody shows
RefusalIsInert == [][ act'.outcome = "throws" => UNCHANGED <<reg, el, nf, ne, inst>> ]_vars
OnlyWorkingLive == \A e \in Els : el[e].st = "live" => reg[el[e].t].k = "comp" /\ Works(reg[el[e].t])
OncePerShared == SCOPE = "shared" => \A t \in Tags : inst[t] <= 1
SharedNeverInvalid == SCOPE = "shared" => \A t \in Tags : reg[t].r # "invalid"

View == <<reg, el, nf, ne, inst, made>>
St(r, l, f, n, i, m) == [reg |-> r, el |-> l, nf |-> f, ne |-> n, inst |-> i, made |-> m]
EmitEdge == PrintT("EDGE " \o ToJson([ s |-> St(reg, el, nf, ne, inst, made), a |-> act', t |-> St(reg', el', nf', ne', inst', made') ]))
=============================================================================
