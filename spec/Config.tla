------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Configuration, global styles and the choice of the renderer             *)
(* (C20 .. C23).                                                            *)
(*                                                                         *)
(* cfg    the normalised configuration in force (or None)                   *)
(* gs     the global styles in force: "none", a usable reference or "bad"   *)
(* reg    renderers registered, in order of their first registration, with  *)
(*        the number of the registration in force                           *)
(* loads  loadIgniteConfig calls: idle, pending or done                     *)
(* els    component roots: "no" (not created), "wait" (created while no     *)
(*        styles were known), "bad" (met an unusable reference) or the      *)
(*        styles it was given                                               *)
(* fac    element factories: None or the renderer they use                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, Els, Loads, Facs, MaxVer, SERVER
Absent == "absent"
NoCfg == [styles |-> "nocfg", renderer |-> "nocfg", strategy |-> "nocfg", logging |-> "nocfg"]
NoRen == [name |-> "none", ver |-> 0]
Good == {"s1", "s2"}

Record(st, old, ren, str, lg) == [styles : st, old : old, renderer : ren, strategy : str, logging : lg]
\* {styles: undefined, globalStyles: x} and {renderer: undefined} are left open
Inputs ==
  CASE Mode = "define" ->
         { i \in Record({Absent, "undef", "s1", "bad", "empty"}, {Absent, "undef", "s2"},
                        {Absent, "lit", "ignite-jsx", "other"}, {Absent, "replace"}, {Absent, "warn"})
           : i.styles = "undef" => i.old = Absent }
    [] Mode = "load" -> Record({Absent}, {Absent}, {Absent, "other"}, {Absent}, {Absent})
                        \cup Record({"s1"}, {Absent}, {"lit"}, {Absent}, {Absent})
                        \cup Record({Absent}, {"s2"}, {"ignite-jsx"}, {"replace"}, {Absent})
    [] Mode = "styles" -> Record({Absent, "s1", "s2", "bad", "empty"}, {Absent}, {Absent}, {Absent}, {Absent})
    [] Mode = "factory" -> Record({Absent}, {Absent}, {Absent, "lit", "ignite-jsx", "other"}, {Absent}, {Absent})

Norm(i) ==
  [ styles |-> IF i.styles # Absent THEN (IF i.styles = "undef" THEN Absent ELSE i.styles)
               ELSE IF i.old \in {Absent, "undef"} THEN Absent ELSE i.old,
    renderer |-> IF i.renderer \in {Absent, "lit", "ignite-jsx"} THEN i.renderer ELSE "lit",
    strategy |-> i.strategy, logging |-> i.logging ]
Warnings(i) ==
  (IF i.renderer = "other" THEN 1 ELSE 0)
  + (IF i.styles = Absent /\ i.old \notin {Absent, "undef"} THEN 1 ELSE 0)
\* how a value of the styles option counts for roots
Effective(s) == IF s = "empty" THEN "none" ELSE s
StylesAfter(i, cur) == IF Norm(i).styles = Absent THEN cur ELSE Effective(Norm(i).styles)

VARIABLES cfg, gs, reg, loads, els, fac, act
vars == <<cfg, gs, reg, loads, els, fac>>

Obs(name, args, warn, result) == [name |-> name, args |-> args, warn |-> warn, result |-> result]
JsxOnly == << [name |-> "ignite-jsx", ver |-> 0] >>

Init ==
  /\ cfg = NoCfg /\ gs = "none"
  /\ reg = (IF Mode = "factory" THEN <<>> ELSE JsxOnly)
  /\ loads = [l \in Loads |-> "idle"]
  /\ els = [e \in Els |-> "no"]
  /\ fac = [f \in Facs |-> NoRen]
  /\ act = Obs("Init", <<>>, 0, "none")

Names(r) == { r[k].name : k \in DOMAIN r }
Put(r, name, ver) ==
  IF name \in Names(r)
  THEN [ k \in DOMAIN r |-> IF r[k].name = name THEN [name |-> name, ver |-> ver] ELSE r[k] ]
  ELSE Append(r, [name |-> name, ver |-> ver])
Get(r, name) == LET k == CHOOSE k \in DOMAIN r : r[k].name = name IN r[k]

\* ------------------------------------------------------------ configuration
Define(i) ==
  /\ cfg' = Norm(i) /\ gs' = StylesAfter(i, gs)
  /\ act' = Obs("Define", <<i>>, Warnings(i), "config")
  /\ UNCHANGED <<reg, loads, els, fac>>
SetStyles(s) ==
  /\ gs' = Effective(s) /\ s # gs
  /\ act' = Obs("SetStyles", <<s>>, 0, "none")
  /\ UNCHANGED <<cfg, reg, loads, els, fac>>
SetArray ==
  /\ act' = Obs("SetArray", <<>>, 0, "throws") /\ UNCHANGED vars

\* ------------------------------------------------------------------ loading
LoadStart(l) ==
  /\ loads[l] = "idle"
  /\ loads' = [loads EXCEPT ![l] = "pending"]
  /\ act' = Obs("LoadStart", <<l>>, 0, "none")
  /\ UNCHANGED <<cfg, gs, reg, els, fac>>
\* roots that are waiting get the styles now known
Flushed(s) == [ e \in Els |-> IF els[e] = "wait" /\ s # "none" THEN s ELSE els[e] ]
BadFlushed(s) == IF s = "bad" THEN Cardinality({ e \in Els : els[e] = "wait" }) ELSE 0
LoadConfig(l, how, i) ==
  /\ loads[l] = "pending"
  /\ loads' = [loads EXCEPT ![l] = "done"]
  /\ cfg' = Norm(i) /\ gs' = StylesAfter(i, gs)
  /\ els' = IF SERVER THEN els ELSE Flushed(gs')
  /\ LET r == IF Norm(i).renderer = Absent THEN "ignite-jsx" ELSE Norm(i).renderer IN
     reg' = IF SERVER \/ r \in Names(reg) THEN reg ELSE Append(reg, [name |-> r, ver |-> 0])
  /\ act' = Obs("LoadConfig", <<l, how, i>>, Warnings(i) + (IF SERVER THEN 0 ELSE BadFlushed(gs')), "config")
  /\ UNCHANGED fac
\* the loader yields nothing that is a configuration, or fails
LoadNothing(l, how) ==
  /\ loads[l] = "pending"
  /\ loads' = [loads EXCEPT ![l] = "done"]
  /\ act' = Obs("LoadNothing", <<l, how>>, 0, IF how \in {"reject", "throw"} THEN "error" ELSE "undefined")
  /\ UNCHANGED <<cfg, gs, reg, els, fac>>

\* ----------------------------------------------------------- component roots
Create(e) ==
  /\ els[e] = "no"
  /\ els' = [els EXCEPT ![e] = IF gs = "none" THEN "wait" ELSE gs]
  /\ act' = Obs("Create", <<e>>, IF gs = "bad" THEN 1 ELSE 0, "none")
  /\ UNCHANGED <<cfg, gs, reg, loads, fac>>
\* a renderer attached once more gives the root styles only if it is still waiting for them
Attach(e) ==
  /\ els[e] # "no"
  /\ els' = [els EXCEPT ![e] = IF @ = "wait" /\ gs # "none" THEN gs ELSE @]
  /\ act' = Obs("Attach", <<e>>, IF els[e] = "wait" /\ gs = "bad" THEN 1 ELSE 0, "none")
  /\ UNCHANGED <<cfg, gs, reg, loads, fac>>
\* any number of renders, removals and insertions
Use(e, how) ==
  /\ els[e] # "no"
  /\ act' = Obs("Use", <<e, how>>, 0, "none") /\ UNCHANGED vars

\* ------------------------------------------------------------ the renderer
Register(name, ver) ==
  /\ (name \in Names(reg) => Get(reg, name).ver < ver)
  /\ reg' = Put(reg, name, ver)
  /\ act' = Obs("Register", <<name, ver>>, 0, "none")
  /\ UNCHANGED <<cfg, gs, loads, els, fac>>
Wanted == IF cfg.renderer \in {Absent, "nocfg"} THEN "ignite-jsx" ELSE cfg.renderer
Chosen ==
  IF Wanted \in Names(reg) THEN Get(reg, Wanted)
  ELSE IF "ignite-jsx" \in Names(reg) THEN Get(reg, "ignite-jsx")
  ELSE IF reg # <<>> THEN reg[1] ELSE NoRen
Missing == Wanted \notin Names(reg)
MakeFactory(f) ==
  /\ fac[f] = NoRen
  /\ fac' = [fac EXCEPT ![f] = Chosen]
  /\ act' = Obs("MakeFactory", <<f>>, IF Missing /\ Wanted # "ignite-jsx" /\ Chosen # NoRen THEN 1 ELSE 0,
                IF Chosen = NoRen THEN "throws" ELSE "none")
  /\ UNCHANGED <<cfg, gs, reg, loads, els>>
\* an explicitly supplied renderer wins (warnings are left open: -1)
MakeExplicit(f) ==
  /\ fac[f] = NoRen /\ reg # <<>>
  /\ fac' = [fac EXCEPT ![f] = [name |-> "explicit", ver |-> 0]]
  /\ act' = Obs("MakeExplicit", <<f>>, -1, "none")
  /\ UNCHANGED <<cfg, gs, reg, loads, els>>
UseFactory(f) ==
  /\ fac[f] # NoRen
  /\ act' = Obs("UseFactory", <<f>>, 0, "none") /\ UNCHANGED vars

Next ==
  \/ \E i \in Inputs : Define(i)
  \/ Mode \in {"define", "styles", "load"} /\ \E s \in (IF Mode = "load" THEN {"none", "s1"} ELSE {"none", "s1", "s2", "bad", "empty"}) : SetStyles(s)
  \/ Mode = "define" /\ SetArray
  \/ \E l \in Loads :
       \/ LoadStart(l)
       \/ \E i \in Inputs, how \in {"default", "plain"} : LoadConfig(l, how, i)
       \/ \E how \in {"nothing", "empty-default", "reject", "throw"} : LoadNothing(l, how)
  \/ \E e \in Els : Create(e) \/ Attach(e) \/ \E how \in {"render", "switch", "toggle"} : Use(e, how)
  \/ Mode = "factory" /\ \E n \in {"ignite-jsx", "lit", "custom"}, v \in 1 .. MaxVer : Register(n, v)
  \/ \E f \in Facs : MakeFactory(f) \/ MakeExplicit(f) \/ UseFactory(f)

Spec == Init /\ [][Next]_<<vars, act>>
----------------------------------------------------------------------------
\* C20: a root never changes its styles once it has them, and a waiting root is styled by the next load with styles
StyledOnce == [][ \A e \in Els : els[e] \notin {"no", "wait"} => els'[e] = els[e] ]_vars
NoneLeftWaiting ==
  [][ act'.name = "LoadConfig" /\ ~SERVER /\ gs' # "none" => \A e \in Els : els'[e] # "wait" ]_<<vars, act>>
\* C21: only a definition changes the configuration, and only one with styles (or SetStyles) the styles
OnlyDefined == [][ cfg' # cfg => act'.name \in {"Define", "LoadConfig"} /\ act'.result = "config" ]_<<vars, act>>
StylesOnlyByStyles == [][ gs' # gs => act'.name = "SetStyles" \/ cfg'.styles # Absent ]_<<vars, act>>
Normal == cfg.renderer \in {"nocfg", Absent, "lit", "ignite-jsx"} /\ cfg.styles # "undef"
\* C22
LoadApplies == [][ act'.name = "LoadConfig" => cfg' = Norm(act'.args[3]) /\ (SERVER \/ (IF cfg'.renderer = Absent THEN "ignite-jsx" ELSE cfg'.renderer) \in Names(reg')) ]_<<vars, act>>
LoadNothingChangesNothing == [][ act'.name = "LoadNothing" => UNCHANGED <<cfg, gs, reg, els, fac>> ]_<<vars, act>>
\* C23
FactoryKeeps == [][ \A f \in Facs : fac[f] # NoRen => fac'[f] = fac[f] ]_vars
Preferred == [][ act'.name = "MakeFactory" /\ Wanted \in Names(reg) => fac'[act'.args[1]].name = Wanted /\ act'.warn = 0 ]_<<vars, act>>
FallbackJsx == [][ act'.name = "MakeFactory" /\ Wanted \notin Names(reg) /\ "ignite-jsx" \in Names(reg) => fac'[act'.args[1]].name = "ignite-jsx" ]_<<vars, act>>

View == vars
Abs == [cfg |-> cfg, gs |-> gs, reg |-> reg, loads |-> loads, els |-> els, fac |-> fac]
Emit == PrintT("EDGE " \o ToJson([ s |-> Abs, a |-> act', t |-> Abs' ]))
=============================================================================
