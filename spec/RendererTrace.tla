--------------------------- MODULE RendererTrace ---------------------------
(***************************************************************************)
(* Is what the real renderer did a behaviour of the specification?         *)
(* TRACE_FILE holds recorded runs: [cfg, steps]; a step is                  *)
(*   render  view was rendered: dom, logs, err observed afterwards          *)
(*   user    somebody else changed live state (typed, clicked): dom after   *)
(*   attach / detach                                                       *)
(* Every complaint is printed as  BAD {t, i, tags}.                         *)
(***************************************************************************)
EXTENDS RendererOps, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

RECURSIVE Cook(_)
Cook(dom) ==
  [ i \in 1 .. Len(dom) |->
      [ dom[i] EXCEPT !.attrs = Range(dom[i].attrs), !.style = Range(dom[i].style),
                      !.live = Range(dom[i].live), !.on = Range(dom[i].on), !.kids = Cook(dom[i].kids) ] ]

VARIABLES t, i, attached, first, tree, dom, ok
vars == <<t, i, attached, first, tree, dom, ok>>

Init ==
  /\ t \in 1 .. Len(Traces)
  /\ i = 1 /\ attached = FALSE /\ first = TRUE /\ tree = <<>> /\ dom = <<>> /\ ok = TRUE

Cfg == Traces[t].cfg
S == Traces[t].steps[i]

Complain(tags) == PrintT("BAD " \o ToJson([ t |-> t, i |-> i, first |-> first, tags |-> SetToSeq(tags) ]))

Expected(new) ==
  IF first THEN FreshSeq(new, AnyId)
  ELSE IF ForcedBy(Cfg) # "" THEN FreshSeq(new, NewId)
  ELSE PatchSeq(tree, dom, new, Range(Cfg.deny))

Render ==
  /\ S.op = "render"
  /\ IF ~attached
     THEN /\ ok' = (S.err # "")
          /\ (S.err = "" => Complain({"unattached"}))
          /\ UNCHANGED <<tree, dom, first, attached>>
     ELSE IF Throws(S.view)
     THEN /\ ok' = (S.err # "" /\ Cook(S.dom) = dom)
          /\ (~ok' => Complain({"throw"}))
          /\ UNCHANGED <<tree, dom, first, attached>>
     ELSE LET new == Norm(S.view, "html")
              obs == Cook(S.dom)
              exp == Expected(new)
              bad == (IF S.err # "" THEN {"error"} ELSE {})
                     \cup Diff(exp, obs, Ids(dom))
                     \cup LogDiff(Cfg, first, tree, new, Range(S.logs))
          IN /\ ok' = (bad = {})
             /\ (bad # {} => Complain(bad))
             /\ tree' = new /\ dom' = obs /\ first' = FALSE
             /\ UNCHANGED attached

User   == S.op = "user" /\ dom' = Cook(S.dom) /\ UNCHANGED <<tree, first, attached, ok>>
Attach == S.op = "attach" /\ attached' = TRUE /\ first' = TRUE /\ tree' = <<>> /\ dom' = <<>>
          /\ ok' = (S.err = "") /\ (S.err # "" => Complain({"error"}))
Detach == S.op = "detach" /\ attached' = FALSE /\ first' = TRUE /\ tree' = <<>> /\ dom' = <<>>
          /\ ok' = (S.dom = <<>> /\ S.err = "") /\ (~ok' => Complain({"detach"}))

Next ==
  /\ ok /\ i <= Len(Traces[t].steps)
  /\ i' = i + 1 /\ UNCHANGED t
  /\ (Render \/ User \/ Attach \/ Detach)
Spec == Init /\ [][Next]_vars
\* states of different traces never coincide, and neither do steps of one trace
View == <<t, i>>
=============================================================================
