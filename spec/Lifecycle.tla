----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* Life of ignite-element custom elements bound to state sources.          *)
(*                                                                         *)
(* One `igniteCore(...)` call yields a *factory*; a factory registers one   *)
(* or more tags; each tag yields elements.  In SHARED scope all elements of *)
(* a factory go through one adapter object over a user-owned source; in     *)
(* ISOLATED scope each element owns an adapter and a source.                *)
(*                                                                         *)
(* The module is structured like the implementation: constructor,           *)
(* connectedCallback and disconnectedCallback are separate actions, adapter *)
(* subscriptions, the connected count and the adapter's open/closed status  *)
(* are explicit state, and what the user sees (`dom`) is only ever written  *)
(* by a render.  The guarantees are then stated over `dom`, `src`, `phase`  *)
(* (see the invariants at the end) and TLC checks that the design has them. *)
(*                                                                         *)
(* `act` records the last action with the observations the real code must   *)
(* reproduce; it is hidden from the state graph by VIEW.                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Elems,      \* element instances
          Facs,       \* factories (igniteCore calls) over the same source
          FacOf,      \* [Elems -> Facs]
          SFac,       \* [Facs -> source names]: factories may share a source or have their own
          SCOPE,      \* "shared" | "isolated"
          CLEANUP,    \* cleanup option of the factories
          NV,         \* number of distinct source states
          REENTRANT   \* include actions that re-enter the library during a render

Shared  == SCOPE = "shared"
Sources == IF Shared THEN { SFac[f] : f \in Facs } ELSE Elems
SrcOf(e) == IF Shared THEN SFac[FacOf[e]] ELSE e
Vals    == 0 .. (NV - 1)
Blank   == -1        \* element has never rendered
Unspec  == -2        \* content not promised (removed in the middle of a notification)

VARIABLES
  phase,   \* [Elems -> {"none","created","in","out"}]
  src,     \* [Sources -> Vals]           current state of each source
  live,    \* [Facs -> BOOLEAN]           shared adapter open?
  count,   \* [Facs -> Nat]               connected elements of a factory
  sub,     \* [Elems -> BOOLEAN]          element holds a live adapter subscription
  dead,    \* [Elems -> BOOLEAN]          isolated adapter stopped
  cur,     \* [Elems -> Vals \cup {Blank}] last state delivered to the element
  dom,     \* [Elems -> Vals \cup {Blank, Unspec}] what is on screen
  act

vars == <<phase, src, live, count, sub, dead, cur, dom>>
allVars == <<phase, src, live, count, sub, dead, cur, dom, act>>

NoRenders == [e \in Elems |-> 0]
NoStops == [x \in Facs \cup Elems |-> 0]    \* adapters stopped: of a shared factory, of an isolated element
Obs(name, args, renders, effect) ==
  [ name |-> name, args |-> args, renders |-> renders, effect |-> effect, stops |-> NoStops ]

StateRec == [ phase |-> phase, src |-> src, live |-> live, count |-> count, sub |-> sub,
              dead |-> dead, cur |-> cur, dom |-> dom ]

Init ==
  /\ phase = [e \in Elems |-> "none"]
  /\ src   = [s \in Sources |-> 0]
  /\ live  = [f \in Facs |-> Shared]            \* a shared adapter opens at registration
  /\ count = [f \in Facs |-> 0]
  /\ sub   = [e \in Elems |-> FALSE]
  /\ dead  = [e \in Elems |-> FALSE]
  /\ cur   = [e \in Elems |-> Blank]
  /\ dom   = [e \in Elems |-> Blank]
  /\ act   = Obs("Init", <<>>, NoRenders, "none")

----------------------------------------------------------------------------
\* Pure step functions over a state record, so that composite (re-entrant)
\* actions are compositions of the same building blocks.

Here == [ phase |-> phase, src |-> src, live |-> live, count |-> count, sub |-> sub,
          dead |-> dead, cur |-> cur, dom |-> dom, rend |-> NoRenders, stops |-> NoStops ]

Commit(st) ==
  /\ phase' = st.phase /\ src' = st.src /\ live' = st.live /\ count' = st.count
  /\ sub' = st.sub /\ dead' = st.dead /\ cur' = st.cur /\ dom' = st.dom

\* render: the only writer of dom
RenderOf(st, e) == [st EXCEPT !.dom[e] = st.cur[e], !.rend[e] = @ + 1]

\* constructor: resolve adapter (reopening a released shared one), subscribe, read the state
Construct(st, e) ==
  LET f == FacOf[e]
      s0 == IF Shared THEN [st EXCEPT !.live[f] = TRUE]
            ELSE [st EXCEPT !.src[e] = 0, !.dead[e] = FALSE]
  IN [s0 EXCEPT !.phase[e] = "created", !.sub[e] = TRUE, !.cur[e] = s0.src[SrcOf(e)], !.dom[e] = Blank]

\* connectedCallback
Attach(st, e) ==
  LET f  == FacOf[e]
      s1 == IF Shared
            THEN [st EXCEPT !.count[f] = @ + 1, !.live[f] = TRUE]
            ELSE st
      s2 == IF ~s1.sub[e] /\ ~s1.dead[e]
            THEN [s1 EXCEPT !.sub[e] = TRUE, !.cur[e] = s1.src[SrcOf(e)]]
            ELSE s1
  IN RenderOf([s2 EXCEPT !.phase[e] = "in"], e)

\* disconnectedCallback
Detach(st, e) ==
  LET f  == FacOf[e]
      s1 == [st EXCEPT !.phase[e] = "out", !.sub[e] = FALSE]
  IN IF Shared
     THEN LET s2 == [s1 EXCEPT !.count[f] = @ - 1, !.cur[e] = Blank] IN
          IF CLEANUP /\ s2.count[f] = 0 /\ s2.live[f]
          THEN [s2 EXCEPT !.live[f] = FALSE,
                          !.stops[f] = @ + 1,
                          !.sub = [x \in Elems |-> IF FacOf[x] = f THEN FALSE ELSE s2.sub[x]]]
          ELSE s2
     ELSE IF s1.dead[e] THEN s1 ELSE [s1 EXCEPT !.dead[e] = TRUE, !.stops[e] = @ + 1]

\* the source moves to v and every live subscription is notified
Notify(st, s, v) ==
  LET tgt == { e \in Elems : SrcOf(e) = s /\ st.sub[e] }
      vis == { e \in tgt : st.phase[e] = "in" }
  IN [st EXCEPT !.src[s] = v,
                !.cur  = [e \in Elems |-> IF e \in tgt THEN v ELSE st.cur[e]],
                !.dom  = [e \in Elems |-> IF e \in vis THEN v ELSE st.dom[e]],
                !.rend = [e \in Elems |-> IF e \in vis THEN st.rend[e] + 1 ELSE st.rend[e]]]

Step(name, args, st) ==
  /\ Commit(st)
  /\ act' = [Obs(name, args, st.rend, IF st.stops = NoStops THEN "none" ELSE "stop") EXCEPT !.stops = st.stops]

----------------------------------------------------------------------------
Create(e)     == /\ phase[e] = "none"
                 /\ Step("Create", <<e>>, Construct(Here, e))

Connect(e)    == /\ phase[e] \in {"created", "out"}
                 /\ Step("Connect", <<e>>, Attach(Here, e))

\* parser insertion: created and connected in one go
Insert(e)     == /\ phase[e] = "none"
                 /\ Step("Insert", <<e>>, Attach(Construct(Here, e), e))

Disconnect(e) == /\ phase[e] = "in"
                 /\ Step("Disconnect", <<e>>, Detach(Here, e))

\* moving a connected node = disconnectedCallback immediately followed by connectedCallback
Move(e)       == /\ phase[e] = "in"
                 /\ Step("Move", <<e>>, Attach(Detach(Here, e), e))

\* the application changes the source directly
Change(s, v)  == /\ v # src[s]
                 /\ IF Shared THEN TRUE ELSE phase[s] # "none"
                 /\ Step("Change", <<s, v>>, Notify(Here, s, v))

CanSend(e) == phase[e] = "in" /\ ~dead[e]

\* DOM "send" event on (or bubbling to) the element; the element's last render `send`; a command
Send(e, via, v) ==
  /\ phase[e] # "none"
  /\ (via \in {"arg", "cmd"} => dom[e] # Blank)
  /\ (via = "cmd" => CanSend(e))
  /\ v # src[SrcOf(e)]
  /\ IF CanSend(e)
     THEN Step("Send", <<e, via, v>>, Notify(Here, SrcOf(e), v))
     ELSE /\ UNCHANGED vars
          /\ act' = Obs("SendIgnored", <<e, via, v>>, NoRenders,
                        IF via = "arg" \/ phase[e] = "in" THEN "warn" ELSE "none")

ForceRender(e) ==
  /\ phase[e] # "none"
  /\ IF phase[e] = "in"
     THEN Step("ForceRender", <<e>>, RenderOf(Here, e))
     ELSE /\ UNCHANGED vars
          /\ act' = Obs("ForceRenderIgnored", <<e>>, NoRenders, "warn")

\* an event the source receives without changing its state; it is an arbitrary value, which
\* must arrive as it is
Idle(e, via) ==
  /\ CanSend(e) /\ dom[e] # Blank
  /\ UNCHANGED vars
  /\ act' = Obs("Idle", <<e, via>>, NoRenders, "none")

Seen(e) == phase[e] = "in" /\ sub[e]

\* --- re-entrant schedules: something happens inside e's render of v -------
\* e removes itself
ChangeRemoveSelf(e, v) ==
  /\ Seen(e) /\ v # src[SrcOf(e)]
  /\ Step("ChangeRemoveSelf", <<e, v>>, Detach(Notify(Here, SrcOf(e), v), e))

\* e removes f, which may or may not have been notified already
ChangeRemoveOther(e, f, v) ==
  /\ e # f /\ Seen(e) /\ phase[f] = "in" /\ v # src[SrcOf(e)]
  /\ LET st == Detach(Notify(Here, SrcOf(e), v), f) IN
     Step("ChangeRemoveOther", <<e, f, v>>,
          IF SrcOf(f) = SrcOf(e) THEN [st EXCEPT !.dom[f] = Unspec] ELSE st)

\* e connects f
ChangeConnect(e, f, v) ==
  /\ e # f /\ Seen(e) /\ phase[f] \in {"created", "out"} /\ v # src[SrcOf(e)]
  /\ Step("ChangeConnect", <<e, f, v>>, Attach(Notify(Here, SrcOf(e), v), f))

\* e's render triggers a further change to w
ChangeChange(e, v, w) ==
  /\ Seen(e) /\ v # src[SrcOf(e)] /\ w # v
  /\ Step("ChangeChange", <<e, v, w>>, Notify(Notify(Here, SrcOf(e), v), SrcOf(e), w))

\* e's render of v fails with an exception; the next change is shown as ever
ChangeThrowChange(e, v, w) ==
  /\ Seen(e) /\ v # src[SrcOf(e)] /\ w # v
  /\ Step("ChangeThrowChange", <<e, v, w>>, Notify(Notify(Here, SrcOf(e), v), SrcOf(e), w))

\* e's first render fails; the next change is shown as ever
ConnectThrowChange(e, v) ==
  /\ phase[e] \in {"created", "out"} /\ ~dead[e] /\ v # src[SrcOf(e)]
  /\ Step("ConnectThrowChange", <<e, v>>, Notify(Attach(Here, e), SrcOf(e), v))

\* connecting e triggers a change to v during its very first render
ConnectChange(e, v) ==
  /\ phase[e] \in {"created", "out"} /\ ~dead[e] /\ v # src[SrcOf(e)]
  /\ Step("ConnectChange", <<e, v>>, Notify(Attach(Here, e), SrcOf(e), v))

\* e's render of v creates and inserts f (a nested component appears)
ChangeInsert(e, f, v) ==
  /\ e # f /\ Seen(e) /\ phase[f] = "none" /\ v # src[SrcOf(e)]
  /\ Step("ChangeInsert", <<e, f, v>>, Attach(Construct(Notify(Here, SrcOf(e), v), f), f))

\* e's very first render (or first after re-insertion) inserts f, an old element or a new one
ConnectConnect(e, f) ==
  /\ e # f /\ phase[e] \in {"created", "out"} /\ phase[f] \in {"created", "out"}
  /\ Step("ConnectConnect", <<e, f>>, Attach(Attach(Here, e), f))
ConnectInsert(e, f) ==
  /\ e # f /\ phase[e] \in {"created", "out"} /\ phase[f] = "none"
  /\ Step("ConnectInsert", <<e, f>>, Attach(Construct(Attach(Here, e), f), f))

\* e's first render removes e itself, or f
ConnectRemoveSelf(e) ==
  /\ phase[e] \in {"created", "out"}
  /\ Step("ConnectRemoveSelf", <<e>>, Detach(Attach(Here, e), e))
ConnectRemoveOther(e, f) ==
  /\ e # f /\ phase[e] \in {"created", "out"} /\ phase[f] = "in"
  /\ Step("ConnectRemoveOther", <<e, f>>, Detach(Attach(Here, e), f))

Next ==
  \/ \E e \in Elems : Create(e) \/ Connect(e) \/ Insert(e) \/ Disconnect(e) \/ Move(e)
                      \/ ForceRender(e) \/ Idle(e, "event") \/ Idle(e, "arg")
  \/ \E s \in Sources, v \in Vals : Change(s, v)
  \/ \E e \in Elems, via \in {"event", "arg", "cmd"}, v \in Vals : Send(e, via, v)
  \/ /\ REENTRANT
     /\ \/ \E e \in Elems : ConnectRemoveSelf(e)
        \/ \E e, f \in Elems : ConnectConnect(e, f) \/ ConnectInsert(e, f) \/ ConnectRemoveOther(e, f)
        \/ \E e, f \in Elems, v \in Vals : ChangeInsert(e, f, v)
        \/ \E e \in Elems, v \in Vals : ChangeRemoveSelf(e, v) \/ ConnectChange(e, v) \/ ConnectThrowChange(e, v)
        \/ \E e, f \in Elems, v \in Vals : ChangeRemoveOther(e, f, v) \/ ChangeConnect(e, f, v)
        \/ \E e \in Elems, v, w \in Vals : ChangeChange(e, v, w) \/ ChangeThrowChange(e, v, w)

Spec == Init /\ [][Next]_allVars

----------------------------------------------------------------------------
\* Guarantees (design level).  Ids refer to properties.jsonl.

TypeOK ==
  /\ phase \in [Elems -> {"none", "created", "in", "out"}]
  /\ src \in [Sources -> Vals]
  /\ count \in [Facs -> 0 .. Cardinality(Elems)]

\* C01/C05/C07: a connected element with a living state shows the current state
ConnectedFresh ==
  \A e \in Elems : phase[e] = "in" /\ ~dead[e] => dom[e] = src[SrcOf(e)] /\ sub[e]

\* C02: only connected elements of a live adapter, or elements not yet connected, hold subscriptions
NoStrayWork ==
  \A e \in Elems : phase[e] \in {"none", "out"} => ~sub[e]

\* C06: the count is the number of connected elements, and the adapter closes exactly at zero
RefCount ==
  \A f \in Facs : count[f] = IF Shared THEN Cardinality({e \in Elems : FacOf[e] = f /\ phase[e] = "in"}) ELSE 0
OpenWhileConnected ==
  Shared => \A f \in Facs : count[f] > 0 => live[f]
NeverClosedWithoutCleanup ==
  (Shared /\ ~CLEANUP) => \A f \in Facs : live[f]
NoSubscriptionOnClosedAdapter ==
  Shared => \A e \in Elems : sub[e] => live[FacOf[e]]

\* C08: an isolated adapter is stopped iff its element has left the document at least once
IsolatedStopped ==
  ~Shared => \A e \in Elems : /\ (phase[e] = "out" => dead[e])
                              /\ (phase[e] = "created" => ~dead[e])

\* C08: the content of an element whose isolated state ended never changes again
ZombieFrozen ==
  [][ \A e \in Elems : dead[e] /\ dead'[e] => (cur'[e] = cur[e]) ]_allVars

\* C04: a step that concerns one isolated element leaves every other element's screen alone
Independent ==
  [][ ~Shared => \A e, f \in Elems : e # f /\ src'[e] # src[e] /\ act'.name \in {"Change", "Send"} => dom'[f] = dom[f] ]_allVars

\* C02: nothing but (re)connecting changes what a disconnected element shows
OutFrozen ==
  [][ \A e \in Elems : phase[e] = "out" /\ phase'[e] = "out" /\ ~(act'.name = "ConnectRemoveSelf" /\ act'.args = <<e>>)
                        => dom'[e] = dom[e] ]_allVars

\* C03: a plain source change renders every connected subscribed element exactly once, nobody else
OneRenderPerChange ==
  [][ act'.name \in {"Change", "Send"} =>
        \A e \in Elems : act'.renders[e] = IF Seen(e) /\ src'[SrcOf(e)] # src[SrcOf(e)] THEN 1 ELSE 0 ]_allVars

----------------------------------------------------------------------------
View == vars
Post == [ phase |-> phase', src |-> src', live |-> live', count |-> count', sub |-> sub',
          dead |-> dead', cur |-> cur', dom |-> dom' ]
Emit == PrintT("EDGE " \o ToJson([ s |-> StateRec, a |-> act', t |-> Post ]))
=============================================================================
