----------------------------- MODULE RendererMC -----------------------------
(***************************************************************************)
(* All sequences of renders over a small universe of views, with user      *)
(* input in between: the update rules of RendererOps give, for every pair   *)
(* of views, the same DOM as mounting, keep nodes when updating in place    *)
(* and keep what the user typed.  The transition graph is replayed into the *)
(* real renderer (every pair of views).                                    *)
(***************************************************************************)
EXTENDS RendererOps, Json
CONSTANT SIZE

Tx(s) == [ k |-> "text", tag |-> "", text |-> s, props |-> <<>>, kids |-> <<>> ]
Em    == [ k |-> "empty", tag |-> "null", text |-> "", props |-> <<>>, kids |-> <<>> ]
El(tag, ps, ks) == [ k |-> "el", tag |-> tag, text |-> "", props |-> ps, kids |-> ks ]
Fr(ks) == [ k |-> "frag", tag |-> "", text |-> "", props |-> <<>>, kids |-> ks ]
Pr(n, t, v) == [ n |-> n, t |-> t, v |-> v, o |-> <<>> ]
St(o) == [ n |-> "style", t |-> "sobj", v |-> "", o |-> o ]

PropChoices ==
  { <<>>, << Pr("title", "str", "x") >>, << Pr("title", "absent", "null"), Pr("class", "str", "a") >>,
    << Pr("className", "str", "b"), Pr("onClick", "fn", "h0") >>, << Pr("onClick", "fn", "h1") >>,
    << St(<< <<"color", "red">>, <<"opacity", "1">> >>) >>, << St(<< <<"color", "~">> >>), Pr("data-k", "num", "0") >> }
InputProps ==
  { <<>>, << Pr("value", "str", "v1") >>, << Pr("value", "str", "v2"), Pr("disabled", "true", "true") >> }

Leaves == { Tx("a"), Tx("b"), Em }
Els    == { El("p", ps, <<>>) : ps \in PropChoices } \cup { El("p", <<>>, << l >>) : l \in Leaves }
          \cup { El("input", ps, <<>>) : ps \in InputProps }
Some   == { El("p", <<>>, <<>>), El("p", << Pr("title", "str", "x") >>, << Tx("a") >>), El("p", <<>>, << Tx("b") >>),
            El("input", << Pr("value", "str", "v1") >>, <<>>), Tx("a"), Em }
Deep   == { El("div", <<>>, << x, y >>) : x \in Some, y \in { Tx("a"), El("p", <<>>, << Tx("b") >>) } }
Views1 == Leaves \cup Els \cup { Fr(<< x, y >>) : x, y \in Some } \cup { Fr(<<>>) } \cup Deep
Views  == IF SIZE = 1 THEN Views1
          ELSE Views1 \cup { Fr(<< x, y, z >>) : x, y, z \in Some } \cup { El("div", <<>>, << x, y >>) : x, y \in Els }

VARIABLES started, view, tree, dom, act
vars == <<started, view, tree, dom>>

\* canonical identities: the path of the node (identity only matters from one render to the next)
RECURSIVE Name(_, _)
Name(es, prefix) ==
  [ i \in 1 .. Len(es) |->
      [ es[i] EXCEPT !.id = prefix \o "." \o ToString(i),
                     !.live = { << x[1], CHOOSE v \in x[2] : TRUE >> : x \in es[i].live },
                     !.kids = Name(es[i].kids, prefix \o "." \o ToString(i)) ] ]

Init == started = FALSE /\ view = Fr(<<>>) /\ tree = <<>> /\ dom = <<>> /\ act = [ name |-> "Init" ]

Update(new) == IF started THEN PatchSeq(tree, dom, new, {}) ELSE FreshSeq(new, AnyId)

Render(v) ==
  /\ started' = TRUE /\ view' = v /\ tree' = Norm(v, "html")
  /\ dom' = Name(Update(Norm(v, "html")), "")
  /\ act' = [ name |-> "Render", view |-> v, value |-> "", exp |-> Update(Norm(v, "html")) ]

\* the user types into the first input (top level)
FirstInput == { i \in 1 .. Len(dom) : dom[i].tag = "input" }
Type(s) ==
  /\ FirstInput # {}
  /\ LET i == CHOOSE j \in FirstInput : \A l \in FirstInput : j <= l IN
     /\ dom' = [ dom EXCEPT ![i].live = { x \in @ : x[1] # "value" } \cup { << "value", s >> } ]
     /\ dom' # dom
  /\ UNCHANGED <<started, view, tree>>
  /\ act' = [ name |-> "Type", view |-> view, value |-> s, exp |-> <<>> ]

Next == (\E v \in Views : Render(v)) \/ Type("u")
Spec == Init /\ [][Next]_<<started, view, tree, dom, act>>

----------------------------------------------------------------------------
\* C15/C16: whatever was there before, the DOM says what the tree says
RECURSIVE Same(_, _)
Same(es, fs) ==
  /\ Len(es) = Len(fs)
  /\ \A i \in 1 .. Len(es) :
       /\ es[i].k = fs[i].k /\ es[i].tag = fs[i].tag /\ es[i].ns = fs[i].ns /\ es[i].text = fs[i].text
       /\ es[i].attrs = fs[i].attrs /\ es[i].style = fs[i].style /\ es[i].on = fs[i].on
       /\ Same(es[i].kids, fs[i].kids)
FreshlyDescribed == started => Same(dom, FreshSeq(Norm(view, "html"), AnyId))
UpdateIsMount == [][ act'.name = "Render" => Same(act'.exp, FreshSeq(tree', AnyId)) ]_vars

\* C17: without a structural change every node survives
RECURSIVE KeptAll(_, _)
KeptAll(es, ds) == \A i \in 1 .. Len(ds) : es[i].id = ds[i].id /\ KeptAll(es[i].kids, ds[i].kids)
InPlaceKeeps ==
  [][ act'.name = "Render" /\ started /\ ~NeedsFallback(tree, tree', {}) => KeptAll(act'.exp, dom) ]_vars
\* C17: an unchanged value never overwrites what the user typed
InputKept ==
  [][ act'.name = "Render" /\ started /\ Compatible(tree, tree') =>
        \A i \in 1 .. Len(dom) : dom[i].tag = "input" /\ Given(tree[i], "value") = Given(tree'[i], "value")
             => LiveOf(dom'[i], "value") = LiveOf(dom[i], "value") ]_vars

View == vars
\* for replay, states are known by their view and what the user typed
Typed(d) == { x \in UNION { { << i, e >> : e \in d[i].live } : i \in 1 .. Len(d) } : x[2][2] = "u" }
Abs(st, v, d) == [ started |-> st, view |-> v, typed |-> Cardinality(Typed(d)) ]
Emit == PrintT("EDGE " \o ToJson([ s |-> Abs(started, view, dom), a |-> [ name |-> act'.name, view |-> act'.view, value |-> act'.value ],
                                   t |-> Abs(started', view', dom') ]))
=============================================================================
