---------------------------- MODULE RendererOps ----------------------------
(***************************************************************************)
(* What JSX means, and what a render may and must do to the DOM.           *)
(*                                                                         *)
(* A *view* is what the author wrote; Norm(view) is its flattened form;    *)
(* Fresh(n) is the DOM a mount of n must produce; Patch(old, dom, new) is  *)
(* the DOM an update must produce, including which nodes must survive (by   *)
(* identity) and what the user's input must look like afterwards.          *)
(*                                                                         *)
(* All values are strings or tuples/records of one shape, because they also *)
(* arrive as JSON recorded from the real renderer (RendererTrace).         *)
(*                                                                         *)
(*   view  [k, tag, text, props, kids]                                     *)
(*         k: el text empty unk frag comp arr                              *)
(*   prop  [n, t, v, o]   n name; t: str num true obj absent fn sstr sobj;  *)
(*                        v the value as a string, o style entries         *)
(*   dom   [k, tag, ns, text, attrs, style, live, on, id, kids]            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

FlatMapS(s, Op(_)) == FlattenSeq([ i \in 1 .. Len(s) |-> Op(s[i]) ])

----------------------------------------------------------------------------
\* Flattening: fragments, arrays and components disappear; booleans, null and
\* unknown objects become placeholders; SVG is inherited except below foreignObject.

\* a component somewhere in the view throws: the render fails and changes nothing
RECURSIVE Throws(_)
Throws(v) == v.k = "boom" \/ \E i \in 1 .. Len(v.kids) : Throws(v.kids[i])

RECURSIVE Norm(_, _)
Norm(v, ns) ==
  CASE v.k \in {"frag", "comp", "arr"} -> FlatMapS(v.kids, LAMBDA x : Norm(x, ns))
    [] v.k = "text"  -> << [ k |-> "txt", tag |-> "", ns |-> "", text |-> v.text, props |-> <<>>, kids |-> <<>> ] >>
    [] v.k \in {"empty", "unk"} ->
         << [ k |-> "cmt", tag |-> "", ns |-> "", text |-> v.k, props |-> <<>>, kids |-> <<>> ] >>
    [] OTHER ->
         LET mine  == IF v.tag = "svg" \/ ns = "svg" THEN "svg" ELSE "html"
             below == IF mine = "svg" /\ v.tag # "foreignObject" THEN "svg" ELSE "html"
         IN << [ k |-> "el", tag |-> v.tag, ns |-> mine, text |-> "", props |-> v.props,
                 kids |-> FlatMapS(v.kids, LAMBDA x : Norm(x, below)) ] >>

----------------------------------------------------------------------------
\* Props.  How each name acts on an element (HTML standard / SVG standard).

Reflects == [ htmlFor |-> "for", tabIndex |-> "tabindex", colSpan |-> "colspan", rowSpan |-> "rowspan",
              maxLength |-> "maxlength", minLength |-> "minlength", crossOrigin |-> "crossorigin", useMap |-> "usemap",
              dateTime |-> "datetime", httpEquiv |-> "http-equiv", acceptCharset |-> "accept-charset",
              accessKey |-> "accesskey", contentEditable |-> "contenteditable", inputMode |-> "inputmode",
              ariaLabel |-> "aria-label", ariaChecked |-> "aria-checked" ]
              \* every other name is the attribute's own
Flags    == [ disabled |-> "disabled", hidden |-> "hidden", readOnly |-> "readonly", required |-> "required",
              multiple |-> "multiple", open |-> "open", isMap |-> "ismap", noValidate |-> "novalidate",
              reversed |-> "reversed", controls |-> "controls", loop |-> "loop", autoplay |-> "autoplay",
              formNoValidate |-> "formnovalidate" ]
\* SVG presentation attributes are written with hyphens; the names below are not presentation attributes
\* and keep their capitals (HTML standard, "adjust SVG attributes"), as does every other name
SvgNames == [ strokeWidth |-> "stroke-width", fillOpacity |-> "fill-opacity", textAnchor |-> "text-anchor",
              clipPath |-> "clip-path", dataFoo |-> "data-foo", dataItemId |-> "data-item-id", ariaLabel |-> "aria-label",
              strokeLinecap |-> "stroke-linecap", strokeDasharray |-> "stroke-dasharray", stopColor |-> "stop-color",
              fontFamily |-> "font-family", dominantBaseline |-> "dominant-baseline", pointerEvents |-> "pointer-events",
              colorInterpolationFilters |-> "color-interpolation-filters", vectorEffect |-> "vector-effect",
              markerEnd |-> "marker-end", floodOpacity |-> "flood-opacity", shapeRendering |-> "shape-rendering",
              dataURLPath |-> "data-url-path", ariaValueNow |-> "aria-value-now", data_row |-> "data-row" ]
CssNames == [ fontSize |-> "font-size", zIndex |-> "z-index", marginTop |-> "margin-top", backgroundColor |-> "background-color",
              lineHeight |-> "line-height", borderTopLeftRadius |-> "border-top-left-radius", flexGrow |-> "flex-grow",
              WebkitLineClamp |-> "-webkit-line-clamp", textAlign |-> "text-align", paddingLeft |-> "padding-left" ]
EventNames == [ onClick |-> "click", onInput |-> "input", onItemAdded |-> "item-added", onFocus |-> "focus",
                onItemURLChanged |-> "item-url-changed", onclick |-> "click", onToggle2 |-> "toggle2",
                onItem2Added |-> "item2-added", onURLChange |-> "url-change", onValueChangedTwice |-> "value-changed-twice",
                onX |-> "x" ] @@ ("on-tap-two" :> "tap-two") @@ ("on:menu" :> "menu") @@ ("onRow_added" :> "row-added")
BadCss == {"bad!", ""}

Absent == "absent"
IsClass(p) == p.n \in {"class", "className"}
IsStyle(p) == p.t \in {"sstr", "sobj"}
IsEvent(p) == p.t = "fn"
\* live properties: state of the element, not attributes
LiveNames(tag) ==
  CASE tag \in {"input", "textarea"} -> {"value", "checked"}
    [] tag = "select" -> {"value"}
    [] tag = "x-host" -> {"payload", "value"}
    [] OTHER -> {}
\* a checkbox has no text of its own: its value is an attribute
IsCheckbox(n) == n.tag = "input" /\ \E q \in Range(n.props) : q.n = "type" /\ q.v = "checkbox"
IsLive(n, p) == n.ns = "html" /\ p.n \in LiveNames(n.tag) /\ ~(p.n = "value" /\ IsCheckbox(n))

PropSet(n) == Range(n.props)

AttrOf(n, p) ==
  IF p.t = Absent \/ IsStyle(p) \/ IsEvent(p) \/ IsLive(n, p) THEN {}
  ELSE IF IsClass(p) THEN (IF p.v = "" THEN {} ELSE { <<"class", p.v>> })
  ELSE IF n.ns = "svg" THEN { << IF p.n \in DOMAIN SvgNames THEN SvgNames[p.n] ELSE p.n, p.v >> }
  ELSE IF n.tag \in {"x-host", "x-plain"} /\ p.n \notin {"id", "title", "hidden", "lang"} THEN { <<p.n, p.v>> }
  ELSE IF p.n \in DOMAIN Flags THEN { << Flags[p.n], "" >> }
  ELSE IF p.n \in DOMAIN Reflects THEN { << Reflects[p.n], p.v >> }
  ELSE { << p.n, p.v >> }
Attrs(n) == UNION { AttrOf(n, p) : p \in PropSet(n) }
\* An attribute that says no more than its absence: setting the property to the
\* value it has anyway may or may not leave the attribute behind.
Focusable == {"button", "input", "select", "textarea", "a"}
Vacuous(tag, a) ==
  \/ a[2] = "" /\ a[1] \in {"title", "id", "lang", "for", "name", "placeholder"}
  \/ a = <<"tabindex", "0">> /\ tag \in Focusable
  \/ a = <<"colspan", "1">>
  \/ a = <<"draggable", "true">> /\ tag \in {"img", "a"}
  \/ a = <<"value", "">> /\ tag \in {"button", "data"}
AttrsSame(tag, x, y) == { a \in x : ~Vacuous(tag, a) } = { a \in y : ~Vacuous(tag, a) }

\* of two entries for one CSS property the later valid one counts
StyleEntries(p) ==
  LET ok == SelectSeq(p.o, LAMBDA e : e[2] # "~" /\ e[2] \notin BadCss)
      nm(e) == IF e[1] \in DOMAIN CssNames THEN CssNames[e[1]] ELSE e[1]
  IN { << nm(ok[i]), ok[i][2] >> : i \in { j \in 1 .. Len(ok) : \A l \in (j + 1) .. Len(ok) : nm(ok[l]) # nm(ok[j]) } }
Styles(n) == UNION { StyleEntries(p) : p \in { q \in PropSet(n) : IsStyle(q) } }

Handlers(n) == { << EventNames[p.n], p.v >> : p \in { q \in PropSet(n) : IsEvent(q) } }

----------------------------------------------------------------------------
\* Live properties: the value the tree gives, or the element's own default

PropNamed(n, name) == { p \in PropSet(n) : p.n = name }
Given(n, name) ==
  LET ps == { p \in PropNamed(n, name) : p.t # Absent }
      p  == CHOOSE q \in ps : TRUE
  IN IF ps = {} THEN Absent
     \* a custom element gets the value itself, not a text of it
     ELSE IF n.tag = "x-host" /\ p.t = "num" THEN "number:" \o p.v
     ELSE IF n.tag = "x-host" /\ p.t = "true" THEN "boolean:true" ELSE p.v
LiveDefault(n, name) ==
  CASE n.tag = "x-host" -> "~"
    [] name = "checked" -> "false"
    [] OTHER -> ""
\* an option without a value stands for its text
OptionValue(o) == IF Given(o, "value") # Absent THEN Given(o, "value") ELSE IF o.kids = <<>> THEN "" ELSE o.kids[1].text
FirstOption(n) == IF n.kids = <<>> THEN "" ELSE OptionValue(n.kids[1])
FreshLive(n, name) ==
  LET g == Given(n, name) IN
  IF IsCheckbox(n) /\ name = "value" THEN ""
  ELSE IF g # Absent THEN g
  ELSE IF n.tag = "select" THEN FirstOption(n) ELSE LiveDefault(n, name)
\* <<name, allowed values>>
LiveSet(n) == IF n.ns = "svg" THEN {} ELSE LiveNames(n.tag)

AnyId == "*"     \* identity not promised
NewId == "+"     \* must be a node that was not there before

RECURSIVE Fresh(_, _)
Fresh(n, id) ==
  [ k |-> n.k, tag |-> n.tag, ns |-> n.ns, text |-> IF n.k = "txt" THEN n.text ELSE "",
    attrs |-> Attrs(n), style |-> Styles(n),
    live |-> { << name, { FreshLive(n, name) } >> : name \in LiveSet(n) },
    on |-> Handlers(n), id |-> id,
    kids |-> [ i \in 1 .. Len(n.kids) |-> Fresh(n.kids[i], id) ] ]
FreshSeq(ns, id) == [ i \in 1 .. Len(ns) |-> Fresh(ns[i], id) ]

----------------------------------------------------------------------------
\* When is an update done in place?

SameKind(a, b) == a.k = b.k /\ (a.k = "el" => a.tag = b.tag /\ a.ns = b.ns)

RECURSIVE FP(_)
FP(n) == << n.k, n.ns, n.tag, n.text, [ i \in 1 .. Len(n.kids) |-> FP(n.kids[i]) ] >>
Count(s, x) == Cardinality({ i \in 1 .. Len(s) : s[i] = x })
Permuted(a, b) ==
  LET fa == [ i \in 1 .. Len(a) |-> FP(a[i]) ]
      fb == [ i \in 1 .. Len(b) |-> FP(b[i]) ]
  IN fa # fb /\ \A i \in 1 .. Len(fa) : Count(fa, fa[i]) = Count(fb, fa[i])

Compatible(old, new) ==
  /\ Len(new) >= Len(old)
  /\ \A i \in 1 .. Len(old) : SameKind(old[i], new[i])
  /\ ~(Len(old) > 1 /\ Len(new) = Len(old) /\ Permuted(old, new))

\* deny-listed elements that an update reaches in place (they are replaced and reported)
RECURSIVE DeniedTags(_, _, _)
DeniedTags(old, new, deny) ==
  IF ~Compatible(old, new) THEN {}
  ELSE UNION { LET n == new[i] IN
               IF n.k # "el" THEN {} ELSE IF n.tag \in deny THEN { n.tag } ELSE DeniedTags(old[i].kids, n.kids, deny)
               : i \in 1 .. Len(old) }
\* somewhere (outside deny-listed elements) children were removed, reordered or changed kind
RECURSIVE NeedsFallback(_, _, _)
NeedsFallback(old, new, deny) ==
  \/ ~Compatible(old, new)
  \/ \E i \in 1 .. Len(old) :
       old[i].k = "el" /\ new[i].tag \notin deny /\ NeedsFallback(old[i].kids, new[i].kids, deny)

----------------------------------------------------------------------------
\* The update.  d is the node as last observed (its live values include user input).

LiveOf(d, name) == (CHOOSE e \in d.live : e[1] = name)[2]
KeptLive(o, d, n, name) ==
  LET go == Given(o, name)
      gn == Given(n, name)
      was == LiveOf(d, name)
      composing == <<"composing", "true">> \in d.live
  IN IF name = "value" /\ IsCheckbox(n) THEN { "" }
     ELSE IF name = "value" /\ composing THEN { was } \cup (IF gn = Absent THEN { LiveDefault(n, name) } ELSE {})
     ELSE IF go # gn THEN { IF gn # Absent THEN gn ELSE IF n.tag = "select" THEN AnyId ELSE LiveDefault(n, name) }
     ELSE IF n.tag = "select" /\ o.kids # n.kids THEN { IF gn = Absent THEN AnyId ELSE gn, was }
     \* null, undefined, false and leaving the prop out mean the same; going from one to
     \* another may count as a change
     ELSE IF PropNamed(o, name) # PropNamed(n, name) THEN { was, LiveDefault(n, name) }
     ELSE { was }

RECURSIVE PatchSeq(_, _, _, _)
PatchNode(o, d, n, deny) ==
  IF n.k # "el" THEN [ Fresh(n, AnyId) EXCEPT !.id = d.id ]
  ELSE IF n.tag \in deny THEN Fresh(n, NewId)
  ELSE [ k |-> n.k, tag |-> n.tag, ns |-> n.ns, text |-> "",
         attrs |-> Attrs(n), style |-> Styles(n),
         live |-> { << name, KeptLive(o, d, n, name) >> : name \in LiveSet(n) }
                  \cup { << "focus", { "true" } >> : x \in d.live \cap { << "focus", "true" >> } },
         on |-> Handlers(n), id |-> d.id,
         kids |-> PatchSeq(o.kids, d.kids, n.kids, deny) ]
PatchSeq(old, dom, new, deny) ==
  IF Compatible(old, new)
  THEN [ i \in 1 .. Len(new) |-> IF i <= Len(old) THEN PatchNode(old[i], dom[i], new[i], deny) ELSE Fresh(new[i], AnyId) ]
  ELSE FreshSeq(new, AnyId)

RECURSIVE Ids(_)
Ids(dom) == UNION { {dom[i].id} \cup Ids(dom[i].kids) : i \in 1 .. Len(dom) }

----------------------------------------------------------------------------
\* Comparing what must be (e) with what was observed (o): the set of complaints.

FocusOk(e, o) == (\E x \in e.live : x[1] = "focus") => << "focus", "true" >> \in o.live
LiveOk(e, o) == \A x \in { y \in e.live : y[1] # "focus" } : \E y \in o.live : y[1] = x[1] /\ (AnyId \in x[2] \/ y[2] \in x[2])
IdOk(e, o, before) == CASE e.id = AnyId -> TRUE [] e.id = NewId -> o.id \notin before [] OTHER -> o.id = e.id

RECURSIVE Diff(_, _, _)
Diff(es, os, before) ==
  IF Len(es) # Len(os) THEN { "tree" }
  ELSE UNION { LET e == es[i]
                   o == os[i]
               IN IF e.k # o.k \/ e.tag # o.tag \/ e.ns # o.ns \/ e.text # o.text THEN { "tree" }
                  ELSE (IF ~AttrsSame(o.tag, e.attrs, o.attrs) THEN { "attrs" } ELSE {})
                       \cup (IF e.style # o.style THEN { "style" } ELSE {})
                       \cup (IF ~LiveOk(e, o) THEN { "live" } ELSE {})
                       \cup (IF ~FocusOk(e, o) THEN { "focus" } ELSE {})
                       \cup (IF e.on # o.on THEN { "handlers" } ELSE {})
                       \cup (IF ~IdOk(e, o, before) THEN { "identity" } ELSE {})
                       \cup Diff(e.kids, o.kids, before)
               : i \in 1 .. Len(es) }

----------------------------------------------------------------------------
\* Opt-outs

ForcedBy(cfg) ==
  CASE cfg.host = "deny" -> "denylist:host"
    [] cfg.host = "hydrated" -> "hydrated"
    [] cfg.host = "nodiff" -> "nodiff-attr"
    [] cfg.mode = "replace" -> "config-replace"
    [] cfg.flag = "off" -> "flag-disabled"
    [] OTHER -> ""

\* complaints about what was logged during one render (logs: set of <<level, reason>>)
LogDiff(cfg, first, old, new, logs) ==
  LET forced == ForcedBy(cfg)
      deny == Range(cfg.deny)
      lvl == cfg.logging
      must == IF lvl \notin {"warn", "debug"} \/ first THEN {}
              ELSE IF forced # "" THEN { << lvl, forced >> }
              ELSE { << lvl, "denylist:" \o t >> : t \in DeniedTags(old, new, deny) }
                   \cup (IF NeedsFallback(old, new, deny) THEN { << lvl, "child-order-change" >> } ELSE {})
      may  == IF lvl \notin {"warn", "debug"} THEN {}
              ELSE IF forced # "" THEN { << lvl, forced >> }
              ELSE IF first THEN {}
              ELSE must
  IN IF must \subseteq logs /\ logs \subseteq may THEN {} ELSE { "log" }
=============================================================================
