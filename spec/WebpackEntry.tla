---------------------------- MODULE WebpackEntry ----------------------------
(***************************************************************************)
(* What the webpack plugin makes of an entry (C26). An entry is a map from *)
(* names to chunks (a lone string or array is the chunk "main"); a chunk    *)
(* has a sequence of modules and perhaps further options. wrap says whether *)
(* the entry was written as a function, and form how the chunk was written: *)
(* that may change, the modules, options, names and their order may not.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxMods
L == "L"                    \* the module that loads the config
Mods == { [i \in 1 .. n |-> "m" \o ToString(i)] : n \in 1 .. MaxMods }
Chunks ==
  { [form |-> "string", mods |-> <<"m1">>, opts |-> FALSE] }
  \cup { [form |-> "array", mods |-> m, opts |-> FALSE] : m \in Mods }
  \cup { [form |-> "desc-string", mods |-> <<"m1">>, opts |-> o] : o \in BOOLEAN }
  \cup { [form |-> "desc-array", mods |-> m, opts |-> o] : m \in Mods, o \in BOOLEAN }
  \cup { [form |-> "desc-empty", mods |-> <<"./src">>, opts |-> o] : o \in BOOLEAN }   \* webpack's default
Lone == { c \in Chunks : c.form \in {"string", "array"} }
Maps == { << >> } \cup { << [name |-> "main", chunk |-> c] >> : c \in Chunks }
        \cup { << [name |-> "zeta", chunk |-> c], [name |-> "alpha", chunk |-> d] >> : c, d \in Chunks }
Wraps == {"plain", "sync", "async", "throws"}
NoEntry == [kind |-> "none", wrap |-> "plain", chunks |-> <<>>]
Entries ==
  { NoEntry }
  \cup { [kind |-> "lone", wrap |-> w, chunks |-> << [name |-> "main", chunk |-> c] >>] : w \in Wraps, c \in Lone }
  \cup { [kind |-> "map", wrap |-> w, chunks |-> m] : w \in Wraps, m \in Maps }
Idle == [kind |-> "idle", wrap |-> "plain", chunks |-> <<>>]

VARIABLES entry, applied, act
Obs(name, args, result) == [name |-> name, args |-> args, result |-> result]
Init == entry = Idle /\ applied = 0 /\ act = Obs("Init", <<>>, Idle)

Prepend(m) == IF \E k \in DOMAIN m : m[k] = L THEN m ELSE <<L>> \o m
AddTo(e) ==
  IF e.kind = "none" THEN [kind |-> "map", wrap |-> "plain", chunks |-> << [name |-> "main", chunk |-> [form |-> "any", mods |-> <<L>>, opts |-> FALSE]] >>]
  ELSE [e EXCEPT !.chunks = [k \in DOMAIN e.chunks |-> [e.chunks[k] EXCEPT !.chunk.mods = Prepend(@)]]]

Configure(e) ==
  /\ entry = Idle /\ entry' = e /\ applied' = 0
  /\ act' = Obs("Configure", <<e>>, e)
\* the plugin runs; with a config file it changes the entry, without it does not
Apply(has) ==
  /\ entry # Idle /\ applied < 2
  /\ entry' = IF has THEN AddTo(entry) ELSE entry
  /\ applied' = applied + 1
  /\ act' = Obs("Apply", <<has>>, entry')
\* webpack reads the entry (calling it, if it is a function)
Build ==
  /\ entry # Idle /\ applied > 0
  /\ act' = Obs("Build", <<>>, entry) /\ UNCHANGED <<entry, applied>>
Next == Build \/ (\E e \in Entries : Configure(e)) \/ (\E has \in BOOLEAN : Apply(has))
Spec == Init /\ [][Next]_<<entry, applied, act>>
----------------------------------------------------------------------------
Rest(m) == SelectSeq(m, LAMBDA x : x # L)
LoaderFirst == [][ act'.name = "Apply" /\ act'.args[1] => \A k \in DOMAIN entry'.chunks : entry'.chunks[k].chunk.mods[1] = L ]_<<entry, applied, act>>
LoaderOnce == \A k \in DOMAIN entry.chunks : LET m == entry.chunks[k].chunk.mods IN Len(m) - Len(Rest(m)) <= 1
NothingLost == [][ act'.name = "Apply" /\ entry.kind # "none" =>
                   /\ entry'.wrap = entry.wrap /\ DOMAIN entry'.chunks = DOMAIN entry.chunks
                   /\ \A k \in DOMAIN entry.chunks :
                        /\ entry'.chunks[k].name = entry.chunks[k].name
                        /\ entry'.chunks[k].chunk.opts = entry.chunks[k].chunk.opts
                        /\ Rest(entry'.chunks[k].chunk.mods) = Rest(entry.chunks[k].chunk.mods) ]_<<entry, applied, act>>
Idempotent == AddTo(AddTo(entry)) = AddTo(entry)
View == <<entry, applied>>
Emit == PrintT("EDGE " \o ToJson([ s |-> [entry |-> entry, applied |-> applied], a |-> act', t |-> [entry |-> entry', applied |-> applied'] ]))
=============================================================================
