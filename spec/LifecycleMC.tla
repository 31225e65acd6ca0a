---------------------------- MODULE LifecycleMC ----------------------------
EXTENDS Lifecycle
MC_FacOf == [e \in Elems |-> IF e = "e3" THEN (IF "f2" \in Facs THEN "f2" ELSE "f1") ELSE "f1"]
\* for simulation with many elements: every fourth element belongs to the second factory
MC_FacOfMany == [e \in Elems |-> IF e \in {"e4", "e8", "e12"} /\ "f2" \in Facs THEN "f2" ELSE "f1"]
MC_OneSource == [f \in Facs |-> "S"]
MC_OwnSource == [f \in Facs |-> IF f = "f1" THEN "S" ELSE "T"]
=============================================================================
