-------------------------------- MODULE Release --------------------------------
(***************************************************************************)
(* The beta release (C30): a sequence of gates, a one-time password, and   *)
(* the publication.                                                        *)
(*                                                                         *)
(* opts    how the script was called; what the environment and the person  *)
(*         at the prompt will answer                                       *)
(* passed  the gates passed so far;  at  where the script is               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Gates == <<"clean", "login", "status", "test", "build", "version", "install">>
Failures == {"exit", "signal", "missing"}         \* ways a command fails
Otps == {"none", "empty", "padded", "value"}      \* --otp: not given, --otp=, --otp=" 123 ", --otp=123
Envs == {"none", "value"}
Answers == {"none", "empty", "value", "padded", "aborted"}

VARIABLES opts, passed, at, otp, published, act
vars == <<opts, passed, at, otp, published, act>>
Obs(name, args, outcome) == [name |-> name, args |-> args, outcome |-> outcome]
NoOpts == [dry |-> FALSE, skip |-> FALSE, otp |-> "none", env |-> "none", ci |-> FALSE]

Init ==
  /\ opts = NoOpts /\ passed = 0 /\ at = "idle" /\ otp = "none" /\ published = "no"
  /\ act = Obs("Init", <<>>, "none")
Call(o) ==
  /\ at = "idle" /\ opts' = o /\ at' = "gates"
  /\ act' = Obs("Call", <<>>, "ok") /\ UNCHANGED <<passed, otp, published>>

Pass ==
  /\ at = "gates" /\ passed < Len(Gates)
  /\ passed' = passed + 1
  /\ at' = (IF passed' = Len(Gates) THEN "otp" ELSE "gates")
  /\ act' = Obs("Gate", <<Gates[passed + 1]>>, "ok") /\ UNCHANGED <<opts, otp, published>>
\* a gate fails: the command fails, or the working tree is not clean
Fail(how) ==
  /\ at = "gates" /\ passed < Len(Gates)
  /\ how \in Failures \cup (IF Gates[passed + 1] = "clean" THEN {"dirty", "untracked"} ELSE {})
  /\ at' = "failed"
  /\ act' = Obs("Gate", <<Gates[passed + 1]>>, how) /\ UNCHANGED <<opts, passed, otp, published>>

\* the option, the environment, the person at the prompt, in this order; with --skip-otp nobody is asked
Asks == ~opts.skip /\ opts.otp \in {"none", "empty"} /\ opts.env = "none"
Given == CASE opts.skip -> (IF opts.env = "value" THEN "env" ELSE "none")
           [] opts.otp \in {"value", "padded"} -> "option"
           [] OTHER -> (IF opts.env = "value" THEN "env" ELSE "none")
Resolve ==
  /\ at = "otp" /\ ~Asks
  /\ otp' = Given /\ at' = "publish"
  /\ act' = Obs("Otp", <<"none">>, "ok") /\ UNCHANGED <<opts, passed, published>>
Prompt(a) ==
  /\ at = "otp" /\ Asks /\ a # "none"
  /\ otp' = (IF a \in {"value", "padded"} THEN "answer" ELSE "none")
  /\ at' = (IF a = "aborted" THEN "failed" ELSE "publish")
  /\ act' = Obs("Otp", <<a>>, IF a = "aborted" THEN "aborted" ELSE "ok") /\ UNCHANGED <<opts, passed, published>>

Publish(how) ==
  /\ at = "publish" /\ how \in Failures \cup {"ok"}
  /\ published' = (IF opts.dry THEN "dry" ELSE IF how = "ok" THEN "real" ELSE "attempted")
  /\ at' = (IF how = "ok" THEN "done" ELSE "failed")
  /\ act' = Obs("Publish", <<IF opts.dry THEN "dry" ELSE "real", otp>>, how) /\ UNCHANGED <<opts, passed, otp>>

Next ==
  \/ \E d, s, c \in BOOLEAN, o \in Otps, e \in Envs : Call([dry |-> d, skip |-> s, otp |-> o, env |-> e, ci |-> c])
  \/ Pass \/ (\E h \in Failures \cup {"dirty", "untracked"} : Fail(h)) \/ Resolve
  \/ (\E a \in Answers : Prompt(a)) \/ (\E h \in Failures \cup {"ok"} : Publish(h))
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
AllGatesFirst == published # "no" => passed = Len(Gates)
DryIsDry == opts.dry => published \in {"no", "dry"}
FailedIsFinal == [][ at \notin {"failed", "done"} ]_vars
DoneMeansPublished == at = "done" => published \in {"real", "dry"}
View == <<opts, passed, at, otp, published>>
St(o, p, a, q, d) == [opts |-> o, passed |-> p, at |-> a, otp |-> q, published |-> d]
EmitEdge == PrintT("EDGE " \o ToJson([ s |-> St(opts, passed, at, otp, published), a |-> act', t |-> St(opts', passed', at', otp', published') ]))
=============================================================================
