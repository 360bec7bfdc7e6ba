------------------------------- MODULE GenApi -------------------------------
(***************************************************************************)
(* Interleavings: behaviours of several objects at once, each abstracted   *)
(* as in Gen, with the thread that makes each call.  One step is one call  *)
(* on one object or one stand-alone function.                              *)
(*                                                                         *)
(* An object is handed from thread to thread between calls; the calls do   *)
(* not overlap.  What the machine of DumbCrypto says of a call does not    *)
(* mention the thread, so every assignment of threads must give the same   *)
(* replies.                                                                *)
(*                                                                         *)
(* Exhaustive mode (VIEW Abstract): every transition of the product of the *)
(* objects' quotient machines, with the thread forgotten (the last call's  *)
(* thread is kept in the view, so that each transition is reached both on  *)
(* the thread of the call before and on another).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Kinds, MaxObjects, Threads, Pieces, GoodKeys, BadKeys, Functions, Depth, Mode

VARIABLES objs, last, hist
vars == << objs, last, hist >>
Abstract == << objs, last >>

Init == objs = <<>> /\ last = 1 /\ hist = <<>>

BL(kind) == IF kind \in {"sha", "hmac"} THEN 64 ELSE 16
Keyed(kind) == kind \in {"aes", "cipher", "decipher"}
Fresh(kind) == [kind |-> kind, key |-> 0, fill |-> 0, held |-> "no", hurt |-> FALSE, dead |-> FALSE]

Step(t, o, a, n, g) ==
  /\ last' = t
  /\ hist' = Append(hist, [th |-> t, o |-> o, a |-> a, n |-> n, g |-> g])

New(t, kind) ==
  /\ Len(objs) < MaxObjects
  /\ Step(t, Len(objs) + 1, kind, 0, 0)
  /\ objs' = Append(objs, Fresh(kind))

Live == {o \in 1..Len(objs) : ~ objs[o].dead}
Of(o) == objs[o]

SetKey(t, o, n) ==
  /\ Keyed(Of(o).kind)
  /\ Step(t, o, "init", n, 0)
  /\ objs' = [objs EXCEPT ![o].key = IF n \in GoodKeys THEN n ELSE @]

Feed(t, o, n, g) ==
  LET x == Of(o)
      full == x.fill + n >= BL(x.kind)
  IN  /\ x.kind # "aes"
      /\ (x.kind # "decipher" \/ ~ full) => g = 0
      /\ Step(t, o, "feed", n, g)
      /\ objs' = [objs EXCEPT ![o].hurt = (@ \/ (Keyed(x.kind) /\ x.key = 0 /\ full)),
                              ![o].fill = (x.fill + n) % BL(x.kind),
                              ![o].held = IF x.kind = "decipher" /\ full /\ x.key # 0
                                          THEN (IF g = 1 THEN "good" ELSE "bad") ELSE @]

Finish(t, o) ==
  LET x == Of(o)
  IN  CASE x.kind \in {"sha", "hmac"} ->
             /\ Step(t, o, "digest", 0, 0)
             /\ objs' = [objs EXCEPT ![o].dead = TRUE]
        [] x.kind = "cipher" ->
             /\ Step(t, o, "flush", 0, 0)
             /\ objs' = [objs EXCEPT ![o].hurt = (@ \/ x.key = 0), ![o].fill = 0]
        [] x.kind = "decipher" ->
             /\ Step(t, o, "flush", 0, 0)
             /\ objs' = [objs EXCEPT ![o].held = IF x.fill = 0 /\ @ = "good" THEN "no" ELSE @]
        [] OTHER -> FALSE

Block(t, o, e) ==
  /\ Of(o).kind = "aes"
  /\ Step(t, o, "block", e, 0)
  /\ UNCHANGED objs

\* a stand-alone function: n chooses among a few argument lists
Apply(t, f, n) == Step(t, 0, f, n, 0) /\ UNCHANGED objs

\* w only weighs the calls in simulation
Next ==
  \E t \in Threads :
    \/ \E kind \in Kinds, w \in 1..3 : New(t, kind)
    \/ \E o \in Live :
         \/ \E n \in GoodKeys \cup BadKeys : SetKey(t, o, n)
         \/ \E n \in Pieces, g \in {0, 1} : Feed(t, o, n, g)
         \/ \E w \in 1..3 : Finish(t, o)
         \/ \E e \in {0, 1}, w \in 1..3 : Block(t, o, e)
    \/ \E f \in Functions : Apply(t, f, Len(hist) % 4)
Spec == Init /\ [][Next]_vars

Show == PrintT(<< "H", ToJson(hist') >>)
Emit == IF Mode = "walk" THEN (IF Len(hist') = Depth THEN Show ELSE TRUE) ELSE Show
=============================================================================
