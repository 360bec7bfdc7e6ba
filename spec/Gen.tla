-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Behaviours of one object, abstracted to what decides which branch a     *)
(* call takes: the key size in force, the fill of the current block,       *)
(* whether a deciphered block is held and looks like padding, whether a    *)
(* message was finished before, and how many blocks went by.  This is the  *)
(* quotient of the machines of HashStream and CbcStream under forgetting   *)
(* contents.  (`hurt`: a call was refused for want of a key.)              *)
(*                                                                         *)
(* Exhaustive mode (VIEW Abstract): TLC prints the history of every        *)
(* transition of the quotient, which the driver turns into one run of the  *)
(* real code each.  Simulation mode: random walks of Depth calls.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Kind, BL, Pieces, GoodKeys, BadKeys, Messages, Depth, Mode

VARIABLES key, fill, held, msgs, late, hurt, dead, hist
vars == << key, fill, held, msgs, late, hurt, dead, hist >>
Abstract == << key, fill, held, msgs, late, hurt, dead >>

Init == key = 0 /\ fill = 0 /\ held = "no" /\ msgs = 0 /\ late = FALSE /\ hurt = FALSE /\ dead = FALSE /\ hist = <<>>

Step(rec) == ~ dead /\ hist' = Append(hist, rec)
Keyed == Kind \in {"aes", "cipher", "decipher"}

SetKey(n) ==
  /\ Keyed /\ Step([a |-> "init", n |-> n, g |-> 0])
  /\ key' = IF n \in GoodKeys THEN n ELSE key
  /\ UNCHANGED << fill, held, msgs, late, hurt, dead >>

Feed(n, g) ==
  /\ Kind # "aes"
  /\ (Kind # "decipher" \/ fill + n < BL) => g = 0
  /\ Step([a |-> "feed", n |-> n, g |-> g])
  /\ hurt' = (hurt \/ (Keyed /\ key = 0 /\ fill + n >= BL))
  /\ fill' = (fill + n) % BL
  /\ held' = IF Kind = "decipher" /\ fill + n >= BL /\ key # 0 THEN (IF g = 1 THEN "good" ELSE "bad") ELSE held
  /\ late' = (late \/ (fill + n >= BL /\ ~ Keyed))
  /\ UNCHANGED << key, msgs, dead >>

Flush ==
  /\ Kind \in {"cipher", "decipher"} /\ Step([a |-> "flush", n |-> 0, g |-> 0])
  /\ IF Kind = "cipher"
     THEN hurt' = (hurt \/ key = 0) /\ fill' = 0 /\ held' = held
          /\ msgs' = IF key # 0 /\ msgs < Messages THEN msgs + 1 ELSE msgs
     ELSE /\ hurt' = hurt /\ fill' = fill
          /\ IF fill = 0 /\ held = "good"
             THEN held' = "no" /\ msgs' = (IF msgs < Messages THEN msgs + 1 ELSE msgs)
             ELSE held' = held /\ msgs' = msgs
  /\ UNCHANGED << key, late, dead >>

Digest ==
  /\ Kind \in {"sha", "hmac"} /\ Step([a |-> "digest", n |-> 0, g |-> 0])
  /\ dead' = TRUE
  /\ UNCHANGED << key, fill, held, msgs, late, hurt >>

Block(e) ==
  /\ Kind = "aes" /\ Step([a |-> "block", n |-> e, g |-> 0])
  /\ UNCHANGED << key, fill, held, msgs, late, hurt, dead >>

Next == \/ \E n \in GoodKeys \cup BadKeys : SetKey(n)
        \/ \E n \in Pieces, g \in {0, 1} : Feed(n, g)
        \/ Flush
        \/ Digest
        \/ \E e \in {0, 1} : Block(e)
Spec == Init /\ [][Next]_vars

Show == PrintT(<< "H", ToJson(hist') >>)
\* a walk ends with its Depth-th call, and dies (digest) no earlier
Emit == IF Mode = "walk"
        THEN IF Len(hist') = Depth THEN Show ELSE ~ dead'
        ELSE Show
=============================================================================
