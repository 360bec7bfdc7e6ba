------------------------------ MODULE MC_Keys ------------------------------
(***************************************************************************)
(* Keying at any moment, mid-message included, and use before it: each block is processed  *)
(* under the key in force when it was completed, whatever keys were in     *)
(* force or refused before.  One Cipher, one Decipher and one bare block   *)
(* cipher object live side by side; a call on one changes none of the      *)
(* others.                                                                 *)
(***************************************************************************)
EXTENDS ToyCipher
CONSTANTS InMax, PieceMax, Alphabet
Cbc == INSTANCE CbcStream WITH BL <- 2, KeyOK <- ToyKeyOK, Sched <- ToySched, Enc <- ToyEnc, Dec <- ToyDec
BL == 2
Keys == { <<0>>, <<2>>, <<1>> }
Objs == { "aes", "cipher", "decipher" }
Iv == << 1, 2 >>

VARIABLES o,      \* the three objects
          key,    \* last key accepted by each
          inp,    \* bytes fed to cipher and decipher
          log,    \* per object: << block completed, key in force >>
          out     \* per object: everything it returned
vars == << o, key, inp, log, out >>
Strings(n) == UNION {[1..k -> Alphabet] : k \in 0..n}

Init == /\ o = [aes |-> [key |-> Cbc!NoKey], cipher |-> Cbc!CipherNew(Iv), decipher |-> Cbc!DecipherNew(Iv)]
        /\ key = [x \in Objs |-> <<>>]
        /\ inp = [x \in Objs |-> <<>>] /\ log = [x \in Objs |-> <<>>] /\ out = [x \in Objs |-> <<>>]

SetKey(x, k) ==
  /\ o' = [o EXCEPT ![x] = Cbc!InitNext(@, k)]
  /\ key' = IF Cbc!InitReply(k).r = "ok" THEN [key EXCEPT ![x] = k] ELSE key
  /\ UNCHANGED << inp, log, out >>

\* blocks completed when p is fed after f
Done(f, p) == [i \in 1..((Len(f) + Len(p)) \div BL - Len(f) \div BL) |->
                 LET n == (Len(f) \div BL) + i IN SubSeq(f \o p, BL * n - 1, BL * n)]
\* a write refused for want of a key may keep bytes of the incomplete block; inp is what it kept
Feed(x, p) ==
  /\ x # "aes"
  /\ Len(inp[x]) + Len(p) <= InMax
  /\ \E w \in (IF x = "cipher" THEN Cbc!CipherWrite(o[x], p) ELSE Cbc!DecipherWrite(o[x], p)) :
       /\ o' = [o EXCEPT ![x] = w[2]]
       /\ out' = [out EXCEPT ![x] = @ \o w[1].out]
       /\ IF w[1].r = "ok"
          THEN /\ inp' = [inp EXCEPT ![x] = @ \o p]
               /\ log' = [log EXCEPT ![x] = @ \o [i \in 1..Len(Done(inp[x], p)) |-> << Done(inp[x], p)[i], key[x] >>]]
          ELSE /\ w[1] = Cbc!Err("NotInitialized") /\ key[x] = <<>>
               /\ inp' = [inp EXCEPT ![x] = IF x = "cipher" THEN w[2].pend ELSE w[2].cpend]
               /\ log' = log
  /\ UNCHANGED key
Next == \/ \E x \in Objs, k \in Keys : SetKey(x, k)
        \/ \E x \in Objs \ {"aes"}, p \in Strings(PieceMax) : Feed(x, p)
Spec == Init /\ [][Next]_vars

KeysExact == \A x \in Objs : o[x].key = IF key[x] = <<>> THEN Cbc!NoKey ELSE ToySched(key[x])
\* each block under its own key
CipherLog == LET r == FoldLeft(LAMBDA acc, e : LET c == ToyEnc(ToySched(e[2]), XorBytes(e[1], acc[1])) IN << c, acc[2] \o c >>,
                               << Iv, <<>> >>, log["cipher"])
             IN  out["cipher"] = r[2] /\ o["cipher"].iv = r[1]
DecipherLog == LET r == FoldLeft(LAMBDA acc, e : << e[1], acc[2] \o XorBytes(ToyDec(ToySched(e[2]), e[1]), acc[1]) >>,
                                 << Iv, <<>> >>, log["decipher"])
               IN  out["decipher"] \o o["decipher"].held = r[2] /\ o["decipher"].iv = r[1]
\* C15: an object moves only in its own steps, and then as it would alone
Isolated == [][ \A x \in Objs : (inp'[x] = inp[x] /\ key'[x] = key[x]) =>
                   (o'[x] = o[x] \/ o'[x] = Cbc!InitNext(o[x], key[x])) /\ out'[x] = out[x] ]_vars
=============================================================================
