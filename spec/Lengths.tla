------------------------------ MODULE Lengths ------------------------------
(***************************************************************************)
(* What the streaming objects do to lengths, for messages and pieces of    *)
(* any length.  HashStream and CbcStream with contents forgotten: a hash,  *)
(* a Cipher whose output goes to a wire, and a Decipher that reads it.     *)
(*                                                                         *)
(* TLC shows that the machines with contents refine this one               *)
(* (MC_HashStream, MC_Channel: property Lengths); Apalache shows that Inv  *)
(* is inductive, for pieces of every length (MC_Lengths).                  *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS
  \* @type: Int;
  HB,              \* block length of the hash
  \* @type: Int;
  LB,              \* length of its length field
  \* @type: Int;
  CB,              \* block length of the cipher
  \* @type: Set(Int);
  Sizes            \* lengths of pieces
VARIABLES
  \* @type: Int;
  hfed,            \* hash: bytes fed, whole blocks absorbed, bytes of the block being filled
  \* @type: Int;
  hblk,
  \* @type: Int;
  hfill,
  \* @type: Int;
  cfed,            \* Cipher: bytes of this message given, ciphertext of it put out, bytes pending
  \* @type: Int;
  cout,
  \* @type: Int;
  cpend,
  \* @type: Int;
  msgs,            \* finished messages
  \* @type: Int;
  dfed,            \* Decipher: ciphertext of this message given, cleartext released, incomplete block, held back
  \* @type: Int;
  dout,
  \* @type: Int;
  dpend,
  \* @type: Int;
  held
HashSame == hfed' = hfed /\ hblk' = hblk /\ hfill' = hfill
CipherSame == cfed' = cfed /\ cout' = cout /\ cpend' = cpend /\ msgs' = msgs
DecipherSame == dfed' = dfed /\ dout' = dout /\ dpend' = dpend /\ held' = held

HashInit == hfed = 0 /\ hblk = 0 /\ hfill = 0
CipherInit == cfed = 0 /\ cout = 0 /\ cpend = 0 /\ msgs = 0
DecipherInit == dfed = 0 /\ dout = 0 /\ dpend = 0 /\ held = 0
Init == HashInit /\ CipherInit /\ DecipherInit

HashUpdate == \E n \in Sizes :
  /\ hfed' = hfed + n
  /\ hblk' = hblk + (hfill + n) \div HB
  /\ hfill' = (hfill + n) % HB
CipherWrite == \E n \in Sizes :
  /\ cfed' = cfed + n
  /\ cout' = cout + CB * ((cpend + n) \div CB)
  /\ cpend' = (cpend + n) % CB
  /\ msgs' = msgs
CipherFlush == cfed' = 0 /\ cout' = 0 /\ cpend' = 0 /\ msgs' = msgs + 1
DecipherWrite == \E n \in Sizes :
  LET k == (dpend + n) \div CB
      release == IF k = 0 THEN 0 ELSE held + CB * k - CB
  IN  /\ dfed' = dfed + n
      /\ dout' = dout + release
      /\ dpend' = (dpend + n) % CB
      /\ held' = held + CB * k - release
\* a flush that works, wherever it may: after whole blocks, one at least
DecipherFlush == dpend = 0 /\ held = CB /\ dfed' = 0 /\ dout' = 0 /\ dpend' = 0 /\ held' = 0
HashNext == HashUpdate
CipherNext == CipherWrite \/ CipherFlush
DecipherNext == DecipherWrite \/ DecipherFlush
Next == \/ HashNext /\ CipherSame /\ DecipherSame
        \/ CipherNext /\ HashSame /\ DecipherSame
        \/ DecipherNext /\ HashSame /\ CipherSame

----------------------------------------------------------------------------
\* C02: nothing is lost or counted twice, whatever the pieces
HashInv == hfill \in 0..(HB - 1) /\ hblk >= 0 /\ hfed = HB * hblk + hfill
\* C11: all complete blocks are out, less than a block is pending
CipherInv == cpend \in 0..(CB - 1) /\ cfed >= 0 /\ msgs >= 0 /\ cout = CB * (cfed \div CB) /\ cpend = cfed - cout
\* C12: everything but the last complete block is out
DecipherInv == /\ dpend \in 0..(CB - 1) /\ dfed >= 0
               /\ held = (IF dfed < CB THEN 0 ELSE CB)
               /\ dout + held = CB * (dfed \div CB) /\ dpend = dfed - dout - held
Inv == HashInv /\ CipherInv /\ DecipherInv
IndInit == /\ hfed \in Int /\ hblk \in Int /\ hfill \in Int /\ cfed \in Int /\ cout \in Int /\ cpend \in Int /\ msgs \in Int
           /\ dfed \in Int /\ dout \in Int /\ dpend \in Int /\ held \in Int
           /\ Inv

\* consequences
PadLen == LET z == (-(hfill + 1 + LB)) % HB IN 1 + z + LB
\* C01, C18: a digest pads to whole blocks, as few as hold a byte and the length field
PaddingFits == /\ (hfill + PadLen) % HB = 0
               /\ hblk + (hfill + PadLen) \div HB = (hfed + 1 + LB + HB - 1) \div HB
\* C11: the flush makes the ciphertext the next multiple of the block length above the message's
Whole == LET all == cout + CB IN all > cfed /\ all - cfed <= CB /\ all = CB * (cfed \div CB + 1)
\* C12, C14: a Decipher given just that much has whole blocks, holds one back, and what it has released
\* and may still release brackets the message
Back == \A m \in {dfed - v : v \in 1..CB} :
          (m >= 0 /\ dfed = CB * (m \div CB + 1)) =>
             /\ dpend = 0 /\ held = CB
             /\ m - dout \in 0..(CB - 1)          \* padding of CB - (m - dout) bytes, 1 to CB
Consequences == PaddingFits /\ Whole /\ Back
=============================================================================
