----------------------------- MODULE MC_Lengths -----------------------------
\* Lengths with the real constants and pieces of every length, for Apalache: Init => Inv, Inv /\ Next => Inv',
\* Inv => Consequences.
EXTENDS Lengths
CInit == HB = 64 /\ LB = 8 /\ CB = 16 /\ Sizes = Nat
=============================================================================
