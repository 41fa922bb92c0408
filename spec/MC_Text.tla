------------------------------ MODULE MC_Text ------------------------------
(* All texts up to a length over an alphabet, read as numbers and wrapped  *)
(* at several widths.  One state per text; every text is printed.          *)
EXTENDS Props

CONSTANTS ProfileFile, Check
ASSUME TLCSet(1, ndJsonDeserialize(ProfileFile))
Profiles == TLCGet(1)

VARIABLES p, ix
vars == <<p, ix>>

RECURSIVE TextFrom(_, _)
TextFrom(q, i) == IF i > Len(ix) THEN "" ELSE Profiles[q].chars[ix[i]] \o TextFrom(q, i + 1)
Text == TextFrom(p, 1)

Init == p \in 1..Len(Profiles) /\ ix = <<>>
Next == /\ Len(ix) < Profiles[p].len
        /\ \E c \in 1..Len(Profiles[p].chars) : ix' = Append(ix, c)
        /\ UNCHANGED p

Emit == PrintT(<<"@", p, ix>>)
InvWrap == "P17" \in Check => \A w \in Range1(Profiles[p].widths) : Wrapped(Text, w)
InvNumber == "P21" \in Check => NumberOk(Text)
InvWhole == "P09" \in Check => WholeOk(Text)
=============================================================================
