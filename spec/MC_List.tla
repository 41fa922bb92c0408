------------------------------ MODULE MC_List ------------------------------
(* All ways of building a list: a form to start with, then changes.        *)
EXTENDS Lists

CONSTANTS ProfileFile
ASSUME TLCSet(1, ndJsonDeserialize(ProfileFile))
Profiles == TLCGet(1)

VARIABLES p, h, v,
          wr    \* ghost: for every place, what was written to it, oldest first
vars == <<p, h, v, wr>>
Steps == Profiles[p].steps

Init == p \in 1..Len(Profiles) /\ h = <<>> /\ v = <<>> /\ wr = <<>>

One(x) == <<<<x>>>>
Written(st) ==
    CASE st.s = "empty" -> <<>>
      [] st.s = "sized" -> TLCEval([i \in 1..st.n |-> <<"">>])
      [] st.s = "set" -> [wr EXCEPT ![st.i + 1] = Append(@, st.x)]
      [] st.s = "plus2" -> wr \o One(st.x) \o One(st.y)
      [] st.s = "copy" -> wr
      [] "x" \in DOMAIN st -> wr \o One(st.x)
      [] OTHER -> TLCEval([i \in 1..Len(st.l) |-> <<st.l[i]>>])

Next == /\ Len(h) < Profiles[p].len
        /\ \E i \in 1..Len(Steps) :
              /\ Steps[i].s = "set" => Steps[i].i < Len(v)
              /\ (h # <<>> /\ ("l" \in DOMAIN Steps[i] \/ Steps[i].s \in {"empty", "sized"})) => Profiles[p].restart
              /\ h' = Append(h, i)
              /\ v' = BuildStep(v, Steps[i])
              /\ wr' = Written(Steps[i])
        /\ UNCHANGED p

Emit == PrintT(<<"@", p, h>>)
\* exactly the given strings, in the order given, the last writing of a place counts
InvList == /\ Len(v) = Len(wr)
           /\ \A i \in 1..Len(v) : v[i] = wr[i][Len(wr[i])]
           /\ v = Build(TLCEval([i \in 1..Len(h) |-> Steps[h[i]]]))
=============================================================================
