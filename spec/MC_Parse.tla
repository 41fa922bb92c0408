------------------------------ MODULE MC_Parse ------------------------------
(* All command lines up to a length over an alphabet, for a family of      *)
(* definitions (profiles, read from a file: the calls that build the       *)
(* parser, the alphabet and the length).  Every line is one state; the     *)
(* properties are invariants, and every line is printed so that it can be  *)
(* replayed on the real code.                                              *)
EXTENDS Props

CONSTANTS ProfileFile, Check, CheckLen

RECURSIVE ApplyAll(_, _, _)
ApplyAll(w, ops, i) == IF i > Len(ops) THEN w ELSE ApplyAll(Apply(w, ops[i]).w, ops, i + 1)
\* kept in TLC registers: definitions that use recursive operators are
\* evaluated again at every mention
ASSUME /\ TLCSet(1, ndJsonDeserialize(ProfileFile))
       /\ TLCSet(2, TLCEval([i \in 1..Len(TLCGet(1)) |-> ApplyAll(NewWorld(1, 6), TLCGet(1)[i].ops, 1)]))
       \* fresh arguments with the automatic help option
       /\ TLCSet(3, TLCEval([i \in 1..Len(TLCGet(1)) |-> AutoHelp(Reset(TLCGet(2)[i].objs[1]))]))
Profiles == TLCGet(1)
Worlds == TLCGet(2)
Objs == TLCGet(3)

VARIABLES p, line, over
vars == <<p, line, over>>

Toks(q, ln) == TLCEval([i \in 1..Len(ln) |-> Profiles[q].toks[ln[i]]])
Final(q, ln) == Run(Machine(Objs[q].args, Toks(q, ln), Objs[q].alt, Objs[q].strict))
Hard(q, ln) == LET m == Final(q, ln) IN m.st = "err" /\ m.err.w \in HardReasons

Init == p \in 1..Len(Profiles) /\ line = <<>> /\ over = FALSE
\* a line that is beyond repair is extended by one more token only
Next == /\ Len(line) < Profiles[p].len
        /\ ~over
        /\ \E t \in 1..Len(Profiles[p].toks) : line' = Append(line, t)
        /\ over' = (line # <<>> /\ Hard(p, line))
        /\ UNCHANGED p

Argv == <<"prog">> \o Toks(p, line)
Call == ParseIn(Worlds[p], 1, Argv)
Want(x) == x \in Check /\ Len(line) <= CheckLen
A == Objs[p].args
More == {<<Profiles[p].toks[i]>> : i \in 1..Len(Profiles[p].toks)}

Emit == PrintT(<<"@", p, line, IF Final(p, line).st = "err" THEN Final(p, line).err.w ELSE Call.out.k>>)
InvPartition == Want("P01") => Partition(A, Final(p, line))
InvEquivalent == Want("P02") => Equivalent(A, Final(p, line))
InvArity == Want("P03") => LET m == Final(p, line) IN Arity(A, m) /\ FirstDefect(A, m)
InvPositionals == Want("P04") => Positionals(A, Final(p, line))
InvCounts == Want("P05") => LET m == Final(p, line) IN Counts(A, m) /\ NoStaleDefault(A, m)
InvDefaults == Want("P06") => NoStaleDefault(A, Final(p, line)) /\ DefsKept(Worlds[p], 1, Call)
InvPrecedence == Want("P07") => Precedence(Worlds[p], 1, Argv, Call)
InvAccepted == Want("P09") => Accepted(Worlds[p], 1, Argv, Call)
InvDefect == Want("P10") => LET m == Final(p, line)
                            IN /\ FirstDefect(A, m)
                               /\ \A x \in More : Stable(A, m, x)
                               /\ Precedence(Worlds[p], 1, Argv, Call)
InvDelivered == Want("P14") =>
    /\ Delivered(Worlds[p], 1, Argv, Call)
    \* a second parse of the same line extends what the first one left
    /\ (line # <<>> /\ Call.out.k # "exit") => Delivered(Call.w, 1, Argv, ParseIn(Call.w, 1, Argv))
InvAccessors == Want("P19") => AccessorsAgree(Worlds[p], 1, Call)
InvAfterEnd == Want("P22") => AfterEnd(A, Final(p, line))
InvAlt == Want("P23") => LET m == Final(p, line) IN AltOnlyAdds(A, m) /\ AltUnused(A, m) /\ Arity(A, m)
=============================================================================
