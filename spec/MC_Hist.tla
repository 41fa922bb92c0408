------------------------------- MODULE MC_Hist -------------------------------
(* All histories of calls up to a length over an alphabet of calls, for a  *)
(* family of starting points (profiles, read from a file).  States that    *)
(* differ only in how they were reached are the same state (VIEW), so TLC  *)
(* visits every reachable world once and takes every transition out of it; *)
(* every transition is printed with a shortest history, so that it can be  *)
(* replayed on the real code.                                              *)
EXTENDS Props

CONSTANTS ProfileFile, Check

RECURSIVE ApplyAll(_, _, _)
ApplyAll(w, ops, i) == IF i > Len(ops) THEN w ELSE ApplyAll(Apply(w, ops[i]).w, ops, i + 1)
ASSUME /\ TLCSet(1, ndJsonDeserialize(ProfileFile))
       /\ TLCSet(2, TLCEval([i \in 1..Len(TLCGet(1)) |-> ApplyAll(NewWorld(TLCGet(1)[i].nobj, 6), TLCGet(1)[i].init, 1)]))
Profiles == TLCGet(1)
Worlds == TLCGet(2)

VARIABLES p, h, w,
          reg,      \* ghost: who owns which name, {[o, n, id]}
          nid,      \* ghost: arguments created so far
          handed,   \* ghost: validators handed over, {[vid, del]}
          last      \* ghost: the last call and what it did
vars == <<p, h, w, reg, nid, handed, last>>
Alpha == Profiles[p].alpha
None == [op |-> "none"]
Left == last # None /\ last.out.k = "exit"      \* the program has ended
View == <<p, w, handed, Left, IF Profiles[p].deep THEN h ELSE <<>>>>

---------------------------------------------------------------------------
(* An independent account of the names: which are given to which argument, *)
(* whatever the arguments are                                              *)

Owner(r, o, n) == {e.id : e \in {x \in r : x.o = o /\ x.n = n}}
Mine(r, o, id) == {e.n : e \in {x \in r : x.o = o /\ x.id = id}}
WellFormed(n) == /\ n \notin {"", "-", "--"} /\ Ch(n, 1) = "-"
                 /\ (Ch(n, 2) = "-" \/ Len(n) = 2)
AsPositional(names) == Len(names) = 1 /\ (names[1] = "" \/ Ch(names[1], 1) # "-")
Taken1(r, o, n) == Owner(r, o, n) # {}

\* is the call acceptable as far as the names are concerned
NamesOk(r, op) ==
    CASE op.op = "add" -> /\ op.names # <<>>
                          /\ \A i \in 1..Len(op.names) : ~Taken1(r, op.o, op.names[i])
                          /\ AsPositional(op.names) => op.names[1] # ""
                          /\ ~AsPositional(op.names) => \A i \in 1..Len(op.names) : WellFormed(op.names[i])
      [] op.op = "flag" -> /\ Taken1(r, op.o, op.n) /\ ~Taken1(r, op.o, op.v) /\ WellFormed(op.v)
                           /\ Ch(op.n, 1) = "-"
      [] op.op = "remove" -> op.names # <<>> /\ \A i \in 1..Len(op.names) : Taken1(r, op.o, op.names[i])
      [] op.op = "get" -> Taken1(r, op.o, op.n)
      [] OTHER -> TRUE
NewReg(r, k, op) ==
    CASE op.op = "add" -> r \cup {[o |-> op.o, n |-> op.names[i], id |-> k] : i \in 1..Len(op.names)}
      [] op.op = "flag" -> r \cup {[o |-> op.o, n |-> op.v, id |-> CHOOSE x \in Owner(r, op.o, op.n) : TRUE]}
      [] op.op = "remove" -> {e \in r : ~(e.o = op.o /\ \E i \in 1..Len(op.names) : e.n = op.names[i])}
      [] op.op \in {"clear", "new", "destroy"} -> {e \in r : e.o # op.o}
      [] op.op = "parse" -> r   \* see RegAfterParse
      [] OTHER -> r
\* a parse adds the automatic help option, or leaves nothing after exit
RegAfterParse(r, k, op, out) ==
    IF out.k = "exit" THEN {e \in r : e.o # op.o}
    ELSE IF HelpIdx(w.objs[op.o + 1].args) # 0 THEN r
    ELSE r \cup {[o |-> op.o, n |-> x, id |-> k] : x \in {y \in {"-h", "--help"} : ~Taken1(r, op.o, y)}}

---------------------------------------------------------------------------

\* a validator is given to one argument, several arguments share one only if
\* it is never given away, and an argument may be given its own once more;
\* a user variable is given to one argument; nothing but a new object follows
\* the end of an object
Users(vid) == {<<k, i>> \in (1..Len(w.objs)) \X (1..20) : i <= Len(w.objs[k].args) /\ w.objs[k].args[i].valid.vid = vid}
MayHand(op) == LET before == {x \in handed : x.vid = op.v.vid}
                   a == Find(w.objs[op.o + 1].args, op.n)
               IN \/ before = {}
                  \/ ~op.v.del /\ \A x \in before : ~x.del
                  \/ a # 0 /\ Users(op.v.vid) = {<<op.o + 1, a>>}
Enabled(op) == /\ op.op = "valid" => MayHand(op)
               /\ op.op = "dest" => w.slots[op.slot].shape = "none"
               /\ w.objs[op.o + 1].alive <=> op.op # "new"

Init == /\ p \in 1..Len(Profiles)
        /\ h = <<>>
        /\ w = Worlds[p]
        /\ reg = UNION {{[o |-> k - 1, n |-> w.objs[k].args[i].names[j], id |-> 1000 * k + i] :
                            j \in 1..Len(w.objs[k].args[i].names)} :
                        <<k, i>> \in {<<k, i>> \in (1..Len(w.objs)) \X (1..20) : i <= Len(w.objs[k].args)}}
        /\ nid = 1
        /\ handed = {[vid |-> v, del |-> FALSE] : v \in {}}
        /\ last = None

Next == /\ Len(h) < Profiles[p].len
        /\ ~Left
        /\ \E i \in 1..Len(Alpha) :
              LET op == Alpha[i]
                  r == Apply(w, op)
              IN /\ Enabled(op)
                 /\ w' = r.w
                 /\ h' = Append(h, i)
                 /\ reg' = IF op.op = "parse" THEN RegAfterParse(reg, nid, op, r.out)
                           ELSE IF r.out = Ok THEN NewReg(reg, nid, op) ELSE reg
                 /\ nid' = nid + 1
                 /\ handed' = IF op.op = "valid" /\ r.out = Ok /\ op.v.vid # 0
                              THEN {x \in handed : x.vid # op.v.vid} \cup {[vid |-> op.v.vid, del |-> op.v.del]} ELSE handed
                 /\ last' = [op |-> op.op, i |-> i, out |-> r.out, same |-> r.w = w, names |-> NamesOk(reg, op)]
                 /\ PrintT(<<"@", p, h, i, r.out.k, r.w = w>>)
        /\ UNCHANGED p

---------------------------------------------------------------------------
Want(x) == x \in Check
NamesIn(k) == UNION {Range1(w.objs[k].args[i].names) : i \in 1..Len(w.objs[k].args)}

\* P11: one owner per name, the registry agrees with the independent account,
\* and a call about names is accepted exactly when that account allows it
InvNames == Want("P11") =>
    \A k \in 1..Len(w.objs) :
        LET as == w.objs[k].args
            o == k - 1
        IN /\ \A i \in 1..Len(as) : /\ as[i].names # <<>>
                                    /\ Len(as[i].names) = Cardinality(Range1(as[i].names))
                                    /\ as[i].pos => Len(as[i].names) = 1
           /\ \A i, j \in 1..Len(as) : i # j => Range1(as[i].names) \cap Range1(as[j].names) = {}
           /\ NamesIn(k) = {e.n : e \in {x \in reg : x.o = o}}
           /\ \A x, y \in NamesIn(k) : (Find(as, x) = Find(as, y)) <=> (Owner(reg, o, x) = Owner(reg, o, y))
           /\ \A x \in NamesIn(k) : Cardinality(Owner(reg, o, x)) = 1
\* (last is set by the transition, which need not lead to a new state:
\* these two are checked on transitions)
AcceptOk == (Want("P11") /\ last'.op \in {"add", "remove", "get", "flag"}) => (last'.out = Ok) = last'.names

\* P12: refused calls change nothing; at most one help and version option
RefusedOk == (Want("P12") /\ last'.op # "parse" /\ last'.out.k = "exc") => last'.same
InvRefused == Want("P12") =>
    /\ \A k \in 1..Len(w.objs) : \A act \in {"HELP", "VERSION"} :
          LET n == {i \in 1..Len(w.objs[k].args) : w.objs[k].args[i].action = act}
          IN Cardinality(n) <= 1 /\ \A i \in n : ~w.objs[k].args[i].pos
    /\ \A k \in 1..Len(w.objs) : \A i \in 1..Len(w.objs[k].args) : w.objs[k].args[i].kind # "BAD"

\* P13: kind and values are functions of the definition, and calls that
\* define different things commute
Meaning(a) == [a EXCEPT !.known = TRUE, !.parsed = FALSE]
DefOps == {"action", "nargs", "defaults", "help", "metavar", "required", "dest", "flag"}
InvDefined == Want("P13") =>
    /\ \A k \in 1..Len(w.objs) : \A i \in 1..Len(w.objs[k].args) :
          LET a == w.objs[k].args[i]
          IN /\ a.kind = KindRec(a.pos, a.action, a.nargs).k
             /\ KindRec(a.pos, a.action, a.nargs).action = a.action /\ KindRec(a.pos, a.action, a.nargs).nargs = a.nargs
             /\ DefaultsOk(a.kind, a.nargs, a.defaults)
             /\ ~a.parsed => /\ ReportedRows(a) = ReportedRows(WithDefaults(a))
                             /\ a.kind \in ListKinds => FlattenSeq2(a.elems) = (IF a.nargs > 0 THEN a.defaults ELSE <<>>)
                             /\ a.kind \in GroupKinds => \A r \in Range1(a.elems) : Len(r) = a.nargs
InvCommute == Want("P13") =>
    \A i, j \in 1..Len(Alpha) :
        LET x == Alpha[i]
            y == Alpha[j]
        IN (i < j /\ x.op \in DefOps /\ y.op \in DefOps /\ Enabled(x) /\ Enabled(y) /\ (x.op # y.op \/ x.n # y.n)
            /\ (x.op = "flag" => y.op # "flag") /\ {x.op, y.op} # {"dest"}) =>
           LET x1 == Apply(w, x)
               xy == Apply(x1.w, y)
               y1 == Apply(w, y)
               yx == Apply(y1.w, x)
           IN (x1.out = Ok /\ xy.out = Ok /\ y1.out = Ok /\ yx.out = Ok) =>
              \A k \in 1..Len(w.objs) :
                  \* every argument that has its final definition has the same meaning
                  \A a \in Range1(xy.w.objs[k].args) : \E b \in Range1(yx.w.objs[k].args) :
                      /\ a.names = b.names
                      /\ ([a EXCEPT !.action = b.action, !.nargs = b.nargs, !.kind = b.kind] = a) => Meaning(a) = Meaning(b)

\* P16
ClearedOk == (Want("P16") /\ last'.op \in {"clear", "new"}) => w'.objs[Alpha[last'.i].o + 1] = NewObj

\* P18: owned validators are alive exactly while an argument uses them;
\* validators that were not given away are never destroyed
InvOwned == Want("P18") =>
    LET used == UNION {{w.objs[k].args[i].valid.vid : i \in 1..Len(w.objs[k].args)} : k \in 1..Len(w.objs)} \ {0}
    IN w.live = {x.vid : x \in {y \in handed : ~y.del \/ y.vid \in used}}

\* P24: what the other objects do is invisible
InvApart == Want("P24") =>
    \A k \in 1..Len(w.objs) :
        LET RECURSIVE Own(_, _)
            Own(ww, i) == IF i > Len(h) THEN ww
                          ELSE Own(IF Alpha[h[i]].o + 1 = k THEN Apply(ww, Alpha[h[i]]).w ELSE ww, i + 1)
            alone == Own(Worlds[p], 1)
        IN alone.objs[k] = w.objs[k]

\* P15: parsing again gives what a freshly built object would give
ParseOps == {i \in 1..Len(Alpha) : Alpha[i].op = "parse"}
Pristine(ww) == [ww EXCEPT !.objs = TLCEval([k \in 1..Len(@) |-> [@[k] EXCEPT !.args = TLCEval([i \in 1..Len(@) |->
                    [WithDefaults(@[i]) EXCEPT !.exist = FALSE, !.count = 0, !.num = FALSE, !.parsed = FALSE, !.known = TRUE]]),
                    !.addl = <<>>, !.addlKnown = TRUE]])]
InvIndependent == Want("P15") =>
    \A i \in ParseOps : LET k == Alpha[i].o + 1
                        IN Independent(w, k, Alpha[i].argv, ParseIn(w, k, Alpha[i].argv), Pristine(w))

\* P07, P08, P10 on every parse that follows the history
InvEachParse == Want("P08") =>
    \A i \in ParseOps : LET k == Alpha[i].o + 1 IN Precedence(w, k, Alpha[i].argv, ParseIn(w, k, Alpha[i].argv))

\* the properties of one command line, on what a history of definitions built
LineOps == {i \in 1..Len(Profiles[p].tail) : Profiles[p].tail[i].op = "parse"}
LineOk(k, argv) ==
    LET o == AutoHelp(Reset(w.objs[k]))
        A == o.args
        m == Run(Machine(A, Tail(argv), o.alt, o.strict))
    IN /\ Want("P01") => Partition(A, m)
       /\ Want("P02") => Equivalent(A, m)
       /\ Want("P03") => Arity(A, m) /\ FirstDefect(A, m)
       /\ Want("P04") => Positionals(A, m)
       /\ Want("P05") => Counts(A, m) /\ NoStaleDefault(A, m)
       /\ Want("P06") => NoStaleDefault(A, m) /\ DefsKept(w, k, ParseIn(w, k, argv))
       /\ Want("P07") => Precedence(w, k, argv, ParseIn(w, k, argv))
       /\ Want("P10") => FirstDefect(A, m) /\ Precedence(w, k, argv, ParseIn(w, k, argv))
       /\ Want("P19") => AccessorsAgree(w, k, ParseIn(w, k, argv))
       /\ Want("P22") => AfterEnd(A, m)
       /\ Want("P23") => AltOnlyAdds(A, m) /\ AltUnused(A, m)
InvLines == ~Left =>
    \A i \in LineOps : LET t == Profiles[p].tail[i]
                       IN (w.objs[t.o + 1].alive /\ ~HelpBlocked(w.objs[t.o + 1])) => LineOk(t.o + 1, t.argv)

\* P17
InvUsage == Want("P17") => \A k \in 1..Len(w.objs) : UsageOk(w.objs[k])

Transitions == [][AcceptOk /\ RefusedOk /\ ClearedOk /\ InvNames']_vars
=============================================================================
