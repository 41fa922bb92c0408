----------------------------- MODULE ArgsTrace -----------------------------
(* Conformance of recorded behaviour: every trace of the real library is   *)
(* walked call by call; the specification is applied to each call and what *)
(* the library showed is compared with what the specification says.        *)
(* A difference is a set of labels; Focus says which labels matter (the     *)
(* others are not evaluated, except OUT and REG: after those two the        *)
(* states are no longer comparable).                                        *)
EXTENDS World, TLCExt

CONSTANTS TraceFile, ResultFile, Focus, MaxReject, Known

Traces == ndJsonDeserialize(TraceFile)

VARIABLES tr, l, w,
          ds,  \* a difference outside Focus: only crashes, leaks and output matter from here on
          left \* what refused parses left behind: of[i], and what was seen of it
vars == <<tr, l, w, ds, left>>
View == <<tr, l>>

---------------------------------------------------------------------------
(* What the observation of object o should show *)

RECURSIVE DistinctFrom(_, _, _)
DistinctFrom(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE DistinctFrom(s, i + 1, IF s[i] = 0 \/ SeqHas(acc, s[i]) THEN acc ELSE Append(acc, s[i]))

NumEq(js, r) == IF r.is THEN js[1] = "1" /\ (Sure(r.val, 15) => js[2] = NumText(r.val, 15)) ELSE js = <<"0", "">>

\* elements of the argument as shown by operator[]
ElemsOf(a) == IF KindOf(a) \in ListKinds THEN a.elems ELSE <<>>

DefDiff(a, j) == ~( /\ j.names = a.names /\ j.action = a.action /\ j.nargs = a.nargs
                    /\ j.req = a.required /\ j.help = a.help /\ j.metavar = a.metavar
                    /\ j.defaults = a.defaults /\ j.def = DefaultText(a) )

ValDiff(a, j) ==
    LET es == ElemsOf(a)
        grp == KindOf(a) \in GroupKinds
    IN ~( /\ j.ex = a.exist /\ j.cnt = a.count /\ j.b = BoolOf(a) /\ j.s = TextOf(a)
          /\ Len(j.el) = Len(es)
          /\ \A i \in 1..Len(es) :
                IF grp THEN /\ Len(j.el[i].sub) = Len(es[i])
                            /\ \A k \in 1..Len(es[i]) : j.el[i].sub[k].s = es[i][k]
                ELSE j.el[i].s = es[i][1] /\ j.el[i].sub = <<>> )

AccDiff(a, j) ==
    LET es == ElemsOf(a)
        grp == KindOf(a) \in GroupKinds
    IN ~( /\ j.os = j.s /\ j.str = j.s
          /\ j.vec = VecOf(a) /\ j.vv = VecVecOf(a)
          /\ \A i \in 1..Len(j.el) :
                /\ j.el[i].o
                \* the default an element was made from: none if it was given
                /\ i <= Len(es) => j.el[i].d = (IF a.exist THEN "" ELSE Join(es[i], ", "))
                /\ j.el[i].ev = IF grp /\ i <= Len(es) /\ es[i] # <<>> THEN [k |-> "ok", v |-> es[i]] ELSE NoConv
                /\ \A k \in 1..Len(j.el[i].sub) : /\ j.el[i].sub[k].o /\ j.el[i].sub[k].deep = 0
                                                       /\ j.el[i].sub[k].d = (IF a.exist THEN "" ELSE j.el[i].sub[k].s) )

NumDiff(a, j) ==
    LET es == ElemsOf(a)
        grp == KindOf(a) \in GroupKinds
    IN ~( /\ NumEq(j.num, SelfNum(a)) /\ j.nc
          /\ \A i \in 1..Len(es) :
                i <= Len(j.el) =>
                IF grp THEN \A k \in 1..Len(es[i]) :
                                k <= Len(j.el[i].sub) => NumEq(j.el[i].sub[k].n, NumOf(a, es[i][k]))
                ELSE NumEq(j.el[i].n, NumOf(a, es[i][1])) )

ArgDiff(a, j) ==
    (IF "DEF" \in Focus /\ DefDiff(a, j) THEN {"DEF"} ELSE {})
    \cup (IF ~a.known THEN {}
          ELSE (IF "VAL" \in Focus /\ ValDiff(a, j) THEN {"VAL"} ELSE {})
               \cup (IF "ACC" \in Focus /\ AccDiff(a, j) THEN {"ACC"} ELSE {})
               \cup (IF "NUM" \in Focus /\ NumDiff(a, j) THEN {"NUM"} ELSE {}))

CellEq(js, c) == c.x \/ js = c.v
SlotDiff(s, j) ==
    LET want == IF s.shape = "vec" /\ s.v = <<>> THEN <<<<>>>> ELSE s.v
    IN s.known /\ ~( /\ Len(j.v) = Len(want)
                     /\ \A r \in 1..Len(want) :
                            /\ Len(j.v[r]) = Len(want[r])
                            /\ \A c \in 1..Len(want[r]) : CellEq(j.v[r][c], want[r][c])
                     /\ j.calls = s.calls )

SetOfSeq(s) == {s[i] : i \in 1..Len(s)}

ObsDiff(ww, e) ==
    LET o == ww.objs[e.o + 1]
        b == e.ob
        p == e.probe
        finds == TLCEval([i \in 1..Len(p) |-> Find(o.args, p[i])])
        uniq == DistinctFrom(finds, 1, <<>>)
        idx == TLCEval([i \in 1..Len(p) |-> IF finds[i] = 0 THEN 0 ELSE FirstIdx(uniq, finds[i], 1)])
        reg == ~( /\ b.ex = TLCEval([i \in 1..Len(p) |-> finds[i] # 0])
                  /\ b.idx = idx
                  /\ Len(b.args) = Len(uniq) )
    IN (IF reg THEN {"REG"}
        ELSE UNION {ArgDiff(o.args[uniq[i]], b.args[i]) : i \in 1..Len(uniq)})
       \cup (IF "ADDL" \in Focus /\ o.addlKnown /\ b.addl # o.addl THEN {"ADDL"} ELSE {})
       \cup (IF "MODE" \notin Focus THEN {}
             ELSE IF b.alt = o.alt /\ b.strict = o.strict /\ b.hex = o.hex /\ b.vex = o.vex
                     /\ b.version = o.version /\ b.binary = o.binary /\ b.desc = o.desc /\ b.epilog = o.epilog
             THEN {} ELSE {"MODE"})
       \cup (IF "SLOT" \in Focus /\ \E i \in 1..Len(b.slots) : SlotDiff(ww.slots[b.slots[i].slot], b.slots[i]) THEN {"SLOT"} ELSE {})
       \cup (IF "LIVE" \in Focus /\ SetOfSeq(b.live) # ww.live THEN {"LIVE"} ELSE {})
       \cup (IF "VLOG" \in Focus /\ b.vlog # ww.vlog THEN {"VLOG"} ELSE {})

\* the documented hierarchy: what an exception can be caught as
Bases(t) == CASE t \in {"Help", "Version", "Argument"} -> {"Exception", t}
              [] t \in {"AccessDenied", "Parse"} -> {"Exception", "Argument", t}
              [] t \in {"Required", "Valid"} -> {"Exception", "Argument", "Parse", t}
              [] t = "std" -> {}
              [] OTHER -> {t}
OutDiff(want, got) ==
    IF got.k = "crash" THEN {"CRASH"}
    ELSE IF want.k # got.k THEN {"OUT"}
    ELSE IF want.k = "exc"
    THEN (IF want.t # got.t \/ want.a # got.a THEN {"OUT"} ELSE {})
         \cup (IF want.t = got.t /\ want.w # got.w THEN (IF want.t = "Help" THEN {"USAGE"} ELSE {"WHAT"}) ELSE {})
         \cup (IF want.t = got.t /\ SetOfSeq(got.is) # Bases(got.t) THEN {"BASE"} ELSE {})
    ELSE IF want.k = "exit"
    THEN (IF want.code # got.code THEN {"OUT"} ELSE {})
         \cup (IF want.text # got.text THEN {"USAGE"} ELSE {})
    ELSE {}

---------------------------------------------------------------------------
(* What a refused parse leaves behind is not specified, but it depends only *)
(* on the definitions and the command line (P15): the same parse, on an      *)
(* object with another past, leaves the same.                                *)

NoLeft == [of |-> [i \in {} |-> 0], seen |-> <<>>]

\* all that may decide what is left: definitions without identities and texts
LeftKey(o, argv) ==
    [args |-> TLCEval([i \in 1..Len(o.args) |->
                 LET a == o.args[i]
                     d == a.dest
                     v == a.valid
                 IN [names |-> a.names, pos |-> a.pos, kind |-> a.kind, nargs |-> a.nargs, required |-> a.required,
                     defaults |-> a.defaults, valid |-> [v EXCEPT !.vid = 0, !.del = FALSE],
                     dest |-> IF d.slot = 0 THEN d ELSE [d EXCEPT !.slot = 1]]]),
     alt |-> o.alt, strict |-> o.strict, hex |-> o.hex, vex |-> o.vex, argv |-> Tail(argv)]

Nests(o) == \E i \in 1..Len(o.args) :
               (o.args[i].valid.k = "nest" \/ (o.args[i].dest.slot # 0 /\ o.args[i].dest.nest # <<>>))

\* the values shown, without the definition
LeftOf(j) == [ex |-> j.ex, cnt |-> j.cnt, b |-> j.b, s |-> j.s, vec |-> j.vec, vv |-> j.vv, num |-> j.num,
              el |-> TLCEval([i \in 1..Len(j.el) |-> [s |-> j.el[i].s, n |-> j.el[i].n,
                                              sub |-> TLCEval([k \in 1..Len(j.el[i].sub) |-> <<j.el[i].sub[k].s, j.el[i].sub[k].n>>])]])]

\* the observation e shows, for every argument it reaches
LeftSeen(ww, e) ==
    LET o == ww.objs[e.o + 1]
        uniq == DistinctFrom(TLCEval([i \in 1..Len(e.probe) |-> Find(o.args, e.probe[i])]), 1, <<>>)
    IN [at |-> TLCEval([i \in {uniq[k] : k \in 1..Len(uniq)} |-> LeftOf(e.ob.args[CHOOSE k \in 1..Len(uniq) : uniq[k] = i])]),
        addl |-> e.ob.addl]

LeftDiff(x, y) == x.addl # y.addl \/ \E i \in DOMAIN x.at \cap DOMAIN y.at : x.at[i] # y.at[i]

\* [left, d] after event e, w before and w2 after it
LeftStep(ww, w2, e) ==
    LET without(i) == [left EXCEPT !.of = [k \in DOMAIN @ \ {i} |-> @[k]]]
        o == ww.objs[e.o + 1]
    IN CASE e.op = "usage" \/ "o" \notin DOMAIN e -> [left |-> left, d |-> FALSE]
         [] e.op = "parse" /\ (e.out.k # "exc" \/ HelpBlocked(o) \/ (\E i \in 1..Len(ww.objs) : Nests(ww.objs[i]))) ->
              [left |-> IF \E i \in 1..Len(ww.objs) : Nests(ww.objs[i]) THEN [left EXCEPT !.of = NoLeft.of] ELSE without(e.o), d |-> FALSE]
         [] e.op = "parse" ->
              [left |-> [without(e.o) EXCEPT !.of = @ @@ (e.o :> LeftKey(AutoHelp(o), e.argv))], d |-> FALSE]
         [] e.op = "obs" /\ e.o \in DOMAIN left.of ->
              LET key == left.of[e.o]
                  now == LeftSeen(ww, e)
                  old == SelectSeq(left.seen, LAMBDA x : x.key = key)
              IN IF old = <<>> THEN [left |-> [left EXCEPT !.seen = Append(@, [key |-> key, seen |-> now])], d |-> FALSE]
                 ELSE [left |-> left, d |-> IF TLCSet(6, TLCGet(6) + 1) THEN LeftDiff(old[1].seen, now) ELSE FALSE]
         [] e.op = "obs" -> [left |-> left, d |-> FALSE]
         [] OTHER -> [left |-> without(e.o), d |-> FALSE]

---------------------------------------------------------------------------

\* all objects destroyed
RECURSIVE DestroyAll(_, _)
DestroyAll(ww, i) == IF i > Len(ww.objs) THEN ww ELSE DestroyAll(Replace(ww, i, NewObj), i + 1)

\* [w, diff, known] for one event
StepEv(ww, e) ==
    LET R(w2, d, kf) == [w |-> w2, diff |-> d, known |-> kf]
    IN CASE e.op = "crash" -> R(ww, {"CRASH"}, "")
         [] e.op = "obs" -> R(ww, ObsDiff(ww, e) \cup OutDiff(Ok, e.out), "")
         [] e.op = "usage" -> R(ww, (IF "USAGE" \in Focus /\ e.u # Usage(ww.objs[e.o + 1]) THEN {"USAGE"} ELSE {}) \cup OutDiff(Ok, e.out), "")
         [] e.op = "end" -> R(ww, (IF SetOfSeq(e.live) # DestroyAll(ww, 1).live THEN {"LIVE"} ELSE {})
                                  \cup (IF e.leak # 0 THEN {"LEAK"} ELSE {})
                                  \cup (IF e.said # 0 THEN {"SAID"} ELSE {}), "")
         [] OTHER ->
              LET r == Apply(ww, e)
                  d == OutDiff(r.out, e.out) \cup (IF e.out.k = "exit" /\ e.said # 0 THEN {"SAID"} ELSE {})
                  skipped == "K1" \in Known /\ e.op = "parse" /\ e.out.k = "ok" /\ HelpBlocked(ww.objs[e.o + 1])
              IN IF skipped THEN R(ParseSkipped(ww, e.o + 1), {}, IF d # {} THEN "K1" ELSE "")
                 ELSE R(r.w, d, "")

\* what the specification expects, for the report
Expect(ww, e) ==
    CASE e.op \in {"obs", "end", "crash"} -> [objs |-> ww.objs, slots |-> ww.slots, live |-> ww.live, vlog |-> ww.vlog]
      [] e.op = "usage" -> [u |-> Usage(ww.objs[e.o + 1])]
      [] OTHER -> [out |-> Apply(ww, e).out]

NSlots == 6
Ev == Traces[tr].ev

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ w = NewWorld(Traces[tr].nobj, NSlots)
        /\ ds = FALSE
        /\ left = NoLeft

\* registers: 1 finished traces, 2 events compared, 3 rejected, 4 known,
\* 5 traces with a difference outside Focus, 6 comparisons of what refused parses left
Bump(i) == TLCSet(i, TLCGet(i) + 1)
Note(i, x) == TLCSet(i, Append(TLCGet(i), x))

Finished(e) == e.op \in {"end", "crash"} \/ e.out.k = "exit"

Next ==
    /\ l <= Len(Ev)
    /\ LET e == Ev[l]
           s0 == StepEv(w, e)
           lf == IF "LEFT" \in Focus /\ ~ds /\ s0.diff \cap {"OUT", "REG", "CRASH"} = {} THEN TLCEval(LeftStep(w, s0.w, e)) ELSE [left |-> left, d |-> FALSE]
           s == IF lf.d THEN [s0 EXCEPT !.diff = @ \cup {"LEFT"}] ELSE s0
           d == s.diff \cap (IF ds THEN Focus \cap {"CRASH", "LEAK", "SAID"} ELSE Focus)
       IN /\ Bump(2)
          /\ IF s.known # "" THEN Note(4, [id |-> Traces[tr].id, at |-> l, k |-> s.known]) ELSE TRUE
          /\ IF d # {}
             THEN /\ IF Len(TLCGet(3)) < MaxReject
                     THEN Note(3, [id |-> Traces[tr].id, at |-> l, diff |-> d, expect |-> Expect(w, e)])
                     ELSE TRUE
                  /\ Bump(1)
                  /\ l' = Len(Ev) + 1
                  /\ UNCHANGED <<tr, w, ds, left>>
             ELSE IF Finished(e)
             THEN /\ Bump(1)
                  /\ l' = Len(Ev) + 1
                  /\ UNCHANGED <<tr, w, ds, left>>
             ELSE /\ IF l = Len(Ev)   \* cut short: neither end nor exit
                     THEN /\ Note(3, [id |-> Traces[tr].id, at |-> l, diff |-> {"CRASH"}, expect |-> [out |-> "more events"]])
                          /\ Bump(1)
                     ELSE TRUE
                  /\ l' = l + 1
                  /\ w' = s.w
                  /\ left' = lf.left
                  /\ ds' = (ds \/ s.diff \cap {"OUT", "REG"} # {})
                  /\ IF ds' /\ ~ds THEN Bump(5) ELSE TRUE
                  /\ UNCHANGED tr

ASSUME /\ TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, <<>>) /\ TLCSet(4, <<>>) /\ TLCSet(5, 0) /\ TLCSet(6, 0)

Post == JsonSerialize(ResultFile, [traces |-> Len(Traces), done |-> TLCGet(1), events |-> TLCGet(2),
                                   rejects |-> TLCGet(3), known |-> TLCGet(4), desync |-> TLCGet(5), left |-> TLCGet(6)])
=============================================================================
