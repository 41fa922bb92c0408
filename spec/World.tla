------------------------------- MODULE World -------------------------------
(* Everything a program using the library can see: the parser objects, the *)
(* user variables given to dest() (slots), the validators alive and the    *)
(* calls made to them.  Apply(w, op) is the effect of one public call.     *)
EXTENDS UsageText

NoSlot == [shape |-> "none", known |-> TRUE, v |-> <<>>, calls |-> <<>>]

NewWorld(nobj, nslot) ==
    [objs |-> TLCEval([i \in 1..nobj |-> NewObj]),
     slots |-> TLCEval([i \in 1..nslot |-> NoSlot]),
     live |-> {},      \* validators not yet destroyed
     vlog |-> <<>>]    \* validator calls of the last parse

Res(w, out) == [w |-> w, out |-> out]
WithObj(w, i, r) == Res([w EXCEPT !.objs[i] = r.o], r.out)

---------------------------------------------------------------------------
(* Lifetimes: validators owned by arguments *)

OwnedBy(args) == {args[i].valid.vid : i \in {j \in 1..Len(args) : args[j].valid.del /\ args[j].valid.vid # 0}}

\* replace object i; validators owned by arguments that are gone die
Replace(w, i, o2) == [w EXCEPT !.objs[i] = o2, !.live = @ \ (OwnedBy(w.objs[i].args) \ OwnedBy(o2.args))]

---------------------------------------------------------------------------
(* Parsing *)

Reset(o) == [o EXCEPT !.args = TLCEval([i \in 1..Len(@) |-> Fresh(@[i])]), !.addl = <<>>, !.addlKnown = TRUE]

\* both automatic help flags belong to other arguments and there is no help
\* option (known finding K1: the implementation then parses nothing)
HelpBlocked(o) == HelpIdx(o.args) = 0 /\ Exists(o, "-h") /\ Exists(o, "--help")

AutoHelpNames(o) == (IF Exists(o, "-h") THEN <<>> ELSE <<"-h">>)
                    \o (IF Exists(o, "--help") THEN <<>> ELSE <<"--help">>)
AutoHelp(o) ==
    IF HelpIdx(o.args) # 0 \/ AutoHelpNames(o) = <<>> THEN o
    ELSE LET a == [NewArg(AutoHelpNames(o), FALSE) EXCEPT
                       !.action = "HELP", !.kind = "HELP", !.nargs = 0, !.help = "show this help message and exit"]
         IN [o EXCEPT !.args = Ordered(Append(@, Fresh(a)))]

\* what a failed parse leaves: definitions intact, values unspecified
Unknown(o) == [o EXCEPT !.args = TLCEval([i \in 1..Len(@) |-> [Fresh(@[i]) EXCEPT !.known = FALSE]]),
                        !.addl = <<>>, !.addlKnown = FALSE]

MissingFrom(args) == {i \in 1..Len(args) : args[i].required /\ ~args[i].exist}

\* calls that a validator or a custom destination makes on other objects:
\* the same calls at that moment (their outcomes are theirs)
RECURSIVE Apply(_, _)
RECURSIVE Nested(_, _, _)
Nested(w, ops, i) ==
    IF i > Len(ops) THEN w
    ELSE LET w2 == Apply(w, ops[i]).w
         IN Nested([w2 EXCEPT !.vlog = IF ops[i].op = "parse" THEN w.vlog \o @ ELSE @], ops, i + 1)

\* an exception of the program's own (a validator or a custom destination):
\* it ends the parse and reaches the caller as it is
Raised == Exc("std", "raised", "")

\* validation, number reading and delivery, argument by argument
\* acc: [args, w, err]
RECURSIVE Finish(_, _)
Finish(acc, i) ==
    IF i > Len(acc.args) \/ acc.err # Ok THEN acc
    ELSE LET a == acc.args[i]
             check == a.exist /\ a.valid.k # "none"
             c == CheckArg(a)
             w1 == IF check THEN [acc.w EXCEPT !.vlog = Append(@, [vid |-> a.valid.vid, vs |-> c.vs])] ELSE acc.w
             w2 == IF check /\ a.valid.k = "nest" THEN Nested(w1, a.valid.nest, 1) ELSE w1
             b == [(IF check THEN c.a ELSE a) EXCEPT !.num = TRUE]
         IN IF check /\ ~c.ok
            THEN [acc EXCEPT !.err = IF a.valid.k = "raise" /\ c.w = "raised" THEN Raised ELSE Exc("Valid", c.w, Front(a)), !.w = w2]
            ELSE IF NeedsUnsupported(b)
            THEN [acc EXCEPT !.err = Exc("Parse", "destination method not found for this type", ""), !.w = w2]
            ELSE LET w3 == IF b.dest.slot = 0 THEN w2 ELSE [w2 EXCEPT !.slots[b.dest.slot] = Deliver(@, b)]
                     called == b.dest.slot # 0 /\ b.dest.custom /\ w3.slots[b.dest.slot].calls # w2.slots[b.dest.slot].calls
                     w4 == IF called THEN Nested(w3, b.dest.nest, 1) ELSE w3
                     boom == called /\ b.dest.boom /\ \E r \in 1..Len(CustomRows(b)) : SeqHas(CustomRows(b)[r], "boom")
                 IN IF boom THEN [acc EXCEPT !.err = Raised, !.w = w4]
                    ELSE Finish([acc EXCEPT !.args[i] = b, !.w = w4], i + 1)

Taint(slots, args) ==
    TLCEval([s \in 1..Len(slots) |-> IF \E i \in 1..Len(args) : args[i].dest.slot = s
                             THEN [slots[s] EXCEPT !.known = FALSE] ELSE slots[s]])

ParseIn(w, oi, argv) ==
    LET o1 == AutoHelp(Reset(w.objs[oi]))
        o2 == [o1 EXCEPT !.binary = IF @ = "" THEN argv[1] ELSE @]
        m == Run(Machine(o2.args, Tail(argv), o2.alt, o2.strict))
        parsed == [o2 EXCEPT !.args = m.args, !.addl = m.addl]
        h == HelpIdx(m.args)
        v == VersionIdx(m.args)
        w0 == [w EXCEPT !.vlog = <<>>]
        Stop(exc, o) == Res([w0 EXCEPT !.objs[oi] = Unknown(o)], exc)
        Leave(text) == Res(Replace(w0, oi, NewObj), [k |-> "exit", code |-> 0, text |-> text \o "\n"])
        fin == Finish([args |-> m.args, w |-> w0, err |-> Ok], 1)
        miss == MissingFrom(m.args)
        first == m.args[CHOOSE i \in miss : \A j \in miss : i <= j]
    IN IF m.st = "err" THEN Stop(m.err, parsed)
       ELSE IF h # 0 /\ m.args[h].exist
       THEN IF o2.hex THEN Stop(Exc("Help", Usage(o2), ""), parsed) ELSE Leave(Usage(o2))
       ELSE IF v # 0 /\ m.args[v].exist
       THEN IF o2.vex THEN Stop(Exc("Version", o2.version, ""), parsed) ELSE Leave(o2.version)
       ELSE IF miss # {}
       THEN Stop(Exc("Required", IF KindOf(first) = "POS" THEN "argument is required" ELSE "option is required",
                     Front(first)), parsed)
       ELSE IF fin.err # Ok
       THEN Res([fin.w EXCEPT !.objs[oi] = Unknown(parsed), !.slots = Taint(@, m.args)], fin.err)
       ELSE Res([fin.w EXCEPT !.objs[oi] = [parsed EXCEPT !.args = fin.args]], Ok)

\* known finding K1: the call returns although nothing was parsed
ParseSkipped(w, oi) == [w EXCEPT !.objs[oi] = Unknown(@), !.slots = Taint(@, w.objs[oi].args), !.vlog = <<>>]

---------------------------------------------------------------------------
(* One public call.  Calls on an argument look the name up first.          *)

ArgOps == {"flag", "action", "nargs", "defaults", "help", "metavar", "required", "valid", "dest", "copy"}

OnArg(w, op) ==
    LET i == op.o + 1
        o == w.objs[i]
        n == op.n
        a == o.args[Find(o.args, n)]
        SetValid(x) == [x EXCEPT !.valid = op.v]
        SetDest(x) == [x EXCEPT !.dest = [slot |-> op.slot, type |-> op.type, shape |-> op.shape, custom |-> op.custom, nest |-> IF "nest" \in DOMAIN op THEN op.nest ELSE <<>>,
                                      boom |-> "boom" \in DOMAIN op]]
    IN CASE op.op = "flag"     -> WithObj(w, i, AddFlag(o, n, op.v))
         [] op.op = "action"   -> WithObj(w, i, DefAction(o, n, op.v))
         [] op.op = "nargs"    -> WithObj(w, i, DefNargs(o, n, op.v))
         [] op.op = "defaults" -> WithObj(w, i, DefDefaults(o, n, Listed(op, "v")))
         [] op.op = "help"     -> WithObj(w, i, DefHelp(o, n, op.v))
         [] op.op = "metavar"  -> WithObj(w, i, DefMetavar(o, n, op.v))
         [] op.op = "required" -> WithObj(w, i, DefRequired(o, n, op.v))
         [] op.op = "valid"    ->
                Res([w EXCEPT !.objs[i] = Upd(o, n, SetValid),
                              !.live = (IF a.valid.del /\ a.valid.vid # op.v.vid THEN @ \ {a.valid.vid} ELSE @)
                                       \cup (IF op.v.vid = 0 THEN {} ELSE {op.v.vid})], Ok)
         [] op.op = "dest"     ->
                Res([w EXCEPT !.objs[i] = Upd(o, n, SetDest), !.slots[op.slot].shape = op.shape], Ok)
         [] op.op = "copy"     -> Res(w, Ok)

SetMode(o, k, v) == CASE k = "alt" -> [o EXCEPT !.alt = v]
                      [] k = "strict" -> [o EXCEPT !.strict = v]
                      [] k = "hex" -> [o EXCEPT !.hex = v]
                      [] k = "vex" -> [o EXCEPT !.vex = v]
SetText(o, k, v) == CASE k = "version" -> [o EXCEPT !.version = v]
                      [] k = "binary" -> [o EXCEPT !.binary = v]
                      [] k = "desc" -> [o EXCEPT !.desc = v]
                      [] k = "epilog" -> [o EXCEPT !.epilog = v]
                      [] k = "usage" -> [o EXCEPT !.usage = v]

Apply(w, op) ==
    LET i == op.o + 1
        o == w.objs[i]
    IN CASE op.op \in ArgOps -> IF Exists(o, op.n) THEN OnArg(w, op) ELSE Res(w, Lookup(o, op.n))
         [] op.op = "get"    -> Res(w, Lookup(o, op.n))
         [] op.op = "add"    -> WithObj(w, i, Add(o, Listed(op, "names")))
         [] op.op = "remove" -> LET r == Remove(o, Listed(op, "names")) IN Res(Replace(w, i, r.o), r.out)
         [] op.op = "mode"   -> Res([w EXCEPT !.objs[i] = SetMode(@, op.k, op.v)], Ok)
         [] op.op = "text"   -> Res([w EXCEPT !.objs[i] = SetText(@, op.k, op.v)], Ok)
         [] op.op = "width"  -> Res([w EXCEPT !.objs[i].w = op.v], Ok)
         [] op.op = "clear"  -> Res(Replace(w, i, NewObj), Ok)
         [] op.op = "new"    -> Res(Replace(w, i, NewObj), Ok)
         [] op.op = "destroy" -> Res(Replace(w, i, [NewObj EXCEPT !.alive = FALSE]), Ok)
         [] op.op = "reslot" -> Res([w EXCEPT !.slots[op.slot] = [@ EXCEPT !.known = TRUE, !.v = <<>>, !.calls = <<>>]], Ok)
         [] op.op = "parse"  -> ParseIn(w, i, op.argv)
         [] OTHER            -> Res(w, Ok)     \* pure observations
=============================================================================
