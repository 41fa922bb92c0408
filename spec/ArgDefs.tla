------------------------------ MODULE ArgDefs ------------------------------
(* One parser object: its ordered arguments, their definitions and the     *)
(* calls that define them.  Every call is a function from the object to    *)
(* [o |-> object afterwards, out |-> what the caller sees]; a refused call *)
(* returns the object unchanged.                                           *)
EXTENDS Numbers, Lists

Plus == 43   \* nargs('+')

Ok == [k |-> "ok"]
Exc(t, w, a) == [k |-> "exc", t |-> t, w |-> w, a |-> a]
Ret(o, out) == [o |-> o, out |-> out]

NoValid == [k |-> "none", vid |-> 0, del |-> FALSE]
NoDest == [slot |-> 0]

NewArg(names, pos) ==
    [names |-> names, pos |-> pos, action |-> "NONE", nargs |-> 1,
     kind |-> IF pos THEN "POS" ELSE "SIMPLE",   \* always KindRec(pos, action, nargs).k
     required |-> FALSE, help |-> "", metavar |-> "", defaults |-> <<>>,
     valid |-> NoValid, dest |-> NoDest,
     \* state left by the last parse
     exist |-> FALSE, count |-> 0, one |-> "", elems |-> <<>>,
     num |-> FALSE,      \* the texts have been read as numbers
     parsed |-> FALSE,   \* a parse has been attempted since the creation
     known |-> TRUE]     \* exist/count/values are specified

DefaultWidths == <<2, 20, 2, 56>>
NewObj == [args |-> <<>>, alt |-> FALSE, strict |-> FALSE, hex |-> FALSE, vex |-> FALSE,
           version |-> "", binary |-> "", desc |-> "", epilog |-> "", usage |-> "",
           w |-> DefaultWidths, addl |-> <<>>, addlKnown |-> TRUE, alive |-> TRUE]

---------------------------------------------------------------------------
(* Kinds *)

\* (option or positional, action, nargs) -> kind and normalized action/nargs
KindRec(pos, action, nargs) ==
    LET K(k, a, n) == [k |-> k, action |-> a, nargs |-> n]
    IN IF pos
       THEN IF nargs = 1 /\ action = "NONE" THEN K("POS", action, nargs)
            ELSE IF (nargs = Plus /\ action = "NONE") \/ (nargs = 1 /\ action = "INFINITE")
                 THEN K("INFPOS", "INFINITE", 1)
            ELSE IF nargs > 1 /\ action = "NONE" THEN K("NUMPOS", action, nargs)
            ELSE IF nargs > 1 /\ action = "INFINITE" THEN K("INFNUMPOS", action, nargs)
            ELSE K("BAD", action, nargs)
       ELSE IF action = "STORE_FALSE" THEN K("REVBOOL", action, 0)
            ELSE IF action = "HELP" THEN K("HELP", action, 0)
            ELSE IF action = "VERSION" THEN K("VERSION", action, 0)
            ELSE IF nargs = 0 \/ action = "STORE_TRUE" THEN K("BOOL", action, 0)
            ELSE IF nargs = 1 /\ action = "NONE" THEN K("SIMPLE", action, nargs)
            ELSE IF (nargs = Plus /\ action = "NONE") \/ action = "INFINITE" THEN K("INF", "INFINITE", 1)
            ELSE IF action = "NONE" THEN K("NUM", action, nargs)
            ELSE IF action = "APPEND" THEN K(IF nargs = 1 THEN "MULTI" ELSE "MULTINUM", action, nargs)
            ELSE K(IF nargs = 1 THEN "MULTIINF" ELSE "MULTINUMINF", action, nargs)

KindOf(a) == a.kind
SingleKinds == {"POS", "SIMPLE"}
FlatListKinds == {"NUMPOS", "INFPOS", "NUM", "INF", "MULTI", "MULTIINF"}
GroupKinds == {"INFNUMPOS", "MULTINUM", "MULTINUMINF"}
ListKinds == FlatListKinds \cup GroupKinds
SwitchKinds == {"BOOL", "REVBOOL"}
ValuedOptionKinds == {"SIMPLE", "NUM", "INF", "MULTI", "MULTIINF", "MULTINUM", "MULTINUMINF"}

Front(a) == a.names[1]

---------------------------------------------------------------------------
(* Defaults *)

RECURSIVE Groups(_, _)
Groups(s, n) == IF s = <<>> THEN <<>>
                ELSE <<SubSeq(s, 1, n)>> \o Groups(SubSeq(s, n + 1, Len(s)), n)

DefaultsOk(kind, nargs, d) ==
    \/ nargs = 0 \/ d = <<>>
    \/ kind \in {"INF", "INFPOS", "MULTI", "MULTIINF"}
    \/ kind \in {"POS", "SIMPLE", "NUMPOS", "NUM"} /\ Len(d) = nargs
    \/ kind \in GroupKinds /\ Len(d) % nargs = 0

HasDefaults(a) == a.nargs > 0 /\ a.defaults # <<>>

DefaultText(a) ==
    LET k == KindOf(a)
    IN IF ~HasDefaults(a) THEN ""
       ELSE IF k \in SingleKinds THEN a.defaults[1]
       ELSE IF k \in GroupKinds
            THEN LET g == Groups(a.defaults, a.nargs)
                 IN Join(TLCEval([i \in 1..Len(g) |-> "(" \o Join(g[i], ", ") \o ")"]), ", ")
       ELSE Join(a.defaults, ", ")

\* values of an argument that did not occur
WithDefaults(a) ==
    LET k == KindOf(a)
    IN [a EXCEPT !.one = IF HasDefaults(a) /\ k \in SingleKinds THEN a.defaults[1] ELSE "",
                 !.elems = IF ~HasDefaults(a) \/ k \notin ListKinds THEN <<>>
                           ELSE IF k \in GroupKinds THEN Groups(a.defaults, a.nargs)
                           ELSE TLCEval([i \in 1..Len(a.defaults) |-> <<a.defaults[i]>>])]

Fresh(a) == [WithDefaults(a) EXCEPT !.exist = FALSE, !.count = 0, !.num = FALSE,
                                    !.known = TRUE, !.parsed = TRUE]

---------------------------------------------------------------------------
(* Order of the arguments: options first (required, then short, then by    *)
(* name), then positionals, required first, otherwise keeping their order. *)

IsShort(s) == Len(s) >= 2 /\ Ch(s, 1) = "-" /\ Ch(s, 2) # "-"
IsLong(s)  == Len(s) >= 3 /\ Ch(s, 1) = "-" /\ Ch(s, 2) = "-"
IsEnd(s)   == s = "--"

FlagLess(x, y) == IF IsShort(x) # IsShort(y) THEN IsShort(x) ELSE StrLess(x, y)

ArgLess(a, b) ==
    IF a.pos # b.pos THEN b.pos
    ELSE IF a.required # b.required THEN a.required
    ELSE ~a.pos /\ FlagLess(Front(a), Front(b))

\* stable insertion sort
RECURSIVE InsertInto(_, _, _, _)
InsertInto(s, x, Less(_, _), n) ==
    IF n = 0 \/ ~Less(x, s[n]) THEN SubSeq(s, 1, n) \o <<x>> \o SubSeq(s, n + 1, Len(s))
    ELSE InsertInto(s, x, Less, n - 1)
RECURSIVE SortFrom(_, _, _, _)
SortFrom(acc, s, Less(_, _), i) ==
    IF i > Len(s) THEN acc
    ELSE SortFrom(InsertInto(acc, s[i], Less, Len(acc)), s, Less, i + 1)
Sorted(s, Less(_, _)) == SortFrom(<<>>, s, Less, 1)

Ordered(args) == Sorted(args, ArgLess)
SortNames(names) == Sorted(names, FlagLess)

---------------------------------------------------------------------------
(* Lookup *)

\* index of the argument that owns the name, 0 if nobody does
RECURSIVE FindFrom(_, _, _)
FindFrom(args, n, i) == IF i > Len(args) THEN 0
                        ELSE IF SeqHas(args[i].names, n) THEN i ELSE FindFrom(args, n, i + 1)
Find(args, n) == FindFrom(args, n, 1)
Exists(o, n) == Find(o.args, n) # 0

Lookup(o, n) == IF Exists(o, n) THEN Ok ELSE Exc("AccessDenied", "argument not found", n)

---------------------------------------------------------------------------
(* addArgument / flag / removeArguments *)

FlagError(f) ==
    IF f = "" \/ Ch(f, 1) # "-" THEN "invalid flag not start by '-' character"
    ELSE IF f = "-" THEN "invalid flag not be only '-' character"
    ELSE IF f = "--" THEN "invalid flag not be only '--' characters"
    ELSE IF Ch(f, 2) # "-" /\ Len(f) > 2 THEN "invalid short flag has not only one character"
    ELSE ""

RECURSIVE Dedup(_, _)
Dedup(s, i) == IF i > Len(s) THEN <<>>
               ELSE (IF \E j \in 1..(i - 1) : s[j] = s[i] THEN <<>> ELSE <<s[i]>>) \o Dedup(s, i + 1)

AddOpt(o, names) ==
    LET bad == {i \in 1..Len(names) : FlagError(names[i]) # "" \/ Exists(o, names[i])}
    IN IF bad # {}
       THEN LET i == CHOOSE x \in bad : \A y \in bad : x <= y
            IN Ret(o, Exc("Argument",
                          IF FlagError(names[i]) # "" THEN FlagError(names[i]) ELSE "invalid flag already exist",
                          names[i]))
       ELSE Ret([o EXCEPT !.args = Ordered(Append(@, NewArg(SortNames(Dedup(names, 1)), FALSE)))], Ok)

AddPos(o, name) ==
    IF name = "" THEN Ret(o, Exc("Argument", "bad name argument", ""))
    ELSE IF Exists(o, name) THEN Ret(o, Exc("Argument", "bad name argument already exist", name))
    ELSE Ret([o EXCEPT !.args = Ordered(Append(@, NewArg(<<name>>, TRUE)))], Ok)

Add(o, names) ==
    IF names = <<>> THEN Ret(o, Exc("Argument", "invalid empty flag", ""))
    ELSE IF Len(names) = 1 /\ (names[1] = "" \/ Ch(names[1], 1) # "-") THEN AddPos(o, names[1])
    ELSE AddOpt(o, names)

\* update one argument of the object, or refuse if the name is unknown
Upd(o, n, F(_)) == [o EXCEPT !.args = LET i == Find(@, n) IN [@ EXCEPT ![i] = F(@)]]

AddFlag(o, n, f) ==
    LET a == o.args[Find(o.args, n)]
        F(x) == [x EXCEPT !.names = SortNames(Append(@, f))]
    IN IF a.pos THEN Ret(o, Exc("Argument", "can't add flag in positionnal argument", f))
       ELSE IF FlagError(f) # "" THEN Ret(o, Exc("Argument", FlagError(f), f))
       ELSE IF Exists(o, f) THEN Ret(o, Exc("Argument", "invalid flag already exist", f))
       ELSE LET o2 == Upd(o, n, F) IN Ret([o2 EXCEPT !.args = Ordered(@)], Ok)

RECURSIVE RemoveNames(_, _, _)
RemoveNames(args, names, i) ==
    IF i > Len(names) THEN args
    ELSE LET k == Find(args, names[i])
         IN IF k = 0 THEN RemoveNames(args, names, i + 1)   \* given twice
            ELSE LET left == RemoveIdx(args[k].names, FirstIdx(args[k].names, names[i], 1))
                 IN RemoveNames(IF left = <<>> THEN RemoveIdx(args, k)
                                ELSE [args EXCEPT ![k].names = left],
                                names, i + 1)

Remove(o, names) ==
    LET bad == {i \in 1..Len(names) : ~Exists(o, names[i])}
    IN IF names = <<>> THEN Ret(o, Exc("Argument", "invalid empty flag", ""))
       ELSE IF bad # {}
            THEN Ret(o, Exc("Argument", "argument not found", names[CHOOSE x \in bad : \A y \in bad : x <= y]))
       ELSE Ret([o EXCEPT !.args = Ordered(RemoveNames(@, names, 1))], Ok)

---------------------------------------------------------------------------
(* action / nargs / defaults *)

Define(o, n, action, nargs, defaults) ==
    LET i == Find(o.args, n)
        a == o.args[i]
        kr == KindRec(a.pos, action, nargs)
        other(act) == \E j \in 1..Len(o.args) : j # i /\ o.args[j].action = act
        b == WithDefaults([a EXCEPT !.action = kr.action, !.kind = kr.k, !.nargs = kr.nargs, !.defaults = defaults,
                                    !.known = @ /\ ~a.parsed, !.num = FALSE])
    IN IF kr.k = "BAD"
       THEN Ret(o, Exc("Argument", "positional argument cannot use with this action or this nargs", Front(a)))
       ELSE IF kr.k = "HELP" /\ other("HELP")
       THEN Ret(o, Exc("Argument", "help action already defined", Front(a)))
       ELSE IF kr.k = "VERSION" /\ other("VERSION")
       THEN Ret(o, Exc("Argument", "version action already defined", Front(a)))
       ELSE IF ~DefaultsOk(kr.k, kr.nargs, defaults)
       THEN Ret(o, Exc("Argument", "invalid number of argument with number of default argument", Front(a)))
       ELSE Ret([o EXCEPT !.args[i] = b], Ok)

DefAction(o, n, v)   == LET a == o.args[Find(o.args, n)] IN Define(o, n, v, a.nargs, a.defaults)
DefNargs(o, n, v)    == LET a == o.args[Find(o.args, n)] IN Define(o, n, a.action, v, a.defaults)
DefDefaults(o, n, v) == LET a == o.args[Find(o.args, n)] IN Define(o, n, a.action, a.nargs, v)

DefRequired(o, n, v) == LET F(x) == [x EXCEPT !.required = v]
                            o2 == Upd(o, n, F)
                        IN Ret([o2 EXCEPT !.args = Ordered(@)], Ok)
DefHelp(o, n, v)     == LET F(x) == [x EXCEPT !.help = v] IN Ret(Upd(o, n, F), Ok)
DefMetavar(o, n, v)  == LET F(x) == [x EXCEPT !.metavar = v] IN Ret(Upd(o, n, F), Ok)

\* the help / version option, 0 if none
RoleFrom(args, act) == IF \E i \in 1..Len(args) : args[i].action = act
                       THEN CHOOSE i \in 1..Len(args) : args[i].action = act ELSE 0
HelpIdx(args) == RoleFrom(args, "HELP")
VersionIdx(args) == RoleFrom(args, "VERSION")
=============================================================================
