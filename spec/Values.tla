------------------------------- MODULE Values -------------------------------
(* What the accessors of an argument report, the validators, and the       *)
(* conversion to user destinations.                                        *)
EXTENDS Parser

---------------------------------------------------------------------------
(* Accessors *)

TextOf(a) ==
    LET k == KindOf(a)
    IN CASE k = "BOOL" -> IF a.exist THEN "true" ELSE "false"
         [] k = "REVBOOL" -> IF a.exist THEN "false" ELSE "true"
         [] k \in GroupKinds -> Join(TLCEval([i \in 1..Len(a.elems) |-> "(" \o Join(a.elems[i], ", ") \o ")"]), ", ")
         [] k \in FlatListKinds -> Join(FlattenSeq2(a.elems), ", ")
         [] OTHER -> a.one

BoolOf(a) == IF KindOf(a) = "REVBOOL" THEN ~a.exist ELSE a.exist

\* the flattened values; <<one>> for single kinds
FlatOf(a) == IF KindOf(a) \in ListKinds THEN FlattenSeq2(a.elems) ELSE <<a.one>>

NoConv == [k |-> "exc", v |-> <<>>]
VecOf(a) == IF KindOf(a) \in SingleKinds \cup ListKinds THEN [k |-> "ok", v |-> FlatOf(a)] ELSE NoConv
VecVecOf(a) == IF KindOf(a) \in GroupKinds THEN [k |-> "ok", v |-> a.elems] ELSE NoConv

\* number reading of a text: [is, val]
NotNumber == [is |-> FALSE, val |-> Zero]
NumOf(a, s) == IF a.num THEN Stream(s) ELSE NotNumber
SelfNum(a) == IF KindOf(a) \in SwitchKinds \/ (KindOf(a) \in ListKinds /\ a.elems # <<>>) THEN NotNumber
              ELSE NumOf(a, a.one)

---------------------------------------------------------------------------
(* Validators: (validator, values) -> accepted?, message, rewritten values *)

\* the small file tree the validators look at
FsDirs == {"fs_dir", "fs_dir/", "fs_dir/sub", "fs_ldir", ".", "fs_dir/.."}
FsFiles == {"fs_file", "fs_dir/inner", "fs_lfile", "fs_dir/../fs_file", "./fs_file"}
FsOther == {"fs_fifo"}

VOk(vs) == [ok |-> TRUE, w |-> "", vs |-> vs]
VBad(w) == [ok |-> FALSE, w |-> w, vs |-> <<>>]
Quoted(s) == "\"" \o s \o "\""

BoundA(v) == Strtod(v.min).val
BoundB(v) == Strtod(v.max).val
MinOf(v) == IF Cmp(BoundA(v), BoundB(v)) > 0 THEN BoundB(v) ELSE BoundA(v)
MaxOf(v) == IF Cmp(BoundA(v), BoundB(v)) > 0 THEN BoundA(v) ELSE BoundB(v)

\* first value refused by one of the built-in validators, as its message
Complaint(v, s) ==
    CASE v.k = "number" -> IF IsWholeNumber(s) THEN "" ELSE Quoted(s) \o " is not a number"
      [] v.k = "minmax" ->
            LET n == Stream(s)
            IN IF ~n.is THEN Quoted(s) \o " is not a number"
               ELSE IF Cmp(n.val, MinOf(v)) < 0 \/ Cmp(n.val, MaxOf(v)) > 0
               THEN s \o " is not between " \o GText(MinOf(v)) \o " and " \o GText(MaxOf(v))
               ELSE ""
      [] v.k = "choice" ->
            LET cs == Listed(v, "choices") IN
            IF SeqHas(cs, s) THEN ""
            ELSE Quoted(s) \o " is not a valid choise ("
                 \o Join(TLCEval([i \in 1..Len(cs) |-> Quoted(cs[i])]), ", ") \o ")"
      [] v.k = "path" ->
            IF s \notin FsDirs \cup FsFiles \cup FsOther THEN Quoted(s) \o " is not a valid path"
            ELSE IF v.mode = "DIR" /\ s \notin FsDirs THEN Quoted(s) \o " is not a valid directory"
            ELSE IF v.mode = "FILE" /\ s \notin FsFiles THEN Quoted(s) \o " is not a valid file"
            ELSE ""

RECURSIVE FirstComplaint(_, _, _)
FirstComplaint(v, vs, i) ==
    IF i > Len(vs) THEN ""
    ELSE LET c == Complaint(v, vs[i]) IN IF c # "" THEN c ELSE FirstComplaint(v, vs, i + 1)

Custom == {"accept", "reject", "throw", "upper", "prefix", "shrink", "grow", "erase", "notbad", "reverse", "nest", "raise"}

Validate(v, vs) ==
    CASE v.k \in {"number", "minmax", "choice", "path"} ->
            LET c == FirstComplaint(v, vs, 1) IN IF c = "" THEN VOk(vs) ELSE VBad(c)
      [] v.k \in {"accept", "nest"} -> VOk(vs)   \* "nest": makes calls of its own (World)
      [] v.k = "reject" -> VBad("invalid check function")
      [] v.k = "throw"  -> VBad("custom message")
      [] v.k = "notbad" -> IF SeqHas(vs, "bad") THEN VBad("invalid check function") ELSE VOk(vs)
      [] v.k = "raise"  -> IF SeqHas(vs, "boom") THEN VBad("raised") ELSE VOk(vs)   \* an exception of the program's own
      [] v.k = "upper"  -> VOk(TLCEval([i \in 1..Len(vs) |-> ToUpper(vs[i])]))
      [] v.k = "prefix" -> VOk(TLCEval([i \in 1..Len(vs) |-> "p" \o vs[i]]))
      [] v.k = "shrink" -> VOk(IF vs = <<>> THEN vs ELSE <<"s" \o vs[1]>>)
      [] v.k = "grow"   -> VOk(TLCEval([i \in 1..Len(vs) |-> "g" \o vs[i]]) \o <<"extra">>)
      [] v.k = "erase"  -> VOk(<<>>)
      [] v.k = "reverse" -> VOk(TLCEval([i \in 1..Len(vs) |-> vs[Len(vs) + 1 - i]]))

\* write the (possibly rewritten) values back, position by position
RECURSIVE WriteRows(_, _, _)
WriteRows(rows, vs, i) ==   \* i values already used
    IF rows = <<>> THEN <<>>
    ELSE LET r == rows[1]
         IN <<TLCEval([j \in 1..Len(r) |-> IF i + j <= Len(vs) THEN vs[i + j] ELSE r[j]])>>
            \o WriteRows(Tail(rows), vs, i + Len(r))
WriteBack(a, vs) == IF KindOf(a) \in ListKinds THEN [a EXCEPT !.elems = WriteRows(@, vs, 0)]
                    ELSE IF vs # <<>> THEN [a EXCEPT !.one = vs[1]] ELSE a

\* [ok, w, a, called, vs] : result of validating argument a (it occurs)
CheckArg(a) ==
    LET vs == IF KindOf(a) \in SingleKinds \cup ListKinds THEN FlatOf(a) ELSE <<>>
        r == Validate(a.valid, vs)
    IN IF ~r.ok THEN [ok |-> FALSE, w |-> r.w, a |-> a, vs |-> vs]
       ELSE IF KindOf(a) \notin SingleKinds \cup ListKinds
       THEN [ok |-> FALSE, w |-> "invalid type option for use valid", a |-> a, vs |-> vs]
       ELSE [ok |-> TRUE, w |-> "", a |-> WriteBack(a, r.vs), vs |-> vs]

---------------------------------------------------------------------------
(* Conversions to destination types.  A converted value is a record        *)
(* [x |-> not compared, v |-> text]: numbers in canonical decimal form.     *)

AnyVal == [x |-> TRUE, v |-> ""]
Val(v) == [x |-> FALSE, v |-> v]

IntTypes == {"char", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong"}
FloatTypes == {"float", "double", "ldouble"}
\* largest magnitude of a positive / negative value
IntMax(type, neg) ==
    CASE type = "char" -> IF neg THEN "128" ELSE "127"
      [] type = "short" -> IF neg THEN "32768" ELSE "32767"
      [] type = "int" -> IF neg THEN "2147483648" ELSE "2147483647"
      [] type \in {"long", "llong"} -> "999999999999999"
      [] neg -> "0"
      [] type = "uchar" -> "255"
      [] type = "ushort" -> "65535"
      [] type = "uint" -> "4294967295"
      [] OTHER -> "999999999999999"
CharArraySize(type) == CASE type = "char1" -> 1 [] type = "char4" -> 4 [] type = "char5" -> 5
                         [] type = "char6" -> 6 [] type = "char16" -> 16
CharArrays == {"char1", "char4", "char5", "char6", "char16"}
Cut(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s

FromText(type, s) ==
    CASE type \in {"string", "cstr"} -> Val(s)
      [] type \in CharArrays -> Val(Cut(s, CharArraySize(type) - 1))
      [] type = "bool" ->
            LET v == Strtod(s).val
            IN IF v.k = "other" \/ (v.k = "fin" /\ v.d # "" /\ Top(v) < -300) THEN AnyVal
               ELSE Val(IF v = Zero THEN "0" ELSE "1")
      [] type \in FloatTypes ->
            LET v == Strtod(s).val
                n == IF type = "float" THEN 6 ELSE 15
            IN IF Sure(v, n) THEN Val(NumText(v, n)) ELSE AnyVal
      [] type \in IntTypes ->
            LET v == Strtod(s).val
                i == IntPart(v)
            IN IF v.k # "fin" \/ Len(v.d) > 15 \/ Top(v) > 15 \/ ~NatLeq(i, IntMax(type, v.neg)) THEN AnyVal
               ELSE Val((IF v.neg /\ i # "0" THEN "-" ELSE "") \o i)

FromBool(type, b) ==
    CASE type \in {"string", "cstr"} -> Val(IF b THEN "true" ELSE "false")
      [] type \in CharArrays -> Val(Cut(IF b THEN "true" ELSE "false", CharArraySize(type) - 1))
      [] type \in FloatTypes -> Val(IF b THEN "1e0" ELSE "0")
      [] OTHER -> Val(IF b THEN "1" ELSE "0")

Supported(type) == type # "enum"

ScalarOf(a, type) == IF KindOf(a) \in SwitchKinds THEN FromBool(type, BoolOf(a)) ELSE FromText(type, a.one)

\* what one successful parse delivers for argument a with destination d:
\* scalars replace, vectors extend, custom functions are called once
DeliverRows(a, type) ==
    LET k == KindOf(a)
        Row(r) == TLCEval([j \in 1..Len(r) |-> FromText(type, r[j])])
    IN IF k \in ListKinds THEN TLCEval([i \in 1..Len(a.elems) |-> Row(a.elems[i])]) ELSE <<<<ScalarOf(a, type)>>>>

CustomRows(a) == IF KindOf(a) \in ListKinds THEN a.elems ELSE <<<<a.one>>>>

\* does delivering need a conversion that does not exist for the type
NeedsUnsupported(a) ==
    LET d == a.dest
    IN d.slot # 0 /\ ~d.custom /\ ~Supported(d.type)
       /\ (d.shape = "one" \/ KindOf(a) \notin ListKinds \/ a.elems # <<>>)

\* slot contents: [shape, known, v]; new contents after delivery
Deliver(old, a) ==
    LET d == a.dest
        k == KindOf(a)
    IN IF d.shape = "one" /\ k \in ListKinds THEN [old EXCEPT !.known = FALSE]
       ELSE IF d.custom
       THEN [old EXCEPT !.calls = Append(@, [ex |-> a.exist,
                 v |-> IF d.shape = "one" THEN <<<<a.one>>>>
                       ELSE IF d.shape = "vec" THEN <<FlattenSeq2(CustomRows(a))>>
                       ELSE CustomRows(a)])]
       ELSE IF d.shape = "one" THEN [old EXCEPT !.v = <<<<ScalarOf(a, d.type)>>>>]
       ELSE IF d.shape = "vec"
       THEN [old EXCEPT !.v = <<(IF @ = <<>> THEN <<>> ELSE @[1]) \o FlattenSeq2(DeliverRows(a, d.type))>>]
       ELSE [old EXCEPT !.v = @ \o DeliverRows(a, d.type)]
=============================================================================
