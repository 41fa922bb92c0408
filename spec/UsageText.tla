----------------------------- MODULE UsageText -----------------------------
(* The usage text: synopsis, sections, wrapping.                           *)
EXTENDS Values

Pad(o) == o.w[1]
ArgsW(o) == o.w[2]
Sep(o) == o.w[3]
HelpW(o) == o.w[4]
TotalW(o) == o.w[1] + o.w[2] + o.w[3] + o.w[4]

BaseName(s) == LET p == RIndexFrom(s, "/", Len(s)) IN From(s, p + 1)

---------------------------------------------------------------------------
(* Wrapping: a line at least as long as the width is cut at the last space *)
(* at or before the width (if any); the spaces at the cut are dropped.     *)

RECURSIVE SkipSpaces(_, _)
SkipSpaces(s, i) == IF i <= Len(s) /\ Ch(s, i) = " " THEN SkipSpaces(s, i + 1) ELSE i

RECURSIVE WrapLine(_, _)
WrapLine(line, w) ==
    LET p == IF Len(line) >= w THEN RIndexFrom(line, " ", w + 1) ELSE 0
    IN IF p = 0 THEN <<line>>
       ELSE <<SubSeq(line, 1, p - 1)>> \o WrapLine(From(line, SkipSpaces(line, p)), w)

RECURSIVE WrapAll(_, _, _)
WrapAll(lines, w, i) == IF i > Len(lines) THEN <<>> ELSE WrapLine(lines[i], w) \o WrapAll(lines, w, i + 1)
Wrap(text, w) == WrapAll(Lines(text), w, 1)

---------------------------------------------------------------------------
(* Pieces *)

\* name of the value: first long flag, else first flag, upper case
LongIdx(names) == {i \in 1..Len(names) : Len(names[i]) >= 2 /\ Ch(names[i], 1) = "-" /\ Ch(names[i], 2) = "-"}
ValueName(a) ==
    LET L == LongIdx(a.names)
    IN ToUpper(IF L # {} THEN From(a.names[CHOOSE i \in L : \A j \in L : i <= j], 3)
               ELSE From(a.names[1], 2))

Metavar(a) ==
    IF a.metavar # "" THEN a.metavar
    ELSE IF a.action = "INFINITE" \/ a.nargs = Plus THEN ValueName(a) \o "..."
    ELSE IF a.nargs > 1 THEN Join(Copies(ValueName(a), a.nargs), " ")
    ELSE ValueName(a)

WithMetavar(a, s) == IF KindOf(a) \in ValuedOptionKinds THEN s \o " " \o Metavar(a) ELSE s

Bracket(a, s) == IF a.required THEN s ELSE "[" \o s \o "]"

SynopsisItem(a) ==
    LET n == Front(a)
        k == KindOf(a)
    IN Bracket(a, CASE k = "POS" -> n
                    [] k = "NUMPOS" -> Join(Copies(n, a.nargs), " ")
                    [] k = "INFPOS" -> n \o " {" \o n \o "}..."
                    [] k = "INFNUMPOS" -> "{" \o Join(Copies(n, a.nargs), " ") \o "}..."
                    [] OTHER -> WithMetavar(a, n))

\* synopsis accumulator: [s text, i column, ml a line was broken]
RECURSIVE Items(_, _, _, _, _)
Items(acc, args, pos, pad, max) ==
    IF args = <<>> THEN acc
    ELSE LET a == args[1]
             it == SynopsisItem(a)
         IN IF a.pos # pos THEN Items(acc, Tail(args), pos, pad, max)
            ELSE IF acc.i + Len(it) >= max
            THEN Items([s |-> acc.s \o "\n" \o Spaces(pad + 1) \o it, i |-> pad + Len(it) + 1, ml |-> TRUE],
                       Tail(args), pos, pad, max)
            ELSE Items([s |-> acc.s \o " " \o it, i |-> acc.i + Len(it) + 1, ml |-> acc.ml],
                       Tail(args), pos, pad, max)

Synopsis(o) ==
    LET head == "usage: " \o BaseName(o.binary)
        pad == Len(head)
        max == TotalW(o)
        hasOpt == \E i \in 1..Len(o.args) : ~o.args[i].pos
        hasPos == \E i \in 1..Len(o.args) : o.args[i].pos
        a1 == Items([s |-> head, i |-> pad, ml |-> FALSE], o.args, FALSE, pad, max)
        a2 == IF ~(hasOpt /\ hasPos) THEN a1
              ELSE IF a1.ml \/ a1.i + 3 >= max
              THEN [a1 EXCEPT !.s = @ \o "\n" \o Spaces(pad + 1) \o "--\n" \o Spaces(pad), !.i = pad]
              ELSE [a1 EXCEPT !.s = @ \o " --", !.i = @ + 3]
    IN Items(a2, o.args, TRUE, pad, max).s

HelpText(a) == a.help \o (IF a.required THEN " (required)"
                          ELSE IF DefaultText(a) # "" THEN " (default: " \o DefaultText(a) \o ")"
                          ELSE "")

Label(a) == IF a.pos THEN Front(a) ELSE WithMetavar(a, Join(a.names, ", "))

Entry(o, a) ==
    LET lab == Label(a)
        col == Pad(o) + ArgsW(o) + Sep(o)
        head == Spaces(Pad(o)) \o
                (IF Len(lab) <= ArgsW(o) THEN lab \o Spaces(ArgsW(o) + Sep(o) - Len(lab))
                 ELSE lab \o "\n" \o Spaces(col))
    IN head \o Join(Wrap(HelpText(a), HelpW(o)), "\n" \o Spaces(col))

RECURSIVE Entries(_, _, _)
Entries(o, args, pos) ==
    IF args = <<>> THEN <<>>
    ELSE (IF args[1].pos = pos THEN <<Entry(o, args[1])>> ELSE <<>>) \o Entries(o, Tail(args), pos)

Section(o, title, pos) ==
    LET e == Entries(o, o.args, pos)
    IN IF e = <<>> THEN "" ELSE "\n\n" \o title \o ":\n" \o Join(e, "\n")

Block(o, text) == IF text = "" THEN ""
                  ELSE LET l == Wrap(text, TotalW(o))
                       IN "\n" \o Concat(TLCEval([i \in 1..Len(l) |-> "\n" \o l[i]]))

Usage(o) == IF o.usage # "" THEN o.usage
            ELSE Synopsis(o) \o Block(o, o.desc)
                 \o Section(o, "positional arguments", TRUE)
                 \o Section(o, "optional arguments", FALSE)
                 \o Block(o, o.epilog)
=============================================================================
