------------------------------ MODULE Strings ------------------------------
(* Byte strings.  TLA+ strings are used as byte strings (Latin-1: one      *)
(* character per byte), so Len is the size the implementation sees.        *)
EXTENDS Integers, Sequences, TLC, Json

Ch(s, i) == SubSeq(s, i, i)

\* All 255 non-zero bytes in order; read from a file because TLA+ string
\* literals cannot hold all of them.
Bytes == ndJsonDeserialize("bytes.ndjson")[1].c
Code == TLCEval([c \in {Bytes[i] : i \in 1..Len(Bytes)} |->
            CHOOSE i \in 1..Len(Bytes) : Bytes[i] = c])

LowerS == "abcdefghijklmnopqrstuvwxyz"
UpperS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UpFn == TLCEval([c \in {Bytes[i] : i \in 1..Len(Bytes)} |->
            IF \E i \in 1..26 : Ch(LowerS, i) = c
            THEN Ch(UpperS, CHOOSE i \in 1..26 : Ch(LowerS, i) = c)
            ELSE c])

RECURSIVE UpFrom(_, _)
UpFrom(s, i) == IF i > Len(s) THEN "" ELSE UpFn[Ch(s, i)] \o UpFrom(s, i + 1)
ToUpper(s) == UpFrom(s, 1)

\* std::string operator<
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE LET x == Ch(a, i)
             y == Ch(b, i)
         IN IF x = y THEN LessFrom(a, b, i + 1) ELSE Code[x] < Code[y]
StrLess(a, b) == LessFrom(a, b, 1)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
From(s, i) == SubSeq(s, i, Len(s))

\* smallest position >= i of c in s, 0 if none
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, c, i) == IF i > Len(s) THEN 0
                      ELSE IF Ch(s, i) = c THEN i ELSE IndexFrom(s, c, i + 1)
IndexOf(s, c) == IndexFrom(s, c, 1)

\* largest position <= i of c in s, 0 if none
RECURSIVE RIndexFrom(_, _, _)
RIndexFrom(s, c, i) == IF i < 1 THEN 0
                       ELSE IF i > Len(s) THEN RIndexFrom(s, c, Len(s))
                       ELSE IF Ch(s, i) = c THEN i ELSE RIndexFrom(s, c, i - 1)

RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE IF n = 1 THEN " " ELSE IF n % 2 = 0
             THEN LET h == Spaces(n \div 2) IN h \o h ELSE " " \o Spaces(n - 1)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) == IF i > Len(ss) THEN ""
                        ELSE (IF i > 1 THEN sep ELSE "") \o ss[i] \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == JoinFrom(ss, sep, 1)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE ss[1] \o Concat(Tail(ss))

\* n copies of x as a sequence
Copies(x, n) == TLCEval([i \in 1..n |-> x])

RECURSIVE FlattenFrom(_, _)
FlattenFrom(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o FlattenFrom(ss, i + 1)
FlattenSeq2(ss) == FlattenFrom(ss, 1)

SeqHas(s, x) == \E i \in 1..Len(s) : s[i] = x
RECURSIVE FirstIdx(_, _, _)
FirstIdx(s, x, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = x THEN i ELSE FirstIdx(s, x, i + 1)
RemoveIdx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* std::getline over the whole text: a final newline does not open a line
RECURSIVE Lines(_)
Lines(s) == IF s = "" THEN <<>>
            ELSE LET p == IndexOf(s, "\n")
                 IN IF p = 0 THEN <<s>>
                    ELSE <<SubSeq(s, 1, p - 1)>> \o Lines(From(s, p + 1))

\* decimal text of an integer
DigitS == "0123456789"
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN Ch(DigitS, n + 1) ELSE NatText(n \div 10) \o Ch(DigitS, (n % 10) + 1)
IntText(n) == IF n < 0 THEN "-" \o NatText(-n) ELSE NatText(n)
=============================================================================
