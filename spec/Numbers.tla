------------------------------ MODULE Numbers ------------------------------
(* The two number grammars the library relies on: the prefix that          *)
(* "stream >> double" reads and the one strtod reads.  Values are exact    *)
(* decimals (sign, digit string, exponent).                                *)
EXTENDS Strings

At(s, i) == IF i >= 1 /\ i <= Len(s) THEN Ch(s, i) ELSE ""
IsDigit(c) == c # "" /\ \E i \in 1..10 : Ch(DigitS, i) = c
DigitVal(c) == (CHOOSE i \in 1..10 : Ch(DigitS, i) = c) - 1
HexS == "0123456789abcdefABCDEF"
IsHex(c) == c # "" /\ \E i \in 1..22 : Ch(HexS, i) = c
HexVal(c) == LET k == CHOOSE i \in 1..22 : Ch(HexS, i) = c IN IF k > 16 THEN k - 7 ELSE k - 1
RECURSIVE HexNat(_, _)
HexNat(s, acc) == IF s = "" THEN acc ELSE HexNat(From(s, 2), acc * 16 + HexVal(Ch(s, 1)))
IsBlank(c) == c # "" /\ (c = " " \/ Code[c] \in 9..13)

RECURSIVE SpanDigits(_, _)
SpanDigits(s, i) == IF IsDigit(At(s, i)) THEN SpanDigits(s, i + 1) ELSE i
RECURSIVE SpanHex(_, _)
SpanHex(s, i) == IF IsHex(At(s, i)) THEN SpanHex(s, i + 1) ELSE i
RECURSIVE SpanBlank(_, _)
SpanBlank(s, i) == IF IsBlank(At(s, i)) THEN SpanBlank(s, i + 1) ELSE i

RECURSIVE ToNat(_, _)
ToNat(s, acc) == IF s = "" THEN acc ELSE ToNat(From(s, 2), acc * 10 + DigitVal(Ch(s, 1)))
RECURSIVE StripLead(_)
StripLead(s) == IF s # "" /\ Ch(s, 1) = "0" THEN StripLead(From(s, 2)) ELSE s
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
\* number of trailing zeros
RECURSIVE Trail0(_, _)
Trail0(s, n) == IF Len(s) > n /\ Ch(s, Len(s) - n) = "0" THEN Trail0(s, n + 1) ELSE n

\* A value: finite ones are exact decimals d * 10^e (d without leading and
\* trailing zeros, "" for zero); "inf", "nan"; "other" is not modelled.
Zero == [k |-> "fin", neg |-> FALSE, d |-> "", e |-> 0]
Inf(neg) == [k |-> "inf", neg |-> neg, d |-> "", e |-> 0]
NaN == [k |-> "nan", neg |-> FALSE, d |-> "", e |-> 0]
OtherNum == [k |-> "other", neg |-> FALSE, d |-> "", e |-> 0]
\* |v| is in [10^(Top-1), 10^Top)
Top(v) == Len(v.d) + v.e

\* digits after the decimal point, compared: -1, 0, 1
RECURSIVE DigCmp(_, _, _)
DigCmp(a, b, i) ==
    IF i > Len(a) /\ i > Len(b) THEN 0
    ELSE LET x == IF i > Len(a) THEN 0 ELSE DigitVal(Ch(a, i))
             y == IF i > Len(b) THEN 0 ELSE DigitVal(Ch(b, i))
         IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE DigCmp(a, b, i + 1)
MagCmp(v, w) ==
    IF v.d = "" \/ w.d = "" THEN (IF v.d = w.d THEN 0 ELSE IF v.d = "" THEN -1 ELSE 1)
    ELSE IF Top(v) # Top(w) THEN (IF Top(v) < Top(w) THEN -1 ELSE 1)
    ELSE DigCmp(v.d, w.d, 1)
Rank(v) == IF v.k = "inf" THEN (IF v.neg THEN -1 ELSE 1) ELSE 0
Cmp(v, w) ==
    IF Rank(v) # 0 \/ Rank(w) # 0 THEN Rank(v) - Rank(w)
    ELSE IF v.neg # w.neg THEN (IF v.neg THEN -1 ELSE 1)
    ELSE IF v.neg THEN MagCmp(w, v) ELSE MagCmp(v, w)

\* value of +-digits * 10^e as a double can hold it
Value(neg, digits, e) ==
    LET d0 == StripLead(digits)
        t  == Trail0(d0, 0)
        d  == SubSeq(d0, 1, Len(d0) - t)
        n  == Len(d0) + e
    IN IF d = "" THEN Zero
       ELSE IF n > 309 \/ (n = 309 /\ DigCmp(d, "1797693134862315807", 1) > 0) THEN Inf(neg)
       ELSE [k |-> "fin", neg |-> neg, d |-> d, e |-> e + t]

\* round to n significant digits; sure: the nearest double (float for 6) to
\* the decimal, printed with n digits, is this
RECURSIVE IncDigits(_)
IncDigits(d) == IF d = "" THEN "1"
                ELSE LET h == SubSeq(d, 1, Len(d) - 1)
                     IN IF Ch(d, Len(d)) = "9" THEN IncDigits(h) \o "0"
                        ELSE h \o Ch(DigitS, DigitVal(Ch(d, Len(d))) + 2)
Rounded(v, n) ==
    IF Len(v.d) <= n THEN v
    ELSE LET k == SubSeq(v.d, 1, n)
         IN Value(v.neg, IF DigitVal(Ch(v.d, n + 1)) >= 5 THEN IncDigits(k) ELSE k, v.e + Len(v.d) - n)
Sure(v, n) ==
    \/ v.k \in {"inf", "nan"}
    \/ v.k = "fin" /\ v.d = ""
    \/ /\ v.k = "fin"
       /\ Top(v) > (IF n = 6 THEN -36 ELSE -300) /\ (n = 6 => Top(v) < 38)
       /\ Len(v.d) > n => Ch(v.d, n + 1) \notin {"3", "4", "5"}
\* canonical text of a value with n significant digits
NumText(v, n) ==
    LET r == Rounded(v, n)
    IN CASE v.k = "nan" -> "nan"
         [] v.k = "inf" -> IF v.neg THEN "-inf" ELSE "inf"
         [] r.d = "" -> "0"
         [] OTHER -> (IF r.neg THEN "-" ELSE "") \o r.d \o "e" \o ToString(r.e)

\* the integer part as digits
IntPart(v) == IF Top(v) <= 0 THEN "0" ELSE IF v.e >= 0 THEN v.d \o Zeros(v.e) ELSE SubSeq(v.d, 1, Top(v))
\* both without leading zeros
NatLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ DigCmp(a, b, 1) <= 0)

ExpOf(txt, neg) == LET d == StripLead(txt)
                       v == IF Len(d) > 5 THEN 99999 ELSE ToNat(d, 0)
                   IN IF neg THEN -v ELSE v

\* Decimal number at position i (after the sign).  expBad: an exponent mark
\* not followed by digits (next is then the position of the mark).
Dec(s, i, neg) ==
    LET j == SpanDigits(s, i)
        dot == At(s, j) = "."
        k == IF dot THEN SpanDigits(s, j + 1) ELSE j
        ip == SubSeq(s, i, j - 1)
        fp == IF dot THEN SubSeq(s, j + 1, k - 1) ELSE ""
        mark == At(s, k) \in {"e", "E"}
        sg == At(s, k + 1) \in {"+", "-"}
        q == IF sg THEN k + 2 ELSE k + 1
        r == SpanDigits(s, q)
        hasExp == mark /\ r > q
        e == IF hasExp THEN ExpOf(SubSeq(s, q, r - 1), At(s, k + 1) = "-") ELSE 0
        ok == Len(ip) + Len(fp) > 0
    IN [ok |-> ok,
        next |-> IF hasExp THEN r ELSE k,
        expBad |-> mark /\ ~hasExp,
        val |-> IF ok THEN Value(neg, ip \o fp, e - Len(fp)) ELSE Zero]

Sign(s, i) == IF At(s, i) \in {"+", "-"} THEN i + 1 ELSE i

\* stream >> double : is there a number, and which
Stream(s) ==
    LET i == SpanBlank(s, 1)
        n == Dec(s, Sign(s, i), At(s, i) = "-")
    IN [is |-> n.ok /\ ~n.expBad /\ n.val.k # "inf", val |-> n.val]

LowFn(c) == IF \E i \in 1..26 : Ch(UpperS, i) = c
            THEN Ch(LowerS, CHOOSE i \in 1..26 : Ch(UpperS, i) = c) ELSE c
RECURSIVE LowFrom(_, _)
LowFrom(s, i) == IF i > Len(s) THEN "" ELSE LowFn(Ch(s, i)) \o LowFrom(s, i + 1)
LowAt(s, i, n) == LowFrom(IF i > Len(s) THEN "" ELSE SubSeq(s, i, IF i + n - 1 > Len(s) THEN Len(s) ELSE i + n - 1), 1)

RECURSIVE SpanNan(_, _)
SpanNan(s, i) == LET c == At(s, i)
                 IN IF c # "" /\ (IsDigit(c) \/ c = "_" \/ \E k \in 1..26 : Ch(LowerS, k) = c \/ Ch(UpperS, k) = c)
                    THEN SpanNan(s, i + 1) ELSE i

\* strtod : end = first position not consumed (1: nothing converted)
Strtod(s) ==
    LET b == SpanBlank(s, 1)
        i == Sign(s, b)
        neg == At(s, b) = "-"
        n == Dec(s, i, neg)
        hx == At(s, i) = "0" /\ At(s, i + 1) \in {"x", "X"}
        h1 == SpanHex(s, i + 2)
        hd == At(s, h1) = "."
        h2 == IF hd THEN SpanHex(s, h1 + 1) ELSE h1
        nh == (h1 - (i + 2)) + (IF hd THEN h2 - h1 - 1 ELSE 0)
        pm == At(s, h2) \in {"p", "P"}
        pq == IF At(s, h2 + 1) \in {"+", "-"} THEN h2 + 2 ELSE h2 + 1
        pr == SpanDigits(s, pq)
        hend == IF pm /\ pr > pq THEN pr ELSE h2
        nn == SpanNan(s, i + 4)
        hdig == StripLead(SubSeq(s, i + 2, h1 - 1))
    IN IF LowAt(s, i, 8) = "infinity" THEN [end |-> i + 8, val |-> Inf(neg)]
       ELSE IF LowAt(s, i, 3) = "inf" THEN [end |-> i + 3, val |-> Inf(neg)]
       ELSE IF LowAt(s, i, 3) = "nan"
            THEN [end |-> IF At(s, i + 3) = "(" /\ At(s, nn) = ")" THEN nn + 1 ELSE i + 3, val |-> NaN]
       ELSE IF hx /\ nh > 0
            THEN [end |-> hend,
                  val |-> IF hend # h1 \/ Len(hdig) > 4 THEN OtherNum
                          ELSE Value(neg, NatText(HexNat(hdig, 0)), 0)]
       ELSE IF n.ok THEN [end |-> n.next, val |-> n.val]
       ELSE [end |-> 1, val |-> Zero]

IsWholeNumber(s) == LET r == Strtod(s) IN r.end > 1 /\ r.end = Len(s) + 1

\* text of a value as ostream << double prints it
GText(v) ==
    LET r == Rounded(v, 6)
        x == Top(r) - 1
        ax == IF x < 0 THEN -x ELSE x
        body == IF r.d = "" THEN "0"
                ELSE IF x < -4 \/ x >= 6
                THEN Ch(r.d, 1) \o (IF Len(r.d) > 1 THEN "." \o From(r.d, 2) ELSE "")
                     \o "e" \o (IF x < 0 THEN "-" ELSE "+") \o (IF ax < 10 THEN "0" ELSE "") \o NatText(ax)
                ELSE IF x < 0 THEN "0." \o Zeros(-x - 1) \o r.d
                ELSE IF r.e >= 0 THEN r.d \o Zeros(r.e)
                ELSE SubSeq(r.d, 1, x + 1) \o "." \o From(r.d, x + 2)
    IN (IF v.neg THEN "-" ELSE "") \o (IF v.k = "inf" THEN "inf" ELSE body)
=============================================================================
