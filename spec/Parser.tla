------------------------------- MODULE Parser -------------------------------
(* The command-line parser as a state machine that consumes tokens.        *)
(* m.t tokens (without the program name), m.i next token, m.e position of  *)
(* the first "--" (Len+1 if none), m.aft that "--" has been passed,        *)
(* m.st "run" | "done" | "err", m.roles ghost: what each token was used as.*)
EXTENDS ArgDefs

NoRole == [k |-> "none", a |-> 0]
Machine(args, tokens, alt, strict) ==
    LET n == Len(tokens)
        ends == {i \in 1..n : IsEnd(tokens[i])}
    IN [t |-> tokens, i |-> 1,
        e |-> IF ends = {} THEN n + 1 ELSE CHOOSE i \in ends : \A j \in ends : i <= j,
        aft |-> FALSE, args |-> args, addl |-> <<>>, alt |-> alt, strict |-> strict,
        st |-> IF n = 0 THEN "done" ELSE "run", err |-> Ok,
        roles |-> TLCEval([i \in 1..n |-> NoRole])]

Fail(m, w, a) == [m EXCEPT !.st = "err", !.err = Exc("Parse", w, a)]

\* split at the first '='
TakeArg(s) == LET p == IndexOf(s, "=")
              IN IF p = 0 THEN [opt |-> s, has |-> FALSE, val |-> ""]
                 ELSE [opt |-> SubSeq(s, 1, p - 1), has |-> TRUE, val |-> From(s, p + 1)]

\* kinds that absorb the rest of a cluster as their value
AttachKinds == {"SIMPLE", "NUM", "INF", "MULTI", "MULTIINF", "MULTINUM"}

---------------------------------------------------------------------------
(* Does this token end a run of values: is it one of the defined options? *)

RECURSIVE StopCluster(_, _, _, _)
StopCluster(args, opt, has, j) ==
    LET k == Find(args, "-" \o Ch(opt, j))
    IN IF j = Len(opt) THEN k # 0
       ELSE IF k = 0 THEN FALSE
       ELSE IF KindOf(args[k]) \in SwitchKinds THEN TRUE
       ELSE IF ~has /\ KindOf(args[k]) \in AttachKinds THEN TRUE
       ELSE StopCluster(args, opt, has, j + 1)

Stops(m, tok) ==
    IF IsShort(tok)
    THEN LET p == TakeArg(tok)
         IN \/ m.alt /\ Find(m.args, "-" \o p.opt) # 0
            \/ IF Len(p.opt) = 1 THEN FALSE ELSE StopCluster(m.args, p.opt, p.has, 2)
    ELSE IsLong(tok) /\ Find(m.args, TakeArg(tok).opt) # 0

\* maximal run of values t[from..], stopping before lim; returns its length
RECURSIVE RunLen(_, _, _, _)
RunLen(m, j, lim, stopping) ==
    IF j >= lim \/ (stopping /\ Stops(m, m.t[j])) THEN 0
    ELSE 1 + RunLen(m, j + 1, lim, stopping)

\* the same in groups of n: number of groups, -1 if a group is incomplete
RECURSIVE RunGroups(_, _, _, _, _)
RunGroups(m, j, n, lim, stopping) ==
    IF j >= lim \/ (stopping /\ Stops(m, m.t[j])) THEN 0
    ELSE IF n > lim - j THEN -1
    ELSE LET r == RunGroups(m, j + n, n, lim, stopping) IN IF r = -1 THEN -1 ELSE r + 1

---------------------------------------------------------------------------
(* Consuming *)


\* give argument ai the values vals (a sequence of rows) taken from the n
\* tokens after the current one
Occur(m, ai, rows, n, append) ==
    LET a == m.args[ai]
        old == IF append /\ a.exist THEN a.elems ELSE <<>>
        b == IF KindOf(a) = "SIMPLE" THEN [a EXCEPT !.one = rows[1][1]]
             ELSE IF KindOf(a) \in ListKinds THEN [a EXCEPT !.elems = old \o rows]
             ELSE a
        i2 == m.i + n + 1
    IN [m EXCEPT !.args[ai] = [b EXCEPT !.exist = TRUE, !.count = @ + 1],
                 !.roles = TLCEval([j \in 1..Len(m.t) |->
                              IF j = m.i THEN [k |-> "opt", a |-> ai]
                              ELSE IF j > m.i /\ j < i2 THEN [k |-> "val", a |-> ai] ELSE @[j]]),
                 !.i = i2,
                 !.st = IF i2 > Len(m.t) THEN "done" ELSE "run"]

Singles(m, from, n) == TLCEval([j \in 1..n |-> <<m.t[from + j - 1]>>])
Rows(m, from, n, g) == TLCEval([j \in 1..g |-> SubSeq(m.t, from + (j - 1) * n, from + j * n - 1)])

\* option ai, written as culprit, with (has) or without an attached value
Option(m, culprit, ai, has, val) ==
    LET a == m.args[ai]
        k == KindOf(a)
        i == m.i
        short == Fail(m, "bad number of argument", culprit)
    IN IF has
       THEN CASE k \in {"SIMPLE", "INF"} -> Occur(m, ai, <<<<val>>>>, 0, FALSE)
              [] k \in {"MULTI", "MULTIINF"} -> Occur(m, ai, <<<<val>>>>, 0, TRUE)
              [] k \in {"NUM", "MULTINUM", "MULTINUMINF"} ->
                     Fail(m, "option cannot use with only 1 argument", culprit)
              [] OTHER -> Fail(m, "option cannot use with argument", culprit)
       ELSE CASE k \in {"SIMPLE", "MULTI"} ->
                     IF i + 1 >= m.e THEN short
                     ELSE Occur(m, ai, Singles(m, i + 1, 1), 1, k = "MULTI")
              [] k = "NUM" ->
                     IF a.nargs >= m.e - i THEN short
                     ELSE Occur(m, ai, Singles(m, i + 1, a.nargs), a.nargs, FALSE)
              [] k = "MULTINUM" ->
                     IF a.nargs >= m.e - i THEN short
                     ELSE Occur(m, ai, Rows(m, i + 1, a.nargs, 1), a.nargs, TRUE)
              [] k \in {"INF", "MULTIINF"} ->
                     LET n == RunLen(m, i + 1, m.e, TRUE)
                     IN Occur(m, ai, Singles(m, i + 1, n), n, k = "MULTIINF")
              [] k = "MULTINUMINF" ->
                     LET g == RunGroups(m, i + 1, a.nargs, m.e, TRUE)
                     IN IF g = -1 THEN short
                        ELSE Occur(m, ai, Rows(m, i + 1, a.nargs, g), g * a.nargs, TRUE)
              [] OTHER -> Occur(m, ai, <<>>, 0, FALSE)

\* letters 2..: switches may be followed by other letters, the last letter
\* may be anything, a value-taking letter before the end absorbs the rest
RECURSIVE Cluster(_, _, _, _, _)
Cluster(m, opt, has, val, j) ==
    LET c == Ch(opt, j)
        k == Find(m.args, "-" \o c)
        kind == KindOf(m.args[k])
    IN IF k = 0 THEN Fail(m, "invalid option", c)
       ELSE IF j = Len(opt) THEN Option(m, c, k, has, val)
       ELSE IF ~has /\ kind \in AttachKinds THEN Option(m, c, k, TRUE, From(opt, j + 1))
       ELSE IF kind \notin SwitchKinds THEN Fail(m, "only last option can be use a parameter", c)
       ELSE Cluster([m EXCEPT !.args[k].exist = TRUE, !.args[k].count = @ + 1], opt, has, val, j + 1)

StepShort(m) ==
    LET p == TakeArg(m.t[m.i])
        l == IF m.alt THEN Find(m.args, "-" \o p.opt) ELSE 0
    IN IF l # 0 THEN Option(m, From(p.opt, 2), l, p.has, p.val)
       ELSE IF Len(p.opt) = 1 THEN Fail(m, "invalid option", "-")
       ELSE Cluster(m, p.opt, p.has, p.val, 2)

StepLong(m) ==
    LET p == TakeArg(m.t[m.i])
        k == Find(m.args, p.opt)
    IN IF k = 0 THEN Fail(m, "invalid option", From(p.opt, 3))
       ELSE Option(m, From(p.opt, 3), k, p.has, p.val)

StepEnd(m) == [m EXCEPT !.aft = TRUE, !.i = @ + 1, !.roles[m.i] = [k |-> "end", a |-> 0],
                        !.st = IF m.i = Len(m.t) THEN "done" ELSE "run"]

RECURSIVE NextPos(_, _)
NextPos(args, i) == IF i > Len(args) THEN 0
                    ELSE IF args[i].pos /\ ~args[i].exist THEN i ELSE NextPos(args, i + 1)

Take(m, ai, rows, n) ==
    LET i2 == m.i + n
        a == m.args[ai]
        b == IF KindOf(a) = "POS" THEN [a EXCEPT !.one = rows[1][1]] ELSE [a EXCEPT !.elems = rows]
    IN [m EXCEPT !.args[ai] = [b EXCEPT !.exist = TRUE, !.count = 1],
                 !.roles = TLCEval([j \in 1..Len(m.t) |->
                              IF j >= m.i /\ j < i2 THEN [k |-> "val", a |-> ai] ELSE @[j]]),
                 !.i = i2,
                 !.st = IF i2 > Len(m.t) THEN "done" ELSE "run"]

StepPositional(m) ==
    LET ai == NextPos(m.args, 1)
        a == m.args[ai]
        k == KindOf(a)
        lim == IF m.aft THEN Len(m.t) + 1 ELSE m.e
        short == Fail(m, "bad number of argument", Front(a))
    IN IF ai = 0
       THEN IF m.strict THEN Fail(m, "invalid additional argument", m.t[m.i])
            ELSE [m EXCEPT !.addl = Append(@, m.t[m.i]), !.i = @ + 1,
                           !.roles[m.i] = [k |-> "add", a |-> 0],
                           !.st = IF m.i = Len(m.t) THEN "done" ELSE "run"]
       ELSE CASE k = "POS" -> Take(m, ai, Singles(m, m.i, 1), 1)
              [] k = "NUMPOS" -> IF a.nargs > lim - m.i THEN short
                                 ELSE Take(m, ai, Singles(m, m.i, a.nargs), a.nargs)
              [] k = "INFPOS" -> LET n == RunLen(m, m.i, lim, ~m.aft)
                                 IN Take(m, ai, Singles(m, m.i, n), n)
              [] k = "INFNUMPOS" -> LET g == RunGroups(m, m.i, a.nargs, lim, ~m.aft)
                                    IN IF g = -1 THEN short
                                       ELSE Take(m, ai, Rows(m, m.i, a.nargs, g), g * a.nargs)

StepKind(m) == LET tok == m.t[m.i]
               IN IF m.aft THEN "positional"
                  ELSE IF IsShort(tok) THEN "short"
                  ELSE IF IsLong(tok) THEN "long"
                  ELSE IF IsEnd(tok) THEN "end"
                  ELSE "positional"

Step(m) == CASE StepKind(m) = "short" -> StepShort(m)
             [] StepKind(m) = "long" -> StepLong(m)
             [] StepKind(m) = "end" -> StepEnd(m)
             [] OTHER -> StepPositional(m)

RECURSIVE Run(_)
Run(m) == IF m.st = "run" THEN Run(Step(m)) ELSE m
=============================================================================
