------------------------------- MODULE Props -------------------------------
(* The listed properties of one command line, stated declaratively on a    *)
(* finished parse and independently of how Parser.tla walks the tokens.    *)
(*   A  arguments before the parse (fresh), in order                       *)
(*   m  finished machine (Parser!Run), with the ghost role of every token  *)
(*   w, oi, argv, r : the whole call, r == ParseIn(w, oi, argv)            *)
EXTENDS World, FiniteSets

Range1(s) == {s[i] : i \in 1..Len(s)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Sum(s) == LET RECURSIVE Go(_) Go(i) == IF i > Len(s) THEN 0 ELSE s[i] + Go(i + 1) IN Go(1)
SelectIdx(s, T(_)) == LET RECURSIVE Go(_)
                          Go(i) == IF i > Len(s) THEN <<>> ELSE (IF T(i) THEN <<s[i]>> ELSE <<>>) \o Go(i + 1)
                      IN Go(1)

---------------------------------------------------------------------------
(* Reading one option token: the arguments it mentions, in order, and the  *)
(* value attached to the last one.                                         *)

BeforeEq(tok) == IF IndexOf(tok, "=") = 0 THEN tok ELSE SubSeq(tok, 1, IndexOf(tok, "=") - 1)
HasEq(tok) == IndexOf(tok, "=") # 0
AfterEq(tok) == From(tok, IndexOf(tok, "=") + 1)
Absorbs(A, k) == k # 0 /\ A[k].kind \in AttachKinds

WholeName(A, alt, tok) ==     \* argument named by the whole token, or 0
    IF IsLong(tok) THEN Find(A, BeforeEq(tok))
    ELSE IF alt THEN Find(A, "-" \o BeforeEq(tok)) ELSE 0

Letter(A, tok, j) == Find(A, "-" \o Ch(BeforeEq(tok), j))
\* the letter that ends a cluster: undefined, absorbing the rest, or the last
ClusterEnd(A, tok) == Min({j \in 2..Len(BeforeEq(tok)) :
                             \/ j = Len(BeforeEq(tok))
                             \/ Letter(A, tok, j) = 0
                             \/ Absorbs(A, Letter(A, tok, j)) /\ ~HasEq(tok)})

\* recognisably one of the defined options
Recognised(A, alt, tok) ==
    \/ (IsShort(tok) \/ IsLong(tok)) /\ WholeName(A, alt, tok) # 0
    \/ IsShort(tok) /\ Len(BeforeEq(tok)) > 1 /\ Letter(A, tok, ClusterEnd(A, tok)) # 0

\* a cluster that goes wrong only after a letter that may be followed by others
Begun(A, tok) ==
    /\ IsShort(tok)
    /\ \E j \in 2..(Len(BeforeEq(tok)) - 1) :
          /\ \A i \in 2..j : Letter(A, tok, i) # 0
          /\ A[Letter(A, tok, j)].kind \in SwitchKinds \/ (Absorbs(A, Letter(A, tok, j)) /\ ~HasEq(tok))

\* sequence of [a, att] mentioned by an option token of a successful parse
Mentions(A, alt, tok) ==
    IF WholeName(A, alt, tok) # 0
    THEN <<[a |-> WholeName(A, alt, tok), att |-> IF HasEq(tok) THEN <<AfterEq(tok)>> ELSE <<>>]>>
    ELSE LET e == ClusterEnd(A, tok)
         IN TLCEval([j \in 1..(e - 1) |->
               [a |-> Letter(A, tok, j + 1),
                att |-> IF j + 1 < e THEN <<>>
                        ELSE IF e < Len(BeforeEq(tok)) THEN <<From(tok, e + 1)>>
                        ELSE IF HasEq(tok) THEN <<AfterEq(tok)>> ELSE <<>>]])

---------------------------------------------------------------------------
(* What each argument was given, read off the roles                        *)

OptAt(m) == {i \in 1..Len(m.t) : m.roles[i].k = "opt"}
ValAt(m) == {i \in 1..Len(m.t) : m.roles[i].k = "val"}
AddAt(m) == {i \in 1..Len(m.t) : m.roles[i].k = "add"}
EndAt(m) == {i \in 1..Len(m.t) : m.roles[i].k = "end"}

\* end (exclusive) of the block of values that starts at i
BlockEnd(m, i, ai) == Min({j \in i..(Len(m.t) + 1) : j = Len(m.t) + 1 \/ ~(m.roles[j].k = "val" /\ m.roles[j].a = ai)})
Taken(m, i, ai) == SubSeq(m.t, i, BlockEnd(m, i, ai) - 1)

\* occurrences of option ai in order: each the sequence of values given to it
Occurrences(A, m, ai) ==
    LET RECURSIVE Go(_)
        Go(i) == IF i > Len(m.t) THEN <<>>
                 ELSE IF m.roles[i].k # "opt" THEN Go(i + 1)
                 ELSE LET ms == Mentions(A, m.alt, m.t[i])
                          mine == SelectIdx(ms, LAMBDA q : ms[q].a = ai)
                      IN TLCEval([j \in 1..Len(mine) |->
                             IF mine[j].att # <<>> THEN mine[j].att
                             ELSE IF j = Len(mine) /\ ms[Len(ms)].a = ai THEN Taken(m, i + 1, ai)
                             ELSE <<>>]) \o Go(i + 1)
    IN Go(1)

PosBlock(m, ai) == LET v == {i \in ValAt(m) : m.roles[i].a = ai}
                   IN IF v = {} THEN <<>> ELSE Taken(m, Min(v), ai)

SinglesOf(s) == TLCEval([i \in 1..Len(s) |-> <<s[i]>>])

\* the values the argument must report, as rows
ExpectedRows(A, m, ai) ==
    LET a == A[ai]
        k == a.kind
        oc == Occurrences(A, m, ai)
        block == PosBlock(m, ai)
        Absent == IF k \in SingleKinds THEN <<<<a.one>>>> ELSE a.elems
    IN IF a.pos
       THEN IF block = <<>> THEN Absent
            ELSE IF k = "INFNUMPOS" THEN Groups(block, a.nargs) ELSE SinglesOf(block)
       ELSE IF oc = <<>> THEN Absent
       ELSE CASE k \in {"SIMPLE", "NUM", "INF"} -> SinglesOf(oc[Len(oc)])
              [] k \in {"MULTI", "MULTIINF"} -> SinglesOf(FlattenSeq2(oc))
              [] k = "MULTINUM" -> oc
              [] k = "MULTINUMINF" -> Groups(FlattenSeq2(oc), a.nargs)
              [] OTHER -> <<>>

ReportedRows(a) == IF a.kind \in SingleKinds THEN <<<<a.one>>>>
                   ELSE IF a.kind \in ListKinds THEN a.elems ELSE <<>>

---------------------------------------------------------------------------
(* Properties of the token machine *)

\* P01 every token has exactly one role; values and additional arguments are
\* the tokens, unchanged and in order; nothing else is reported
Partition(A, m) ==
    m.st = "done" =>
        /\ \A i \in 1..Len(m.t) : m.roles[i].k \in {"opt", "val", "end", "add"}
        /\ \A i \in EndAt(m) : m.t[i] = "--" /\ i = m.e
        /\ m.addl = SelectIdx(m.t, LAMBDA i : m.roles[i].k = "add")
        /\ \A ai \in 1..Len(A) : ReportedRows(m.args[ai]) =
                                    (IF A[ai].kind \in SingleKinds \cup ListKinds THEN ExpectedRows(A, m, ai) ELSE <<>>)
        /\ \A i \in ValAt(m) : m.roles[i].a \in 1..Len(A)

\* P05 / P06: counts and existence
Counts(A, m) ==
    m.st = "done" =>
        \A ai \in 1..Len(A) :
            LET n == IF A[ai].pos THEN (IF PosBlock(m, ai) = <<>> THEN 0 ELSE 1) ELSE Len(Occurrences(A, m, ai))
            IN /\ m.args[ai].count = n /\ m.args[ai].exist = (n > 0)
               /\ (A[ai].kind \in SingleKinds \cup ListKinds) => ReportedRows(m.args[ai]) = ExpectedRows(A, m, ai)
\* no value is a default once the option occurs (its rows come from tokens only)
NoStaleDefault(A, m) ==
    m.st = "done" =>
        \A ai \in 1..Len(A) :
            /\ ~m.args[ai].exist => ReportedRows(m.args[ai]) = ReportedRows(WithDefaults(A[ai]))
            /\ (m.args[ai].exist /\ m.args[ai].kind \in ListKinds) =>
                  \A r \in Range1(m.args[ai].elems) : \A v \in Range1(r) :
                      \/ v \in Range1(m.t)
                      \/ \E i \in OptAt(m) : \E x \in Range1(Mentions(A, m.alt, m.t[i])) : x.att = <<v>>

\* P03 arity of every option occurrence
Arity(A, m) ==
    m.st = "done" =>
        \A i \in OptAt(m) :
            LET ms == Mentions(A, m.alt, m.t[i])
                l == ms[Len(ms)]
                a == A[l.a]
                n == Len(Taken(m, i + 1, l.a))
                nx == i + n + 1
                ended == \/ nx > Len(m.t) \/ m.t[nx] = "--" \/ Recognised(A, m.alt, m.t[nx])
            IN /\ \A j \in 1..(Len(ms) - 1) : A[ms[j].a].kind \in SwitchKinds
               /\ l.att # <<>> => n = 0 /\ a.kind \in {"SIMPLE", "MULTI", "INF", "MULTIINF"}
               /\ l.att = <<>> =>
                    CASE a.kind \in SwitchKinds \cup {"HELP", "VERSION"} -> n = 0
                      [] a.kind \in {"SIMPLE", "MULTI"} -> n = 1
                      [] a.kind \in {"NUM", "MULTINUM"} -> n = a.nargs
                      [] a.kind \in {"INF", "MULTIINF"} ->
                             ended /\ \A j \in (i + 1)..(nx - 1) : ~Recognised(A, m.alt, m.t[j])
                      [] a.kind = "MULTINUMINF" ->
                             /\ n % a.nargs = 0 /\ ended
                             /\ \A j \in (i + 1)..(nx - 1) : (j - i - 1) % a.nargs = 0 => ~Recognised(A, m.alt, m.t[j])
               /\ \A j \in (i + 1)..(nx - 1) : j < m.e     \* never past the first "--"

\* P04 positionals are filled in order, each by one block of the right size
Positionals(A, m) ==
    m.st = "done" =>
        LET pos == {ai \in 1..Len(A) : A[ai].pos}
            filled == {ai \in pos : m.args[ai].exist}
            at(ai) == {i \in ValAt(m) : m.roles[i].a = ai}
        IN /\ \A x \in filled : \A y \in pos : y < x => y \in filled
           /\ \A x, y \in filled : x < y => Max(at(x)) < Min(at(y))
           /\ \A x \in filled :
                LET n == Len(PosBlock(m, x))
                    f == Min(at(x))
                    nx == f + n
                    \* the first token of each group, or each token of an unbounded list
                    heads == {j \in f..(nx - 1) : A[x].kind # "INFNUMPOS" \/ (j - f) % A[x].nargs = 0}
                IN /\ at(x) = f..(nx - 1)
                   /\ f < m.e => nx <= m.e
                   /\ (f < m.e /\ A[x].kind \in {"INFPOS", "INFNUMPOS"}) => \A j \in heads : ~Recognised(A, m.alt, m.t[j])
                   /\ CASE A[x].kind = "POS" -> n = 1
                        [] A[x].kind = "NUMPOS" -> n = A[x].nargs
                        [] OTHER -> /\ A[x].kind = "INFNUMPOS" => n % A[x].nargs = 0
                                    /\ (nx > Len(m.t)) \/ (f < m.e /\ (nx = m.e \/ Recognised(A, m.alt, m.t[nx])))
           /\ AddAt(m) # {} => filled = pos /\ \A x \in filled : Max(at(x)) < Min(AddAt(m))
           /\ m.strict => AddAt(m) = {}
           /\ \A x, y \in pos : x < y => ~(A[y].required /\ ~A[x].required)

\* P22 after the first "--" that was not taken as a value
AfterEnd(A, m) ==
    /\ \A i \in 1..Len(m.t) : (i > m.e /\ m.st = "done") =>
            (m.roles[i].k = "add") \/ (m.roles[i].k = "val" /\ A[m.roles[i].a].pos)
    /\ (m.e <= Len(m.t) /\ m.st = "done") =>
            /\ m.roles[m.e].k = "end"
            /\ LET head == Run(Machine(A, SubSeq(m.t, 1, m.e - 1), m.alt, m.strict))
               IN /\ head.st = "done"
                  /\ \A ai \in 1..Len(A) : ~A[ai].pos => head.args[ai] = m.args[ai]
                  /\ head.addl = SubSeq(m.addl, 1, Len(head.addl))
            \* an unbounded list that starts there takes everything that is left
            /\ \A ai \in 1..Len(A) : ((\E i \in ValAt(m) : i > m.e /\ m.roles[i].a = ai) /\ A[ai].kind \in {"INFPOS", "INFNUMPOS"}) =>
                  m.roles[Len(m.t)].k = "val" /\ m.roles[Len(m.t)].a = ai

\* the line ended while an option that takes any number of values was taking them
ListOpen(A, m) ==
    LET n == Len(m.t)
        last == IF OptAt(m) = {} THEN 0 ELSE Max(OptAt(m))
        ms == Mentions(A, m.alt, m.t[last])
        l == ms[Len(ms)]
        len == BlockEnd(m, last + 1, l.a) - last - 1
    IN /\ last # 0 /\ l.att = <<>> /\ last + len = n
       /\ \/ A[l.a].kind \in {"INF", "MULTIINF"}
          \/ A[l.a].kind = "MULTINUMINF" /\ m.t[n] # "--"

\* P10 a refusal names the first defect: everything before it parses
HardReasons == {"invalid option", "option cannot use with argument", "option cannot use with only 1 argument",
                "only last option can be use a parameter", "invalid additional argument"}
FirstDefect(A, m) ==
    m.st = "err" =>
        LET tok == m.t[m.i]
            before == Run(Machine(A, SubSeq(m.t, 1, m.i - 1), m.alt, m.strict))
        IN /\ before.st = "done" /\ before.addl = m.addl
           /\ m.err.w \in HardReasons \cup {"bad number of argument"}
           /\ CASE m.err.w = "invalid additional argument" -> m.err.a = tok /\ m.strict
                [] m.err.w = "bad number of argument" /\ (\E ai \in 1..Len(A) : A[ai].pos /\ Front(A[ai]) = m.err.a)
                       -> TRUE
                [] OTHER -> \/ m.err.a = From(BeforeEq(tok), 2) \/ m.err.a = From(BeforeEq(tok), 3)
                            \/ \E j \in 2..Len(tok) : Ch(tok, j) = m.err.a
                            \/ (BeforeEq(tok) = "-" /\ m.err.a = "-")   \* "-=x": nothing but the dash
           /\ m.err.w = "invalid option" => ~Recognised(A, m.alt, tok)
           \* a token that is no option is a value while an unbounded list is open
           /\ (~Recognised(A, m.alt, tok) /\ ~Begun(A, tok) /\ m.i < m.e) => ~ListOpen(A, before)
\* adding tokens cannot repair a refusal that is not about missing values
Stable(A, m, more) ==
    (m.st = "err" /\ m.err.w \in HardReasons) =>
        Run(Machine(A, m.t \o more, m.alt, m.strict)).err = m.err

\* P02 rewriting one option occurrence to another spelling
SameResult(m1, m2) == m1.st = m2.st /\ m1.args = m2.args /\ m1.addl = m2.addl
Respell(m, i, n, toks) == SubSeq(m.t, 1, i - 1) \o toks \o SubSeq(m.t, i + n, Len(m.t))
NoEq(s) == IndexOf(s, "=") = 0
Spellings(A, m, i) ==      \* alternatives to the tokens that start at i: <<number of tokens, new tokens>>
    LET tok == m.t[i]
        ms == Mentions(A, m.alt, tok)
        l == ms[Len(ms)]
        a == A[l.a]
        names == {n \in Range1(a.names) : NoEq(n) /\ (IsShort(n) => Len(n) = 2)}
        amb(s) == m.alt /\ IsShort(s) /\ Find(A, "-" \o BeforeEq(s)) \notin {0, l.a}
        one == a.kind \in {"SIMPLE", "MULTI"}
        v == IF l.att # <<>> THEN l.att[1] ELSE m.t[i + 1]
        used == IF l.att # <<>> THEN 1 ELSE 2
        switches == SubSeq(ms, 1, Len(ms) - 1)
        Flags(j) == {n \in Range1(A[switches[j].a].names) : NoEq(n)}
        forms == {<<n \o "=" \o v>> : n \in names}
                 \cup {<<n, v>> : n \in {x \in names : v # "--"}}
                 \cup {<<n \o v>> : n \in {x \in names : IsShort(x) /\ v # "" /\ NoEq(v)}}
        pre == IF Len(switches) = 0 THEN {<<>>}
               ELSE {<<n>> : n \in IF Len(switches) = 1 THEN Flags(1) ELSE {}}
    IN IF one THEN {<<used, p \o f>> : p \in pre, f \in {g \in forms : ~amb(g[1])}}
       ELSE IF Len(ms) = 1 /\ l.att = <<>> /\ a.kind \in SwitchKinds
            THEN {<<1, <<n>>>> : n \in {x \in names : ~amb(x)}}
       ELSE {}
\* a token that ends in a cluster of switches split into single switches
SplitCluster(A, m, i) ==
    LET tok == m.t[i]
        ms == Mentions(A, m.alt, tok)
    IN IF IsShort(tok) /\ WholeName(A, m.alt, tok) = 0 /\ NoEq(tok) /\ Len(ms) = Len(tok) - 1
          /\ (\A j \in 1..Len(ms) : ms[j].att = <<>>)
          /\ (\A c \in 2..Len(tok) : ~(m.alt /\ Find(A, "--" \o Ch(tok, c)) # 0))
       THEN {<<1, TLCEval([j \in 1..(Len(tok) - 1) |-> "-" \o Ch(tok, j + 1)])>>} ELSE {}
Equivalent(A, m) ==
    m.st = "done" =>
        \A i \in OptAt(m) : \A s \in Spellings(A, m, i) \cup SplitCluster(A, m, i) :
            SameResult(m, Run(Machine(A, Respell(m, i, s[1], s[2]), m.alt, m.strict)))

\* P23 with alternative mode on, a token read through the mode can be written
\* with two dashes and the mode switched off; other tokens do not need it
AltOnlyAdds(A, m) ==
    LET read(i) == m.roles[i].k = "opt" /\ IsShort(m.t[i]) /\ Find(A, "-" \o BeforeEq(m.t[i])) # 0
        t2 == TLCEval([i \in 1..Len(m.t) |-> IF read(i) THEN "-" \o m.t[i] ELSE m.t[i]])
    IN (m.alt /\ m.st = "done") => SameResult(m, Run(Machine(A, t2, FALSE, m.strict)))
AltUnused(A, m) ==
    (\A i \in 1..Len(m.t) : IsShort(m.t[i]) => Find(A, "-" \o BeforeEq(m.t[i])) = 0) =>
        LET n == Run(Machine(A, m.t, ~m.alt, m.strict)) IN SameResult(m, n) /\ n.err = m.err

---------------------------------------------------------------------------
(* Properties of the whole call: r == ParseIn(w, oi, argv), o2 the object  *)
(* with its automatic help option                                          *)

FixedNames(o) == TLCEval([i \in 1..Len(o.args) |->
                   [o.args[i] EXCEPT !.exist = FALSE, !.count = 0, !.one = "", !.elems = <<>>, !.num = FALSE,
                                     !.parsed = FALSE, !.known = TRUE]])

\* P07 / P08 precedence
Precedence(w, oi, argv, r) ==
    LET o == AutoHelp(Reset(w.objs[oi]))
        m == Run(Machine(o.args, Tail(argv), o.alt, o.strict))
        h == HelpIdx(o.args)
        v == VersionIdx(o.args)
        asked(k) == k # 0 /\ m.args[k].exist
        missing == {i \in 1..Len(o.args) : o.args[i].required /\ ~m.args[i].exist}
    IN /\ (r.out = Ok \/ (r.out.k = "exc" /\ r.out.t \in {"Valid", "std"})) => missing = {} /\ m.st = "done" /\ ~asked(h) /\ ~asked(v)
       /\ (r.out.k = "exc" /\ r.out.t = "Required") =>
              /\ m.st = "done" /\ ~asked(h) /\ ~asked(v)
              /\ \E i \in missing : Front(o.args[i]) = r.out.a
              /\ r.w.vlog = <<>> /\ r.w.slots = w.slots
       /\ (m.st = "done" /\ ~asked(h) /\ ~asked(v) /\ missing # {}) => r.out.k = "exc" /\ r.out.t = "Required"
       /\ (m.st = "done" /\ asked(h)) =>
              /\ r.out = (IF o.hex THEN Exc("Help", Usage([o EXCEPT !.binary = IF @ = "" THEN argv[1] ELSE @]), "")
                          ELSE [k |-> "exit", code |-> 0, text |-> Usage([o EXCEPT !.binary = IF @ = "" THEN argv[1] ELSE @]) \o "\n"])
              /\ r.w.vlog = <<>> /\ r.w.slots = w.slots
       /\ (m.st = "done" /\ ~asked(h) /\ asked(v)) =>
              /\ r.out = (IF o.vex THEN Exc("Version", o.version, "") ELSE [k |-> "exit", code |-> 0, text |-> o.version \o "\n"])
              /\ r.w.vlog = <<>> /\ r.w.slots = w.slots
       /\ (m.st = "err") <=> (r.out.k = "exc" /\ r.out.t = "Parse" /\ r.out.w # "destination method not found for this type")
       /\ m.st = "err" => r.out = m.err /\ r.w.vlog = <<>> /\ r.w.slots = w.slots
       /\ (HelpIdx(o.args) # 0 \/ HelpBlocked(w.objs[oi]))

\* P06 the definitions are not changed by the call
DefsKept(w, oi, r) ==
    r.out.k # "exit" =>
        LET o == AutoHelp(w.objs[oi]) IN FixedNames(r.w.objs[oi]) = FixedNames(o)

\* P09 nothing outside a validator is accepted
Accepted(w, oi, argv, r) ==
    r.out = Ok =>
        LET o == AutoHelp(Reset(w.objs[oi]))
            m == Run(Machine(o.args, Tail(argv), o.alt, o.strict))
            checked == {i \in 1..Len(o.args) : m.args[i].exist /\ m.args[i].valid.k # "none"}
        IN /\ \A i \in checked : Validate(m.args[i].valid, FlatOf(m.args[i])).ok
           /\ Len(r.w.vlog) = Len(SelectIdx(m.args, LAMBDA i : i \in checked))
           /\ \A i \in 1..Len(o.args) : i \notin checked => ReportedRows(r.w.objs[oi].args[i]) = ReportedRows(m.args[i])

\* P15 / P06 the outcome depends on the definitions and argv only
Independent(w, oi, argv, r, w2) ==   \* w2: another world with the same definitions and slots
    LET q == ParseIn([w2 EXCEPT !.slots = w.slots], oi, argv)
    IN q.out = r.out /\ q.w.objs[oi].args = r.w.objs[oi].args /\ q.w.objs[oi].addl = r.w.objs[oi].addl
       /\ q.w.slots = r.w.slots /\ q.w.vlog = r.w.vlog
---------------------------------------------------------------------------
(* P17: texts and layout *)

IsSpace(c) == c = " " \/ c = "\n"
\* the words of a text, in order
Words(s) ==
    LET RECURSIVE Go(_, _)     \* s[b..i-1] is the word being read
        Go(b, i) == IF i > Len(s) THEN (IF b < i THEN <<SubSeq(s, b, i - 1)>> ELSE <<>>)
                    ELSE IF IsSpace(Ch(s, i)) THEN (IF b < i THEN <<SubSeq(s, b, i - 1)>> ELSE <<>>) \o Go(i + 1, i + 1)
                    ELSE Go(b, i + 1)
    IN Go(1, 1)

\* a wrapped text: nothing is lost, lines are broken at spaces only, and a
\* line that is too long has no place to break it
Wrapped(text, w) ==
    LET ls == Wrap(text, w)
        given == Lines(text)
        \* ls[from..to] are the pieces of one given line
        piece(g, from, to) ==
            LET RECURSIVE Fits(_, _)   \* g read from position i, next piece k
                Fits(i, k) == /\ SubSeq(g, i, i + Len(ls[k]) - 1) = ls[k]
                              /\ LET e == i + Len(ls[k])
                                 IN IF k = to THEN e = Len(g) + 1
                                    ELSE /\ Ch(g, e) = " "
                                         /\ \E n \in (e + 1)..(Len(g) + 1) :
                                               /\ \A x \in e..(n - 1) : Ch(g, x) = " "
                                               /\ n = Len(g) + 1 \/ Ch(g, n) # " "
                                               /\ Fits(n, k + 1)
            IN Fits(1, from)
        RECURSIVE Match(_, _)          \* given lines from gi are made of the pieces from k
        Match(gi, k) == IF gi > Len(given) THEN k = Len(ls) + 1
                        ELSE \E to \in k..Len(ls) : piece(given[gi], k, to) /\ Match(gi + 1, to + 1)
    IN /\ Match(1, 1)
       /\ \A k \in 1..Len(ls) : Len(ls[k]) > w => \A x \in 1..(w + 1) : x <= Len(ls[k]) => Ch(ls[k], x) # " "
       /\ Words(Join(ls, "\n")) = Words(text)

Before(s, c, i) == LET p == IndexFrom(s, c, i) IN IF p = 0 THEN From(s, i) ELSE SubSeq(s, i, p - 1)
RECURSIVE WordsOf(_, _)
WordsOf(ss, i) == IF i > Len(ss) THEN <<>> ELSE Words(ss[i]) \o WordsOf(ss, i + 1)

Opts(o) == SelectSeq(o.args, LAMBDA a : ~a.pos)
Poss(o) == SelectSeq(o.args, LAMBDA a : a.pos)
Shown(o, title, as) == IF as = <<>> THEN <<>>
                       ELSE Words(title) \o WordsOf(TLCEval([i \in 1..Len(as) |-> Label(as[i]) \o " " \o HelpText(as[i])]), 1)
\* the same words in the same order, each argument once in the synopsis and
\* once in its section
Content(o) ==
    Words(Usage(o)) =
        Words("usage: " \o BaseName(o.binary)) \o WordsOf(TLCEval([i \in 1..Len(Opts(o)) |-> SynopsisItem(Opts(o)[i])]), 1)
        \o (IF Opts(o) # <<>> /\ Poss(o) # <<>> THEN <<"--">> ELSE <<>>)
        \o WordsOf(TLCEval([i \in 1..Len(Poss(o)) |-> SynopsisItem(Poss(o)[i])]), 1)
        \o Words(o.desc) \o Shown(o, "positional arguments:", Poss(o)) \o Shown(o, "optional arguments:", Opts(o)) \o Words(o.epilog)
Sortedness(o) ==
    \A i, j \in 1..Len(o.args) : i < j =>
        LET a == o.args[i]
            b == o.args[j]
        IN /\ a.pos => b.pos
           /\ a.pos = b.pos => (b.required => a.required)
           /\ (~a.pos /\ ~b.pos /\ a.required = b.required) =>
                 IF IsShort(Front(a)) = IsShort(Front(b)) THEN StrLess(Front(a), Front(b)) ELSE IsShort(Front(a))
\* the lines of the two sections keep to their columns
Layout(o) ==
    LET col == Pad(o) + ArgsW(o) + Sep(o)
        sec == Section(o, "positional arguments", TRUE) \o Section(o, "optional arguments", FALSE)
        ls == Lines(sec)
        labels == {Label(o.args[i]) : i \in 1..Len(o.args)}
        title(x) == x \in {"", "positional arguments:", "optional arguments:"}
        long(t) == Len(t) > HelpW(o) /\ \E x \in 1..(HelpW(o) + 1) : x <= Len(t) /\ Ch(t, x) = " "
        head(x) == \E l \in labels : /\ StartsWith(x, Spaces(Pad(o)) \o l)
                                     /\ IF Len(l) > ArgsW(o) THEN Len(x) = Pad(o) + Len(l)
                                        ELSE /\ \A k \in (Pad(o) + Len(l) + 1)..col : Ch(x, k) = " "
                                             /\ Len(x) >= col /\ ~long(From(x, col + 1))
        cont(x) == StartsWith(x, Spaces(col)) /\ ~long(From(x, col + 1))
    IN \A i \in 1..Len(ls) : title(ls[i]) \/ head(ls[i]) \/ cont(ls[i])
\* no synopsis line is too long unless it is a single piece
SynopsisFits(o) ==
    LET ls == Lines(Synopsis(o))
        items == {SynopsisItem(o.args[i]) : i \in 1..Len(o.args)}
        ind == Spaces(Len("usage: " \o BaseName(o.binary)))
    IN \A i \in 1..Len(ls) :
          \/ Len(ls[i]) <= TotalW(o)
          \/ \E it \in items : ls[i] = ind \o " " \o it
          \/ ls[i] \in {"usage: " \o BaseName(o.binary), ind, ind \o " --"}
UsageOk(o) == IF o.usage # "" THEN Usage(o) = o.usage
              ELSE Content(o) /\ Sortedness(o) /\ Layout(o) /\ SynopsisFits(o)

---------------------------------------------------------------------------
(* P21: numbers, as a grammar *)

DigitsOnly(s) == \A i \in 1..Len(s) : IsDigit(Ch(s, i))
\* sign int [. frac] [mark sign digits], cut at c1 <= c2 <= c3 <= c4 <= c5
IsDecimal(s) ==
    \E c1 \in 0..Len(s) : c1 <= 1 /\ SubSeq(s, 1, c1) \in {"", "+", "-"} /\
    \E c2 \in c1..Len(s) : DigitsOnly(SubSeq(s, c1 + 1, c2)) /\
    \E c3 \in c2..Len(s) : SubSeq(s, c2 + 1, c3) \in {"", "."} /\
    \E c4 \in c3..Len(s) : DigitsOnly(SubSeq(s, c3 + 1, c4)) /\ (c3 = c2 => c4 = c3) /\ (c2 - c1) + (c4 - c3) > 0 /\
    \E c5 \in c4..Len(s) : /\ SubSeq(s, c4 + 1, c5) \in {"", "e", "E", "e+", "e-", "E+", "E-"}
                          /\ DigitsOnly(From(s, c5 + 1))
                          /\ (c5 > c4) = (Len(s) > c5)
\* the longest prefix that is a number, after leading blanks; "" if none
NumPrefix(s) ==
    LET b == Min({i \in 1..(Len(s) + 1) : i = Len(s) + 1 \/ ~IsBlank(Ch(s, i))})
        ends == {j \in b..Len(s) : IsDecimal(SubSeq(s, b, j))}
    IN IF ends = {} THEN "" ELSE SubSeq(s, b, Max(ends))
AfterPrefix(s) == LET b == Min({i \in 1..(Len(s) + 1) : i = Len(s) + 1 \/ ~IsBlank(Ch(s, i))})
                  IN From(s, b + Len(NumPrefix(s)))
\* an exponent mark without digits right after the prefix makes it unreadable
MarkAt(s) == LET e == {i \in 1..Len(s) : Ch(s, i) \in {"e", "E"}} IN IF e = {} THEN Len(s) + 1 ELSE Min(e)
MarkFollows(s) == /\ AfterPrefix(s) # ""
                  /\ Ch(AfterPrefix(s), 1) \in {"e", "E"}
                  /\ MarkAt(NumPrefix(s)) = Len(NumPrefix(s)) + 1
\* value in thousandths of a short number (truncated), and whether it is exact
Milli(p) ==
    LET neg == Ch(p, 1) = "-"
        b == IF Ch(p, 1) \in {"+", "-"} THEN 2 ELSE 1
        e == MarkAt(p)
        dot == IndexOf(SubSeq(p, 1, e - 1), ".")
        ip == SubSeq(p, b, (IF dot = 0 THEN e ELSE dot) - 1)
        fp == IF dot = 0 THEN "" ELSE SubSeq(p, dot + 1, e - 1)
        d == ToNat(ip \o fp, 0)
        es == IF e > Len(p) THEN "0" ELSE From(p, e + 1)
        en == IF Ch(es, 1) = "-" THEN -ToNat(From(es, 2), 0) ELSE ToNat(IF Ch(es, 1) = "+" THEN From(es, 2) ELSE es, 0)
        q == en - Len(fp) + 3
        v == IF q >= 0 THEN (IF d = 0 THEN 0 ELSE d * Pow10(q)) ELSE IF q < -9 THEN 0 ELSE d \div Pow10(-q)
    IN [m |-> IF neg THEN -v ELSE v, exact |-> q >= 0 \/ d = 0 \/ (q >= -9 /\ d % Pow10(-q) = 0)]
\* larger than any double
TooBig(p) ==
    LET e == MarkAt(p)
        b == IF Ch(p, 1) \in {"+", "-"} THEN 2 ELSE 1
        dot == IndexOf(SubSeq(p, 1, e - 1), ".")
        ip == SubSeq(p, b, (IF dot = 0 THEN e ELSE dot) - 1)
        fp == IF dot = 0 THEN "" ELSE SubSeq(p, dot + 1, e - 1)
        all == StripLead(ip \o fp)
    IN e < Len(p) /\ Ch(p, e + 1) # "-" /\ all # "" /\ Len(all) - Len(fp) + ToNat(From(p, IF Ch(p, e + 1) = "+" THEN e + 2 ELSE e + 1), 0) > 309
Thousandths(m) == Value(m < 0, NatText(IF m < 0 THEN -m ELSE m), -3)
NumberOk(s) ==
    LET r == Stream(s)
        p == NumPrefix(s)
    IN /\ r.is = (p # "" /\ ~MarkFollows(s) /\ ~TooBig(p))
       /\ (r.is /\ Top(r.val) <= 6) =>
            LET v == Milli(p)
                lo == Thousandths(v.m)
                hi == Thousandths((IF v.m < 0 THEN -v.m ELSE v.m) + 1)
            IN IF v.exact THEN r.val = lo
               ELSE MagCmp(lo, r.val) < 0 /\ MagCmp(r.val, hi) < 0 /\ (v.m # 0 => r.val.neg = (v.m < 0))
\* ValidNumber: all of the text
WholeOk(s) == LET p == NumPrefix(s)
                  digitsOrMarks == \A i \in 1..Len(s) : Ch(s, i) \in {"0", "1", "2", "5", "+", "-", ".", "e", "E", " "}
              IN digitsOrMarks => (IsWholeNumber(s) <=> (p # "" /\ AfterPrefix(s) = ""))
---------------------------------------------------------------------------
(* P14: what the user variables hold after the call *)

\* cell c is text s converted to the type, told from the text directly
ConvOk(type, s, c) ==
    LET p == NumPrefix(s)
        n == Milli(p)
        plain == /\ p # "" /\ Len(p) <= 6 /\ MarkAt(p) > Len(p) /\ n.exact
                 /\ ~(p \in {"0", "+0", "-0"} /\ AfterPrefix(s) # "" /\ Ch(AfterPrefix(s), 1) \in {"x", "X"})
        t == (IF n.m < 0 THEN -n.m ELSE n.m) \div 1000
        size == CHOOSE k \in {1, 4, 5, 6, 16} : type \notin CharArrays \/ CharArraySize(type) = k
        letters == p = "" /\ \A i \in 1..Len(s) : Ch(s, i) \notin {"n", "N", "i", "I"}   \* neither nan nor inf
    IN CASE type \in {"string", "cstr"} -> c.v = s /\ ~c.x
         [] type \in CharArrays -> ~c.x /\ Len(c.v) < size /\ StartsWith(s, c.v) /\ (Len(c.v) = Len(s) \/ Len(c.v) = size - 1)
         [] type = "bool" /\ (plain \/ letters) -> c = Val(IF plain /\ n.m # 0 THEN "1" ELSE "0")
         [] type \in FloatTypes /\ (plain \/ letters) -> c = Val(IF letters \/ n.m = 0 THEN "0" ELSE NumText(Thousandths(n.m), 15))
         [] type \in {"int", "long", "llong", "short"} /\ (letters \/ (plain /\ t < 30000)) ->
                c = Val(IF letters \/ t = 0 THEN "0" ELSE (IF n.m < 0 THEN "-" ELSE "") \o NatText(t))
         [] type \in {"uint", "ulong", "ullong", "ushort", "char", "uchar"} /\ (letters \/ (plain /\ t < 128 /\ n.m >= 0)) ->
                c = Val(IF letters THEN "0" ELSE NatText(t))
         [] OTHER -> TRUE
BoolConvOk(type, b, c) ==
    CASE type \in {"string", "cstr"} -> c = Val(IF b THEN "true" ELSE "false")
      [] type \in FloatTypes -> c = Val(IF b THEN "1e0" ELSE "0")
      [] type \in CharArrays -> c.v # "" => StartsWith(IF b THEN "true" ELSE "false", c.v)
      [] OTHER -> c = Val(IF b THEN "1" ELSE "0")

\* b starts with a; the rest
Extends(b, a) == Len(b) >= Len(a) /\ SubSeq(b, 1, Len(a)) = a
Rest(b, a) == SubSeq(b, Len(a) + 1, Len(b))

DeliveredTo(a, old, new) ==      \* a: the argument as reported after the call
    LET type == a.dest.type
        list == a.kind \in ListKinds
        rows == IF list THEN a.elems ELSE <<<<a.one>>>>
        flat == FlattenSeq2(rows)
        Cell(s, c) == IF a.kind \in SwitchKinds THEN BoolConvOk(type, BoolOf(a), c) ELSE ConvOk(type, s, c)
        was == IF old.v = <<>> THEN <<>> ELSE old.v[1]
    IN IF a.dest.custom
       THEN /\ new.v = old.v /\ Len(new.calls) = Len(old.calls) + 1 /\ Extends(new.calls, old.calls)
            /\ LET c == new.calls[Len(new.calls)]
               IN /\ c.ex = a.exist
                  /\ FlattenSeq2(c.v) = flat
                  /\ a.dest.shape # "vv" => Len(c.v) = 1
                  /\ a.dest.shape = "vv" => Len(c.v) = (IF list THEN Len(a.elems) ELSE 1)
       ELSE /\ new.calls = old.calls
            /\ CASE a.dest.shape = "one" -> Len(new.v) = 1 /\ Len(new.v[1]) = 1 /\ Cell(a.one, new.v[1][1])
                 [] a.dest.shape = "vec" -> /\ Len(new.v) = 1 /\ Extends(new.v[1], was)
                                           /\ LET d == Rest(new.v[1], was)
                                              IN Len(d) = Len(flat) /\ \A i \in 1..Len(d) : Cell(flat[i], d[i])
                 [] OTHER -> /\ Extends(new.v, old.v)
                             /\ LET d == Rest(new.v, old.v)
                                IN /\ Len(d) = Len(rows)
                                   /\ \A i \in 1..Len(d) : /\ Len(d[i]) = Len(rows[i])
                                                            /\ \A j \in 1..Len(d[i]) : Cell(rows[i][j], d[i][j])
Delivered(w, oi, argv, r) ==
    LET as == AutoHelp(Reset(w.objs[oi])).args
        users(s) == {i \in 1..Len(as) : as[i].dest.slot = s}
    IN /\ (r.out.k = "exit" \/ (r.out.k = "exc" /\ r.out.t \notin {"Valid", "std"} /\ r.out.w # "destination method not found for this type")) =>
              r.w.slots = w.slots
       /\ \A s \in 1..Len(w.slots) : users(s) = {} => r.w.slots[s] = w.slots[s]
       /\ r.out = Ok => \A s \in 1..Len(w.slots) :
              (Cardinality(users(s)) = 1 /\ r.w.slots[s].known) =>
                  DeliveredTo(r.w.objs[oi].args[CHOOSE i \in users(s) : TRUE], w.slots[s], r.w.slots[s])

---------------------------------------------------------------------------
(* P19: the accessors of one argument tell the same story *)

AccessorsOk(a) ==
    LET rows == VecVecOf(a)
        flat == VecOf(a)
        text == TextOf(a)
        size == Len(a.elems)
        lens == Sum(TLCEval([i \in 1..Len(flat.v) |-> Len(flat.v[i])]))
    IN /\ a.kind \in SwitchKinds => /\ (text = "true") = BoolOf(a) /\ (text = "false") = ~BoolOf(a)
                                    /\ BoolOf(a) = (a.exist # (a.kind = "REVBOOL"))
                                    /\ flat.k = "exc" /\ rows.k = "exc"
       /\ a.kind \in SingleKinds => flat.v = <<text>> /\ rows.k = "exc" /\ size = 0
       /\ a.kind \in FlatListKinds => /\ rows.k = "exc" /\ flat.k = "ok" /\ Len(flat.v) = size
                                      /\ \A i \in 1..size : a.elems[i] = <<flat.v[i]>>
                                      /\ size = 1 => text = flat.v[1]
                                      /\ Len(text) = lens + 2 * (IF size = 0 THEN 0 ELSE size - 1)
       /\ a.kind \in GroupKinds => /\ rows.k = "ok" /\ rows.v = a.elems /\ flat.v = FlattenSeq2(rows.v)
                                   /\ \A i \in 1..size : Len(a.elems[i]) = a.nargs
                                   /\ Len(text) = lens + size * (2 + 2 * (a.nargs - 1)) + 2 * (IF size = 0 THEN 0 ELSE size - 1)
       /\ a.kind \in {"HELP", "VERSION"} => text = "" /\ flat.k = "exc" /\ rows.k = "exc"
       /\ a.kind \notin {"REVBOOL"} => BoolOf(a) = a.exist
       /\ a.exist = (a.count > 0)
       /\ SelfNum(a).is => a.kind \in SingleKinds /\ Stream(text).is
AccessorsAgree(w, oi, r) == r.out = Ok => \A i \in 1..Len(r.w.objs[oi].args) : AccessorsOk(r.w.objs[oi].args[i])
=============================================================================
