------------------------------- MODULE Lists -------------------------------
(* Lists of strings (names, defaults, choices) as the interface lets a     *)
(* program build them: made in one of several forms, then changed.         *)
EXTENDS Strings

WholeForms == {"vec", "vector", "init", "arr", "sarr", "carr", "str", "cstr", "string"}

BuildStep(v, st) ==
    CASE st.s = "empty" -> <<>>
      [] st.s = "sized" -> Copies("", st.n)
      [] st.s = "set" -> [v EXCEPT ![st.i + 1] = st.x]
      [] st.s \in {"push", "plus", "plusc", "plusa", "ret"} -> Append(v, st.x)
      [] st.s = "plus2" -> v \o <<st.x, st.y>>
      [] st.s = "copy" -> v
      [] st.s \in WholeForms -> st.l

RECURSIVE BuildFrom(_, _, _)
BuildFrom(v, steps, i) == IF i > Len(steps) THEN v ELSE BuildFrom(BuildStep(v, steps[i]), steps, i + 1)
Build(steps) == BuildFrom(<<>>, steps, 1)

\* the list given to a call: written out, or built in steps
Listed(r, field) == IF "steps" \in DOMAIN r THEN Build(r.steps) ELSE r[field]
=============================================================================
