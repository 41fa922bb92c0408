"""Are the invariants able to fail?  Each mutation changes one operator of a
copy of the specification; the models of the named properties must then find
a violation of an invariant that does not use that operator's definition.

usage: python3 tools/specmut.py [number of the mutation ...]
"""
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pipeline     # noqa: E402
import models       # noqa: E402
import plan         # noqa: E402

# (file, old, new, properties whose models must refuse it)
MUTATIONS = [
    # reading the command line
    ('Parser', '[m EXCEPT !.addl = Append(@, m.t[m.i]), !.i = @ + 1,', '[m EXCEPT !.addl = IF Len(@) > 1 THEN @ ELSE Append(@, m.t[m.i]), !.i = @ + 1,', ['P01']),
    ('Parser', 'ELSE IF KindOf(a) \\in ListKinds THEN [a EXCEPT !.elems = old \\o rows]', 'ELSE IF KindOf(a) \\in ListKinds THEN [a EXCEPT !.elems = rows \\o old]', ['P01', 'P05']),
    ('Parser', 'IN IF p = 0 THEN [opt |-> s, has |-> FALSE, val |-> ""]', 'IN IF p = 0 \\/ p = Len(s) THEN [opt |-> s, has |-> FALSE, val |-> ""]', ['P02']),
    ('Parser', 'ELSE IF ~has /\\ kind \\in AttachKinds THEN Option(m, c, k, TRUE, From(opt, j + 1))', 'ELSE IF ~has /\\ kind \\in AttachKinds \\ {"MULTI"} THEN Option(m, c, k, TRUE, From(opt, j + 1))', ['P02', 'P10']),
    ('Parser', '              [] k \\in {"MULTI", "MULTIINF"} -> Occur(m, ai, <<<<val>>>>, 0, TRUE)', '              [] k \\in {"MULTI", "MULTIINF"} -> Occur(m, ai, <<<<val>>>>, 0, k = "MULTI")', ['P05']),
    ('Parser', 'IF i + a.nargs >= m.e THEN short\n                     ELSE Occur(m, ai, Singles', 'IF i + a.nargs > m.e THEN short\n                     ELSE Occur(m, ai, Singles', ['P01', 'P03', 'P22']),
    ('Parser', 'IF j >= lim \\/ (stopping /\\ Stops(m, m.t[j])) THEN 0\n    ELSE 1', 'IF j >= lim \\/ (stopping /\\ IsLong(m.t[j]) /\\ Stops(m, m.t[j])) THEN 0\n    ELSE 1', ['P03']),
    ('Parser', 'ELSE IF k = 0 THEN FALSE\n', 'ELSE IF k = 0 THEN TRUE\n', ['P03']),
    ('Parser', 'lim == IF m.aft THEN Len(m.t) + 1 ELSE m.e', 'lim == Len(m.t) + 1', ['P04']),
    ('Parser', 'ELSE IF args[i].pos /\\ ~args[i].exist THEN i', 'ELSE IF args[i].pos /\\ (~args[i].exist \\/ args[i].kind = "INFPOS") THEN i', ['P04']),
    ('Parser', 'IN IF m.aft THEN "positional"', 'IN IF m.aft /\\ ~IsEnd(tok) THEN "positional"', ['P22']),
    ('Parser', 'LET n == RunLen(m, m.i, lim, ~m.aft)', 'LET n == RunLen(m, m.i, lim, TRUE)', ['P22']),
    ('Parser', 'l == IF m.alt THEN Find(m.args, "-" \\o p.opt) ELSE 0', 'l == IF m.alt /\\ Len(p.opt) > 2 THEN Find(m.args, "-" \\o p.opt) ELSE 0', ['P23']),
    ('Parser', 'IN \\/ m.alt /\\ Find(m.args, "-" \\o p.opt) # 0', 'IN \\/ FALSE', ['P23', 'P03']),
    ('Parser', '[b EXCEPT !.exist = TRUE, !.count = @ + 1],', '[b EXCEPT !.exist = TRUE, !.count = 1],', ['P05']),
    ('Parser', 'Cluster([m EXCEPT !.args[k].exist = TRUE, !.args[k].count = @ + 1], opt, has, val, j + 1)', 'Cluster([m EXCEPT !.args[k].exist = TRUE, !.args[k].count = IF @ > 0 THEN @ ELSE 1], opt, has, val, j + 1)', ['P05']),
    ('Parser', 'IF k = 0 THEN Fail(m, "invalid option", From(p.opt, 3))', 'IF k = 0 THEN Fail(m, "invalid option", Front(m.args[1]))', ['P10']),
    ('Parser', 'ELSE IF kind \\notin SwitchKinds THEN Fail(m, "only last option can be use a parameter", c)', 'ELSE IF kind \\notin SwitchKinds \\cup {"MULTINUMINF"} THEN Fail(m, "only last option can be use a parameter", c)', ['P03', 'P05']),
    # defaults, required, help and version
    ('ArgDefs', 'Fresh(a) == [WithDefaults(a) EXCEPT !.exist = FALSE, !.count = 0,', 'Fresh(a) == [WithDefaults(a) EXCEPT !.exist = FALSE, !.count = IF a.kind = "BOOL" THEN @ ELSE 0,', ['P15']),
    ('Parser', 'old == IF append /\\ a.exist THEN a.elems ELSE <<>>', 'old == IF append THEN a.elems ELSE <<>>', ['P06', 'P05']),
    ('World', '       ELSE IF v # 0 /\\ m.args[v].exist\n', '       ELSE IF v # 0 /\\ m.args[v].exist /\\ miss = {}\n', ['P07', 'P08']),
    ('World', 'MissingFrom(args) == {i \\in 1..Len(args) : args[i].required /\\ ~args[i].exist}', 'MissingFrom(args) == {i \\in 1..Len(args) : args[i].required /\\ ~args[i].exist /\\ args[i].defaults = <<>>}', ['P07']),
    ('World', '       ELSE IF h # 0 /\\ m.args[h].exist\n', '       ELSE IF h # 0 /\\ m.args[h].exist /\\ Front(m.args[h]) # "--help"\n', ['P08']),
    # validators and destinations
    ('World', 'check == a.exist /\\ a.valid.k # "none"', 'check == a.exist /\\ a.valid.k # "none" /\\ FlatOf(a) # <<>>', ['P09']),
    ('Values', 'IN IF Cmp', 'IN IF FALSE', []),
    ('Values', 'i + j <= Len(vs) THEN vs[i + j] ELSE r[j]', 'i + j < Len(vs) THEN vs[i + j] ELSE r[j]', []),
    ('Values', '[old EXCEPT !.v = <<(IF @ = <<>> THEN <<>> ELSE @[1]) \\o FlattenSeq2(DeliverRows(a, d.type))>>]', '[old EXCEPT !.v = <<FlattenSeq2(DeliverRows(a, d.type))>>]', ['P14']),
    ('Values', 'CustomRows(a) == IF KindOf(a) \\in ListKinds THEN a.elems ELSE <<<<a.one>>>>', 'CustomRows(a) == IF KindOf(a) \\in ListKinds THEN Tail(a.elems) ELSE <<<<a.one>>>>', []),
    ('Values', 'Val((IF v.neg /\\ i # "0" THEN "-" ELSE "") \\o i)', 'Val(i)', ['P14']),
    ('Values', 'Val(Cut(s, CharArraySize(type) - 1))\n         [] type = "bool"', 'Val(Cut(s, CharArraySize(type)))\n         [] type = "bool"', []),
    ('World', '!.objs[oi] = Unknown(o)], exc)', '!.objs[oi] = Unknown(o), !.slots = Taint(@, m.args)], exc)', ['P07']),
    # accessors and numbers
    ('Values', 'BoolOf(a) == IF KindOf(a) = "REVBOOL" THEN ~a.exist ELSE a.exist', 'BoolOf(a) == a.exist', ['P19']),
    ('Values', 'VecOf(a) == IF KindOf(a) \\in SingleKinds \\cup ListKinds', 'VecOf(a) == IF KindOf(a) \\in ListKinds', ['P19']),
    ('Values', 'THEN [k |-> "ok", v |-> a.elems] ELSE NoConv', 'THEN [k |-> "ok", v |-> TLCEval([i \\in 1..Len(a.elems) |-> a.elems[1]])] ELSE NoConv', ['P19']),
    ('Numbers', 'Sign(s, i) == IF At(s, i) \\in {"+", "-"} THEN i + 1 ELSE i', 'Sign(s, i) == IF At(s, i) \\in {"-"} THEN i + 1 ELSE i', ['P21']),
    ('Numbers', 'sg == At(s, k + 1) \\in {"+", "-"}', 'sg == At(s, k + 1) \\in {"+"}', ['P21']),
    ('Numbers', 'ok == Len(ip) + Len(fp) > 0', 'ok == Len(ip) > 0', ['P21']),
    # definitions
    ('ArgDefs', 'Exists(o, names[i])}\n    IN IF bad # {}', '(i = 1 /\\ Exists(o, names[i]))}\n    IN IF bad # {}', ['P11']),
    ('ArgDefs', 'ELSE Ret([o EXCEPT !.args = Ordered(RemoveNames(@, names, 1))], Ok)', 'ELSE Ret([o EXCEPT !.args = Ordered(RemoveNames(@, <<names[1]>>, 1))], Ok)', ['P11']),
    ('ArgDefs', 'other(act) == \\E j \\in 1..Len(o.args) : j # i /\\ o.args[j].action = act', 'other(act) == \\E j \\in 1..Len(o.args) : j < i /\\ o.args[j].action = act', ['P12']),
    ('ArgDefs', 'THEN Ret(o, Exc("Argument", "invalid number of argument with number of default argument", Front(a)))', 'THEN Ret([o EXCEPT !.args[i] = b], Exc("Argument", "invalid number of argument with number of default argument", Front(a)))', ['P12']),
    ('ArgDefs', 'b == WithDefaults([a EXCEPT !.action = kr.action', 'b == [a EXCEPT !.action = kr.action', []),
    ('ArgDefs', '!.known = @ /\\ ~a.parsed, !.num = FALSE])\n', '!.known = @ /\\ ~a.parsed, !.num = FALSE, !.help = ""])\n', ['P13']),
    ('World', '[] op.op = "clear"  -> Res(Replace(w, i, NewObj), Ok)', '[] op.op = "clear"  -> Res(Replace(w, i, [NewObj EXCEPT !.strict = o.strict]), Ok)', ['P16']),
    ('World', '!.live = (IF a.valid.del THEN @ \\ {a.valid.vid} ELSE @)', '!.live = @', ['P18']),
    ('World', '[] op.op = "remove" -> LET r == Remove(o, Listed(op, "names")) IN Res(Replace(w, i, r.o), r.out)', '[] op.op = "remove" -> LET r == Remove(o, Listed(op, "names")) IN WithObj(w, i, r)', ['P18']),
    ('World', '[] k = "strict" -> [o EXCEPT !.strict = v]', '[] k = "strict" -> o', []),
    ('UsageText', None, None, []),
    ('Lists', None, None, []),
]


def attempt(m):
    f, old, new, props = m
    d = tempfile.mkdtemp(prefix='specmut_')
    try:
        shutil.copytree(pipeline.SPEC, d + '/spec')
        p = d + '/spec/%s.tla' % f
        s = open(p).read()
        if s.count(old) != 1:
            return 'does not apply (%d)' % s.count(old)
        open(p, 'w').write(s.replace(old, new))
        keep, pipeline.SPEC = pipeline.SPEC, d + '/spec'
        out = []
        try:
            for pid in props:
                try:
                    models.run_all(plan.models_for(pid, 'quick', 1), d + '/' + pid, lambda *a: None)
                    out.append('%s missed' % pid)
                except pipeline.Failure as e:
                    t = str(e)
                    inv = [l for l in t.splitlines() if 'is violated' in l or 'Error:' in l or 'rror' in l][:1]
                    out.append('%s %s' % (pid, inv[0].replace('Error: ', '') if inv else 'error: ' + t[-1500:]))
        finally:
            pipeline.SPEC = keep
        return '; '.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    which = [int(x) for x in sys.argv[1:]] or range(len(MUTATIONS))
    for i in which:
        if MUTATIONS[i][1] is not None and MUTATIONS[i][3]:
            print(i, MUTATIONS[i][0], '|', MUTATIONS[i][2].replace('\n', ' ')[:70], '->', attempt(MUTATIONS[i]), flush=True)
