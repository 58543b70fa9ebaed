------------------------------- MODULE TraceVO -------------------------------
(***************************************************************************)
(* Recorded configurations of real gates and lookups against VOLife, and   *)
(* the errors reported for statements with unknown columns, unresolved     *)
(* gates or tables that are not fixed.                                     *)
(***************************************************************************)
EXTENDS Circuit, TraceLoop

Kinds == {"w", "i", "f", "t"}
RangeOf(s) == {s[k] : k \in 1..Len(s)}
TCode(t) == CASE t = "w" -> 1 [] t = "i" -> 2 [] t = "f" -> 3

\* queries a gate or lookup reads through its expressions / says it reads / reads from tables
Reads(d) == UNION {Queries(d.exprs[k]) : k \in 1..Len(d.exprs)}
Says(d) == {<<q.t, q.i, q.r>> : q \in RangeOf(d.decl)}
TabReads(d) == IF d.kind = "g" THEN {} ELSE {<<"t", q.i, q.r>> : q \in {x \in RangeOf(d.tables) : x.t = "f"}}
BadTables(d) == IF d.kind = "g" THEN {} ELSE {q.t : q \in RangeOf(d.tables)} \ {"f"}
NotAllowed(t) == IF t = "w" THEN "err:WitnessTableNotAllowed" ELSE "err:InstanceTableNotAllowed"

\* value given to a column (by label) at a rotation
Val(p, t, x, r) == Nm(p[1] * x * x + p[2] * r * r * r + p[3] * TCode(t) * x + p[4] * (r + 5) * x)
Means(t, d, s, e, p) == EvalEnv(e, [q \in Queries(e) |-> Val(p, q[1], t.sets[s][q[1]][q[2] + 1], q[3])])

RECURSIVE BoundAfter(_, _, _, _)
BoundAfter(t, prog, k, v) ==
  IF k = 0 THEN 0
  ELSE IF prog[k].v = v /\ BadTables(t.vos[v]) = {} THEN prog[k].s
  ELSE BoundAfter(t, prog, k - 1, v)

\* rotations certainly / possibly registered on column i of kind c in set s after k steps
Sure(t, prog, k, s, c, i) ==
  {q[3] : q \in {q \in UNION {Reads(t.vos[prog[m].v]) \cup TabReads(t.vos[prog[m].v]) :
                             m \in {m \in 1..k : prog[m].s = s /\ BadTables(t.vos[prog[m].v]) = {}}} : q[1] = c /\ q[2] = i}}
May(t, prog, k, s, c, i) ==
  {q[3] : q \in {q \in UNION {Says(t.vos[prog[m].v]) \cup TabReads(t.vos[prog[m].v]) :
                             m \in {m \in 1..k : prog[m].s = s}} : q[1] = c /\ q[2] = i}}

UseOK(t, prog, k, v, u) ==
  LET d == t.vos[v]  s == BoundAfter(t, prog, k, v) IN
  IF s = 0 THEN IF d.kind = "g" THEN u.s = "err:UninitializedExpr"
                ELSE u.s = "err:UninitializedLookupExpr" /\ u.t = "err:UninitializedLookupTableQuery"
  ELSE /\ u.s = "ok" /\ u.t = "ok"
       /\ Len(u.e) = Len(d.exprs)
       /\ \A x \in 1..Len(d.exprs) : \A y \in 1..Len(t.par) : u.e[x][y] = Means(t, d, s, d.exprs[x], t.par[y])
       /\ d.kind = "l" =>
            /\ Len(u.tb) = Len(d.tables)
            /\ \A x \in 1..Len(d.tables) : u.tb[x] = <<3, t.sets[s].t[d.tables[x].i + 1], d.tables[x].r>>

StatusOK(t, prog, k, st) ==
  IF k = 0 THEN st = "ok"
  ELSE LET b == BadTables(t.vos[prog[k].v]) IN
       IF b = {} THEN st = "ok" ELSE st \in {NotAllowed(x) : x \in b}

RegsOK(t, prog, k, regs) ==
  \A s \in 1..Len(t.sets) : \A c \in Kinds : \A i \in 1..Len(t.sets[s][c]) :
    LET got == RangeOf(regs[s][c][i]) IN
    /\ Sure(t, prog, k, s, c, i - 1) \subseteq got
    /\ got \subseteq May(t, prog, k, s, c, i - 1)

StepBad(t, prog, k, o) ==
  IF ~StatusOK(t, prog, k, o.status) THEN "configure says " \o o.status
  ELSE IF \E v \in 1..Len(t.vos) : ~UseOK(t, prog, k, v, o.use[v])
       THEN "use of " \o ToString(CHOOSE v \in 1..Len(t.vos) : ~UseOK(t, prog, k, v, o.use[v]))
  ELSE IF ~RegsOK(t, prog, k, o.regs) THEN "registered rotations"
  ELSE "ok"

Life(t) ==
  LET bad == {x \in 1..Len(t.progs) : \E k \in 0..Len(t.progs[x]) : StepBad(t, t.progs[x], k, t.runs[x][k + 1]) # "ok"} IN
  IF bad = {} THEN "ok"
  ELSE LET x == CHOOSE y \in bad : TRUE
           k == CHOOSE y \in 0..Len(t.progs[x]) : StepBad(t, t.progs[x], y, t.runs[x][y + 1]) # "ok"
       IN ToJson(SubSeq(t.progs[x], 1, k)) \o ": " \o StepBad(t, t.progs[x], k, t.runs[x][k + 1])

--------------------------------------------------------------------------
\* which errors match a fault
Missing(t) == CASE t = "w" -> {"MissingWitnessOracle"} [] t = "i" -> {"MissingInstanceOracle"}
                [] t = "f" -> {"MissingFixedOracle"} [] t = "t" -> {"MissingFixedOracle", "MissingLookupTableOracle"}
Matching(f) ==
  CASE f.what = "rename" -> Missing(f.t)
    [] f.what = "nonfixed" -> IF f.t = "f" THEN {"MissingFixedOracle", "MissingLookupTableOracle"}
                              ELSE IF f.t = "w" THEN {"WitnessTableNotAllowed"} ELSE {"InstanceTableNotAllowed"}
    [] f.what = "unconfigured" -> IF f.in = "gate" THEN {"UninitializedExpr"} ELSE {"UninitializedLookupExpr", "UninitializedLookupTableQuery"}
\* t.res[k]: "err" with the name found in the message, "panic" or "accept"
Fault(t) ==
  IF t.base # "ok" THEN "harness: base " \o t.base
  ELSE LET bad == {k \in 1..Len(t.faults) : ~(t.res[k].s = "err" /\ t.res[k].e \in Matching(t.faults[k]))} IN
       IF bad = {} THEN "ok"
       ELSE LET k == CHOOSE x \in bad : TRUE IN ToJson(t.faults[k]) \o ": " \o t.res[k].s \o " " \o t.res[k].e

Judge(t) == IF t.mode = "life" THEN Life(t) ELSE Fault(t)
Next == Step(Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
