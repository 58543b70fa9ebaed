------------------------------ MODULE Circuit ------------------------------
(***************************************************************************)
(* What a circuit means: columns, rotated queries, gates, copy constraints *)
(* and lookups, as relations between the cells of a table.  A circuit is   *)
(* the JSON record shared with the harness:                                *)
(*   n rows; `removed` rows of the vanishing polynomial; u = usable rows;  *)
(*   wit/inst/fix/tab columns; gates; lookups; sigma = per copied column   *)
(*   the (column,row) each cell points to.                                 *)
(***************************************************************************)
EXTENDS Fld

Rows(C) == 0..(C.n - 1)
Enforced(C) == Rows(C) \ {C.removed[k] : k \in 1..Len(C.removed)}

Column(C, t, i) ==
  CASE t = "w" -> C.wit[i + 1].rows
    [] t = "i" -> C.inst[i + 1].rows
    [] t = "f" -> C.fix[i + 1].rows
    [] t = "t" -> C.tab[i + 1].rows

\* a rotation by r shifts by r rows, cyclically
Cell(C, t, i, r, row) == Nm(Column(C, t, i)[((row + r) % C.n) + 1])

RECURSIVE EvalRow(_, _, _)
EvalRow(C, e, row) ==
  CASE e.k = "c" -> Nm(e.v)
    [] e.k = "q" -> Cell(C, e.t, e.i, e.r, row)
    [] e.k = "neg" -> Neg(EvalRow(C, e.a, row))
    [] e.k = "scale" -> Mul(EvalRow(C, e.a, row), Nm(e.v))
    [] e.k = "add" -> Add(EvalRow(C, e.a, row), EvalRow(C, e.b, row))
    [] e.k = "sub" -> Sub(EvalRow(C, e.a, row), EvalRow(C, e.b, row))
    [] e.k = "mul" -> Mul(EvalRow(C, e.a, row), EvalRow(C, e.b, row))

RECURSIVE Queries(_)
Queries(e) ==
  CASE e.k = "c" -> {}
    [] e.k = "q" -> {<<e.t, e.i, e.r>>}
    [] e.k \in {"neg", "scale"} -> Queries(e.a)
    [] OTHER -> Queries(e.a) \cup Queries(e.b)

\* value of an expression when query <<t,i,r>> has value env[<<t,i,r>>]
RECURSIVE EvalEnv(_, _)
EvalEnv(e, env) ==
  CASE e.k = "c" -> Nm(e.v)
    [] e.k = "q" -> env[<<e.t, e.i, e.r>>]
    [] e.k = "neg" -> Neg(EvalEnv(e.a, env))
    [] e.k = "scale" -> Mul(EvalEnv(e.a, env), Nm(e.v))
    [] e.k = "add" -> Add(EvalEnv(e.a, env), EvalEnv(e.b, env))
    [] e.k = "sub" -> Sub(EvalEnv(e.a, env), EvalEnv(e.b, env))
    [] e.k = "mul" -> Mul(EvalEnv(e.a, env), EvalEnv(e.b, env))

Max(a, b) == IF a >= b THEN a ELSE b
\* total degree with every query of degree d
RECURSIVE Degree(_, _)
Degree(e, d) ==
  CASE e.k = "c" -> 0
    [] e.k = "q" -> d
    [] e.k \in {"neg", "scale"} -> Degree(e.a, d)
    [] e.k = "mul" -> Degree(e.a, d) + Degree(e.b, d)
    [] OTHER -> Max(Degree(e.a, d), Degree(e.b, d))

--------------------------------------------------------------------------
GatesOKOn(C, rows) ==
  \A k \in 1..Len(C.gates) : \A row \in rows : EvalRow(C, C.gates[k], row) = 0
GatesOK(C) == GatesOKOn(C, Enforced(C))
BadGates(C) == {<<k, row>> \in (1..Len(C.gates)) \X Enforced(C) : EvalRow(C, C.gates[k], row) # 0}

\* indices of the copied columns, in order
RECURSIVE PermColsFrom(_, _)
PermColsFrom(C, i) ==
  IF i > Len(C.wit) THEN << >>
  ELSE IF C.wit[i].perm THEN <<i - 1>> \o PermColsFrom(C, i + 1)
  ELSE PermColsFrom(C, i + 1)
PermCols(C) == PermColsFrom(C, 1)

CopyOK(C) ==
  LET pc == PermCols(C) IN
  \A c \in 1..Len(C.sigma) : \A row \in 0..(C.u - 1) :
     LET t == C.sigma[c][row + 1] IN
     Cell(C, "w", pc[c], 0, row) = Cell(C, "w", pc[t[1] + 1], 0, t[2])

LookupTuple(C, l, row) == [k \in 1..Len(l.exprs) |-> EvalRow(C, l.exprs[k], row)]
TableTuple(C, l, row) == [k \in 1..Len(l.tables) |-> Cell(C, "t", l.tables[k].i, l.tables[k].r, row)]
LookupOK(C, l) ==
  LET T == {TableTuple(C, l, row) : row \in 0..(C.usable - 1)} IN
  \A row \in 0..(C.usable - 1) : LookupTuple(C, l, row) \in T
LookupsOK(C) == \A k \in 1..Len(C.lookups) : LookupOK(C, C.lookups[k])

Satisfied(C) == GatesOK(C) /\ CopyOK(C) /\ LookupsOK(C)

\* the mock prover looks at gates only, and at every row
MockSatisfied(C) == GatesOKOn(C, Rows(C))

\* sanity of a description: sigma is a permutation of the usable cells, and fixes the others
SigmaIsPermutation(C) ==
  LET pc == PermCols(C)
      cells == (0..(Len(pc) - 1)) \X (0..(C.u - 1))
  IN /\ Len(C.sigma) = Len(pc)
     /\ {<<C.sigma[x[1] + 1][x[2] + 1][1], C.sigma[x[1] + 1][x[2] + 1][2]>> : x \in cells} = cells
     /\ \A c \in 1..Len(pc) : \A row \in C.u..(C.n - 1) : C.sigma[c][row + 1] = <<c - 1, row>>
=============================================================================
