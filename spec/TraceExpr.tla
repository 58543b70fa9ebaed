------------------------------ MODULE TraceExpr ------------------------------
(***************************************************************************)
(* An expression over columns is the polynomial its operators denote: the  *)
(* composed polynomial is built here and compared with every evaluation    *)
(* of the real expression, and its degree with the reported one.           *)
(***************************************************************************)
EXTENDS Poly, TraceLoop

Col(t, ty, i) == CASE ty = "w" -> t.wit[i + 1] [] ty = "i" -> t.inst[i + 1] [] ty = "f" -> t.fix[i + 1]
Om(t) == PowF(t.extgen, t.ratio)
RECURSIVE Compose(_, _)
Compose(t, e) ==
  CASE e.k = "c" -> <<Nm(e.v)>>
    [] e.k = "q" -> PDilate(Interp(Col(t, e.t, e.i), Om(t)), PowF(Om(t), e.r % t.n))
    [] e.k = "neg" -> PScale(Compose(t, e.a), Nm(-1))
    [] e.k = "scale" -> PScale(Compose(t, e.a), Nm(e.v))
    [] e.k = "add" -> PAdd(Compose(t, e.a), Compose(t, e.b))
    [] e.k = "sub" -> PSub(Compose(t, e.a), Compose(t, e.b))
    [] e.k = "mul" -> PMul(Compose(t, e.a), Compose(t, e.b))
RECURSIVE Bnd(_, _)
Bnd(e, d) ==
  CASE e.k = "c" -> 0
    [] e.k = "q" -> d
    [] e.k \in {"neg", "scale"} -> Bnd(e.a, d)
    [] e.k = "mul" -> Bnd(e.a, d) + Bnd(e.b, d)
    [] OTHER -> IF Bnd(e.a, d) >= Bnd(e.b, d) THEN Bnd(e.a, d) ELSE Bnd(e.b, d)
RECURSIVE HasQuery(_)
HasQuery(e) == CASE e.k = "c" -> FALSE [] e.k = "q" -> TRUE [] e.k \in {"neg", "scale"} -> HasQuery(e.a) [] OTHER -> HasQuery(e.a) \/ HasQuery(e.b)

Ctx(t, e, p, r, kind) ==
  IF \E i \in 0..(t.n - 1) : r.rows[i + 1] # Horner(p, PowF(Om(t), i)) THEN kind \o " value on a row"
  ELSE IF \E i \in 0..(t.n * t.ratio - 1) : r.coset[i + 1] # Horner(p, Mul(t.gen, PowF(t.extgen, i))) THEN kind \o " value on the extended coset"
  ELSE IF r.at # Horner(p, t.x) THEN kind \o " value at a point"
  ELSE IF r.deg < Deg(p) THEN kind \o " degree below the true one"
  ELSE IF r.deg > Bnd(e, t.n - 1) THEN kind \o " degree above the sum/maximum bound"
  ELSE IF r.failing # HasQuery(e) THEN kind \o " degree of an unknown column"
  ELSE "ok"
Judge(t) ==
  LET verdict(k) == LET p == Compose(t, t.trees[k])
                        v == Ctx(t, t.trees[k], p, t.res[k].virt, "virtual expression")
                    IN IF v # "ok" THEN v ELSE Ctx(t, t.trees[k], p, t.res[k].direct, "expression")
      all == [k \in 1..Len(t.trees) |-> verdict(k)]
      bad == {k \in 1..Len(t.trees) : all[k] # "ok"}
  IN IF bad = {} THEN "ok" ELSE LET k == CHOOSE x \in bad : TRUE IN all[k] \o ": " \o ToJson(t.trees[k])
Next == Step(Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
