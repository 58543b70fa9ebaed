--------------------------------- MODULE Com ---------------------------------
(***************************************************************************)
(* Registers holding formal combinations of B independent commitments.  A  *)
(* coefficient is a polynomial in one indeterminate scalar rho, kept as    *)
(* <<c0, c1, c2>>.  Programs of additions, negations, scalings, zero and   *)
(* multi-scalar products; the registers they reach are what the real       *)
(* commitments have to behave like.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

B == 5
Plain == {3, 4}          \* basis elements committed without randomness
CAdd(x, y) == [k \in 1..3 |-> x[k] + y[k]]
CNeg(x) == [k \in 1..3 |-> -x[k]]
CInt(x, s) == [k \in 1..3 |-> s * x[k]]
CRho(x, s) == <<0, s * x[1], s * x[2]>>     \* programs use at most two factors of rho
Zero3 == <<0, 0, 0>>
VZero == [b \in 1..B |-> Zero3]
VBase(k) == [b \in 1..B |-> IF b = k THEN <<1, 0, 0>> ELSE Zero3]
VAdd(u, v) == [b \in 1..B |-> CAdd(u[b], v[b])]
VNeg(u) == [b \in 1..B |-> CNeg(u[b])]
VScale(u, s) == [b \in 1..B |-> IF s.rho THEN CRho(u[b], s.k) ELSE CInt(u[b], s.k)]
RECURSIVE VMsm(_, _, _)
VMsm(regs, ix, ss) == IF ix = << >> THEN VZero ELSE VAdd(VScale(regs[Head(ix) + 1], Head(ss)), VMsm(regs, Tail(ix), Tail(ss)))

Result(regs, o) ==
  CASE o.o \in {"add", "addas"} -> VAdd(regs[o.a + 1], regs[o.b + 1])
    [] o.o = "neg" -> VNeg(regs[o.a + 1])
    [] o.o = "scale" -> VScale(regs[o.a + 1], o.s)
    [] o.o = "zero" -> VZero
    [] o.o = "msm" -> VMsm(regs, o.ix, o.ss)
Base == [k \in 1..B |-> VBase(k)]
RECURSIVE Exec(_, _)
Exec(regs, ops) == IF ops = << >> THEN regs ELSE Exec(Append(regs, Result(regs, Head(ops))), Tail(ops))

\* the zero polynomial is hidden too: element 5 commits to 0 with randomness
PlainOnly(v) == \A b \in 1..B : b \notin Plain => v[b] = Zero3
PolyPart(v) == [b \in 1..4 |-> v[b]]
=============================================================================
