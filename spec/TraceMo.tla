------------------------------- MODULE TraceMo -------------------------------
(* Recorded batched openings against Multiopen.tla. *)
EXTENDS Multiopen, TraceLoop

\* the order in which groups, and columns inside a group, are counted is the
\* implementation's choice, but one choice for all samples of a layout
Fits(t, mems) ==
  \A k \in 1..Len(t.samples) :
     /\ Len(t.res[k].acc) = 1
     /\ t.res[k].acc[1] = Required(t.lay, t.samples[k].claims, t.samples[k].q, t.samples[k].ch, mems)

RECURSIVE Products(_)
Products(ss) == IF ss = << >> THEN {<< >>}
                ELSE {<<a>> \o b : a \in Head(ss), b \in Products(Tail(ss))}

Exact(t) ==
  IF \E k \in 1..Len(t.res) : t.res[k].other # "" THEN "panic"
  ELSE IF \E k \in 1..Len(t.res) : Len(t.res[k].acc) # 1 THEN "f is not determined by the claims"
  ELSE LET keys == GroupKeys(t.lay) IN
       IF Fits(t, [g \in 1..Len(t.hint) |-> Members(t.lay, {t.hint[g][k] : k \in 1..Len(t.hint[g])})]) THEN "ok"
       ELSE IF \E ks \in Perms(keys) : Fits(t, [g \in 1..Len(ks) |-> Members(t.lay, ks[g])]) THEN "ok"
       ELSE IF \E ks \in Perms(keys) :
                 \E mems \in Products([g \in 1..Len(ks) |-> Perms(Members(t.lay, ks[g]))]) : Fits(t, mems)
       THEN "ok"
       ELSE "the opening equation is not the specified one"

\* many groups: the equation is affine in the claims and in the q values, so the
\* weight of each is the difference one unit of it makes.  samples[1] is the origin,
\* then one more on the first claim of each column, then one more on each q value.
\* Column i weighs x2^s x1^p, s its group and p its place in it; q value j weighs
\* x2^s / z_s + x4^t.  Groups, places and powers have to be different ones.
Weights(t) ==
  IF \E k \in 1..Len(t.res) : t.res[k].other # "" THEN "panic"
  ELSE IF \E k \in 1..Len(t.res) : Len(t.res[k].acc) # 1 THEN "f is not determined by the claims"
  ELSE
  LET L == t.lay
      nc == Len(L.cols)
      m == NumGroups(L)
      ch == t.samples[1].ch
      f == [k \in 1..Len(t.res) |-> t.res[k].acc[1]]
      p1 == TLCEval([k \in 0..nc |-> PowF(ch[1], k)])
      p2 == TLCEval([k \in 0..m |-> PowF(ch[2], k)])
      p4 == TLCEval([k \in 0..m |-> PowF(ch[4], k)])
      rs == TLCEval([i \in 1..nc |-> RotSet(L.cols[i])])
      reps == TLCEval({i \in 1..nc : \A j \in 1..(i - 1) : rs[j] # rs[i]})
      rep == TLCEval([i \in 1..nc |-> CHOOSE k \in reps : rs[k] = rs[i]])
      size == TLCEval([i \in reps |-> Cardinality({j \in 1..nc : rep[j] = i})])
      pts == TLCEval([i \in 1..nc |-> Points(L, L.cols[i])])
      iz == TLCEval([i \in reps |-> Inv(VanishAt(pts[i], ch[3]))])
      lag == TLCEval([i \in 1..nc |-> InterpAt(pts[i], [k \in 1..Len(pts[i]) |-> IF k = 1 THEN 1 ELSE 0], ch[3])])
      w == TLCEval([i \in 1..nc |-> Div(Sub(f[1], f[1 + i]), Mul(lag[i], iz[rep[i]]))])
      cand == TLCEval([i \in 1..nc |-> {sp \in (0..(m - 1)) \X (0..(size[rep[i]] - 1)) : w[i] = Mul(p2[sp[1]], p1[sp[2]])}])
      grp == TLCEval([i \in 1..nc |-> {x[1] : x \in cand[i]}])
      place == TLCEval([i \in 1..nc |-> {x[2] : x \in cand[i]}])
      qw == TLCEval([j \in 1..m |-> Sub(f[1 + nc + j], f[1])])
      qc == TLCEval([j \in 1..m |-> UNION {{<<i, h>> : h \in {k \in 1..m : \E s \in grp[i] : qw[j] = Add(Mul(p2[s], iz[i]), p4[k])}} : i \in reps}])
      qg == TLCEval([j \in 1..m |-> {x[1] : x \in qc[j]}])
      qk == TLCEval([j \in 1..m |-> {x[2] : x \in qc[j]}])
      one(A, B) == Cardinality(A \cup B) < 2
  IN IF \E i \in 1..nc : cand[i] = {} THEN "the weight of a claim is not a product of powers"
     ELSE IF \E i \in 1..nc : grp[i] \cap grp[rep[i]] = {} THEN "one group, two weights"
     ELSE IF \E i, j \in 1..nc : i < j /\ rep[i] = rep[j] /\ one(place[i], place[j]) THEN "two columns of a group with one weight"
     ELSE IF \E i, j \in reps : i < j /\ one(grp[i], grp[j]) THEN "two groups with one weight"
     ELSE IF \E j \in 1..m : qc[j] = {} THEN "the weight of a q value is not as specified"
     ELSE IF \E i, j \in 1..m : i < j /\ (one(qg[i], qg[j]) \/ one(qk[i], qk[j])) THEN "two q values with one weight"
     ELSE "ok"

Tamper(t) ==
  IF Aliased(t.lay) THEN
     IF t.prove # "err" THEN "two openings of one column at the same point: prover says " \o t.prove
     ELSE IF \E k \in 1..Len(t.vs) : t.vs[k] # "err" THEN "two openings of one column at the same point: verifier"
     ELSE "ok"
  ELSE IF t.prove # "ok" THEN "no opening for true evaluations: " \o t.prove
  ELSE IF t.base # "accept" THEN "opening of true evaluations rejected"
  ELSE IF \E k \in 1..Len(t.again) : t.again[k] # "accept" THEN "opening of true evaluations rejected for some randomness"
  ELSE IF \E k \in 1..Len(t.res) : IF t.res[k].noop THEN t.res[k].v # "accept" ELSE t.res[k].v # "err"
  THEN LET k == CHOOSE k \in 1..Len(t.res) : IF t.res[k].noop THEN t.res[k].v # "accept" ELSE t.res[k].v # "err"
       IN "change " \o ToString(k) \o ": " \o t.res[k].v
  ELSE "ok"

Judge(t) == IF t.mode = "exact" THEN Exact(t) ELSE IF t.mode = "weights" THEN Weights(t) ELSE Tamper(t)
Next == Step(Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
