-------------------------------- MODULE MCStats --------------------------------
(* The order of the report's entries, and its totals, for every choice of up to *)
(* three entries with small counts, frequencies, types and names.               *)
EXTENDS Stats
CONSTANTS Counts, Freqs, Types
VARIABLES x, y, w
E == [c : Counts, f : Freqs, ty : Types, b : {<<1>>, <<2>>, <<1, 1>>}]
Key(e) == <<0 - e.c, e.f, e.ty>>
Init == x \in E /\ y \in E /\ w \in E
Next == UNCHANGED <<x, y, w>>
Spec == Init /\ [][Next]_<<x, y, w>>
Strict == ~Less(x, x) /\ ~(Less(x, y) /\ Less(y, x)) /\ (Less(x, y) /\ Less(y, w) => Less(x, w))
Entire == x # y => Less(x, y) \/ Less(y, x)
\* sorted, every entry once, largest counts first; the totals of the types are the total
Whole == LET S == {x, y, w}
             q == SortCounts(S)
             own(t) == {e \in S : e.ty = t}
             sums == [t \in Types |-> Total(own(t))]
         IN /\ Len(q) = Cardinality(S) /\ {q[i] : i \in 1..Len(q)} = S
            /\ \A i \in 1..(Len(q) - 1) : q[i].c >= q[i + 1].c /\ (q[i].c = q[i + 1].c => q[i].f <= q[i + 1].f)
            /\ Sum(sums, Types) = Total(S)
\* percentages: the displayed number is within half a unit of the exact one
RECURSIVE Num0(_, _)
Num0(t, i) == IF i > Len(t) THEN 0 ELSE Num0(t, i + 1) + (IF t[i] \in 48..57 THEN (t[i] - 48) * Pow(10, Cardinality({j \in (i + 1)..Len(t) : t[j] \in 48..57})) ELSE 0)
ASSUME \A b \in 1..40 : \A a \in 0..b : \A d \in {1, 2} :
         \A form \in {Percent(a, b, d, 0)[1].t, Percent(a, b, d, 0)[1].alt} :
           LET v == 2 * Num0(form, 1) * b - 2 * 100 * a * Pow(10, d) IN v <= b /\ v >= 0 - b
=============================================================================
