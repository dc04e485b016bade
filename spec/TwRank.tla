------------------------------- MODULE TwRank -------------------------------
(* Rankings.  A report that lists the k best of a collection is right if its *)
(* rows are sorted, every row is one of the collection, and nothing that was *)
(* left out is better than the last row.  Which of several equally good      *)
(* candidates is shown is left open.                                         *)
EXTENDS TwUtil

(* rows: sequence of <<key, label>>; items: sequence of <<key, label>>;      *)
(* Better(a, b): key a ranks strictly before key b.                          *)
Ranked(rows, items, k, Better(_, _)) ==
    /\ Len(rows) = k
    /\ \A i \in 1 .. (k - 1) : ~ Better(rows[i + 1][1], rows[i][1])
    /\ \A i \in 1 .. k :
          Cardinality({j \in DOMAIN rows : rows[j] = rows[i]})
            <= Cardinality({j \in DOMAIN items : items[j] = rows[i]})
    /\ k > 0 =>
          Cardinality({j \in DOMAIN items : Better(items[j][1], rows[k][1])})
            = Cardinality({j \in DOMAIN rows : Better(rows[j][1], rows[k][1])})

Bigger(a, b)  == a > b
Bigger2(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2])

RankedBySize(rows, items, k) == Ranked(rows, items, k, Bigger)

(* What the k best leave over, as a total.                                   *)
Rest(rows, total) == total - SumSeq([i \in DOMAIN rows |-> rows[i][1]])
=============================================================================
