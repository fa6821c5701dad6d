----------------------------- MODULE CostBound -----------------------------
(* floor(1.45 * log2(n + 2) + 1), by thresholds: Thr[b] is the least n whose bound is at least b. *)
EXTENDS Integers, Sequences
Thr == <<0, 0, 1, 3, 5, 9, 16, 27, 44, 72, 118, 191, 308, 498, 805, 1299, 2096, 3382, 5455, 8799, 14194, 22894, 36926, 59559, 96064, 154942, 249906, 403074, 650118, 1048574>>
Bound(n) == CHOOSE b \in 1..Len(Thr) : Thr[b] <= n /\ (b = Len(Thr) \/ Thr[b + 1] > n)
=============================================================================
