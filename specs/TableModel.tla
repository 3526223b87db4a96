------------------------------- MODULE TableModel -----------------------------
(* Exhaustive: tables from small frequency vectors are proper distributions. *)
EXTENDS Rans, TLC
CONSTANTS MaxF, MaxN
VARIABLES f, T
Init == f = <<>> /\ T \in {4, 8, 16, 64}
Next == Len(f) < MaxN /\ \E v \in 0..MaxF : f' = Append(f, v) /\ UNCHANGED T
Spec == Init /\ [][Next]_<<f, T>>
Proper == f = <<>> \/ LET t == Table(f, T)
                      IN /\ Sum(t) = T
                         /\ \A p \in 1..Len(t) : t[p] >= 1
                         /\ \A slot \in 0..(T - 1) : SlotOwner(t, slot) \in 1..Len(t)
==============================================================================
