------------------------------ MODULE MC_Marsh ------------------------------
(* Encode then decode under every pair of sets: accepted by both exactly when both
   support the algorithm; the value and the rest come back; every encoding under a
   set is at most the set's maximum, which is attained unless the set is empty.     *)
EXTENDS Marsh
CONSTANTS Trail, DecSets
TrailC == <<1, 2, 3>>
VARIABLES set, k, wire, dset, cut, res
vars == <<set, k, wire, dset, cut, res>>
D(i) == [j \in 1..Known[i].n |-> (j * 7 + i) % 256]
Init == set \in 0..255 /\ k \in K /\ wire = <<>> /\ dset = -1 /\ cut = -1 /\ res = Err
Enc == /\ wire = <<>> /\ dset = -1
       /\ EncHa(set, Known[k].id, D(k)) # <<>>
       /\ wire' = EncHa(set, Known[k].id, D(k)) \o Trail
       /\ UNCHANGED <<set, k, dset, cut, res>>
Dec == /\ wire # <<>> /\ dset = -1
       /\ dset' \in DecSets \cup {set, 255 - set}
       /\ cut' \in {0, 1, 2, 3, SizeHa(Known[k].id) - 1, SizeHa(Known[k].id), Len(wire)}
       /\ res' = DecHa(dset', Take(wire, cut'))
       /\ UNCHANGED <<set, k, wire>>
Spec == Init /\ [][Enc \/ Dec]_vars
Done == dset # -1
RoundTrip == Done => res = (IF In(dset, k) /\ cut >= SizeHa(Known[k].id)
                            THEN [ok |-> TRUE, alg |-> Known[k].id, d |-> D(k), rest |-> Take(Trail, cut - SizeHa(Known[k].id))] ELSE Err)
Bounded == /\ \A j \in K : In(set, j) => Known[j].n <= MaxDigest(set)
           /\ (set # 0) => \E j \in K : In(set, j) /\ Known[j].n = MaxDigest(set)
           /\ (set = 0) => MaxDigest(set) = 0
           /\ (wire # <<>>) => Len(wire) - Len(Trail) <= 2 + MaxDigest(set)
Refused == (wire # <<>>) => In(set, k)
=============================================================================
