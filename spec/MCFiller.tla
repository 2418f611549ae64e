------------------------------ MODULE MCFiller ------------------------------
(* The characterization of the cosine basis determines it.  (Commands of   *)
(* this machine carry observed numbers: nothing to replay.)                *)
EXTENDS MC

H == 11585  \* 1 / sqrt(2)
Cand == {-16384, -H, -6270, 0, 6270, 11000, H - 1, H, H + 1, 15137}
Init == Begins("filler", <<2, 2, 1>>, {<<>>})
Bases == [1..4 -> Cand]
Next == Len(hist) = 0 /\ Goes({Cm("dct", s \o s) : s \in Bases})
Law == /\ Done => \A k \in 1..4 : Close(Last.a[k], <<H, H, H, -H>>[k], 1)
       /\ Done = FALSE => ENABLED Dct(<<H, H, H, -H, H, H, H, -H>>)
       \* of order 3 and 4: the basis is accepted, none of its disturbances is
       /\ Done = FALSE =>
            LET b3 == <<9459, 9459, 9459, 11585, 0, -11585, 6689, -13377, 6689>>
                b4 == <<8192, 8192, 8192, 8192, 10703, 4433, -4433, -10703, 8192, -8192, -8192, 8192, 4433, -10703, 10703, -4433>>
            IN /\ CosineBasis(b3, 3) /\ CosineBasis(b4, 4)
               /\ \A k \in 1..9, e \in {-60, 60, -9000} : ~CosineBasis([b3 EXCEPT ![k] = @ + e], 3)
               /\ \A k \in 1..16, e \in {-60, 60, -9000} : ~CosineBasis([b4 EXCEPT ![k] = @ + e], 4)
               /\ \A r, t \in 0..3 : r # t => ~CosineBasis([k \in 1..16 |-> LET i == (k - 1) \div 4 j == IF i = r THEN t ELSE IF i = t THEN r ELSE i IN b4[j * 4 + ((k - 1) % 4) + 1]], 4)
Emit == TRUE
=============================================================================
