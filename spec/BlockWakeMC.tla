----------------------------- MODULE BlockWakeMC -----------------------------
(* Programs for BlockWake: all multisets of N programs out of a list. *)
EXTENDS BlockWake
CONSTANTS Np, Set

O(k) == <<"open", k>>
R(k) == <<"read", k>>
W(k) == <<"write", k>>
C == <<"close">>
ReadersShort == << <<O("r"), R(9)>>, <<O("r"), C, O("r"), R(1)>> >>
WritersShort == << <<O("w"), W(1), W(1)>>, <<O("w"), C, O("w"), W(2)>>, <<O("wn"), W(1)>> >>
List == CASE Set = "short" -> ReadersShort \o WritersShort
          [] Set = "pair" -> << <<O("r"), R(1), R(9), C, O("r"), R(1)>>, <<O("rn"), R(9), R(1), C, O("r"), R(1)>>, <<O("r"), C, O("r"), C, O("rn"), R(9)>>,
                                <<O("w"), W(1), W(2), C, O("w"), W(1)>>, <<O("wn"), W(2), W(1), C, O("w"), W(2)>>, <<O("w"), C, O("wn"), W(1), C, O("w"), W(2)>> >>
          [] Set = "ready" -> << <<O("rn"), R(1)>>, <<O("rn"), C, O("rn"), R(9)>>, <<O("wn"), W(1), W(1)>>, <<O("w"), W(2)>>, <<O("r"), R(1)>> >>
          [] Set = "ready3" -> << <<O("rn"), R(1), R(1)>>, <<O("wn"), W(1)>>, <<O("w"), W(2), W(1)>>, <<O("r"), R(9)>> >>
          [] OTHER -> << <<O("r"), R(1)>>, <<O("w"), W(2)>>, <<O("w"), W(1)>>, <<O("r"), R(9)>> >>
Np1 == 1..Np
Choices == {f \in [Np1 -> 1..Len(List)] : \A i \in 1..(Np - 1) : f[i] <= f[i + 1]}
Progs == {[i \in Np1 |-> List[f[i]]] : f \in Choices}
==============================================================================
