------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Structured values as the library's users handle them: mutable cells with *)
(* contents, constructed, copied and changed step by step.                  *)
(*                                                                         *)
(* The heap maps references 1..n to <<"o", names -> slots>> or              *)
(* <<"a", sequence of slots>>; a slot is a scalar value (tagged, as in the  *)
(* other modules) or <<"ref", k>>.  A copy is a new cell with the same      *)
(* slots.  Content(h, k) unfolds the cells reachable from k.                *)
(***************************************************************************)
EXTENDS Base

RECURSIVE Unfold(_, _), Content(_, _)
Unfold(h, s) == IF s[1] = "ref" THEN Content(h, s[2]) ELSE s
Content(h, k) == <<h[k][1], [x \in DOMAIN h[k][2] |-> Unfold(h, h[k][2][x])]>>
\* equality: same kind, same members (in any order) or entries (in order)
Same(h, j, k) == Content(h, j) = Content(h, k)

\* -- operations
New(h, c) == Append(h, c)
SetSlot(h, k, x, s) == [h EXCEPT ![k] = <<@[1], IF @[1] = "o" THEN [m \in DOMAIN @[2] \cup {x} |-> IF m = x THEN s ELSE @[2][m]]
                                                ELSE [@[2] EXCEPT ![x] = s]>>]
DelSlot(h, k, x) == [h EXCEPT ![k] = <<@[1], IF @[1] = "o" THEN [m \in DOMAIN @[2] \ {x} |-> @[2][m]]
                                             ELSE SubSeq(@[2], 1, x - 1) \o SubSeq(@[2], x + 1, Len(@[2]))>>]
AddSlot(h, k, s) == [h EXCEPT ![k] = <<@[1], Append(@[2], s)>>]
CopyCell(h, k) == Append(h, h[k])
=============================================================================
