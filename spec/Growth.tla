------------------------------- MODULE Growth --------------------------------
(***************************************************************************)
(* How integer vectors obtain memory: room for the words that the          *)
(* requested capacity fills completely is reserved, one word is put there, *)
(* and when there is no room for another word the room is doubled, but to  *)
(* no less than four words.  TLC shows that this stays within the limits   *)
(* of Space for all widths, so these limits are not arbitrary.             *)
(***************************************************************************)
EXTENDS Space

CONSTANTS Widths, Caps, MaxSize

VARIABLES words, room

growthVars == <<spaceVars, words, room>>

Amortised(r) == Max(4, 2 * r)

Init ==
    \E w \in Widths, c \in Caps :
      LET r0 == (c * w) \div 64
          r  == IF r0 = 0 THEN Amortised(0) ELSE r0
      IN  /\ iv = [w |-> w, c |-> c, size |-> 0, grown |-> 0]
          /\ words = 1 /\ room = r
          /\ held = <<<<WordBytes * r, 1>>>>
          /\ fits = TRUE

Push ==
    /\ iv.size < MaxSize
    /\ LET filled == ((iv.size + 1) * iv.w) \div 64 + 1
           grow   == filled > room
           r      == IF grow THEN Amortised(room) ELSE room
       IN  /\ words' = filled
           /\ room' = r
           /\ IvPush(1, <<WordBytes * (r - room), 0, IF grow THEN 1 ELSE 0>>, filled)

Spec == Init /\ [][Push]_growthVars

WithinLimits == fits
RoomForAll   == words <= room
=============================================================================
