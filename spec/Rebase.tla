------------------------------- MODULE Rebase -------------------------------
(***************************************************************************)
(* Trajectories of poses, re-based at one of their poses, and carried from *)
(* hand to eye.  A trajectory is a sequence of motions (pose of the moving *)
(* frame in the fixed frame).                                              *)
(***************************************************************************)
EXTENDS Quat, TLC, Json

CONSTANTS Pool,        \* motions trajectories are made of
          MaxLen,      \* all trajectories over Pool up to this length
          Extra,       \* further trajectories
          HandEye,     \* hand-to-eye transforms
          Worlds,      \* base-to-world transforms
          Depth, Bound

VARIABLES traj, orig, step
vars == <<traj, orig, step>>

Trajectories == UNION {[1..n -> Pool] : n \in 1..MaxLen} \cup Extra
Init == /\ traj \in Trajectories
        /\ orig = traj
        /\ step = 0

Small(s) == \A i \in 1..Len(s) : MSmall(s[i], Bound)
(* Every pose relative to pose k, in cyclic order from k. *)
Rebased(s, k) ==
  [i \in 1..Len(s) |-> MMul(MInv(s[k]), s[((k + i - 2) % Len(s)) + 1])]
RebaseAt(k) ==
  \E res \in {Rebased(traj, k)} :
    /\ Small(res)
    /\ traj' = res
    /\ orig' = orig
    /\ step' = step + 1
    /\ PrintT(<<"@@", ToJson([op |-> "rebase", traj |-> traj, k |-> k, res |-> res])>>)
(* Eye poses: world <- base <- hand <- eye. *)
ToEye(x, w) ==
  \E res \in {[i \in 1..Len(traj) |-> MMul(MMul(MInv(w), traj[i]), x)]} :
    /\ Small(res)
    /\ traj' = res
    /\ orig' = orig
    /\ step' = step + 1
    /\ PrintT(<<"@@", ToJson([op |-> "eye", traj |-> traj, x |-> x, w |-> w, res |-> res])>>)

Next == /\ step < Depth
        /\ \/ \E k \in 1..Len(traj) : RebaseAt(k)
           \/ \E x \in HandEye, w \in Worlds : ToEye(x, w)

---------------------------------------------------------------------------
Relative(s, i, j) == MMul(MInv(s[i]), s[j])
Tiny(s) == \A i \in 1..Len(s) : MSmall(s[i], 9)
(* Re-basing: length, origin and relative motions.  Re-basing a re-based  *)
(* trajectory is re-basing once.                                          *)
RebaseLaws == Tiny(traj) => \A k \in 1..Len(traj) :
  \E res \in {Rebased(traj, k)} :
    /\ Len(res) = Len(traj)
    /\ res[1] = MId
    /\ \A i, j \in 1..Len(traj) :
         Relative(res, i, j) = Relative(traj, ((k + i - 2) % Len(traj)) + 1, ((k + j - 2) % Len(traj)) + 1)
    /\ \A l \in 1..Len(traj) : Rebased(res, l) = Rebased(traj, ((k + l - 2) % Len(traj)) + 1)
(* The relative motions of eye and hand are conjugate: A X = X B. *)
EyeLaw == Tiny(traj) => \A x \in HandEye, w \in Worlds :
  \E res \in {[i \in 1..Len(traj) |-> MMul(MMul(MInv(w), traj[i]), x)]} :
    Tiny(res) =>
    \A i, j \in 1..Len(traj) :
      MMul(Relative(traj, i, j), x) = MMul(x, Relative(res, i, j))
=============================================================================
