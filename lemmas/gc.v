(* C09: from the contracts (each mark action marks its block and calls the mark action of every block it holds; the sweep frees
   exactly the blocks of the chain whose mark is not the current one; the next collection uses the other of the marks 0 and 1)
   to the property: what is reachable is kept, and what is unreachable through two consecutive collections is freed. *)
Require Import List Bool.
Section Heap.
Variable block : Type.
Variable holds : block -> block -> Prop.
Inductive reach : block -> block -> Prop := here x : reach x x | step x y z : holds x y -> reach y z -> reach x z.
(* a mark action that has returned: its block carries the mark, and so had every action it called *)
Inductive marked (mark : block -> bool) (c : bool) : block -> Prop :=
  returned x : mark x = c -> (forall y, holds x y -> marked mark c y) -> marked mark c x.
Theorem marked_all mark c x z : marked mark c x -> reach x z -> mark z = c.
Proof. intros M R. induction R as [x|x y z H R IH]. inversion M; auto. apply IH. inversion M as [? ? A]; subst. apply A. exact H. Qed.

Record state := { alive : block -> Prop; mk : block -> bool; cur : bool }.
Variable roots : state -> block -> Prop.
Definition live (s : state) z := exists r, roots s r /\ reach r z.
(* one collection: marks are set to the current value on what the roots reach and left alone elsewhere, then the sweep *)
Record collect (s t : state) : Prop := {
  marks : exists m, (forall r, roots s r -> marked m (cur s) r) /\ (forall x, ~ live s x -> m x = mk s x) /\ mk t = m /\
                    (forall x, alive t x <-> alive s x /\ m x = cur s);
  other : cur t = negb (cur s) }.
Theorem reachable_kept s t x : collect s t -> alive s x -> live s x -> alive t x.
Proof. intros [(m & M & U & E & A) _] AL (r & R & P). apply A. split; [exact AL|]. eapply marked_all; eauto. Qed.
Theorem two_collections s t u x : collect s t -> collect t u -> ~ live s x -> ~ live t x -> ~ alive u x.
Proof.
  intros [(m & M & U & E & A) O] [(m' & M' & U' & E' & A') O'] L L' AL.
  apply A' in AL. destruct AL as [AL C']. apply A in AL. destruct AL as [AL C].
  rewrite (U' x L'), E, C, O in C'. destruct (cur s); discriminate.
Qed.
End Heap.
Print Assumptions reachable_kept.
Print Assumptions two_collections.
