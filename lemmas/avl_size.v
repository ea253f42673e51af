(* C03: the least number of items of an AVL tree of height h (heights of siblings differ by at most one).
   avl.py uses: the recurrence, monotonicity, and that a tree of fewer than 2^31 items has height at most 44. *)
Require Import ZArith Lia.
Open Scope Z_scope.
Fixpoint pair (n : nat) : Z * Z := match n with O => (0, 1) | S m => let '(a, b) := pair m in (b, a + b + 1) end.
Definition minn (h : Z) : Z := fst (pair (Z.to_nat h)).

Lemma snd_pair n : snd (pair n) = fst (pair (S n)).
Proof. simpl. destruct (pair n). reflexivity. Qed.
Lemma pair_step n : fst (pair (S (S n))) = fst (pair (S n)) + fst (pair n) + 1.
Proof.
  change (fst (pair (S (S n)))) with (fst (let '(a, b) := pair (S n) in (b, a + b + 1))).
  pose proof (snd_pair n) as H0. pose proof (snd_pair (S n)) as H1.
  simpl in *. destruct (pair n) as [x y]. simpl in *. lia.
Qed.
Lemma pair_mono n : 0 <= fst (pair n) <= fst (pair (S n)).
Proof.
  induction n. simpl; lia. rewrite pair_step. split; [lia|].
  destruct n; [simpl; lia | rewrite pair_step in *; lia].
Qed.
Theorem minn_nonpos h : h <= 0 -> minn h = 0.
Proof. intros. unfold minn. replace (Z.to_nat h) with O by lia. reflexivity. Qed.
Theorem minn_one : minn 1 = 1. Proof. reflexivity. Qed.
Theorem minn_rec h : 2 <= h -> minn h = minn (h - 1) + minn (h - 2) + 1.
Proof.
  intros. unfold minn. replace (Z.to_nat h) with (S (S (Z.to_nat (h - 2)))) by lia.
  replace (Z.to_nat (h - 1)) with (S (Z.to_nat (h - 2))) by lia. apply pair_step.
Qed.
Theorem minn_mono h : 0 <= minn (h - 1) <= minn h.
Proof.
  destruct (Z.le_gt_cases h 0). unfold minn. replace (Z.to_nat (h - 1)) with O by lia. replace (Z.to_nat h) with O by lia. simpl; lia.
  unfold minn. replace (Z.to_nat h) with (S (Z.to_nat (h - 1))) by lia. apply pair_mono.
Qed.
Lemma pair_le m n : (m <= n)%nat -> fst (pair m) <= fst (pair n).
Proof. induction 1. lia. pose proof (pair_mono m0). lia. Qed.
Theorem minn_bound h : 44 < h -> 2 ^ 31 <= minn h.
Proof.
  intros. apply Z.le_trans with (fst (pair 45)). vm_compute; discriminate.
  unfold minn. apply pair_le. lia.
Qed.

(* and the recurrence is what it is named: no AVL tree of height h is smaller *)
Inductive avl : Z -> Z -> Prop :=
| leaf : avl 0 0
| node n0 n1 h0 h1 : avl n0 h0 -> avl n1 h1 -> h0 - h1 <= 1 -> h1 - h0 <= 1 -> avl (n0 + n1 + 1) (Z.max h0 h1 + 1).
Lemma height_nonneg n h : avl n h -> 0 <= h. Proof. induction 1; lia. Qed.
Lemma minn_le a b : a <= b -> minn a <= minn b.
Proof. intros. unfold minn. apply pair_le. lia. Qed.
Theorem avl_minn n h : avl n h -> minn h <= n.
Proof.
  induction 1. rewrite minn_nonpos; lia.
  pose proof (height_nonneg _ _ H). pose proof (height_nonneg _ _ H0).
  destruct (Z.eq_dec (Z.max h0 h1) 0) as [E|E].
  - replace (Z.max h0 h1 + 1) with 1 by lia. rewrite minn_one.
    assert (minn h0 >= 0) by (pose proof (minn_mono h0); lia). assert (minn h1 >= 0) by (pose proof (minn_mono h1); lia). lia.
  - rewrite minn_rec by lia. replace (Z.max h0 h1 + 1 - 1) with (Z.max h0 h1) by lia. replace (Z.max h0 h1 + 1 - 2) with (Z.max h0 h1 - 1) by lia.
    destruct (Z.le_gt_cases h0 h1).
    + rewrite Z.max_r by lia. pose proof (minn_le (h1 - 1) h0). lia.
    + rewrite Z.max_l by lia. pose proof (minn_le (h0 - 1) h1). lia.
Qed.
(* a path of specs/avl.py (mkpath): from the whole tree (position, size, height of O) down k links to the hole (I) *)
Record iv := IV { lo : Z; cnt : Z; hh : Z }.
Inductive Path (O : iv) : iv -> Z -> Prop :=
| p_here : Path O O 0
| p_left J I k ns hs : Path O J k -> 0 <= ns -> lo I = lo J -> cnt J = cnt I + 1 + ns -> hh J = 1 + Z.max (hh I) hs -> Path O I (k + 1)
| p_right J I k ns hs : Path O J k -> 0 <= ns -> lo I = lo J + ns + 1 -> cnt J = ns + 1 + cnt I -> hh J = 1 + Z.max (hh I) hs -> Path O I (k + 1).
Theorem path_facts O I k : Path O I k -> lo O <= lo I /\ lo I + cnt I <= lo O + cnt O /\ hh I + k <= hh O.
Proof. induction 1; lia. Qed.

Print Assumptions avl_minn.
Print Assumptions minn_bound.
Print Assumptions path_facts.
