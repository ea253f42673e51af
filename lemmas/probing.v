(* C06: the probe sequence h, h+1, h+1+2, ... meets every slot of a table of 2^k slots within its first 2^k probes;
   so a table with a free slot has one on every probe path: the search ends.
   The positions wrap at 2^64, a multiple of every table size, so taking them modulo the table size first changes nothing. *)
Require Import ZArith Znumtheory Lia List Bool.
Import ListNotations.
Open Scope Z_scope.

(* the code's recurrence: i += j++ from i = h, j = 1, in 64 bits *)
Definition W := 2 ^ 64.
Fixpoint probe (h : Z) (n : nat) : Z * Z := match n with O => (h, 1) | S m => let '(i, j) := probe h m in ((i + j) mod W, (j + 1) mod W) end.
Definition tri (n : Z) : Z := n * (n + 1) / 2.

Lemma tri2 n : 2 * tri n = n * (n + 1).
Proof.
  unfold tri. symmetry. apply Z_div_exact_full_2; [lia|].
  destruct (Zeven_odd_dec n) as [E|O].
  - apply Zeven_div2 in E. replace (n * (n + 1)) with (Z.div2 n * (n + 1) * 2) by nia. apply Z_mod_mult.
  - apply Zodd_div2 in O. replace (n * (n + 1)) with (n * (Z.div2 n + 1) * 2) by nia. apply Z_mod_mult.
Qed.
Lemma tri_S n : tri (n + 1) = tri n + (n + 1).
Proof. pose proof (tri2 n). pose proof (tri2 (n + 1)). nia. Qed.

Theorem probe_closed h n : probe (h mod W) n = ((h + tri (Z.of_nat n)) mod W, (Z.of_nat n + 1) mod W).
Proof.
  induction n as [|n IH]. unfold probe. change (tri (Z.of_nat 0)) with 0. rewrite Z.add_0_r. reflexivity.
  simpl probe. rewrite IH. rewrite Nat2Z.inj_succ. unfold Z.succ. rewrite tri_S. f_equal.
  - rewrite <- Zplus_mod. f_equal. lia.
  - rewrite Zplus_mod_idemp_l. f_equal.
Qed.

(* distinct probe counts below 2^k give distinct slots *)
Lemma odd_factor k (a b : Z) : 0 <= k -> Zodd a -> (2 ^ k | a * b) -> (2 ^ k | b).
Proof.
  intros Hk Ho Hd. apply Gauss with a; [exact Hd|]. apply rel_prime_sym.
  clear Hd. revert k Hk. apply natlike_ind.
  - apply rel_prime_sym. apply rel_prime_1.
  - intros x Hx IH. rewrite Z.pow_succ_r by lia. apply rel_prime_mult; [|exact IH].
    apply rel_prime_sym. apply prime_rel_prime; [apply prime_2|]. intros [q Hq]. apply Zodd_not_Zeven in Ho. apply Ho. subst a. rewrite Z.mul_comm. apply Zeven_2p.
Qed.
Theorem tri_injective k i j : 0 <= k -> 0 <= i < j -> j < 2 ^ k -> tri i mod 2 ^ k <> tri j mod 2 ^ k.
Proof.
  intros Hk Hij Hj E.
  assert (P : 0 < 2 ^ k) by (apply Z.pow_pos_nonneg; lia).
  assert (D : (2 ^ k | tri j - tri i)).
  { apply Z.mod_divide; [lia|]. rewrite Zminus_mod, E, Z.sub_diag. apply Z.mod_0_l. lia. }
  assert (D2 : (2 ^ (k + 1) | (j - i) * (i + j + 1))).
  { destruct D as [q Hq]. exists q. rewrite Z.pow_add_r by lia. change (2 ^ 1) with 2. pose proof (tri2 i). pose proof (tri2 j). nia. }
  assert (P1 : 2 ^ (k + 1) = 2 * 2 ^ k) by (rewrite Z.pow_add_r by lia; change (2 ^ 1) with 2; lia).
  destruct (Zeven_odd_dec (j - i)) as [Ev|Od].
  - assert (Od : Zodd (i + j + 1)). { replace (i + j + 1) with ((j - i) + (2 * i + 1)) by lia. apply Zeven_plus_Zodd; [exact Ev|]. apply Zodd_2p_plus_1. }
    rewrite Z.mul_comm in D2. apply odd_factor in D2; [|lia|exact Od]. apply Z.divide_pos_le in D2; lia.
  - apply odd_factor in D2; [|lia|exact Od]. apply Z.divide_pos_le in D2; lia.
Qed.

(* pigeonhole: they are all the slots *)
Definition slots (k h : Z) : list Z := map (fun n => (h + tri (Z.of_nat n)) mod 2 ^ k) (seq 0 (Z.to_nat (2 ^ k))).
Lemma slots_nodup k h : 0 <= k -> NoDup (slots k h).
Proof.
  intros Hk. assert (P : 0 < 2 ^ k) by (apply Z.pow_pos_nonneg; lia). unfold slots.
  assert (G : forall l, NoDup l -> (forall n, In n l -> (n < Z.to_nat (2 ^ k))%nat) -> NoDup (map (fun n => (h + tri (Z.of_nat n)) mod 2 ^ k) l)).
  { induction l as [|x l IH]; intros N B; simpl; constructor.
    - intros C. apply in_map_iff in C. destruct C as [y [E I]]. inversion N as [|? ? NI ND]; subst.
      assert (x <> y) by (intros ->; contradiction).
      pose proof (B x (or_introl eq_refl)) as Bx. pose proof (B y (or_intror I)) as By.
      assert (F : tri (Z.of_nat x) mod 2 ^ k = tri (Z.of_nat y) mod 2 ^ k).
      { replace (tri (Z.of_nat x)) with (h + tri (Z.of_nat x) - h) by lia. replace (tri (Z.of_nat y)) with (h + tri (Z.of_nat y) - h) by lia.
        rewrite Zminus_mod, <- E, <- Zminus_mod. reflexivity. }
      destruct (Z.lt_total (Z.of_nat x) (Z.of_nat y)) as [L|[L|L]]; [| lia |].
      + apply (tri_injective k (Z.of_nat x) (Z.of_nat y)); lia.
      + apply (tri_injective k (Z.of_nat y) (Z.of_nat x)); lia.
    - inversion N; subst. apply IH; [assumption|]. intros; apply B; right; assumption. }
  apply G; [apply seq_NoDup|]. intros n I. apply in_seq in I. lia.
Qed.
Theorem probe_meets_all k h s : 0 <= k -> 0 <= s < 2 ^ k -> exists n, 0 <= n < 2 ^ k /\ (h + tri n) mod 2 ^ k = s.
Proof.
  intros Hk Hs. assert (P : 0 < 2 ^ k) by (apply Z.pow_pos_nonneg; lia).
  set (all := map Z.of_nat (seq 0 (Z.to_nat (2 ^ k)))).
  assert (I : incl all (slots k h)).
  { apply NoDup_length_incl.
    - apply slots_nodup; assumption.
    - unfold all, slots. rewrite !map_length. apply le_n.
    - intros z Hz. unfold slots in Hz. apply in_map_iff in Hz. destruct Hz as [n [E _]].
      pose proof (Z.mod_pos_bound (h + tri (Z.of_nat n)) (2 ^ k) P) as B. rewrite E in B.
      unfold all. apply in_map_iff. exists (Z.to_nat z). split; [lia|]. apply in_seq. lia. }
  assert (A : In s all). { unfold all. apply in_map_iff. exists (Z.to_nat s). split; [lia|]. apply in_seq. lia. }
  apply I in A. unfold slots in A. apply in_map_iff in A. destruct A as [n [E In_]]. apply in_seq in In_.
  exists (Z.of_nat n). split; [lia|exact E].
Qed.
(* in the code's arithmetic: the probes wrap at 2^64, the slot is the low k bits *)
Theorem code_probe_meets_all k h s : 0 <= k <= 64 -> 0 <= s < 2 ^ k -> exists n, (Z.of_nat n < 2 ^ k) /\ fst (probe (h mod W) n) mod 2 ^ k = s.
Proof.
  intros Hk Hs. destruct (probe_meets_all k h s) as [n [B E]]; [lia|lia|]. exists (Z.to_nat n). split; [lia|].
  rewrite probe_closed. simpl fst. rewrite Z2Nat.id by lia. rewrite <- E.
  assert (W = 2 ^ k * 2 ^ (64 - k)) as -> by (unfold W; rewrite <- Z.pow_add_r by lia; f_equal; lia).
  rewrite Z.rem_mul_r by (try (apply Z.pow_nonzero; lia); apply Z.pow_pos_nonneg; lia).
  rewrite Z.mul_comm, Z_mod_plus_full. apply Zmod_mod.
Qed.
Print Assumptions code_probe_meets_all.
