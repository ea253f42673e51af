(* C07: the trace chain.  A state's memory is next, prev (NULL is 0) and the tail; chain l: the blocks of l, each once, are
   linked in this order, the state's own section first, tail the last.  The contracts prove that chaining and unchaining change
   next, prev and tail as 'link' and 'unlink' do (base.py); here: what they may assume about a block on the chain follows from
   the chain, both keep it, and so any history of constructors and deletions does. *)
Require Import ZArith List Lia Bool.
Import ListNotations.
Open Scope Z_scope.
Record mem := { next : Z -> Z; prev : Z -> Z; tail : Z }.
Definition upd (f : Z -> Z) (k v : Z) : Z -> Z := fun x => if x =? k then v else f x.
Lemma upd_same f k v : upd f k v k = v. Proof. unfold upd. now rewrite Z.eqb_refl. Qed.
Lemma upd_other f k v x : x <> k -> upd f k v x = f x. Proof. intros. unfold upd. destruct (Z.eqb_spec x k); congruence. Qed.

(* S(chain) *)
Definition link (m : mem) (x : Z) : mem :=
  {| next := upd (upd (next m) x 0) (tail m) x; prev := upd (prev m) x (tail m); tail := x |}.
(* S(de_chain) *)
Definition unlink (m : mem) (x : Z) : mem :=
  let p := prev m x in let n := next m x in
  if tail m =? x then {| next := upd (next m) p 0; prev := prev m; tail := p |}
  else {| next := upd (next m) p n; prev := if n =? 0 then prev m else upd (prev m) n p; tail := tail m |}.

(* seg a l b: from a, the blocks of l follow, then b (0: nothing) *)
Fixpoint seg (m : mem) (a : Z) (l : list Z) (b : Z) : Prop :=
  match l with
  | [] => next m a = b
  | x :: r => next m a = x /\ prev m x = a /\ x <> 0 /\ seg m x r b
  end.
Definition chain (m : mem) (s : Z) (l : list Z) : Prop := NoDup (s :: l) /\ s <> 0 /\ seg m s l 0 /\ tail m = last l s.

Lemma last_cons (l : list Z) : forall x d, last (x :: l) d = last l x.
Proof. induction l as [|y l IH]; intros x d; [reflexivity|]. change (last (x :: y :: l) d) with (last (y :: l) d). now rewrite !IH. Qed.
Lemma seg_app m a l1 x l2 b : seg m a (l1 ++ x :: l2) b <-> seg m a l1 x /\ prev m x = last l1 a /\ x <> 0 /\ seg m x l2 b.
Proof.
  revert a. induction l1 as [|y l1 IH]; intros a.
  - simpl. tauto.
  - rewrite last_cons. simpl. rewrite IH. tauto.
Qed.
Lemma last_in (l : list Z) : forall a, In (last l a) (a :: l).
Proof. induction l as [|y l IH]; intros a; [left; reflexivity|]. rewrite last_cons. right. apply IH. Qed.
(* a change of the links of blocks that are not on the segment (its last one's next and the first one's prev apart) *)
Lemma seg_frame m m' a l b : (forall x, In x (a :: l) -> next m' x = next m x) -> (forall x, In x l -> prev m' x = prev m x) -> seg m a l b -> seg m' a l b.
Proof.
  revert a. induction l as [|x l IH]; intros a Hn Hp; simpl.
  - intros <-. apply Hn. now left.
  - intros (A & B & C & D). repeat split; auto.
    + rewrite Hn by now left. exact A.
    + rewrite Hp by now left. exact B.
    + apply IH; auto. intros. apply Hn. now right. intros. apply Hp. now right.
Qed.
(* ... the last one's next redirected to b' *)
Lemma seg_redirect m m' a l b b' : NoDup (a :: l) -> (forall x, In x (a :: l) -> x <> last l a -> next m' x = next m x) -> (forall x, In x l -> prev m' x = prev m x) ->
  next m' (last l a) = b' -> seg m a l b -> seg m' a l b'.
Proof.
  revert a. induction l as [|x l IH]; intros a ND Hn Hp Hb; simpl.
  - intros _. exact Hb.
  - intros (A & B & C & D).
    pose proof (last_cons l x a) as L.
    inversion ND as [|? ? NI ND']; subst. assert (Na : a <> last (next m a :: l) a).
    { rewrite L. intros E. apply NI. pose proof (last_in l (next m a)) as I. rewrite <- E in I. exact I. }
    split; [apply Hn; [now left | exact Na]|]. split; [rewrite Hp; [exact B | now left]|]. split; [exact C|].
    + apply IH; auto.
      * intros. apply Hn. now right. rewrite L. assumption.
      * intros. apply Hp. now right.
      * now rewrite L.
Qed.

Theorem link_keeps m s l x : chain m s l -> x <> 0 -> ~ In x (s :: l) -> chain (link m x) s (l ++ [x]).
Proof.
  intros (ND & S0 & SG & TL) X0 NI. unfold chain. repeat split; auto.
  - rewrite app_comm_cons. apply NoDup_Add with (a := x) (l := s :: l). 2: split; assumption.
    rewrite <- (app_nil_r (s :: l)) at 1. apply Add_app.
  - apply seg_app. assert (NT : tail m <> x) by (intros E; apply NI; rewrite <- E, TL; apply last_in). repeat split; auto.
    + apply seg_redirect with (m := m) (b := 0); auto.
      * intros y I Ny. simpl. rewrite upd_other by (rewrite TL; exact Ny). apply upd_other. intros ->. contradiction.
      * intros y I. simpl. apply upd_other. intros ->. apply NI. now right.
      * simpl. rewrite <- TL. apply upd_same.
    + simpl. rewrite upd_same. exact TL.
    + simpl. rewrite upd_other by congruence. apply upd_same.
  - simpl. symmetry. apply last_last.
Qed.

Lemma last_app_cons (l1 : list Z) x l2 a : last (l1 ++ x :: l2) a = last l2 x.
Proof.
  revert a. induction l1 as [|y l1 IH]; intros a; simpl app; rewrite last_cons; auto.
Qed.

(* what the contracts assume about a block on the chain (link_ok) *)
Theorem own_position m s l1 x l2 : chain m s (l1 ++ x :: l2) ->
  prev m x = last l1 s /\ prev m x <> x /\ next m (prev m x) = x /\ (next m x = 0 <-> tail m = x) /\ tail m <> prev m x /\
  (next m x <> 0 -> next m x <> x /\ prev m (next m x) = x /\ next m x <> prev m x /\ In (next m x) l2).
Proof.
  intros (ND & S0 & SG & TL). apply seg_app in SG. destruct SG as (A & B & C & D). rewrite last_app_cons in TL.
  rewrite app_comm_cons in ND. pose proof (last_in l1 s) as LI.
  assert (NX : ~ In x (s :: l1) /\ ~ In x l2). { apply NoDup_remove_2 in ND. split; intros I; apply ND; apply in_or_app; auto. }
  assert (DJ : forall y, In y (s :: l1) -> ~ In y (x :: l2)).
  { intros y I J. clear - ND I J. revert ND I. generalize (s :: l1) as r. induction r as [|u r IH]; intros ND I; [destruct I|].
    simpl in ND. inversion ND; subst. destruct I as [->|I]; [apply H1; apply in_or_app; now right | now apply IH]. }
  rewrite B. split; [reflexivity|]. split; [intros E; apply (proj1 NX); rewrite <- E at 1; exact LI|].
  split. { clear - A. revert s A. induction l1 as [|y l1 IH]; intros s A; [exact A|]. simpl in A. destruct A as (_ & _ & _ & A).
    rewrite last_cons. apply IH. exact A. }
  destruct l2 as [|y l2]; simpl in D.
  - simpl in TL. rewrite D, TL. repeat split; auto; try congruence. intros E. apply (proj1 NX). rewrite E. exact LI.
  - destruct D as (D1 & D2 & D3 & D4). rewrite D1.
    assert (TI : In (tail m) (y :: l2)). { rewrite TL. rewrite last_cons. apply last_in. }
    assert (TX : tail m <> x) by (intros E; apply (proj2 NX); rewrite <- E; exact TI).
    split; [split; congruence|]. split.
    + intros E. apply (DJ (last l1 s)); [exact LI|]. rewrite <- E. right. exact TI.
    + intros _. repeat split.
      * intros E. apply (proj2 NX). rewrite <- E. now left.
      * exact D2.
      * intros E. apply (DJ (last l1 s)); [exact LI|]. rewrite <- E. right. now left.
      * now left.
Qed.

Theorem unlink_keeps m s l1 x l2 : chain m s (l1 ++ x :: l2) -> chain (unlink m x) s (l1 ++ l2).
Proof.
  intros CH. pose proof (own_position _ _ _ _ _ CH) as (P1 & P2 & P3 & P4 & P5 & P6).
  destruct CH as (ND & S0 & SG & TL). apply seg_app in SG. destruct SG as (A & B & C & D). rewrite last_app_cons in TL.
  pose proof (last_in l1 s) as LI. rewrite app_comm_cons in ND.
  pose proof (NoDup_remove_1 _ _ _ ND) as ND'. pose proof (NoDup_remove_2 _ _ _ ND) as NX.
  assert (DJ : forall y, In y (s :: l1) -> ~ In y l2).
  { intros y I J. clear - ND' I J. revert ND' I. generalize (s :: l1) as r. induction r as [|u r IH]; intros ND I; [destruct I|].
    simpl in ND. inversion ND; subst. destruct I as [->|I]; [apply H1; apply in_or_app; now right | now apply IH]. }
  assert (NDl : NoDup (s :: l1)). { clear - ND'. revert ND'. generalize (s :: l1) as r. induction r as [|u r IH]; intros ND; [constructor|]. simpl in ND. inversion ND; subst. constructor; [intros I; apply H1; apply in_or_app; now left | auto]. }
  unfold chain. split; [rewrite app_comm_cons; exact ND'|]. split; [exact S0|].
  unfold unlink. destruct (Z.eqb_spec (tail m) x) as [E|E].
  - assert (l2 = []) as ->. { destruct l2 as [|y l2]; [reflexivity|]. exfalso. destruct D as (D1 & _ & D3 & _). apply D3. rewrite <- D1. now apply P4. }
    rewrite app_nil_r in *. simpl. split; [|exact P1].
    apply seg_redirect with (m := m) (b := x); auto; simpl.
    + intros y I Ny. apply upd_other. rewrite P1. exact Ny.
    + rewrite <- P1. apply upd_same.
  - destruct l2 as [|y l2]; [simpl in TL; congruence|]. destruct D as (D1 & D2 & D3 & D4).
    rewrite D1. destruct (Z.eqb_spec y 0) as [|_]; [contradiction|]. split.
    + apply seg_app. repeat split; auto.
      * apply seg_redirect with (m := m) (b := x); auto; simpl.
        { intros u I Nu. apply upd_other. rewrite P1. exact Nu. }
        { intros u I. apply upd_other. intros ->. apply (DJ y); [now right | now left]. }
        { rewrite <- P1. apply upd_same. }
      * simpl. rewrite upd_same. exact P1.
      * assert (NY : ~ In y l2). { clear - ND'. revert ND'. generalize (s :: l1) as r. induction r as [|u r IH]; intros ND; simpl in ND; inversion ND; subst; auto. }
        apply seg_frame with (m := m); auto; simpl.
        { intros u I. apply upd_other. rewrite P1. intros ->. apply (DJ (last l1 s)); auto. }
        { intros u I. apply upd_other. intros ->. contradiction. }
    + simpl. rewrite last_app_cons. rewrite last_cons in TL. exact TL.
Qed.

(* any history *)
Inductive op := New (x : Z) | Del (x : Z).
Inductive runs (s : Z) : mem -> list Z -> list op -> mem -> list Z -> Prop :=
| done m l : runs s m l [] m l
| new m l x h m' l' : x <> 0 -> ~ In x (s :: l) -> runs s (link m x) (l ++ [x]) h m' l' -> runs s m l (New x :: h) m' l'
| del m l1 x l2 h m' l' : runs s (unlink m x) (l1 ++ l2) h m' l' -> runs s m (l1 ++ x :: l2) (Del x :: h) m' l'.
Theorem history_keeps s m l h m' l' : runs s m l h m' l' -> chain m s l -> chain m' s l'.
Proof.
  induction 1; intros CH; auto.
  - apply IHruns. apply link_keeps; auto.
  - apply IHruns. apply unlink_keeps. exact CH.
Qed.
Print Assumptions history_keeps.
Print Assumptions own_position.
