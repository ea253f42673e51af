(* C17, C18: the table of specs/parser.py (step) recognises exactly JSON with optional trailing commas, building the value that
   the text denotes; what the printer writes for a value is in that language and gives the value back.
   Tokens carry the identity of their payload.  The parser adds an opened container to the one around it at once and fills it
   later; here a frame holds what the container has received so far and is put into its parent when it closes: the same value. *)
Require Import List Arith Lia.
Import ListNotations.

Inductive tok := TSc (s : nat) | TStr (s : nat) | LB | RB | LC | RC | COMMA | COLON | OTHER.
Inductive value := VSc (s : nat) | VStr (s : nat) | VArr (l : list value) | VObj (l : list (nat * value)).

(* the grammar; the boolean: a value has just been read (a comma may follow, no value) *)
Inductive Val : value -> list tok -> Prop :=
| val_sc s : Val (VSc s) [TSc s]
| val_str s : Val (VStr s) [TStr s]
| val_arr vs ts c : Elems vs ts c -> Val (VArr vs) (LB :: ts ++ [RB])
| val_obj ms ts c : Mems ms ts c -> Val (VObj ms) (LC :: ts ++ [RC])
with Elems : list value -> list tok -> bool -> Prop :=
| el_none : Elems [] [] false
| el_val vs ts v tv : Elems vs ts false -> Val v tv -> Elems (vs ++ [v]) (ts ++ tv) true
| el_comma vs ts : Elems vs ts true -> Elems vs (ts ++ [COMMA]) false
with Mems : list (nat * value) -> list tok -> bool -> Prop :=
| me_none : Mems [] [] false
| me_val ms ts k v tv : Mems ms ts false -> Val v tv -> Mems (ms ++ [(k, v)]) (ts ++ TStr k :: COLON :: tv) true
| me_comma ms ts : Mems ms ts true -> Mems ms (ts ++ [COMMA]) false.

Scheme Val_mut := Induction for Val Sort Prop with Elems_mut := Induction for Elems Sort Prop with Mems_mut := Induction for Mems Sort Prop.
Combined Scheme grammar_ind from Val_mut, Elems_mut, Mems_mut.

(* the recogniser *)
Inductive phase := Root | Key | Colon | Value | More | Elem | Next | Done | Err.
Inductive frame := FA (vs : list value) | FO (ms : list (nat * value)) (k : option nat).
Record conf := C { ph : phase; st : list frame; res : option value }.
Definition err := C Err [] None.

(* a value is complete: it goes where the innermost open container expects it *)
Definition plug (v : value) (s : list frame) : conf :=
  match s with
  | [] => C Done [] (Some v)
  | FA vs :: r => C Next (FA (vs ++ [v]) :: r) None
  | FO ms (Some k) :: r => C More (FO (ms ++ [(k, v)]) None :: r) None
  | FO _ None :: _ => err
  end.
Definition begin (t : tok) (s : list frame) : conf :=
  match t with
  | TSc n => plug (VSc n) s
  | TStr n => plug (VStr n) s
  | LB => C Elem (FA [] :: s) None
  | LC => C Key (FO [] None :: s) None
  | _ => err
  end.
Definition step (c : conf) (t : tok) : conf :=
  match ph c, t, st c with
  | Root, _, s => begin t s
  | Key, RC, FO ms None :: r => plug (VObj ms) r
  | Key, TStr k, FO ms None :: r => C Colon (FO ms (Some k) :: r) None
  | Colon, COLON, s => C Value s None
  | Value, _, s => begin t s
  | More, COMMA, s => C Key s None
  | More, RC, FO ms None :: r => plug (VObj ms) r
  | Elem, RB, FA vs :: r => plug (VArr vs) r
  | Elem, _, s => begin t s
  | Next, RB, FA vs :: r => plug (VArr vs) r
  | Next, COMMA, s => C Elem s None
  | _, _, _ => err
  end.
Definition run (c : conf) (ts : list tok) : conf := fold_left step ts c.
Definition init := C Root [] None.

(* where a value may begin *)
Inductive Ready : phase -> list frame -> Prop :=
| r_root : Ready Root []
| r_elem vs r : Ready Elem (FA vs :: r)
| r_value ms k r : Ready Value (FO ms (Some k) :: r).

Lemma run_app c a b : run c (a ++ b) = run (run c a) b.
Proof. apply fold_left_app. Qed.
Lemma begins p s t : Ready p s -> t <> RB -> step (C p s None) t = begin t s.
Proof. intros H N; destruct H; cbn; try reflexivity; destruct t; cbn; congruence. Qed.

Theorem complete_all :
  (forall v ts, Val v ts -> forall p s, Ready p s -> run (C p s None) ts = plug v s) /\
  (forall vs ts c, Elems vs ts c -> forall r, run (C Elem (FA [] :: r) None) ts = C (if c then Next else Elem) (FA vs :: r) None) /\
  (forall ms ts c, Mems ms ts c -> forall r, run (C Key (FO [] None :: r) None) ts = C (if c then More else Key) (FO ms None :: r) None).
Proof.
  apply grammar_ind.
  - intros n p s R; cbn [run fold_left]; rewrite begins; [reflexivity|assumption|discriminate].
  - intros n p s R; cbn [run fold_left]; rewrite begins; [reflexivity|assumption|discriminate].
  - intros vs ts c H IH p s R; change (LB :: ts ++ [RB]) with ([LB] ++ ts ++ [RB]); rewrite !run_app.
    assert (B : run (C p s None) [LB] = C Elem (FA [] :: s) None) by (cbn [run fold_left]; rewrite begins by (assumption || discriminate); reflexivity).
    rewrite B, IH; destruct c; reflexivity.
  - intros ms ts c H IH p s R; change (LC :: ts ++ [RC]) with ([LC] ++ ts ++ [RC]); rewrite !run_app.
    assert (B : run (C p s None) [LC] = C Key (FO [] None :: s) None) by (cbn [run fold_left]; rewrite begins by (assumption || discriminate); reflexivity).
    rewrite B, IH; destruct c; reflexivity.
  - reflexivity.
  - intros vs ts v tv _ IH _ IV r; rewrite run_app, IH, IV by constructor; reflexivity.
  - intros vs ts _ IH r; rewrite run_app, IH; reflexivity.
  - reflexivity.
  - intros ms ts k v tv _ IH _ IV r; rewrite run_app, IH.
    change (TStr k :: COLON :: tv) with ([TStr k; COLON] ++ tv); rewrite run_app; cbn; rewrite IV by constructor; reflexivity.
  - intros ms ts _ IH r; rewrite run_app, IH; reflexivity.
Qed.
(* every sentence is recognised and gives its value *)
Theorem complete v ts : Val v ts -> run init ts = C Done [] (Some v).
Proof. intros H; apply (proj1 complete_all v ts H Root []); constructor. Qed.
Corollary unambiguous v w ts : Val v ts -> Val w ts -> v = w.
Proof. intros A B; apply complete in A, B; congruence. Qed.

(* the tokens read so far, up to a place where a value is expected *)
Inductive Ctx : list frame -> list tok -> Prop :=
| c_root : Ctx [] []
| c_arr r pre vs ts : Ctx r pre -> Elems vs ts false -> Ctx (FA vs :: r) (pre ++ LB :: ts)
| c_obj r pre ms ts k : Ctx r pre -> Mems ms ts false -> Ctx (FO ms (Some k) :: r) (pre ++ LC :: ts ++ [TStr k; COLON]).
Definition Inv (c : conf) (ts : list tok) : Prop :=
  match ph c with
  | Root => Ctx (st c) ts /\ st c = []
  | Elem => exists vs r, st c = FA vs :: r /\ Ctx (st c) ts
  | Value => exists ms k r, st c = FO ms (Some k) :: r /\ Ctx (st c) ts
  | Next => exists vs r pre us, st c = FA vs :: r /\ Ctx r pre /\ Elems vs us true /\ ts = pre ++ LB :: us
  | Key => exists ms r pre us, st c = FO ms None :: r /\ Ctx r pre /\ Mems ms us false /\ ts = pre ++ LC :: us
  | More => exists ms r pre us, st c = FO ms None :: r /\ Ctx r pre /\ Mems ms us true /\ ts = pre ++ LC :: us
  | Colon => exists ms k r pre us, st c = FO ms (Some k) :: r /\ Ctx r pre /\ Mems ms us false /\ ts = pre ++ LC :: us ++ [TStr k]
  | Done => exists v, res c = Some v /\ Val v ts
  | Err => True
  end.
Lemma plug_inv v s pre tv : Ctx s pre -> Val v tv -> Inv (plug v s) (pre ++ tv).
Proof.
  intros H V; destruct H as [|r pre vs ts H E|r pre ms ts k H E]; unfold Inv; cbn.
  - eauto.
  - exists (vs ++ [v]), r, pre, (ts ++ tv); repeat split; auto; [now constructor|now rewrite <- app_assoc].
  - exists (ms ++ [(k, v)]), r, pre, (ts ++ TStr k :: COLON :: tv); repeat split; auto; [now constructor|].
    rewrite <- app_assoc; cbn; now rewrite <- app_assoc.
Qed.
Lemma begin_inv t s pre : Ctx s pre -> Inv (begin t s) (pre ++ [t]).
Proof.
  intros H; destruct t; cbn [begin]; try exact I; try (apply plug_inv; [assumption|constructor]).
  - unfold Inv; cbn; exists [], s; split; [reflexivity|apply c_arr; [assumption|constructor]].
  - unfold Inv; cbn; exists [], s, pre, []; repeat split; auto; constructor.
Qed.
Lemma step_inv c t ts : Inv c ts -> Inv (step c t) (ts ++ [t]).
Proof.
  destruct c as [p s o]; unfold Inv at 1, step; cbn; destruct p; intros H.
  - destruct H as [H _]; destruct t, s; apply begin_inv; assumption.
  - destruct H as (ms & r & pre & us & -> & H & E & ->); destruct t; try exact I; rewrite <- app_assoc; cbn.
    + unfold Inv; cbn; exists ms, s, r, pre, us; repeat split; auto.
    + apply plug_inv; [assumption|econstructor; eassumption].
  - destruct H as (ms & k & r & pre & us & -> & H & E & ->); destruct t; try exact I.
    unfold Inv; cbn; exists ms, k, r; split; [reflexivity|].
    rewrite <- app_assoc; cbn; rewrite <- app_assoc; now constructor.
  - destruct H as (ms & k & r & -> & H); destruct t; apply begin_inv; assumption.
  - destruct H as (ms & r & pre & us & -> & H & E & ->); destruct t; try exact I; rewrite <- app_assoc; cbn.
    + apply plug_inv; [assumption|econstructor; eassumption].
    + unfold Inv; cbn; exists ms, r, pre, (us ++ [COMMA]); repeat split; auto; now constructor.
  - destruct H as (vs & r & -> & H); destruct t; try (apply begin_inv; assumption).
    inversion H; subst; rewrite <- app_assoc; cbn; apply plug_inv; [assumption|econstructor; eassumption].
  - destruct H as (vs & r & pre & us & -> & H & E & ->); destruct t; try exact I; rewrite <- app_assoc; cbn.
    + apply plug_inv; [assumption|econstructor; eassumption].
    + unfold Inv; cbn; exists vs, r; split; [reflexivity|]; apply c_arr; [assumption|now constructor].
  - destruct t; exact I.
  - destruct t; exact I.
Qed.
Lemma run_inv us : forall c ts, Inv c ts -> Inv (run c us) (ts ++ us).
Proof.
  induction us as [|u us IH]; intros c ts H; [now rewrite app_nil_r|].
  change (ts ++ u :: us) with (ts ++ [u] ++ us); rewrite app_assoc; cbn; apply IH, step_inv, H.
Qed.
(* what is recognised is a sentence, and the value built is the one it denotes *)
Theorem sound ts s v : run init ts = C Done s (Some v) -> Val v ts.
Proof.
  intros H; pose proof (run_inv ts init [] (conj c_root eq_refl)) as I; rewrite H in I.
  destruct I as (w & E & V); cbn in E, V; injection E as ->; exact V.
Qed.

(* the printer: the tokens of the text it writes *)
Fixpoint pr (v : value) : list tok :=
  match v with
  | VSc s => [TSc s]
  | VStr s => [TStr s]
  | VArr l => LB :: (fix go l := match l with [] => [] | [x] => pr x | x :: r => pr x ++ COMMA :: go r end) l ++ [RB]
  | VObj l => LC :: (fix go l := match l with [] => [] | [(k, x)] => TStr k :: COLON :: pr x | (k, x) :: r => TStr k :: COLON :: pr x ++ COMMA :: go r end) l ++ [RC]
  end.
Definition prs := fix go l := match l with [] => [] | [x] => pr x | x :: r => pr x ++ COMMA :: go r end.
Definition prm := fix go (l : list (nat * value)) := match l with [] => [] | [(k, x)] => TStr k :: COLON :: pr x | (k, x) :: r => TStr k :: COLON :: pr x ++ COMMA :: go r end.
Section Value_ind.
  Variable P : value -> Prop.
  Hypothesis hs : forall s, P (VSc s).
  Hypothesis ht : forall s, P (VStr s).
  Hypothesis ha : forall l, Forall P l -> P (VArr l).
  Hypothesis ho : forall l, Forall (fun m => P (snd m)) l -> P (VObj l).
  Fixpoint value_ind2 (v : value) : P v :=
    match v with
    | VSc s => hs s
    | VStr s => ht s
    | VArr l => ha l ((fix go l : Forall P l := match l with [] => Forall_nil _ | x :: r => Forall_cons x (value_ind2 x) (go r) end) l)
    | VObj l => ho l ((fix go l : Forall (fun m => P (snd m)) l := match l with [] => Forall_nil _ | x :: r => Forall_cons x (value_ind2 (snd x)) (go r) end) l)
    end.
End Value_ind.
Lemma prs_ok l : Forall (fun v => Val v (pr v)) l -> forall vs ts, Elems vs ts false -> l <> [] -> Elems (vs ++ l) (ts ++ prs l) true.
Proof.
  induction 1 as [|x l V F IH]; intros vs ts E N; [congruence|]; destruct l as [|y l].
  - cbn; now constructor.
  - assert (A : Elems (vs ++ [x]) ((ts ++ pr x) ++ [COMMA]) false) by (apply el_comma, el_val; assumption).
    apply IH in A; [|discriminate]; rewrite <- !app_assoc in A; exact A.
Qed.
Lemma prm_ok l : Forall (fun m => Val (snd m) (pr (snd m))) l -> forall ms ts, Mems ms ts false -> l <> [] -> Mems (ms ++ l) (ts ++ prm l) true.
Proof.
  induction 1 as [|[k x] l V F IH]; intros ms ts E N; [congruence|]; destruct l as [|y l].
  - cbn; now constructor.
  - assert (A : Mems (ms ++ [(k, x)]) ((ts ++ TStr k :: COLON :: pr x) ++ [COMMA]) false) by (apply me_comma, me_val; assumption).
    apply IH in A; [|discriminate]; rewrite <- !app_assoc in A; exact A.
Qed.
Theorem printed v : Val v (pr v).
Proof.
  induction v as [s|s|l F|l F] using value_ind2; try constructor.
  - change (pr (VArr l)) with (LB :: prs l ++ [RB]); destruct l as [|x l]; [apply val_arr with false; constructor|].
    apply val_arr with true; apply (prs_ok _ F [] []); [constructor|discriminate].
  - change (pr (VObj l)) with (LC :: prm l ++ [RC]); destruct l as [|x l]; [apply val_obj with false; constructor|].
    apply val_obj with true; apply (prm_ok _ F [] []); [constructor|discriminate].
Qed.
(* printing and parsing again gives the value back *)
Theorem round_trip v : run init (pr v) = C Done [] (Some v).
Proof. apply complete, printed. Qed.

(* the printer's loop (specs/snprint.py, pieces): a level is a value, how much of it is printed and whether a sibling follows;
   white space, which separates tokens and is none, is left out *)
Definition comma (m : bool) : list tok := if m then [COMMA] else [].
Record level := L { val : value; nxt : nat; more : bool }.
Definition first (n : nat) (t : tok) : list tok := match n with 0 => [t] | _ => [] end.
Definition round (s : list level) : option (list tok * list level) :=
  match s with
  | [] => None
  | L v n m :: r =>
    match v with
    | VSc x => Some (TSc x :: comma m, r)
    | VStr x => Some (TStr x :: comma m, r)
    | VArr l => match nth_error l n with
                | Some x => Some (first n LB, L x 0 (Nat.ltb (S n) (length l)) :: L v (S n) m :: r)
                | None => Some (first n LB ++ RB :: comma m, r)
                end
    | VObj l => match nth_error l n with
                | Some (k, x) => Some (first n LC ++ [TStr k; COLON], L x 0 (Nat.ltb (S n) (length l)) :: L v (S n) m :: r)
                | None => Some (first n LC ++ RC :: comma m, r)
                end
    end
  end.
Inductive Rounds : list level -> list tok -> list level -> Prop :=
| rs_none s : Rounds s [] s
| rs_one s o s1 ts s2 : round s = Some (o, s1) -> Rounds s1 ts s2 -> Rounds s (o ++ ts) s2.
Lemma rounds_app s a s1 b s2 : Rounds s a s1 -> Rounds s1 b s2 -> Rounds s (a ++ b) s2.
Proof. induction 1; intros H2; [exact H2|]. rewrite <- app_assoc; econstructor; eauto. Qed.
Lemma last_round s o s1 : round s = Some (o, s1) -> Rounds s o s1.
Proof. intros H; rewrite <- (app_nil_r o); econstructor; [exact H|constructor]. Qed.
Definition some {A} (l : list A) : bool := match l with [] => false | _ => true end.
Lemma more_some {A} (a b : list A) (x : A) : Nat.ltb (S (length a)) (length (a ++ x :: b)) = some b.
Proof.
  rewrite app_length; destruct b; cbn [length some].
  - apply Nat.ltb_ge; lia.
  - apply Nat.ltb_lt; lia.
Qed.
Lemma nth_mid {A} (a b : list A) : nth_error (a ++ b) (length a) = match b with [] => None | x :: _ => Some x end.
Proof. induction a; [destruct b; reflexivity|exact IHa]. Qed.
Lemma snoc {A} (a b : list A) (x : A) : a ++ x :: b = (a ++ [x]) ++ b.
Proof. now rewrite <- app_assoc. Qed.
Lemma len_snoc {A} (a : list A) (x : A) : length (a ++ [x]) = S (length a).
Proof. rewrite app_length; cbn; lia. Qed.
Lemma prs_cons x b : prs (x :: b) = pr x ++ comma (some b) ++ prs b.
Proof. destruct b; cbn; [now rewrite app_nil_r|reflexivity]. Qed.
Lemma prm_cons k x b : prm ((k, x) :: b) = TStr k :: COLON :: pr x ++ comma (some b) ++ prm b.
Proof. destruct b as [|[? ?] ?]; cbn; [now rewrite app_nil_r|reflexivity]. Qed.
Definition prints (v : value) := forall m r, Rounds (L v 0 m :: r) (pr v ++ comma m) r.
Lemma array_rounds b : Forall prints b -> forall a m r,
  Rounds (L (VArr (a ++ b)) (length a) m :: r) (first (length a) LB ++ prs b ++ RB :: comma m) r.
Proof.
  induction 1 as [|x b P F IH]; intros a m r.
  - apply last_round; cbn [round]; rewrite nth_mid; reflexivity.
  - rewrite prs_cons; eapply rs_one; [cbn [round]; rewrite nth_mid, more_some; reflexivity|].
    rewrite <- !app_assoc; rewrite app_assoc; eapply rounds_app; [apply P|].
    specialize (IH (a ++ [x]) m r); rewrite len_snoc, <- snoc in IH; exact IH.
Qed.
Lemma object_rounds b : Forall (fun m => prints (snd m)) b -> forall a m r,
  Rounds (L (VObj (a ++ b)) (length a) m :: r) (first (length a) LC ++ prm b ++ RC :: comma m) r.
Proof.
  induction 1 as [|[k x] b P F IH]; intros a m r.
  - apply last_round; cbn [round]; rewrite nth_mid; reflexivity.
  - rewrite prm_cons.
    replace (first (length a) LC ++ (TStr k :: COLON :: pr x ++ comma (some b) ++ prm b) ++ RC :: comma m)
      with ((first (length a) LC ++ [TStr k; COLON]) ++ (pr x ++ comma (some b)) ++ prm b ++ RC :: comma m)
      by (rewrite <- !app_assoc; cbn; rewrite <- !app_assoc; reflexivity).
    eapply rs_one; [cbn [round]; rewrite nth_mid, more_some; reflexivity|].
    eapply rounds_app; [apply P|].
    specialize (IH (a ++ [(k, x)]) m r); rewrite len_snoc, <- snoc in IH; exact IH.
Qed.
(* the rounds for a value print exactly its tokens, and end *)
Theorem loop_prints v : prints v.
Proof.
  induction v as [s|s|l F|l F] using value_ind2; intros m r.
  - now apply last_round.
  - now apply last_round.
  - change (pr (VArr l)) with (LB :: prs l ++ [RB]).
    replace ((LB :: prs l ++ [RB]) ++ comma m) with (first 0 LB ++ prs l ++ RB :: comma m) by (cbn; now rewrite <- app_assoc).
    exact (array_rounds l F [] m r).
  - change (pr (VObj l)) with (LC :: prm l ++ [RC]).
    replace ((LC :: prm l ++ [RC]) ++ comma m) with (first 0 LC ++ prm l ++ RC :: comma m) by (cbn; now rewrite <- app_assoc).
    exact (object_rounds l F [] m r).
Qed.
(* what the loop prints for a value is read back as that value *)
Theorem print_parse v : exists ts, Rounds [L v 0 false] ts [] /\ run init ts = C Done [] (Some v).
Proof. exists (pr v); split; [|apply round_trip]. rewrite <- (app_nil_r (pr v)); exact (loop_prints v false []). Qed.

Print Assumptions complete.
Print Assumptions sound.
Print Assumptions print_parse.

(* the table of specs/parser.py (tools/mkgrammar.py) *)
Lemma table :
  ph (step (C Root [] None) LB) = Elem /\
  ph (step (C Root [] None) RB) = Err /\
  ph (step (C Root [] None) LC) = Key /\
  ph (step (C Root [] None) RC) = Err /\
  ph (step (C Root [] None) COMMA) = Err /\
  ph (step (C Root [] None) COLON) = Err /\
  ph (step (C Root [] None) (TStr 7)) = Done /\
  ph (step (C Root [] None) OTHER) = Err /\
  ph (step (C Root [] None) (TSc 7)) = Done /\
  ph (step (C Key [FO [] None] None) LB) = Err /\
  ph (step (C Key [FO [] None] None) RB) = Err /\
  ph (step (C Key [FO [] None] None) LC) = Err /\
  ph (step (C Key [FO [] None] None) RC) = Done /\
  ph (step (C Key [FO [] None] None) COMMA) = Err /\
  ph (step (C Key [FO [] None] None) COLON) = Err /\
  ph (step (C Key [FO [] None] None) (TStr 7)) = Colon /\
  ph (step (C Key [FO [] None] None) OTHER) = Err /\
  ph (step (C Key [FO [] None] None) (TSc 7)) = Err /\
  ph (step (C Key [FO [] None; FO [] (Some 2)] None) LB) = Err /\
  ph (step (C Key [FO [] None; FO [] (Some 2)] None) RB) = Err /\
  ph (step (C Key [FO [] None; FO [] (Some 2)] None) LC) = Err /\
  ph (step (C Key [FO [] None; FO [] (Some 2)] None) RC) = More /\
  ph (step (C Key [FO [] None; FO [] (Some 2)] None) COMMA) = Err /\
  ph (step (C Key [FO [] None; FO [] (Some 2)] None) COLON) = Err /\
  ph (step (C Key [FO [] None; FO [] (Some 2)] None) (TStr 7)) = Colon /\
  ph (step (C Key [FO [] None; FO [] (Some 2)] None) OTHER) = Err /\
  ph (step (C Key [FO [] None; FO [] (Some 2)] None) (TSc 7)) = Err /\
  ph (step (C Key [FO [] None; FA []] None) LB) = Err /\
  ph (step (C Key [FO [] None; FA []] None) RB) = Err /\
  ph (step (C Key [FO [] None; FA []] None) LC) = Err /\
  ph (step (C Key [FO [] None; FA []] None) RC) = Next /\
  ph (step (C Key [FO [] None; FA []] None) COMMA) = Err /\
  ph (step (C Key [FO [] None; FA []] None) COLON) = Err /\
  ph (step (C Key [FO [] None; FA []] None) (TStr 7)) = Colon /\
  ph (step (C Key [FO [] None; FA []] None) OTHER) = Err /\
  ph (step (C Key [FO [] None; FA []] None) (TSc 7)) = Err /\
  ph (step (C Colon [FO [] (Some 3)] None) LB) = Err /\
  ph (step (C Colon [FO [] (Some 3)] None) RB) = Err /\
  ph (step (C Colon [FO [] (Some 3)] None) LC) = Err /\
  ph (step (C Colon [FO [] (Some 3)] None) RC) = Err /\
  ph (step (C Colon [FO [] (Some 3)] None) COMMA) = Err /\
  ph (step (C Colon [FO [] (Some 3)] None) COLON) = Value /\
  ph (step (C Colon [FO [] (Some 3)] None) (TStr 7)) = Err /\
  ph (step (C Colon [FO [] (Some 3)] None) OTHER) = Err /\
  ph (step (C Colon [FO [] (Some 3)] None) (TSc 7)) = Err /\
  ph (step (C Colon [FO [] (Some 3); FO [] (Some 2)] None) LB) = Err /\
  ph (step (C Colon [FO [] (Some 3); FO [] (Some 2)] None) RB) = Err /\
  ph (step (C Colon [FO [] (Some 3); FO [] (Some 2)] None) LC) = Err /\
  ph (step (C Colon [FO [] (Some 3); FO [] (Some 2)] None) RC) = Err /\
  ph (step (C Colon [FO [] (Some 3); FO [] (Some 2)] None) COMMA) = Err /\
  ph (step (C Colon [FO [] (Some 3); FO [] (Some 2)] None) COLON) = Value /\
  ph (step (C Colon [FO [] (Some 3); FO [] (Some 2)] None) (TStr 7)) = Err /\
  ph (step (C Colon [FO [] (Some 3); FO [] (Some 2)] None) OTHER) = Err /\
  ph (step (C Colon [FO [] (Some 3); FO [] (Some 2)] None) (TSc 7)) = Err /\
  ph (step (C Colon [FO [] (Some 3); FA []] None) LB) = Err /\
  ph (step (C Colon [FO [] (Some 3); FA []] None) RB) = Err /\
  ph (step (C Colon [FO [] (Some 3); FA []] None) LC) = Err /\
  ph (step (C Colon [FO [] (Some 3); FA []] None) RC) = Err /\
  ph (step (C Colon [FO [] (Some 3); FA []] None) COMMA) = Err /\
  ph (step (C Colon [FO [] (Some 3); FA []] None) COLON) = Value /\
  ph (step (C Colon [FO [] (Some 3); FA []] None) (TStr 7)) = Err /\
  ph (step (C Colon [FO [] (Some 3); FA []] None) OTHER) = Err /\
  ph (step (C Colon [FO [] (Some 3); FA []] None) (TSc 7)) = Err /\
  ph (step (C Value [FO [] (Some 3)] None) LB) = Elem /\
  ph (step (C Value [FO [] (Some 3)] None) RB) = Err /\
  ph (step (C Value [FO [] (Some 3)] None) LC) = Key /\
  ph (step (C Value [FO [] (Some 3)] None) RC) = Err /\
  ph (step (C Value [FO [] (Some 3)] None) COMMA) = Err /\
  ph (step (C Value [FO [] (Some 3)] None) COLON) = Err /\
  ph (step (C Value [FO [] (Some 3)] None) (TStr 7)) = More /\
  ph (step (C Value [FO [] (Some 3)] None) OTHER) = Err /\
  ph (step (C Value [FO [] (Some 3)] None) (TSc 7)) = More /\
  ph (step (C Value [FO [] (Some 3); FO [] (Some 2)] None) LB) = Elem /\
  ph (step (C Value [FO [] (Some 3); FO [] (Some 2)] None) RB) = Err /\
  ph (step (C Value [FO [] (Some 3); FO [] (Some 2)] None) LC) = Key /\
  ph (step (C Value [FO [] (Some 3); FO [] (Some 2)] None) RC) = Err /\
  ph (step (C Value [FO [] (Some 3); FO [] (Some 2)] None) COMMA) = Err /\
  ph (step (C Value [FO [] (Some 3); FO [] (Some 2)] None) COLON) = Err /\
  ph (step (C Value [FO [] (Some 3); FO [] (Some 2)] None) (TStr 7)) = More /\
  ph (step (C Value [FO [] (Some 3); FO [] (Some 2)] None) OTHER) = Err /\
  ph (step (C Value [FO [] (Some 3); FO [] (Some 2)] None) (TSc 7)) = More /\
  ph (step (C Value [FO [] (Some 3); FA []] None) LB) = Elem /\
  ph (step (C Value [FO [] (Some 3); FA []] None) RB) = Err /\
  ph (step (C Value [FO [] (Some 3); FA []] None) LC) = Key /\
  ph (step (C Value [FO [] (Some 3); FA []] None) RC) = Err /\
  ph (step (C Value [FO [] (Some 3); FA []] None) COMMA) = Err /\
  ph (step (C Value [FO [] (Some 3); FA []] None) COLON) = Err /\
  ph (step (C Value [FO [] (Some 3); FA []] None) (TStr 7)) = More /\
  ph (step (C Value [FO [] (Some 3); FA []] None) OTHER) = Err /\
  ph (step (C Value [FO [] (Some 3); FA []] None) (TSc 7)) = More /\
  ph (step (C More [FO [] None] None) LB) = Err /\
  ph (step (C More [FO [] None] None) RB) = Err /\
  ph (step (C More [FO [] None] None) LC) = Err /\
  ph (step (C More [FO [] None] None) RC) = Done /\
  ph (step (C More [FO [] None] None) COMMA) = Key /\
  ph (step (C More [FO [] None] None) COLON) = Err /\
  ph (step (C More [FO [] None] None) (TStr 7)) = Err /\
  ph (step (C More [FO [] None] None) OTHER) = Err /\
  ph (step (C More [FO [] None] None) (TSc 7)) = Err /\
  ph (step (C More [FO [] None; FO [] (Some 2)] None) LB) = Err /\
  ph (step (C More [FO [] None; FO [] (Some 2)] None) RB) = Err /\
  ph (step (C More [FO [] None; FO [] (Some 2)] None) LC) = Err /\
  ph (step (C More [FO [] None; FO [] (Some 2)] None) RC) = More /\
  ph (step (C More [FO [] None; FO [] (Some 2)] None) COMMA) = Key /\
  ph (step (C More [FO [] None; FO [] (Some 2)] None) COLON) = Err /\
  ph (step (C More [FO [] None; FO [] (Some 2)] None) (TStr 7)) = Err /\
  ph (step (C More [FO [] None; FO [] (Some 2)] None) OTHER) = Err /\
  ph (step (C More [FO [] None; FO [] (Some 2)] None) (TSc 7)) = Err /\
  ph (step (C More [FO [] None; FA []] None) LB) = Err /\
  ph (step (C More [FO [] None; FA []] None) RB) = Err /\
  ph (step (C More [FO [] None; FA []] None) LC) = Err /\
  ph (step (C More [FO [] None; FA []] None) RC) = Next /\
  ph (step (C More [FO [] None; FA []] None) COMMA) = Key /\
  ph (step (C More [FO [] None; FA []] None) COLON) = Err /\
  ph (step (C More [FO [] None; FA []] None) (TStr 7)) = Err /\
  ph (step (C More [FO [] None; FA []] None) OTHER) = Err /\
  ph (step (C More [FO [] None; FA []] None) (TSc 7)) = Err /\
  ph (step (C Elem [FA []] None) LB) = Elem /\
  ph (step (C Elem [FA []] None) RB) = Done /\
  ph (step (C Elem [FA []] None) LC) = Key /\
  ph (step (C Elem [FA []] None) RC) = Err /\
  ph (step (C Elem [FA []] None) COMMA) = Err /\
  ph (step (C Elem [FA []] None) COLON) = Err /\
  ph (step (C Elem [FA []] None) (TStr 7)) = Next /\
  ph (step (C Elem [FA []] None) OTHER) = Err /\
  ph (step (C Elem [FA []] None) (TSc 7)) = Next /\
  ph (step (C Elem [FA []; FO [] (Some 2)] None) LB) = Elem /\
  ph (step (C Elem [FA []; FO [] (Some 2)] None) RB) = More /\
  ph (step (C Elem [FA []; FO [] (Some 2)] None) LC) = Key /\
  ph (step (C Elem [FA []; FO [] (Some 2)] None) RC) = Err /\
  ph (step (C Elem [FA []; FO [] (Some 2)] None) COMMA) = Err /\
  ph (step (C Elem [FA []; FO [] (Some 2)] None) COLON) = Err /\
  ph (step (C Elem [FA []; FO [] (Some 2)] None) (TStr 7)) = Next /\
  ph (step (C Elem [FA []; FO [] (Some 2)] None) OTHER) = Err /\
  ph (step (C Elem [FA []; FO [] (Some 2)] None) (TSc 7)) = Next /\
  ph (step (C Elem [FA []; FA []] None) LB) = Elem /\
  ph (step (C Elem [FA []; FA []] None) RB) = Next /\
  ph (step (C Elem [FA []; FA []] None) LC) = Key /\
  ph (step (C Elem [FA []; FA []] None) RC) = Err /\
  ph (step (C Elem [FA []; FA []] None) COMMA) = Err /\
  ph (step (C Elem [FA []; FA []] None) COLON) = Err /\
  ph (step (C Elem [FA []; FA []] None) (TStr 7)) = Next /\
  ph (step (C Elem [FA []; FA []] None) OTHER) = Err /\
  ph (step (C Elem [FA []; FA []] None) (TSc 7)) = Next /\
  ph (step (C Next [FA []] None) LB) = Err /\
  ph (step (C Next [FA []] None) RB) = Done /\
  ph (step (C Next [FA []] None) LC) = Err /\
  ph (step (C Next [FA []] None) RC) = Err /\
  ph (step (C Next [FA []] None) COMMA) = Elem /\
  ph (step (C Next [FA []] None) COLON) = Err /\
  ph (step (C Next [FA []] None) (TStr 7)) = Err /\
  ph (step (C Next [FA []] None) OTHER) = Err /\
  ph (step (C Next [FA []] None) (TSc 7)) = Err /\
  ph (step (C Next [FA []; FO [] (Some 2)] None) LB) = Err /\
  ph (step (C Next [FA []; FO [] (Some 2)] None) RB) = More /\
  ph (step (C Next [FA []; FO [] (Some 2)] None) LC) = Err /\
  ph (step (C Next [FA []; FO [] (Some 2)] None) RC) = Err /\
  ph (step (C Next [FA []; FO [] (Some 2)] None) COMMA) = Elem /\
  ph (step (C Next [FA []; FO [] (Some 2)] None) COLON) = Err /\
  ph (step (C Next [FA []; FO [] (Some 2)] None) (TStr 7)) = Err /\
  ph (step (C Next [FA []; FO [] (Some 2)] None) OTHER) = Err /\
  ph (step (C Next [FA []; FO [] (Some 2)] None) (TSc 7)) = Err /\
  ph (step (C Next [FA []; FA []] None) LB) = Err /\
  ph (step (C Next [FA []; FA []] None) RB) = Next /\
  ph (step (C Next [FA []; FA []] None) LC) = Err /\
  ph (step (C Next [FA []; FA []] None) RC) = Err /\
  ph (step (C Next [FA []; FA []] None) COMMA) = Elem /\
  ph (step (C Next [FA []; FA []] None) COLON) = Err /\
  ph (step (C Next [FA []; FA []] None) (TStr 7)) = Err /\
  ph (step (C Next [FA []; FA []] None) OTHER) = Err /\
  ph (step (C Next [FA []; FA []] None) (TSc 7)) = Err.
Proof. repeat split. Qed.
