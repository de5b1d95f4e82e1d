(* Error-free transformations over f64 = FLT(-1074, 53) with round-to-nearest-even, no overflow.
   Each theorem is stated over named intermediate results so that the code of /repo, translated on
   every run, can be matched against it. *)
From Coq Require Import ZArith Reals Psatz Bool.
From Flocq Require Import Core Plus_error Pff2Flocq.
Local Open Scope R_scope.

Notation fexp := (FLT_exp (-1074) 53).
Notation fmt := (generic_format radix2 fexp).
Definition rnd := round radix2 fexp ZnearestE.

Lemma choice_sym : forall x : Z, negb (Z.even x) = negb (negb (Z.even (- (x + 1)))).
Proof.
intros x. rewrite Z.even_opp, Z.even_add. simpl. destruct (Z.even x); reflexivity.
Qed.

Lemma rnd_opp x : rnd (- x) = - rnd x.
Proof. unfold rnd. apply round_NE_opp. Qed.

Lemma rnd_0 : rnd 0 = 0.
Proof. unfold rnd. apply round_0, valid_rnd_N. Qed.

Global Instance fexp_valid : Valid_exp fexp.
Proof. apply FLT_exp_valid. unfold Prec_gt_0. lia. Qed.

Global Instance fexp26_valid : Valid_exp (FLT_exp (-1074) (53 - 27)).
Proof. apply FLT_exp_valid. unfold Prec_gt_0. lia. Qed.

Lemma rnd_fmt x : fmt (rnd x).
Proof. apply generic_format_round; [apply fexp_valid | apply valid_rnd_N]. Qed.

Lemma rnd_id x : fmt x -> rnd x = x.
Proof. intros. apply round_generic; [apply valid_rnd_N | assumption]. Qed.

Lemma rnd_le x y : x <= y -> rnd x <= rnd y.
Proof. apply round_le; [apply fexp_valid | apply valid_rnd_N]. Qed.

Lemma fmt_opp x : fmt x -> fmt (- x).
Proof. apply generic_format_opp. Qed.

Lemma fmt_0 : fmt 0.
Proof. apply generic_format_0. Qed.

(** integers times a power of two *)
Lemma fmt_dyadic m k : (Z.abs m <= 2^53)%Z -> (-1074 <= k)%Z -> fmt (IZR m * bpow radix2 k).
Proof.
intros Hm Hk.
destruct (Z.eq_dec (Z.abs m) (2^53)) as [E|N].
- assert (H : Rabs (IZR m * bpow radix2 k) = bpow radix2 (53 + k)).
  { rewrite Rabs_mult, <- abs_IZR, E, (Rabs_pos_eq (bpow radix2 k)) by apply bpow_ge_0.
    rewrite bpow_plus. f_equal. }
  assert (F : fmt (bpow radix2 (53 + k))).
  { apply generic_format_bpow. unfold FLT_exp. lia. }
  destruct (Rcase_abs (IZR m * bpow radix2 k)) as [L|G].
  + rewrite Rabs_left in H by assumption. rewrite <- (Ropp_involutive (_ * _)), H. now apply fmt_opp.
  + rewrite Rabs_right in H by assumption. now rewrite H.
- apply generic_format_FLT. exists (Float radix2 m k); simpl; auto; [lia].
Qed.

(** ** sums *)
Theorem TwoSum a b x bv av br ar y :
  fmt a -> fmt b ->
  x = rnd (a + b) -> bv = rnd (x - a) -> av = rnd (x - bv) -> br = rnd (b - bv) -> ar = rnd (a - av) -> y = rnd (ar + br) ->
  x + y = a + b.
Proof.
intros Fa Fb -> -> -> -> -> ->.
apply (TwoSum_correct (-1074) 53 (fun x => negb (Z.even x))); auto; try lia.
exact choice_sym.
Qed.

(* the form in which the subtractions of the correction terms are swapped is the same up to rnd_opp *)
Theorem FastTwoSum a b x bv y :
  fmt a -> fmt b -> Rabs b <= Rabs a ->
  x = rnd (a + b) -> bv = rnd (x - a) -> y = rnd (b - bv) -> x + y = a + b.
Proof.
intros Fa Fb H -> -> ->.
replace (b - rnd (rnd (a + b) - a)) with (b + rnd (a - rnd (a + b))).
2:{ rewrite <- (Ropp_minus_distr a (rnd (a+b))), rnd_opp. ring. }
apply (Fast2Sum_correct (-1074) 53 (fun x => negb (Z.even x))); auto; try lia.
exact choice_sym.
Qed.

(** ** products *)
Definition tiny (a b : R) := a * b = 0 \/ bpow radix2 (-969) <= Rabs (a * b).

Theorem DekkerProduct a b ca aa ah al cb ab bh bl hh lh hl ll x e1 e2 e3 y :
  fmt a -> fmt b -> tiny a b ->
  ca = rnd (a * 134217729) -> aa = rnd (ca - a) -> ah = rnd (ca - aa) -> al = rnd (a - ah) ->
  cb = rnd (b * 134217729) -> ab = rnd (cb - b) -> bh = rnd (cb - ab) -> bl = rnd (b - bh) ->
  hh = rnd (ah * bh) -> lh = rnd (al * bh) -> hl = rnd (ah * bl) -> ll = rnd (al * bl) ->
  x = rnd (a * b) -> e1 = rnd (x - hh) -> e2 = rnd (e1 - lh) -> e3 = rnd (e2 - hl) -> y = rnd (ll - e3) ->
  x + y = a * b.
Proof.
intros Fa Fb T Hca Haa Hah Hal Hcb Hab Hbh Hbl Hhh Hlh Hhl Hll Hx He1 He2 He3 Hy.
destruct (Dekker radix2 (-1074) 53 (fun x => negb (Z.even x)) ltac:(lia) ltac:(lia) b a Fb Fa (or_introl eq_refl)) as [D _].
change (round radix2 fexp (Znearest (fun x => negb (Z.even x)))) with rnd in D.
replace (bpow radix2 (53 - Z.div2 53) + 1) with 134217729 in D by (simpl; lra).
assert (Eah : rnd (rnd (a - rnd (a * 134217729)) + rnd (a * 134217729)) = ah).
{ rewrite Hah, Haa, Hca. f_equal.
  replace (a - rnd (a * 134217729)) with (- (rnd (a * 134217729) - a)) by ring. rewrite rnd_opp. ring. }
assert (Ebh : rnd (rnd (b - rnd (b * 134217729)) + rnd (b * 134217729)) = bh).
{ rewrite Hbh, Hab, Hcb. f_equal.
  replace (b - rnd (b * 134217729)) with (- (rnd (b * 134217729) - b)) by ring. rewrite rnd_opp. ring. }
rewrite Eah, Ebh in D. rewrite <- Hal, <- Hbl in D.
rewrite (Rmult_comm b a) in D.
rewrite <- Hx in D.
rewrite (Rmult_comm bh ah), (Rmult_comm bh al), (Rmult_comm bl ah), (Rmult_comm bl al) in D.
rewrite <- Hhh, <- Hlh, <- Hhl, <- Hll in D.
replace (- x + hh) with (- (x - hh)) in D by ring.
rewrite rnd_opp, <- He1 in D.
replace (- e1 + lh) with (- (e1 - lh)) in D by ring.
rewrite rnd_opp, <- He2 in D.
replace (- e2 + hl) with (- (e2 - hl)) in D by ring.
rewrite rnd_opp, <- He3 in D.
replace (- e3 + ll) with (ll - e3) in D by ring.
rewrite <- Hy in D.
symmetry. apply D.
destruct T as [T|T]; [now left | right; exact T].
Qed.

(** ** splitting into 26-bit halves, and the square *)
Lemma split_shape a ca aa ah al :
  fmt a -> bpow radix2 (-480) <= Rabs a ->
  ca = rnd (a * 134217729) -> aa = rnd (ca - a) -> ah = rnd (ca - aa) -> al = rnd (a - ah) ->
  exists e H T, (-532 <= e)%Z /\ (Z.abs H <= 2^26)%Z /\ (Z.abs T <= 2^26)%Z /\
    ah = IZR H * bpow radix2 (e + 27) /\ al = IZR T * bpow radix2 e /\ a = ah + al /\
    bpow radix2 (e + 52) <= Rabs a < bpow radix2 (e + 53).
Proof.
intros Fa Ba Hca Haa Hah Hal.
assert (Eah : rnd (rnd (a - rnd (a * 134217729)) + rnd (a * 134217729)) = ah).
{ rewrite Hah, Haa, Hca. f_equal.
  replace (a - rnd (a * 134217729)) with (- (rnd (a * 134217729) - a)) by ring. rewrite rnd_opp. ring. }
assert (a0 : a <> 0). { intros E. rewrite E, Rabs_R0 in Ba. pose proof (bpow_gt_0 radix2 (-480)). lra. }
pose proof (@Veltkamp_Even radix2 (-1074) 53 (fun z => negb (Z.even z)) 27 ltac:(lia) ltac:(lia) ltac:(lia) ltac:(lia) a Fa eq_refl) as V.
destruct (@Veltkamp_tail radix2 (-1074) 53 (fun z => negb (Z.even z)) 27 ltac:(lia) ltac:(lia) ltac:(lia) ltac:(lia) a Fa) as [T _].
change (round radix2 fexp (Znearest (fun x => negb (Z.even x)))) with rnd in V, T.
replace (bpow radix2 27 + 1) with 134217729 in V, T by (simpl; lra).
rewrite Eah in V, T. rewrite <- Hal in T.
set (e := (mag radix2 a - 53)%Z).
assert (Bm : bpow radix2 (e + 52) <= Rabs a < bpow radix2 (e + 53)).
{ unfold e. destruct (mag radix2 a) as [m Hm]. simpl. pose proof (Hm a0) as Hm'.
  replace (m - 53 + 52)%Z with (m - 1)%Z by lia. replace (m - 53 + 53)%Z with m by lia. exact Hm'. }
assert (He : (-532 <= e)%Z).
{ assert (-480 < e + 53)%Z; [|lia]. apply (lt_bpow radix2). lra. }
assert (Hc53 : cexp radix2 fexp a = e). { unfold cexp, FLT_exp. fold e. apply Z.max_l. lia. }
assert (Hc26 : cexp radix2 (FLT_exp (-1074) (53-27)) a = (e + 27)%Z). { unfold cexp, FLT_exp. replace (mag radix2 a - (53 - 27))%Z with (e + 27)%Z by (unfold e; ring). apply Z.max_l. lia. }
set (H := ZnearestE (scaled_mantissa radix2 (FLT_exp (-1074) (53-27)) a)).
set (M := Ztrunc (scaled_mantissa radix2 fexp a)).
assert (EM : a = IZR M * bpow radix2 e). { rewrite Fa at 1. unfold F2R; simpl. now rewrite Hc53. }
assert (EH : ah = IZR H * bpow radix2 (e + 27)). { rewrite V. change (IZR H * bpow radix2 (cexp radix2 (FLT_exp (-1074) (53-27)) a) = IZR H * bpow radix2 (e + 27)). now rewrite Hc26. }
exists e, H, (M - H * 2^27)%Z.
assert (EA : al = IZR (M - H * 2^27) * bpow radix2 e).
{ rewrite minus_IZR, mult_IZR. replace al with (a - ah) by (rewrite T; ring).
  rewrite EM at 1. rewrite EH. rewrite (bpow_plus radix2 e 27). change (IZR (2^27)) with (bpow radix2 27). ring. }
assert (Pe : 0 < bpow radix2 e) by apply bpow_gt_0.
repeat split; try assumption; try tauto.
- (* |H| <= 2^26 *)
  apply le_IZR. rewrite abs_IZR.
  assert (R1 : Rabs (scaled_mantissa radix2 (FLT_exp (-1074) (53-27)) a) <= IZR (2^26)).
  { unfold scaled_mantissa. rewrite Hc26, Rabs_mult, (Rabs_pos_eq (bpow _ _)) by apply bpow_ge_0.
    apply Rmult_le_reg_r with (bpow radix2 (e + 27)); [apply bpow_gt_0|].
    rewrite Rmult_assoc, <- bpow_plus. replace (- (e + 27) + (e + 27))%Z with 0%Z by lia. simpl (bpow radix2 0).
    rewrite Rmult_1_r. change (IZR (2^26)) with (bpow radix2 26). rewrite <- bpow_plus.
    replace (26 + (e + 27))%Z with (e + 53)%Z by lia. lra. }
  unfold H. apply Rabs_le_inv in R1. apply Rabs_le. rewrite <- opp_IZR. split; apply IZR_le.
  + eapply Z.le_trans; [| apply (Zrnd_le ZnearestE (IZR (- 2^26)))].
    * rewrite Zrnd_IZR by apply valid_rnd_N. lia.
    * rewrite opp_IZR. lra.
  + eapply Z.le_trans; [apply (Zrnd_le ZnearestE _ (IZR (2^26))); lra|].
    rewrite Zrnd_IZR by apply valid_rnd_N. apply Z.le_refl.
- apply le_IZR. rewrite abs_IZR.
  assert (Hn : Rabs (ah - a) <= / 2 * bpow radix2 (e + 27)).
  { rewrite V. pose proof (error_le_half_ulp radix2 (FLT_exp (-1074) (53-27)) (fun x => negb (Z.even x)) a) as E.
    rewrite ulp_neq_0 in E by assumption. rewrite Hc26 in E. exact E. }
  rewrite Rabs_minus_sym in Hn. replace (a - ah) with al in Hn by (rewrite T; ring).
  rewrite EA, Rabs_mult, (Rabs_pos_eq (bpow _ _)) in Hn by lra.
  rewrite (bpow_plus radix2 e 27) in Hn. change (bpow radix2 27) with (IZR (2^27)) in Hn.
  apply Rmult_le_reg_r with (bpow radix2 e); [exact Pe|].
  replace (IZR (2^26)) with (/2 * IZR (2^27)) by (simpl; lra). lra.
Qed.

Definition normal1 (a : R) := a = 0 \/ bpow radix2 (-480) <= Rabs a.

Lemma rnd_err x e : Rabs x <= bpow radix2 (e + 53) -> (-1074 <= e)%Z -> Rabs (rnd x - x) <= / 2 * bpow radix2 e.
Proof.
intros H He.
destruct (Req_dec x 0) as [Z|N].
{ rewrite Z, rnd_0, Rminus_0_r, Rabs_R0. pose proof (bpow_ge_0 radix2 e). lra. }
destruct (Rle_lt_or_eq_dec _ _ H) as [L|E].
- unfold rnd. eapply Rle_trans; [apply error_le_half_ulp, fexp_valid|].
  apply Rmult_le_compat_l; [lra|]. rewrite ulp_neq_0 by assumption. apply bpow_le.
  unfold cexp, FLT_exp. pose proof (mag_le_bpow radix2 x (e + 53) N L). lia.
- rewrite (rnd_id x).
  + rewrite Rminus_eq_0, Rabs_R0. pose proof (bpow_ge_0 radix2 e). lra.
  + assert (F : fmt (bpow radix2 (e + 53))) by (apply generic_format_bpow; unfold FLT_exp; lia).
    unfold Rabs in E. destruct (Rcase_abs x); [rewrite <- (Ropp_involutive x), E; now apply fmt_opp | now rewrite E].
Qed.

Lemma rnd_mult x k m : (-1074 <= k)%Z -> x = IZR m * bpow radix2 k -> exists n, rnd x = IZR n * bpow radix2 k.
Proof.
intros Hk E. unfold rnd, round, F2R; simpl.
destruct (Z_le_gt_dec k (cexp radix2 fexp x)) as [L|G].
- exists (ZnearestE (scaled_mantissa radix2 fexp x) * 2 ^ (cexp radix2 fexp x - k))%Z.
  rewrite mult_IZR. change 2%Z with (radix_val radix2). rewrite IZR_Zpower by lia. rewrite Rmult_assoc, <- bpow_plus.
  do 2 f_equal. lia.
- exists m. assert (fmt x).
  { rewrite E. apply generic_format_F2R' with (Float radix2 m k); [reflexivity|]. simpl. intros _. rewrite <- E. lia. }
  change (IZR (ZnearestE (scaled_mantissa radix2 fexp x)) * bpow radix2 (cexp radix2 fexp x)) with (rnd x).
  now rewrite rnd_id.
Qed.

Lemma exact m k v : (-1074 <= k)%Z -> v = IZR m * bpow radix2 k -> Rabs v <= bpow radix2 (53 + k) -> rnd v = v.
Proof.
intros Hk E B. apply rnd_id. rewrite E. apply fmt_dyadic; [|exact Hk].
apply le_IZR. rewrite abs_IZR. rewrite E, Rabs_mult, (Rabs_pos_eq (bpow _ _)), bpow_plus in B by apply bpow_ge_0.
change (IZR (2^53)) with (bpow radix2 53).
apply Rmult_le_reg_r with (bpow radix2 k); [apply bpow_gt_0 | exact B].
Qed.

Lemma fmt_multiple x k : fmt x -> bpow radix2 (k + 52) <= Rabs x -> exists n, x = IZR n * bpow radix2 k.
Proof.
intros F B.
assert (N : x <> 0). { intros E. rewrite E, Rabs_R0 in B. pose proof (bpow_gt_0 radix2 (k + 52)). lra. }
assert (L : (k <= cexp radix2 fexp x)%Z).
{ unfold cexp, FLT_exp. pose proof (mag_ge_bpow radix2 x (k + 53)) as M.
  replace (k + 53 - 1)%Z with (k + 52)%Z in M by ring. specialize (M B). lia. }
exists (Ztrunc (scaled_mantissa radix2 fexp x) * 2 ^ (cexp radix2 fexp x - k))%Z.
rewrite mult_IZR. change 2%Z with (radix_val radix2). rewrite IZR_Zpower by lia. rewrite Rmult_assoc, <- bpow_plus.
replace (cexp radix2 fexp x - k + k)%Z with (cexp radix2 fexp x) by ring. exact F.
Qed.

Theorem SquareProduct a ca aa ah al hh ll x e1 s sl e3 y :
  fmt a -> normal1 a ->
  ca = rnd (a * 134217729) -> aa = rnd (ca - a) -> ah = rnd (ca - aa) -> al = rnd (a - ah) ->
  hh = rnd (ah * ah) -> ll = rnd (al * al) -> x = rnd (a * a) -> e1 = rnd (x - hh) ->
  s = rnd (ah + ah) -> sl = rnd (s * al) -> e3 = rnd (e1 - sl) -> y = rnd (ll - e3) ->
  x + y = a * a.
Proof.
intros Fa Na Hca Haa Hah Hal Hhh Hll Hx He1 Hs Hsl He3 Hy.
destruct Na as [Z|Ba].
{ assert (x = 0) by (rewrite Hx, Z, Rmult_0_l; apply rnd_0).
  assert (ah = 0). { rewrite Hah, Haa, Hca, Z, Rmult_0_l, !rnd_0, Rminus_0_r, rnd_0, Rminus_0_r. apply rnd_0. }
  assert (al = 0). { rewrite Hal, Z, H0, Rminus_0_r. apply rnd_0. }
  subst hh ll e1 s sl e3 y. rewrite H, H0, H1, Z.
  repeat (rewrite ?Rmult_0_l, ?Rmult_0_r, ?Rminus_0_r, ?Rplus_0_l, ?Rplus_0_r, ?rnd_0). reflexivity. }
destruct (split_shape a ca aa ah al Fa Ba Hca Haa Hah Hal) as (e & H & T & He & BH & BT & EH & ET & EA & Bl & Bu).
set (P := bpow radix2 (2 * e)).
assert (PP : 0 < P) by apply bpow_gt_0.
assert (Pk : forall k, bpow radix2 (2 * e + k) = bpow radix2 k * P) by (intros k; rewrite bpow_plus; unfold P; ring).
assert (Pe : bpow radix2 e * bpow radix2 e = P) by (unfold P; rewrite <- bpow_plus; f_equal; ring).
set (h := IZR H). set (t := IZR T).
assert (Bh : Rabs h <= 67108864) by (unfold h; rewrite <- abs_IZR; apply (IZR_le _ 67108864); exact BH).
assert (Bt : Rabs t <= 67108864) by (unfold t; rewrite <- abs_IZR; apply (IZR_le _ 67108864); exact BT).
apply Rabs_le_inv in Bh. apply Rabs_le_inv in Bt.
assert (E2 : ah = h * 134217728 * bpow radix2 e) by (rewrite EH, bpow_plus; unfold h; change (bpow radix2 27) with 134217728; ring).
assert (EAA : a * a = (h * 134217728 + t) * (h * 134217728 + t) * P).
{ rewrite <- Pe. rewrite EA, E2, ET. unfold t. ring. }
assert (EHH : ah * ah = h * h * 18014398509481984 * P) by (rewrite <- Pe, E2; ring).
assert (ELL : al * al = t * t * P) by (rewrite <- Pe, ET; unfold t; ring).
assert (Xe : Rabs (x - a * a) <= 4503599627370496 * P).
{ rewrite Hx. eapply Rle_trans; [apply (rnd_err (a * a) (2 * e + 53))|].
  - rewrite Rabs_mult. replace (2 * e + 53 + 53)%Z with ((e + 53) + (e + 53))%Z by ring. rewrite bpow_plus.
    apply Rmult_le_compat; try apply Rabs_pos; lra.
  - lia.
  - rewrite Pk. change (bpow radix2 53) with 9007199254740992. lra. }
assert (Xl : bpow radix2 (2 * e + 52 + 52) <= Rabs x).
{ rewrite Hx. replace (bpow radix2 (2 * e + 52 + 52)) with (rnd (bpow radix2 (2 * e + 52 + 52))).
  2:{ apply rnd_id, generic_format_bpow. unfold FLT_exp. lia. }
  assert (0 <= a * a) by apply Rle_0_sqr.
  rewrite Rabs_pos_eq by (rewrite <- rnd_0; now apply rnd_le).
  apply rnd_le. replace (a * a) with (Rabs a * Rabs a) by (rewrite <- Rabs_mult; now apply Rabs_pos_eq).
  replace (2 * e + 52 + 52)%Z with ((e + 52) + (e + 52))%Z by ring. rewrite bpow_plus.
  apply Rmult_le_compat; try apply bpow_ge_0; assumption. }
destruct (fmt_multiple x (2 * e + 52)) as [X EX]; [rewrite Hx; apply rnd_fmt | exact Xl |].
apply Rabs_le_inv in Xe.
assert (Bht : - 4503599627370496 <= h * t <= 4503599627370496) by (split; nra).
assert (Btt : 0 <= t * t <= 4503599627370496) by (split; nra).
assert (Bhh : 0 <= h * h <= 4503599627370496) by (split; nra).
assert (BttP : 0 <= t * t * P <= 4503599627370496 * P) by (split; [apply Rmult_le_pos; lra | apply Rmult_le_compat_r; lra]).
assert (BhhP : 0 <= h * h * P <= 4503599627370496 * P) by (split; [apply Rmult_le_pos; lra | apply Rmult_le_compat_r; lra]).
assert (BhtP : -4503599627370496 * P <= h * t * P <= 4503599627370496 * P) by (split; apply Rmult_le_compat_r; lra).
assert (Ehh : hh = ah * ah).
{ rewrite Hhh. apply (exact (H * H) (2 * e + 54)); [lia | rewrite EHH, Pk, mult_IZR; fold h; change (bpow radix2 54) with 18014398509481984; ring |].
  replace (53 + (2 * e + 54))%Z with (2 * e + 107)%Z by ring. rewrite Pk. rewrite EHH. apply Rabs_le.
  change (bpow radix2 107) with 162259276829213363391578010288128. split; lra. }
assert (Ell : ll = al * al).
{ rewrite Hll. apply (exact (T * T) (2 * e)); [lia | rewrite ELL, mult_IZR; fold t P; ring |].
  replace (53 + (2 * e))%Z with (2 * e + 53)%Z by ring. rewrite Pk. rewrite ELL. apply Rabs_le.
  change (bpow radix2 53) with 9007199254740992. split; lra. }
assert (Ee1 : e1 = x - ah * ah).
{ rewrite He1, Ehh. apply (exact (X - 4 * (H * H)) (2 * e + 52)); [lia | |].
  - rewrite minus_IZR, mult_IZR, mult_IZR, EX, EHH, Pk. fold h. change (bpow radix2 52) with 4503599627370496. ring.
  - replace (53 + (2 * e + 52))%Z with (2 * e + 105)%Z by ring. rewrite Pk. change (bpow radix2 105) with 40564819207303340847894502572032.
    assert (x - ah * ah = (x - a * a) + (268435456 * (h * t) + t * t) * P) by (rewrite EAA, EHH; ring).
    rewrite H0. apply Rabs_le.
    split; lra. }
assert (Es : s = ah + ah).
{ rewrite Hs. apply (exact H (e + 28)); [lia | rewrite E2, bpow_plus; unfold h; change (bpow radix2 28) with 268435456; ring |].
  rewrite E2. replace (53 + (e + 28))%Z with (81 + e)%Z by ring. rewrite bpow_plus. pose proof (bpow_gt_0 radix2 e).
  change (bpow radix2 81) with 2417851639229258349412352. apply Rabs_le. split; nra. }
assert (ESL : s * al = 268435456 * (h * t) * P) by (rewrite Es, E2, ET, <- Pe; unfold t; ring).
assert (Esl : sl = s * al).
{ rewrite Hsl. apply (exact (2 * (H * T)) (2 * e + 27)); [lia | rewrite ESL, Pk, !mult_IZR; fold h t; change (bpow radix2 27) with 134217728; ring |].
  rewrite ESL. replace (53 + (2 * e + 27))%Z with (2 * e + 80)%Z by ring. rewrite Pk. change (bpow radix2 80) with 1208925819614629174706176. apply Rabs_le.
  split; lra. }
assert (Ee3 : e3 = x - a * a + t * t * P).
{ rewrite He3, Ee1, Esl. replace (x - ah * ah - s * al) with (x - a * a + t * t * P) by (rewrite EAA, EHH, ESL; ring).
  apply (exact (X * 2^25 - H * H * 2^27 - 2 * (H * T)) (2 * e + 27)); [lia | |].
  - replace (x - a * a + t * t * P) with (x - ah * ah - s * al) by (rewrite EAA, EHH, ESL; ring).
    rewrite EX, EHH, ESL. rewrite !Pk, !minus_IZR, !mult_IZR. fold h t.
    change (IZR (2^25)) with 33554432. change (IZR (2^27)) with 134217728.
    change (bpow radix2 52) with 4503599627370496. change (bpow radix2 27) with 134217728. ring.
  - replace (53 + (2 * e + 27))%Z with (2 * e + 80)%Z by ring. rewrite Pk. change (bpow radix2 80) with 1208925819614629174706176.
    apply Rabs_le. split; lra. }
rewrite Hy, Ell, Ee3, ELL.
replace (t * t * P - (x - a * a + t * t * P)) with (a * a - x) by ring.
rewrite (exact ((H * 2^27 + T) * (H * 2^27 + T) - X * 2^52) (2 * e)); [ring | lia | |].
- rewrite EAA, EX, Pk, minus_IZR, !mult_IZR, plus_IZR, mult_IZR. fold h t P. change (IZR (2^27)) with 134217728. change (IZR (2^52)) with 4503599627370496.
  change (bpow radix2 52) with 4503599627370496. ring.
- replace (53 + 2 * e)%Z with (2 * e + 53)%Z by ring. rewrite Pk. change (bpow radix2 53) with 9007199254740992. rewrite Rabs_minus_sym. apply Rabs_le. split; lra.
Qed.

Lemma normal1_tiny a : normal1 a -> tiny a a.
Proof.
intros [Z|B]; [left; rewrite Z; ring | right].
rewrite Rabs_mult. eapply Rle_trans; [| apply Rmult_le_compat; [apply bpow_ge_0 | apply bpow_ge_0 | exact B | exact B]].
rewrite <- bpow_plus. apply bpow_le. lia.
Qed.

(** the two components do not overlap: the second is at most half a unit in the last place of the first *)
Theorem tail_small e x y : x = rnd e -> x + y = e -> Rabs y <= / 2 * ulp radix2 fexp x.
Proof.
intros Hx E. replace y with (- (rnd e - e)) by (rewrite <- Hx; lra). rewrite Rabs_Ropp, Hx.
apply error_le_half_ulp_round; [apply fexp_valid | apply FLT_exp_monotone].
Qed.

(** the rounded sum of two doubles vanishes only if the exact sum does: zero tests read signs *)
Theorem rnd_sum_sign a b : fmt a -> fmt b -> (rnd (a + b) = 0 -> a + b = 0).
Proof. apply (round_plus_eq_0 radix2 fexp ZnearestE). Qed.
