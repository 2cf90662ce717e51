(* The fact behind `axiom_ceil` of contracts/tiles.py: for 32-bit a and b > 0, the IEEE 754 binary64 quotient a/b
   (round to nearest, ties to even), rounded up to an integer, is the mathematical ceiling of a/b. *)
From Coq Require Import ZArith Reals Lia Lra.
From Flocq Require Import Core.
Open Scope R_scope.

Definition b64 := FLT_exp (-1074) 53.
Definition rnd := round radix2 b64 ZnearestE.

Lemma repr : forall m e : Z, (Z.abs m < 2 ^ 53)%Z -> (-1074 <= e)%Z -> generic_format radix2 b64 (F2R (Float radix2 m e)).
Proof.
  intros m e Hm He. apply generic_format_FLT. exists (Float radix2 m e); try assumption. reflexivity.
Qed.

Lemma repr_int : forall m : Z, (Z.abs m < 2 ^ 53)%Z -> rnd (IZR m) = IZR m.
Proof.
  intros m Hm. apply round_generic; [apply valid_rnd_N|].
  replace (IZR m) with (F2R (Float radix2 m 0)).
  - apply repr; [assumption | lia].
  - unfold F2R; simpl; ring.
Qed.

Theorem ceil_div : forall a b : Z, (0 <= a < 2 ^ 32)%Z -> (0 < b < 2 ^ 32)%Z ->
  Zceil (rnd (IZR a / IZR b)) = (- ((- a) / b))%Z.
Proof.
  intros a b Ha Hb.
  set (n := (- ((- a) / b))%Z).
  assert (Hdm : (- a = b * ((- a) / b) + (- a) mod b)%Z) by (apply Z_div_mod_eq_full).
  assert (Hm : (0 <= (- a) mod b < b)%Z) by (apply Z.mod_pos_bound; lia).
  assert (Hn : (b * (n - 1) < a <= b * n)%Z) by (unfold n; nia).
  assert (Hn0 : (0 <= n)%Z) by nia.
  assert (Hn1 : (n <= a)%Z) by nia.
  assert (Hbr : 0 < IZR b) by (apply IZR_lt; lia).
  (* not above *)
  assert (Hup : rnd (IZR a / IZR b) <= IZR n).
  { rewrite <- (repr_int n) by (rewrite Z.abs_eq; lia).
    apply round_le; [apply FLT_exp_valid; reflexivity | apply valid_rnd_N |].
    apply Rmult_le_reg_r with (IZR b); [assumption|].
    unfold Rdiv; rewrite Rmult_assoc, Rinv_l, Rmult_1_r by lra.
    rewrite <- mult_IZR. apply IZR_le. lia. }
  (* not below *)
  assert (Hlo : IZR (n - 1) < rnd (IZR a / IZR b)).
  { destruct (Z.eq_dec n 0) as [E | E].
    - assert (a = 0)%Z by nia. subst a. rewrite E.
      replace (IZR 0 / IZR b) with (IZR 0) by (unfold Rdiv; ring).
      rewrite (repr_int 0) by (simpl; lia). apply IZR_lt; lia.
    - set (m := Z.log2_up b).
      assert (Hm0 : (0 <= m)%Z) by (apply Z.log2_up_nonneg).
      assert (Hm2 : (b <= 2 ^ m)%Z).
      { destruct (Z.eq_dec b 1) as [E1 | E1]; [rewrite E1; lia|]. unfold m. apply Z.log2_up_spec; lia. }
      assert (Hm3 : (2 ^ m < 2 * b)%Z).
      { destruct (Z.eq_dec b 1) as [E1 | E1].
        - unfold m; rewrite E1; simpl; lia.
        - destruct (Z.log2_up_spec b) as [L _]; [lia|]. fold m in L.
          assert (0 < m)%Z by (unfold m; apply Z.log2_up_pos; lia).
          replace m with (Z.succ (Z.pred m)) by lia. rewrite Z.pow_succ_r by lia. lia. }
      assert (Hm32 : (m <= 32)%Z).
      { unfold m. replace 32%Z with (Z.log2_up (2 ^ 32)) by reflexivity. apply Z.log2_up_le_mono. lia. }
      set (y := F2R (Float radix2 ((n - 1) * 2 ^ m + 1) (- m))).
      assert (Hp : 0 < IZR (2 ^ m)) by (apply IZR_lt; lia).
      assert (Hy : y = IZR (n - 1) + / IZR (2 ^ m)).
      { unfold y, F2R; simpl Fnum; simpl Fexp. rewrite bpow_opp.
        replace (bpow radix2 m) with (IZR (2 ^ m)).
        - rewrite plus_IZR, mult_IZR. field. lra.
        - symmetry. rewrite <- IZR_Zpower by assumption. reflexivity. }
      apply Rlt_le_trans with y.
      + rewrite Hy. assert (0 < / IZR (2 ^ m)) by (apply Rinv_0_lt_compat; assumption). lra.
      + replace y with (rnd y).
        * apply round_le; [apply FLT_exp_valid; reflexivity | apply valid_rnd_N |].
          rewrite Hy.
          assert (Hq : IZR (n - 1) + / IZR b <= IZR a / IZR b).
          { apply Rmult_le_reg_r with (IZR b); [assumption|].
            unfold Rdiv; rewrite Rmult_plus_distr_r, Rmult_assoc, Rinv_l, Rmult_1_r by lra.
            rewrite <- mult_IZR, <- plus_IZR. apply IZR_le. lia. }
          assert (/ IZR (2 ^ m) <= / IZR b) by (apply Rinv_le; [assumption | apply IZR_le; lia]).
          lra.
        * apply round_generic; [apply valid_rnd_N|]. apply repr; [|lia].
          assert (0 <= (n - 1) * 2 ^ m)%Z by nia.
          rewrite Z.abs_eq by lia. nia. }
  assert (HC : (Zceil (rnd (IZR a / IZR b)) <= n)%Z) by (rewrite <- (Zceil_IZR n); apply Zceil_le; assumption).
  assert (HD : (n - 1 < Zceil (rnd (IZR a / IZR b)))%Z).
  { apply lt_IZR. apply Rlt_le_trans with (1 := Hlo). apply Zceil_ub. }
  lia.
Qed.
Print Assumptions ceil_div.
