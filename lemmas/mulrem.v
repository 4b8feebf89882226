(* Lemma used by harness/rangefold.cpp (obligations of R13): the remainder that rounds towards
   zero, on 32-bit values read as signed integers.  If x * y fits 32 bits then so does
   (x rem m) * y, and both have the same remainder. *)
Require Import ZArith Lia.
Open Scope Z_scope.
Definition fits (z : Z) : Prop := -2147483648 <= z <= 2147483647.


Lemma abs_rem : forall x m, m <> 0 -> Z.abs (Z.rem x m) <= Z.abs x.
Proof.
  intros x m H. rewrite <- Z.rem_abs by assumption.
  rewrite Z.rem_mod_nonneg by lia. apply Z.mod_le; lia.
Qed.

Theorem product_fits : forall x y m, m <> 0 -> fits (x * y) ->
  fits (Z.rem x m * y).
Proof.
  intros x y m H F.
  assert (S : 0 <= Z.rem x m * x) by (apply Z.rem_sign_mul; assumption).
  pose proof (abs_rem x m H) as A.
  unfold fits in *. generalize dependent (Z.rem x m). intros r S A.
  destruct (Z.le_gt_cases 0 x); destruct (Z.le_gt_cases 0 y); nia.
Qed.

Theorem remainder_of_product : forall x y m, m <> 0 ->
  Z.rem (Z.rem x m * y) m = Z.rem (x * y) m.
Proof. intros. apply Z.mul_rem_idemp_l. assumption. Qed.

Print Assumptions product_fits.
Print Assumptions remainder_of_product.
