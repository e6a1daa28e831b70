/- Lemma schemas instantiated by /verif/vf/prove.py, nf.py and terms.py (diff).
   `lean Lemmas.lean` must succeed without `sorry`. -/
import Mathlib

open Real

namespace VF

noncomputable def sig (x : ℝ) : ℝ := 1 / (1 + exp (-x))

theorem sig_den_pos (x : ℝ) : 0 < 1 + exp (-x) := by positivity

theorem sig_pos (x : ℝ) : 0 < sig x := by unfold sig; positivity

theorem sig_lt_one (x : ℝ) : sig x < 1 := by
  unfold sig
  rw [div_lt_one (sig_den_pos x)]
  linarith [exp_pos (-x)]

theorem sig_strictMono : StrictMono sig := by
  intro a b h
  unfold sig
  apply one_div_lt_one_div_of_lt (sig_den_pos b)
  have : exp (-b) < exp (-a) := exp_lt_exp.mpr (by linarith)
  linarith

theorem sig_inj (a b : ℝ) : sig a = sig b ↔ a = b := sig_strictMono.injective.eq_iff

theorem sig_zero : sig 0 = 1 / 2 := by unfold sig; norm_num

theorem sig_half_pos (x : ℝ) : 0 < x ↔ 1 / 2 < sig x := by
  rw [← sig_zero]; exact sig_strictMono.lt_iff_lt.symm

theorem sig_half_neg (x : ℝ) : x < 0 ↔ sig x < 1 / 2 := by
  rw [← sig_zero]; exact sig_strictMono.lt_iff_lt.symm

theorem sig_exp (x : ℝ) : sig x = exp x / (1 + exp x) := by
  unfold sig
  rw [exp_neg]
  have := exp_pos x
  field_simp
  ring

theorem sig_neg (x : ℝ) : sig (-x) = 1 - sig x := by
  rw [sig_exp, sig_exp, exp_neg]
  have := exp_pos x
  field_simp
  ring

theorem exp_pos' (x : ℝ) : 0 < exp x := exp_pos x
theorem exp_ge_one_add (x : ℝ) : 1 + x ≤ exp x := by linarith [add_one_le_exp x]
theorem exp_strictMono' (a b : ℝ) : a < b ↔ exp a < exp b := exp_lt_exp.symm
theorem exp_inj (a b : ℝ) : a = b ↔ exp a = exp b := exp_injective.eq_iff.symm
theorem exp_one_lt (x : ℝ) : 0 < x ↔ 1 < exp x := one_lt_exp_iff.symm
theorem exp_lt_one_iff' (x : ℝ) : x < 0 ↔ exp x < 1 := exp_lt_one_iff.symm
theorem exp_add' (a b : ℝ) : exp (a + b) = exp a * exp b := exp_add a b
theorem exp_neg_mul (a : ℝ) : exp a * exp (-a) = 1 := by rw [← exp_add]; simp
theorem exp_log' (a : ℝ) (h : 0 < a) : exp (log a) = a := exp_log h
theorem log_exp' (a : ℝ) : log (exp a) = a := log_exp a
theorem log_inv' (a : ℝ) : log (a⁻¹) = - log a := log_inv a
theorem log_mul_exp (c a : ℝ) (h : 0 < c) : log (c * exp a) = log c + a := by
  rw [log_mul h.ne' (exp_pos a).ne', log_exp]

theorem log_le_sub_one' (a : ℝ) (h : 0 < a) : log a ≤ a - 1 := log_le_sub_one_of_pos h
theorem log_pos_iff' (a : ℝ) (h : 0 < a) : 1 < a ↔ 0 < log a := (log_pos_iff h.le).symm
theorem log_neg_iff' (a : ℝ) (h : 0 < a) : a < 1 ↔ log a < 0 := (log_neg_iff h).symm
theorem log_strictMono' (a b : ℝ) (ha : 0 < a) (hb : 0 < b) : a < b ↔ log a < log b :=
  (log_lt_log_iff ha hb).symm
theorem log_inj' (a b : ℝ) (ha : 0 < a) (hb : 0 < b) : a = b ↔ log a = log b :=
  (log_injOn_pos.eq_iff ha hb).symm
theorem lt_exp_iff_log_lt (a b : ℝ) (h : 0 < a) : a < exp b ↔ log a < b := (log_lt_iff_lt_exp h).symm
theorem eq_exp_iff_log_eq (a b : ℝ) (h : 0 < a) : a = exp b ↔ log a = b := by
  constructor
  · intro e; rw [e, log_exp]
  · intro e; rw [← e, exp_log h]

theorem sqrt_spec (a : ℝ) (h : 0 ≤ a) : 0 ≤ sqrt a ∧ sqrt a * sqrt a = a :=
  ⟨sqrt_nonneg a, mul_self_sqrt h⟩
theorem sqrt_pos' (a : ℝ) (h : 0 < a) : 0 < sqrt a := sqrt_pos.mpr h

theorem ln10_bounds : (2302584 : ℝ) / 1000000 < log 10 ∧ log 10 < (2302586 : ℝ) / 1000000 := by
  have h2l := log_two_gt_d9
  have h2u := log_two_lt_d9
  have hx : |(1 / 5 : ℝ)| < 1 := by rw [abs_of_pos] <;> norm_num
  have hb := abs_log_sub_add_sum_range_le hx 11
  have e10 : log 10 = 3 * log 2 - log (1 - 1 / 5) := by
    have h8 : (3 : ℝ) * log 2 = log 8 := by
      rw [show (8 : ℝ) = 2 ^ 3 by norm_num, log_pow]; norm_num
    rw [h8, ← log_div (by norm_num) (by norm_num)]
    norm_num
  rw [e10]
  simp only [Finset.sum_range_succ, Finset.sum_range_zero] at hb
  rw [abs_le] at hb
  rw [abs_of_pos (by norm_num : (0 : ℝ) < 1 / 5)] at hb
  norm_num at hb h2l h2u
  constructor <;> norm_num <;> linarith [hb.1, hb.2]

/- derivative rules used by terms.diff -/
theorem d_add (f g : ℝ → ℝ) (f' g' x : ℝ) (hf : HasDerivAt f f' x) (hg : HasDerivAt g g' x) :
    HasDerivAt (fun y => f y + g y) (f' + g') x := hf.add hg
theorem d_mul (f g : ℝ → ℝ) (f' g' x : ℝ) (hf : HasDerivAt f f' x) (hg : HasDerivAt g g' x) :
    HasDerivAt (fun y => f y * g y) (f' * g x + f x * g') x := hf.mul hg
theorem d_div (f g : ℝ → ℝ) (f' g' x : ℝ) (hf : HasDerivAt f f' x) (hg : HasDerivAt g g' x) (h : g x ≠ 0) :
    HasDerivAt (fun y => f y / g y) ((f' * g x - f x * g') / (g x * g x)) x := by
  have := hf.div hg h
  rwa [pow_two] at this
theorem d_exp (f : ℝ → ℝ) (f' x : ℝ) (hf : HasDerivAt f f' x) :
    HasDerivAt (fun y => exp (f y)) (exp (f x) * f') x := hf.exp
theorem d_log (f : ℝ → ℝ) (f' x : ℝ) (hf : HasDerivAt f f' x) (h : 0 < f x) :
    HasDerivAt (fun y => log (f y)) (f' / f x) x := hf.log h.ne'
theorem d_sqrt (f : ℝ → ℝ) (f' x : ℝ) (hf : HasDerivAt f f' x) (h : 0 < f x) :
    HasDerivAt (fun y => sqrt (f y)) (f' / (2 * sqrt (f x))) x := hf.sqrt h.ne'
theorem d_sig (f : ℝ → ℝ) (f' x : ℝ) (hf : HasDerivAt f f' x) :
    HasDerivAt (fun y => sig (f y)) (sig (f x) * (1 - sig (f x)) * f') x := by
  have hden : (1 + exp (-(f x))) ≠ 0 := (sig_den_pos (f x)).ne'
  have h1 : HasDerivAt (fun y => 1 + exp (-(f y))) (exp (-(f x)) * (-f')) x :=
    (hf.neg.exp).const_add 1
  have h2 := (hasDerivAt_const x (1 : ℝ)).div h1 hden
  have : (fun y => sig (f y)) = (fun y => 1 / (1 + exp (-(f y)))) := rfl
  rw [this]
  refine h2.congr_deriv ?_
  show (0 * (1 + exp (-(f x))) - 1 * (exp (-(f x)) * (-f'))) / (1 + exp (-(f x))) ^ 2 =
    (1 / (1 + exp (-(f x)))) * (1 - 1 / (1 + exp (-(f x)))) * f'
  field_simp
  ring

/- finite sums are linear; weights summing to one keep a common value -/
theorem sum_linear (n : ℕ) (a b : ℝ) (f g : ℕ → ℝ) :
    ∑ i ∈ Finset.range n, (a * f i + b * g i) =
      a * ∑ i ∈ Finset.range n, f i + b * ∑ i ∈ Finset.range n, g i := by
  rw [Finset.sum_add_distrib, Finset.mul_sum, Finset.mul_sum]
theorem sum_nonneg' (n : ℕ) (f : ℕ → ℝ) (h : ∀ i < n, 0 ≤ f i) : 0 ≤ ∑ i ∈ Finset.range n, f i :=
  Finset.sum_nonneg (fun i hi => h i (Finset.mem_range.mp hi))
theorem sum_le' (n : ℕ) (f g : ℕ → ℝ) (h : ∀ i < n, f i ≤ g i) :
    ∑ i ∈ Finset.range n, f i ≤ ∑ i ∈ Finset.range n, g i :=
  Finset.sum_le_sum (fun i hi => h i (Finset.mem_range.mp hi))

end VF
