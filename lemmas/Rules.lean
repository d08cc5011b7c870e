import Mathlib.Analysis.SpecialFunctions.Pow.Real
import Mathlib.Analysis.SpecialFunctions.Integrals.Basic
import Mathlib.Analysis.SpecialFunctions.Log.Base

/-! The rewriting rules of the normal form of terms (`pyvc/terms.py`): each is an identity of
real numbers under the condition that the rule checks (`is_pos`, `_mono_pos`, ...). -/

open Real MeasureTheory intervalIntegral

/-! power: the base is positive -/
theorem power_is_exp {x y : ℝ} (hx : 0 < x) : x ^ y = exp (y * log x) := by
  rw [rpow_def_of_pos hx, mul_comm]

theorem power_product {c m p q : ℝ} (hc : 0 < c) (hm : 0 < m) (hp : 0 ≤ p) :
    (c * m * p) ^ q = c ^ q * m ^ q * p ^ q := by
  rw [mul_rpow (by positivity) hp, mul_rpow hc.le hm.le]

theorem power_power {a k q : ℝ} (ha : 0 ≤ a) : (a ^ k) ^ q = a ^ (k * q) := (rpow_mul ha k q).symm

theorem power_exp {e q : ℝ} : exp e ^ q = exp (e * q) := (exp_mul e q).symm

theorem power_add {a k q : ℝ} (ha : 0 < a) : a ^ k * a ^ q = a ^ (k + q) := (rpow_add ha k q).symm

theorem power_quotient {a b q : ℝ} (ha : 0 ≤ a) (hb : 0 ≤ b) : (a / b) ^ q = a ^ q / b ^ q :=
  div_rpow ha hb q

theorem one_power (y : ℝ) : (1 : ℝ) ^ y = 1 := one_rpow y

/-! log: of a product of positive factors -/
theorem log_product {c m p : ℝ} (hc : 0 < c) (hm : 0 < m) (hp : 0 < p) :
    log (c * m * p) = log c + log m + log p := by
  rw [log_mul (by positivity) hp.ne', log_mul hc.ne' hm.ne']

theorem log_power {a q : ℝ} (ha : 0 < a) : log (a ^ q) = q * log a := log_rpow ha q

theorem log_exp' (e : ℝ) : log (exp e) = e := log_exp e

/-! exp: of a multiple of a logarithm -/
theorem exp_log_multiple {x c : ℝ} (hx : 0 < x) : exp (c * log x) = x ^ c := by
  rw [rpow_def_of_pos hx, mul_comm]

theorem exp_sum (a b : ℝ) : exp (a + b) = exp a * exp b := exp_add a b

theorem sqrt_is_power (x : ℝ) : √x = x ^ (1 / 2 : ℝ) := sqrt_eq_rpow x

theorem log10_is (x : ℝ) : Real.logb 10 x = log x * (log 10)⁻¹ := by
  rw [Real.logb, div_eq_mul_inv]

theorem abs_is (x : ℝ) : |x| = if x < 0 then -x else x := by
  split_ifs with h
  · exact abs_of_neg h
  · exact abs_of_nonneg (not_lt.mp h)

/-! Binders: a factor that does not depend on the bound variable moves out, a sum of sums is split,
a constant is summed as often as there are terms -/
theorem sum_factor (n : ℕ) (k : ℝ) (f : ℕ → ℝ) :
    ∑ i ∈ Finset.range n, k * f i = k * ∑ i ∈ Finset.range n, f i := (Finset.mul_sum _ _ _).symm

theorem sum_split (n : ℕ) (f g : ℕ → ℝ) :
    ∑ i ∈ Finset.range n, (f i + g i) = ∑ i ∈ Finset.range n, f i + ∑ i ∈ Finset.range n, g i :=
  Finset.sum_add_distrib

theorem sum_constant (n : ℕ) (k : ℝ) : ∑ _i ∈ Finset.range n, k = n * k := by simp

theorem integral_factor (a b k : ℝ) (f : ℝ → ℝ) :
    ∫ x in a..b, k * f x = k * ∫ x in a..b, f x := intervalIntegral.integral_const_mul k f

theorem integral_congruence (a b : ℝ) (f g : ℝ → ℝ) (h : ∀ x, f x = g x) :
    ∫ x in a..b, f x = ∫ x in a..b, g x := by
  congr 1; funext x; exact h x

/-- The log-log integral scales with its ordinates and with its abscissae (one interval; the
closed form of contracts/P03.py): the ordinates enter through their ratio and a factor, and so do
the abscissae. -/
theorem tll_factor (k x0 x1 y0 y1 b : ℝ) (hk : 0 < k) :
    (k * y1) / (k * y0) = y1 / y0 ∧ (k * x1) / (k * x0) = x1 / x0 ∧
      (k * y0) * (x1 * (x1 / x0) ^ b - x0) / (b + 1) = k * (y0 * (x1 * (x1 / x0) ^ b - x0) / (b + 1)) ∧
      y0 * (k * x1 * (x1 / x0) ^ b - k * x0) / (b + 1) = k * (y0 * (x1 * (x1 / x0) ^ b - x0) / (b + 1)) := by
  refine ⟨mul_div_mul_left _ _ hk.ne', mul_div_mul_left _ _ hk.ne', by ring, by ring⟩
