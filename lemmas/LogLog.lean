import Mathlib.Analysis.SpecialFunctions.Integrals.Basic

/-! Lemma behind the contracts of `trapz_loglog` (P03): the closed form of one interval, as it is
written in `contracts/P03.py`, is the integral of the power law through the two points. -/

open MeasureTheory intervalIntegral Real

/-- The power law with index `b = log (y1/y0) / log (x1/x0)` passes through both points. -/
theorem through {x0 x1 y0 y1 : ℝ} (hx0 : 0 < x0) (hx1 : 0 < x1) (hne : x0 ≠ x1)
    (hy0 : 0 < y0) (hy1 : 0 < y1) :
    y0 * (x0 / x0) ^ (log (y1 / y0) / log (x1 / x0)) = y0 ∧
      y0 * (x1 / x0) ^ (log (y1 / y0) / log (x1 / x0)) = y1 := by
  have hr : 0 < x1 / x0 := div_pos hx1 hx0
  have hl : log (x1 / x0) ≠ 0 := by
    refine log_ne_zero_of_pos_of_ne_one hr ?_
    intro h
    rw [div_eq_one_iff_eq hx0.ne'] at h
    exact hne h.symm
  constructor
  · rw [div_self hx0.ne', one_rpow, mul_one]
  · rw [rpow_def_of_pos hr, mul_div_cancel₀ _ hl, exp_log (div_pos hy1 hy0)]
    field_simp

/-- Index other than -1. -/
theorem interval {x0 x1 y0 b : ℝ} (hx0 : 0 < x0) (hx1 : 0 < x1) (hb : b + 1 ≠ 0) :
    ∫ x in x0..x1, y0 * (x / x0) ^ b = y0 * (x1 * (x1 / x0) ^ b - x0) / (b + 1) := by
  have hb' : b ≠ -1 := fun h => hb (by rw [h]; ring)
  have h0 : (0 : ℝ) ∉ Set.uIcc x0 x1 := by
    rw [Set.mem_uIcc]; rintro (⟨h, _⟩ | ⟨h, _⟩) <;> linarith
  have hc : ∀ x ∈ Set.uIcc x0 x1, y0 * (x / x0) ^ b = y0 * x0 ^ (-b) * x ^ b := by
    intro x hx
    have hx' : 0 ≤ x := by
      rw [Set.mem_uIcc] at hx; rcases hx with ⟨h, _⟩ | ⟨h, _⟩ <;> linarith
    rw [div_rpow hx' hx0.le, rpow_neg hx0.le]; ring
  rw [integral_congr hc, intervalIntegral.integral_const_mul, integral_rpow (Or.inr ⟨hb', h0⟩),
    div_rpow hx1.le hx0.le, rpow_add_one hx1.ne', rpow_add_one hx0.ne', rpow_neg hx0.le]
  have := (rpow_pos_of_pos hx0 b).ne'
  field_simp

/-- Index -1. -/
theorem interval_log {x0 x1 y0 : ℝ} (hx0 : 0 < x0) (hx1 : 0 < x1) :
    ∫ x in x0..x1, y0 * (x / x0) ^ (-1 : ℝ) = x0 * y0 * log (x1 / x0) := by
  have hc : ∀ x ∈ Set.uIcc x0 x1, y0 * (x / x0) ^ (-1 : ℝ) = (x0 * y0) * x⁻¹ := by
    intro x hx
    have hx' : 0 < x := by
      rw [Set.mem_uIcc] at hx; rcases hx with ⟨h, _⟩ | ⟨h, _⟩ <;> linarith
    rw [rpow_neg_one]; field_simp
  rw [integral_congr hc, intervalIntegral.integral_const_mul, integral_inv_of_pos hx0 hx1]
