import Mathlib.Analysis.SpecialFunctions.Pow.Real
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Bounds
import Mathlib.Analysis.Real.Pi.Bounds

/-! The facts about exp, log, fractional powers, pi and the trigonometric functions that
`pyvc/solver.py` gives to the SMT solvers (class `Enc`), in the same form. -/

open Real

/-! Enc.exp -/
theorem exp_sign (e : ℝ) : ((e > 0) ↔ exp e > 1) ∧ ((e = 0) ↔ exp e = 1) :=
  ⟨one_lt_exp_iff.symm, exp_eq_one_iff e |>.symm⟩

theorem exp_tangent (e : ℝ) : exp e ≥ 1 + e := by
  have := add_one_le_exp e; linarith

/-! Enc.pow: r is the fractional power b ^ f with 0 < f < 1, f = n / d -/
theorem root_power {b f : ℝ} {n d : ℕ} (hb : b ≥ 0) (hd : 0 < d) (hf : f = n / d) :
    (b ^ f) ^ d = b ^ n := by
  rw [← rpow_natCast, ← rpow_mul hb, hf, div_mul_cancel₀ _ (by positivity), rpow_natCast]

theorem root_sign {b f : ℝ} (hb : b ≥ 0) (hf : 0 < f) :
    ((b > 1) ↔ b ^ f > 1) ∧ ((b = 0) ↔ b ^ f = 0) ∧ ((b < 1) ↔ b ^ f < 1) := by
  refine ⟨?_, ?_, ?_⟩
  · exact (one_lt_rpow_iff_of_pos' hb hf).symm
  · exact (rpow_eq_zero hb hf.ne').symm
  · exact (rpow_lt_one_iff_of_pos' hb hf).symm
where
  one_lt_rpow_iff_of_pos' {b f : ℝ} (hb : b ≥ 0) (hf : 0 < f) : 1 < b ^ f ↔ 1 < b := by
    constructor
    · intro h; by_contra h'; exact absurd (rpow_le_one hb (not_lt.mp h') hf.le) (not_le.mpr h)
    · intro h; exact one_lt_rpow h hf
  rpow_lt_one_iff_of_pos' {b f : ℝ} (hb : b ≥ 0) (hf : 0 < f) : b ^ f < 1 ↔ b < 1 := by
    constructor
    · intro h; by_contra h'; exact absurd (one_le_rpow (not_lt.mp h') hf.le) (not_le.mpr h)
    · intro h; exact rpow_lt_one hb h hf

theorem inverse {b : ℝ} (h : b ≠ 0) : b⁻¹ * b = 1 := inv_mul_cancel₀ h

/-! Enc.atom, "log" -/
theorem log_sign {x : ℝ} (h : x > 0) :
    ((x > 1) ↔ log x > 0) ∧ ((x = 1) ↔ log x = 0) ∧ log x ≤ x - 1 := by
  refine ⟨(log_pos_iff h.le).symm, ?_, log_le_sub_one_of_pos h⟩
  constructor
  · rintro rfl; exact log_one
  · intro h'; exact eq_one_of_pos_of_log_eq_zero h h'

/-! Enc.atom, "pi" -/
theorem pi_bounds : π > 3.1415926535 ∧ π < 3.1415926536 := by
  have h := pi_gt_d20; have h' := pi_lt_d20
  constructor <;> norm_num at * <;> linarith

/-! Enc.atom, "cos" and "sin" -/
theorem trig (x : ℝ) : (-1 ≤ cos x ∧ cos x ≤ 1) ∧ (-1 ≤ sin x ∧ sin x ≤ 1) :=
  ⟨⟨neg_one_le_cos x, cos_le_one x⟩, ⟨neg_one_le_sin x, sin_le_one x⟩⟩

/-! Enc.ordering_axioms -/
theorem exp_order (a b : ℝ) : ((a < b) ↔ exp a < exp b) ∧ ((a = b) ↔ exp a = exp b) :=
  ⟨exp_lt_exp.symm, exp_injective.eq_iff.symm⟩

theorem log_order {a b : ℝ} (ha : a > 0) (hb : b > 0) : (a < b) ↔ log a < log b :=
  (log_lt_log_iff ha hb).symm
