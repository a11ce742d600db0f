import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.Tactic.NoncommRing
import Mathlib.Tactic.Linarith
import Mathlib.Data.Real.Basic
open Matrix
set_option linter.unusedSectionVars false

variable {m p : Type} [Fintype m] [Fintype p] [DecidableEq m] [DecidableEq p]

/-- gain matrix of the closed form `mu + C Aᵀ (A C Aᵀ)⁻¹ (y - b - A mu)` -/
noncomputable def gain (A : Matrix m p ℝ) (C : Matrix p p ℝ) : Matrix p m ℝ :=
  C * Aᵀ * (A * C * Aᵀ)⁻¹

/-- updated covariance `C - K (A C Aᵀ) Kᵀ + K Co Kᵀ` -/
noncomputable def upcov (A : Matrix m p ℝ) (C : Matrix p p ℝ) (Co : Matrix m m ℝ) : Matrix p p ℝ :=
  C - gain A C * (A * C * Aᵀ) * (gain A C)ᵀ + gain A C * Co * (gain A C)ᵀ

theorem A_gain (A : Matrix m p ℝ) (C : Matrix p p ℝ) (h : IsUnit (A * C * Aᵀ).det) :
    A * gain A C = 1 := by
  unfold gain
  rw [← Matrix.mul_assoc, ← Matrix.mul_assoc]
  exact Matrix.mul_nonsing_inv _ h

/-- the mud point predicts the data exactly: `A x + b = y` -/
theorem mud_predicts (A : Matrix m p ℝ) (C : Matrix p p ℝ) (h : IsUnit (A * C * Aᵀ).det)
    (b y : Matrix m Unit ℝ) (mu : Matrix p Unit ℝ) :
    A * (mu + gain A C * (y - b - A * mu)) + b = y := by
  rw [Matrix.mul_add, ← Matrix.mul_assoc, A_gain A C h, Matrix.one_mul]
  abel

theorem gain_T_A (A : Matrix m p ℝ) (C : Matrix p p ℝ) (h : IsUnit (A * C * Aᵀ).det) :
    (gain A C)ᵀ * Aᵀ = 1 := by
  rw [← Matrix.transpose_mul, A_gain A C h, Matrix.transpose_one]

/-- `U Aᵀ = K Co` -/
theorem upcov_mul_AT (A : Matrix m p ℝ) (C : Matrix p p ℝ) (Co : Matrix m m ℝ)
    (h : IsUnit (A * C * Aᵀ).det) : upcov A C Co * Aᵀ = gain A C * Co := by
  unfold upcov
  rw [Matrix.add_mul, Matrix.sub_mul, Matrix.mul_assoc (gain A C * (A * C * Aᵀ)),
    Matrix.mul_assoc (gain A C * Co), gain_T_A A C h, Matrix.mul_one, Matrix.mul_one]
  have : gain A C * (A * C * Aᵀ) = C * Aᵀ := by
    unfold gain
    rw [Matrix.mul_assoc, Matrix.nonsing_inv_mul _ h, Matrix.mul_one]
  rw [this]; abel

/-- the push-forward of the updated distribution has the observed covariance -/
theorem upcov_push_forward (A : Matrix m p ℝ) (C : Matrix p p ℝ) (Co : Matrix m m ℝ)
    (h : IsUnit (A * C * Aᵀ).det) : A * upcov A C Co * Aᵀ = Co := by
  rw [Matrix.mul_assoc, upcov_mul_AT A C Co h, ← Matrix.mul_assoc, A_gain A C h, Matrix.one_mul]

/-- the two mud forms coincide: `U Aᵀ Co⁻¹ = K` -/
theorem mud_alt_eq_mud (A : Matrix m p ℝ) (C : Matrix p p ℝ) (Co : Matrix m m ℝ)
    (h : IsUnit (A * C * Aᵀ).det) (hCo : IsUnit Co.det) :
    upcov A C Co * Aᵀ * Co⁻¹ = gain A C := by
  rw [upcov_mul_AT A C Co h, Matrix.mul_assoc, Matrix.mul_nonsing_inv _ hCo, Matrix.mul_one]

/-- scaling the prior covariance leaves the gain as it is -/
theorem gain_scale (A : Matrix m p ℝ) (C : Matrix p p ℝ) (a : ℝ) (ha : a ≠ 0)
    (h : IsUnit (A * C * Aᵀ).det) : gain A (a • C) = gain A C := by
  have hM : (A * (a • C) * Aᵀ) * (a⁻¹ • (A * C * Aᵀ)⁻¹) = 1 := by
    rw [Matrix.mul_smul A a C, Matrix.smul_mul a (A * C) Aᵀ,
      Matrix.smul_mul a (A * C * Aᵀ), Matrix.mul_smul (A * C * Aᵀ) a⁻¹,
      Matrix.mul_nonsing_inv _ h, smul_smul, mul_inv_cancel₀ ha, one_smul]
  unfold gain
  rw [Matrix.inv_eq_right_inv hM, Matrix.smul_mul a C Aᵀ, Matrix.smul_mul a (C * Aᵀ),
    Matrix.mul_smul (C * Aᵀ) a⁻¹, smul_smul, mul_inv_cancel₀ ha, one_smul]

/-- the map point solves the regularised normal equations -/
theorem map_normal_eq (A : Matrix m p ℝ) (R : Matrix m m ℝ) (Q : Matrix p p ℝ)
    (h : IsUnit (Aᵀ * R * A + Q).det) (z : Matrix m Unit ℝ) (mu x : Matrix p Unit ℝ)
    (hx : x = mu + (Aᵀ * R * A + Q)⁻¹ * Aᵀ * R * z) :
    (Aᵀ * R * A + Q) * (x - mu) = Aᵀ * R * z := by
  subst hx
  rw [add_sub_cancel_left, ← Matrix.mul_assoc, ← Matrix.mul_assoc, ← Matrix.mul_assoc,
    Matrix.mul_nonsing_inv _ h, Matrix.one_mul]

/-- least squares: with `P` a pseudo-inverse, `x = P d` solves the normal equations -/
theorem ls_normal_eq (A : Matrix m p ℝ) (P : Matrix p m ℝ) (d : Matrix m Unit ℝ)
    (h1 : A * P * A = A) (h2 : (A * P)ᵀ = A * P) : Aᵀ * (A * (P * d) - d) = 0 := by
  have h : Aᵀ * (A * P) = Aᵀ := by
    have := congrArg Matrix.transpose h1
    rw [Matrix.transpose_mul, h2] at this
    exact this
  rw [Matrix.mul_sub, ← Matrix.mul_assoc A P d, ← Matrix.mul_assoc, h, sub_self]
