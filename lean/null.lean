import Mathlib.Data.Matrix.Mul
import Mathlib.Data.Real.Basic
open Matrix
set_option linter.unusedSectionVars false

variable {m n : Type} [Fintype m] [Fintype n] [DecidableEq m] [DecidableEq n]

/-- right singular vectors (rows of `V`) are orthonormal -/
theorem rows_orthonormal (V : Matrix n n ℝ) (hV : V * Vᵀ = 1) (i j : n) :
    V i ⬝ᵥ V j = if i = j then 1 else 0 := by
  have h := congrFun (congrFun hV i) j
  rw [Matrix.mul_apply] at h
  simpa [dotProduct, Matrix.one_apply, Matrix.transpose_apply] using h

/-- the matrix maps the right singular vector `i` to column `i` of `U S` -/
theorem mul_right_singular (A : Matrix m n ℝ) (U : Matrix m m ℝ) (S : Matrix m n ℝ) (V : Matrix n n ℝ)
    (hA : A = U * S * V) (hV : V * Vᵀ = 1) : A * Vᵀ = U * S := by
  rw [hA, Matrix.mul_assoc, hV, Matrix.mul_one]

/-- right singular vectors without a singular value are annihilated -/
theorem annihilated (A : Matrix m n ℝ) (U : Matrix m m ℝ) (S : Matrix m n ℝ) (V : Matrix n n ℝ)
    (hA : A = U * S * V) (hV : V * Vᵀ = 1) (i : n) (hS : ∀ k, S k i = 0) : A *ᵥ V i = 0 := by
  have h := mul_right_singular A U S V hA hV
  ext k
  have hk := congrFun (congrFun h k) i
  rw [Matrix.mul_apply, Matrix.mul_apply] at hk
  simp only [hS, mul_zero, Finset.sum_const_zero, Matrix.transpose_apply] at hk
  simpa [Matrix.mulVec, dotProduct] using hk

/-- the sum of all singular triplets is the matrix: `f k`, `g k` are the left and right index of the singular value `k` -/
theorem all_triplets {r : Type} [Fintype r] (A : Matrix m n ℝ) (U : Matrix m m ℝ) (S : Matrix m n ℝ) (V : Matrix n n ℝ)
    (f : r → m) (g : r → n) (s : r → ℝ) (hA : A = U * S * V)
    (hS : ∀ i j, S i j = ∑ k, if f k = i then (if g k = j then s k else 0) else 0) (i : m) (j : n) :
    A i j = ∑ k, s k * U i (f k) * V (g k) j := by
  rw [hA, Matrix.mul_apply]
  simp only [Matrix.mul_apply, hS, Finset.mul_sum, Finset.sum_mul]
  have e : ∀ x : n, (∑ i_1 : m, ∑ k : r, U i i_1 * (if f k = i_1 then (if g k = x then s k else 0) else 0) * V x j)
      = ∑ k : r, (if g k = x then s k * U i (f k) * V x j else 0) := by
    intro x
    rw [Finset.sum_comm]
    refine Finset.sum_congr rfl fun k _ => ?_
    rw [Finset.sum_eq_single (f k)]
    · by_cases h : g k = x <;> simp [h, mul_comm]
    · intro b _ hb
      simp [Ne.symm hb]
    · simp
  simp only [e]
  rw [Finset.sum_comm]
  refine Finset.sum_congr rfl fun k _ => ?_
  rw [Finset.sum_eq_single (g k)]
  · simp
  · intro b _ hb
    simp [Ne.symm hb]
  · simp
