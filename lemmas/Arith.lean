import Mathlib.Tactic
import Mathlib.Algebra.BigOperators.Intervals

/-! Lemmas used by the specifications in vc/specs (no statement about the code: arithmetic only). -/
open Finset

/-- lemma lucas: the doubling identities used by prime.t_find_lucas_v -/
theorem lucas (P Q : ℤ) (U : ℕ → ℤ) (h0 : U 0 = 0) (h1 : U 1 = 1)
    (hr : ∀ n, U (n + 2) = P * U (n + 1) - Q * U n) (h : ℕ) :
    U (2 * h) = 2 * U h * U (h + 1) - P * U h * U h ∧
    U (2 * h + 1) = U (h + 1) * U (h + 1) - Q * U h * U h ∧
    U (2 * h + 2) = P * U (h + 1) * U (h + 1) - 2 * Q * U h * U (h + 1) := by
  induction h with
  | zero => refine ⟨by simp [h0], by simp [h0, h1], ?_⟩
            have := hr 0; simp [h0, h1] at this ⊢; exact this
  | succ n ih =>
    obtain ⟨a, b, c⟩ := ih
    have e1 : U (n + 1 + 1) = P * U (n + 1) - Q * U n := hr n
    have e3 : U (2 * n + 3) = P * U (2 * n + 2) - Q * U (2 * n + 1) := hr (2 * n + 1)
    have e4 : U (2 * n + 4) = P * U (2 * n + 3) - Q * U (2 * n + 2) := hr (2 * n + 2)
    have i2 : 2 * (n + 1) = 2 * n + 2 := by ring
    have i3 : 2 * (n + 1) + 1 = 2 * n + 3 := by ring
    have i4 : 2 * (n + 1) + 2 = 2 * n + 4 := by ring
    rw [i2, e1]
    refine ⟨?_, ?_, ?_⟩
    · rw [c]; ring
    · show U (2 * n + 3) = _
      rw [e3, b, c]; ring
    · show U (2 * n + 4) = _
      rw [e4, e3, b, c]; ring

/-- lemma digits: the block digits of floor(2^T/B) -/
theorem digits (T B k : ℕ) (n : ℕ) (hn : k * n ≤ T) :
    ∑ m ∈ range n, 2 ^ (k * m) * ((2 ^ (T - k * m) / B : ℤ) - 2 ^ k * (2 ^ (T - k * (m + 1)) / B : ℤ))
      = (2 ^ T / B : ℤ) - 2 ^ (k * n) * (2 ^ (T - k * n) / B : ℤ) := by
  induction n with
  | zero => simp
  | succ n ih =>
    have : k * n ≤ T := le_trans (Nat.mul_le_mul_left k (Nat.le_succ n)) hn
    rw [sum_range_succ, ih this, Nat.mul_succ, pow_add]
    ring

/-- ... and nothing is left when fewer than k bits remain and 2^k <= B -/
theorem digits_all (T B k : ℕ) (hk : 0 < k) (hB : 2 ^ k ≤ B) :
    ∑ m ∈ range (T / k), 2 ^ (k * m) * ((2 ^ (T - k * m) / B : ℤ) - 2 ^ k * (2 ^ (T - k * (m + 1)) / B : ℤ))
      = (2 ^ T / B : ℤ) := by
  rw [digits T B k (T / k) (Nat.mul_div_le T k)]
  have h : T - k * (T / k) = T % k := by
    have := Nat.div_add_mod T k; omega
  rw [h]
  have hlt : 2 ^ (T % k) < B := lt_of_lt_of_le (Nat.pow_lt_pow_right (by norm_num) (Nat.mod_lt T hk)) hB
  have : ((2 : ℤ) ^ (T % k) / (B : ℤ)) = 0 := by
    apply Int.ediv_eq_zero_of_lt (by positivity)
    exact_mod_cast hlt
  rw [this]; ring

/-- lemma buckets: weighted sum over a table of 2^(k0+k1) entries by rows and columns -/
theorem buckets {G : Type*} [AddCommGroup G] (ys : ℕ → G) (p0 p1 : ℕ) :
    ∑ b ∈ range (p1 * p0), b • ys b
      = ∑ b1 ∈ range p1, (b1 * p0) • ∑ t ∈ range p0, ys (b1 * p0 + t)
        + ∑ b0 ∈ range p0, b0 • ∑ t ∈ range p1, ys (t * p0 + b0) := by
  have split : ∀ (f : ℕ → G), ∑ b ∈ range (p1 * p0), f b = ∑ b1 ∈ range p1, ∑ t ∈ range p0, f (b1 * p0 + t) := by
    intro f
    induction p1 with
    | zero => simp
    | succ n ih => rw [Nat.succ_mul, sum_range_add, ih, sum_range_succ]
  rw [split]
  have : ∀ b1 t, (b1 * p0 + t) • ys (b1 * p0 + t) = (b1 * p0) • ys (b1 * p0 + t) + t • ys (b1 * p0 + t) := by
    intros; rw [add_smul]
  simp only [this, sum_add_distrib, smul_sum]
  congr 1
  rw [sum_comm]

/-- Horner form of the digit sum used by power.t_generate (CS j = row sums, ACC as in the loop) -/
theorem horner (pk : ℤ) (CS ACC : ℕ → ℤ) (l : ℕ) (h0 : ACC 0 = 0)
    (hs : ∀ n, n < l → ACC (n + 1) = pk * ACC n + CS (l - 1 - n)) :
    ACC l = ∑ j ∈ range l, pk ^ j * CS j := by
  have key : ∀ n, n ≤ l → ACC n = ∑ j ∈ range n, pk ^ j * CS (l - n + j) := by
    intro n
    induction n with
    | zero => intro _; simp [h0]
    | succ n ih =>
      intro hn
      rw [hs n (by omega), ih (by omega), sum_range_succ', mul_sum]
      congr 1
      · apply sum_congr rfl
        intro j hj
        have : l - (n + 1) + (j + 1) = l - n + j := by omega
        rw [this, pow_succ]; ring
      · have : l - (n + 1) = l - 1 - n := by omega
        simp [this]
  have := key l le_rfl
  rw [this]
  apply sum_congr rfl
  intro j _
  simp

/-- the digit sum by rows: digit m = i*l+j weighs 2^(km), intermediate i carries 2^(kli) -/
theorem rows (d : ℕ → ℤ) (k l M : ℕ) :
    ∑ j ∈ range l, (2:ℤ) ^ (k * j) * ∑ i ∈ range M, d (i * l + j) * 2 ^ (k * l * i)
      = ∑ m ∈ range (M * l), 2 ^ (k * m) * d m := by
  have split : ∀ (f : ℕ → ℤ), ∑ b ∈ range (M * l), f b = ∑ i ∈ range M, ∑ j ∈ range l, f (i * l + j) := by
    intro f
    induction M with
    | zero => simp
    | succ n ih => rw [Nat.succ_mul, sum_range_add, ih, sum_range_succ]
  rw [split, sum_comm]
  apply sum_congr rfl
  intro j _
  rw [mul_sum]
  apply sum_congr rfl
  intro i _
  have : k * (i * l + j) = k * j + k * l * i := by ring
  rw [this, pow_add]; ring

/-- the little-endian bytes of a number add up to it -/
theorem le_bytes (v n : ℕ) (h : v < 256 ^ n) :
    ∑ i ∈ range n, (v / 256 ^ i % 256) * 256 ^ i = v := by
  have key : ∀ n : ℕ, ∑ i ∈ range n, (v / 256 ^ i % 256) * 256 ^ i = v % 256 ^ n := by
    intro n
    induction n with
    | zero => simp [Nat.mod_one]
    | succ n ih => rw [sum_range_succ, ih, Nat.mod_pow_succ]; ring
  rw [key, Nat.mod_eq_of_lt h]
