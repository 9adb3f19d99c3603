/-
The rules about residues that the normal forms of vc/core.py use, for every modulus.
-/
import Mathlib.Data.ZMod.Basic
import Mathlib.FieldTheory.Finite.Basic
import Mathlib.NumberTheory.LegendreSymbol.Basic
import Mathlib.Data.Nat.Totient
import Mathlib.Tactic

/-- `(1 + N)^m = 1 + m N` modulo `N^2`. -/
theorem one_add_pow (N : ℤ) (m : ℕ) : (1 + N) ^ m ≡ 1 + m * N [ZMOD N ^ 2] := by
  induction m with
  | zero => simp
  | succ k ih =>
    rw [pow_succ (1 + N)]
    refine (ih.mul_right _).trans ?_
    rw [Int.modEq_iff_dvd]
    exact ⟨-k, by push_cast; ring⟩

/-- `1 + N` has order `N`. -/
theorem one_add_pow_eq_iff (N : ℤ) (hN : N ≠ 0) (x y : ℕ) :
    (1 + N) ^ x ≡ (1 + N) ^ y [ZMOD N ^ 2] ↔ (x : ℤ) ≡ y [ZMOD N] := by
  have hx := one_add_pow N x
  have hy := one_add_pow N y
  constructor
  · intro h
    have h' := (hx.symm.trans h).trans hy
    rw [Int.modEq_iff_dvd] at h' ⊢
    obtain ⟨k, hk⟩ := h'
    exact ⟨k, mul_right_cancel₀ hN (by linear_combination hk)⟩
  · intro h
    refine (hx.trans ?_).trans hy.symm
    rw [Int.modEq_iff_dvd] at h ⊢
    obtain ⟨k, hk⟩ := h
    exact ⟨k, by linear_combination N * hk⟩

/-- Equal modulo `N` gives equal `N`-th powers modulo `N^2`. -/
theorem pow_modulus (N : ℕ) (a b : ℤ) (h : a ≡ b [ZMOD N]) : a ^ N ≡ b ^ N [ZMOD (N : ℤ) ^ 2] := by
  rw [Int.modEq_iff_dvd] at h ⊢
  rw [← (Commute.all b a).geom_sum₂_mul, pow_two]
  refine mul_dvd_mul ?_ h
  have e : ∀ i ∈ Finset.range N, b ^ i * a ^ (N - 1 - i) ≡ a ^ (N - 1) [ZMOD N] := by
    intro i hi
    have hi' : i ≤ N - 1 := by have := Finset.mem_range.mp hi; omega
    have hb : b ≡ a [ZMOD N] := by
      rw [Int.modEq_iff_dvd]
      exact (dvd_neg.mpr h).trans (by rw [neg_sub])
    have := (hb.pow i).mul_right (a ^ (N - 1 - i))
    rwa [← pow_add, Nat.add_sub_cancel' hi'] at this
  have s : ∑ i ∈ Finset.range N, b ^ i * a ^ (N - 1 - i) ≡ ∑ _i ∈ Finset.range N, a ^ (N - 1) [ZMOD N] := by
    rw [Int.modEq_iff_dvd, ← Finset.sum_sub_distrib]
    exact Finset.dvd_sum fun i hi => (e i hi).dvd
  rw [Finset.sum_const, Finset.card_range, nsmul_eq_mul] at s
  exact (Int.modEq_zero_iff_dvd.mp (s.trans (Int.modEq_zero_iff_dvd.mpr (dvd_mul_right _ _))))

/-- Euler: exponents of units are taken modulo the totient. -/
theorem pow_totient (n : ℕ) (u : (ZMod n)ˣ) : u ^ n.totient = 1 := ZMod.pow_totient u

/-- The units modulo `N^2` have `N φ(N)` elements. -/
theorem totient_sq (N : ℕ) (hN : 0 < N) : (N ^ 2).totient = N * N.totient := by
  have h := Nat.totient_gcd_mul_totient_mul N N
  rw [Nat.gcd_self, ← pow_two] at h
  have := Nat.totient_pos.mpr hN
  exact Nat.eq_of_mul_eq_mul_left this (by rw [h]; ring)

/-- The totient of a product of two different primes. -/
theorem totient_two_primes (p q : ℕ) (hp : p.Prime) (hq : q.Prime) (h : p ≠ q) :
    (p * q).totient = (p - 1) * (q - 1) := by
  rw [Nat.totient_mul ((Nat.coprime_primes hp hq).mpr h), Nat.totient_prime hp, Nat.totient_prime hq]

/-- Fermat. -/
theorem pow_prime (p : ℕ) [Fact p.Prime] (x : ZMod p) : x ^ p = x := ZMod.pow_card x

/-- Modulo a prime `p = 3 mod 4`, `-1` is not a square and every other residue is a square up to its sign;
`a^((p + 1) / 4)` is then a square root. -/
theorem neg_one_nonsquare (p : ℕ) [Fact p.Prime] (h : p % 4 = 3) : ¬ IsSquare (-1 : ZMod p) := by
  rw [ZMod.exists_sq_eq_neg_one_iff]
  simp [h]

theorem plus_minus_square (p : ℕ) [Fact p.Prime] (h : p % 4 = 3) (a : ZMod p) :
    (a ^ ((p + 1) / 4)) ^ 2 = a ∨ (a ^ ((p + 1) / 4)) ^ 2 = -a := by
  by_cases ha : a = 0
  · left
    have : (p + 1) / 4 ≠ 0 := by omega
    simp [ha, this]
  · have e : (p + 1) / 4 * 2 = p / 2 + 1 := by omega
    rw [← pow_mul, e, pow_succ]
    rcases ZMod.pow_div_two_eq_neg_one_or_one p ha with h1 | h1 <;> simp [h1]

/-- Equal modulo both primes is equal modulo their product. -/
theorem two_primes (p q : ℕ) (hp : p.Prime) (hq : q.Prime) (h : p ≠ q) (a b : ℤ) (h1 : a ≡ b [ZMOD p])
    (h2 : a ≡ b [ZMOD q]) : a ≡ b [ZMOD (p * q : ℕ)] := by
  rw [Int.modEq_iff_dvd] at *
  push_cast
  refine IsCoprime.mul_dvd ?_ h1 h2
  exact Nat.isCoprime_iff_coprime.mpr ((Nat.coprime_primes hp hq).mpr h)

/-- A unit modulo `n` is one modulo `n^2`. -/
theorem unit_sq (n : ℕ) (a : ℕ) (h : a.Coprime n) : a.Coprime (n ^ 2) := h.pow_right 2

/-- Every unit modulo `N^2` is an encryption `(1 + N)^m r^N`, when `N` and `φ(N)` are coprime. -/
theorem unit_is_encryption (N : ℕ) (hN : 1 < N) (hc : N.Coprime N.totient) (u : ℕ) (hu : u.Coprime N) :
    ∃ m r : ℕ, r.Coprime N ∧ (u : ℤ) ≡ (1 + N) ^ m * r ^ N [ZMOD (N : ℤ) ^ 2] := by
  have hφ : 0 < N.totient := Nat.totient_pos.mpr (by omega)
  obtain ⟨k, j, hk⟩ : ∃ k j : ℕ, N * k = 1 + N.totient * j := by
    obtain ⟨y, hy⟩ := Int.mod_coprime hc
    have h1 : (N : ℤ) * (y % N.totient) ≡ 1 [ZMOD N.totient] := ((Int.mod_modEq y _).mul_left _).trans hy
    have h0 : 0 ≤ y % (N.totient : ℤ) := Int.emod_nonneg _ (by omega)
    obtain ⟨z, hz⟩ := Int.eq_ofNat_of_zero_le h0
    rw [hz] at h1
    -- the multiple is made positive by adding the totient once
    refine ⟨z + N.totient, ?_⟩
    have h2 : ((N * (z + N.totient) : ℕ) : ℤ) ≡ (1 : ℕ) [ZMOD N.totient] := by
      push_cast
      rw [mul_add]
      have : (N : ℤ) * N.totient ≡ 0 [ZMOD N.totient] := Int.modEq_zero_iff_dvd.mpr (dvd_mul_left _ _)
      simpa using h1.add this
    have h3 := (Nat.modEq_iff_dvd' (?_ : 1 ≤ N * (z + N.totient))).mp (Int.natCast_modEq_iff.mp h2).symm
    · obtain ⟨j, hj⟩ := h3
      refine ⟨j, ?_⟩
      have : 1 ≤ N * (z + N.totient) := Nat.mul_pos (by omega) (by omega)
      omega
    · exact Nat.mul_pos (by omega) (by omega)
  have hs : ((u ^ k : ℕ) : ℤ) ^ N ≡ u [ZMOD N] := by
    have h : (u ^ k) ^ N ≡ u [MOD N] := by
      rw [← pow_mul, mul_comm, hk, pow_add, pow_one, pow_mul]
      simpa using ((Nat.ModEq.pow_totient hu).pow j).mul_left u
    exact_mod_cast Int.natCast_modEq_iff.mpr h
  have hr : (u ^ k).Coprime N := hu.pow_left k
  obtain ⟨t, ht⟩ := hs.dvd
  obtain ⟨y, hy⟩ := Int.mod_coprime (hr.pow_left N)
  have hm0 : 0 ≤ (t * y) % (N : ℤ) := Int.emod_nonneg _ (by omega)
  obtain ⟨m, hm⟩ := Int.eq_ofNat_of_zero_le hm0
  refine ⟨m, u ^ k, hr, ?_⟩
  refine Int.ModEq.trans ?_ ((one_add_pow N m).mul_right _).symm
  have hmt : (m : ℤ) * ((u ^ k : ℕ) : ℤ) ^ N ≡ t [ZMOD N] := by
    have h1 : (m : ℤ) ≡ t * y [ZMOD N] := by rw [← hm]; exact Int.mod_modEq _ _
    have h2 := (h1.mul_right (((u ^ k : ℕ) : ℤ) ^ N)).trans (?_ : _ ≡ t [ZMOD N])
    · exact h2
    · have h3 := hy.mul_left t
      push_cast at h3 ⊢
      rw [mul_one] at h3
      refine (Int.ModEq.trans (by rw [mul_assoc, mul_comm y]) h3)
  obtain ⟨v, hv⟩ := hmt.dvd
  rw [Int.modEq_iff_dvd]
  exact ⟨-v, by linear_combination -ht - N * hv⟩

#print axioms one_add_pow
#print axioms one_add_pow_eq_iff
#print axioms pow_modulus
#print axioms pow_totient
#print axioms totient_sq
#print axioms totient_two_primes
#print axioms pow_prime
#print axioms neg_one_nonsquare
#print axioms plus_minus_square
#print axioms two_primes
#print axioms unit_sq
#print axioms unit_is_encryption
