/-
The equation of ECDSA signatures, for every prime order group and every function `xc` of the points that does not
depend on the sign of the point (the x-coordinate reduced modulo the order).
src/curve/ecdsa.rs gives scalars, key and message to the `ecdsa` crate, which decides these equations.
-/
import Mathlib.Algebra.Module.Basic
import Mathlib.Tactic

variable {F : Type*} [Field F] {G : Type*} [AddCommGroup G] [Module F G] (g : G) (xc : G → F)

/-- `VerifyingKey::verify_prehash` -/
def Verifies (X : G) (m r s : F) : Prop := r ≠ 0 ∧ s ≠ 0 ∧ xc ((m / s) • g + (r / s) • X) = r

/-- Normalizing `s` does not change whether a signature verifies. -/
theorem negation_verifies (hx : ∀ P, xc (-P) = xc P) (X : G) (m r s : F) :
    Verifies g xc X m r (-s) ↔ Verifies g xc X m r s := by
  unfold Verifies
  rw [neg_ne_zero, div_neg, div_neg, neg_smul, neg_smul, ← neg_add, hx]

/-- Scalars that satisfy the signing equation for the key `x • g` are a signature that verifies. -/
theorem signature_verifies (x k m r s : F) (hr : r ≠ 0) (hs : s ≠ 0) (hk : r = xc (k • g)) (h : s * k = m + r * x) :
    Verifies g xc (x • g) m r s := by
  refine ⟨hr, hs, ?_⟩
  rw [smul_smul, ← add_smul, hk]
  congr 2
  rw [← hk]
  field_simp
  linear_combination -h

/-- A key is recovered from a signature (`VerifyingKey::recover_from_prehash` with some candidate point of the
given x-coordinate) exactly when the signature verifies under it. -/
theorem recovered_iff_verifies (X : G) (m r s : F) (hr : r ≠ 0) (hs : s ≠ 0) :
    (∃ R, xc R = r ∧ X = (-(r⁻¹ * m)) • g + (r⁻¹ * s) • R) ↔ Verifies g xc X m r s := by
  constructor
  · rintro ⟨R, hR, rfl⟩
    refine ⟨hr, hs, ?_⟩
    rw [smul_add, smul_smul, smul_smul, ← add_assoc, ← add_smul,
      show m / s + r / s * -(r⁻¹ * m) = 0 by field_simp; ring, show r / s * (r⁻¹ * s) = 1 by field_simp, zero_smul,
      one_smul, zero_add, hR]
  · rintro ⟨-, -, h⟩
    refine ⟨_, h, ?_⟩
    rw [smul_add, smul_smul, smul_smul, ← add_assoc, ← add_smul,
      show -(r⁻¹ * m) + r⁻¹ * s * (m / s) = 0 by field_simp; ring, show r⁻¹ * s * (r / s) = 1 by field_simp, zero_smul,
      one_smul, zero_add]

/-- Recovery determines the key: one point and one signature recover one key. -/
theorem recovered_key_unique (X Y R : G) (m r s : F) (hX : X = (-(r⁻¹ * m)) • g + (r⁻¹ * s) • R)
    (hY : Y = (-(r⁻¹ * m)) • g + (r⁻¹ * s) • R) : X = Y := hX.trans hY.symm

#print axioms negation_verifies
#print axioms signature_verifies
#print axioms recovered_iff_verifies
#print axioms recovered_key_unique
