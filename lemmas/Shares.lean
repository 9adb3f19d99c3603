/-
The mathematics behind src/tools/sss.rs, for every field, every number of shares and every threshold.
The contracts (vc/specs/c_sss.py, c_shares.py) say that the code computes these expressions; here is what the
expressions amount to.
-/
import Mathlib.LinearAlgebra.Lagrange

open Finset Polynomial

variable {F : Type*} [Field F] {ι : Type*} [DecidableEq ι]

/-- The Lagrange coefficient at zero, as `interpolation_coeff` computes it. -/
def lam (s : Finset ι) (x : ι → F) (i : ι) : F := ∏ k ∈ s.erase i, x k / (x k - x i)

/-- Shares of at least `degree + 1` parties combine to the value at zero. -/
theorem shares_combine (s : Finset ι) (x : ι → F) (hx : Set.InjOn x s) (f : F[X]) (hf : f.degree < #s) :
    ∑ i ∈ s, f.eval (x i) * lam s x i = f.eval 0 := by
  have h := Lagrange.eq_interpolate hx hf
  conv_rhs => rw [h]
  rw [Lagrange.interpolate_apply, eval_finsetSum]
  refine sum_congr rfl fun i hi => ?_
  rw [eval_mul, eval_C, Lagrange.basis, eval_prod, lam]
  congr 1
  refine prod_congr rfl fun k hk => ?_
  obtain ⟨hki, hks⟩ := mem_erase.mp hk
  have hne : x i - x k ≠ 0 := sub_ne_zero.mpr fun e => hki (hx hi hks e).symm
  have hne' : x k - x i ≠ 0 := sub_ne_zero.mpr fun e => hki (hx hks hi e)
  simp only [Lagrange.basisDivisor, eval_mul, eval_C, eval_sub, eval_X]
  rw [zero_sub, div_eq_iff hne', ← sub_eq_zero]
  field_simp
  ring

/-- The same in the exponent: public shares of a module (the curve group) combine to the public key. -/
theorem public_shares_combine {G : Type*} [AddCommGroup G] [Module F G] (g : G) (s : Finset ι) (x : ι → F)
    (hx : Set.InjOn x s) (f : F[X]) (hf : f.degree < #s) :
    ∑ i ∈ s, lam s x i • f.eval (x i) • g = f.eval 0 • g := by
  rw [← shares_combine s x hx f hf, sum_smul]
  exact sum_congr rfl fun i _ => by rw [smul_smul, mul_comm]

/-- A value of the public polynomial (coefficients times the generator) is the generator times the value. -/
theorem public_polynomial {G : Type*} [AddCommGroup G] [Module F G] (g : G) (n : ℕ) (c : ℕ → F) (x : F) :
    ∑ i ∈ range n, x ^ i • c i • g = (∑ i ∈ range n, c i * x ^ i) • g := by
  rw [sum_smul]
  exact sum_congr rfl fun i _ => by rw [smul_smul, mul_comm]

/-- A polynomial with `t` coefficients has degree below `t`, and its value at zero is the first one. -/
theorem polynomial_degree (t : ℕ) (c : ℕ → F) : (∑ i ∈ range t, C (c i) * X ^ i : F[X]).degree < t := by
  rcases Nat.eq_zero_or_pos t with rfl | ht
  · simp
  · refine (degree_sum_le _ _).trans_lt ?_
    refine (Finset.sup_lt_iff (by exact_mod_cast WithBot.bot_lt_coe t)).mpr fun i hi => ?_
    exact (degree_C_mul_X_pow_le i (c i)).trans_lt (by exact_mod_cast mem_range.mp hi)

theorem polynomial_at_zero (t : ℕ) (ht : 0 < t) (c : ℕ → F) : (∑ i ∈ range t, C (c i) * X ^ i : F[X]).eval 0 = c 0 := by
  obtain ⟨n, rfl⟩ : ∃ n, t = n + 1 := ⟨t - 1, by omega⟩
  simp [eval_finsetSum, sum_range_succ']

/-- Adding the same tweak to all shares adds it to the value they combine to (non-hardened derivation of threshold shares). -/
theorem tweaked_shares_combine (s : Finset ι) (x : ι → F) (hx : Set.InjOn x s) (f : F[X]) (hf : f.degree < #s) (hs : 0 < #s) (t : F) :
    ∑ i ∈ s, (f.eval (x i) + t) * lam s x i = f.eval 0 + t := by
  have hd : (f + C t).degree < #s :=
    (degree_add_le _ _).trans_lt (max_lt hf (degree_C_le.trans_lt (by exact_mod_cast hs)))
  have h := shares_combine s x hx (f + C t) hd
  simpa using h

theorem tweaked_public_shares_combine {G : Type*} [AddCommGroup G] [Module F G] (g : G) (s : Finset ι) (x : ι → F)
    (hx : Set.InjOn x s) (f : F[X]) (hf : f.degree < #s) (hs : 0 < #s) (t : F) :
    ∑ i ∈ s, lam s x i • (f.eval (x i) • g + t • g) = f.eval 0 • g + t • g := by
  have h := tweaked_shares_combine s x hx f hf hs t
  rw [← add_smul, ← h, sum_smul]
  exact sum_congr rfl fun i _ => by rw [← add_smul, smul_smul, mul_comm]

/-- `PublicAuxInfos::subset` compares numbers of parties: if as many of the parties are known as are requested, all of them are. -/
theorem subset_of_count (known requested : Finset ι) (h : #(known.filter (· ∈ requested)) = #requested) : requested ⊆ known := by
  have h1 : known.filter (· ∈ requested) ⊆ requested := fun _ hx => (mem_filter.mp hx).2
  have h2 := eq_of_subset_of_card_le h1 h.ge
  exact fun x hx => (mem_filter.mp (h2 ▸ hx)).1

#print axioms subset_of_count
#print axioms tweaked_shares_combine
#print axioms tweaked_public_shares_combine
#print axioms shares_combine
#print axioms public_shares_combine
#print axioms public_polynomial
#print axioms polynomial_degree
#print axioms polynomial_at_zero
