import Mathlib.Algebra.BigOperators.Group.Finset.Basic

/-! Rounds in which every party combines the contributions of all parties. -/

/-- What a party combines, its own contribution and those of the others, does not depend on the party. -/
theorem combined_contributions {I G : Type*} [DecidableEq I] [AddCommMonoid G] (all : Finset I) (c : I → G) (a b : I)
    (ha : a ∈ all) (hb : b ∈ all) : c a + ∑ j ∈ all.erase a, c j = c b + ∑ j ∈ all.erase b, c j := by
  rw [Finset.add_sum_erase _ _ ha, Finset.add_sum_erase _ _ hb]

#print axioms combined_contributions
