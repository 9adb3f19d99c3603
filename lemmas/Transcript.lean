/-
Transcripts (src/tools/hashing.rs): a byte string that is the concatenation of self-delimiting encodings determines what
was encoded. The contracts (vc/specs/c_hash.py) show that the code emits such encodings.
-/
import Mathlib.Data.List.Basic
import Mathlib.Tactic

/-- An encoding is prefix-free when the value and what follows can be read off any continuation. -/
def PrefixFree {α β : Type*} (e : α → List β) : Prop :=
  ∀ x y r s, e x ++ r = e y ++ s → x = y ∧ r = s

variable {α α' β : Type*}

/-- An injective encoding of a fixed width is prefix-free. -/
theorem fixed_prefix_free (e : α → List β) (n : ℕ) (hn : ∀ x, (e x).length = n) (hi : Function.Injective e) :
    PrefixFree e := by
  intro x y r s h
  have h1 := List.append_inj h ((hn x).trans (hn y).symm)
  exact ⟨hi h1.1, h1.2⟩

/-- One encoding after the other (fields of a structure, or one item after the other). -/
theorem pair_prefix_free (e : α → List β) (f : α' → List β) (he : PrefixFree e) (hf : PrefixFree f) :
    PrefixFree (fun p : α × α' => e p.1 ++ f p.2) := by
  rintro ⟨a, b⟩ ⟨c, d⟩ r s h
  simp only [List.append_assoc] at h
  obtain ⟨h1, h2⟩ := he _ _ _ _ h
  obtain ⟨h3, h4⟩ := hf _ _ _ _ h2
  exact ⟨by simp_all, h4⟩

/-- The elements of two sequences of the same length. -/
theorem elements_prefix_free (e : α → List β) (he : PrefixFree e) :
    ∀ (l m : List α) (r s : List β), l.length = m.length → (l.map e).flatten ++ r = (m.map e).flatten ++ s → l = m ∧ r = s := by
  intro l
  induction l with
  | nil =>
    intro m r s hl h
    have : m = [] := List.length_eq_zero_iff.mp hl.symm
    subst this
    exact ⟨rfl, by simpa using h⟩
  | cons a l ih =>
    intro m r s hl h
    cases m with
    | nil => simp at hl
    | cons b m =>
      simp only [List.map_cons, List.flatten_cons, List.append_assoc] at h
      obtain ⟨h1, h2⟩ := he _ _ _ _ h
      obtain ⟨h3, h4⟩ := ih m r s (by simpa using hl) h2
      exact ⟨by rw [h1, h3], h4⟩

/-- A sequence prefixed by its length. -/
theorem seq_prefix_free (len : ℕ → List β) (hlen : PrefixFree len) (e : α → List β) (he : PrefixFree e) :
    PrefixFree (fun l : List α => len l.length ++ (l.map e).flatten) := by
  intro l m r s h
  simp only [List.append_assoc] at h
  obtain ⟨h1, h2⟩ := hlen _ _ _ _ h
  exact elements_prefix_free e he l m r s h1 h2

/-- A byte string prefixed by its length (`chain_bytes`); lengths are below `2^64` in the code, `len` is injective there. -/
theorem item_prefix_free (len : ℕ → List β) (w bound : ℕ) (hw : ∀ n, (len n).length = w)
    (hi : Set.InjOn len {n | n < bound}) (x y r s : List β) (hx : x.length < bound) (hy : y.length < bound)
    (h : len x.length ++ x ++ r = len y.length ++ y ++ s) : x = y ∧ r = s := by
  simp only [List.append_assoc] at h
  have h1 := List.append_inj h ((hw _).trans (hw _).symm)
  have h2 : x.length = y.length := hi hx hy h1.1
  exact List.append_inj h1.2 h2

/-- A transcript: the items, each prefixed by its length, determine the items, their division and their order. -/
theorem transcript_injective (len : ℕ → List β) (w bound : ℕ) (h0 : 0 < w) (hw : ∀ n, (len n).length = w)
    (hi : Set.InjOn len {n | n < bound}) :
    ∀ l m : List (List β), (∀ x ∈ l, x.length < bound) → (∀ x ∈ m, x.length < bound) →
      (l.map fun x => len x.length ++ x).flatten = (m.map fun x => len x.length ++ x).flatten → l = m := by
  intro l
  induction l with
  | nil =>
    intro m _ _ h
    cases m with
    | nil => rfl
    | cons b m =>
      have := congrArg List.length h
      simp only [List.map_nil, List.flatten_nil, List.length_nil, List.map_cons, List.flatten_cons, List.length_append, hw] at this
      omega
  | cons a l ih =>
    intro m hl hm h
    cases m with
    | nil =>
      have := congrArg List.length h
      simp only [List.map_nil, List.flatten_nil, List.length_nil, List.map_cons, List.flatten_cons, List.length_append, hw] at this
      omega
    | cons b m =>
      simp only [List.map_cons, List.flatten_cons] at h
      obtain ⟨h1, h2⟩ := item_prefix_free len w bound hw hi a b _ _ (hl a (by simp)) (hm b (by simp)) h
      rw [h1, ih m (fun x hx => hl x (by simp [hx])) (fun x hx => hm x (by simp [hx])) h2]

/-- The domain tag is the first item, so it is determined together with the items. -/
theorem dst_transcript_injective (len : ℕ → List β) (w bound : ℕ) (h0 : 0 < w) (hw : ∀ n, (len n).length = w)
    (hi : Set.InjOn len {n | n < bound}) (d d' : List β) (l m : List (List β)) (hd : d.length < bound) (hd' : d'.length < bound)
    (hl : ∀ x ∈ l, x.length < bound) (hm : ∀ x ∈ m, x.length < bound)
    (h : (len d.length ++ d) ++ (l.map fun x => len x.length ++ x).flatten = (len d'.length ++ d') ++ (m.map fun x => len x.length ++ x).flatten) :
    d = d' ∧ l = m := by
  have h' := transcript_injective len w bound h0 hw hi (d :: l) (d' :: m)
    (by simpa using ⟨hd, hl⟩) (by simpa using ⟨hd', hm⟩) (by simpa using h)
  simpa using h'

#print axioms fixed_prefix_free
#print axioms pair_prefix_free
#print axioms elements_prefix_free
#print axioms seq_prefix_free
#print axioms item_prefix_free
#print axioms transcript_injective
#print axioms dst_transcript_injective
