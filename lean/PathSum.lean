/-
The product of the site matrices a path machine generates is the sum over its paths (P14).

The hypotheses are, one by one, the facts the contracts of `FSM::AddPath` (invariant of FSM) and
`FSM::GenMatRepr` (postcondition) establish; see contracts/fsm.py and contracts/fsmmat.py.
`R` is any semiring in which site operators of one chain multiply (tensor products of site operators).
-/
import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Tactic

open Finset

namespace PathSum

variable {R : Type*} [Semiring R]

/-- left partial products of the matrices, starting from the single line of the left end -/
def L (d : ℕ → ℕ) (M : ℕ → ℕ → ℕ → R) : ℕ → ℕ → R
  | 0, x => if x = 0 then 1 else 0
  | i + 1, y => ∑ x ∈ range (d i), L d M i x * M i x y

/-- operator product of a path up to a site -/
def pre (op : ℕ → ℕ → R) (k : ℕ) : ℕ → R
  | 0 => 1
  | i + 1 => pre op k i * op k i

/-- product of the site identities up to a site -/
def idp (id : ℕ → R) : ℕ → R
  | 0 => 1
  | i + 1 => idp id i * id i

structure Facts (n K : ℕ) (st : ℕ → ℕ → ℤ) (op : ℕ → ℕ → R) (id : ℕ → R) (d : ℕ → ℕ)
    (σ : ℕ → ℕ → ℤ) (ch : ℕ → ℤ → ℕ) (M : ℕ → ℕ → ℕ → R) : Prop where
  st0 : ∀ k < K, st k 0 = 0
  stn : ∀ k < K, st k n = -1
  fin : ∀ k < K, ∀ i < n, st k i = -1 → st k (i + 1) = -1
  rdy : ∀ k < K, ∀ i < n, st k (i + 1) = 0 → st k i = 0
  low : ∀ k < K, ∀ i ≤ n, -1 ≤ st k i
  uniq : ∀ k < K, ∀ k' < K, ∀ i ≤ n, 1 ≤ st k i → st k i = st k' i → k = k'
  ident : ∀ k < K, ∀ i < n, st k i = st k (i + 1) → st k i ≤ 0 → op k i = id i
  chlt : ∀ k < K, ∀ i ≤ n, ch i (st k i) < d i
  chst : ∀ k < K, ∀ i ≤ n, σ i (ch i (st k i)) = st k i
  inj : ∀ i ≤ n, ∀ x < d i, ∀ y < d i, σ i x = σ i y → x = y
  shared : ∀ i < n, ∀ x < d i, ∀ y < d (i + 1), σ i x = σ (i + 1) y → σ i x ≤ 0 →
    (∃ k < K, st k i = σ i x ∧ st k (i + 1) = σ (i + 1) y) → M i x y = id i
  nolink : ∀ i < n, ∀ x < d i, ∀ y < d (i + 1),
    (¬ ∃ k < K, st k i = σ i x ∧ st k (i + 1) = σ (i + 1) y) → M i x y = 0
  sum : ∀ i < n, ∀ x < d i, ∀ y < d (i + 1), ¬ (σ i x = σ (i + 1) y ∧ σ i x ≤ 0) →
    M i x y = ∑ k ∈ range K, if st k i = σ i x ∧ st k (i + 1) = σ (i + 1) y then op k i else 0
  d0 : d 0 = 1
  dn : d n = 1

variable {n K : ℕ} {st : ℕ → ℕ → ℤ} {op : ℕ → ℕ → R} {id : ℕ → R} {d : ℕ → ℕ}
  {σ : ℕ → ℕ → ℤ} {ch : ℕ → ℤ → ℕ} {M : ℕ → ℕ → ℕ → R}

/-- what a line of the partial product holds -/
def Line (K : ℕ) (st : ℕ → ℕ → ℤ) (op : ℕ → ℕ → R) (i : ℕ) (s : ℤ) (v : R) (id : ℕ → R) : Prop :=
  (s = 0 → (∃ k < K, st k i = 0) → v = idp id i) ∧
  (s ≠ 0 → v = ∑ k ∈ range K, if st k i = s then pre op k i else 0)

theorem ready_pre (h : Facts n K st op id d σ ch M) {k : ℕ} (hk : k < K) :
    ∀ i ≤ n, st k i = 0 → pre op k i = idp id i := by
  intro i
  induction i with
  | zero => intro _ _; rfl
  | succ i ih =>
    intro hi hs
    have h0 : st k i = 0 := h.rdy k hk i (by omega) hs
    simp only [pre, idp]
    rw [ih (by omega) h0, h.ident k hk i (by omega) (by rw [h0, hs]) (by rw [h0])]

/-- the line of a path's own state holds that path's operator product, unless the state is shared -/
theorem own_line (h : Facts n K st op id d σ ch M) {i : ℕ} (hi : i ≤ n) {v : R} {k : ℕ} (hk : k < K)
    (hne : st k i ≠ -1) (hl : Line K st op i (st k i) v id) : v = pre op k i := by
  by_cases h0 : st k i = 0
  · rw [hl.1 h0 ⟨k, hk, h0⟩, ready_pre h hk i hi h0]
  · rw [hl.2 h0]
    have h1 : 1 ≤ st k i := by have := h.low k hk i hi; omega
    rw [Finset.sum_eq_single_of_mem k (mem_range.mpr hk)]
    · simp
    · intro k' hk' hkk
      rw [if_neg]
      intro he
      exact hkk (h.uniq k hk k' (mem_range.mp hk') i hi h1 he.symm).symm

theorem line_step (h : Facts n K st op id d σ ch M) {i : ℕ} (hi : i < n)
    (ih : ∀ x < d i, Line K st op i (σ i x) (L d M i x) id) :
    ∀ y < d (i + 1), Line K st op (i + 1) (σ (i + 1) y) (L d M (i + 1) y) id := by
  intro y hy
  constructor
  · -- ready line: only the ready line before leads here, with the site identity
    intro hs ⟨k, hk, hk1⟩
    have hk0 : st k i = 0 := h.rdy k hk i hi hk1
    have hx : ch i 0 < d i := by have := h.chlt k hk i (by omega); rwa [hk0] at this
    have hsx : σ i (ch i 0) = 0 := by have := h.chst k hk i (by omega); rwa [hk0] at this
    simp only [L, idp]
    rw [Finset.sum_eq_single_of_mem (ch i 0) (mem_range.mpr hx)]
    · rw [(ih _ hx).1 hsx ⟨k, hk, hk0⟩, h.shared i hi _ hx y hy (by rw [hsx, hs]) (by rw [hsx]) ⟨k, hk, by rw [hk0, hsx], by rw [hk1, hs]⟩]
    · intro x hxm hne
      have hxl := mem_range.mp hxm
      have : M i x y = 0 := by
        apply h.nolink i hi x hxl y hy
        rintro ⟨k', hk', ha, hb⟩
        rw [hs] at hb
        have := h.rdy k' hk' i hi hb
        apply hne
        apply h.inj i (by omega) x hxl _ hx
        rw [hsx, ← ha, this]
      rw [this, mul_zero]
  · intro hs
    simp only [L]
    -- every path that is in this state now contributes its own product
    have key : ∀ x ∈ range (d i), L d M i x * M i x y =
        ∑ k ∈ range K, if st k i = σ i x ∧ st k (i + 1) = σ (i + 1) y then pre op k (i + 1) else 0 := by
      intro x hxm
      have hx := mem_range.mp hxm
      by_cases hsh : σ i x = σ (i + 1) y ∧ σ i x ≤ 0
      · -- final to final
        by_cases hlk : ∃ k < K, st k i = σ i x ∧ st k (i + 1) = σ (i + 1) y
        · rw [h.shared i hi x hx y hy hsh.1 hsh.2 hlk, (ih x hx).2 (by rw [hsh.1]; exact hs), Finset.sum_mul]
          apply Finset.sum_congr rfl
          intro k hkm
          have hk := mem_range.mp hkm
          have hm1 : σ i x = -1 := by
            obtain ⟨k0, hk0, ha, _⟩ := hlk
            have := h.low k0 hk0 i (by omega)
            have h3 : σ i x ≠ 0 := by rw [hsh.1]; exact hs
            omega
          by_cases hki : st k i = σ i x
          · have hf : st k (i + 1) = -1 := h.fin k hk i hi (by rw [hki, hm1])
            rw [if_pos hki, if_pos ⟨hki, by rw [hf, ← hsh.1, hm1]⟩]
            simp only [pre]
            rw [h.ident k hk i hi (by rw [hki, hf, hm1]) (by rw [hki]; exact hsh.2)]
          · rw [if_neg hki, if_neg (fun hh => hki hh.1), zero_mul]
        · rw [h.nolink i hi x hx y hy hlk, mul_zero]
          symm
          apply Finset.sum_eq_zero
          intro k hkm
          rw [if_neg]
          intro hh
          exact hlk ⟨k, mem_range.mp hkm, hh⟩
      · rw [h.sum i hi x hx y hy hsh, Finset.mul_sum]
        apply Finset.sum_congr rfl
        intro k hkm
        have hk := mem_range.mp hkm
        by_cases hc : st k i = σ i x ∧ st k (i + 1) = σ (i + 1) y
        · rw [if_pos hc, if_pos hc]
          simp only [pre]
          have hne : st k i ≠ -1 := by
            intro he
            have hf := h.fin k hk i hi he
            apply hsh
            constructor
            · rw [← hc.1, ← hc.2, he, hf]
            · rw [← hc.1, he]; norm_num
          have hl := ih x hx
          rw [← hc.1] at hl
          rw [own_line h (by omega) hk hne hl]
        · rw [if_neg hc, if_neg hc, mul_zero]
    rw [Finset.sum_congr rfl key, Finset.sum_comm]
    apply Finset.sum_congr rfl
    intro k hkm
    have hk := mem_range.mp hkm
    have hx := h.chlt k hk i (by omega)
    have hsx := h.chst k hk i (by omega)
    rw [Finset.sum_eq_single_of_mem (ch i (st k i)) (mem_range.mpr hx)]
    · by_cases hc : st k (i + 1) = σ (i + 1) y
      · rw [if_pos ⟨hsx.symm, hc⟩, if_pos hc]
      · rw [if_neg (fun hh => hc hh.2), if_neg hc]
    · intro x hxm hne
      rw [if_neg]
      intro hh
      apply hne
      apply h.inj i (by omega) x (mem_range.mp hxm) _ hx
      rw [hsx, hh.1]

theorem lines (h : Facts n K st op id d σ ch M) (hK : 0 < K) :
    ∀ i ≤ n, ∀ x < d i, Line K st op i (σ i x) (L d M i x) id := by
  intro i
  induction i with
  | zero =>
    intro _ x hx
    rw [h.d0] at hx
    have hx0 : x = 0 := by omega
    subst hx0
    have h1 := h.chlt 0 hK 0 (by omega)
    have h2 := h.chst 0 hK 0 (by omega)
    rw [h.d0] at h1
    have hc : ch 0 (st 0 0) = 0 := by omega
    rw [hc, h.st0 0 hK] at h2
    constructor
    · intro _ _; simp [L, idp]
    · intro hn; exact absurd h2 hn
  | succ i ih =>
    intro hi
    exact line_step h (by omega) (ih (by omega))

/-- **The matrices multiply to the sum over all paths of their operator products.** -/
theorem product_is_sum_of_paths (h : Facts n K st op id d σ ch M) (hK : 0 < K) :
    L d M n 0 = ∑ k ∈ range K, pre op k n := by
  have h1 := h.chlt 0 hK n le_rfl
  have h2 := h.chst 0 hK n le_rfl
  rw [h.dn] at h1
  have hc : ch n (st 0 n) = 0 := by omega
  rw [hc, h.stn 0 hK] at h2
  have hl := (lines h hK n le_rfl 0 (by rw [h.dn]; norm_num)).2 (by rw [h2]; norm_num)
  rw [hl, h2]
  apply Finset.sum_congr rfl
  intro k hk
  rw [if_pos (h.stn k (mem_range.mp hk))]

/-- an additive embedding of label coefficients carries the label-wise sums of the contract over -/
theorem embed {Λ A : Type*} [AddCommMonoid A] (φ : (Λ → A) →+ R) (K : ℕ) (p : ℕ → Prop) [DecidablePred p]
    (c : Λ → A) (oc : ℕ → Λ → A) (hc : ∀ l, c l = ∑ k ∈ range K, if p k then oc k l else 0) :
    φ c = ∑ k ∈ range K, if p k then φ (oc k) else 0 := by
  have : c = ∑ k ∈ range K, if p k then oc k else 0 := by
    funext l
    rw [hc l, Finset.sum_apply]
    apply Finset.sum_congr rfl
    intro k _
    split <;> simp
  rw [this, map_sum]
  apply Finset.sum_congr rfl
  intro k _
  split <;> simp

end PathSum
