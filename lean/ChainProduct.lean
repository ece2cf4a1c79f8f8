/-
Replacing two neighbours of a chain by factors with the same product keeps the product of the chain (P22).

`M` is the semigroup of site tensors under contraction of neighbouring legs (associativity is assumed of the tensor
library).  The second statement is the form the contracts use: two chains of equal length that agree everywhere except at
sites `i`, `i+1`, where the two products agree.
-/
import Mathlib.Algebra.BigOperators.Group.List.Basic
import Mathlib.Tactic

namespace ChainProduct

variable {M : Type*} [Monoid M]

theorem replace_pair (l r : List M) (a b a' b' : M) (h : a * b = a' * b') :
    (l ++ a :: b :: r).prod = (l ++ a' :: b' :: r).prod := by
  simp only [List.prod_append, List.prod_cons, ← mul_assoc a b, ← mul_assoc a' b', h]

/-- product of sites `0 .. n-1` -/
def chain (f : ℕ → M) : ℕ → M
  | 0 => 1
  | n + 1 => chain f n * f n

theorem chain_congr (f g : ℕ → M) (n : ℕ) (h : ∀ j < n, f j = g j) : chain f n = chain g n := by
  induction n with
  | zero => rfl
  | succ n ih => simp [chain, ih (fun j hj => h j (by omega)), h n (by omega)]

theorem step (f g : ℕ → M) (n i : ℕ) (hi : i + 1 < n)
    (pair : f i * f (i + 1) = g i * g (i + 1)) (rest : ∀ j < n, j ≠ i → j ≠ i + 1 → f j = g j) :
    chain f n = chain g n := by
  induction n with
  | zero => omega
  | succ n ih =>
    by_cases hn : i + 1 = n
    · subst hn
      have h0 : chain f i = chain g i := chain_congr f g i (fun j hj => rest j (by omega) (by omega) (by omega))
      simp only [chain, mul_assoc, h0, pair]
    · have h1 := ih (by omega) (fun j hj a b => rest j (by omega) a b)
      simp only [chain, h1, rest n (by omega) (by omega) (by omega)]

end ChainProduct
