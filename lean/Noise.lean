import Mathlib.Data.Matrix.Mul
import Mathlib.Data.ZMod.Basic
import Mathlib.Tactic.Abel
/- The algebra behind C04: with B = A S + E (sp_as), B' = S' A + E' (sp_sa), V = S' B + E'' (sp_sb), C = V + M and
   W = C - B' S (sp_bs), W = M + (S' E + E'' - E' S), for every modulus and every dimension.
   The sums below are the loops of contracts/spec.c; st is S transposed, as stored there. -/
open Finset
variable {n m : Type} [Fintype n] [Fintype m] {q : ℕ}
abbrev Mat (a b : Type) (q : ℕ) := a → b → ZMod q
def as (A : Mat n n q) (st : Mat m n q) (e : Mat n m q) : Mat n m q := fun i k => e i k + ∑ j, A i j * st k j
def sa (A : Mat n n q) (s : Mat m n q) (e : Mat m n q) : Mat m n q := fun k i => e k i + ∑ j, s k j * A j i
def sb (b : Mat n m q) (s : Mat m n q) (e : Mat m m q) : Mat m m q := fun k i => e k i + ∑ j, s k j * b j i
def bs (b : Mat m n q) (st : Mat m n q) : Mat m m q := fun i j => ∑ k, b i k * st j k
theorem noise (A : Mat n n q) (st s' e' : Mat m n q) (e : Mat n m q) (e'' M : Mat m m q) (k i : m) :
    (sb (as A st e) s' e'' k i + M k i) - bs (sa A s' e') st k i
      = M k i + ((∑ j, s' k j * e j i) + e'' k i - ∑ j, e' k j * st i j) := by
  simp only [sb, as, bs, sa, mul_add, add_mul, sum_add_distrib, mul_sum, sum_mul]
  rw [sum_comm (f := fun x y => s' k y * A y x * st i x)]
  simp only [mul_assoc]
  abel
#print axioms noise
