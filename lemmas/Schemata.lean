/-
The lemma schemata that cdv instantiates without proof in each query (cdv/prover.py: sums, transcendental functions;
cdv/loops.py: loop abstraction), stated for arbitrary loops and summands and proved once.
A loop cell is a sequence c : ℕ → α of its values at the loop head; `K` iterations are made.
Run with: lean lemmas/Schemata.lean  (Mathlib is on the toolchain's search path)
-/
import Mathlib

open Finset

namespace Sums
variable {ι : Type*}

/-- index sums unfold by one step -/
theorem step (g : ℕ → ℝ) (t : ℕ) : ∑ i ∈ range (t + 1), g i = ∑ i ∈ range t, g i + g t := sum_range_succ g t
/-- a sum over the positions of an enumeration without repetition is the sum over the enumerated set -/
theorem index_eq_set (N : ℕ) (elem : ℕ → ι) (pos : ι → ℕ) (S : Finset ι) (h : ι → ℝ)
    (hm : ∀ u < N, elem u ∈ S ∧ pos (elem u) = u) (hp : ∀ x ∈ S, pos x < N ∧ elem (pos x) = x) :
    ∑ i ∈ range N, h (elem i) = ∑ x ∈ S, h x := by
  refine sum_bij (fun i _ => elem i) (fun i hi => (hm i (mem_range.1 hi)).1) ?_ ?_ (fun _ _ => rfl)
  · intro a ha b hb e
    rw [← (hm a (mem_range.1 ha)).2, ← (hm b (mem_range.1 hb)).2, e]
  · intro x hx; exact ⟨pos x, mem_range.2 (hp x hx).1, (hp x hx).2⟩
/-- a set sum is non-negative or has a negative term -/
theorem nonneg_or (S : Finset ι) (h : ι → ℝ) : 0 ≤ ∑ x ∈ S, h x ∨ ∃ x ∈ S, h x < 0 := by
  by_contra c; push Not at c; exact absurd (sum_nonneg c.2) (not_le.2 c.1)
/-- a set sum is positive, or its set is empty, or it has a non-positive term -/
theorem pos_or (S : Finset ι) (h : ι → ℝ) : 0 < ∑ x ∈ S, h x ∨ S = ∅ ∨ ∃ x ∈ S, h x ≤ 0 := by
  by_contra c; push Not at c
  exact absurd (sum_pos c.2.2 (c.2.1)) (not_lt.2 c.1)
theorem nonpos_or (S : Finset ι) (h : ι → ℝ) : ∑ x ∈ S, h x ≤ 0 ∨ ∃ x ∈ S, 0 < h x := by
  by_contra c; push Not at c; exact absurd (sum_nonpos c.2) (not_le.2 c.1)
/-- a set sum is zero or has a non-zero term -/
theorem zero_or (S : Finset ι) (h : ι → ℝ) : ∑ x ∈ S, h x = 0 ∨ ∃ x ∈ S, h x ≠ 0 := by
  by_contra c; push Not at c; exact c.1 (sum_eq_zero c.2)
/-- two set sums are equal or differ in a member or in a term -/
theorem eq_or (S T : Finset ι) (h k : ι → ℝ) : ∑ x ∈ S, h x = ∑ x ∈ T, k x ∨ (∃ x, ¬ (x ∈ S ↔ x ∈ T)) ∨ ∃ x ∈ S, h x ≠ k x := by
  by_contra c; push Not at c
  have e : S = T := by ext x; exact c.2.1 x
  subst e; exact c.1 (sum_congr rfl c.2.2)
/-- two index sums with equal bounds are equal or differ in a term -/
theorem idx_eq_or (t : ℕ) (g k : ℕ → ℝ) : ∑ i ∈ range t, g i = ∑ i ∈ range t, k i ∨ ∃ i < t, g i ≠ k i := by
  by_contra c; push Not at c; exact c.1 (sum_congr rfl fun i hi => c.2 i (mem_range.1 hi))
/-- constant summands, linear splitting -/
theorem const_sum (S : Finset ι) (c : ℝ) : ∑ _x ∈ S, c = c * S.card := by rw [sum_const, nsmul_eq_mul, mul_comm]
theorem split (S : Finset ι) (a b : ℝ) (f g : ι → ℝ) : ∑ x ∈ S, (a * f x + b * g x) = a * ∑ x ∈ S, f x + b * ∑ x ∈ S, g x := by
  rw [sum_add_distrib, mul_sum, mul_sum]
/-- C16: a ghost sum over slots follows a write of one slot -/
theorem point_update (n i : ℕ) (hi : i < n) (g : ℕ → ℝ) (v : ℝ) : ∑ j ∈ range n, Function.update g i v j = ∑ j ∈ range n, g j - g i + v := by
  rw [Finset.sum_update_of_mem (mem_range.2 hi), ← Finset.sum_sdiff (Finset.singleton_subset_iff.2 (mem_range.2 hi))]
  simp; ring
/-- C16: terms of one sign with sum 0 are all 0 -/
theorem settle (S : Finset ι) (h : ι → ℝ) (z : ∑ x ∈ S, h x = 0) (sg : (∀ x ∈ S, 0 ≤ h x) ∨ (∀ x ∈ S, h x ≤ 0)) : ∀ x ∈ S, h x = 0 := by
  rcases sg with p | p
  · exact (sum_eq_zero_iff_of_nonneg p).1 z
  · exact (sum_eq_zero_iff_of_nonpos p).1 z
/-- counters: sums of zeros and ones -/
theorem counter (t : ℕ) (g : ℕ → ℝ) (h : ∀ i, g i = 0 ∨ g i = 1) : 0 ≤ ∑ i ∈ range t, g i ∧ ∑ i ∈ range t, g i ≤ t := by
  constructor
  · exact sum_nonneg fun i _ => by rcases h i with e | e <;> simp [e]
  · calc ∑ i ∈ range t, g i ≤ ∑ _i ∈ range t, (1 : ℝ) := sum_le_sum fun i _ => by rcases h i with e | e <;> simp [e]
      _ = t := by simp
theorem counter_first (t : ℕ) (g : ℕ → ℝ) (h : ∀ i, g i = 0 ∨ g i = 1) (ht : 1 ≤ t) : g 0 ≤ ∑ i ∈ range t, g i :=
  single_le_sum (fun i _ => by rcases h i with e | e <;> simp [e]) (mem_range.2 ht)
end Sums

namespace Loops
/-- counters -/
theorem counter (c : ℕ → ℤ) (k : ℤ) (K : ℕ) (h : ∀ j < K, c (j + 1) = c j + k) : ∀ t ≤ K, c t = c 0 + k * t := by
  intro t; induction t with
  | zero => intro _; simp
  | succ n ih => intro hn; rw [h n (by omega), ih (by omega)]; push_cast; ring
/-- accumulators -/
theorem accumulate (c g : ℕ → ℝ) (K : ℕ) (h : ∀ j < K, c (j + 1) - c j = g j) : ∀ t ≤ K, c t - c 0 = ∑ i ∈ Finset.range t, g i := by
  intro t; induction t with
  | zero => intro _; simp
  | succ n ih => intro hn; rw [Finset.sum_range_succ, ← ih (by omega), ← h n (by omega)]; ring
/-- weighted running averages: the product with the weight accumulates -/
theorem weighted (v w g : ℕ → ℝ) (K : ℕ) (h : ∀ j < K, v (j + 1) * w (j + 1) - v j * w j = g j) : ∀ t ≤ K, v t * w t = v 0 * w 0 + ∑ i ∈ Finset.range t, g i := by
  intro t ht; have := accumulate (fun j => v j * w j) g K h t ht; linarith
/-- element-wise updates: a cell that only its own iteration p can change -/
theorem elementwise {α : Type*} (c : ℕ → α) (K p : ℕ) (h : ∀ j < K, j ≠ p → c (j + 1) = c j) :
    ∀ t ≤ K, (p < t → c t = c (p + 1)) ∧ (¬ p < t → c t = c 0) := by
  intro t; induction t with
  | zero => intro _; exact ⟨fun h => absurd h (by omega), fun _ => rfl⟩
  | succ n ih =>
    intro hn
    by_cases e : n = p
    · subst e; exact ⟨fun _ => rfl, fun h => absurd (Nat.lt_succ_self n) h⟩
    · have s := h n (by omega) e; have i := ih (by omega)
      exact ⟨fun hp => by rw [s]; exact i.1 (by omega), fun hp => by rw [s]; exact i.2 (by omega)⟩
/-- maximum folds: dominates the initial value and every candidate, and is one of them -/
theorem fold_max (c q : ℕ → ℝ) (ok : ℕ → Prop) (K : ℕ) (ge : ∀ j < K, c j ≤ c (j + 1)) (dom : ∀ j < K, ok j → q j ≤ c (j + 1))
    (one : ∀ j < K, c (j + 1) = c j ∨ (ok j ∧ c (j + 1) = q j)) :
    ∀ t ≤ K, c 0 ≤ c t ∧ (∀ u < t, ok u → q u ≤ c t) ∧ (c t = c 0 ∨ ∃ w < t, ok w ∧ c t = q w) := by
  intro t; induction t with
  | zero => intro _; exact ⟨le_refl _, fun u h => absurd h (by omega), Or.inl rfl⟩
  | succ n ih =>
    intro hn; obtain ⟨a, b, d⟩ := ih (by omega); have g := ge n (by omega)
    refine ⟨le_trans a g, fun u hu ho => ?_, ?_⟩
    · by_cases e : u = n
      · subst e; exact dom u (by omega) ho
      · exact le_trans (b u (by omega) ho) g
    · rcases one n (by omega) with e | ⟨o, e⟩
      · rcases d with d | ⟨w, hw, ow, d⟩
        · exact Or.inl (by rw [e, d])
        · exact Or.inr ⟨w, by omega, ow, by rw [e, d]⟩
      · exact Or.inr ⟨n, by omega, o, e⟩
/-- the value of the last assignment -/
theorem last_write {α : Type*} (c q : ℕ → α) (ok : ℕ → Prop) [DecidablePred ok] (K : ℕ)
    (h : ∀ j < K, c (j + 1) = if ok j then q j else c j) :
    ∀ t ≤ K, (c t = c 0 ∧ ∀ u < t, ¬ ok u) ∨ ∃ w < t, ok w ∧ c t = q w ∧ ∀ u < t, ok u → u ≤ w := by
  intro t; induction t with
  | zero => intro _; exact Or.inl ⟨rfl, fun u h => absurd h (by omega)⟩
  | succ n ih =>
    intro hn; have s := h n (by omega)
    by_cases o : ok n
    · rw [if_pos o] at s; exact Or.inr ⟨n, by omega, o, s, fun u hu _ => by omega⟩
    · rw [if_neg o] at s
      rcases ih (by omega) with ⟨e, f⟩ | ⟨w, hw, ow, e, f⟩
      · refine Or.inl ⟨by rw [s, e], fun u hu => ?_⟩
        by_cases k : u = n
        · exact k ▸ o
        · exact f u (by omega)
      · refine Or.inr ⟨w, by omega, ow, by rw [s, e], fun u hu ou => ?_⟩
        by_cases k : u = n
        · exact absurd ou (k ▸ o)
        · exact f u (by omega) ou
/-- loop invariants (Houdini's and the contracts' candidates) -/
theorem invariant (P : ℕ → Prop) (K : ℕ) (base : P 0) (step : ∀ j < K, P j → P (j + 1)) : ∀ t ≤ K, P t := by
  intro t; induction t with
  | zero => intro _; exact base
  | succ n ih => intro hn; exact step n (by omega) (ih (by omega))
end Loops

namespace Real'
open Real
theorem exp_pos' (x : ℝ) : 0 < exp x := exp_pos x
theorem exp_sum (x y : ℝ) : exp (x + y) = exp x * exp y := exp_add x y
theorem exp_neg' (x : ℝ) : exp (-x) * exp x = 1 := by rw [← exp_add, neg_add_cancel, exp_zero]
theorem exp_log' (x : ℝ) (h : 0 < x) : exp (log x) = x := exp_log h
theorem log_exp' (x : ℝ) : log (exp x) = x := log_exp x
theorem exp_gt_one (x : ℝ) (h : 0 < x) : 1 < exp x := by simpa using exp_lt_exp.2 h
theorem exp_mono (x y : ℝ) (h : x ≤ y) : exp x ≤ exp y := exp_le_exp.2 h
theorem log_signs (x : ℝ) : (1 < x → 0 < log x) ∧ (0 < x → x < 1 → log x < 0) := ⟨log_pos, fun a b => log_neg a b⟩
theorem log_mono (a b : ℝ) (h : 0 < a) (k : a < b) : log a < log b := log_lt_log h k
theorem log_scale (a b x : ℝ) (h : 0 < a) (k : a * exp x = b) : log b = log a + x := by
  rw [← k, log_mul h.ne' (exp_pos x).ne', log_exp]
theorem sqrt_sq' (x : ℝ) (h : 0 ≤ x) : 0 ≤ sqrt x ∧ sqrt x * sqrt x = x := ⟨sqrt_nonneg x, mul_self_sqrt h⟩
end Real'
