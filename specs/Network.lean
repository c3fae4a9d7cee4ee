import Mathlib

/-!
Contraction of tensor networks: the order does not matter.

`V`   index variables (one per bond, one per free leg), `D v` the values of `v`
`T`   a tensor: the variables of its legs and its entries
`mul` what `contractTwoTensors` computes by its contract: sum over the shared variables of the product of the entries,
      the legs left are those not shared (symmetric difference)
`Run` what `contractAndCostWithSequence` computes by its contract: the slots `c`, `o` are replaced by their product in `c`
-/
open Finset Function
set_option linter.unusedSectionVars false
set_option linter.unusedVariables false

namespace Network
variable {V : Type} [DecidableEq V] [Fintype V] {D : V → Type} [∀ v, Fintype (D v)] {R : Type} [CommSemiring R]

/-- a tensor -/
@[ext] structure T (V : Type) (D : V → Type) (R : Type) where
  legs : Finset V
  entry : (∀ v, D v) → R
  loc : ∀ σ τ, (∀ v ∈ legs, σ v = τ v) → entry σ = entry τ

/-- the sum over all values of the variables `L` -/
def sumOver (L : Finset V) (f : (∀ v, D v) → R) (σ : ∀ v, D v) : R :=
  ∑ τ : (∀ v : L, D v), f (updateFinset σ L τ)

theorem sumOver_empty (f : (∀ v, D v) → R) (σ) : sumOver ∅ f σ = f σ := by
  simp [sumOver]

theorem sumOver_union {A B : Finset V} (h : Disjoint A B) (f : (∀ v, D v) → R) (σ) :
    sumOver (A ∪ B) f σ = sumOver A (sumOver B f) σ := by
  unfold sumOver
  rw [← Equiv.sum_comp (Equiv.piFinsetUnion D h), Fintype.sum_prod_type]
  simp [updateFinset_updateFinset h]

theorem sumOver_loc {A S : Finset V} (f : (∀ v, D v) → R) (hf : ∀ σ τ, (∀ v ∈ S, σ v = τ v) → f σ = f τ)
    (σ τ : ∀ v, D v) (h : ∀ v ∈ S \ A, σ v = τ v) : sumOver A f σ = sumOver A f τ := by
  unfold sumOver
  refine Finset.sum_congr rfl fun ρ _ => hf _ _ fun v hv => ?_
  by_cases hA : v ∈ A
  · simp [updateFinset_def, hA]
  · simpa [updateFinset_def, hA] using h v (by simp [hv, hA])

theorem sumOver_mul_right {A : Finset V} (f g : (∀ v, D v) → R) (S : Finset V)
    (hg : ∀ σ τ, (∀ v ∈ S, σ v = τ v) → g σ = g τ) (h : Disjoint A S) (σ) :
    sumOver A (fun ρ => f ρ * g ρ) σ = sumOver A f σ * g σ := by
  unfold sumOver
  rw [Finset.sum_mul]
  refine Finset.sum_congr rfl fun ρ _ => ?_
  have e : g (updateFinset σ A ρ) = g σ := by
    refine hg _ _ fun v hv => ?_
    have : v ∉ A := fun hA => Finset.disjoint_left.mp h hA hv
    simp [updateFinset_def, this]
  simp only [e]

/-- the contraction of two tensors -/
def mul (a b : T V D R) : T V D R where
  legs := symmDiff a.legs b.legs
  entry := sumOver (a.legs ∩ b.legs) (fun σ => a.entry σ * b.entry σ)
  loc := by
    intro σ τ h
    refine sumOver_loc (S := a.legs ∪ b.legs) _ ?_ σ τ ?_
    · intro x y hxy
      rw [a.loc x y fun v hv => hxy v (by simp [hv]), b.loc x y fun v hv => hxy v (by simp [hv])]
    · intro v hv
      apply h
      simp only [Finset.mem_sdiff, Finset.mem_union, Finset.mem_inter, Finset.mem_symmDiff] at hv ⊢
      tauto

theorem mul_comm' (a b : T V D R) : mul a b = mul b a := by
  ext1
  · simp [mul, symmDiff_comm]
  · simp only [mul, Finset.inter_comm b.legs]
    congr 1
    funext σ
    exact mul_comm _ _

variable {ι : Type} [DecidableEq ι]

/-- every variable belongs to at most two tensors -/
def Inv (x : ι → T V D R) (s : Finset ι) : Prop :=
  ∀ i ∈ s, ∀ j ∈ s, ∀ k ∈ s, i ≠ j → j ≠ k → i ≠ k → ∀ v, ¬ (v ∈ (x i).legs ∧ v ∈ (x j).legs ∧ v ∈ (x k).legs)

/-- the linked variables -/
def linked (x : ι → T V D R) (s : Finset ι) : Finset V :=
  by classical exact univ.filter fun v => ∃ i ∈ s, ∃ j ∈ s, i ≠ j ∧ v ∈ (x i).legs ∧ v ∈ (x j).legs

theorem mem_linked {x : ι → T V D R} {s : Finset ι} {v : V} :
    v ∈ linked x s ↔ ∃ i ∈ s, ∃ j ∈ s, i ≠ j ∧ v ∈ (x i).legs ∧ v ∈ (x j).legs := by
  simp [linked]

/-- the tensor a network stands for: the sum over all linked variables of the product of all entries -/
def value (x : ι → T V D R) (s : Finset ι) : (∀ v, D v) → R :=
  sumOver (linked x s) fun σ => ∏ i ∈ s, (x i).entry σ

/-- one step: slot `c` becomes the product of the slots `c` and `o`, slot `o` is gone -/
def upd (x : ι → T V D R) (c o : ι) : ι → T V D R := Function.update x c (mul (x c) (x o))

variable {x : ι → T V D R} {s : Finset ι} {c o : ι}

theorem legs_upd {i : ι} {v : V} : v ∈ (upd x c o i).legs ↔
    if i = c then (v ∈ (x c).legs ∧ v ∉ (x o).legs) ∨ (v ∈ (x o).legs ∧ v ∉ (x c).legs) else v ∈ (x i).legs := by
  unfold upd
  by_cases h : i = c
  · subst h
    simp [mul, Finset.mem_symmDiff]
  · simp [h]

theorem step_inv (h : Inv x s) (hc : c ∈ s) (ho : o ∈ s) (hco : c ≠ o) : Inv (upd x c o) (s.erase o) := by
  intro i hi j hj k hk hij hjk hik v ⟨h1, h2, h3⟩
  rw [legs_upd] at h1 h2 h3
  simp only [Finset.mem_erase] at hi hj hk
  have e := fun a ha b hb d hd (p : a ≠ b) (q : b ≠ d) (r : a ≠ d) => h a ha b hb d hd p q r v
  have e1 := e i hi.2 j hj.2 k hk.2 hij hjk hik
  by_cases ic : i = c
  · subst ic
    have jc : j ≠ i := fun q => hij q.symm
    have kc : k ≠ i := fun q => hik q.symm
    simp only [if_true, if_neg jc, if_neg kc] at h1 h2 h3
    have e2 := e o ho j hj.2 k hk.2 hj.1.symm hjk hk.1.symm
    tauto
  · by_cases jc : j = c
    · subst jc
      have kc : k ≠ j := fun q => hjk q.symm
      simp only [if_true, if_neg ic, if_neg kc] at h1 h2 h3
      have e2 := e o ho i hi.2 k hk.2 hi.1.symm hik hk.1.symm
      tauto
    · by_cases kc : k = c
      · subst kc
        simp only [if_true, if_neg ic, if_neg jc] at h1 h2 h3
        have e2 := e o ho i hi.2 j hj.2 hi.1.symm hij hj.1.symm
        tauto
      · simp only [if_neg ic, if_neg jc, if_neg kc] at h1 h2 h3
        tauto

theorem linked_step (hc : c ∈ s) (ho : o ∈ s) (hco : c ≠ o) :
    linked x s = linked (upd x c o) (s.erase o) ∪ ((x c).legs ∩ (x o).legs) := by
  ext v
  simp only [Finset.mem_union, Finset.mem_inter, mem_linked, legs_upd, Finset.mem_erase]
  constructor
  · rintro ⟨i, hi, j, hj, hij, vi, vj⟩
    by_cases both : v ∈ (x c).legs ∧ v ∈ (x o).legs
    · exact Or.inr both
    left
    by_cases io : i = o
    · subst io
      have vc : v ∉ (x c).legs := fun q => both ⟨q, vi⟩
      have jc : j ≠ c := fun q => vc (q ▸ vj)
      exact ⟨c, ⟨hco, hc⟩, j, ⟨hij.symm, hj⟩, jc.symm, by simp [vi, vc], by simp [jc, vj]⟩
    · by_cases jo : j = o
      · subst jo
        have vc : v ∉ (x c).legs := fun q => both ⟨q, vj⟩
        have ic : i ≠ c := fun q => vc (q ▸ vi)
        exact ⟨c, ⟨hco, hc⟩, i, ⟨io, hi⟩, ic.symm, by simp [vj, vc], by simp [ic, vi]⟩
      · refine ⟨i, ⟨io, hi⟩, j, ⟨jo, hj⟩, hij, ?_, ?_⟩
        · by_cases ic : i = c
          · subst ic
            have : v ∉ (x o).legs := fun q => both ⟨vi, q⟩
            simp [vi, this]
          · simp [ic, vi]
        · by_cases jc : j = c
          · subst jc
            have : v ∉ (x o).legs := fun q => both ⟨vj, q⟩
            simp [vj, this]
          · simp [jc, vj]
  · rintro (⟨i, ⟨io, hi⟩, j, ⟨jo, hj⟩, hij, vi, vj⟩ | ⟨vc, vo⟩)
    · by_cases ic : i = c
      · subst ic
        have jc : j ≠ i := fun q => hij q.symm
        simp only [if_true, if_neg jc] at vi vj
        rcases vi with ⟨a, -⟩ | ⟨a, -⟩
        · exact ⟨i, hc, j, hj, hij, a, vj⟩
        · exact ⟨o, ho, j, hj, jo.symm, a, vj⟩
      · by_cases jc : j = c
        · subst jc
          simp only [if_true, if_neg ic] at vi vj
          rcases vj with ⟨a, -⟩ | ⟨a, -⟩
          · exact ⟨i, hi, j, hc, hij, vi, a⟩
          · exact ⟨i, hi, o, ho, io, vi, a⟩
        · simp only [if_neg ic, if_neg jc] at vi vj
          exact ⟨i, hi, j, hj, hij, vi, vj⟩
    · exact ⟨c, hc, o, ho, hco, vc, vo⟩

theorem linked_disjoint (h : Inv x s) (hc : c ∈ s) (ho : o ∈ s) (hco : c ≠ o) :
    Disjoint (linked (upd x c o) (s.erase o)) ((x c).legs ∩ (x o).legs) := by
  rw [Finset.disjoint_left]
  intro v hv hb
  simp only [Finset.mem_inter] at hb
  rw [mem_linked] at hv
  obtain ⟨i, hi, j, hj, hij, vi, vj⟩ := hv
  rw [legs_upd] at vi vj
  simp only [Finset.mem_erase] at hi hj
  by_cases ic : i = c
  · subst ic
    simp only [if_true] at vi
    tauto
  · by_cases jc : j = c
    · subst jc
      simp only [if_true] at vj
      tauto
    · simp only [if_neg ic] at vi
      exact h i hi.2 c hc o ho ic hco hi.1 v ⟨vi, hb.1, hb.2⟩

/-- the loop invariant: a contraction step does not change the tensor the network stands for -/
theorem step_value (h : Inv x s) (hc : c ∈ s) (ho : o ∈ s) (hco : c ≠ o) :
    value (upd x c o) (s.erase o) = value x s := by
  funext σ
  have hc' : c ∈ s.erase o := by simp [hco, hc]
  unfold value
  rw [linked_step hc ho hco, sumOver_union (linked_disjoint h hc ho hco)]
  congr 1
  funext τ
  have rest : ∏ i ∈ (s.erase o).erase c, (upd x c o i).entry τ = ∏ i ∈ (s.erase o).erase c, (x i).entry τ := by
    refine Finset.prod_congr rfl fun i hi => ?_
    have : i ≠ c := (Finset.mem_erase.mp hi).1
    simp [upd, this]
  rw [← Finset.mul_prod_erase _ _ hc', rest]
  have split : (fun ρ => ∏ i ∈ s, (x i).entry ρ) =
      fun ρ => ((x c).entry ρ * (x o).entry ρ) * ∏ i ∈ (s.erase o).erase c, (x i).entry ρ := by
    funext ρ
    rw [← Finset.mul_prod_erase _ _ ho, ← Finset.mul_prod_erase _ _ hc', ← mul_assoc, mul_comm ((x o).entry ρ)]
  rw [split, sumOver_mul_right (S := ((s.erase o).erase c).biUnion fun i => (x i).legs)]
  · simp [upd, mul]
  · intro σ τ hst
    refine Finset.prod_congr rfl fun i hi => (x i).loc _ _ fun v hv => hst v ?_
    exact Finset.mem_biUnion.mpr ⟨i, hi, hv⟩
  · rw [Finset.disjoint_left]
    intro v hv hb
    obtain ⟨i, hi, vi⟩ := Finset.mem_biUnion.mp hb
    simp only [Finset.mem_inter] at hv
    simp only [Finset.mem_erase] at hi
    exact h i hi.2.2 c hc o ho hi.1 hco hi.2.1 v ⟨vi, hv.1, hv.2⟩

/-- contractions along a sequence of pairs of slots that are still there -/
inductive Run : (ι → T V D R) → Finset ι → (ι → T V D R) → Finset ι → Prop
  | done (x : ι → T V D R) (s : Finset ι) : Run x s x s
  | step {x : ι → T V D R} {s : Finset ι} {c o : ι} {y : ι → T V D R} {t : Finset ι} : c ∈ s → o ∈ s → c ≠ o → Run (upd x c o) (s.erase o) y t → Run x s y t

theorem run_value {y : ι → T V D R} {t : Finset ι} (r : Run x s y t) (h : Inv x s) : value y t = value x s := by
  induction r with
  | done => rfl
  | step hc ho hco _ ih => rw [ih (step_inv h hc ho hco), step_value h hc ho hco]

/-- the variables of legs that are not linked -/
def outer (x : ι → T V D R) (s : Finset ι) : Finset V := (s.biUnion fun i => (x i).legs) \ linked x s

theorem step_outer (h : Inv x s) (hc : c ∈ s) (ho : o ∈ s) (hco : c ≠ o) :
    outer (upd x c o) (s.erase o) = outer x s := by
  ext v
  have hl : v ∈ linked x s ↔ v ∈ linked (upd x c o) (s.erase o) ∨ (v ∈ (x c).legs ∧ v ∈ (x o).legs) := by
    rw [linked_step hc ho hco, Finset.mem_union, Finset.mem_inter]
  simp only [outer, Finset.mem_sdiff, Finset.mem_biUnion, hl]
  constructor
  · rintro ⟨⟨i, hi, vi⟩, hn⟩
    rw [legs_upd] at vi
    simp only [Finset.mem_erase] at hi
    have hb : ¬ (v ∈ (x c).legs ∧ v ∈ (x o).legs) := by
      intro hb
      by_cases ic : i = c
      · subst ic; simp only [if_true] at vi; tauto
      · simp only [if_neg ic] at vi
        exact h i hi.2 c hc o ho ic hco hi.1 v ⟨vi, hb.1, hb.2⟩
    refine ⟨?_, by tauto⟩
    by_cases ic : i = c
    · subst ic
      simp only [if_true] at vi
      rcases vi with ⟨a, -⟩ | ⟨a, -⟩
      · exact ⟨i, hc, a⟩
      · exact ⟨o, ho, a⟩
    · simp only [if_neg ic] at vi
      exact ⟨i, hi.2, vi⟩
  · rintro ⟨⟨i, hi, vi⟩, hn⟩
    have hb : ¬ (v ∈ (x c).legs ∧ v ∈ (x o).legs) := by tauto
    refine ⟨?_, by tauto⟩
    by_cases io : i = o
    · subst io
      exact ⟨c, by simp [hco, hc], by rw [legs_upd]; simp; tauto⟩
    · refine ⟨i, by simp [io, hi], ?_⟩
      rw [legs_upd]
      by_cases ic : i = c
      · subst ic; simp; tauto
      · simp [ic, vi]

theorem run_outer {y : ι → T V D R} {t : Finset ι} (r : Run x s y t) (h : Inv x s) : outer y t = outer x s := by
  induction r with
  | done => rfl
  | step hc ho hco _ ih => rw [ih (step_inv h hc ho hco), step_outer h hc ho hco]

theorem value_single (x : ι → T V D R) (c : ι) : value x {c} = (x c).entry := by
  have : linked x {c} = ∅ := by
    ext v
    simp only [mem_linked, Finset.mem_singleton, Finset.notMem_empty, iff_false]
    rintro ⟨i, rfl, j, rfl, hij, -⟩
    exact hij rfl
  funext σ
  simp [value, this, sumOver_empty]

/-- every sequence that leaves one slot gives the sum over all linked variables of the product of all entries -/
theorem network_contraction {y : ι → T V D R} (r : Run x s y {c}) (h : Inv x s) : (y c).entry = value x s := by
  rw [← value_single, run_value r h]

/-- its legs are those that were not linked -/
theorem network_legs {y : ι → T V D R} (r : Run x s y {c}) (h : Inv x s) : (y c).legs = outer x s := by
  rw [← run_outer r h]
  have : linked y {c} = ∅ := by
    ext v
    simp only [mem_linked, Finset.mem_singleton, Finset.notMem_empty, iff_false]
    rintro ⟨i, rfl, j, rfl, hij, -⟩
    exact hij rfl
  simp [outer, this]

/-- two sequences that leave the same slot give the same entries -/
theorem order_independent {y z : ι → T V D R} {d : ι} (r : Run x s y {c}) (q : Run x s z {d}) (h : Inv x s) :
    (y c).entry = (z d).entry := by
  rw [network_contraction r h, network_contraction q h]

end Network

#print axioms Network.network_contraction
#print axioms Network.network_legs
#print axioms Network.order_independent
