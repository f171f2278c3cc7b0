/-
Lemmas the verifier instantiates without being able to prove them itself
(they need induction or counting).  Each is stated here as it is used;
`lean Lemmas.lean` checks all of them.
-/
import Mathlib.Data.Finset.Card
import Mathlib.Data.Int.Interval
import Mathlib.Data.Int.Order.Basic
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Data.Real.Basic
import Mathlib.Tactic

open Finset

namespace Verif

/-- pyvc/builtins_.py `pigeonhole`: a finite set of integers with minimum a and maximum b
has at most b-a+1 elements ... -/
theorem pigeonhole_le (S : Finset ℤ) (a b : ℤ) (hS : S.Nonempty) (h : ∀ x ∈ S, a ≤ x ∧ x ≤ b) :
    (S.card : ℤ) ≤ b - a + 1 := by
  have hsub : S ⊆ Icc a b := fun x hx => mem_Icc.mpr (h x hx)
  have hc := card_le_card hsub
  obtain ⟨x, hx⟩ := hS
  have hab : a ≤ b := le_trans (h x hx).1 (h x hx).2
  rw [Int.card_Icc] at hc
  omega

/-- ... if it has b-a+1 elements it contains everything in between ... -/
theorem pigeonhole_cover (S : Finset ℤ) (a b : ℤ) (h : ∀ x ∈ S, a ≤ x ∧ x ≤ b)
    (hc : (S.card : ℤ) = b - a + 1) (x : ℤ) (hx : a ≤ x ∧ x ≤ b) : x ∈ S := by
  have hsub : S ⊆ Icc a b := fun x hx => mem_Icc.mpr (h x hx)
  have heq : S = Icc a b := by
    apply eq_of_subset_of_card_le hsub
    rw [Int.card_Icc]
    omega
  rw [heq]
  exact mem_Icc.mpr hx

/-- ... and otherwise something in between is missing. -/
theorem pigeonhole_gap (S : Finset ℤ) (a b : ℤ) (hS : S.Nonempty) (h : ∀ x ∈ S, a ≤ x ∧ x ≤ b)
    (hc : (S.card : ℤ) ≠ b - a + 1) : ∃ y, a ≤ y ∧ y ≤ b ∧ y ∉ S := by
  by_contra hn
  push Not at hn
  apply hc
  have heq : S = Icc a b := by
    ext y
    constructor
    · intro hy; exact mem_Icc.mpr (h y hy)
    · intro hy; exact hn y (mem_Icc.mp hy).1 (mem_Icc.mp hy).2
  obtain ⟨x, hx⟩ := hS
  have hab : a ≤ b := le_trans (h x hx).1 (h x hx).2
  rw [heq, Int.card_Icc]
  omega

/-- the values of a finite map are no more than its keys, and some if there are keys
(pyvc/builtins_.py, set of dict values) -/
theorem values_card {α : Type} [DecidableEq α] (K : Finset α) (v : α → ℤ) :
    (K.image v).card ≤ K.card ∧ (0 < K.card → 0 < (K.image v).card) := by
  refine ⟨card_image_le, ?_⟩
  intro h
  rw [card_pos] at h ⊢
  exact h.image v

/-- contracts/vocab.py: n distinct keys of a dict with n entries are all its keys -/
theorem keys_all {α : Type} [DecidableEq α] (K : Finset α) (n : ℕ) (g : ℕ → α)
    (hinj : ∀ i j, i < n → j < n → i ≠ j → g i ≠ g j) (hmem : ∀ i, i < n → g i ∈ K)
    (hcard : K.card = n) (s : α) (hs : s ∈ K) : ∃ i, i < n ∧ g i = s := by
  have himg : (range n).image g = K := by
    apply eq_of_subset_of_card_le
    · intro x hx
      obtain ⟨i, hi, rfl⟩ := mem_image.mp hx
      exact hmem i (mem_range.mp hi)
    · rw [card_image_of_injOn, card_range, hcard]
      intro i hi j hj hij
      by_contra hne
      exact hinj i j (by simpa using hi) (by simpa using hj) hne hij
  rw [← himg] at hs
  obtain ⟨i, hi, rfl⟩ := mem_image.mp hs
  exact ⟨i, mem_range.mp hi, rfl⟩

/-- pyvc/order.py `filter_lemma`: if the items of [lo, n) that the condition leaves out map
injectively into a finite set S, at least n - lo - |S| items are kept -/
theorem filter_count {α : Type} [DecidableEq α] (lo n : ℤ) (cond : ℤ → Prop) [DecidablePred cond]
    (S : Finset α) (f : ℤ → α)
    (hin : ∀ k, lo ≤ k → k < n → ¬ cond k → f k ∈ S)
    (hinj : ∀ a b, lo ≤ a → a < b → b < n → f a ≠ f b) :
    n - lo - (S.card : ℤ) ≤ (((Ico lo n).filter cond).card : ℤ) := by
  have hsplit := card_filter_add_card_filter_not (s := Ico lo n) cond
  have hout : ((Ico lo n).filter (fun k => ¬ cond k)).card ≤ S.card := by
    apply card_le_card_of_injOn f
    · intro k hk
      have hk' := mem_filter.mp (mem_coe.mp hk)
      have hr := mem_Ico.mp hk'.1
      simpa using hin k hr.1 hr.2 hk'.2
    · intro a ha b hb hab
      have ha' := mem_Ico.mp (mem_filter.mp (mem_coe.mp ha)).1
      have hb' := mem_Ico.mp (mem_filter.mp (mem_coe.mp hb)).1
      by_contra hne
      rcases lt_or_gt_of_ne hne with h | h
      · exact hinj a b ha'.1 h hb'.2 hab
      · exact hinj b a hb'.1 h ha'.2 hab.symm
  rw [Int.card_Ico] at hsplit
  omega

/-- pyvc/terms.py `binder_facts`: sums of non-negative terms are non-negative ... -/
theorem sum_nonneg' (f : ℕ → ℤ) (h : ∀ k, 0 ≤ f k) (n : ℕ) : 0 ≤ ∑ k ∈ range n, f k :=
  Finset.sum_nonneg (fun k _ => h k)

/-- ... and monotone ... -/
theorem sum_mono (f : ℕ → ℤ) (h : ∀ k, 0 ≤ f k) (lo hi : ℕ) (hl : lo < hi) :
    ∑ k ∈ range lo, f k + f lo ≤ ∑ k ∈ range hi, f k := by
  rw [← sum_range_succ]
  exact sum_le_sum_of_subset_of_nonneg (range_subset_range.mpr hl) (fun k _ _ => h k)

/-- ... and a sum of n zeros and ones lies within [0, n] -/
theorem sum_bits (f : ℕ → ℤ) (h : ∀ k, f k = 0 ∨ f k = 1) (n : ℕ) :
    0 ≤ ∑ k ∈ range n, f k ∧ ∑ k ∈ range n, f k ≤ n := by
  constructor
  · apply Finset.sum_nonneg
    intro k _
    rcases h k with h | h <;> omega
  · calc ∑ k ∈ range n, f k ≤ ∑ _k ∈ range n, (1 : ℤ) := by
          apply Finset.sum_le_sum
          intro k _
          rcases h k with h | h <;> omega
      _ = n := by simp

/-- pyvc/terms.py `sum`: the rewriting to linear normal form, and the definitional unfolding -/
theorem sum_const' {R : Type} [CommRing R] (c : R) (n : ℕ) : ∑ _k ∈ range n, c = n * c := by simp

theorem sum_add' {R : Type} [CommRing R] (f g : ℕ → R) (n : ℕ) :
    ∑ k ∈ range n, (f k + g k) = ∑ k ∈ range n, f k + ∑ k ∈ range n, g k := sum_add_distrib

theorem sum_mul' {R : Type} [CommRing R] (c : R) (f : ℕ → R) (n : ℕ) :
    ∑ k ∈ range n, c * f k = c * ∑ k ∈ range n, f k := (mul_sum _ _ _).symm

theorem sum_last {R : Type} [CommRing R] (f : ℕ → R) (n : ℕ) (h : 0 < n) :
    ∑ k ∈ range n, f k = ∑ k ∈ range (n - 1), f k + f (n - 1) := by
  obtain ⟨m, rfl⟩ := Nat.exists_eq_succ_of_ne_zero (Nat.pos_iff_ne_zero.mp h)
  simp [sum_range_succ]

/-- contracts/compat.py "round trip lemma": squares of a scaled vector -/
theorem sum_sq_scaled (c : ℝ) (x : ℕ → ℝ) (n : ℕ) :
    ∑ k ∈ range n, (c * x k) * (c * x k) = c * c * ∑ k ∈ range n, x k * x k := by
  rw [mul_sum]
  apply sum_congr rfl
  intro k _
  ring

/-- contracts/compat.py `w2v_file`: "row, newline" repeated n times is "newline unless first, row"
repeated n times followed by a newline if there are rows -/
theorem rotation {β : Type} (row : ℕ → List β) (nl : β) (n : ℕ) :
    (List.range n).flatMap (fun i => row i ++ [nl]) =
      (List.range n).flatMap (fun i => (if 0 < i then [nl] else []) ++ row i) ++ (if 0 < n then [nl] else []) := by
  induction n with
  | zero => simp
  | succ n ih =>
    rw [List.range_succ, List.flatMap_append, List.flatMap_append, ih]
    by_cases h : 0 < n <;> simp [h]

/-! ### Theory of strings (pyvc/terms.py `string_axioms`)

A string is a list of code points; its UTF-8 encoding the concatenation of those of its characters.
Every axiom is a theorem of this model, so the axioms are consistent and true of UTF-8. -/

def enc (c : ℕ) : List ℕ :=
  if c < 0x80 then [c]
  else if c < 0x800 then [0xC0 + c / 64, 0x80 + c % 64]
  else if c < 0x10000 then [0xE0 + c / 4096, 0x80 + c / 64 % 64, 0x80 + c % 64]
  else [0xF0 + c / 262144, 0x80 + c / 4096 % 64, 0x80 + c / 64 % 64, 0x80 + c % 64]

def utf8 (s : List ℕ) : List ℕ := s.flatMap enc

/-- (byte & 0xC0) != 0x80 -/
def isStart (b : ℕ) : Bool := !(decide (0x80 ≤ b) && decide (b < 0xC0))

def blen (s : List ℕ) : ℕ := (utf8 s).length
def boff (s : List ℕ) (i : ℕ) : ℕ := blen (s.take i)
def ubyte (s : List ℕ) (k : ℕ) : ℕ := (utf8 s).getD k 0
def nchar (s : List ℕ) (p : ℕ) : ℕ := ((utf8 s).take p).countP isStart
def ssub (s : List ℕ) (i n : ℕ) : List ℕ := (s.drop i).take n

theorem isStart_mask (b : Fin 256) : isStart b.val = (b.val &&& 0xC0 != 0x80) := by
  revert b; set_option maxRecDepth 100000 in decide

/-- a character is encoded by a start byte followed by at most three continuation bytes -/
theorem enc_shape (c : ℕ) (h : c < 0x110000) :
    ∃ b t, enc c = b :: t ∧ isStart b = true ∧ t.length ≤ 3 ∧ (∀ x ∈ t, isStart x = false) ∧ b < 256 ∧ (∀ x ∈ t, x < 256) := by
  unfold enc
  split
  · exact ⟨c, [], rfl, by simp [isStart]; omega, by simp, by simp, by omega, by simp⟩
  split
  · refine ⟨_, _, rfl, ?_, by simp, ?_, by omega, ?_⟩
    · simp [isStart]
    · intro x hx; simp at hx; subst hx; simp [isStart]; omega
    · intro x hx; simp at hx; subst hx; omega
  split
  · refine ⟨_, _, rfl, ?_, by simp, ?_, by omega, ?_⟩
    · simp [isStart]; omega
    · intro x hx; simp at hx; rcases hx with rfl | rfl <;> (simp [isStart]; omega)
    · intro x hx; simp at hx; rcases hx with rfl | rfl <;> omega
  · refine ⟨_, _, rfl, ?_, by simp, ?_, by omega, ?_⟩
    · simp [isStart]; omega
    · intro x hx; simp at hx; rcases hx with rfl | rfl | rfl <;> (simp [isStart]; omega)
    · intro x hx; simp at hx; rcases hx with rfl | rfl | rfl <;> omega

theorem getD_right (a b : List ℕ) (k : ℕ) : (a ++ b).getD (a.length + k) 0 = b.getD k 0 := by
  rw [List.getD_eq_getElem?_getD, List.getD_eq_getElem?_getD, List.getElem?_append_right (by omega)]
  simp

theorem getD_left (a b : List ℕ) (k : ℕ) (h : k < a.length) : (a ++ b).getD k 0 = a.getD k 0 := by
  simp [List.getD_eq_getElem?_getD, List.getElem?_append_left h]

def Ok (s : List ℕ) : Prop := ∀ c ∈ s, c < 0x110000

theorem enc_len (c : ℕ) (h : c < 0x110000) : 1 ≤ (enc c).length ∧ (enc c).length ≤ 4 := by
  obtain ⟨b, t, he, _, ht, _⟩ := enc_shape c h
  rw [he]; simp; omega

theorem enc_count (c : ℕ) (h : c < 0x110000) : (enc c).countP isStart = 1 := by
  obtain ⟨b, t, he, hb, _, ht, _⟩ := enc_shape c h
  rw [he, List.countP_cons, hb]
  have : t.countP isStart = 0 := by
    rw [List.countP_eq_zero]
    intro x hx; rw [ht x hx]; simp
  simp [this]

theorem utf8_append (a b : List ℕ) : utf8 (a ++ b) = utf8 a ++ utf8 b := by simp [utf8]

theorem slen_scat (a b : List ℕ) : (a ++ b).length = a.length + b.length := List.length_append

theorem slen_ssub (s : List ℕ) (i n : ℕ) (h : i + n ≤ s.length) : (ssub s i n).length = n := by
  simp [ssub]; omega

theorem code_ssub (s : List ℕ) (i n k : ℕ) (_h : i + n ≤ s.length) (hk : k < n) :
    (ssub s i n).getD k 0 = s.getD (i + k) 0 := by
  simp [ssub, List.getD_eq_getElem?_getD, hk, List.getElem?_drop]

theorem ssub_ssub (s : List ℕ) (i n j m : ℕ) (_h : i + n ≤ s.length) (hm : j + m ≤ n) :
    ssub (ssub s i n) j m = ssub s (i + j) m := by
  simp only [ssub, List.drop_take, List.drop_drop, List.take_take]
  congr 1
  omega

theorem ssub_all (s : List ℕ) : ssub s 0 s.length = s := by simp [ssub]

theorem blen_append (a b : List ℕ) : blen (a ++ b) = blen a + blen b := by simp [blen, utf8_append]

theorem blen_bounds (s : List ℕ) (h : Ok s) : s.length ≤ blen s ∧ blen s ≤ 4 * s.length := by
  induction s with
  | nil => simp [blen, utf8]
  | cons c s ih =>
    have hc := enc_len c (h c (by simp))
    have hs := ih (fun x hx => h x (by simp [hx]))
    have : blen (c :: s) = (enc c).length + blen s := by simp [blen, utf8]
    simp only [List.length_cons]
    omega

theorem Ok.take {s : List ℕ} (h : Ok s) (i : ℕ) : Ok (s.take i) := fun c hc => h c (List.mem_of_mem_take hc)
theorem Ok.drop {s : List ℕ} (h : Ok s) (i : ℕ) : Ok (s.drop i) := fun c hc => h c (List.mem_of_mem_drop hc)

theorem boff_split (s : List ℕ) (i n : ℕ) : boff s (i + n) = boff s i + blen (ssub s i n) := by
  unfold boff ssub
  rw [List.take_add, blen_append]

theorem blen_ssub (s : List ℕ) (i n : ℕ) (_h : i + n ≤ s.length) :
    (blen (ssub s i n) : ℤ) = boff s (i + n) - boff s i := by
  rw [boff_split]; push_cast; ring

theorem utf8_split (s : List ℕ) (i n : ℕ) :
    utf8 s = utf8 (s.take i) ++ (utf8 (ssub s i n) ++ utf8 ((s.drop i).drop n)) := by
  rw [← utf8_append, ← utf8_append]
  congr 1
  rw [ssub, List.take_append_drop, List.take_append_drop]

theorem ubyte_ssub (s : List ℕ) (i n k : ℕ) (_h : i + n ≤ s.length) (hk : k < blen (ssub s i n)) :
    ubyte (ssub s i n) k = ubyte s (boff s i + k) := by
  unfold ubyte
  conv_rhs => rw [utf8_split s i n]
  have : boff s i = (utf8 (s.take i)).length := rfl
  rw [this, getD_right, getD_left _ _ _ (by simpa [blen] using hk)]

theorem boff_bounds (s : List ℕ) (hs : Ok s) (i : ℕ) (hi : i ≤ s.length) :
    i ≤ boff s i ∧ boff s i ≤ blen s ∧ s.length - i ≤ blen s - boff s i := by
  have h1 := blen_bounds (s.take i) (hs.take i)
  have h2 := blen_bounds (s.drop i) (hs.drop i)
  have h3 : blen s = boff s i + blen (s.drop i) := by
    unfold boff; rw [← blen_append, List.take_append_drop]
  rw [List.length_take, Nat.min_eq_left hi] at h1
  rw [List.length_drop] at h2
  unfold boff at *
  omega

theorem boff_mono (s : List ℕ) (hs : Ok s) (i j : ℕ) (hij : i < j) (hj : j ≤ s.length) :
    j - i ≤ boff s j - boff s i := by
  have h := boff_split s i (j - i)
  have hb := blen_bounds (ssub s i (j - i)) ((hs.drop i).take (j - i))
  rw [slen_ssub s i (j - i) (by omega)] at hb
  have : i + (j - i) = j := by omega
  rw [this] at h
  omega

theorem boff_zero (s : List ℕ) : boff s 0 = 0 := by simp [boff, blen, utf8]
theorem boff_slen (s : List ℕ) : boff s s.length = blen s := by simp [boff]

theorem count_utf8 (s : List ℕ) (hs : Ok s) : (utf8 s).countP isStart = s.length := by
  induction s with
  | nil => simp [utf8]
  | cons c s ih =>
    have : utf8 (c :: s) = enc c ++ utf8 s := by simp [utf8]
    rw [this, List.countP_append, enc_count c (hs c (by simp)), ih (fun x hx => hs x (by simp [hx]))]
    simp; omega

theorem nchar_boff (s : List ℕ) (hs : Ok s) (i : ℕ) (hi : i ≤ s.length) : nchar s (boff s i) = i := by
  unfold nchar
  have : (utf8 s).take (boff s i) = utf8 (s.take i) := by
    conv_lhs => rw [← List.take_append_drop i s, utf8_append]
    unfold boff blen
    simp
  rw [this, count_utf8 _ (hs.take i), List.length_take, Nat.min_eq_left hi]

theorem start_boff (s : List ℕ) (hs : Ok s) (i : ℕ) (hi : i < s.length) : isStart (ubyte s (boff s i)) = true := by
  have h1 : i + 1 ≤ s.length := hi
  have hb := blen_bounds (ssub s i 1) ((hs.drop i).take 1)
  rw [slen_ssub s i 1 h1] at hb
  have := ubyte_ssub s i 1 0 h1 (by omega)
  rw [Nat.add_zero] at this
  rw [← this]
  have : ssub s i 1 = [s[i]] := by unfold ssub; rw [List.drop_eq_getElem_cons hi]; rfl
  rw [this]
  obtain ⟨b, t, he, hst, _⟩ := enc_shape s[i] (hs _ (List.getElem_mem hi))
  have hu : utf8 [s[i]] = b :: t := by simp [utf8, he]
  unfold ubyte
  rw [hu]
  exact hst

/-- every start byte is the first byte of a character (used for arrays of boundaries) -/
theorem start_is_boff (s : List ℕ) (hs : Ok s) (p : ℕ) (hp : p < blen s) (h : isStart (ubyte s p) = true) :
    p = boff s (nchar s p) ∧ nchar s p < s.length := by
  induction s generalizing p with
  | nil => simp [blen, utf8] at hp
  | cons c s ih =>
    obtain ⟨b, t, he, hb, _, ht, _⟩ := enc_shape c (hs c (by simp))
    have hu : utf8 (c :: s) = (b :: t) ++ utf8 s := by simp [utf8, he]
    by_cases hlt : p < t.length + 1
    · rcases Nat.eq_zero_or_pos p with h0 | h0
      · subst h0; simp [nchar, boff_zero]
      · exfalso
        have : ubyte (c :: s) p ∈ t := by
          unfold ubyte
          rw [hu, getD_left _ _ _ (by simpa using hlt)]
          obtain ⟨q, rfl⟩ : ∃ q, p = q + 1 := ⟨p - 1, by omega⟩
          simp only [List.getD_cons_succ]
          rw [List.getD_eq_getElem?_getD, List.getElem?_eq_getElem (by omega)]
          exact List.getElem_mem _
        rw [ht _ this] at h
        exact absurd h (by simp)
    · obtain ⟨q, rfl⟩ : ∃ q, p = (t.length + 1) + q := ⟨p - (t.length + 1), by omega⟩
      have hub : ubyte (c :: s) (t.length + 1 + q) = ubyte s q := by
        unfold ubyte
        have : t.length + 1 = (b :: t).length := by simp
        rw [hu, this, getD_right]
      have hbl : blen (c :: s) = (t.length + 1) + blen s := by unfold blen; rw [hu]; simp; omega
      have hn : nchar (c :: s) (t.length + 1 + q) = nchar s q + 1 := by
        unfold nchar
        have e1 := enc_count c (hs c (by simp))
        rw [he] at e1
        have : t.length + 1 = (b :: t).length := by simp
        rw [hu, this, List.take_length_add_append, List.countP_append, e1]
        omega
      have hbo : boff (c :: s) (nchar s q + 1) = (t.length + 1) + boff s (nchar s q) := by
        unfold boff blen
        simp [utf8, he]
        omega
      rw [hub] at h
      have := ih (fun x hx => hs x (by simp [hx])) q (by omega) h
      rw [hn, hbo]
      refine ⟨?_, ?_⟩
      · omega
      · simp; omega

end Verif
