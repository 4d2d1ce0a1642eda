/- The directory part of a silo name, as contracted for numpart() in units/silo.c:
   the level, and the pairs of digits printed below it. -/
def path (lvl n : Nat) : Nat × List Nat :=
  if h : n ≥ 100 then
    let p := path (lvl + 1) (n / 100)
    (p.1, p.2 ++ (if lvl > 0 then [n % 100] else []))
  else (lvl, if lvl > 0 then [n] else [])
termination_by n
decreasing_by omega

def value (l : List Nat) : Nat := l.foldl (fun a d => a * 100 + d) 0

theorem value_append (l : List Nat) (d : Nat) : value (l ++ [d]) = value l * 100 + d := by
  simp [value, List.foldl_append]

/-- below a level directory, the pairs spell the number -/
theorem path_value (n : Nat) : ∀ lvl, lvl > 0 → value (path lvl n).2 = n := by
  induction n using Nat.strongRecOn with
  | _ n ih =>
    intro lvl hl
    unfold path
    by_cases h : n ≥ 100
    · simp only [h, dif_pos, hl, if_true]
      rw [value_append, ih (n / 100) (by omega) (lvl + 1) (by omega)]
      omega
    · simp [h, hl, value]

/-- every pair is printed with two digits -/
theorem path_pairs (n : Nat) : ∀ lvl, ∀ d ∈ (path lvl n).2, d < 100 := by
  induction n using Nat.strongRecOn with
  | _ n ih =>
    intro lvl d hd
    unfold path at hd
    by_cases h : n ≥ 100
    · simp only [h, dif_pos, List.mem_append] at hd
      rcases hd with hd | hd
      · exact ih (n / 100) (by omega) (lvl + 1) d hd
      · by_cases hl : lvl > 0
        · simp [hl] at hd; omega
        · simp [hl] at hd
    · by_cases hl : lvl > 0
      · simp [h, hl] at hd; omega
      · simp [h, hl] at hd

/-- the level grows by one for each further pair -/
theorem path_level (n : Nat) : ∀ lvl, lvl > 0 → (path lvl n).1 + 1 = lvl + (path lvl n).2.length := by
  induction n using Nat.strongRecOn with
  | _ n ih =>
    intro lvl hl
    unfold path
    by_cases h : n ≥ 100
    · simp only [h, dif_pos, hl, if_true, List.length_append, List.length_singleton]
      have := ih (n / 100) (by omega) (lvl + 1) (by omega)
      omega
    · simp [h, hl]

theorem path_top (n : Nat) : path 0 n = if n ≥ 100 then path 1 (n / 100) else (0, []) := by
  rw [path]
  by_cases h : n ≥ 100 <;> simp [h]

theorem path_lvl_pos (n : Nat) : (path 1 n).1 ≥ 1 := by
  have h := path_level n 1 (by omega)
  have : (path 1 n).2.length ≥ 1 := by
    unfold path
    by_cases h : n ≥ 100 <;> simp [h]
  omega

/-- silos share a directory exactly if they differ in the last two digits only:
    never more than 100 in one directory -/
theorem same_dir (a b : Nat) : path 0 a = path 0 b ↔ a / 100 = b / 100 := by
  rw [path_top, path_top]
  constructor
  · intro h
    by_cases ha : a ≥ 100 <;> by_cases hb : b ≥ 100 <;> simp only [ha, hb, if_true, if_false] at h
    · have := path_value (a / 100) 1 (by omega)
      rw [h, path_value (b / 100) 1 (by omega)] at this
      omega
    · have := path_lvl_pos (a / 100)
      rw [h] at this; simp at this
    · have := path_lvl_pos (b / 100)
      rw [← h] at this; simp at this
    · omega
  · intro h
    by_cases ha : a ≥ 100 <;> by_cases hb : b ≥ 100 <;> simp only [ha, hb, if_true, if_false]
    · rw [h]
    · omega
    · omega
