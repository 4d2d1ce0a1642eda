/- The predicted record number of a key grows with the key.
   Used as an assumed instance by the units bucket_update and bucket_seek. -/
theorem mul_div_mono (k1 k2 n : Nat) (h : k1 ≤ k2) :
    (k1 / 2^40) * n / 2^24 ≤ (k2 / 2^40) * n / 2^24 :=
  Nat.div_le_div_right (Nat.mul_le_mul_right n (Nat.div_le_div_right h))

/- ... and does not wrap: a 64 bit key and a 40 bit record count. -/
theorem mul_no_wrap (k n : Nat) (hk : k < 2^64) (hn : n < 2^40) :
    (k / 2^40) * n < 2^64 := by
  have h1 : k / 2^40 < 2^24 := by
    apply Nat.div_lt_of_lt_mul
    simpa using hk
  calc (k / 2^40) * n ≤ (2^24 - 1) * n := Nat.mul_le_mul_right n (by omega)
    _ ≤ (2^24 - 1) * (2^40 - 1) := Nat.mul_le_mul_left _ (by omega)
    _ < 2^64 := by decide

/- The chain: a table entry that is at most n(R) - U(R) for a record R starts a
   lookup for any key K ≤ R of the same bucket no later than at R. -/
theorem lookup_starts_in_time (uk uw e n : Int) (h1 : uk ≤ uw) (h2 : e ≤ n - uw) (h3 : 0 ≤ n) :
    max 0 (uk + e) ≤ n := by omega
