import Mathlib

/-! Number theory behind the contracts (generated by tools/mklean.py): p = 2^255 - 19 and
the group order l are prime, the powers computed by the code are inverses and tests for squares. -/

namespace Ristretto

theorem order_step {n m r q k a c : ℕ} (hnm : n = m + 1) (hm0 : m ≠ 0) (hr : r.Prime) (hrn : r ∣ n) (hq : q.Prime) (hqn : q * k = m)
    (h1 : (a : ZMod n) ^ m = 1) (h2 : (a : ZMod n) ^ k = c) (hg : Nat.gcd (c + m) n = 1) : q ∣ r - 1 := by
  have : Fact r.Prime := ⟨hr⟩
  let f := ZMod.castHom hrn (ZMod r)
  have hm : ((m : ℕ) : ZMod r) = -1 := by
    have : ((m + 1 : ℕ) : ZMod r) = 0 := by rw [← hnm]; exact (ZMod.natCast_eq_zero_iff n r).2 hrn
    push_cast at this
    exact eq_neg_of_add_eq_zero_left this
  have e1 : (a : ZMod r) ^ m = 1 := by
    have := congrArg f h1
    rwa [map_pow, map_natCast, map_one] at this
  have e2' : (a : ZMod r) ^ k = c := by
    have := congrArg f h2
    rwa [map_pow, map_natCast, map_natCast] at this
  have e2 : (a : ZMod r) ^ k ≠ 1 := by
    intro h
    have : ((c + m : ℕ) : ZMod r) = 0 := by
      rw [Nat.cast_add, hm, ← e2', h]; ring
    have hd := Nat.dvd_gcd ((ZMod.natCast_eq_zero_iff _ r).1 this) hrn
    rw [hg] at hd
    exact hr.one_lt.ne' (Nat.dvd_one.1 hd)
  have ha : (a : ZMod r) ≠ 0 := by
    intro h
    rw [h, zero_pow hm0] at e1
    exact zero_ne_one e1
  have d1 : orderOf (a : ZMod r) ∣ m := orderOf_dvd_of_pow_eq_one e1
  have d2 : ¬ orderOf (a : ZMod r) ∣ k := fun h => e2 (orderOf_dvd_iff_pow_eq_one.1 h)
  have d3 : orderOf (a : ZMod r) ∣ r - 1 := orderOf_dvd_of_pow_eq_one (ZMod.pow_card_sub_one_eq_one ha)
  refine dvd_trans ?_ d3
  by_contra hnq
  have hc : Nat.Coprime (orderOf (a : ZMod r)) q := ((Nat.Prime.coprime_iff_not_dvd hq).2 hnq).symm
  exact d2 (hc.dvd_of_dvd_mul_left (by rwa [hqn]))

theorem pocklington {n m F : ℕ} (hnm : n = m + 1) (hm0 : m ≠ 0) (hF : n < F * F)
    (h : ∀ r : ℕ, r.Prime → r ∣ n → F ∣ r - 1) : n.Prime := by
  by_contra hnp
  have hr := Nat.minFac_prime (n := n) (by omega)
  have hle := Nat.le_of_dvd (Nat.sub_pos_of_lt hr.one_lt) (h _ hr (Nat.minFac_dvd n))
  have hsq := Nat.minFac_sq_le_self (by omega) hnp
  have hF' : F ≤ n.minFac := le_trans hle (Nat.sub_le _ _)
  have := Nat.mul_le_mul hF' hF'
  rw [sq] at hsq
  omega

theorem prime_8574133 : Nat.Prime 8574133 := by norm_num

theorem prime_127 : Nat.Prime 127 := by norm_num

theorem pow_1919519569386763_2 : (((2 : ℕ) : ZMod 1919519569386763)) ^ 1919519569386762 = 1 := by
  push_cast; reduce_mod_char

theorem pow_1919519569386763_8574133 : (((2 : ℕ) : ZMod 1919519569386763)) ^ 223873314 = ((1059928654987441 : ℕ) : ZMod 1919519569386763) := by
  push_cast; reduce_mod_char

theorem pow_1919519569386763_127 : (((2 : ℕ) : ZMod 1919519569386763)) ^ 15114327318006 = ((576774792492622 : ℕ) : ZMod 1919519569386763) := by
  push_cast; reduce_mod_char

theorem prime_1919519569386763 : Nat.Prime 1919519569386763 :=
  pocklington (m := 1919519569386762) (F := 8574133 * 127) (by norm_num) (by norm_num) (by norm_num) fun r hr hd =>
    Nat.Coprime.mul_dvd_of_dvd_of_dvd (by norm_num) (order_step (m := 1919519569386762) (q := 8574133) (k := 223873314) (a := 2) (by norm_num) (by norm_num) hr hd prime_8574133 (by norm_num) pow_1919519569386763_2 pow_1919519569386763_8574133 (by norm_num))
      (order_step (m := 1919519569386762) (q := 127) (k := 15114327318006) (a := 2) (by norm_num) (by norm_num) hr hd prime_127 (by norm_num) pow_1919519569386763_2 pow_1919519569386763_127 (by norm_num))

theorem prime_569003 : Nat.Prime 569003 := by norm_num

theorem pow_2773320623_2 : (((2 : ℕ) : ZMod 2773320623)) ^ 2773320622 = 1 := by
  push_cast; reduce_mod_char

theorem pow_2773320623_569003 : (((2 : ℕ) : ZMod 2773320623)) ^ 4874 = ((2039232613 : ℕ) : ZMod 2773320623) := by
  push_cast; reduce_mod_char

theorem prime_2773320623 : Nat.Prime 2773320623 :=
  pocklington (m := 2773320622) (F := 569003) (by norm_num) (by norm_num) (by norm_num) fun r hr hd =>
    (order_step (m := 2773320622) (q := 569003) (k := 4874) (a := 2) (by norm_num) (by norm_num) hr hd prime_569003 (by norm_num) pow_2773320623_2 pow_2773320623_569003 (by norm_num))

theorem pow_72106336199_2 : (((2 : ℕ) : ZMod 72106336199)) ^ 72106336198 = 1 := by
  push_cast; reduce_mod_char

theorem pow_72106336199_2773320623 : (((2 : ℕ) : ZMod 72106336199)) ^ 26 = ((67108864 : ℕ) : ZMod 72106336199) := by
  push_cast; reduce_mod_char

theorem prime_72106336199 : Nat.Prime 72106336199 :=
  pocklington (m := 72106336198) (F := 2773320623) (by norm_num) (by norm_num) (by norm_num) fun r hr hd =>
    (order_step (m := 72106336198) (q := 2773320623) (k := 26) (a := 2) (by norm_num) (by norm_num) hr hd prime_2773320623 (by norm_num) pow_72106336199_2 pow_72106336199_2773320623 (by norm_num))

theorem pow_75445702479781427272750846543864801_2 : (((2 : ℕ) : ZMod 75445702479781427272750846543864801)) ^ 75445702479781427272750846543864800 = 1 := by
  push_cast; reduce_mod_char

theorem pow_75445702479781427272750846543864801_1919519569386763 : (((2 : ℕ) : ZMod 75445702479781427272750846543864801)) ^ 39304471641247389600 = ((56747016255153332959347766392083459 : ℕ) : ZMod 75445702479781427272750846543864801) := by
  push_cast; reduce_mod_char

theorem pow_75445702479781427272750846543864801_72106336199 : (((2 : ℕ) : ZMod 75445702479781427272750846543864801)) ^ 1046311689884858398375200 = ((71619851993489548214160924360205394 : ℕ) : ZMod 75445702479781427272750846543864801) := by
  push_cast; reduce_mod_char

theorem prime_75445702479781427272750846543864801 : Nat.Prime 75445702479781427272750846543864801 :=
  pocklington (m := 75445702479781427272750846543864800) (F := 1919519569386763 * 72106336199) (by norm_num) (by norm_num) (by norm_num) fun r hr hd =>
    Nat.Coprime.mul_dvd_of_dvd_of_dvd (by norm_num) (order_step (m := 75445702479781427272750846543864800) (q := 1919519569386763) (k := 39304471641247389600) (a := 2) (by norm_num) (by norm_num) hr hd prime_1919519569386763 (by norm_num) pow_75445702479781427272750846543864801_2 pow_75445702479781427272750846543864801_1919519569386763 (by norm_num))
      (order_step (m := 75445702479781427272750846543864800) (q := 72106336199) (k := 1046311689884858398375200) (a := 2) (by norm_num) (by norm_num) hr hd prime_72106336199 (by norm_num) pow_75445702479781427272750846543864801_2 pow_75445702479781427272750846543864801_72106336199 (by norm_num))

theorem prime_430751 : Nat.Prime 430751 := by norm_num

theorem prime_4153 : Nat.Prime 4153 := by norm_num

theorem pow_31757755568855353_2 : (((2 : ℕ) : ZMod 31757755568855353)) ^ 31757755568855352 = 1 := by
  push_cast; reduce_mod_char

theorem pow_31757755568855353_430751 : (((2 : ℕ) : ZMod 31757755568855353)) ^ 73726481352 = ((15280470251845350 : ℕ) : ZMod 31757755568855353) := by
  push_cast; reduce_mod_char

theorem pow_31757755568855353_4153 : (((2 : ℕ) : ZMod 31757755568855353)) ^ 7646943310584 = ((28256283979054930 : ℕ) : ZMod 31757755568855353) := by
  push_cast; reduce_mod_char

theorem prime_31757755568855353 : Nat.Prime 31757755568855353 :=
  pocklington (m := 31757755568855352) (F := 430751 * 4153) (by norm_num) (by norm_num) (by norm_num) fun r hr hd =>
    Nat.Coprime.mul_dvd_of_dvd_of_dvd (by norm_num) (order_step (m := 31757755568855352) (q := 430751) (k := 73726481352) (a := 2) (by norm_num) (by norm_num) hr hd prime_430751 (by norm_num) pow_31757755568855353_2 pow_31757755568855353_430751 (by norm_num))
      (order_step (m := 31757755568855352) (q := 4153) (k := 7646943310584) (a := 2) (by norm_num) (by norm_num) hr hd prime_4153 (by norm_num) pow_31757755568855353_2 pow_31757755568855353_4153 (by norm_num))

theorem pow_74058212732561358302231226437062788676166966415465897661863160754340907_2 : (((2 : ℕ) : ZMod 74058212732561358302231226437062788676166966415465897661863160754340907)) ^ 74058212732561358302231226437062788676166966415465897661863160754340906 = 1 := by
  push_cast; reduce_mod_char

theorem pow_74058212732561358302231226437062788676166966415465897661863160754340907_75445702479781427272750846543864801 : (((2 : ℕ) : ZMod 74058212732561358302231226437062788676166966415465897661863160754340907)) ^ 981609426360740691344999861639072106 = ((69490809710348678725736597923071784769591275419387514694139338586948360 : ℕ) : ZMod 74058212732561358302231226437062788676166966415465897661863160754340907) := by
  push_cast; reduce_mod_char

theorem pow_74058212732561358302231226437062788676166966415465897661863160754340907_31757755568855353 : (((2 : ℕ) : ZMod 74058212732561358302231226437062788676166966415465897661863160754340907)) ^ 2331972502653487852620185443007392165117953542933313402 = ((50366660687963342066214195241331738400016478712605795091965648721912165 : ℕ) : ZMod 74058212732561358302231226437062788676166966415465897661863160754340907) := by
  push_cast; reduce_mod_char

theorem prime_74058212732561358302231226437062788676166966415465897661863160754340907 : Nat.Prime 74058212732561358302231226437062788676166966415465897661863160754340907 :=
  pocklington (m := 74058212732561358302231226437062788676166966415465897661863160754340906) (F := 75445702479781427272750846543864801 * 31757755568855353) (by norm_num) (by norm_num) (by norm_num) fun r hr hd =>
    Nat.Coprime.mul_dvd_of_dvd_of_dvd (by norm_num) (order_step (m := 74058212732561358302231226437062788676166966415465897661863160754340906) (q := 75445702479781427272750846543864801) (k := 981609426360740691344999861639072106) (a := 2) (by norm_num) (by norm_num) hr hd prime_75445702479781427272750846543864801 (by norm_num) pow_74058212732561358302231226437062788676166966415465897661863160754340907_2 pow_74058212732561358302231226437062788676166966415465897661863160754340907_75445702479781427272750846543864801 (by norm_num))
      (order_step (m := 74058212732561358302231226437062788676166966415465897661863160754340906) (q := 31757755568855353) (k := 2331972502653487852620185443007392165117953542933313402) (a := 2) (by norm_num) (by norm_num) hr hd prime_31757755568855353 (by norm_num) pow_74058212732561358302231226437062788676166966415465897661863160754340907_2 pow_74058212732561358302231226437062788676166966415465897661863160754340907_31757755568855353 (by norm_num))

theorem pow_57896044618658097711785492504343953926634992332820282019728792003956564819949_2 : (((2 : ℕ) : ZMod 57896044618658097711785492504343953926634992332820282019728792003956564819949)) ^ 57896044618658097711785492504343953926634992332820282019728792003956564819948 = 1 := by
  push_cast; reduce_mod_char

theorem pow_57896044618658097711785492504343953926634992332820282019728792003956564819949_74058212732561358302231226437062788676166966415465897661863160754340907 : (((2 : ℕ) : ZMod 57896044618658097711785492504343953926634992332820282019728792003956564819949)) ^ 781764 = ((427094198651976259540344842774561673889945192655078505504941250475370961481 : ℕ) : ZMod 57896044618658097711785492504343953926634992332820282019728792003956564819949) := by
  push_cast; reduce_mod_char

theorem prime_57896044618658097711785492504343953926634992332820282019728792003956564819949 : Nat.Prime 57896044618658097711785492504343953926634992332820282019728792003956564819949 :=
  pocklington (m := 57896044618658097711785492504343953926634992332820282019728792003956564819948) (F := 74058212732561358302231226437062788676166966415465897661863160754340907) (by norm_num) (by norm_num) (by norm_num) fun r hr hd =>
    (order_step (m := 57896044618658097711785492504343953926634992332820282019728792003956564819948) (q := 74058212732561358302231226437062788676166966415465897661863160754340907) (k := 781764) (a := 2) (by norm_num) (by norm_num) hr hd prime_74058212732561358302231226437062788676166966415465897661863160754340907 (by norm_num) pow_57896044618658097711785492504343953926634992332820282019728792003956564819949_2 pow_57896044618658097711785492504343953926634992332820282019728792003956564819949_74058212732561358302231226437062788676166966415465897661863160754340907 (by norm_num))

theorem prime_1224481 : Nat.Prime 1224481 := by norm_num

theorem prime_531581 : Nat.Prime 531581 := by norm_num

theorem pow_1257559732178653_2 : (((2 : ℕ) : ZMod 1257559732178653)) ^ 1257559732178652 = 1 := by
  push_cast; reduce_mod_char

theorem pow_1257559732178653_1224481 : (((2 : ℕ) : ZMod 1257559732178653)) ^ 1027014492 = ((1252739704402215 : ℕ) : ZMod 1257559732178653) := by
  push_cast; reduce_mod_char

theorem pow_1257559732178653_531581 : (((2 : ℕ) : ZMod 1257559732178653)) ^ 2365697292 = ((1139842034583224 : ℕ) : ZMod 1257559732178653) := by
  push_cast; reduce_mod_char

theorem prime_1257559732178653 : Nat.Prime 1257559732178653 :=
  pocklington (m := 1257559732178652) (F := 1224481 * 531581) (by norm_num) (by norm_num) (by norm_num) fun r hr hd =>
    Nat.Coprime.mul_dvd_of_dvd_of_dvd (by norm_num) (order_step (m := 1257559732178652) (q := 1224481) (k := 1027014492) (a := 2) (by norm_num) (by norm_num) hr hd prime_1224481 (by norm_num) pow_1257559732178653_2 pow_1257559732178653_1224481 (by norm_num))
      (order_step (m := 1257559732178652) (q := 531581) (k := 2365697292) (a := 2) (by norm_num) (by norm_num) hr hd prime_531581 (by norm_num) pow_1257559732178653_2 pow_1257559732178653_531581 (by norm_num))

theorem pow_4434155615661930479_2 : (((2 : ℕ) : ZMod 4434155615661930479)) ^ 4434155615661930478 = 1 := by
  push_cast; reduce_mod_char

theorem pow_4434155615661930479_1257559732178653 : (((2 : ℕ) : ZMod 4434155615661930479)) ^ 3526 = ((415787812636281767 : ℕ) : ZMod 4434155615661930479) := by
  push_cast; reduce_mod_char

theorem prime_4434155615661930479 : Nat.Prime 4434155615661930479 :=
  pocklington (m := 4434155615661930478) (F := 1257559732178653) (by norm_num) (by norm_num) (by norm_num) fun r hr hd =>
    (order_step (m := 4434155615661930478) (q := 1257559732178653) (k := 3526) (a := 2) (by norm_num) (by norm_num) hr hd prime_1257559732178653 (by norm_num) pow_4434155615661930479_2 pow_4434155615661930479_1257559732178653 (by norm_num))

theorem pow_172054593956031949258510691_2 : (((2 : ℕ) : ZMod 172054593956031949258510691)) ^ 172054593956031949258510690 = 1 := by
  push_cast; reduce_mod_char

theorem pow_172054593956031949258510691_4434155615661930479 : (((2 : ℕ) : ZMod 172054593956031949258510691)) ^ 38802110 = ((81982237619807054769897707 : ℕ) : ZMod 172054593956031949258510691) := by
  push_cast; reduce_mod_char

theorem prime_172054593956031949258510691 : Nat.Prime 172054593956031949258510691 :=
  pocklington (m := 172054593956031949258510690) (F := 4434155615661930479) (by norm_num) (by norm_num) (by norm_num) fun r hr hd =>
    (order_step (m := 172054593956031949258510690) (q := 4434155615661930479) (k := 38802110) (a := 2) (by norm_num) (by norm_num) hr hd prime_4434155615661930479 (by norm_num) pow_172054593956031949258510691_2 pow_172054593956031949258510691_4434155615661930479 (by norm_num))

theorem pow_19757330305831588566944191468367130476339_2 : (((2 : ℕ) : ZMod 19757330305831588566944191468367130476339)) ^ 19757330305831588566944191468367130476338 = 1 := by
  push_cast; reduce_mod_char

theorem pow_19757330305831588566944191468367130476339_172054593956031949258510691 : (((2 : ℕ) : ZMod 19757330305831588566944191468367130476339)) ^ 114831751082918 = ((9148758478138211201771971577098600188172 : ℕ) : ZMod 19757330305831588566944191468367130476339) := by
  push_cast; reduce_mod_char

theorem prime_19757330305831588566944191468367130476339 : Nat.Prime 19757330305831588566944191468367130476339 :=
  pocklington (m := 19757330305831588566944191468367130476338) (F := 172054593956031949258510691) (by norm_num) (by norm_num) (by norm_num) fun r hr hd =>
    (order_step (m := 19757330305831588566944191468367130476338) (q := 172054593956031949258510691) (k := 114831751082918) (a := 2) (by norm_num) (by norm_num) hr hd prime_172054593956031949258510691 (by norm_num) pow_19757330305831588566944191468367130476339_2 pow_19757330305831588566944191468367130476339_172054593956031949258510691 (by norm_num))

theorem pow_276602624281642239937218680557139826668747_2 : (((2 : ℕ) : ZMod 276602624281642239937218680557139826668747)) ^ 276602624281642239937218680557139826668746 = 1 := by
  push_cast; reduce_mod_char

theorem pow_276602624281642239937218680557139826668747_19757330305831588566944191468367130476339 : (((2 : ℕ) : ZMod 276602624281642239937218680557139826668747)) ^ 14 = ((16384 : ℕ) : ZMod 276602624281642239937218680557139826668747) := by
  push_cast; reduce_mod_char

theorem prime_276602624281642239937218680557139826668747 : Nat.Prime 276602624281642239937218680557139826668747 :=
  pocklington (m := 276602624281642239937218680557139826668746) (F := 19757330305831588566944191468367130476339) (by norm_num) (by norm_num) (by norm_num) fun r hr hd =>
    (order_step (m := 276602624281642239937218680557139826668746) (q := 19757330305831588566944191468367130476339) (k := 14) (a := 2) (by norm_num) (by norm_num) hr hd prime_19757330305831588566944191468367130476339 (by norm_num) pow_276602624281642239937218680557139826668747_2 pow_276602624281642239937218680557139826668747_19757330305831588566944191468367130476339 (by norm_num))

theorem pow_7237005577332262213973186563042994240857116359379907606001950938285454250989_2 : (((2 : ℕ) : ZMod 7237005577332262213973186563042994240857116359379907606001950938285454250989)) ^ 7237005577332262213973186563042994240857116359379907606001950938285454250988 = 1 := by
  push_cast; reduce_mod_char

theorem pow_7237005577332262213973186563042994240857116359379907606001950938285454250989_276602624281642239937218680557139826668747 : (((2 : ℕ) : ZMod 7237005577332262213973186563042994240857116359379907606001950938285454250989)) ^ 26163907866482859529727157400808004 = ((2975531125133123119648879457563281269120703404158613135195788908093573672641 : ℕ) : ZMod 7237005577332262213973186563042994240857116359379907606001950938285454250989) := by
  push_cast; reduce_mod_char

theorem prime_7237005577332262213973186563042994240857116359379907606001950938285454250989 : Nat.Prime 7237005577332262213973186563042994240857116359379907606001950938285454250989 :=
  pocklington (m := 7237005577332262213973186563042994240857116359379907606001950938285454250988) (F := 276602624281642239937218680557139826668747) (by norm_num) (by norm_num) (by norm_num) fun r hr hd =>
    (order_step (m := 7237005577332262213973186563042994240857116359379907606001950938285454250988) (q := 276602624281642239937218680557139826668747) (k := 26163907866482859529727157400808004) (a := 2) (by norm_num) (by norm_num) hr hd prime_276602624281642239937218680557139826668747 (by norm_num) pow_7237005577332262213973186563042994240857116359379907606001950938285454250989_2 pow_7237005577332262213973186563042994240857116359379907606001950938285454250989_276602624281642239937218680557139826668747 (by norm_num))

abbrev p : ℕ := 57896044618658097711785492504343953926634992332820282019728792003956564819949
abbrev l : ℕ := 7237005577332262213973186563042994240857116359379907606001950938285454250989

theorem p_eq : p = 2 ^ 255 - 19 := by norm_num
theorem l_eq : l = 2 ^ 252 + 27742317777372353535851937790883648493 := by norm_num

instance : Fact p.Prime := ⟨prime_57896044618658097711785492504343953926634992332820282019728792003956564819949⟩
instance : Fact l.Prime := ⟨prime_7237005577332262213973186563042994240857116359379907606001950938285454250989⟩

/-- Fermat: the power computed by FieldElement.Inverse is the inverse -/
theorem p_inverse (x : ZMod p) (h : x ≠ 0) : x ^ (p - 2) * x = 1 := by
  rw [← pow_succ]
  exact ZMod.pow_card_sub_one_eq_one h

/-- ... and the one computed by Scalar.Inverse -/
theorem l_inverse (x : ZMod l) (h : x ≠ 0) : x ^ (l - 2) * x = 1 := by
  rw [← pow_succ]
  exact ZMod.pow_card_sub_one_eq_one h

/-- Euler's criterion -/
theorem p_square (x : ZMod p) (h : x ≠ 0) : IsSquare x ↔ x ^ ((p - 1) / 2) = 1 :=
  ZMod.euler_criterion p h

theorem p_legendre (x : ZMod p) (h : x ≠ 0) : x ^ ((p - 1) / 2) = 1 ∨ x ^ ((p - 1) / 2) = -1 := by
  rcases ZMod.pow_div_two_eq_neg_one_or_one p h with h | h
  · exact Or.inl h
  · exact Or.inr h

/-- -1 is a square and d = -121665/121666 is none: the addition law is complete -/
theorem minus_one_square : IsSquare (-1 : ZMod p) :=
  ⟨19681161376707505956807079304988542015446066515923890162744021073123829784752, by reduce_mod_char⟩

theorem d_eq : (37095705934669439343138083508754565189542113879843219016388785533085940283555 : ZMod p) * 121666 = -121665 := by reduce_mod_char

theorem d_pow : (37095705934669439343138083508754565189542113879843219016388785533085940283555 : ZMod p) ^ 28948022309329048855892746252171976963317496166410141009864396001978282409974 = -1 := by reduce_mod_char

theorem d_nonsquare : ¬ IsSquare (37095705934669439343138083508754565189542113879843219016388785533085940283555 : ZMod p) := by
  intro h
  have h0 : (37095705934669439343138083508754565189542113879843219016388785533085940283555 : ZMod p) ≠ 0 := by
    intro h0
    have := d_pow
    rw [h0, zero_pow (by norm_num)] at this
    exact (neg_ne_zero.2 one_ne_zero) this.symm
  have h1 := (ZMod.euler_criterion p h0).1 h
  have e : p / 2 = 28948022309329048855892746252171976963317496166410141009864396001978282409974 := by norm_num
  rw [e, d_pow] at h1
  have : Fact (2 < p) := ⟨by norm_num⟩
  exact (ZMod.neg_one_ne_one (n := p)) h1

end Ristretto
#print axioms Ristretto.p_inverse
#print axioms Ristretto.l_inverse
#print axioms Ristretto.p_square
#print axioms Ristretto.p_legendre
#print axioms Ristretto.minus_one_square
#print axioms Ristretto.d_nonsquare
