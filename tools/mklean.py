"""writes lean/NumberTheory.lean from the certificates in engine/lemmas.py"""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
HEAD='''import Mathlib

/-! Number theory behind the contracts (generated by tools/mklean.py): p = 2^255 - 19 and
the group order l are prime, the powers computed by the code are inverses and tests for squares. -/

namespace Ristretto

theorem order_step {n m r q k a c : ℕ} (hnm : n = m + 1) (hm0 : m ≠ 0) (hr : r.Prime) (hrn : r ∣ n) (hq : q.Prime) (hqn : q * k = m)
    (h1 : (a : ZMod n) ^ m = 1) (h2 : (a : ZMod n) ^ k = c) (hg : Nat.gcd (c + m) n = 1) : q ∣ r - 1 := by
  have : Fact r.Prime := ⟨hr⟩
  let f := ZMod.castHom hrn (ZMod r)
  have hm : ((m : ℕ) : ZMod r) = -1 := by
    have : ((m + 1 : ℕ) : ZMod r) = 0 := by rw [← hnm]; exact (ZMod.natCast_eq_zero_iff n r).2 hrn
    push_cast at this
    exact eq_neg_of_add_eq_zero_left this
  have e1 : (a : ZMod r) ^ m = 1 := by
    have := congrArg f h1
    rwa [map_pow, map_natCast, map_one] at this
  have e2' : (a : ZMod r) ^ k = c := by
    have := congrArg f h2
    rwa [map_pow, map_natCast, map_natCast] at this
  have e2 : (a : ZMod r) ^ k ≠ 1 := by
    intro h
    have : ((c + m : ℕ) : ZMod r) = 0 := by
      rw [Nat.cast_add, hm, ← e2', h]; ring
    have hd := Nat.dvd_gcd ((ZMod.natCast_eq_zero_iff _ r).1 this) hrn
    rw [hg] at hd
    exact hr.one_lt.ne' (Nat.dvd_one.1 hd)
  have ha : (a : ZMod r) ≠ 0 := by
    intro h
    rw [h, zero_pow hm0] at e1
    exact zero_ne_one e1
  have d1 : orderOf (a : ZMod r) ∣ m := orderOf_dvd_of_pow_eq_one e1
  have d2 : ¬ orderOf (a : ZMod r) ∣ k := fun h => e2 (orderOf_dvd_iff_pow_eq_one.1 h)
  have d3 : orderOf (a : ZMod r) ∣ r - 1 := orderOf_dvd_of_pow_eq_one (ZMod.pow_card_sub_one_eq_one ha)
  refine dvd_trans ?_ d3
  by_contra hnq
  have hc : Nat.Coprime (orderOf (a : ZMod r)) q := ((Nat.Prime.coprime_iff_not_dvd hq).2 hnq).symm
  exact d2 (hc.dvd_of_dvd_mul_left (by rwa [hqn]))

theorem pocklington {n m F : ℕ} (hnm : n = m + 1) (hm0 : m ≠ 0) (hF : n < F * F)
    (h : ∀ r : ℕ, r.Prime → r ∣ n → F ∣ r - 1) : n.Prime := by
  by_contra hnp
  have hr := Nat.minFac_prime (n := n) (by omega)
  have hle := Nat.le_of_dvd (Nat.sub_pos_of_lt hr.one_lt) (h _ hr (Nat.minFac_dvd n))
  have hsq := Nat.minFac_sq_le_self (by omega) hnp
  have hF' : F ≤ n.minFac := le_trans hle (Nat.sub_le _ _)
  have := Nat.mul_le_mul hF' hF'
  rw [sq] at hsq
  omega

'''
TAIL='''abbrev p : ℕ := %d
abbrev l : ℕ := %d

theorem p_eq : p = 2 ^ 255 - 19 := by norm_num
theorem l_eq : l = 2 ^ 252 + 27742317777372353535851937790883648493 := by norm_num

instance : Fact p.Prime := ⟨prime_%d⟩
instance : Fact l.Prime := ⟨prime_%d⟩

/-- Fermat: the power computed by FieldElement.Inverse is the inverse -/
theorem p_inverse (x : ZMod p) (h : x ≠ 0) : x ^ (p - 2) * x = 1 := by
  rw [← pow_succ]
  exact ZMod.pow_card_sub_one_eq_one h

/-- ... and the one computed by Scalar.Inverse -/
theorem l_inverse (x : ZMod l) (h : x ≠ 0) : x ^ (l - 2) * x = 1 := by
  rw [← pow_succ]
  exact ZMod.pow_card_sub_one_eq_one h

/-- Euler's criterion -/
theorem p_square (x : ZMod p) (h : x ≠ 0) : IsSquare x ↔ x ^ ((p - 1) / 2) = 1 :=
  ZMod.euler_criterion p h

theorem p_legendre (x : ZMod p) (h : x ≠ 0) : x ^ ((p - 1) / 2) = 1 ∨ x ^ ((p - 1) / 2) = -1 := by
  rcases ZMod.pow_div_two_eq_neg_one_or_one p h with h | h
  · exact Or.inl h
  · exact Or.inr h

/-- -1 is a square and d = -121665/121666 is none: the addition law is complete -/
theorem minus_one_square : IsSquare (-1 : ZMod p) :=
  ⟨%d, by reduce_mod_char⟩

theorem d_eq : (%d : ZMod p) * 121666 = -121665 := by reduce_mod_char

theorem d_pow : (%d : ZMod p) ^ %d = -1 := by reduce_mod_char

theorem d_nonsquare : ¬ IsSquare (%d : ZMod p) := by
  intro h
  have h0 : (%d : ZMod p) ≠ 0 := by
    intro h0
    have := d_pow
    rw [h0, zero_pow (by norm_num)] at this
    exact (neg_ne_zero.2 one_ne_zero) this.symm
  have h1 := (ZMod.euler_criterion p h0).1 h
  have e : p / 2 = %d := by norm_num
  rw [e, d_pow] at h1
  have : Fact (2 < p) := ⟨by norm_num⟩
  exact (ZMod.neg_one_ne_one (n := p)) h1

end Ristretto
#print axioms Ristretto.p_inverse
#print axioms Ristretto.l_inverse
#print axioms Ristretto.p_square
#print axioms Ristretto.p_legendre
#print axioms Ristretto.minus_one_square
#print axioms Ristretto.d_nonsquare
'''
P=2**255-19; L=2**252+27742317777372353535851937790883648493
src=open(''+HERE+'/../engine/lemmas.py').read()
i=src.index('CERT = {'); j=src.index('\n}\n',i)
exec(src[i:j+3])
order=[]
def visit(n):
    if n in order: return
    for q,a in CERT.get(n,()): visit(q)
    order.append(n)
for n in list(CERT): visit(n)
out=HEAD
for n in order:
    c=CERT.get(n)
    if c is None:
        out+='theorem prime_%d : Nat.Prime %d := by norm_num\n\n'%(n,n); continue
    out+='theorem pow_%d_2 : (((2 : ℕ) : ZMod %d)) ^ %d = 1 := by\n  push_cast; reduce_mod_char\n\n'%(n,n,n-1)
    st=[]
    for q,a in c:
        assert a==2
        k=(n-1)//q; v=pow(a,k,n)
        out+='theorem pow_%d_%d : (((2 : ℕ) : ZMod %d)) ^ %d = ((%d : ℕ) : ZMod %d) := by\n  push_cast; reduce_mod_char\n\n'%(n,q,n,k,v,n)
        st.append('(order_step (m := %d) (q := %d) (k := %d) (a := 2) (by norm_num) (by norm_num) hr hd prime_%d (by norm_num) pow_%d_2 pow_%d_%d (by norm_num))'%(n-1,q,k,q,n,n,q))
    if len(c)==1:
        body=st[0]; F=c[0][0]
    else:
        body='Nat.Coprime.mul_dvd_of_dvd_of_dvd (by norm_num) %s\n      %s'%(st[0],st[1]); F=c[0][0]*c[1][0]
    out+='theorem prime_%d : Nat.Prime %d :=\n  pocklington (m := %d) (F := %s) (by norm_num) (by norm_num) (by norm_num) fun r hr hd =>\n    %s\n\n'%(n,n,n-1,' * '.join(str(q) for q,a in c),body)
D=-121665*pow(121666,-1,P)%P
I=pow(2,(P-1)//4,P)
out+=TAIL%(P,L,P,L,I,D,D,(P-1)//2,D,D,P//2)
open(''+HERE+'/../lean/NumberTheory.lean','w').write(out)
