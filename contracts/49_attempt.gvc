// The extraction attempts (C13): tlen[e] is the length of the text of e when it was last measured.
ghost tlen (Array Int Int)
// the flags are the three lowest bits
inv @C13 flags: forall r *Readability {r.flags} :: r != nil ==> 0 <= r.flags && r.flags < 8
pred bit(v int, f int) = ite(f == 1, v == 1 || v == 3 || v == 5 || v == 7, ite(f == 2, v == 2 || v == 3 || v == 6 || v == 7, v >= 4))
pred oneflag(f int) = f == 1 || f == 2 || f == 4
pred on(r *Readability, f int) = bit(r.flags, f)
more (*Readability).getInnerText
  update @C13 tlen = store(tlen, e, len(res))
  ensures @C13 tlen: tlen == store(old(tlen), e, len(res))
func (*Readability).flagIsActive(r, flag)
  requires @C13 flag: oneflag(flag)
  ensures @C13 on: res <==> on(r, flag)
func (*Readability).removeFlag(r, flag)
  requires @C13 flag: oneflag(flag)
  ensures @C13 off: !on(r, flag) && (flag != 1 ==> (on(r, 1) <==> bit(old(r.flags), 1))) && (flag != 2 ==> (on(r, 2) <==> bit(old(r.flags), 2))) && (flag != 4 ==> (on(r, 4) <==> bit(old(r.flags), 4)))
more (*Readability).grabArticle
  ensures @C13 first: res != nil && (on(r, 1) || on(r, 2) || on(r, 4)) ==> tlen[res] >= r.options.charThreshold
  ensures @C13 nil: res == nil && page != nil ==> !on(r, 1) && !on(r, 2) && !on(r, 4)
  cand @C13 off: (i phiint, s []int) :: elems(s) == pre(elems(s)) && (forall j int {s[j]} :: 0 <= j && j <= i && j < len(s) ==> !on(r, s[j]))
end
profile C13 C02 C01
show C13 flags
