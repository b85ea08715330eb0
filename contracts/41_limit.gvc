// The element limit (C07).
// cnt[n]: number of elements below n; pc[n][i]: number below and at the first i element children.
// The counts are a definition over the tree as it is while `counting`; every edit ends it.
ghost cnt (Array Int Int)
ghost pc (Array Int (Array Int Int))
ghost counting Bool
ghost grabs Int

inv @C07 cnt: forall n *Node, i int {n.Children[i]} :: counting && n != nil && !dead[n] && 0 <= i && i < len(n.Children) ==> pc[n][i+1] == pc[n][i] + 1 + cnt[n.Children[i]]
inv @C07 cnt0: forall n *Node {cnt[n]} {pc[n]} :: counting && n != nil && !dead[n] ==> pc[n][0] == 0 && cnt[n] == pc[n][len(n.Children)]

more (*Node).AppendChild
  update @C07 counting = false
more (*Node).RemoveChild
  update @C07 counting = false
more (*Node).ReplaceChild
  update @C07 counting = false
more (*Node).SetInnerHTML
  update @C07 counting = false
more (*Node).SetTextContent
  update @C07 counting = false

more (*Node).getElementsByTagName$1
  ensures @C07 count: counting == old(counting) && (old(counting) && allTags ==> len(elems) == old(len(elems)) + cnt[from])
  cand @C07 count: (i phiint) :: counting && allTags ==> len(elems) == old(len(elems)) + pc[from][i] && 0 <= i && i <= len(from.Children)
more (*Node).getElementsByTagName
  ensures @C07 count: counting == old(counting) && (old(counting) && upper(tag) == "*" ==> len(res) == cnt[n])
more (*Readability).grabArticle
  update @C07 grabs = old(grabs) + 1
  ensures @C07 grabs: grabs == old(grabs) + 1
more (*Readability).Parse
  ensures @C07 refuse: old(counting) && old(r.options.maxElemsToParse > 0 && cnt[r.doc] > r.options.maxElemsToParse) ==> res0 == nil && res1 != nil && grabs == old(grabs)
  ensures @C07 accept: old(counting) && old(r.options.maxElemsToParse <= 0 || cnt[r.doc] <= r.options.maxElemsToParse) ==> grabs == old(grabs) + 1
end
profile C07 C02 C01
show C07 none
more (*Node).getElementsByTagName$1
  use cnt cnt0
more (*Node).getElementsByTagName
  use cnt cnt0
end
