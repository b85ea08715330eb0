// Elements that are not article content (C12).
// ls[t]: the nodes of the last listing of the elements with tag t; cov[t][n]: every such element below n is in it.
ghost cov (Array Str (Array Int Bool))
ghost ls (Array Str (Array Int Bool))
fun none (Array Int Bool)
fun nocov (Array Str (Array Int Bool))
fun lsof (Array Int Bool) (Array Int Int) Int Int
smt @C12 (assert (= none ((as const (Array Int Bool)) false)))
smt @C12 (assert (= nocov ((as const (Array Str (Array Int Bool))) ((as const (Array Int Bool)) false))))
// lidx: where x is in the list; a list that starts or ends with another holds all that is in that one
fun lidx Int (Array Int Int) Int Int Int
smt @C12 (assert (forall ((a (Array Int Int)) (o Int) (n Int) (x Int)) (! (=> (select (lsof a o n) x) (and (<= 0 (lidx a o n x)) (< (lidx a o n x) n) (= (at_Int a o (lidx a o n x)) x))) :pattern ((select (lsof a o n) x)))))
smt @C12 (assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int) (x Int)) (! (=> (and (<= 0 i) (< i n) (= (at_Int a o i) x)) (select (lsof a o n) x)) :pattern ((select (lsof a o n) x) (at_Int a o i)))))
smt @C12 (assert (forall ((a (Array Int Int)) (o Int) (n Int) (b (Array Int Int)) (p Int) (m Int) (x Int)) (! (=> (and (select (lsof a o n) x) (< (lidx a o n x) m) (= (at_Int b p (lidx a o n x)) x)) (select (lsof b p m) x)) :pattern ((select (lsof a o n) x) (lsof b p m)))))
smt @C12 (assert (forall ((a (Array Int Int)) (o Int) (n Int) (b (Array Int Int)) (p Int) (m Int) (x Int)) (! (=> (and (select (lsof a o n) x) (<= n m) (= (at_Int b p (+ (- m n) (lidx a o n x))) x)) (select (lsof b p m) x)) :pattern ((select (lsof a o n) x) (lsof b p m)))))
pred lst(s []*Node) = lsof(elems(s), off(s), len(s))
inv @C12 cov: forall t string, n *Node, i int {cov[t][n], n.Children[i]} :: n != nil && !dead[n] && cov[t][n] && 0 <= i && i < len(n.Children) ==> cov[t][n.Children[i]] && (n.Children[i].TagName == t ==> ls[t][n.Children[i]])

pred tagged(s []*Node, t string) = forall k int {s[k]} :: 0 <= k && k < len(s) ==> s[k].TagName == t
more (*Node).AppendChild
  update @C12 cov = nocov()
more (*Node).ReplaceChild
  update @C12 cov = nocov()
more (*Node).SetInnerHTML
  update @C12 cov = nocov()
more (*Node).SetTextContent
  update @C12 cov = nocov()
more (*Readability).setNodeTag
  update @C12 cov = nocov()
more (*Node).RemoveChild
  ensures @C12 keep: cov == old(cov) && ls == old(ls)
  use cov echild
more (*Node).getElementsByTagName$1
  requires @C12 all: allTags <==> tag == "*"
  requires @C12 sub: forall x *Node {ls[tag][x]} :: ls[tag][x] ==> lst(elems)[x]
  update @C12 cov = store(cov, tag, store(cov[tag], from, true))
  update @C12 ls = store(ls, tag, lst(elems))
  ensures @C12 cov: cov[tag][from] && (forall x *Node {cov[tag][x]} {old(cov[tag][x])} :: old(cov[tag][x]) ==> cov[tag][x])
  ensures @C12 ls: ls[tag] == lst(elems) && (forall x *Node {lst(elems)[x]} {old(lst(elems)[x])} :: old(lst(elems)[x]) ==> lst(elems)[x])
  ensures @C12 others: forall t string {cov[t]} {ls[t]} :: t != tag ==> cov[t] == old(cov[t]) && ls[t] == old(ls[t])
  requires @C12 tags: tag != "*" ==> tagged(elems, tag)
  ensures @C12 tags: tag != "*" ==> tagged(elems, tag)
  cand @C12 tags: tag != "*" ==> tagged(elems, tag)
  ensures @C12 same: tag == old(tag) && allTags == old(allTags)
  cand @C12 kids: (i phiint) :: forall j int {from.Children[j]} :: 0 <= j && j < i && j < len(from.Children) ==> cov[tag][from.Children[j]] && (from.Children[j].TagName == tag ==> lst(elems)[from.Children[j]])
  cand @C12 kids1: (i phiint) :: forall j int {from.Children[j]} :: 0 <= j && j <= i && j < len(from.Children) ==> cov[tag][from.Children[j]] && (from.Children[j].TagName == tag ==> lst(elems)[from.Children[j]])
  cand @C12 mono: forall x *Node {lst(elems)[x]} {old(lst(elems)[x])} :: old(lst(elems)[x]) ==> lst(elems)[x]
  cand @C12 cmono: forall x *Node {cov[tag][x]} {old(cov[tag][x])} :: old(cov[tag][x]) ==> cov[tag][x]
  cand @C12 sub: forall x *Node {ls[tag][x]} :: ls[tag][x] ==> lst(elems)[x]
  cand @C12 others: forall t string {cov[t]} {ls[t]} :: t != tag ==> cov[t] == old(cov[t]) && ls[t] == old(ls[t])
  cand @C12 same: tag == old(tag) && allTags == old(allTags)
  use cov eowner echild
more (*Node).getElementsByTagName
  enter @C12 cov = store(cov, upper(tag), none())
  enter @C12 ls = store(ls, upper(tag), none())
  ensures @C12 cov: cov[upper(tag)][n] && ls[upper(tag)] == lst(res)
  ensures @C12 tags: upper(tag) != "*" ==> tagged(res, upper(tag))
  ensures @C12 others: forall t string {cov[t]} {ls[t]} :: t != upper(tag) ==> cov[t] == old(cov[t]) && ls[t] == old(ls[t])
  use cov
more (*Readability).getAllNodesWithTag
  ensures @C12 tags: len(tagNames) == 1 && upper(tagNames[0]) != "*" ==> tagged(res, upper(tagNames[0]))
  cand @C12 tags: (s phi[]*Node) :: len(tagNames) == 1 && upper(tagNames[0]) != "*" ==> tagged(s, upper(tagNames[0]))
  ensures @C12 cov: forall j int {tagNames[j]} :: 0 <= j && j < len(tagNames) ==> cov[upper(tagNames[j])][n] && (forall x *Node {ls[upper(tagNames[j])][x]} :: ls[upper(tagNames[j])][x] ==> lst(res)[x])
  cand @C12 cov: (i phiint, s phi[]*Node) :: forall j int {tagNames[j]} :: 0 <= j && j <= i && j < len(tagNames) ==> cov[upper(tagNames[j])][n] && (forall x *Node {ls[upper(tagNames[j])][x]} :: ls[upper(tagNames[j])][x] ==> lst(s)[x])
  cand @C12 cov0: (i phiint, s phi[]*Node) :: forall j int {tagNames[j]} :: 0 <= j && j < i && j < len(tagNames) ==> cov[upper(tagNames[j])][n] && (forall x *Node {ls[upper(tagNames[j])][x]} :: ls[upper(tagNames[j])][x] ==> lst(s)[x])
  use cov
// cleaned[t]: the node whose elements with tag t were removed last
// unscripted: the document that scripts were removed from
ghost unscripted Int
ghost cleaned (Array Str Int)
pred embeds(t string) = t == "object" || t == "embed" || t == "iframe"
pred video(r *Readability, x *Node) = r.options.allowedVideoRegex != nil && (exists a int {x.Attributes[a]} :: 0 <= a && a < len(x.Attributes) && rematch(r.options.allowedVideoRegex, x.Attributes[a].value))
more (*Readability).clean
  requires @C12 tag: upper(tag) != "*" && upper(tag) != "object"
  update @C12 cleaned = store(cleaned, upper(tag), e)
  ensures @C12 gone: cov[upper(tag)][e] && (forall x *Node {ls[upper(tag)][x]} :: ls[upper(tag)][x] ==> x.ParentNode == nil || embeds(tag) && video(r, x))
  ensures @C12 cleaned: cleaned == store(old(cleaned), upper(tag), e)
  cand @C12 kept: (s []*Node) :: elems(s) == pre(elems(s))
  cand @C12 gone: (s []*Node, i phiint) :: forall j int {s[j]} :: i < j && j < len(s) ==> s[j].ParentNode == nil || embeds(tag) && video(r, s[j])
  cand @C12 gone1: (s []*Node, i phiint) :: forall j int {s[j]} :: 0 <= j && j <= i && j < len(s) ==> s[j].ParentNode == nil || embeds(tag) && video(r, s[j])
  use cov
more (*Readability).removeScripts
  update @C12 unscripted = doc
  ensures @C12 gone: cov[upper("script")][doc] && cov[upper("noscript")][doc] && (forall x *Node {ls["SCRIPT"][x]} {ls["NOSCRIPT"][x]} :: ls["SCRIPT"][x] || ls["NOSCRIPT"][x] ==> x.ParentNode == nil)
  ensures @C12 unscripted: unscripted == doc
  cand @C12 kept: (s []*Node) :: elems(s) == pre(elems(s))
  cand @C12 gone: (s []*Node, i phiint) :: forall j int {s[j]} :: i < j && j < len(s) ==> s[j].ParentNode == nil
  cand @C12 gone1: (s []*Node, i phiint) :: forall j int {s[j]} :: 0 <= j && j <= i && j < len(s) ==> s[j].ParentNode == nil
  use cov
more (*Readability).prepArticle
  ensures @C12 cleaned: cleaned["OBJECT"] == articleContent && cleaned["EMBED"] == articleContent && cleaned["IFRAME"] == articleContent && cleaned["FOOTER"] == articleContent && cleaned["LINK"] == articleContent && cleaned["ASIDE"] == articleContent && cleaned["INPUT"] == articleContent && cleaned["TEXTAREA"] == articleContent && cleaned["SELECT"] == articleContent && cleaned["BUTTON"] == articleContent
more (*Readability).Parse
  ensures @C12 unscripted: res0 != nil ==> unscripted == r.doc
end
profile C12 C03 C02 C01
show C12 none
