// Presentational attributes (C11).
// sdone[n]: n is free of them, and so is every element below it (svg aside); whoever adds to a node ends it.
ghost sdone (Array Int Bool)
pred presname(k string) = k == "align" || k == "background" || k == "bgcolor" || k == "border" || k == "cellpadding" || k == "cellspacing" || k == "frame" || k == "hspace" || k == "rules" || k == "style" || k == "valign" || k == "vspace"
pred sized(t string) = t == "TABLE" || t == "TH" || t == "TD" || t == "HR" || t == "PRE"
pred pclean(n *Node) = !ah[n]["align"] && !ah[n]["background"] && !ah[n]["bgcolor"] && !ah[n]["border"] && !ah[n]["cellpadding"] && !ah[n]["cellspacing"] && !ah[n]["frame"] && !ah[n]["hspace"] && !ah[n]["rules"] && !ah[n]["style"] && !ah[n]["valign"] && !ah[n]["vspace"]

inv @C11 sdone: forall n *Node {sdone[n]} :: n != nil && sdone[n] && lower(n.TagName) != "svg" ==> pclean(n) && (sized(n.TagName) ==> !ah[n]["width"] && !ah[n]["height"])
inv @C11 skids: forall n *Node, i int {n.Children[i]} :: n != nil && !dead[n] && sdone[n] && lower(n.TagName) != "svg" && 0 <= i && i < len(n.Children) ==> sdone[n.Children[i]]
fun nosdone (Array Int Bool)
smt @C11 (assert (= nosdone ((as const (Array Int Bool)) false)))

more (*Node).AppendChild
  update @C11 sdone = nosdone()
more (*Node).ReplaceChild
  update @C11 sdone = nosdone()
more (*Node).SetInnerHTML
  update @C11 sdone = nosdone()
more (*Node).SetTextContent
  update @C11 sdone = nosdone()
more (*Node).SetAttribute
  update @C11 sdone = nosdone()
more (*Readability).setNodeTag
  update @C11 sdone = nosdone()
more (*Node).RemoveAttribute
  ensures @C11 sdone: sdone == old(sdone)
  ensures @C11 tree: unchanged(Node.Children, Node.TagName, Node.ParentNode, Node.NextElementSibling)
more (*Readability).cleanStyles
  update @C11 sdone = ite(e != nil, store(sdone, e, true), sdone)
  ensures @C11 done: e != nil ==> sdone[e]
  ensures @C11 grow: forall x *Node {sdone[x]} :: old(sdone[x]) ==> sdone[x]
  ensures @C11 keepval: av == old(av)
  ensures @C11 keep: forall m *Node, k string {ah[m][k]} :: m != nil && m < old(alloc) ==> ah[m][k] == old(ah[m][k]) || old(ah[m][k]) && (presname(k) || (k == "width" || k == "height") && sized(m.TagName))
  ensures @C11 tree: unchanged(Node.Children, Node.TagName, Node.ParentNode, Node.NextElementSibling) && elemheap("*Node") == old(elemheap("*Node")) && eidx == old(eidx)
  cand @C11 grow: forall x *Node {sdone[x]} :: old(sdone[x]) ==> sdone[x]
  cand @C11 val: av == old(av)
  cand @C11 keep: forall m *Node, k string {ah[m][k]} :: m != nil && m < old(alloc) ==> ah[m][k] == old(ah[m][k]) || old(ah[m][k]) && (presname(k) || (k == "width" || k == "height") && sized(m.TagName))
  cand @C11 names: (i phiint) :: forall j int {presentationalAttribute[j]} :: 0 <= j && j < i ==> !ah[e][presentationalAttribute[j]]
  cand @C11 names1: (i phiint) :: forall j int {presentationalAttribute[j]} :: 0 <= j && j <= i ==> !ah[e][presentationalAttribute[j]]
  cand @C11 all: pclean(e)
  cand @C11 size: sized(e.TagName) ==> !ah[e]["width"] && !ah[e]["height"]
  cand @C11 at: (c phi*Node) :: c == nil || c.ParentNode == e && c.NodeType == 1
  cand @C11 kids: (c phi*Node) :: forall j int {e.Children[j]} :: 0 <= j && j < len(e.Children) && (c == nil || j < eidx[c]) ==> sdone[e.Children[j]]
  cand @C11 kidsi: (i phiint) :: forall j int {e.Children[j]} :: 0 <= j && j < len(e.Children) && j < i ==> sdone[e.Children[j]]
  cand @C11 kidsj: (i phiint) :: forall j int {e.Children[j]} :: 0 <= j && j < len(e.Children) && j <= i ==> sdone[e.Children[j]]
  use sdone skids echild eparent enext
ghost styled (Array Int Bool)
more (*Readability).cleanStyles
  update @C11 styled = ite(e != nil, store(styled, e, true), styled)
  ensures @C11 styled: (e != nil ==> styled[e]) && (forall x *Node {styled[x]} :: old(styled[x]) ==> styled[x])
  cand @C11 styled: forall x *Node {styled[x]} :: old(styled[x]) ==> styled[x]
more (*Readability).prepArticle
  ensures @C11 styled: styled[articleContent]
end
profile C11 C03 C02 C01
show C11 none
