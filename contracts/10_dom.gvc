// DOM tree invariants.
// ghost state: position of a node in its parent's ChildNodes / Children, owners of the child arrays,
// and the throw-away documents whose child lists were handed over by SetInnerHTML.
ghost idx (Array Int Int)
ghost eidx (Array Int Int)
ghost own (Array Int Int)
ghost eown (Array Int Int)
ghost dead (Array Int Bool)
ghost lastdoc Int

owned *Node own eown
stable F:Node.NodeType F:Node.DocumentURI F:Node.style F:Node.nodeName F:style.Node

inv @C02 deaddoc: forall n *Node {dead[n]} :: n != nil && dead[n] ==> n.NodeType == 9
inv @C01 body: forall n *Node {n.Body} :: n != nil && n.Body != nil ==> n.Body.NodeType == 1
inv @C01 style: forall n *Node {n.style} :: n != nil && n.style != nil ==> n.style.Node != nil && n.style.Node.NodeType == 1
inv @C01 docel: forall n *Node {n.DocumentElement} :: n != nil && n.DocumentElement != nil ==> n.DocumentElement.NodeType == 1
inv @C02 deadroot: forall n *Node {dead[n], n.ParentNode} :: n != nil && dead[n] ==> n.ParentNode == nil
inv @C02 plive: forall c *Node {c.ParentNode, dead[c.ParentNode]} :: c != nil && c.ParentNode != nil ==> !dead[c.ParentNode]
inv @C02 child: forall n *Node, i int {n.ChildNodes[i]} ::
      n != nil && !dead[n] && 0 <= i && i < len(n.ChildNodes) ==>
      n.ChildNodes[i] != nil && n.ChildNodes[i].ParentNode == n && idx[n.ChildNodes[i]] == i
inv @C02 parent: forall c *Node {c.ParentNode} ::
      c != nil && c.ParentNode != nil ==> 0 <= idx[c] && idx[c] < len(c.ParentNode.ChildNodes) && c.ParentNode.ChildNodes[idx[c]] == c
inv @C02 next: forall c *Node {c.NextSibling} ::
      c != nil && c.ParentNode != nil ==> c.NextSibling == ite(idx[c]+1 < len(c.ParentNode.ChildNodes), c.ParentNode.ChildNodes[idx[c]+1], nil)
inv @C02 prev: forall c *Node {c.PreviousSibling} ::
      c != nil && c.ParentNode != nil ==> c.PreviousSibling == ite(0 < idx[c], c.ParentNode.ChildNodes[idx[c]-1], nil)
inv @C02 orphan: forall c *Node {c.NextSibling} {c.PreviousSibling} ::
      c != nil && c.ParentNode == nil ==> c.NextSibling == nil && c.PreviousSibling == nil
inv @C02 eorphan: forall c *Node {c.NextElementSibling} {c.PreviousElementSibling} ::
      c != nil && (c.ParentNode == nil || c.NodeType != 1) ==> c.NextElementSibling == nil && c.PreviousElementSibling == nil
inv @C02 echild: forall n *Node, i int {n.Children[i]} ::
      n != nil && !dead[n] && 0 <= i && i < len(n.Children) ==>
      n.Children[i] != nil && n.Children[i].ParentNode == n && eidx[n.Children[i]] == i && n.Children[i].NodeType == 1
inv @C02 eparent: forall c *Node {c.ParentNode} ::
      c != nil && c.ParentNode != nil && c.NodeType == 1 ==> 0 <= eidx[c] && eidx[c] < len(c.ParentNode.Children) && c.ParentNode.Children[eidx[c]] == c
inv @C02 enext: forall c *Node {c.NextElementSibling} ::
      c != nil && c.ParentNode != nil && c.NodeType == 1 ==> c.NextElementSibling == ite(eidx[c]+1 < len(c.ParentNode.Children), c.ParentNode.Children[eidx[c]+1], nil)
inv @C02 eprev: forall c *Node {c.PreviousElementSibling} ::
      c != nil && c.ParentNode != nil && c.NodeType == 1 ==> c.PreviousElementSibling == ite(0 < eidx[c], c.ParentNode.Children[eidx[c]-1], nil)
lazyinv @C02 order: forall n *Node, i int, j int {n.Children[i], n.Children[j]} ::
      n != nil && !dead[n] && 0 <= i && i < j && j < len(n.Children) ==> idx[n.Children[i]] < idx[n.Children[j]]
inv @C02 owner: forall n *Node {n.ChildNodes} ::
      n != nil && !dead[n] && cap(n.ChildNodes) > 0 ==> own[arr(n.ChildNodes)] == n && eown[arr(n.ChildNodes)] == 0
inv @C02 eowner: forall n *Node {n.Children} ::
      n != nil && !dead[n] && cap(n.Children) > 0 ==> eown[arr(n.Children)] == n && own[arr(n.Children)] == 0

// arrays that are not a child list (lists the caller holds) keep their contents
trans @C02 temp: forall a int {elemheap("*Node")[a]} {own[a]} {eown[a]} :: a < old(alloc) && old(own[a]) == 0 && old(eown[a]) == 0 ==>
      elemheap("*Node")[a] == old(elemheap("*Node")[a]) && own[a] == 0 && eown[a] == 0
trans @C02 olddead: forall n *Node {dead[n]} :: n < old(alloc) ==> dead[n] == old(dead[n])

func (*Node).RemoveChild(n, child)
  use order
  requires !dead[n]
  ensures @C02 found: old(child.ParentNode) == n ==> res0 == child && res1 == nil && child.ParentNode == nil
  ensures @C02 notfound: old(child.ParentNode) != n ==> res0 == nil && res1 != nil && unchanged(Node.ParentNode, Node.ChildNodes, Node.Children)
  ensures @C02 others: keeps(c, c != child, Node.ParentNode)
  ensures @C02 lists: keeps(m, m != n, Node.ChildNodes, Node.Children)
  ensures @C02 len: len(n.ChildNodes) == old(len(n.ChildNodes)) - ite(old(child.ParentNode) == n, 1, 0)
  ensures @C02 order: forall c *Node {idx[c]} :: idx[c] == ite(old(child.ParentNode) == n && old(c.ParentNode) == n && old(idx[c]) > old(idx[child]), old(idx[c]) - 1, old(idx[c]))
  ensures @C02 shift: forall j int {n.ChildNodes[j]} :: 0 <= j && j < len(n.ChildNodes) ==> n.ChildNodes[j] == old(n.ChildNodes[ite(child.ParentNode == n && idx[child] <= j, j+1, j)])
  ensures @C02 sib: keeps(c, c != child && old(c.ParentNode) != n, Node.NextSibling, Node.PreviousSibling, Node.NextElementSibling, Node.PreviousElementSibling)
  ensures @C02 arrs: forall a int {elemheap("*Node")[a]} {own[a]} {eown[a]} :: a < old(alloc) && old(own[a]) != n && old(eown[a]) != n ==>
      elemheap("*Node")[a] == old(elemheap("*Node")[a]) && own[a] == old(own[a]) && eown[a] == old(eown[a])
  update idx[x *Node] = ite(old(child.ParentNode) == n && old(x.ParentNode) == n && old(idx[x]) > old(idx[child]), old(idx[x]) - 1, old(idx[x]))
  update eidx[x *Node] = ite(old(child.ParentNode) == n && child.NodeType == 1 && old(x.ParentNode) == n && old(eidx[x]) > old(eidx[child]), old(eidx[x]) - 1, old(eidx[x]))

func (*Node).AppendChild(n, child)
  use order
  requires !dead[n] && !dead[child]
  ensures @C02 parent: child.ParentNode == n
  ensures @C02 last: len(n.ChildNodes) > 0 && n.ChildNodes[len(n.ChildNodes)-1] == child
  ensures @C02 prefix: old(child.ParentNode) != n ==> (forall j int {n.ChildNodes[j]} :: 0 <= j && j < old(len(n.ChildNodes)) ==> n.ChildNodes[j] == old(n.ChildNodes[j]))
  ensures @C02 order: forall c *Node {idx[c]} :: c != child && old(c.ParentNode) != n ==> idx[c] == old(idx[c]) - ite(old(child.ParentNode) != nil && old(c.ParentNode) == old(child.ParentNode) && old(idx[c]) > old(idx[child]), 1, 0)
  ensures @C02 elast: child.NodeType == 1 ==> len(n.Children) > 0 && n.Children[len(n.Children)-1] == child
  ensures @C02 len: len(n.ChildNodes) == old(len(n.ChildNodes)) + ite(old(child.ParentNode) == n, 0, 1)
  ensures @C02 others: keeps(c, c != child, Node.ParentNode)
  ensures @C02 lists: keeps(m, m != n && m != old(child.ParentNode), Node.ChildNodes, Node.Children)
  ensures @C02 sib: keeps(c, c != child && old(c.ParentNode) != n && (old(child.ParentNode) == nil || old(c.ParentNode) != old(child.ParentNode)), Node.NextSibling, Node.PreviousSibling, Node.NextElementSibling, Node.PreviousElementSibling)
  ensures @C02 arrs: forall a int {elemheap("*Node")[a]} {own[a]} {eown[a]} :: a < old(alloc) && old(own[a]) != n && old(eown[a]) != n && (old(child.ParentNode) == nil || old(own[a]) != old(child.ParentNode) && old(eown[a]) != old(child.ParentNode)) ==>
      elemheap("*Node")[a] == old(elemheap("*Node")[a]) && own[a] == old(own[a]) && eown[a] == old(eown[a])
  update idx[x *Node] = ite(x == child, len(n.ChildNodes) - 1, idx[x])
  update eidx[x *Node] = ite(x == child && child.NodeType == 1, len(n.Children) - 1, eidx[x])
  update own[a int] = ite(a == arr(n.ChildNodes), n, own[a])
  update eown[a int] = ite(a == arr(n.Children) && cap(n.Children) > 0, n, eown[a])

func (*Node).ReplaceChild(n, newNode, oldNode)
  use order
  requires !dead[n] && !dead[newNode]
  requires oldNode.ParentNode == n
  ensures @C02 res: res == oldNode
  ensures @C02 out: newNode != oldNode ==> oldNode.ParentNode == nil && newNode.ParentNode == n
  ensures @C02 inplace: newNode != oldNode && old(newNode.ParentNode) != n ==> (forall j int {n.ChildNodes[j]} :: 0 <= j && j < len(n.ChildNodes) ==> n.ChildNodes[j] == ite(j == old(idx[oldNode]), newNode, old(n.ChildNodes[j])))
  ensures @C02 same: newNode == oldNode ==> unchanged(Node.ParentNode, Node.ChildNodes, Node.Children)
  ensures @C02 others: keeps(c, c != newNode && c != oldNode, Node.ParentNode)
  ensures @C02 lists: keeps(m, m != n && m != old(newNode.ParentNode), Node.ChildNodes, Node.Children)
  ensures @C02 len: len(n.ChildNodes) == old(len(n.ChildNodes)) - ite(newNode != oldNode && old(newNode.ParentNode) == n, 1, 0)
  ensures @C02 sib: keeps(c, c != newNode && c != oldNode && old(c.ParentNode) != n && (old(newNode.ParentNode) == nil || old(c.ParentNode) != old(newNode.ParentNode)), Node.NextSibling, Node.PreviousSibling, Node.NextElementSibling, Node.PreviousElementSibling)
  ensures @C02 arrs: forall a int {elemheap("*Node")[a]} {own[a]} {eown[a]} :: a < old(alloc) && old(own[a]) != n && old(eown[a]) != n && (old(newNode.ParentNode) == nil || old(own[a]) != old(newNode.ParentNode) && old(eown[a]) != old(newNode.ParentNode)) ==>
      elemheap("*Node")[a] == old(elemheap("*Node")[a]) && own[a] == old(own[a]) && eown[a] == old(eown[a])
  update idx[x *Node] = ite(x == newNode && newNode != oldNode, idx[oldNode], idx[x])
  update eidx[x *Node] = ite(newNode == oldNode, eidx[x],
      ite(newNode.NodeType == 1 && oldNode.NodeType == 1, ite(x == newNode, eidx[oldNode], eidx[x]),
      ite(newNode.NodeType == 1, 
          ite(x == newNode, ite(newNode.NextElementSibling != nil, eidx[newNode.NextElementSibling], len(n.Children)-1),
          ite(x.ParentNode == n && newNode.NextElementSibling != nil && eidx[x] >= eidx[newNode.NextElementSibling], eidx[x]+1, eidx[x])),
      ite(oldNode.NodeType == 1, ite(x.ParentNode == n && eidx[x] > eidx[oldNode], eidx[x]-1, eidx[x]), eidx[x]))))
  update eown[a int] = ite(a == arr(n.Children) && cap(n.Children) > 0, n, eown[a])
  cand scandown: (i phiint, cn []*Node, ci int) :: forall k int {cn[k]} :: i < k && k < ci && k < len(cn) ==> cn[k].NodeType != 1
  cand scanup: (i phiint, cn []*Node, ci int) :: forall k int {cn[k]} :: ci < k && k < i && k < len(cn) ==> cn[k].NodeType != 1
  split newNode.NodeType == 1
  split oldNode.NodeType == 1
  split newNode.ParentNode == nil


func (*domParser).readNode(p, n)
  requires !dead[n]
  requires p.z != nil && p.doc != nil
  requires p.doc.NodeType == 9
  ensures keep: keeps(q, q < old(alloc), domParser.z, domParser.doc)
  ensures parent: n.ParentNode == old(n.ParentNode)
  ensures @C02 frame: keeps(c, c != nil && c < old(alloc) && c != n && old(c.ParentNode) != n, Node.ParentNode, Node.NextSibling, Node.PreviousSibling, Node.NextElementSibling, Node.PreviousElementSibling, Node.ChildNodes, Node.Children)
  ensures @C02 frame2: keeps(c, c != nil && c < old(alloc) && c != n, Node.ChildNodes, Node.Children, Node.ParentNode)
  ensures @C02 arrs: forall a int {elemheap("*Node")[a]} {own[a]} {eown[a]} :: a < old(alloc) && old(own[a]) != n && old(eown[a]) != n ==>
      elemheap("*Node")[a] == old(elemheap("*Node")[a]) && own[a] == old(own[a]) && eown[a] == old(eown[a])
  cand frame: keeps(c, c != nil && c < old(alloc) && c != n && old(c.ParentNode) != n, Node.ParentNode, Node.NextSibling, Node.PreviousSibling, Node.NextElementSibling, Node.PreviousElementSibling, Node.ChildNodes, Node.Children)
  cand frame2: keeps(c, c != nil && c < old(alloc) && c != n, Node.ChildNodes, Node.Children, Node.ParentNode)
  cand nparent: n.ParentNode == old(n.ParentNode)
  cand keep: keeps(q, q < old(alloc), domParser.z, domParser.doc)
  cand arrs: forall a int {elemheap("*Node")[a]} {own[a]} {eown[a]} :: a < old(alloc) && old(own[a]) != n && old(eown[a]) != n ==>
      elemheap("*Node")[a] == old(elemheap("*Node")[a]) && own[a] == old(own[a]) && eown[a] == old(eown[a])

func (*domParser).parse(p, htmlSrc, url)
  ensures @C02 doc: res >= old(alloc) && res.NodeType == 9 && !dead[res] && res.ParentNode == nil && res.DocumentURI == url
  ensures @C02 frame: keeps(c, c != nil && c < old(alloc), Node.ParentNode, Node.NextSibling, Node.PreviousSibling, Node.NextElementSibling, Node.PreviousElementSibling, Node.ChildNodes, Node.Children)
  ensures @C02 arrs: forall a int {elemheap("*Node")[a]} {own[a]} {eown[a]} :: a < old(alloc) ==>
      elemheap("*Node")[a] == old(elemheap("*Node")[a]) && own[a] == old(own[a]) && eown[a] == old(eown[a])
  ensures last: lastdoc == res && p.doc == res
  ensures others: keeps(q, q != p && q < old(alloc), domParser.z, domParser.doc)
  cand others: keeps(q, q != p && q < old(alloc), domParser.z, domParser.doc)
  update lastdoc = res
  ensures @C02 root: res.DocumentElement != nil ==> (forall i int {res.ChildNodes[i]} :: 0 <= i && i < len(res.ChildNodes) ==> res.ChildNodes[i] == res.DocumentElement)
  cand ilt: (i phiint) :: i < len(p.doc.ChildNodes)
  cand doc: p.doc >= old(alloc) && p.doc.NodeType == 9 && !dead[p.doc] && p.doc.ParentNode == nil && p.doc.DocumentElement == pre(p.doc.DocumentElement) && p.doc == pre(p.doc)
  cand onlyroot: (i phiint) :: forall j int {p.doc.ChildNodes[j]} :: i < j && j < len(p.doc.ChildNodes) ==> p.doc.ChildNodes[j] == p.doc.DocumentElement
  cand frame: keeps(c, c != nil && c < old(alloc), Node.ParentNode, Node.NextSibling, Node.PreviousSibling, Node.NextElementSibling, Node.PreviousElementSibling, Node.ChildNodes, Node.Children)
  cand arrs: forall a int {elemheap("*Node")[a]} {own[a]} {eown[a]} :: a < old(alloc) ==>
      elemheap("*Node")[a] == old(elemheap("*Node")[a]) && own[a] == old(own[a]) && eown[a] == old(eown[a])

func (*Node).SetInnerHTML(n, html)
  ensures parsers: keeps(q, q < old(alloc), domParser.z, domParser.doc)
  use order
  requires !dead[n]
  requires n.NodeType == 1 || n.NodeType == 3
  ensures @C02 kids: n.NodeType == 1 ==> (forall i int {n.ChildNodes[i]} :: 0 <= i && i < len(n.ChildNodes) ==> n.ChildNodes[i] >= old(alloc))
  ensures @C02 text: n.NodeType != 1 ==> unchanged(Node.ParentNode, Node.ChildNodes, Node.Children, Node.NextSibling, Node.PreviousSibling, Node.NextElementSibling, Node.PreviousElementSibling)
  ensures @C02 parents: forall c *Node {c.ParentNode} :: c != nil && c < old(alloc) ==> c.ParentNode == ite(old(c.ParentNode) == n && n.NodeType == 1, nil, old(c.ParentNode))
  ensures @C02 lists: keeps(c, c != nil && c < old(alloc) && c != n, Node.ChildNodes, Node.Children)
  ensures @C02 sib: keeps(c, c != nil && c < old(alloc) && old(c.ParentNode) != n, Node.NextSibling, Node.PreviousSibling, Node.NextElementSibling, Node.PreviousElementSibling)
  ensures @C02 arrs: forall a int {elemheap("*Node")[a]} {own[a]} {eown[a]} :: a < old(alloc) ==>
      elemheap("*Node")[a] == old(elemheap("*Node")[a]) && own[a] == old(own[a]) && eown[a] == old(eown[a])
  update dead[x *Node] = dead[x] || (n.NodeType == 1 && x == lastdoc)
  update own[a int] = ite(n.NodeType == 1 && a == arr(n.ChildNodes) && cap(n.ChildNodes) > 0, n, own[a])
  update eown[a int] = ite(n.NodeType == 1 && a == arr(n.Children) && cap(n.Children) > 0, n, eown[a])
  cand dpn: (i phiint) :: forall c *Node {c.ParentNode} :: c != nil ==> c.ParentNode == ite(pre(c.ParentNode) == n && idx[c] > i, nil, pre(c.ParentNode))
  cand dnx: (i phiint) :: forall c *Node {c.NextSibling} :: c != nil ==> c.NextSibling == ite(pre(c.ParentNode) == n && idx[c] > i, nil, pre(c.NextSibling))
  cand dpv: (i phiint) :: forall c *Node {c.PreviousSibling} :: c != nil ==> c.PreviousSibling == ite(pre(c.ParentNode) == n && idx[c] > i, nil, pre(c.PreviousSibling))
  cand dnxe: (i phiint) :: forall c *Node {c.NextElementSibling} :: c != nil ==> c.NextElementSibling == ite(pre(c.ParentNode) == n && idx[c] > i, nil, pre(c.NextElementSibling))
  cand dpve: (i phiint) :: forall c *Node {c.PreviousElementSibling} :: c != nil ==> c.PreviousElementSibling == ite(pre(c.ParentNode) == n && idx[c] > i, nil, pre(c.PreviousElementSibling))
  cand adopt: (i phiint) :: forall c *Node {c.ParentNode} :: c != nil ==> c.ParentNode == ite(pre(c.ParentNode) == lastdoc && idx[c] > i, n, pre(c.ParentNode))
  cand ilt: (i phiint) :: i < len(n.ChildNodes)

func (*Node).SetTextContent(n, text)
  use order
  requires !dead[n]
  requires n.NodeType == 1 || n.NodeType == 3
  ensures @C02 kids: n.NodeType == 1 ==> len(n.ChildNodes) == 1 && n.ChildNodes[0] >= old(alloc) && n.ChildNodes[0].NodeType == 3 && len(n.Children) == 0
  ensures @C02 text: n.NodeType != 1 ==> unchanged(Node.ParentNode, Node.ChildNodes, Node.Children, Node.NextSibling, Node.PreviousSibling, Node.NextElementSibling, Node.PreviousElementSibling)
  ensures @C02 parents: forall c *Node {c.ParentNode} :: c != nil && c < old(alloc) ==> c.ParentNode == ite(old(c.ParentNode) == n && n.NodeType == 1, nil, old(c.ParentNode))
  ensures @C02 lists: keeps(c, c != nil && c < old(alloc) && c != n, Node.ChildNodes, Node.Children)
  ensures @C02 sib: keeps(c, c != nil && c < old(alloc) && old(c.ParentNode) != n, Node.NextSibling, Node.PreviousSibling, Node.NextElementSibling, Node.PreviousElementSibling)
  ensures @C02 arrs: forall a int {elemheap("*Node")[a]} {own[a]} {eown[a]} :: a < old(alloc) ==>
      elemheap("*Node")[a] == old(elemheap("*Node")[a]) && own[a] == old(own[a]) && eown[a] == old(eown[a])
  update own[a int] = ite(n.NodeType == 1 && a == arr(n.ChildNodes) && cap(n.ChildNodes) > 0, n, own[a])
  update eown[a int] = ite(n.NodeType == 1 && a == arr(n.Children) && cap(n.Children) > 0, n, eown[a])
  cand dpn: (i phiint) :: forall c *Node {c.ParentNode} :: c != nil ==> c.ParentNode == ite(pre(c.ParentNode) == n && idx[c] > i, nil, pre(c.ParentNode))
  cand dnx: (i phiint) :: forall c *Node {c.NextSibling} :: c != nil ==> c.NextSibling == ite(pre(c.ParentNode) == n && idx[c] > i, nil, pre(c.NextSibling))
  cand dpv: (i phiint) :: forall c *Node {c.PreviousSibling} :: c != nil ==> c.PreviousSibling == ite(pre(c.ParentNode) == n && idx[c] > i, nil, pre(c.PreviousSibling))
  cand dnxe: (i phiint) :: forall c *Node {c.NextElementSibling} :: c != nil ==> c.NextElementSibling == ite(pre(c.ParentNode) == n && idx[c] > i, nil, pre(c.NextElementSibling))
  cand dpve: (i phiint) :: forall c *Node {c.PreviousElementSibling} :: c != nil ==> c.PreviousElementSibling == ite(pre(c.ParentNode) == n && idx[c] > i, nil, pre(c.PreviousElementSibling))
  cand ilt: (i phiint) :: i < len(n.ChildNodes)

end
profile C02 C01
