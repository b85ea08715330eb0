// The two views of a text node (C05): tx the text, mk the markup.
ghost tx (Array Int Str)
ghost mk (Array Int Str)
fun dec Str Str
smt (assert (= (dec "") ""))
pred enc(s string) = replaced(s, "<", "&lt;", ">", "&gt;", "&", "&amp;")

inv @C05 tview: forall n *Node {tx[n]} {n.textContent} {n.innerHTML} :: n != nil && n.NodeType == 3 ==> tx[n] == ite(n.textContent != "", n.textContent, dec(n.innerHTML))
inv @C05 mview: forall n *Node {mk[n]} {n.textContent} {n.innerHTML} :: n != nil && n.NodeType == 3 ==> mk[n] == ite(n.innerHTML != "", n.innerHTML, ite(n.textContent != "", replaced(n.textContent, "<", "&lt;", ">", "&gt;", "&", "&amp;"), ""))

more decodeHTML
  ensures @C05 dec: res0 == dec(s)
  ensures @C05 err: res1 != nil ==> res0 == ""
  leave @C05 post/dec: dec is the name of the text decodeHTML computes; what it computes is checked by the bounded part
func (*Node).setTextContentFromTextNode(t, newText)
  requires t.NodeType == 3
  update @C05 tx = store(tx, t, newText)
  update @C05 mk = store(mk, t, enc(newText))
  ensures @C05 tx: tx == store(old(tx), t, newText)
  ensures @C05 mk: mk == store(old(mk), t, enc(newText))
func (*Node).setInnerHTMLFromTextNode(t, newHTML)
  requires t.NodeType == 3
  update @C05 tx = store(tx, t, dec(newHTML))
  update @C05 mk = store(mk, t, newHTML)
  ensures @C05 tx: tx == store(old(tx), t, dec(newHTML))
  ensures @C05 mk: mk == store(old(mk), t, newHTML)
more (*Node).SetTextContent
  update @C05 tx = ite(n.NodeType == 1, store(tx, n.ChildNodes[0], text), tx)
  update @C05 mk = ite(n.NodeType == 1, store(mk, n.ChildNodes[0], enc(text)), mk)
  ensures @C05 tx: n.NodeType == 3 ==> tx == store(old(tx), n, text) && mk == store(old(mk), n, enc(text))
  ensures @C05 etx: n.NodeType == 1 ==> tx[n.ChildNodes[0]] == text && mk[n.ChildNodes[0]] == enc(text) && (forall c *Node {tx[c]} {mk[c]} :: c < old(alloc) ==> tx[c] == old(tx[c]) && mk[c] == old(mk[c]))
more (*Node).SetInnerHTML
  ensures @C05 tx: n.NodeType == 3 ==> tx == store(old(tx), n, dec(html)) && mk == store(old(mk), n, html)
more (*Node).GetTextContent
  ensures @C05 text: n.NodeType == 3 ==> res == tx[n]
more (*Node).GetInnerHTML
  ensures @C05 markup: n.NodeType == 3 ==> res == mk[n]
more (*Node).createTextNode
  ensures @C05 text: tx[res] == text && mk[res] == enc(text)
end
profile C05 C02 C01

// The text of an element: ct[n] the texts of the text nodes below n in document order,
// pct[n][i] those below the first i children; a definition over the tree while `texting`.
ghost ct (Array Int Str)
ghost pct (Array Int (Array Int Str))
ghost texting Bool
fun joinof Str (Array Int Str) Int Int
smt @C05 (assert (forall ((a (Array Int Str)) (o Int)) (! (= (joinof a o 0) "") :pattern ((joinof a o 0)))))
smt @C05 (assert (forall ((s Str)) (! (= (sconcat "" s) s) :pattern ((sconcat "" s)))))
smt @C05 (assert (forall ((a Str) (b Str) (c Str)) (! (= (sconcat (sconcat a b) c) (sconcat a (sconcat b c))) :pattern ((sconcat (sconcat a b) c)))))
inv @C05 ct: forall n *Node, i int {n.ChildNodes[i]} :: texting && n != nil && !dead[n] && 0 <= i && i < len(n.ChildNodes) ==>
      pct[n][i+1] == pct[n][i] + ite(n.ChildNodes[i].NodeType == 3, tx[n.ChildNodes[i]], ct[n.ChildNodes[i]])
inv @C05 ct0: forall n *Node {ct[n]} {pct[n]} :: texting && n != nil && !dead[n] ==> pct[n][0] == "" && ct[n] == pct[n][len(n.ChildNodes)]
more (*Node).AppendChild
  update @C05 texting = false
more (*Node).RemoveChild
  update @C05 texting = false
more (*Node).ReplaceChild
  update @C05 texting = false
more (*Node).SetInnerHTML
  update @C05 texting = false
more (*Node).SetTextContent
  update @C05 texting = false
more (*Node).setTextContentFromTextNode
  update @C05 texting = false
more (*Node).setInnerHTMLFromTextNode
  update @C05 texting = false
more (*Node).GetTextContent
  ensures @C05 lists: forall a int {elemheap("string")[a]} :: a < old(alloc) ==> elemheap("string")[a] == old(elemheap("string")[a])
  ensures @C05 concat: texting == old(texting) && (texting && n.NodeType == 1 ==> res == ct[n])
more (*Node).GetTextContent$1
  ensures @C05 lists: forall a int {elemheap("string")[a]} :: a < old(alloc) && a != arr(t) ==> elemheap("string")[a] == old(elemheap("string")[a])
  ensures @C05 list: arr(res) == arr(t) || arr(res) >= old(alloc)
  cand @C05 lists: forall a int {elemheap("string")[a]} :: a < old(alloc) && a != arr(t) ==> elemheap("string")[a] == old(elemheap("string")[a])
  cand @C05 list: (s phi[]string) :: arr(s) == arr(t) || arr(s) >= old(alloc)
  ensures @C05 concat: texting == old(texting) && (texting ==> joined(res) == old(joined(t)) + ct[from])
  cand @C05 concat: (s phi[]string, i phiint) :: texting ==> joined(s) == old(joined(t)) + pct[from][i] && 0 <= i && i <= len(from.ChildNodes)
end
more (*Node).GetTextContent
  use tview mview ct ct0
more (*Node).GetTextContent$1
  use tview mview ct ct0
more (*Node).GetInnerHTML
  use tview mview
more (*Node).SetInnerHTML
  hide ct ct0
more (*Node).ReplaceChild
  hide ct ct0
end
