// Classes (C10).
// clsid: a list of classes to preserve as one value; inlist: membership in it.
// kc(id, s): the class text s with the classes that are not in the list taken out.
ghost cdone (Array Int Int)
ghost oc (Array Int Str)
fun clsid Int (Array Int Str) Int Int
fun inlist Bool Int Str
fun joinsp Str (Array Int Str) Int Int
fun splitof (Array Int Str) Int Str
fun splitn Int Int Str
fun fc Int (Array Int Str) Int Int
fun fl Str (Array Int Str) Int Int
fun kc Str Int Int Str
fun nocdone (Array Int Int)
smt @C10 (assert (= nocdone ((as const (Array Int Int)) 0)))
smt @C10 (assert (forall ((a (Array Int Str)) (o Int) (n Int)) (! (< 0 (clsid a o n)) :pattern ((clsid a o n)))))
smt @C10 (assert (forall ((a (Array Int Str)) (o Int) (n Int) (s Str)) (! (= (inlist (clsid a o n) s) (exists ((i Int)) (! (and (<= 0 i) (< i n) (= (at_Str a o i) s)) :pattern ((at_Str a o i))))) :pattern ((inlist (clsid a o n) s)))))
smt @C10 (assert (forall ((a (Array Int Str)) (o Int)) (! (= (joinsp a o 0) "") :pattern ((joinsp a o 0)))))
// fl, fc: the first n texts of a list restricted to the members of id, joined with blanks, and their number
smt @C10 (assert (forall ((a (Array Int Str)) (id Int)) (! (and (= (fc a 0 id) 0) (= (fl a 0 id) "")) :pattern ((fc a 0 id)) :pattern ((fl a 0 id)))))
smt @C10 (assert (forall ((a (Array Int Str)) (n Int) (id Int)) (! (=> (<= 0 n) (= (fc a (+ n 1) id) (+ (fc a n id) (ite (inlist id (at_Str a 0 n)) 1 0)))) :pattern ((fc a n id) (at_Str a 0 n)))))
smt @C10 (assert (forall ((a (Array Int Str)) (n Int) (id Int)) (! (=> (<= 0 n) (= (fl a (+ n 1) id) (ite (inlist id (at_Str a 0 n)) (ite (= (fc a n id) 0) (at_Str a 0 n) (sconcat (sconcat (fl a n id) " ") (at_Str a 0 n))) (fl a n id)))) :pattern ((fl a n id) (at_Str a 0 n)))))
smt @C10 (assert (forall ((re Int) (id Int) (s Str)) (! (= (kc id re s) (ite (= s "") "" (fl (splitof re s) (splitn re s) id))) :pattern ((kc id re s)))))

pred idof(r *Readability) = clsid(elems(r.options.classesToPreserve), off(r.options.classesToPreserve), len(r.options.classesToPreserve))
inv @C10 cdone: forall n *Node {cdone[n]} :: n != nil && cdone[n] != 0 ==> (ah[n]["class"] <==> kc(cdone[n], multipleWhitespaces, oc[n]) != "") && (ah[n]["class"] ==> av[n]["class"] == kc(cdone[n], multipleWhitespaces, oc[n]))
inv @C10 ckids: forall n *Node, i int {n.Children[i]} :: n != nil && !dead[n] && cdone[n] != 0 && 0 <= i && i < len(n.Children) ==> cdone[n.Children[i]] == cdone[n]

extern (*regexp.Regexp).Split(re, s, n)
  ensures @C10 split: n < 0 ==> elems(res) == splitof(re, s) && len(res) == splitn(re, s) && off(res) == 0

more (*Node).AppendChild
  update @C10 cdone = nocdone()
more (*Node).ReplaceChild
  update @C10 cdone = nocdone()
more (*Node).SetInnerHTML
  update @C10 cdone = nocdone()
more (*Node).SetTextContent
  update @C10 cdone = nocdone()
// a class text that is replaced by its own restriction keeps the mark
pred curcls(n *Node) = ite(ah[n]["class"], av[n]["class"], "")
more (*Node).SetAttribute
  update @C10 cdone = ite(name == "class" && cdone[n] != 0 && (value == "" || value != kc(cdone[n], multipleWhitespaces, old(curcls(n)))), nocdone(), cdone)
  update @C10 oc = ite(name == "class", store(oc, n, old(curcls(n))), oc)
  ensures @C10 mark: cdone == ite(name == "class" && old(cdone[n]) != 0 && (value == "" || value != kc(old(cdone[n]), multipleWhitespaces, old(curcls(n)))), nocdone(), old(cdone))
  ensures @C10 oc: oc == ite(name == "class", store(old(oc), n, old(curcls(n))), old(oc))
  ensures @C10 tree: unchanged(Node.Children, Node.ParentNode, Node.NextElementSibling, Node.NodeType)
more (*Node).RemoveAttribute
  update @C10 cdone = ite(name == "class" && cdone[n] != 0 && kc(cdone[n], multipleWhitespaces, old(curcls(n))) != "", nocdone(), cdone)
  update @C10 oc = ite(name == "class", store(oc, n, old(curcls(n))), oc)
  ensures @C10 mark: cdone == ite(name == "class" && old(cdone[n]) != 0 && kc(old(cdone[n]), multipleWhitespaces, old(curcls(n))) != "", nocdone(), old(cdone))
  ensures @C10 oc: oc == ite(name == "class", store(old(oc), n, old(curcls(n))), old(oc))
  ensures @C10 tree: unchanged(Node.Children, Node.ParentNode, Node.NextElementSibling, Node.NodeType)
more (*Readability).simplifyNestedElements
  update @C10 cdone = nocdone()
  ensures @C10 none: cdone == nocdone()
func (*Readability).preserve(r, s)
  ensures @C10 in: res <==> inlist(idof(r), s)
more (*Readability).cleanClasses
  requires @C10 marks: forall x *Node {cdone[x]} :: cdone[x] == 0 || cdone[x] == idof(r)
  update @C10 cdone = store(cdone, n, idof(r))
  ensures @C10 done: cdone[n] == idof(r)
  ensures @C10 marks: forall x *Node {cdone[x]} :: cdone[x] == ite(old(cdone[x]) == 0, cdone[x], old(cdone[x])) && (cdone[x] == 0 || cdone[x] == idof(r))
  ensures @C10 others: forall m *Node, k string {ah[m][k]} {av[m][k]} :: m != nil && m < old(alloc) && k != "class" ==> ah[m][k] == old(ah[m][k]) && av[m][k] == old(av[m][k])
  ensures @C10 touched: forall m *Node {av[m]} {ah[m]} {oc[m]} :: m != nil && m < old(alloc) ==> cdone[m] == idof(r) || ah[m] == old(ah[m]) && av[m] == old(av[m]) && oc[m] == old(oc[m])
  cand @C10 touched: forall m *Node {av[m]} {ah[m]} {oc[m]} :: m != nil && m < old(alloc) ==> m == n || cdone[m] == idof(r) || ah[m] == old(ah[m]) && av[m] == old(av[m]) && oc[m] == old(oc[m])
  ensures @C10 tree: unchanged(Node.Children, Node.ParentNode, Node.NextElementSibling, Options.classesToPreserve) && elemheap("*Node") == old(elemheap("*Node")) && eidx == old(eidx)
  ensures @C10 lists: forall a int {elemheap("string")[a]} :: a < old(alloc) ==> elemheap("string")[a] == old(elemheap("string")[a])
  cand @C10 lists: forall a int {elemheap("string")[a]} :: a < old(alloc) ==> elemheap("string")[a] == old(elemheap("string")[a])
  cand @C10 prelists: forall a int {elemheap("string")[a]} :: a < pre(alloc) ==> elemheap("string")[a] == pre(elemheap("string")[a])
  cand @C10 prefresh: (s phi[]string) :: cap(s) == 0 || arr(s) >= pre(alloc)
  cand @C10 fresh: (s phi[]string) :: cap(s) == 0 || arr(s) >= old(alloc)
  cand @C10 marks: forall x *Node {cdone[x]} :: cdone[x] == ite(old(cdone[x]) == 0, cdone[x], old(cdone[x])) && (cdone[x] == 0 || cdone[x] == idof(r))
  cand @C10 others: forall m *Node, k string {ah[m][k]} {av[m][k]} :: m != nil && m < old(alloc) && k != "class" ==> ah[m][k] == old(ah[m][k]) && av[m][k] == old(av[m][k])
  cand @C10 at: (c phi*Node) :: c == nil || c.ParentNode == n && c.NodeType == 1
  cand @C10 kids: (c phi*Node) :: forall j int {n.Children[j]} :: 0 <= j && j < len(n.Children) && (c == nil || j < eidx[c]) ==> cdone[n.Children[j]] == idof(r)
  cand @C10 kidsi: (i phiint) :: forall j int {n.Children[j]} :: 0 <= j && j < len(n.Children) && j <= i ==> cdone[n.Children[j]] == idof(r)
  cand @C10 filt: (s phi[]string, l []string, i phiint) :: spaced(s) == fl(elems(l), i + 1, idof(r)) && len(s) == fc(elems(l), i + 1, idof(r)) && -1 <= i
  cand @C10 filt0: (s phi[]string, l []string, i phiint) :: spaced(s) == fl(elems(l), i, idof(r)) && len(s) == fc(elems(l), i, idof(r)) && 0 <= i
  cand @C10 own: cdone[n] == 0 || cdone[n] == idof(r)
  cand @C10 mine: (ah[n]["class"] <==> kc(idof(r), multipleWhitespaces, oc[n]) != "") && (ah[n]["class"] ==> av[n]["class"] == kc(idof(r), multipleWhitespaces, oc[n]))
  use cdone ckids echild eparent enext
// what reaches the serializer is marked
ghost sercd (Array Int Int)
extern dyn:func(*Node) string(f, n)
  update @C10 sercd = store(sercd, f, cdone[n])
more (*Readability).postProcessContent
  ensures @C10 classes: !r.options.keepClasses ==> cdone[articleContent] == idof(r)
more (*Readability).Parse
  ensures @C10 classes: res0 != nil && !r.options.keepClasses ==> sercd[r.options.serializer] != 0
end
profile C10 C03 C02 C01
show C10 none
