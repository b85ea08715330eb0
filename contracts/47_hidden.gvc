// Hidden elements (C14): what isProbablyVisible and isModalDialog decide, as a function of the attributes.
// dn, dat: the declarations of a style text; dhas, dname, dval: what a declaration names and sets.
fun tr Str Str
fun dn Int Str
fun dat Str Str Int
fun dhas Bool Str
fun dname Str Str
fun dval Str Str
fun fd Int Str Str
fun sty Str Str Str
// fd: the first declaration of a name, dn if there is none; sty: its value
smt @C14 (assert (forall ((s Str)) (! (<= 0 (dn s)) :pattern ((dn s)))))
smt @C14 (assert (forall ((s Str) (k Str)) (! (and (<= 0 (fd s k)) (<= (fd s k) (dn s)) (=> (< (fd s k) (dn s)) (and (dhas (dat s (fd s k))) (= (tr (dname (dat s (fd s k)))) k)))) :pattern ((fd s k)))))
smt @C14 (assert (forall ((s Str) (k Str) (j Int)) (! (=> (and (<= 0 j) (< j (fd s k))) (not (and (dhas (dat s j)) (= (tr (dname (dat s j))) k)))) :pattern ((fd s k) (dat s j)))))
smt @C14 (assert (forall ((s Str) (k Str)) (! (= (sty s k) (ite (or (= s "") (= (fd s k) (dn s))) "" (tr (dval (dat s (fd s k)))))) :pattern ((sty s k)))))

extern strings.TrimSpace(s)
  ensures @C14 trim: res == tr(s)
extern strings.Split(s, sep)
  ensures @C14 list: sep == ";" ==> len(res) == dn(s) && (forall i int {res[i]} :: 0 <= i && i < len(res) ==> res[i] == dat(s, i))
  ensures @C14 decl: sep == ":" ==> (len(res) > 1 <==> dhas(s)) && len(res) > 0 && res[0] == dname(s) && (len(res) > 1 ==> res[1] == dval(s))

inv @C14 ofnode: forall n *Node {n.style} :: n != nil && n.style != nil ==> n.style.Node == n
inv @C14 styled: forall n *Node {n.style} :: n != nil && n.NodeType == 1 ==> n.style != nil

pred cur(n *Node, k string) = ite(ah[n][k], av[n][k], "")
more (*style).getStyle
  ensures @C14 display: jsName == "display" ==> res == sty(cur(s.Node, "style"), "display")
  ensures @C14 visibility: jsName == "visibility" ==> res == sty(cur(s.Node, "style"), "visibility")
  cand @C14 nod: (i phiint) :: jsName == "display" ==> (forall j int {dat(cur(s.Node, "style"), j)} :: 0 <= j && j < i ==> !(dhas(dat(cur(s.Node, "style"), j)) && tr(dname(dat(cur(s.Node, "style"), j))) == "display"))
  cand @C14 nov: (i phiint) :: jsName == "visibility" ==> (forall j int {dat(cur(s.Node, "style"), j)} :: 0 <= j && j < i ==> !(dhas(dat(cur(s.Node, "style"), j)) && tr(dname(dat(cur(s.Node, "style"), j))) == "visibility"))
  cand @C14 nod1: (i phiint) :: jsName == "display" ==> (forall j int {dat(cur(s.Node, "style"), j)} :: 0 <= j && j <= i ==> !(dhas(dat(cur(s.Node, "style"), j)) && tr(dname(dat(cur(s.Node, "style"), j))) == "display"))
  cand @C14 nov1: (i phiint) :: jsName == "visibility" ==> (forall j int {dat(cur(s.Node, "style"), j)} :: 0 <= j && j <= i ==> !(dhas(dat(cur(s.Node, "style"), j)) && tr(dname(dat(cur(s.Node, "style"), j))) == "visibility"))
more isProbablyVisible
  ensures @C14 visible: n.NodeType == 1 ==> (res <==> sty(cur(n, "style"), "display") != "none" && sty(cur(n, "style"), "visibility") != "hidden" && !ah[n]["hidden"] && (cur(n, "aria-hidden") != "true" || contains(cur(n, "class"), "fallback-image")))
func (*Node).GetClassName(n)
  ensures @C14 val: res == cur(n, "class")
func isModalDialog(n)
  ensures @C14 modal: res <==> cur(n, "aria-modal") == "true" && cur(n, "role") == "dialog"
end
profile C14 C03 C02 C01
show C14 ofnode styled
