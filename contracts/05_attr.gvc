// Attribute lists as maps: ah[n][k] "n has attribute k", av[n][k] its value, ai[n][k] its position.
// aown: node that owns an attribute array; aobj: node that owns an attribute object.
ghost ah (Array Int (Array Str Bool))
ghost av (Array Int (Array Str Str))
ghost ai (Array Int (Array Str Int))
ghost aown (Array Int Int)
ghost aobj (Array Int Int)

inv @C03 attr: forall n *Node, i int {n.Attributes[i]} :: n != nil && 0 <= i && i < len(n.Attributes) ==>
      n.Attributes[i] != nil && aobj[n.Attributes[i]] == n && ah[n][n.Attributes[i].name] && av[n][n.Attributes[i].name] == n.Attributes[i].value && ai[n][n.Attributes[i].name] == i
inv @C03 attrpos: forall n *Node, k string {ah[n][k]} :: n != nil && ah[n][k] ==> 0 <= ai[n][k] && ai[n][k] < len(n.Attributes) && n.Attributes[ai[n][k]].name == k
inv @C03 aowner: forall n *Node {n.Attributes} :: n != nil && cap(n.Attributes) > 0 ==> aown[arr(n.Attributes)] == n

trans @C03 atemp: forall a int {elemheap("*attribute")[a]} {aown[a]} :: a < old(alloc) && old(aown[a]) == 0 ==> elemheap("*attribute")[a] == old(elemheap("*attribute")[a]) && aown[a] == 0
owned *attribute aown
stable F:attribute.name

func (*Node).SetAttribute(n, name, value)
  split ah[n][name]
  ensures @C03 has: ah[n] == store(old(ah[n]), name, true)
  ensures @C03 val: av[n] == store(old(av[n]), name, value)
  ensures @C03 others: forall m *Node {ah[m]} {av[m]} {m.Attributes} :: m != n && m < old(alloc) ==> ah[m] == old(ah[m]) && av[m] == old(av[m]) && m.Attributes == old(m.Attributes)
  ensures @C03 len: len(n.Attributes) == old(len(n.Attributes)) + ite(old(ah[n][name]), 0, 1)
  ensures @C03 same: forall i int {n.Attributes[i]} :: 0 <= i && i < old(len(n.Attributes)) ==> n.Attributes[i] == old(n.Attributes[i])
  update ah[x *Node] = ite(x == n, store(ah[n], name, true), ah[x])
  update av[x *Node] = ite(x == n, store(av[n], name, value), av[x])
  update ai[x *Node] = ite(x == n, ite(old(ah[n][name]), ai[n], store(ai[n], name, len(n.Attributes)-1)), ai[x])
  update aown[a int] = ite(a == arr(n.Attributes), n, aown[a])
  update aobj[x *attribute] = ite(x >= old(alloc), n, aobj[x])
  cand none: (i phiint) :: !old(ah[n][name]) || old(ai[n][name]) > i

func (*Node).GetAttribute(n, name)
  ensures @C03 val: res == ite(ah[n][name], av[n][name], "")
  cand none: (i phiint) :: !old(ah[n][name]) || old(ai[n][name]) <= i

func (*Node).HasAttribute(n, name)
  ensures @C03 has: res <==> ah[n][name]

func (*Node).GetAttributeLen(n)
  ensures @C03 len: res == len(n.Attributes)

func (*Node).GetAttributeByIndex(n, i)
  requires 0 <= i && i < len(n.Attributes)
  ensures @C03 at: res == n.Attributes[i] && res != nil && aobj[res] == n

func (*Node).RemoveAttribute(n, name)
  ensures @C03 has: ah[n] == store(old(ah[n]), name, false)
  ensures @C03 val: av[n] == old(av[n])
  ensures @C03 others: forall m *Node {ah[m]} {av[m]} {m.Attributes} :: m != n && m < old(alloc) ==> ah[m] == old(ah[m]) && av[m] == old(av[m]) && m.Attributes == old(m.Attributes)
  ensures @C03 len: len(n.Attributes) == old(len(n.Attributes)) - ite(old(ah[n][name]), 1, 0)
  update ah[x *Node] = ite(x == n, store(ah[n], name, false), ah[x])
  update ai[x *Node] = ite(x == n && old(ah[n][name]), shiftdown(ai[n], old(ai[n][name])), ai[x])
  cand none: (i phiint) :: !old(ah[n][name]) || old(ai[n][name]) > i

end
fun shiftdown (Array Str Int) (Array Str Int) Int
smt (assert (forall ((m (Array Str Int)) (p Int) (k Str)) (! (= (select (shiftdown m p) k) (ite (> (select m k) p) (- (select m k) 1) (select m k))) :pattern ((select (shiftdown m p) k)))))


fun noattrs (Array Str Bool)
smt (assert (= noattrs ((as const (Array Str Bool)) false)))

profile C01 C02 C03
show C01 deadroot plive child echild parent eparent next prev enext eprev attr orphan eorphan deaddoc body docel style
show C06 keepcls
