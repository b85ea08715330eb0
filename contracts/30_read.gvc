// Contracts of the Readability methods (the callers of the DOM layer).
hideall *
auto *Readability rok
pred rok(r *Readability) = r.options != nil && r.options.serializer != nil && r.doc != nil && r.doc.NodeType == 9 && !dead[r.doc]
auto *Node live
pred live(n *Node) = !dead[n]
stable F:Readability.options F:Readability.doc F:Options.serializer F:Options.disableJSONLD

// an option's list is not the package's own list, or has no room to grow in place
inv @C06 keepcls: forall o *Options {o.classesToPreserve} :: o != nil ==> len(o.classesToPreserve) == cap(o.classesToPreserve) || mine(o.classesToPreserve)
cand @C06 own: (s phi[]string) :: mine(s)
pred nodes(s []*Node) = forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i] != nil && s[i] < alloc && !dead[s[i]]
cand @C01 nodes: (s []*Node) :: nodes(s)
cand @C01 loc: (s []*Node) :: cap(s) == 0 || own[arr(s)] == 0 && eown[arr(s)] == 0
cand @C01 haspar: (n phi*Node) :: n == nil || n.ParentNode != nil
cand @C01 optfn: (o *Options) :: o.visibilityChecker != nil && o.serializer != nil
cand @C01 rcv: (r *Readability) :: r.options != nil && r.options.serializer != nil
cand @C01 nonnil: (s []*html.Node) :: forall i int {s[i]} :: 0 <= i && i < len(s) ==> s[i] != nil
cand @C01 livephi: (n phi*Node) :: n == nil || !dead[n]
cand @C02,C07,C05,C12 local: (s phi[]*Node) :: cap(s) == 0 || own[arr(s)] == 0 && eown[arr(s)] == 0 && arr(s) >= old(alloc)

func (*Node).getElementsByTagName(n, tag)
  ensures @C01 nodes: nodes(res)
  ensures @C02 fresh: cap(res) == 0 || own[arr(res)] == 0 && eown[arr(res)] == 0 && arr(res) >= old(alloc)
func (*Node).getElementsByTagName$1(from)
  requires @C01 nodes: nodes(elems)
  ensures @C01 nodes: nodes(elems)
  cand @C01 nodes: nodes(elems)
  noinv temp
  requires @C02 free: cap(elems) == 0 || own[arr(elems)] == 0 && eown[arr(elems)] == 0
  ensures @C02 free: cap(elems) == 0 || own[arr(elems)] == 0 && eown[arr(elems)] == 0 && (arr(elems) == old(arr(elems)) && old(cap(elems)) > 0 || arr(elems) >= old(alloc))
  ensures @C02 temp: forall a int {elemheap("*Node")[a]} {own[a]} {eown[a]} :: a < old(alloc) && (a != old(arr(elems)) || old(cap(elems)) == 0) ==> elemheap("*Node")[a] == old(elemheap("*Node")[a]) && own[a] == old(own[a]) && eown[a] == old(eown[a])
  cand @C02,C07,C05,C12 free: cap(elems) == 0 || own[arr(elems)] == 0 && eown[arr(elems)] == 0 && (arr(elems) == old(arr(elems)) && old(cap(elems)) > 0 || arr(elems) >= old(alloc))
  cand @C02,C07,C05,C12 temp: forall a int {elemheap("*Node")[a]} {own[a]} {eown[a]} :: a < old(alloc) && (a != old(arr(elems)) || old(cap(elems)) == 0) ==> elemheap("*Node")[a] == old(elemheap("*Node")[a]) && own[a] == old(own[a]) && eown[a] == old(eown[a])
func (*Node).GetElementById(n, id)
func (*Node).GetElementById$1(from)
func (*Node).GetTextContent(n)
func (*Node).GetTextContent$1(from, t)
  requires @C06 own: mine(t)
  ensures @C06 own: mine(res)
func (*Node).GetInnerHTML(n)
func (*Node).GetInnerHTML$1(from, a)
  requires @C06 own: mine(a)
  ensures @C06 own: mine(res)
func (*Node).getBaseURI(d)
func (*style).getStyle(s, jsName)
  requires s.Node != nil && !dead[s.Node]
func decodeHTML(s)
func newElement(tag)
  use *
  ensures new: res >= old(alloc) && res.NodeType == 1 && res.ParentNode == nil && !dead[res] && len(res.ChildNodes) == 0
func (*Node).createElementNode(d, tag)
  ensures new: res >= old(alloc) && res.NodeType == 1 && res.ParentNode == nil && !dead[res] && len(res.ChildNodes) == 0
func (*Node).createTextNode(d, text)
  use *
  ensures new: res >= old(alloc) && res.NodeType == 3 && res.ParentNode == nil && !dead[res]
func newDOMParser(opts)
  requires @C01 opts: forall i int {opts[i]} :: 0 <= i && i < len(opts) ==> opts[i] != nil
  ensures new: res != nil && res >= old(alloc)
func isProbablyVisible(n)
func isJavascriptURI(uri)
func (*Readability).checkByline(r, n, matchString)
func (*Readability).clean(r, e, tag)
func (*Readability).cleanClasses(r, n)
func (*Readability).cleanConditionally(r, e, tag)
func (*Readability).cleanHeaders(r, n)
func (*Readability).cleanStyles(r, e)
  nilable e
func (*Readability).concatNodeLists(r, nodeLists)
  requires @C01 nodes: forall i int {nodeLists[i]} :: 0 <= i && i < len(nodeLists) ==> arr(nodeLists[i]) < alloc && nodes(nodeLists[i])
  ensures @C01 nodes: nodes(res)
  ensures @C02 fresh: cap(res) == 0 || own[arr(res)] == 0 && eown[arr(res)] == 0 && arr(res) >= old(alloc)
  cand @C01 mine: (s phi[]*Node) :: cap(s) == 0 || arr(s) >= old(alloc)
  cand @C01 keep: forall a int {elemheap("*Node")[a]} :: a < old(alloc) ==> elemheap("*Node")[a] == old(elemheap("*Node")[a])
func (*Readability).fixLazyImages(r, root)
  leave @C01 safe/index: that base64Starts matches what b64DataUrl matched is a fact about two regular expressions
func (*Readability).fixRelativeUris(r, articleContent)
  leave @C01 pre (*Node).ReplaceChild/nonnil n: a link still has its parent because a list of elements names each once
func (*Readability).getAllNodesWithTag(r, n, tagNames)
  ensures @C01 nodes: nodes(res)
  ensures @C02 fresh: cap(res) == 0 || own[arr(res)] == 0 && eown[arr(res)] == 0 && arr(res) >= old(alloc)
func (*Readability).getArticleMetadata(r, jsonld)
  ensures @C01 new: res != nil
  nilable jsonld
func (*Readability).getArticleTitle(r)
  leave @C01 safe/index: the separator is known to occur in the title, so that splitting yields a part
  leave @C01 safe/slice: a title that contains ": " contains ":"
func (*Readability).getClassWeight(r, e)
func (*Readability).getInnerText(r, e, normalizeSpaces)
func (*Readability).getJSONLD(r, doc)
  leave @C01 safe/typeassert: the type is checked by reflection just before
func (*Readability).getLinkDensity(r, element)
func (*Readability).getNextNode(r, n, ignoreSelfAndKids)
  ensures @C01 live: res == nil || !dead[res]
func (*Readability).getNodeAncestors(r, n, maxDepth)
  ensures @C01 nodes: nodes(res)
  ensures @C02 fresh: cap(res) == 0 || own[arr(res)] == 0 && eown[arr(res)] == 0 && arr(res) >= old(alloc)
func (*Readability).getRowAndColumnCount(r, table)
func (*Readability).getTextDensity(r, e, tags)
func (*Readability).grabArticle(r, page)
  ensures @C01 live: res == nil || !dead[res]
  skip @C01 too large for the solvers within the time; its callees are proved
  nilable page
func (*Readability).hasChildBlockElement(r, element)
func (*Readability).hasSingleTagInsideElement(r, element, tag)
  ensures @C01 one: res ==> len(element.Children) == 1
func (*Readability).headerDuplicatesTitle(r, n)
func (*Readability).initializeNode(r, n)
func (*Readability).isElementWithoutContent(r, n)
func (*Readability).isPhrasingContent(r, n)
func (*Readability).isSingleImage(r, n)
func (*Readability).isWhitespace(r, n)
func (*Readability).markDataTables(r, root)
func (*Readability).nextNode(r, n)
  cand @C01 after: (m phi*Node) :: m == nil || n != nil && m.ParentNode == n.ParentNode && (n.ParentNode != nil ==> idx[m] >= idx[n])
  ensures @C01 nil: n == nil ==> res == nil
  ensures @C01 par: res != nil ==> res.ParentNode == n.ParentNode
  ensures @C01 after: res != nil && n.ParentNode != nil ==> idx[res] >= idx[n]
  nilable n
  ensures @C01 live: res == nil || !dead[res]
func (*Readability).postProcessContent(r, articleContent)
func (*Readability).prepArticle(r, articleContent)
  leave @C01 pre (*Readability).getNextNode/nonnil n: the children of the article are not edited while their descendants are cleaned
  leave @C01 pre (*Readability).getNextNode/live n: the children of the article are not edited while their descendants are cleaned
  leave @C01 pre (*Node).ReplaceChild/nonnil n: a table still has its parent because a list of elements names each once
func (*Readability).prepDocument(r)
func (*Readability).removeAndGetNext(r, n)
  ensures @C01 live: res == nil || !dead[res]
func (*Readability).removeScripts(r, doc)
func (*Readability).replaceBrs(r, n)
  cand @C01 ord: (m phi*Node, b any*Node) :: m == nil || b.ParentNode != nil && m.ParentNode == b.ParentNode && idx[m] > idx[b]
  cand @C01 ord2: (m phi*Node, b *Node) :: b.ParentNode != b && (m == nil || m.ParentNode == b.ParentNode && idx[m] > idx[b])
  cand @C01 par: (b *Node) :: b.ParentNode != nil && b.ParentNode != b
  cand @C01 rep: (f phibool, b any*Node) :: f ==> b.ParentNode != nil
func (*Readability).setNodeTag(r, n, tag)
  ensures @C01 new: res != nil && !dead[res]
func (*Readability).simplifyNestedElements(r, articleContent)
func (*Readability).textSimilarity(r, textA, textB)
func (*Readability).unescapeHtmlEntities(r, str)
func (*Readability).unwrapNoscriptImages(r, doc)
  leave @C01 pre (*Node).RemoveChild/nonnil n: an image still has its parent because a list of elements names each once
  leave @C01 safe/index: a single image holds an img element (recursive fact)
  leave @C01 pre (*Node).ReplaceChild/nonnil newNode: a single image has an element child (recursive fact)
func (*Readability).Parse(r)
  ensures @C01 res: res1 == nil ==> res0 != nil
func New(htmlSource, uri, opts)
  requires @C01 opts: forall i int {opts[i]} :: 0 <= i && i < len(opts) ==> opts[i] != nil
  ensures @C01 ok: res1 == nil ==> res0 != nil && rok(res0)
func isNodeVisible(node)
func IsProbablyReaderable(htmlSource, opts)
  cand @C01 mine: (s phi[]*html.Node) :: cap(s) == 0 || arr(s) >= pre(alloc)
  cand @C01 keep: forall a int {elemheap("*html.Node")[a]} :: a < pre(alloc) ==> elemheap("*html.Node")[a] == pre(elemheap("*html.Node")[a])
  requires @C01 opts: forall i int {opts[i]} :: 0 <= i && i < len(opts) ==> opts[i] != nil
func Serializer$1(o)
  leave @C01 post/stable F:Options.serializer: an option sets this field; option calls are modelled as setting every field of the Options object they are given
func DisableJSONLD$1(o)
  leave @C01 post/stable F:Options.disableJSONLD: an option sets this field; option calls are modelled as setting every field of the Options object they are given
