// The fields of a result and the callbacks (C09).
// serres/serarg: what the function value returned for the node it was called with last;
// h2tres/h2targ: the same for a function from text to text; lasttext: the text read last from a node.
// serlists, serelems: the child lists when the serializer was called.
ghost serres (Array Int Str)
ghost serarg (Array Int Int)
ghost h2tres (Array Int Str)
ghost h2targ (Array Int Str)
ghost lasttext (Array Int Str)
ghost serlists (Array Int Slice)
ghost serelems (Array Int (Array Int Int))

extern dyn:func(*Node) string(f, n)
  update @C09 serres = store(serres, f, res)
  update @C09 serarg = store(serarg, f, n)
  update @C09 serlists = heap(Node.ChildNodes)
  update @C09 serelems = elemheap("*Node")

extern dyn:func(string) string(f, s)
  update @C09 h2tres = store(h2tres, f, res)
  update @C09 h2targ = store(h2targ, f, s)

more (*Node).GetTextContent
  update @C09 lasttext = store(lasttext, n, res)
  ensures @C09 last: lasttext[n] == res

more (*Readability).Parse
  ensures @C09 xor: (res0 == nil) <==> (res1 != nil)
  ensures @C09 html: res0 != nil ==> res0.HTMLContent == serres[r.options.serializer]
  ensures @C09 text: res0 != nil && r.options.html2text == nil ==> res0.TextContent == lasttext[serarg[r.options.serializer]]
  ensures @C09 conv: res0 != nil && r.options.html2text != nil ==> res0.TextContent == h2tres[r.options.html2text] && h2targ[r.options.html2text] == res0.HTMLContent
  ensures @C09 length: res0 != nil ==> res0.Length == runes(res0.TextContent)
  ensures @C09 tree: res0 != nil ==> serlists == heap(Node.ChildNodes) && serelems == elemheap("*Node")
end
