// Metadata precedence (C08).
// mt, mb, me, ms, mp: title, byline, excerpt, site name and published time of the metadata read last;
// marg: the JSON-LD metadata they were read with; jres: what getJSONLD returned; arttitle: the page title;
// lastp: the first p element of the list of p elements asked for last; ptext: its text, if pread, as first read after that.
ghost mt Str
ghost mb Str
ghost me Str
ghost ms Str
ghost mp Str
ghost marg Int
ghost jres Int
ghost arttitle Str
ghost lastp Int
ghost ptext Str
ghost pread Bool
pred or2(a string, b string) = ite(a != "", a, b)
pred unesc(s string) = ite(s == "", "", dec(s))

func anyOf(strings)
  ensures @C08 first: forall i int {strings[i]} :: 0 <= i && i < len(strings) && strings[i] != "" && (forall j int {strings[j]} :: 0 <= j && j < i ==> strings[j] == "") ==> res == strings[i]
  ensures @C08 none: (forall j int {strings[j]} :: 0 <= j && j < len(strings) ==> strings[j] == "") ==> res == ""
  cand @C08 before: (i phiint) :: forall j int {strings[j]} :: 0 <= j && j <= i && j < len(strings) ==> strings[j] == ""
  cand @C08 before0: (i phiint) :: forall j int {strings[j]} :: 0 <= j && j < i && j < len(strings) ==> strings[j] == ""
more decodeHTML
  ensures @C08 dec: res0 == dec(s)
  leave @C08 post/dec: dec is the name of the text decodeHTML computes; what it computes is checked by the bounded part
more (*Readability).unescapeHtmlEntities
  ensures @C08 dec: res == unesc(str)
more (*Readability).getArticleTitle
  update @C08 arttitle = res
  ensures @C08 last: arttitle == res
more (*Readability).getJSONLD
  update @C08 jres = res
  ensures @C08 last: jres == res
more (*Node).getElementsByTagName
  update @C08 lastp = ite(upper(tag) == "P", ite(len(res) > 0, res[0], nil), lastp)
  update @C08 pread = pread && upper(tag) != "P"
  ensures @C08 lastp: lastp == ite(upper(tag) == "P", ite(len(res) > 0, res[0], nil), old(lastp)) && (pread <==> old(pread) && upper(tag) != "P")
more (*Node).GetTextContent
  update @C08 ptext = ite(n == old(lastp) && !old(pread), res, ite(old(pread), old(ptext), ptext))
  update @C08 pread = old(pread) || n == old(lastp)
  ensures @C08 last: (old(pread) ==> pread && ptext == old(ptext)) && (n == old(lastp) && !old(pread) ==> pread && ptext == res)
pred mv(v map[string]string, k string) = ite(has(v, k), v[k], "")
pred jt(j *metadata) = ite(j == nil, "", j.title)
pred jb(j *metadata) = ite(j == nil, "", j.byline)
pred je(j *metadata) = ite(j == nil, "", j.excerpt)
pred js(j *metadata) = ite(j == nil, "", j.siteName)
pred jd(j *metadata) = ite(j == nil, "", j.datePublished)
more (*Readability).getArticleMetadata
  update @C08 mt = res.title
  update @C08 mb = res.byline
  update @C08 me = res.excerpt
  update @C08 ms = res.siteName
  update @C08 mp = res.publishedTime
  update @C08 marg = jsonld
  ensures @C08 last: mt == res.title && mb == res.byline && me == res.excerpt && ms == res.siteName && mp == res.publishedTime && marg == jsonld
  ensures @C08 order: exists v map[string]string {has(v, "dc:title")} :: 
      res.title == unesc(or2(old(jt(jsonld)), or2(mv(v, "dc:title"), or2(mv(v, "dcterm:title"), or2(mv(v, "og:title"), or2(mv(v, "weibo:article:title"), or2(mv(v, "weibo:webpage:title"), or2(mv(v, "title"), or2(mv(v, "twitter:title"), arttitle)))))))))
      && res.byline == unesc(or2(old(jb(jsonld)), or2(mv(v, "dc:creator"), or2(mv(v, "dcterm:creator"), mv(v, "author")))))
      && res.excerpt == unesc(or2(old(je(jsonld)), or2(mv(v, "dc:description"), or2(mv(v, "dcterm:description"), or2(mv(v, "og:description"), or2(mv(v, "weibo:article:description"), or2(mv(v, "weibo:webpage:description"), or2(mv(v, "description"), mv(v, "twitter:description")))))))))
      && res.siteName == unesc(or2(old(js(jsonld)), mv(v, "og:site_name")))
      && res.publishedTime == unesc(or2(old(jd(jsonld)), mv(v, "article:published_time")))
more (*Readability).Parse
  ensures @C08 jsonoff: res0 != nil && old(r.options.disableJSONLD) ==> marg == nil
  ensures @C08 jsonld: res0 != nil && !old(r.options.disableJSONLD) ==> marg == jres
  ensures @C08 fields: res0 != nil ==> res0.Title == mt && res0.PublishedTime == mp && res0.Byline == or2(mb, r.articleByline) && res0.SiteName == or2(ms, r.articleSiteName) && res0.Lang == r.articleLang && res0.Dir == r.articleDir
  ensures @C08 excerpt: res0 != nil ==> res0.Excerpt == ite(me != "", me, ite(lastp != nil, trim(ptext), ""))
end
profile C08 C01 C02
show C08 none
