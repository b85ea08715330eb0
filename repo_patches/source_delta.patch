From 5fba75f0f498630289843d53bfa24879a96945df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:04 +0000
Subject: [PATCH 01/25] fix: ReplaceChild corrupts the child list when the new
 node is already a child of the same parent

---
 domparser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domparser.go b/domparser.go
index b1e5d88..6eaa0e6 100644
--- a/domparser.go
+++ b/domparser.go
@@ -486,12 +486,17 @@ func (n *Node) ReplaceChild(newNode, oldNode *Node) *Node {
 	childIndex := indexOf(oldNode, childNodes)
 	if childIndex == -1 {
 		panic("removeChild: node not found")
+	} else if newNode == oldNode {
+		return oldNode
 	} else {
 		// This will take care of updating the new node if it was somewhere else before:
 		if newNode.ParentNode != nil {
 			if _, err := newNode.ParentNode.RemoveChild(newNode); err != nil {
 				slog.Error("cannot remove child", slog.String("err", err.Error()))
 			}
+			// the new node may have been one of our own children
+			childNodes = n.ChildNodes
+			childIndex = indexOf(oldNode, childNodes)
 		}
 		childNodes[childIndex] = newNode
 
-- 
2.43.0


From d3683f09fd0208fe0408e13ea89148189071dfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:10 +0000
Subject: [PATCH 02/25] fix: children dropped by SetInnerHTML and
 SetTextContent keep stale sibling links

---
 domparser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/domparser.go b/domparser.go
index 6eaa0e6..50929a6 100644
--- a/domparser.go
+++ b/domparser.go
@@ -445,6 +445,13 @@ func (n *Node) AppendChild(child *Node) {
 	child.ParentNode = n
 }
 
+// detach clears the links of a node which is no longer in its parent's child list.
+func (n *Node) detach() {
+	n.ParentNode = nil
+	n.PreviousSibling, n.NextSibling = nil, nil
+	n.PreviousElementSibling, n.NextElementSibling = nil, nil
+}
+
 func (n *Node) RemoveChild(child *Node) (*Node, error) {
 	childNodes := n.ChildNodes
 	childIndex := indexOf(child, childNodes)
@@ -948,7 +955,7 @@ func (n *Node) SetInnerHTML(html string) {
 		var parser = newDOMParser()
 		var node = parser.parse(html, "")
 		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
-			n.ChildNodes[i].ParentNode = nil
+			n.ChildNodes[i].detach()
 		}
 		n.ChildNodes = node.ChildNodes
 		n.Children = node.Children
@@ -968,7 +975,7 @@ func (n *Node) SetTextContent(text string) {
 	} else if n.NodeType == elementNode {
 		// clear parentNodes for existing children
 		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
-			n.ChildNodes[i].ParentNode = nil
+			n.ChildNodes[i].detach()
 		}
 
 		var t = newText()
-- 
2.43.0


From 4e2a7acf9b94118ddede8c12fb6b4461d19d4877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:28 +0000
Subject: [PATCH 03/25] fix: reading an empty text node never returns

---
 domparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domparser.go b/domparser.go
index 50929a6..789c932 100644
--- a/domparser.go
+++ b/domparser.go
@@ -640,7 +640,7 @@ func newText() *Node {
 
 func (t *Node) getTextContentFromTextNode() string {
 	if t.textContent == "" {
-		decoded, err := decodeHTML(t.GetInnerHTML())
+		decoded, err := decodeHTML(t.innerHTML)
 		if err != nil {
 			slog.Error("cannot decode inner html", "err", err)
 			return ""
@@ -652,7 +652,7 @@ func (t *Node) getTextContentFromTextNode() string {
 
 func (t *Node) getInnerHTMLFromTextNode() string {
 	if t.innerHTML == "" {
-		t.innerHTML = encodeTextContentHTML(t.GetTextContent())
+		t.innerHTML = encodeTextContentHTML(t.textContent)
 	}
 	return t.innerHTML
 }
-- 
2.43.0


From d1e1a0d9d64a204cf7bd371fa5c68dfb60208682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:30 +0000
Subject: [PATCH 04/25] fix: a style declaration without a value makes parsing
 panic

---
 domparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 789c932..983a293 100644
--- a/domparser.go
+++ b/domparser.go
@@ -819,7 +819,7 @@ func (s *style) getStyle(jsName string) string {
 	for i := 0; i < len(styles); i++ {
 		var style = strings.Split(styles[i], ":")
 		var name = strings.TrimSpace(style[0])
-		if name == cssName {
+		if name == cssName && len(style) > 1 {
 			return strings.TrimSpace(style[1])
 		}
 	}
-- 
2.43.0


From e042134c4b07ebca0f8460f5afd165d7f6231649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:30 +0000
Subject: [PATCH 05/25] fix: a blank link, source or srcset candidate makes
 parsing panic

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 1045860..5b4e434 100644
--- a/readability.go
+++ b/readability.go
@@ -269,7 +269,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 	var toAbsoluteURI = func(uri string) string {
 		uri = strings.TrimSpace(uri)
 		// Leave hash links alone if the base URI matches the document URI:
-		if baseURI == documentURI && []rune(uri)[0] == '#' {
+		if baseURI == documentURI && strings.HasPrefix(uri, "#") {
 			return uri
 		}
 		base, err := url.Parse(baseURI)
-- 
2.43.0


From 04a207c002de14c731bbd26a5543cb449323c7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:31 +0000
Subject: [PATCH 06/25] fix: JSON-LD values of an unexpected type make parsing
 panic

---
 readability.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/readability.go b/readability.go
index 5b4e434..b02631f 100644
--- a/readability.go
+++ b/readability.go
@@ -1328,8 +1328,8 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 				continue
 			}
 
-			ctx, ctxFound := parsed["@context"]
-			if !ctxFound || !schemaUrl.MatchString(ctx.(string)) {
+			ctx, ctxFound := parsed["@context"].(string)
+			if !ctxFound || !schemaUrl.MatchString(ctx) {
 				continue
 			}
 
@@ -1354,7 +1354,8 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 				}
 			}
 
-			if parsed == nil || parsed["@type"] == nil || !jsonLdArticleTypes.MatchString(parsed["@type"].(string)) {
+			articleType, isStr := parsed["@type"].(string)
+			if !isStr || !jsonLdArticleTypes.MatchString(articleType) {
 				continue
 			}
 
@@ -1402,8 +1403,11 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 								if _, isStr := authorName.(string); isStr {
 									var authorNames []string
 									for _, a := range authors {
-										n := a.(map[string]interface{})["name"].(string)
-										authorNames = append(authorNames, strings.TrimSpace(n))
+										if obj, isObj := a.(map[string]interface{}); isObj {
+											if n, isStr := obj["name"].(string); isStr {
+												authorNames = append(authorNames, strings.TrimSpace(n))
+											}
+										}
 									}
 									meta.byline = strings.Join(authorNames, ", ")
 								}
-- 
2.43.0


From e92e10af6f0b37809e58bd0fd90ea0991f2b67a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:32 +0000
Subject: [PATCH 07/25] fix: an upper-case BASE64 data URI makes parsing panic

---
 regexps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexps.go b/regexps.go
index 34c0b95..1a2112e 100644
--- a/regexps.go
+++ b/regexps.go
@@ -48,7 +48,7 @@ var (
 	// name is a single value
 	namePattern                   = regexp.MustCompile(`(?i)^\s*(?:(dc|dcterm|og|twitter|weibo:(article|webpage))\s*[\.:]\s*)?(author|creator|description|title|site_name)\s*$`)
 	imgExtensions                 = regexp.MustCompile(`\.(jpg|jpeg|png|webp)`)
-	base64Starts                  = regexp.MustCompile(`base64\s*`)
+	base64Starts                  = regexp.MustCompile(`(?i)base64\s*`)
 	imgExtensionsWithSpacesAndNum = regexp.MustCompile(`\.(jpg|jpeg|png|webp)\s+\d`)
 	imgExtensionsAmongText        = regexp.MustCompile(`^\s*\S+\.(jpg|jpeg|png|webp)\S*\s*$`)
 )
-- 
2.43.0


From 131dc6a2f3321fa2dafecc240687a756fb184b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:33 +0000
Subject: [PATCH 08/25] fix: AllowedVideoRegex(nil) makes parsing a document
 with an embed panic

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index b02631f..082be26 100644
--- a/readability.go
+++ b/readability.go
@@ -1776,7 +1776,7 @@ func (r *Readability) clean(e *Node, tag string) {
 
 	r.removeNodes(r.getAllNodesWithTag(e, tag), func(element *Node) bool {
 		// Allow youtube and vimeo videos through as people usually want to see those.
-		if isEmbed {
+		if isEmbed && r.options.allowedVideoRegex != nil {
 			// First, check the elements attributes to see if any of them contain youtube or vimeo
 			for i := 0; i < len(element.Attributes); i++ {
 				if r.options.allowedVideoRegex.MatchString(element.Attributes[i].getValue()) {
-- 
2.43.0


From 12756cc7a68655e1bf699a38ad33fbd1e57e492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:13 +0000
Subject: [PATCH 09/25] fix: a hidden root element makes the second extraction
 round panic

---
 readability.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index 082be26..08e39dc 100644
--- a/readability.go
+++ b/readability.go
@@ -720,8 +720,10 @@ func (r *Readability) initializeNode(n *Node) {
 
 func (r *Readability) removeAndGetNext(n *Node) *Node {
 	var nextNode = r.getNextNode(n, true)
-	if _, err := n.ParentNode.RemoveChild(n); err != nil {
-		slog.Error("cannot remove child", slog.String("err", err.Error()))
+	if n.ParentNode != nil {
+		if _, err := n.ParentNode.RemoveChild(n); err != nil {
+			slog.Error("cannot remove child", slog.String("err", err.Error()))
+		}
 	}
 	return nextNode
 }
-- 
2.43.0


From 4ef1f399cfad5dbc0627f65c8dece5c030613df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:14 +0000
Subject: [PATCH 10/25] fix: article content outside the body makes parsing
 panic

---
 readability.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index 08e39dc..cfe480a 100644
--- a/readability.go
+++ b/readability.go
@@ -1074,7 +1074,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			var MINIMUM_TOPCANDIDATES = 3
 			if len(alternativeCandidateAncestors) >= MINIMUM_TOPCANDIDATES {
 				parentOfTopCandidate = topCandidate.ParentNode
-				for parentOfTopCandidate.TagName != "BODY" {
+				for parentOfTopCandidate.ParentNode != nil && parentOfTopCandidate.TagName != "BODY" {
 					var listsContainingThisAncestor = 0
 					for ancestorIndex := 0; ancestorIndex < len(alternativeCandidateAncestors) && listsContainingThisAncestor < MINIMUM_TOPCANDIDATES; ancestorIndex++ {
 						includes := slices.ContainsFunc(alternativeCandidateAncestors[ancestorIndex], func(n *Node) bool {
@@ -1106,7 +1106,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			var lastScore = topCandidate.ReadabilityNode.ContentScore
 			// The scores shouldn't get too low.
 			var scoreThreshold = lastScore / 3
-			for parentOfTopCandidate.TagName != "BODY" {
+			for parentOfTopCandidate.ParentNode != nil && parentOfTopCandidate.TagName != "BODY" {
 				if parentOfTopCandidate.ReadabilityNode == nil {
 					parentOfTopCandidate = parentOfTopCandidate.ParentNode
 					continue
@@ -1128,7 +1128,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			// If the top candidate is the only child, use parent instead. This will help sibling
 			// joining logic when adjacent content is actually located in parent's sibling node.
 			parentOfTopCandidate = topCandidate.ParentNode
-			for parentOfTopCandidate.TagName != "BODY" && len(parentOfTopCandidate.Children) == 1 {
+			for parentOfTopCandidate.ParentNode != nil && parentOfTopCandidate.TagName != "BODY" && len(parentOfTopCandidate.Children) == 1 {
 				topCandidate = parentOfTopCandidate
 				parentOfTopCandidate = topCandidate.ParentNode
 			}
-- 
2.43.0


From b88c134255d3f3687e520a13c0f05142395ee8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:57 +0000
Subject: [PATCH 11/25] fix: text with a '<' can turn into markup in the
 extracted HTML

---
 domparser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 983a293..e5d7a82 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1086,7 +1086,8 @@ loop:
 				txt := string(data)
 
 				if c != '<' {
-					textNode.SetInnerHTML(txt)
+					// a '<' in the text is not the start of a tag
+					textNode.SetInnerHTML(strings.ReplaceAll(txt, "<", "&lt;"))
 					n.AppendChild(textNode)
 				} else if strings.HasPrefix(txt, "<![CDATA[") {
 					s := strings.Index(txt, "<![CDATA[")
-- 
2.43.0


From 1f8b55e45cc0d9c136bad076bd8b143375afa7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:57 +0000
Subject: [PATCH 12/25] fix: a hidden paragraph that is the only child of a div
 is kept

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index cfe480a..7ab7de5 100644
--- a/readability.go
+++ b/readability.go
@@ -935,7 +935,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 				// element. DIVs with only a P element inside and no text content can be
 				// safely converted into plain P elements to avoid confusing the scoring
 				// algorithm with DIVs with are, in practice, paragraphs.
-				if r.hasSingleTagInsideElement(n, "P") && r.getLinkDensity(n) < 0.25 {
+				if r.hasSingleTagInsideElement(n, "P") && isProbablyVisible(n.Children[0]) && r.getLinkDensity(n) < 0.25 {
 					var newNode = n.Children[0]
 					n.ParentNode.ReplaceChild(newNode, n)
 					n = newNode
-- 
2.43.0


From 97b491c404d30244252cb5a0f785a9304991c8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:57 +0000
Subject: [PATCH 13/25] fix: a document without a root element is returned
 unfiltered

---
 readability.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/readability.go b/readability.go
index 7ab7de5..60ad88f 100644
--- a/readability.go
+++ b/readability.go
@@ -834,6 +834,10 @@ func (r *Readability) grabArticle(page *Node) *Node {
 		// used inappropriately (as in, where they contain no other block level elements.)
 		var elementsToScore []*Node
 		var n = r.doc.DocumentElement
+		if n == nil {
+			// no root element: the page is all there is
+			n = page
+		}
 
 		var shouldRemoveTitleHeader bool = true
 
-- 
2.43.0


From 5d480222525c8e1bdb36bdb21f95a0800d3b75e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:57 +0000
Subject: [PATCH 14/25] fix: javascript: links with other letter case or
 leading blanks are kept

---
 readability.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 60ad88f..db5cbd6 100644
--- a/readability.go
+++ b/readability.go
@@ -346,7 +346,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		if href != "" {
 			// Remove links with javascript: URIs, since
 			// they won't work after scripts have been removed from the page.
-			if strings.HasPrefix(href, "javascript:") {
+			if isJavascriptURI(href) {
 				// if the link only contains simple text content, it can be converted to a text node
 				if len(link.ChildNodes) == 1 && link.ChildNodes[0].NodeType == textNode {
 					var text = r.doc.createTextNode(link.GetTextContent())
@@ -402,6 +402,14 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 	}
 }
 
+// Tells whether a link runs a script, ignoring what user agents ignore:
+// letter case, leading control characters and spaces, tabs and newlines.
+func isJavascriptURI(uri string) bool {
+	uri = strings.NewReplacer("\t", "", "\n", "", "\r", "").Replace(uri)
+	uri = strings.TrimLeftFunc(uri, func(c rune) bool { return c <= ' ' })
+	return strings.HasPrefix(strings.ToLower(uri), "javascript:")
+}
+
 func (r *Readability) simplifyNestedElements(articleContent *Node) {
 	var node = articleContent
 	for node != nil {
-- 
2.43.0


From c967a86d10bc93246b5c8daf00d90737b123dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:28 +0000
Subject: [PATCH 15/25] fix: the readerable check counts nodes hidden by style
 or by a bare hidden attribute

---
 readerable.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/readerable.go b/readerable.go
index 0b80443..699f3e0 100644
--- a/readerable.go
+++ b/readerable.go
@@ -32,10 +32,19 @@ import (
 
 func isNodeVisible(node *html.Node) bool {
 	// Have to null-check node.style and node.className.indexOf to deal with SVG and MathML nodes.
-	style := attr(node, "style")
-	return (style == "" || !slices.Contains(strings.Split(";", style), "display=none")) &&
-		(style == "" || !slices.Contains(strings.Split(";", style), "visibility=hidden")) &&
-		attr(node, "hidden") == "" &&
+	var display, visibility string
+	for _, declaration := range strings.Split(attr(node, "style"), ";") {
+		name, value, _ := strings.Cut(declaration, ":")
+		switch strings.TrimSpace(name) {
+		case "display":
+			display = strings.TrimSpace(value)
+		case "visibility":
+			visibility = strings.TrimSpace(value)
+		}
+	}
+	return display != "none" &&
+		visibility != "hidden" &&
+		!slices.ContainsFunc(node.Attr, func(a html.Attribute) bool { return a.Key == "hidden" }) &&
 		(attr(node, "aria-hidden") == "" || attr(node, "aria-hidden") != "true" || (attr(node, "class") != "" && strings.Contains(attr(node, "class"), "fallback-image")))
 }
 
-- 
2.43.0


From eb3b22dcb2cc26b091945e07f1d0be2ce8e5184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:28 +0000
Subject: [PATCH 16/25] fix: the readerable check counts paragraphs inside list
 items

---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 4e0cbe5..e45e1fa 100644
--- a/util.go
+++ b/util.go
@@ -48,7 +48,7 @@ func matches(n *html.Node, query string) bool {
 	if err != nil {
 		return false
 	}
-	return cascadia.Query(n, sel) != nil
+	return sel.Match(n)
 }
 
 func attr(n *html.Node, attrName string) string {
-- 
2.43.0


From 77c33c4a322e26272cf3506c1fbae7082d1e58b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:28 +0000
Subject: [PATCH 17/25] fix: the readerable check counts a div once per line
 break in it

---
 readerable.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/readerable.go b/readerable.go
index 699f3e0..69d6772 100644
--- a/readerable.go
+++ b/readerable.go
@@ -77,7 +77,9 @@ func IsProbablyReaderable(htmlSource string, opts ...Option) bool {
 	if len(brNodes) != 0 {
 		var set []*html.Node
 		for _, n := range brNodes {
-			set = append(set, n.Parent)
+			if !slices.Contains(set, n.Parent) {
+				set = append(set, n.Parent)
+			}
 		}
 		nodes = append(nodes, set...)
 	}
-- 
2.43.0


From af9e4783d963ea50bb339bdc24fffcf11ae9073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:15 +0000
Subject: [PATCH 18/25] fix: an escaped character reference in text is decoded
 twice

---
 domparser.go | 39 ++++++++++++++++++---------------------
 regexps.go   |  3 +--
 2 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/domparser.go b/domparser.go
index e5d7a82..4445357 100644
--- a/domparser.go
+++ b/domparser.go
@@ -73,28 +73,25 @@ func encodeHTML(text string) string {
 
 func decodeHTML(s string) (string, error) {
 
-	s = entityReferencesRgx.ReplaceAllStringFunc(s, func(s string) string {
-		return string([]rune(entityReplacer.Replace(s))[1])
-	})
-
-	submatches := htmlCharCodesRgx.FindAllStringSubmatch(s, -1)
-	for _, submatch := range submatches {
-		if len(submatch) == 3 {
-			hex, dec := submatch[1], submatch[2]
-			if hex != "" {
-				codePoint, err := strconv.ParseInt(hex, 16, 64)
-				if err != nil {
-					return "", err
-				}
-				s = strings.ReplaceAll(s, submatch[0], string(rune(codePoint)))
-			} else if dec != "" {
-				codePoint, err := strconv.ParseInt(dec, 10, 64)
-				if err != nil {
-					return "", err
-				}
-				s = strings.ReplaceAll(s, submatch[0], string(rune(codePoint)))
-			}
+	var err error
+	s = entityOrCharCodeRgx.ReplaceAllStringFunc(s, func(s string) string {
+		name := strings.Trim(s, "&;")
+		code, isCode := strings.CutPrefix(name, "#")
+		if !isCode {
+			return entityReplacer.Replace(name)
+		}
+		base := 10
+		if hex, isHex := strings.CutPrefix(strings.ToLower(code), "x"); isHex {
+			code, base = hex, 16
 		}
+		codePoint, parseErr := strconv.ParseInt(code, base, 64)
+		if parseErr != nil {
+			err = parseErr
+		}
+		return string(rune(codePoint))
+	})
+	if err != nil {
+		return "", err
 	}
 	return s, nil
 }
diff --git a/regexps.go b/regexps.go
index 1a2112e..cf6b13b 100644
--- a/regexps.go
+++ b/regexps.go
@@ -36,8 +36,7 @@ var (
 	singleWhitespace     = regexp.MustCompile(`\s`)
 	singleDot            = regexp.MustCompile(`\.`)
 	// https://www.dcs.bbk.ac.uk/~ptw/teaching/DBM/XML/slide17.html
-	entityReferencesRgx  = regexp.MustCompile(`&(quot|amp|apos|lt|gt);`)
-	htmlCharCodesRgx     = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,4})|([0-9]{1,5}));`)
+	entityOrCharCodeRgx  = regexp.MustCompile(`(?i:&#(?:x[0-9a-f]{1,4}|[0-9]{1,5});)|&(quot|amp|apos|lt|gt);`)
 	doubleForwardSlashes = regexp.MustCompile(`//[^/]+`)
 	separators           = regexp.MustCompile(`[\|\-\\\/>»]+`)
 	dotSpaceOrDollar     = regexp.MustCompile(`\.( |$)`)
-- 
2.43.0


From 67f4b30d8442f5ff71a84f5a2d6098d1f41348ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:09 +0000
Subject: [PATCH 19/25] fix: a modal dialog that is the only child of a div is
 kept

---
 readability.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index db5cbd6..c4d6a4d 100644
--- a/readability.go
+++ b/readability.go
@@ -866,7 +866,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			}
 
 			// User is not able to see elements applied with both "aria-modal = true" and "role = dialog"
-			if n.GetAttribute("aria-modal") == "true" && n.GetAttribute("role") == "dialog" {
+			if isModalDialog(n) {
 				n = r.removeAndGetNext(n)
 				continue
 			}
@@ -947,7 +947,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 				// element. DIVs with only a P element inside and no text content can be
 				// safely converted into plain P elements to avoid confusing the scoring
 				// algorithm with DIVs with are, in practice, paragraphs.
-				if r.hasSingleTagInsideElement(n, "P") && isProbablyVisible(n.Children[0]) && r.getLinkDensity(n) < 0.25 {
+				if r.hasSingleTagInsideElement(n, "P") && isProbablyVisible(n.Children[0]) && !isModalDialog(n.Children[0]) && r.getLinkDensity(n) < 0.25 {
 					var newNode = n.Children[0]
 					n.ParentNode.ReplaceChild(newNode, n)
 					n = newNode
@@ -2174,6 +2174,10 @@ func (r *Readability) removeFlag(flag int) {
 	r.flags = r.flags & ^flag
 }
 
+func isModalDialog(n *Node) bool {
+	return n.GetAttribute("aria-modal") == "true" && n.GetAttribute("role") == "dialog"
+}
+
 func isProbablyVisible(n *Node) bool {
 	// Have to null-check node.style and node.className.indexOf to deal with SVG and MathML nodes.
 	return (n.style == nil || n.style.getStyle("display") != "none") &&
-- 
2.43.0


From 9c5716aae954368ae95e3c9a44dd18c144ffbb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:56 +0000
Subject: [PATCH 20/25] fix: an html element that does not hold the body
 bypasses filtering and drops content

---
 domparser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/domparser.go b/domparser.go
index 4445357..f3546cd 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1147,6 +1147,15 @@ func (p *domParser) parse(htmlSrc, url string) *Node {
 	p.z.AllowCDATA(true)
 	p.readNode(p.doc)
 
+	// An <html> node that does not hold the body is not the root of the document
+	if p.doc.DocumentElement != nil {
+		var n = p.doc.Body
+		for n != nil && n != p.doc.DocumentElement {
+			n = n.ParentNode
+		}
+		p.doc.DocumentElement = n
+	}
+
 	// If this is an HTML document, remove root-level children except for the
 	// <html> node
 	if p.doc.DocumentElement != nil {
-- 
2.43.0


From 6d0bb0785574520b6b4531effb0e0d577f0bf8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:50 +0000
Subject: [PATCH 21/25] fix: the page is filled again inside an earlier attempt
 that holds it

---
 readability.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index c4d6a4d..7983a7f 100644
--- a/readability.go
+++ b/readability.go
@@ -842,7 +842,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 		// used inappropriately (as in, where they contain no other block level elements.)
 		var elementsToScore []*Node
 		var n = r.doc.DocumentElement
-		if n == nil {
+		if n == nil || !contains(n, page) {
 			// no root element: the page is all there is
 			n = page
 		}
@@ -1249,6 +1249,17 @@ func (r *Readability) grabArticle(page *Node) *Node {
 		var textLength = len(r.getInnerText(articleContent, true))
 		if textLength < r.options.charThreshold {
 			parseSuccessful = false
+			if contains(articleContent, page) {
+				// The page has become a part of this attempt: keep a copy of the attempt
+				// and take the page back.
+				var attemptHtml = articleContent.GetInnerHTML()
+				articleContent = doc.createElementNode("DIV")
+				articleContent.SetInnerHTML(attemptHtml)
+				if _, err := page.ParentNode.RemoveChild(page); err != nil {
+					slog.Error("cannot remove child", slog.String("err", err.Error()))
+				}
+				r.setNodeTag(page, "BODY")
+			}
 			page.SetInnerHTML(pageCacheHtml)
 
 			if r.flagIsActive(flagStripUnlikelys) {
@@ -1807,6 +1818,14 @@ func (r *Readability) clean(e *Node, tag string) {
 	})
 }
 
+// Check if a given node is the root of the tree that other is in, or one of its ancestors.
+func contains(n, other *Node) bool {
+	for other != nil && other != n {
+		other = other.ParentNode
+	}
+	return other != nil
+}
+
 // Check if a given node has one of its ancestor tag name matching the
 // provided one.
 func (r *Readability) hasAncestorTag(n *Node, tagName string, maxDepth int, filterFn func(*Node) bool) bool {
-- 
2.43.0


From 5eecae9e77c27e3ce198eb0d4dca8dec68b5b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:31 +0000
Subject: [PATCH 22/25] fix: text that ends in a blank is content too when
 nested elements are simplified

---
 regexps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexps.go b/regexps.go
index cf6b13b..8e638ce 100644
--- a/regexps.go
+++ b/regexps.go
@@ -19,7 +19,7 @@ var (
 	//prevLink             = regexp.MustCompile(`(prev|earl|old|new|<|«)`)
 	tokenize   = regexp.MustCompile(`\W+`)
 	whitespace = regexp.MustCompile(`^\s*$`)
-	hasContent = regexp.MustCompile(`\S$`)
+	hasContent = regexp.MustCompile(`\S`)
 	hashUrl    = regexp.MustCompile(`^#.+`)
 	srcsetUrl  = regexp.MustCompile(`(\S+)(\s+[\d.]+[xw])?(\s*(?:,|$))`)
 	b64DataUrl = regexp.MustCompile(`(?i)^data:\s*([^\s;,]+)\s*;\s*base64\s*,`)
-- 
2.43.0


From ef0fd5cf782645ae004b7f0bff050388526e4a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:07 +0000
Subject: [PATCH 23/25] fix: links that hold escapes, user info or a non-http
 host are resolved wrongly

---
 readability.go | 29 ++++++++---------------------
 regexps.go     | 11 +++++------
 2 files changed, 13 insertions(+), 27 deletions(-)

diff --git a/readability.go b/readability.go
index 7983a7f..e2e0c86 100644
--- a/readability.go
+++ b/readability.go
@@ -286,34 +286,21 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		var abs string
 		if u.Scheme != "" {
 			abs += u.Scheme
-			if strings.HasPrefix(u.Scheme, "http") {
+			if strings.HasPrefix(u.Scheme, "http") || u.Scheme == "file" || u.Host != "" {
 				abs += "://"
 			} else {
 				abs += ":"
 			}
 		}
-		abs += strings.ToLower(u.Host)
-
-		var b, a string
-		if strings.Contains(uri, "?") {
-			before, _, _ := strings.Cut(uri, "?")
-			b = before
-		} else if strings.Contains(uri, "#") {
-			before, after, _ := strings.Cut(uri, "#")
-			b = before
-			a = after
-		} else {
-			b = uri
+		if u.User != nil {
+			abs += u.User.String() + "@"
 		}
+		abs += strings.ToLower(u.Host)
 
 		if u.Path != "" {
 			p := u.Path
-			if strings.Contains(uri, "%") {
-				if strings.HasPrefix(uri, "//") {
-					p = doubleForwardSlashes.ReplaceAllString(b, "")
-				} else {
-					p = strings.ReplaceAll(b, abs, "")
-				}
+			if strings.Contains(uri, "%") || strings.Contains(baseURI, "%") {
+				p = strings.ReplaceAll(u.EscapedPath(), "/C%7C/", "/C|/")
 			}
 			abs += strings.ReplaceAll(p, "/C|/", "/C:/")
 		} else if u.Opaque != "" {
@@ -325,8 +312,8 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 			abs += "?" + u.RawQuery
 		}
 		if u.Fragment != "" {
-			if strings.Contains(a, "%") {
-				abs += "#" + a
+			if strings.Contains(uri, "%") {
+				abs += "#" + u.EscapedFragment()
 			} else {
 				abs += "#" + u.Fragment
 			}
diff --git a/regexps.go b/regexps.go
index 8e638ce..88d4d74 100644
--- a/regexps.go
+++ b/regexps.go
@@ -36,12 +36,11 @@ var (
 	singleWhitespace     = regexp.MustCompile(`\s`)
 	singleDot            = regexp.MustCompile(`\.`)
 	// https://www.dcs.bbk.ac.uk/~ptw/teaching/DBM/XML/slide17.html
-	entityOrCharCodeRgx  = regexp.MustCompile(`(?i:&#(?:x[0-9a-f]{1,4}|[0-9]{1,5});)|&(quot|amp|apos|lt|gt);`)
-	doubleForwardSlashes = regexp.MustCompile(`//[^/]+`)
-	separators           = regexp.MustCompile(`[\|\-\\\/>»]+`)
-	dotSpaceOrDollar     = regexp.MustCompile(`\.( |$)`)
-	cdata                = regexp.MustCompile(`^\s*<!\[CDATA\[|\]\]>\s*$`)
-	schemaUrl            = regexp.MustCompile(`^https?\:\/\/schema\.org\/?$`)
+	entityOrCharCodeRgx = regexp.MustCompile(`(?i:&#(?:x[0-9a-f]{1,4}|[0-9]{1,5});)|&(quot|amp|apos|lt|gt);`)
+	separators          = regexp.MustCompile(`[\|\-\\\/>»]+`)
+	dotSpaceOrDollar    = regexp.MustCompile(`\.( |$)`)
+	cdata               = regexp.MustCompile(`^\s*<!\[CDATA\[|\]\]>\s*$`)
+	schemaUrl           = regexp.MustCompile(`^https?\:\/\/schema\.org\/?$`)
 	// property is a space-separated list of values
 	propertyPattern = regexp.MustCompile(`(?i)\s*(article|dc|dcterm|og|twitter)\s*:\s*(author|creator|description|published_time|title|site_name)\s*`)
 	// name is a single value
-- 
2.43.0


From b39c9f9005336dd3ecb4da5d2b3c976adf4eab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:18 +0000
Subject: [PATCH 24/25] fix: srcset candidates on lines of their own are joined
 into one

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index e2e0c86..fcd6b09 100644
--- a/readability.go
+++ b/readability.go
@@ -380,7 +380,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 			for _, submatch := range submatches {
 				newSrcset = append(newSrcset, toAbsoluteURI(submatch[1])+submatch[2]+submatch[3])
 			}
-			if !strings.Contains(srcset, ", ") {
+			if !strings.Contains(strings.Join(strings.Fields(srcset), " "), ", ") {
 				media.SetAttribute("srcset", strings.Join(newSrcset, ""))
 			} else {
 				media.SetAttribute("srcset", strings.Join(newSrcset, " "))
-- 
2.43.0


From b9fcec6f81be95ecad4bd8712b9fabf0bdacf5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:04 +0000
Subject: [PATCH 25/25] fix: a base element in the body is ignored when
 extraction drops it

---
 readability.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/readability.go b/readability.go
index fcd6b09..532c303 100644
--- a/readability.go
+++ b/readability.go
@@ -2220,6 +2220,9 @@ func (r *Readability) Parse() (*Result, error) {
 	// Remove script tags from the document.
 	r.removeScripts(r.doc)
 
+	// Read the base URI while the base element, which may lie in the body, is still there.
+	r.doc.getBaseURI()
+
 	r.prepDocument()
 
 	var metadata = r.getArticleMetadata(jsonLd)
-- 
2.43.0

