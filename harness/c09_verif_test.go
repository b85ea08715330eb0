package readability

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
	"unicode/utf8"
)

// text of a tree: its text nodes in document order
func vText(n *Node) string {
	var b strings.Builder
	vWalk(n, func(x *Node) {
		if x.NodeType == 3 {
			b.WriteString(x.GetTextContent())
		}
	})
	return b.String()
}

func TestVerifC09(t *testing.T) {
	vRun(t, func(t *testing.T, g *gen) {
		var src string
		if g.one(2) {
			root, _, _ := g.article(func(m *mnode) {
				if g.one(6) && !genVoid[m.tag] {
					m.add(mt(g.pick("é漢字🎉", "a\u00a0b", "<&>", "\n\t ")))
				}
			})
			src = root.html()
		} else {
			src = g.doc()
		}
		opts, d := g.opts()
		thr, d2 := g.looseOpts()
		opts, d = append(opts, thr...), d+d2
		in := "opts=" + d + " html=" + src
		vSample(in)
		vGuard2(func() {
			r, err := New(src, "http://example.com/x", opts...)
			if err != nil {
				if r != nil {
					vFail(t, "New returns an instance and an error", in)
				}
				return
			}
			res, err := r.Parse()
			if (res == nil) != (err != nil) {
				vFail(t, fmt.Sprintf("Parse returns result %v with error %v", res, err), in)
			}
			var root *Node
			calls, gave := 0, ""
			// what the callbacks return is taken as it is
			pad, end := g.pick("", "", " ", "\n\t", "\u00a0", "<p> ", "&amp;"), g.pick("", "", " ", "\n", "\u200b", " </p>", "\x00", "\xff", "\r\n")
			r2, _ := New(src, "http://example.com/x", append(opts[:len(opts):len(opts)], Serializer(func(n *Node) string {
				root = n
				calls++
				gave = pad + fmt.Sprintf("ser%d", calls) + end
				return gave
			}))...)
			res2, err2 := r2.Parse()
			if (err == nil) != (err2 == nil) {
				vFail(t, "the serializer decides whether Parse succeeds", in)
			}
			if err != nil {
				return
			}
			vNontrivial++
			if res.Length != utf8.RuneCountInString(res.TextContent) {
				vFail(t, fmt.Sprintf("Length is %d, TextContent has %d characters", res.Length, utf8.RuneCountInString(res.TextContent)), in)
			}
			if res2.HTMLContent != gave {
				vFail(t, fmt.Sprintf("HTMLContent is %q, the serializer returned %q", res2.HTMLContent, gave), in)
			}
			if x := root.GetInnerHTML(); res.HTMLContent != x {
				vFail(t, "HTMLContent is not the markup of the extracted tree: "+res.HTMLContent+"\nand\n"+x, in)
			}
			if x := vText(root); res.TextContent != x || res2.TextContent != x {
				vFail(t, "TextContent is not the text of the extracted tree: "+res.TextContent+"\nand\n"+x, in)
			}
			if len(root.Children) != 1 || root.Children[0].GetAttribute("id") != "readability-page-1" || root.Children[0].TagName != "DIV" {
				if strings.TrimSpace(res.TextContent) != "" {
					vFail(t, "the extracted content is not wrapped in one readability-page-1 div: "+res.HTMLContent, in)
				}
			}
			res2.HTMLContent = res.HTMLContent
			if !reflect.DeepEqual(res, res2) {
				vFail(t, fmt.Sprintf("the serializer changes other fields: %+v and %+v", res, res2), in)
			}
			var seen []string
			r3, _ := New(src, "http://example.com/x", append(opts[:len(opts):len(opts)], Html2Text(func(s string) string {
				seen = append(seen, s)
				return pad + "é" + fmt.Sprint(len(s)) + "漢" + end
			}))...)
			res3, err3 := r3.Parse()
			if err3 != nil {
				vFail(t, "Html2Text makes Parse fail", in)
			}
			if len(seen) != 1 || seen[0] != res3.HTMLContent || res3.HTMLContent != res.HTMLContent {
				vFail(t, "Html2Text was not given the HTMLContent", in)
			}
			if want := pad + "é" + fmt.Sprint(len(res.HTMLContent)) + "漢" + end; res3.TextContent != want || res3.Length != utf8.RuneCountInString(want) {
				vFail(t, fmt.Sprintf("with Html2Text TextContent is %q and Length %d, expected %q", res3.TextContent, res3.Length, want), in)
			}
			res3.TextContent, res3.Length = res.TextContent, res.Length
			if !reflect.DeepEqual(res, res3) {
				vFail(t, "Html2Text changes other fields", in)
			}
		})
	})
}
