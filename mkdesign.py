#!/usr/bin/env python3
# fills the tables of DESIGN.tmpl.md into DESIGN.md
import json,glob,os
how={
"C01":"Proved (partial correctness): every nil dereference, index, slice, division, type assertion and nil call of every function is an obligation; 2011 of them are discharged over the invariants of C02/C03, the preconditions (`live`, `rok`, non-nil) being checked at every call. Left to the bounded part, named in the evidence: the body of grabArticle (does not finish), a dozen obligations that need facts about regular expressions or recursion (`leave` clauses with the reason), termination. Bounded: arbitrary bytes, mutated and generated pages, all option combinations, with a watchdog.",
"C02":"Proved. Object invariants over ghost positions (`idx`, `eidx`) and array owners say exactly the statement; AppendChild, RemoveChild, ReplaceChild, SetInnerHTML, SetTextContent, readNode, parse keep them; every other function (the whole extraction) keeps them because it edits only through these. Frame postconditions say which nodes an edit leaves alone. contracts/10_dom.gvc, 30_read.gvc.",
"C03":"Proved. The attribute slice is related to a ghost map (`ah`, `av`) with ghost positions; Set/Get/Has/RemoveAttribute have the map operations as postconditions. contracts/05_attr.gvc.",
"C04":"Bounded: trees from hostile generators serialised, parsed, compared node by node; the extracted HTML reparsed. Out of reach of a contract within the budget: the tokenizer is golang.org/x/net/html, whose grammar would have to be specified in full.",
"C05":"Proved (contracts/43_text.gvc): ghost views `tx`/`mk` of each text node tied to the two cached fields by invariants; setters update both views, getters return them and must re-establish the invariants without touching the views; the text of an element equals `ct`, the recursive concatenation over ChildNodes, by an invariant on the loop and recursion of GetTextContent. Bounded: the decoding function itself, and operation sequences against a reference.",
"C06":"Proved: frame obligations: no store, append, map update or call in any function reaches a package-level variable or memory reachable from one (`mine(s)`), hence nothing is shared between instances. Bounded: orders and interleavings of instances under the race detector.",
"C07":"Proved (contracts/41_limit.gvc): `cnt`, the recursive element count over Children, is what getElementsByTagName(\"*\") returns the length of; Parse refuses iff limit > 0 and cnt > limit. Every edit ends the definition (`counting`), so it speaks of the tree as given. Bounded: limits around the element count of generated pages.",
"C08":"Proved (contracts/46_meta.gvc): getArticleMetadata returns, for some table of meta values, the stated precedence chain, unescaped; anyOf returns the first non-empty argument; ghosts carry the metadata to Parse, whose Result is stated over them, excerpt fallback included. Bounded, how the table is filled from meta elements and what getJSONLD reads: generated metadata in every combination of sources, against a reference that recomputes the precedence.",
"C09":"Proved on Parse (contracts/40_result.gvc): ghosts record what the function values were called with and returned (`serres`, `h2tres`), and the child lists at that moment; the fields of Result are stated over them. Bounded: recorded callbacks compared with the fields; the wrapping div.",
"C10":"Proved (contracts/45_class.gvc): `kc`, the restriction of a class text to the preserve list, is defined recursively over the split text; cleanClasses gives every element of the subtree that class text or none (invariants cdone/ckids, loop invariants over Children and over the list built by filter); edits end the mark, and Parse shows the node given to the serializer still has it. Bounded: extracted elements compared with the page's, matched by marker attributes.",
"C11":"Proved (contracts/44_style.gvc): invariants sdone/skids: a marked element outside svg has no presentational attribute and its element children are marked; cleanStyles marks, changes nothing else; prepArticle calls it on the content. Bounded: extracted attributes compared with the page's (this covers the steps of grabArticle after prepArticle).",
"C12":"In part proved (contracts/48_tags.gvc): getElementsByTagName lists every element of the tag below the node (ghost marks `cov`, `ls`, by recursion), getAllNodesWithTag the union over the tags; clean and removeScripts (removeNodes and the filter inlined) detach all of them but embeds an attribute of which matches the video pattern; prepArticle calls clean for the ten tags, Parse calls removeScripts. Bounded, since it lies in grabArticle or is undone and redone by later edits: extracted trees searched for forbidden elements; pages hold them in every position.",
"C13":"In part proved (contracts/49_attempt.gvc): the ghost map `tlen` records what getInnerText measured last; grabArticle returns an attempt below the threshold, or nil, only when flagStripUnlikelys, flagWeightClasses and flagCleanConditionally are all off; flagIsActive and removeFlag are exact on the three bits. Bounded rest (first sufficient attempt, longest attempt): each page extracted with thresholds 0, huge, and around the lengths seen.",
"C14":"In part proved (contracts/47_hidden.gvc): `sty`, the value of the first declaration of a name in a style text, is what getStyle returns; isProbablyVisible and isModalDialog are stated over it and the ghost attribute map; every element has a style object of its own (invariant). Bounded, since the walk is in grabArticle: unique marker words inside hidden subtrees must not occur in any field.",
"C15":"Bounded: reference score computed from the generated tree.",
"C16":"Bounded: each link carries a marker; its expected target is computed with net/url from the page.",
"C18":"Bounded: numbered words in the page; the words of the extracted text must be an increasing sequence of page words.",
"C19":"Proved on main (contracts/42_command.gvc): ghost standard output, contracts (trusted) of fmt.Print*, http.Get, io.ReadAll, flag.Arg, os.Exit. Bounded: the built command run against a local server (loopback).",
}
exec(open('/verif/how_extra.py').read()) if os.path.exists('/verif/how_extra.py') else None
ps=[json.loads(l) for l in open('/verif/properties.jsonl')]
t="| id | title | how it is decided |\n|---|---|---|\n"+"\n".join(f"| {p['id']} | {p['title']} | {how[p['id']]} |" for p in ps)
caught=json.load(open('/verif/caught.json')) if os.path.exists('/verif/caught.json') else {}
b="| bug | property | needs | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=f.split('/')[-2]; m=json.load(open(f))
    b+=f"| {i} | {m['property']} | {m['needs']} | {caught.get(i,'not yet run')} |\n"
s=open('/verif/DESIGN.tmpl.md').read().replace('PROPTABLE',t).replace('BUGTABLE',b)
open('/verif/DESIGN.md','w').write(s)
