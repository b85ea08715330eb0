#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and the notes below
import json
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
proof={
 "C01":"Proved for every function of the library and the command except grabArticle: no nil dereference, index, slice, division, type assertion or nil call fails, for all inputs and options (some obligations, listed in the evidence under not_proved_here with the reason, are left to the bounded part). Not proved: termination, stack depth and grabArticle's own body; the bounded part runs the whole library on generated and mutated pages with a watchdog. Trusted: the verification-condition generator, go/ssa, the solvers, the library models listed in the evidence.",
 "C02":"Every obligation of the tree invariants over all functions of the DOM layer and every caller's use of them is discharged by SMT for all inputs and iterations. Trusted: the verification-condition generator, go/ssa, the solvers, the library models listed in the evidence.",
 "C03":"Every obligation of the attribute contracts (a ghost map view of the list) is discharged by SMT for all lists, names and values. Trusted: the verification-condition generator, go/ssa, the solvers.",
 "C06":"Proved: no function writes a package-level variable or anything reachable from one after initialisation (frame obligation at every store, append, map update). Assumed: library calls keep no state. The bounded part runs orders and interleavings of instances under the race detector.",
 "C05":"Proved: a text node keeps two views (ghost text and markup); setting one fixes both, reading either changes neither, for every sequence of edits; the text of an element is the concatenation of the texts of its text nodes in document order (loop and recursion invariant of GetTextContent). Not proved, bounded: what decodeHTML computes for a text (dec is a name for it). Trusted: the generator, go/ssa, the solvers, the model of strings.Join and strings.Replacer.",
 "C07":"Proved: getElementsByTagName(\"*\") returns as many nodes as the tree has elements (recursive definition over Children), Parse refuses exactly when the limit is positive and below that number, and otherwise goes on to extract. Bounded: that the limit influences nothing else. Trusted: the generator, go/ssa, the solvers, library models.",
 "C09":"Proved on Parse: exactly one of result and error; HTMLContent is what the serializer returned; TextContent is the text read from the node the serializer was given, or what html2text returned for HTMLContent; Length is the number of characters; the tree is not edited after the serializer saw it. Bounded: the wrapping div, and that the callbacks influence nothing else. Assumed: callbacks do not edit the tree.",
 "C08":"Proved: for each field the value is the JSON-LD value if that is non-empty, else the first non-empty entry of the meta table in the documented order, else (title) the page title, then entity-decoded (getArticleMetadata, anyOf, unescapeHtmlEntities); Parse hands getJSONLD's answer to it unless disabled and fills Result from it, falling back to the article's byline, site name and first paragraph. Bounded: how the meta table and the JSON-LD object are read from the page, and decoding. Trusted: the generator, go/ssa, the solvers, library models.",
 "C10":"Proved: after cleanClasses every element below the node has exactly the classes of the preserve list, in order, joined by blanks, and no class attribute if none is left (object invariant over a ghost mark, all trees and lists); no later edit undoes it before the serializer is called; other attributes are untouched by it. Bounded: keepClasses=true, and that the elements carry their original classes up to then. Trusted: the generator, go/ssa, the solvers, the models of regexp Split (a function of its arguments) and strings.Join.",
 "C11":"Proved: after cleanStyles the element and everything below it outside svg has none of the twelve presentational attributes, sized elements no width/height, and no other attribute changed; prepArticle applies it to the content. Bounded: that what grabArticle does afterwards adds none. Trusted: the generator, go/ssa, the solvers, library models.",
 "C19":"Proved on main: it returns normally only if fetching, reading, New and Parse all succeeded on the URL argument, having written exactly HTMLContent (output html) or TextContent; every os.Exit has status 1, after something was printed, only on a failure or a missing URL. Assumed: flag.Parse stores the option in the variable. The bounded part runs the built command against a local server.",
}
# proved in part: the level is that of the bounded rest
part={
 "C12":"Proved: getElementsByTagName and getAllNodesWithTag list every element of a tag below a node (ghost marks over the tree, by recursion); clean and removeScripts detach every listed element, except object, embed and iframe elements with an attribute that matches the allowed-video pattern; prepArticle cleans the content of all ten tags, Parse removes scripts from the document. Bounded: style, h1 and font elements, and that what grabArticle does before and after brings none back. Trusted: the generator, go/ssa, the solvers, library models.",
 "C13":"Proved on grabArticle: as long as one of the three flags is still on, an attempt is returned only if its text, as last measured by getInnerText, has at least as many bytes as the threshold, and extraction gives up (nil) only after all three flags are off; flagIsActive and removeFlag test and clear exactly their bit (invariant: the flags are the three lowest bits). Bounded: that the first sufficient attempt is not refused, that the longest one is taken at the end (order of the sort), and that the text of Result is the measured one. Trusted: the generator, go/ssa, the solvers, library models.",
 "C14":"Proved: isProbablyVisible and isModalDialog decide exactly by the first display and visibility declaration of the style attribute, the hidden attribute, aria-hidden with the fallback-image exception, and aria-modal with role, for all attribute lists and style texts. Bounded: that the walk of grabArticle asks them about every element. Trusted: the generator, go/ssa, the solvers, the models of strings.Split and TrimSpace (functions of their arguments).",
}
bounded="Bounded so far: generated documents, options and call sequences run against the real code; see DESIGN.md for what is under contract. Never counted as proved."
checks=[]
for i in ids:
    checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i+" --thorough",
      "technique":"contracts on the real code, verification conditions discharged by SMT (gvc)" if i in proof else "contracts on the deciding functions discharged by SMT (gvc), the rest of the path a bounded contract check of the real code" if i in part else "bounded contract check of the real code (postconditions evaluated on generated inputs)",
      "level":"proof" if i in proof else "exploration","level_note":proof.get(i) or part.get(i,bounded)})
m={"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":[],
 "notes":"No hooks in /repo: gvc reads the source through go/ssa, harnesses enter through an overlay. known-findings.txt lists the repaired defects."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
