// The command (C19): everything written to standard output, and what the calls returned.
ghost out Str
ghost said Bool
ghost failed Bool
ghost arg0 Str
ghost fetched Str
ghost pagesrc Str
ghost newsrc Str
ghost newuri Str
ghost newobj Int
ghost parsed Int
ghost lastres Int
fun otherout Str Str

extern fmt.Print(a)
  update @C19 said = said || len(a) > 0
  update @C19 out = ite(len(a) == 1 && isstr(a[0]), ite(out == "", asstr(a[0]), out + asstr(a[0])), otherout(out))
extern fmt.Println(a)
  update @C19 said = true
  update @C19 out = ite(len(a) == 1 && isstr(a[0]), out + asstr(a[0]) + "\n", otherout(out))
extern fmt.Printf(f, a)
  update @C19 said = said || len(f) > 0
  update @C19 out = ite(f == "%s" && len(a) == 1 && isstr(a[0]), ite(out == "", asstr(a[0]), out + asstr(a[0])), otherout(out))
extern fmt.Fprint(w, a)
  update @C19 said = true
  update @C19 out = otherout(out)
extern fmt.Fprintln(w, a)
  update @C19 said = true
  update @C19 out = otherout(out)
extern fmt.Fprintf(w, f, a)
  update @C19 said = true
  update @C19 out = otherout(out)
extern io.WriteString(w, s)
  update @C19 said = true
  update @C19 out = otherout(out)
extern (*os.File).WriteString(w, s)
  update @C19 said = true
  update @C19 out = otherout(out)
extern (*os.File).Write(w, s)
  update @C19 said = true
  update @C19 out = otherout(out)
extern flag.Arg(i)
  update @C19 arg0 = ite(i == 0, res, arg0)
extern net/http.Get(url)
  update @C19 failed = failed || res1 != nil
  update @C19 fetched = url
extern io.ReadAll(r)
  update @C19 failed = failed || res1 != nil
  update @C19 pagesrc = strof(res0)
extern os.Exit(code)
  requires @C19 status: code == 1
  requires @C19 error: said && (failed || arg0 == "")

more New
  update @C19 failed = failed || res1 != nil
  update @C19 newsrc = htmlSource
  update @C19 newuri = uri
  update @C19 newobj = res0
  ensures @C19 seen: failed == (old(failed) || res1 != nil) && newsrc == htmlSource && newuri == uri && newobj == res0
more (*Readability).Parse
  update @C19 failed = failed || res1 != nil
  update @C19 parsed = r
  update @C19 lastres = res0
  ensures @C19 seen: failed == (old(failed) || res1 != nil) && parsed == r && lastres == res0

func main.main()
  requires out == "" && !failed && !said
  ensures @C19 ok: !failed
  ensures @C19 page: fetched == arg0 && newsrc == pagesrc && newuri == arg0 && parsed == newobj
  ensures @C19 html: main.output == "html" ==> out == astype(lastres, "*Result").HTMLContent
  ensures @C19 text: main.output != "html" ==> out == astype(lastres, "*Result").TextContent
end
