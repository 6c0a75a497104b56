// ---- C24 ----
func NewDoc(name, content) (d)
  ensures[C24] d: d == mk(Doc, name, content)
  frame[C24]

func Doc.ID(d) (r)
  ensures[C24] r: r == d.Name
  frame[C24]

func Doc.Raw(d) (r)
  ensures[C24] r: r == d.Content
  frame[C24]

func Doc.Hash(d) (r)
  depends[C24] id: on(r, d.Name)
  frame[C24]

func NewDocRequest(name, content) (r)
  ensures[C24] name: r.Name == name
  ensures[C24] content: r.Content == content
  ensures[C24] statement: r.statement == content
  ensures[C24] mime: r.MimeType == MimeText
  frame[C24]

func NewDocRequestWith(name, content, statement) (r)
  ensures[C24] name: r.Name == name
  ensures[C24] content: r.Content == content
  ensures[C24] statement: r.statement == statement
  ensures[C24] mime: r.MimeType == MimeText
  frame[C24]

func NewDocRequestWithMime(name, content, mime) (r)
  ensures[C24] name: r.Name == name
  ensures[C24] content: r.Content == content
  ensures[C24] statement: r.statement == content
  ensures[C24] mime: r.MimeType == mime
  frame[C24]

func DocRequest.ID(d) (r)
  ensures[C24] r: r == d.Name
  frame[C24]

func DocRequest.Raw(d) (r)
  ensures[C24] r: r == d.Content
  frame[C24]

func DocRequest.Mime(d) (r)
  ensures[C24] r: r == d.MimeType
  frame[C24]

func DocRequest.Statement(d) (r)
  ensures[C24] r: r == d.statement
  frame[C24]

func SearchResult.GetDoc(s) (r)
  ensures[C24] r: r == s.Document
  frame[C24]

func SearchResult.Doc(s) (r)
  ensures[C24] r: r == s.Document
  frame[C24]

func SearchResult.GetHits(s) (r)
  ensures[C24] r: r == s.Hits
  frame[C24]
