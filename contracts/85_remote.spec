# trcweb/trace_server.go: searching a remote server

# what a reader holds, and whether a body was closed
ghost any.$holds any
ghost any.$closed int
fun requri(r *http.Request) string
fun reqbody(r *http.Request) any
extern bytes.NewReader(b) (r)
  modifies nothing
  ensures fresh(r) && box(r).$holds == jsontext(b)
extern http.NewRequestWithContext(ctx, method, uri, body) (r, err)
  modifies nothing
  ensures err == nil ==> fresh(r) && fresh(r.Header) && fresh(r.URL) && r.Method == method && reqctx(r) == ctx && requri(r) == uri && reqbody(r) == body
extern io.Copy(w, r) (n, err)
  modifies nothing
iface io.ReadCloser.Close(r) (err)
  modifies r.$closed
  ensures r.$closed == old(r.$closed) + 1

# the requests made and the answers got
ghost any.$did int
ghost any.$didreq *http.Request
ghost any.$didres *http.Response
ghost any.$diderr any
iface trcweb.HTTPClient.Do(c, req) (res, err)
  requires [C25 request] req != nil && contains(headerval(req.Header, "content-type"), "application/json") && contains(headerval(req.Header, "accept"), "application/json")
  modifies c.$did, c.$didreq, c.$didres, c.$diderr
  ensures c.$did == old(c.$did) + 1 && c.$didreq == req && c.$didres == res && c.$diderr == err && (err == nil ==> res != nil && fresh(res) && res.Body != nil && res.Body.$closed == 0)
axiom contains("application/json; charset=utf-8", "application/json") && contains("application/json", "application/json") && contains("text/html; charset=utf-8", "text/html")

func (*trcweb.SearchClient).Search(c, ctx, req) (res, err)
  props C25
  requires c.client != nil && ctx != nil && carries(ctx) && req != nil
  modifies c.client.$did, c.client.$didreq, c.client.$didres, c.client.$diderr, all($closed), all($calls), all($kind), all($fmt), all($nargs), all($argv), all($errored)
  ensures [C25 err_or_result] err == nil <==> res != nil
  ensures [C25 once] c.client.$did == old(c.client.$did) + 1 || c.client.$did == old(c.client.$did) && err != nil
  ensures [C25 asked] c.client.$did > old(c.client.$did) ==> reqctx(c.client.$didreq) == ctx && requri(c.client.$didreq) == c.uri && reqbody(c.client.$didreq).$holds == box(req)
  ensures [C25 failed] c.client.$did > old(c.client.$did) && (c.client.$diderr != nil || c.client.$didres.StatusCode != 200) ==> err != nil
  ensures [C25 result] err == nil ==> res.Sources == c.client.$didres.Body.$decresp.Sources && res.TotalCount == c.client.$didres.Body.$decresp.TotalCount && res.MatchCount == c.client.$didres.Body.$decresp.MatchCount && res.Traces == c.client.$didres.Body.$decresp.Traces && res.Stats == c.client.$didres.Body.$decresp.Stats && res.Problems == c.client.$didres.Body.$decresp.Problems && res.Duration == c.client.$didres.Body.$decresp.Duration
  ensures [C25 closed] c.client.$did > old(c.client.$did) && c.client.$diderr == nil ==> c.client.$didres.Body.$closed > 0

func trcweb.NewSearchClient(client, uri) (c)
  props C25
  modifies nothing
  ensures [C25 client] fresh(c) && c.client == client && c.uri == (hasprefix(uri, "http") ? uri : "http://" + uri)
