"""Regenerates known_findings.json from the fix commits in /repo."""
import json,os,subprocess
lg=subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
M=[("allocate cache shards","C06","two first stores racing on a fresh cache lost one of them and raced"),
("search the cache from the newest","C05","after ring wrap-around a lookup returned an older value of the key; a maximum age below a second was not honoured"),
("tell cache keys with","C05","two keys with the same xxhash64 read each other's value; keys hashing to zero were found without a store"),
("do not share a rate limit","C07","address 10.0.0.1 with User-Agent 1x and address 10.0.0.11 with User-Agent x shared one bucket"),
("use one rate limit for concurrent","C08","concurrent first requests of a client each got a full bucket of their own"),
("let unmatched clients","C09","BlockHTTP refused unmatched clients in blacklist mode and let them through in whitelist mode"),
("answer 401 by default","C10","without a refusal handler of its own basic authentication answered 200; concurrent first requests raced on the shared handler state"),
("never authenticate a user","C10","empty credentials (Basic Og==) were accepted when any user was configured"),
("never list the contents of a directory","C11","a served directory without index file, and a subdirectory of a download site, answered with a listing of all its files"),
("send custom error pages with the status","C14","a custom error page was sent with status 200, 206 or 304 instead of the status of the error"),
("do not let a virtual host add proxy routes","C15","the proxy rules of one virtual host added routes for the other hosts they named"),
("never let the request target choose","C16","GET x:@decoy:port made the proxy connect to decoy:port; absolute-form targets were appended to the upstream URL"),
("do not add request headers or decompress","C17","requests without User-Agent or Accept-Encoding got Go-http-client/1.1 and gzip added, and gzip responses were decompressed"),
("do not cut a proxied request target at a number sign","C17","GET /secret#x passed a firewall rule for /secret and was forwarded as /secret"),
("answer 502 when the upstream sends no final status","C18","an upstream status of 000, 099 or 101 crashed the handler or was relayed"),
("abort the response when a proxied body","C18","a chunked upstream body cut half way was delivered as a complete response"),
("load metrics before the first request","C19","requests answered while the metrics file was still being read were not counted, or were counted into a map that was then replaced"),
("do not lose counts of paths that are not valid","C19","paths with different invalid UTF-8 collapsed into one JSON key when written, so their counts were lost at the next start"),
("accept a metrics file without paths","C20","a metrics file with Paths null made the first counted request panic"),
("flush metrics periodically from the first run","C20","without a metrics file at startup metrics were never written while running"),
("keep the metrics file when metrics are not","C20","a run without TLS overwrote the metrics file with empty metrics at its end"),
("replace the metrics file in one step","C20","a crash or failing write while writing metrics left a truncated file with which the server no longer starts"),
("do not hold the metrics lock while sending","C21","a client that stopped reading the metrics page blocked every other request, one that disconnected blocked them for ever"),
("escape paths on the metrics page","C21","GET /<script>...</script> put that markup on the metrics page the administrator opens"),
("let running requests finish","C22","on SIGTERM the server panicked with http: Server closed and cut off every request in flight; metrics did not hold them"),
("never serve plain HTTP when TLS","C23","with TLS enabled and the certificate or key file missing the server silently served plain HTTP"),
("require a serve directory and index","C24","a served site without ServeDir or ServeIndex was accepted; its files were looked up from the root of the file system"),
("refuse JSON configurations that end half way","C24","a truncated JSON configuration was accepted without the settings cut off"),
("add the routes of a site in a fixed order","C24","with /a and /a/ configured the same configuration answered differently from one start to the next"),
("add the middleware of a path once","C07","with /sub and /sub/ configured each request was charged twice"),
("log request targets in their encoded","C25","GET /%0aMaguroHTTP-... started a new, forged log line; spaces in the target added fields; /adm?in was logged as /admin"),
("list downloads when files or directories cannot","C28","a missing directory, or one vanishing during the walk, made every request to a download site panic"),
("only offer regular files as download","C28","dangling links, FIFOs and links to directories were listed; requesting a FIFO hung for ever; linked files were listed with the size of the link"),
("link downloads by their path","C28","files in subdirectories were linked without their directory (404); names were not escaped in links and text (markup injection, broken links)"),
("list downloads of an extension configured twice","C28","an extension listed twice listed its files twice"),
("send every file that is offered as download","C28","index.html files were redirected instead of downloaded, names that are not UTF-8 gave 404"),
("send error pages as text/html","C29","error pages rendered from a template were sent with a sniffed content type (text/plain for templates that do not start with a tag)"),
("never leave a truncated template behind","C29","a kill or failing write while templates were created left a truncated template that was used for ever"),
("match routes of long paths in linear time","C30","a request of about 1 MB with many path segments kept a processor busy for half an hour (quadratic search for a route)"),
("match firewall rules of long paths in linear time","C30","the same in the firewall; a path without a slash (CONNECT on a firewall used without the router) never ended"),
("end proxied requests when the client is gone","C31","a proxied request whose upstream stalls kept its upstream connection and handler for ever after the client left"),
("do not admit everything when the rate is zero","C07","with a rate of zero (or so low that refilling takes centuries) every request of every client was admitted, or none at all"),
("do not match a host that contains a part of the path","C11","an HTTP/2 authority such as b.test/a with a path matched the route for /a/<path> of b.test: its middleware judged another path, and the file was looked up from the root of the file system"),
("do not send spaces of a HTTP/2 query","C17","a HTTP/2 request whose query holds a space (GET /x?a HTTP/1.1) was sent to the upstream with a malformed request line"),
("serve index.html and redirect directories whatever","C12","directories named with ?, #, % or : were redirected to another place; index.html could not be fetched when it is not the index; files with names that are not UTF-8 were 404"),
("do not block on a served file that is not regular","C12","a request for a FIFO below the served directory hung for ever and kept its handler"),
("answer with the error page of the site when a served file","C14","a served file that cannot be read was answered with the plain 403 of net/http instead of the page of the site, and logged and counted as 200"),
("escape spaces of a HTTP/2 method in the log","C25","a HTTP/2 request whose method holds spaces (GET a.test/x IP=1.2.3.4 User-Agent=y) forged the request, address and agent of its log entry"),
("redirect respelt directory targets","C12","a directory asked for as /a%2fdocs or /a/docs/x%2f.. was redirected to another path, as the Location was relative to the cleaned path"),
]
F=[]
out={"findings":F,"fixed":[]}
for pat,pid,what in M:
    h=[l.split()[0] for l in lg if pat in l]
    assert len(h)==1,(pat,h)
    out["fixed"].append("fixed: property=%s %s %s"%(pid,h[0],what))
assert len(M)>=sum(" fix: " in l for l in lg),"fix commit without entry"
json.dump(out,open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"known_findings.json"),"w"),indent=1)
