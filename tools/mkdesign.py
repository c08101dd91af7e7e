#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, checks.json, the monitors' own case descriptions, known_findings.json,
tools/catches.json and the text below."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl") if l.strip()]
checks = json.load(open(H + "/checks.json"))
find = json.load(open(H + "/known_findings.json"))
catches = json.load(open(H + "/tools/catches.json"))
src = "".join(open(f).read() for f in glob.glob(H + "/harness/checks/*_test.go"))
case = {m[0]: m[1].replace('\\"', '"') for m in re.findall(r'rep\.New\("(C\d\d)", "((?:[^"\\]|\\.)*)"\)', src)}

HEAD = """# MaguroHTTP runtime-monitoring framework: design

(Written by tools/mkdesign.py; edit there.)

Subject: `redmaner/MicroHTTP` (module `github.com/redmaner/MaguroHTTP`), a small Go web server and reverse proxy: `router`
(dispatch, middleware), `cache` (sharded ring cache), `guard` (basic authentication, firewall, rate limiter), `html` (templates),
`debug` (logger), `tuna` (the server: serving, download sites, proxy, virtual hosts, metrics, TLS, configuration).

Technique: runtime monitoring and sanitizers, for all properties; nothing is listed as not applicable. The real code runs under
generated, hostile and concurrent workloads; an oracle (reference model, history checker, ledger comparison, resource monitor,
race detector) judges what was observed. No hooks in /repo: every event is observable at the API or process boundary (clients,
upstreams, files on disk, log, /proc of the server process, process exit), which also keeps the checks independent of how the
code is written.

## Layers

* Library monitors: the harness (`/verif/harness`, a Go module that `replace`s the repository with `/repo`) drives the exported API
  of `router`, `cache`, `guard`, `html`, `debug` in process. Time-dependent behaviour runs in `testing/synctest` bubbles
  (virtual clock), so minutes and hours are exact and free.
* Process monitors: the real binary, rebuilt from `/repo` in each check, runs with generated configuration (JSON or HCL, chosen by
  the seed) in a scratch directory on loopback. Clients are raw TCP, TLS, raw HTTP/2 frames and net/http; client addresses are
  127.x.y.z source addresses. Upstreams are raw harness servers that log every request (unique ids), including decoys.
* Sanitizers: the Go race detector on the harness (C04, C06, C08, C10) and on the real binary (C08, C19, C27). A race report that
  involves repository code is a violation. Panics in the server's log are violations everywhere.

* Irrelevant headers: about half of all generated requests (library, HTTP/1.1 and HTTP/2) carry one to four headers that nothing
  the server guarantees depends on (forwarding and override headers, cookies, credentials in other places, preflight, cache and
  fetch headers; `srv/noise.go`, chosen by request and seed). Each check thereby also observes that they change nothing.
  C17 (which has its own headers) is the exception. Replay files list the latest such requests.

## Verdict discipline

Violated (witness under `replays/`, exit 1), held on what was observed (exit 0), inconclusive (exit 2: build failure, fewer events
than `min_evaluations`, machinery watchdog). Case lists come from the seed and are of fixed length, never from the clock. Waiting for
progress uses limits of tens of seconds for operations that take milliseconds. After the first violation a run wraps up within
about 45 s, and is ended after 150 s at the latest, so that a tree which makes everything slow still gets its verdict.
Evidence files hold what monitors observed: evaluations, distinct cases, counters per event kind, samples, race reports.

Destructive effects: the server writes only below its scratch directory. C24 exercises the file directory `/` only inside a user
namespace whose root is a scratch directory. C28 and C29 run parts as an unprivileged user. C31 limits descriptors with prlimit on
its own server. Nothing touches system settings.

`run.py ID` builds, runs and judges one check; `checks.json` holds the per-check settings, `tools/mkmanifest.py` writes MANIFEST.json,
`tools/mkfindings.py` writes known_findings.json from the fix commits.
"""

# per property: why the monitors reach what tests cannot / what the oracle is, beyond the case description
MORE = {
"C01": "Oracle: `harness/model` decides from the table alone (written from the property, without the router's code). Tables mix exact, ancestor, default-host and own-host routes with content types and fallback flags, registrations repeated and slashed; the interplay of those dimensions is what a handful of tests never samples.",
"C02": "Oracle: `model.Canon` on the decoded path, plus metamorphic respelling (two spellings of one path must get one answer). Observed at handlers, middlewares, the route decision and over a real net/http server.",
"C03": "Oracle: the event trace of every request compared with the chain the model prescribes, with refusing middlewares at every position.",
"C04": "Oracle: offline. Every registration's call and return and every request's start and end get a logical time; an answer must be explained by a pair of table states (default host, own host) within its window. A second phase has several goroutines register on one host and path: nothing lost, per-goroutine order kept, each request sees an initial part of the final chain.",
"C05": "Oracle: map with store and touch times in virtual time, operations crafted for ring wrap-around, age boundaries, and keys with equal xxhash (constructed).",
"C06": "Oracle: porcupine register model per key (bounded histories) and a staleness monitor on long histories that wrap the ring; fresh caches hit by all goroutines at once.",
"C07": "Oracle: independent token bucket in exact arithmetic; virtual time, so refill boundaries are hit to the microsecond; rates of zero and huge bursts included; the real server checks every site mode and per-virtual-host budgets by exact admission counts. Also: budgets refilled within milliseconds, budget 0, request headers that might be thought to make a request cheaper (ranges, conditions, forwarding).",
"C08": "Oracle: conservation. In a burst on a fresh client exactly min(requests, burst) are admitted; over time never more than burst + rate*T.",
"C09": "Oracle: independent covering-rule function over rule sets, addresses (IPv4, IPv6, mapped, prefixes of each other), spellings of the path, both middlewares and the real server in all modes; raw HTTP/2 pseudo headers included. Also: rule lists of up to 3000 entries, and sites with a small shared budget, where a refused client must get 403 whatever was asked before and must not use up what others may ask.",
"C10": "Oracle: a strict one (must be admitted) and a lenient one (may be admitted); only what both agree on is judged. Colons, empty parts, case, trailing bytes, broken base64, several headers.",
"C11": "Oracle: every file in and around the site has a unique marker; a body may only hold what the site may return. Requests are raw HTTP/1 and raw HTTP/2 with arbitrary :authority and :path; files lie in siblings with the same prefix, parents, other sites and at places a wrongly joined path would hit.",
"C12": "Oracle: a mirror of the changing directory and an RFC 9110 model of ranges and conditions. Every byte, length and type is compared, HTTP/1 and HTTP/2; names of files and directories that look like queries, fragments, schemes, escapes or are no UTF-8; links, pipes, sockets; redirects are followed as RFC 3986 says. Also: files of 3 to 12 GB (sparse), ready-made forms of files (compressed siblings, index variants), every file mode.",
"C13": "Oracle: header set computed from the generated configuration for every kind of answer, including concurrent ones of different sites.",
"C14": "Oracle: page chosen by the site's own configuration; refusals provoked under conditional, range and method headers, ports, with the page file present, absent, a directory, empty, changed or removed while the server runs; files the server cannot read (unprivileged server).",
"C15": "Oracle: per-host model with tags on all resources; mixed concurrent hosts over HTTP/1 and HTTP/2; admission counts show that budgets are not shared.",
"C16": "Oracle: every address a hostile request names is a listening decoy that must see no connection; upstream logs must hold only their own host's requests. Hosts that resemble a rule (prefix, suffix, www., trailing dot) count as hosts without rule.",
"C17": "Oracle: end-to-end comparison by unique id. A quarter of HTTP/2 requests carry raw targets (spaces, quotes, non-ASCII): the upstream must see one well-formed request of the same meaning, or none.",
"C18": "Fault injection at every stage (refuse, close, stall, garbage, cut at a byte, bad framing) times methods, framings and protocols; completeness is judged on the client's wire, delivery counted at the upstream. Also: answers an upstream gave in full before it failed must arrive in full.",
"C19": "Oracle: ledger of answered requests against page and file, polled while traffic runs (snapshots must lie between the ledger's lower and upper bound) and exact at rest; the server is built with the race detector.",
"C20": "Enumerated crash and fault points: SIGKILL at delays spread over the write, RLIMIT_FSIZE at every size class, read-only directories; a racing reader sees only complete states; the 20-minute period is observed in virtual time in a helper process. Also: an unreachable metrics directory for a while (outage) followed by recovery.",
"C21": "Oracle: progress and exact counting of all other traffic while sixteen clients misbehave on pages from 400 bytes to tens of MB; tag inventory of the raw page before and after each hostile path, host, entity or multiply encoded text.",
"C22": "Requests are held in flight by gates in upstreams, unread responses and half-sent bodies, so that the moment of the signal relative to each is known.",
"C23": "Probes: cleartext HTTP/1, HTTP/2 preface and garbage; raw ClientHellos offering each suite code point and version alone; handshakes verifying the configured certificate; certificate and key missing, empty, unreadable, swapped, mismatched, expired; AutoCert with a local cache. Also: no other port is opened, and the port speaks nothing else than TLS.",
"C24": "Each requirement broken in turn in a generated valid configuration, in the main file and in a virtual host's, both syntaxes; differential start of one configuration in several orders and syntaxes with the same probe requests. Also: files broken off at every length, and the address that is listened on.",
"C25": "Oracle: every log line is attributed to exactly one request of the ledger; hostile paths, agents, hosts and user names; stdout, stderr and file; all levels, including direct use of debug.Logger.",
"C26": "Oracle: time to closure within limit + 2.5 s (three failures in a row), never before the limit; counterparts that are slow but within limits must be served; hundreds of stalls while others are timed.",
"C27": "Oracle: race detector on the binary, panics, and a solo-answer set: an answer under the storm must be one the same request got alone. Admissions, counts and log lines are conserved. Also: a stampede of first requests on a fresh process, and up to 600 exchanges held at an upstream with as many unread answers and half-sent requests, while others are answered.",
"C28": "Oracle: model of the tree; lists and followed links while files come and go, unreadable directories as an unprivileged user, names with markup, spaces, bytes that are no UTF-8, links, FIFOs. Also: files of more than 2, 4 and 8 GB, lists of tens of thousands of files, file modes.",
"C29": "Oracle: the harness renders the template itself; existing templates of any content (empty ones too) must stay byte for byte; failing writes and kills while templates are created. Also: templates composed of several definitions.",
"C30": "Oracle: processor time of the server process per request (2.5 s limit for at most 1 MB, normally below 0.1 s), peak memory for bodies of 700 MB read, skimmed or ignored, bytes an upstream can push ahead, first bytes before the end exists.",
"C31": "Oracle: after each of about 50 kinds of exchange and ending, /proc of the server and its goroutine dump must be back at rest; hundreds of thousands of different clients must not grow the heap; memory level over 200 000 requests; recovery from descriptor exhaustion. Also in process: the heap of one instance over many thousands of different requests.",
"C32": "Oracle: routing model plus the guards' rules give status, trace of middleware and handler, page, headers and one log line for each request to a generated embedding program; that program is a helper process built with the race detector, which adds routes, middleware and guards before or while it serves.",
"C33": "Oracle: the listed paths, methods and types of a generated configuration are entered into the routing model; status, the file whose text is answered, and the requests that reached the upstream are compared for about 60 000 requests in process (transport replaced by a recorder) and about 1 200 over loopback.",
}

NOTES = """## Corrections to the machinery (false alarms met and removed)

* Ports: two harness processes could pick the same free port, or an outgoing connection could take it. Ports now come from
  10000-32000 (outside the ephemeral range) and are reserved by an abstract unix socket.
* C16: decoy connection counts are swapped atomically per round, two goroutines counted one connection twice.
* C17: bytes that are no legal part of a target may arrive escaped; Location is compared textually.
* C18/C22/C26: timing verdicts need three failures in a row or tolerate scheduling delay of seconds.
* C20: templates are created before the crash points start, so that a kill is in the metrics write.
* C21: slow clients have read deadlines, a cut-off page is not an error of the page.
* C23: cached AutoCert keys may be RSA or ECDSA; the 400 of net/http to cleartext on a TLS port is no answer of the site.
* C24: leniency of the HCL library (for example `{"Serve": }` is accepted) is not MaguroHTTP's; such inputs are not generated.
* C07: answers the router itself gives (404, 405, 406) run no middleware and charge no budget.
* C25: entries are read after the server ended, as a count of lines can be reached while an answered request is still being logged.
* C25: paths are compared in canonical form; the line printed to stdout on a signal is not a log entry.
* C27: solo answers come from an address no rule lists; metrics are only compared with TLS, where they are collected.
* C31: the HTTP/2 cancelling client closes its own connections; memory is judged after the limiters' caches are filled.

## Behaviour noticed and left alone

Not violations of a property as stated, or net/http's own: served 206, 304, 412 and 416 are logged and counted as 200; the spelling `attachement`; the log
file is truncated at start; hop-by-hop request headers are forwarded; custom headers are not put on error pages; exit status 1 after
a signal; the program panics after printing help when started without arguments; an upstream that stalls in the middle of a body
holds its exchange while the client stays; request bodies are read into memory before they are proxied; metrics keep one key per
distinct path; small streamed pieces are buffered until net/http flushes.
"""

out = [HEAD, "## Properties\n"]
for p in props:
    i = p["id"]; c = checks[i]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("*Decided by*: %s (level: %s; server binary: %s; race detector: %s).\n" % (c["technique"], c.get("level", "exploration"),
        c.get("server", "none"), "harness" if c.get("hrace") else ("server" if c.get("server") == "race" else "no")))
    out.append("*Cases*: %s\n" % case[i])
    out.append("*Oracle and reach*: %s\n" % MORE[i])
    if p.get("why_tests_cant"):
        out.append("*Why not tests*: %s\n" % p["why_tests_cant"])
    out.append("*Bounds*: %s Cost of the quick check: about %s s; thorough runs the same generators %s.\n" % (c["note"], c.get("cost", "5"), "with 5 to 25 times the cases"))
out.append("## Defects found and repaired\n\nEach was shown on the real code by the named check, repaired by one `fix:` commit, and is reported again if it returns. No finding is left unrepaired.\n")
for f in find["fixed"]:
    out.append("* " + re.sub(r"^fixed: property=", "", f))
out.append("\n" + NOTES)
out.append("## Planted bugs\n\nWritten from the properties' text, each with a demonstration; run with VERIF_SEED=1, quick. Where a first run missed one, the check was strengthened until it was caught (marked +).\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/"), catches.get(b, "not run")))
open(H + "/DESIGN.md", "w").write("\n".join(out) + "\n")
