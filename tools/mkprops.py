#!/usr/bin/env python3
# Writes properties.jsonl (the single place where the properties are worded).
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe),"hook_needed":None}})
prop("C01","A trace records every event call faithfully and in order",
 "Every event call made on an unfinished trace adds exactly one event, in call order, whose text is fmt.Sprintf of the given format and arguments, whose error mark is set exactly for the error calls, and whose UTC timestamp was taken during the call. Reading the events returns one entry per recorded event, in that order, and never loses, repeats, reorders or edits one.",
 ["inputs","histories","schedules"],"all formats and arguments, all sequences and interleavings of event calls and reads, below the event maximum",
 "Tests record a handful of fixed events from one goroutine and compare them; the claim is over all call sequences, arguments and interleavings.",
 ["trace_core.go"],[("append of a new event under the trace lock","trace_core.go Tracef, LazyTracef, Errorf, LazyErrorf"),("snapshotEvents copies event by event","trace_core.go snapshotEvents, EventsDetail")],
 [("events","the recorded events, oldest first","coreTrace.events")],["Trace.Events"])
prop("C02","Finish freezes a trace, once and for all",
 "A trace is unfinished until Finish is called; the first Finish fixes its duration to the time elapsed between its start and that call, and from then on Finished is true and the duration, the errored flag and the recorded events never change again. Later Finish and event calls on a finished trace have no effect at all.",
 ["histories","schedules"],"all sequences and interleavings of event, finish and read calls on one trace",
 "Tests finish a trace once and read it once; they never replay later calls in every order.",
 ["trace_core.go"],[("finished flag checked first in every mutator","trace_core.go"),("duration stored at Finish","trace_core.go Finish, Duration")],
 [("finished, duration","the frozen outcome","coreTrace")],["Trace.Finished","Trace.Duration","Trace.Events"])
prop("C03","Errored is true exactly when an error call was made in time",
 "A trace reports errored exactly when at least one Errorf or LazyErrorf call was made on it before it was finished, and the flag never goes back to false. This holds even when the error event itself was truncated, and non-error calls never set it.",
 ["histories","schedules"],"all sequences of calls, including ones past the event maximum",
 "Tests make one error call on an empty trace; none makes an error call on a full one.",
 ["trace_core.go"],[("errored is set before the truncation test","trace_core.go Errorf, LazyErrorf")],[("errored","an error call was made while active","coreTrace")],["Trace.Errored"])
prop("C04","Per-trace event maximum, with an exact truncation marker",
 "A trace records an event only while it holds fewer than its maximum, which is the process-wide setting when the trace was created (default 1000) unless set on the trace, always clamped to the range 10 to 10000 (lowering it keeps the events already stored); every further event call is only counted. When at least one was counted, the events read end with one extra non-error entry '(truncated event count N)' with the exact count N, which takes the place of the oldest entry that would otherwise be returned; otherwise there is no such entry.",
 ["inputs","histories","configurations"],"all maxima requested, all numbers of event calls, all reads",
 "Tests use one or two maxima and one overflow; off-by-one errors at other sizes stay unseen.",
 ["trace_core.go","helpers.go"],[("limit test before append, counter otherwise","trace_core.go"),("marker in EventsDetail","trace_core.go EventsDetail"),("clamping","trace_core.go SetMaxEvents, SetTraceMaxEvents")],
 [("eventsmax, truncated","maximum and overflow count","coreTrace")],["Trace.Events","trc.SetMaxEvents","trc.SetTraceMaxEvents"])
prop("C05","Immediate arguments formatted during the call, lazy ones at first read",
 "The arguments of Tracef and Errorf are formatted exactly once, before the call returns, so later changes to them cannot alter the event. The arguments of LazyTracef and LazyErrorf are not formatted by the call but at the first read of the event, exactly once, and every later read returns the same text (a logging decorator writes its own line at the time of the call, which is not part of the event).",
 ["inputs","histories","schedules"],"all arguments (including mutable ones), all numbers and interleavings of reads",
 "Tests read each event once and with immutable arguments.",
 ["trace_core.go"],[("eager formatting","trace_core.go newNormalStringer"),("memoised lazy formatting","trace_core.go newLazyStringer, stringer.String")],
 [("str","cached text, valid once formatted","stringer")],["Trace.Events"])
prop("C06","A category keeps exactly its most recent traces, newest first",
 "With a category capacity of C, a category always holds exactly the min(n, C) most recently added of the n traces added to it, and walking it visits each of them exactly once from newest to oldest. Adding a trace to a full category evicts exactly its oldest trace and reports that one, and never changes any other category.",
 ["histories","inputs"],"all capacities, all sequences of additions to all categories, all wrap positions",
 "Tests fill a buffer of one or two small sizes; cursor arithmetic has to be right at every wrap position and after every resize.",
 ["internal/trcringbuf/ringbuffer.go","collector.go"],[("ring cursor arithmetic","ringbuffer.go Add, Walk, Stats"),("one buffer per category","ringbuffer.go GetOrCreate")],
 [("buf, cur, len","slots, next write slot, used slots","RingBuffer")],["Collector.Search","RingBuffer.Walk","RingBuffer.Stats"])
prop("C07","Resizing keeps the newest traces and drops exactly the rest",
 "Resizing to a positive size n keeps the min(len, n) most recent items of every category in the same order, returns exactly the items that no longer fit, each once, and applies to existing categories as well as to ones created later. A zero or negative size changes nothing.",
 ["histories","inputs"],"all fill levels, wrap positions, old and new sizes, repeated resizes, any number of categories",
 "Tests resize from a few fixed states.",
 ["internal/trcringbuf/ringbuffer.go","collector.go"],[("copy out of the newest n","ringbuffer.go Resize"),("capacity recorded for new categories","ringbuffer.go RingBuffers.Resize")],
 [("cap","capacity for new categories","RingBuffers")],["Collector.SetCategorySize","Collector.Search"])
prop("C08","Search returns exactly the newest matching traces, within the limit",
 "A collector search returns only traces held by the collector that the filter allows, no trace twice, ordered from newest to oldest start, and exactly min(limit, number of matching traces) of them; within a category the most recently collected matching traces win. The total count is the number of traces held, and the statistics cover all of them whether or not they match.",
 ["inputs","histories"],"all collector contents, filters and limits",
 "Tests run a few filters over a few traces; the claim quantifies over every content, filter and limit.",
 ["collector.go","trace_static.go"],[("walk, filter, per-category limit, sort, final limit","collector.go Search"),("newest-first order","trace_static.go staticTracesNewestFirst")],[],["Collector.Search"])
prop("C09","A filter allows a trace exactly when every given condition holds",
 "Filter.Allow returns true exactly when all set conditions hold: source and ID are in the given lists, category is equal, active or finished matches, a minimum duration means finished and at least that long, success or errored matches the errored flag, and the query regular expression matches the text of some event or the function or compact file:line of some stack frame. Unset conditions, and a query that is not a valid regular expression, do not constrain, and evaluating a filter does not depend on the traces it was used on before (the query is not edited between evaluations of the same filter value).",
 ["inputs"],"all filters and all traces",
 "There are 2^9 combinations of conditions times all traces; tests sample a few.",
 ["filter.go","trace.go"],[("conjunction of early returns","filter.go Allow"),("regexp compiled once","filter.go initializeQueryRegexp")],[],["Filter.Allow"])
prop("C10","Normalizing a search request bounds it, and is idempotent",
 "After Normalize the limit is in 1 to 250 (a limit of zero or less becomes 10, one above 250 becomes 250, any other is kept), the bucketing is the requested non-negative buckets in ascending order starting at 0 (the default bucketing when none were given), and an invalid query is reported as an error and then ignored while a valid one is kept. Normalizing again changes nothing and reports nothing, and the default bucketing itself is never modified.",
 ["inputs"],"all requests",
 "Tests normalize one or two requests; negative, duplicate or unsorted buckets and repeated normalization are unseen.",
 ["search_types.go","filter.go"],[("sort, clamp, default","search_types.go Normalize")],[],["SearchRequest.Normalize"])
prop("C11","Statistics count every observed trace in exactly the right places",
 "Observing a trace adds its number of events to its category and counts it in exactly one of active (unfinished), errored (finished and errored) or the duration buckets (finished and not errored), where bucket i is incremented exactly when its bound is at most the duration; oldest and newest track the minimum and maximum start time. No other category changes, and the total count equals the number of traces observed.",
 ["inputs","histories"],"all bucketings starting at 0 in ascending order and all sequences of traces",
 "Tests observe a few traces and compare totals.",
 ["search_stats.go"],[("Observe","search_stats.go Observe"),("olderOf, newerOf","search_stats.go")],[],["SearchStats.Observe","CategoryStats"])
prop("C12","Merging statistics equals observing the union, without sharing",
 "Merging one set of statistics into another with the same bucketing gives, for every category, the sums of all counters (events, active, errored, every bucket) and the older oldest and newer newest, exactly as if all traces had been observed by one set. The merged-in statistics are left unchanged and share no memory with the result, so later changes of one never show in the other. The overall statistics are the same sums over all categories, in memory of their own, and listing all categories gives each of them once, sorted by name, followed by the overall one.",
 ["inputs","histories"],"all pairs of statistics with the same bucketing, including empty and zero ones, and all later changes",
 "Tests merge two small statistics and compare some fields.",
 ["search_stats.go"],[("SearchStats.Merge, CategoryStats.Merge","search_stats.go"),("clone","search_stats.go")],[],["SearchStats.Merge","CategoryStats.Merge","SearchStats.Overall"])
prop("C13","Snapshots never change, and taking one never changes the trace",
 "Events, search results and streamed traces are snapshots: once returned, nothing in them (entries, texts, error marks, stack frames) changes, whatever later happens to the trace: more events, Finish, eviction, recycling of its memory for other traces. Taking a snapshot, trimming its stacks or streaming it never changes what the source trace, or an earlier snapshot, reports.",
 ["histories","schedules"],"all later histories, including eviction and recycling",
 "Tests read snapshots immediately; memory reuse shows only later and under load.",
 ["trace_core.go","trace_static.go"],[("fresh event slices","trace_core.go snapshotEvents"),("stack slices dropped on free","trace_core.go coreEvent.free"),("copies before trimming","trace_static.go TrimStacks, withoutStacks")],[],["Trace.Events","NewSearchTrace","NewStreamTrace"])
prop("C14","Snapshots of a live trace are coherent",
 "A search or stream snapshot carries the source, ID, category and start of its trace unchanged; if it says finished, its duration, errored flag and events are the final ones, even if the trace was finished while the snapshot was taken; and if one of its events is an error, it says errored. A search snapshot has all events with their stacks; a stream snapshot has no stacks, all events if finished, and only the most recent one (or none if there is none) if active.",
 ["schedules","inputs"],"all interleavings of the snapshot with event and Finish calls; any implementation of the trace interface",
 "Tests snapshot quiescent traces only.",
 ["trace_static.go"],[("Finished is read first","trace_static.go NewSearchTrace, NewStreamTrace")],[],["NewSearchTrace","NewStreamTrace"])
prop("C15","The broker accounts for every publish and never blocks",
 "For every publish, each current subscriber is counted exactly once: as a skip if its filter rejects the streamed snapshot of the trace, else as a send if its channel took the trace without waiting, else as a drop; a subscriber receives exactly the traces counted as sends, in publish order, and publishing never waits for a subscriber. A channel can be subscribed at most once at a time, an unsubscribed or cancelled one receives nothing any more, and Stream returns the final counts of that subscription with the context's error.",
 ["histories","schedules","inputs"],"all numbers of subscribers, filters, buffer sizes and interleavings of publish, subscribe, cancel",
 "Tests use one subscriber and one schedule.",
 ["broker.go"],[("non-blocking select per subscriber under the broker lock","broker.go Publish"),("subscribe, wait, unsubscribe","broker.go Stream")],[("subs","current subscriptions by channel","Broker")],["Broker.Publish","Broker.Stream","Broker.StreamStats"])
prop("C16","Multi-search aggregates all searchers' answers",
 "A multi-searcher over searchers that answer in the requested buckets asks every searcher exactly once and returns, without ever failing as a whole, the sums of their total and match counts, their merged statistics, their distinct sources in ascending order, all their problems plus one for each searcher that failed or gave nothing, and the newest traces of all answers combined, newest first and at most the limit. The result does not depend on the order in which the searchers answer, except for the order of problems.",
 ["inputs","schedules"],"all numbers of searchers, answers, failures and answer orders",
 "Tests combine two collectors that both succeed.",
 ["search_types.go"],[("scatter, gather, sort, limit","search_types.go MultiSearcher.Search")],[],["MultiSearcher.Search"])
prop("C17","Prefixes, regions and decorators pass each call through exactly once",
 "Each event call on a prefixed, region, logged or published trace results in exactly one call of the same kind (error or not, lazy or not) on the wrapped trace; a prefix puts its formatted text and one space before the event text, nested prefixes from outermost (set first) to innermost, and other wrappers leave text and arguments unchanged. A region adds exactly its start event and, when ended, its end event to the trace of the context it was given, with the region name verbatim; concurrent calls never mix arguments.",
 ["inputs","programs","schedules"],"all formats, names and arguments, all nestings of wrappers",
 "Tests use fixed prefixes without arguments.",
 ["helpers.go","decorators.go"],[("format and argument concatenation","helpers.go prefixTrace"),("forwarding","decorators.go logTrace, publishTrace")],[],["trc.Prefix","trc.Region","trc.LogDecorator"])
prop("C18","A collector makes one trace per context and keeps it",
 "Creating a trace in a context that already carries one returns that same trace and context, adds one event '(+ category)' to it and collects nothing new. Otherwise exactly one new trace with the collector's source and the given category is created, decorated by the collector's decorators in order, collected in that category, and put in the returned context, from which it can be retrieved.",
 ["inputs","histories","configurations"],"all contexts, categories, decorators",
 "Tests use one collector and fresh contexts.",
 ["collector.go","helpers.go"],[("MaybeGet first","collector.go NewTrace"),("context value","helpers.go Put, Get, MaybeGet")],[],["Collector.NewTrace","trc.Get","trc.MaybeGet"])
prop("C19","A filter survives the trip through a URL",
 "Encoding any filter into a request URL that has no filter parameters yet and parsing that request again gives a filter with the same sources, IDs, category, active, finished, minimum duration, success, errored and query settings. So the remote side of a stream applies exactly the filter the client asked for.",
 ["inputs"],"all filters, including odd characters, empty strings and extreme durations",
 "No test encodes more than one or two fields.",
 ["trcweb/util.go"],[("encodeFilter, parseFilter","trcweb/util.go")],[],["StreamClient.Stream","TraceServer"])
prop("C20","The trace server answers every request within its documented bounds",
 "Whatever the request (query parameters, headers, body) and whatever the searcher returns, the search handler answers without crashing, and out-of-range or malformed parameters are clamped or replaced by defaults: limit 1 to 250 (default 10), send buffer 0 to 100000 (default 100), stats interval 1s to 60s (default 10s), unparseable buckets ignored. A parsed value in range is used as given. Every search request is answered exactly once: in HTML if the request explicitly accepts HTML and does not ask for JSON, else in JSON; with status 400 and no search if its JSON body cannot be decoded, 500 if the result cannot be rendered, else 200 with the result of exactly one search.",
 ["inputs","fault_sequences"],"all requests and all searcher outcomes",
 "Tests send a few well-formed requests.",
 ["trcweb/trace_server.go","trcweb/util.go"],[("parseRange, parseDefault, parseBucketing","trcweb/util.go"),("handleSearch","trcweb/trace_server.go"),("renderResponse, requestExplicitlyAccepts","trcweb/render.go")],[],["TraceServer.ServeHTTP"])
prop("C21","The HTTP middleware records what was sent and always finishes the trace",
 "For every request the middleware creates one trace in the given category, passes the request with a context carrying that trace and a writer that forwards everything unchanged, and finishes the trace when the handler returns or panics. The last event gives the status code that was actually sent (the first final one, 200 if only a body was written or nothing) and the number of bytes written.",
 ["programs","inputs"],"all handlers: any order of header, body and flush calls, panics, partial writes",
 "Tests use handlers that write once.",
 ["trcweb/middleware.go"],[("response interceptor","trcweb/middleware.go interceptor"),("deferred finish","trcweb/middleware.go Middleware")],[],["trcweb.Middleware"])
prop("C22","Shared state is only touched under its lock, and locks cannot deadlock",
 "Traces, collectors and brokers may be used by any number of goroutines at once: every access to their mutable state happens while holding the lock that guards it, every lock taken is released on every way out, and locks are always taken in one order without waiting for anything else while holding one. So no use of the public API by several goroutines races, deadlocks or corrupts state, as long as the owner of a finished trace no longer uses it once it was evicted.",
 ["schedules"],"all interleavings of public API calls",
 "Tests exercise one or two interleavings, without the race detector.",
 ["trace_core.go","broker.go","internal/trcringbuf/ringbuffer.go"],[("mutexes","coreTrace, Broker, RingBuffer, RingBuffers")],[],["every public method"])
prop("C23","Trace identity is fixed at creation",
 "ID, source, category and start time of a trace are those it was created with (start in UTC, taken during creation), and no event, finish, read, search, stream or decoration changes them or makes a wrapped trace report others. Traces created later in the same process get different IDs.",
 ["histories","programs"],"all histories of calls and all wrappers",
 "Tests compare identities of single traces.",
 ["trace_core.go","decorators.go","helpers.go"],[("fields written only in the constructor","trace_core.go newCoreTrace"),("embedding","decorators.go, helpers.go")],[],["Trace.ID","Trace.Source","Trace.Category","Trace.Started"])
prop("C24","Recycled memory never leaks between traces",
 "A newly created trace is always pristine (no events, not finished, not errored, no truncation, the current default maximum), whatever trace its memory served before. The memory of a trace is only recycled after it was evicted from its collector and only if it was finished; an unfinished evicted trace keeps working for those who still hold it.",
 ["histories","schedules"],"all sequences of create, use, finish, evict, resize",
 "Pool reuse is nondeterministic and tests create few traces.",
 ["trace_core.go","collector.go"],[("every field reset","trace_core.go newCoreTrace"),("Free refuses active traces","trace_core.go Free"),("maybeFree on eviction only","collector.go")],[],["trc.New","Collector.NewTrace","Collector.SetCategorySize"])
prop("C25","A remote search or stream gives what the remote collector gave",
 "Searching through a search client makes at most one HTTP request, with the caller's context, carrying exactly the given search request as JSON to the client's URI (http:// added if it has no scheme). If the server's searcher succeeds, the client returns the sources, counts, traces with their events and stacks, statistics, problems and duration that the searcher returned for that request (normalized). A request that cannot be made, a status other than 200 or an answer that cannot be decoded gives an error and no response; without an error there is a response; and the response body is always closed. A stream client delivers to its channel the traces that the server's streamer delivered, each once, in order, as objects of their own that later events do not change. Texts are assumed to be valid UTF-8 and times to be in the years 0 to 9999, as JSON requires.",
 ["inputs","fault_sequences","histories"],"all requests, answers, status codes and failures; all sequences of stream events",
 "No test fails a request or compares what arrives with what was sent.",
 ["trcweb/trace_server.go","trcweb/render.go"],[("request, status check, decoding, deferred close","trcweb/trace_server.go SearchClient.Search"),("one object per event","trcweb/trace_server.go StreamClient.Stream"),("what is encoded","trcweb/trace_server.go handleSearch, handleStream; trcweb/render.go renderJSON")],[],["trcweb.NewSearchClient","SearchClient.Search","StreamClient.Stream"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(p)+"\n" for p in P))
