#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as code so that lines stay well formed).
import json, os
R='bin/router/src/'
S='lib/hive-console-sdk/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m) for n,m in (state or [])],
        observe_at=obs or ["HTTP responses to clients","requests received by simulated subgraphs"],hook_needed=None)))
p("P01","A federated query answers exactly what one server holding all data would",
 "For every valid query against a composed supergraph and every order, delay, chunking and batching in which healthy subgraphs answer, the response data equals, including the order of keys and list items, the result of executing the query on a single server that holds all the data. The response carries no errors entry. It does not depend on which other queries run concurrently or were answered before.",
 ["inputs","schedules","histories"],"all supergraphs in the generated family x all valid queries with variables, fragments, aliases, @skip/@include, abstract types and entity joins x all subgraph response schedules",
 "Tests compare a few fixed queries against instantly answering mock subgraphs; plan shape, merge order of parallel and batched entity fetches, and cache reuse across requests are not sampled.",
 [R+'executor/execution/plan.rs',R+'executor/projection',R+'executor/response',R+'pipeline/normalize.rs',R+'pipeline/query_plan.rs'],
 [("plan execution: Sequence/Parallel/BatchFetch/Flatten",R+'executor/execution/plan.rs'),("response merge and projection",R+'executor/projection')],
 [("final response tree","partially merged data of the request")])
p("P02","A failing subgraph costs only its own fields, reported as errors",
 "Whatever way subgraph requests fail (refused or reset connection, truncated or malformed body, HTTP error status, error entries, timeout), the client still gets a well-formed GraphQL response in which every non-null value equals the fault-free value. Fields that could not be obtained are null, a non-nullable field that is null nulls its nearest nullable parent, and if any requested data is missing there is at least one errors entry. Fields that depend only on healthy subgraphs keep their values.",
 ["fault_sequences","schedules","inputs"],"all placements of subgraph faults at any byte and any request of a plan, under all schedules",
 "Tests cover a handful of error bodies for one subgraph; they do not place faults at every fetch and byte offset nor combine them with parallel fetch completion orders.",
 [R+'executor/execution/plan.rs',R+'executor/executors/http.rs',R+'executor/projection'],
 [("fetch error handling and null propagation",R+'executor/execution/plan.rs')])
p("P03","Mutation root fields run one after another, in order, at most once",
 "The upstream requests for the root fields of a mutation are sent strictly in the order of the operation, each only after the previous one was answered. For one client request, each root field is sent upstream at most once, however slowly or unreliably subgraphs respond, and identical concurrent mutations from different requests are each executed separately.",
 ["schedules","fault_sequences","inputs"],"all mutation operations x latencies, faults and concurrent identical requests",
 "Tests check one mutation order with instant subgraphs; duplicates through de-duplication, retries or timeouts need overlapping identical mutations and faults.",
 [R+'pipeline/mod.rs',R+'executor/executors/http.rs',R+'executor/execution/plan.rs',R+'executor/executors/dedupe.rs'],
 [("dedupe only for queries",R+'executor/executors/http.rs'),("sequence node for mutations",R+'query_planner')],
 None,["requests received by simulated subgraphs with begin and end times"])
p("P04","Request de-duplication never mixes two different requests",
 "With in-flight request de-duplication enabled at the router, a client receives a response that is correct for its own operation, variables, operation name and for its own values of the headers configured to take part in the key, no matter which requests overlap with it or are cancelled. If the request whose execution was being shared is abandoned by its client, the others are still answered. Requests that overlap while identical get identical answers.",
 ["schedules","inputs","fault_sequences"],"all sets of overlapping requests that differ in any key component x all interleavings, client disconnects and subgraph delays",
 "Tests send simultaneous identical requests and look at the count; overlap windows of nearly identical requests, leader cancellation and repeated header values are schedules they do not reach.",
 [R+'pipeline/mod.rs',R+'shared_state.rs'],[("router dedupe fingerprint",R+'pipeline/mod.rs'),("shared in-flight response",R+'shared_state.rs')],
 [("in-flight map","fingerprint to shared response")])
p("P05","Subgraph request de-duplication never mixes two different upstream requests",
 "With de-duplication of identical in-flight subgraph requests enabled, two fetches share one upstream exchange only if they would have sent the same method, target, headers and body, and every participant gets that exchange's answer or its own failure. A failed or abandoned leader does not leave followers hanging. With it disabled every fetch is sent.",
 ["schedules","inputs","fault_sequences"],"all overlapping client requests whose subgraph fetches differ in any header (including repeated header values) or body byte, and all completion orders, cancellations and failures",
 "Tests count upstream requests for identical queries; they do not overlap requests differing in a propagated multi-value header or cancel a leader midway.",
 [R+'executor/executors/dedupe.rs',R+'executor/executors/http.rs',R+'executor/executors/map.rs'],
 [("request fingerprint",R+'executor/executors/dedupe.rs'),("in-flight map",R+'executor/executors/http.rs')],None)
p("P06","Configured timeouts bound every request in time",
 "A client request is answered no later than the configured router request timeout (plus scheduling slack) even when a subgraph accepts the connection and never sends headers, or sends headers and then stalls in the middle of the body; a subgraph slower than its own configured timeout yields a GraphQL error within that timeout, and a subgraph that answers within the timeout is never reported as timed out. Long-lived subscription streams are not cut by these timeouts.",
 ["schedules","fault_sequences","configurations"],"all stall points (connect, headers, any body byte) x timeout values incl. expression-based x concurrent requests",
 "Tests use real sleeps before the first byte for one or two values; stalls inside the body and timer races need a controlled clock.",
 [R+'pipeline/timeout.rs',R+'executor/executors/http.rs',R+'executor/executors/map.rs',R+'config/traffic_shaping.rs'],
 [("router timeout",R+'pipeline/timeout.rs'),("subgraph timeout",R+'executor/executors/http.rs')])
p("P07","Schema reload is atomic for requests and never loses the last good schema",
 "Every request is validated, planned and executed against exactly one supergraph version, which was current at some moment between its arrival and its response. An invalid new supergraph leaves the previous version serving. When a new version takes over, active subscriptions are terminated with a schema-reload error and new requests use the new version.",
 ["schedules","histories","fault_sequences"],"all interleavings of reload steps with requests, subscriptions and cache lookups; valid and invalid new schemas",
 "Tests swap the schema once while idle; requests overlapping the swap and cache entries surviving it depend on interleavings.",
 [R+'schema_state.rs',R+'supergraph',R+'cache_state.rs',R+'pipeline/active_subscriptions.rs'],
 [("atomic snapshot swap",R+'schema_state.rs'),("close active subscriptions on swap",R+'schema_state.rs')],
 [("current supergraph","snapshot used by new requests")])
p("P08","The router converges to the newest published supergraph once faults stop",
 "While polling its configured supergraph source (file, Hive CDN with fallback endpoints, object storage or GraphOS Uplink) the router keeps serving through any sequence of errors, timeouts, truncated bodies and not-modified answers. Once the source is healthy for a few poll intervals, it serves the newest valid published version, and it never serves a supergraph that was not published.",
 ["fault_sequences","histories","schedules"],"all sequences of publications and source faults at any byte, then a fault-free suffix",
 "Tests poll one healthy mock server; missed updates after a partial download or error need fault sequences and long simulated time.",
 [R+'supergraph',S+'supergraph_fetcher',S+'circuit_breaker.rs',R+'schema_state.rs'],
 [("etag-conditional polling with fail-over",S+'supergraph_fetcher/async_fetcher.rs'),("mtime polling",R+'supergraph/file.rs')],
 [("etag","last seen version tag")],["probe query answers over simulated time","requests at the simulated source"])
p("P09","The subgraph circuit breaker opens on sustained failure, and always recovers",
 "With a circuit breaker configured, once the observed failure share of the sampled requests exceeds the threshold, further requests to that subgraph fail fast without reaching it until the reset timeout has passed; other subgraphs are unaffected. It never opens while failures stay below the threshold. After the subgraph becomes healthy it is used again within a bounded number of probe requests after the reset timeout.",
 ["fault_sequences","schedules","configurations"],"all success/failure sequences, concurrency and abandoned requests around state transitions",
 "Tests drive one open/close cycle sequentially with real sleeps; concurrent probes, cancelled probes and timer edges are not reached.",
 [R+'executor/executors/http.rs',R+'executor/executors/map.rs',R+'config/traffic_shaping.rs'],
 [("circuit breaker around send_request",R+'executor/executors/http.rs')],[("breaker state","closed/open/half-open per subgraph")])
p("P10","Subscribers get every event once, in order, then a proper end",
 "For a subscription over any supported client transport (SSE, multipart, WebSocket) and any supported subgraph transport (SSE, multipart, WebSocket, HTTP callback), a subscriber that keeps reading receives the upstream events that follow its joining in order, without loss, duplication or corruption, however the bytes are split and whether or not its subscription is shared with others. The stream ends if and only if the upstream ended, failed or was replaced by a reload, with an error in the latter two cases. A subscriber that falls further behind than the configured buffers may miss events in between, never the end or an error. When the last subscriber leaves, the upstream subscription is released.",
 ["schedules","fault_sequences","inputs"],"all event sequences and payload contents, all splits into network chunks, joins, leaves, slow consumers and upstream failures",
 "Tests stream a few fixed events to one reader; byte-level splits, payloads resembling delimiters, shared subscriptions with joins and leaves at any time are not sampled.",
 [R+'pipeline/active_subscriptions.rs',R+'executor/executors/sse.rs',R+'executor/executors/multipart_subscribe.rs',R+'executor/executors/subscription_buffer.rs',R+'pipeline/sse.rs',R+'pipeline/multipart_subscribe.rs',R+'executor/execution/plan.rs'],
 [("broadcast fan-out",R+'pipeline/active_subscriptions.rs'),("stream parsers",R+'executor/executors')],None,
 ["client streams","upstream connections closing"])
p("P11","The WebSocket endpoint follows the graphql-transport-ws protocol",
 "On every client WebSocket connection: nothing is executed before acknowledgement, an unacknowledged or misbehaving connection is closed with the code the protocol assigns, each accepted operation id gets zero or more next messages followed by exactly one terminal message (error or complete) and nothing after it, and nothing at all after the client completed it. A pending operation id cannot be used twice. A client's complete or disconnect releases the operation's upstream work.",
 ["schedules","histories","inputs"],"all client message sequences and timings (incl. complete or duplicate id while the operation is still being prepared, disconnects) x subgraph latencies",
 "Tests run well-behaved scripts with fast subgraphs; races between a client message and an operation in preparation are schedule dependent.",
 [R+'pipeline/websocket_server.rs',R+'executor/executors/graphql_transport_ws.rs'],[("per-connection subscription table",R+'pipeline/websocket_server.rs')],
 [("subscriptions","active operation ids")],["frames at the simulated client"])
p("P12","Shared upstream WebSocket connections keep operations apart",
 "When operations from different clients share a pooled WebSocket connection to a subgraph, each operation receives only the messages addressed to it, and only operations whose connection-relevant headers are identical share a connection. Losing the connection ends each operation on it with an error, completing one operation leaves the others running, and an idle pooled connection is eventually closed.",
 ["schedules","fault_sequences","histories"],"all interleavings of operations starting, completing, failing on shared connections; connection loss at any byte",
 "Tests open two subscriptions on one connection without faults.",
 [R+'executor/executors/websocket_pool.rs',R+'executor/executors/websocket.rs',R+'executor/executors/websocket_client.rs',R+'pipeline/mod.rs'],
 [("connection pool keyed by fingerprint",R+'executor/executors/websocket_pool.rs'),("dispatch by operation id",R+'executor/executors/websocket_client.rs')],None,
 ["frames at the simulated subgraph","client streams"])
p("P13","HTTP callback subscriptions accept only their own subgraph's messages",
 "An event posted to the callback endpoint reaches a subscriber only if it carries the id and verifier the router issued for that active subscription and arrives before its completion; anything else is refused and delivers nothing. A subgraph that misses its heartbeat deadline has the subscription terminated with an error within a bounded time, and one that keeps it up is never terminated for it.",
 ["schedules","fault_sequences","histories"],"all sequences and timings of check/next/complete/heartbeat calls, valid or forged, and clock progress",
 "Tests use short real-time waits and a well-behaved subgraph; deadline edges and late, duplicated or forged messages around termination are not sampled.",
 [R+'pipeline/http_callback.rs',R+'executor/executors/http_callback.rs'],[("verifier check",R+'pipeline/http_callback.rs'),("heartbeat enforcement",R+'executor/executors/http_callback.rs')],
 [("active callback subscriptions","id to verifier, sender, last heartbeat")],["callback endpoint responses","client streams"])
p("P14","JWT checks accept exactly the valid tokens while keys rotate and fail",
 "A request is treated as authenticated only if its token is signed by a key currently served by a configured key source (up to its polling interval), unexpired up to a minute of clock leeway and a few seconds of caching, and matches the configured issuers and audiences. A valid token whose key has been fetched is never rejected because a key refresh is running or failing. When authentication is required, a request without a valid token never reaches a subgraph.",
 ["schedules","fault_sequences","histories"],"all token ages around expiry, key rotation and key-source fault schedules, concurrent requests during refresh",
 "Tests sign a few tokens against a static key file; refresh races, rotation and expiry inside cache windows need virtual time.",
 [R+'jwt/mod.rs',R+'jwt/jwks_manager.rs'],[("claims cache",R+'jwt/mod.rs'),("background key refresh",R+'jwt/jwks_manager.rs')],[("claims cache","token to validated claims"),("key sets","latest keys per source")])
p("P15","One request's authorization never leaks into another",
 "For any mix of concurrent requests with different or no credentials running the same operations, no client receives a value guarded by @authenticated or @requiresScopes that its own credentials do not allow and no subgraph is asked for a field on behalf of a request that is not allowed to see it. Each fully authorised request gets the complete answer. This holds with all caches and de-duplication on.",
 ["schedules","histories","inputs"],"all interleavings of same-operation requests with differing scopes over warm and cold caches",
 "Tests authorize one request at a time on a cold cache.",
 [R+'pipeline/authorization',R+'pipeline/query_plan.rs',R+'pipeline/mod.rs',R+'cache_state.rs'],
 [("authorization filter and its effect on plan cache keys",R+'pipeline/authorization')],[("plan cache","normalized operation hash to plan")])
p("P16","A persisted document id always resolves to its published text",
 "A request naming a persisted document id executes the text published under that id, never another one's, and an unknown id or (when ids are required) an ad-hoc document is refused. Temporary errors of the document store never turn a published document into a lasting not-found. After a manifest reload new ids resolve, and a broken manifest leaves the previous one in use.",
 ["fault_sequences","histories","schedules"],"all orders of publication, lookup, store faults, manifest rewrites and cache expiry",
 "Tests resolve one id from a healthy store; negative caching after faults and changes between read and watch need fault sequences and time.",
 [R+'pipeline/persisted_documents',S+'persisted_documents.rs'],[("document cache and negative cache",S+'persisted_documents.rs'),("manifest watch",R+'pipeline/persisted_documents/resolve/fs.rs')])
p("P17","The long-lived client limit is exact and its slots are always returned",
 "At no time are more WebSocket and streaming clients admitted than configured; a client over the limit is refused with 503 and ordinary requests are never counted. Every slot is returned when its client goes away, however it goes (completion, disconnect, error, refused handshake, reload), so that after any history in which all clients left, the full number can be admitted again.",
 ["histories","schedules","fault_sequences"],"all histories of connects, refused operations, disconnects and stream endings",
 "Tests check one refusal; slot leaks show only after particular histories of failures and disconnects.",
 [R+'pipeline/long_lived_client_limit.rs',R+'pipeline/mod.rs'],[("slot guard",R+'pipeline/long_lived_client_limit.rs')],[("active counter","admitted long-lived clients")])
p("P18","Usage reports count each operation once and survive endpoint failures",
 "With usage reporting enabled and nothing excluded or sampled out, every executed operation is reported exactly once, with its own operation text, success flag and client identity, in batches no larger than the buffer allows, while the endpoint is healthy. Failures or slowness of the endpoint never delay or fail client requests. Reports pending at graceful shutdown are flushed.",
 ["fault_sequences","schedules","histories"],"all request histories x reporting endpoint delays and errors x shutdown times",
 "Tests look at one flush to a healthy endpoint.",
 [R+'pipeline/usage_reporting.rs',S+'agent'],[("buffer and flush loop",S+'agent')],[("buffer","reports not yet sent")],["reports received by the simulated endpoint"])
p("P19","Response headers and cache policy do not depend on subgraph timing",
 "Headers forwarded to subgraphs follow the configured rules for that very request, and headers and cache-control sent to the client are the configured combination of those of the subgraph responses used for it: the most restrictive cache policy wins whichever subgraph answers first, and append, first-write and last-write rules take responses in plan order wherever that order is defined. No header of one client's request reaches a subgraph on behalf of another.",
 ["schedules","inputs","configurations"],"all completion orders of parallel fetches x header values x rules",
 "Tests use instantly answering subgraphs, so one completion order.",
 [R+'executor/headers'],[("response header aggregation",R+'executor/headers/response.rs')])
p("P20","Coprocessor stages run in order and a failing coprocessor fails closed",
 "For each request, configured coprocessor stages are invoked in pipeline order, each at most once per stage occurrence, with that request's own data, and mutations they return are what the rest of the pipeline uses. If a coprocessor breaks, stalls past its timeout or answers garbage, the client gets an error within that timeout and nothing beyond that stage happens; a break instruction is answered with exactly its status and body.",
 ["fault_sequences","schedules"],"all coprocessor faults at any stage and byte, delays, and concurrent requests",
 "Tests exercise each stage with an instantly answering mock; partial bodies and stalls are not sampled.",
 [R+'executor/coprocessor'],[("stage runtime",R+'executor/coprocessor/runtime.rs'),("client",R+'executor/coprocessor/client.rs')],None,["calls at the simulated coprocessor","client responses"])
p("P21","Shutdown is graceful and complete",
 "On a termination signal the router stops accepting new connections, finishes requests already being processed if they end within the shutdown period, and exits within a bounded time with all background tasks stopped, whatever subgraphs, subscriptions or reporting endpoints are doing at that moment.",
 ["crash_points","schedules","fault_sequences"],"termination signals at any time relative to requests, subscriptions, polls and flushes",
 "Tests do not signal the process.",
 [R+'lib.rs',R+'background_tasks/mod.rs'],[("background task manager",R+'background_tasks/mod.rs'),("server shutdown",R+'lib.rs')],None,["process exit time","client responses"])
p("P22","Request limits hold however the request arrives",
 "The request body limit and the depth, token, alias and directive limits accept or refuse a request depending only on its content, not on how it is split into packets or chunks, how slowly it comes, what was cached or what runs concurrently. A request over the body limit is refused with 413 and never executed, and one within all limits is never refused for them.",
 ["inputs","schedules","histories"],"all sizes around each limit x chunkings x content-length or chunked transfer x warm or cold caches",
 "Tests send one over-limit body in one piece.",
 [R+'http_utils/body.rs',R+'pipeline/parser.rs',R+'config/limits.rs'],[("streaming body limit",R+'http_utils/body.rs')])
p("P23","Error masking leaves no subgraph detail in any response",
 "With error masking on, no error message or extension text produced by a masked subgraph, and no internal transport error detail about it, reaches any client over any transport (plain, streaming or WebSocket), whatever way the subgraph fails. Subgraphs and extension keys configured as exposed keep theirs.",
 ["fault_sequences","inputs","configurations"],"all failure modes at any byte x transports x masking configurations",
 "Tests mask one well-formed error body over plain HTTP.",
 [R+'executor/execution',R+'config/error_masking.rs'],[("error masking runtime",R+'executor/execution')])
p("P24","Planning and answers are the same on every worker, run and cache state",
 "Given the same supergraph and request, every worker thread, process start and cache state (cold, warm, evicted) yields the same query plan, the same upstream requests and the same response. In particular map iteration order or hash seeds never show, except in the order of the members of a JSON object that has no order (upstream variables, the exposed plan).",
 ["histories","schedules","configurations"],"all hash seeds, worker assignments, cache states and concurrent planning of the same operation",
 "Each test process uses one hash seed and a cold cache.",
 [R+'pipeline/query_plan.rs',R+'pipeline/normalize.rs','lib/graphql-tools',R+'query_planner'],[("plan cache",R+'pipeline/query_plan.rs')])
p("P25","Percentage-based field overrides decide once per request",
 "With progressive overrides by percentage or expression, one request uses one decision per label in all its steps, its answer is the same whichever subgraph is chosen, and cached plans of one decision never serve a request with the other. Labels at 0 or 100 percent, or set by expression, are obeyed in every request.",
 ["schedules","histories","inputs"],"all random draws, cache states and concurrent requests",
 "Tests fix one percentage per test and one request.",
 [R+'pipeline/progressive_override.rs',R+'pipeline/query_plan.rs'],[("override decision in plan cache key",R+'pipeline/query_plan.rs')])
p("P26","Malformed or hostile peers never take the router down",
 "Whatever bytes clients, subgraphs, callbacks, WebSocket peers or a coprocessor send or omit, the process keeps running, other requests keep being answered correctly within bounded time, and each malformed request gets an error response or a closed connection. Connections and tasks of departed peers are released.",
 ["fault_sequences","inputs","schedules"],"all mutations, truncations and stalls of well-formed traffic on any connection",
 "Tests send well-formed traffic and a few fixed malformed inputs.",
 [R+'lib.rs',R+'pipeline',R+'executor/executors'],[("error handling in pipeline",R+'pipeline/error.rs')])
p("P27","Demand control enforces cost limits identically under load",
 "An operation whose estimated cost exceeds the configured maximum is refused before any subgraph is contacted and one at or below it is executed, in any cache state and under any concurrency. Per-subgraph limits refuse only that subgraph's fetches, and the reported cost figures depend only on operation, variables and responses.",
 ["inputs","histories","schedules"],"all operations around the limit with variable-dependent list sizes, over warm and cold caches and any completion order",
 "Tests compute costs of single requests on a cold cache.",
 [R+'pipeline/demand_control'],[("cost estimation",R+'pipeline/demand_control')])
p("P28","CORS headers follow the configured origin policy",
 "Cross-origin response headers are a function of the configuration and the request's origin and method headers only.",
 ["inputs","configurations"],"all origins and policies","Tests sample origins; no schedule or fault is involved.",
 [R+'pipeline/cors.rs'],[("cors plan",R+'pipeline/cors.rs')])
p("P29","CSRF prevention refuses exactly the simple requests",
 "With CSRF prevention on, a request a browser could send without preflight and that lacks a required header is refused, others are not.",
 ["inputs","configurations"],"all header combinations","Tests sample header combinations; no schedule or fault is involved.",
 [R+'pipeline/csrf_prevention.rs'],[("csrf check",R+'pipeline/csrf_prevention.rs')])
p("P30","Validation accepts exactly the documents the GraphQL specification allows",
 "A document is executed if and only if it satisfies the specification's validation rules for the consumer schema.",
 ["inputs"],"all documents and schemas","Rule-by-rule unit tests sample documents; no schedule or fault is involved.",
 ['lib/graphql-tools/src/validation',R+'pipeline/validation'],[("validation rules",'lib/graphql-tools/src/validation')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
